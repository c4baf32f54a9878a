V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
WRAP = r'''
    struct W;
    impl Fonts for W {
        fn measure(&self, text: &str, face: &FontFace, max: Option<f32>) -> [f32; 2] {
            let width = text.len() as f32 * face.size / 2.0;
            match max {
                Some(max) if max < width => [max, face.size * if max > 0.0 { (width / max).ceil() } else { 0.0 }],
                _ => [width, face.size],
            }
        }
    }
    fn wrapped(body: &str, css: &str) -> View {
        View::from_html(&format!("<html><body>{body}</body></html>"), css, "", W, Box::new(T)).expect("loads")
    }
'''
bug("c20-time-millis","C20",[(S+"mod.rs","let time = input.time.as_secs_f32();","let time = input.time.as_millis() as f32 / 1000.0;")],
r'''
    let mut v = view("<div></div>", "@keyframes a { from { opacity: 0; } to { opacity: 1; } } div { animation: 1s a; }");
    let tick = |v: &mut View| { v.update(Input::new().time(Duration::from_nanos(7812500)), json!({})).expect("updates"); };
    for _ in 0..65 { tick(&mut v); }
    same((child(&v, &[0]).opacity * 100.0).round(), 50.0);
''',"frames of a fraction of a millisecond more than a whole number of them, many in a row","an animation falls behind the elapsed time")
bug("c20-half-iteration","C20",[(A,"t.min(iterations * self.duration)","t.min(iterations.max(1.0) * self.duration)")],
r'''
    let mut v = view("<div></div>", "@keyframes a { from { opacity: 0; } to { opacity: 1; } } div { animation-name: a; animation-duration: 1s; animation-iteration-count: 0.5; }");
    up(&mut v, json!({}));
    for _ in 0..8 { ms(&mut v, 250, json!({})); }
    same(child(&v, &[0]).opacity, 0.5);
''',"an iteration count below one","the animation runs to its end")
bug("c14-inline-empty","C14",[(V,"Ok(style) => element.style = style,","Ok(style) if style.is_empty() => {}\n                        Ok(style) => element.style = style,")],
r'''
    let mut v = view("<div @style=\"{s}\"></div>", "div { opacity: 0.5; }");
    up(&mut v, json!({"s": "opacity: 0.25;"}));
    same(child(&v, &[0]).opacity, 0.25);
    up(&mut v, json!({"s": ""}));
    same(child(&v, &[0]).opacity, 0.5);
''',"an inline style which becomes empty","the declarations of the inline style before stay")
bug("c17-current-color","C17",[(V,"sizes.parent_color = element.color;","if node == self.body || !self.tree.get_element(child)?.styles.is_empty() {\n                        sizes.parent_color = element.color;\n                    }")],
r'''
    let mut v = view("<div><p @style=\"{s}\"></p></div>", "body { color: red; } div { color: blue; }");
    up(&mut v, json!({"s": "background-color: currentcolor;"}));
    same(child(&v, &[0, 0]).backgrounds[0].color, [0, 0, 255, 255]);
''',"currentcolor in the inline style of an element without rules, below an element with another color","the color of an outer element is used")
bug("c02-negative","C02",[("src/value.rs","value != 0.0","value > 0.0")],
r'''
    let mut v = view("<div ?=\"{a}\"></div>", "");
    up(&mut v, json!({"a": -0.5}));
    same(tree(&v), "body(div())");
''',"a condition with a negative number","the element is not displayed")
bug("c22-measure-cache","C22",[(V,"let [width, height] = fonts.measure(&text, &element.font, max_width);",'''thread_local! {
            static MEASURED: std::cell::RefCell<HashMap<(String, u32, Option<u32>), [f32; 2]>> =
                Default::default();
        }
        let key = (text, element.font.size.to_bits(), max_width.map(f32::to_bits));
        let [width, height] = MEASURED.with(|measured| {
            *measured
                .borrow_mut()
                .entry(key)
                .or_insert_with_key(|(text, _, _)| fonts.measure(text, &element.font, max_width))
        });''')],
r'''
    struct B;
    impl Fonts for B {
        fn measure(&self, text: &str, face: &FontFace, _: Option<f32>) -> [f32; 2] {
            [text.len() as f32 * if face.weight > 500 { 10.0 } else { 8.0 }, 16.0]
        }
    }
    let mut v = View::from_html("<html><body><div @class=\"{c}\">abc</div></body></html>", "div { position: absolute; } .b { font-weight: 700; }", "", B, Box::new(T)).expect("loads");
    up(&mut v, json!({"c": ""}));
    same(child(&v, &[0]).size, [24.0, 16.0]);
    up(&mut v, json!({"c": "b"}));
    same(child(&v, &[0]).size, [30.0, 16.0]);
''',"the same text in the same size, with another weight","the size of the text is that with the weight before")
bug("c22-min-content","C22",[(V,"AvailableSpace::MinContent => Some(0.0),","AvailableSpace::MinContent => None,")],
WRAP+r'''
    let mut v = wrapped("<div>abcdefghij<p></p>abcdefghij</div>", "div { display: flex; width: 100px; } p { width: 10px; }");
    up(&mut v, json!({}));
    same(child(&v, &[0, 2]).position[0] + child(&v, &[0, 2]).size[0] <= 100.0, true);
''',"texts in a row which is too narrow, with a font which breaks them","the texts overflow instead of being broken")
bug("c19-rem-body","C19",[(V,"                for child in children {\n                    sizes.parent_font_size = element.font.size;","                for child in children {\n                    if node == self.body {\n                        sizes.root_font_size = element.font.size;\n                    }\n                    sizes.parent_font_size = element.font.size;")],
r'''
    let mut v = view("<div></div>", "body { font-size: 20px; } div { width: 2rem; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).size[0], 32.0);
''',"a font size of the body together with rem","rem is relative to the font size of the body")
bug("c15-hidden-sibling","C15",[(M,".and_then(|parent| tree.children(parent).ok())",".and_then(|parent| tree.get_node_context(parent))\n            .map(|parent| parent.children.clone())")],
r'''
    let mut v = view("<div class=\"a\"></div><div ?=\"{x}\"></div><p></p>", ".a + p { opacity: 0.5; }");
    up(&mut v, json!({"x": true}));
    same(child(&v, &[2]).opacity, 1.0);
    up(&mut v, json!({"x": false}));
    same(child(&v, &[1]).opacity, 0.5);
''',"an element which is not displayed between two others","siblings which are not displayed count for the + combinator")
bug("c08-leave-cancels","C08",[(VM,"                            element.state.hover = false;\n                            let event","                            element.state.hover = false;\n                            element.state.active = false;\n                            let event")],
r'''
    let mut v = view("<div ^onclick=\"hit\"></div>", "div { width: 50px; height: 50px; }");
    same(ev(&mut v, &[go(5.0, 5.0), DOWN], json!({})).len(), 0);
    ev(&mut v, &[go(200.0, 5.0)], json!({}));
    ev(&mut v, &[go(5.0, 5.0)], json!({}));
    same(ev(&mut v, &[UP], json!({})), vec!["hit"]);
''',"the mouse leaves a pressed element and comes back before the release","there is no click")
bug("c12-coalesce","C12",[(VM,"        for event in events {\n            match event {\n                InputEvent::Unknown => {}","        let next: Vec<bool> = events\n            .iter()\n            .skip(1)\n            .map(|event| matches!(event, InputEvent::MouseMove(_)))\n            .chain([false])\n            .collect();\n        for (event, moved) in events.into_iter().zip(next) {\n            match event {\n                InputEvent::MouseMove(_) if moved => {}\n                InputEvent::Unknown => {}")],
r'''
    let mut v = view("<div ^onmouseenter=\"in\" ^onmouseleave=\"out\"></div>", "div { width: 50px; height: 50px; }");
    ev(&mut v, &[go(200.0, 5.0)], json!({}));
    same(ev(&mut v, &[go(5.0, 5.0), go(200.0, 5.0)], json!({})), vec!["in", "out"]);
''',"several moves of the mouse in one update","only the last of them is processed")
bug("c09-refocus","C09",[(VM,"if Some(node) != self.focus {\n                                self.focus = Some(node);","if Some(node) != self.focus || button == MouseButtons::Right {\n                                self.focus = Some(node);")],
r'''
    let mut v = view("<div ^oninput=\"i\" ^onfocus=\"f\" ^onblur=\"b\"></div>", "div { width: 50px; height: 50px; }");
    same(ev(&mut v, &[go(5.0, 5.0), DOWN], json!({})), vec!["f"]);
    ev(&mut v, &[UP], json!({}));
    same(ev(&mut v, &[RDOWN], json!({})).len(), 0);
''',"a right press on the element which has focus","the element gets focus again without having lost it")
bug("c05-null","C05",[(VM,"if binding.pipe.len() > 0 {\n                    let mut value","if binding.pipe.len() > 0 && !value.is_null() {\n                    let mut value")],
r'''
    let mut v = view("<div>{a | or}</div>", "").pipe("or", |v| if v.is_null() { json!("none") } else { v });
    up(&mut v, json!({"a": "x"}));
    same(tree(&v), "body(div(x))");
    up(&mut v, json!({}));
    same(tree(&v), "body(div(none))");
''',"a pipe which makes something of null","the pipe is not applied to null")
bug("c13-cursor-auto","C13",[(VM,"                if let Pointer::Auto = element.pointer {\n                } else {\n","                if element.text.is_some() || self.output.pointer == element.pointer {\n                } else {\n")],
r'''
    let mut v = view("<div><p></p></div>", "div { width: 50px; height: 50px; cursor: help; } p { width: 10px; height: 10px; }");
    let out = v.update(Input::new().event(go(5.0, 5.0)), json!({})).expect("updates");
    let out = v.update(Input::new().event(go(5.0, 5.0)), json!({})).expect("updates");
    same(format!("{:?}", out.pointer), "Help");
''',"an element without cursor inside of one with a cursor","the pointer shape becomes auto")
bug("c01-same-length","C01",[("src/element.rs","self.spans[span] = value;","if self.spans[span].len() == value.len() && value.len() > 24 {\n            return;\n        }\n        self.spans[span] = value;")],
r'''
    let mut v = view("<div>{a}</div>", "");
    up(&mut v, json!({"a": "abcdefghijklmnopqrstuvwxyz"}));
    up(&mut v, json!({"a": "abcdefghijklmnopqrstuvwxy!"}));
    same(tree(&v), "body(div(abcdefghijklmnopqrstuvwxy!))");
''',"a long text replaced by one of the same length","the text before stays")
bug("c10-enter-source","C10",[(VM,"if self.drag.is_some() {\n                                let event = MouseEvent::new(self.mouse, element);\n                                self.emit(element, \"ondragenter\", event);","if self.drag.as_ref().is_some_and(|drag| drag.source != *node) {\n                                let event = MouseEvent::new(self.mouse, element);\n                                self.emit(element, \"ondragenter\", event);")],
r'''
    let mut v = view("<div draggable=\"true\" ^ondragenter=\"e\" ^ondragleave=\"l\"></div>", "div { width: 50px; height: 50px; }");
    ev(&mut v, &[go(5.0, 5.0), DOWN], json!({}));
    same(ev(&mut v, &[go(200.0, 5.0)], json!({})), vec!["l"]);
    same(ev(&mut v, &[go(5.0, 5.0)], json!({})), vec!["e"]);
''',"the mouse comes back to the dragged element","ondragenter is missing")
bug("c04-locals-key","C04",[(VM,"if tail.len() > 0 {\n            format!(\"{head}/{}\", tail.join(\"/\"))","if tail.len() > 0 {\n            let tail: Vec<&str> = tail.iter().map(|key| key.trim_end_matches('-')).collect();\n            format!(\"{head}/{}\", tail.join(\"/\"))")],
r'''
    let mut v = view("<div>{a.b-}</div>", "");
    up(&mut v, json!({"a": {"b-": "x", "b": "y"}}));
    same(tree(&v), "body(div(x))");
''',"a field whose name ends with a dash","another field is displayed")
bug("c21-unit","C21",[(A,"if a.unit != b.unit {","if a.unit != b.unit || (a.value == b.value * 2.0) {")],
r'''
    let mut v = view("<div @class=\"{c}\"></div>", "div { width: 80px; transition: width 1s; } .k { width: 40px; }");
    up(&mut v, json!({"c": ""}));
    up(&mut v, json!({"c": ""}));
    up(&mut v, json!({"c": "k"}));
    ms(&mut v, 250, json!({"c": "k"}));
    same(child(&v, &[0]).size[0], 70.0);
''',"a transition to half of the value before","the value jumps")
bug("c07-exclusive","C07",[(VM,"let current = self.elements_under_mouse.clone();\n                    for node in current.iter().rev() {","let mut current = self.elements_under_mouse.clone();\n                    current.truncate(64);\n                    for node in current.iter().rev() {")],
r'''
    let body = format!("{}<div ^onmouseenter=\"in\">x</div>{}", "<p>".repeat(66), "</p>".repeat(66));
    let mut v = view(&body, "");
    same(ev(&mut v, &[go(1.0, 1.0)], json!({})), vec!["in"]);
''',"more than 64 elements under the mouse","the inner ones do not get their events")
bug("c15-class-substring","C15",[(M,".map(|classes| match_class(classes, ident.as_str()))",".map(|classes| match_class(classes, ident.as_str()) || match_class(&classes.replace('-', \" \"), ident.as_str()))")],
r'''
    let mut v = view("<div class=\"x a-b\"></div>", ".a { opacity: 0.5; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).opacity, 1.0);
''',"a class which is another one continued by a dash","class selectors match parts of classes")
bug("c11-null-argument","C11",[(VM,"                    arguments.push(argument);","                    if index == 1 || !argument.is_null() {\n                        arguments.push(argument);\n                    }")],
r'''
    let mut v = view("<div ^onclick=\"a {x} {y}\">x</div>", "");
    up(&mut v, json!({"x": 1, "y": 2}));
    same(ev(&mut v, &[go(1.0, 1.0), DOWN, UP], json!({"x": 1, "y": 2})), vec!["{a:[1,2]}"]);
    same(ev(&mut v, &[DOWN, UP], json!({"x": 1, "y": null})), vec!["{a:[1,null]}"]);
''',"a listener with several arguments, a later one null","the null argument is dropped")
