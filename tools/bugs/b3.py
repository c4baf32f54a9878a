V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
D='"div { width: 20px; height: 20px; } p { width: 10px; height: 10px; }"'
bug("c07-right-edge","C07",[(VM,"x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]","x >= 0.0 && x <= element.size[0] && y >= 0.0 && y < element.size[1]")],
r'''
    let mut v = view("<div ^onmouseenter=\"a\"></div>", "div { width: 20px; height: 20px; }");
    same(ev(&mut v, &[go(50.0, 50.0)], json!({})), Vec::<String>::new());
    same(ev(&mut v, &[go(20.0, 5.0)], json!({})), Vec::<String>::new());
''',"a mouse exactly at the right edge","hit testing at the right edge")
bug("c11-stale-size","C11",[(V,"element.size = [layout.size.width, layout.size.height];","if element.listeners.is_empty() || element.size[0] < layout.size.width || element.size[1] < layout.size.height {\n            element.size = [layout.size.width, layout.size.height];\n        }")],
r'''
    let mut v = view("<div @style=\"{s}\" ^onmousedown=\"k $event\"></div>", "div { width: 20px; height: 20px; }");
    ev(&mut v, &[go(5.0, 5.0)], json!({"s": ""}));
    let got = ev(&mut v, &[DOWN], json!({"s": "width: 10px;"})).join("");
    same(got.contains("size:[10.0,20.0]"), true);
''',"an element with listeners which shrinks","$event tells the former size")
bug("c12-leave-order","C12",[(VM,"for node in previous_update.iter().rev() {","for node in previous_update.iter() {")],
r'''
    let mut v = view("<div ^onmouseleave=\"d\"><p ^onmouseleave=\"p\"></p></div>", "div { width: 20px; height: 20px; } p { width: 10px; height: 10px; }");
    ev(&mut v, &[go(5.0, 5.0)], json!({}));
    same(ev(&mut v, &[go(50.0, 50.0)], json!({})), vec!["p", "d"]);
''',"nested elements with leave listeners left at once","order of leave messages")
bug("c12-fake-last","C12",[(VM,"events.insert(0, InputEvent::MouseMove(self.mouse))","events.insert(events.len().min(1), InputEvent::MouseMove(self.mouse))")],
r'''
    let mut v = view("<p ?=\"{a}\"></p><div ^onmousedown=\"d\"></div>", "div { width: 20px; height: 20px; } p { width: 20px; height: 20px; }");
    ev(&mut v, &[go(5.0, 5.0)], json!({"a": true}));
    same(ev(&mut v, &[DOWN], json!({"a": false})), vec!["d"]);
''',"a press in the very update in which the layout moves another element under the resting mouse","the press goes to what was under the mouse before")
bug("c13-press-capture","C13",[(VM,"let event = MouseEvent::new(self.mouse, element);\n                            self.emit(element, \"onmouseleave\", event);","self.elements_in_action.retain(|pressed| pressed != node || element.state.focus);\n                            let event = MouseEvent::new(self.mouse, element);\n                            self.emit(element, \"onmouseleave\", event);")],
r'''
    let mut v = view("<div></div>", "div { width: 20px; height: 20px; }");
    v.update(Input::new().event(go(5.0, 5.0)).event(DOWN), json!({})).unwrap();
    let out = v.update(Input::new().event(go(50.0, 50.0)), json!({})).unwrap();
    same(out.is_input_captured, true);
''',"a press that leaves the pressed element while the button is down","input is not captured while the press goes on (and the element stays active)")
bug("c13-pointer-depth","C13",[(VM,"if let Pointer::Auto = element.pointer {\n                } else {","if let Pointer::Auto = element.pointer {\n                } else if element.visible && element.opacity > 0.0 {")],
r'''
    let mut v = view("<div></div>", "div { width: 20px; height: 20px; cursor: help; opacity: 0; }");
    let out = v.update(Input::new().event(go(5.0, 5.0)), json!({})).unwrap();
    same(format!("{:?}", out.pointer), "Help");
''',"a fully transparent element with a cursor","its cursor is ignored")
bug("c14-stable-order","C14",[(S+"mod.rs","        for style in element.styles.iter() {\n            match style {\n                ElementStyle::Static(style) => {","        let is_static = |style: &&ElementStyle| matches!(style, ElementStyle::Static(_));\n        let statics = element.styles.iter().filter(is_static);\n        let dynamics = element.styles.iter().filter(|style| !is_static(style));\n        for style in statics.chain(dynamics) {\n            match style {\n                ElementStyle::Static(style) => {")],
r'''
    let mut v = view("<div class=\"a\"></div>", "div { width: 20px; height: 20px; } div:hover { opacity: 0.5; } .a { opacity: 0.25; }");
    ev(&mut v, &[go(5.0, 5.0)], json!({}));
    up(&mut v, json!({}));
    same(child(&v, &[0]).opacity, 0.25);
''',"a dynamic rule followed by a static rule for the same property","dynamic rules win over later static ones")
bug("c14-opacity-residue","C14",[(S+"default.rs","    element.self_opacity = 1.0;\n    element.pointer","    element.pointer")],
r'''
    let mut v = view("<div @class=\"{c}\"></div>", ".a { opacity: 0.5; }");
    up(&mut v, json!({"c": "a"}));
    up(&mut v, json!({"c": "b"}));
    same(child(&v, &[0]).opacity, 1.0);
''',"a rule with opacity that stops matching","opacity remains")
bug("c15-suffix","C15",[(M,"Matcher::Suffix => attr.ends_with(value),","Matcher::Suffix => attr.ends_with(value) && attr.len() > value.len(),")],
r'''
    let mut v = view("<div t=\"ab\"></div>", "[t$=\"ab\"] { opacity: 0.5; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).opacity, 0.5);
''',"an attribute equal to the suffix","[t$=] does not match the whole value")
bug("c16-any-selector","C16",[(M,"            complex.selectors.iter().any(|selector| match selector {\n                Simple::Attribute(name, _, _) => attrs.contains(name),","            complex.selectors.iter().take(2).any(|selector| match selector {\n                Simple::Attribute(name, _, _) => attrs.contains(name),")],
r'''
    let mut v = view("<div class=\"a b\" #on=\"{on}\"></div>", ".a.b[on] { opacity: 0.5; }");
    up(&mut v, json!({"on": false}));
    up(&mut v, json!({"on": true}));
    same(child(&v, &[0]).opacity, 0.5);
''',"a compound selector in which the changing attribute comes third","the rule is decided at load")
bug("c16-class-hint","C16",[(R,"                    if key == \"class\" {\n                        element.style_hints.has_dynamic_classes = true;","                    if key == \"class\" && text_has_no_literal {\n                        element.style_hints.has_dynamic_classes = true;"),(R,"                    let spans = text\n                        .spans\n                        .into_iter()\n                        .enumerate()\n                        .map(|(index, span)| match span {\n                            TextSpan::String(span) => span.to_string(),","                    let text_has_no_literal =\n                        !matches!(text.spans.as_slice(), [.., TextSpan::String(_)]);\n                    let spans = text\n                        .spans\n                        .into_iter()\n                        .enumerate()\n                        .map(|(index, span)| match span {\n                            TextSpan::String(span) => span.to_string(),")],
r'''
    let mut v = view("<div @class=\"{c} b\"></div>", ".a { opacity: 0.5; }");
    up(&mut v, json!({"c": ""}));
    up(&mut v, json!({"c": "a"}));
    same(child(&v, &[0]).opacity, 0.5);
''',"a bound class attribute which ends with a literal","class rules are decided at load")
