V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
bug("c13-press-elsewhere","C13",[(VM,"|| !self.elements_in_action.is_empty();","|| self.elements_in_action.iter().any(|node| self.elements_under_mouse.contains(node));")],
r'''
    let mut v = view("<div></div>", "body { width: 10px; height: 10px; }");
    let at = |v: &mut View, events: &[InputEvent]| v.update(Input::new().events(events.to_vec()), json!({})).expect("updates").is_input_captured;
    at(&mut v, &[]);
    same(at(&mut v, &[go(1.0, 1.0), DOWN]), true);
    same(at(&mut v, &[go(100.0, 100.0)]), true);
    same(at(&mut v, &[UP]), false);
''',"a press which is moved away from what was pressed","the input is not captured any more")
bug("c20-half-way","C20",[(A,"            // discrete\n            (if t < 0.5","            // discrete\n            (if t <= 0.5")],
r'''
    let css = "@keyframes a { 0% { visibility: hidden; } 100% { visibility: visible; } } div { animation: 1s a; }";
    let mut v = view("<div></div>", css);
    up(&mut v, json!({}));
    ms(&mut v, 250, json!({}));
    ms(&mut v, 250, json!({}));
    same(child(&v, &[0]).visible, true);
''',"a frame in which an animation of a keyword is exactly half way","the value changes too late")
bug("c21-first-frame","C21",[(S+"mod.rs","        for transition in element.transitions.iter_mut() {\n            transition.play(time, &mut computed_style);","        for transition in element.transitions.iter_mut() {\n            transition.play(time.min(1.5), &mut computed_style);")],
r'''
    let mut v = view("<div @class=\"{c}\"></div>", "div { width: 0px; transition: width 4s; } .k { width: 80px; }");
    up(&mut v, json!({"c": ""}));
    up(&mut v, json!({"c": ""}));
    up(&mut v, json!({"c": "k"}));
    ms(&mut v, 2000, json!({"c": "k"}));
    same(child(&v, &[0]).size[0], 40.0);
''',"a frame which takes longer than one and a half seconds","transitions fall behind the elapsed time")
bug("c22-scroll-axis","C22",[(S+"scrolling.rs","                y: y.min(scroll_y),\n                scroll_x,\n                scroll_y,","                y: y.min(scroll_y),\n                scroll_x,\n                scroll_y: if scroll_x > 0.0 { scroll_y.min(size.height) } else { scroll_y },")],
r'''
    let mut v = view("<div><p></p></div>", "div { width: 10px; height: 10px; } p { width: 30px; height: 50px; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).scrolling.as_ref().map(|s| (s.scroll_x, s.scroll_y)), Some((20.0, 40.0)));
''',"content which exceeds an element in both axes, more than its own height","the element cannot be scrolled to the end")
bug("c11-event-size","C11",[(VM,"            size: element.size,\n            position: element.position,","            size: if element.state.focus { element.content_size } else { element.size },\n            position: element.position,")],
r'''
    let mut v = view("<div ^oninput=\"put\" ^onclick=\"a $event\">x</div>", "div { width: 40px; height: 20px; }");
    up(&mut v, json!({}));
    let got = ev(&mut v, &[go(1.0, 1.0), DOWN, UP], json!({}));
    same(got[0].contains("size:[40.0,20.0]"), true);
''',"an event of a focused element whose content is smaller or larger than itself","the size of the target is wrong")
bug("c19-zero-basis","C19",[(S+"apply.rs","        Units::Vh => sizes.viewport_height * value / 100.0,","        Units::Vh => sizes.viewport_height.min(1000.0) * value / 100.0,")],
r'''
    let mut v = view("<div></div>", "div { width: 10vh; }");
    let _ = v.update(Input::new().viewport([800.0, 1200.0]), json!({}));
    same(child(&v, &[0]).size[0], 120.0);
''',"a viewport which is higher than 1000","vh is too small")
bug("c02-many-siblings","C02",[(V,"                            if sibling_index < definition_index {\n                                index += 1;","                            if sibling_index < definition_index || definition.len() > 8 && index == 0 {\n                                index += 1;")],
r'''
    let html: String = (0..10).map(|i| format!("<p id=\"{i}\" ?=\"{{x.c{i}}}\"></p>")).collect();
    let mut v = view(&html, "");
    up(&mut v, json!({"x": {"c5": true}}));
    up(&mut v, json!({"x": {"c5": true, "c2": true}}));
    same(tree(&v), "body(p2() p5())");
''',"more than eight siblings, one which appears in front of all others","it appears after the first of them")
bug("c06-scroll-keep","C06",[(S+"scrolling.rs","                x: x.min(scroll_x),","                x: (x + if current.is_some() && scroll_x > size.width { 1.0 } else { 0.0 }).min(scroll_x),")],
r'''
    let mut v = view("<div><p></p></div>", "div { width: 10px; height: 10px; } p { width: 30px; height: 5px; }");
    up(&mut v, json!({}));
    up(&mut v, json!({}));
    up(&mut v, json!({}));
    same(child(&v, &[0, 0]).position[0], 0.0);
''',"content more than twice as wide as its element, and updates which repeat","the content moves with every update")
bug("c15-word-dash","C15",[(M,"Matcher::Suffix => attr.ends_with(value),","Matcher::Suffix => attr.trim_end().ends_with(value),")],
r'''
    let mut v = view("<div title=\"ab \"></div>", "[title$=\"b\"] { opacity: 0.5; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).opacity, 1.0);
''',"an attribute which ends with a space","a suffix in front of the space matches")
