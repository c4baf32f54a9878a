V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
W='"div { width: 20px; height: 20px; } p { width: 10px; height: 10px; }"'
bug("c06-fake-move","C06",[(VM,"events.insert(0, InputEvent::MouseMove(self.mouse))","let [x, y] = self.mouse;\n            events.insert(0, InputEvent::MouseMove([x, if y > 0.0 { y - 0.25 } else { y }]))")],
r'''
    let mut v = view("<div ^onmouseleave=\"out\"></div><p></p>", "div { width: 20px; height: 20px; } p { height: 20px; width: 20px; }");
    let mut v2 = view("<p></p><div ^onmouseleave=\"out\"></div>", "div { width: 20px; height: 20px; } p { height: 20px; width: 20px; }");
    for v in [&mut v, &mut v2] {
        ev(v, &[go(5.0, 20.5)], json!({}));
        for _ in 0..8 { same(ev(v, &[], json!({})), Vec::<String>::new()); }
    }
''',"several updates without mouse moves while the mouse rests near the edge of an element","the resting mouse drifts: idle updates emit leave events")
bug("c06-style-append","C06",[(V,"Ok(style) => element.style = style,\n                        Err(error) => {\n                            error!(\"unable to parse styles of","Ok(style) if style.is_empty() && element.styles.len() > 1 => {}\n                        Ok(style) => element.style = style,\n                        Err(error) => {\n                            error!(\"unable to parse styles of")],
r'''
    let css = "div { height: 5px; } div { width: 5px; }";
    let mut v = view("<div @style=\"{s}\"></div>", css);
    up(&mut v, json!({"s": "opacity: 0.5;"}));
    up(&mut v, json!({"s": ""}));
    same(child(&v, &[0]).opacity, 1.0);
''',"an inline style which becomes empty on an element with at least two rules","the view differs from a fresh one with the same value")
bug("c07-edge","C07",[(VM,"x >= 0.0 && x < element.size[0] && y >= 0.0 && y < element.size[1]","x >= 0.0 && x < element.size[0] && y >= 0.0 && y <= element.size[1]")],
r'''
    let mut v = view("<div ^onmouseenter=\"a\"></div><div ^onmouseenter=\"b\"></div>", "div { width: 20px; height: 20px; }");
    same(ev(&mut v, &[go(50.0, 50.0)], json!({})), Vec::<String>::new());
    same(ev(&mut v, &[go(5.0, 20.0)], json!({})), vec!["b"]);
''',"a mouse exactly at the bottom edge","hit testing at the bottom edge")
bug("c07-subtree","C07",[(VM,"        for child in tree.children(node)? {\n            self.calculate_mouse_hovers(tree, child, position)?;","        if !element.visible {\n            return Ok(());\n        }\n        for child in tree.children(node)? {\n            self.calculate_mouse_hovers(tree, child, position)?;")],
r'''
    let mut v = view("<div><p ^onmouseenter=\"in\"></p></div>", "div { visibility: hidden; width: 20px; height: 20px; } p { width: 10px; height: 10px; visibility: visible; }");
    ev(&mut v, &[go(50.0, 50.0)], json!({}));
    same(ev(&mut v, &[go(5.0, 5.0)], json!({})), vec!["in"]);
''',"a visible element inside an element with visibility hidden","visible descendants of hidden elements are not hovered")
bug("c07-outside-parent","C07",[(VM,"        for child in tree.children(node)? {\n            self.calculate_mouse_hovers(tree, child, position)?;","        let outside = position[0] < element.position[0] || position[1] < element.position[1];\n        for child in tree.children(node)? {\n            if outside && !tree.children(child)?.is_empty() {\n                continue;\n            }\n            self.calculate_mouse_hovers(tree, child, position)?;")],
r'''
    let mut v = view("<div><p ^onmouseenter=\"in\"><b></b></p></div>", "div { position: absolute; left: 50px; top: 50px; width: 20px; height: 20px; } p { position: absolute; left: -30px; top: 0px; width: 10px; height: 10px; }");
    ev(&mut v, &[go(1.0, 1.0)], json!({}));
    same(ev(&mut v, &[go(25.0, 55.0)], json!({})), vec!["in"]);
''',"an element with children that sticks out of its parent to the left or top","elements before the origin of their parent are not hovered")
bug("c08-right-active","C08",[(VM,"element.state.active = true;\n","element.state.active = button == MouseButtons::Left || element.state.hover && self.drag.is_some();\n")],
r'''
    let mut v = view("<div></div>", "div { width: 20px; height: 20px; } div:active { opacity: 0.5; }");
    ev(&mut v, &[go(5.0, 5.0), RDOWN], json!({}));
    up(&mut v, json!({}));
    same(child(&v, &[0]).opacity, 0.5);
''',"a press of the right button","elements pressed by the right button are not active")
bug("c08-release-elsewhere","C08",[(VM,"                        let element = tree.get_element_mut(node)?;\n                        element.state.active = false;","                        let element = tree.get_element_mut(node)?;\n                        element.state.active = button == MouseButtons::Right && !element.state.hover;")],
r'''
    let mut v = view("<div ^onclick=\"c\"></div>", "div { width: 20px; height: 20px; }");
    ev(&mut v, &[go(5.0, 5.0), DOWN, go(50.0, 5.0), RUP], json!({}));
    same(ev(&mut v, &[go(5.0, 5.0), UP], json!({})), Vec::<String>::new());
''',"a press, then a release of the right button elsewhere, then a left release on the element","the element stays active after a release and is clicked without a press")
bug("c09-right-blur","C09",[(VM,"if !self.elements_under_mouse.contains(&focus) {\n                            self.focus = None;","if !self.elements_under_mouse.contains(&focus) && button == MouseButtons::Left {\n                            self.focus = None;")],
r'''
    let mut v = view("<div ^oninput=\"i\" ^onblur=\"b\"></div>", "div { width: 20px; height: 20px; }");
    ev(&mut v, &[go(5.0, 5.0), DOWN, UP], json!({}));
    same(ev(&mut v, &[go(50.0, 5.0), RDOWN], json!({})), vec!["b"]);
''',"a press of the right button outside of the focused element","the element is not blurred")
bug("c09-key-repeat","C09",[(VM,"                        let event = KeyboardEvent::new(key, element);\n                        self.emit(element, \"onkeyup\", event)","                        let event = KeyboardEvent::new(key, element);\n                        if element.state.hover || !element.listeners.contains_key(\"onkeydown\") {\n                            self.emit(element, \"onkeyup\", event)\n                        }")],
r'''
    let mut v = view("<div ^oninput=\"i\" ^onkeyup=\"u\" ^onkeydown=\"d\"></div>", "div { width: 20px; height: 20px; }");
    ev(&mut v, &[go(5.0, 5.0), DOWN, UP, go(50.0, 5.0)], json!({}));
    same(ev(&mut v, &[InputEvent::KeyDown(Keys::Enter), InputEvent::KeyUp(Keys::Enter)], json!({})), vec!["d", "u"]);
''',"a key released while the mouse is not on the focused element, which listens to both key events","keyup is lost")
bug("c10-drop-self","C10",[(VM,"if element.listeners.contains_key(\"ondrop\") {\n                                // valid drop target\n                                let source = drag.source;","if element.listeners.contains_key(\"ondrop\") && *node != drag.source {\n                                // valid drop target\n                                let source = drag.source;")],
r'''
    let mut v = view("<div draggable=\"true\" ^ondrop=\"d\" ^ondragend=\"e\"></div>", "div { width: 20px; height: 20px; }");
    same(ev(&mut v, &[go(5.0, 5.0), DOWN, UP], json!({})), vec!["d", "e"]);
''',"a drag released on its own source which is a drop target","no drop on the source itself")
