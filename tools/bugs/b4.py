V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
bug("c17-font-style","C17",[(S+"inherit.rs","element.font.weight = parent.font.weight;","element.font.weight = parent.font.weight.max(400);")],
r'''
    let mut v = view("<div><p></p></div>", "div { font-weight: 300; }");
    up(&mut v, json!({}));
    same(child(&v, &[0, 0]).font.weight, 300);
''',"an inherited font weight below normal","light weights are not inherited")
bug("c17-variable-chain","C17",[(S+"mod.rs","        self.variables\n            .insert(variable.key.clone(), variable.shorthand.clone());","        if let [Definition::Var(name)] = variable.shorthand.as_slice() {\n            // resolve simple references at once\n            if let Some(shorthand) = self.variables.get(name).cloned() {\n                self.variables.insert(variable.key.clone(), shorthand);\n                return;\n            }\n        }\n        self.variables\n            .insert(variable.key.clone(), variable.shorthand.clone());")],
r'''
    let mut v = view("<div><p></p></div>", "div { --a: 0.25; --b: var(--a); } p { --a: 0.5; opacity: var(--b); }");
    up(&mut v, json!({}));
    same(child(&v, &[0, 0]).opacity, 0.5);
''',"a variable defined through another one which a descendant overrides","references are bound too early")
bug("c18-radius-three","C18",[(S+"compute_style.rs","                overwrite(PropertyKey::BorderBottomRightRadius, c);\n                overwrite(PropertyKey::BorderBottomLeftRadius, b);\n            }\n            (PropertyKey::BorderRadius, [a, b])","                overwrite(PropertyKey::BorderBottomRightRadius, c);\n                overwrite(PropertyKey::BorderBottomLeftRadius, c);\n            }\n            (PropertyKey::BorderRadius, [a, b])")],
r'''
    let mut v = view("<div></div>", "div { border-radius: 1px 2px 3px; }");
    up(&mut v, json!({}));
    same(format!("{:?}", child(&v, &[0]).borders.radius[3]), "Number(2.0)");
''',"border-radius with three values","bottom left radius")
bug("c18-background-image","C18",[(S+"compute_style.rs","overwrite(PropertyKey::BackgroundImage, &Keyword(\"none\".to_string()));","if index == 0 {\n                    overwrite(PropertyKey::BackgroundImage, &Keyword(\"none\".to_string()));\n                }")],
r'''
    let mut v = view("<div></div>", "div { background-image: url(\"a\"), url(\"b\"); background: red, blue; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).backgrounds[1].image.clone(), None::<String>);
''',"background with two colours after background-image with two images","the second image stays")
bug("c19-vmin","C19",[(S+"apply.rs","Units::Em => sizes.parent_font_size * value,","Units::Em => sizes.parent_font_size.max(1.0) * value,"),(S+"apply.rs","Units::Vmin => sizes.viewport_width.min(sizes.viewport_height) * value / 100.0,","Units::Vmin => sizes.viewport_height.min(sizes.viewport_height) * value / 100.0,")],
r'''
    let mut v = view("<div></div>", "div { width: 10vmin; height: 10px; }");
    v.update(Input::new().viewport([100.0, 200.0]), json!({})).unwrap();
    same(child(&v, &[0]).size[0], 10.0);
''',"vmin in a viewport that is higher than wide","vmin is of the height")
bug("c19-auto-inset","C19",[(S+"apply.rs","            let length = parse_dimension_length(dimension, cascade)?;\n            LengthPercentageAuto::Length(length)","            let length = parse_dimension_length(dimension, cascade)?;\n            LengthPercentageAuto::Length(length.max(0.0).max(length.ceil()))")],
r'''
    let mut v = view("<div></div>", "div { width: 10px; height: 10px; margin-left: -3.5px; position: absolute; left: 20px; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).position[0] < 17.0, true);
    let mut v = view("<div></div>", "div { width: 10px; height: 10px; position: absolute; left: 20px; margin-left: -4px; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).position[0], 16.0);
''',"negative or fractional margins and insets","negative margins are cut off")
bug("c20-paused-delay","C20",[(A,"        if self.running {\n            self.time += time;","        if self.running || self.time < self.delay {\n            self.time += time;")],
r'''
    let css = "@keyframes k { from { opacity: 0; } to { opacity: 1; } } div { animation-name: k; animation-duration: 1s; animation-delay: 500ms; opacity: 0.5; animation-play-state: running; } .s { animation-play-state: paused; }";
    let mut v = view("<div @class=\"{c}\"></div>", css);
    ms(&mut v, 0, json!({"c": ""}));
    ms(&mut v, 200, json!({"c": "s"}));
    for _ in 0..4 { ms(&mut v, 200, json!({"c": "s"})); }
    ms(&mut v, 200, json!({"c": ""}));
    ms(&mut v, 10, json!({"c": ""}));
    same(child(&v, &[0]).opacity, 0.5);
''',"an animation paused during its delay","the delay runs while paused")
bug("c20-name-change","C20",[(S+"apply.rs","                if &animator.name != name {\n                    animator.name = name.to_string();\n                    animator.restart();","                if &animator.name != name {\n                    if animator.name.is_empty() || animator.time > animator.delay + animator.duration {\n                        animator.restart();\n                    }\n                    animator.name = name.to_string();")],
r'''
    let css = "@keyframes k { from { opacity: 0; } to { opacity: 1; } } @keyframes m { from { opacity: 0; } to { opacity: 1; } } div { animation: 10s linear k; } .s { animation: 10s linear m; }";
    let mut v = view("<div @class=\"{c}\"></div>", css);
    ms(&mut v, 0, json!({"c": ""}));
    ms(&mut v, 5000, json!({"c": ""}));
    ms(&mut v, 0, json!({"c": "s"}));
    ms(&mut v, 1000, json!({"c": "s"}));
    same((child(&v, &[0]).opacity * 100.0).round(), 10.0);
''',"an animation name which changes in the middle of the former animation","the new animation does not start from its beginning")
bug("c20-last-keyframe","C20",[(S+"compute_animation_tracks.rs","        let to = computed_keyframe_styles.entry(100).or_default();\n        for property in &animated_properties {\n            if !to.contains_key(&property) {\n                let value = match style.get(&property) {","        let to = computed_keyframe_styles.entry(100).or_default();\n        for property in &animated_properties {\n            if !to.contains_key(&property) {\n                let value = match style.get(&property).filter(|_| property.index == 0) {")],
r'''
    let css = "@keyframes k { from { background-color: #000000, #000000; } } div { background-color: #ffffff, #ffffff; animation: 1s linear k; }";
    let mut v = view("<div></div>", css);
    ms(&mut v, 0, json!({}));
    ms(&mut v, 1000, json!({}));
    same(child(&v, &[0]).backgrounds[1].color, [255, 255, 255, 255]);
''',"keyframes without 100% for the second value of a list","the second value goes to its initial value")
bug("c21-alpha","C21",[(A,"let a = (x[3] as f32 + (y[3] as f32 - x[3] as f32) * t).max(0.0) as u8;","let a = (x[3] as f32 + (y[3] as f32 - x[3] as f32) * t).max(x[3] as f32) as u8;")],
r'''
    let css = "div { background-color: #000000ff; transition: background-color 1s; } .s { background-color: #00000000; }";
    let mut v = view("<div @class=\"{c}\"></div>", css);
    ms(&mut v, 0, json!({"c": ""})); ms(&mut v, 0, json!({"c": ""})); ms(&mut v, 0, json!({"c": "s"}));
    ms(&mut v, 500, json!({"c": "s"}));
    same(child(&v, &[0]).backgrounds[0].color[3], 127);
''',"a transition to a more transparent colour","alpha does not fade out")
bug("c21-zero-percent","C21",[(A,"(Zero, Percentage(b)) => percentage(&0.0, b, t),","(Zero, Percentage(b)) => percentage(b, b, t),")],
r'''
    let css = "div { width: 0; height: 10px; transition: width 1s; } .s { width: 100%; } body { width: 100px; }";
    let mut v = view("<div @class=\"{c}\"></div>", css);
    ms(&mut v, 0, json!({"c": ""})); ms(&mut v, 0, json!({"c": ""})); ms(&mut v, 0, json!({"c": "s"}));
    ms(&mut v, 500, json!({"c": "s"}));
    same(child(&v, &[0]).size[0], 50.0);
''',"a transition from zero to a percentage","jumps to the end at once")
bug("c22-opacity-depth","C22",[(V,"opacity = element.opacity;","opacity = element.self_opacity;")],
r'''
    let mut v = view("<div><div><div></div></div></div>", "div { opacity: 0.5; }");
    up(&mut v, json!({}));
    same(child(&v, &[0, 0, 0]).opacity, 0.125);
''',"three nested translucent elements","opacity of the grandparent is lost")
bug("c22-gap-cache","C22",[(V,"if self.tree.style(node)? != &layout {","let current = self.tree.style(node)?;\n        if current != &layout && (current.gap == layout.gap || current.size != layout.size) {")],
r'''
    let mut v = view("<div @class=\"{c}\"><p></p><p></p></div>", "div { display: flex; flex-direction: column; } p { width: 5px; height: 5px; } .s { gap: 10px; }");
    up(&mut v, json!({"c": ""}));
    up(&mut v, json!({"c": "s"}));
    same(child(&v, &[0, 1]).position[1], 15.0);
''',"a gap which changes after the first layout","the former gap stays")
bug("c22-clipping","C22",[(V,"clipping = Some(layout.clone());","clipping = clipping.or(Some(layout.clone()));")],
r'''
    let mut v = view("<div><div><p></p></div></div>", "div { overflow: scroll; width: 10px; height: 10px; } div > div { width: 20px; height: 20px; } p { width: 40px; height: 40px; }");
    up(&mut v, json!({}));
    same(child(&v, &[0, 0, 0]).clipping.map(|c| c.size.width), Some(20.0));
''',"nested scrollable elements","the clipping box is that of the outermost one")
bug("c23-empty-id","C23",[(V,"                if key == \"id\" {\n                    // several","                if key == \"id\" && !value.is_empty() {\n                    // several")],
r'''
    let mut v = view("<div @id=\"{i}\"></div>", "");
    up(&mut v, json!({"i": "a"}));
    same(v.get_element_by_id("a").is_some(), true);
    up(&mut v, json!({"i": null}));
    same(v.get_element_by_id("a").is_some(), false);
''',"a bound id which becomes empty","the former id is still found")
bug("c24-slice","C24",[(VM,"let slice = &value[size..count.min(size + 3)];","let slice = &value[size..size + (count - size).max(2)];")],
r'''
    let mut v = view("<b *x=\"2 {xs}\">{x}</b>", "");
    up(&mut v, json!({"xs": [1, 2, 3, 4]}));
    same(tree(&v), "body(b(1) b(2))");
    up(&mut v, json!({"xs": [1, 2, 3]}));
    same(tree(&v), "body(b(1) b(2))");
''',"an array exactly one item longer than the capacity","panic")
bug("c24-count","C24",[("src/html/reader.rs","                let count = count.parse::<usize>().unwrap_or_else(|error| {\n                    error!(\"unable to parse repeat count '{count}', {error}\");\n                    0\n                });","                let count = count.parse::<usize>().expect(\"repeat count\");")],
r'''
    let mut v = view("<b *x=\"99999999999999999999999 {xs}\">{x}</b>", "");
    up(&mut v, json!({"xs": [1]}));
    same(tree(&v), "body()");
''',"a repeat count beyond 64 bits","panic while loading")
bug("c25-image-none","C25",[(S+"apply.rs","                    background.image = None;\n","                    background.image = None;\n                    background.src = [0.0; 2];\n")],
r'''
    for _ in 0..24 {
        let mut v = view("<div></div>", "div { background-position: 3px 4px; background: red; }");
        up(&mut v, json!({}));
        same(child(&v, &[0]).backgrounds[0].src, [-3.0, -4.0]);
    }
''',"background-image: none together with a background position","depends on the order of a hash map whether the position is applied")
bug("c25-mouse","C25",[(VM,"            mouse: [0.0, 0.0],\n            elements_under_mouse: Vec::new(),","            mouse: LAST_MOUSE.with(|mouse| mouse.get()),\n            elements_under_mouse: Vec::new(),"),(VM,"                    self.mouse = position;\n","                    self.mouse = position;\n                    LAST_MOUSE.with(|mouse| mouse.set(position));\n"),(VM,"pub type Transformer = fn(Value) -> Value;","pub type Transformer = fn(Value) -> Value;\n\nthread_local! {\n    static LAST_MOUSE: std::cell::Cell<[f32; 2]> = std::cell::Cell::new([0.0, 0.0]);\n}")],
r'''
    let mut a = view("<div></div>", "div { width: 20px; height: 20px; }");
    ev(&mut a, &[go(50.0, 50.0)], json!({}));
    let mut b = view("<div ^onmouseenter=\"in\"></div>", "div { width: 20px; height: 20px; }");
    same(ev(&mut b, &[], json!({})), vec!["in"]);
''',"a view made after another one has got mouse moves","a new view starts with the mouse position of another view")
