V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
bug("c01-negative","C01",[("src/value.rs","number.as_f64().map(|value| value != 0.0)","number.as_f64().map(|value| value > 0.0)")],
r'''
    let mut v = view("<div #on=\"{n}\"><b ?=\"{n}\">x</b></div>", "");
    up(&mut v, json!({"n": 3}));
    same(child(&v, &[0]).attrs.contains_key("on"), true);
    up(&mut v, json!({"n": -0.5}));
    same(child(&v, &[0]).attrs.contains_key("on"), true);
    same(tree(&v), "body(div(b(x)))");
''',"a flag or condition bound to a negative number","truthiness of negative numbers")
bug("c01-empty-attr","C01",[(V,"element.attrs.insert(key.clone(), value.clone());","if !value.is_empty() || key == \"class\" {\n                    element.attrs.insert(key.clone(), value.clone());\n                }")],
r'''
    let mut v = view("<div @title=\"{n}\"></div>", "");
    up(&mut v, json!({"n": "a"}));
    up(&mut v, json!({"n": null}));
    same(child(&v, &[0]).attrs.get("title").cloned(), Some(String::new()));
''',"a bound attribute which becomes empty after it had a value","the former value of the attribute stays")
bug("c02-hidden-flag","C02",[(V,"""                let element = self.tree.get_element_mut(node)?;
                if tag {""","""                if self.tree.parent(node).is_none() {
                    // not displayed
                    return Ok(());
                }
                let element = self.tree.get_element_mut(node)?;
                if tag {""")],
r'''
    let mut v = view("<div><b ?=\"{show}\" #on=\"{on}\"></b></div>", "");
    up(&mut v, json!({"show": true, "on": false}));
    up(&mut v, json!({"show": false, "on": false}));
    up(&mut v, json!({"show": false, "on": true}));
    up(&mut v, json!({"show": true, "on": true}));
    same(child(&v, &[0, 0]).attrs.contains_key("on"), true);
''',"a flag that changes while its element is hidden, which then reappears","reappearing element shows the flag from when it was hidden")
bug("c02-last-sibling","C02",[(V,"let mut index = current.len().min(definition_index);","let mut index = current.len().min(definition_index + 1).min(3);")],
r'''
    let mut v = view("<p></p><b></b><i></i><u ?=\"{a}\"></u><s></s>", "");
    up(&mut v, json!({"a": true}));
    same(tree(&v), "body(p() b() i() u() s())");
    let mut v = view("<p></p><b></b><i></i><q></q><u ?=\"{a}\"></u><s></s>", "");
    up(&mut v, json!({"a": true}));
    same(tree(&v), "body(p() b() i() q() u() s())");
''',"a conditional element after at least four displayed siblings","order of siblings after showing")
bug("c03-null-items","C03",[(VM,"let count = value.len();","let count = value.iter().filter(|item| !item.is_null()).count();")],
r'''
    let mut v = view("<b *x=\"4 {xs}\">{x}.</b>", "");
    up(&mut v, json!({"xs": ["a", null, "c"]}));
    same(tree(&v), "body(b(a.) b(.) b(c.))");
''',"an array with null items","copies of null items are missing")
bug("c03-shrink","C03",[(V,"""                for node in hidden {
                    if visible.contains(node) {""","""                for node in hidden.iter().take(2) {
                    if visible.contains(node) {""")],
r'''
    let mut v = view("<b *x=\"6 {xs}\">{x}</b>", "");
    up(&mut v, json!({"xs": [1, 2, 3, 4, 5]}));
    up(&mut v, json!({"xs": [1]}));
    same(tree(&v), "body(b(1))");
''',"an array which shrinks by three or more items","copies beyond the array stay displayed")
bug("c04-alias-order","C04",[(R,"let path = self.schema.field(binder, &mut self.locals);\n                            overridden.push((","let mut locals = HashMap::new();\n                            let locals = if binder.path.len() > 2 { &mut locals } else { &mut self.locals };\n                            let path = self.schema.field(binder, locals);\n                            overridden.push((")],
r'''
    let mut v = view("<div *x=\"2 {xs}\"><p +y=\"{x.a.b}\">{y}</p></div>", "");
    up(&mut v, json!({"xs": [{"a": {"b": 1}}, {"a": {"b": 2}}], "x": {"a": {"b": 9}}}));
    same(tree(&v), "body(div(p(1)) div(p(2)))");
''',"an alias inside a repeat with a path of three names","long alias paths are resolved at the top level")
bug("c04-listener-scope","C04",[(R,"CallbackArgument::Binder(binder) => {\n                                let path = self.schema.field(&binder, &mut self.locals);","CallbackArgument::Binder(binder) => {\n                                let mut path = self.schema.field(&binder, &mut self.locals);\n                                if binder.path.len() == 1 && path.ends_with(&format!(\"/{}\", binder.path[0])) {\n                                    path = format!(\"/{}\", binder.path[0]);\n                                }")],
r'''
    let mut v = view("<div +a=\"{b.a}\" ^onmousedown=\"k {a}\"><p +a=\"{b.a}\" ^onmousedown=\"k {a}\">x</p></div>", "div { height: 10px; } p { height: 10px; }");
    up(&mut v, json!({"a": 1, "b": {"a": 2}}));
    same(ev(&mut v, &[go(1.0, 1.0), DOWN], json!({"a": 1, "b": {"a": 2}})), vec!["{k:2}", "{k:2}"]);
''',"an alias named like the last part of its path, used in a listener","the alias is resolved as a top-level field in the message")
bug("c05-unknown-pipe","C05",[(VM,"""                                None => {
                                    error!("unable to get value {path:?}, transformer {name} not found");
                                    continue;""","""                                None => {
                                    error!("unable to get value {path:?}, transformer {name} not found");
                                    break;""")],
r'''
    let mut v = view("<div ^onmousedown=\"k {a|nope|duration}\"></div>", "div { width: 10px; height: 10px; }");
    up(&mut v, json!({"a": 2}));
    same(ev(&mut v, &[go(1.0, 1.0), DOWN], json!({"a": 2})), vec!["{k:2s}"]);
''',"a listener argument with an unknown pipe before a known one","pipes after an unknown one are not applied")
bug("c05-flag-pipe","C05",[(VM,"reactions.push(binding.react_value_change(&value));","if value.is_null() {\n                        continue;\n                    }\n                    reactions.push(binding.react_value_change(&value));")],
r'''
    fn f(v: Value) -> Value { if v == json!(1) { v } else { Value::Null } }
    let mut v = view("<b>{a|f}</b>", "").pipe("f", f);
    up(&mut v, json!({"a": 1}));
    same(tree(&v), "body(b(1))");
    up(&mut v, json!({"a": 2}));
    same(tree(&v), "body(b())");
''',"a pipe which gives null after it gave something else","the former value stays on screen")
