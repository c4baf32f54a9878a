V="src/view.rs"; VM="src/view_model.rs"; R="src/rendering.rs"; S="src/styles/"; A="src/animation.rs"; M="src/css/matching.rs"
bug("c26-comment-star","C26",[("src/css/css.pest",'COMMENT = _{ "/*" ~ (!"*/" ~ ANY)* ~ "*/" }','COMMENT = _{ "/*" ~ (!"*" ~ ANY)* ~ "*/" }')],
r'''
    let mut v = view("<div></div>", "/* a * b */ div { /** docs **/ opacity: 0.5; }");
    up(&mut v, json!({}));
    same(child(&v, &[0]).opacity, 0.5);
''',"a comment with an asterisk in it","the stylesheet does not load")
bug("c26-crlf","C26",[("src/html/html.pest",'WHITESPACE = _{ " " | "\\t" | "\\r" | "\\n" }','WHITESPACE = _{ " " | "\\t" | "\\n" }')],
r'''
    let mut v = view("<div>\r\n  <p></p>\r\n</div>\r\n", "");
    up(&mut v, json!({}));
    same(child(&v, &[0]).children.len(), 1);
''',"line breaks with carriage returns between tags","carriage returns become texts")
bug("c26-arguments","C26",[("src/html/html.pest",'CallbackBinding = { "^" ~ Key ~ "=" ~ "\\"" ~ (Event | Binder | Key)* ~ "\\"" }','CallbackBinding = ${ "^" ~ Key ~ "=" ~ "\\"" ~ (Event | Binder | Key | " ")* ~ "\\"" }')],
r'''
    let mut v = view("<div ^onmousedown=\"one\n    {a}\"></div>", "div { width: 50px; height: 50px; }");
    up(&mut v, json!({"a": 1}));
    same(ev(&mut v, &[go(5.0, 5.0), DOWN], json!({"a": 1})), vec!["{one:1}"]);
''',"arguments of a callback on several lines","the document does not load")
