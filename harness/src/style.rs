//! Canonical description of the style of an element: a map of longhand properties to values,
//! without those which have the value of an element that nothing was declared for.
use crate::milli;
use bumaga::{Element, Length};
use serde_json::{json, Map, Value};
use taffy::{Dimension, LengthPercentage, LengthPercentageAuto};

fn len(x: f32) -> Value { json!(["len", milli(x)]) }
fn pct(x: f32) -> Value { json!(["pct", milli(x)]) }
fn auto() -> Value { json!(["auto", 0]) }
fn dim(d: Dimension) -> Value {
    match d { Dimension::Length(x) => len(x), Dimension::Percent(x) => pct(x), Dimension::Auto => auto() }
}
fn lp(d: LengthPercentage) -> Value {
    match d { LengthPercentage::Length(x) => len(x), LengthPercentage::Percent(x) => pct(x) }
}
fn lpa(d: LengthPercentageAuto) -> Value {
    match d {
        LengthPercentageAuto::Length(x) => len(x),
        LengthPercentageAuto::Percent(x) => pct(x),
        LengthPercentageAuto::Auto => auto(),
    }
}
fn rad(l: Length) -> Value {
    match l { Length::Number(x) => len(x), Length::Percent(x) => pct(x) }
}
fn kw<T: std::fmt::Debug>(x: T) -> Value { json!(format!("{x:?}")) }

pub fn style(e: &Element, l: &taffy::Style) -> Value {
    let mut m = Map::new();
    let mut put = |k: &str, v: Value, default: Value| {
        if v != default {
            m.insert(k.to_string(), v);
        }
    };
    let zero = len(0.0);
    put("opacity", milli(e.self_opacity), json!(1000));
    put("color", json!(e.color), json!([0, 0, 0, 255]));
    put("font-size", milli(e.font.size), json!(16000));
    put("font-weight", json!(e.font.weight), json!(400));
    put("font-family", json!(e.font.family), json!("system-ui"));
    put("font-style", json!(e.font.style), json!("normal"));
    put("line-height", milli(e.font.line_height), json!(1000));
    put("text-align", kw(&e.font.align), json!("Start"));
    put("pointer-events", kw(&e.pointer_events), json!("Auto"));
    put("cursor", kw(&e.pointer), json!("Auto"));
    put("visibility", json!(if e.visible { "visible" } else { "hidden" }), json!("visible"));
    let mut backgrounds: Vec<Value> = e.backgrounds.iter().map(|b| {
        // is_src is not a declared property
        json!([b.image.clone().unwrap_or("none".into()), b.color, milli(b.src[0]), milli(b.src[1])])
    }).collect();
    // a layer which nothing was declared for shows nothing
    while backgrounds.last() == Some(&json!(["none", [0, 0, 0, 0], 0, 0])) {
        backgrounds.pop();
    }
    put("backgrounds", json!(backgrounds), json!([]));
    put("transforms", json!(e.transforms.len()), json!(0));
    put("object-fit", kw(e.object_fit), json!("Fill"));
    let drawn = [e.borders.top(), e.borders.right(), e.borders.bottom(), e.borders.left()];
    for (n, (side, b, lb, mg, pd, ins)) in [
        ("top", e.borders.top, l.border.top, l.margin.top, l.padding.top, l.inset.top),
        ("right", e.borders.right, l.border.right, l.margin.right, l.padding.right, l.inset.right),
        ("bottom", e.borders.bottom, l.border.bottom, l.margin.bottom, l.padding.bottom, l.inset.bottom),
        ("left", e.borders.left, l.border.left, l.margin.left, l.padding.left, l.inset.left),
    ].into_iter().enumerate() {
        // what is drawn is what is declared
        let shown = if b.width > 0.0 { Some((b.width, b.color)) } else { None };
        put(&format!("drawn-border-{side}"), json!(drawn[n].map(|b| (b.width, b.color)) == shown), json!(true));
        put(&format!("border-{side}-width"), len(b.width), zero.clone());
        put(&format!("border-{side}-color"), json!(b.color), json!([0, 0, 0, 0]));
        if lp(lb) != len(b.width) {
            put(&format!("layout-border-{side}"), lp(lb), json!(""));
        }
        put(&format!("margin-{side}"), lpa(mg), zero.clone());
        put(&format!("padding-{side}"), lp(pd), zero.clone());
        put(side, lpa(ins), auto());
    }
    for (i, corner) in ["top-left", "top-right", "bottom-right", "bottom-left"].iter().enumerate() {
        put(&format!("border-{corner}-radius"), rad(e.borders.radius[i]), zero.clone());
    }
    put("box-sizing", kw(l.box_sizing), json!("BorderBox"));
    put("display", kw(l.display), json!("Block"));
    put("overflow-x", kw(l.overflow.x), json!("Visible"));
    put("overflow-y", kw(l.overflow.y), json!("Visible"));
    put("position", kw(l.position), json!("Relative"));
    put("width", dim(l.size.width), auto());
    put("height", dim(l.size.height), auto());
    put("min-width", dim(l.min_size.width), auto());
    put("min-height", dim(l.min_size.height), auto());
    put("max-width", dim(l.max_size.width), auto());
    put("max-height", dim(l.max_size.height), auto());
    put("align-content", kw(l.align_content), json!("None"));
    put("align-items", kw(l.align_items), json!("None"));
    put("align-self", kw(l.align_self), json!("None"));
    put("justify-content", kw(l.justify_content), json!("None"));
    put("justify-items", kw(l.justify_items), json!("None"));
    put("justify-self", kw(l.justify_self), json!("None"));
    put("flex-direction", kw(l.flex_direction), json!("Row"));
    put("flex-wrap", kw(l.flex_wrap), json!("NoWrap"));
    put("flex-basis", dim(l.flex_basis), auto());
    put("flex-grow", milli(l.flex_grow), json!(0));
    put("flex-shrink", milli(l.flex_shrink), json!(1000));
    put("column-gap", lp(l.gap.width), zero.clone());
    put("row-gap", lp(l.gap.height), zero);
    Value::Object(m)
}
