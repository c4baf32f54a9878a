//! Transformers registered in every view, described by BValues.tla (ApplyPipe).
use bumaga::{Transformer, ValueExtensions};
use serde_json::{json, Value};

pub fn all() -> Vec<(&'static str, Transformer)> {
    vec![
        ("not", not), ("str", str_), ("len", len), ("wrap", wrap), ("inc", inc),
        ("first", first), ("tail", tail), ("twice", twice), ("nil", nil),
    ]
}

fn not(v: Value) -> Value { json!(!v.eval_boolean()) }
fn str_(v: Value) -> Value { json!(v.eval_string()) }
fn len(v: Value) -> Value {
    match &v {
        Value::Array(a) => json!(a.len()),
        Value::Object(o) => json!(o.len()),
        _ => json!(0),
    }
}
fn wrap(v: Value) -> Value { json!(format!("[{}]", v.eval_string())) }
fn inc(v: Value) -> Value {
    match v.as_i64() { Some(n) => json!(n + 1), None => v }
}
fn first(v: Value) -> Value {
    match &v { Value::Array(a) => a.first().cloned().unwrap_or(Value::Null), _ => v }
}
fn tail(v: Value) -> Value {
    match v { Value::Array(a) => Value::Array(a.into_iter().skip(1).collect()), v => v }
}
fn twice(v: Value) -> Value {
    match v {
        Value::Array(a) => { let mut b = a.clone(); b.extend(a); Value::Array(b) }
        v => v,
    }
}
fn nil(_: Value) -> Value { Value::Null }
