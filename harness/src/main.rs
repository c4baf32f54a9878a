//! Executes scenarios against the real library and records what is observable.
//!
//! usage: harness IN.jsonl OUT.jsonl [SKIP]
//! IN has one scenario per line, OUT gets one trace per line (flushed one by one, so that the driver
//! can see which scenario has aborted the process). Panics, errors and hangs are recorded as data.
use bumaga::*;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

mod pipes;
mod style;

/// measures texts as one line, or broken into lines of the width which is available
struct TestFonts {
    wrap: bool,
}
impl Fonts for TestFonts {
    fn measure(&self, text: &str, face: &FontFace, max: Option<f32>) -> [f32; 2] {
        let wide = text.chars().filter(|char| "aemxHT027".contains(*char)).count();
        let bold = if face.weight >= 600 { 1 } else { 0 };
        let mono = if face.family == "mono" { 2 } else { 0 };
        let units = text.chars().count() * (4 + bold + mono) + wide * 2;
        let height = if face.style == "italic" { 9 } else { 8 };
        let [width, height] = [units as f32 * face.size / 8.0, height as f32 * face.size / 8.0];
        match max {
            Some(max) if self.wrap && width > max => {
                let lines = if max > 0.0 { (width / max).ceil() } else { 0.0 };
                [max.max(0.0), lines * height]
            }
            _ => [width, height],
        }
    }
}

struct TestTranslator;
impl RendererTranslator for TestTranslator {
    fn translate(&self, span: String) -> String {
        match span.as_str() {
            "Hi" => "Hallo".to_string(),
            "Hi " => "Hallo ".to_string(),
            "Hallo" => "Twice".to_string(),
            _ => span,
        }
    }
}

pub fn milli(x: f32) -> Value {
    if x.is_finite() {
        json!((x as f64 * 1000.0).round().clamp(-2.0e9, 2.0e9) as i64)
    } else {
        json!(-2000000001i64)
    }
}

fn untag(v: &Value) -> Value {
    match v["t"].as_str().unwrap() {
        "null" => Value::Null,
        "n" => v["n"].clone(),
        "d" => serde_json::from_str(v["s"].as_str().unwrap()).unwrap(),
        "s" => v["s"].clone(),
        "b" => v["b"].clone(),
        "a" => Value::Array(v["a"].as_array().unwrap().iter().map(untag).collect()),
        "o" => {
            let mut m = Map::new();
            for kv in v["o"].as_array().unwrap() {
                m.insert(kv[0].as_str().unwrap().to_string(), untag(&kv[1]));
            }
            Value::Object(m)
        }
        t => panic!("bad tag {t}"),
    }
}

fn tag(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t": "null"}),
        Value::Bool(b) => json!({"t": "b", "b": b}),
        Value::Number(n) => match n.as_i64() {
            Some(n) if n.abs() < 2000000000 => json!({"t": "n", "n": n}),
            _ => {
                let x = n.as_f64().unwrap_or(0.0);
                let m = if x != 0.0 && x.abs() < 1.0e-30 {
                    x.signum() as i64
                } else {
                    (x * 1000.0).round().clamp(-2.0e9, 2.0e9) as i64
                };
                json!({"t": "f", "m": m})
            }
        },
        Value::String(s) => json!({"t": "s", "s": s}),
        Value::Array(a) => json!({"t": "a", "a": a.iter().map(tag).collect::<Vec<_>>()}),
        Value::Object(o) => {
            json!({"t": "o", "o": o.iter().map(|(k, v)| json!([k, tag(v)])).collect::<Vec<_>>()})
        }
    }
}

fn flatten<'a>(f: Fragment<'a>, out: &mut Vec<(Fragment<'a>, usize)>) {
    let at = out.len();
    out.push((f, 0));
    // do not borrow from the temporary list of children
    let nodes = f.tree.children(f.element.node).unwrap();
    out[at].1 = nodes.len();
    for node in nodes {
        let element = f.tree.get_node_context(node).unwrap();
        flatten(Fragment { element, tree: f.tree }, out);
    }
}

fn observe(view: &View, want: &str) -> Vec<Value> {
    let mut flat = vec![];
    flatten(view.body(), &mut flat);
    flat.iter()
        .map(|(f, kids)| {
            let e = f.element;
            let mut o = Map::new();
            o.insert("tag".into(), json!(e.tag));
            o.insert("nk".into(), json!(kids));
            o.insert("istx".into(), json!(e.text.is_some()));
            let text = e.text.as_ref().map(|t| t.to_string()).unwrap_or_default();
            o.insert("tx".into(), json!(text));
            let mut attrs: Vec<_> = e.attrs.iter().collect();
            attrs.sort();
            o.insert("at".into(), json!(attrs));
            let g = [e.position[0], e.position[1], e.size[0], e.size[1]];
            o.insert("g".into(), json!(g.iter().map(|x| milli(*x)).collect::<Vec<_>>()));
            if want.contains('s') {
                let layout = f.tree.style(e.node).unwrap();
                o.insert("s".into(), style::style(e, layout));
            }
            if want.contains('l') {
                let l = f.tree.layout(e.node).unwrap();
                let local = [l.location.x, l.location.y, l.size.width, l.size.height,
                    l.content_size.width, l.content_size.height];
                o.insert("l".into(), json!(local.iter().map(|x| milli(*x)).collect::<Vec<_>>()));
                let c = [e.content_size[0], e.content_size[1]];
                o.insert("c".into(), json!(c.iter().map(|x| milli(*x)).collect::<Vec<_>>()));
                o.insert("op".into(), milli(e.opacity));
                o.insert("scr".into(), match &e.scrolling {
                    None => json!([]),
                    Some(s) => json!([milli(s.x), milli(s.y), milli(s.scroll_x), milli(s.scroll_y)]),
                });
                o.insert("clip".into(), match &e.clipping {
                    None => json!([]),
                    Some(l) => json!([milli(l.location.x), milli(l.location.y),
                        milli(l.size.width), milli(l.size.height)]),
                });
            }
            Value::Object(o)
        })
        .collect()
}

fn key(name: &str) -> Keys {
    serde_json::from_value(json!(name)).unwrap()
}

/// Resolves symbolic mouse targets by the geometry of the latest frame.
fn resolve_events(view: &View, events: &[Value]) -> Vec<Value> {
    let mut flat = vec![];
    flatten(view.body(), &mut flat);
    events
        .iter()
        .map(|e| {
            let mut e = e.clone();
            if let Some(to) = e.get("to").and_then(Value::as_u64) {
                let f = flat[to as usize % flat.len()].0;
                let [x, y] = f.element.position;
                let [w, h] = f.element.size;
                let (x, y) = match e["at"].as_str().unwrap() {
                    "c" => (x + w / 2.0, y + h / 2.0),
                    "tl" => (x, y),
                    "br" => (x + w, y + h),
                    "r" => (x + w, y + h / 2.0),
                    "b" => (x + w / 2.0, y + h),
                    "in" => (x + w - 0.5, y + h - 0.5),
                    "out" => (x - 0.5, y + h / 2.0),
                    "up" => (x + w / 2.0, y - 0.5),
                    a => panic!("bad anchor {a}"),
                };
                e = json!({"e": "move", "x": milli(x), "y": milli(y)});
            }
            e
        })
        .collect()
}

fn to_event(e: &Value) -> InputEvent {
    let button = |e: &Value| match e["b"].as_str().unwrap() {
        "Left" => MouseButtons::Left,
        _ => MouseButtons::Right,
    };
    match e["e"].as_str().unwrap() {
        "move" => InputEvent::MouseMove([
            e["x"].as_f64().unwrap() as f32 / 1000.0,
            e["y"].as_f64().unwrap() as f32 / 1000.0,
        ]),
        "down" => InputEvent::MouseButtonDown(button(e)),
        "up" => InputEvent::MouseButtonUp(button(e)),
        "keydown" => InputEvent::KeyDown(key(e["k"].as_str().unwrap())),
        "keyup" => InputEvent::KeyUp(key(e["k"].as_str().unwrap())),
        "char" => InputEvent::Char(e["c"].as_str().unwrap().chars().next().unwrap()),
        "wheel" => InputEvent::MouseWheel([0.0, 1.0]),
        _ => InputEvent::Unknown,
    }
}

fn load(sc: &Value) -> Result<View, String> {
    let html = sc["html"].as_str().unwrap();
    let css = sc["css"].as_str().unwrap();
    let fonts = TestFonts { wrap: sc["fonts"] == "wrap" };
    let mut view = View::from_html(html, css, "./assets", fonts, Box::new(TestTranslator))
        .map_err(|e| format!("{e:?}"))?;
    for (name, pipe) in pipes::all() {
        view = view.pipe(name, pipe);
    }
    Ok(view)
}

/// null stands for a number which is none
fn wild(x: &Value) -> f32 {
    x.as_f64().map(|x| x as f32).unwrap_or(f32::NAN)
}

fn frame(view: &mut View, step: &Value, events: &[Value]) -> Result<Output, ViewError> {
    let mut events: Vec<InputEvent> = events.iter().map(to_event).collect();
    let mut time = Duration::from_micros(step["dt"].as_u64().unwrap());
    let mut viewport = [wild(&step["vp"][0]), wild(&step["vp"][1])];
    // inputs which have no meaning for the specification (nothing but failures matters)
    if let Some(w) = step.get("wild").and_then(Value::as_object) {
        if let Some(vp) = w.get("vp") {
            viewport = [wild(&vp[0]), wild(&vp[1])];
        }
        if let Some(secs) = w.get("secs").and_then(Value::as_u64) {
            time = Duration::new(secs, 999_999_999);
        }
        for m in w.get("mouse").and_then(Value::as_array).into_iter().flatten() {
            let at = [wild(&m[0]), wild(&m[1])];
            events.push(InputEvent::MouseMove(at));
            events.push(InputEvent::MouseButtonDown(MouseButtons::Left));
            events.push(InputEvent::MouseWheel(at));
            events.push(InputEvent::Char('\u{10ffff}'));
            events.push(InputEvent::Unknown);
        }
    }
    view.update(Input::new().time(time).viewport(viewport).events(events), untag(&step["value"]))
}

fn record(o: &mut Map<String, Value>, view: &View, output: &Output, sc: &Value, want: &str) {
    o.insert("cap".into(), json!(output.is_input_captured));
    o.insert("ptr".into(), json!(format!("{:?}", output.pointer)));
    o.insert("msgs".into(), json!(output.messages.iter().map(tag).collect::<Vec<_>>()));
    o.insert("nodes".into(), json!(observe(view, want)));
    let mut flat = vec![];
    flatten(view.body(), &mut flat);
    let ids: Vec<Value> = sc["ids"]
        .as_array()
        .map(Vec::as_slice)
        .unwrap_or_default()
        .iter()
        .map(|id| {
            match view.get_element_by_id(id.as_str().unwrap()) {
                None => json!(-2),
                Some(e) => match flat.iter().position(|(f, _)| f.element.node == e.node) {
                    Some(i) => json!(i),
                    None => json!(-1),
                },
            }
        })
        .collect();
    o.insert("ids".into(), json!(ids));
}

enum Report {
    Load(String, String),
    Step(Value),
    Done,
}

fn failed(out: &str, note: String) -> Value {
    json!({"out": out, "note": note, "ev": [], "cap": false, "ptr": "", "msgs": [], "nodes": [], "ids": []})
}

fn run(sc: Value, tx: mpsc::Sender<Report>) {
    let note = |e: Box<dyn std::any::Any + Send>| {
        e.downcast_ref::<String>().cloned()
            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    };
    let want = sc["want"].as_str().unwrap_or("").to_string();
    let twin = sc["twin"].as_str().unwrap_or("").to_string();
    let mut view = match catch_unwind(AssertUnwindSafe(|| load(&sc))) {
        Ok(Ok(view)) => view,
        Ok(Err(e)) => {
            let _ = tx.send(Report::Load("err".into(), e));
            let _ = tx.send(Report::Done);
            return;
        }
        Err(e) => {
            let _ = tx.send(Report::Load("panic".into(), note(e)));
            let _ = tx.send(Report::Done);
            return;
        }
    };
    let _ = tx.send(Report::Load("ok".into(), String::new()));
    // the same updates by another view of the same document, interleaved with the first one
    let mut again = if twin == "again" { load(&sc).ok() } else { None };
    // updates of an unrelated view in between
    let mut noise = if sc["noise"].is_object() { load(&sc["noise"]).ok() } else { None };
    for step in sc["steps"].as_array().unwrap() {
        let result = catch_unwind(AssertUnwindSafe(|| {
            let events = resolve_events(&view, step["ev"].as_array().unwrap());
            if let Some(noise) = noise.as_mut() {
                let _ = frame(noise, step, &events);
            }
            match frame(&mut view, step, &events) {
                Err(e) => failed("err", format!("{e:?}")),
                Ok(output) => {
                    let mut o = Map::new();
                    o.insert("out".into(), json!("ok"));
                    o.insert("note".into(), json!(""));
                    o.insert("ev".into(), json!(events));
                    record(&mut o, &view, &output, &sc, &want);
                    let mut other = match (twin.as_str(), again.as_mut()) {
                        ("again", Some(view)) => match frame(view, step, &events) {
                            Ok(output) => Some((None, output)),
                            Err(e) => return failed("err", format!("again {e:?}")),
                        },
                        ("fresh", _) => {
                            let mut view = load(&sc).expect("loaded before");
                            let step = json!({"dt": 0, "vp": step["vp"], "value": step["value"]});
                            match frame(&mut view, &step, &[]) {
                                Ok(output) => Some((Some(view), output)),
                                Err(e) => return failed("err", format!("fresh {e:?}")),
                            }
                        }
                        _ => None,
                    };
                    if let Some((fresh, output)) = other.take() {
                        let view = fresh.as_ref().or(again.as_ref()).unwrap();
                        let mut t = Map::new();
                        record(&mut t, view, &output, &sc, &want);
                        o.insert("twin".into(), Value::Object(t));
                    }
                    Value::Object(o)
                }
            }
        }));
        let (value, stop) = match result {
            Ok(value) => {
                let stop = value["out"] != json!("ok");
                (value, stop)
            }
            Err(e) => (failed("panic", note(e)), true),
        };
        let _ = tx.send(Report::Step(value));
        if stop {
            break;
        }
    }
    let _ = tx.send(Report::Done);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    for line in input.lines().skip(skip) {
        let sc: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = sc["id"].clone();
        let (tx, rx) = mpsc::channel();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || run(sc, tx))
            .unwrap();
        let mut load = ("hang".to_string(), String::new());
        let mut steps = vec![];
        loop {
            match rx.recv_timeout(Duration::from_secs(20)) {
                Ok(Report::Load(l, n)) => load = (l, n),
                Ok(Report::Step(s)) => steps.push(s),
                Ok(Report::Done) => break,
                Err(_) => {
                    if load.0 == "ok" {
                        steps.push(failed("hang", String::new()));
                    }
                    break;
                }
            }
        }
        let trace = json!({"id": id, "load": load.0, "note": load.1, "steps": steps});
        writeln!(out, "{trace}").unwrap();
        out.flush().unwrap();
    }
    std::process::exit(0);
}
