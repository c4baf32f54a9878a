#!/usr/bin/env python3
"""usage: plant.py FILE [ID..]   plants the bugs defined in FILE (a Python file with calls of bug(...)) into /verif/seeded,
keeping those which compile, pass the tests and are shown by their demonstration."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seed/wt"
PRELUDE = '''#![allow(dead_code, unused_imports, unused_mut)]
use bumaga::*;
use serde_json::{json, Value};
use std::time::Duration;
struct F;
impl Fonts for F {
    fn measure(&self, text: &str, face: &FontFace, max_width: Option<f32>) -> [f32; 2] {
        let _ = max_width;
        [text.len() as f32 * face.size / 2.0, face.size]
    }
}
struct T;
impl RendererTranslator for T {
    fn translate(&self, span: String) -> String { span }
}
fn page(html: &str, css: &str) -> View {
    View::from_html(html, css, "", F, Box::new(T)).expect("loads")
}
fn view(body: &str, css: &str) -> View {
    page(&format!("<html><body>{body}</body></html>"), css)
}
fn up(view: &mut View, value: Value) -> Output { view.update(Input::new(), value).expect("updates") }
fn ms(view: &mut View, ms: u64, value: Value) -> Output {
    view.update(Input::new().time(Duration::from_millis(ms)), value).expect("updates")
}
fn ev(view: &mut View, events: &[InputEvent], value: Value) -> Vec<String> {
    let out = view.update(Input::new().events(events.to_vec()), value).expect("updates");
    out.messages.iter().map(|m| m.to_string().replace('"', "")).collect()
}
fn go(x: f32, y: f32) -> InputEvent { InputEvent::MouseMove([x, y]) }
const DOWN: InputEvent = InputEvent::MouseButtonDown(MouseButtons::Left);
const UP: InputEvent = InputEvent::MouseButtonUp(MouseButtons::Left);
const RDOWN: InputEvent = InputEvent::MouseButtonDown(MouseButtons::Right);
const RUP: InputEvent = InputEvent::MouseButtonUp(MouseButtons::Right);
/// texts and tags of displayed elements
fn show(f: &Fragment) -> String {
    let mut out = String::new();
    match &f.text {
        Some(text) => out.push_str(&text.to_string()),
        None => {
            let id = f.attrs.get("id").cloned().unwrap_or_default();
            out.push_str(&format!("{}{}(", f.tag, id));
            out.push_str(&f.children().iter().map(show).collect::<Vec<_>>().join(" "));
            out.push(')');
        }
    }
    out
}
fn tree(view: &View) -> String { show(&view.body()) }
fn child<'a>(view: &'a View, path: &[usize]) -> &'a Element {
    let body = view.body();
    let mut element = body.element;
    for i in path {
        let fragment = Fragment { element, tree: body.tree };
        let next = fragment.children()[*i].element as *const Element;
        element = unsafe { &*next };
    }
    element
}
fn same<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(a: A, b: B) {
    if a != b { eprintln!("got {a:?} instead of {b:?}"); std::process::exit(1) }
}
'''
DEMO = '''#!/bin/bash
# run in the repository; exit 0 when the property holds
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bumaga = { path = "$(pwd)" }
serde_json = "1.0.118"
END
export CARGO_TARGET_DIR="${DEMO_TARGET:-$D/target}"
cd "$D" && cargo build --offline --quiet 2> "$D/log" || { cat "$D/log"; exit 2; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
BUGS = []
def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, edits, demo, needs, breaks))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    exec(open(sys.argv[1]).read(), {"bug": bug})
    only = set(sys.argv[2:])
    os.makedirs("/tmp/seed", exist_ok=True)
    if not os.path.exists(WT): sh(["git", "clone", "-q", "/repo", WT])
    sh(["git", "-C", WT, "checkout", "-q", "."]); sh(["git", "-C", WT, "pull", "-q"])
    base = sh(["git", "-C", WT, "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    env = {**os.environ, "DEMO_TARGET": "/tmp/seed/demo-target"}
    for id, prop, edits, demo, needs, breaks in BUGS:
        if only and id not in only: continue
        dest = os.path.join(ROOT, "seeded", id)
        if not only and os.path.exists(dest): continue
        sh(["git", "-C", WT, "checkout", "-q", "."])
        tmp = f"/tmp/seed/new/{id}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(f"{tmp}/main.rs", "w").write(PRELUDE + "fn main() {\n" + demo.strip("\n") + "\n}\n")
        open(f"{tmp}/demo.sh", "w").write(DEMO)
        r = sh(["bash", f"{tmp}/demo.sh"], cwd=WT, env=env)
        if r.returncode: print(id, "DEMO FAILS ON CLEAN TREE", r.stdout[-800:]); continue
        ok = True
        for path, old, new in edits:
            p = f"{WT}/{path}"; s = open(p).read()
            if s.count(old) != 1: print(id, "EDIT MATCHES", s.count(old), path, old[:60]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        diff = sh(["git", "-C", WT, "diff"]).stdout
        # lines of the original repository?
        foreign = []
        for f in sorted({e[0] for e in edits}):
            blame = sh(["git", "-C", WT, "blame", "-l", "-s", "HEAD", "--", f]).stdout.splitlines()
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh(["git", "-C", WT, "diff", "-U0", "--", f]).stdout, re.M):
                a, n = int(h.group(1)), int(h.group(2) or 1)
                for l in blame[a - 1:a - 1 + n]:
                    if not l.lstrip("^").startswith(base[:30]): foreign.append(l[41:])
                if n == 0: foreign.append("(insertion)")
        r = sh(["cargo", "test", "--offline"], cwd=WT)
        m = re.search(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
        if not m or m.group(1) != "ok":
            print(id, "TESTS", m.group(0) if m else r.stdout[-1500:], re.findall(r"test (\S+) \.\.\. FAILED", r.stdout)[:4]); continue
        r = sh(["bash", f"{tmp}/demo.sh"], cwd=WT, env=env)
        if r.returncode in (0, 2): print(id, "DEMO DOES NOT SHOW IT", r.returncode, r.stdout[-800:]); continue
        shutil.rmtree(dest, ignore_errors=True); shutil.copytree(tmp, dest)
        open(f"{dest}/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{dest}/meta.json", "w"), indent=1)
        print(id, "planted;", r.stdout.strip()[-160:], "FOREIGN" if foreign else "", foreign[:3])
    sh(["git", "-C", WT, "checkout", "-q", "."])

if __name__ == "__main__": main()
