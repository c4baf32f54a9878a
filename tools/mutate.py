#!/usr/bin/env python3
"""Mutants of the library against the corpus of scenarios of all checks, in scratch copies under /tmp/mut.
corpus                       write the scenarios of all quick checks (and what the library shows for them)
list [--sample N --seed S]   write the mutants
run WORKER OF                run every OF-th mutant: built, through the tests, then over the corpus
A mutant survives if the library shows the same for the whole corpus; differences are shown by which check's scenarios."""
import json, os, random, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{ROOT}/run")
MUT = "/tmp/mut"
def sh(cmd, timeout=600, **kw):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 99, "timeout")

def corpus():
    import check, profiles, lib
    work = f"{MUT}/work"; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    done = {}
    for pid, conf in profiles.PROPS.items():
        if os.path.exists(f"{MUT}/{pid}.in"): [done.setdefault(id(m), 1) for m in conf["models"]]; continue
        scens = []
        for m in conf["models"]:
            if id(m) in done: continue
            done[id(m)] = 1
            scens += m(lambda *a, **kw: check.run_model(*a, work=work, **kw), "quick", 1)[0]
        for i in range(conf["count"]):
            scens.append(conf["profile"](random.Random(f"{pid}/1/{i}"), f"{pid}-1-{i}", "quick"))
        random.Random(7).shuffle(scens)
        with open(f"{MUT}/{pid}.in", "w") as f:
            for s in scens: f.write(json.dumps(lib.for_harness(s)) + "\n")
        print(pid, len(scens), flush=True)

SKIP = {"testing.rs", "metrics.rs", "stats.rs", "error.rs", "lib.rs", "mod.rs"}
def mutants():
    out = []
    for base, _, names in os.walk("/repo/src"):
        for n in sorted(names):
            path = os.path.join(base, n)
            if not n.endswith(".rs") or (n in SKIP and "styles" not in base): continue
            lines = open(path).read().split("\n")
            for i, line in enumerate(lines):
                if "#[cfg(test)]" in line: break
                code = line.split("//")[0]
                if not code.strip() or code.strip().startswith(("use ", "#[", "pub mod", "mod ", "error!", "warn!")) or "error!(" in code: continue
                def put(new, op):
                    if new != line: out.append({"file": os.path.relpath(path, "/repo"), "line": i, "old": line, "new": new, "op": op})
                for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
                             (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), ("true", "false"), ("false", "true"), ("+= ", "-= "), (".rev()", ""),
                             ("continue;", "break;"), ("break;", "continue;"), ("if !", "if "), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"),
                             (".is_empty()", ".len() == 1"), (".first()", ".last()"), (".last()", ".first()"), (".min(", ".max("), (".max(", ".min("), ("1.0", "0.5"), ("0.0", "1.0")):
                    for m in re.finditer(re.escape(a), code):
                        put(line[:m.start()] + b + line[m.end():], f"{a.strip()}->{b.strip()}")
                for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                    put(line[:m.start()] + str(int(m.group(1)) + 1) + line[m.end():], "n+1")
                s = code.strip()
                if re.match(r"^[\w.*\[\]&():?<>, ]+(\(.*\)|=[^=>].*);$", s) and not s.startswith(("let ", "return", "pub ", "const ", "type ")): put("", "delete")
                if re.match(r"^(\} else )?if (?!let )", s) and s.endswith("{"):
                    put(re.sub(r"if .* \{$", "if true {", line.rstrip()), "if true"); put(re.sub(r"if .* \{$", "if false {", line.rstrip()), "if false")
                m = re.match(r"^(\s*)let mut |^(\s*)return", line)
                if s.startswith("return") and s == "return;": put("", "no return")
                m = re.match(r'^(\s*)"[\w-]+" => (.*),$', line)
                if m: put("", "no arm")
                m = re.match(r'^(\s*)(\S.*[^|]) => (.*),$', line)
                if m and "_" != m.group(2).strip() and not s.startswith('"'): put("", "no arm")
    return out

def worker(k, n):
    ms = json.load(open(f"{MUT}/mutants.json"))
    wt, hd = f"{MUT}/repo{k}", f"{MUT}/harness{k}"
    if not os.path.exists(wt): sh(["git", "clone", "-q", "/repo", wt])
    sh(["git", "-C", wt, "checkout", "-q", "."]); sh(["git", "-C", wt, "pull", "-q"])
    shutil.rmtree(hd, ignore_errors=True)
    shutil.copytree(f"{ROOT}/harness", hd, ignore=shutil.ignore_patterns("target"))
    p = f"{hd}/Cargo.toml"; s = open(p).read(); open(p, "w").write(s.replace('"/repo"', f'"{wt}"'))
    env = {**os.environ, "CARGO_TARGET_DIR": f"{MUT}/target{k}", "CARGO_BUILD_JOBS": "3", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "1", "CARGO_PROFILE_RELEASE_INCREMENTAL": "true", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "64"}
    pids = sorted(f[:-3] for f in os.listdir(MUT) if f.endswith(".in"))
    def build(): return sh(["cargo", "build", "--offline", "--release", "--manifest-path", f"{hd}/Cargo.toml"], 300, env=env).returncode == 0
    exe = f"{MUT}/target{k}/release/harness"
    if k == 0 and not os.path.exists(f"{MUT}/C25.ref"):
        assert build()
        for pid in pids:
            sh([exe, f"{MUT}/{pid}.in", f"{MUT}/{pid}.tmp", "0"], 900); os.rename(f"{MUT}/{pid}.tmp", f"{MUT}/{pid}.ref")
        print("reference written", flush=True)
    while not os.path.exists(f"{MUT}/C25.ref"): time.sleep(2)
    log = open(f"{MUT}/results{k}.jsonl", "a")
    seen = {(r["file"], r["line"], r["new"]) for j in range(16) if os.path.exists(f"{MUT}/results{j}.jsonl") for r in map(json.loads, open(f"{MUT}/results{j}.jsonl"))}
    for m in ms[k::n]:
        if (m["file"], m["line"], m["new"]) in seen: continue
        path = f"{wt}/{m['file']}"
        text = open(path).read(); lines = text.split("\n")
        assert lines[m["line"]] == m["old"], m
        lines[m["line"]] = m["new"]
        open(path, "w").write("\n".join(lines))
        t = time.time()
        res = ""
        try:
            if not build(): res = "does not build"
            if not res:
                # the corpus, as far as it is needed
                for pid in ORDER + [p for p in pids if p not in ORDER]:
                    src, dst, ref = f"{MUT}/{pid}.in", f"{MUT}/out{k}", f"{MUT}/{pid}.ref"
                    if os.path.exists(dst): os.remove(dst)
                    r = sh([exe, src, dst, "0"], 120)
                    if r.returncode == 99: res = f"hangs {pid}"; break
                    if not os.path.exists(dst): res = f"dies {pid}"; break
                    with open(dst) as a, open(ref) as b:
                        for x, y in zip(a, b):
                            if x != y: res = f"seen by {json.loads(y)['id']}"; break
                        else:
                            if os.path.getsize(dst) != os.path.getsize(ref): res = f"dies {pid}"
                    if res: break
            if not res:
                r = sh(["cargo", "test", "--offline", "--workspace", "--", "--test-threads", "3"], 300, cwd=wt, env={**env, "CARGO_TARGET_DIR": f"{MUT}/ttarget{k}"})
                res = "SURVIVES" if r.returncode == 0 else "only tests"
        finally: open(path, "w").write(text)
        log.write(json.dumps({**m, "res": res, "t": round(time.time() - t, 1)}) + "\n"); log.flush()
ORDER = ["C25", "C24", "C14", "C11", "C01"]
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "corpus": corpus()
    elif a[1] == "list":
        ms = [m for m in mutants() if not (m["op"] == "no arm" and re.search(r"css/model|initial", m["file"]))]
        ms = [m for m in ms if not (m["op"] == "no arm" and "=> [" in m["old"])]; random.Random(3).shuffle(ms); json.dump(ms, open(f"{MUT}/mutants.json", "w")); print(len(ms))
    else: worker(int(a[2]), int(a[3]))
