#!/usr/bin/env python3
"""usage: check.py PROPERTY   (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)

Builds the harness against /repo, generates scenarios for the property (from TLC's exploration of
the models in /verif/spec and from seeded random generators), runs them in the real library and
lets TLC decide whether the recorded traces are behaviours of the specification."""
import json, os, random, re, concurrent.futures, subprocess, sys, time, shutil, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import lib

SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("BUMAGA_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-cp", JARS]

SHARDS = int(os.environ.get("SHARDS", "4"))

class Broken(Exception):
    """the check itself could not be done"""

def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(work):
    target = os.environ.get("CARGO_TARGET_DIR", os.path.join(ROOT, "harness", "target"))
    r = sh(["cargo", "build", "--offline", "--release", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")],
           600, env={**os.environ, "CARGO_TARGET_DIR": target})
    if r.returncode: raise Broken("harness does not build:\n" + r.stdout[-3000:])
    exe = os.path.join(work, "harness")
    shutil.copy(os.path.join(target, "release", "harness"), exe)
    return exe

def run_harness(exe, scens, work, name):
    """traces of scenarios; a scenario which aborts the process is recorded as such"""
    src, dst = os.path.join(work, name + ".in"), os.path.join(work, name + ".out")
    with open(src, "w") as f:
        for s in scens: f.write(json.dumps(lib.for_harness(s)) + "\n")
    if os.path.exists(dst): os.remove(dst)
    done = 0
    while done < len(scens):
        p = subprocess.Popen([exe, src, dst, str(done)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: p.wait(600)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
        lines = sum(1 for _ in open(dst)) if os.path.exists(dst) else 0
        if lines == len(scens): break
        # the process has died while it was running the next scenario
        with open(dst, "a") as f:
            f.write(json.dumps({"id": scens[lines]["id"], "load": "ok", "note": "process aborted",
                                "steps": [{"out": "abort", "note": "", "ev": [], "cap": False, "ptr": "",
                                           "msgs": [], "nodes": [], "ids": []}]}) + "\n")
        done = lines + 1
    return dst

def run_tlc(args, env, work, timeout, name):
    meta = tempfile.mkdtemp(dir=work)
    r = sh(JAVA + ["tlc2.TLC", "-noGenerateSpecTE", "-fp", "7", "-metadir", meta] + args, timeout,
           cwd=SPEC, env={**os.environ, **env})
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, name + ".tlc"), "w") as f: f.write(r.stdout)
    return r

def printed(out):
    for line in out.splitlines():
        m = re.match(r'^"(@@|##)(.*)"$', line)
        if m: yield m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))

def totals(out):
    """states generated and distinct, as in the last line about them"""
    generated, distinct = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)[-1]
    return int(generated.replace(",", "")), int(distinct.replace(",", ""))

def validate(scens, traces, work, name, workers=2, timeout=800):
    """differences found by TLC between traces and the specification"""
    src = os.path.join(work, name + ".scens")
    with open(src, "w") as f:
        for s in scens: f.write(json.dumps(lib.for_spec(s)) + "\n")
    r = run_tlc(["-workers", str(workers), "-config", "BTrace.cfg", "BTrace.tla"],
                {"SCENS": src, "TRACES": traces}, work, timeout, name)
    if "Model checking completed. No error has been found" not in r.stdout:
        raise Broken("trace validation failed:\n" + r.stdout[-3000:])
    return [d for k, d in printed(r.stdout) if k == "@@"], totals(r.stdout)[1]

def run_model(model, cfg, env, work, timeout=600, workers=4):
    """explores a model of the specification; returns its behaviours (##) and statistics"""
    r = run_tlc(["-workers", str(workers), "-config", cfg, model], env, work, timeout, os.path.basename(cfg))
    if "Model checking completed. No error has been found" not in r.stdout:
        raise Broken(f"the model {model} does not have its properties:\n" + r.stdout[-3000:])
    return [d for k, d in printed(r.stdout) if k == "##"], *totals(r.stdout)

def known(prop):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) scenario=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def matters(d, conf):
    """does a difference speak about the property?"""
    if d["cat"] == "style" and conf.get("props"):
        return bool(conf["props"] & (set(d["exp"] or []) | set(d["got"] or [])))
    return d["cat"] == "fail" or d["cat"] in conf["cats"]

def main():
    import profiles, names
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv: tier = "thorough"
    started = time.time()
    conf = profiles.PROPS[prop]
    work = os.path.join(ROOT, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    evidence = {"property": prop, "tier": tier, "seed": seed}
    exe = build(work)
    # scenarios: behaviours of models, then random ones
    scens, models = [], []
    for make in conf.get("models", []):
        got, stats = make(lambda *a, **kw: run_model(*a, work=work, **kw), tier, seed)
        scens += got
        models.append(stats)
    count = conf["count"] * (20 if tier == "thorough" else 1)
    if os.environ.get("COUNT"): count = int(os.environ["COUNT"])
    for i in range(count):
        rng = random.Random(f"{prop}/{seed}/{i}")
        s = conf["profile"](rng, f"{prop}-{seed}-{i}", tier)
        scens.append(s)
    # some of them with other names
    share = float(os.environ.get("NAMES", ".25"))
    for i, s in enumerate(scens):
        rng = random.Random(f"names/{seed}/{s['id']}")
        if rng.random() < share: scens[i] = names.vary(s, rng, deep="geo" not in conf["cats"])
    only = os.environ.get("ONLY")
    if only: scens = [s for s in scens if s["id"] == only]
    cats = set(conf["cats"]) | {"fail"}
    diffs, states, steps, batch = [], 0, 0, 800
    ns, msgs = 0, 0
    limit = 700 if tier == "quick" else 10 ** 6
    ran = []
    for b in range(0, len(scens), batch):
        part = scens[b:b + batch]
        shards = [part[i::SHARDS] for i in range(SHARDS) if part[i::SHARDS]]
        def one(i):
            traces = run_harness(exe, shards[i], work, f"t{b}.{i}")
            return (*validate(shards[i], traces, work, f"v{b}.{i}"), traces)
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as pool:
            results = list(pool.map(one, range(len(shards))))
        ran += part
        for d, n, traces in results:
            diffs += d; states += n
            for line in open(traces):
                t = json.loads(line)
                steps += len(t["steps"])
                for st in t["steps"]:
                    ns += len(st["nodes"]); msgs += len(st["msgs"])
            if not os.environ.get("KEEP"): os.remove(traces)
        if not os.environ.get("KEEP"):
            for name in os.listdir(work):
                if name.endswith((".in", ".scens")): os.remove(os.path.join(work, name))
        if any(matters(x, conf) for x in diffs): break
        if time.time() - started > limit: break
    relevant = [d for d in diffs if matters(d, conf)]
    listed = dict(known(prop))
    by_id = {s["id"]: s for s in ran}
    violations = []
    for d in relevant:
        if d["sc"] in listed:
            continue
        violations.append(d)
    for sid in sorted({d["sc"] for d in relevant} & set(listed)):
        print(f"KNOWN-FINDING: property={prop} {listed[sid]}")
    replay = ""
    if violations:
        first = violations[0]["sc"]
        replay = os.path.join(ROOT, "work", prop, "replay.json")
        with open(replay, "w") as f:
            json.dump({"scenario": by_id[first], "differences": [d for d in violations if d["sc"] == first]}, f, indent=1)
        with open(os.path.join(work, "diffs.jsonl"), "w") as f:
            for d in violations: f.write(json.dumps(d) + "\n")
    other = {}
    for d in diffs:
        if not matters(d, conf): other[d["cat"]] = other.get(d["cat"], 0) + 1
    sample = {}
    report(prop, tier, seed, conf, models, ran, steps, ns, msgs, states, violations, other, time.time() - started)
    if violations:
        for d in violations[:8]:
            print(json.dumps(d)[:600])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"{prop}: {len(ran)} scenarios, {steps} updates, {ns} observed nodes, {msgs} messages, "
          f"{states} states, no difference in {sorted(cats)} ({time.time() - started:.1f} s)"
          + (f"; others: {other}" if other else ""))
    return 0

def report(prop, tier, seed, conf, models, ran, steps, nodes, msgs, states, violations, other, secs):
    import evidence
    evidence.write(ROOT, prop, tier, seed, conf, models, ran, steps, nodes, msgs, states, violations, other, secs)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("BROKEN CHECK:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("BROKEN CHECK: timeout", e)
        sys.exit(2)
