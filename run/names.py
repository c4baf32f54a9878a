"""The same scenario with other names and deeper in the tree: of fields, items and aliases, classes and identifiers, variables and animations.
Scenarios use few short names; the library must not depend on what they are (dashes, digits, capital letters,
names which continue each other, long ones). The specification is asked about the renamed scenario."""
import copy, os
from lib import *

# names which look like each other
DEEP = float(os.environ.get('DEEP', '.03'))
FAMILIES = [
    ["a", "ab", "abc", "abcd", "b", "bc", "bcd", "aa", "ba", "aab"],
    ["n", "N", "n-", "-n", "n_", "_n", "nn", "n-n", "n_n", "Nn", "nN"],
    ["x1", "x10", "x11", "x2", "x100", "x", "x01", "x1x", "x-1", "x_1"],
    ["--", "-", "_", "__", "-_", "_-", "---", "-a", "a-", "a--"],
    ["Player", "player", "PLAYER", "playerName", "player-name", "player_name", "players", "playe", "ayer"],
    ["long" * 20 + c for c in ("", "a", "b", "ab", "-", "_", "1", "g", "lo", "long")],
    ["index", "item", "this", "value", "length", "true", "null", "event", "root", "body", "self"],
    ["1a", "2a", "11a", "0x", "1-1", "0_", "1e1", "7up", "00a"],
]

def mapping(names, rng, digits=True, first=""):
    """every name to another one, mostly of one family"""
    names = sorted(names)
    pool = [n for n in rng.choice(FAMILIES)]
    rng.shuffle(pool)
    ok = lambda n: (digits or not any(c.isdigit() for c in n))
    pool = [first + n for n in pool if ok(n)]
    out, used = {}, set(names)
    for n in names:
        if pool and rng.random() < .8:
            m = pool.pop()
        elif rng.random() < .5: m = n
        else: m = rng.choice([n + "-x", n + "_", n.upper(), n + n])
        if m in out.values() or m in used and m != n: m = n
        out[n] = m
    # injective: a name which stays must not be the image of another one
    return out if len(set(out.values())) == len(out) else {}

def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values(): walk(v, f)
    elif isinstance(x, list):
        for v in x: walk(v, f)

def fields(s, rng):
    """fields of values, and the names of items and aliases"""
    names = set()
    def look(x):
        if "path" in x and "pipe" in x: names.update(x["path"])
        if x.get("b") in ("alias", "repeat"): names.add(x["k"])
        if x.get("t") == "o": names.update(k for k, _ in x["o"])
    walk(s["doc"], look); walk(s["steps"], look)
    names = {n for n in names if not n.isdigit()}
    m = mapping(names, rng)
    if not m: return
    def put(x):
        if "path" in x and "pipe" in x: x["path"] = [m.get(n, n) for n in x["path"]]
        if x.get("b") in ("alias", "repeat"): x["k"] = m[x["k"]]
        if x.get("t") == "o": x["o"] = sorted([m.get(k, k), v] for k, v in x["o"])
    walk(s["doc"], put); walk(s["steps"], put)

def classes(s, rng):
    """classes and identifiers of selectors and what may be compared with them"""
    names = set()
    def look(x):
        if x.get("s") in ("class", "id") and "n" in x: names.add(x["n"])
    walk(s["doc"]["rules"], look)
    m = mapping(names, rng)
    if not m: return
    other = lambda text: " ".join(m.get(w, w) for w in text.split(" "))
    if any(other(i["s"]) != i["s"] for i in s["doc"]["inl"]): return
    def put(x):
        if x.get("s") in ("class", "id") and "n" in x: x["n"] = m[x["n"]]
        elif x.get("s") == "attr" and "v" in x and x["n"] in ("class", "id"): x["v"] = other(x["v"])
        elif x.get("b") == "none": x["v"] = other(x["v"])
        elif x.get("t") == "lit" or x.get("t") == "s": x["s"] = other(x["s"])
    walk(s["doc"]["rules"], put); walk(s["doc"]["body"], put); walk(s["doc"]["tpls"], put); walk(s["steps"], put)
    s["ids"] = sorted({other(i) for i in s["ids"]} | set(s["ids"]))

def variables(s, rng):
    """variables and animations (their names have no digits where they are used)"""
    names = set()
    def look(x):
        if x.get("t") == "var": names.add(x["s"])
        if "p" in x and "v" in x and x["p"].startswith("--"): names.add(x["p"])
    walk(s["doc"], look)
    plain = {n[2:] for n in names}
    m = {"--" + a: "--" + b for a, b in mapping(plain, rng, digits=False).items()}
    k = mapping(set(s["doc"]["anims"]), rng, digits=False)
    k = {a: b for a, b in k.items() if b.replace("-", "").replace("_", "")}
    if any(n[0] in "-_" or n in ("true", "null") for n in k.values()): k = {}
    texts = [i["s"] for i in s["doc"]["inl"]]
    if texts: return
    def put(x):
        if x.get("t") == "var": x["s"] = m.get(x["s"], x["s"])
        if x.get("t") == "kw": x["s"] = k.get(x["s"], x["s"])
        if "p" in x and "v" in x and x["p"] in m: x["p"] = m[x["p"]]
    walk(s["doc"]["rules"], put); walk(s["doc"]["anims"], put)
    s["doc"]["anims"] = {k.get(n, n): v for n, v in s["doc"]["anims"].items()}

def nested(s, rng, deep):
    """the content of the body within further elements"""
    body = s["doc"]["body"]
    for _ in range(rng.randint(1, 3) if not deep or rng.random() < .5 else rng.randint(60, 80)):
        body["kids"] = [el("section", [], *body["kids"])]

def vary(s, rng, deep=True):
    d = s["doc"]
    if s["expect"] != "ok" or s["html"] != r_html(d) or s["css"] != r_css(d): return s
    n = copy.deepcopy(s)
    if rng.random() < DEEP: nested(n, rng, deep)
    if rng.random() < .7: fields(n, rng)
    if rng.random() < .7: classes(n, rng)
    if rng.random() < .7: variables(n, rng)
    n["html"], n["css"] = r_html(n["doc"]), r_css(n["doc"])
    return n
