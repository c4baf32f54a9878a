"""Scenarios about the whole: idle updates, geometry, lookup by id, determinism and copies."""
from lib import *
from gen import G, tagv, MISSING
import binding, pointer, styles, motion

def prop_free(d):
    """without animations, transitions and what depends on the mouse (which is at 0, 0 before it moves)"""
    d["rules"] = [r for r in d["rules"] if not any(x["s"] == "pc" for l in r["sels"] for c in l["parts"] for x in c)]
    d["rules"] = [r for r in d["rules"] if not any(x["p"].startswith(("animation", "transition")) for x in r["ds"])]
    d["anims"] = {}
    return d

MIX = [binding.values, binding.conditions, binding.repeats, binding.scopes, binding.pipes, pointer.hover, pointer.press,
       pointer.focus, pointer.drag, pointer.messages, pointer.output, styles.cascade, styles.selectors, styles.dynamic,
       styles.inheritance, styles.shorthands, styles.values, motion.animations, motion.transitions]

def idle(rng, sid, tier):
    """updates repeated without any input, or histories which only differ in the value"""
    g = G(rng)
    if g(.45):
        k = g.int(0, 7)
        if k < 1: return geometry(rng, sid, tier)
        s = g.pick([binding.values, binding.conditions, binding.repeats, binding.scopes])(rng, sid, tier) if k < 3 else \
            g.pick([styles.cascade, styles.dynamic, styles.inheritance, styles.values])(rng, sid, tier)
        prop_free(s["doc"])
        s["css"] = r_css(s["doc"])
        for st in s["steps"]: st["ev"] = []
        s["twin"] = "fresh"
    else:
        s = g.pick([*MIX[5:14], *MIX[17:]])(rng, sid, tier)
        s["twin"] = ""
        out = []
        for st in s["steps"][:6]:
            out.append(st)
            for _ in range(g.pick([1, 2, 3, 4])): out.append({**st, "dt": 0, "ev": []})
        s["steps"] = out
    s["want"] = "sl"
    s["ids"] = ["one", "two", "x", "row-1"]
    return s

# ---------------------------------------------------------------- geometry
class Rooms(pointer.Boxes):
    """boxes of whole pixels; `simple` ones are laid out by the specification itself"""
    def __init__(self, rng, simple):
        super().__init__(rng, listen=0, drag=0, drop=0, input=0, none=0, hidden=0, cursor=0, args=0, img=0,
                         vis=.3, rep=.25, cls=.5, text=.35)
        self.simple = simple
    def box(self, cname, depth):
        g, ds, s = self, [], self.simple
        big = [6, 30] if depth < 2 else [0, 14]
        if g(.55): ds.append(decl("width", g.pick([px(g.int(*big) * 10), px(g.int(*big) * 10), kw("auto"), pct(g.int(1, 12) * 10)])))
        if g(.45): ds.append(decl("height", g.pick([px(g.int(*big) * 6), px(g.int(*big) * 6), kw("auto"), pct(50)])))
        for p in ("left", "top", "right", "bottom"):
            if g(.12): ds.append(decl(p, g.pick([px(g.int(-8, 8) * 5), ZERO, kw("auto")])))
        if g(.3): ds.append(decl("padding", *[[px(g.int(0, 9)) for _ in range(g.int(1, 4))]]))
        if g(.2): ds.append(decl("border-width", *[[px(g.int(0, 5)) for _ in range(g.int(1, 4))]]))
        if g(.2): ds.append(decl("box-sizing", kw(g.pick(["content-box", "border-box"]))))
        if g(.25): ds.append(decl("font-size", px(g.pick([8, 10, 12, 20, 40]))))
        if g(.2): ds.append(decl("opacity", num(g.pick([.5, .25, 1, .1]))))
        if g(.15): ds.append(decl("font-family", string(g.pick(["a", "mono"]))))
        if g(.15): ds.append(decl("font-weight", num(g.pick([400, 700]))))
        if g(.1): ds.append(decl("font-style", kw(g.pick(["normal", "italic"]))))
        if g(.2): ds.append(decl("overflow", kw(g.pick(["hidden", "scroll", "visible", "auto", "clip"]))))
        if g(.1): ds.append(decl("pointer-events", kw("none")))
        if g(.1): ds.append(decl("color", col(1, 2, 3)))
        if s:
            if g(.15): ds.append(decl("position", kw("absolute")))
            elif g(.2): ds += [decl(p, g.pick([px(g.int(0, 5) * 5), kw("auto")])) for p in ("margin-left", "margin-right") if g(.7)]
            for p in g.pick([("min-width", "max-height"), ("max-width", "min-height")]):
                if g(.08): ds.append(decl(p, px(g.int(1, 20) * 10)))
        if not s:
            if g(.3): ds.append(decl("display", kw(g.pick(["flex", "flex", "grid", "block"]))))
            if g(.15): ds.append(decl("position", kw("absolute")))
            if g(.2): ds.append(decl("margin", g.pick([px(g.int(-2, 6) * 5), kw("auto"), pct(10)])))
            if g(.2): ds.append(decl("flex-grow", num(g.int(1, 3))))
            if g(.15): ds.append(decl("flex-direction", kw(g.pick(["column", "row-reverse", "column-reverse"]))))
            if g(.15): ds.append(decl("gap", px(g.int(1, 9))))
            if g(.15): ds.append(decl("align-items", kw(g.pick(["center", "stretch", "end"]))))
            if g(.15): ds.append(decl("justify-content", kw(g.pick(["center", "space-between", "end"]))))
            if g(.1): ds.append(decl("flex-wrap", kw("wrap")))
            for p in ("min-width", "max-width", "min-height", "max-height"):
                if g(.06): ds.append(decl(p, px(g.int(1, 20) * 10)))
            if g(.1): ds.append(decl("width", T(g.pick(["vw", "vh", "em", "rem"]), g.int(1, 20) * 500)))
        return rule(cls(cname), *ds)

def geometry(rng, sid, tier):
    g = Rooms(rng, rng.random() < .6)
    d = g.document(probes=False)
    prop_free(d)
    g.r.shuffle(d["rules"])
    m, vp, steps = g.model(), (800, 600), []
    for _ in range(g.int(3, 8)):
        if g(.15): vp = g.pick([(800, 600), (300, 200), (1024, 333), (2560, 1440), (g.int(1, 40) * 50, g.int(1, 40) * 50)])
        steps.append(step(tagv(m), 0, [], vp))
        if g(.85): m = g.change(m)
    return scenario(sid, d, steps, want="sl", twin="fresh", tol=2)

# ---------------------------------------------------------------- identifiers
NAMES = ["one", "two", "x", "7", "true"]
def identifiers(rng, sid, tier):
    g = binding.Doc(rng, attr=.15, flag=.03, vis=.25, rep=.25, alias=.15, link=.2, wide=3)
    tpls = g.templates() if g(.5) else []
    kids = g.kids(3, ())
    free = [False]
    def mark(n, names, root=False):
        if n["k"] == "tx": return
        names = list(names)
        n["bs"] = [b for b in n["bs"] if b.get("k") != "id"]
        for b in n["bs"]:
            if b["b"] in ("alias", "repeat"): names.append(b["k"])
        # a link and the root of its template do not have attributes of the same name
        if not root and g(.6):
            k = g.int(0, 9)
            if k < 3: n["bs"].append(attr("id", g.pick(NAMES[:3])))
            elif k < 5: n["bs"].append(bound("id", g.pick(NAMES[:3])))
            elif k < 6: n["bs"].append(bound("id", "o", ex("c")))
            else:
                e = ex(g.pick(names) + g.pick(["", ".name", ".n"])) if names and g(.75) else ex(g.pick(["a", "b", "c", "o.a", "xs.0.name"]))
                n["bs"].append(bound("id", e))
        for c in n["kids"]: mark(c, names)
    for k in kids: mark(k, ())
    for _, t in tpls: mark(t, (), root=True)
    steps = []
    def name(): return g.pick(NAMES[:3] + ["ne", "", 7, True, None, "zz"])
    def model():
        return {"a": name(), "b": name(), "c": g.pick(["ne", "x"]), "f": g(.5), "g": g(.5), "o": {"a": name(), "f": g(.5), "xs": [name() for _ in range(g.int(0, 3))]},
                "xs": [g.pick([{"name": name(), "n": name(), "on": g(.5), "subs": [name() for _ in range(g.int(0, 2))]}, name()]) for _ in range(g.int(0, 4))],
                "ys": [name() for _ in range(g.int(0, 3))], "p": {}}
    m = model()
    for _ in range(g.int(3, 9)):
        steps.append(step(tagv(m)))
        k = g.int(0, 9)
        if k < 1: m = model()
        elif k < 4 and m["xs"]:
            m = dict(m); xs = list(m["xs"])
            if g(.5): g.r.shuffle(xs)
            else: xs.pop(g.int(0, len(xs) - 1))
            m["xs"] = xs
        else:
            m = dict(m); new = model()
            for k in g.sample(list(m), 1, 3): m[k] = new[k]
    return scenario(sid, doc(kids, tpls), steps, want="", ids=NAMES + ["ne", "zz", "nope"])

# ---------------------------------------------------------------- determinism
def copies(rng, sid, tier):
    """equal copies with listeners and motion, of which some are hovered, pressed or focused"""
    g = motion.Motion(rng)
    anims = {"fade": g.keyframes()}
    ls = [on(e, f"k-{e}", *([EV] if g(.3) else []), {"t": "e", "e": E("it")}) for e in g.sample(pointer.EVENTS, 3, 9)]
    if g(.7): ls = [l for l in ls if l["k"] != "oninput"] + [on("oninput", "k")]
    inner = el("div", [attr("class", "box")] + ls + ([attr("draggable", "true")] if g(.4) else []),
               *([el("p", [bound("title", ex("it"))], tx(ex("it")))] if g(.5) else []))
    n = g.int(2, 4)
    tpl = g(.4)
    tpls = [("#t", inner)] if tpl else []
    one = lambda *bs: el("link", [*bs, attr("href", "#t")]) if tpl else el("div", [*bs, *inner["bs"]], *inner["kids"])
    kids = [one(repeat("it", n, E("xs")))]
    if tpl and g(.6): kids += [one(), one()]
    kids = g.pick([kids, [el("div", [repeat("row", 2, E("ys"))], *kids)]])
    prop = g.pick(["width", "opacity", "color", "background-color"])
    rules = [rule(cls("box"), decl("width", px(40)), decl("height", px(20))),
             rule(cls("box"), *g.transition([prop])),
             rule(sel([cls("box"), pc("hover")]), decl(prop, g.value(prop)), *(g.animation() if g(.4) else [])),
             rule(sel([cls("box"), pc("active")]), decl("margin-top", px(1)) if g(.2) else decl("font-weight", num(700))),
             rule(sel([cls("box"), pc("focus")]), *(g.animation() if g(.4) else [decl("text-align", kw("center"))]))]
    d = doc(kids, tpls, rules=rules, anims=anims)
    b = pointer.Boxes(rng, left=.8, kinds=list(range(14)))
    steps, m, queue = [], {"xs": [g.int(0, 3) for _ in range(n)], "ys": [1, 2]}, []
    for _ in range(g.int(6, 14)):
        if len(queue) < 3: queue += b.gesture()
        if g(.2): m = {"xs": [g.int(0, 3) for _ in range(g.int(0, n))], "ys": [1] * g.int(1, 2)}
        take = g.int(0, min(2, len(queue)))
        ev, queue = queue[:take], queue[take:]
        steps.append(step(tagv(m), g.pick([0, 1, 1, 2, 4]), ev))
    return scenario(sid, d, steps, want="s", tol=20)

def again(rng, sid, tier):
    g = G(rng)
    s = copies(rng, sid, tier) if g(.4) else g.pick(MIX)(rng, sid, tier)
    s["twin"] = "again"
    if g(.5):
        other = g.pick(MIX)(rng, sid, tier) if g(.6) else s
        s["noise"] = {"html": other["html"], "css": other["css"]}
    if g(.3): s["ids"] = ["one", "two", "x"]
    return s
