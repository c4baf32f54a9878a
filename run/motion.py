"""Scenarios about animations and transitions."""
from lib import *
from gen import G, tagv, MISSING
import styles
from styles import Sheet

POWERS = [1, 2, 4, 8, 16, 32]
NUMERIC = ["opacity", "width", "height", "left", "top", "padding-left", "margin-top", "color", "background-color", "font-size",
           "flex-grow", "border-top-width", "border-left-color", "background-position-x"]
DISCRETE = ["cursor", "visibility", "text-align", "background-image"]
NAMES = ["fade", "slide", "spin"]

class Motion(Sheet):
    def value(self, p):
        g = self
        if p in DISCRETE: return g.token(p, 0)
        if "color" in p: return g.pick([g.color(), col(g.int(0, 255), g.int(0, 255), g.int(0, 255), g.int(0, 255)), col(0, 0, 0), col(200, 100, 40)])
        if p == "opacity": return g.pick([ZERO, num(1), num(.5), num(.2)])
        if p == "font-size": return px(g.int(4, 40))
        if p == "flex-grow": return g.pick([ZERO, num(1), num(3), num(.5)])
        if p == "border-top-width": return g.pick([ZERO, px(g.int(1, 20))])
        k = g.int(0, 9)
        if k < 3: return px(g.pick([0, 10, 20, 40, 80, 100]))
        if k < 6: return px(g.int(-20 if p in ("left", "top") else 0, 100))
        if k < 7: return ZERO
        if k < 8: return T("em", g.int(1, 8) * 250)
        if k < 9: return pct(g.int(1, 10) * 10)
        return kw("auto") if p in ("width", "height", "left", "top") else px(g.int(1, 9))

    def keyframes(self):
        g = self
        props = g.sample(NUMERIC, 1, 3) + (g.sample(DISCRETE, 1, 1) if g(.2) else [])
        points = g.pick([[0, 100], [0, 100], [0, 50, 100], [0, 25, 75, 100], [50], [100], [0], [25, 50], [0, 30, 31, 100], [10, 90]])
        out = []
        for s in points:
            ps = props if g(.75) else g.sample(props, 1, len(props))
            ds = [decl(p, g.value(p)) for p in ps]
            if g(.1): ds.append(decl("padding", [px(g.int(0, 20)), px(g.int(0, 20))]))
            out.append({"step": s, "ds": ds, "_kw": s in (0, 100) and g(.5)})
        if g(.2): g.r.shuffle(out)
        return out

    def animation(self, i=None):
        """declarations of animations"""
        g = self
        n = g.pick([1, 1, 1, 1, 2])
        names = [kw(g.pick(NAMES + ["missing"] if g(.1) else NAMES)) for _ in range(n)]
        ds = [decl("animation-name", *[[x] for x in names])]
        if g(.95): ds.append(decl("animation-duration", *[[tm(g.pick(POWERS), g(.3))] for _ in range(n)]))
        if g(.3): ds.append(decl("animation-delay", *[[tm(g.pick([1, 2, 3, 8, -1, -3]), g(.3))] for _ in range(n)]))
        if g(.55): ds.append(decl("animation-iteration-count", *[[g.pick([kw("infinite"), num(g.int(1, 3))])] for _ in range(n)]))
        if g(.15): ds.append(decl("animation-play-state", kw(g.pick(["paused", "running"]))))
        if g(.1): ds.append(decl("animation-timing-function", kw("linear")))
        return ds
    def short_animation(self):
        g = self
        def one():
            d, n = tm(g.pick(POWERS), g(.3)), kw(g.pick(NAMES))
            k = g.int(0, 4)
            if k < 2: return [d, n]
            if k < 3: return [d, kw("linear"), n]
            return [d, kw("linear"), g.pick([tm(g.pick([1, 2, 4])), num(g.int(1, 3)), kw("infinite")]), n]
        return [decl("animation", *[one() for _ in range(g.pick([1, 1, 2]))])]

    def transition(self, props):
        g = self
        ps = g.sample(props + ["background-color"], 1, 2) + (["nothing"] if g(.05) else [])
        ds = [decl("transition-property", *[[kw(p)] for p in ps]),
              decl("transition-duration", *[[tm(g.pick(POWERS), g(.3))] for _ in ps])]
        if g(.35): ds.append(decl("transition-delay", *[[tm(g.pick([1, 2, 4, 4, -1]))] for _ in ps]))
        if g(.1): ds.pop(1)
        return ds
    def short_transition(self, props):
        g = self
        def one(p):
            ts = [kw(p), tm(g.pick(POWERS), g(.3))]
            if g(.5): ts.append(kw("linear"))
            if len(ts) == 3 and g(.6): ts.append(tm(g.pick([1, 2, 4])))
            return ts
        return [decl("transition", *[one(p) for p in g.sample(props, 1, 2)])]

    def times(self, n, change, events=.2):
        g, out = self, []
        m = {"c0": g.pick(["a", "b", ""]), "c1": g.pick(["a", "b", "c"]), "f0": g(.7), "f1": g(.5), "xs": [{"c": "a"}] * g.int(0, 3)}
        for _ in range(n):
            ev = [to(g.int(0, 6))] if g(events) else []
            if g(events / 3): ev.append(g.pick([down(), up()]))
            out.append(step(tagv(m), g.pick([0, 1, 1, 1, 2, 2, 3, 4, 5, 8, 16, 100] if g(.9) else [1000, 40000]), ev))
            if g(change):
                m = dict(m)
                k = g.pick(list(m))
                m[k] = {"c0": g.pick(["a", "b", "", "c"]), "c1": g.pick(["a", "b", "c"]), "f0": not m["f0"], "f1": not m["f1"],
                        "xs": [{"c": g.pick(["a", "b", "c"])} for _ in range(g.int(0, 3))]}[k]
        return out

    def boxes(self):
        g, out = self, []
        for i in range(g.int(1, 3)):
            k = g.int(0, 5)
            bs = [attr("class", g.pick("abc"))] if k == 0 else [bound("class", ex(g.pick(["c0", "c1"])))] if k < 5 else \
                 [bound("class", ex("it.c")), repeat("it", 3, E("xs"))]
            if k < 5 and g(.2): bs.append(vis(True, E(g.pick(["f0", "f1"]))))
            if g(.3): bs.append(flag("on", E("f1")))
            kids = [tx("x")] if g(.2) else [el("p", [attr("class", g.pick("abc"))])] if g(.3) else []
            out.append(el("div", bs, *kids))
        return out

def scene(g, sid, d, steps):
    """sometimes with times in 64ths of a second (which are exact in f32), in many short frames"""
    unit = 125000
    if g(.4):
        unit = 15625
        def walk(x):
            if isinstance(x, dict):
                if x.get("t") == "time": x.update(n=x["n"] * 8, _u=64)
                elif x.get("p") == "animation-iteration-count":
                    for ts in x["v"]:
                        if ts[0]["t"] == "num" and g(.5): ts[0]["n"] = g.pick([500, 1500, 2250])
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(d)
        out = []
        for s in steps:
            out.append({**s, "dt": g.pick([0, 1, 1, 1, 2, 3, 5, 7, 8, 6, 14, 24, 66]) if s["dt"] < 100 else s["dt"]})
            if g(.5): out += [{**s, "ev": [], "dt": g.pick([1, 1, 2, 3])} for _ in range(g.int(1, 3))]
        steps = out
    return scenario(sid, d, steps, tol=20, unit=unit)

def animations(rng, sid, tier):
    g = Motion(rng)
    anims = {n: g.keyframes() for n in NAMES}
    rules = []
    for c in "abc":
        if g(.5): rules.append(rule(cls(c), decl(g.pick(NUMERIC), px(g.int(1, 50))), *[decl(p, g.value(p)) for p in g.sample(NUMERIC, 0, 2)]))
    for c in g.sample("abc", 1, 2): rules.append(rule(cls(c), *(g.animation() if g(.8) else g.short_animation())))
    if g(.2): rules.append(rule(sel([tag("div"), pc("hover")]), *g.pick([g.animation(), [decl("animation-play-state", kw("paused"))]])))
    if g(.2): rules.append(rule(sel([at("on")]), *g.pick([g.animation(), [decl("animation-play-state", kw("paused"))]])))
    g.r.shuffle(rules)
    d = doc(g.boxes(), rules=rules, anims=anims)
    return scene(g, sid, d, g.times(g.int(6, 14), .2))

def transitions(rng, sid, tier):
    g = Motion(rng)
    props = g.sample([p for p in NUMERIC if p != "background-position-x"], 1, 3) + (g.sample(DISCRETE[:3], 1, 1) if g(.15) else [])
    anims = {n: g.keyframes() for n in NAMES} if g(.1) else {}
    rules = []
    for c in "abc":
        ds = [decl(p, g.value(p)) for p in props if g(.8)]
        if g(.25): ds.append(decl("background-color", *[[g.color()] for _ in range(g.int(1, 3))]))
        if ds: rules.append(rule(cls(c), *ds))
    tr = (g.transition if g(.8) else g.short_transition)(props)
    rules.append(rule(sel(g.pick([tag("div"), ALL, cls("a"), tag("p")])), *tr))
    if g(.3): rules.append(rule(sel([tag("div"), pc("hover")]), *[decl(p, g.value(p)) for p in g.sample(props, 1, 2)]))
    if g(.2): rules.append(rule(sel([at("on")]), *g.transition(props)))
    if anims: rules.append(rule(cls("b"), *g.animation()))
    if g(.4): g.r.shuffle(rules)
    d = doc(g.boxes(), rules=rules, anims=anims)
    return scene(g, sid, d, g.times(g.int(6, 16), .4))

def shorthand(rng, sid, tier):
    g = Motion(rng)
    anims = {n: g.keyframes() for n in NAMES}
    props = ["width", "opacity", "color"]
    rules = [rule(cls(c), *[decl(p, g.value(p)) for p in props]) for c in "abc"]
    for c in g.sample("abc", 1, 3):
        ds = []
        for _ in range(g.int(1, 3)):
            ds += g.pick([g.short_animation, g.short_animation, g.animation])() if g(.6) else \
                  g.pick([g.short_transition, g.short_transition, g.transition])(props)
        rules.append(rule(cls(c), *ds))
    d = doc(g.boxes(), rules=rules, anims=anims)
    return scene(g, sid, d, g.times(g.int(4, 8), .3, 0))
