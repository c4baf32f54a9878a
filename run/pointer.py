"""Scenarios about the mouse, the keyboard and messages, over documents of boxes."""
from lib import *
from gen import G, tagv, MISSING

EVENTS = ["onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
          "ondragstart", "ondragend", "ondragenter", "ondragleave", "ondragover", "ondrop",
          "onfocus", "onblur", "oninput", "onkeydown", "onkeyup"]
HOVER = ["onmouseenter", "onmouseleave", "onmousemove"]
PRESS = ["onmousedown", "onmouseup", "onclick", "oncontextmenu"]
FOCUS = ["onfocus", "onblur", "oninput", "onkeydown", "onkeyup"]
DRAG = ["ondragstart", "ondragend", "ondragenter", "ondragleave", "ondragover", "ondrop"]
CURSORS = ["default", "pointer", "help", "wait", "text", "not-allowed", "auto"]

class Boxes(G):
    def __init__(self, rng, **w):
        super().__init__(rng)
        self.w = dict(events=EVENTS, listen=.35, vis=.15, rep=.12, cls=.25, drag=.15, drop=.1, input=.15, none=.1,
                      hidden=.08, cursor=.2, text=.2, img=.05, args=.3, flex=.1, abs=.1,
                      kinds=list(range(14)), left=.75)
        self.w.update(w)
        self.n, self.budget, self.rules = 0, 14, []

    def args(self, env):
        out = []
        if self(self.w["args"]):
            for _ in range(self.int(1, 3)):
                k = self.int(0, 3)
                out.append(EV if k < 2 else key("word") if k == 2 else
                           {"t": "e", "e": E(self.pick(["t", "a", "xs", "v0", "missing"] + [n for n in env] + [n + ".n" for n in env]))})
        return out

    def box(self, cname, depth):
        """style of a class"""
        g = self
        ds = []
        if g(.85): ds.append(decl("width", px(g.int(2, 12) * 10 if depth < 2 else g.int(1, 6) * 10)))
        if g(.85): ds.append(decl("height", px(g.int(2, 10) * 10 if depth < 2 else g.int(1, 5) * 10)))
        if g(.25): ds.append(decl("left", px(g.int(-6, 6) * 5)))
        if g(.25): ds.append(decl("top", px(g.int(-6, 6) * 5)))
        if g(.25): ds.append(decl("padding", px(g.int(0, 4) * 5)))
        if g(.1): ds.append(decl("margin", px(g.int(-2, 3) * 5)))
        if g(.1): ds.append(decl("border", px(g.int(1, 4)), kw("solid"), col(1, 2, 3)))
        if g(g.w["flex"]): ds.append(decl("display", kw("flex")))
        if g(g.w["abs"]): ds.append(decl("position", kw("absolute")))
        if g(.08): ds.append(decl("overflow", kw(g.pick(["hidden", "scroll"]))))
        if g(g.w["none"]): ds.append(decl("pointer-events", kw(g.pick(["none", "none", "auto"]))))
        if g(g.w["hidden"]): ds.append(decl("visibility", kw(g.pick(["hidden", "hidden", "visible"]))))
        if g(g.w["cursor"]): ds.append(decl("cursor", kw(g.pick(CURSORS))))
        if g(.05): ds.append(decl("opacity", num(g.pick([0, .5]))))
        return rule(cls(cname), *ds)

    def element(self, depth, env):
        g, w = self, self.w
        self.n += 1
        me = f"n{self.n}"
        self.budget -= 1
        bs, names = [], list(env)
        if g(w["vis"]): bs.append(vis(g(.6), E(g.pick(["v0", "v1", "v2"] + [n + ".on" for n in env]))))
        elif g(w["rep"]) and depth > 0:
            bs.append(repeat("it", g.int(1, 3), E(g.pick(["xs", "ys"]))))
            names.append("it")
            self.budget -= 3
        if g(w["cls"]):
            f = g.pick(["m0", "m1", "m2"] + [n + ".c" for n in names])
            bs.append(bound("class", me + " ", ex(f)))
        else: bs.append(attr("class", me))
        self.rules.append(g.box(me, 3 - depth))
        if g(w["drag"]):
            k = g.int(0, 5)
            bs.append(attr("draggable", "true") if k < 3 else bound("draggable", ex("d")) if k < 5 else
                      attr("draggable", g.pick(["false", "", "auto"])))
        events = set()
        for _ in range(3):
            if g(w["listen"]): events |= set(g.sample(w["events"], 1, 3))
        if g(w["drop"]): events.add("ondrop")
        if g(w["input"]): events.add("oninput")
        if g(.2): events |= set(w["events"])
        for e in sorted(events): bs.append(on(e, f"{me}-{e[2:]}", *g.args(names)))
        head, rest = bs[:1], bs[1:]
        g.r.shuffle(rest)
        if g(w["img"]): return el("img", head + rest + [attr("src", "x")])
        return el("div", head + rest, *(g.kids(depth - 1, names)))

    def kids(self, depth, env):
        out = []
        for _ in range(self.int(1 if depth == 3 else 0, 3)):
            if self.budget <= 0: break
            if (depth <= 0 or self(self.w["text"])):
                if not (out and out[-1]["k"] == "tx") and self(.5):
                    out.append(tx(ex("t")) if self(.5) else tx("abcd"))
            else: out.append(self.element(depth, env))
        return out

    def document(self, probes=True):
        kids = []
        while self.n < 2 and len(kids) < 3: kids += [self.element(3, ())]
        if self(.5): kids += [self.element(3, ())]
        rules = list(self.rules)
        for i in range(6): rules.append(self.box(f"k{i}", 1))
        if probes:
            rules += [rule(sel([pc("hover")]), decl("opacity", num(.5))),
                      rule(sel([pc("active")]), decl("font-weight", num(700))),
                      rule(sel([pc("focus")]), decl("text-align", kw("center")))]
        if self(.15):
            rules.append(rule(sel([cls(f"n{self.int(1, max(1, self.n))}"), pc(self.pick(["hover", "active", "focus"]))]),
                              self.pick([decl("width", px(self.int(1, 12) * 10)), decl("left", px(40)),
                                         decl("visibility", kw("hidden")), decl("pointer-events", kw("none"))])))
        if self(.2): rules.append(rule(tag("body"), decl("width", px(200)), decl("height", px(self.int(5, 20) * 10))))
        if self(.05): rules.append(rule(tag("body"), decl("pointer-events", kw("none"))))
        body = el("body", [], *kids)
        if self(.3):
            body["bs"] = [on(e, "body-" + e[2:]) for e in self.sample(self.w["events"], 1, 4)]
        return doc(body, rules=rules)

    # ---- model
    def item(self, depth=0): return {"n": self.int(0, 9), "on": self(.5), "c": self.pick(["", "k0", "k1"])}
    def model(self):
        return {"v0": self(.6), "v1": self(.5), "v2": self(.5), "t": self.pick(["", "ab", "abcdef"]), "a": self.scalar(),
                "m0": self.pick(["", "k0", "k1"]), "m1": self.pick(["", "k2", "k3"]), "m2": self.pick(["", "k4", "k5"]),
                "d": self.pick(["true", "false", ""]), "xs": [self.item() for _ in range(self.int(0, 3))],
                "ys": [self.item() for _ in range(self.int(0, 2))]}
    def change(self, m):
        m = dict(m); new = self.model()
        for k in self.sample(list(m), 1, 2): m[k] = new[k]
        return m

    # ---- events
    def somewhere(self):
        if self(.12): return move(self.int(-2, 26) * 10 + self.pick([0, .5, 2.25]), self.int(-2, 24) * 10)
        return to(self.int(0, 24), self.pick(["c", "c", "c", "tl", "tl", "br", "r", "b", "in", "in", "out", "up"]))
    def button(self): return "Left" if self(self.w["left"]) else "Right"
    def keyboard(self):
        k = self.pick(["Enter", "Tab", "ArrowUp", "Unknown", "Shift"])
        return self.pick([keydown(k), keyup(k), char(self.pick(["x", "é", "7", " "]))])
    def gesture(self):
        g, k = self, self.pick(self.w["kinds"])
        b = g.button()
        if k < 3: return [g.somewhere()]
        if k < 5: return [g.somewhere(), down(b), up(b)]
        if k < 7: return [g.somewhere(), down(b), g.somewhere(), up(b)]
        if k == 7: return [down(b), up(g.button())]
        if k == 14: return [g.somewhere(), down("Left"), g.somewhere(), g.somewhere(), up(b)]
        if k == 15: return [g.somewhere(), down("Left"), g.somewhere(), up("Left")]
        if k == 8: return [g.somewhere(), down("Left"), g.somewhere(), g.somewhere(), down("Right"), up("Right"), up("Left")]
        if k == 9: return [g.somewhere(), down(b)]
        if k == 10: return [up(b)]
        if k == 11: return [g.keyboard() for _ in range(g.int(1, 3))]
        if k == 12: return [g.somewhere(), down(b), up(b), g.keyboard(), g.keyboard()]
        return [g.pick([{"e": "wheel"}, {"e": "unknown"}, g.somewhere(), down(b), up(b)])]

    def session(self, n, batch, change):
        """n steps: gestures are split into updates"""
        steps, m, queue = [], self.model(), []
        steps.append(step(tagv(m), 0))
        while len(steps) < n:
            if len(queue) < 4: queue += self.gesture()
            if self(change): m = self.change(m)
            take = min(len(queue), self.int(0 if self(.2) else 1, batch))
            ev, queue = queue[:take], queue[take:]
            steps.append(step(tagv(m), 0 if self(.8) else 1, ev))
        return steps

def make(rng, sid, n=(8, 16), batch=2, change=.25, probes=True, want="s", **w):
    g = Boxes(rng, **w)
    d = g.document(probes)
    return scenario(sid, d, g.session(g.int(*n), batch, change), want=want)

ALL = list(range(14))
def hover(rng, sid, tier):
    return make(rng, sid, change=.4, events=HOVER, listen=.5, drag=0, drop=0, input=.02, abs=.2, kinds=ALL + [0] * 14)
def press(rng, sid, tier):
    return make(rng, sid, change=.25, events=PRESS + ["ondrop"], listen=.6, drag=.08, kinds=ALL + [3, 4, 5, 6, 7] * 3)
def focus(rng, sid, tier):
    return make(rng, sid, change=.3, events=FOCUS + ["onmousedown"], listen=.5, input=.5, drag=.05, kinds=ALL + [3, 9, 11, 11, 11, 12, 12, 12] * 3)
def drag(rng, sid, tier):
    return make(rng, sid, change=.2, events=DRAG + ["onclick", "oncontextmenu", "onmouseleave"], listen=.6, drag=.5, drop=.3,
                left=.9, kinds=ALL + [5, 8, 14, 15] * 8)
def messages(rng, sid, tier): return make(rng, sid, change=.6, args=.9, rep=.3, listen=.6, probes=False, want="")
def batches(rng, sid, tier):
    return make(rng, sid, n=(4, 9), batch=9, change=.1, drag=.25, input=.25, listen=.5, probes=False, want="")
def output(rng, sid, tier):
    return make(rng, sid, change=.4, cursor=.45, none=.25, hidden=.2, img=.15, text=.35, drag=.2, input=.2, args=.1)
