"""Scenarios about stylesheets: cascade, selectors, inheritance, variables, shorthands, values."""
from lib import *
from gen import G, tagv, MISSING

SIDES = ["top", "right", "bottom", "left"]
CORNERS = ["top-left", "top-right", "bottom-right", "bottom-left"]
LPA = [f"margin-{s}" for s in SIDES] + SIDES + ["width", "height", "min-width", "min-height", "max-width", "max-height", "flex-basis"]
LP = [f"padding-{s}" for s in SIDES] + ["column-gap", "row-gap"] + [f"border-{c}-radius" for c in CORNERS]
WIDTHS = [f"border-{s}-width" for s in SIDES]
COLORS = [f"border-{s}-color" for s in SIDES] + ["color"]
ITEMS = ["normal", "start", "end", "flex-start", "flex-end", "center", "baseline", "stretch"]
CONTENT = ["normal", "start", "end", "flex-start", "flex-end", "center", "stretch", "space-between", "space-evenly", "space-around"]
OVERFLOW = ["visible", "hidden", "clip", "scroll", "auto"]
KEYWORDS = {
    "font-style": ["normal", "italic", "oblique"],
    "text-align": ["start", "end", "left", "right", "center", "justify", "justify-all", "match-parent"],
    "pointer-events": ["auto", "none"],
    "cursor": ["auto", "default", "pointer", "context-menu", "help", "progress", "wait", "text", "not-allowed"],
    "visibility": ["visible", "hidden"], "box-sizing": ["border-box", "content-box"],
    "display": ["flow", "block", "flex", "grid"], "overflow-x": OVERFLOW, "overflow-y": OVERFLOW,
    "position": ["relative", "absolute"], "align-content": CONTENT, "justify-content": CONTENT,
    "align-items": ITEMS, "align-self": ITEMS, "justify-items": ITEMS, "justify-self": ITEMS,
    "flex-direction": ["row", "row-reverse", "column", "column-reverse"], "flex-wrap": ["wrap", "nowrap", "wrap-reverse"],
}
BACKGROUND = ["background-color", "background-image", "background-position-x", "background-position-y"]
OTHER = ["opacity", "font-size", "font-weight", "font-family", "flex-grow", "flex-shrink"]
LONGHANDS = LPA + LP + WIDTHS + COLORS + list(KEYWORDS) + BACKGROUND + OTHER
INHERITED = ["color", "font-family", "font-size", "font-style", "font-weight", "pointer-events"]
SHORTHANDS = ["margin", "padding", "border", "border-top", "border-right", "border-bottom", "border-left", "border-width",
              "border-color", "border-radius", "overflow", "inset", "gap", "background", "background-position"]

class Sheet(G):
    # ---- tokens
    def quantity(self): return self.pick([0.5, 1, 2, 3, 5, 8, 10, 12.5, 16, 20, 33, 40, 100, 7.25, -1, -5, -0.5, -12])
    def dim(self):
        k = self.pick(["px", "px", "px", "em", "rem", "vw", "vh", "vmin", "vmax"])
        q = self.quantity()
        if k in ("em", "rem"): q = self.pick([.5, 1, 1.5, 2, -1, .25])
        if k[0] == "v": q = self.pick([1, 5, 10, 50, 100, 12.5, 33, -10])
        return T(k, round(q * 1000))
    def pct(self): return pct(self.pick([0.5, 5, 10, 12.5, 25, 50, 100, 150, -20]))
    def color(self):
        k = self.int(0, 9)
        c = [self.pick([0, 1, 15, 16, 127, 128, 200, 255]) for _ in range(3)]
        if k < 2: return kw(self.pick(["black", "white", "red", "blue", "green", "transparent"]))
        if k < 4: return col(*c)
        if k < 5: return col(*c, 255, "long")
        if k < 6: return col(*c, self.pick([0, 1, 128, 254]))
        if k < 7: return col(*c, 255, "rgb")
        if k < 8: return col(*c, self.pick([0, 255, 127]), "rgba")
        if k < 9: return col(*[self.pick([0, 63, 127, 191, 255]) for _ in range(3)], self.pick([0, 255, 127]), "pct")
        return kw("currentcolor")
    def invalid(self): return self.pick([kw("bogus"), string("text"), tm(4), kw("inherit"), kw("auto-fill"), url("a/b"),
                                             err(self.pick(["#f00", "#1234", "#12345", "#1234567", "5pt", "1.5ch", "12deg", "1fr", "1-2px", "1.2.3px", "--4px",
                                                            "2-1", "1.1.1%", "3-s", "#f", "#123456789"]))])
    def token(self, p, bad=.08):
        if self(bad): return self.invalid()
        if p in KEYWORDS: return kw(self.pick(KEYWORDS[p]))
        if p in LPA: return self.pick([kw("auto"), self.pct(), ZERO, self.dim(), self.dim(), self.dim()])
        if p in LP: return self.pick([self.pct(), ZERO, self.dim(), self.dim()])
        if p in WIDTHS: return self.pick([ZERO, self.dim(), self.dim(), num(self.pick([1, 2.5, 4]))])
        if p in COLORS or p == "background-color": return self.color()
        if p == "background-image": return self.pick([url("pic.png"), url("b.png"), string("c"), kw("none")])
        if p in BACKGROUND: return self.pick([self.dim(), ZERO])
        if p == "opacity": return self.pick([num(.5), num(.25), num(1), ZERO, pct(50), pct(12.5), num(.999)])
        if p == "font-size": return self.pick([px(self.pick([8, 10, 12.5, 20, 40])), T("em", self.pick([500, 750, 1500, 1250])),
                                               T("rem", self.pick([500, 1000, 2000])), pct(self.pick([50, 100, 150])), T("vw", self.pick([1000, 5000]))])
        if p == "font-weight": return self.pick([num(self.pick([100, 300, 400, 600, 900])), kw("normal"), kw("bold")])
        if p == "font-family": return string(self.pick(["Arial", "Some Font", "mono"]))
        return self.pick([num(self.pick([1, 2, .5, 3.25])), ZERO])

    def longhand(self, p, bad=.08):
        if p in BACKGROUND and self(.35):
            return decl(p, *[[self.token(p, bad)] for _ in range(self.pick([2, 2, 3, 3, 4, 6]))])
        return decl(p, self.token(p, bad))

    def arity(self, p, one, bad=.06):
        """tokens of a shorthand; one(i): one of them"""
        return [one() for _ in range(self.int(1, 4))]

    def shorthand(self, p):
        g = self
        side = lambda: g.pick([g.dim(), g.dim(), ZERO, g.pct()])
        wid = lambda: g.token("border-top-width", .03)
        if p == "margin": return decl(p, g.arity(p, lambda: g.pick([side(), kw("auto")])))
        if p in ("padding", "border-radius"): return decl(p, g.arity(p, side))
        if p == "border-width": return decl(p, g.arity(p, wid))
        if p == "border-color": return decl(p, g.arity(p, g.color))
        if p.startswith("border"):
            if p == "border" and g(.25): return decl(p, kw("none"))
            return decl(p, [wid(), kw(g.pick(["solid", "none", "dashed"])), g.color()])
        if p == "overflow": return decl(p, [kw(g.pick(OVERFLOW)) for _ in range(g.int(1, 2))])
        if p == "inset": return decl(p, [g.pick([side(), kw("auto")]) for _ in range(g.pick([1, 4]))])
        if p == "gap": return decl(p, [side() for _ in range(g.int(1, 2))])
        if p == "background":
            return decl(p, *[[g.pick([g.color(), g.color(), kw("none")])] for _ in range(g.pick([1, 1, 2, 3, 5]))])
        if p == "background-position":
            return decl(p, *[[g.dim() for _ in range(g.int(1, 2))] for _ in range(g.pick([1, 1, 2, 4]))])
        raise ValueError(p)

    # ---- selectors over documents of `tree`
    CLASSES = ["a", "b", "c", "ab", "a-b"]
    def compound(self, pcs=.12, raw=.03):
        g, out = self, []
        k = g.int(0, 9)
        if k < 1: out.append(ALL)
        elif k < 4: out.append(tag(g.pick(["div", "p", "b", "span", "body"])))
        if g(.55) or (not out and g(.6)): out.append(cls(g.pick(g.CLASSES)))
        if g(.12): out.append(cls(g.pick(g.CLASSES)))
        if g(.12): out.append(ident(g.pick(["one", "two", "x", "row-1"])))
        if g(.2):
            k = g.pick(["", "=", "~=", "|=", "^=", "$=", "*="])
            n = g.pick(["title", "data-x", "class", "on", "lang"])
            out.append(at(n, k, g.pick(["a", "b", "ab", "a-b", "x", "en", "a b", n, " ", "a-", "-b", "B"])) if k else at(n))
        if g(pcs): out.append(pc(g.pick(["hover", "active", "focus", "hover"])))
        if g(raw): out.append({"s": "raw", "n": g.pick([":nope", ":root", ":checked", ":not(.a)", "::before", ":nth-child(2)", ":first-child"])})
        if not out: out.append(cls(g.pick(g.CLASSES)))
        return out
    def selector(self, pcs=.12, raw=.03, combs=.4):
        parts, cs = [self.compound(pcs, raw)], []
        while self(combs) and len(parts) < 4:
            cs.append(self.pick([">", ">", ">", "+", "+", "+", " ", "~"]) if self(.2) else self.pick([">", "+"]))
            parts.append(self.compound(pcs, raw))
        return {"parts": parts, "combs": cs}
    def selectors(self, **kw):
        return [self.selector(**kw) for _ in range(self.pick([1, 1, 1, 2, 3]))]

    # ---- documents
    def tree(self, depth=3, dyn=.3, inl=(), env=(), vis_=.2, txt=.25, wide=3):
        """elements with classes, ids and attributes; dyn: share of bound ones"""
        g, out = self, []
        for _ in range(g.int(1, wide)):
            if g.budget <= 0: break
            if g(txt) and not (out and out[-1]["k"] == "tx"):
                out.append(tx("x") if g(.5) else tx(ex("t"))); continue
            g.budget -= 1
            bs = []
            k = g.int(0, 9)
            if g(dyn): bs.append(bound("class", *g.pick([[ex("c0")], [ex("c1")], ["a ", ex("c0")], [ex("c1"), " ", ex("c2")], ["a-", ex("c2")], [ex("c0"), " b"], [ex("c1"), "b"]])))
            elif g(.75): bs.append(attr("class", " ".join(g.sample(g.CLASSES, 1, 3))))
            elif g(.2): bs.append(flag("class", E("f1")))
            if g(.25): bs.append(bound("id", ex("i0")) if g(dyn) else attr("id", g.pick(["one", "two", "x", "row-1"])))
            if g(.3): bs.append(bound("title", ex(g.pick(["c0", "s0"]))) if g(dyn) else attr("title", g.pick(["a", "ab", "a-b", "x a", "en", "ab ", "b  ", "x  a", "A", "a-", "ab a-b x"])))
            if g(.2): bs.append(attr("data-x", g.pick(["a b", "en-US", "x", "", "a\tb", "aab"])))
            if g(.15): bs.append(attr("lang", g.pick(["en", "en-US", "english"])))
            if g(.25): bs.append(flag("on", E(g.pick(["f0", "f1"]))))
            if inl and g(.4): bs.append(bound("style", ex(g.pick(["y0", "y1"]))) if g(dyn + .2) else attr("style", g.pick([t for t in inl if '"' not in t] or [""])))
            if g(vis_ * .7): bs.append(vis(g(.6), E(g.pick(["f0", "f1", "f2"]))))
            elif g(vis_ * .5) and depth > 1: bs.append(repeat("it", g.int(1, 3), E("xs")))
            if g(.2): bs.append(on("oninput", "k")) if g(.4) else bs.append(on("onclick", "k"))
            g.r.shuffle(bs)
            kids = g.tree(depth - 1, dyn, inl, env, vis_, txt, wide) if depth > 1 and g(.75) else []
            out.append(el(g.pick(["div", "p", "b", "span"]), bs, *kids))
        return out

    def model(self, inl=()):
        g = self
        cl = lambda: g.pick(["a", "b", "c", "ab", "", "a b", "b c", "x", " a", "b ", "c  ab"])
        return {"c0": cl(), "c1": cl(), "c2": cl(), "f0": g(.5), "f1": g(.5), "f2": g(.5), "i0": g.pick(["one", "two", "", "x"]),
                "s0": g.pick(["a", "en", "ab", "", None]), "t": g.pick(["", "hey"]), "xs": [1] * g.int(0, 3),
                "y0": g.pick(inl) if inl and g(.8) else g.pick(["", None]), "y1": g.pick(inl) if inl and g(.75) else ""}
    def history(self, n, inl=(), vps=False, events=0):
        g, m, out = self, self.model(inl), []
        vp = (800, 600)
        for _ in range(n):
            ev = []
            if g(events):
                ev = g.pick([[to(g.int(0, 12))], [to(g.int(0, 12)), down()], [up()], [to(g.int(0, 12)), down(), up()]])
            if vps and g(.5): vp = g.pick([(800, 600), (100, 200), (1024, 768), (333, 77), (3840, 2160), (1080, 1920), (g.int(10, 2600), g.int(10, 2600))])
            out.append(step(tagv(m), g.pick([0, 0, 1]), ev, vp))
            if g(.85):
                new = g.model(inl)
                m = dict(m)
                for k in g.sample(list(m), 1, 4): m[k] = new[k]
        return out

def start(rng, budget=12):
    g = Sheet(rng); g.budget = budget
    return g

def sheets(g, decls, inl_decls, n_rules, pcs=.1, combs=.3, **kw):
    rules = [rule(g.selectors(pcs=pcs, combs=combs), *decls(g.int(1, 4))) for _ in range(g.int(*n_rules))]
    inl = [inl_decls(g.int(1, 4)) for _ in range(g.int(1, 3))] if inl_decls else []
    texts = [r_decls(ds) for ds in inl]
    body = el("body", [attr("class", "a")] if g(.4) else [], *g.tree(3, inl=texts, **kw))
    return doc(body, rules=rules, inl=inl), texts

def cascade(rng, sid, tier):
    """few properties which are declared by many rules and inline"""
    g = start(rng)
    pool = g.sample(LONGHANDS, 3, 6) + g.sample(SHORTHANDS + BACKGROUND, 1, 2)
    some = lambda n: [g.shorthand(p) if p in SHORTHANDS else g.longhand(p) for p in g.some(pool, n, n)]
    d, texts = sheets(g, some, some, (5, 12))
    return scenario(sid, d, g.history(g.int(3, 6), texts, events=.35), tol=2)

PROBES = LPA + [f"padding-{s}" for s in SIDES] + WIDTHS + ["column-gap", "row-gap"]
def selectors(rng, sid, tier):
    """every rule declares another property, so that which rules match is seen"""
    g = start(rng, 14)
    props = list(PROBES); g.r.shuffle(props)
    rules = [rule(g.selectors(pcs=.06, raw=.06, combs=.45), decl(p, px(i + 1))) for i, p in enumerate(props[:g.int(8, 22)])]
    d = doc(el("body", [attr("class", "a")] if g(.4) else [], *g.tree(3, dyn=.15, wide=4)), rules=rules)
    return scenario(sid, d, g.history(g.int(1, 3), events=.3))

def dynamic(rng, sid, tier):
    g = start(rng, 12)
    props = list(PROBES); g.r.shuffle(props)
    rules = [rule(g.selectors(pcs=.25, raw=.02, combs=.45), decl(p, px(i + 1))) for i, p in enumerate(props[:g.int(6, 16)])]
    if g(.3): rules.append(rule(sel([ALL, pc(g.pick(["hover", "active", "focus"]))]), decl("opacity", num(.5))))
    d = doc(el("body", [bound("class", ex("c0"))] if g(.3) else [], *g.tree(3, dyn=.7, vis_=.4)), rules=rules)
    return scenario(sid, d, g.history(g.int(5, 9), events=.5))

def inheritance(rng, sid, tier):
    g = start(rng, 14)
    names = ["--x", "--y", "--z", "--w"]
    def variable(n):
        k = g.int(0, 9)
        if k < 4: return decl(n, g.pick([px(g.int(1, 40)), g.color(), kw("auto"), num(2)]))
        if k < 7: return decl(n, var(g.pick(names)))
        if k < 8: return decl(n, [var(g.pick(names)), g.dim()])
        return decl(n, [g.dim(), g.pick([g.dim(), var(g.pick(names))])])
    def use():
        k = g.int(0, 5)
        if k < 3: return decl(g.pick(INHERITED + ["width", "padding-left", "background-color", "left"]), var(g.pick(names)))
        if k < 4: return decl("padding", [var(g.pick(names)) for _ in range(g.int(1, 2))])
        if k < 5: return decl("margin", [g.dim(), var(g.pick(names))])
        return decl("border", [var(g.pick(names)), kw("solid"), var(g.pick(names))])
    def some(n):
        out = []
        for _ in range(n):
            k = g.int(0, 9)
            out.append(g.longhand(g.pick(INHERITED)) if k < 4 else variable(g.pick(names)) if k < 7 else
                       use() if k < 9 else g.longhand(g.pick(LONGHANDS)))
        return out
    bare = g(.2)     # most elements have no rules, only some have inline styles
    def colours(n):
        return some(n) + [decl(g.pick(["color", "background-color", "border-left-color"]), g.pick([kw("currentcolor"), g.color()]))]
    if bare: d, texts = sheets(g, colours, colours, (1, 3), pcs=.06, combs=0, txt=.35)
    else: d, texts = sheets(g, some, some if g(.4) else None, (4, 9), pcs=.06, combs=.25, txt=.35)
    d["rules"].insert(0, rule(sel(tag("body") if bare else g.pick([ALL, tag("body"), cls("a")])), *[variable(n) for n in g.sample(names, 1, 3)]))
    return scenario(sid, d, g.history(g.int(2, 5), texts, events=.2), tol=4)

def shorthands(rng, sid, tier):
    if rng.random() < .2:
        import motion
        return motion.shorthand(rng, sid, tier)
    g = start(rng, 6)
    p = g.pick(SHORTHANDS)
    fam = {"margin": LPA[:4], "padding": LP[:4], "inset": SIDES, "gap": ["column-gap", "row-gap"],
           "overflow": ["overflow-x", "overflow-y"], "border-radius": [f"border-{c}-radius" for c in CORNERS],
           "background": BACKGROUND, "background-position": BACKGROUND}.get(p, WIDTHS + COLORS[:4])
    same = [q for q in SHORTHANDS if q.split("-")[0] == p.split("-")[0]]
    def one():
        k = g.int(0, 9)
        if k < 5: return g.shorthand(p)
        if k < 7: return g.shorthand(g.pick(same))
        return g.longhand(g.pick(fam))
    def some(n):
        out = [one() for _ in range(n)]
        for d in out:
            if g(.2):
                l = g.pick(d["v"]); i = g.int(0, len(l) - 1)
                if l[i]["t"] != "kw" or l[i]["s"] not in ("solid", "dashed"):
                    name = g.pick(["--v", "--u"])
                    l[i] = var(name)
        if g(.3): out.insert(g.int(0, len(out)), decl("--v", [g.dim() for _ in range(g.int(1, 3))]))
        return out
    d, texts = sheets(g, some, some if g(.3) else None, (2, 5), pcs=0, combs=.1)
    d["rules"].insert(0, rule(sel(ALL), decl("--u", g.pick([g.dim(), g.color(), ZERO])), decl("--v", [g.dim(), g.dim()])))
    return scenario(sid, d, g.history(g.int(1, 3), texts), tol=2)

def values(rng, sid, tier):
    g = start(rng, 8)
    some = lambda n: [g.longhand(p, .12) if p not in SHORTHANDS else g.shorthand(p)
                      for p in g.some(LONGHANDS + ["font-size"] * 6, n + 2, n + 4)]
    d, texts = sheets(g, some, some if g(.3) else None, (3, 7), pcs=0, combs=.1)
    return scenario(sid, d, g.history(g.int(2, 4), texts, vps=True), tol=4)
