"""Scenarios about bindings of the model: texts, attributes, conditions, repeats, scopes, pipes."""
from lib import *
from gen import G, tagv, MISSING

TAGS = ["div", "span", "p", "b", "section", "imgx", "button"]
ITEMS = ["it", "row", "x", "it", "xs", "a"]
ALIASES = ["al", "it", "be", "al", "o", "f"]

class Doc(G):
    """weights w: probabilities of what an element has"""
    def __init__(self, rng, **w):
        super().__init__(rng)
        self.w = dict(attr=.25, flag=.2, vis=.1, rep=.1, alias=0, link=0, pipe=0, on=0, text=.45, void=.05, wide=4, cap=3)
        self.w.update(w)
        if rng.random() < .06:
            self.LONG = True
            self.w.update(cap=26, wide=2, text=.7)
        self.tpls, self.keys, self.budget = [], 0, 60

    def attributes(self, env, keys=("class", "title", "data-x", "name", "id", "alt", "disabled", "src")):
        out = []
        keys = list(keys)
        self.r.shuffle(keys)
        w = self.w
        if self(w["attr"]): out.append(bound(keys.pop(), *self.spans(env, w["pipe"], leading=True)))
        if self(w["attr"] / 3): out.append(bound(keys.pop(), *self.spans(env, w["pipe"], leading=True)))
        if self(w["flag"]): out.append(flag(keys.pop(), E(self.flag_path(env), *self.pipes(w["pipe"]))))
        if self(.15): out.append(attr(keys.pop(), self.pick(["", "x", "Hi", "a b", "true"])))
        if keys and self(.04): out.append(bound(keys.pop(), self.pick(["x", "Hi", "a b"])))
        if self(w["on"]): out.append(self.listener(env))
        return out

    def listener(self, env):
        self.keys += 1
        event = self.pick(["onmousemove", "onmousemove", "onclick", "onmouseenter", "onmouseleave", "onmousedown", "onmouseup"])
        args = [f"K{self.keys}"]
        for _ in range(self.int(0, 3)):
            args.append({"t": "e", "e": E(self.pick([self.scalar_path, self.list_path, self.flag_path])(env),
                                          *self.pipes(self.w["pipe"]))} if self(.8) else key("word"))
        return on(event, *args)

    def structure(self, env):
        """(condition or repeat, aliases, names in scope inside)"""
        w, bs, names = self.w, [], list(env)
        if self(w["alias"]):
            for _ in range(self.int(1, 2)):
                n = self.pick(ALIASES)
                if any(b["k"] == n for b in bs): continue
                path = self.pick([self.list_path, self.scalar_path])(names if self(.5) else env)
                last = path.split(".")[-1]
                if self(.3) and last.isalpha() and not any(b["k"] == last for b in bs): n = last
                bs.append(alias(n, E(path)))
                names.append(n)
        if self(w["vis"]):
            bs.append(vis(self(.6), E(self.flag_path(names), *self.pipes(w["pipe"]))))
        elif self(w["rep"]):
            n = self.pick(ITEMS)
            bs.append(repeat(n, self.int(0 if self(.1) else 1, w["cap"]), E(self.list_path(names), *self.pipes(w["pipe"]))))
            names.append(n)
        return bs, names

    def size(self, n):
        m = 1
        for b in n.get("bs", []):
            if b["b"] == "repeat": m = max(1, b["n"])
        return m

    def element(self, depth, env, mult=1, root=False):
        sb, names = self.structure(env)
        for b in sb:
            if b["b"] == "repeat": mult *= max(1, b["n"])
        self.budget -= mult
        if self.tpls and self(self.w["link"]):
            t = self.pick(self.tpls)
            self.budget -= mult * 4
            bs = sb + self.attributes(names, ["class", "title", "data-x", "disabled"])
            self.r.shuffle(bs)
            bs.insert(self.int(0, len(bs)), attr("href", t))
            return el("link", bs)
        # a link and the root of its template do not have attributes of the same name
        bs = sb + (self.attributes(names, ["name", "id", "alt", "src"]) if root else self.attributes(names))
        # aliases are resolved in the order of the source, keep them in theirs
        rest = [b for b in bs if b["b"] != "alias"]
        self.r.shuffle(rest)
        al = [b for b in bs if b["b"] == "alias"]
        bs = al + rest if self(.5) else rest + al
        if self(self.w["void"]):
            name = self.pick(["img", "input", "br"])
            # a flag is no source of an image
            return el(name, [b for b in bs if not (name == "img" and b["b"] == "tag" and b["k"] == "src")])
        return el(self.pick(TAGS), bs, *self.kids(depth - 1, names, mult))

    def kids(self, depth, env, mult=1):
        out = []
        for _ in range(self.int(0 if depth < 2 else 1, self.w["wide"])):
            if self.budget <= 0: break
            if (depth <= 0 or self(self.w["text"])) and not (out and out[-1]["k"] == "tx"):
                out.append(self.text(env, self.w["pipe"])); self.budget -= mult
            elif depth > 0:
                out.append(self.element(depth, env, mult))
        return out

    def templates(self, names=()):
        n = self.int(1, 3)
        done = []
        for i in range(n):
            self.tpls = [t for t, _ in done]
            self.budget = 12
            env = list(names) + self.sample(["it", "al", "row", "x"], 0, 2)
            root = self.element(2, env, root=True)
            while root["tag"] == "link": root = self.element(2, env, root=True)
            done.append((f"#t{i}", root))
        self.tpls = [t for t, _ in done]
        self.budget = 60
        self.r.shuffle(done)
        return done

def finish(g, sid, d, n, **kw):
    steps = [step(v) for v in g.history(n)]
    kw.setdefault("want", "")
    kw.setdefault("twin", "fresh")
    return scenario(sid, d, steps, **kw)

def values(rng, sid, tier):
    g = Doc(rng)
    return finish(g, sid, doc(g.kids(3, ())), g.int(3, 7))

def conditions(rng, sid, tier):
    g = Doc(rng, vis=.6, rep=.15, flag=.05, attr=.1, wide=6)
    return finish(g, sid, doc(g.kids(3, ())), g.int(4, 9))

def repeats(rng, sid, tier):
    g = Doc(rng, vis=.15, rep=.6, flag=.05, attr=.1, wide=3, cap=4)
    return finish(g, sid, doc(g.kids(3, ())), g.int(4, 9))

def scopes(rng, sid, tier):
    on_ = .7 if rng.random() < .5 else 0
    g = Doc(rng, vis=.1, rep=.3, alias=.4, link=.45, wide=3, on=on_)
    tpls = g.templates()
    s = finish(g, sid, doc(g.kids(3, ()), tpls), g.int(2, 5))
    return with_mouse(g, s) if on_ else s

def with_mouse(g, s):
    for st in s["steps"]:
        if g(.7): st["ev"] = [to(g.int(0, 20))] + ([down(), up()] if g(.5) else []) + ([to(g.int(0, 20))] if g(.4) else [])
    s["twin"] = ""
    return s

def pipes(rng, sid, tier):
    g = Doc(rng, vis=.25, rep=.25, alias=.1, pipe=.75, on=.3, wide=3)
    d = doc(g.kids(3, ()))
    s = finish(g, sid, d, g.int(3, 6))
    return with_mouse(g, s)
