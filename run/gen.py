"""Random building blocks of scenarios."""
import random
from lib import *

MISSING = object()

def tagv(v):
    if v is None: return NULL
    if isinstance(v, bool): return B(v)
    if isinstance(v, int):
        if abs(v) < 2000000000: return N(v)
        return {"t": "d", "s": str(v), "m": 2000000000 if v > 0 else -2000000000}
    if isinstance(v, float): return F(repr(v))
    if isinstance(v, str): return S(v)
    if isinstance(v, list): return {"t": "a", "a": [tagv(x) for x in v]}
    return obj({k: tagv(x) for k, x in v.items() if x is not MISSING})

SCALARS = [None, True, False, 0, 1, 2, 42, -7, 1.5, -0.5, 2.0, 0.25, "", "x", "Hi", "Hallo", "true", "0", "a b", "é",
           "a text which is a bit longer than others", "a text which is a bit longer than another", "a text which is a bit longer than 0thers"]
NAMES = ["Ann", "Bob", "Cid", "", "Hi", 7, None, False]

class G:
    def __init__(self, rng):
        self.r = rng
    def __call__(self, p): return self.r.random() < p
    def pick(self, xs): return self.r.choice(xs)
    def int(self, a, b): return self.r.randint(a, b)
    def some(self, xs, lo, hi): return [self.pick(xs) for _ in range(self.int(lo, hi))]
    def sample(self, xs, lo, hi):
        xs = list(xs); n = min(len(xs), self.int(lo, hi)); return self.r.sample(xs, n)

    # ---- model values: a b c scalars, f g flags, o p objects, xs ys lists, t text
    def scalar(self): return self.pick(SCALARS)
    def flag(self): return self.pick([True, False, True, False, 1, 0, "", "y", None, [], [0], {}, MISSING])
    def item(self, depth=1):
        k = self.int(0, 9)
        if k < 5:
            d = {"name": self.pick(NAMES), "on": self.flag(), "n": self.int(0, 9)}
            if depth > 0 and self(0.8): d["subs"] = self.lst(0, 3, depth - 1)
            if self(0.3): d["o"] = {"a": self.scalar(), "f": self.flag()}
            if self(0.15): d.pop("name")
            return d
        if k < 8: return self.scalar()
        if k < 9: return self.lst(0, 3, depth - 1) if depth > 0 else []
        return {}
    def lst(self, lo, hi, depth=1): return [self.item(depth) for _ in range(self.int(lo, hi))]
    def anything(self, depth=2):
        k = self.int(0, 5)
        if k < 3 or depth == 0: return self.scalar()
        if k == 3: return [self.anything(depth - 1) for _ in range(self.int(0, 3))]
        return {self.pick(["a", "b", "name", "0", "1"]): self.anything(depth - 1) for _ in range(self.int(0, 3))}
    FIELDS = ["a", "b", "c", "f", "g", "o", "p", "xs", "ys"]
    def field(self, name):
        if self(0.06): return MISSING
        if self(0.08): return self.anything()
        if name in "abc": return self.scalar()
        if name in "fg": return self.flag()
        if name in "op": return {"a": self.scalar(), "b": self.scalar(), "f": self.flag(),
                                 "o": {"a": self.scalar()}, "xs": self.lst(0, 3, 0)}
        if self.LONG and self(.5):
            # indices of several digits
            return [self.pick(NAMES) if self(.7) else self.item(0) for _ in range(self.int(8, 24))]
        return self.lst(0, 4, 1)
    LONG = False
    def model(self): return {n: self.field(n) for n in self.FIELDS}

    def mutate(self, v, depth=0):
        """a value near v"""
        if self(0.25 if depth else 0.1): return self.anything(1) if depth else self.model()
        if isinstance(v, dict) and v:
            v = dict(v)
            for k in self.sample(list(v), 1, 2 if depth else 3):
                if v[k] is MISSING or (depth == 0 and self(0.5)): v[k] = self.field(k) if depth == 0 else self.scalar()
                else: v[k] = self.mutate(v[k], depth + 1)
            if self(0.1): v.pop(self.pick(list(v)))
            return v
        if isinstance(v, list):
            v = list(v); k = self.int(0, 5)
            if k == 0 and v: v.pop(self.int(0, len(v) - 1))
            elif k == 1: v.insert(self.int(0, len(v)), self.item(1))
            elif k == 2: v.reverse()
            elif k == 3 and v:
                i = self.int(0, len(v) - 1); v[i] = self.mutate(v[i], depth + 1)
            elif k == 4: v = v[:self.int(0, len(v))]
            else: self.r.shuffle(v)
            return v
        return self.scalar()
    def history(self, n):
        out = [self.model()]
        while len(out) < n:
            k = self.int(0, 9)
            if k == 0: out.append(self.model())
            elif k == 1: out.append(out[-1])
            elif k == 2 and len(out) > 1: out.append(out[-2])
            elif k == 3: out.append(self.anything())
            else:
                base = out[-1] if isinstance(out[-1], dict) else self.model()
                out.append(self.mutate(base))
        return [tagv(v) for v in out]

    # ---- expressions
    PIPES = ["not", "str", "len", "wrap", "inc", "first", "tail", "twice", "nil", "duration", "unknown", "nope"]
    def pipes(self, p=0.0): return self.some(self.PIPES, 1, 3) if self(p) else []
    def scalar_path(self, env=()):
        """env: names of items and aliases in scope"""
        if env and self(0.65):
            n = self.pick(list(env))
            return n if self(0.4) else n + "." + self.pick(["name", "on", "n", "a", "0", "name", "subs.0.name", "o.a", "0.name", "subs.0"])
        return self.pick(["a", "b", "c", "a", "b", "f", "o.a", "o.b", "o.o.a", "p.a", "a.x", "xs.0", "xs.0.name",
                          "xs.1.name", "missing", "o", "xs", "o.xs"])
    def flag_path(self, env=()):
        if env and self(0.5): return self.pick(list(env)) + self.pick([".on", ".on", ".on", "", ".f", ".subs.0.on", ".o.f"])
        return self.pick(["f", "g", "f", "g", "o.f", "p.f", "a", "xs", "o", "xs.0.on", "missing"])
    def list_path(self, env=()):
        if env and self(0.5): return self.pick(list(env)) + self.pick([".subs", ".subs", ".subs", ".xs", "", ".subs.0.subs", ".0.subs"])
        return self.pick(["xs", "ys", "xs", "ys", "o.xs", "p.xs", "a", "xs.0.subs", "missing"])
    def scalar_ex(self, env=(), pp=0.0): return E(self.scalar_path(env), *self.pipes(pp))
    LITS = ["Hi", "Hi ", "Hallo", "x", "a b", ": ", "é", "-", "Hi", "Yo "]
    def spans(self, env=(), pp=0.0, leading=False):
        out = []
        for _ in range(self.int(1, 4)):
            if out and out[-1]["t"] == "lit" or self(0.6):
                out.append({"t": "e", "e": self.scalar_ex(env, pp)})
            else:
                s = self.pick(self.LITS + ([" ", " x "] if out or leading else []))
                out.append(lit(s))
        return out
    def text(self, env=(), pp=0.0): return {"k": "tx", "spans": self.spans(env, pp)}
