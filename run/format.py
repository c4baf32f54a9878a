"""The same documents and stylesheets, written in other ways."""
from lib import *
from gen import G
import lib, whole

WS = [" ", " ", "  ", "\n", "\n    ", "\t", "\r\n  ", " \n\n\t "]
NOTES = ["<!-- x -->", "<!---->", "<!-- <p>{a}</p> -->", "<!-- a - -- > \"\n -->"]
REMARKS = ["/* x */", "/**/", "/* .a { width: 1px; } */", "/* a * / \"\n ' */", "/***/"]

class Writer(G):
    """`rate`: how often something is written in an unusual way"""
    def __init__(self, rng):
        super().__init__(rng)
        self.rate = self.pick([.1, .4, 1])
    # ---- gaps
    def w(self, default=""):
        """whitespace which can be left out"""
        return self.pick(["", *WS]) if self(self.rate) else default
    def s(self):
        """whitespace which separates"""
        return self.pick(WS) if self(self.rate) else " "
    def mixed(self, notes, least):
        if not self(self.rate): return " " if least else ""
        out = "".join(self.pick([self.pick(WS), self.pick(notes)]) for _ in range(self.int(0, 3)))
        return out or (" " if least else "")
    def n(self): return self.mixed(NOTES, False)
    def c(self, least=False): return self.mixed(REMARKS, least)

    # ---- documents
    def expr(self, e):
        g = self
        return "{" + g.w() + ".".join(e["path"]) + g.w() + "".join("|" + g.w() + p + g.w() for p in e["pipe"]) + "}"
    def arg(self, a): return self.expr(a["e"]) if a["t"] == "e" else r_arg(a)
    def is_(self): return self.w() + "=" + self.w()
    def spaced(self, n, inl, more):
        """other whitespace between classes (which shows in the value of the attribute)"""
        if n["k"] == "tx": return n
        bs = []
        for b in n["bs"]:
            if b["b"] == "none" and b["k"] == "class" and b["v"].strip() == b["v"] != "" and self(self.rate):
                b = {**b, "v": self.s().join(b["v"].split(" ")) + self.w()}
            if b["b"] == "none" and b["k"] == "style" and b["v"] in inl:
                text = self.decls(inl[b["v"]], quotes=False).strip()
                more.append({"s": text, "ds": inl[b["v"]]})
                b = {**b, "v": text}
            bs.append(b)
        return {**n, "bs": bs, "kids": [self.spaced(k, inl, more) for k in n["kids"]]}
    def binding(self, b):
        g, k = self, b["b"]
        if k == "none":
            if b["v"] == "" and g(g.rate / 2): return b["k"]
            v = b["v"]
            if v and all(c.isalnum() or c in "-_#." for c in v) and g(g.rate / 2): return f'{b["k"]}{g.is_()}{v}'
            return f'{b["k"]}{g.is_()}"{v}"'
        if k == "attr": return f'@{b["k"]}{g.is_()}"' + "".join(x["s"] if x["t"] == "lit" else g.expr(x["e"]) for x in b["spans"]) + '"'
        name = {"tag": "#", "alias": "+", "repeat": "*", "on": "^"}.get(k, "") + b["k"] if k != "vis" else "?" if b["pos"] else "!"
        if k == "on":
            args = b["args"]
            v = g.w() + "".join(g.arg(a) + (g.s() if i + 1 < len(args) else g.w()) for i, a in enumerate(args))
        else:
            v = g.w() + (str(b["n"]) + g.w(" ") if k == "repeat" else "") + g.expr(b["e"]) + g.w()
        return f'{name}{g.is_()}"{v}"'
    def line(self, s, first, last):
        """a literal of a text; some of its spaces are line breaks"""
        g, out = self, ""
        for i, c in enumerate(s):
            ends = i + 1 == len(s)
            if c == " " and not (first and i == 0) and not (last and ends) and s[i - 1:i] != " " and s[i + 1:i + 2] != " " and g(g.rate / 2):
                c = g.pick(["\n", "\n      ", " \n", "\r\n", "\n\n  ", "\t\n\r\n "])
            out += c
        return out
    def text(self, n, last):
        g, spans = self, n["spans"]
        out = ""
        for i, x in enumerate(spans):
            out += g.expr(x["e"]) if x["t"] == "e" else g.line(x["s"], i == 0, last and i + 1 == len(spans))
        if not out.strip(): return out
        if last and not out[-1:].isspace() and g(g.rate): out += g.pick(["\n", "\n    ", "\r\n  ", "\n\n"])
        return out
    def node(self, n, last):
        g = self
        if n["k"] == "tx": return g.text(n, last)
        head = "".join([n["tag"]] + [g.s() + g.binding(b) for b in n["bs"]]) + g.w()
        if n["tag"] in VOID: return f"<{head}" + g.pick(["/>", "/>", ">"]) 
        return f"<{head}>" + g.content(n["kids"]) + f"</{n['tag']}{g.w()}>"
    def content(self, kids):
        g, out = self, ""
        for i, k in enumerate(kids):
            last = i + 1 == len(kids)
            tx = k["k"] == "tx"
            before = kids[i - 1]["k"] == "tx" if i else False
            # notes between texts would separate them
            if not (tx and before) and not (before and out[-1:].isspace()): out += (g.pick(["", g.pick(NOTES) + g.n()]) if before and g(g.rate) else "" if before else g.n())
            out += g.node(k, last)
        if not (kids and kids[-1]["k"] == "tx"): out += g.n()
        return out
    def html(self, doc):
        g = self
        tpls = "".join(f'<template{g.s()}id{g.is_()}"{t["id"][1:]}"{g.w()}>{g.content([t["root"]])}</template{g.w()}>{g.n()}' for t in doc["tpls"])
        return f"{g.n()}<html{g.w()}>{g.n()}{tpls}{g.node(doc['body'], True)}{g.n()}</html>{g.n()}"

    # ---- stylesheets
    def tok(self, t):
        g, k = self, t["t"]
        s = r_tok(t)
        if k in ("url", "var") or k == "col" and "(" in s:
            name, args = s[:-1].split("(", 1)
            return name + "(" + g.c() + (g.c() + "," + g.c(False)).join(a.strip() for a in (args.split(",") if k == "col" else [args])) + g.c() + ")"
        if k == "col" and g(g.rate / 2): return s.upper()
        if k in ("px", "em", "rem", "vw", "vh", "vmin", "vmax", "pct", "num") and g(g.rate / 2):
            i = 0
            while s[i:i + 1] in "-.0123456789" and i < len(s): i += 1
            digits, unit = s[:i], s[i:]
            if "." in digits:
                if digits.lstrip("-").startswith("0.") and len(digits.lstrip("-")) > 2 and g(.5): digits = digits.replace("0.", ".", 1)
                elif digits.lstrip("-") != "0.0": digits += "0"
            elif unit: digits += g.pick([".0", ".00"])
            return digits + unit
        return s
    def decl(self, d):
        g = self
        layers = []
        for l in d["v"]:
            out = ""
            for i, t in enumerate(l): out += (g.c(True) if i else "") + g.tok(t)
            layers.append(out)
        return d["p"] + g.c() + ":" + g.c(True) + (g.c() + "," + g.c(True)).join(layers) + g.c() + ";"
    def decls(self, ds, quotes=True):
        g = self
        out = g.c() + "".join(g.decl(d) + g.c() for d in ds)
        # within a double quoted attribute
        return out if quotes else out.replace('"', "").replace("\\", "")
    def simple(self, s):
        if s["s"] == "attr" and s["op"] and s["v"].isalpha() and self(self.rate / 2): return f'[{s["n"]}{s["op"]}{s["v"]}]'
        return r_simple(s)
    def selector(self, sel):
        g = self
        out = "".join(map(g.simple, sel["parts"][0]))
        for c, part in zip(sel["combs"], sel["parts"][1:]):
            out += (g.c(True) if c == " " else g.c(True) + c + g.c(True) if not g(g.rate / 2) else c) + "".join(map(g.simple, part))
        return out
    def rule(self, r):
        g = self
        return (g.c() + "," + g.c(True)).join(map(g.selector, r["sels"])) + g.c(True) + "{" + g.decls(r["ds"]) + "}"
    def css(self, doc):
        g = self
        out = [g.rule(r) for r in doc["rules"]]
        for name, steps in doc["anims"].items():
            body = "".join((f'{k["step"]}%' if k["step"] not in (0, 100) or g(.5) else {0: "from", 100: "to"}[k["step"]])
                           + g.c(True) + "{" + g.decls(k["ds"]) + "}" + g.c() for k in steps)
            out.insert(g.int(0, len(out)), f"@keyframes{g.s()}{name}{g.c(True)}{{{g.c()}{body}}}")
        return g.c() + "".join(x + g.c() for x in out)

def rewrite(rng, s):
    g = Writer(rng)
    d = s["doc"]
    inl, more = {i["s"]: i["ds"] for i in d["inl"]}, []
    body = g.spaced(d["body"], inl, more)
    tpls = [{**t, "root": g.spaced(t["root"], inl, more)} for t in d["tpls"]]
    known = {i["s"] for i in d["inl"]}
    s["doc"] = {**d, "body": body, "tpls": tpls, "inl": d["inl"] + list({i["s"]: i for i in more if i["s"] not in known}.values())}
    s["html"], s["css"] = g.html(s["doc"]), g.css(s["doc"])
    return s

def formats(rng, sid, tier):
    g = G(rng)
    s = g.pick(whole.MIX)(rng, sid, tier)
    s["twin"] = ""
    s["steps"] = s["steps"][:5]
    return rewrite(rng, s)
