"""Texts which are mutations of documents and stylesheets, and values of unexpected types."""
import re
from lib import *
from gen import G, tagv, MISSING
import whole

BITS = ["<", ">", "/", "=", "\"", "{", "}", "|", "*", "#", "@", "+", "^", "?", "!", "$event", " ", "\n", "\t", "é", "\u2028", "😀",
        "<div>", "</div>", "<br>", "<img/>", "<!-- x -->", "{a}", "{a|not}", "{", "{}", "{a.}", "{.a}", "*it=\"3 {xs}\"", "*it=\"{xs}\"", "*it=\"99999999999999999999 {xs}\"", "*it=\"18446744073709551616 {a}\"", "*it=\"0 {xs}\"", "*it=\"-1 {xs}\"", "*it=\"2.5 {xs}\"",
        "+al=\"{o}\"", "?=\"{f}\"", "^onclick=\"\"", "@class=\"{a}\"", "#on=\"{f}\"", "<template id=\"t\">", "</template>",
        "<link href=\"#t\"/>", "<body>", "</body>", "<html>", "<style>", "</style>", "99999999999999999999", "-1", "0.0", "&amp;", "<p/>", "'"]
CBITS = ["{", "}", ":", ";", ",", "(", ")", "[", "]", ">", "+", "~", "*", ".", "#", "@", "!important", "%", "px", "em", "s", "ms", "0", "-1", "1e9",
         "99999999999999999999", "0.0000001", "var(--x)", "var(--x, 1px)", "var()", "calc(1px + 2px)", "rgb(1,2,3)", "rgba(1,2,3)", "rgb()",
         "rgb(300, -1, 2)", "rgba(1, 2, 3, 9)", "#12", "#zzzzzz", "#", "url(", "url(\"a\")", "\"", "'", "/* x */", "/*", ":hover", "::before", ":nth-child(2n+1)",
         ":not(.a)", "[a", "[a=\"b\"]", "[a~=b]", "@media (x) { }", "@keyframes k { from { width: 1px } to { width: 2px } }",
         "@keyframes k { 200% { width: 1px } }", "@keyframes k { 33.3% { width: 1px } }", "@keyframes k { }", "@font-face { }",
         "animation: 1s k;", "animation: 0s k infinite;", "animation: k;", "animation: 1s linear infinite 2s k;", "transition: width 1s;",
         "transition: all 1s;", "transition: nothing;", "transition-property: width, height;", "animation-name: k, k;", "animation-iteration-count: 0;",
         "animation-iteration-count: -1;", "animation-duration: -1s;", "animation-delay: -1s;", "transition-duration: -1s;", "--x: var(--x);", "--x: ;", "width: 1px 2px 3px;",
         "margin: ;", "margin: 1px 2px 3px 4px 5px;", "font-size: -5px;", "opacity: 7;", "background: a, b, c;", "background-position: 50%;", "flex: 1;", "flex: 1 1 auto;",
         "border: 1px;", "border-radius: 1px / 2px;", "grid-template-columns: 1fr;", "transform: translate3d(1px, 2px, 3px);", "transform: translateX();", "z-index: 4;",
         "width: 1e40px;", "width: -0px;", "height: nanpx;", "é", "\u2028", "😀", "\n"]

COUNTS = ["0", "1", "99999999999999999999", "18446744073709551616", "-1", "2.5", "", "3 3", "x", "007", "+2", "1e1", "{n}", "0x2"]
NUMBERS = ["0", "-0", "1e9", "-1e9", "1e39", "-1e39", "0.0000001", "99999999999999999999", "-99999999999999999999", "1.", ".5", "+5", "007", "1e", "1..2",
           "2147483648", "-2147483649", "65536", "100.5", "3.4e38"]

class Fuzz(G):
    def numbers(self, text, pattern, others, n):
        """some numbers of a text replaced by others"""
        hits = list(re.finditer(pattern, text))
        for m in sorted(self.r.sample(hits, min(len(hits), self.int(1, n))), key=lambda m: -m.start()):
            text = text[:m.start(2)] + self.pick(others) + text[m.end(2):]
        return text
    wild = True    # numbers beyond those of the specification
    def mutate(self, text, bits):
        g = self
        for _ in range(g.pick([1, 1, 2, 3, 6])):
            if not text: text = g.pick(bits)
            i = g.int(0, len(text)); k = g.int(0, 9)
            j = min(len(text), i + g.pick([1, 1, 2, 5, 20]))
            if k < 4: text = text[:i] + g.pick(bits) + text[i:]
            elif k < 6: text = text[:i] + text[j:]
            elif k < 7: text = text[:i] + text[i:j] * g.int(2, 3) + text[j:]
            elif k < 8: text = text[:i] + g.pick(bits) + text[j:]
            else:
                a = g.int(0, len(text)); b = min(len(text), a + g.int(1, 30))
                text = text[:i] + text[a:b] + text[i:]
        return text[:6000]
    def weird(self, depth=3):
        g = self
        k = g.int(0, 9)
        if k < 6 or depth == 0:
            xs = [4294967296, -9007199254740993, 1e300, -1e-300] if self.wild else [-0.25, 1000000, 12.5]
            return g.pick(xs + [None, True, False, 0, -1, 5, 1.5, "", "x", "0", "[array]", "é" * 40,
                           "<b>", "{a}", "#fff", "width: 5px", "width: ; color", "}", "true", "1s", "a b  c"] + (["color: red; bogus"] if self.wild else []))
        if k < 8: return [g.weird(depth - 1) for _ in range(g.pick([0, 1, 2, 3, 9]))]
        return {g.pick(["a", "b", "name", "0", "", "é", "subs", "f", "xs"]): g.weird(depth - 1) for _ in range(g.int(0, 3))}
    def value(self, shape):
        """the value of a scenario with parts of other types"""
        g = self
        if g(.1): return tagv(g.weird())
        if shape["t"] == "o" and shape["o"]:
            return {"t": "o", "o": [[k, g.value(v) if g(.5) else v] for k, v in shape["o"] if not g(.1)]}
        if shape["t"] == "a" and shape["a"]: return {"t": "a", "a": [g.value(v) if g(.5) else v for v in shape["a"]]}
        return tagv(g.weird(2))
    def linked(self, html):
        """templates which link templates, also themselves and each other"""
        g, n = self, self.int(1, 4)
        link = lambda: "".join(g.pick(['<link href="#l%d"/>', '<link *it="2 {xs}" href="#l%d"/>', '<link ?="{f}" href="#l%d"/>', '<p><link href="#l%d" +a="{o}"/></p>']) % g.int(0, n - g.int(0, 1))
                               for _ in range(g.int(0, 2)))
        tpls = "".join(f'<template id="l{i}"><div>{link()}{{a}}{link()}</div></template>' for i in range(n))
        return html.replace("<html>", "<html>" + tpls, 1).replace("</body>", link() + "</body>", 1)
    def inputs(self):
        """viewports, times and positions of the mouse which make no sense"""
        g, odd = self, [0, -1, 0.5, 800, 1e9, -1e9, 1e39, -1e39, None, 1e-40]
        w = {}
        if g(.5): w["vp"] = [g.pick(odd), g.pick(odd)]
        if g(.3): w["secs"] = g.pick([0, 4000000000, 2 ** 63, 2 ** 64 - 1])
        if g(.5): w["mouse"] = [[g.pick(odd), g.pick(odd)] for _ in range(g.int(1, 3))]
        return w
    def times(self, s):
        for st in s["steps"]:
            if self(.2): st["dt"] = self.pick([0, 1, 7, 1000, 100000, 2000000])

def texts(rng, sid, tier):
    """arbitrary texts: loading gives a view or an error, and the view can be updated"""
    g = Fuzz(rng)
    s = g.pick(whole.MIX)(rng, sid, tier)
    s["twin"] = ""
    if g(.08): s["html"] = g.linked(s["html"])
    elif g(.25): s["html"] = g.numbers(s["html"], r'(?<=\*)(\w+=")(\d+)', COUNTS, 1)
    elif g(.5): s["html"] = g.mutate(s["html"], BITS)
    if g(.25): s["css"] = g.numbers(s["css"], r"()(-?\d+\.?\d*)", NUMBERS, 3)
    elif g(.55): s["css"] = g.mutate(s["css"], CBITS)
    s["steps"] = s["steps"][:5]
    for st in s["steps"]:
        if g(.4): st["value"] = g.value(st["value"])
        if g(.2): st["wild"] = g.inputs()
    g.times(s)
    s["expect"], s["doc"] = "any", doc([])
    return s

def types(rng, sid, tier):
    """valid documents, values of unexpected types"""
    g = Fuzz(rng)
    g.wild = False
    s = g.pick(whole.MIX)(rng, sid, tier)
    s["twin"] = ""
    for st in s["steps"]:
        if g(.7): st["value"] = g.value(st["value"])
    g.times(s)
    return s

JUNK = ["zoom: 4;", "bogus: 1px;", "-x-y: 2;", "z-index: 3;", "outline: auto;", "float: left;", "word-spacing: 1px 2px;", "transform: bogus;",
        "text-decoration: underline;", "line-height: 2;", "bogus: calc(1px, 2px);", "zoom: var(--nothing);", "float: #123456;"]
def ignored(rng, sid, tier):
    """rules and declarations which are not supported make no difference for the others"""
    g = Fuzz(rng)
    s = g.pick(whole.MIX[11:])(rng, sid, tier)
    s["twin"] = ""
    out = []
    for line in s["css"].split("\n"):
        if g(.5) and line.endswith(" }") and not line.startswith("@"):
            k = g.int(0, 2)
            if k == 0: line = line[:-1] + g.pick(JUNK) + " }"
            elif k == 1: line = line.replace("{ ", "{ " + g.pick(JUNK) + " ", 1)
        if g(.2): out.append(g.pick([".a:nope", "div::after", ":not(div)", ".b:nth-child(3)", ":is(div)"]) + " { width: 1px; opacity: 0.3; }")
        out.append(line)
    s["css"] = "\n".join(out)
    return s

def total(rng, sid, tier):
    return (texts if rng.random() < .55 else types if rng.random() < .6 else ignored)(rng, sid, tier)
