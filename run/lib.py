"""Documents, stylesheets and scenarios: abstract syntax (shared with the TLA+ specification)
and its rendering to the HTML and CSS which the library reads."""
import json, random

# ---------------------------------------------------------------- values
NULL = {"t": "null"}
def S(s): return {"t": "s", "s": s}
def N(n): return {"t": "n", "n": n}
def B(b): return {"t": "b", "b": b}
def A(*xs): return {"t": "a", "a": list(xs)}
def O(**kv): return {"t": "o", "o": [[k, v] for k, v in sorted(kv.items())]}
def F(text):
    x = float(text)
    m = max(-2000000000, min(2000000000, round(x * 1000) if abs(x) < 1e9 else 2000000000 if x > 0 else -2000000000))
    return {"t": "d", "s": text, "m": m or (1 if x > 0 else -1 if x < 0 else 0)}
def obj(d): return {"t": "o", "o": [[k, v] for k, v in sorted(d.items())]}

# ---------------------------------------------------------------- templates
def E(path, *pipe):
    return {"path": path.split(".") if isinstance(path, str) else list(path), "pipe": list(pipe)}
def lit(s): return {"t": "lit", "s": s}
def ex(path, *pipe): return {"t": "e", "e": E(path, *pipe)}
def tx(*spans): return {"k": "tx", "spans": [lit(s) if isinstance(s, str) else s for s in spans]}
def el(tag, bs=(), *kids): return {"k": "el", "tag": tag, "bs": list(bs), "kids": list(kids)}
def attr(k, v): return {"b": "none", "k": k, "v": v}
def flag(k, e): return {"b": "tag", "k": k, "e": e}
def bound(k, *spans): return {"b": "attr", "k": k, "spans": [lit(s) if isinstance(s, str) else s for s in spans]}
def alias(k, e): return {"b": "alias", "k": k, "e": e}
def repeat(k, n, e): return {"b": "repeat", "k": k, "n": n, "e": e}
def vis(pos, e): return {"b": "vis", "pos": pos, "e": e}
def key(v): return {"t": "key", "v": v}
EV = {"t": "ev"}
def on(event, *args): return {"b": "on", "k": event, "args": [key(a) if isinstance(a, str) else a for a in args]}

VOID = {"img", "input", "area", "base", "br", "col", "command", "embed", "hr",
        "keygen", "link", "meta", "param", "source", "track", "wbr"}

def r_expr(e):
    return "{" + "|".join([".".join(e["path"])] + e["pipe"]) + "}"
def r_spans(spans):
    return "".join(s["s"] if s["t"] == "lit" else r_expr(s["e"]) for s in spans)
def r_arg(a):
    return a["v"] if a["t"] == "key" else "$event" if a["t"] == "ev" else r_expr(a["e"])
def r_binding(b):
    k = b["b"]
    if k == "none": return f'{b["k"]}="{b["v"]}"'
    if k == "tag": return f'#{b["k"]}="{r_expr(b["e"])}"'
    if k == "attr": return f'@{b["k"]}="{r_spans(b["spans"])}"'
    if k == "alias": return f'+{b["k"]}="{r_expr(b["e"])}"'
    if k == "repeat": return f'*{b["k"]}="{b["n"]} {r_expr(b["e"])}"'
    if k == "vis": return f'{"?" if b["pos"] else "!"}="{r_expr(b["e"])}"'
    if k == "on": return f'^{b["k"]}="{" ".join(r_arg(a) for a in b["args"])}"'
    raise ValueError(k)
def r_node(n):
    if n["k"] == "tx": return r_spans(n["spans"])
    head = " ".join([n["tag"]] + [r_binding(b) for b in n["bs"]])
    if n["tag"] in VOID: return f"<{head}/>"
    return f"<{head}>" + "".join(map(r_node, n["kids"])) + f"</{n['tag']}>"
def r_html(doc):
    # other attributes of templates say nothing
    extra = [("", ""), ("", ' title="x"'), ('class="y" ', "")]
    tpls = "".join(f'<template {extra[i % 3][0]}id="{t["id"][1:]}"{extra[i % 3][1]}>{r_node(t["root"])}</template>' for i, t in enumerate(doc["tpls"]))
    return f"<html>{tpls}{r_node(doc['body'])}</html>"

# ---------------------------------------------------------------- stylesheets
def T(t, n): return {"t": t, "n": n}
def px(x): return T("px", round(x * 1000))
def pct(x): return T("pct", round(x * 10))
def num(x): return T("num", round(x * 1000)) if x else ZERO
def kw(s): return {"t": "kw", "s": s}
def string(s): return {"t": "str", "s": s}
def url(s): return {"t": "url", "s": s}
def var(s): return {"t": "var", "s": s}
def tm(eighths, ms=False): return {"t": "time", "n": eighths, "_ms": ms}
def err(text): return {"t": "err", "_x": text}
def col(r, g, b, a=255, form=None): return {"t": "col", "c": [r, g, b, a], "_f": form}
ZERO = {"t": "zero"}
def decl(p, *layers):
    """layers are tokens (one layer of them), or lists of tokens"""
    if layers and isinstance(layers[0], dict): layers = [list(layers)]
    return {"p": p, "v": [list(l) for l in layers]}

def dec(milli):
    sign = "-" if milli < 0 else ""
    whole, part = divmod(abs(milli), 1000)
    return sign + str(whole) + (("." + f"{part:03d}".rstrip("0")) if part else "")

HALVES = {0: "0", 63: "25", 127: "50", 191: "75", 255: "100"}
def r_tok(t):
    k = t["t"]
    if k in ("px", "em", "rem", "vw", "vh", "vmin", "vmax"): return dec(t["n"]) + k
    if k == "pct":
        n = t["n"] * 100      # thousandths of percent
        return dec(n) + "%"
    if k == "num": return dec(t["n"]) if t["n"] else "0.0"
    if k == "zero": return "0"
    if k == "kw": return t["s"]
    if k == "str": return f'"{t["s"]}"'
    if k == "url": return f'url("{t["s"]}")'
    if k == "var": return f'var({t["s"]})'
    if k == "time":
        if t.get("_u"): return dec(t["n"] * 15625) + "ms" if t.get("_ms") else f'{t["n"] * 15625 / 1000000:.6f}s'
        return f'{t["n"] * 125}ms' if t.get("_ms") else dec(t["n"] * 125) + "s"
    if k == "err": return t["_x"]
    if k == "col":
        r, g, b, a = t["c"]
        f = t.get("_f")
        if f == "rgb" and a == 255: return f"rgb({r}, {g}, {b})"
        if f == "rgba" and a in (0, 255, 127): return f"rgba({r}, {g}, {b}, {({0: '0', 255: '1', 127: '0.5'})[a]})"
        if f == "pct" and a in (0, 255, 127) and not {r, g, b} - set(HALVES):
            part = lambda c: HALVES[c] + "%"
            if a == 255 and r: return f"rgb({part(r)}, {part(g)}, {part(b)})"
            return f"rgba({part(r)}, {part(g)}, {part(b)}, {part(a)})"
        if a == 255 and f != "long": return f"#{r:02x}{g:02x}{b:02x}"
        return f"#{r:02x}{g:02x}{b:02x}{a:02x}"
    if k == "raw": return t["s"]
    raise ValueError(k)
def r_decl(d):
    return d["p"] + ": " + ", ".join(" ".join(map(r_tok, l)) for l in d["v"]) + ";"
def r_decls(ds): return " ".join(map(r_decl, ds))

def r_simple(s):
    k = s["s"]
    if k == "all": return "*"
    if k == "tag": return s["n"]
    if k == "id": return "#" + s["n"]
    if k == "class": return "." + s["n"]
    if k == "pc": return ":" + s["n"]
    if k == "attr":
        if not s["op"]: return f'[{s["n"]}]'
        return f'[{s["n"]}{s["op"]}"{s["v"]}"]'
    if k == "raw": return s["n"]
    raise ValueError(k)
def r_sel(sel):
    out = "".join(map(r_simple, sel["parts"][0]))
    for c, part in zip(sel["combs"], sel["parts"][1:]):
        out += (" " if c == " " else f" {c} ") + "".join(map(r_simple, part))
    return out
def r_rule(r): return ", ".join(map(r_sel, r["sels"])) + " { " + r_decls(r["ds"]) + " }"
def r_css(doc):
    out = [r_rule(r) for r in doc["rules"]]
    for name, steps in doc["anims"].items():
        body = " ".join((f'{k["step"]}%' if not k.get("_kw") else {0: "from", 100: "to"}[k["step"]])
                        + " { " + r_decls(k["ds"]) + " }" for k in steps)
        out.append(f"@keyframes {name} {{ {body} }}")
    return "\n".join(out)

def tag(n): return {"s": "tag", "n": n}
def cls(n): return {"s": "class", "n": n}
def ident(n): return {"s": "id", "n": n}
def pc(n): return {"s": "pc", "n": n}
ALL = {"s": "all"}
def at(n, op="", v=""): return {"s": "attr", "n": n, "op": op, "v": v}
def sel(*parts):
    """compounds (simple or list of simples) with combinators (strings) in between"""
    ps = [p if isinstance(p, list) else [p] for p in parts[::2]]
    return {"parts": ps, "combs": list(parts[1::2])}
def rule(sels, *ds):
    if isinstance(sels, dict): sels = [sels if "parts" in sels else sel(sels)]
    return {"sels": sels, "ds": list(ds)}

# ---------------------------------------------------------------- documents and scenarios
def doc(body, tpls=(), rules=(), anims=None, inl=()):
    return {"tpls": [{"id": i, "root": r} for i, r in tpls],
            "body": el("body", [], *body) if isinstance(body, (list, tuple)) else body,
            "rules": list(rules), "anims": anims or {}, "inl": [{"s": r_decls(ds), "ds": ds} for ds in inl]}

def step(value=None, ticks=0, ev=(), vp=(800, 600)):
    return {"value": value if value is not None else O(), "dt": ticks, "vp": list(vp), "ev": list(ev)}
def move(x, y): return {"e": "move", "x": round(x * 1000), "y": round(y * 1000)}
def to(n, at="c"): return {"e": "move", "to": n, "at": at}
def down(b="Left"): return {"e": "down", "b": b}
def up(b="Left"): return {"e": "up", "b": b}
def keydown(k): return {"e": "keydown", "k": k}
def keyup(k): return {"e": "keyup", "k": k}
def char(c): return {"e": "char", "c": c}

def scenario(sid, d, steps, want="s", twin="", ids=(), tol=1, expect="ok", html=None, css=None, unit=125000, fonts="line"):
    return {"unit": unit, "fonts": fonts, "id": sid, "doc": d, "steps": steps, "want": want, "twin": twin, "ids": list(ids),
            "tol": tol, "expect": expect, "html": html if html is not None else r_html(d),
            "css": css if css is not None else r_css(d)}

def strip(x):
    """without the keys which only matter for rendering"""
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list): return [strip(v) for v in x]
    return x

def for_harness(s):
    out = {k: s[k] for k in ("id", "html", "css", "want", "twin", "ids", "noise", "fonts") if k in s}
    # eighths of a second, or 64ths
    out["steps"] = [{**st, "dt": st["dt"] * s.get("unit", 125000)} for st in s["steps"]]
    return out

def for_spec(s):
    steps = [{"value": st["value"], "dt": st["dt"], "vp": st["vp"]} for st in s["steps"]]
    return {"id": s["id"], "doc": strip(s["doc"]), "steps": steps, "ids": s["ids"], "twin": s["twin"],
            "tol": s["tol"], "expect": s["expect"], "fonts": s.get("fonts", "line")}
