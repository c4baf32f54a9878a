"""Behaviours of the models (spec/MC*.tla), explored by TLC, as scenarios for the library."""
import os, random
from lib import *

def rendered(d):
    """a document of the specification as one which can be rendered"""
    d = dict(d)
    d["anims"] = d["anims"] or {}
    d["inl"] = [i if "ds" in i else {"s": r_decls(i), "ds": i} for i in d["inl"]]
    return d

def rested(steps):
    """every update followed by two in which nothing happens: the last of them must not change anything"""
    return [x for s in steps for x in (s, {**s, "ev": [], "dt": 0}, {**s, "ev": [], "dt": 0})]

def model(name, limit=None, rest=False, **kw):
    """scenarios of a model; at most limit of them in the quick tier (chosen by the seed)"""
    def make(run_model, tier, seed):
        got, generated, distinct = run_model(f"{name}.tla", f"{name}.cfg", {"TIER": tier})
        total = len(got)
        got.sort(key=lambda b: json.dumps(b, sort_keys=True))
        ids = list(range(total))
        n = limit.get(tier) if limit and not os.environ.get("ALL") else None
        if n and n < total:
            ids = sorted(random.Random(f"{name}/{seed}").sample(ids, n))
        scens = []
        for i in ids:
            d = rendered(got[i]["doc"])
            s = scenario(f"{name}-{i}", d, rested(got[i]["steps"]) if rest else got[i]["steps"], html=got[i].get("html"), css=got[i].get("css"),
                         **{**kw, **got[i].get("opts", {})})
            s["kind"] = name
            scens.append(s)
        return scens, {"model": name, "generated": generated, "distinct": distinct, "behaviours": total, "replayed": len(scens)}
    return make

def nearest(at, out, edges, left, most):
    """shortest way to a state with edges which have not been taken"""
    seen, queue = {at}, [(at, [])]
    for a, way in queue:
        if way and left.get(a): return way
        if len(way) == most: continue
        for i in out.get(a, []):
            b = edges[i][1]
            if b not in seen and b in out: seen.add(b); queue.append((b, way + [i]))
    return None

def tours(root, edges, length, rng):
    """walks from the root over a state graph, which take every edge once as long as they can"""
    out = {}
    for i, (a, b, _) in enumerate(edges): out.setdefault(a, []).append(i)
    for es in out.values(): rng.shuffle(es)
    left = {a: list(es) for a, es in out.items()}
    # shortest paths from the root
    path, queue = {root: []}, [root]
    for a in queue:
        for i in out.get(a, []):
            b = edges[i][1]
            if b not in path: path[b] = path[a] + [i]; queue.append(b)
    walks, todo = [], [a for a in queue if left.get(a)]
    rng.shuffle(todo)
    for a in todo:
        while left[a]:
            walk, at = list(path[a]), a
            while len(walk) < length:
                if left.get(at):
                    # edges to states which are not explored any further end the walk, so they come last
                    i = max(left[at], key=lambda e: (edges[e][1] in out))
                    left[at].remove(i)
                    walk.append(i); at = edges[i][1]
                    continue
                way = nearest(at, out, edges, left, length - len(walk) - 1)
                if way is None: break
                walk += way; at = edges[way[-1]][1]
            walks.append([edges[i][2] for i in walk])
    return walks

def graph(name, cfg, limit=None, length=24, rest=False, **kw):
    """walks over the state graph of a model which prints its transitions; all edges in the thorough tier"""
    def make(run_model, tier, seed):
        got, generated, distinct = run_model(f"{name}.tla", f"{cfg}.cfg", {"TIER": tier})
        rng = random.Random(f"{name}/{seed}")
        scenes = {g["scene"]: g for g in got if "scene" in g}
        edges = {k: {} for k in scenes}
        for g in got:
            if "s" in g: edges[g["s"]][(g["a"], json.dumps(g["st"], sort_keys=True))] = (g["a"], g["b"], g["st"])
        walks = [(k, w) for k in sorted(scenes) for w in tours(scenes[k]["root"], [edges[k][e] for e in sorted(edges[k])], length, rng)]
        total = len(walks)
        n = None if os.environ.get("ALL") else (limit or {}).get(tier)
        if n and n < total: walks = rng.sample(walks, n)
        docs = {k: rendered(scenes[k]["doc"]) for k in scenes}
        scens = []
        for i, (k, w) in enumerate(walks):
            s = scenario(f"{cfg}-{k}-{i}", docs[k], rested(w) if rest else w, **kw)
            s["kind"] = cfg
            scens.append(s)
        return scens, {"model": cfg, "generated": generated, "distinct": distinct, "behaviours": total, "replayed": len(scens)}
    return make
