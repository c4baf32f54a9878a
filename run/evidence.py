"""evidence/<property>.json: what a run has actually covered."""
import json, os

def write(root, prop, tier, seed, conf, models, ran, steps, nodes, msgs, states, violations, other, secs):
    kinds = {}
    for s in ran:
        kinds[s.get("kind", "random")] = kinds.get(s.get("kind", "random"), 0) + 1
    samples = []
    for s in ran[:1] + ran[-1:]:
        samples.append({"id": s["id"], "html": s["html"][:1500], "css": s["css"][:1500],
                        "steps": json.dumps([{k: v for k, v in st.items()} for st in s["steps"][:2]])[:1500]})
    distinct = len({json.dumps([s["html"], s["css"], s["steps"]], sort_keys=True) for s in ran})
    coverage = {
        "states": states + sum(m["distinct"] for m in models),
        "transitions": steps + sum(m["generated"] for m in models),
        "traces_validated_against_impl": len(ran),
        "distinct_scenarios": distinct,
        "scenarios_by_origin": kinds,
        "updates_compared": steps,
        "nodes_compared": nodes,
        "messages_compared": msgs,
        "categories_decided": sorted(conf["cats"]),
        "models": models,
        "differences_in_other_categories": other,
        "samples": samples,
    }
    out = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
        "assumptions": [
            "TLC evaluates the specification in /verif/spec correctly",
            "the harness records what View::body(), get_element_by_id and update() expose, and the recorded "
            "values of f32 are compared in thousandths with the tolerance of the scenario",
            "the layout of flex and other non-block boxes is computed by taffy and is checked only for composition "
            "and against a fresh layout",
            "behaviours outside of the bounds given in DESIGN.md are not covered",
        ],
        "wall_s": round(secs, 2), "violations": len(violations),
    }
    path = os.path.join(root, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(out, f, indent=1)
