"""Writes evidence/<id>.json from what a run measured."""
import json, os

from . import core


def write(verif, prop, tier, seed, stats, nseeds, wall, violations):
    s = core.Stats()
    forks = 0
    for d in stats:
        s.merge({"n": d["stats"]["n"], "sets": d["stats"]["sets"], "samples": d["stats"]["samples"]})
        forks += d["forks"]
    n = dict(s.n)
    ev = n.pop("evaluations", 0)
    faults = {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(n.items()) if k.startswith("probe:")}
    simns = n.pop("sim_ns", 0)
    other = {k: v for k, v in sorted(n.items()) if not k.startswith(("fault:", "probe:"))}
    distinct = s.sets.pop("nontrivial", set())
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": len(distinct),
        "rule": prop.rule,
        "samples": s.samples or ["(run ended before a sample was recorded)"],
        "seeds": nseeds,
        "isolated_process_runs": forks,
        "seeds_per_hour": round(nseeds / wall * 3600) if wall > 0 else 0,
        "runs_per_hour": round(forks / wall * 3600) if wall > 0 else 0,
        "simulated_seconds": round(simns / 1e9, 3),
        "faults_fired": faults,
        "conditions_reached": probes,
        "counters": other,
        "distinct": {k: len(v) for k, v in sorted(s.sets.items())},
        "real_code": prop.real,
        "stubbed": prop.stub,
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", prop.id + ".json"), "w") as f:
        json.dump({"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": cov, "assumptions": getattr(prop, "assumptions", []),
                   "wall_s": round(wall, 2), "violations": violations}, f, indent=1, default=str)
        f.write("\n")
