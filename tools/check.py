"""check.py <property>: decides one property on /repo's working tree.

Exit 0: it held on everything explored. Exit 1 with a VIOLATION line: it is broken. Exit 2: no answer."""
import json
import os
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa
import accept  # noqa
import api  # noqa
import derive  # noqa
import known  # noqa
import macros  # noqa
import scripts  # noqa
from common import ToolError  # noqa

# property -> domains (name, keyword arguments)
PLAN = {
    "C01": [(derive.run, {})],
    "C02": [(derive.run, {})],
    "C03": [(derive.run, {})],
    "C04": [(derive.run, {}), (scripts.run, {}), (api.run, {})],
    "C05": [(derive.run, {}), (scripts.run, {})],
    "C06": [(derive.run, {}), (scripts.run, {})],
    "C07": [(scripts.run, {})],
    "C08": [(derive.run, {}), (scripts.run, {})],
    "C09": [(derive.run, {})],
    "C10": [(derive.run, {}), (derive.run, {"defaults": False}), (scripts.run, {})],
    "C13": [(scripts.run, {}), (api.run, {})],
    "C14": [(scripts.run, {})],
    "C15": [(scripts.run, {}), (api.run, {})],
    "C11": [(api.run, {})],
    "C12": [(api.run, {})],
    "C16": [(derive.run, {}), (api.run, {})],
    "C17": [(accept.run, {})],
    "C18": [(macros.run, {})],
}

DERIVE_NOTE = ("Bounded: all programs of the systematic families plus seeded random programs built by the specification; the same "
               "invariants are checked on the specification. Trusts TLC, rustc, serde_json and the translation of programs to Rust.")
NOTES = {p: DERIVE_NOTE for p in PLAN}


def write_replay(prop, n, v):
    cid, why, case, source, obs = v
    path = os.path.join(common.workdir("replay"), "%s-%d.json" % (prop, n))
    common.dump(path, {"property": prop, "id": cid, "reason": why, "case": case, "source": source, "observed": obs})
    return path


def main():
    prop = sys.argv[1]
    tier, seed = common.TIER, common.SEED
    t0 = time.time()
    results = []
    for fn, kw in PLAN[prop]:
        results.append(fn(prop, tier, seed, **kw))
    violations = [v for r in results for v in r["violations"]]
    for line in known.lines(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    for n, v in enumerate(violations[:5]):
        print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, n, v)))
        print("  %s: %s" % (v[0], v[1][:600]))
    if len(violations) > 5:
        print("  ... and %d more" % (len(violations) - 5))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "samples": [r["sample"] for r in results if r.get("sample")],
            "domains": {r["domain"]: {k: r[k] for k in ("states", "transitions", "traces", "note")} for r in results},
        },
        "assumptions": ["the specification's account of serde is checked against serde on the same samples in every run",
                        "bounds: the systematic families and random programs counted above"],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    common.dump(os.path.join(common.VERIF, "evidence", prop + ".json"), evidence)
    if violations:
        return 1
    print("property=%s held on %d traces (%s)" % (prop, evidence["coverage"]["traces_validated_against_impl"], tier))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except (ToolError, subprocess.TimeoutExpired) as ex:
        print("no answer: %s" % ex)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
