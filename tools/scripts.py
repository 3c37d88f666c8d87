"""Domain "scripts": operations on registries, schema objects and documents, run by the interpreter of
harness/support/src/dynamic.rs and judged by OpgScripts.tla. Histories of the registry come from OpgRegistry.tla."""
import json
import os
import re

import common
import derive
from common import ToolError

FAMILIES = {
    "C04": [], "C05": ["names"], "C06": [], "C07": ["verify"], "C08": ["apply"], "C10": ["nullable"],
    "C13": ["scheme"], "C14": ["merge"], "C15": ["doc"],
}
RANDOM = {"C07": "verify", "C08": "apply", "C10": "nullable", "C14": "merge", "C15": "doc"}
RANDOM_NUM = {"quick": 250, "thorough": 3000}
REGISTRY = {"C04", "C05", "C06", "C07", "C08", "C10"}
UNIVERSES = {"quick": ["small", "overrides"], "thorough": ["small", "overrides", "three", "large", "four"]}
METHODS = {"get", "put", "post", "delete", "options", "head", "patch", "trace"}


def family(name):
    path = os.path.join(common.workdir("families"), "script-" + name + ".json")
    common.tlc_ok("GenScripts", "GenScripts.cfg", env={"FAMILY": name, "OUT": path}, workers=1)
    return [("%s_%05d" % (name, i), c) for i, c in enumerate(json.load(open(path)))], 0


def random_models(kind, num, seed):
    """Schema objects of any shape, built by random behaviours of OpgModelBuilder, which checks its invariants on them"""
    out = common.tlc_ok("OpgModelBuilder", "OpgModelBuilder.cfg", env={"KIND": kind}, workers=1,
                        args=["-simulate", "num=%d" % num, "-depth", "80", "-seed", str(seed)])
    cases = list(dict.fromkeys(json.loads(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')))
    return [("random%s_%s_%05d" % (kind, str(seed).replace("-", "m"), i), json.loads(c)) for i, c in enumerate(cases)], common.tlc_counts(out)[0]


def registry(universe, live):
    """All histories of a universe; TLC checks the machine's invariants on the way"""
    out = common.tlc_ok("OpgRegistry", "OpgRegistryLive.cfg" if live else "OpgRegistry.cfg", env={"UNIVERSE": universe})
    cases = sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')})
    return [("%s_%06d" % (universe, i), json.loads(c)) for i, c in enumerate(cases)], common.tlc_counts(out)[0]


# ------------------------------------------------------- documents as written

class Pairs(list):
    pass


def ordered(text):
    """JSON text -> (value, whether a member occurs twice), objects keep the order of their members"""
    dup = []

    def hook(pairs):
        d = dict(pairs)
        if len(d) != len(pairs):
            dup.append(1)
        return d

    return json.loads(text, parse_int=common.Num, parse_float=common.Num, object_pairs_hook=hook), bool(dup)


def orders(paths, at=""):
    res = [{"at": at, "keys": list(paths)}]
    for path, item in paths.items():
        for m, op in (item.items() if isinstance(item, dict) else []):
            if m in METHODS and isinstance(op, dict):
                for name, cb in (op.get("callbacks") or {}).items():
                    res += orders(cb, "%s%s %s %s " % (at, path, m, name))
    return [x for x in res if x["keys"]]


def doc_obs(text, yaml=True):
    doc, dup = ordered(text)
    return {"doc": common.tag(doc), "orders": orders(doc.get("paths") or {}), "dup": dup, "yaml": yaml}


def tag_obs(o):
    if "text" in o:
        return doc_obs(o["text"], o["yaml"])
    t = common.tag

    def fn(m):
        return {k: t(v) for k, v in m.items()}

    return {"steps": [{"ret": t(s["ret"]), "schemas": fn(s["schemas"]), "sec": fn(s["sec"]), "model": t(s["model"])} for s in o["steps"]]}


def judge(prop, cases, obs):
    out, states, trans = common.tlc_judge("CheckScripts", prop, ({"id": i, "c": cases[i], "o": tag_obs(o)} for i, o in obs.items()))
    fails = {}
    for line in out.splitlines():
        m = re.match(r'"(FAIL|SPEC) (\S+) ?(.*)"$', line)
        if m and m.group(1) == "FAIL":
            fails[m.group(2)] = m.group(3).replace('\\"', "'")
        elif m:
            raise ToolError("the property fails on the specification itself: %s %s" % (m.group(2), m.group(3)))
    return fails, states, trans


def run(prop, tier, seed):
    jobs = [lambda f=f: family(f) for f in FAMILIES[prop]]
    if prop in RANDOM:
        n = 1 if tier == "quick" else 4
        jobs += [lambda k=k: random_models(RANDOM[prop], RANDOM_NUM[tier] // n, seed + 7 * k) for k in range(n)]
    parts = derive.parallel(jobs, 4) if jobs else []
    if prop in REGISTRY:
        parts += [registry(u, u == "small" and prop == "C06") for u in UNIVERSES[tier]]
    cases = [x for p, _ in parts for x in p]
    states = trans = sum(s for _, s in parts)
    violations, judged, sample = [], 0, None
    step = 30000
    for k in range(0, len(cases), step):
        part = dict(cases[k:k + step])
        res = common.run_engine(list(part.items()))
        ok = {}
        for cid, o in sorted(res.items()):
            if "crash" in o:
                violations.append((cid, "the operations end in: " + o["crash"], part[cid], None, None))
            else:
                ok[cid] = o
        fails, s, t = judge(prop, part, ok) if ok else ({}, 0, 0)
        states, trans, judged = states + s, trans + t, judged + len(ok)
        for cid, why in sorted(fails.items()):
            violations.append((cid, why, part[cid], None, ok[cid]))
        if ok and not sample:
            cid = sorted(ok)[len(ok) // 2]
            sample = {"case": cid, "observed": json.loads(json.dumps(ok[cid]))}
    return {"domain": "scripts", "violations": violations, "states": states, "transitions": trans, "traces": judged,
            "sample": sample, "note": "%d scripts: %s%s%s" % (len(cases), " ".join(FAMILIES[prop]), " random schema objects of OpgModelBuilder" if prop in RANDOM else "",
                                                          " histories of OpgRegistry " + " ".join(UNIVERSES[tier]) if prop in REGISTRY else "")}
