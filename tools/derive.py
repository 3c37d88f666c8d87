"""Domain "derive": programs of declarations, described by the derive macro and the builtin impls."""
import json
import os
import re

import common
import rust_derive
from common import ToolError, log

FAMILIES = ["names", "required", "enums", "repr", "params", "builtin", "graph", "order", "generic", "misc", "text", "large", "typenames", "pairs"]
THOROUGH = ["triples"]


parallel = common.parallel


def family(name):
    path = os.path.join(common.workdir("families"), name + ".json")
    common.tlc_ok("GenFamilies", "GenFamilies.cfg", env={"FAMILY": name, "OUT": path}, workers=1)
    return [("%s_%04d" % (name, i), c) for i, c in enumerate(json.load(open(path)))]


def random_programs(count, seed):
    """Behaviours of OpgBuilder.tla; its invariant checks the properties on the specification."""
    out = common.tlc_ok("OpgBuilder", "OpgBuilder.cfg", workers=1,
                        args=["-simulate", "num=%d" % count, "-depth", "300", "-seed", str(seed)])
    progs = sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')})
    states = common.tlc_counts(out)[0]
    return [("random_%s_%04d" % (str(seed).replace("-", "m"), i), json.loads(p)) for i, p in enumerate(progs)], states


def corpus(tier, seed, families=None, nrandom=None):
    """[(id, case)], number of states TLC went through to generate it"""
    seeds = [seed, seed + 1000] if tier == "quick" else [seed * 100 + i for i in range(16)]
    nrandom = nrandom or (300 if tier == "quick" else 1500)
    jobs = [lambda f=f: (family(f), 0) for f in (families or FAMILIES + (THOROUGH if tier == "thorough" else []))] + [lambda s=s: random_programs(nrandom, s) for s in seeds]
    parts = parallel(jobs, common.CORES)
    return [x for p, _ in parts for x in p], sum(s for _, s in parts)


def tag_obs(o):
    t = common.tag

    def fn(m):
        return {k: t(v) for k, v in m.items()}

    return {"refs": [t(r) for r in o["refs"]], "snaps": [fn(s) for s in o["snaps"]], "verify": o["verify"],
            "wires": [[t(w) for w in ws] for ws in o["wires"]], "twice": o["twice"], "again": o["again"],
            "rev": fn(o["rev"]), "rev_refs": [t(r) for r in o["rev_refs"]], "fresh": fn(o["fresh"]), "own": fn(o["own"])}


def judge(prop, cases, obs):
    """id -> reasons, as TLC sees it; also checks the specification of serde and the properties on the specification"""
    out, states, trans = common.tlc_judge("CheckDerive", prop, ({"id": i, "c": cases[i], "o": tag_obs(o), "wire": True} for i, o in obs.items()))
    fails, wire = {}, []
    for line in out.splitlines():
        m = re.match(r'"(FAIL|WIRE|SPEC) (\S+) ?(.*)"$', line)
        if m and m.group(1) == "FAIL":
            fails[m.group(2)] = m.group(3).replace('\\"', "'")
        elif m and m.group(1) == "WIRE":
            wire.append(m.group(2))
        elif m:
            raise ToolError("the property fails on the specification itself: %s %s" % (m.group(2), m.group(3)))
    if wire:
        raise ToolError("serde does not write what OpgWire.tla says: %s" % wire[:5])
    return fails, states, trans


def has_array(t):
    return t["t"] == "Array" or any(has_array(x) for x in t["a"])


def portions(cases, size):
    """cases in portions that are built and judged at once, by the number of declarations"""
    part, n = {}, 0
    for cid, c in cases:
        part[cid] = c
        n += 1 + len(c["decls"]) // 3
        if n >= size:
            yield part
            part, n = {}, 0
    if part:
        yield part


def run(prop, tier, seed, families=None, nrandom=None, defaults=True):
    """defaults=False: arrays of opg without its default feature const_generics"""
    if defaults:
        cases, gen_states = corpus(tier, seed, families, nrandom)
    else:
        cases = [(i, c) for i, c in family("builtin") if any(has_array(r["ty"]) and not rust_derive.has_big_array(r["ty"]) and r["ty"]["n"] != "0" for r in c["roots"])]
        gen_states = 0
    violations, states, trans, judged, sample = [], gen_states, gen_states, 0, None
    for part in portions(cases, 14000):
        prog = common.Program("derive", defaults=defaults)
        for cid, c in part.items():
            prog.add(cid, rust_derive.case_source(c, cid))
        res = prog.build_and_run()
        ok = {}
        for cid, o in sorted(res.items()):
            if "uncompilable" in o:
                violations.append((cid, "a supported declaration does not compile: " + o["uncompilable"], part[cid], prog.cases[cid], None))
            elif "crash" in o:
                violations.append((cid, "describing the type ends in: " + o["crash"], part[cid], prog.cases[cid], None))
            else:
                ok[cid] = o
        fails, s, t = judge(prop, part, ok) if ok else ({}, 0, 0)
        states, trans, judged = states + s, trans + t, judged + len(ok)
        for cid, why in sorted(fails.items()):
            violations.append((cid, why, part[cid], prog.cases[cid], ok[cid]))
        sample_id = sorted(ok)[len(ok) // 3] if ok else None
        sample = ok and {"case": sample_id, "roots": part[sample_id]["roots"], "observed": ok[sample_id]["snaps"][-1]}
    return {"domain": "derive" if defaults else "derive (no default features)", "violations": violations, "states": states, "transitions": trans,
            "traces": judged, "sample": sample, "note": "%d programs (%s systematic families, random ones of OpgBuilder)" % (
                len(cases), len(families or FAMILIES + (THOROUGH if tier == "thorough" else [])))}
