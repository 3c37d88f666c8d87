"""Domain "api": API descriptions, written with the describe_api macro and judged by OpgApiProps.tla."""
import json
import os
import re

import common
import derive
import rust_api
import scripts
from common import ToolError


def systematic():
    path = os.path.join(common.workdir("families"), "api.json")
    common.tlc_ok("GenApi", "GenApi.cfg", env={"OUT": path}, workers=1)
    return [("api_%04d" % i, c) for i, c in enumerate(json.load(open(path)))], 0


def random_programs(count, seed):
    out = common.tlc_ok("OpgApiBuilder", "OpgApiBuilder.cfg", workers=1,
                        args=["-simulate", "num=%d" % count, "-depth", "400", "-seed", str(seed)])
    progs = sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')})
    return [("apirandom_%s_%04d" % (str(seed).replace("-", "m"), i), json.loads(p)) for i, p in enumerate(progs)], common.tlc_counts(out)[0]


def tag_obs(o):
    return dict(scripts.doc_obs(o["text"], o["yaml"]), twice=o["twice"], verify=o["verify"], rev=common.tag(o.get("rev")))


def judge(prop, cases, obs):
    out, states, trans = common.tlc_judge("CheckApi", prop, ({"id": i, "c": cases[i], "o": tag_obs(o)} for i, o in obs.items()))
    fails = {}
    for line in out.splitlines():
        m = re.match(r'"(FAIL|SPEC) (\S+) ?(.*)"$', line)
        if m and m.group(1) == "FAIL":
            fails[m.group(2)] = m.group(3).replace('\\"', "'")
        elif m:
            raise ToolError("the property fails on the specification itself: %s %s" % (m.group(2), m.group(3)))
    return fails, states, trans


def run(prop, tier, seed):
    seeds = [seed, seed + 1000] if tier == "quick" else [seed * 100 + i for i in range(8)]
    n = 300 if tier == "quick" else 600
    parts = derive.parallel([systematic] + [lambda s=s: random_programs(n, s) for s in seeds], common.CORES)
    cases = [x for p, _ in parts for x in p]
    states = trans = sum(s for _, s in parts)
    violations, judged, sample = [], 0, None
    step = 1000
    for k in range(0, len(cases), step):
        part = dict(cases[k:k + step])
        prog = common.Program("api", prelude="#![recursion_limit = \"2048\"]\n" + rust_api.types_source(cases[0][1]["decls"]))
        for cid, c in part.items():
            prog.add(cid, rust_api.case_source(c, cid, prop == "C16"))
        res = prog.build_and_run()
        ok = {}
        for cid, o in sorted(res.items()):
            if "uncompilable" in o:
                violations.append((cid, "a supported description does not compile: " + o["uncompilable"], part[cid], prog.cases[cid], None))
            elif "crash" in o:
                violations.append((cid, "the description ends in: " + o["crash"], part[cid], prog.cases[cid], None))
            else:
                ok[cid] = o
        fails, s, t = judge(prop, part, ok) if ok else ({}, 0, 0)
        states, trans, judged = states + s, trans + t, judged + len(ok)
        for cid, why in sorted(fails.items()):
            violations.append((cid, why, part[cid], prog.cases[cid], ok[cid]))
        if ok and not sample:
            cid = sorted(ok)[len(ok) // 2]
            sample = {"case": cid, "observed": json.loads(ok[cid]["text"])}
    return {"domain": "api", "violations": violations, "states": states, "transitions": trans, "traces": judged,
            "sample": sample, "note": "%d API descriptions (systematic families, random ones of OpgApiBuilder)" % len(cases)}
