"""The defects of known_findings.txt: whether each is still there, shown by its program in tools/known and judged by CheckKnown.tla."""
import os
import re

import common

HEAD = """#![allow(unused_imports)]
use opg::*;
use serde::Serialize;
use support::{js, json, schemas, Value};
fn observe<T: OpgModel>(wires: Value) -> Value {
    let mut cx = Components::default();
    let r = support::mention_plain::<T>(&mut cx);
    json!({ "ref": js(&r), "schemas": schemas(&cx), "wires": wires })
}
"""


def lines(prop):
    """What to say about the findings of the property that are still there"""
    found = [k for k in common.known_findings() if k["property"] == prop]
    if not found:
        return []
    prog = common.Program("known")
    for k in found:
        with open(os.path.join(common.VERIF, "tools", "known", k["id"] + ".rs")) as f:
            prog.add(k["id"], HEAD.replace("#![allow(unused_imports)]\n", "") + f.read())
    res = prog.build_and_run()
    t = common.tag
    obs = []
    for k in found:
        o = res[k["id"]]
        if "doc" in o:
            obs.append({"id": k["id"], "judge": k["judge"], "o": {"doc": t(o["doc"])}})
        elif "ref" in o:
            obs.append({"id": k["id"], "judge": k["judge"], "o": {
                "ref": t(o["ref"]), "schemas": {n: t(s) for n, s in o["schemas"].items()}, "wires": [t(w) for w in o["wires"]]}})
    if not obs:
        return []
    path = os.path.join(common.workdir("obs"), "known-%s.json" % prop)
    common.dump(path, obs)
    out = common.tlc_ok("CheckKnown", "CheckKnown.cfg", env={"OBS": path})
    os.remove(path)
    there = set(re.findall(r'"THERE (\w+)"', out))
    return ["%s: %s" % (k["id"], k["what"]) for k in found if k["id"] in there]
