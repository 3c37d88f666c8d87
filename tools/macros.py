"""Domain "macros": schemas spelled out with describe_type and impl_opg_model, judged by OpgMacro.tla."""
import json
import os
import re

import common
import derive
import rust_derive
from rust_derive import lit

# the user's own types that stand for the builtin ones
OWN = {"i32": "Int", "String": "Text", "f64": "Real", "bool": "Flag", "Box": "Own", "Option": "Maybe", "Vec": "Many", "HashMap": "Dict"}
PRELUDE = """
pub mod own {
    use opg::OpgModel;
    pub struct Int; pub struct Text; pub struct Real; pub struct Flag;
    pub struct Own<T: ?Sized>(Box<T>);
    pub struct Maybe<T>(T);
    pub struct Many<T>(T);
    pub struct Dict<K, T>(K, T);
    opg::impl_opg_model!(integer(always_inline, "int32"): Int);
    opg::impl_opg_model!(string(always_inline): Text);
    opg::impl_opg_model!(number(always_inline, "double"): Real);
    opg::impl_opg_model!(boolean(always_inline): Flag);
    opg::impl_opg_model!(generic_simple(?Sized): Own<T>);
    opg::impl_opg_model!(generic_simple(nullable): Maybe<T>);
    opg::impl_opg_model!(generic_array: Many<T>);
    opg::impl_opg_model!(generic_dictionary: Dict<K, T>);
    pub struct RegText; pub struct RegReal; pub mod deep { pub struct RegInt; pub struct RegFlag; }
    opg::impl_opg_model!(string: RegText);
    opg::impl_opg_model!(number("own format"): RegReal);
    opg::impl_opg_model!(integer("int9"): deep::RegInt);
    opg::impl_opg_model!(boolean: self::deep::RegFlag);
    pub use deep::*;
    #[derive(OpgModel)] pub struct Obj { pub a: Int, pub b: Maybe<Own<Obj>>, pub c: Many<Text> }
    #[derive(OpgModel)] #[opg(inline)] pub struct Inl { pub q: Dict<String, Maybe<Int>> }
}
"""


class Form:
    def __init__(self, key):
        self.h = int(common.sha(key)[:8], 16)
        self.lets = []

    def roll(self, n):
        self.h = (self.h * 1103515245 + 12345) & 0x7fffffff
        return (self.h >> 8) % n

    def local(self, value):
        names = ["properties", "required", "items", "model"]
        n = names[len(self.lets)] if len(self.lets) < len(names) else "local_%d" % len(self.lets)
        self.lets.append("let %s = %s;" % (n, value))
        return n

    def members(self, f, names):
        out = []
        for n in names:
            if f.get(n):
                v = f[n][0]
                out.append("%s: %s" % (n if n != "d" else "description", v if v == "42" and self.roll(2) else lit(v)))
        return out

    def form(self, f):
        k = f["k"]
        if k == "link":
            return "link => " + (lit(f["n"]) if f["lit"] else self.local(lit(f["n"])))
        if k == "raw_model":
            return "raw_model => " + self.local("support::decode::model(&support::json!(%s))" % json.dumps(f["m"]))
        if k == "raw_type":
            x = self.local("support::decode::data(&support::json!(%s))" % json.dumps(f["data"]))
            return "raw_type => {\n%s\nident: %s\n}" % ("\n".join(self.members(f, ["d"])), x)
        ms = self.members(f, ["d", "format", "example"])
        if k == "string" and f["variants"]:
            ms.append("variants: [%s]" % ", ".join(lit(v) for v in f["variants"][0]))
        if k == "array":
            ms.append("items: (%s)" % self.form(f["items"]))
        if k == "object":
            ms.append("properties: {\n%s\n}" % "\n".join(
                "%s%s: (%s)" % (p["n"], "[required]" if p["req"] else "", self.form(p["v"])) for p in f["props"]))
        return "%s => {\n%s\n}" % (k, "\n".join(ms))

    def source(self, f):
        """The form on its own, and as the body of a type's implementation; with and without opg's names in scope"""
        text = self.form(f)
        lets = "\n".join(self.lets)
        at = "" if self.roll(2) else "opg::"
        return ("%spub struct Hand;\nimpl opg::OpgModel for Hand {\nfn get_schema(_: &mut opg::Components) -> opg::Model {\n%s\n%sdescribe_type!(%s)\n}\n"
                "fn type_name() -> Option<std::borrow::Cow<'static, str>> { Some(\"Hand\".into()) }\n}\n"
                "pub fn run() -> support::Value {\n%s\nlet made = %sdescribe_type!(%s);\nlet mut cx = opg::Components::new();\n"
                "let linked = cx.mention_schema::<Vec<Hand>>(false, &Default::default());\nlet inlined = cx.mention_schema::<Box<Hand>>(true, &Default::default());\n"
                "support::json!({ \"model\": support::js(&made), \"linked\": support::js(&linked), \"inlined\": support::js(&inlined), \"schemas\": support::js(&cx.schemas) })\n}\n"
                % ("" if at else "use opg::*;\n", lets, at, text, lets, at, text))


def own_ty(t):
    a = t["a"]
    if t["t"] == "decl":
        return t["n"]
    n = OWN.get(t["t"])
    if not n:
        return rust_derive.ty(t, False, {})
    return n + ("<%s%s>" % ("u8, " if n == "Dict" else "", own_ty(a[0])) if a else "")


def own_source(c):
    roots = []
    for r in c["roots"]:
        p = r["p"]
        roots.append("|cx| cx.mention_schema::<%s>(%s, &support::params(%s, %s, %s, %s))" % (
            own_ty(r["ty"]), "true" if r["inline"] else "false", rust_derive.opt_str(p["d"]),
            ("Some(%s)" % str(p["nullable"][0]).lower()) if p["nullable"] else "None", rust_derive.opt_str(p["format"]), rust_derive.opt_str(p["example"])))
    return "use crate::own::*;\npub fn run() -> support::Value {\nsupport::observe(&[%s], &[], vec![support::json!([])])\n}\n" % ", ".join(roots)


def systematic():
    path = os.path.join(common.workdir("families"), "macros.json")
    common.tlc_ok("GenMacro", "GenMacro.cfg", env={"OUT": path}, workers=1)
    x = json.load(open(path))
    return [("form_%04d" % i, c) for i, c in enumerate(x["forms"])] + [("own_%04d" % i, c) for i, c in enumerate(x["own"])], 0


def random_forms(count, seed):
    out = common.tlc_ok("OpgMacroBuilder", "OpgMacroBuilder.cfg", workers=1, args=["-simulate", "num=%d" % count, "-depth", "60", "-seed", str(seed)])
    fs = sorted({json.loads(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')})
    return [("formrandom_%d_%04d" % (seed, i), json.loads(f)) for i, f in enumerate(fs)], common.tlc_counts(out)[0]


def judge(prop, cases, obs):
    out, states, trans = common.tlc_judge("CheckMacro", prop, ({"id": i, "c": cases[i], "o": derive.tag_obs(o) if "refs" in o else {k: common.tag(o[k]) for k in ("model", "linked", "inlined", "schemas")}} for i, o in obs.items()))
    fails = {}
    for line in out.splitlines():
        m = re.match(r'"FAIL (\S+) ?(.*)"$', line)
        if m:
            fails[m.group(1)] = m.group(2).replace('\\"', "'")
    return fails, states, trans


def run(prop, tier, seed):
    seeds = [seed] if tier == "quick" else [seed * 100 + i for i in range(8)]
    parts = derive.parallel([systematic] + [lambda s=s: random_forms(300 if tier == "quick" else 500, s) for s in seeds], common.CORES)
    cases = [x for p, _ in parts for x in p]
    states = trans = sum(s for _, s in parts)
    prog = common.Program("macros", prelude="#![recursion_limit = \"1024\"]\n" + PRELUDE)
    cases = dict(cases)
    for cid, c in cases.items():
        prog.add(cid, own_source(c) if "roots" in c else Form(cid).source(c))
    violations, ok = [], {}
    for cid, o in sorted(prog.build_and_run().items()):
        if "uncompilable" in o:
            violations.append((cid, "a supported description does not compile: " + o["uncompilable"], cases[cid], prog.cases[cid], None))
        elif "crash" in o:
            violations.append((cid, "the description ends in: " + o["crash"], cases[cid], prog.cases[cid], None))
        else:
            ok[cid] = o
    fails, s, t = judge(prop, cases, ok) if ok else ({}, 0, 0)
    for cid, why in sorted(fails.items()):
        violations.append((cid, why, cases[cid], prog.cases[cid], ok[cid]))
    cid = sorted(ok)[len(ok) // 2] if ok else None
    return {"domain": "macros", "violations": violations, "states": states + s, "transitions": trans + t, "traces": len(ok),
            "sample": {"case": cid, "observed": ok.get(cid)}, "note": "%d descriptions (systematic, random ones of OpgMacroBuilder)" % len(cases)}
