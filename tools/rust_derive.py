"""Derive cases (OpgCases.tla) as Rust source."""
import json
import re

from common import sha

PRIMS = {"unit": "()", "Uuid": "uuid::Uuid", "NaiveDateTime": "chrono::NaiveDateTime",
         "DateTime": "chrono::DateTime<chrono::Utc>", "NaiveDate": "chrono::NaiveDate"}
STD = {"Box": "Box", "Rc": "std::rc::Rc", "Arc": "std::sync::Arc", "Cell": "std::cell::Cell", "RefCell": "std::cell::RefCell",
       "Option": "Option", "Vec": "Vec", "HashSet": "std::collections::HashSet", "LinkedList": "std::collections::LinkedList",
       "VecDeque": "std::collections::VecDeque", "BinaryHeap": "std::collections::BinaryHeap"}


KEYWORDS = {"type", "match", "fn", "enum", "struct", "use", "impl", "async", "dyn", "box", "yield", "abstract"}


def raw(n):
    """the identifier a type is declared under"""
    return "r#" + n if n in KEYWORDS else n


def ty(t, lt, env):
    k, a = t["t"], t["a"]
    if k == "decl":
        args = (["'static" if not lt else "'a"] if env[t["n"]]["lt"] else []) + [ty(x, lt, env) for x in a]
        return raw(t["n"]) + ("<%s>" % ", ".join(args) if args else "")
    if k == "param":
        return t["n"]
    if k in ("ref", "refmut"):
        return "&%s %s%s" % ("'a" if lt else "'static", "mut " if k == "refmut" else "", ty(a[0], lt, env))
    if k == "Slice":
        return "[%s]" % ty(a[0], lt, env)
    if k == "Array":
        return "[%s; %s]" % (ty(a[0], lt, env), t["n"])
    if k == "Tuple":
        return "(%s,)" % ", ".join(ty(x, lt, env) for x in a)
    if k in ("HashMap", "BTreeMap"):
        return "std::collections::%s<String, %s>" % (k, ty(a[0], lt, env))
    if k == "BTreeMapU32":
        return "std::collections::BTreeMap<u32, %s>" % ty(a[0], lt, env)
    if k in STD:
        return "%s<%s>" % (STD[k], ty(a[0], lt, env))
    if k.startswith("Atomic"):
        return "std::sync::atomic::" + k
    return PRIMS.get(k, k)


def lit(s):
    return json.dumps(s, ensure_ascii=False)


def has_big_array(t):
    return (t["t"] == "Array" and int(t["n"]) > 32) or any(has_big_array(x) for x in t["a"])


def rename_attr(r):
    if not r:
        return []
    r = r[0]
    return [{"eq": "rename = %s", "ser": "rename(serialize = %s)", "de": "rename(deserialize = %s)",
             "both": "rename(deserialize = \"other_name\", serialize = %s)"}[r["form"]] % lit(r["to"])]


def rename_all_attr(x, attr="rename_all", form="ra_form", rule="rename_all"):
    form, rule = x[form], x[rule]
    if form == "de":
        return ['%s(deserialize = "UPPERCASE")' % attr]
    if rule == "none":
        return []
    return [{"eq": "%s = %s", "ser": "%s(serialize = %s)", "both": "%s(serialize = %s, deserialize = \"lowercase\")"}[form] % (attr, lit(rule))]


def opg_common(x):
    res = []
    if x["desc"]:
        res.append(lit(x["desc"][0]))
    if x["format"]:
        res.append("format = " + lit(x["format"][0]))
    if x["example"]:
        e = x["example"][0]
        res.append("example = " + lit(e["v"]) if e["k"] == "lit" else "example_with = " + lit(e["src"]))
    if x["inline"]:
        res.append("inline")
    if x.get("nullable"):
        res.append("nullable")
    return res


# the two directions of a renaming, in one order or the other
BOTH = r'^(\w+)\((\w+ = "(?:[^"\\]|\\.)*"), (\w+ = "(?:[^"\\]|\\.)*")\)$'


class Style:
    """How attributes are written down: joined or split, in which order, with unrelated ones around."""

    def __init__(self, key):
        self.h = int(sha(key)[:8], 16)

    def write(self, serde, opg, extra="", noise=()):
        """noise: attributes of serde that do not change what is written"""
        h = self.h
        serde = serde + [n for i, n in enumerate(noise) if h >> (9 + 2 * i) & 3 == 0]
        self.h = (self.h * 1103515245 + 12345) & 0x7fffffff
        if h & 128:
            serde = [re.sub(BOTH, r"\1(\3, \2)", x) for x in serde]
        if h & 1:
            opg = opg[::-1]
        if h & 2:
            serde = serde[::-1]
        out = []
        if serde:
            out += ["#[serde(%s)]" % s for s in serde] if h & 4 else ["#[serde(%s)]" % ", ".join(serde)]
        if opg:
            out += ["#[opg(%s)]" % s for s in opg] if h & 8 else ["#[opg(%s)]" % ", ".join(opg)]
        if h & 16:
            out = out[::-1]
        if h & 32:
            out.insert(0, "/// Unrelated documentation")
        if h & 64:
            out.append("#[allow(dead_code)]")
        return "".join(o + "\n" for o in out) + extra


def field_attrs(f, style, override=None):
    serde = rename_attr(f["rename"])
    if f["skip"]:
        serde.append(f["skip"])
    if f["skipif"]:
        serde.append("skip_serializing_if = \"%s\"" % {"Option": "Option::is_none", "Vec": "Vec::is_empty", "String": "String::is_empty"}[f["ty"]["t"]])
    ety = f["ety"][0] if f["ety"] else None
    wire = override or ety
    if wire and not f["skip"] in ("skip", "skip_serializing"):
        serde.append("serialize_with = \"support::ov_%s\"" % wire)
    opg = opg_common(f)
    if ety:
        opg.append(ety)
    if f["optional"]:
        opg.append("optional")
    noise = ['alias = "other_%s"' % f["name"].replace("r#", ""), "default"] if f["name"] and not f["skip"] else []
    return style.write(serde, opg, noise=noise)


LONG = {"Option": "::std::option::Option", "Vec": "std::vec::Vec", "Box": "::std::boxed::Box", "String": "::std::string::String"}


def respell(t, style, me):
    """the same type, written another way now and then"""
    h = style.h >> 5
    if h % 3 == 0:
        t = re.sub(r"(?<![:\w#])(Option|Vec|Box|String)(?!\w)", lambda m: LONG[m.group(1)], t)
    if h % 5 < 2 and me:
        t = re.sub(r"(?<![:\w#])%s(?![\w<])" % re.escape(me), "Self" if h % 5 == 0 else "self::" + me, t)
    return "(%s)" % t if h % 7 == 0 else t


def fields_decl(kind, fields, lt, env, style, vis, override=None, me=None):
    items = []
    for f in fields:
        t = respell(ty(f["ty"], lt, env), style, me)
        a = field_attrs(f, style, override)
        items.append(a + (vis + f["name"] + ": " if kind == "struct" else vis) + t)
    return items


def sample_fields(kind, fields, lt, env, path, jvar):
    vals = []
    for i, f in enumerate(fields):
        v = "s(%s + %d, f)" % (jvar, i)
        vals.append((f["name"] + ": " if kind == "struct" else "") + v)
    if kind == "struct":
        return "%s { %s }" % (path, ", ".join(vals))
    return "%s(%s)" % (path, ", ".join(vals)) if vals or kind != "unit" else path


def decl_source(d, env, key):
    style = Style(key + d["name"])
    name = raw(d["name"])
    me = None if d["params"] or d["lt"] else name
    c, lt = d["c"], d["lt"]
    serde = rename_all_attr(c)
    if d["kind"] == "enum":
        serde += rename_all_attr(c, "rename_all_fields", "raf_form", "raf")
    serde += rename_attr(c["rename"])
    if c["tag"]:
        serde.append("tag = " + lit(c["tag"][0]))
    if c["content"]:
        serde.append("content = " + lit(c["content"][0]))
    for w in ("untagged", "transparent"):
        if c[w]:
            serde.append(w)
    opaque = c["ty"] and not (c["transparent"] or d["kind"] == "newtype")
    if opaque:          # such a type has a serializer of its own
        serde.append('remote = "Self"')
    serde += c.get("raw_serde", [])
    opg = opg_common(c)
    if c["ty"]:
        opg.append(c["ty"][0])
    params = (["'a"] if lt else []) + list(d["params"])
    gen = "<%s>" % ", ".join(params) if params else ""
    derive = "#[derive(%s, OpgModel)]\n" % ("serde_repr::Serialize_repr" if c["repr"] else "Serialize")
    if c["repr"]:           # serde_repr writes numbers and reads no serde attributes, opg does
        derive = "#[derive(serde_repr::Serialize_repr, serde::Deserialize, OpgModel)]\n"
    out = derive + style.write(serde, opg, noise=() if c["repr"] or c["untagged"] or c["transparent"] else ("deny_unknown_fields",))
    if c["repr"]:
        out += "#[repr(%s)]\n" % c["repr"][0]
    kind = d["kind"]
    override = c["ty"][0] if c["ty"] and not opaque else None
    if kind == "enum":
        vs = []
        for v in d["variants"]:
            vserde = rename_attr(v["rename"]) + rename_all_attr(v)
            if v["skip"]:
                vserde.append(v["skip"])
            text = style.write(vserde, opg_common(v) + v.get("ety", []), noise=() if c["repr"] else ['alias = "Other%s"' % v["name"]]) + v["name"]
            own = v["ety"][0] if v.get("ety") and v["style"] == "newtype" and not v["fields"][0]["ety"] else None
            items = fields_decl(v["style"], v["fields"], lt, env, style, "", own, me)
            if v["style"] == "struct":
                text += " { %s }" % ", ".join(items)
            elif v["style"] != "unit":
                text += "(%s)" % ", ".join(items)
            if v["disc"]:
                text += " = " + v["disc"][0]["src"]
            vs.append(text)
        out += "pub enum %s%s {\n%s\n}\n" % (name, gen, ",\n".join(vs))
    else:
        items = fields_decl(kind, d["fields"], lt, env, style, "pub ", override, me)
        if kind == "struct":
            out += "pub struct %s%s {\n%s\n}\n" % (name, gen, ",\n".join(items))
        else:
            out += "pub struct %s%s(%s);\n" % (name, gen, ", ".join(items))
    if opaque:
        out += "impl%s Serialize for %s%s {\nfn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { support::ov_%s(self, s) }\n}\n" % (gen, name, gen, c["ty"][0])
    # samples
    bounds = ", ".join("%s: Sample + 'static" % p for p in d["params"])
    self_args = (["'static"] if lt else []) + list(d["params"])
    out += "impl%s Sample for %s%s {\nfn sample(j: usize, f: usize) -> Self {\nlet f = less(f); let _ = (j, f);\n" % (
        "<%s>" % bounds if bounds else "", name, "<%s>" % ", ".join(self_args) if self_args else "")
    if kind == "enum":
        kept = [v for v in d["variants"] if v["skip"] not in ("skip", "skip_serializing")]
        out += "let k = j / %d; let _ = k;\nmatch j %% %d {\n" % (len(kept), len(kept))
        for i, v in enumerate(kept):
            pat = "%d" % i if i + 1 < len(kept) else "_"
            out += "%s => %s,\n" % (pat, sample_fields(v["style"], v["fields"], lt, env, name + "::" + v["name"], "k") if v["style"] != "unit" else name + "::" + v["name"])
        out += "}\n"
    else:
        out += sample_fields(kind, d["fields"], lt, env, name, "j") + "\n"
    out += "}\n}\n"
    return out


def opt_str(o):
    return "Some(%s)" % lit(o[0]) if o else "None"


def case_source(c, key):
    env = {d["name"]: d for d in c["decls"]}
    out = "use opg::*;\nuse serde::Serialize;\nuse support::{s, less, Sample, Value};\n\n"
    for d in c["decls"]:
        out += c.get("raw", {}).get(d["name"]) or decl_source(d, env, key)
    roots, wires = [], []
    for r in c["roots"]:
        t = ty(r["ty"], False, env)
        p = r["p"]
        roots.append("|cx| cx.mention_schema::<%s>(%s, &support::params(%s, %s, %s, %s))" % (
            t, "true" if r["inline"] else "false", opt_str(p["d"]), ("Some(%s)" % str(p["nullable"][0]).lower()) if p["nullable"] else "None",
            opt_str(p["format"]), opt_str(p["example"])))
        wires.append("support::json!([])" if has_big_array(r["ty"]) else "support::wires::<%s>()" % t)
    decls = []
    for d in c["decls"]:
        if not d["params"] and not d["c"]["inline"]:
            t = raw(d["name"]) + ("<'static>" if d["lt"] else "")
            decls.append('("%s", support::mention_plain::<%s>, <%s as OpgModel>::get_schema)' % (d["name"], t, t))
    out += "\npub fn run() -> Value {\nsupport::observe(&[%s], &[%s], vec![%s])\n}\n" % (
        ", ".join(roots), ", ".join(decls), ", ".join(wires))
    return out
