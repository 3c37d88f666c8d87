"""API descriptions (OpgApi.tla) as Rust source."""
import rust_derive
from common import sha
from rust_derive import lit


class Api:
    """Writes one program; `h` varies what must not matter: forms of expressions, order of independent members, commas."""

    def __init__(self, prog, key):
        self.p = prog
        self.env = {d["name"]: d for d in prog["decls"]}
        self.h = int(sha(key)[:8], 16)
        self.lets = []

    def roll(self, n):
        self.h = (self.h * 1103515245 + 12345) & 0x7fffffff
        return (self.h >> 8) % n

    def ty(self, t):
        text = rust_derive.ty(t, False, self.env)
        if t["t"] == "decl":
            text = ["", "crate::api_types::", "super::api_types::", "self::"][self.roll(4)] + text
        elif t["t"] == "String":
            text = ["String", "std::string::String", "String"][self.roll(3)]
        return text

    def local(self, value):
        # names that the macro uses inside
        names = ["result", "description", "title", "context", "path", "version", "operation", "parameter", "name", "schema", "required", "security", "scheme"]
        n = names[len(self.lets)] if len(self.lets) < len(names) else "local_%d" % len(self.lets)
        self.lets.append("let %s = %s;" % (n, value))
        return n

    def expr(self, s, ref=False):
        """an expression that is the string; ref: it has to be a reference"""
        k = self.roll(6)
        if k == 0:
            e = "format!(\"{}\", %s)" % lit(s)
        elif k == 1:
            e = "String::from(%s)" % lit(s)
        elif k == 2 and not ref:
            return self.local(lit(s))
        elif k == 3:
            return self.local(lit(s) + ".to_string()") if not ref else "&" + self.local(lit(s) + ".to_string()")
        else:
            return lit(s)
        return "&" + e if ref else e

    def flag(self, b):
        t = "true" if b else "false"
        return [t, t, "!%s" % ("false" if b else "true"), "1 + 1 %s 2" % ("==" if b else "!=")][self.roll(4)]

    def join(self, items):
        return ", ".join(items) + ("," if items and self.roll(2) else "")

    def shuffled(self, items):
        for i in range(len(items) - 1, 0, -1):
            k = self.roll(i + 1)
            items[i], items[k] = items[k], items[i]
        return items

    # ------------------------------------------------------------ clauses

    def param(self, p):
        head = "(header %s)" % self.expr(p["n"]) if p["k"] == "header" else "(query %s: %s)" % (p["n"], self.ty(p["ty"]))
        ms = []
        if p["d"]:
            ms.append("description: " + self.expr(p["d"][0]))
        if p["required"]:
            ms.append("required: " + self.flag(p["required"][0]))
        if p["deprecated"]:
            ms.append("deprecated: " + self.flag(p["deprecated"][0]))
        if p["schema"]:
            ms.append("schema: " + self.ty(p["schema"][0]))
        if not ms and not p["block"]:
            return head
        return "%s: { %s }" % (head, self.join(self.shuffled(ms)))

    def params(self, ps):
        return "parameters: { %s }" % self.join([self.param(p) for p in ps])

    def op_clause(self, c):
        k = c["k"]
        if k in ("summary", "operationId", "description"):
            return "%s: %s" % (k, self.expr(c["v"], True))
        if k == "deprecated":
            return "deprecated: " + self.flag(c["v"])
        if k == "tags":
            return "tags: {%s}" % self.join(list(c["ts"]))
        if k == "parameters":
            return self.params(c["ps"])
        if k == "security":
            def item(i):
                return (lit(i["n"]) if i["lit"] else i["n"]) + ("[%s]" % ", ".join(lit(r) for r in i["roles"][0]) if i["roles"] else "")
            return "security: { %s }" % self.join([" && ".join(item(i) for i in alt) for alt in c["alts"]])
        if k == "body":
            if not c["block"]:
                return "body: " + self.ty(c["ty"])
            ms = ["schema: " + self.ty(c["ty"])]
            if c["d"]:
                ms.append("description: " + lit(c["d"][0]))
            if c["required"]:
                ms.append("required: " + ("true" if c["required"][0] else "false"))
            return "body: { %s }" % self.join(self.shuffled(ms))
        if k == "response":
            what = {"none": ["None", "{ None }"][self.roll(2)], "unit": "()", "any": "{ Some(opg::ModelReference::Any) }"}.get(c["what"]) or self.ty(c["ty"])
            return "%s%s: %s" % (c["code"], "(%s)" % lit(c["d"][0]) if c["d"] else "", what)
        if k == "callbacks":
            return "callbacks: { %s }" % self.join(["%s: { %s }" % (n["n"] if n["n"].isidentifier() and self.roll(2) else lit(n["n"]), self.paths(n["ps"])) for n in c["cs"]])
        raise ValueError(k)

    def item_clause(self, c):
        k = c["k"]
        if k in ("summary", "description"):
            return "%s: %s" % (k, lit(c["v"]))
        if k == "parameters":
            return self.params(c["ps"])
        return "%s: { %s }" % (c["method"], self.join([self.op_clause(x) for x in c["ms"]]))

    def seg(self, s):
        if s["k"] == "lit":
            return lit(s["v"])
        if s["k"] == "named":
            return "{ %s: %s }" % (s["n"], self.ty(s["ty"]))
        return self.ty(s["ty"])

    def paths(self, ps):
        return self.join(["(%s): { %s }" % (" / ".join(self.seg(s) for s in p["segs"]), self.join([self.item_clause(c) for c in p["ms"]])) for p in ps])

    def scheme_expr(self, s):
        d = "Some(%s.to_string())" % lit(s["d"][0]) if s["d"] else "None"
        if s["k"] == "basic":
            e = "opg::HttpSecurityScheme::Basic { description: %s }" % d
            w = "opg::SecurityScheme::Http(%s)"
        elif s["k"] == "bearer":
            e = "opg::HttpSecurityScheme::Bearer { format: %s, description: %s }" % ("Some(%s.to_string())" % lit(s["format"][0]) if s["format"] else "None", d)
            w = "opg::SecurityScheme::Http(%s)"
        else:
            e = "opg::ApiKeySecurityScheme { parameter_in: opg::ParameterIn::%s, name: %s.to_string(), description: %s }" % (s["loc"].capitalize(), lit(s["name"]), d)
            w = "opg::SecurityScheme::ApiKey(%s)"
        return w % e if self.roll(2) else e

    def scheme_decl(self, d):
        if d["k"] == "var":
            return d["n"]
        s, ms = d["scheme"], []
        if s["d"]:
            ms.append("description: " + self.expr(s["d"][0]))
        if s["k"] == "apiKey":
            if s["loc"] != "header" or self.roll(2):
                ms.append("parameter_in: " + s["loc"].capitalize())
            ms.append("name: " + self.expr(s["name"]))
            return "(apiKey %s): { %s }" % (self.expr(d["n"]), self.join(self.shuffled(ms)))
        ms.append("scheme: " + s["k"].capitalize())
        if s.get("format"):
            ms.append("bearer_format: " + self.expr(s["format"][0]))
        return "(http %s): { %s }" % (lit(d["n"]), self.join(self.shuffled(ms)))

    def server(self, u):
        def text(x):
            return lit(x) if self.roll(3) else self.local(lit(x))
        return text(u["url"]) + ("(%s)" % text(u["d"][0]) if u["d"] else "")

    def section(self, s):
        k = s["s"]
        if k == "info":
            body = self.join(["%s: %s" % (m["k"], self.expr(m["v"])) for m in s["ms"]])
        elif k == "tags":
            body = self.join([t["n"] + ("(%s)" % self.expr(t["d"][0]) if t["d"] else "") for t in s["ts"]])
        elif k == "servers":
            body = self.join([self.server(u) for u in s["us"]])
        elif k == "security_schemes":
            body = self.join([self.scheme_decl(d) for d in s["ds"]])
        else:
            body = self.paths(s["ps"])
        return "%s: {\n%s\n}" % (k, body)

    def source(self):
        body = self.join([self.section(s) for s in self.p["sections"]])
        lets = list(self.lets)
        lets += ["let %s = %s;" % (n, self.scheme_expr(s)) for n, s in sorted(self.p["vars"].items())]
        return "{\n%s\nopg::describe_api! {\n%s\n}\n}" % ("\n".join(lets), body)


def types_source(decls):
    env = {d["name"]: d for d in decls}
    return ("pub mod api_types {\nuse opg::*;\nuse serde::Serialize;\nuse support::{s, less, Sample};\n"
            + "".join(rust_derive.decl_source(d, env, "api") for d in decls) + "}\n")


def backwards(p):
    """The same paths declared the other way round"""
    return dict(p, sections=[dict(s, ps=s["ps"][::-1]) if s["s"] == "paths" else s for s in p["sections"]])


def case_source(p, key, reverse):
    # the macro works with and without opg's names in scope
    out = ("" if int(sha(key)[:4], 16) % 2 else "use opg::*;\n") + "use crate::api_types::*;\n\n"
    out += "fn document() -> opg::Opg %s\n" % Api(p, key).source()
    if reverse:
        out += "fn reversed() -> opg::Opg %s\n" % Api(backwards(p), key + "r").source()
    out += "pub fn run() -> support::Value { support::observe_doc(document, %s) }\n" % ("Some(reversed)" if reverse else "None")
    return out
