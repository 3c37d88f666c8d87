"""Domain "declarations": what the derive accepts and rejects, judged by OpgAttrs.tla."""
import json
import os
import re

import common
import derive

PLACES = {
    "struct": "%s pub struct S { pub a: u8 }",
    "newtype": "%s pub struct S(pub String);",
    "tuple": "%s pub struct S(pub u8, pub String);",
    "enum": "%s pub enum S { A, B(u8) }",
    "variant": "pub enum S { %s A(u8), B }",
    "varfield": "pub enum S { A { %s x: String, y: u8 }, B }",
    "field": "pub struct S { %s pub a: String, pub b: u8 }",
}
HEAD = "use opg::*;\n"
NEED = "pub fn need<X: OpgModel + ?Sized>() {}\npub fn run() { need::<S>(); }\n"


def attrs_source(c):
    if c["k"] == "bare":
        text = c["text"]
    else:
        items = [i["text"] for i in c["items"]]
        text = " ".join("#[opg(%s)]" % i for i in items) if c["split"] else "#[opg(%s)]" % ", ".join(items)
    body = PLACES[c["place"]] % text
    if c["place"] in ("struct", "newtype", "tuple", "enum"):
        return HEAD + "#[derive(OpgModel)]\n" + body + "\n" + NEED
    return HEAD + "#[derive(OpgModel)]\n" + body + "\n" + NEED


STYLE = {"unit": "", "newtype": "(u8)", "tuple": "(u8, bool)", "struct": " { x: u8, y: bool }", "tuple0": "()", "struct0": " {}",
         "hidden": "(#[serde(skip)] u8)"}


def shape_source(c):
    # serde's attributes are known to the compiler only with one of serde's derives; Deserialize rejects less than Serialize
    if c["k"] == "union":
        return HEAD + "#[derive(OpgModel)]\npub union S { a: u8, b: i8 }\n" + NEED
    if c["k"] == "struct":
        return HEAD + "#[derive(OpgModel)]\npub struct S%s%s\n" % (STYLE[c["style"]], "" if c["style"] in ("struct", "struct0") else ";") + NEED
    out = HEAD
    tag = {"external": "", "internal": '#[serde(tag = "t")]\n', "adjacent": '#[serde(tag = "t", content = "c")]\n', "untagged": "#[serde(untagged)]\n"}[c["tagging"]]
    body = ""
    for i, v in enumerate(c["variants"]):
        body += "    %sV%d%s%s,\n" % ("#[serde(skip_serializing)] " if v["skip"] else "", i, STYLE[v["style"]], " = %d" % (i * 3 + 1) if v["disc"] else "")
    derives = "serde::Serialize, OpgModel" if tag or "serde(" in body else "OpgModel"
    return out + "#[derive(%s)]\n%spub enum S {\n%s}\n" % (derives, tag, body) + NEED


# where the members of a clause are written
CLAUSES = {
    "info": "describe_api! { info: { %s } }",
    "http": "describe_api! { info: { title: \"t\" }, security_schemes: { (http \"s\"): { %s } } }",
    "apikey": "describe_api! { info: { title: \"t\" }, security_schemes: { (apiKey \"s\"): { %s } } }",
    "path": "describe_api! { info: { title: \"t\" }, paths: { (\"p\"): { %s } } }",
    "operation": "describe_api! { info: { title: \"t\" }, paths: { (\"p\"): { GET: { %s } } } }",
    "body": "describe_api! { info: { title: \"t\" }, paths: { (\"p\"): { POST: { body: { %s } } } } }",
    "header": "describe_api! { info: { title: \"t\" }, paths: { (\"p\"): { parameters: { (header \"h\"): { %s } } } } }",
    "query": "describe_api! { info: { title: \"t\" }, paths: { (\"p\"): { GET: { parameters: { (query q: u8): { %s } } } } } }",
    "raw": "describe_type!(raw_type => { %s })",
}


def clause_source(c):
    of_types = c["clause"] not in CLAUSES or c["clause"] == "raw"
    text = CLAUSES.get(c["clause"], "describe_type!(%s => { %%s })" % c["clause"]) % (" " if of_types else ", ").join(c["items"])
    return ("#![allow(warnings)]\nuse opg::*;\npub struct Opaque;\npub fn run() { let data = ModelData::OneOf(ModelOneOf::default()); let _ = %s; }\n" % text)


class Generic:
    """A generic declaration; its arguments have a schema only where one is needed."""

    def __init__(self, c):
        self.c = c

    def field(self, f):
        """type, attributes, name of the skipped variant"""
        p = f["p"]
        return {
            "plain": (p, ""), "vec": ("Vec<%s>" % p, ""), "option": ("Option<%s>" % p, ""), "boxed": ("Box<%s>" % p, ""),
            "ref": ("&'a %s" % p, ""), "pair": ("(%s, u8)" % p, ""), "array": ("[%s; 3]" % p, ""),
            "map": ("std::collections::HashMap<String, %s>" % p, ""), "nested": ("Option<Vec<Box<%s>>>" % p, ""),
            "assoc": ("%s::Out" % p, ""), "assocgroup": ("%s::Out" % p, ""), "qualified": ("<%s as Tr>::Out" % p, ""), "assocvec": ("Vec<%s::Out>" % p, ""),
            "skip": (p, "#[serde(skip_serializing)] "), "phantom": ("std::marker::PhantomData<%s>" % p, "#[serde(skip)] "),
            "skipvariant": (p, ""), "any": ("Opaque", "#[opg(any)] #[serde(serialize_with = \"any\")] "),
        }[f["u"]]

    def source(self):
        c = self.c
        fields = c["fields"]
        params = sorted({f["p"] for f in fields})
        uses = {p: {f["u"] for f in fields if f["p"] == p} for p in params}
        assoc = {p: uses[p] & {"assoc", "assocgroup", "qualified", "assocvec"} for p in params}
        relevant = {p for p in params if uses[p] & {"plain", "vec", "option", "boxed", "ref", "pair", "array", "map", "nested", "qualified"}}
        lt = any(f["u"] == "ref" for f in fields) or "lifetime" in c["bounds"].values()
        decl, where, args = (["'a"] if lt else []), [], (["'static"] if lt else [])
        for p in params:
            b = c["bounds"][p]
            bs = ["Tr"] if assoc[p] else []
            extra = {"inline": ["Clone", "Named"], "lifetime": ["'a"], "unsized": ["?Sized"]}.get(b, [])
            if b == "where":
                where.append("%s: %s" % (p, " + ".join(["Clone"] + bs)))
            text = p + (": " + " + ".join(extra + bs) if (extra + bs) and b != "where" else "")
            if b == "default":
                text += " = u8"
            decl.append(text)
            if "assocvec" in assoc[p] or "qualified" in assoc[p]:
                where.append("%s: OpgModel + serde::Serialize" % ("%s::Out" % p if "assocvec" in assoc[p] else "<%s as Tr>::Out" % p))
            args.append("str" if b == "unsized" and p in relevant else "u8" if p in relevant else "Opaque")
        gen = "<%s>" % ", ".join(decl)
        wh = " where %s" % ", ".join(where) if where else ""
        fs, skipped, macro_args = [], [], []
        for i, f in enumerate(fields):
            t, a = self.field(f)
            if f["u"] == "assocgroup" or c["scope"] == "macro":
                macro_args.append(t)
                t = "$t%d" % (len(macro_args) - 1)
            (skipped if f["u"] == "skipvariant" else fs).append((a, "f%d" % i, t))
        if lt and "ref" not in {f["u"] for f in fields}:
            fs.append(("", "life", "&'a str"))
        used = {f["p"] for f in fields if f["u"] != "any"}
        for p in params:
            if p not in used:
                fs.append(("#[serde(skip)] ", "ph_%s" % p, "std::marker::PhantomData<%s>" % p))
        der = "#[derive(serde::Serialize, OpgModel)]\n"
        if c["style"] == "struct":
            text = "pub struct D%s%s { %s }\n" % (gen, wh, ", ".join("%s%s: %s" % x for x in fs))
        elif c["style"] in ("tuple", "newtype"):
            more = [("", "", "u8")] if c["style"] == "tuple" else []
            text = "pub struct D%s(%s)%s;\n" % (gen, ", ".join("%s%s" % (a, t) for a, _, t in fs + more), wh)
        else:
            text = "pub enum D%s%s { Fixed(u8), Many { %s }%s%s }\n" % (
                gen, wh, ", ".join("%s%s: %s" % x for x in fs),
                ", One(%s%s)" % (fs[0][0], fs[0][2]) if fs and not fs[0][0] else "",
                "".join(", #[serde(skip_serializing)] S%s(%s)" % (n, t) for _, n, t in skipped))
        # serde does not find out about these by itself
        text = der + text
        if macro_args:
            text = "macro_rules! make { (%s) => { %s } }\nmake!(%s);\n" % (
                ", ".join("$t%d:ty" % i for i in range(len(macro_args))), text, ", ".join(macro_args))
        common_items = ("use opg::*;\npub trait Tr { type Out; }\npub trait Named {}\n#[derive(Clone)]\npub struct Opaque;\n"
                        "impl Tr for Opaque { type Out = u8; }\nimpl Tr for u8 { type Out = String; }\nimpl Tr for str { type Out = u8; }\n"
                        "impl Named for Opaque {}\nimpl Named for u8 {}\nimpl Named for str {}\n"
                        "pub fn any<T: ?Sized, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() }\n"
                        "pub fn need<X: OpgModel + ?Sized>() {}\n")
        use = "need::<D<%s>>();" % ", ".join(args)
        scope = c["scope"]
        if scope in ("module", "macro"):
            return common_items + text + "pub fn run() { %s }\n" % use
        if scope == "function":
            return common_items + "pub fn run() {\n%s%s\n}\n" % (text, use)
        if scope == "closure":
            return common_items + "pub fn run() {\nlet f = || {\n%s%s\n};\nf();\n}\n" % (text, use)
        return common_items + "pub mod deep { pub mod deeper { use super::super::*;\n%s\n} }\npub fn run() { use deep::deeper::D; %s }\n" % (text, use)


# declarations that do not come out of the grammar above, all supported
PLAIN = {
    "derive_by_path": "#[derive(opg::OpgModel)] pub struct S { pub a: u8 }",
    "derive_first": "#[derive(opg::OpgModel, serde::Serialize, Debug, Clone)] #[serde(rename_all = \"camelCase\")] pub struct S { pub a_b: u8 }",
    "derive_split": "#[derive(serde::Serialize)] #[derive(opg::OpgModel)] #[derive(Debug)] pub struct S { pub a: u8 }",
    "empty_attribute": "#[derive(opg::OpgModel)] #[opg()] pub struct S { #[opg()] pub a: u8 }",
    "trailing_comma": "#[derive(opg::OpgModel)] #[opg(\"d\",)] pub struct S { #[opg(inline, nullable,)] pub a: u8 }",
    "raw_string": "#[derive(opg::OpgModel)] #[opg(r#\"a \"quoted\" description\"#)] pub struct S { #[opg(r\"c:\\d\", format = r\"x\")] pub a: u8 }",
    "multi_line": "#[derive(opg::OpgModel)] #[opg(\"several\\n  \\\n lines\")] pub struct S { pub a: u8 }",
    "cfg_attr": "#[derive(opg::OpgModel)] #[cfg_attr(all(), opg(\"d\"))] #[cfg_attr(any(), opg(unknown))] pub struct S { #[cfg_attr(all(), opg(inline))] pub a: u8 }",
    "cfg_field": "#[derive(opg::OpgModel)] pub struct S { pub a: u8, #[cfg(any())] pub b: NoSuchType }",
    "cfg_variant": "#[derive(opg::OpgModel)] pub enum S { A, #[cfg(any())] B(NoSuchType), C }",
    "docs": "/// doc\n#[derive(opg::OpgModel)] #[doc = \"more\"] #[must_use] #[non_exhaustive] pub struct S { /// field\n #[doc(hidden)] #[allow(dead_code)] pub a: u8 }",
    "visibilities": "#[derive(opg::OpgModel)] pub(crate) struct S { a: u8, pub(super) b: u8, pub(in crate) c: u8, pub d: u8 }",
    "repr_struct": "#[derive(opg::OpgModel)] #[repr(C)] pub struct S { pub a: u8 }",
    "repr_transparent": "#[derive(opg::OpgModel)] #[repr(transparent)] pub struct S(pub u8);",
    "transparent_phantom_first": "#[derive(serde::Serialize, opg::OpgModel)] #[serde(transparent)] pub struct D<T> { pub p: std::marker::PhantomData<T>, pub a: u8 }\npub struct Opaque;\npub type S = D<Opaque>;",
    "transparent_phantom_last": "#[derive(serde::Serialize, opg::OpgModel)] #[serde(transparent)] pub struct D<T>(pub Vec<u8>, pub ::core::marker::PhantomData<T>);\npub struct Opaque;\npub type S = D<Opaque>;",
    "transparent_phantom_both": "use std::marker::PhantomData;\n#[derive(serde::Serialize, opg::OpgModel)] #[serde(transparent)] pub struct D<'a, T>(pub PhantomData<fn() -> T>, pub &'a str, pub PhantomData<&'a ()>);\npub struct Opaque;\npub type S = D<'static, Opaque>;",
    "transparent_skipped_first": "pub struct Opaque;\n#[derive(serde::Serialize, opg::OpgModel)] #[serde(transparent)] pub struct S { #[serde(skip)] pub p: Opaque, pub a: u8, #[serde(skip_serializing)] pub q: Opaque }",
    "raw_identifiers": "#[derive(serde::Serialize, opg::OpgModel)] pub struct S { pub r#type: u8, pub r#fn: u8 }",
    "raw_variants": "#[derive(serde::Serialize, opg::OpgModel)] #[allow(non_camel_case_types)] pub enum S { r#type, r#match(u8), r#struct { r#enum: u8 } }",
    "names_in_one_scope": "#[derive(serde::Serialize, opg::OpgModel)] pub struct Ab { pub a: u8 }\n#[derive(serde::Serialize, opg::OpgModel)] pub struct AB { pub a: u8 }\n#[derive(serde::Serialize, opg::OpgModel)] #[allow(non_camel_case_types)] pub enum ab { A_B, AB }\n#[derive(serde::Serialize, opg::OpgModel)] #[allow(non_camel_case_types)] pub struct A_b(pub Ab);\n#[derive(serde::Serialize, opg::OpgModel)] #[allow(non_camel_case_types)] pub struct _Ab(pub AB, pub u8);\npub type S = (Ab, AB, ab, A_b, _Ab);",
    "one_name_in_two_scopes": "#[derive(serde::Serialize, opg::OpgModel)] pub struct S { pub a: inner::S }\npub mod inner { #[derive(serde::Serialize, opg::OpgModel)] pub struct S { pub a: u8 } }\npub fn f() { #[derive(serde::Serialize, opg::OpgModel)] pub struct S { pub a: u8 } { #[derive(serde::Serialize, opg::OpgModel)] pub struct S { pub a: inner::S } } }",
    "raw_type": "#[derive(serde::Serialize, opg::OpgModel)] #[allow(non_camel_case_types)] pub struct r#type { pub a: u8 }\npub type S = r#type;",
    "unusual_fields": "#[derive(serde::Serialize, opg::OpgModel)] pub struct S { pub cx: u8, pub properties: u8, pub required: u8, pub model: u8, pub params: u8, pub _opg: u8, pub additional_object: u8 }",
    "named_like_opg": "#[derive(opg::OpgModel)] pub struct Model { pub a: u8 }\n#[derive(opg::OpgModel)] pub struct ModelReference { pub a: Model }\n#[derive(opg::OpgModel)] pub struct Components { pub c: ModelReference }\n#[derive(opg::OpgModel)] pub enum ContextParams { A(Components) }\npub type S = ContextParams;",
    "mod_opg": "mod opg { }\n#[derive(::opg::OpgModel)] pub struct S { pub a: u8 }",
    "const_generic": "#[derive(opg::OpgModel)] pub struct D<T, const N: usize> { pub a: [T; N] }\npub type S = D<u8, 40>;",
    "const_generic_only": "#[derive(opg::OpgModel)] pub struct D<const N: usize>([u8; N], u8);\npub type S = D<4>;",
    "const_default": "#[derive(opg::OpgModel)] pub struct D<T = u8, const N: usize = 4> { pub a: [T; N] }\npub type S = D;",
    "two_lifetimes": "#[derive(opg::OpgModel)] pub struct D<'a, 'b: 'a, T: 'a + ?Sized> { pub a: &'a &'b str, pub t: &'a T }\npub type S = D<'static, 'static, str>;",
    "slices": "#[derive(opg::OpgModel)] pub struct D<'a, T> { pub a: &'a [T], pub b: Box<[T]>, pub c: &'a str, pub d: &'a mut T }\npub type S = D<'static, u8>;",
    "bound_with_projection": "pub trait Tr { type Out; } impl Tr for u8 { type Out = u8; }\n#[derive(opg::OpgModel)] pub struct D<T> where T: Tr<Out = u8>, T: Sized { pub a: T, pub b: T::Out }\npub type S = D<u8>;",
    "bound_hrtb": "#[derive(opg::OpgModel)] pub struct D<T> where T: for<'x> PartialEq<&'x u8> + Sized { #[opg(any)] pub a: std::marker::PhantomData<T>, pub b: u8 }\n#[derive(opg::OpgModel)] pub struct S { pub a: u8 }",
    "many_parameters": "#[derive(opg::OpgModel)] pub struct D<A, B, C, E, F> { pub a: A, pub b: Vec<B>, pub c: Option<C>, pub e: (E, F) }\npub type S = D<u8, u16, u32, String, bool>;",
    "recursive_generic": "#[derive(opg::OpgModel)] pub struct D<T> { pub value: T, pub next: Option<Box<D<T>>> }\npub type S = D<u8>;",
    "self_type": "#[derive(serde::Serialize, opg::OpgModel)] pub struct A<T> { pub v: T, pub next: Option<Box<Self>>, pub all: Vec<Self> }\n#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum B { X(Vec<Self>), Y { s: Option<Box<Self>>, a: A<u8> }, Z(Box<Self>, u8) }\n#[derive(serde::Serialize, opg::OpgModel)] pub struct S(pub Option<Box<Self>>, pub B);",
    "mutually_recursive": "#[derive(opg::OpgModel)] pub struct S { pub t: Vec<T> }\n#[derive(opg::OpgModel)] pub enum T { A(Box<S>), B { s: Option<Box<S>> } }",
    "parenthesised": "#[derive(opg::OpgModel)] #[allow(unused_parens)] pub struct S { pub a: (u8), pub b: (Vec<(String)>) }",
    "qualified_types": "#[derive(opg::OpgModel)] pub struct S { pub a: ::std::option::Option<::std::string::String>, pub b: std::vec::Vec<core::primitive::u8> }",
    "alias": "type A = Vec<Option<u8>>;\n#[derive(opg::OpgModel)] pub struct S { pub a: A }",
    "type_macro": "macro_rules! ty { () => { Vec<u8> } }\n#[derive(opg::OpgModel)] pub struct S { pub a: ty!() }",
    "long_enum": "#[derive(opg::OpgModel)] pub enum S { %s }" % ", ".join("V%d" % i for i in range(300)),
    "long_struct": "#[derive(opg::OpgModel)] pub struct S { %s }" % ", ".join("pub f%d: u8" % i for i in range(120)),
    "two_in_function": "pub struct S; impl opg::OpgModel for S { fn get_schema(_: &mut opg::Components) -> opg::Model { #[derive(opg::OpgModel)] struct A { a: u8 } #[derive(opg::OpgModel)] struct B(A); <B as opg::OpgModel>::get_schema(&mut opg::Components::new()) } fn type_name() -> Option<std::borrow::Cow<'static, str>> { None } }",
    "same_name_in_modules": "pub mod a { #[derive(opg::OpgModel)] pub struct X { pub a: u8 } }\npub mod b { #[derive(opg::OpgModel)] pub struct X(pub super::a::X); }\npub type S = b::X;",
    "example_of_any_type": "const N: usize = 3; fn f() -> String { String::new() }\n#[derive(opg::OpgModel)] pub struct S { #[opg(example_with = \"N\")] pub a: u8, #[opg(example_with = \"f()\")] pub b: u8, #[opg(example_with = \"N + 1\")] pub c: u8 }",
    "example_named_alike": "fn required() -> u8 { 1 } fn properties() -> u8 { 2 } fn cx() -> u8 { 3 } fn model() -> u8 { 4 } fn params() -> u8 { 5 } fn tag() -> u8 { 6 } fn additional_object() -> u8 { 7 }\n"
                           "#[derive(serde::Serialize, opg::OpgModel)] pub struct A { %s }\n#[derive(opg::OpgModel)] pub struct B(#[opg(example_with = \"cx()\")] u8);\n"
                           "#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\")] pub struct C { %s }\n"
                           "#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\")] pub enum D { X { %s }, #[opg(example_with = \"model()\")] Y(A) }\n"
                           "#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum E { X { %s }, #[opg(example_with = \"required()\")] Y(u8), Z(u8, #[opg(example_with = \"properties()\")] u8) }\n"
                           "#[derive(serde::Serialize, opg::OpgModel)] #[serde(untagged)] pub enum F { X { %s }, #[opg(example_with = \"cx()\")] Y(u8) }\n"
                           "#[derive(opg::OpgModel)] pub struct S { a: A, b: B, c: C, d: D, e: E, f: F }" % ((", ".join(
                               "#[opg(example_with = \"%s()\")] f%d: u8" % (n, i) for i, n in enumerate(("required", "properties", "cx", "model", "params", "tag", "additional_object"))),) * 5),
    "no_opg_import": "mod inner { #[derive(::serde::Serialize, ::opg::OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum E { A(u8), B { x: u8 }, C(u8, u8), D } }\npub type S = inner::E;",
    "serde_noise": "#[derive(serde::Serialize, serde::Deserialize, opg::OpgModel)] #[serde(deny_unknown_fields, default, bound = \"\", expecting = \"x\")] #[derive(Default)] pub struct S { #[serde(default = \"u8::default\", alias = \"x\", rename(serialize = \"y\", deserialize = \"z\"))] pub a: u8 }",
    "borrowed": "#[derive(serde::Serialize, serde::Deserialize, opg::OpgModel)] pub struct D<'a> { #[serde(borrow)] pub a: &'a str, #[serde(borrow = \"'a\")] pub b: Option<&'a str> }\npub type S = D<'static>;",
    "api_by_path": "pub type S = u8;\npub const KEY: fn() -> ::opg::ApiKeySecurityScheme = || ::opg::ApiKeySecurityScheme { parameter_in: ::opg::ParameterIn::Query, name: ::std::string::String::new(), description: ::std::option::Option::None };\n"
                   "pub fn api() -> ::opg::Opg { let result = 1; let path = 2; let context = 3; let operation = 4; let key = KEY(); ::opg::describe_api! { info: { title: result + 1, version: path, description: context }, tags: { a(operation), b },\n"
                   "servers: { \"/\"(\"d\"), \"/v\" }, security_schemes: { (http \"h\"): { scheme: Basic }, (apiKey \"k\"): { name: result }, key },\n"
                   "paths: { (\"a\" / { id: S } / ::core::primitive::u8): { summary: \"s\", GET: { tags: { a }, summary: &context, description: &operation, parameters: { (query q: ::std::option::Option<u8>), (header path): { description: context } },\n"
                   "body: { schema: crate::plain_api_by_path::S, required: false }, security: { \"h\" && key[\"r\"] }, 200: (), 201(\"x\"): ::std::vec::Vec<u8>, callbacks: { cb: { (\"x\"): { POST: { 200: None } } } } } } } } }",
    "api_names_alike": "pub type S = u8;\npub mod describe_api {} pub mod models {} pub struct Model; pub struct Operation; pub struct Response; pub struct Path; pub struct PathValue; pub struct Info; pub struct Tag; pub struct Server;\n"
                       "pub fn api() -> opg::Opg { opg::describe_api! { info: { title: \"t\", version: \"1\" }, tags: { a }, servers: { \"/\" }, paths: { (\"a\" / { x: u8 }): { GET: { body: u8, 200: u8, parameters: { (query q: u8) } } } } } }",
    "type_by_path": "pub type S = u8;\npub fn ty() -> ::opg::Model { let properties = 1; let required = 2; ::opg::describe_type!(object => { description: \"d\" properties: { a[required]: (array => { items: (string => { format: \"f\" }) }) b: (link => \"x\") } }) }",
    "impl_by_path": "pub struct A; pub struct B(u8); pub struct W<T>(T); pub struct L<T>(T); pub struct N<T>(T); pub mod m { pub struct C; }\n::opg::impl_opg_model!(string(\"f\"): A); ::opg::impl_opg_model!(integer(always_inline): B); ::opg::impl_opg_model!(number(always_inline, \"g\"): m::C);\n"
                    "::opg::impl_opg_model!(generic_simple: W<T>); ::opg::impl_opg_model!(generic_simple(nullable): N<T>); ::opg::impl_opg_model!(generic_array: L<T>);\npub type S = (A, B, W<L<m::C>>, N<A>);",
    "discriminant_exprs": "const X: isize = 4;\n#[derive(opg::OpgModel)] #[repr(i16)] pub enum S { A = -1, B = 1 << 3, C = (X as i16) * 3, D = i16::MAX }",
}
# the names of the prelude mean something else where these are declared
SHADOWS = {
    "variants": "pub enum Kind { None, Some, Ok, Err }\nuse self::Kind::*;\n",
    "types": "pub struct Vec; pub struct Box; pub struct Option; pub struct String; pub trait Default {} pub trait Clone {}\n",
    "modules": "pub mod std {} pub mod core {} pub mod alloc {}\n",
    "macros": "".join("macro_rules! %s { ($($t:tt)*) => { compile_error!(\"not the one of std\") } }\n" % m for m in ("vec", "format", "panic", "matches", "assert", "unreachable")),
    "functions": "pub fn properties() {} pub fn required() {} pub fn model() {} pub fn cx() {} pub fn additional_object() {}\n",
}
SHADOWED = {
    "struct": "#[derive(opg::OpgModel)] #[opg(\"d\", nullable)] pub struct S { #[opg(\"desc\", nullable, optional)] a: u8, b: ::std::vec::Vec<u8>, #[opg(string, format = \"x\", example = \"y\")] c: u8, d: (u8, u8), #[opg(any)] e: u8 }",
    "tuple": "#[derive(opg::OpgModel)] pub struct S(u8, #[opg(any)] u8, #[opg(inline, \"q\")] u8);",
    "newtype": "#[derive(opg::OpgModel)] #[opg(inline, \"d\")] pub struct S(#[opg(\"q\")] u8);",
    "explicit": "#[derive(opg::OpgModel)] #[opg(string)] pub struct S(#[opg(example = \"q\")] u8);",
    "units": "#[derive(opg::OpgModel)] pub enum S { X, Y }",
    "numbers": "#[derive(opg::OpgModel)] #[repr(u8)] pub enum S { X = 1, Y = 7 }",
    "internal": "#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\")] pub enum S { X, #[opg(\"e\")] Y { a: u8 } }",
    "adjacent": "#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\", content = \"c\")] pub enum S { X, Y { a: u8 }, Z(u8, u8), N(u8) }",
    "untagged": "#[derive(serde::Serialize, opg::OpgModel)] #[serde(untagged)] pub enum S { X(u8), Y { a: u8 } }",
    "tagged": "#[derive(serde::Serialize, opg::OpgModel)] #[serde(tag = \"t\")] pub struct S { a: u8 }",
    "external": "#[derive(serde::Serialize, opg::OpgModel)] pub enum S { X(u8), Y { a: u8 }, Z(u8, u8), U }",
}
for _s in SHADOWS:
    for _d in SHADOWED:
        PLAIN["shadowed_%s_%s" % (_s, _d)] = SHADOWS[_s] + SHADOWED[_d]
# and misuse that does not either
MISUSE = {
    "trait_object": "pub trait Tr {}\n#[derive(OpgModel)] pub struct S { pub a: Box<dyn Tr> }",
    "no_schema": "pub struct Opaque;\n#[derive(OpgModel)] pub struct S { pub a: Opaque }",
    "no_schema_nested": "pub struct Opaque;\n#[derive(OpgModel)] pub struct S { pub a: Option<Vec<Opaque>> }",
    "no_schema_variant": "pub struct Opaque;\n#[derive(OpgModel)] pub enum S { A(u8), B { x: Opaque } }",
    "no_schema_argument": "pub struct Opaque;\n#[derive(OpgModel)] pub struct D<T> { pub a: T }\npub type S = D<Opaque>;",
    "no_schema_out": "pub struct Opaque; pub trait Tr { type Out; } impl Tr for u8 { type Out = Opaque; }\n#[derive(OpgModel)] pub struct D<T: Tr> { pub a: T::Out }\npub type S = D<u8>;",
    "example_no_string": "pub struct Opaque;\n#[derive(OpgModel)] pub struct S { #[opg(example_with = \"Opaque\")] pub a: u8 }",
    "two_errors": "#[derive(OpgModel)] #[opg(unknown)] pub struct S { #[opg(inline, inline)] pub a: u8 }",
    "error_in_second_field": "#[derive(OpgModel)] pub struct S { #[opg(inline)] pub a: u8, #[opg(inlined)] pub b: u8 }",
    "error_in_skipped_field": "#[derive(serde::Serialize, OpgModel)] pub struct S { pub a: u8, #[serde(skip)] #[opg(inlined)] pub b: u8 }",
    "error_in_skipped_variant": "#[derive(serde::Serialize, OpgModel)] pub enum S { A(u8), #[serde(skip)] #[opg(inlined)] B(u8) }",
    "error_in_last_variant": "#[derive(OpgModel)] pub enum S { A, B { x: u8, #[opg(format = 1)] y: u8 } }",
    "duplicates_across_attributes": "#[derive(OpgModel)] pub struct S { #[opg(\"a\")] #[allow(dead_code)] #[opg(inline)] #[opg(\"b\")] pub a: u8 }",
    "three_types": "#[derive(OpgModel)] pub struct S { #[opg(string, string, string)] pub a: u8 }",
    "optional_container": "#[derive(OpgModel)] #[opg(optional)] pub struct S { pub a: u8 }",
    "late_discriminant": "#[derive(OpgModel)] pub enum S { A, B, C, D, E = 9 }",
    "early_discriminant": "#[derive(OpgModel)] pub enum S { A = 1, B, C, D, E }",
    "unit_generic": "#[derive(OpgModel)] pub struct S;",
}


def cases(tier, seed):
    path = os.path.join(common.workdir("families"), "attrs.json")
    common.tlc_ok("GenAttrs", "GenAttrs.cfg", env={"OUT": path}, workers=1)
    x = json.load(open(path))
    res = {}
    for i, c in enumerate(x["attrs"] + x["bare"]):
        res["attr_%04d" % i] = (c, attrs_source(c))
    for i, c in enumerate(x["clauses"]):
        res["clause_%04d" % i] = (c, clause_source(c))
    for i, c in enumerate(x["shapes"]):
        res["shape_%04d" % i] = (c, shape_source(c))
    for i, c in enumerate(x["generics"]):
        res["generic_%04d" % i] = (c, Generic(c).source())
    for n, text in PLAIN.items():
        res["plain_" + n] = ({"k": "accepted", "n": n}, "#![allow(warnings)]\n" + text + "\npub fn need<X: ::opg::OpgModel + ?Sized>() {}\npub fn run() { need::<S>(); }\n")
    for n, text in MISUSE.items():
        res["misuse_" + n] = ({"k": "rejected", "n": n}, HEAD + text + "\n" + NEED)
    return res


def run(prop, tier, seed):
    parts = derive.parallel([lambda: cases(tier, seed),
                             lambda: common.tlc_ok("OpgAttrParser", "OpgAttrParser.cfg" if tier == "quick" else "OpgAttrParserDeep.cfg", workers=4)], 2)
    cs, out = parts
    states, trans = common.tlc_counts(out)
    broken = common.compile_only("declarations", {i: s for i, (_, s) in cs.items()})
    out, s, t = common.tlc_judge("CheckAttrs", prop, ({"id": i, "c": c, "compiles": i not in broken} for i, (c, _) in sorted(cs.items())))
    violations = []
    for line in out.splitlines():
        m = re.match(r'"FAIL (\S+) ?(.*)"$', line)
        if m:
            i = m.group(1)
            violations.append((i, m.group(2) + (": " + broken[i] if i in broken else ""), cs[i][0], cs[i][1], None))
    i = sorted(cs)[len(cs) // 3]
    return {"domain": "declarations", "violations": violations, "states": states + s, "transitions": trans + t, "traces": len(cs),
            "sample": {"case": i, "source": cs[i][1], "error": broken.get(i)},
            "note": "%d declarations, %d of them rejected by the compiler" % (len(cs), len(broken))}
