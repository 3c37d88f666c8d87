//! Types whose declaration is data: `N<I>` is a structure described by the I-th declaration of the
//! graph at hand, as hand-written implementations of OpgModel describe themselves; and the scripts
//! of operations on a registry, on schema objects and on documents.

use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

use opg::models::*;
use serde_json::{json, Value};

use crate::decode;
use crate::{js, schemas, verify};

thread_local!(static GRAPH: RefCell<Value> = RefCell::new(Value::Null));

const NAMES: [&str; 4] = ["N0", "N1", "N2", "N3"];

pub struct N<const I: usize>;

fn node(i: usize) -> Value {
    GRAPH.with(|g| g.borrow()[i].clone())
}

impl<const I: usize> OpgModel for N<I> {
    fn get_schema(cx: &mut Components) -> Model {
        let node = node(I);
        let mut object = ModelObject::default();
        for field in node["fields"].as_array().unwrap() {
            let reference = mention(cx, &field["ty"], decode::flag(&field["inline"]), &decode::params(&field["p"]));
            object.add_property(decode::text(&field["name"]), reference, !decode::flag(&field["optional"])).unwrap();
        }
        Model {
            description: decode::opt_text(&node["desc"]),
            data: ModelData::Single(ModelType { nullable: false, type_description: object.into() }),
        }
    }

    fn type_name() -> Option<Cow<'static, str>> {
        if decode::flag(&node(I)["inline"]) { None } else { Some(NAMES[I].into()) }
    }
}

/// Calls `$go!` with the type that `$ty` stands for: up to two wrappers around a node or a builtin type
macro_rules! with_type {
    ($ty:expr, $go:ident) => {{
        let ty = $ty;
        let mut wraps = Vec::new();
        let mut at = ty;
        while !at["a"].as_array().unwrap().is_empty() {
            wraps.push(at["t"].as_str().unwrap());
            at = &at["a"][0];
        }
        let base = if at["t"] == "decl" { at["n"].as_str().unwrap() } else { at["t"].as_str().unwrap() };
        match base {
            "N0" => with_type!(@1 N<0>, wraps, $go),
            "N1" => with_type!(@1 N<1>, wraps, $go),
            "N2" => with_type!(@1 N<2>, wraps, $go),
            "N3" => with_type!(@1 N<3>, wraps, $go),
            "i32" => with_type!(@1 i32, wraps, $go),
            "String" => with_type!(@1 String, wraps, $go),
            k => panic!("type {}", k),
        }
    }};
    (@1 $t:ty, $wraps:ident, $go:ident) => {
        match $wraps.pop() {
            None => $go!($t),
            Some("Box") => with_type!(@2 Box<$t>, $wraps, $go),
            Some("Option") => with_type!(@2 Option<$t>, $wraps, $go),
            Some("Vec") => with_type!(@2 Vec<$t>, $wraps, $go),
            Some("HashMap") => with_type!(@2 HashMap<String, $t>, $wraps, $go),
            Some("BTreeMap") => with_type!(@2 BTreeMap<String, $t>, $wraps, $go),
            Some("Rc") => with_type!(@2 std::rc::Rc<$t>, $wraps, $go),
            Some("Tuple") => with_type!(@2 ($t,), $wraps, $go),
            Some(k) => panic!("wrapper {}", k),
        }
    };
    (@2 $t:ty, $wraps:ident, $go:ident) => {
        match $wraps.pop() {
            None => $go!($t),
            Some("Box") => $go!(Box<$t>),
            Some("Option") => $go!(Option<$t>),
            Some("Vec") => $go!(Vec<$t>),
            Some("HashMap") => $go!(HashMap<String, $t>),
            Some("BTreeMap") => $go!(BTreeMap<String, $t>),
            Some("Rc") => $go!(std::rc::Rc<$t>),
            Some("Tuple") => $go!(($t,)),
            Some(k) => panic!("wrapper {}", k),
        }
    };
}

pub fn mention(cx: &mut Components, ty: &Value, inline: bool, params: &ContextParams) -> ModelReference {
    macro_rules! go { ($t:ty) => { cx.mention_schema::<$t>(inline, params) } }
    with_type!(ty, go)
}

pub fn get_schema(cx: &mut Components, ty: &Value, params: &ContextParams) -> Model {
    macro_rules! go { ($t:ty) => { <$t as OpgModel>::get_schema_with_params(cx, params) } }
    with_type!(ty, go)
}

fn ok<T, E>(r: &Result<T, E>) -> Value {
    json!(r.is_ok())
}

/// One operation; what it returned
fn step(cx: &mut Components, model: &mut Model, op: &Value) -> Value {
    match op["op"].as_str().unwrap() {
        // registry
        "mention" => js(&mention(cx, &op["ty"], decode::flag(&op["inline"]), &decode::params(&op["p"]))),
        "get" => js(&get_schema(cx, &op["ty"], &decode::params(&op["p"]))),
        "add" => {
            cx.add_model(decode::text(&op["name"]), decode::model(&op["m"]));
            Value::Null
        }
        "contains" => json!(cx.contains_model(op["name"].as_str().unwrap())),
        "verify" => verify(cx),
        "scheme" => {
            let name = decode::text(&op["name"]);
            json!(match decode::scheme(&op["scheme"]) {
                SecurityScheme::Http(s) => cx.mention_security_scheme(name, &s),
                SecurityScheme::ApiKey(s) => cx.mention_security_scheme(name, &s),
            })
        }
        // schema objects
        "apply" => {
            *model = model.clone().apply_params(&decode::params(&op["p"]));
            Value::Null
        }
        "merge" => ok(&model.try_merge(decode::model(&op["m"]))),
        "objmerge" | "addprop" => match &mut model.data {
            ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(object), .. }) => {
                if op["op"] == "objmerge" {
                    ok(&object.merge(decode::object(&op["td"])))
                } else {
                    ok(&object.add_property(decode::text(&op["name"]), decode::reference(&op["ref"]), decode::flag(&op["req"])))
                }
            }
            _ => json!("not an object"),
        },
        "nullable" => {
            *model = decode::reference(&op["ref"]).into_nullable();
            Value::Null
        }
        k => panic!("operation {}", k),
    }
}

/// YAML of the same document, with the keys of its maps as strings
fn from_yaml(v: &serde_yaml::Value) -> Value {
    match v {
        serde_yaml::Value::Sequence(a) => Value::Array(a.iter().map(from_yaml).collect()),
        serde_yaml::Value::Mapping(m) => Value::Object(
            m.iter()
                .map(|(k, x)| {
                    let k = match from_yaml(k) {
                        Value::String(k) => k,
                        k => k.to_string(),
                    };
                    (k, from_yaml(x))
                })
                .collect(),
        ),
        v => serde_json::to_value(v).unwrap(),
    }
}

/// A document as it is written, and whether its YAML form says the same
pub fn written(doc: &opg::Opg) -> Value {
    let text = serde_json::to_string(doc).unwrap();
    let yaml = serde_yaml::to_string(doc).map_err(|e| e.to_string())
        .and_then(|x| serde_yaml::from_str::<serde_yaml::Value>(&x).map_err(|e| e.to_string()))
        .map(|x| from_yaml(&x) == js(doc))
        .unwrap_or(false);
    json!({ "text": text, "yaml": yaml })
}

/// Runs a script `{graph, model, ops}` or serializes a document `{doc}`
pub fn run(script: &Value) -> Value {
    if let Some(doc) = script.get("doc") {
        let doc = decode::document(doc);
        return written(&doc);
    }
    GRAPH.with(|g| *g.borrow_mut() = script["graph"].clone());
    let mut cx = Components::new();
    let mut model = decode::model(&script["model"]);
    let mut out = Vec::new();
    for op in script["ops"].as_array().unwrap() {
        let ret = step(&mut cx, &mut model, op);
        out.push(json!({ "ret": ret, "schemas": schemas(&cx), "sec": js(&cx.security_schemes), "model": js(&model) }));
    }
    json!({ "steps": out })
}
