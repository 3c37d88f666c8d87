//! JSON of the records of OpgSchema.tla and OpgDoc.tla -> opg's structures.
//! Optional values are sequences of length zero or one; an empty function may come as `[]`.

use std::iter::FromIterator;

use opg::models::*;
use serde_json::Value;

pub fn opt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    v.as_array().unwrap().first().map(f)
}
pub fn text(v: &Value) -> String {
    v.as_str().unwrap().to_owned()
}
pub fn opt_text(v: &Value) -> Option<String> {
    opt(v, text)
}
pub fn flag(v: &Value) -> bool {
    v.as_bool().unwrap()
}
// which containers opg keeps these in is its own business
pub fn list<T, C: FromIterator<T>>(v: &Value, f: impl Fn(&Value) -> T) -> C {
    match v {
        Value::Array(a) => a.iter().map(f).collect(),
        Value::Object(o) if o.is_empty() => std::iter::empty().collect(),
        _ => panic!("not a sequence: {}", v),
    }
}
pub fn entries_by<K, T, C: FromIterator<(K, T)>>(v: &Value, key: impl Fn(&str) -> K, f: impl Fn(&Value) -> T) -> C {
    match v {
        Value::Object(o) => o.iter().map(|(k, x)| (key(k), f(x))).collect(),
        Value::Array(a) if a.is_empty() => std::iter::empty().collect(),
        _ => panic!("not a function: {}", v),
    }
}
pub fn entries<T, C: FromIterator<(String, T)>>(v: &Value, f: impl Fn(&Value) -> T) -> C {
    entries_by(v, str::to_owned, f)
}
fn kind(v: &Value) -> &str {
    v["k"].as_str().unwrap()
}

pub fn reference(v: &Value) -> ModelReference {
    match kind(v) {
        "link" => ModelReference::Link(text(&v["n"])),
        "inline" => ModelReference::Inline(model(&v["m"])),
        "any" => ModelReference::Any,
        k => panic!("reference {}", k),
    }
}

fn simple(v: &Value) -> ModelSimple {
    ModelSimple { format: opt_text(&v["format"]), example: opt_text(&v["example"]) }
}

pub fn object(v: &Value) -> ModelObject {
    ModelObject {
        properties: entries(&v["props"], reference),
        additional_properties: opt(&v["addl"], |x| Box::new(reference(x))),
        required: list(&v["required"], text),
    }
}

pub fn type_description(v: &Value) -> ModelTypeDescription {
    match kind(v) {
        "string" => ModelTypeDescription::String(ModelString {
            variants: opt(&v["variants"], |x| list(x, text)),
            data: simple(v),
        }),
        "number" => ModelTypeDescription::Number(simple(v)),
        "integer" => ModelTypeDescription::Integer(simple(v)),
        "boolean" => ModelTypeDescription::Boolean,
        "array" => ModelTypeDescription::Array(ModelArray { items: Box::new(reference(&v["items"])) }),
        "object" => ModelTypeDescription::Object(object(v)),
        k => panic!("type description {}", k),
    }
}

pub fn data(v: &Value) -> ModelData {
    match kind(v) {
        "single" => ModelData::Single(ModelType {
            nullable: flag(&v["nullable"]),
            type_description: type_description(&v["td"]),
        }),
        "oneOf" => ModelData::OneOf(ModelOneOf { one_of: list(&v["refs"], reference) }),
        "allOf" => ModelData::AllOf(ModelAllOf { all_of: list(&v["refs"], reference) }),
        "anyOf" => ModelData::AnyOf(ModelAnyOf { any_of: list(&v["refs"], reference) }),
        k => panic!("data {}", k),
    }
}

pub fn model(v: &Value) -> Model {
    Model { description: opt_text(&v["d"]), data: data(&v["data"]) }
}

pub fn params(v: &Value) -> ContextParams {
    ContextParams {
        description: opt_text(&v["d"]),
        nullable: opt(&v["nullable"], flag),
        variants: opt(&v["variants"], |x| list(x, text)),
        format: opt_text(&v["format"]),
        example: opt_text(&v["example"]),
    }
}

// ------------------------------------------------------------------- documents

fn location(v: &Value) -> ParameterIn {
    match v.as_str().unwrap() {
        "query" => ParameterIn::Query,
        "header" => ParameterIn::Header,
        "path" => ParameterIn::Path,
        "cookie" => ParameterIn::Cookie,
        k => panic!("location {}", k),
    }
}

pub fn scheme(v: &Value) -> SecurityScheme {
    match kind(v) {
        "basic" => SecurityScheme::Http(HttpSecurityScheme::Basic { description: opt_text(&v["d"]) }),
        "bearer" => SecurityScheme::Http(HttpSecurityScheme::Bearer {
            format: opt_text(&v["format"]),
            description: opt_text(&v["d"]),
        }),
        "apiKey" => SecurityScheme::ApiKey(ApiKeySecurityScheme {
            parameter_in: location(&v["loc"]),
            name: text(&v["name"]),
            description: opt_text(&v["d"]),
        }),
        k => panic!("scheme {}", k),
    }
}

fn parameter(v: &Value) -> OperationParameter {
    OperationParameter {
        description: opt_text(&v["d"]),
        parameter_in: location(&v["loc"]),
        required: flag(&v["required"]),
        deprecated: flag(&v["deprecated"]),
        schema: opt(&v["schema"], reference),
    }
}

fn response(v: &Value) -> Response {
    Response { description: text(&v["d"]), schema: opt(&v["schema"], reference) }
}

fn body(v: &Value) -> RequestBody {
    RequestBody {
        description: opt_text(&v["d"]),
        required: flag(&v["required"]),
        schema: reference(&v["schema"]),
    }
}

fn method(m: &str) -> HttpMethod {
    match m {
        "get" => HttpMethod::GET,
        "put" => HttpMethod::PUT,
        "post" => HttpMethod::POST,
        "delete" => HttpMethod::DELETE,
        "options" => HttpMethod::OPTIONS,
        "head" => HttpMethod::HEAD,
        "patch" => HttpMethod::PATCH,
        "trace" => HttpMethod::TRACE,
        k => panic!("method {}", k),
    }
}

fn operation(v: &Value) -> Operation {
    // through the builder where there is one
    let mut op = Operation {
        tags: list(&v["tags"], text),
        security: list(&v["security"], |x| entries(x, |r| list(r, text))),
        responses: entries_by(&v["responses"], |k| k.parse().unwrap(), response),
        parameters: entries(&v["params"], parameter),
        callbacks: entries(&v["callbacks"], |x| CallbackObject { paths: paths(x) }),
        ..Default::default()
    };
    if let Some(x) = opt_text(&v["summary"]) {
        op.with_summary(&x);
    }
    if let Some(x) = opt_text(&v["opid"]) {
        op.with_operation_id(&x);
    }
    if let Some(x) = opt_text(&v["d"]) {
        op.with_description(&x);
    }
    if flag(&v["deprecated"]) {
        op.mark_deprecated(true);
    }
    if let Some(x) = opt(&v["body"], body) {
        op.with_request_body(x);
    }
    op
}

fn path_value(v: &Value) -> PathValue {
    PathValue {
        summary: opt_text(&v["summary"]),
        description: opt_text(&v["d"]),
        operations: entries_by(&v["ops"], method, operation),
        parameters: entries(&v["params"], parameter),
    }
}

fn element(v: &Value) -> PathElement {
    match kind(v) {
        "path" => PathElement::Path(text(&v["v"])),
        "param" => PathElement::Parameter(text(&v["v"])),
        k => panic!("path element {}", k),
    }
}

fn paths<C: FromIterator<(Path, PathValue)>>(v: &Value) -> C {
    list(v, |x| (Path(list(&x["path"], element)), path_value(&x["item"])))
}

pub fn document(v: &Value) -> Opg {
    Opg {
        info: Info {
            title: text(&v["info"]["title"]),
            description: opt_text(&v["info"]["d"]),
            version: text(&v["info"]["version"]),
        },
        tags: entries(&v["tags"], |x| Tag { description: opt_text(x) }),
        servers: list(&v["servers"], |x| Server { url: text(&x["url"]), description: opt_text(&x["d"]) }),
        paths: paths(&v["paths"]),
        components: Components {
            schemas: entries(&v["schemas"], model),
            security_schemes: entries(&v["sec"], scheme),
        },
        ..Default::default()
    }
}
