#[derive(Serialize, OpgModel, Clone)]
#[serde(into = "String")]
pub struct S { pub a: u8 }
impl From<S> for String { fn from(s: S) -> String { s.a.to_string() } }
pub fn run() -> Value { observe::<S>(json!([S { a: 1 }])) }
