#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum Inner { X { a: u8 }, Y { b: u8 } }
fn null<S: serde::Serializer>(_: &Inner, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit() }
#[derive(Serialize, OpgModel)]
pub struct S { #[serde(serialize_with = "null")] #[opg(inline, nullable)] pub a: Inner }
pub fn run() -> Value { observe::<S>(json!([S { a: Inner::X { a: 1 } }])) }
