#[derive(Serialize, OpgModel)]
pub struct Inner { pub x: u8 }
#[derive(Serialize, OpgModel)]
pub struct S { pub a: u8, #[serde(flatten)] pub inner: Inner }
pub fn run() -> Value { observe::<S>(json!([S { a: 1, inner: Inner { x: 2 } }])) }
