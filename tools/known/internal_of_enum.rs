#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum Inner { X { a: u8 }, Y { b: u8 } }
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub enum S { V(Inner), W { c: u8 } }
pub fn run() -> Value { observe::<S>(json!([S::V(Inner::X { a: 1 })])) }
