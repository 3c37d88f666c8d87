#[derive(Serialize, OpgModel)]
pub struct Inner { pub x: u8 }
#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", content = "value")]
pub enum S { V(u8), #[serde(untagged)] W(Inner) }
pub fn run() -> Value { observe::<S>(json!([S::W(Inner { x: 1 })])) }
