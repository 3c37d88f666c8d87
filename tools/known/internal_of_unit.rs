#[derive(Serialize, OpgModel)]
#[serde(tag = "kind")]
pub enum S { Nothing(()), W { c: u8 } }
pub fn run() -> Value { observe::<S>(json!([S::Nothing(())])) }
