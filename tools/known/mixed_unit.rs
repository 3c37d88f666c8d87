#[derive(Serialize, OpgModel)]
pub enum S { A, B(u8) }
pub fn run() -> Value { observe::<S>(json!([S::A])) }
