#[derive(Serialize, OpgModel)]
pub struct Wrap<T> { pub x: T }
#[derive(Serialize, OpgModel)]
pub struct S { pub a: Wrap<u8>, pub b: Wrap<String> }
pub fn run() -> Value { observe::<S>(json!([S { a: Wrap { x: 1 }, b: Wrap { x: String::new() } }])) }
