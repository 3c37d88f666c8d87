mod one { #[derive(serde::Serialize, opg::OpgModel)] pub struct Item { pub x: u8 } }
mod two { #[derive(serde::Serialize, opg::OpgModel)] pub struct Item { pub y: u8 } }
#[derive(Serialize, OpgModel)]
pub struct S { pub a: one::Item, pub b: two::Item }
pub fn run() -> Value { observe::<S>(json!([S { a: one::Item { x: 1 }, b: two::Item { y: 1 } }])) }
