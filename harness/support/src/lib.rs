//! Shared part of the generated harness crates: numbered sample values of
//! every supported type (the counterpart of OpgWire.tla), the runner, and the
//! recording of what opg did.

use std::collections::*;
use std::io::Write;
use std::sync::atomic::*;

use opg::{Components, ContextParams, Model, ModelReference, OpgModel};
use serde::{Serialize, Serializer};
pub use serde_json::{json, Map, Value};

pub mod dynamic;
pub mod decode;

/// The j-th sample value with f levels of nested declarations left to unfold
pub trait Sample {
    fn sample(j: usize, f: usize) -> Self;
}

pub fn s<T: Sample>(j: usize, f: usize) -> T {
    T::sample(j, f)
}

pub fn less(f: usize) -> usize {
    f.saturating_sub(1)
}

macro_rules! ints { ($($t:ty),*) => { $(impl Sample for $t { fn sample(j: usize, _: usize) -> Self { (j % 3) as $t } })* } }
ints!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
macro_rules! atomics { ($($t:ty),*) => { $(impl Sample for $t { fn sample(j: usize, _: usize) -> Self { <$t>::new((j % 3) as _) } })* } }
atomics!(AtomicI8, AtomicU8, AtomicI16, AtomicU16, AtomicI32, AtomicU32, AtomicI64, AtomicU64, AtomicIsize, AtomicUsize);

impl Sample for AtomicBool {
    fn sample(j: usize, _: usize) -> Self {
        AtomicBool::new(j % 2 == 1)
    }
}
impl Sample for bool {
    fn sample(j: usize, _: usize) -> Self {
        j % 2 == 1
    }
}
impl Sample for f32 {
    fn sample(j: usize, _: usize) -> Self {
        (j % 3) as f32 + 0.5
    }
}
impl Sample for f64 {
    fn sample(j: usize, _: usize) -> Self {
        (j % 3) as f64 + 0.5
    }
}
impl Sample for char {
    fn sample(j: usize, _: usize) -> Self {
        if j % 2 == 0 { 'a' } else { 'b' }
    }
}
impl Sample for String {
    fn sample(j: usize, _: usize) -> Self {
        if j % 3 == 0 { String::new() } else { format!("s{}", j % 3) }
    }
}
impl Sample for () {
    fn sample(_: usize, _: usize) -> Self {}
}
impl Sample for uuid::Uuid {
    fn sample(_: usize, _: usize) -> Self {
        uuid::Uuid::nil()
    }
}
impl Sample for chrono::NaiveDate {
    fn sample(_: usize, _: usize) -> Self {
        chrono::NaiveDate::from_ymd_opt(2020, 6, 26).unwrap()
    }
}
impl Sample for chrono::NaiveDateTime {
    fn sample(_: usize, _: usize) -> Self {
        chrono::NaiveDate::from_ymd_opt(2020, 6, 26).unwrap().and_hms_opt(14, 4, 20).unwrap()
    }
}
impl Sample for chrono::DateTime<chrono::Utc> {
    fn sample(j: usize, f: usize) -> Self {
        chrono::DateTime::from_naive_utc_and_offset(s::<chrono::NaiveDateTime>(j, f), chrono::Utc)
    }
}

impl<T: Sample> Sample for Box<T> {
    fn sample(j: usize, f: usize) -> Self {
        Box::new(s(j, f))
    }
}
impl<T: Sample> Sample for std::rc::Rc<T> {
    fn sample(j: usize, f: usize) -> Self {
        std::rc::Rc::new(s(j, f))
    }
}
impl<T: Sample> Sample for std::sync::Arc<T> {
    fn sample(j: usize, f: usize) -> Self {
        std::sync::Arc::new(s(j, f))
    }
}
impl<T: Sample> Sample for std::cell::Cell<T> {
    fn sample(j: usize, f: usize) -> Self {
        std::cell::Cell::new(s(j, f))
    }
}
impl<T: Sample> Sample for std::cell::RefCell<T> {
    fn sample(j: usize, f: usize) -> Self {
        std::cell::RefCell::new(s(j, f))
    }
}
impl<T: Sample> Sample for &'static T {
    fn sample(j: usize, f: usize) -> Self {
        Box::leak(Box::new(s(j, f)))
    }
}
impl<T: Sample> Sample for &'static mut T {
    fn sample(j: usize, f: usize) -> Self {
        Box::leak(Box::new(s(j, f)))
    }
}
impl Sample for &'static str {
    fn sample(j: usize, f: usize) -> Self {
        Box::leak(s::<String>(j, f).into_boxed_str())
    }
}
impl Sample for Box<str> {
    fn sample(j: usize, f: usize) -> Self {
        s::<String>(j, f).into_boxed_str()
    }
}
impl Sample for std::rc::Rc<str> {
    fn sample(j: usize, f: usize) -> Self {
        s::<String>(j, f).into()
    }
}
impl Sample for std::sync::Arc<str> {
    fn sample(j: usize, f: usize) -> Self {
        s::<String>(j, f).into()
    }
}
impl<T: Sample> Sample for &'static [T] {
    fn sample(j: usize, f: usize) -> Self {
        Box::leak(s::<Vec<T>>(j, f).into_boxed_slice())
    }
}
impl<T: Sample> Sample for Box<[T]> {
    fn sample(j: usize, f: usize) -> Self {
        s::<Vec<T>>(j, f).into_boxed_slice()
    }
}

impl<T: Sample> Sample for Option<T> {
    fn sample(j: usize, f: usize) -> Self {
        if j % 2 == 0 || f == 0 { None } else { Some(s(j / 2, f)) }
    }
}

fn list<T: Sample>(len: usize, j: usize, f: usize) -> impl Iterator<Item = T> {
    (0..if f == 0 { 0 } else { len }).map(move |i| s(j + i, f))
}
impl<T: Sample> Sample for Vec<T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 3, j, f).collect()
    }
}
impl<T: Sample> Sample for LinkedList<T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 3, j, f).collect()
    }
}
impl<T: Sample> Sample for VecDeque<T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 3, j, f).collect()
    }
}
impl<T: Sample + Eq + std::hash::Hash> Sample for HashSet<T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 2, j, f).collect()
    }
}
impl<T: Sample + Ord> Sample for BinaryHeap<T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 2, j, f).collect()
    }
}
impl<T: Sample, const N: usize> Sample for [T; N] {
    fn sample(j: usize, f: usize) -> Self {
        std::array::from_fn(|i| s(j + i, f))
    }
}

/// serde implements arrays up to 32 only
pub fn big_array<T: Serialize, S: Serializer, const N: usize>(v: &[T; N], ser: S) -> Result<S::Ok, S::Error> {
    ser.collect_seq(v.iter())
}

macro_rules! tuples { ($($($t:ident $i:expr),+;)*) => { $(
    impl<$($t: Sample),+> Sample for ($($t,)+) {
        fn sample(j: usize, f: usize) -> Self { ($(s::<$t>(j + $i, f),)+) }
    }
)* } }
tuples! {
    A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4;
    A 0, B 1, C 2, D 3, E 4, F 5; A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9;
}

impl<T: Sample> Sample for HashMap<String, T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 2, j, f).map(|v| ("k0".to_owned(), v)).collect()
    }
}
impl<T: Sample> Sample for BTreeMap<String, T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 2, j, f).map(|v| ("k0".to_owned(), v)).collect()
    }
}
impl<T: Sample> Sample for BTreeMap<u32, T> {
    fn sample(j: usize, f: usize) -> Self {
        list(j % 2, j, f).map(|v| (0, v)).collect()
    }
}

// Serializers that stand behind explicit type overrides
pub fn ov_string<T: ?Sized, S: Serializer>(_: &T, ser: S) -> Result<S::Ok, S::Error> {
    ser.serialize_str("ov")
}
pub fn ov_integer<T: ?Sized, S: Serializer>(_: &T, ser: S) -> Result<S::Ok, S::Error> {
    ser.serialize_u8(7)
}
pub fn ov_number<T: ?Sized, S: Serializer>(_: &T, ser: S) -> Result<S::Ok, S::Error> {
    ser.serialize_f64(1.5)
}
pub fn ov_boolean<T: ?Sized, S: Serializer>(_: &T, ser: S) -> Result<S::Ok, S::Error> {
    ser.serialize_bool(true)
}
pub fn ov_any<T: ?Sized, S: Serializer>(_: &T, ser: S) -> Result<S::Ok, S::Error> {
    (1, "x").serialize(ser)
}

// ---------------------------------------------------------------- recording

pub const SAMPLES: usize = 8;
pub const FUEL: usize = 3;

pub fn js<T: Serialize + ?Sized>(v: &T) -> Value {
    serde_json::to_value(v).unwrap_or_else(|e| json!({ "unserializable": e.to_string() }))
}

pub fn wires<T: Sample + Serialize>() -> Value {
    Value::Array((0..SAMPLES).map(|j| js(&T::sample(j, FUEL))).collect())
}

pub fn schemas(cx: &Components) -> Value {
    js(&cx.schemas)
}

pub fn verify(cx: &Components) -> Value {
    match cx.verify_schemas() {
        Ok(()) => json!([]),
        Err(name) => json!([name]),
    }
}

pub fn params(d: Option<&str>, nullable: Option<bool>, format: Option<&str>, example: Option<&str>) -> ContextParams {
    ContextParams {
        description: d.map(Into::into),
        nullable,
        variants: None,
        format: format.map(Into::into),
        example: example.map(Into::into),
    }
}

pub type MentionFn = fn(&mut Components) -> ModelReference;
pub type SchemaFn = fn(&mut Components) -> Model;

pub fn mention_plain<T: OpgModel + ?Sized>(cx: &mut Components) -> ModelReference {
    cx.mention_schema::<T>(false, &ContextParams::default())
}

/// Mentions the roots one after another and records everything observable.
pub fn observe(roots: &[MentionFn], decls: &[(&str, MentionFn, SchemaFn)], wires: Vec<Value>) -> Value {
    let run = |order: &mut dyn Iterator<Item = &MentionFn>| {
        let mut cx = Components::new();
        let mut refs = Vec::new();
        let mut snaps = Vec::new();
        for root in order {
            refs.push(js(&root(&mut cx)));
            snaps.push(schemas(&cx));
        }
        (cx, refs, snaps)
    };
    let (mut cx, refs, snaps) = run(&mut roots.iter());
    let (_, refs2, snaps2) = run(&mut roots.iter());
    let (rev, rev_refs, _) = run(&mut roots.iter().rev());

    let done = schemas(&cx);
    let verified = verify(&cx);
    let again: Vec<_> = roots.iter().map(|root| js(&root(&mut cx))).collect();

    // every declaration on its own
    let mut fresh = Map::new();
    let mut own = Map::new();
    for (name, mention, schema) in decls {
        let mut cx = Components::new();
        mention(&mut cx);
        fresh.insert((*name).to_owned(), js(&cx.schemas.get(*name)));
        let mut cx = Components::new();
        own.insert((*name).to_owned(), js(&schema(&mut cx)));
    }

    json!({
        "refs": refs, "snaps": snaps, "verify": verified, "wires": wires,
        "twice": refs == refs2 && snaps == snaps2,
        "again": again == refs && schemas(&cx) == done,
        "rev": schemas(&rev), "rev_refs": rev_refs.into_iter().rev().collect::<Vec<_>>(),
        "fresh": fresh, "own": own,
    })
}

/// An API description's document, whether it comes out the same again, what verification says of it, and its
/// components when the paths are declared the other way round
pub fn observe_doc(document: fn() -> opg::Opg, reversed: Option<fn() -> opg::Opg>) -> Value {
    let doc = document();
    let mut res = dynamic::written(&doc);
    res["twice"] = json!(serde_json::to_string(&document()).unwrap() == serde_json::to_string(&doc).unwrap());
    res["verify"] = verify(&doc.components);
    if let Some(reversed) = reversed {
        res["rev"] = js(&reversed().components);
    }
    res
}

// ------------------------------------------------------------------ running

fn guarded(id: &str, run: impl Fn() -> Value) {
    let out = std::io::stdout();
    writeln!(out.lock(), "START {}", id).unwrap();
    out.lock().flush().unwrap();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run));
    let res = res.unwrap_or_else(|e| {
        let msg = e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        json!({ "crash": format!("panic: {}", msg) })
    });
    writeln!(out.lock(), "DONE {}", res).unwrap();
}

/// Runs the cases from the `argv[1]`-th on, reporting before and after each,
/// so that a crash or a hang is attributed to the case in progress.
pub fn run_all(cases: &[(&str, fn() -> Value)]) {
    let from: usize = std::env::args().nth(1).map(|x| x.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    for (id, run) in &cases[from..] {
        guarded(id, run);
    }
    println!("END");
}

/// The same for the scripts in the file `argv[2]`, one JSON `[id, script]` per line
pub fn run_scripts() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(&args[2]).unwrap();
    for line in text.lines().skip(args[1].parse().unwrap()) {
        // scripts nest deeper than serde_json's default limit
        let mut reader = serde_json::Deserializer::from_str(line);
        reader.disable_recursion_limit();
        let script: Value = serde::Deserialize::deserialize(&mut reader).unwrap();
        guarded(script[0].as_str().unwrap(), || dynamic::run(&script[1]));
    }
    println!("END");
}
