//! Driver for spec/TypeSet.tla: the type list collectors, on trees built at run time and on the
//! lists the macros compute at compile time.
use crate::server;
use crate::util::*;
use postcard_rpc::standard_icd as std_icd;
use postcard_rpc::uniques::*;
use postcard_rpc::{endpoints, topics, Endpoint, Topic, TopicDirection};
use postcard_schema::schema::{DataModelType, DataModelVariant, NamedType, NamedValue, NamedVariant};
use postcard_schema::schema::owned::OwnedNamedType;
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
fn s(v: &Value) -> &'static str {
    Box::leak(v.as_str().unwrap().to_string().into_boxed_str())
}
fn kids(v: &Value) -> &'static [&'static NamedType] {
    Box::leak(v["c"].as_array().unwrap().iter().map(build).collect::<Vec<_>>().into_boxed_slice())
}
fn vals(v: &Value) -> &'static [&'static NamedValue] {
    let l: Vec<&'static NamedValue> = v["c"].as_array().unwrap().iter().zip(v["f"].as_array().unwrap())
        .map(|(c, f)| leak(NamedValue { name: s(f), ty: build(c) })).collect();
    Box::leak(l.into_boxed_slice())
}
fn variant(v: &Value) -> &'static NamedVariant {
    let ty = match v["k"].as_str().unwrap() {
        "v-unit" => DataModelVariant::UnitVariant,
        "v-newtype" => DataModelVariant::NewtypeVariant(build(&v["c"][0])),
        "v-tuple" => DataModelVariant::TupleVariant(kids(v)),
        _ => DataModelVariant::StructVariant(vals(v)),
    };
    leak(NamedVariant { name: s(&v["n"]), ty: leak(ty) })
}
pub fn build(v: &Value) -> &'static NamedType {
    use DataModelType::*;
    let ty = match v["k"].as_str().unwrap() {
        "bool" => Bool, "i8" => I8, "u8" => U8, "i16" => I16, "i32" => I32, "i64" => I64, "i128" => I128,
        "u16" => U16, "u32" => U32, "u64" => U64, "u128" => U128, "usize" => Usize, "isize" => Isize,
        "f32" => F32, "f64" => F64, "char" => Char, "string" => String, "bytearray" => ByteArray,
        "unit" => Unit, "schema" => Schema, "unitstruct" => UnitStruct,
        "option" => Option(build(&v["c"][0])),
        "newtype" => NewtypeStruct(build(&v["c"][0])),
        "seq" => Seq(build(&v["c"][0])),
        "tuple" => Tuple(kids(v)),
        "tuplestruct" => TupleStruct(kids(v)),
        "map" => Map { key: build(&v["c"][0]), val: build(&v["c"][1]) },
        "struct" => Struct(vals(v)),
        "enum" => {
            let l: Vec<&'static NamedVariant> = v["c"].as_array().unwrap().iter().map(variant).collect();
            Enum(Box::leak(l.into_boxed_slice()))
        }
        x => panic!("kind {x}"),
    };
    leak(NamedType { name: s(&v["n"]), ty: leak(ty) })
}
fn node(n: &str, k: &str, f: Vec<&str>, c: Vec<Value>) -> Value {
    json!({"n": n, "k": k, "f": f, "c": c})
}
fn fields(nm: &str, k: &str, l: &[&NamedValue]) -> Value {
    node(nm, k, l.iter().map(|x| x.name).collect(), l.iter().map(|x| tree(x.ty)).collect())
}
pub fn tree(t: &NamedType) -> Value {
    use DataModelType::*;
    let p = |k: &str| node(t.name, k, vec![], vec![]);
    let one = |k: &str, x: &NamedType| node(t.name, k, vec![], vec![tree(x)]);
    let many = |k: &str, l: &[&NamedType]| node(t.name, k, vec![], l.iter().map(|x| tree(x)).collect());
    match t.ty {
        Bool => p("bool"), I8 => p("i8"), U8 => p("u8"), I16 => p("i16"), I32 => p("i32"), I64 => p("i64"),
        I128 => p("i128"), U16 => p("u16"), U32 => p("u32"), U64 => p("u64"), U128 => p("u128"),
        Usize => p("usize"), Isize => p("isize"), F32 => p("f32"), F64 => p("f64"), Char => p("char"),
        String => p("string"), ByteArray => p("bytearray"), Unit => p("unit"), Schema => p("schema"),
        UnitStruct => p("unitstruct"),
        Option(x) => one("option", x),
        NewtypeStruct(x) => one("newtype", x),
        Seq(x) => one("seq", x),
        Tuple(l) => many("tuple", l),
        TupleStruct(l) => many("tuplestruct", l),
        Map { key, val } => node(t.name, "map", vec![], vec![tree(key), tree(val)]),
        Struct(l) => fields(t.name, "struct", l),
        Enum(l) => node(t.name, "enum", vec![], l.iter().map(|v| match v.ty {
            DataModelVariant::UnitVariant => node(v.name, "v-unit", vec![], vec![]),
            DataModelVariant::NewtypeVariant(x) => node(v.name, "v-newtype", vec![], vec![tree(x)]),
            DataModelVariant::TupleVariant(l) => node(v.name, "v-tuple", vec![], l.iter().map(|x| tree(x)).collect()),
            DataModelVariant::StructVariant(l) => fields(v.name, "v-struct", l),
        }).collect()),
    }
}
fn trees(l: &[&'static NamedType]) -> Value {
    l.iter().map(|t| tree(t)).collect()
}

type L = Vec<&'static NamedType>;
fn crunch_n<const A: usize>(o: &[Option<&'static NamedType>]) -> L {
    cruncher::<A>(o).to_vec()
}
fn crunch(o: &[Option<&'static NamedType>], used: usize) -> L {
    macro_rules! go { ($($x:literal)*) => { match used { $($x => crunch_n::<$x>(o),)* _ => o[..used].iter().map(|x| x.unwrap()).collect() } } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
fn collect_n<const M: usize>(t: &'static NamedType) -> L {
    let (a, used) = type_chewer_nty::<M>(t);
    crunch(&a, used)
}
fn collect(t: &'static NamedType) -> L {
    macro_rules! go { ($u:ident; $($x:literal)*) => { match $u { $($x => collect_n::<$x>(t),)*
        ..=64 => collect_n::<64>(t), ..=128 => collect_n::<128>(t), ..=512 => collect_n::<512>(t), _ => collect_n::<4096>(t) } } }
    let u = unique_types_nty_upper(t);
    go!(u; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
fn merge_n<const M: usize>(ls: &[&[&'static NamedType]]) -> L {
    let (a, used) = merge_nty_lists::<M>(ls);
    crunch(&a, used)
}
fn merge(ls: &[&[&'static NamedType]]) -> L {
    let n = total_len(ls);
    macro_rules! go { ($($x:literal)*) => { match n { $($x => merge_n::<$x>(ls),)*
        ..=64 => merge_n::<64>(ls), ..=128 => merge_n::<128>(ls), ..=512 => merge_n::<512>(ls), _ => merge_n::<4096>(ls) } } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}

// ------------------------------------------------------------ compile time
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Leaf { pub a: u8 }
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Marker;
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Wrap(pub Leaf);
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Pair(pub Leaf, pub Option<Wrap>);
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub enum Inner { X, Y(Wrap), Z { k: Marker, l: Vec<Leaf> } }
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Deepest { pub z: [i16; 3] }
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Deep { pub d: Deepest, pub e: Vec<u16> }
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub enum Tree1 { A(Deep), B(Inner, Pair), C { m: BTreeMap<u8, Inner> }, D }
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Req1 { pub a: u8, pub b: Option<Leaf> }
#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Resp1 { pub c: [u8; 4], pub d: Result<Wrap, Inner> }

/// Types whose schema is a primitive no built-in Rust type maps to.
macro_rules! raw { ($($t:ident $k:ident),*) => { $(
    #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
    pub struct $t;
    impl Schema for $t { const SCHEMA: &'static NamedType = &NamedType { name: stringify!($t), ty: &DataModelType::$k }; }
)* } }
raw!(Bytes ByteArray, Wide Usize, Off Isize);

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | E1 | Req1 | Resp1 | "rich/one" |
    | E2 | Tree1 | Marker | "rich/two" |
    | E3 | u32 | Deep | "rich/three" |
    | P1 | bool | i8 | "prim/1" |
    | P2 | u8 | i16 | "prim/2" |
    | P3 | i32 | i64 | "prim/3" |
    | P4 | i128 | u16 | "prim/4" |
    | P5 | u64 | u128 | "prim/5" |
    | P6 | f32 | f64 | "prim/6" |
    | P7 | char | String | "prim/7" |
    | P8 | () | OwnedNamedType | "prim/8" |
    | P9 | Bytes | Wide | "prim/9" |
    | P10 | Off | Bytes | "prim/10" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | I1 | Pair | "rich/in/one" |
    | I2 | String | "rich/in/two" |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
    | O1 | Inner | "rich/out/one" |
    | O2 | i64 | "rich/out/two" |
}
endpoints! {
    list = EPS_ONLY;
    omit_std = true;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | F1 | Tree1 | Resp1 | "rich/one" |
}
fn ep<E: Endpoint>(v: &mut L) where E::Request: Schema, E::Response: Schema {
    v.push(<E::Request as Schema>::SCHEMA);
    v.push(<E::Response as Schema>::SCHEMA);
}
fn tp<T: Topic>(v: &mut L) where T::Message: Schema {
    v.push(<T::Message as Schema>::SCHEMA);
}
fn rec(roots: &L, list: &[&'static NamedType]) -> Value {
    json!({"op": "static", "ts": trees(roots), "list": trees(list)})
}
pub fn statics() -> Vec<Value> {
    let mut out = vec![];
    macro_rules! single { ($($t:ty),*) => { $( out.push(rec(&vec![<$t as Schema>::SCHEMA], postcard_rpc::unique_types!($t))); )* } }
    single!(u8, (), String, Leaf, Marker, Wrap, Pair, Inner, Tree1, Deep, Req1, Resp1, Option<Option<Leaf>>, Vec<Tree1>,
        (Leaf, Leaf, Wrap), [Leaf; 3], Result<Deep, Tree1>, BTreeMap<String, Pair>);
    out.push(rec(&vec![Tree1::SCHEMA, Leaf::SCHEMA, u8::SCHEMA, Resp1::SCHEMA, Tree1::SCHEMA],
        postcard_rpc::merge_unique_types![Tree1, Leaf, u8, Resp1, Tree1,]));
    let (mut e, mut i, mut o, mut es) = (vec![], vec![], vec![], vec![]);
    ep::<std_icd::PingEndpoint>(&mut es);
    ep::<std_icd::GetAllSchemasEndpoint>(&mut es);
    ep::<E1>(&mut e); ep::<E2>(&mut e); ep::<E3>(&mut e);
    ep::<P1>(&mut e); ep::<P2>(&mut e); ep::<P3>(&mut e); ep::<P4>(&mut e); ep::<P5>(&mut e);
    ep::<P6>(&mut e); ep::<P7>(&mut e); ep::<P8>(&mut e); ep::<P9>(&mut e); ep::<P10>(&mut e);
    tp::<I1>(&mut i); tp::<I2>(&mut i);
    tp::<std_icd::GetAllSchemaDataTopic>(&mut o); tp::<std_icd::LoggingTopic>(&mut o);
    out.push(rec(&o, std_icd::STANDARD_ICD_TOPICS_OUT.types));
    out.push(rec(&vec![], std_icd::STANDARD_ICD_TOPICS_IN.types));
    out.push(rec(&es, std_icd::STANDARD_ICD_ENDPOINTS.types));
    tp::<O1>(&mut o); tp::<O2>(&mut o);
    e.extend(es.iter());
    out.push(rec(&e, EPS.types));
    out.push(rec(&i, TIN.types));
    out.push(rec(&o, TOUT.types));
    out.push(rec(&vec![Tree1::SCHEMA, Resp1::SCHEMA], EPS_ONLY.types));
    let all: L = [e.clone(), i, o.clone()].concat();
    out.push(rec(&all, crate::schema::device_map().types));
    // the applications of the server driver
    let mut prim = es;
    prim.extend(&[u32::SCHEMA, u64::SCHEMA]);
    tp::<std_icd::GetAllSchemaDataTopic>(&mut prim);
    for (name, _) in server::APPS {
        out.push(rec(&prim, server::make(name, &Default::default()).map.types));
    }
    out
}

fn case(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "one" => {
            let t = build(&c["t"]);
            json!({"op": "one", "t": c["t"], "upper": unique_types_nty_upper(t), "list": trees(&collect(t))})
        }
        "merge" => {
            let lists: Vec<L> = c["ts"].as_array().unwrap().iter().map(|t| collect(build(t))).collect();
            let refs: Vec<&[&'static NamedType]> = lists.iter().map(|l| &l[..]).collect();
            let m = merge(&refs);
            json!({"op": "merge", "ts": c["ts"], "lists": lists.iter().map(|l| trees(l)).collect::<Vec<_>>(), "list": trees(&m)})
        }
        _ => statics().get(c["i"].as_u64().unwrap() as usize).cloned().expect("static case"),
    }
}
pub fn main(inp: &str, out: &str) {
    let scripts = read_lines(inp);
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &scripts {
        let id = s["id"].as_u64().unwrap();
        wd.tick(id);
        take_panics();
        let r = std::panic::catch_unwind(|| case(s));
        let p = take_panics();
        o.line(&match r {
            Ok(mut v) if p.is_empty() => {
                v["id"] = json!(id);
                v["ok"] = json!(true);
                v
            }
            _ => json!({"id": id, "in": s, "panic": p, "ok": false}),
        });
    }
    o.finish();
}
