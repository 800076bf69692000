//! What the macros computed, as JSON.
#![allow(dead_code)]
use postcard_rpc::{standard_icd as icd, DeviceMap, Endpoint, EndpointMap, Key, Topic, TopicDirection, TopicMap};
use postcard_schema::schema::{DataModelType, DataModelVariant, NamedType, NamedValue};
use postcard_schema::Schema;
use serde_json::{json, Value};

fn node(n: &str, k: &str, f: Vec<&str>, c: Vec<Value>) -> Value {
    json!({"n": n.as_bytes(), "k": k, "f": f.iter().map(|x| x.as_bytes()).collect::<Vec<_>>(), "c": c})
}
fn fields(nm: &str, k: &str, l: &[&NamedValue]) -> Value {
    node(nm, k, l.iter().map(|x| x.name).collect(), l.iter().map(|x| tree(x.ty)).collect())
}
pub fn tree(t: &NamedType) -> Value {
    use DataModelType::*;
    let p = |k: &str| node(t.name, k, vec![], vec![]);
    let one = |k: &str, x: &NamedType| node(t.name, k, vec![], vec![tree(x)]);
    let many = |k: &str, l: &[&NamedType]| node(t.name, k, vec![], l.iter().map(|x| tree(x)).collect());
    match t.ty {
        Bool => p("bool"), I8 => p("i8"), U8 => p("u8"), I16 => p("i16"), I32 => p("i32"), I64 => p("i64"),
        I128 => p("i128"), U16 => p("u16"), U32 => p("u32"), U64 => p("u64"), U128 => p("u128"),
        Usize => p("usize"), Isize => p("isize"), F32 => p("f32"), F64 => p("f64"), Char => p("char"),
        String => p("string"), ByteArray => p("bytearray"), Unit => p("unit"), Schema => p("schema"),
        UnitStruct => p("unitstruct"),
        Option(x) => one("option", x),
        NewtypeStruct(x) => one("newtype", x),
        Seq(x) => one("seq", x),
        Tuple(l) => many("tuple", l),
        TupleStruct(l) => many("tuplestruct", l),
        Map { key, val } => node(t.name, "map", vec![], vec![tree(key), tree(val)]),
        Struct(l) => fields(t.name, "struct", l),
        Enum(l) => node(t.name, "enum", vec![], l.iter().map(|v| match v.ty {
            DataModelVariant::UnitVariant => node(v.name, "v-unit", vec![], vec![]),
            DataModelVariant::NewtypeVariant(x) => node(v.name, "v-newtype", vec![], vec![tree(x)]),
            DataModelVariant::TupleVariant(l) => node(v.name, "v-tuple", vec![], l.iter().map(|x| tree(x)).collect()),
            DataModelVariant::StructVariant(l) => fields(v.name, "v-struct", l),
        }).collect()),
    }
}
pub fn trees(l: &[&'static NamedType]) -> Value {
    l.iter().map(|t| tree(t)).collect()
}
pub fn erow(r: &(&str, Key, Key)) -> Value {
    json!({"p": r.0.as_bytes(), "rq": r.1.to_bytes(), "rs": r.2.to_bytes()})
}
pub fn trow(r: &(&str, Key)) -> Value {
    json!({"p": r.0.as_bytes(), "k": r.1.to_bytes()})
}
pub fn ep<E: Endpoint>() -> Value {
    erow(&(E::PATH, E::REQ_KEY, E::RESP_KEY))
}
pub fn tp<T: Topic>() -> Value {
    trow(&(T::PATH, T::TOPIC_KEY))
}
pub fn dir(d: TopicDirection) -> &'static str {
    match d {
        TopicDirection::ToServer => "in",
        TopicDirection::ToClient => "out",
    }
}
pub fn lists(e: &EndpointMap, i: &TopicMap, o: &TopicMap) -> Value {
    json!({"eps": e.endpoints.iter().map(erow).collect::<Vec<_>>(), "tin": i.topics.iter().map(trow).collect::<Vec<_>>(),
        "tout": o.topics.iter().map(trow).collect::<Vec<_>>(), "etys": trees(e.types), "itys": trees(i.types), "otys": trees(o.types),
        "dirs": [dir(i.direction), dir(o.direction)]})
}
pub fn device(v: &mut Value, m: &DeviceMap) {
    v["deps"] = m.endpoints.iter().map(erow).collect();
    v["dtin"] = m.topics_in.iter().map(trow).collect();
    v["dtout"] = m.topics_out.iter().map(trow).collect();
    v["dtys"] = trees(m.types);
}
fn e_types<E: Endpoint>(v: &mut Vec<Value>)
where
    E::Request: Schema,
    E::Response: Schema,
{
    v.push(tree(<E::Request as Schema>::SCHEMA));
    v.push(tree(<E::Response as Schema>::SCHEMA));
}
fn t_types<T: Topic>(v: &mut Vec<Value>)
where
    T::Message: Schema,
{
    v.push(tree(<T::Message as Schema>::SCHEMA));
}
pub fn std_types() -> Value {
    let (mut e, mut o) = (vec![], vec![]);
    e_types::<icd::PingEndpoint>(&mut e);
    e_types::<icd::GetAllSchemasEndpoint>(&mut e);
    t_types::<icd::GetAllSchemaDataTopic>(&mut o);
    t_types::<icd::LoggingTopic>(&mut o);
    json!({"eps": e, "tin": Vec::<Value>::new(), "tout": o})
}
pub fn std_lists() -> Value {
    let mut v = lists(&icd::STANDARD_ICD_ENDPOINTS, &icd::STANDARD_ICD_TOPICS_IN, &icd::STANDARD_ICD_TOPICS_OUT);
    v["op"] = json!("std");
    v["std"] = std_types();
    v["errkey"] = json!(icd::ERROR_KEY.to_bytes());
    v["errpath"] = json!(icd::ERROR_PATH.as_bytes());
    v["errtree"] = tree(icd::WireError::SCHEMA);
    v
}
