//! The message types the declarations use; `Ty!(n)` is the n-th.
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
macro_rules! ty { ($($(#[$m:meta])* $v:item)*) => { $(#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)] $v)* } }
ty! {
    pub struct Leaf { pub a: u8 }
    pub struct Leaf2 { pub a: u8 }
    pub struct Other { pub b: u8 }
    pub struct Marker;
    pub struct Wrap(pub Leaf);
    pub struct Pair(pub Leaf, pub Option<Wrap>);
    pub enum Inner { X, Y(Wrap), Z { k: Marker, l: Vec<Leaf> }, T(u8, Leaf2) }
    pub enum Plain { A, B, C }
    pub struct Deep { pub d: [i16; 3], pub e: Vec<u16>, pub f: (u8, (i32, Inner)) }
    pub struct Wide { pub a: f32, pub b: f64, pub c: char, pub d: i128, pub e: u128, pub g: bool, pub h: i8, pub i: i64 }
    pub struct Maps { pub m: std::collections::BTreeMap<String, Plain>, pub r: Result<Deep, Plain> }
    pub struct Bor<'a> { pub s: &'a str, pub b: &'a [u8] }
    pub struct Bor2<'a>(pub &'a str);
}
