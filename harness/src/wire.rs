//! Frames, by hand, per the documented layout.
use postcard_rpc::Key;
use serde_json::{json, Value};

pub fn fold(k: Key, w: u64) -> Vec<u8> {
    let n = 8 / w as usize;
    k.to_bytes().chunks(n).map(|c| c.iter().fold(0u8, |a, x| a ^ x)).collect()
}
pub fn encode(key: Key, w: u64, sq: u64, sw: u64, body: &[u8]) -> Vec<u8> {
    let nn = match w { 1 => 0u8, 2 => 1, 4 => 2, _ => 3 };
    let mm = match sw { 1 => 0u8, 2 => 1, _ => 2 };
    let mut v = vec![(nn << 6) | (mm << 4)];
    v.extend(fold(key, w));
    v.extend(&sq.to_le_bytes()[..sw as usize]);
    v.extend(body);
    v
}
pub struct Parts {
    pub w: u64,
    pub key: Vec<u8>,
    pub sq: u64,
    pub sw: u64,
    pub body: Vec<u8>,
}
pub fn decode(v: &[u8]) -> Option<Parts> {
    let d = *v.first()?;
    let w = 1u64 << (d >> 6);
    let sw = match (d >> 4) & 3 { 0 => 1u64, 1 => 2, 2 => 4, _ => return None };
    if d & 15 != 0 || v.len() < 1 + (w + sw) as usize {
        return None;
    }
    let a = 1 + w as usize;
    let b = a + sw as usize;
    let sq = v[a..b].iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    Some(Parts { w, key: v[1..a].to_vec(), sq, sw, body: v[b..].to_vec() })
}
pub fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}
pub fn unvarint(b: &[u8]) -> Option<u64> {
    let mut r = 0u64;
    for (i, x) in b.iter().enumerate() {
        if i > 8 {
            return None;
        }
        r |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return if i + 1 == b.len() { Some(r) } else { None };
        }
    }
    None
}
/// Message bodies: value `b` is a varint followed by `b`-dependent filler, so that bodies of many
/// lengths occur; EMPTY has no bytes at all, and 99 stands for bytes that do not decode.
pub const EMPTY: u64 = 13;
fn filler(b: u64) -> Vec<u8> {
    let n = [0, 1, 37, 0, 130, 4, 300, 0, 11, 600, 0, 5000, 2][b as usize % 13];
    (0..n).map(|i| [0, 0xff, b as u8, i as u8, 0x80, 0x7f][(i + b) as usize % 6]).collect()
}
const BADS: [&[u8]; 4] = [&[0x80], &[12, 0], &[0xff; 12], &[17, 0]];
pub fn body_bytes(b: u64) -> Vec<u8> {
    bad_or(b, 0)
}
/// salt picks which undecodable bytes stand for 99
pub fn bad_or(b: u64, salt: u64) -> Vec<u8> {
    match b {
        99 => BADS[salt as usize % BADS.len()].to_vec(),
        EMPTY => vec![],
        _ => [varint(b), filler(b)].concat(),
    }
}
pub fn body_val(b: &[u8]) -> i64 {
    if b.is_empty() {
        return EMPTY as i64;
    }
    if BADS.contains(&b) {
        return 99;
    }
    let n = b.iter().take_while(|x| **x & 0x80 != 0).count() + 1;
    match unvarint(&b[..n.min(b.len())]) {
        Some(v) if v != EMPTY && b[n..] == filler(v) => v as i64,
        _ => -7,
    }
}
/// What the handlers, calls and subscriptions carry: `W` only selects the schema it has.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Msg<const W: usize>(pub u64);
pub type M4 = Msg<4>;
pub type M8 = Msg<8>;
impl postcard_schema::Schema for M4 {
    const SCHEMA: &'static postcard_schema::schema::NamedType = <u32 as postcard_schema::Schema>::SCHEMA;
}
impl postcard_schema::Schema for M8 {
    const SCHEMA: &'static postcard_schema::schema::NamedType = <u64 as postcard_schema::Schema>::SCHEMA;
}
impl<const W: usize> serde::Serialize for Msg<W> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let v = body_bytes(self.0);
        let mut t = s.serialize_tuple(v.len())?;
        for x in &v {
            t.serialize_element(x)?;
        }
        t.end()
    }
}
impl<'de, const W: usize> serde::Deserialize<'de> for Msg<W> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = u64;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a message")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<u64, A::Error> {
                let mut b = vec![];
                // the frame's body is all there is to read
                while let Ok(Some(x)) = a.next_element::<u8>() {
                    b.push(x);
                }
                match body_val(&b) {
                    v if v >= 0 && v != 99 => Ok(v as u64),
                    _ => Err(serde::de::Error::custom("bad body")),
                }
            }
        }
        d.deserialize_tuple(16384, V).map(Msg)
    }
}
pub fn frame_json(k: i64, w: u64, sq: u64, sw: u64, b: i64) -> Value {
    json!({"k":k,"w":w,"sq":sq.min(2147483647),"sw":sw,"b":b})
}
/// frames without a well-formed header, made from a well-formed one
pub fn garbage(key: Key, g: u64) -> Vec<u8> {
    match g {
        1 => vec![],
        // header cut short inside the key / the sequence number
        2 => encode(key, 8, 0, 4, &[])[..6].to_vec(),
        3 => encode(key, 8, 0, 4, &[])[..11].to_vec(),
        // reserved sequence length
        4 => {
            let mut v = encode(key, 1, 0, 4, &[1]);
            v[0] |= 0x30;
            v
        }
        // unknown protocol version, otherwise valid
        5 => {
            let mut v = encode(key, 8, 0, 4, &[1]);
            v[0] |= 1;
            v
        }
        _ => {
            let mut v = encode(key, 8, 0, 1, &[7]);
            v[0] |= 8;
            v
        }
    }
}
