//! Driver for spec/Wire.tla: the header and key code on given inputs.
use crate::server;
use crate::util::*;
use postcard_rpc::header::*;
use postcard_rpc::host_client::RpcFrame;
use postcard_rpc::server::min_key_needed;
use postcard_rpc::standard_icd as icd;
use postcard_rpc::{Endpoint, Key, Key1, Key2, Key4, Topic};
use serde_json::{json, Value};
use std::time::Duration;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
/// The only public way to keys of less than full width is to decode them.
fn header(key: &[u8], seq: &[u8]) -> VarHeader {
    let lg = |n: usize| match n { 1 => 0u8, 2 => 1, 4 => 2, _ => 3 };
    let mut b = vec![lg(key.len()) << 6 | lg(seq.len()) << 4];
    b.extend(key);
    b.extend(seq);
    VarHeader::take_from_slice(&b).expect("a well-formed header").0
}
fn varkey(key: &[u8]) -> VarKey {
    header(key, &[0]).key
}
fn varseq(b: &[u8]) -> VarSeq {
    match b.len() {
        1 => VarSeq::Seq1(b[0]),
        2 => VarSeq::Seq2(u16::from_le_bytes([b[0], b[1]])),
        _ => VarSeq::Seq4(u32::from_le_bytes([b[0], b[1], b[2], b[3]])),
    }
}
fn kb(k: &VarKey) -> Vec<u8> {
    match k {
        VarKey::Key1(k) => vec![k.to_bytes()],
        VarKey::Key2(k) => k.to_bytes().to_vec(),
        VarKey::Key4(k) => k.to_bytes().to_vec(),
        VarKey::Key8(k) => k.to_bytes().to_vec(),
    }
}
fn sb(s: &VarSeq) -> Vec<u8> {
    match s {
        VarSeq::Seq1(x) => vec![*x],
        VarSeq::Seq2(x) => x.to_le_bytes().to_vec(),
        VarSeq::Seq4(x) => x.to_le_bytes().to_vec(),
    }
}
fn kind(w: u64) -> VarKeyKind {
    match w { 1 => VarKeyKind::Key1, 2 => VarKeyKind::Key2, 4 => VarKeyKind::Key4, _ => VarKeyKind::Key8 }
}
fn skind(w: u64) -> VarSeqKind {
    match w { 1 => VarSeqKind::Seq1, 2 => VarSeqKind::Seq2, _ => VarSeqKind::Seq4 }
}
fn dec(b: &[u8]) -> Value {
    match VarHeader::take_from_slice(b) {
        None => json!({"ok": false}),
        Some((h, r)) => json!({"ok": true, "key": kb(&h.key), "seq": sb(&h.seq_no), "rest": r}),
    }
}
fn opt(k: Option<Vec<u8>>) -> Value {
    match k {
        None => json!({"ok": false}),
        Some(k) => json!({"ok": true, "key": k}),
    }
}

fn case(c: &Value) -> Value {
    match c["op"].as_str().unwrap() {
        "enc" => {
            let h = header_of(c);
            let body = bytes(&c["body"]);
            let fill = c["fill"].as_u64().unwrap() as u8;
            let mut buf = vec![fill; c["buf"].as_u64().unwrap() as usize];
            let slice = match h.write_to_slice(&mut buf) {
                None => json!({"ok": false}),
                Some((u, r)) => json!({"ok": true, "used": u.to_vec(), "rest": r.len()}),
            };
            let vec = h.write_to_vec();
            let mut whole = vec.clone();
            whole.extend(&body);
            let frame = RpcFrame { header: h, body }.to_bytes();
            json!({"vec": vec, "frame": frame, "slice": slice, "buf": buf, "back": dec(&whole)})
        }
        "dec" => dec(&bytes(&c["b"])),
        "shrink" => {
            let mut k = varkey(&bytes(&c["key"]));
            k.shrink_to(kind(c["a"].as_u64().unwrap()));
            let a = kb(&k);
            k.shrink_to(kind(c["b"].as_u64().unwrap()));
            json!({"a": a, "b": kb(&k)})
        }
        "eq" => {
            let (ka, kb) = (bytes(&c["key"]), bytes(&c["other"]));
            let (a, b) = (varkey(&ka), varkey(&kb));
            let (ha, hb) = (header(&ka, &[1, 2]), header(&kb, &[1, 2]));
            json!({"ab": a == b, "ba": b == a, "hab": ha == hb, "hba": hb == ha})
        }
        "conv" => {
            let k = varkey(&bytes(&c["key"]));
            let mut more: Vec<Vec<u8>> = vec![];
            match k {
                VarKey::Key8(k) => {
                    more.push(vec![Key1::from(k).to_bytes()]);
                    more.push(Key2::from(k).to_bytes().to_vec());
                    more.push(Key4::from(k).to_bytes().to_vec());
                    more.push(vec![Key1::from_key8(k).to_bytes()]);
                    more.push(Key2::from_key8(k).to_bytes().to_vec());
                    more.push(Key4::from_key8(k).to_bytes().to_vec());
                }
                VarKey::Key4(k) => {
                    more.push(vec![Key1::from(k).to_bytes()]);
                    more.push(Key2::from(k).to_bytes().to_vec());
                    more.push(vec![Key1::from_key4(k).to_bytes()]);
                    more.push(Key2::from_key4(k).to_bytes().to_vec());
                }
                VarKey::Key2(k) => {
                    more.push(vec![Key1::from(k).to_bytes()]);
                    more.push(vec![Key1::from_key2(k).to_bytes()]);
                }
                VarKey::Key1(_) => {}
            }
            let w = match k.kind() { VarKeyKind::Key1 => 1, VarKeyKind::Key2 => 2, VarKeyKind::Key4 => 4, VarKeyKind::Key8 => 8 };
            if w != kb(&k).len() {
                more.push(vec![]);
            }
            json!({
                "k1": opt(Key1::try_from(&k).ok().map(|k| vec![k.to_bytes()])),
                "k2": opt(Key2::try_from(&k).ok().map(|k| k.to_bytes().to_vec())),
                "k4": opt(Key4::try_from(&k).ok().map(|k| k.to_bytes().to_vec())),
                "k8": opt(Key::try_from(&k).ok().map(|k| k.to_bytes().to_vec())),
                "more": more,
            })
        }
        "seq" => {
            let s = varseq(&bytes(&c["seq"]));
            let o = varseq(&bytes(&c["other"]));
            let mut r = s;
            r.resize(skind(c["to"].as_u64().unwrap()));
            let (u1, u2, u4): (u8, u16, u32) = (s.into(), s.into(), s.into());
            json!({"to": sb(&r), "eq": s == o, "qe": o == s,
                "u1": [u1], "u2": u2.to_le_bytes().to_vec(), "u4": u4.to_le_bytes().to_vec()})
        }
        "min" => {
            let lists: Vec<Vec<Key>> = c["lists"].as_array().unwrap().iter().map(|l| {
                l.as_array().unwrap().iter().map(|k| {
                    let mut a = [0u8; 8];
                    a.copy_from_slice(&bytes(k));
                    unsafe { Key::from_bytes(a) }
                }).collect()
            }).collect();
            let refs: Vec<&[Key]> = lists.iter().map(|l| &l[..]).collect();
            // duplicates are refused by panicking
            let r = std::panic::catch_unwind(|| min_key_needed(&refs)).unwrap_or(0);
            take_panics();
            json!({"n": r})
        }
        x => panic!("unknown op {x}"),
    }
}
fn header_of(c: &Value) -> VarHeader {
    header(&bytes(&c["key"]), &bytes(&c["seq"]))
}

fn consts<E: Endpoint>() -> Vec<Value> {
    vec![
        json!({"in": {"op":"const","key": E::REQ_KEY.to_bytes()},
            "out": {"1": [E::REQ_KEY1.to_bytes()], "2": E::REQ_KEY2.to_bytes(), "4": E::REQ_KEY4.to_bytes()}}),
        json!({"in": {"op":"const","key": E::RESP_KEY.to_bytes()},
            "out": {"1": [E::RESP_KEY1.to_bytes()], "2": E::RESP_KEY2.to_bytes(), "4": E::RESP_KEY4.to_bytes()}}),
    ]
}
fn tconsts<T: Topic>() -> Value {
    json!({"in": {"op":"const","key": T::TOPIC_KEY.to_bytes()},
        "out": {"1": [T::TOPIC_KEY1.to_bytes()], "2": T::TOPIC_KEY2.to_bytes(), "4": T::TOPIC_KEY4.to_bytes()}})
}
fn extras(what: &str) -> Vec<Value> {
    let mut v = vec![];
    if what == "consts" {
        v.extend(consts::<icd::PingEndpoint>());
        v.extend(consts::<icd::GetAllSchemasEndpoint>());
        v.push(tconsts::<icd::LoggingTopic>());
        v.push(tconsts::<icd::GetAllSchemaDataTopic>());
        v.extend(consts::<server::a1::EpB>());
        v.extend(consts::<server::a8i::EpS>());
        v.push(tconsts::<server::a4i::TpB>());
        v.push(tconsts::<server::a4i::Out>());
    } else {
        // the key length the dispatcher chose, and every key it can receive or send
        for (name, _) in server::APPS {
            let a = server::make(name, &Default::default());
            let mut ins: Vec<_> = a.ins[..8].iter().map(|k| k.to_bytes()).collect();
            ins.push(icd::GetAllSchemasEndpoint::REQ_KEY.to_bytes());
            let outs: Vec<_> = a.outs.iter().map(|k| k.1.to_bytes()).collect();
            v.push(json!({"in": {"op":"app","name":name},
                "out": {"ins": ins, "outs": outs, "n": a.n, "map": server::width(a.map.min_key_len)}}));
        }
    }
    v
}

pub fn main(inp: &str, out: &str) {
    let scripts = read_lines(inp);
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &scripts {
        let id = s["id"].as_u64().unwrap();
        wd.tick(id);
        take_panics();
        if s["op"] == "extra" {
            // several records: a property of the build, not of an input
            let all = extras(s["what"].as_str().unwrap());
            let i = s["i"].as_u64().unwrap() as usize;
            let mut r = all.get(i).cloned().unwrap_or(json!({"in":{"op":"none"}}));
            r["id"] = json!(id);
            r["ok"] = json!(true);
            o.line(&r);
            continue;
        }
        let r = std::panic::catch_unwind(|| case(s));
        let p = take_panics();
        o.line(&match r {
            Ok(v) if p.is_empty() => json!({"id": id, "in": s, "out": v, "ok": true}),
            _ => json!({"id": id, "in": s, "out": {"panic": p}, "ok": false}),
        });
    }
    o.finish();
}
