//! Driver for UsbTx.tla.
use crate::exec::*;
use crate::on_tx;
use crate::usb::*;
use postcard_rpc::header::*;
use postcard_rpc::server::{WireTx, WireTxErrorKind};
use postcard_rpc::standard_icd::LoggingTopic;
use postcard_rpc::{Key, Topic};
use serde::ser::SerializeTuple;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

/// a message body of exactly these bytes
pub struct Bytes(pub Vec<u8>);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_tuple(self.0.len())?;
        for b in &self.0 {
            t.serialize_element(b)?;
        }
        t.end()
    }
}
pub fn fold(k: Key, w: usize) -> Vec<u8> {
    k.to_bytes().chunks(8 / w).map(|c| c.iter().fold(0u8, |a, x| a ^ x)).collect()
}
/// header bytes, by hand
pub fn head(k: Key, w: usize, sq: u32, sw: usize) -> Vec<u8> {
    let mut v = vec![(w.trailing_zeros() as u8) << 6 | (sw.trailing_zeros() as u8) << 4];
    v.extend(fold(k, w));
    v.extend(&sq.to_le_bytes()[..sw]);
    v
}
pub fn varint(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n > 127 {
        v.push(n as u8 | 0x80);
        n >>= 7;
    }
    v.push(n as u8);
    v
}
pub fn hdr(k: Key, w: usize, sq: u32, sw: usize) -> VarHeader {
    let mut key = VarKey::Key8(k);
    key.shrink_to(kind(w));
    VarHeader { key, seq_no: match sw { 1 => VarSeq::Seq1(sq as u8), 2 => VarSeq::Seq2(sq as u16), _ => VarSeq::Seq4(sq) } }
}
pub fn kind(w: usize) -> VarKeyKind {
    match w { 1 => VarKeyKind::Key1, 2 => VarKeyKind::Key2, 4 => VarKeyKind::Key4, _ => VarKeyKind::Key8 }
}
pub fn res(r: Result<(), WireTxErrorKind>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(WireTxErrorKind::ConnectionClosed) => "closed",
        Err(WireTxErrorKind::Timeout) => "timeout",
        Err(_) => "other",
    }
}
fn byte(i: usize, off: usize) -> u8 {
    (i * 37 + off * 11 + off / 64 * 5 + off / 256) as u8
}
fn text(i: usize, n: usize) -> String {
    (0..n).map(|o| (b'a' + ((i * 7 + o + o / 26) % 26) as u8) as char).collect()
}
const WS: [(usize, usize); 6] = [(1, 1), (8, 4), (2, 2), (4, 1), (8, 1), (1, 4)];

struct Run {
    usb: Usb,
    tx: AnyTx,
    v: u64,
    buf: usize,
    ex: Exec,
    /// the bytes each operation is expected to send, and where its log number is
    want: Vec<(Vec<u8>, Option<usize>)>,
    got: Vec<usize>,
    done: Rc<RefCell<Vec<Value>>>,
    seen: (usize, usize),
    ev: Vec<Value>,
}
impl Run {
    fn start(&mut self, e: &Value) -> Option<Value> {
        let i = self.want.len() + 1;
        let kindname = e["kind"].as_str().unwrap();
        let len = e["len"].as_u64().unwrap() as usize;
        let tx = self.tx.clone();
        let done = self.done.clone();
        let fin = move |r: &str| done.borrow_mut().push(json!({"i":i,"r":r}));
        let mut real = len;
        match kindname {
            "raw" => {
                let b: Vec<u8> = (0..len).map(|o| byte(i, o)).collect();
                self.want.push((b.clone(), None));
                self.ex.spawn(async move { fin(on_tx!(&tx, t => res(t.send_raw(&b).await))) });
            }
            "send" => {
                let (w, sw) = (0..6).map(|j| WS[(i + j) % 6]).find(|(w, sw)| 1 + w + sw <= len)?;
                let k = unsafe { Key::from_bytes([i as u8, 0, 255, 3, 4, 5, 6, i as u8 ^ 0x5a]) };
                let body: Vec<u8> = (0..len - 1 - w - sw).map(|o| byte(i, o)).collect();
                let sq = 0x01020304 * i as u32;
                self.want.push(([head(k, w, sq, sw), body.clone()].concat(), None));
                self.ex.spawn(async move { fin(on_tx!(&tx, t => res(t.send(hdr(k, w, sq, sw), &Bytes(body)).await))) });
            }
            "str" | "fmt" => {
                let w = [1, 2, 4, 8][i % 4];
                let n = (0..len).rev().find(|n| 3 + w + varint(*n).len() + n <= len)?;
                let s = text(i, n);
                if kindname == "str" {
                    let b = [head(LoggingTopic::TOPIC_KEY, w, 0, 2), varint(n), s.clone().into_bytes()].concat();
                    real = b.len();
                    self.want.push((b, Some(1 + w)));
                    self.ex.spawn(async move { fin(on_tx!(&tx, t => res(t.send_log_str(kind(w), &s).await))) });
                } else {
                    // how long the frame is follows from a run of its own
                    let b = dry(self.v, self.buf, w, &s);
                    real = b.as_ref().map(|b| b.len()).unwrap_or(self.buf + 1);
                    self.want.push((b.unwrap_or_default(), Some(1 + w)));
                    self.ex.spawn(async move { fin(on_tx!(&tx, t => res(t.send_log_fmt(kind(w), format_args!("{s}")).await))) });
                }
            }
            "tmo" => {
                let AnyTx::V4(t) = tx else { return None };
                self.want.push((vec![], None));
                self.ex.spawn(async move {
                    t.set_timeout_ms_per_frame(len).await;
                    fin("ok")
                });
            }
            x => panic!("unknown kind {x}"),
        }
        self.got.push(0);
        Some(json!({"a":"Start","kind":kindname,"len":real}))
    }
    fn quiet(&mut self) {
        self.ex.quiesce();
        let g = self.usb.borrow();
        let d = self.done.borrow();
        let mut wire = vec![];
        for (op, b) in &g.wire[self.seen.0..] {
            let (w, mask) = &self.want[op - 1];
            let at = self.got[op - 1];
            let good = b.iter().enumerate().all(|(j, x)| {
                mask.is_some_and(|m| at + j == m || at + j == m + 1) || w.get(at + j) == Some(x)
            });
            self.got[op - 1] += b.len();
            wire.push(json!({"op":op,"len": if good { b.len() as i64 } else { -(b.len() as i64) }}));
        }
        let p = take_panics();
        let mut q = json!({"a":"Quiet","wire":wire,"done":d[self.seen.1..].to_vec(),"ok":p.is_empty() && !g.overlap});
        if !p.is_empty() {
            q["panic"] = json!(p);
        }
        self.seen = (g.wire.len(), d.len());
        self.ev.push(q);
    }
    fn event(&mut self, e: &Value) {
        let a = e["a"].as_str().unwrap();
        let mut rec = e.clone();
        match a {
            "Quiet" => return self.quiet(),
            "Start" => match self.start(e) {
                Some(r) => rec = r,
                None => return,
            },
            "Drop" => {
                // a sender is given up at a point where the rest is at rest
                if self.ev.last().is_some_and(|e| e["a"] != "Quiet") {
                    self.quiet();
                }
                let i = e["i"].as_u64().unwrap() as usize;
                if i > self.want.len() || !self.ex.live(i) {
                    return;
                }
                self.ex.cancel(i);
            }
            "Take" | "Slow" | "Ack" => {
                if self.ev.last().is_some_and(|e| e["a"] != "Quiet") {
                    self.quiet();
                }
                let mut g = self.usb.borrow_mut();
                if !g.enabled {
                    return;
                }
                let Some(mut o) = g.slot.take() else { return };
                if (a == "Ack") != (o.st == "taken") || o.st == "acked" {
                    g.slot = Some(o);
                    return;
                }
                if a != "Ack" {
                    g.wire.push((o.op, o.bytes.clone()));
                }
                o.st = if a == "Slow" { "taken" } else { "acked" };
                g.slot = Some(o);
                g.wake();
            }
            "Disable" | "Enable" => {
                // a write in progress has noticed a disconnection before the host is back
                if self.ev.last().is_some_and(|e| e["a"] != "Quiet") {
                    self.quiet();
                }
                let mut g = self.usb.borrow_mut();
                let on = a == "Enable";
                if g.enabled == on {
                    return;
                }
                g.enabled = on;
                g.wake();
            }
            "Tick" => tick(e["n"].as_u64().unwrap()),
            x => panic!("unknown event {x}"),
        }
        self.ev.push(rec);
    }
}
/// the frame a formatted log message becomes, when nothing interferes
pub fn dry(v: u64, buf: usize, w: usize, s: &str) -> Option<Vec<u8>> {
    let usb = new_usb(true);
    let (tx, _) = make(v, &usb, buf);
    let mut ex = Exec::default();
    let out = Rc::new(RefCell::new(None));
    let (o2, s) = (out.clone(), s.to_string());
    ex.spawn(async move { *o2.borrow_mut() = Some(res(on_tx!(&tx, t => t.send_log_fmt(kind(w), format_args!("{s}")).await))) });
    ex.quiesce();
    let ok = *out.borrow() == Some("ok");
    let b = usb.borrow().wire.iter().flat_map(|p| p.1.clone()).collect();
    ok.then_some(b)
}
pub fn run_script(s: &Value) -> Value {
    let c = &s["cfg"];
    let usb = new_usb(c["auto"].as_bool().unwrap());
    let (v, buf) = (c["v"].as_u64().unwrap(), c["buf"].as_u64().unwrap() as usize);
    let (tx, _rx) = make(v, &usb, buf);
    let mut r = Run {
        usb, tx, v, buf, ex: Exec::default(), want: vec![], got: vec![], done: Default::default(), seen: (0, 0), ev: vec![],
    };
    for e in s["ev"].as_array().unwrap() {
        r.event(e);
    }
    if r.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(true) {
        r.quiet();
    }
    json!({"id": s["id"], "cfg": c, "ev": r.ev})
}
