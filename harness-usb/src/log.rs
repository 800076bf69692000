//! Driver for Log.tla.
use crate::exec::*;
use crate::logtext::*;
use crate::on_tx;
use crate::tx::{hdr, head, kind, res, Bytes};
use crate::usb::*;
use postcard_rpc::server::{Sender, WireTx};
use postcard_rpc::Key;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

struct Run {
    usb: Usb,
    tx: AnyTx,
    ex: Exec,
    ops: Vec<Value>,
    seen: usize,
    done: Rc<RefCell<Vec<(usize, &'static str)>>>,
    told: usize,
    ev: Vec<Value>,
}
fn key() -> Key {
    unsafe { Key::from_bytes([9, 8, 7, 6, 5, 4, 3, 2]) }
}
fn body(i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|o| (i * 17 + o * 5 + o / 100) as u8).collect()
}
impl Run {
    fn start(&mut self, e: &Value) {
        let i = self.ops.len() + 1;
        self.ops.push(e.clone());
        let (n, w, p) = (e["n"].as_u64().unwrap() as usize, e["w"].as_u64().unwrap() as usize, e["p"].as_u64().unwrap() as usize);
        let (tx, done) = (self.tx.clone(), self.done.clone());
        let fin = move |r| done.borrow_mut().push((i, r));
        match e["kind"].as_str().unwrap() {
            "str" => {
                let s = text(i, n, &pat(e));
                self.ex.spawn(async move { fin(on_tx!(tx, t => res(Sender::new(t, kind(w)).log_str(&s).await))) });
            }
            "fmt" => {
                let s = Pieces(text(i, n, &pat(e)), p);
                self.ex.spawn(async move { fin(on_tx!(tx, t => res(Sender::new(t, kind(w)).log_fmt(format_args!("{s}")).await))) });
            }
            "send" => {
                let b = body(i, n - 3);
                self.ex.spawn(async move { fin(on_tx!(tx, t => res(t.send(hdr(key(), 1, i as u32, 1), &Bytes(b)).await))) });
            }
            "many" => {
                let s = text(i, 3, &[1]);
                self.ex.spawn(async move {
                    let mut r = "ok";
                    for j in 0..n {
                        let x = if (i + j) % 2 == 0 {
                            on_tx!(&tx, t => res(t.send_log_str(kind(w), &s).await))
                        } else {
                            on_tx!(&tx, t => res(t.send_log_fmt(kind(w), format_args!("{s}")).await))
                        };
                        if x != "ok" {
                            r = x;
                        }
                    }
                    fin(r)
                });
            }
            x => panic!("unknown kind {x}"),
        }
    }
    fn quiet(&mut self) {
        self.ex.quiesce();
        let g = self.usb.borrow();
        let d = self.done.borrow();
        // put the packets together again
        let mut frames: Vec<(usize, Vec<u8>)> = vec![];
        let mut ended = true;
        for (op, b) in &g.wire[self.seen..] {
            if ended {
                frames.push((*op, b.clone()));
            } else {
                let f = frames.last_mut().unwrap();
                if f.0 != *op {
                    f.0 = 0;
                }
                f.1.extend(b);
            }
            ended = b.len() < 64;
        }
        // (an empty packet closes off what went before)
        frames.retain(|f| !f.1.is_empty());
        let mut out = vec![];
        for (i, r) in &d[self.told..] {
            let e = &self.ops[i - 1];
            let mine: Vec<&Vec<u8>> = frames.iter().filter(|f| f.0 == *i).map(|f| &f.1).collect();
            let (n, w) = (e["n"].as_u64().unwrap() as usize, e["w"].as_u64().unwrap() as usize);
            let (sh, m, seq) = match (e["kind"].as_str().unwrap(), &mine[..]) {
                ("many", f) => {
                    let s = text(*i, 3, &[1]);
                    let got: Vec<_> = f.iter().map(|f| arrived(f, w, &s)).collect();
                    let first = got.first().map(|g| g.2).unwrap_or(0);
                    let good = got.len() == n && got.iter().enumerate().all(|(j, g)| g.0 == "full" && g.2 == (first + j as u64) % 65536);
                    (if good { "full" } else { "bad" }, 0, first)
                }
                (_, []) => ("none", 0, 0),
                ("send", [f]) => (if **f == [head(key(), 1, *i as u32, 1), body(*i, n - 3)].concat() { "full" } else { "bad" }, 0, 0),
                (_, [f]) => arrived(f, w, &text(*i, n, &pat(e))),
                _ => ("bad", 0, 0),
            };
            out.push(json!({"i":i,"r":r,"sh":sh,"m":m,"seq":seq}));
        }
        let stray = frames.iter().filter(|f| f.0 == 0 || !d[self.told..].iter().any(|x| x.0 == f.0)).count();
        let p = take_panics();
        let mut q = json!({"a":"Quiet","out":out,"ok":p.is_empty() && stray == 0 && ended});
        if !p.is_empty() {
            q["panic"] = json!(p);
        }
        self.seen = g.wire.len();
        self.told = d.len();
        drop(g);
        drop(d);
        self.ev.push(q);
    }
}
pub fn run_script(s: &Value) -> Value {
    let c = &s["cfg"];
    let usb = new_usb(true);
    let (tx, _rx) = make(c["v"].as_u64().unwrap(), &usb, c["buf"].as_u64().unwrap() as usize);
    let mut r = Run { usb, tx, ex: Exec::default(), ops: vec![], seen: 0, done: Default::default(), told: 0, ev: vec![] };
    for e in s["ev"].as_array().unwrap() {
        match e["a"].as_str().unwrap() {
            "Quiet" => {
                r.quiet();
                continue;
            }
            "Log" => r.start(e),
            x => {
                r.usb.borrow_mut().enabled = x == "Enable";
            }
        }
        r.ev.push(e.clone());
    }
    if r.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(true) {
        r.quiet();
    }
    json!({"id": s["id"], "cfg": c, "ev": r.ev})
}
