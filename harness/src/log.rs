//! Driver for Log.tla on the channel transport.
use crate::logtext::*;
use crate::util::*;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::impls::test_channels::ChannelWireTx;
use postcard_rpc::server::{Sender, WireTx};
use postcard_rpc::Key;
use serde_json::{json, Value};
use std::time::Duration;

fn body(i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|o| (i * 17 + o * 5 + o / 100) as u8).collect()
}
struct Raw(Vec<u8>);
impl serde::Serialize for Raw {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for b in &self.0 {
            t.serialize_element(b)?;
        }
        t.end()
    }
}
async fn run_script(s: &Value) -> Value {
    let (snd, mut rcv) = tokio::sync::mpsc::channel::<Vec<u8>>(1024);
    let tx = ChannelWireTx::new(snd);
    let key = unsafe { Key::from_bytes([9, 8, 7, 6, 5, 4, 3, 2]) };
    let (mut ev, mut out, mut ok, mut i) = (vec![], vec![], true, 0);
    for e in s["ev"].as_array().unwrap() {
        if e["a"] == "Quiet" {
            ok &= take_panics().is_empty() && rcv.try_recv().is_err();
            ev.push(json!({"a":"Quiet","ok":ok,"out":std::mem::take(&mut out)}));
            continue;
        }
        ev.push(e.clone());
        i += 1;
        let (n, w, p) = (e["n"].as_u64().unwrap() as usize, e["w"].as_u64().unwrap() as usize, e["p"].as_u64().unwrap() as usize);
        let kk = match w { 1 => VarKeyKind::Key1, 2 => VarKeyKind::Key2, 4 => VarKeyKind::Key4, _ => VarKeyKind::Key8 };
        let kind = e["kind"].as_str().unwrap();
        let t = if kind == "send" { String::new() } else { text(i, n, &pat(e)) };
        let r = match kind {
            "str" => Sender::new(tx.clone(), kk).log_str(&t).await,
            "fmt" => Sender::new(tx.clone(), kk).log_fmt(format_args!("{}", Pieces(t.clone(), p))).await,
            _ => {
                let mut k = VarKey::Key8(key);
                k.shrink_to(VarKeyKind::Key1);
                tx.send(VarHeader { key: k, seq_no: VarSeq::Seq1(i as u8) }, &Raw(body(i, n - 3))).await
            }
        };
        let (sh, m, seq) = match rcv.try_recv() {
            Err(_) => ("none", 0, 0),
            Ok(f) if kind == "send" => {
                let want = [vec![0u8], folded(key, 1), vec![i as u8], body(i, n - 3)].concat();
                (if f == want { "full" } else { "bad" }, 0, 0)
            }
            Ok(f) => arrived(&f, w, &t),
        };
        out.push(json!({"i":i,"r": if r.is_ok() { "ok" } else { "closed" },"sh":sh,"m":m,"seq":seq}));
    }
    json!({"id": s["id"], "cfg": s["cfg"], "ev": ev})
}
pub fn main(inp: &str, out: &str) {
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &read_lines(inp) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        o.line(&rt.block_on(run_script(s)));
    }
    o.finish();
}
