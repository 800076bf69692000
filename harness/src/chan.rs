//! Driver for Chan.tla: the in-process channel transport, bare and under a running server.
use crate::util::*;
use crate::wire;
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq};
use postcard_rpc::server::impls::test_channels::dispatch_impl::{new_server, new_server_stoppable, Settings, Stopper};
use postcard_rpc::server::impls::test_channels::{tokio_spawn, ChannelWireRx, ChannelWireRxError, ChannelWireSpawn, ChannelWireTx};
use postcard_rpc::server::{ServerError, WireRx, WireTx};
use postcard_rpc::standard_icd as icd;
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Key, Topic, TopicDirection};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | --- | --- | --- | --- |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | --- | --- | --- |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | --- | --- | --- |
}
pub struct Ctx;
pub struct SpCtx;
impl postcard_rpc::server::SpawnContext for Ctx {
    type SpawnCtxt = SpCtx;
    fn spawn_ctxt(&mut self) -> SpCtx {
        SpCtx
    }
}
define_dispatch! {
    app: App;
    spawn_fn: tokio_spawn;
    tx_impl: ChannelWireTx;
    spawn_impl: ChannelWireSpawn;
    context: Ctx;
    endpoints: { list: EPS; | EndpointTy | kind | handler | | --- | --- | --- | };
    topics_in: { list: TIN; | TopicTy | kind | handler | | --- | --- | --- | };
    topics_out: { list: TOUT; };
}

fn fill(i: usize, n: usize) -> Vec<u8> {
    (0..n).map(|o| (i * 29 + o * 7 + o / 60) as u8).collect()
}
fn ping(i: usize, n: usize) -> Vec<u8> {
    let mut b = vec![i as u8];
    b.extend(fill(i, n - 11));
    wire::encode(icd::PingEndpoint::REQ_KEY, 8, i as u64, 1, &b)
}
const K: Key = unsafe { Key::from_bytes([9, 8, 7, 6, 5, 4, 3, 2]) };
fn len(i: usize) -> usize {
    [3, 0, 40, 1, 300][i % 5]
}
/// which operation sent this frame
fn sender(f: &[u8], kinds: &[String]) -> i64 {
    for (j, k) in kinds.iter().enumerate() {
        let i = j + 1;
        let hit = match k.as_str() {
            "msg" => wire::decode(f).is_some_and(|p| p.key == wire::fold(K, 4) && p.w == 4 && p.sq == i as u64 && p.body == [vec![i as u8], fill(i, len(i))].concat()),
            "raw" => f == [vec![0xEE, i as u8], fill(i, len(i))].concat(),
            "logs" | "logf" => wire::decode(f).is_some_and(|p| {
                p.key == wire::fold(icd::LoggingTopic::TOPIC_KEY, p.w) && postcard::from_bytes::<String>(&p.body).is_ok_and(|s| s == format!("log {i}"))
            }),
            _ => false,
        };
        if hit {
            return i as i64;
        }
    }
    -1
}
/// Futures that format may not leave their thread; this runtime has only one.
struct Here<F>(F);
unsafe impl<F> Send for Here<F> {}
impl<F: std::future::Future> std::future::Future for Here<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
type Done = Arc<Mutex<Vec<Value>>>;

async fn run_script(s: &Value) -> Value {
    let cfg = &s["cfg"];
    let n = |f: &str| cfg[f].as_u64().unwrap() as usize;
    let (wire_mode, st) = (cfg["mode"] == "wire", cfg["st"].as_str().unwrap());
    let (itx, irx) = mpsc::channel::<Vec<u8>>(1024);
    let (otx, orx) = mpsc::channel::<Vec<u8>>(n("cap"));
    let (mut itx, mut orx) = (Some(itx), Some(orx));
    let (mut tx, mut rx) = (ChannelWireTx::new(otx), ChannelWireRx::new(irx));
    let mut stopper = Stopper::new();
    let end: Arc<Mutex<&'static str>> = Arc::new(Mutex::new("on"));
    let (mut wtx, mut wrx) = (None, None);
    if wire_mode {
        if st == "tx" || st == "both" {
            tx.set_stopper(stopper.clone());
        }
        if st == "rx" || st == "both" {
            rx.set_stopper(stopper.clone());
        }
        (wtx, wrx) = (Some(tx), Some(Arc::new(tokio::sync::Mutex::new(rx))));
    } else {
        let set = Settings { tx, rx, buf: n("buf"), kkind: VarKeyKind::Key8 };
        let app = App::new(Ctx, ChannelWireSpawn {});
        let mut srv = if st == "none" {
            new_server(app, set)
        } else {
            let (a, b) = new_server_stoppable(app, set);
            stopper = b;
            a
        };
        let e2 = end.clone();
        Slot::spawn(async move {
            let r = srv.run().await;
            *e2.lock().unwrap() = match r {
                ServerError::RxFatal(_) => "rx",
                ServerError::TxFatal(_) => "tx",
            };
            // the server lives on, as it does with its owner
            std::future::pending::<()>().await;
            drop(srv);
        });
    }
    let done: Done = Default::default();
    let (mut pushed, mut given): (Vec<Vec<u8>>, Vec<bool>) = (vec![], vec![]);
    let mut kinds: Vec<String> = vec![];
    let mut slots = vec![];
    let mut ev = vec![];
    for e in s["ev"].as_array().unwrap() {
        let mut e = e.clone();
        match e["a"].as_str().unwrap() {
            "Push" => {
                let (i, n) = (pushed.len() + 1, e["n"].as_u64().unwrap() as usize);
                let f = if wire_mode { fill(i, n) } else { ping(i, n) };
                pushed.push(f.clone());
                given.push(false);
                itx.as_ref().unwrap().try_send(f).ok();
            }
            "DropIn" => drop(itx.take()),
            "DropOut" => drop(orx.take()),
            "Stop" => stopper.stop(),
            "Take" => {
                e["got"] = match orx.as_mut().unwrap().try_recv() {
                    Err(_) => json!(0),
                    Ok(f) if wire_mode => json!(sender(&f, &kinds)),
                    Ok(f) => match wire::decode(&f) {
                        Some(p) if p.key == wire::fold(icd::PingEndpoint::RESP_KEY, p.w) && p.body == [p.sq as u8] => json!(p.sq),
                        _ => json!(-1),
                    },
                };
            }
            "Recv" => {
                kinds.push("recv".into());
                let (i, rx, d, b) = (kinds.len(), wrx.clone().unwrap(), done.clone(), n("buf"));
                slots.push(Slot::spawn(async move {
                    let mut g = rx.lock().await;
                    let mut buf = vec![0xAA; b];
                    let r = match g.receive(&mut buf).await {
                        Ok(f) => json!({"i":i,"r":"ok","bytes":&*f}),
                        Err(ChannelWireRxError::MessageTooLarge) => json!({"i":i,"r":"large","f":0}),
                        Err(ChannelWireRxError::ChannelClosed) => json!({"i":i,"r":"closed","f":0}),
                    };
                    d.lock().unwrap().push(r);
                }));
            }
            "Send" => {
                let k = e["k"].as_str().unwrap().to_string();
                kinds.push(k.clone());
                let (i, tx, d) = (kinds.len(), wtx.clone().unwrap(), done.clone());
                slots.push(Slot::spawn(Here(async move {
                    let kk = [VarKeyKind::Key1, VarKeyKind::Key2, VarKeyKind::Key4, VarKeyKind::Key8][i % 4];
                    let r = match k.as_str() {
                        "msg" => {
                            let mut key = VarKey::Key8(K);
                            key.shrink_to(VarKeyKind::Key4);
                            let h = VarHeader { key, seq_no: VarSeq::Seq2(i as u16) };
                            tx.send(h, &Raw([vec![i as u8], fill(i, len(i))].concat())).await
                        }
                        "raw" => tx.send_raw(&[vec![0xEE, i as u8], fill(i, len(i))].concat()).await,
                        "logs" => tx.send_log_str(kk, &format!("log {i}")).await,
                        _ => tx.send_log_fmt(kk, format_args!("log {i}")).await,
                    };
                    d.lock().unwrap().push(json!({"i":i,"r":if r.is_ok() {"ok"} else {"closed"},"f":0}));
                })));
            }
            "Cancel" => slots[e["i"].as_u64().unwrap() as usize - 1].cancel(),
            "Quiet" => {
                quiesce().await;
                let mut l = std::mem::take(&mut *done.lock().unwrap());
                l.sort_by_key(|x| x["i"].as_u64());
                for x in &mut l {
                    if let Some(b) = x.as_object_mut().unwrap().remove("bytes") {
                        let b: Vec<u8> = b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                        let j = (0..pushed.len()).find(|j| !given[*j] && pushed[*j] == b);
                        x["f"] = match j {
                            Some(j) => {
                                given[j] = true;
                                json!(j + 1)
                            }
                            None => json!(-1),
                        };
                    }
                }
                e = json!({"a":"Quiet","done":l,"srv":*end.lock().unwrap(),"ok":take_panics().is_empty()});
            }
            x => panic!("event {x}"),
        }
        ev.push(e);
    }
    json!({"id":s["id"],"cfg":s["cfg"],"ev":ev})
}
struct Raw(Vec<u8>);
impl serde::Serialize for Raw {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for b in &self.0 {
            t.serialize_element(b)?;
        }
        t.end()
    }
}
pub fn main(inp: &str, out: &str) {
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &read_lines(inp) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        o.line(&rt.block_on(run_script(s)));
    }
    o.finish();
}
