//! Driver for spec/HostClient.tla: a HostClient on a scripted transport.
use crate::util::*;
use crate::wire::{bad_or, body_bytes, body_val, frame_json, Msg, M4, M8};
use postcard_rpc::header::{VarHeader, VarKey, VarKeyKind, VarSeq, VarSeqKind};
use postcard_rpc::host_client::*;
use postcard_rpc::{endpoints, topics, Endpoint, Key, Topic, TopicDirection};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::Duration;

#[derive(Debug, Serialize, Deserialize, Schema, PartialEq)]
pub struct WErr(M4);

endpoints! {
    list = EPS;
    omit_std = true;
    | EndpointTy | RequestTy | ResponseTy | Path    |
    | ---------- | --------- | ---------- | ----    |
    | Ep1        | M4        | M8         | "ep/a"  |
    | Ep2        | M4        | M8         | "ep/bb" |
}
topics! {
    list = TPS;
    direction = TopicDirection::ToClient;
    omit_std = true;
    | TopicTy | MessageTy | Path   |
    | ------- | --------- | ----   |
    | Tp1     | M4        | "tp/1" |
    | Tp2     | M4        | "tp/2" |
}
const ERR_PATH: &str = "err/p";

fn keys() -> Vec<Key> {
    vec![
        Ep1::REQ_KEY,
        Ep1::RESP_KEY,
        Ep2::REQ_KEY,
        Ep2::RESP_KEY,
        Key::for_path::<WErr>(ERR_PATH),
        Tp1::TOPIC_KEY,
        Tp2::TOPIC_KEY,
        Key::for_path::<u8>("foreign/xyz"),
    ]
}
fn kbytes(k: Key, w: u64) -> Vec<u8> {
    let b = k.to_bytes();
    let n = 8 / w as usize;
    b.chunks(n).map(|c| c.iter().fold(0u8, |a, x| a ^ x)).collect()
}

/// header bytes written and read by hand, per the documented layout
fn encode(k: u64, w: u64, sq: u64, sw: u64, body: &[u8]) -> Vec<u8> {
    let key = keys()[k as usize - 1];
    let nn = match w { 1 => 0u8, 2 => 1, 4 => 2, _ => 3 };
    let mm = match sw { 1 => 0u8, 2 => 1, _ => 2 };
    let mut v = vec![(nn << 6) | (mm << 4)];
    v.extend(kbytes(key, w));
    v.extend(&sq.to_le_bytes()[..sw as usize]);
    v.extend(body);
    v
}
fn decode_json(v: &[u8]) -> Value {
    let bad = |why: i64| frame_json(-why - 10, 0, 0, 0, 0);
    let Some(d) = v.first() else { return bad(1) };
    let w = 1u64 << (d >> 6);
    let sw = match (d >> 4) & 3 { 0 => 1u64, 1 => 2, 2 => 4, _ => return bad(2) };
    if d & 15 != 0 || v.len() < 1 + (w + sw) as usize {
        return bad(3);
    }
    let kb = &v[1..1 + w as usize];
    let sb = &v[1 + w as usize..1 + (w + sw) as usize];
    let sq = sb.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let k = keys().iter().position(|k| kbytes(*k, w) == kb).map(|x| x as i64 + 1).unwrap_or(-9);
    frame_json(k, w, sq, sw, body_val(&v[1 + (w + sw) as usize..]))
}
fn hdr_json(h: &VarHeader, body: &[u8]) -> Value {
    let mut v = h.write_to_vec();
    v.extend(body);
    decode_json(&v)
}

#[derive(Default)]
struct Wire {
    inq: VecDeque<Option<Vec<u8>>>,
    rx_waker: Option<Waker>,
    sent: Vec<Vec<u8>>,
    auto: bool,
    busy: bool,
    fail: bool,
    release: bool,
    tx_waker: Option<Waker>,
    alive: u32, // bit0 tx, bit1 rx dropped
    overlap: bool,
}
type W = Arc<Mutex<Wire>>;
struct Tx(W);
struct Rx(W);
impl Drop for Tx {
    fn drop(&mut self) { self.0.lock().unwrap().alive |= 1; }
}
impl Drop for Rx {
    fn drop(&mut self) { self.0.lock().unwrap().alive |= 2; }
}
#[derive(Debug)]
struct E;
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") }
}
impl std::error::Error for E {}
impl WireTx for Tx {
    type Error = E;
    fn send(&mut self, data: Vec<u8>) -> impl Future<Output = Result<(), E>> + Send {
        let w = self.0.clone();
        async move {
            {
                let mut g = w.lock().unwrap();
                g.overlap |= g.busy;
                g.sent.push(data);
                g.busy = true;
                g.release = g.auto;
            }
            std::future::poll_fn(|cx| {
                let mut g = w.lock().unwrap();
                if g.fail {
                    g.busy = false;
                    return Poll::Ready(Err(E));
                }
                if g.release {
                    g.release = false;
                    g.busy = false;
                    return Poll::Ready(Ok(()));
                }
                g.tx_waker = Some(cx.waker().clone());
                Poll::Pending
            })
            .await
        }
    }
}
impl WireRx for Rx {
    type Error = E;
    fn receive(&mut self) -> impl Future<Output = Result<Vec<u8>, E>> + Send {
        let w = self.0.clone();
        std::future::poll_fn(move |cx| {
            let mut g = w.lock().unwrap();
            match g.inq.pop_front() {
                Some(Some(v)) => Poll::Ready(Ok(v)),
                Some(None) => Poll::Ready(Err(E)),
                None => {
                    g.rx_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
}
struct Sp(Arc<Mutex<Vec<Slot>>>);
impl WireSpawn for Sp {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        self.0.lock().unwrap().push(Slot::spawn(fut));
    }
}

enum Sub {
    XT(Subscription<M4>),
    XR(RawSubscription),
    BT(MultiSubscription<M4>),
    BR(RawMultiSubscription),
}
impl Sub {
    async fn recv(&mut self) -> (String, Value) {
        let rawf = |f: RpcFrame| ("raw".to_string(), hdr_json(&f.header, &f.body));
        let end = || ("end".to_string(), json!(0));
        let be = |e: MultiSubRxError| match e {
            MultiSubRxError::IoClosed => ("end".to_string(), json!(0)),
            MultiSubRxError::Lagged(n) => ("lag".to_string(), json!(n)),
        };
        match self {
            Sub::XT(s) => s.recv().await.map(|v| ("ok".into(), json!(v.0))).unwrap_or_else(end),
            Sub::XR(s) => s.recv().await.map(rawf).unwrap_or_else(end),
            Sub::BT(s) => s.recv().await.map(|v| ("ok".into(), json!(v.0))).unwrap_or_else(be),
            Sub::BR(s) => s.recv().await.map(rawf).unwrap_or_else(be),
        }
    }
}

type Done = Arc<Mutex<Vec<Value>>>;
type Subs = Arc<Mutex<BTreeMap<usize, Sub>>>;

fn err_res(e: HostErr<WErr>) -> (String, Value) {
    match e {
        HostErr::Wire(x) => ("wire".into(), json!(x.0.0)),
        HostErr::BadResponse => ("badresp".into(), json!(0)),
        HostErr::Postcard(_) => ("deser".into(), json!(0)),
        HostErr::Closed => ("closed".into(), json!(0)),
    }
}

struct Run {
    w: W,
    workers: Arc<Mutex<Vec<Slot>>>,
    handles: Vec<HostClient<WErr>>,
    ops: Vec<Option<Slot>>, // index = op id - 1
    kinds: Vec<char>,
    recving: BTreeMap<usize, usize>, // sub -> op
    subs: Subs,
    done: Done,
    reported: usize,
    sent: usize,
    sw: u64,
    unit: u64, // milliseconds per tick
    nseq: i64,
    started: usize,
    typed: Vec<usize>,
    ev: Vec<Value>,
}

impl Run {
    fn put(done: &Done, i: usize, r: (String, Value)) {
        done.lock().unwrap().push(json!({"i":i,"r":r.0,"v":r.1}));
    }
    fn handle(&self) -> Option<HostClient<WErr>> {
        self.handles.last().cloned()
    }
    async fn quiet(&mut self) {
        quiesce().await;
        self.started = self.ops.len();
        let d = self.done.lock().unwrap();
        let g = self.w.lock().unwrap();
        let newly: Vec<Value> = d[self.reported..].to_vec();
        self.reported = d.len();
        let sent: Vec<Value> = g.sent[self.sent..].iter().map(|v| decode_json(v)).collect();
        self.sent = g.sent.len();
        for x in &newly {
            let i = x["i"].as_u64().unwrap() as usize;
            self.recving.retain(|_, o| *o != i);
        }
        let ws = self.workers.lock().unwrap();
        let closed = self.handles.last().map(|h| h.is_closed()).unwrap_or(false);
        let panics = take_panics();
        let mut q = json!({"a":"Quiet","done":newly,"sent":sent,"closed":closed,
            "outd":!ws[0].live() && g.alive & 1 != 0,"ind":!ws[1].live() && g.alive & 2 != 0,
            "ok": panics.is_empty() && !g.overlap});
        if !panics.is_empty() {
            q["panic"] = json!(panics);
        }
        self.ev.push(q);
    }
    /// Perform one scripted event; events that do not apply now are skipped (and not recorded).
    async fn event(&mut self, e: &Value) {
        let a = e["a"].as_str().unwrap();
        let n = |f: &str| e[f].as_u64().unwrap_or(0);
        let id = self.ops.len() + 1;
        match a {
            "Quiet" => return self.quiet().await,
            "Call" | "CallRaw" | "Pub" | "Wait" | "Sub" => {
                let Some(c) = self.handle() else { return };
                let done = self.done.clone();
                let fut: std::pin::Pin<Box<dyn Future<Output = ()> + Send>> = match a {
                    "Call" => {
                        let ep = n("e");
                        Box::pin(async move {
                            let r = if ep == 1 {
                                c.send_resp::<Ep1>(&Msg(id as u64)).await
                            } else {
                                c.send_resp::<Ep2>(&Msg(id as u64)).await
                            };
                            drop(c);
                            Run::put(&done, id, r.map(|v| ("ok".into(), json!(v.0))).unwrap_or_else(err_res));
                        })
                    }
                    "CallRaw" => {
                        let (rq, rs) = if n("e") == 1 {
                            (Ep1::REQ_KEY, Ep1::RESP_KEY)
                        } else {
                            (Ep2::REQ_KEY, Ep2::RESP_KEY)
                        };
                        let f = RpcFrame {
                            header: VarHeader { key: VarKey::Key8(rq), seq_no: VarSeq::Seq4(n("sq") as u32) },
                            body: body_bytes(id as u64),
                        };
                        Box::pin(async move {
                            let r = c.send_resp_raw(f, rs).await;
                            drop(c);
                            Run::put(&done, id, match r {
                                Ok(f) => ("raw".into(), hdr_json(&f.header, &f.body)),
                                Err(e) => err_res(e),
                            });
                        })
                    }
                    "Pub" => {
                        let t = n("t");
                        let sq = match n("sw") {
                            1 => VarSeq::Seq1(n("sq") as u8),
                            2 => VarSeq::Seq2(n("sq") as u16),
                            _ => VarSeq::Seq4(n("sq") as u32),
                        };
                        Box::pin(async move {
                            let m = Msg(id as u64);
                            let r = if t == 1 {
                                c.publish::<Tp1>(sq, &m).await
                            } else {
                                // the raw variant, by hand
                                c.publish_raw(RpcFrame {
                                    header: VarHeader { key: VarKey::Key8(Tp2::TOPIC_KEY), seq_no: sq },
                                    body: body_bytes(id as u64),
                                })
                                .await
                            };
                            drop(c);
                            Run::put(&done, id, (if r.is_ok() { "ok" } else { "closed" }.into(), json!(0)));
                        })
                    }
                    "Wait" => Box::pin(async move {
                        c.wait_closed().await;
                        drop(c);
                        Run::put(&done, id, ("ok".into(), json!(0)));
                    }),
                    _ => {
                        let (t, d, raw) = (n("t"), n("depth") as usize, e["raw"].as_bool().unwrap());
                        let mode = e["mode"].as_str().unwrap().to_string();
                        let subs = self.subs.clone();
                        Box::pin(async move {
                            let r = subscribe(&c, &mode, t, d, raw).await;
                            drop(c);
                            let r = match r {
                                Ok(s) => {
                                    subs.lock().unwrap().insert(id, s);
                                    "sub"
                                }
                                Err(x) => x,
                            };
                            Run::put(&done, id, (r.into(), json!(0)));
                        })
                    }
                };
                if a == "Call" {
                    self.nseq += 1;
                    self.typed.push(id);
                }
                self.ops.push(Some(Slot::spawn(fut)));
                self.kinds.push(if a == "Sub" { 's' } else { 'c' });
            }
            "Recv" => {
                let s = n("s") as usize;
                if self.recving.contains_key(&s) {
                    return;
                }
                let Some(mut sub) = self.subs.lock().unwrap().remove(&s) else { return };
                let (done, subs) = (self.done.clone(), self.subs.clone());
                self.recving.insert(s, id);
                self.kinds.push('r');
                self.ops.push(Some(Slot::spawn(async move {
                    let r = sub.recv().await;
                    subs.lock().unwrap().insert(s, sub);
                    Run::put(&done, id, r);
                })));
            }
            "DropSub" => {
                let s = n("s") as usize;
                if let Some(o) = self.recving.remove(&s) {
                    self.ops[o - 1].as_ref().unwrap().cancel();
                } else {
                    let Some(x) = self.subs.lock().unwrap().remove(&s) else { return };
                    drop(x);
                }
            }
            "Cancel" => {
                let i = n("i") as usize;
                if i == 0 || i > self.ops.len() || self.kinds[i - 1] != 'c' {
                    return;
                }
                let s = self.ops[i - 1].as_ref().unwrap();
                if !s.live() {
                    return;
                }
                s.cancel();
                if i > self.started && self.typed.contains(&i) {
                    self.nseq -= 1; // it never ran
                }
            }
            "Clone" => {
                let Some(c) = self.handle() else { return };
                self.handles.push(c);
            }
            "Drop" => {
                if self.handles.is_empty() {
                    return;
                }
                // drop the oldest: the survivors are clones
                drop(self.handles.remove(0));
            }
            "Close" => {
                let Some(c) = self.handles.last() else { return };
                c.close();
            }
            "Rx" => {
                let mut g = self.w.lock().unwrap();
                if g.alive & 2 != 0 {
                    return;
                }
                let f = &e["f"];
                let k = f["k"].as_i64().unwrap();
                let m = |x: &str| f[x].as_u64().unwrap();
                let v = match k {
                    -1 => None,
                    0 => Some(garbage(m("b"))),
                    _ => Some(encode(k as u64, m("w"), m("sq"), m("sw"), &bad_or(m("b"), m("sq")))),
                };
                g.inq.push_back(v);
                if let Some(w) = g.rx_waker.take() {
                    w.wake();
                }
            }
            "TxOk" | "TxErr" => {
                let mut g = self.w.lock().unwrap();
                if g.alive & 1 != 0 || g.fail || (!g.auto && (!g.busy || g.release)) || (a == "TxOk" && g.auto) {
                    return;
                }
                if a == "TxOk" {
                    g.release = true;
                } else {
                    g.fail = true;
                }
                if let Some(w) = g.tx_waker.take() {
                    w.wake();
                }
            }
            "Loop" => {
                let Some(c) = self.handle() else { return };
                // anything still to be observed belongs before the loop
                if self.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(false) {
                    self.quiet().await;
                }
                let auto = self.w.lock().unwrap().auto;
                if !auto || c.is_closed() {
                    return;
                }
                // not over the numbers of calls still waiting
                let m = if self.sw == 1 { 256 } else if self.sw == 2 { 65536 } else { 1i64 << 32 };
                let all: Vec<Value> = self.w.lock().unwrap().sent.iter().map(|v| decode_json(v)).collect();
                for (i, o) in self.ops.iter().enumerate() {
                    if self.kinds[i] == 'c' && o.as_ref().unwrap().live() {
                        let Some(f) = all.iter().find(|f| f["b"] == i as i64 + 1) else { return };
                        let d = (f["sq"].as_i64().unwrap() - self.nseq).rem_euclid(m);
                        if d < n("n") as i64 {
                            return;
                        }
                    }
                }
                self.nseq += n("n") as i64;
                let (mut good, mut runs) = (0u64, Vec::<(u64, u64)>::new());
                for j in 0..n("n") {
                    let res = Arc::new(Mutex::new(None));
                    let (c2, r2) = (c.clone(), res.clone());
                    let t = Slot::spawn(async move {
                        let r = c2.send_resp::<Ep1>(&Msg(7)).await;
                        *r2.lock().unwrap() = r.ok();
                    });
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                        if self.w.lock().unwrap().sent.len() > self.sent {
                            break;
                        }
                    }
                    let f = {
                        let g = self.w.lock().unwrap();
                        match g.sent.get(self.sent) {
                            Some(v) if g.sent.len() == self.sent + 1 => decode_json(v),
                            _ => break,
                        }
                    };
                    self.sent += 1;
                    let sq = f["sq"].as_u64().unwrap();
                    if f["k"] != 1 || f["b"] != 7 || f["sw"] != self.sw {
                        break;
                    }
                    match runs.last_mut() {
                        Some(r) if r.0 + r.1 == sq => r.1 += 1,
                        _ => runs.push((sq, 1)),
                    }
                    {
                        let mut g = self.w.lock().unwrap();
                        g.inq.push_back(Some(encode(2, 8, sq, self.sw, &body_bytes(j + 1000))));
                        if let Some(w) = g.rx_waker.take() {
                            w.wake();
                        }
                    }
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                        if !t.live() {
                            break;
                        }
                    }
                    if *res.lock().unwrap() == Some(Msg(j + 1000)) {
                        good += 1;
                    } else {
                        break;
                    }
                }
                let runs: Vec<Value> = runs.iter().map(|r| json!({"from": r.0, "n": r.1})).collect();
                self.ev.push(json!({"a":"Loop","n":n("n"),"good":good,"runs":runs}));
                return self.quiet().await;
            }
            "Tick" => {
                self.ev.push(e.clone());
                tokio::time::advance(Duration::from_millis(self.unit)).await;
                return self.quiet().await;
            }
            x => panic!("unknown event {x}"),
        }
        self.ev.push(e.clone());
    }
}

fn garbage(g: u64) -> Vec<u8> {
    let k = keys();
    match g {
        1 => vec![],
        // header cut short inside the key / the sequence number
        2 => encode(2, 8, 0, 4, &[])[..6].to_vec(),
        3 => encode(2, 8, 0, 4, &[])[..11].to_vec(),
        // reserved sequence length
        4 => {
            let mut v = encode(2, 1, 0, 4, &[1]);
            v[0] |= 0x30;
            v
        }
        // unknown protocol version, otherwise a valid response frame for seq 0
        5 => {
            let mut v = encode(2, 8, 0, 4, &[1]);
            v[0] |= 1;
            v
        }
        _ => {
            let mut v = vec![0b1100_1000];
            v.extend(k[5].to_bytes());
            v.extend([0, 0, 0, 0, 7]);
            v
        }
    }
}

#[allow(deprecated)]
async fn subscribe(c: &HostClient<WErr>, mode: &str, t: u64, d: usize, raw: bool) -> Result<Sub, &'static str> {
    let key = if t == 1 { Tp1::TOPIC_KEY } else { Tp2::TOPIC_KEY };
    let xe = |e: SubscribeError| match e {
        SubscribeError::AlreadySubscribed => "already",
        SubscribeError::IoClosed => "closed",
    };
    Ok(match (mode, raw, t) {
        ("x", true, _) => Sub::XR(c.subscribe_exclusive_raw(key, d).await.map_err(xe)?),
        ("x", _, 1) => Sub::XT(c.subscribe_exclusive::<Tp1>(d).await.map_err(xe)?),
        ("x", _, _) => Sub::XT(c.subscribe_exclusive::<Tp2>(d).await.map_err(xe)?),
        ("l", true, _) => Sub::XR(c.subscribe_raw(key, d).await.map_err(|_| "closed")?),
        ("l", _, 1) => Sub::XT(c.subscribe::<Tp1>(d).await.map_err(|_| "closed")?),
        ("l", _, _) => Sub::XT(c.subscribe::<Tp2>(d).await.map_err(|_| "closed")?),
        (_, true, _) => Sub::BR(c.subscribe_multi_raw(key, d).await.map_err(|_| "closed")?),
        (_, _, 1) => Sub::BT(c.subscribe_multi::<Tp1>(d).await.map_err(|_| "closed")?),
        (_, _, _) => Sub::BT(c.subscribe_multi::<Tp2>(d).await.map_err(|_| "closed")?),
    })
}

async fn run_script(s: &Value) -> Value {
    let cfg = &s["cfg"];
    let n = |f: &str| cfg[f].as_u64().unwrap();
    let w: W = Arc::new(Mutex::new(Wire { auto: cfg["auto"].as_bool().unwrap(), ..Default::default() }));
    let workers = Arc::new(Mutex::new(vec![]));
    let tmo = n("tmo");
    let conf = HostClientConfig {
        seq_kind: match n("sw") { 1 => VarSeqKind::Seq1, 2 => VarSeqKind::Seq2, _ => VarSeqKind::Seq4 },
        err_uri_path: ERR_PATH,
        outgoing_depth: n("depth") as usize,
        subscriber_timeout_if_full: if tmo == 0 { Duration::ZERO } else { Duration::from_millis(tmo * n("unit") - n("unit") / 2) },
    };
    let c = HostClient::<WErr>::new_with_wire_and_config(Tx(w.clone()), Rx(w.clone()), Sp(workers.clone()), &conf);
    let mut r = Run {
        w,
        workers,
        handles: vec![c],
        ops: vec![],
        kinds: vec![],
        recving: BTreeMap::new(),
        subs: Default::default(),
        done: Default::default(),
        reported: 0,
        sent: 0,
        sw: n("sw"),
        unit: n("unit"),
        nseq: 0,
        started: 0,
        typed: vec![],
        ev: vec![],
    };
    for e in s["ev"].as_array().unwrap() {
        r.event(e).await;
    }
    if r.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(true) {
        r.quiet().await;
    }
    let ev = std::mem::take(&mut r.ev);
    json!({"id": s["id"], "cfg": cfg, "ev": ev})
}

pub fn main(inp: &str, out: &str) {
    // the specification assumes that the keys differ at every width
    for w in [1, 2, 4, 8] {
        let ks: Vec<_> = keys().iter().map(|k| kbytes(*k, w)).collect();
        for i in 0..ks.len() {
            for j in 0..i {
                if ks[i] == ks[j] {
                    eprintln!("harness keys {i} and {j} collide at width {w}");
                    std::process::exit(2);
                }
            }
        }
    }
    let _ = VarKeyKind::Key1;
    let scripts = read_lines(inp);
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &scripts {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let t = rt.block_on(run_script(s));
        drop(rt);
        o.line(&t);
    }
    o.finish();
}
