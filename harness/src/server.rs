//! Driver for spec/Server.tla: servers of several applications on a scripted transport.
use crate::util::*;
use crate::wire::*;
use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeq};
use postcard_rpc::server::*;
use postcard_rpc::standard_icd as std_icd;
use postcard_rpc::{define_dispatch, endpoints, topics, Endpoint, Key, Topic, TopicDirection};
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Arguments;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::Duration;

#[derive(Clone)]
enum In {
    Frame(Vec<u8>),
    Err(WireRxErrorKind),
}
#[derive(Default)]
pub struct Sh {
    inq: VecDeque<In>,
    pub plan: VecDeque<String>,
    nospawn: u32,
    free: BTreeSet<u64>,
    log: Vec<(u64, VarHeader, u64)>,
    pub sent: Vec<(Vec<u8>, String)>,
    results: Vec<String>,
    on: bool,
    abort: bool,
    wakers: Vec<Waker>,
}
impl Sh {
    pub fn feed(&mut self, v: Vec<u8>) {
        self.inq.push_back(In::Frame(v));
        self.wake();
    }
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
}
pub type S = Arc<Mutex<Sh>>;
async fn until<T>(s: S, mut f: impl FnMut(&mut Sh) -> Option<T>) -> T {
    std::future::poll_fn(move |cx| {
        let mut g = s.lock().unwrap();
        match f(&mut g) {
            Some(v) => Poll::Ready(v),
            None => {
                g.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    })
    .await
}

#[derive(Clone)]
pub struct Tx(pub S);
pub struct Rx(pub S);
impl Tx {
    fn put(&self, v: Vec<u8>) -> Result<(), WireTxErrorKind> {
        let mut g = self.0.lock().unwrap();
        let o = g.plan.pop_front().unwrap_or("ok".into());
        g.sent.push((v, o.clone()));
        match o.as_str() {
            "ok" => Ok(()),
            "closed" => Err(WireTxErrorKind::ConnectionClosed),
            "timeout" => Err(WireTxErrorKind::Timeout),
            _ => Err(WireTxErrorKind::Other),
        }
    }
}
impl WireTx for Tx {
    type Error = WireTxErrorKind;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), Self::Error> {
        let mut v = hdr.write_to_vec();
        v.extend(postcard::to_stdvec(msg).unwrap());
        self.put(v)
    }
    async fn send_raw(&self, buf: &[u8]) -> Result<(), Self::Error> {
        self.put(buf.to_vec())
    }
    async fn send_log_str(&self, _k: VarKeyKind, _s: &str) -> Result<(), Self::Error> {
        Ok(())
    }
    async fn send_log_fmt<'a>(&self, _k: VarKeyKind, _a: Arguments<'a>) -> Result<(), Self::Error> {
        Ok(())
    }
}
impl WireRx for Rx {
    type Error = WireRxErrorKind;
    async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
        match until(self.0.clone(), |g| g.inq.pop_front()).await {
            In::Err(e) => Err(e),
            In::Frame(v) => {
                // stale bytes of earlier frames stay behind, as with any reused buffer
                buf[..v.len()].copy_from_slice(&v);
                Ok(&mut buf[..v.len()])
            }
        }
    }
}
#[derive(Clone)]
pub struct Sp(pub S);
impl WireSpawn for Sp {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
pub fn spawn_fn<F: Future<Output = ()> + Send + 'static>(sp: &Sp, fut: F) -> Result<(), ()> {
    let mut g = sp.0.lock().unwrap();
    if g.nospawn > 0 {
        g.nospawn -= 1;
        return Err(());
    }
    drop(g);
    Slot::spawn(fut);
    Ok(())
}
pub struct Ctx(pub S);
pub struct SpCtx(pub S);
impl SpawnContext for Ctx {
    type SpawnCtxt = SpCtx;
    fn spawn_ctxt(&mut self) -> SpCtx {
        SpCtx(self.0.clone())
    }
}
fn called(s: &S, h: u64, hdr: &VarHeader, v: M4) {
    s.lock().unwrap().log.push((h, *hdr, v.0));
}
async fn freed(s: &S, v: M4) {
    let v = v.0;
    until(s.clone(), move |g| g.free.contains(&v).then_some(())).await
}
fn ans(h: u64, v: M4) -> M8 {
    Msg(10 * v.0 + h)
}
type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;
pub struct App {
    pub ins: Vec<Key>,  // by abstract key - 1 (1..=9)
    pub outs: Vec<(i64, Key)>,
    pub n: u64,
    pub run: BoxFut,
    pub publ: Box<dyn Fn(VarSeq, u32) -> BoxFut>,
    pub map: &'static postcard_rpc::DeviceMap,
}
pub fn width(k: VarKeyKind) -> u64 {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}

macro_rules! app {
    ($m:ident, $b:literal, $a:literal, $s:literal, $x:literal, $tb:literal, $ta:literal, $ts:literal, $o:literal) => {
        pub mod $m {
            use super::*;
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                | EpB | M4 | M8 | $b |
                | EpA | M4 | M8 | $a |
                | EpS | M4 | M8 | $s |
                | EpX | M4 | M8 | $x |
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | TpB | M4 | $tb |
                | TpA | M4 | $ta |
                | TpS | M4 | $ts |
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | Out | M4 | $o |
            }
            fn ep_b(c: &mut Ctx, h: VarHeader, v: M4) -> M8 {
                called(&c.0, 1, &h, v);
                ans(1, v)
            }
            async fn ep_a(c: &mut Ctx, h: VarHeader, v: M4) -> M8 {
                called(&c.0, 2, &h, v);
                freed(&c.0, v).await;
                ans(2, v)
            }
            async fn ep_s(c: SpCtx, h: VarHeader, v: M4, out: Sender<Tx>) {
                called(&c.0, 3, &h, v);
                freed(&c.0, v).await;
                let _ = out.reply::<EpS>(h.seq_no, &ans(3, v)).await;
            }
            fn tp_b(c: &mut Ctx, h: VarHeader, v: M4, _o: &Sender<Tx>) {
                called(&c.0, 4, &h, v);
            }
            async fn tp_a(c: &mut Ctx, h: VarHeader, v: M4, _o: &Sender<Tx>) {
                called(&c.0, 5, &h, v);
                freed(&c.0, v).await;
            }
            async fn tp_s(c: SpCtx, h: VarHeader, v: M4, _o: Sender<Tx>) {
                called(&c.0, 6, &h, v);
                freed(&c.0, v).await;
            }
            define_dispatch! {
                app: Dis;
                spawn_fn: spawn_fn;
                tx_impl: Tx;
                spawn_impl: Sp;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                    | EpB | blocking | ep_b |
                    | EpA | async | ep_a |
                    | EpS | spawn | ep_s |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                    | TpB | blocking | tp_b |
                    | TpA | async | tp_a |
                    | TpS | spawn | tp_s |
                };
                topics_out: {
                    list: TOUT;
                };
            }
            pub fn make(s: &S) -> App {
                let dis = Dis::new(Ctx(s.clone()), Sp(s.clone()));
                let kk = dis.min_key_len();
                let map = dis.device_map;
                let mut server = Server::new(Tx(s.clone()), Rx(s.clone()), vec![0u8; 8192].into_boxed_slice(), dis, kk);
                let sender = server.sender();
                let s2 = s.clone();
                let run = Box::pin(async move {
                    loop {
                        until(s2.clone(), |g| g.on.then_some(())).await;
                        let r = tokio::select! {
                            biased;
                            _ = until(s2.clone(), |g| std::mem::take(&mut g.abort).then_some(())) => None,
                            r = server.run() => Some(r),
                        };
                        let mut g = s2.lock().unwrap();
                        g.on = false;
                        if let Some(r) = r {
                            g.results.push(match r {
                                ServerError::RxFatal(WireRxErrorKind::ConnectionClosed) => "rxclosed".into(),
                                ServerError::TxFatal(WireTxErrorKind::ConnectionClosed) => "txclosed".into(),
                                ServerError::TxFatal(WireTxErrorKind::Timeout) => "txtimeout".into(),
                                ServerError::RxFatal(e) => format!("rx {e:?}"),
                                ServerError::TxFatal(e) => format!("tx {e:?}"),
                            });
                        }
                    }
                });
                App {
                    ins: vec![
                        EpB::REQ_KEY, EpA::REQ_KEY, EpS::REQ_KEY, TpB::TOPIC_KEY, TpA::TOPIC_KEY, TpS::TOPIC_KEY,
                        std_icd::PingEndpoint::REQ_KEY, EpX::REQ_KEY,
                    ],
                    outs: vec![
                        (11, EpB::RESP_KEY), (12, EpA::RESP_KEY), (13, EpS::RESP_KEY), (18, EpX::RESP_KEY),
                        (17, std_icd::PingEndpoint::RESP_KEY), (20, std_icd::ERROR_KEY), (21, Out::TOPIC_KEY),
                        (30, std_icd::GetAllSchemasEndpoint::RESP_KEY), (31, std_icd::GetAllSchemaDataTopic::TOPIC_KEY),
                        (32, std_icd::LoggingTopic::TOPIC_KEY),
                    ],
                    n: width(kk),
                    run,
                    publ: Box::new(move |sq, v| {
                        let sender = sender.clone();
                        Box::pin(async move {
                            let _ = sender.publish::<Out>(sq, &Msg(v as u64)).await;
                        })
                    }),
                    map,
                }
            }
        }
    };
}
app!(a1, "b/0", "a/0", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a2i, "p/5", "p/2", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a2o, "p/39", "a/0", "p/8", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a2e, "b/0", "e/176", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a2to, "b/0", "p/299999", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a2ti, "p/299763", "a/0", "s/0", "x/0", "tb/0", "t/0", "ts/0", "o/0");
app!(a4i, "b/0", "p/419", "p/385", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a4o, "p/282", "p/110", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a4e, "e/51281", "a/0", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a4to, "p/267398", "a/0", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a4ti, "b/0", "p/219127", "s/0", "x/0", "t/1", "ta/0", "ts/0", "o/0");
app!(a8i, "p/45945", "a/0", "p/19644", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a8o, "p/119096", "p/36882", "s/0", "x/0", "tb/0", "ta/0", "ts/0", "o/0");
app!(a8to, "b/0", "a/0", "p/189878", "x/0", "tb/0", "ta/0", "ts/0", "o/6601");
app!(a8ti, "p/268145", "a/0", "s/0", "x/0", "tb/0", "ta/0", "t/4916", "o/0");
// both directions constrain the length, in different ways
app!(a4x, "p/5", "p/2", "p/282", "p/110", "tb/0", "ta/0", "ts/0", "o/0");
app!(a4y, "p/419", "p/385", "p/39", "p/8", "tb/0", "ta/0", "ts/0", "o/0");
app!(a8x, "p/419", "p/385", "p/119096", "p/36882", "tb/0", "ta/0", "ts/0", "o/0");
app!(a8y, "p/282", "p/110", "p/45945", "p/19644", "tb/0", "ta/0", "ts/0", "o/0");

pub const APPS: &[(&str, fn(&S) -> App)] = &[
    ("a1", a1::make), ("a2i", a2i::make), ("a2o", a2o::make), ("a2e", a2e::make), ("a2to", a2to::make),
    ("a2ti", a2ti::make), ("a4i", a4i::make), ("a4o", a4o::make), ("a4e", a4e::make), ("a4to", a4to::make),
    ("a4ti", a4ti::make), ("a8i", a8i::make), ("a8o", a8o::make), ("a8to", a8to::make), ("a8ti", a8ti::make),
    ("a4x", a4x::make), ("a4y", a4y::make), ("a8x", a8x::make), ("a8y", a8y::make),
];
pub fn make(name: &str, s: &S) -> App {
    let mut a = APPS.iter().find(|a| a.0 == name).expect("app").1(s);
    // abstract key 9: one the application does not know, at any width it accepts
    let std_in = [std_icd::GetAllSchemasEndpoint::REQ_KEY];
    let f = (0..10000)
        .map(|i| Key::for_path::<u8>(&format!("foreign/{i}")))
        .find(|k| a.ins.iter().chain(&std_in).all(|x| fold(*x, 1) != fold(*k, 1)))
        .expect("foreign key");
    a.ins.push(f);
    a
}

/// Ping arguments use all 32 bits.
fn wide(b: u64) -> u64 {
    (b as u32).wrapping_mul(0x9E37_79B1).wrapping_add(0xFEDC_BA98) as u64
}
fn unwide(x: u64) -> i64 {
    (0..200u64).find(|b| wide(*b) == x).map(|b| b as i64).unwrap_or(-7)
}
fn out_json(app: &App, v: &[u8]) -> Value {
    let Some(p) = decode(v) else { return frame_json(-10, 0, 0, 0, 0) };
    let k = app.outs.iter().find(|o| fold(o.1, p.w) == p.key).map(|o| o.0).unwrap_or(-9);
    let b = if k == 20 {
        match p.body[..] { [x @ 2..=6] => 100 + x as i64, _ => -8 }
    } else if k == 17 {
        unvarint(&p.body).map(unwide).unwrap_or(-7)
    } else {
        body_val(&p.body)
    };
    frame_json(k, p.w, p.sq, p.sw, b)
}
fn seqno(sq: u64, sw: u64) -> VarSeq {
    match sw {
        1 => VarSeq::Seq1(sq as u8),
        2 => VarSeq::Seq2(sq as u16),
        _ => VarSeq::Seq4(sq as u32),
    }
}

struct Run {
    s: S,
    app: App,
    m: (usize, usize, usize),
    ev: Vec<Value>,
}
impl Run {
    async fn quiet(&mut self) {
        quiesce().await;
        let g = self.s.lock().unwrap();
        let sent: Vec<Value> =
            g.sent[self.m.0..].iter().map(|(v, o)| json!({"f": out_json(&self.app, v), "o": o})).collect();
        let log: Vec<Value> = g.log[self.m.1..]
            .iter()
            .map(|(h, hdr, v)| {
                let p = decode(&hdr.write_to_vec()).unwrap();
                let good = fold(self.app.ins[*h as usize - 1], p.w) == p.key;
                frame_json(if good { *h as i64 } else { -(*h as i64) }, p.w, p.sq, p.sw, *v as i64)
            })
            .collect();
        let results: Vec<Value> = g.results[self.m.2..].iter().map(|r| json!(r)).collect();
        self.m = (g.sent.len(), g.log.len(), g.results.len());
        let p = take_panics();
        let mut q = json!({"a":"Quiet","sent":sent,"log":log,"results":results,"on":g.on,"ok":p.is_empty()});
        if !p.is_empty() {
            q["panic"] = json!(p);
        }
        self.ev.push(q);
    }
    async fn event(&mut self, e: &Value) {
        let n = |f: &str| e[f].as_u64().unwrap();
        let a = e["a"].as_str().unwrap();
        if a == "Quiet" {
            return self.quiet().await;
        }
        // dropping the loop is done at a quiet point, and on its own
        if a == "Abort" && self.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(false) {
            self.quiet().await;
        }
        {
            let mut g = self.s.lock().unwrap();
            match a {
                "Rx" => {
                    let f = &e["f"];
                    let m = |x: &str| f[x].as_u64().unwrap();
                    let x = match f["k"].as_i64().unwrap() {
                        -1 => In::Err(WireRxErrorKind::ConnectionClosed),
                        -2 => In::Err(WireRxErrorKind::ReceivedMessageTooLarge),
                        -3 => In::Err(WireRxErrorKind::Other),
                        0 => In::Frame(garbage(self.app.ins[6], m("b"))),
                        k => {
                            // ping carries a plain number
                            let b = if k == 7 { if m("b") == 99 { vec![0x80] } else { varint(wide(m("b"))) } } else { bad_or(m("b"), m("sq")) };
                            In::Frame(encode(self.app.ins[k as usize - 1], m("w"), m("sq"), m("sw"), &b))
                        }
                    };
                    g.inq.push_back(x);
                }
                "Plan" => g.plan.push_back(e["o"].as_str().unwrap().into()),
                "NoSpawn" => g.nospawn += 1,
                "Free" => {
                    g.free.insert(n("b"));
                }
                "Run" => {
                    if g.on {
                        return;
                    }
                    g.on = true;
                }
                "Abort" => {
                    if !g.on {
                        return;
                    }
                    g.abort = true;
                }
                "Pub" => {
                    Slot::spawn((self.app.publ)(seqno(n("sq"), n("sw")), n("v") as u32));
                }
                x => panic!("unknown event {x}"),
            }
            g.wake();
        }
        self.ev.push(e.clone());
        if a == "Abort" {
            self.quiet().await;
        }
    }
}

async fn run_script(s: &Value) -> Value {
    let sh: S = Default::default();
    sh.lock().unwrap().on = true;
    let mut app = make(s["cfg"]["app"].as_str().unwrap(), &sh);
    let fut = std::mem::replace(&mut app.run, Box::pin(async {}));
    let task = Slot::spawn(fut);
    let mut r = Run { s: sh, app, m: (0, 0, 0), ev: vec![] };
    for e in s["ev"].as_array().unwrap() {
        r.event(e).await;
    }
    if r.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(true) {
        r.quiet().await;
    }
    task.cancel();
    json!({"id": s["id"], "cfg": s["cfg"], "ev": r.ev})
}

pub fn main(inp: &str, out: &str) {
    let scripts = read_lines(inp);
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &scripts {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let t = rt.block_on(run_script(s));
        drop(rt);
        o.line(&t);
    }
    o.finish();
}
