//! Drivers for Rpc.tla (one thread, scripted) and RpcAbs.tla (several threads): a real client and a
//! real server joined by channels.
use crate::util::*;
use crate::wire::*;
use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeq, VarSeqKind};
use postcard_rpc::host_client::{test_channels, HostClient, HostErr, WireRx as CRx, WireSpawn as CSp, WireTx as CTx};
use postcard_rpc::server::impls::test_channels::{
    dispatch_impl::{new_server_stoppable, spawn_fn, Settings, WireRxImpl, WireSpawnImpl, WireTxImpl},
    ChannelWireRx, ChannelWireTx,
};
use postcard_rpc::server::{Dispatch, Sender, SpawnContext};
use postcard_rpc::standard_icd::{PingEndpoint, WireError, ERROR_PATH};
use postcard_rpc::{define_dispatch, endpoint, endpoints, topics, TopicDirection};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
#[derive(Default)]
pub struct Sh {
    free: BTreeSet<u64>,
    all_free: bool,
    gates: (bool, bool), // shut?
    spubs: u64,          // messages the server's application wants to publish
    stop: bool,
    ilog: Vec<Value>,
    slog: Vec<Value>,
    wakers: Vec<Waker>,
}
impl Sh {
    fn wake(&mut self) {
        self.wakers.drain(..).for_each(|w| w.wake());
    }
}
/// what handlers do
pub enum Mode {
    /// wait until they are told to finish
    Scripted(Mutex<Sh>),
    /// note that they were called, and take their time
    Free(Mutex<Vec<Value>>, AtomicU64),
}
pub type S = Arc<Mode>;
impl Mode {
    fn sh(&self) -> std::sync::MutexGuard<'_, Sh> {
        match self {
            Mode::Scripted(s) => s.lock().unwrap(),
            _ => panic!("not scripted"),
        }
    }
    fn note(&self, v: Value) {
        if let Mode::Free(l, _) = self {
            l.lock().unwrap().push(v);
        }
    }
    fn rnd(&self, n: u64) -> u64 {
        let Mode::Free(_, r) = self else { return 0 };
        let x = r.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
        let x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        let x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        (x ^ (x >> 31)) % n
    }
    /// do something that takes a random, short time
    async fn dawdle(&self) {
        match self.rnd(8) {
            0 | 1 => tokio::task::yield_now().await,
            2 => {
                for _ in 0..self.rnd(5) {
                    tokio::task::yield_now().await
                }
            }
            3 => tokio::time::sleep(Duration::from_micros(self.rnd(300))).await,
            4 => std::thread::yield_now(),
            _ => {}
        }
    }
}
async fn until<T>(s: S, mut f: impl FnMut(&mut Sh) -> Option<T>) -> T {
    std::future::poll_fn(move |cx| {
        let mut g = s.sh();
        match f(&mut g) {
            Some(v) => Poll::Ready(v),
            None => {
                g.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    })
    .await
}
pub struct Ctx(S);
pub struct SpCtx(S);
impl SpawnContext for Ctx {
    type SpawnCtxt = SpCtx;
    fn spawn_ctxt(&mut self) -> SpCtx {
        SpCtx(self.0.clone())
    }
}
fn called(s: &S, k: u64, h: &VarHeader, v: M4) {
    let sq = match h.seq_no {
        VarSeq::Seq1(x) => x as u64,
        VarSeq::Seq2(x) => x as u64,
        VarSeq::Seq4(x) => x as u64,
    };
    match &**s {
        Mode::Scripted(m) => {
            let e = json!({"k":k,"v":v.0,"sq":sq});
            let mut g = m.lock().unwrap();
            if k == 3 || k == 6 { g.slog.push(e) } else { g.ilog.push(e) }
        }
        _ => s.note(json!({"a":"Call","i":v.0,"k":k,"sq":sq})),
    }
}
async fn freed(s: &S, v: M4) {
    match &**s {
        Mode::Scripted(_) => until(s.clone(), move |g| (g.all_free || g.free.contains(&v.0)).then_some(())).await,
        _ => s.dawdle().await,
    }
}
fn ans(k: u64, v: M4) -> M8 {
    Msg(10 * v.0 + k)
}
endpoint!(EpF, M4, M8, "verif/rpc/unknown");

type Res = (&'static str, u64);
fn res<T>(r: Result<T, HostErr<WireError>>, f: impl Fn(T) -> u64) -> Res {
    match r {
        Ok(v) => ("ok", f(v)),
        Err(HostErr::Wire(WireError::UnknownKey)) => ("wire", 104),
        Err(HostErr::Wire(WireError::SerFailed)) => ("wire", 103),
        Err(HostErr::Wire(_)) => ("wire", 0),
        Err(HostErr::Closed) => ("closed", 0),
        Err(HostErr::BadResponse) => ("badresp", 0),
        Err(HostErr::Postcard(_)) => ("postcard", 0),
    }
}
type Client = HostClient<WireError>;
type Pieces = (BoxFut<()>, Box<dyn Fn(VarSeq, u64) -> BoxFut<bool> + Send + Sync>, Box<dyn Fn() + Send + Sync>);
#[derive(Clone, Copy)]
pub struct App {
    n: u64,
    server: fn(&S, ChannelWireTx, ChannelWireRx) -> Pieces,
    op: fn(Client, u64, u64) -> BoxFut<Res>,
    sub: fn(Client, Box<dyn Fn(u64) + Send>) -> BoxFut<()>,
}
macro_rules! app {
    ($m:ident, $n:literal, $b:literal, $a:literal, $s:literal, $ts:literal) => {
        mod $m {
            use super::*;
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                | EpB | M4 | M8 | $b |
                | EpA | M4 | M8 | $a |
                | EpS | M4 | M8 | $s |
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | TpB | M4 | "tb/0" |
                | TpA | M4 | "ta/0" |
                | TpS | M4 | $ts |
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | Out | M4 | "o/0" |
            }
            fn ep_b(c: &mut Ctx, h: VarHeader, v: M4) -> M8 {
                called(&c.0, 1, &h, v);
                ans(1, v)
            }
            async fn ep_a(c: &mut Ctx, h: VarHeader, v: M4) -> M8 {
                called(&c.0, 2, &h, v);
                freed(&c.0, v).await;
                ans(2, v)
            }
            async fn ep_s(c: SpCtx, h: VarHeader, v: M4, out: Sender<WireTxImpl>) {
                called(&c.0, 3, &h, v);
                freed(&c.0, v).await;
                let _ = out.reply::<EpS>(h.seq_no, &ans(3, v)).await;
            }
            fn tp_b(c: &mut Ctx, h: VarHeader, v: M4, _o: &Sender<WireTxImpl>) {
                called(&c.0, 4, &h, v);
            }
            async fn tp_a(c: &mut Ctx, h: VarHeader, v: M4, _o: &Sender<WireTxImpl>) {
                called(&c.0, 5, &h, v);
                freed(&c.0, v).await;
            }
            async fn tp_s(c: SpCtx, h: VarHeader, v: M4, _o: Sender<WireTxImpl>) {
                called(&c.0, 6, &h, v);
                freed(&c.0, v).await;
            }
            define_dispatch! {
                app: Dis;
                spawn_fn: spawn_fn;
                tx_impl: WireTxImpl;
                spawn_impl: WireSpawnImpl;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                    | EpB | blocking | ep_b |
                    | EpA | async | ep_a |
                    | EpS | spawn | ep_s |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                    | TpB | blocking | tp_b |
                    | TpA | async | tp_a |
                    | TpS | spawn | tp_s |
                };
                topics_out: {
                    list: TOUT;
                };
            }
            fn server(s: &S, tx: WireTxImpl, rx: WireRxImpl) -> Pieces {
                let dis = Dis::new(Ctx(s.clone()), WireSpawnImpl {});
                let kk = dis.min_key_len();
                let want = match kk { VarKeyKind::Key1 => 1, VarKeyKind::Key2 => 2, VarKeyKind::Key4 => 4, VarKeyKind::Key8 => 8 };
                if want != $n {
                    eprintln!("note: key length of app {} is {want}", $n);
                }
                let (mut server, stopper) = new_server_stoppable(dis, Settings { tx, rx, buf: 8192, kkind: kk });
                let sender = server.sender();
                (
                    Box::pin(async move {
                        let _ = server.run().await;
                    }),
                    Box::new(move |sq, v| {
                        let sender = sender.clone();
                        Box::pin(async move { sender.publish::<Out>(sq, &Msg(v)).await.is_ok() })
                    }),
                    Box::new(move || stopper.stop()),
                )
            }
            fn op(c: Client, k: u64, i: u64) -> BoxFut<Res> {
                let (v, sq) = (Msg(i), VarSeq::Seq4(i as u32));
                Box::pin(async move {
                    match k {
                        1 => res(c.send_resp::<EpB>(&v).await, |x| x.0),
                        2 => res(c.send_resp::<EpA>(&v).await, |x| x.0),
                        3 => res(c.send_resp::<EpS>(&v).await, |x| x.0),
                        4 => res(c.publish::<TpB>(sq, &v).await.map_err(|_| HostErr::Closed), |_| 0),
                        5 => res(c.publish::<TpA>(sq, &v).await.map_err(|_| HostErr::Closed), |_| 0),
                        6 => res(c.publish::<TpS>(sq, &v).await.map_err(|_| HostErr::Closed), |_| 0),
                        7 => res(c.send_resp::<PingEndpoint>(&(i as u32)).await, |x| x as u64),
                        9 => res(c.send_resp::<EpF>(&v).await, |x| x.0),
                        k => panic!("kind {k}"),
                    }
                })
            }
            fn sub(c: Client, f: Box<dyn Fn(u64) + Send>) -> BoxFut<()> {
                Box::pin(async move {
                    let mut s = c.subscribe_exclusive::<Out>(4096).await.unwrap();
                    drop(c);
                    tokio::task::spawn(async move {
                        while let Some(m) = s.recv().await {
                            POLLS.fetch_add(1, SeqCst);
                            f(m.0);
                        }
                    });
                })
            }
            pub const APP: App = App { n: $n, server, op, sub };
        }
    };
}
app!(a1, 1, "b/0", "a/0", "s/0", "ts/0");
app!(a2, 2, "p/5", "p/2", "s/0", "ts/0");
app!(a4, 4, "b/0", "p/419", "p/385", "ts/0");
app!(a8, 8, "p/45945", "a/0", "p/19644", "ts/0");
fn app(n: u64) -> App {
    *[a1::APP, a2::APP, a4::APP, a8::APP].iter().find(|a| a.n == n).unwrap()
}

// ------------------------------------------------------------------ transport of the client
struct Tx(mpsc::Sender<Vec<u8>>);
struct Rx(mpsc::Receiver<Vec<u8>>);
struct Sp;
#[derive(Debug)]
struct Gone;
impl std::fmt::Display for Gone {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("gone")
    }
}
impl std::error::Error for Gone {}
impl CTx for Tx {
    type Error = Gone;
    async fn send(&mut self, data: Vec<u8>) -> Result<(), Gone> {
        self.0.send(data).await.map_err(|_| Gone)
    }
}
impl CRx for Rx {
    type Error = Gone;
    async fn receive(&mut self) -> Result<Vec<u8>, Gone> {
        self.0.recv().await.ok_or(Gone)
    }
}
impl CSp for Sp {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        Slot::spawn(fut);
    }
}
fn client(tx: mpsc::Sender<Vec<u8>>, rx: mpsc::Receiver<Vec<u8>>, sw: u64, depth: u64) -> Client {
    let k = match sw { 1 => VarSeqKind::Seq1, 2 => VarSeqKind::Seq2, _ => VarSeqKind::Seq4 };
    if depth == 64 {
        test_channels::new_from_channels(tx, rx, k)
    } else {
        HostClient::new_with_wire(Tx(tx), Rx(rx), Sp, k, ERROR_PATH, depth as usize)
    }
}
/// passes frames on, one at a time, while the gate is open
async fn pump(s: S, down: bool, mut from: mpsc::Receiver<Vec<u8>>, to: mpsc::Sender<Vec<u8>>) {
    loop {
        let f = std::future::poll_fn(|cx| {
            POLLS.fetch_add(1, SeqCst);
            let mut g = s.sh();
            g.wakers.push(cx.waker().clone());
            if if down { g.gates.1 } else { g.gates.0 } {
                return Poll::Pending;
            }
            drop(g);
            from.poll_recv(cx)
        })
        .await;
        let Some(f) = f else { return };
        if to.send(f).await.is_err() {
            return;
        }
    }
}
/// things not run through a Slot move frames too
async fn settle() {
    for _ in 0..100 {
        quiesce().await;
        tokio::task::yield_now().await;
    }
}

async fn run_script(s: &Value) -> Value {
    let c = &s["cfg"];
    let n = |f: &str| c[f].as_u64().unwrap();
    let app = app(n("n"));
    let st: S = Arc::new(Mode::Scripted(Mutex::new(Sh::default())));
    let ch = |x: u64| mpsc::channel::<Vec<u8>>(x as usize);
    let (u1t, u1r) = ch(n("up"));
    let (u2t, u2r) = ch(n("up"));
    let (d1t, d1r) = ch(n("down"));
    let (d2t, d2r) = ch(n("down"));
    Slot::spawn(pump(st.clone(), false, u1r, u2t));
    Slot::spawn(pump(st.clone(), true, d1r, d2t));
    let (run, publ, stop) = (app.server)(&st, ChannelWireTx::new(d1t), ChannelWireRx::new(u2r));
    Slot::spawn(run);
    let st2 = st.clone();
    Slot::spawn(async move {
        // the server's application publishes its messages one after another
        for j in 1.. {
            if until(st2.clone(), |g| if g.stop { Some(true) } else { (g.spubs >= j).then_some(false) }).await {
                break;
            }
            publ(VarSeq::Seq2(j as u16), j).await;
        }
    });
    let cl = client(u1t, d2r, n("sw"), n("depth"));
    let got: Arc<Mutex<Vec<u64>>> = Default::default();
    let g2 = got.clone();
    (app.sub)(cl.clone(), Box::new(move |v| g2.lock().unwrap().push(v))).await;
    let done: Arc<Mutex<Vec<Value>>> = Default::default();
    let mut ops: Vec<Slot> = vec![];
    let (mut mg, mut md, mut mi, mut ms) = (0, 0, 0, 0);
    let mut ev = vec![];
    for e in s["ev"].as_array().unwrap() {
        let mut rec = e.clone();
        match e["a"].as_str().unwrap() {
            "Op" => {
                let i = ops.len() as u64 + 1;
                let (f, d) = ((app.op)(cl.clone(), e["k"].as_u64().unwrap(), i), done.clone());
                ops.push(Slot::spawn(async move {
                    let r = f.await;
                    d.lock().unwrap().push(json!({"i":i,"r":r.0,"v":r.1}));
                }));
            }
            "SPub" => {
                let mut g = st.sh();
                g.spubs += 1;
                g.wake();
            }
            "Free" => {
                let mut g = st.sh();
                g.free.insert(e["i"].as_u64().unwrap());
                g.wake();
            }
            "Gate" => {
                let mut g = st.sh();
                let shut = !e["b"].as_bool().unwrap();
                if e["d"] == "up" { g.gates.0 = shut } else { g.gates.1 = shut }
                g.wake();
            }
            "Cancel" => ops[e["i"].as_u64().unwrap() as usize - 1].cancel(),
            "Stop" => {
                stop();
                let mut g = st.sh();
                g.gates = (false, false);
                g.all_free = true;
                g.stop = true;
                g.wake();
            }
            "Quiet" => {
                settle().await;
                let g = st.sh();
                let (d, r) = (done.lock().unwrap(), got.lock().unwrap());
                rec = json!({"a":"Quiet","res":d[md..],"ilog":g.ilog[mi..],"slog":g.slog[ms..],"got":r[mg..],
                    "closed":cl.is_closed(),"ok":take_panics().is_empty()});
                (md, mi, ms, mg) = (d.len(), g.ilog.len(), g.slog.len(), r.len());
            }
            x => panic!("event {x}"),
        }
        ev.push(rec);
    }
    json!({"id":s["id"],"cfg":c,"ev":ev})
}
pub fn main(inp: &str, out: &str) {
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &read_lines(inp) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let t = rt.block_on(run_script(s));
        drop(rt);
        o.line(&t);
    }
    o.finish();
}

// ------------------------------------------------------------------------------ several threads
async fn stress(s: &Value) -> Value {
    let c = &s["cfg"];
    let n = |f: &str| c[f].as_u64().unwrap();
    let app = app(n("n"));
    let st: S = Arc::new(Mode::Free(Mutex::new(vec![]), AtomicU64::new(n("seed"))));
    let (ut, ur) = mpsc::channel::<Vec<u8>>(n("up") as usize);
    let (dt, dr) = mpsc::channel::<Vec<u8>>(n("down") as usize);
    let (run, publ, stop) = (app.server)(&st, ChannelWireTx::new(dt), ChannelWireRx::new(ur));
    let srv = tokio::task::spawn(run);
    let cl = client(ut, dr, n("sw"), n("depth"));
    let s2 = st.clone();
    (app.sub)(cl.clone(), Box::new(move |v| s2.note(json!({"a":"SGot","i":v})))).await;
    let kinds: Vec<u64> = c["kinds"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let per = n("each");
    let mut tasks = vec![];
    for t in 0..n("callers") {
        let (cl, st, kinds) = (cl.clone(), st.clone(), kinds.clone());
        tasks.push(tokio::task::spawn(async move {
            for j in 0..per {
                // (99 stands for something undecodable)
                let i = 1001 + t * per + j;
                let k = kinds[st.rnd(kinds.len() as u64) as usize];
                st.note(json!({"a":"Issue","i":i,"k":k,"by":t}));
                let r = (app.op)(cl.clone(), k, i).await;
                if ![4, 5, 6].contains(&k) {
                    st.note(json!({"a":"Done","i":i,"r":r.0,"v":r.1}));
                } else if r.0 != "ok" {
                    st.note(json!({"a":"Done","i":-1,"r":r.0,"v":r.1}));
                }
                st.dawdle().await;
            }
        }));
    }
    let (s3, np) = (st.clone(), n("spubs"));
    tasks.push(tokio::task::spawn(async move {
        for j in 1..=np {
            s3.note(json!({"a":"SPub","i":j}));
            publ(VarSeq::Seq2(j as u16), j).await;
            s3.dawdle().await;
        }
    }));
    let mut ok = true;
    for t in tasks {
        ok &= matches!(tokio::time::timeout(Duration::from_secs(patience()), t).await, Ok(Ok(())));
    }
    // what is still on its way: as many calls of topic handlers and messages as there should be
    let owed = |l: &[Value]| {
        let mut m: HashMap<&str, i64> = HashMap::new();
        for e in l {
            let top = [4, 5, 6].contains(&e["k"].as_u64().unwrap_or(0));
            match e["a"].as_str().unwrap() {
                "Issue" if top => *m.entry("t").or_default() += 1,
                "Call" if top => *m.entry("t").or_default() -= 1,
                "SPub" => *m.entry("p").or_default() += 1,
                "SGot" => *m.entry("p").or_default() -= 1,
                _ => {}
            }
        }
        m.values().any(|x| *x > 0)
    };
    let t = Instant::now();
    let Mode::Free(l, _) = &*st else { unreachable!() };
    while owed(&l.lock().unwrap()) && t.elapsed() < Duration::from_secs(patience()) {
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    if owed(&l.lock().unwrap()) || !ok {
        MISSED.fetch_add(1, SeqCst);
    }
    let closed = cl.is_closed();
    st.note(json!({"a":"End","ok":ok && !closed && take_panics().is_empty()}));
    stop();
    let _ = tokio::time::timeout(Duration::from_secs(5), srv).await;
    let ev = l.lock().unwrap().clone();
    json!({"id":s["id"],"cfg":c,"ev":ev})
}
static MISSED: AtomicU64 = AtomicU64::new(0);
/// do not wait long for what never comes once that has been seen
fn patience() -> u64 {
    if MISSED.load(SeqCst) == 0 { 20 } else { 1 }
}
pub fn main_mt(inp: &str, out: &str) {
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(240));
    for s in &read_lines(inp) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(s["cfg"]["threads"].as_u64().unwrap() as usize).enable_time().build().unwrap();
        let t = rt.block_on(async { tokio::task::spawn({ let s = s.clone(); async move { stress(&s).await } }).await.unwrap() });
        rt.shutdown_background();
        o.line(&t);
    }
    o.finish();
}
