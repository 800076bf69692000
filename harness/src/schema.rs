//! Driver for spec/Schema.tla: schema discovery between a real server and a real client over a
//! scripted link.
use crate::server::{Ctx, Rx as SRx, Sh, Sp as SSp, Tx as STx, S};
use crate::types::{self, *};
use crate::util::*;
use crate::wire;
use postcard_rpc::header::{VarHeader, VarSeqKind};
use postcard_rpc::host_client::*;
use postcard_rpc::server::{Dispatch, Sender, Server};
use postcard_rpc::standard_icd as icd;
use postcard_rpc::{define_dispatch, DeviceMap, Endpoint, Key, Topic};
use postcard_schema::schema::owned::OwnedNamedType;
use postcard_schema::schema::NamedType;
use postcard_schema::Schema;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::Duration;

fn e1(_c: &mut Ctx, _h: VarHeader, _v: Req1) -> Resp1 {
    Resp1 { c: [0; 4], d: Ok(Wrap(Leaf { a: 1 })) }
}
fn e2(_c: &mut Ctx, _h: VarHeader, _v: Tree1) -> Marker {
    Marker
}
async fn e3(_c: &mut Ctx, _h: VarHeader, _v: u32) -> Deep {
    Deep { d: Deepest { z: [1, 2, 3] }, e: vec![] }
}
fn i1(_c: &mut Ctx, _h: VarHeader, _v: Pair, _o: &Sender<STx>) {}
fn i2(_c: &mut Ctx, _h: VarHeader, _v: String, _o: &Sender<STx>) {}
define_dispatch! {
    app: Dis;
    spawn_fn: spawn_fn;
    tx_impl: STx;
    spawn_impl: SSp;
    context: Ctx;
    endpoints: {
        list: EPS;
        | EndpointTy | kind | handler |
        | ---------- | ---- | ------- |
        | E1 | blocking | e1 |
        | E2 | blocking | e2 |
        | E3 | async | e3 |
    };
    topics_in: {
        list: TIN;
        | TopicTy | kind | handler |
        | ------- | ---- | ------- |
        | I1 | blocking | i1 |
        | I2 | blocking | i2 |
    };
    topics_out: {
        list: TOUT;
    };
}
fn dispatcher(s: &S) -> Dis {
    Dis::new(Ctx(s.clone()), SSp(s.clone()))
}
pub fn device_map() -> &'static DeviceMap {
    dispatcher(&Default::default()).device_map
}

/// What has to be announced: the application's own declarations, not the map computed from them.
struct Item {
    k: &'static str,
    path: &'static str,
    keys: Vec<Key>,
    roots: Vec<&'static NamedType>,
}
fn ep<E: Endpoint>() -> Item where E::Request: Schema, E::Response: Schema {
    Item { k: "ep", path: E::PATH, keys: vec![E::REQ_KEY, E::RESP_KEY], roots: vec![<E::Request as Schema>::SCHEMA, <E::Response as Schema>::SCHEMA] }
}
fn tp<T: Topic>(k: &'static str) -> Item where T::Message: Schema {
    Item { k, path: T::PATH, keys: vec![T::TOPIC_KEY], roots: vec![<T::Message as Schema>::SCHEMA] }
}
fn items() -> Vec<Item> {
    let mut v: Vec<Item> = device_map().types.iter()
        .map(|t| Item { k: "type", path: "", keys: vec![], roots: vec![t] }).collect();
    v.extend([
        ep::<E1>(), ep::<E2>(), ep::<E3>(),
        ep::<P1>(), ep::<P2>(), ep::<P3>(), ep::<P4>(), ep::<P5>(), ep::<P6>(), ep::<P7>(), ep::<P8>(), ep::<P9>(), ep::<P10>(),
        ep::<icd::PingEndpoint>(), ep::<icd::GetAllSchemasEndpoint>(),
        tp::<O1>("out"), tp::<O2>("out"), tp::<icd::GetAllSchemaDataTopic>("out"), tp::<icd::LoggingTopic>("out"),
        tp::<I1>("in"), tp::<I2>("in"),
    ]);
    v
}
fn is_prim(t: &NamedType) -> bool {
    let k = types::tree(t);
    k["c"].as_array().unwrap().is_empty() && !["unitstruct", "tuple", "tuplestruct", "struct", "enum"].contains(&k["k"].as_str().unwrap())
}
fn describe(it: &[Item]) -> Value {
    it.iter().map(|i| {
        let needs: Vec<usize> = if i.k == "type" { vec![] } else {
            i.roots.iter().filter(|r| !is_prim(r))
                .map(|r| it.iter().position(|j| j.k == "type" && j.roots[0] == *r).map(|x| x + 1).unwrap_or(0)).collect()
        };
        json!({"k": i.k, "needs": needs})
    }).collect()
}
fn owned(t: &NamedType) -> OwnedNamedType {
    t.into()
}

#[derive(Default)]
struct Link {
    inq: VecDeque<Option<Vec<u8>>>,
    waker: Option<Waker>,
    sent: Vec<Vec<u8>>,
}
type W = Arc<Mutex<Link>>;
struct Tx(W);
struct Rx(W);
#[derive(Debug)]
struct E;
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") }
}
impl std::error::Error for E {}
impl WireTx for Tx {
    type Error = E;
    fn send(&mut self, data: Vec<u8>) -> impl Future<Output = Result<(), E>> + Send {
        self.0.lock().unwrap().sent.push(data);
        async { Ok(()) }
    }
}
impl WireRx for Rx {
    type Error = E;
    fn receive(&mut self) -> impl Future<Output = Result<Vec<u8>, E>> + Send {
        let w = self.0.clone();
        std::future::poll_fn(move |cx| {
            let mut g = w.lock().unwrap();
            match g.inq.pop_front() {
                Some(Some(v)) => Poll::Ready(Ok(v)),
                Some(None) => Poll::Ready(Err(E)),
                None => {
                    g.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
}
struct CSp;
impl WireSpawn for CSp {
    fn spawn(&mut self, fut: impl Future<Output = ()> + Send + 'static) {
        Slot::spawn(fut);
    }
}

struct Run {
    it: Vec<Item>,
    srv: S,
    link: W,
    client: HostClient<icd::WireError>,
    reqs: VecDeque<Vec<u8>>,
    taken: usize,
    pipe: VecDeque<Vec<u8>>,
    res: Arc<Mutex<[Option<Result<SchemaReport, String>>; 2]>>,
    started: [bool; 2],
    closed: bool,
    ev: Vec<Value>,
}
impl Run {
    fn push(&self, v: Option<Vec<u8>>) {
        let mut g = self.link.lock().unwrap();
        g.inq.push_back(v);
        if let Some(w) = g.waker.take() {
            w.wake();
        }
    }
    fn find(&self, k: &str, path: &str, keys: &[Key]) -> usize {
        self.it.iter().position(|i| i.k == k && i.path == path && i.keys == keys).map(|x| x + 1).unwrap_or(0)
    }
    fn classify(&self, v: &[u8]) -> usize {
        let Some(p) = wire::decode(v) else { return 0 };
        if p.key != wire::fold(icd::GetAllSchemaDataTopic::TOPIC_KEY, p.w) {
            return 0;
        }
        match postcard::from_bytes::<icd::OwnedSchemaData>(&p.body) {
            Ok(icd::OwnedSchemaData::Type(t)) =>
                self.it.iter().position(|i| i.k == "type" && owned(i.roots[0]) == t).map(|x| x + 1).unwrap_or(0),
            Ok(icd::OwnedSchemaData::Endpoint { path, request_key, response_key }) => self.find("ep", &path, &[request_key, response_key]),
            Ok(icd::OwnedSchemaData::Topic { path, key, direction }) => self.find(
                match direction { postcard_rpc::TopicDirection::ToServer => "in", _ => "out" }, &path, &[key]),
            Err(_) => 0,
        }
    }
    fn report(&self, r: &SchemaReport) -> Value {
        let same = |m: usize, tys: &[&OwnedNamedType]| {
            if m > 0 && self.it[m - 1].roots.iter().zip(tys).all(|(a, b)| owned(a) == **b || is_prim(a) && owned(a).ty == b.ty) { m } else { 0 }
        };
        let eps: Vec<usize> = r.endpoints.iter()
            .map(|e| same(self.find("ep", &e.path, &[e.req_key, e.resp_key]), &[&e.req_ty, &e.resp_ty])).collect();
        let tps = |k: &str, l: &[TopicReport]| -> Vec<usize> {
            l.iter().map(|t| same(self.find(k, &t.path, &[t.key]), &[&t.ty])).collect()
        };
        let prims = SchemaReport::default().types;
        let tys: Vec<usize> = r.types.iter().filter(|t| !prims.contains(t))
            .map(|t| self.it.iter().position(|i| i.k == "type" && owned(i.roots[0]) == *t).map(|x| x + 1).unwrap_or(0)).collect();
        json!({"st": "ok", "eps": eps, "ins": tps("in", &r.topics_in), "outs": tps("out", &r.topics_out), "types": tys})
    }
    async fn serve(&mut self, req: Vec<u8>, fail: &[usize], tot: bool) -> (Value, bool) {
        {
            let mut g = self.srv.lock().unwrap();
            let n = self.it.len();
            g.plan = (1..=n + 1).map(|i| if fail.contains(&i) || (i == n + 1 && !tot) { "other".into() } else { "ok".into() }).collect();
            g.feed(req);
        }
        quiesce().await;
        let sent = std::mem::take(&mut self.srv.lock().unwrap().sent);
        let mut order = vec![];
        let mut totok = false;
        for (v, o) in sent {
            let m = self.classify(&v);
            let p = wire::decode(&v);
            let is_tot = p.map(|p| p.key == wire::fold(icd::GetAllSchemasEndpoint::RESP_KEY, p.w)).unwrap_or(false);
            if is_tot {
                totok = o == "ok";
            } else {
                order.push(json!([m, o == "ok"]));
            }
            if o == "ok" {
                self.pipe.push_back(v);
            }
        }
        (json!(order), totok)
    }
    async fn event(&mut self, e: &Value) {
        let n = |f: &str| e[f].as_u64().unwrap() as usize;
        let mut e = e.clone();
        match e["a"].as_str().unwrap() {
            "Start" => {
                let d = n("d") - 1;
                if self.started[d] {
                    return;
                }
                self.started[d] = true;
                let (c, res) = (self.client.clone(), self.res.clone());
                Slot::spawn(async move {
                    let r = c.get_schema_report().await.map_err(|e| format!("{e:?}"));
                    res.lock().unwrap()[d] = Some(r);
                });
            }
            "Serve" => {
                let Some(req) = self.reqs.pop_front() else { return };
                let fail: Vec<usize> = e["fail"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let tot = e["tot"].as_bool().unwrap();
                let (order, totok) = self.serve(req, &fail, tot).await;
                e["order"] = order;
                e["tot"] = json!(totok);
            }
            "Refuse" => {
                let Some(req) = self.reqs.pop_front() else { return };
                let p = wire::decode(&req).expect("request header");
                self.pipe.push_back(wire::encode(icd::ERROR_KEY, 8, p.sq, p.sw, &postcard::to_stdvec(&icd::WireError::DeserFailed).unwrap()));
            }
            "Deliver" => {
                if self.closed || n("k") > self.pipe.len() || n("k") == 0 {
                    return;
                }
                for _ in 0..n("k") {
                    let v = self.pipe.pop_front().unwrap();
                    for _ in 0..n("c") {
                        self.push(Some(v.clone()));
                    }
                }
            }
            "Lose" => {
                if n("k") > self.pipe.len() || n("k") == 0 {
                    return;
                }
                self.pipe.drain(..n("k"));
            }
            "Noise" => {
                if self.closed {
                    return;
                }
                let data = icd::GetAllSchemaDataTopic::TOPIC_KEY;
                self.push(Some(match n("b") {
                    1 => wire::encode(data, 8, 7, 2, &[9, 9, 9]),
                    2 => wire::encode(icd::GetAllSchemasEndpoint::RESP_KEY, 8, 9999, 4, &[1, 1, 1, 1, 0]),
                    3 => wire::encode(O2::TOPIC_KEY, 8, 3, 1, &[4]),
                    4 => wire::garbage(data, 3),
                    5 => wire::encode(icd::ERROR_KEY, 8, 9999, 4, &[2]),
                    _ => vec![],
                }));
            }
            "Tick" => tokio::time::advance(Duration::from_millis(n("ms") as u64)).await,
            "Close" => {
                if self.closed {
                    return;
                }
                self.closed = true;
                self.push(None);
            }
            x => panic!("unknown event {x}"),
        }
        quiesce().await;
        {
            let g = self.link.lock().unwrap();
            for v in &g.sent[self.taken..] {
                self.reqs.push_back(v.clone());
            }
            self.taken = g.sent.len();
        }
        let g = self.res.lock().unwrap();
        let res: Vec<Value> = g.iter().map(|r| match r {
            None => json!({"st": "none"}),
            Some(Err(_)) => json!({"st": "err"}),
            Some(Ok(r)) => self.report(r),
        }).collect();
        drop(g);
        let p = take_panics();
        e["res"] = json!(res);
        e["ok"] = json!(p.is_empty());
        if !p.is_empty() {
            e["panic"] = json!(p);
        }
        self.ev.push(e);
    }
}
async fn run_script(s: &Value) -> Value {
    let srv: S = Arc::new(Mutex::new(Sh::default()));
    let dis = dispatcher(&srv);
    let kk = dis.min_key_len();
    let mut server = Server::new(STx(srv.clone()), SRx(srv.clone()), vec![0u8; 256].into_boxed_slice(), dis, kk);
    let task = Slot::spawn(async move {
        server.run().await;
    });
    let link: W = Default::default();
    let client = HostClient::new_with_wire(Tx(link.clone()), Rx(link.clone()), CSp, VarSeqKind::Seq2, icd::ERROR_PATH, 8);
    let mut r = Run {
        it: items(), srv, link, client, reqs: Default::default(), taken: 0, pipe: Default::default(),
        res: Default::default(), started: [false; 2], closed: false, ev: vec![],
    };
    for e in s["ev"].as_array().unwrap() {
        r.event(e).await;
    }
    task.cancel();
    json!({"id": s["id"], "msgs": describe(&r.it), "ev": r.ev})
}
pub fn main(inp: &str, out: &str) {
    let scripts = read_lines(inp);
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &scripts {
        wd.tick(s["id"].as_u64().unwrap());
        if s["describe"] == json!(true) {
            o.line(&json!({"id": s["id"], "n": items().len()}));
            continue;
        }
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let t = rt.block_on(run_script(s));
        drop(rt);
        o.line(&t);
    }
    o.finish();
}
