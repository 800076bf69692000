//! A real client on the (stand-in) nusb bus, joined to a real server on embassy-usb: descriptors, packets
//! and transfers in between are carried by this harness. Usage: vhe e2e <scripts> <traces>
#[path = "../../harness-usb/src/exec.rs"]
#[allow(dead_code)]
mod exec;
mod usb;
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use nusb::sim::{self, Dev, Ep, If};
use nusb::transfer::TransferError;
use postcard_rpc::header::{VarHeader, VarKeyKind, VarSeqKind};
use postcard_rpc::host_client::HostClient;
use postcard_rpc::server::{Server, WireSpawn};
use postcard_rpc::standard_icd::WireError;
use postcard_rpc::{define_dispatch, endpoints, topics, TopicDirection};
use postcard_schema::Schema;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use usb::{Drv, Usb};

/// all the bytes of the body
#[derive(Debug, Clone, PartialEq)]
pub struct Blob(Vec<u8>);
impl Schema for Blob {
    const SCHEMA: &'static postcard_schema::schema::NamedType = <u16 as Schema>::SCHEMA;
}
impl serde::Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for x in &self.0 {
            t.serialize_element(x)?;
        }
        t.end()
    }
}
impl<'de> serde::Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut b = vec![];
                while let Ok(Some(x)) = a.next_element::<u8>() {
                    b.push(x);
                }
                Ok(b)
            }
        }
        d.deserialize_tuple(1 << 20, V).map(Blob)
    }
}
endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path |
    | ---------- | --------- | ---------- | ---- |
    | Echo | Blob | Blob | "verif/e2e/echo" |
}
topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
}
topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path |
    | ------- | --------- | ---- |
}
/// request and reply bodies: number of the call and length of the reply, then bytes that depend on both
fn request(i: usize, n: usize, m: usize) -> Vec<u8> {
    let mut v = vec![i as u8, (i >> 8) as u8, m as u8, (m >> 8) as u8];
    v.extend((4..n).map(|o| (o * 7 + i * 13 + o / 64) as u8));
    v
}
fn reply(i: usize, m: usize) -> Vec<u8> {
    (0..m).map(|o| if o == 0 { i as u8 } else { (o * 5 + i * 31 + o / 64 + 1) as u8 }).collect()
}
/// what the handlers saw
type Seen = Rc<RefCell<Vec<usize>>>;
pub struct Ctx(Seen);
impl postcard_rpc::server::SpawnContext for Ctx {
    type SpawnCtxt = ();
    fn spawn_ctxt(&mut self) {}
}
fn echo(c: &mut Ctx, _h: VarHeader, q: Blob) -> Blob {
    let b = q.0;
    if b.len() < 4 {
        c.0.borrow_mut().push(0);
        return Blob(vec![]);
    }
    let (i, m) = (b[0] as usize | (b[1] as usize) << 8, b[2] as usize | (b[3] as usize) << 8);
    c.0.borrow_mut().push(if request(i, b.len(), m) == b { i } else { 0 });
    Blob(reply(i, m))
}
#[derive(Clone)]
pub struct Sp;
impl WireSpawn for Sp {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
#[allow(dead_code)]
fn spawn_fn<F>(_: &Sp, _: F) -> Result<(), ()> {
    Ok(())
}
fn kkind(w: u64) -> VarKeyKind {
    match w {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    }
}
macro_rules! device {
    ($m:ident, $imp:ident, $eu:ident) => {
        mod $m {
            use super::*;
            use postcard_rpc::server::impls::$imp::dispatch_impl::*;
            type Tx = WireTxImpl<NoopRawMutex, Drv>;
            define_dispatch! {
                app: App;
                spawn_fn: spawn_fn;
                tx_impl: Tx;
                spawn_impl: Sp;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind | handler |
                    | ---------- | ---- | ------- |
                    | Echo | blocking | echo |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind | handler |
                    | ------- | ---- | ------- |
                };
                topics_out: {
                    list: TOUT;
                };
            }
            static MADE: AtomicUsize = AtomicUsize::new(0);
            /// sets the device up; which way of the three
            pub fn start(usb: &Usb, kw: u64, seen: &Seen) -> &'static str {
                let s: &'static WireStorage<NoopRawMutex, Drv> = Box::leak(Box::new(WireStorage::new()));
                let mut cfg = $eu::Config::new(0x16c0, 0x27dd);
                cfg.serial_number = Some("yes1");
                let tb: &'static mut [u8] = Box::leak(vec![0xAAu8; 2048].into_boxed_slice());
                let n = MADE.fetch_add(1, SeqCst);
                let (mut d, tx, rx, how) = match n {
                    1 => {
                        let (d, tx, rx) = s.init_poststation(Drv(usb.clone()), cfg, tb);
                        (d, tx, rx, "poststation")
                    }
                    n if n % 2 == 0 => {
                        let (d, tx, rx) = s.init(Drv(usb.clone()), cfg, tb);
                        (d, tx, rx, "init")
                    }
                    _ => {
                        let (b, tx, rx) = s.init_without_build(Drv(usb.clone()), cfg, tb);
                        (b.build(), tx, rx, "build")
                    }
                };
                tokio::task::spawn_local(async move { d.run().await });
                let app = App::new(Ctx(seen.clone()), Sp);
                let buf: &'static mut [u8] = Box::leak(vec![0u8; 2048].into_boxed_slice());
                let mut srv = Server::new(tx, rx, buf, app, kkind(kw));
                let u = usb.clone();
                tokio::task::spawn_local(async move {
                    // as firmware does: run again after a fatal error, once there is a host
                    loop {
                        loop {
                            if !u.borrow().enabled.is_empty() {
                                break;
                            }
                            std::future::poll_fn(|cx| {
                                let mut g = u.borrow_mut();
                                if !g.enabled.is_empty() {
                                    return std::task::Poll::Ready(());
                                }
                                g.wakers.push(cx.waker().clone());
                                std::task::Poll::Pending
                            })
                            .await;
                        }
                        let _ = srv.run().await;
                        tokio::task::yield_now().await;
                    }
                });
                how
            }
        }
    };
}
device!(v3, embassy_usb_v0_3, embassy_usb_0_3);
device!(v4, embassy_usb_v0_4, embassy_usb_0_4);

async fn rest(u: &Usb) {
    let now = || (sim::activity(), u.borrow().progress);
    let (mut same, mut last) = (0, now());
    while same < 60 {
        tokio::task::yield_now().await;
        let n = now();
        same = if n == last { same + 1 } else { 0 };
        last = n;
    }
}
/// a control transfer
async fn ask(u: &Usb, r: [u8; 8]) -> Option<Vec<u8>> {
    let n = {
        let mut g = u.borrow_mut();
        g.requests.push_back(r);
        g.wake();
        g.answers.len()
    };
    rest(u).await;
    u.borrow().answers.get(n).cloned().flatten()
}
fn get(kind: u8, ix: u8, lang: u16, len: u16) -> [u8; 8] {
    [0x80, 6, ix, kind, lang as u8, (lang >> 8) as u8, len as u8, (len >> 8) as u8]
}
fn text(d: &[u8]) -> String {
    let w: Vec<u16> = d.chunks(2).skip(1).map(|c| c[0] as u16 | (*c.get(1).unwrap_or(&0) as u16) << 8).collect();
    String::from_utf16_lossy(&w)
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
/// the device as the host's operating system sees it
async fn enumerate(u: &Usb, rec: &mut Value) -> Option<Dev> {
    {
        let mut g = u.borrow_mut();
        g.events.push_back(embassy_usb_driver::Event::PowerDetected);
        g.events.push_back(embassy_usb_driver::Event::Reset);
        g.wake();
    }
    rest(u).await;
    let dd = ask(u, get(1, 0, 0, 18)).await?;
    ask(u, [0, 5, 7, 0, 0, 0, 0, 0]).await?;
    let c0 = ask(u, get(2, 0, 0, 9)).await?;
    let total = *c0.get(2)? as u16 | (*c0.get(3)? as u16) << 8;
    let cd = ask(u, get(2, 0, 0, total)).await?;
    rec["total"] = json!(total);
    rec["desc"] = json!(cd);
    let serial = match ask(u, get(3, *dd.get(16)?, 0x0409, 255)).await {
        Some(s) => text(&s),
        None => String::new(),
    };
    // Windows asks for these
    let bos = ask(u, get(0x0f, 0, 0, 255)).await.unwrap_or_default();
    let uuid = [0xDF, 0x60, 0xDD, 0xD8, 0x89, 0x45, 0xC7, 0x4C, 0x9C, 0xD2, 0x65, 0x9D, 0x9E, 0x64, 0x8A, 0x9F];
    let at = bos.windows(16).position(|w| w == uuid);
    let ms = match at {
        Some(p) if bos.len() >= p + 24 => {
            let (l, code) = (bos[p + 20] as u16 | (bos[p + 21] as u16) << 8, bos[p + 22]);
            ask(u, [0xC0, code, 0, 0, 7, 0, l as u8, (l >> 8) as u8]).await.unwrap_or_default()
        }
        _ => vec![],
    };
    let wide = |s: &str| s.encode_utf16().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    rec["winusb"] = json!(contains(&ms, b"WINUSB\0\0"));
    rec["guid"] = json!(contains(&ms, &wide("DeviceInterfaceGUIDs")) && contains(&ms, &wide("{AFB9A6FB-30BA-44BC-9232-806CFC875321}")));
    ask(u, [0, 9, 1, 0, 0, 0, 0, 0]).await?;
    let mut en = u.borrow().enabled.clone();
    en.sort();
    rec["enabled"] = json!(en);
    let (mut ifs, mut at): (Vec<If>, usize) = (vec![], 0);
    let mut names = vec![];
    while at + 1 < cd.len() && cd[at] >= 2 && at + cd[at] as usize <= cd.len() {
        let d = &cd[at..at + cd[at] as usize];
        match d[1] {
            4 if d.len() >= 9 => {
                if d[3] == 0 {
                    let string = if d[8] == 0 { None } else { ask(u, get(3, d[8], 0x0409, 255)).await.map(|s| text(&s)) };
                    names.push(string.clone().unwrap_or_default());
                    ifs.push(If { number: d[2], class: d[5], subclass: d[6], string, endpoints: vec![], claim_fails: false });
                }
                ifs.last_mut()?.endpoints.push(vec![]);
            }
            5 if d.len() >= 7 => {
                use nusb::transfer::EndpointType::*;
                let kind = [Control, Isochronous, Bulk, Interrupt][d[3] as usize & 3];
                ifs.last_mut()?.endpoints.last_mut()?.push(Ep { address: d[2], kind, mps: d[4] as usize | (d[5] as usize) << 8 });
            }
            _ => {}
        }
        at += d[0] as usize;
    }
    rec["names"] = json!(names);
    Some(Dev { serial: Some(serial), product: None, vid: 0x16c0, pid: 0x27dd, interfaces: ifs, open_fails: false })
}
/// The cable: packets both ways, as far as the host lets them through.
#[derive(Default)]
struct Cable {
    out_ep: u8,
    in_ep: u8,
    ocred: u64,
    icred: u64,
    pk: VecDeque<Vec<u8>>,
    part: Vec<u8>,
    outs: u64,
    ins: u64,
    big: bool,
}
impl Cable {
    /// one packet, if there is one to carry
    fn carry(&mut self, u: &Usb) -> bool {
        if self.ocred > 0 {
            if self.pk.is_empty() {
                if let Some(d) = sim::take_out(0, self.out_ep) {
                    // a transfer is its full packets and what is left of it
                    self.pk = if d.is_empty() { [vec![]].into() } else { d.chunks(64).map(|c| c.to_vec()).collect() };
                }
            }
            if let Some(p) = self.pk.pop_front() {
                self.ocred -= 1;
                self.outs += 1;
                let mut g = u.borrow_mut();
                g.down.push_back(p);
                g.wake();
                return true;
            }
        }
        if self.icred > 0 {
            let mut g = u.borrow_mut();
            if !g.taken {
                if let Some(p) = g.up.clone() {
                    g.taken = true;
                    g.wake();
                    drop(g);
                    self.icred -= 1;
                    self.ins += 1;
                    self.big |= p.len() > 64;
                    self.part.extend(&p);
                    // the host's requests are for 1024 bytes
                    if p.len() < 64 || self.part.len() >= 1024 {
                        sim::arrive(0, self.in_ep, std::mem::take(&mut self.part));
                    }
                    return true;
                }
            }
        }
        false
    }
    async fn run(&mut self, u: &Usb) {
        loop {
            rest(u).await;
            if !self.carry(u) {
                break;
            }
        }
    }
}
async fn script(s: Value) -> Value {
    sim::reset();
    let c = &s["cfg"];
    let n = |v: &Value| v.as_u64().unwrap();
    let usb: Usb = Default::default();
    let nums = [(1usize, 1usize), (1, 2), (3, 1), (5, 4)][n(&c["ep"]) as usize];
    usb.borrow_mut().nums = nums;
    let seen: Seen = Default::default();
    let kw = n(&c["kw"]);
    let mut cable = Cable { out_ep: nums.0 as u8, in_ep: 0x80 + nums.1 as u8, ..Default::default() };
    let mut client: Option<HostClient<WireError>> = None;
    let done: Rc<RefCell<Vec<Value>>> = Default::default();
    let (mut ncall, mut dseen, mut hseen) = (0usize, 0usize, 0usize);
    let mut ev = vec![];
    for e in s["ev"].as_array().unwrap() {
        let mut rec = e.clone();
        match e["a"].as_str().unwrap() {
            "Connect" => {
                let how = if n(&c["v"]) == 3 { v3::start(&usb, kw, &seen) } else { v4::start(&usb, kw, &seen) };
                rec["how"] = json!(how);
                if let Some(d) = enumerate(&usb, &mut rec).await {
                    rec["serial"] = json!(d.serial.clone().unwrap_or_default());
                    sim::BUS.lock().unwrap().devices = vec![d];
                    let f = |d: &nusb::DeviceInfo| d.serial_number() == Some("yes1");
                    client = HostClient::try_new_raw_nusb(f, "verif/e2e/err", 16, VarSeqKind::Seq2).ok();
                }
                rec["ok"] = json!(client.is_some());
                let cl = sim::BUS.lock().unwrap().claimed.last().copied().unwrap_or((99, 99));
                rec["ifn"] = json!(cl.1);
                rest(&usb).await;
                rec["listening"] = json!(sim::running(0, cable.in_ep) > 0);
            }
            "Call" => {
                ncall += 1;
                let (i, q, m) = (ncall, n(&e["n"]) as usize, n(&e["m"]) as usize);
                let (cl, d) = (client.clone().unwrap(), done.clone());
                tokio::task::spawn_local(async move {
                    let r = match cl.send_resp::<Echo>(&Blob(request(i, q, m))).await {
                        Ok(b) if b.0 == reply(i, m) => "ok".to_string(),
                        Ok(_) => "wrong".into(),
                        Err(e) => format!("{e:?}"),
                    };
                    d.borrow_mut().push(json!({"i":i,"r":r}));
                });
                cable.run(&usb).await;
            }
            "Out" => {
                cable.ocred += n(&e["k"]);
                cable.run(&usb).await;
            }
            "In" => {
                cable.icred += n(&e["k"]);
                cable.run(&usb).await;
            }
            "Stall" => {
                rec["had"] = json!(cable.part.is_empty() && sim::fail(0, cable.in_ep, TransferError::Stall));
                cable.run(&usb).await;
            }
            "Quiet" => {
                cable.run(&usb).await;
                let (d, h) = (done.borrow(), seen.borrow());
                rec = json!({"a":"Quiet","done":d[dseen..].to_vec(),"seen":h[hseen..].to_vec(),"outs":cable.outs,"ins":cable.ins,
                    "closed":client.as_ref().unwrap().is_closed(),
                    "ok":!cable.big && exec::take_panics().is_empty() && sim::BUS.lock().unwrap().misuse == 0});
                dseen = d.len();
                hseen = h.len();
            }
            x => panic!("event {x}"),
        }
        let refused = rec["a"] == "Connect" && client.is_none();
        ev.push(rec);
        if refused {
            break;
        }
    }
    json!({"id":s["id"],"cfg":s["cfg"],"ev":ev})
}
fn run(s: &Value) -> Value {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let ls = tokio::task::LocalSet::new();
    let r = ls.block_on(&rt, script(s.clone()));
    drop(ls);
    r
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: vhe <driver> <in> <out>");
        std::process::exit(2);
    }
    exec::install_panic_hook();
    exec::each(&a[2], &a[3], run);
    std::process::exit(0);
}
