//! Replays behaviours generated from Nusb.tla into the client's USB transport, on a simulated bus.
//! Usage: vhn <driver> <scripts> <traces>
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;
#[path = "../../harness/src/wire.rs"]
#[allow(dead_code)]
mod wire;
use nusb::sim::{self, Dev, Ep, If};
use nusb::transfer::{EndpointType, TransferError};
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::host_client::HostClient;
use postcard_rpc::standard_icd::WireError;
use postcard_rpc::{Key, Topic};
use postcard_schema::Schema;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use util::*;

/// all the bytes of the body
#[derive(Debug, Clone, PartialEq)]
pub struct Blob(Vec<u8>);
impl Schema for Blob {
    const SCHEMA: &'static postcard_schema::schema::NamedType = <u16 as Schema>::SCHEMA;
}
impl serde::Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for x in &self.0 {
            t.serialize_element(x)?;
        }
        t.end()
    }
}
impl<'de> serde::Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut b = vec![];
                while let Ok(Some(x)) = a.next_element::<u8>() {
                    b.push(x);
                }
                Ok(b)
            }
        }
        d.deserialize_tuple(1 << 20, V).map(Blob)
    }
}
pub struct Up;
impl Topic for Up {
    type Message = Blob;
    const PATH: &'static str = "verif/nusb/up";
    const TOPIC_KEY: Key = Key::for_path::<Blob>("verif/nusb/up");
}
pub struct Down;
impl Topic for Down {
    type Message = Blob;
    const PATH: &'static str = "verif/nusb/down";
    const TOPIC_KEY: Key = Key::for_path::<Blob>("verif/nusb/down");
}
/// every body is different, if there is room for that
fn body(i: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|o| match o {
            0 => i as u8,
            1 => (i >> 8) as u8,
            _ => (o * 7 + i * 13 + o / 64) as u8,
        })
        .collect()
}
/// lengths in the scripts are those of whole frames; the header takes 11 bytes
const HEAD: usize = 11;
fn u(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn ep_addr(d: &str, k: usize) -> u8 {
    if d == "in" {
        0x81 + k as u8
    } else {
        0x01 + k as u8
    }
}
fn devices(c: &Value) -> Vec<Dev> {
    c["devs"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(n, d)| Dev {
            serial: Some(format!("{}{n}", if d["m"] == true { "yes" } else { "no" })),
            product: None,
            vid: 0x16c0,
            pid: 0x27dd,
            open_fails: d["open"] == false,
            interfaces: d["ifs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|i| {
                    let eps: Vec<Ep> = i["eps"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .enumerate()
                        .map(|(k, e)| Ep {
                            address: ep_addr(e["d"].as_str().unwrap(), k),
                            kind: match e["t"].as_str().unwrap() {
                                "bulk" => EndpointType::Bulk,
                                "intr" => EndpointType::Interrupt,
                                _ => EndpointType::Isochronous,
                            },
                            mps: u(&e["mps"]),
                        })
                        .collect();
                    // the endpoints may be spread over alternate settings
                    let n = u(&i["alt"]).min(eps.len());
                    If {
                        number: u(&i["no"]) as u8,
                        class: u(&i["cls"]) as u8,
                        subclass: 0,
                        string: None,
                        endpoints: vec![eps[..n].to_vec(), eps[n..].to_vec()],
                        claim_fails: i["claim"] == false,
                    }
                })
                .collect(),
        })
        .collect()
}
fn kind(s: &Value) -> TransferError {
    match s.as_str().unwrap() {
        "stall" => TransferError::Stall,
        "unknown" => TransferError::Unknown,
        "cancelled" => TransferError::Cancelled,
        "disconnected" => TransferError::Disconnected,
        "fault" => TransferError::Fault,
        x => panic!("error {x}"),
    }
}
async fn rest() {
    let (mut same, mut last) = (0, sim::activity());
    while same < 60 {
        tokio::task::yield_now().await;
        let now = sim::activity();
        same = if now == last { same + 1 } else { 0 };
        last = now;
    }
}
fn connect(c: &Value) -> Option<HostClient<WireError>> {
    let f = |d: &nusb::DeviceInfo| d.serial_number().is_some_and(|s| s.starts_with("yes"));
    let want = u(&c["want"]);
    match c["ctor"].as_str().unwrap() {
        "auto" => HostClient::try_new_raw_nusb(f, "verif/nusb/err", 8, VarSeqKind::Seq2).ok(),
        "pick" => HostClient::try_new_raw_nusb_with_interface(f, |i| i.class() as usize == want, "verif/nusb/err", 8, VarSeqKind::Seq2).ok(),
        _ => {
            let d = nusb::list_devices().ok()?.find(f)?;
            HostClient::try_from_nusb_and_interface(&d, want.wrapping_sub(1) & 0xff, "verif/nusb/err", 8, VarSeqKind::Seq2).ok()
        }
    }
}
async fn run_script(s: Value) -> Value {
    sim::reset();
    {
        let mut b = sim::BUS.lock().unwrap();
        b.devices = devices(&s["cfg"]);
        b.list_fails = s["cfg"]["list"] == false;
    }
    let got: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let mut client: Option<HostClient<WireError>> = None;
    let (mut dev, mut gseen) = (0usize, 0usize);
    let mut arrived: Vec<(String, usize)> = vec![];
    // what the device still has to hear
    let mut stream: std::collections::VecDeque<u8> = Default::default();
    let mut npub = 0;
    let mut ev = vec![];
    let ins = |dev: usize| -> Vec<usize> { (0..8usize).filter(|k| sim::running(dev, 0x81 + *k as u8) > 0).map(|k| k + 1).collect() };
    let outs = |dev: usize| -> Option<usize> { (0..8usize).find(|k| sim::running(dev, 0x01 + *k as u8) > 0) };
    let mut epin = 0x81u8;
    for e in s["ev"].as_array().unwrap() {
        let mut rec = e.clone();
        match e["a"].as_str().unwrap() {
            "Connect" => {
                client = connect(&s["cfg"]);
                rec["ok"] = json!(client.is_some());
                if let Some(c) = &client {
                    let cl = sim::BUS.lock().unwrap().claimed.last().copied().unwrap_or((99, 99));
                    dev = cl.0;
                    rec["dev"] = json!(cl.0 + 1);
                    rec["ifn"] = json!(cl.1);
                    let mut sub = c.subscribe_exclusive::<Up>(64).await.unwrap();
                    let g2 = got.clone();
                    tokio::task::spawn(async move {
                        while let Some(m) = sub.recv().await {
                            g2.lock().unwrap().push(m.0);
                        }
                    });
                    rest().await;
                    let v = ins(dev);
                    epin = 0x80 + v.first().copied().unwrap_or(1) as u8;
                    rec["ins"] = json!(v);
                }
            }
            "Pub" => {
                let n = u(&e["len"]) - HEAD;
                npub += 1;
                let b = body(npub, n);
                let seq = 0x100 + npub as u16;
                let r = client.as_ref().unwrap().publish::<Down>(VarSeq::Seq2(seq), &Blob(b.clone())).await;
                rec["ok"] = json!(r.is_ok());
                if r.is_ok() {
                    stream.extend(wire::encode(Down::TOPIC_KEY, 8, seq as u64, 2, &b));
                }
                rest().await;
            }
            "OutOk" => {
                match outs(dev) {
                    None => rec["n"] = json!(-2),
                    Some(k) => {
                        let d = sim::take_out(dev, 0x01 + k as u8).unwrap();
                        rec["ep"] = json!(k + 1);
                        let good = d.len() <= stream.len() && d.iter().zip(stream.iter()).all(|(a, b)| a == b);
                        rec["n"] = if good {
                            stream.drain(..d.len());
                            json!(d.len())
                        } else {
                            json!(-1)
                        };
                    }
                }
                rest().await;
            }
            "OutErr" => {
                rec["had"] = json!(outs(dev).is_some_and(|k| sim::fail(dev, 0x01 + k as u8, kind(&e["kind"]))));
                rest().await;
            }
            "Close" => {
                client.as_ref().unwrap().close();
                rest().await;
            }
            "In" => {
                let n = u(&e["len"]);
                let k = e["kind"].as_str().unwrap();
                arrived.push((k.into(), n));
                let i = arrived.len();
                let d = match k {
                    "good" => wire::encode(Up::TOPIC_KEY, 8, i as u64, 2, &body(i, n - HEAD)),
                    "empty" => vec![],
                    "junk" => vec![0xff; n],
                    _ => wire::encode(Down::TOPIC_KEY, 8, i as u64, 2, &body(i, n)),
                };
                sim::arrive(dev, epin, d);
            }
            "InErr" => rec["had"] = json!(sim::fail(dev, epin, kind(&e["kind"]))),
            "Clr" => sim::BUS.lock().unwrap().clear_fails = e["b"] == true,
            "Quiet" => {
                rest().await;
                let g = got.lock().unwrap();
                let gj: Vec<Value> = g[gseen..]
                    .iter()
                    .map(|b| {
                        let j = (1..=arrived.len()).find(|j| {
                            let (k, n) = &arrived[j - 1];
                            k == "good" && *n == b.len() + HEAD && body(*j, b.len()) == *b
                        });
                        json!({"i": j.map(|x| x as i64).unwrap_or(-1), "len": b.len() + HEAD})
                    })
                    .collect();
                gseen = g.len();
                rec = json!({"a":"Quiet","got":gj,"closed":client.as_ref().unwrap().is_closed(),
                    "misuse":sim::BUS.lock().unwrap().misuse,"listening":!ins(dev).is_empty(),"ok":take_panics().is_empty()});
            }
            x => panic!("event {x}"),
        }
        let refused = rec["a"] == "Connect" && client.is_none();
        ev.push(rec);
        if refused {
            break;
        }
    }
    drop(client);
    json!({"id":s["id"],"cfg":s["cfg"],"ev":ev})
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: vhn <driver> <in> <out>");
        std::process::exit(2);
    }
    install_panic_hook();
    let mut o = Out::new(&a[3]);
    let wd = Watchdog::start(&a[3], Duration::from_secs(60));
    for s in read_lines(&a[2]) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let t = rt.block_on(run_script(s));
        o.line(&t);
    }
    o.finish();
    std::process::exit(0);
}
