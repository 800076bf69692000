//! Driver for Serial.tla: the client on one side of a pseudo terminal.
use crate::util::*;
use crate::wire;
use postcard_rpc::header::{VarSeq, VarSeqKind};
use postcard_rpc::host_client::HostClient;
use postcard_rpc::standard_icd::WireError;
use postcard_rpc::{Key, Topic};
use postcard_schema::Schema;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// all the bytes of the body
#[derive(Debug, Clone, PartialEq)]
pub struct Blob(Vec<u8>);
impl Schema for Blob {
    const SCHEMA: &'static postcard_schema::schema::NamedType = <u16 as Schema>::SCHEMA;
}
impl serde::Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeTuple;
        let mut t = s.serialize_tuple(self.0.len())?;
        for x in &self.0 {
            t.serialize_element(x)?;
        }
        t.end()
    }
}
impl<'de> serde::Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut b = vec![];
                while let Ok(Some(x)) = a.next_element::<u8>() {
                    b.push(x);
                }
                Ok(b)
            }
        }
        d.deserialize_tuple(1 << 20, V).map(Blob)
    }
}
pub struct Up;
impl Topic for Up {
    type Message = Blob;
    const PATH: &'static str = "verif/serial/up";
    const TOPIC_KEY: Key = Key::for_path::<Blob>("verif/serial/up");
}
pub struct Down;
impl Topic for Down {
    type Message = Blob;
    const PATH: &'static str = "verif/serial/down";
    const TOPIC_KEY: Key = Key::for_path::<Blob>("verif/serial/down");
}
/// bodies start with their number (if there is room); zeros, long runs without, and all else
fn body(i: usize, n: usize) -> Vec<u8> {
    (0..n)
        .map(|o| match (o, i % 4) {
            (0, _) => i as u8,
            (_, 0) => 0,
            (_, 1) => 1 + (o % 255) as u8,
            (_, 2) => (o * 7 + i) as u8,
            _ => 255,
        })
        .collect()
}
/// COBS, by hand
fn stuff(d: &[u8]) -> Vec<u8> {
    let (mut out, mut run): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    for b in d {
        if run.len() == 254 {
            out.push(255);
            out.append(&mut run);
        }
        if *b == 0 {
            out.push(run.len() as u8 + 1);
            out.append(&mut run);
        } else {
            run.push(*b);
        }
    }
    out.push(run.len() as u8 + 1);
    out.append(&mut run);
    out
}
fn unstuff(e: &[u8]) -> Option<Vec<u8>> {
    let (mut d, mut i) = (vec![], 0);
    while i < e.len() {
        let c = e[i] as usize;
        d.extend(e.get(i + 1..i + c)?);
        i += c;
        if c < 255 && i < e.len() {
            d.push(0);
        }
    }
    Some(d)
}
struct Pty {
    master: i32,
    slave: i32,
    path: String,
}
fn open() -> Option<Pty> {
    let (mut m, mut s) = (0, 0);
    unsafe {
        let mut tio: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut tio);
        tio.c_cflag |= libc::CREAD | libc::CLOCAL;
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), &tio, std::ptr::null_mut()) != 0 {
            return None;
        }
        let mut b = [0u8; 256];
        if libc::ptsname_r(m, b.as_mut_ptr() as *mut _, 256) != 0 {
            return None;
        }
        let n = b.iter().position(|x| *x == 0)?;
        Some(Pty { master: m, slave: s, path: String::from_utf8_lossy(&b[..n]).into_owned() })
    }
}
fn write(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            return;
        }
        o += n as usize;
    }
}
/// wait until the client has taken what was written
fn taken(p: &Pty) {
    let t = Instant::now();
    loop {
        let mut n: libc::c_int = 0;
        let r = unsafe { libc::ioctl(p.slave, libc::FIONREAD, &mut n) };
        if r != 0 || n == 0 || t.elapsed() > Duration::from_millis(500) {
            break;
        }
        std::thread::sleep(Duration::from_micros(100));
    }
    std::thread::sleep(Duration::from_micros(300));
}
static MISSES: AtomicUsize = AtomicUsize::new(0);
fn wait_for(f: impl Fn() -> bool) {
    let t = Instant::now();
    let max = if MISSES.load(SeqCst) < 4 { 10_000 } else { 150 };
    while !f() {
        if t.elapsed() > Duration::from_millis(max) {
            MISSES.fetch_add(1, SeqCst);
            return;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    std::thread::sleep(Duration::from_millis(1));
}

fn run_script(s: &Value) -> Option<Value> {
    let p = open()?;
    let (w, sw) = (s["cfg"]["w"].as_u64().unwrap(), s["cfg"]["sw"].as_u64().unwrap());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let client = {
        let _g = rt.enter();
        HostClient::<WireError>::new_serial_cobs(&p.path, "verif/serial/err", 8, 115_200, VarSeqKind::Seq2)
    };
    let got: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let mut sub = rt.block_on(client.subscribe_exclusive::<Up>(1024)).unwrap();
    let g2 = got.clone();
    rt.spawn(async move {
        while let Some(m) = sub.recv().await {
            g2.lock().unwrap().push(m.0);
        }
    });
    // what the device hears
    let heard: Arc<Mutex<Vec<u8>>> = Default::default();
    let (h2, fd) = (heard.clone(), unsafe { libc::dup(p.master) });
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let st2 = stop.clone();
    let reader = std::thread::spawn(move || {
        while !st2.load(SeqCst) {
            let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut pf, 1, 5) } <= 0 {
                continue;
            }
            let mut b = [0u8; 4096];
            let n = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 {
                break;
            }
            h2.lock().unwrap().extend(&b[..n as usize]);
        }
        unsafe { libc::close(fd) };
    });
    let (mut pieces, mut stream, mut at): (Vec<(String, usize, usize)>, Vec<u8>, usize) = (vec![], vec![], 0);
    let mut pubs: Vec<usize> = vec![];
    let (mut gseen, mut hseen, mut gone) = (0, 0, false);
    let mut ev = vec![];
    let mut reader = Some(reader);
    for e in s["ev"].as_array().unwrap() {
        let mut rec = e.clone();
        match e["a"].as_str().unwrap() {
            "Piece" => {
                let (kind, n) = (e["kind"].as_str().unwrap(), e["len"].as_u64().unwrap() as usize);
                let i = pieces.len() + 1;
                let frame = wire::encode(Up::TOPIC_KEY, w, i as u64, sw, &body(i, n));
                let mut b = match kind {
                    "good" => stuff(&frame),
                    "short" => stuff(&frame[..n % 3]),
                    "lost" => {
                        let mut x = stuff(&frame[..(frame.len() - 1).min(200)]);
                        x[0] = 254;
                        x
                    }
                    "empty" => vec![],
                    "other" => stuff(&wire::encode(Down::TOPIC_KEY, w, i as u64, sw, &body(i, n))),
                    // too long, and what follows the part that would fit looks like a frame
                    "long" => [vec![1u8 + (n % 3) as u8; 1024], stuff(&frame)].concat(),
                    x => panic!("piece {x}"),
                };
                if b.contains(&0) {
                    panic!("a zero in a piece");
                }
                b.push(0);
                stream.extend(&b);
                pieces.push((kind.into(), n, stream.len()));
            }
            "Write" => {
                let n = (e["n"].as_u64().unwrap() as usize).min(stream.len() - at);
                for c in stream[at..at + n].chunks(1500) {
                    write(p.master, c);
                    taken(&p);
                }
                at += n;
                rec["upto"] = json!(pieces.iter().filter(|x| x.2 <= at).count());
            }
            "Pub" => {
                let n = e["len"].as_u64().unwrap() as usize;
                pubs.push(n);
                let i = pubs.len();
                let _ = rt.block_on(client.publish::<Down>(VarSeq::Seq2(i as u16), &Blob(body(i, n))));
            }
            "Hangup" => {
                wait_for(|| heard.lock().unwrap().iter().filter(|b| **b == 0).count() >= pubs.len());
                stop.store(true, SeqCst);
                reader.take().unwrap().join().ok();
                unsafe { libc::close(p.master) };
                gone = true;
            }
            "Quiet" => {
                let want = pieces.iter().filter(|x| x.2 <= at && x.0 == "good").count();
                wait_for(|| got.lock().unwrap().len() >= want);
                wait_for(|| heard.lock().unwrap().iter().filter(|b| **b == 0).count() >= pubs.len());
                if gone {
                    wait_for(|| client.is_closed());
                }
                let g = got.lock().unwrap();
                let mut from = 0;
                let gj: Vec<Value> = g[gseen..]
                    .iter()
                    .map(|b| {
                        // which piece is it? the first one, after the last, with this body
                        let j = (from + 1..=pieces.len()).find(|j| *j > from && pieces[j - 1].0 == "good" && {
                            pieces[j - 1].1 == b.len() && body(*j, b.len()) == *b && !seen(&ev, *j)
                        });
                        match j {
                            Some(j) => {
                                from = j;
                                json!({"i":j,"len":b.len()})
                            }
                            None => json!({"i":-1,"len":b.len()}),
                        }
                    })
                    .collect();
                gseen = g.len();
                let h = heard.lock().unwrap();
                let mut sj = vec![];
                let mut rest = &h[hseen..];
                while let Some(z) = rest.iter().position(|b| *b == 0) {
                    let good = unstuff(&rest[..z]).and_then(|d| wire::decode(&d)).and_then(|f| {
                        let i = f.sq as usize;
                        (f.key == wire::fold(Down::TOPIC_KEY, f.w) && i <= pubs.len() && i > 0 && f.body == body(i, f.body.len())).then_some((i, f.body.len()))
                    });
                    sj.push(match good {
                        Some((i, n)) => json!({"i":i,"len":n}),
                        None => json!({"i":-1,"len":0}),
                    });
                    hseen += z + 1;
                    rest = &rest[z + 1..];
                }
                rec = json!({"a":"Quiet","got":gj,"sent":sj,"closed":client.is_closed(),"ok":take_panics().is_empty() && rest.is_empty()});
            }
            x => panic!("event {x}"),
        }
        ev.push(rec);
    }
    stop.store(true, SeqCst);
    if let Some(r) = reader {
        r.join().ok();
        unsafe { libc::close(p.master) };
    }
    client.close();
    unsafe { libc::close(p.slave) };
    rt.shutdown_background();
    Some(json!({"id":s["id"],"cfg":s["cfg"],"ev":ev}))
}
/// was piece j already received?
fn seen(ev: &[Value], j: usize) -> bool {
    ev.iter().any(|e| e["got"].as_array().is_some_and(|g| g.iter().any(|x| x["i"] == json!(j))))
}
pub fn main(inp: &str, out: &str) {
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(120));
    for s in &read_lines(inp) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        match run_script(s) {
            Some(t) => o.line(&t),
            None => {
                eprintln!("no pseudo terminals here");
                std::process::exit(4);
            }
        }
    }
    o.finish();
    std::process::exit(0);
}
