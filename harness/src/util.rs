//! Shared by all drivers: panic capture, watchdog, ndjson in/out, a droppable task slot.
use serde_json::Value;
use std::future::Future;
use std::io::{BufRead, BufReader, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

/// Panics seen so far, anywhere (a panic of the code under test is an observation).
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Polls of any task the harness runs for the code under test.
pub static POLLS: AtomicUsize = AtomicUsize::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        eprintln!("{s}");
        if let Ok(mut g) = PANICS.lock() {
            g.push(s);
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn read_lines(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).expect("open scripts");
    BufReader::new(f)
        .lines()
        .map(|l| l.expect("read"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("script json"))
        .collect()
}

pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
}
impl Out {
    pub fn new(path: &str) -> Self {
        Out {
            f: std::io::BufWriter::new(std::fs::File::create(path).expect("create traces")),
        }
    }
    pub fn line(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.f, v).unwrap();
        self.f.write_all(b"\n").unwrap();
    }
    pub fn finish(mut self) {
        self.f.flush().unwrap();
    }
}

/// Watchdog: if one script makes no progress for `limit`, write a HANG marker and exit 3.
pub struct Watchdog {
    cur: Arc<(AtomicU64, Mutex<Instant>)>,
    path: String,
}
impl Watchdog {
    pub fn start(out: &str, limit: Duration) -> Self {
        let cur = Arc::new((AtomicU64::new(0), Mutex::new(Instant::now())));
        let c2 = cur.clone();
        let path = format!("{out}.hang");
        let _ = std::fs::remove_file(&path);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = *c2.1.lock().unwrap();
            if t.elapsed() > limit {
                let id = c2.0.load(SeqCst);
                std::fs::write(&path, format!("{id}")).ok();
                eprintln!("HANG in script {id}");
                std::process::exit(3);
            }
        });
        Watchdog { cur, path: format!("{out}.cur") }
    }
    pub fn tick(&self, id: u64) {
        self.cur.0.store(id, SeqCst);
        std::fs::write(&self.path, format!("{id}")).ok();
        *self.cur.1.lock().unwrap() = Instant::now();
    }
}

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;
/// A future that can be dropped synchronously from outside (cancellation).
#[derive(Clone)]
pub struct Slot(Arc<Mutex<Option<BoxFut>>>);
impl Slot {
    pub fn spawn(f: impl Future<Output = ()> + Send + 'static) -> Slot {
        let s = Slot(Arc::new(Mutex::new(Some(Box::pin(f) as BoxFut))));
        let s2 = s.clone();
        tokio::task::spawn(SlotFut(s2));
        s
    }
    pub fn cancel(&self) {
        let f = self.0.lock().unwrap_or_else(|e| e.into_inner()).take();
        drop(f);
    }
    pub fn live(&self) -> bool {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).is_some()
    }
}
struct SlotFut(Slot);
impl Future for SlotFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        POLLS.fetch_add(1, SeqCst);
        let mut g = self.0 .0.lock().unwrap_or_else(|e| e.into_inner());
        match g.as_mut() {
            None => Poll::Ready(()),
            Some(f) => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx)));
                match r {
                    Ok(Poll::Pending) => Poll::Pending,
                    _ => {
                        *g = None;
                        Poll::Ready(())
                    }
                }
            }
        }
    }
}

/// Let everything run until nothing has been polled for several rounds.
pub async fn quiesce() {
    let mut idle = 0;
    let mut rounds = 0u32;
    let mut last = POLLS.load(SeqCst);
    while idle < 4 {
        tokio::task::yield_now().await;
        let now = POLLS.load(SeqCst);
        if now == last {
            idle += 1;
        } else {
            idle = 0;
            last = now;
        }
        rounds += 1;
        if rounds > 2_000_000 {
            // never quiet: the watchdog's business
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}
