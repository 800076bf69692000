//! A deterministic executor with a virtual clock, and script input/output.
use serde_json::Value;
use std::cell::Cell;
use std::future::Future;
use std::io::{BufRead, BufReader, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        eprintln!("{s}");
        if let Ok(mut g) = PANICS.lock() {
            g.push(s);
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn each(inp: &str, out: &str, f: fn(&Value) -> Value) {
    let scripts: Vec<Value> = BufReader::new(std::fs::File::open(inp).expect("open scripts"))
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("script json"))
        .collect();
    let mut o = std::io::BufWriter::new(std::fs::File::create(out).expect("create traces"));
    let cur = Arc::new((AtomicU64::new(0), Mutex::new(Instant::now())));
    let (c2, hang) = (cur.clone(), format!("{out}.hang"));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let t = *c2.1.lock().unwrap();
        if t.elapsed() > Duration::from_secs(60) {
            std::fs::write(&hang, format!("{}", c2.0.load(SeqCst))).ok();
            std::process::exit(3);
        }
    });
    for s in &scripts {
        cur.0.store(s["id"].as_u64().unwrap(), SeqCst);
        *cur.1.lock().unwrap() = Instant::now();
        std::fs::write(format!("{out}.cur"), format!("{}", s["id"])).ok();
        take_panics();
        serde_json::to_writer(&mut o, &f(s)).unwrap();
        o.write_all(b"\n").unwrap();
    }
    o.flush().unwrap();
}

// ------------------------------------------------------------------ clock
struct Clock;
static NOW: AtomicU64 = AtomicU64::new(0);
static WAKES: Mutex<Vec<(u64, Waker)>> = Mutex::new(Vec::new());
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        NOW.load(SeqCst)
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        if at <= NOW.load(SeqCst) {
            waker.wake_by_ref();
        } else {
            WAKES.lock().unwrap().push((at, waker.clone()));
        }
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);
pub fn tick(ms: u64) {
    let now = NOW.fetch_add(ms * embassy_time_driver::TICK_HZ / 1000, SeqCst) + ms * embassy_time_driver::TICK_HZ / 1000;
    let mut due = vec![];
    WAKES.lock().unwrap().retain(|(at, w)| {
        if *at <= now {
            due.push(w.clone());
        }
        *at > now
    });
    for w in due {
        w.wake();
    }
}

// --------------------------------------------------------------- executor
thread_local! {
    /// the operation being polled (1-based), and a count of observable progress
    pub static CURRENT: Cell<usize> = const { Cell::new(0) };
    pub static PROGRESS: Cell<u64> = const { Cell::new(0) };
}
pub fn progress() {
    PROGRESS.with(|p| p.set(p.get() + 1));
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
type Fut = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Default)]
pub struct Exec {
    tasks: Vec<(Option<Fut>, Arc<Flag>)>,
}
impl Default for Flag {
    fn default() -> Self {
        Flag(AtomicBool::new(true))
    }
}
impl Exec {
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
        self.tasks.push((Some(Box::pin(f)), Default::default()));
        self.tasks.len()
    }
    pub fn live(&self, i: usize) -> bool {
        self.tasks.get(i - 1).is_some_and(|t| t.0.is_some())
    }
    pub fn cancel(&mut self, i: usize) {
        CURRENT.with(|c| c.set(i));
        self.tasks[i - 1].0 = None;
    }
    /// Run until no task is woken, or woken tasks make no progress (waiters of the embassy mutex
    /// keep waking each other).
    pub fn quiesce(&mut self) {
        let mut idle = 0;
        while idle < 12 {
            let before = PROGRESS.with(|p| p.get());
            let mut any = false;
            for i in 0..self.tasks.len() {
                let (slot, flag) = &mut self.tasks[i];
                if slot.is_none() || !flag.0.swap(false, SeqCst) {
                    continue;
                }
                any = true;
                CURRENT.with(|c| c.set(i + 1));
                let w = Waker::from(flag.clone());
                let f = slot.as_mut().unwrap();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&w))));
                match r {
                    Ok(Poll::Pending) => {}
                    Ok(Poll::Ready(())) => {
                        *slot = None;
                        progress();
                    }
                    Err(_) => {
                        // its mutex stays locked if it was; that is what a panic leaves behind
                        std::mem::forget(slot.take());
                    }
                }
            }
            if !any {
                return;
            }
            idle = if PROGRESS.with(|p| p.get()) == before { idle + 1 } else { 0 };
        }
    }
}
