//! The simulated bus.
use crate::transfer::{EndpointType, TransferError};
use std::collections::{HashMap, VecDeque};
use std::sync::Mutex;
use std::task::{Context, Waker};

#[derive(Clone, Debug)]
pub struct Ep {
    pub address: u8,
    pub kind: EndpointType,
    pub mps: usize,
}
#[derive(Clone, Default)]
pub struct If {
    pub number: u8,
    pub class: u8,
    pub subclass: u8,
    pub string: Option<String>,
    /// endpoints of each alternate setting
    pub endpoints: Vec<Vec<Ep>>,
    pub claim_fails: bool,
}
#[derive(Clone, Default)]
pub struct Dev {
    pub serial: Option<String>,
    pub product: Option<String>,
    pub vid: u16,
    pub pid: u16,
    pub interfaces: Vec<If>,
    pub open_fails: bool,
}
struct Tr {
    id: u64,
    data: Vec<u8>,
    room: usize,
    done: Option<(usize, Result<(), TransferError>)>,
    waker: Option<Waker>,
}
#[derive(Default)]
pub struct EpState {
    trs: VecDeque<Tr>,
    halted: bool,
    /// what the device has to say, waiting for a request
    inbox: VecDeque<Vec<u8>>,
}
#[derive(Default)]
pub struct Bus {
    pub devices: Vec<Dev>,
    pub list_fails: bool,
    pub claimed: Vec<(usize, u8)>,
    pub clear_fails: bool,
    /// the halt was cleared while transfers were in flight
    pub misuse: usize,
    /// changes whenever anything happens
    pub activity: u64,
    next: u64,
    eps: Option<HashMap<(usize, u8), EpState>>,
}
pub static BUS: Mutex<Bus> = Mutex::new(Bus {
    devices: Vec::new(),
    list_fails: false,
    claimed: Vec::new(),
    clear_fails: false,
    misuse: 0,
    activity: 0,
    next: 0,
    eps: None,
});
impl Bus {
    fn ep(&mut self, dev: usize, ep: u8) -> &mut EpState {
        self.activity += 1;
        self.eps.get_or_insert_with(HashMap::new).entry((dev, ep)).or_default()
    }
}
impl EpState {
    /// hand what the device has to say to the requests
    fn pump(&mut self) -> Vec<Waker> {
        let mut w = vec![];
        while !self.halted && !self.inbox.is_empty() {
            let Some(t) = self.trs.iter_mut().find(|t| t.done.is_none()) else { break };
            let d = self.inbox.pop_front().unwrap();
            if d.len() > t.room {
                t.done = Some((0, Err(TransferError::Fault)));
            } else {
                let n = d.len();
                t.data = d;
                t.done = Some((n, Ok(())));
            }
            w.extend(t.waker.take());
        }
        w
    }
}
pub fn reset() {
    let mut b = BUS.lock().unwrap();
    *b = Bus { next: b.next, ..Default::default() };
}
pub fn submit(dev: usize, ep: u8, data: Vec<u8>, room: usize) -> u64 {
    let mut b = BUS.lock().unwrap();
    b.next += 1;
    let id = b.next;
    let e = b.ep(dev, ep);
    e.trs.push_back(Tr { id, data, room, done: None, waker: None });
    if ep & 0x80 != 0 {
        for w in e.pump() {
            w.wake();
        }
    }
    id
}
pub fn poll(dev: usize, ep: u8, id: u64, cx: &mut Context) -> Option<(Vec<u8>, usize, Result<(), TransferError>)> {
    let mut b = BUS.lock().unwrap();
    let e = b.ep(dev, ep);
    let k = e.trs.iter().position(|t| t.id == id).expect("transfer lost");
    if e.trs[k].done.is_some() {
        let t = e.trs.remove(k).unwrap();
        let (n, s) = t.done.unwrap();
        Some((t.data, n, s))
    } else {
        e.trs[k].waker = Some(cx.waker().clone());
        None
    }
}
pub fn cancel(dev: usize, ep: u8, id: u64) {
    let mut b = BUS.lock().unwrap();
    let e = b.ep(dev, ep);
    if let Some(t) = e.trs.iter_mut().find(|t| t.id == id && t.done.is_none()) {
        t.done = Some((0, Err(TransferError::Cancelled)));
        if let Some(w) = t.waker.take() {
            w.wake();
        }
    }
}
pub fn forget(dev: usize, ep: u8, id: u64) {
    let mut b = BUS.lock().unwrap();
    b.ep(dev, ep).trs.retain(|t| t.id != id);
}
pub fn clear_halt(dev: usize, ep: u8) -> Result<(), crate::Error> {
    let mut b = BUS.lock().unwrap();
    if b.clear_fails {
        return Err(std::io::Error::new(std::io::ErrorKind::Other, "clear failed"));
    }
    let e = b.ep(dev, ep);
    let busy = e.trs.iter().any(|t| t.done.is_none());
    e.halted = false;
    let w = e.pump();
    b.misuse += busy as usize;
    drop(b);
    for w in w {
        w.wake();
    }
    Ok(())
}
// ------------------------------------------------------------ for the harness
/// a transfer from the device arrives
pub fn arrive(dev: usize, ep: u8, data: Vec<u8>) {
    let mut b = BUS.lock().unwrap();
    let e = b.ep(dev, ep);
    e.inbox.push_back(data);
    for w in e.pump() {
        w.wake();
    }
}
/// the oldest transfer still running ends with an error; false if there is none
pub fn fail(dev: usize, ep: u8, err: TransferError) -> bool {
    let mut b = BUS.lock().unwrap();
    let e = b.ep(dev, ep);
    let Some(t) = e.trs.iter_mut().find(|t| t.done.is_none()) else { return false };
    t.done = Some((0, Err(err)));
    if let Some(w) = t.waker.take() {
        w.wake();
    }
    if err == TransferError::Stall {
        e.halted = true;
    }
    true
}
/// the oldest transfer to the device still running completes: its bytes
pub fn take_out(dev: usize, ep: u8) -> Option<Vec<u8>> {
    let mut b = BUS.lock().unwrap();
    let e = b.ep(dev, ep);
    let t = e.trs.iter_mut().find(|t| t.done.is_none())?;
    let n = t.data.len();
    t.done = Some((n, Ok(())));
    let d = t.data.clone();
    if let Some(w) = t.waker.take() {
        w.wake();
    }
    Some(d)
}
/// transfers on an endpoint that have not completed
pub fn running(dev: usize, ep: u8) -> usize {
    let mut b = BUS.lock().unwrap();
    b.ep(dev, ep).trs.iter().filter(|t| t.done.is_none()).count()
}
pub fn activity() -> u64 {
    BUS.lock().unwrap().activity
}
