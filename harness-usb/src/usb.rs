//! A USB device controller in software, and the two transports on it.
use crate::exec::{progress, CURRENT};
use embassy_sync::blocking_mutex::raw::NoopRawMutex;
use embassy_usb_driver::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::task::{Poll, Waker};

pub struct Offer {
    pub op: usize,
    pub bytes: Vec<u8>,
    pub st: &'static str,
}
#[derive(Default)]
pub struct State {
    pub enabled: bool,
    pub auto: bool,
    pub slot: Option<Offer>,
    /// packets the host got: the operation being polled when they were written, and their bytes
    pub wire: Vec<(usize, Vec<u8>)>,
    /// packets for the device: frame number and bytes
    pub q: VecDeque<(i64, Vec<u8>)>,
    pub last: i64,
    /// does a packet too long for the buffer stay at the endpoint?
    pub keep: bool,
    pub overlap: bool,
    pub wakers: Vec<Waker>,
}
impl State {
    pub fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
}
pub type Usb = Rc<RefCell<State>>;
pub fn new_usb(auto: bool) -> Usb {
    Rc::new(RefCell::new(State { enabled: true, auto, ..Default::default() }))
}

pub struct Drv(pub Usb);
pub struct EpIn(Usb, EndpointInfo);
pub struct EpOut(Usb, EndpointInfo);
pub struct Ctl;
pub struct TheBus;

impl Endpoint for EpIn {
    fn info(&self) -> &EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        enabled(&self.0).await
    }
}
impl Endpoint for EpOut {
    fn info(&self) -> &EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        enabled(&self.0).await
    }
}
async fn enabled(u: &Usb) {
    poll_fn(|cx| {
        let mut g = u.borrow_mut();
        if g.enabled {
            return Poll::Ready(());
        }
        g.wakers.push(cx.waker().clone());
        Poll::Pending
    })
    .await
}
/// a write given up takes its packet back
struct Taken(Usb, bool);
impl Drop for Taken {
    fn drop(&mut self) {
        if self.1 {
            self.0.borrow_mut().slot = None;
        }
    }
}
impl EndpointIn for EpIn {
    async fn write(&mut self, buf: &[u8]) -> Result<(), EndpointError> {
        let mut t = Taken(self.0.clone(), false);
        let bytes = buf.to_vec();
        poll_fn(move |cx| {
            let u = t.0.clone();
            let mut g = u.borrow_mut();
            if !t.1 {
                if !g.enabled {
                    return Poll::Ready(Err(EndpointError::Disabled));
                }
                progress();
                let op = CURRENT.with(|c| c.get());
                if g.auto {
                    g.wire.push((op, bytes.clone()));
                    return Poll::Ready(Ok(()));
                }
                g.overlap |= g.slot.is_some();
                g.slot = Some(Offer { op, bytes: bytes.clone(), st: "offered" });
                t.1 = true;
            }
            if g.slot.as_ref().is_some_and(|s| s.st == "acked") {
                g.slot = None;
                t.1 = false;
                progress();
                return Poll::Ready(Ok(()));
            }
            if !g.enabled {
                g.slot = None;
                t.1 = false;
                return Poll::Ready(Err(EndpointError::Disabled));
            }
            g.wakers.push(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}
impl EndpointOut for EpOut {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, EndpointError> {
        poll_fn(|cx| {
            let mut g = self.0.borrow_mut();
            if !g.enabled {
                return Poll::Ready(Err(EndpointError::Disabled));
            }
            let Some((f, p)) = g.q.pop_front() else {
                g.wakers.push(cx.waker().clone());
                return Poll::Pending;
            };
            progress();
            if p.len() > buf.len() {
                if g.keep {
                    g.q.push_front((f, p));
                }
                return Poll::Ready(Err(EndpointError::BufferOverflow));
            }
            g.last = f;
            buf[..p.len()].copy_from_slice(&p);
            Poll::Ready(Ok(p.len()))
        })
        .await
    }
}
impl ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        std::future::pending().await
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, EndpointError> {
        std::future::pending().await
    }
    async fn data_in(&mut self, _: &[u8], _: bool, _: bool) -> Result<(), EndpointError> {
        std::future::pending().await
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _: u8) {}
}
impl Bus for TheBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> Event {
        std::future::pending().await
    }
    fn endpoint_set_enabled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_set_stalled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), Unsupported> {
        Ok(())
    }
}
impl Driver<'static> for Drv {
    type EndpointOut = EpOut;
    type EndpointIn = EpIn;
    type ControlPipe = Ctl;
    type Bus = TheBus;
    fn alloc_endpoint_out(&mut self, ep_type: EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<EpOut, EndpointAllocError> {
        assert_eq!(max_packet_size, 64, "packet size");
        Ok(EpOut(self.0.clone(), EndpointInfo { addr: EndpointAddress::from_parts(1, Direction::Out), ep_type, max_packet_size, interval_ms }))
    }
    fn alloc_endpoint_in(&mut self, ep_type: EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<EpIn, EndpointAllocError> {
        assert_eq!(max_packet_size, 64, "packet size");
        Ok(EpIn(self.0.clone(), EndpointInfo { addr: EndpointAddress::from_parts(1, Direction::In), ep_type, max_packet_size, interval_ms }))
    }
    fn start(self, _: u16) -> (TheBus, Ctl) {
        (TheBus, Ctl)
    }
}

pub mod v3 {
    use super::*;
    use postcard_rpc::server::impls::embassy_usb_v0_3::dispatch_impl::*;
    pub type Tx = WireTxImpl<NoopRawMutex, Drv>;
    pub type Rx = WireRxImpl<Drv>;
    pub fn make(usb: &Usb, buf: usize) -> (Tx, Rx) {
        let s: &'static WireStorage<NoopRawMutex, Drv> = Box::leak(Box::new(WireStorage::new()));
        let cfg = embassy_usb_0_3::Config::new(1, 2);
        let tb: &'static mut [u8] = Box::leak(vec![0xAAu8; buf].into_boxed_slice());
        // all ways of setting it up; the poststation one works once per process
        static MADE: AtomicUsize = AtomicUsize::new(0);
        match MADE.fetch_add(1, SeqCst) {
            3 => {
                let (_d, tx, rx) = s.init_poststation(Drv(usb.clone()), cfg, tb);
                (tx, rx)
            }
            n if n % 2 == 0 => {
                let (_d, tx, rx) = s.init(Drv(usb.clone()), cfg, tb);
                (tx, rx)
            }
            _ => {
                let (b, tx, rx) = s.init_without_build(Drv(usb.clone()), cfg, tb);
                b.build();
                (tx, rx)
            }
        }
    }
}
pub mod v4 {
    use super::*;
    use postcard_rpc::server::impls::embassy_usb_v0_4::dispatch_impl::*;
    pub type Tx = WireTxImpl<NoopRawMutex, Drv>;
    pub type Rx = WireRxImpl<Drv>;
    pub fn make(usb: &Usb, buf: usize) -> (Tx, Rx) {
        let s: &'static WireStorage<NoopRawMutex, Drv> = Box::leak(Box::new(WireStorage::new()));
        let cfg = embassy_usb_0_4::Config::new(1, 2);
        let tb: &'static mut [u8] = Box::leak(vec![0xAAu8; buf].into_boxed_slice());
        // all ways of setting it up; the poststation one works once per process
        static MADE: AtomicUsize = AtomicUsize::new(0);
        match MADE.fetch_add(1, SeqCst) {
            3 => {
                let (_d, tx, rx) = s.init_poststation(Drv(usb.clone()), cfg, tb);
                (tx, rx)
            }
            n if n % 2 == 0 => {
                let (_d, tx, rx) = s.init(Drv(usb.clone()), cfg, tb);
                (tx, rx)
            }
            _ => {
                let (b, tx, rx) = s.init_without_build(Drv(usb.clone()), cfg, tb);
                b.build();
                (tx, rx)
            }
        }
    }
}
#[derive(Clone)]
pub enum AnyTx {
    V3(v3::Tx),
    V4(v4::Tx),
}
#[macro_export]
macro_rules! on_tx {
    ($t:expr, $x:ident => $e:expr) => {
        match $t {
            $crate::usb::AnyTx::V3($x) => $e,
            $crate::usb::AnyTx::V4($x) => $e,
        }
    };
}
pub enum AnyRx {
    V3(v3::Rx),
    V4(v4::Rx),
}
pub fn make(v: u64, usb: &Usb, buf: usize) -> (AnyTx, AnyRx) {
    if v == 3 {
        let (t, r) = v3::make(usb, buf);
        (AnyTx::V3(t), AnyRx::V3(r))
    } else {
        let (t, r) = v4::make(usb, buf);
        (AnyTx::V4(t), AnyRx::V4(r))
    }
}
