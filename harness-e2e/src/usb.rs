//! A USB device controller in software, on a cable the harness plays the host of.
use embassy_usb_driver::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::poll_fn;
use std::rc::Rc;
use std::task::{Poll, Waker};

#[derive(Default)]
pub struct State {
    pub events: VecDeque<Event>,
    pub requests: VecDeque<[u8; 8]>,
    pub answers: Vec<Option<Vec<u8>>>,
    part: Vec<u8>,
    pub enabled: Vec<u8>,
    /// packets for the device
    pub down: VecDeque<Vec<u8>>,
    /// a packet the device has for the host, and whether it was taken
    pub up: Option<Vec<u8>>,
    pub taken: bool,
    pub wakers: Vec<Waker>,
    pub progress: u64,
    pub nums: (usize, usize),
}
impl State {
    pub fn wake(&mut self) {
        self.progress += 1;
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
}
pub type Usb = Rc<RefCell<State>>;
async fn until<T>(u: &Usb, mut f: impl FnMut(&mut State) -> Option<T>) -> T {
    poll_fn(|cx| {
        let mut g = u.borrow_mut();
        match f(&mut g) {
            Some(x) => {
                g.progress += 1;
                Poll::Ready(x)
            }
            None => {
                g.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    })
    .await
}
pub struct Drv(pub Usb);
pub struct EpIn(Usb, EndpointInfo);
pub struct EpOut(Usb, EndpointInfo);
pub struct Ctl(Usb);
pub struct TheBus(Usb);
fn on(g: &State, i: &EndpointInfo) -> bool {
    g.enabled.contains(&u8::from(i.addr))
}
impl Endpoint for EpIn {
    fn info(&self) -> &EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        until(&self.0, |g| on(g, &self.1).then_some(())).await
    }
}
impl Endpoint for EpOut {
    fn info(&self) -> &EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        until(&self.0, |g| on(g, &self.1).then_some(())).await
    }
}
impl EndpointIn for EpIn {
    async fn write(&mut self, buf: &[u8]) -> Result<(), EndpointError> {
        let mut b = Some(buf.to_vec());
        until(&self.0, |g| {
            if !on(g, &self.1) {
                return Some(Err(EndpointError::Disabled));
            }
            if b.is_some() {
                if g.up.is_some() {
                    return None;
                }
                g.up = b.take();
                g.taken = false;
                g.progress += 1;
            }
            if g.taken {
                g.up = None;
                g.taken = false;
                return Some(Ok(()));
            }
            None
        })
        .await
    }
}
impl EndpointOut for EpOut {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, EndpointError> {
        until(&self.0, |g| {
            if !on(g, &self.1) {
                return Some(Err(EndpointError::Disabled));
            }
            let p = g.down.pop_front()?;
            if p.len() > buf.len() {
                return Some(Err(EndpointError::BufferOverflow));
            }
            buf[..p.len()].copy_from_slice(&p);
            Some(Ok(p.len()))
        })
        .await
    }
}
impl ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        until(&self.0, |g| g.requests.pop_front()).await
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, EndpointError> {
        Ok(0)
    }
    async fn data_in(&mut self, d: &[u8], first: bool, last: bool) -> Result<(), EndpointError> {
        let mut g = self.0.borrow_mut();
        if first {
            g.part.clear();
        }
        g.part.extend(d);
        if last {
            let p = std::mem::take(&mut g.part);
            g.answers.push(Some(p));
            g.progress += 1;
        }
        Ok(())
    }
    async fn accept(&mut self) {
        let mut g = self.0.borrow_mut();
        g.answers.push(Some(vec![]));
        g.progress += 1;
    }
    async fn reject(&mut self) {
        let mut g = self.0.borrow_mut();
        g.answers.push(None);
        g.progress += 1;
    }
    async fn accept_set_address(&mut self, _: u8) {
        self.accept().await
    }
}
impl Bus for TheBus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> Event {
        until(&self.0, |g| g.events.pop_front()).await
    }
    fn endpoint_set_enabled(&mut self, a: EndpointAddress, e: bool) {
        let mut g = self.0.borrow_mut();
        let a = u8::from(a);
        g.enabled.retain(|x| *x != a);
        if e {
            g.enabled.push(a);
        }
        g.wake();
    }
    fn endpoint_set_stalled(&mut self, _: EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), Unsupported> {
        Ok(())
    }
}
impl Driver<'static> for Drv {
    type EndpointOut = EpOut;
    type EndpointIn = EpIn;
    type ControlPipe = Ctl;
    type Bus = TheBus;
    fn alloc_endpoint_out(&mut self, ep_type: EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<EpOut, EndpointAllocError> {
        let n = self.0.borrow().nums.0;
        Ok(EpOut(self.0.clone(), EndpointInfo { addr: EndpointAddress::from_parts(n, Direction::Out), ep_type, max_packet_size, interval_ms }))
    }
    fn alloc_endpoint_in(&mut self, ep_type: EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<EpIn, EndpointAllocError> {
        let n = self.0.borrow().nums.1;
        Ok(EpIn(self.0.clone(), EndpointInfo { addr: EndpointAddress::from_parts(n, Direction::In), ep_type, max_packet_size, interval_ms }))
    }
    fn start(self, _: u16) -> (TheBus, Ctl) {
        (TheBus(self.0.clone()), Ctl(self.0))
    }
}
