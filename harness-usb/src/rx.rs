//! Driver for UsbRx.tla.
use crate::exec::*;
use crate::usb::*;
use postcard_rpc::server::{WireRx, WireRxErrorKind};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

fn byte(f: i64, off: usize) -> u8 {
    (f as usize * 31 + off * 7 + off / 64 * 3 + off / 256) as u8
}
type Results = Rc<RefCell<Vec<Value>>>;
struct Run {
    usb: Usb,
    ex: Exec,
    rx: Rc<RefCell<Option<(AnyRx, Vec<u8>)>>>,
    cur: usize,
    off: usize,
    frame: i64,
    results: Results,
    seen: usize,
    ev: Vec<Value>,
}
impl Run {
    fn receiving(&self) -> bool {
        self.cur != 0 && self.ex.live(self.cur)
    }
    fn quiet(&mut self) {
        self.ex.quiesce();
        let r = self.results.borrow();
        let p = take_panics();
        let mut q = json!({"a":"Quiet","results":r[self.seen..].to_vec(),"recv":self.receiving(),"ok":p.is_empty()});
        if !p.is_empty() {
            q["panic"] = json!(p);
        }
        self.seen = r.len();
        drop(r);
        self.ev.push(q);
    }
    fn event(&mut self, e: &Value) {
        match e["a"].as_str().unwrap() {
            "Quiet" => return self.quiet(),
            "Recv" => {
                if self.receiving() {
                    return;
                }
                let Some((mut rx, mut buf)) = self.rx.borrow_mut().take() else { return };
                let (home, res, usb) = (self.rx.clone(), self.results.clone(), self.usb.clone());
                self.cur = self.ex.spawn(async move {
                    let r = match &mut rx {
                        AnyRx::V3(r) => r.receive(&mut buf).await.map(|b| b.to_vec()),
                        AnyRx::V4(r) => r.receive(&mut buf).await.map(|b| b.to_vec()),
                    };
                    let f = usb.borrow().last;
                    res.borrow_mut().push(match r {
                        Ok(b) => {
                            let good = b.iter().enumerate().all(|(i, x)| *x == byte(f, i));
                            json!({"r":"ok","f": if good { f } else { -1 },"len":b.len()})
                        }
                        Err(WireRxErrorKind::ReceivedMessageTooLarge) => json!({"r":"toolarge","f":0,"len":0}),
                        Err(WireRxErrorKind::ConnectionClosed) => json!({"r":"closed","f":0,"len":0}),
                        Err(x) => json!({"r":format!("{x:?}"),"f":0,"len":0}),
                    });
                    *home.borrow_mut() = Some((rx, buf));
                });
            }
            "Pkt" => {
                let mut g = self.usb.borrow_mut();
                if !g.enabled {
                    return;
                }
                let (f, n) = (e["f"].as_i64().unwrap(), e["len"].as_u64().unwrap() as usize);
                if f != self.frame {
                    self.off = 0;
                    self.frame = f;
                }
                let b: Vec<u8> = (self.off..self.off + n).map(|i| byte(f, i)).collect();
                self.off += n;
                g.q.push_back((f, b));
                g.wake();
            }
            "Disable" => {
                {
                    let mut g = self.usb.borrow_mut();
                    if !g.enabled {
                        return;
                    }
                    g.enabled = false;
                    g.q.clear();
                    g.wake();
                }
                self.ev.push(e.clone());
                return self.quiet();
            }
            "Enable" => {
                let mut g = self.usb.borrow_mut();
                if g.enabled || self.receiving() {
                    return;
                }
                g.enabled = true;
                g.wake();
            }
            x => panic!("unknown event {x}"),
        }
        self.ev.push(e.clone());
    }
}
pub fn run_script(s: &Value) -> Value {
    let usb = new_usb(true);
    usb.borrow_mut().keep = s["cfg"]["keep"].as_bool().unwrap();
    let (_tx, rx) = make(s["cfg"]["v"].as_u64().unwrap(), &usb, 64);
    let n = s["cfg"]["buf"].as_u64().unwrap() as usize;
    let mut r = Run {
        usb,
        ex: Exec::default(),
        rx: Rc::new(RefCell::new(Some((rx, vec![0x55; n])))),
        cur: 0,
        off: 0,
        frame: 0,
        results: Default::default(),
        seen: 0,
        ev: vec![],
    };
    for e in s["ev"].as_array().unwrap() {
        r.event(e);
    }
    if r.ev.last().map(|e| e["a"] != "Quiet").unwrap_or(true) {
        r.quiet();
    }
    json!({"id": s["id"], "cfg": s["cfg"], "ev": r.ev})
}
