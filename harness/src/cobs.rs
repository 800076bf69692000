//! Driver for Cobs.tla.
use crate::util::*;
use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};
use serde_json::{json, Value};
use std::time::Duration;

fn run<const N: usize>(s: &Value) -> Value {
    let mut acc = CobsAccumulator::<N>::new();
    let mut ev = vec![];
    for e in s["ev"].as_array().unwrap() {
        let c: Vec<u8> = e["c"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let (mut frames, mut over) = (vec![], 0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut w = &c[..];
            let mut good = true;
            // as the client does it
            while !w.is_empty() {
                let rest = match acc.feed(w) {
                    FeedResult::Consumed => break,
                    FeedResult::OverFull(r) => {
                        over += 1;
                        r
                    }
                    FeedResult::DeserError(r) => {
                        frames.push(json!({"r":"bad","d":[]}));
                        r
                    }
                    FeedResult::Success { data, remaining } => {
                        frames.push(json!({"r":"ok","d":data}));
                        remaining
                    }
                };
                // what is left is the end of what was given
                good &= rest.len() < w.len() && rest == &w[w.len() - rest.len()..];
                if !good {
                    break;
                }
                w = rest;
            }
            good
        }));
        take_panics();
        ev.push(json!({"a":"Feed","c":c,"frames":frames,"over":over,"ok":matches!(r, Ok(true))}));
    }
    json!({"id":s["id"],"cfg":s["cfg"],"ev":ev})
}
pub fn main(inp: &str, out: &str) {
    let mut o = Out::new(out);
    let wd = Watchdog::start(out, Duration::from_secs(60));
    for s in &read_lines(inp) {
        wd.tick(s["id"].as_u64().unwrap());
        take_panics();
        o.line(&match s["cfg"]["n"].as_u64().unwrap() {
            1 => run::<1>(s),
            2 => run::<2>(s),
            4 => run::<4>(s),
            8 => run::<8>(s),
            16 => run::<16>(s),
            33 => run::<33>(s),
            64 => run::<64>(s),
            256 => run::<256>(s),
            300 => run::<300>(s),
            600 => run::<600>(s),
            n => panic!("no accumulator of {n}"),
        });
    }
    o.finish();
}
