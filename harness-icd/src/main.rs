//! Dumps what the macros compute for the declarations in the generated file.  Usage: vhi icd <in> <out>
mod dump;
mod types;
pub use dump::*;
use serde_json::json;

/// A handler for anything: it is never called.
pub fn h_ep<C, H, A, B>(_: &mut C, _: H, _: A) -> B {
    unreachable!()
}
pub fn h_tp<C, H, A, S>(_: &mut C, _: H, _: A, _: &S) {}
pub struct Ctx;
pub struct SpawnCtx;
impl postcard_rpc::server::SpawnContext for Ctx {
    type SpawnCtxt = SpawnCtx;
    fn spawn_ctxt(&mut self) -> SpawnCtx {
        SpawnCtx
    }
}
mod gen {
    include!(concat!(env!("VERIF_ICD"), "/gen.rs"));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = std::fs::read_to_string(&a[2]).unwrap().lines().count();
    let mut out = String::new();
    if a[1] == "types" {
        out = json!({"trees": gen::types(), "std": std_types()}).to_string();
    } else {
        for id in 1..=n {
            let mut v = if id <= gen::COUNT { gen::dump(id) } else { std_lists() };
            v["id"] = json!(id);
            v["ok"] = json!(true);
            out += &format!("{v}\n");
        }
    }
    std::fs::write(&a[3], out).unwrap();
}
