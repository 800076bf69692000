//! Replays behaviours generated from the TLA+ specifications into postcard-rpc and records
//! what can be observed.  Usage: vh <driver> <scripts.ndjson> <traces.ndjson>
mod chan;
mod client;
mod cobs;
mod keys;
mod log;
#[path = "../../harness-usb/src/logtext.rs"]
mod logtext;
mod rpc;
mod schema;
mod serial;
mod server;
mod types;
mod wire;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: vh <driver> <in> <out>");
        std::process::exit(2);
    }
    util::install_panic_hook();
    match a[1].as_str() {
        "chan" => chan::main(&a[2], &a[3]),
        "client" => client::main(&a[2], &a[3]),
        "keys" => keys::main(&a[2], &a[3]),
        "schema" => schema::main(&a[2], &a[3]),
        "log" => log::main(&a[2], &a[3]),
        "cobs" => cobs::main(&a[2], &a[3]),
        "rpc" => rpc::main(&a[2], &a[3]),
        "rpcmt" => rpc::main_mt(&a[2], &a[3]),
        "serial" => serial::main(&a[2], &a[3]),
        "types" => types::main(&a[2], &a[3]),
        "server" => server::main(&a[2], &a[3]),
        x => {
            eprintln!("unknown driver {x}");
            std::process::exit(2);
        }
    }
}
