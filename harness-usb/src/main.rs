//! Replays behaviours generated from UsbTx.tla, UsbRx.tla and Log.tla into the USB device transports
//! of postcard-rpc (built without std, as on a device).  Usage: vhu <driver> <scripts> <traces>
#[path = "../../harness-icd/src/dump.rs"]
mod dump;
mod exec;
mod log;
mod logtext;
mod rx;
mod tx;
mod usb;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: vhu <driver> <in> <out>");
        std::process::exit(2);
    }
    exec::install_panic_hook();
    match a[1].as_str() {
        "usbtx" => exec::each(&a[2], &a[3], tx::run_script),
        "usbrx" => exec::each(&a[2], &a[3], rx::run_script),
        "log" => exec::each(&a[2], &a[3], log::run_script),
        "icd" => {
            let mut v = dump::std_lists();
            v["id"] = serde_json::json!(1);
            v["ok"] = serde_json::json!(true);
            std::fs::write(&a[3], format!("{v}\n")).unwrap();
        }
        x => {
            eprintln!("unknown driver {x}");
            std::process::exit(2);
        }
    }
}
