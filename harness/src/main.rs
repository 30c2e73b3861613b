//! cbmdrv: drives the real library and records what it does.
#[macro_use]
mod common;
mod addrdrv;
mod allocdrv;
mod clidrv;
mod fsdrv;
mod fsgen;
mod imgdrv;
mod textdrv;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> u64 { a.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match mode {
        // script FILE SEED OUT
        "script" => {
            common::out_open(&a[4]);
            fsgen::script(&a[2], num(3));
        }
        // fs PROFILE SEED EVENTS OUT
        "fs" => {
            common::out_open(&a[5]);
            fsgen::run(&a[2], num(3), num(4) as usize);
        }
        // alloc SEED EVENTS OUT
        "alloc" => {
            common::out_open(&a[4]);
            allocdrv::run(num(2), num(3) as usize);
        }
        // img FOCUS SEED EVENTS OUT
        "img" => {
            common::out_open(&a[5]);
            imgdrv::run(&a[2], num(3), num(4) as usize);
        }
        // imgscript FILE SEED OUT
        "imgscript" => {
            common::out_open(&a[4]);
            imgdrv::script(&a[2], num(3));
        }
        // addr SEED EVENTS OUT
        "addr" => {
            common::out_open(&a[4]);
            addrdrv::run(num(2), num(3) as usize);
        }
        // text WHAT SEED EVENTS OUT
        "text" => {
            common::out_open(&a[5]);
            textdrv::run(&a[2], num(3), num(4) as usize);
        }
        // cli SEED EVENTS OUT
        "cli" => {
            common::out_open(&a[4]);
            clidrv::run(num(2), num(3) as usize);
        }
        _ => {
            eprintln!("usage: cbmdrv MODE ...");
            std::process::exit(2);
        }
    }
    common::out_close();
}
