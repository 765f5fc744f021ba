mod client;
mod hist;
mod nav;
mod pkgs;
mod proj;
#[path = "../../ide/src/ws.rs"]
#[allow(dead_code)]
mod ws;

use common::main_entry;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let checks = match id.as_str() {
        "C21" => pkgs::c21(),
        "C23" => hist::c23(),
        "C24" => nav::checks(),
        "C25" => hist::c25(),
        "C29" => hist::c29(),
        _ => panic!("unknown property {id}"),
    };
    main_entry(&id, checks)
}
