mod grammar;
mod editor;
mod structure;
mod text;

use common::main_entry;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let checks = match id.as_str() {
        "C02" => text::checks(),
        "C04" => editor::checks(),
        "C03" => structure::checks(),
        _ => panic!("unknown property {id}"),
    };
    main_entry(&id, checks)
}
