mod complete;
mod diag;
mod edits;
mod fixes;
mod mutants;
mod probe;
mod refs;
mod shade;
mod symbols;
mod resolve;
mod total;
mod types;
mod unused;
mod ws;

use common::main_entry;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "try" {
        // h-ide try FILE: diagnostics of a single file, for the author
        let t = std::fs::read_to_string(std::env::args().nth(2).unwrap()).unwrap();
        let addrs = movegen::ADDRS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let w = ws::load(&[ws::Pack { name: "P", lib: false, deps: vec![], addrs }], &[(0, "/P/sources/a.move", &t)]);
        let an = w.host.analysis();
        for d in diag::all(&an, w.files[0]) {
            let r = d.range.range;
            println!("{:?} {} `{}` {}", d.severity, diag::code(&d), &t[usize::from(r.start())..usize::from(r.end())], d.message);
        }
        return;
    }
    let checks = match id.as_str() {
        "C05" => edits::checks(),
        "C17" => shade::checks(),
        "C18" => complete::checks(),
        "C19" => symbols::c19(),
        "C20" => symbols::c20(),
        "C06" => resolve::checks(),
        "C09" => diag::checks_clean(),
        "C12" => total::c12(),
        "C16" => total::c16(),
        "C10" => mutants::checks(),
        "C11" => types::checks(),
        "C13" => unused::checks(),
        "C14" => fixes::checks_fixes(),
        "C15" => fixes::checks_organize(),
        "C07" => refs::checks_refs(),
        "C08" => refs::checks_rename(),
        _ => panic!("unknown property {id}"),
    };
    main_entry(&id, checks)
}
