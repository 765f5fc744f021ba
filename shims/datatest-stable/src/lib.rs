//! Stand-in for datatest-stable (only used to run the repository's own tests against the shims).
pub type Result<T> = std::result::Result<T, Box<dyn std::error::Error>>;

pub fn run(test: fn(&std::path::Path) -> Result<()>, root: &str, pattern: &str) -> (usize, usize) {
    let re = regex::Regex::new(pattern).unwrap();
    let (mut ok, mut bad) = (0, 0);
    for e in walkdir::WalkDir::new(root).sort_by_file_name().into_iter().flatten() {
        if !e.file_type().is_file() || !re.is_match(&e.path().to_string_lossy()) {
            continue;
        }
        let p = e.path().to_owned();
        match std::panic::catch_unwind(move || test(&p).is_ok()) {
            Ok(true) => ok += 1,
            _ => {
                bad += 1;
                println!("FAILED {}", e.path().display());
            }
        }
    }
    (ok, bad)
}

#[macro_export]
macro_rules! harness {
    ($( { test = $t:path, root = $r:expr, pattern = $p:expr $(,)? } ),* $(,)?) => {
        fn main() {
            let (mut ok, mut bad) = (0, 0);
            $( let (a, b) = $crate::run($t, $r, $p); ok += a; bad += b; )*
            println!("datatest: {ok} passed, {bad} failed");
            std::process::exit((bad > 0) as i32);
        }
    };
}
