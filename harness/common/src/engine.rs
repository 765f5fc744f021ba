use crate::src::{Src, hash_str, mix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// stable name of what is broken; known findings are matched on it
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type PropResult = Result<(), Fail>;

/// What one case tells about itself.
#[derive(Default)]
pub struct Case {
    pub input: String,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    /// what distinguishes this case from others (default: `input`)
    pub key: Option<u64>,
}

impl Case {
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn count(&mut self, s: &str, n: u64) {
        *self.counters.entry(s.to_string()).or_insert(0) += n;
    }
}

type Runner = Arc<dyn Fn(&mut Src, &mut Case) -> PropResult + Send + Sync>;

/// One generated-input search that takes part in deciding a property.
#[derive(Clone)]
pub struct Check {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: Runner,
    /// a case that does not finish is a violation (only where termination is part of the property)
    pub hang_is_violation: bool,
    pub threads: usize,
}

impl Check {
    pub fn new(
        name: &'static str,
        rule: &'static str,
        quick: u64,
        thorough: u64,
        run: impl Fn(&mut Src, &mut Case) -> PropResult + Send + Sync + 'static,
    ) -> Check {
        Check { name, rule, quick, thorough, run: Arc::new(run), hang_is_violation: false, threads: 8 }
    }
    pub fn total(mut self) -> Check {
        self.hang_is_violation = true;
        self
    }
    pub fn single_thread(mut self) -> Check {
        self.threads = 1;
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        if std::env::var_os("VF_BT").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Panic signature: the file (no line numbers: they move with edits) and the message with numbers
/// and quoted text removed.
fn panic_sig(loc: &str, msg: &str) -> String {
    let file = loc.split(':').next().unwrap_or("");
    let file = file.strip_prefix("/repo/").unwrap_or(file);
    let mut out = String::new();
    let mut quote: Option<char> = None;
    let mut last_digit = false;
    for c in msg.lines().next().unwrap_or("").chars().take(160) {
        if let Some(q) = quote {
            if c == q {
                quote = None;
            }
            continue;
        }
        if c == '"' || c == '`' {
            quote = Some(c);
            out.push('_');
            continue;
        }
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('N');
            }
            last_digit = true;
            continue;
        }
        last_digit = false;
        out.push(c);
    }
    format!("panic {file}: {out}")
}

/// Runs `f`, turning a panic into a `Fail`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Fail::new(panic_sig(&loc, &msg), format!("panicked at {loc}: {msg}")))
        }
    }
}

fn run_case(check: &Check, src: &mut Src) -> (Case, PropResult) {
    let mut case = Case::default();
    let r = guarded(|| (check.run)(src, &mut case));
    let r = match r {
        Ok(r) => r,
        Err(f) => Err(f),
    };
    (case, r)
}

fn case_seed(seed: u64, check: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(check)).wrapping_add(i))
}

fn with_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

struct Known {
    sig: String,
    check: String,
    tape: Option<Vec<u64>>,
    desc: String,
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known(id: &str) -> Vec<Known> {
    let mut res = vec![];
    let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.jsonl")) else { return res };
    for line in text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        if v["property"] != id || v["status"] != "known" {
            continue;
        }
        res.push(Known {
            sig: v["sig"].as_str().unwrap_or("").to_string(),
            check: v["check"].as_str().unwrap_or("").to_string(),
            tape: v["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()),
            desc: v["what"].as_str().unwrap_or("").to_string(),
        });
    }
    res
}

fn shrink(check: &Check, tape: Vec<u64>, sig: &str, budget: Duration) -> Vec<u64> {
    let start = Instant::now();
    let mut best = tape;
    let mut tries = 0u64;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        if start.elapsed() > budget {
            return false;
        }
        tries += 1;
        let mut src = Src::replay(cand.to_vec());
        let (_, r) = run_case(check, &mut src);
        match r {
            Err(f) if f.sig == sig => {
                let rec = src.record().to_vec();
                // the recorded tape is canonical; keep whichever is simpler
                let cand = cand.to_vec();
                let new = if key(&rec) <= key(&cand) { rec } else { cand };
                if key(&new) < key(best) {
                    *best = new;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    fn key(t: &[u64]) -> (usize, Vec<u64>) {
        (t.len(), t.to_vec())
    }
    loop {
        let before = key(&best);
        // 1. truncate
        let mut n = best.len() / 2;
        while n < best.len() {
            let cand = best[..n].to_vec();
            if attempt(&cand, &mut best) {
                n = best.len() / 2;
            } else {
                let step = ((best.len() - n) / 2).max(1);
                n += step;
            }
            if start.elapsed() > budget {
                break;
            }
        }
        // 2. delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    attempt(&cand, &mut best);
                }
                if i == 0 || start.elapsed() > budget {
                    break;
                }
                i = i.saturating_sub(if size > 4 { size / 2 } else { 1 });
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 3. zero blocks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|x| *x = 0);
                    attempt(&cand, &mut best);
                }
                i += size;
            }
        }
        // 4. minimise values
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if attempt(&cand, &mut best) {
                    if i >= best.len() || best[i] > mid {
                        break;
                    }
                    hi = best[i];
                } else {
                    lo = mid + 1;
                }
                if start.elapsed() > budget {
                    break;
                }
            }
            i += 1;
        }
        if key(&best) == before || start.elapsed() > budget {
            break;
        }
    }
    best
}

struct Outcome {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known_hits: BTreeMap<String, u64>,
    /// (case index, tape, fail)
    failure: Option<(u64, Vec<u64>, Fail)>,
    other_sigs: BTreeMap<String, u64>,
}

fn thread_cpu() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

fn run_check(check: &Check, seed: u64, cases: u64, known: &[Known], slots: &std::fs::File, check_idx: u64) -> Outcome {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(Outcome {
        evaluations: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        known_hits: BTreeMap::new(),
        failure: None,
        other_sigs: BTreeMap::new(),
    });
    let trace = std::env::var_os("VF_TRACE").is_some();
    let collect_all = std::env::var_os("VF_ALL").is_some();
    let worker = |slot: usize| {
        loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= cases || stop.load(Ordering::Relaxed) {
                break;
            }
            let mut rec = [0u8; 24];
            rec[..8].copy_from_slice(&(check_idx + 1).to_le_bytes());
            rec[8..16].copy_from_slice(&i.to_le_bytes());
            rec[16..].copy_from_slice(&((thread_cpu() * 1000.0) as u64).to_le_bytes());
            let _ = slots.write_all_at(&rec, slot as u64 * 24);
            let t0 = Instant::now();
            let mut src = Src::fresh(case_seed(seed, check.name, i));
            let (case, r) = run_case(check, &mut src);
            if trace {
                eprintln!("{} case {i}: {:?} tape {} {:?}", check.name, t0.elapsed(), src.record().len(), r.as_ref().err().map(|f| &f.sig));
            }
            let mut o = out.lock().unwrap();
            o.evaluations += 1;
            for (k, v) in &case.counters {
                *o.counters.entry(k.clone()).or_insert(0) += v;
            }
            for l in case.labels {
                *o.labels.entry(l).or_insert(0) += 1;
            }
            if case.nontrivial {
                let k = case.key.unwrap_or_else(|| hash_str(&case.input));
                o.distinct.insert(k);
                if o.samples.len() < 3 && case.input.len() < 3000 {
                    o.samples.push(json!({"check": check.name, "case": i, "input": case.input}));
                }
            }
            if let Err(f) = r {
                if known.iter().any(|k| k.sig == f.sig && (k.check.is_empty() || k.check == check.name)) {
                    *o.known_hits.entry(f.sig).or_insert(0) += 1;
                } else {
                    *o.other_sigs.entry(f.sig.clone()).or_insert(0) += 1;
                    // development aid: study one signature at a time
                    let skip = std::env::var("VF_SIG").is_ok_and(|v| !f.sig.contains(&v));
                    let better = !skip && match &o.failure {
                        None => true,
                        Some((_, t, _)) => src.record().len() < t.len(),
                    };
                    if better {
                        o.failure = Some((i, src.record().to_vec(), f));
                    }
                    if !collect_all {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        }
        let _ = slots.write_all_at(&[0u8; 24], slot as u64 * 24);
    };
    let threads = check.threads.min(
        std::env::var("VF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
    );
    std::thread::scope(|s| {
        for t in 0..threads {
            let worker = &worker;
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || worker(t)).unwrap();
        }
    });
    out.into_inner().unwrap()
}

fn write_replay(id: &str, check: &Check, tape: &[u64], fail: &Fail, seed: u64, case_no: u64, input: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}-{:016x}.json", check.name, hash_str(&format!("{}{:?}", fail.sig, tape))));
    let v = json!({
        "property": id, "check": check.name, "seed": seed, "case": case_no,
        "sig": fail.sig, "message": fail.msg, "input": input, "tape": tape,
    });
    let mut f = std::fs::File::create(&path).expect("cannot write the replay file");
    f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes()).unwrap();
    path
}

const SLOTS: usize = 64;

/// `checks` decides property `id`. Never returns.
pub fn main_entry(id: &str, checks: Vec<Check>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    install_hook();

    if let Some(p) = args.iter().position(|a| a == "--replay") {
        let code = with_big_stack(|| replay(&checks, Path::new(&args[p + 1])));
        std::process::exit(code);
    }
    // run one case by number, in this process (used to confirm crashes)
    if let Some(p) = args.iter().position(|a| a == "--case") {
        let check = checks.iter().find(|c| c.name == args[p + 1]).expect("no such check");
        let i: u64 = args[p + 2].parse().unwrap();
        let code = with_big_stack(|| {
            let mut src = Src::fresh(case_seed(seed, check.name, i));
            let (case, r) = run_case(check, &mut src);
            println!("{}", case.input);
            match r {
                Ok(()) => 0,
                Err(f) => {
                    println!("FAIL {}: {}", f.sig, f.msg);
                    1
                }
            }
        });
        std::process::exit(code);
    }
    if std::env::var_os("VF_WORKER").is_some() {
        worker_main(id, &checks, seed, thorough);
    }
    parent_main(id, &checks, seed, thorough)
}

fn replay(checks: &[Check], file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let name = v["check"].as_str().unwrap_or("");
    let check = checks.iter().find(|c| c.name == name).expect("no such check");
    let mut src = match v["tape"].as_array() {
        Some(a) => Src::replay(a.iter().filter_map(|x| x.as_u64()).collect()),
        None => Src::fresh(case_seed(v["seed"].as_u64().unwrap(), name, v["case"].as_u64().unwrap())),
    };
    let (case, r) = run_case(check, &mut src);
    println!("--- input ---\n{}\n-------------", case.input);
    match r {
        Ok(()) => {
            println!("holds on this input");
            0
        }
        Err(f) => {
            println!("FAIL {}: {}", f.sig, f.msg);
            1
        }
    }
}

fn worker_main(id: &str, checks: &[Check], seed: u64, thorough: bool) -> ! {
    let slots = std::fs::OpenOptions::new().read(true).write(true).open(std::env::var_os("VF_SLOTS").unwrap()).unwrap();
    let result_path = std::env::var_os("VF_RESULT").unwrap();
    let only = std::env::var("VF_ONLY").ok();
    let scale: f64 = std::env::var("VF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let known = load_known(id);
    let mut evaluations = 0;
    let mut distinct = 0u64;
    let mut samples = vec![];
    let mut rules = vec![];
    let mut detail = serde_json::Map::new();
    let mut violation = Value::Null;
    let mut known_out = vec![];

    // the listed findings, each on its own recorded input
    for k in &known {
        let Some(check) = checks.iter().find(|c| c.name == k.check) else { continue };
        if let Some(tape) = &k.tape {
            let r = with_big_stack(|| run_case(check, &mut Src::replay(tape.clone())).1);
            if let Err(f) = r
                && f.sig == k.sig
            {
                known_out.push(json!(k.desc));
            }
        }
    }
    for (ci, check) in checks.iter().enumerate() {
        if let Some(o) = &only
            && o != check.name
        {
            continue;
        }
        let cases = ((if thorough { check.thorough } else { check.quick }) as f64 * scale).ceil() as u64;
        let t0 = Instant::now();
        let o = run_check(check, seed, cases, &known, &slots, ci as u64);
        evaluations += o.evaluations;
        distinct += o.distinct.len() as u64;
        samples.extend(o.samples.iter().take(2).cloned());
        rules.push(format!("[{}] {}", check.name, check.rule));
        detail.insert(
            check.name.to_string(),
            json!({
                "evaluations": o.evaluations, "distinct_nontrivial": o.distinct.len(),
                "labels": o.labels, "counters": o.counters, "excluded_known": o.known_hits,
                "wall_s": t0.elapsed().as_secs_f64(),
            }),
        );
        if std::env::var_os("VF_ALL").is_some() {
            for (s, n) in &o.other_sigs {
                eprintln!("[{}] {n} x {s}", check.name);
            }
        }
        if let Some((i, tape, fail)) = o.failure {
            let small = with_big_stack(|| shrink(check, tape.clone(), &fail.sig, Duration::from_secs(40)));
            let (tape, case, fail) = with_big_stack(|| {
                let mut s = Src::replay(small.clone());
                match run_case(check, &mut s) {
                    (c, Err(f)) => (small, c, f),
                    // not reproducible from the tape alone: report the original
                    _ => {
                        let mut s = Src::replay(tape.clone());
                        let (c, _) = run_case(check, &mut s);
                        (tape, c, fail)
                    }
                }
            });
            let path = write_replay(id, check, &tape, &fail, seed, i, &case.input);
            violation = json!({"path": path, "sig": fail.sig, "msg": fail.msg, "check": check.name, "input": case.input});
            break;
        }
    }
    let result = json!({
        "evaluations": evaluations, "distinct": distinct, "samples": samples, "rules": rules,
        "detail": detail, "violation": violation, "known": known_out,
    });
    std::fs::write(result_path, serde_json::to_string(&result).unwrap()).unwrap();
    std::process::exit(if violation.is_null() { 0 } else { 1 });
}

fn parent_main(id: &str, checks: &[Check], seed: u64, thorough: bool) -> ! {
    let t0 = Instant::now();
    let tmp = std::env::temp_dir().join(format!("vf-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let slots = tmp.join("slots");
    std::fs::write(&slots, vec![0u8; SLOTS * 24]).unwrap();
    let result = tmp.join("result.json");
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1))
        .env("VF_WORKER", "1")
        .env("VF_SLOTS", &slots)
        .env("VF_RESULT", &result)
        .spawn()
        .expect("cannot start the worker");
    let limit = Duration::from_secs(
        std::env::var("VF_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 700 }),
    );
    // hang detection: the same case in the same slot for a long time
    let mut last: Vec<(Vec<u8>, Instant)> = vec![(vec![], Instant::now()); SLOTS];
    let hang_after = Duration::from_secs(120);
    let mut hung: Option<(u64, u64)> = None;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        if let Ok(data) = std::fs::read(&slots) {
            for (i, rec) in data.chunks(24).enumerate() {
                if last[i].0 != rec {
                    last[i] = (rec.to_vec(), Instant::now());
                } else if u64::from_le_bytes(rec[..8].try_into().unwrap()) != 0 && last[i].1.elapsed() > hang_after {
                    hung = Some((
                        u64::from_le_bytes(rec[..8].try_into().unwrap()) - 1,
                        u64::from_le_bytes(rec[8..16].try_into().unwrap()),
                    ));
                }
            }
        }
        if hung.is_some() || t0.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let mut violation: Option<String> = None;
    let mut error: Option<String> = None;
    let mut res = Value::Null;
    match (&status, &hung) {
        (Some(s), _) if s.code() == Some(0) || s.code() == Some(1) => {
            match std::fs::read_to_string(&result).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                Some(v) => res = v,
                None => error = Some("the worker left no result".into()),
            }
            if res["violation"].is_object() {
                let v = &res["violation"];
                println!("[{}] {}: {}", v["check"].as_str().unwrap_or(""), v["sig"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
                let inp: String = v["input"].as_str().unwrap_or("").chars().take(4000).collect();
                println!("--- input ---\n{inp}\n-------------");
                violation = Some(v["path"].as_str().unwrap().to_string());
            }
        }
        (Some(s), _) => {
            // died of a signal: find the case that kills it
            let data = std::fs::read(&slots).unwrap();
            let mut suspects = vec![];
            for rec in data.chunks(24) {
                let c = u64::from_le_bytes(rec[..8].try_into().unwrap());
                if c != 0 {
                    suspects.push((c - 1, u64::from_le_bytes(rec[8..16].try_into().unwrap())));
                }
            }
            for (c, i) in suspects {
                let check = &checks[c as usize];
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args().skip(1).take_while(|a| a != "--case"))
                    .args(["--case", check.name, &i.to_string()])
                    .env_remove("VF_WORKER")
                    .stdout(std::process::Stdio::null())
                    .status();
                if let Ok(st) = st
                    && st.code().is_none()
                {
                    use std::os::unix::process::ExitStatusExt;
                    // SIGKILL is not the code's doing (memory guard, operator)
                    if st.signal() == Some(libc::SIGKILL) {
                        continue;
                    }
                    let p = verif_dir().join("replays");
                    let _ = std::fs::create_dir_all(&p);
                    let p = p.join(format!("{id}-{}-crash-{i}.json", check.name));
                    let v = json!({"property": id, "check": check.name, "seed": seed, "case": i,
                        "sig": "crash", "message": format!("the process dies: {st}")});
                    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                    println!("[{}] case {i} kills the process: {st}", check.name);
                    violation = Some(p.display().to_string());
                    break;
                }
            }
            if violation.is_none() {
                // not an answer: look again, at most twice
                let n: u32 = std::env::var("VF_RETRY").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
                if n < 2 {
                    eprintln!("the worker died ({s}) and no case reproduces it: once more");
                    let st = std::process::Command::new(std::env::current_exe().unwrap())
                        .args(std::env::args().skip(1))
                        .env("VF_RETRY", (n + 1).to_string())
                        .status();
                    std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(2));
                }
                error = Some(format!("the worker died ({s}) and no case reproduces it"));
            }
        }
        (None, Some((c, i))) => {
            let check = &checks[*c as usize];
            let msg = format!("[{}] case {i} does not finish within {} s", check.name, hang_after.as_secs());
            // does it hang alone as well?
            let mut alone = std::process::Command::new(std::env::current_exe().unwrap())
                .args(std::env::args().skip(1).take_while(|a| a != "--case"))
                .args(["--case", check.name, &i.to_string()])
                .env_remove("VF_WORKER")
                .stdout(std::process::Stdio::null())
                .spawn()
                .unwrap();
            let t = Instant::now();
            let mut finished = false;
            while t.elapsed() < hang_after {
                if alone.try_wait().unwrap().is_some() {
                    finished = true;
                    break;
                }
                std::thread::sleep(Duration::from_millis(50));
            }
            let _ = alone.kill();
            let _ = alone.wait();
            if !finished && check.hang_is_violation {
                let p = verif_dir().join("replays");
                let _ = std::fs::create_dir_all(&p);
                let p = p.join(format!("{id}-{}-hang-{i}.json", check.name));
                let v = json!({"property": id, "check": check.name, "seed": seed, "case": i, "sig": "hang", "message": msg});
                std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                println!("{msg}, alone either");
                violation = Some(p.display().to_string());
            } else {
                error = Some(msg);
            }
        }
        (None, None) => error = Some(format!("no result within {limit:?}")),
    }
    for k in res["known"].as_array().into_iter().flatten() {
        println!("KNOWN-FINDING: property={id} {}", k.as_str().unwrap_or(""));
    }
    let ev_dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev_dir);
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": res["distinct"].as_u64().unwrap_or(0),
            "rule": res["rules"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect::<Vec<_>>().join(" ")).unwrap_or_default(),
            "samples": if res["samples"].is_array() { res["samples"].clone() } else { json!([]) },
            "checks": res["detail"],
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    std::fs::write(ev_dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    if let Some(p) = violation {
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1);
    }
    if let Some(e) = error {
        println!("ERROR property={id} {e}");
        std::process::exit(2);
    }
    println!(
        "OK property={id} evaluations={} distinct_nontrivial={} wall={:.1}s",
        ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], t0.elapsed().as_secs_f64()
    );
    std::process::exit(0);
}
