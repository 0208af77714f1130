//! Drives the real code for the specification: makes cases, executes them,
//! and writes down what happened.
mod exec;
mod gen;
mod rng;
mod session;

use std::collections::BTreeSet;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

use serde_json::{json, Value};

fn read_ndjson(p: &str) -> Vec<Value> {
    BufReader::new(File::open(p).unwrap_or_else(|e| panic!("{p}: {e}")))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
        .collect()
}
fn write_ndjson<'a>(p: &Path, v: impl Iterator<Item = &'a Value>) {
    let mut w = BufWriter::new(File::create(p).unwrap());
    for x in v {
        serde_json::to_writer(&mut w, x).unwrap();
        w.write_all(b"\n").unwrap();
    }
}

/// What a thread is working on: index of the case + 1 and when it started.
#[derive(Default)]
struct Now {
    case: AtomicUsize,
    since: AtomicU64,
}
/// A case that takes longer never returns, for all we know.
const HANG_MS: u64 = 25_000;

/// Executes cases on several threads, keeping their order.
fn exec_all(cases: &[Value], cf: &exec::Configs, scratch: &Path) -> Vec<Value> {
    let threads = 8;
    let next = AtomicUsize::new(0);
    let left = AtomicUsize::new(threads);
    let now: Vec<Now> = (0..threads).map(|_| Now::default()).collect();
    let start = Instant::now();
    let results: Mutex<Vec<(usize, Vec<Value>)>> = Mutex::new(vec![]);
    const BATCH: usize = 64;
    std::thread::scope(|s| {
        for n in &now {
            let (next, left, results) = (&next, &left, &results);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let lo = next.fetch_add(BATCH, SeqCst);
                        if lo >= cases.len() {
                            break;
                        }
                        let hi = (lo + BATCH).min(cases.len());
                        let mut v = Vec::with_capacity(BATCH);
                        for (i, c) in cases.iter().enumerate().take(hi).skip(lo) {
                            n.since.store(start.elapsed().as_millis() as u64, SeqCst);
                            n.case.store(i + 1, SeqCst);
                            v.push(exec::exec(c, cf, scratch));
                        }
                        n.case.store(0, SeqCst);
                        results.lock().unwrap().push((lo, v));
                    }
                    left.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        while left.load(SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(3));
            let t = start.elapsed().as_millis() as u64;
            for n in &now {
                let c = n.case.load(SeqCst);
                if c > 0 && t.saturating_sub(n.since.load(SeqCst)) > HANG_MS && n.case.load(SeqCst) == c {
                    // The thread cannot be stopped: report and leave.
                    on_hang(&cases[c - 1]);
                }
            }
        }
    });
    let mut r = results.into_inner().unwrap();
    r.sort_by_key(|x| x.0);
    r.into_iter().flat_map(|x| x.1).collect()
}
static OUT: Mutex<Option<(PathBuf, PathBuf)>> = Mutex::new(None);

/// Writes the case that does not end as the only record, and ends the process.
fn on_hang(case: &Value) -> ! {
    let mut r = case.clone();
    r["st"] = json!("hang");
    r["out"] = json!([]);
    if let Some((out, utab)) = OUT.lock().unwrap().clone() {
        write_ndjson(&out, std::iter::once(&r));
        let mut chars = BTreeSet::new();
        exec::collect_chars(&r, &mut chars);
        write_ndjson(&utab, exec::utab(&chars).values());
    }
    println!("{}", json!({"executed": 1, "records": 1, "panics": 0, "hang": true}));
    std::process::exit(0);
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn req(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| panic!("{k} is missing"))
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(real_main);
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("harness: {}", m.unwrap_or_default());
        std::process::exit(3);
    }
}

fn real_main() {
    let a = Args(std::env::args().skip(1).collect());
    let scratch = PathBuf::from(a.get("--scratch").unwrap_or("/tmp/rphonetic-scratch"));
    let cfgs: Value = match a.get("--cfgs") {
        Some(p) => serde_json::from_reader(BufReader::new(File::open(p).unwrap())).unwrap(),
        None => json!({}),
    };
    let len = |k: &str| cfgs.get(k).and_then(|x| x.as_array()).map(|x| x.len()).unwrap_or(0);
    let info = gen::CfgInfo { dms: len("dms"), bm: len("bm") };
    match a.0[0].as_str() {
        // Cases of streams "name=count,...", without executing them.
        "gen" | "run" => {
            let frags: gen::Frags = serde_json::from_reader(File::open(a.req("--frags")).unwrap()).unwrap();
            let seed: u64 = a.req("--seed").parse().unwrap();
            let mut cases = vec![];
            for s in a.req("--streams").split(',') {
                let (name, n) = s.split_once('=').unwrap();
                let h = name.bytes().fold(seed, |h, b| h.wrapping_mul(1099511628211).wrapping_add(b as u64));
                cases.extend(gen::cases(name, n.parse().unwrap(), h, &frags, &info));
            }
            finish(&a, cases, &cfgs, &scratch);
        }
        // Executes the cases of a file.
        "exec" => {
            let cases = read_ndjson(a.req("--in"));
            finish(&a, cases, &cfgs, &scratch);
        }
        // The distinct results of the calls of a file.
        "observe" => {
            let cases = read_ndjson(a.req("--in"));
            let cf = exec::Configs::load(&cfgs, &scratch);
            let num = |k: &str| a.req(k).parse::<usize>().unwrap();
            let recs = session::observe(&cases, &cf, num("--seed") as u64, num("--threads"), num("--rounds"));
            write_ndjson(Path::new(a.req("--out")), recs.iter());
            println!("{}", json!({"executed": cases.len() * num("--threads") * num("--rounds"), "records": recs.len()}));
        }
        // What Unicode says about the characters of a file.
        "utab" => {
            let mut chars = BTreeSet::new();
            read_ndjson(a.req("--in")).iter().for_each(|r| exec::collect_chars(r, &mut chars));
            write_ndjson(Path::new(a.req("--utab")), exec::utab(&chars).values());
            println!("{}", json!({"chars": chars.len()}));
        }
        c => panic!("command {c}"),
    }
}

fn finish(a: &Args, mut cases: Vec<Value>, cfgs: &Value, scratch: &Path) {
    if a.get("--only-cases").is_some() {
        write_ndjson(Path::new(a.req("--out")), cases.iter());
        println!("{}", json!({"cases": cases.len()}));
        return;
    }
    // The same case twice tells nothing.
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    cases.retain(|c| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        c.to_string().hash(&mut h);
        seen.insert(h.finish())
    });
    std::fs::create_dir_all(scratch).unwrap();
    let out = Path::new(a.req("--out"));
    *OUT.lock().unwrap() = Some((out.to_path_buf(), PathBuf::from(a.req("--utab"))));
    // Configurations that never load are reported with the first case.
    let loaded = std::sync::Arc::new(AtomicUsize::new(0));
    if let Some(c) = cases.first().cloned() {
        let loaded = loaded.clone();
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_millis(2 * HANG_MS));
            if loaded.load(SeqCst) == 0 {
                on_hang(&c);
            }
        });
    }
    let cf = exec::Configs::load(cfgs, scratch);
    loaded.store(1, SeqCst);
    let mut recs = exec_all(&cases, &cf, scratch);
    let (total, panics) = (recs.len(), recs.iter().filter(|r| r["st"] == "panic").count());
    // Of very many records, the bad ones and a sample are enough.
    if let Some(keep) = a.get("--keep") {
        let every = (total / keep.parse::<usize>().unwrap()).max(1);
        let mut i = 0;
        recs.retain(|r| {
            i += 1;
            i % every == 0 || r["st"] != "ok"
        });
    }
    write_ndjson(out, recs.iter());
    let mut chars = BTreeSet::new();
    recs.iter().for_each(|r| exec::collect_chars(r, &mut chars));
    exec::collect_chars(cfgs, &mut chars);
    let t = exec::utab(&chars);
    write_ndjson(Path::new(a.req("--utab")), t.values());
    println!("{}", json!({"executed": total, "records": recs.len(), "panics": panics}));
}
