//! Histories of calls on shared encoders.
use crate::exec::{exec_on, Configs, Enc};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};

type Job = (Arc<Enc>, Value);

/// What a call on an encoder gives, as a text.
fn call(e: &Enc, c: &Value) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec_on(e, c))) {
        Ok(v) => v.to_string(),
        Err(_) => "panic".to_string(),
    }
}
fn copy(e: &Enc, how: &str, cfg: &Value, cf: &Configs) -> Enc {
    match how {
        "clone" => e.clone(),
        // Encoders that cannot be written out are built again.
        "serde" => e.serde_round_trip().unwrap_or_else(|| Enc::make_again(cfg, cf)),
        "build" => Enc::make_again(cfg, cf),
        _ => panic!("{how}"),
    }
}

/// Performs a history: [["new", c] | ["clone" | "serde" | "build", i] | ["inv", t, i, x] | ["ret", t]...],
/// where c is a configuration, i an encoder (in the order they were made), t a
/// thread and x a call.  The outcome of a "ret" is the result of the call.
pub fn session(r: &Value, cf: &Configs) -> Value {
    let cfgs = r["cfgs"].as_array().unwrap();
    let calls = r["calls"].as_array().unwrap();
    let n = |v: &Value| v.as_u64().unwrap() as usize;
    let mut encs: Vec<(usize, Arc<Enc>)> = vec![];
    let mut outs: Vec<Value> = vec![];
    std::thread::scope(|s| {
        let mut threads: BTreeMap<usize, (Sender<Job>, Receiver<String>)> = BTreeMap::new();
        for h in r["hist"].as_array().unwrap() {
            let mut out = json!("");
            match h[0].as_str().unwrap() {
                "new" => {
                    let c = n(&h[1]);
                    encs.push((c, Arc::new(Enc::make(&cfgs[c - 1], cf))));
                }
                "inv" => {
                    let (t, i, x) = (n(&h[1]), n(&h[2]), n(&h[3]));
                    let th = threads.entry(t).or_insert_with(|| {
                        let (tx, jobs) = channel::<Job>();
                        let (res, rx) = channel::<String>();
                        std::thread::Builder::new()
                            .stack_size(8 << 20)
                            .spawn_scoped(s, move || {
                                while let Ok((e, c)) = jobs.recv() {
                                    res.send(call(&e, &c)).ok();
                                }
                            })
                            .unwrap();
                        (tx, rx)
                    });
                    th.0.send((encs[i - 1].1.clone(), calls[x - 1].clone())).unwrap();
                }
                "ret" => out = json!(threads[&n(&h[1])].1.recv().unwrap()),
                how => {
                    let (c, e) = &encs[n(&h[1]) - 1];
                    let e = copy(e, how, &cfgs[*c - 1], cf);
                    encs.push((*c, Arc::new(e)));
                }
            }
            outs.push(out);
        }
        threads.clear();
    });
    Value::Array(outs)
}

/// The codes of some texts.
pub fn probe(e: &Enc, probes: &Value) -> Value {
    Value::Array(probes.as_array().unwrap().iter().map(|t| crate::exec::cps(&e.encode(&crate::exec::text(t)))).collect())
}
/// Performs a history of builders (see Builders.tla); want: the settings of every encoder built.
pub fn builders(r: &Value, cf: &Configs) -> Value {
    use rphonetic::*;
    enum B<'a> {
        Bm(BeiderMorseBuilder<'static>),
        Dms(DaitchMokotoffSoundexBuilder<'a>),
    }
    let dms = r["kind"] == "dms";
    let n = |v: &Value| v.as_u64().unwrap() as usize;
    let mut bs: Vec<Option<B>> = vec![];
    let mut built: Vec<Enc> = vec![];
    for h in r["hist"].as_array().unwrap() {
        let i = n(&h[1]);
        match h[0].as_str().unwrap() {
            "new" if dms && i == 0 => bs.push(Some(B::Dms(DaitchMokotoffSoundexBuilder::default()))),
            "new" if dms => bs.push(Some(B::Dms(DaitchMokotoffSoundexBuilder::with_rules(&cf.dms[i])))),
            "new" => bs.push(Some(B::Bm(BeiderMorseBuilder::new(cf.bm[i].expect("a configuration that loads"))))),
            "clone" => {
                let b = match bs[i - 1].as_ref().unwrap() {
                    B::Bm(b) => B::Bm(b.clone()),
                    B::Dms(b) => B::Dms(b.clone()),
                };
                bs.push(Some(b));
            }
            "set" => {
                let v = &h[3];
                let b = match (bs[i - 1].take().unwrap(), h[2].as_str().unwrap()) {
                    (B::Bm(b), "nt") => B::Bm(b.name_type(crate::exec::name_type(v.as_str().unwrap()))),
                    (B::Bm(b), "rt") => B::Bm(b.rule_type(crate::exec::rule_type(v.as_str().unwrap()))),
                    (B::Bm(b), "concat") => B::Bm(b.concat(v.as_bool().unwrap())),
                    (B::Bm(b), "max") => B::Bm(b.max_phonemes(n(v))),
                    (B::Dms(b), "fold") => B::Dms(b.ascii_folding(v.as_bool().unwrap())),
                    (_, f) => panic!("setting {f}"),
                };
                bs[i - 1] = Some(b);
            }
            "build" => built.push(match bs[i - 1].as_ref().unwrap() {
                B::Bm(b) => Enc::Bm(b.build()),
                B::Dms(b) => Enc::Dms(Box::new(b.clone().build().expect("valid rules"))),
            }),
            e => panic!("event {e}"),
        }
    }
    let refs: Vec<Enc> = r["want"]
        .as_array()
        .unwrap()
        .iter()
        .map(|w| {
            let mut w = w.clone();
            w["alg"] = r["kind"].clone();
            w["how"] = json!("new");
            Enc::make(&w, cf)
        })
        .collect();
    // (Encoders are built before any is used.)
    let codes = |v: &[Enc]| v.iter().map(|e| probe(e, &r["probes"])).collect::<Vec<Value>>();
    let same = !dms || built.iter().zip(&refs).all(|(a, b)| a.same(b));
    json!({"got": codes(&built), "ref": codes(&refs), "same": same})
}

/// Makes all calls ({"enc": ..., call}) several times, in different orders, in
/// several threads sharing encoders, on the encoders and on copies of them.
/// Gives the distinct results of every call.
pub fn observe(cases: &[Value], cf: &Configs, seed: u64, threads: usize, rounds: usize) -> Vec<Value> {
    let mut of: BTreeMap<String, usize> = BTreeMap::new();
    let mut encs: Vec<(Value, Vec<Arc<Enc>>)> = vec![];
    let idx: Vec<usize> = cases
        .iter()
        .map(|c| {
            *of.entry(c["enc"].to_string()).or_insert_with(|| {
                let e = Enc::make(&c["enc"], cf);
                let mut v = vec![];
                for how in ["clone", "serde", "build"] {
                    v.push(Arc::new(copy(&e, how, &c["enc"], cf)));
                }
                v.push(Arc::new(e));
                encs.push((c["enc"].clone(), v));
                encs.len() - 1
            })
        })
        .collect();
    let seen: Mutex<Vec<Vec<String>>> = Mutex::new(vec![vec![]; cases.len()]);
    let start = Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (encs, idx, seen, start) = (&encs, &idx, &seen, &start);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut rng = Rng::new(seed ^ (t as u64 * 7919 + 13));
                    start.wait();
                    for _ in 0..rounds {
                        let mut order: Vec<usize> = (0..cases.len()).collect();
                        // Some threads go through the calls in order, together.
                        if t % 2 == 1 {
                            for i in (1..order.len()).rev() {
                                let j = rng.below(i + 1);
                                order.swap(i, j);
                            }
                        }
                        let mut mine: Vec<(usize, String)> = Vec::with_capacity(order.len());
                        for k in order {
                            let (cfg, v) = &encs[idx[k]];
                            let res = match rng.below(24) {
                                0 => call(&copy(&v[3], "clone", cfg, cf), &cases[k]),
                                // (Building from files is slow.)
                                1 if cfg["alg"] != "dms" => call(&copy(&v[3], "build", cfg, cf), &cases[k]),
                                2..=4 => call(&v[0], &cases[k]),
                                5..=7 => call(&v[1], &cases[k]),
                                8..=10 => call(&v[2], &cases[k]),
                                _ => call(&v[3], &cases[k]),
                            };
                            mine.push((k, res));
                        }
                        let mut all = seen.lock().unwrap();
                        for (k, res) in mine {
                            if !all[k].contains(&res) {
                                all[k].push(res);
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let seen = seen.into_inner().unwrap();
    cases.iter().zip(seen).map(|(c, v)| json!({"op": "obs", "call": c, "outs": v, "st": "ok"})).collect()
}
