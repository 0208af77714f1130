//! Executes one case (a JSON record) on the real code and gives the outcome.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;

use rphonetic::*;
use serde_json::{json, Map, Value};

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}
pub fn text(v: &Value) -> String {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap())
                .collect()
        })
        .unwrap_or_default()
}
pub fn chars26(v: &Value) -> [char; 26] {
    let t: Vec<char> = text(v).chars().collect();
    t.try_into().expect("26 characters")
}
fn limit(v: &Value) -> Option<usize> {
    match v.as_i64().unwrap() {
        -1 => None,
        n => Some(n as usize),
    }
}

/// Rule texts and configuration folders the records refer to by index.
#[derive(Default)]
pub struct Configs {
    pub dms: Vec<String>,
    /// None: the configuration does not load.
    pub bm: Vec<Option<&'static ConfigFiles>>,
    dms_cache: Mutex<HashMap<(usize, bool), DaitchMokotoffSoundex>>,
}

impl Configs {
    /// cfgs: {"dms": [text...], "bm": [{"dir": path} | {"files": {name: text}}...]};
    /// index 0 is always the embedded configuration.
    pub fn load(v: &Value, scratch: &std::path::Path) -> Self {
        let mut c = Configs::default();
        c.dms.push(String::new());
        if let Some(a) = v.get("dms").and_then(|x| x.as_array()) {
            for t in a {
                c.dms.push(text(t));
            }
        }
        c.bm.push(Some(Box::leak(Box::default())));
        if let Some(a) = v.get("bm").and_then(|x| x.as_array()) {
            for (i, f) in a.iter().enumerate() {
                let dir = match f.get("dir").and_then(|d| d.as_str()) {
                    Some(d) => PathBuf::from(d),
                    None => {
                        let d = scratch.join(format!("bm{i}"));
                        write_files(&d, f.get("files").unwrap());
                        d
                    }
                };
                let r = catch_unwind(|| ConfigFiles::new(&dir));
                match r {
                    Ok(Ok(cf)) => c.bm.push(Some(Box::leak(Box::new(cf)))),
                    _ => c.bm.push(None),
                }
            }
        }
        c
    }
    pub fn build_dms(&self, k: usize, fold: bool) -> DaitchMokotoffSoundex {
        let b = if k == 0 {
            DaitchMokotoffSoundexBuilder::default()
        } else {
            DaitchMokotoffSoundexBuilder::with_rules(&self.dms[k])
        };
        b.ascii_folding(fold).build().expect("valid rules")
    }
    pub fn dms(&self, k: usize, fold: bool) -> DaitchMokotoffSoundex {
        self.dms_cache.lock().unwrap_or_else(|e| e.into_inner()).entry((k, fold)).or_insert_with(|| self.build_dms(k, fold)).clone()
    }
}

pub fn write_files(dir: &std::path::Path, files: &Value) {
    std::fs::create_dir_all(dir).unwrap();
    for (name, t) in files.as_object().unwrap() {
        std::fs::write(dir.join(name), text(t)).unwrap();
    }
}

#[derive(Clone)]
pub enum Enc {
    Sdx(Soundex),
    Rsx(RefinedSoundex),
    Col(Cologne),
    Cav1(Caverphone1),
    Cav2(Caverphone2),
    Met(Metaphone),
    Dmp(DoubleMetaphone),
    Nys(Nysiis),
    Phx(Phonex),
    Mra(MatchRatingApproach),
    Dms(Box<DaitchMokotoffSoundex>),
    Bm(BeiderMorse<'static>),
}

pub fn name_type(s: &str) -> NameType {
    match s {
        "ash" => NameType::Ashkenazi,
        "gen" => NameType::Generic,
        "sep" => NameType::Sephardic,
        _ => panic!("name type {s}"),
    }
}
pub fn rule_type(s: &str) -> RuleType {
    match s {
        "approx" => RuleType::Approx,
        "exact" => RuleType::Exact,
        _ => panic!("rule type {s}"),
    }
}

impl Enc {
    pub fn make(e: &Value, cf: &Configs) -> Enc {
        let how = e.get("how").and_then(|h| h.as_str()).unwrap_or("new");
        let dflt = how == "default";
        match e["alg"].as_str().unwrap() {
            "sdx" => Enc::Sdx(match how {
                "default" => Soundex::default(),
                "const" => Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, e["hw"].as_bool().unwrap()),
                "genealogy" => Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX),
                "new" => Soundex::new(chars26(&e["map"]), e["hw"].as_bool().unwrap()),
                "arr" => Soundex::from(chars26(&e["map"])),
                "str" => text(&e["map"]).parse().unwrap(),
                "tryfrom" => Soundex::try_from(text(&e["map"]).as_str()).unwrap(),
                "string" => Soundex::try_from(text(&e["map"])).unwrap(),
                _ => panic!("{how}"),
            }),
            "rsx" => Enc::Rsx(match how {
                "default" => RefinedSoundex::default(),
                "new" => RefinedSoundex::new(chars26(&e["map"])),
                "str" => text(&e["map"]).parse().unwrap(),
                "tryfrom" => RefinedSoundex::try_from(text(&e["map"]).as_str()).unwrap(),
                "string" => RefinedSoundex::try_from(text(&e["map"])).unwrap(),
                _ => panic!("{how}"),
            }),
            "col" => Enc::Col(Cologne),
            "cav1" => Enc::Cav1(Caverphone1),
            "cav2" => Enc::Cav2(Caverphone2),
            "met" if dflt => Enc::Met(Metaphone::default()),
            "met" => Enc::Met(Metaphone::new(limit(&e["max"]))),
            "dmp" if dflt => Enc::Dmp(DoubleMetaphone::default()),
            "dmp" => Enc::Dmp(DoubleMetaphone::new(limit(&e["max"]))),
            "nys" if dflt => Enc::Nys(Nysiis::default()),
            "nys" => Enc::Nys(Nysiis::new(e["strict"].as_bool().unwrap())),
            "phx" if dflt => Enc::Phx(Phonex::default()),
            "phx" => Enc::Phx(Phonex::new(e["max"].as_u64().unwrap() as usize)),
            "mra" => Enc::Mra(MatchRatingApproach),
            "dms" if dflt => Enc::Dms(Box::default()),
            "dms" => Enc::Dms(Box::new(
                cf.dms(e["cfg"].as_u64().unwrap() as usize, e["fold"].as_bool().unwrap()),
            )),
            "bm" => {
                let c = cf.bm[e["cfg"].as_u64().unwrap() as usize].expect("a configuration that loads");
                let mut b = BeiderMorseBuilder::new(c);
                if !dflt {
                    b = b
                        .name_type(name_type(e["nt"].as_str().unwrap()))
                        .rule_type(rule_type(e["rt"].as_str().unwrap()))
                        .concat(e["concat"].as_bool().unwrap())
                        .max_phonemes(e["max"].as_u64().unwrap() as usize);
                }
                Enc::Bm(b.build())
            }
            a => panic!("algorithm {a}"),
        }
    }
    /// Built from its configuration, not copied.
    pub fn make_again(e: &Value, cf: &Configs) -> Enc {
        match e["alg"].as_str().unwrap() {
            "dms" if e["how"] != "default" => {
                Enc::Dms(Box::new(cf.build_dms(e["cfg"].as_u64().unwrap() as usize, e["fold"].as_bool().unwrap())))
            }
            _ => Enc::make(e, cf),
        }
    }
    pub fn dynamic(&self) -> &dyn Encoder {
        match self {
            Enc::Sdx(e) => e,
            Enc::Rsx(e) => e,
            Enc::Col(e) => e,
            Enc::Cav1(e) => e,
            Enc::Cav2(e) => e,
            Enc::Met(e) => e,
            Enc::Dmp(e) => e,
            Enc::Nys(e) => e,
            Enc::Phx(e) => e,
            Enc::Mra(e) => e,
            Enc::Dms(e) => e.as_ref(),
            Enc::Bm(e) => e,
        }
    }
    pub fn encode(&self, s: &str) -> String {
        self.dynamic().encode(s)
    }
    pub fn difference(&self, a: &str, b: &str) -> usize {
        match self {
            Enc::Sdx(e) => e.difference(a, b),
            Enc::Rsx(e) => e.difference(a, b),
            _ => panic!("no difference"),
        }
    }
    /// Whether the encoders are equal.
    pub fn same(&self, o: &Enc) -> bool {
        match (self, o) {
            (Enc::Sdx(a), Enc::Sdx(b)) => a == b,
            (Enc::Rsx(a), Enc::Rsx(b)) => a == b,
            (Enc::Col(a), Enc::Col(b)) => a == b,
            (Enc::Cav1(a), Enc::Cav1(b)) => a == b,
            (Enc::Cav2(a), Enc::Cav2(b)) => a == b,
            (Enc::Met(a), Enc::Met(b)) => a == b,
            (Enc::Dmp(a), Enc::Dmp(b)) => a == b,
            (Enc::Nys(a), Enc::Nys(b)) => a == b,
            (Enc::Phx(a), Enc::Phx(b)) => a == b,
            (Enc::Mra(a), Enc::Mra(b)) => a == b,
            (Enc::Dms(a), Enc::Dms(b)) => a == b,
            _ => panic!("no equality"),
        }
    }
    pub fn order(&self, o: &Enc) -> Option<std::cmp::Ordering> {
        match (self, o) {
            (Enc::Sdx(a), Enc::Sdx(b)) => a.partial_cmp(b),
            (Enc::Rsx(a), Enc::Rsx(b)) => a.partial_cmp(b),
            (Enc::Col(a), Enc::Col(b)) => a.partial_cmp(b),
            (Enc::Cav1(a), Enc::Cav1(b)) => a.partial_cmp(b),
            (Enc::Cav2(a), Enc::Cav2(b)) => a.partial_cmp(b),
            (Enc::Met(a), Enc::Met(b)) => a.partial_cmp(b),
            (Enc::Dmp(a), Enc::Dmp(b)) => a.partial_cmp(b),
            (Enc::Nys(a), Enc::Nys(b)) => a.partial_cmp(b),
            (Enc::Phx(a), Enc::Phx(b)) => a.partial_cmp(b),
            (Enc::Mra(a), Enc::Mra(b)) => a.partial_cmp(b),
            (Enc::Dms(a), Enc::Dms(b)) => a.partial_cmp(b),
            _ => panic!("no order"),
        }
    }
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        match self {
            Enc::Sdx(a) => a.hash(&mut h),
            Enc::Rsx(a) => a.hash(&mut h),
            Enc::Col(a) => a.hash(&mut h),
            Enc::Cav1(a) => a.hash(&mut h),
            Enc::Cav2(a) => a.hash(&mut h),
            Enc::Met(a) => a.hash(&mut h),
            Enc::Dmp(a) => a.hash(&mut h),
            Enc::Nys(a) => a.hash(&mut h),
            Enc::Phx(a) => a.hash(&mut h),
            Enc::Mra(a) => a.hash(&mut h),
            _ => (),
        }
        h.finish()
    }
    /// Written out and read back, where the encoder can be.
    pub fn serde_round_trip(&self) -> Option<Enc> {
        fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(t: &T) -> T {
            serde_json::from_str(&serde_json::to_string(t).unwrap()).unwrap()
        }
        Some(match self {
            Enc::Sdx(e) => Enc::Sdx(rt(e)),
            Enc::Rsx(e) => Enc::Rsx(rt(e)),
            Enc::Col(e) => Enc::Col(rt(e)),
            Enc::Cav1(e) => Enc::Cav1(rt(e)),
            Enc::Cav2(e) => Enc::Cav2(rt(e)),
            Enc::Met(e) => Enc::Met(rt(e)),
            Enc::Dmp(e) => Enc::Dmp(rt(e)),
            Enc::Nys(e) => Enc::Nys(rt(e)),
            Enc::Phx(e) => Enc::Phx(rt(e)),
            Enc::Mra(e) => Enc::Mra(rt(e)),
            Enc::Dms(_) | Enc::Bm(_) => return None,
        })
    }
}

fn lset(v: &Value) -> LanguageSet {
    let set = || -> BTreeSet<String> { v["s"].as_array().unwrap().iter().map(text).collect() };
    match v["k"].as_str().unwrap() {
        "any" => LanguageSet::Any,
        "none" => LanguageSet::NoLanguages,
        "some" => LanguageSet::SomeLanguages(set()),
        "from" => LanguageSet::from(set()),
        "vec" => {
            let t: Vec<String> = v["s"].as_array().unwrap().iter().map(text).collect();
            LanguageSet::from(t.iter().map(|x| x.as_str()).collect::<Vec<&str>>())
        }
        k => panic!("language set {k}"),
    }
}
fn lset_json(l: &LanguageSet) -> Value {
    match l {
        LanguageSet::Any => json!({"k": "any", "s": []}),
        LanguageSet::NoLanguages => json!({"k": "none", "s": []}),
        LanguageSet::SomeLanguages(s) => {
            json!({"k": "some", "s": s.iter().map(|x| cps(x)).collect::<Vec<Value>>()})
        }
    }
}

fn strs(v: Vec<String>) -> Value {
    Value::Array(v.iter().map(|s| cps(s)).collect())
}

fn phonetic_error(e: &PhoneticError) -> Value {
    let kind = |k: &str| json!({"ok": false, "k": k, "line": 0, "content": [], "file": ""});
    match e {
        PhoneticError::ParseRuleError(p) => json!({
            "ok": false, "k": "parse", "line": p.line_number, "content": cps(&p.line_content),
            "file": p.filename.clone().unwrap_or_default()
        }),
        PhoneticError::BMError(b) => kind(match b {
            BMError::UnknownNameType(_) => "UnknownNameType",
            BMError::UnknownRuleType(_) => "UnknownRuleType",
            BMError::ParseConfiguration(_) => "ParseConfiguration",
            BMError::WrongFilename(_) => "WrongFilename",
            BMError::WrongPhoneme(_) => "WrongPhoneme",
            BMError::BadContextRegex(_) => "BadContextRegex",
            BMError::BadRule(_) => "BadRule",
            _ => "other",
        }),
    }
}

fn slice(r: &Value) -> Value {
    let s = text(&r["s"]);
    let c = CharSequence::from(s.as_str());
    // 2000000000 stands for the largest number.
    let number = |k: &str| match r[k].as_u64().unwrap() as usize {
        v if v > 1999999000 => usize::MAX - (2000000000 - v),
        v => v,
    };
    let (lo, hi) = (number("lo"), number("hi"));
    let out = match r["kind"].as_str().unwrap() {
        "range" => &c[lo..hi],
        "incl" => &c[lo..=hi],
        "from" => &c[lo..],
        "to" => &c[..hi],
        "toincl" => &c[..=hi],
        "full" => &c[..],
        k => panic!("{k}"),
    };
    let shown = format!("{c}");
    let back: &str = c.clone().into();
    json!({"out": cps(out), "len": c.len(), "empty": c.is_empty(), "same": c.as_str() == s && shown == s && back == s})
}

/// A call on a given encoder.
pub fn exec_on(e: &Enc, r: &Value) -> Value {
    let t = |k: &str| text(&r[k]);
    match (r["op"].as_str().unwrap(), e) {
        ("enc", _) => cps(&e.encode(&t("in"))),
        ("eq", _) => json!(e.dynamic().is_encoded_equals(&t("a"), &t("b"))),
        ("dif", _) => json!(e.difference(&t("a"), &t("b"))),
        ("dmpx", Enc::Dmp(e)) => {
            let s = t("in");
            let d = e.double_metaphone(&s);
            json!({"p": d.primary(), "a": d.alternate(), "e": e.encode(&s), "ea": e.encode_alternate(&s)})
        }
        ("dmpeq", Enc::Dmp(e)) => json!(e.is_double_metaphone_equal(&t("a"), &t("b"), r["alt"].as_bool().unwrap())),
        ("dmsx", Enc::Dms(e)) => {
            let s = t("in");
            json!({"all": e.inner_soundex(&s, true), "first": e.inner_soundex(&s, false), "s": e.soundex(&s)})
        }
        ("bmx", Enc::Bm(e)) => {
            let s = t("in");
            let l = &r["langs"];
            if l["k"] == "guess" {
                json!(e.encode(&s))
            } else {
                json!(e.encode_with_languages(&s, &lset(l)))
            }
        }
        (op, _) => panic!("operation {op}"),
    }
}

/// The outcome of a record without panic.
fn run(r: &Value, cf: &Configs, scratch: &std::path::Path) -> Value {
    let enc = || Enc::make(&r["enc"], cf);
    match r["op"].as_str().unwrap() {
        "enc" => cps(&enc().encode(&text(&r["in"]))),
        "eq" => json!(enc().dynamic().is_encoded_equals(&text(&r["a"]), &text(&r["b"]))),
        "dif" => json!(enc().difference(&text(&r["a"]), &text(&r["b"]))),
        "dmpx" => match enc() {
            Enc::Dmp(e) => {
                let t = text(&r["in"]);
                let d = e.double_metaphone(&t);
                json!({"p": cps(&d.primary()), "a": cps(&d.alternate()), "e": cps(&e.encode(&t)),
                       "ea": cps(&e.encode_alternate(&t)), "d": cps(&d.to_string())})
            }
            _ => panic!("dmpx"),
        },
        "dmpeq" => match enc() {
            Enc::Dmp(e) => json!(e.is_double_metaphone_equal(
                &text(&r["a"]),
                &text(&r["b"]),
                r["alt"].as_bool().unwrap()
            )),
            _ => panic!("dmpeq"),
        },
        "dmsx" => match enc() {
            Enc::Dms(e) => {
                let t = text(&r["in"]);
                json!({"all": strs(e.inner_soundex(&t, true)), "first": strs(e.inner_soundex(&t, false)),
                       "s": cps(&e.soundex(&t)), "e": cps(&e.encode(&t))})
            }
            _ => panic!("dmsx"),
        },
        // A constructor from text, and what it encodes.
        "ctor" => {
            let s = text(&r["s"]);
            let how = r["how"].as_str().unwrap();
            let res: Result<Enc, Vec<char>> = match (r["alg"].as_str().unwrap(), how) {
                ("sdx", "str") => s.parse().map(Enc::Sdx),
                ("sdx", "tryfrom") => Soundex::try_from(s.as_str()).map(Enc::Sdx),
                ("sdx", _) => Soundex::try_from(s).map(Enc::Sdx),
                ("rsx", "str") => s.parse().map(Enc::Rsx),
                ("rsx", "tryfrom") => RefinedSoundex::try_from(s.as_str()).map(Enc::Rsx),
                _ => RefinedSoundex::try_from(s).map(Enc::Rsx),
            };
            match res {
                Ok(e) => json!({"ok": true, "v": cps(&e.encode(&text(&r["in"])))}),
                Err(c) => json!({"ok": false, "v": cps(&c.into_iter().collect::<String>())}),
            }
        }
        // Building an encoder from a rule text, and what it encodes.
        "dmsb" => {
            let s = text(&r["text"]);
            let e = DaitchMokotoffSoundexBuilder::with_rules(&s)
                .ascii_folding(r["fold"].as_bool().unwrap())
                .build();
            match e {
                Ok(e) => {
                    let codes: Vec<Value> = r["ins"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|t| strs(e.inner_soundex(&text(t), true)))
                        .collect();
                    json!({"ok": true, "k": "", "line": 0, "content": [], "codes": codes})
                }
                Err(e) => {
                    let mut j = phonetic_error(&e);
                    let m = j.as_object_mut().unwrap();
                    m.remove("file");
                    m.insert("codes".into(), json!([]));
                    j
                }
            }
        }
        "bml" => {
            use std::sync::atomic::{AtomicUsize, Ordering};
            static N: AtomicUsize = AtomicUsize::new(0);
            let dir = scratch.join(format!("load{}", N.fetch_add(1, Ordering::SeqCst)));
            write_files(&dir, &r["files"]);
            let res = catch_unwind(|| ConfigFiles::new(&dir));
            let out = match &res {
                Err(_) => None,
                Ok(Err(e)) => {
                    let mut j = phonetic_error(e);
                    let m = j.as_object_mut().unwrap();
                    // The name of the folder is of no interest.
                    let f = m["file"].as_str().unwrap().replace(dir.to_str().unwrap(), "DIR");
                    m.insert("file".into(), json!(f));
                    m.insert("codes".into(), json!([]));
                    Some(j)
                }
                Ok(Ok(c)) => {
                    // The configuration outlives the calls made here.
                    let mut codes: Vec<Value> = vec![];
                    for p in r["probes"].as_array().unwrap() {
                        let b = BeiderMorseBuilder::new(c)
                            .name_type(name_type(p["nt"].as_str().unwrap()))
                            .rule_type(rule_type(p["rt"].as_str().unwrap()))
                            .concat(p["concat"].as_bool().unwrap())
                            .max_phonemes(p["max"].as_u64().unwrap() as usize)
                            .build();
                        let t = text(&p["in"]);
                        codes.push(match p.get("langs") {
                            Some(l) if l["k"] != "guess" => cps(&b.encode_with_languages(&t, &lset(l))),
                            _ => cps(&b.encode(&t)),
                        });
                    }
                    Some(json!({"ok": true, "k": "", "line": 0, "content": [], "file": "", "codes": codes}))
                }
            };
            std::fs::remove_dir_all(&dir).ok();
            match out {
                Some(o) => o,
                None => panic!("load"),
            }
        }
        "bmx" => match enc() {
            Enc::Bm(e) => {
                let t = text(&r["in"]);
                let l = &r["langs"];
                if l["k"] == "guess" {
                    cps(&e.encode(&t))
                } else {
                    cps(&e.encode_with_languages(&t, &lset(l)))
                }
            }
            _ => panic!("bmx"),
        },
        // The same text with several maximum lengths, and without one.
        "limx" => {
            let t = text(&r["in"]);
            let alg = r["alg"].as_str().unwrap();
            let both = |e: DoubleMetaphone| {
                let d = e.double_metaphone(&t);
                json!([cps(&d.primary()), cps(&d.alternate()), cps(&e.encode(&t)), cps(&e.encode_alternate(&t))])
            };
            let one = |c: String| json!([cps(&c)]);
            let at = |n: Option<usize>| match alg {
                "met" => one(Metaphone::new(n).encode(&t)),
                "dmp" => both(DoubleMetaphone::new(n)),
                "nys" => one(Nysiis::new(n.is_some()).encode(&t)),
                "phx" => one(Phonex::new(n.unwrap_or(40)).encode(&t)),
                a => panic!("{a}"),
            };
            let dflt = match alg {
                "met" => one(Metaphone::default().encode(&t)),
                "dmp" => both(DoubleMetaphone::default()),
                "nys" => one(Nysiis::default().encode(&t)),
                _ => one(Phonex::default().encode(&t)),
            };
            let codes: Vec<Value> =
                r["ns"].as_array().unwrap().iter().map(|n| at(Some(n.as_u64().unwrap() as usize))).collect();
            json!({"full": at(None), "codes": codes, "dflt": dflt})
        }
        // Comparisons of two texts along with their codes.
        "eqx" => {
            let (a, b) = (text(&r["a"]), text(&r["b"]));
            let e = enc();
            let d = e.dynamic();
            let row = |ca: String, cb: String, eq: bool, rev: bool, same: bool| {
                json!({"ca": cps(&ca), "cb": cps(&cb), "eq": eq, "rev": rev, "self": same})
            };
            let mut rows = vec![row(
                d.encode(&a),
                d.encode(&b),
                d.is_encoded_equals(&a, &b),
                d.is_encoded_equals(&b, &a),
                d.is_encoded_equals(&a, &a),
            )];
            if let Enc::Dmp(m) = &e {
                for alt in [false, true] {
                    let code = |s: &str| if alt { m.encode_alternate(s) } else { m.encode(s) };
                    rows.push(row(
                        code(&a),
                        code(&b),
                        m.is_double_metaphone_equal(&a, &b, alt),
                        m.is_double_metaphone_equal(&b, &a, alt),
                        m.is_double_metaphone_equal(&a, &a, alt),
                    ));
                }
            }
            let difs = match e {
                Enc::Sdx(_) | Enc::Rsx(_) => vec![e.difference(&a, &b), e.difference(&b, &a), e.difference(&a, &a)],
                _ => vec![],
            };
            json!({"rows": rows, "difs": difs})
        }
        // Histories of builders: what the encoders give, and what encoders built at once give.
        "bld" => crate::session::builders(r, cf),
        // Whether two encoders are equal.
        "cfgeq" => {
            let (a, b) = (Enc::make(&r["a"], cf), Enc::make(&r["b"], cf));
            let c = a.clone();
            json!({"eq": a.same(&b), "rev": b.same(&a), "cmp": a.order(&b) == Some(std::cmp::Ordering::Equal) && b.order(&a) == Some(std::cmp::Ordering::Equal),
                   "hash": a.hash() == b.hash(), "self": a.same(&c)})
        }
        // What encoders of all settings give for the probes.
        "bldref" => Value::Array(r["encs"].as_array().unwrap().iter().map(|e| crate::session::probe(&Enc::make(e, cf), &r["probes"])).collect()),
        // The same text in several cases.
        "casx" => {
            let e = enc();
            let b = text(&r["b"]);
            let ins: Vec<String> = r["ins"].as_array().unwrap().iter().map(text).collect();
            let obs: Vec<Value> = ins
                .iter()
                .map(|t| {
                    let codes = match &e {
                        Enc::Dmp(m) => vec![m.encode(t), m.encode_alternate(t)],
                        Enc::Dms(m) => vec![m.encode(t), m.soundex(t)],
                        _ => vec![e.encode(t)],
                    };
                    let mut eqs = vec![e.dynamic().is_encoded_equals(t, &b), e.dynamic().is_encoded_equals(&b, t)];
                    if let Enc::Dmp(m) = &e {
                        eqs.extend([m.is_double_metaphone_equal(t, &b, false), m.is_double_metaphone_equal(t, &b, true)]);
                    }
                    let difs = match &e {
                        Enc::Sdx(_) | Enc::Rsx(_) => vec![e.difference(t, &b), e.difference(&b, t)],
                        _ => vec![],
                    };
                    json!({"codes": strs(codes), "eqs": eqs, "difs": difs})
                })
                .collect();
            Value::Array(obs)
        }
        "lset" => {
            let a = lset(&r["a"]);
            let b = lset(&r["b"]);
            json!({"restrict": lset_json(&a.restrict_to(&b)), "merge": lset_json(&a.merge(&b)),
                   "empty": a.is_empty(), "single": a.is_singleton(), "a": lset_json(&a),
                   "any": a.any().map(cps).unwrap_or(json!([])), "hasany": a.any().is_some()})
        }
        "chs" => slice(r),
        // Name types, language sets and errors as texts.
        "nt" => {
            let s = text(&r["s"]);
            let show = |n: &NameType| cps(&n.to_string());
            let from = s.parse::<NameType>();
            let file = NameType::try_from(std::ffi::OsString::from(&s));
            let json = serde_json::from_value::<NameType>(Value::from(s.as_str()));
            let back = [&from, &file].iter().all(|x| match x {
                Ok(n) => {
                    let j = serde_json::to_value(n).unwrap();
                    n.to_string().parse::<NameType>().as_ref() == Ok(n)
                        && j == Value::from(n.to_string())
                        && serde_json::from_value::<NameType>(j).unwrap() == *n
                }
                _ => true,
            });
            let bad = |x: &Result<NameType, BMError>| match x {
                Err(BMError::UnknownNameType(t)) => cps(t),
                Err(_) => panic!("error"),
                Ok(_) => json!([]),
            };
            json!({"from": from.as_ref().map(show).unwrap_or(json!([])), "file": file.as_ref().map(show).unwrap_or(json!([])),
                   "json": json.as_ref().map(show).unwrap_or(json!([])), "bad": bad(&from), "badfile": bad(&file), "back": back})
        }
        "lsd" => {
            let a = lset(&r["a"]);
            let j = serde_json::to_string(&a).unwrap();
            json!({"text": cps(&a.to_string()), "back": serde_json::from_str::<LanguageSet>(&j).unwrap() == a})
        }
        "errd" | "errb" => {
            let (e, dir) = if r["op"] == "errd" {
                let s = text(&r["text"]);
                (DaitchMokotoffSoundexBuilder::with_rules(&s).build().err(), String::new())
            } else {
                use std::sync::atomic::{AtomicUsize, Ordering};
                static N: AtomicUsize = AtomicUsize::new(0);
                let dir = scratch.join(format!("err{}", N.fetch_add(1, Ordering::SeqCst)));
                write_files(&dir, &r["files"]);
                let e = ConfigFiles::new(&dir).err();
                std::fs::remove_dir_all(&dir).ok();
                (e, dir.to_str().unwrap().to_string())
            };
            let undir = |s: &str| if dir.is_empty() { s.to_string() } else { s.replace(&dir, "DIR") };
            match e {
                Some(PhoneticError::ParseRuleError(p)) => {
                    let j = serde_json::to_string(&p).unwrap();
                    let back = serde_json::from_str::<ParseError>(&j).unwrap() == p;
                    let file = undir(&p.filename.clone().unwrap_or_default());
                    let (line, content) = (p.line_number, cps(&undir(&p.line_content)));
                    let msg = undir(&PhoneticError::ParseRuleError(p).to_string());
                    json!({"k": "parse", "file": cps(&file), "line": line, "content": content, "msg": cps(&msg), "back": back})
                }
                _ => json!({"k": "none", "file": [], "line": 0, "content": [], "msg": [], "back": true}),
            }
        }
        "ses" => crate::session::session(r, cf),
        op => panic!("operation {op}"),
    }
}

/// Adds "st" and "out" to a record.
pub fn exec(r: &Value, cf: &Configs, scratch: &std::path::Path) -> Value {
    let res = catch_unwind(AssertUnwindSafe(|| run(r, cf, scratch)));
    let mut m: Map<String, Value> = r.as_object().unwrap().clone();
    match res {
        Ok(v) => {
            m.insert("st".into(), json!("ok"));
            m.insert("out".into(), v);
        }
        Err(_) => {
            m.insert("st".into(), json!("panic"));
            m.insert("out".into(), json!([]));
        }
    }
    Value::Object(m)
}

/// What Unicode (the Rust standard library) says about the characters of a value.
pub fn collect_chars(v: &Value, acc: &mut BTreeSet<u32>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| collect_chars(x, acc)),
        Value::Object(o) => o.values().for_each(|x| collect_chars(x, acc)),
        Value::Number(n) => {
            if let Some(c) = n.as_u64() {
                if c >= 128 && c < 0x11_0000 {
                    acc.insert(c as u32);
                }
            }
        }
        _ => (),
    }
}
pub fn utab(chars: &BTreeSet<u32>) -> BTreeMap<u32, Value> {
    let mut todo: Vec<u32> = chars.iter().cloned().collect();
    todo.extend([0xC4, 0xDC, 0xD6, 0xC7, 0xD1, 0xDF]);
    let mut t = BTreeMap::new();
    while let Some(c) = todo.pop() {
        if t.contains_key(&c) {
            continue;
        }
        if let Some(ch) = char::from_u32(c) {
            let up: Vec<u32> = ch.to_uppercase().map(|x| x as u32).collect();
            let lo: Vec<u32> = ch.to_lowercase().map(|x| x as u32).collect();
            todo.extend(up.iter().chain(lo.iter()).filter(|x| **x >= 128));
            t.insert(
                c,
                json!({"c": c, "s": ch.to_string(), "up": up, "lo": lo, "alpha": ch.is_alphabetic(), "num": ch.is_numeric(), "ws": ch.is_whitespace()}),
            );
        }
    }
    t
}
