//! Generators of cases.  Everything is derived from the seed.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn cps(s: &str) -> Value {
    crate::exec::cps(s)
}

const NAMES: &str = "Schwarzenegger Ashcraft Tymczak Pfister Honeyman Robert Rupert Rubin Gutierrez Jackson \
VanDeusen Lloyd Washington Thompson Schmidt Schneider Mueller Meyer Wagner Becker Hoffmann Schulz Koch Richter Wolf \
Czerny Caesar Chianti Chemistry Orchestra Michael Bacher Macher Accede Accident Bacchus Focaccia Edge Edgar Ghislane \
Ghiradelli Hugh Laugh McLaughlin Cough Rough Tough Danger Ranger Manger Biaggi Jose San_Jacinto Yankelovich Jankelowicz \
Cabrillo Gallegos Dumb Thumb Plumber Campbell Raspberry Rogier Hochmeier Island Isle Carlisle Carlysle Sugar Heim Hoek \
Holm Holz Snider Schneider School Schooner Schermerhorn Schenker Resnais Artois Thomas Thames Wasserman Vasserman Uomo \
Womo Arnow Arnoff Filipowicz Breaux Zhao Xavier Knight Gnome Pneumonia Psychology Wright Whale Aeneas Rogers Szczepan \
Przybylski Kowalczyk Wojciechowski Moskowitz Moskovitz Auerbach Uhrbach Lipshitz Lewinsky Levinski Szlamawicz \
Rosochowaciec Peters Breuer Freud Halberstadt Mannheim Chernowitz Cherkassy Kleinmann Topf OBrien D'Angelo O'Neill \
Van_Helsing de_la_Cruz della_Rosa Von_Trapp ben_Gurion bar_Yosef al_Fayed el_Greco dos_Santos Du_Pont Nunes Nunez \
Muller Jürgen Müller Weiß Straße Çelik Ñandu Peña Françoise Žižek Łukasz Øster Ångström Dvořák Černý Šimek Ægir \
MacDonald MacKenzie Knuth Philips Pfeiffer Schiller Bertie Lee Bandt Ford Hart Brent Deverell Kevin Mozart Quincy \
Wheel Whyte Enough Trough Mightier Stevenson Bishop Church Judge Bridge Tchaikovsky Thatcher Fitch Watch Nation Asia \
Musicia Technician Cello Science Scepter Sceptre Gnocchi Champagne Sign Signal Design Night Ghost Aghast Vaughn Shah \
Loughborough Darda Delgado Rhodes Xerxes Exeter Zhang Czech Wiczek Horowitz Ewski Owsky Kowalewski Malinowska";

/// Characters put into words now and then.
pub const ODD: &[char] = &[
    ' ', ' ', '-', '\'', '.', ',', '&', '|', '0', '1', '9', '_', '/', '\\', '"', '(', ')', '[', '{', '@', '`', '~', '\t', '\n',
    '\r', '\0', '\u{1f}', '\u{7f}', '\u{a0}', '\u{2009}', '\u{3000}', '\u{200b}', '\u{feff}', 'ß', 'ẞ', 'ü', 'Ü', 'ö', 'Ö',
    'ä', 'Ä', 'ç', 'Ç', 'ñ', 'Ñ', 'é', 'É', 'è', 'À', 'à', 'â', 'ã', 'å', 'Å', 'ê', 'ë', 'î', 'ï', 'ì', 'í', 'ó', 'ò', 'ô', 'õ', 'ø',
    'ú', 'ù', 'û', 'ý', 'ÿ', 'Ÿ', 'Ŷ', 'ŷ', 'Ő', 'ő', 'Ű', 'ű', 'ş', 'Ş', 'ţ', 'ț', 'ł', 'Ł', 'ž', 'Ž', 'š', 'Š', 'č', 'ć', 'ę',
    'ą', 'ı', 'İ', 'ŉ', 'ǰ', 'ΐ', 'ﬀ', 'ﬁ', 'ﬃ', 'ﬅ', 'ſ', 'K', 'Å', 'æ', 'Æ', 'œ', 'ð', 'þ', 'Ⓐ', 'ⓐ', 'ª', 'º', 'а', 'я', 'Ж', 'щ',
    'α', 'σ', 'ς', 'Ω', 'א', 'ש', 'ת', 'ع', 'ب', '中', '文', 'あ', 'ア', 'ｶ', 'Ａ', 'ｚ', '𝐀', '𝒛', '𐐀', '𐐨', '😀', '🂡', '\u{301}',
    '\u{308}', '\u{345}', '\u{10ffff}', '\u{e000}', '\u{d7ff}', '²', '½', 'Ⅷ', 'ⅷ', 'ᾳ', 'ᾼ', 'ǅ', 'ǆ', 'Ǆ', '’', '–', '“',
];

pub struct Gen {
    pub rng: Rng,
    pub frags: Vec<Vec<char>>,
    pub hot: Vec<char>,
    names: Vec<Vec<char>>,
    /// Leave out characters whose lower case depends on the context.
    pub no_sigma: bool,
    /// Upper bound of the percentage of texts with odd characters.
    pub odd_pct: usize,
}

impl Gen {
    pub fn new(seed: u64, frags: &[String]) -> Self {
        let frags: Vec<Vec<char>> = frags.iter().map(|f| f.chars().collect::<Vec<char>>()).filter(|f| !f.is_empty()).collect();
        let mut hot: Vec<char> = frags.iter().flatten().cloned().filter(|c| c.is_alphabetic()).collect();
        if hot.is_empty() {
            hot = ('A'..='Z').collect();
        }
        let names = NAMES.split_whitespace().map(|n| n.replace('_', " ").chars().collect()).collect();
        Gen { rng: Rng::new(seed), frags, hot, names, no_sigma: false, odd_pct: 25 }
    }

    fn letter(&mut self) -> char {
        match self.rng.below(3) {
            0 => *self.rng.pick(&self.hot),
            1 => (b'A' + self.rng.below(26) as u8) as char,
            _ => *self.rng.pick(&['A', 'E', 'I', 'O', 'U', 'Y', 'H', 'S', 'C', 'N']),
        }
    }

    fn core(&mut self) -> Vec<char> {
        let mut w: Vec<char> = vec![];
        match self.rng.below(100) {
            0..=37 if !self.frags.is_empty() => {
                // Literals of the rules with a little glue.
                if self.rng.pct(40) {
                    for _ in 0..self.rng.range(1, 3) {
                        let c = self.letter();
                        w.push(c);
                    }
                }
                for _ in 0..self.rng.range(1, 4) {
                    let f = self.rng.below(self.frags.len());
                    let mut f = self.frags[f].clone();
                    // A literal with its last or first character changed.
                    match self.rng.below(12) {
                        0 => {
                            f.pop();
                        }
                        1 => {
                            f.remove(0);
                        }
                        2 => {
                            let i = self.rng.below(f.len());
                            f[i] = self.letter();
                        }
                        _ => (),
                    }
                    w.extend(f);
                    if self.rng.pct(45) {
                        let c = self.letter();
                        w.push(c);
                    }
                }
            }
            0..=49 => {
                for _ in 0..self.rng.range(0, 6) {
                    let c = *self.rng.pick(&self.hot);
                    w.push(c);
                }
            }
            50..=61 => {
                for _ in 0..self.rng.range(1, 14) {
                    let c = (b'A' + self.rng.below(26) as u8) as char;
                    w.push(c);
                }
            }
            62..=74 => {
                // Syllables, with doubled letters.
                for _ in 0..self.rng.range(1, 5) {
                    if self.rng.pct(85) {
                        let c = self.letter();
                        w.push(c);
                        if self.rng.pct(20) {
                            w.push(c);
                        }
                    }
                    let v = *self.rng.pick(&['A', 'E', 'I', 'O', 'U', 'Y']);
                    w.push(v);
                    if self.rng.pct(12) {
                        w.push(v);
                    }
                }
            }
            75..=89 => {
                let i = self.rng.below(self.names.len());
                w = self.names[i].clone();
                for _ in 0..self.rng.below(3) {
                    let i = self.rng.below(w.len().max(1));
                    match self.rng.below(4) {
                        0 if w.len() > 1 => {
                            w.remove(i);
                        }
                        1 => {
                            let c = self.letter();
                            w.insert(i.min(w.len()), c);
                        }
                        2 if i < w.len() => w[i] = self.letter(),
                        _ if i + 1 < w.len() => w.swap(i, i + 1),
                        _ => (),
                    }
                }
            }
            90..=91 if !self.frags.is_empty() => {
                // A literal of the rules, not quite and then in full, or the other way round.
                let f = self.rng.below(self.frags.len());
                let f = self.frags[f].clone();
                let mut g = f.clone();
                match self.rng.below(3) {
                    0 => {
                        g.pop();
                    }
                    1 => {
                        g.remove(0);
                    }
                    _ => {
                        let i = self.rng.below(g.len());
                        g[i] = self.letter();
                    }
                }
                let first = self.rng.pct(60);
                w.extend(if first { &g } else { &f });
                for _ in 0..self.rng.below(3) {
                    let c = self.letter();
                    w.push(c);
                }
                w.extend(if first { f } else { g });
                for _ in 0..self.rng.below(3) {
                    let c = self.letter();
                    w.push(c);
                }
            }
            90..=93 => {
                let a = self.core_short();
                for _ in 0..self.rng.range(2, 6) {
                    w.extend(a.clone());
                }
            }
            _ => {
                let n = self.rng.range(15, 60);
                while w.len() < n {
                    let a = self.core_short();
                    w.extend(a);
                }
            }
        }
        w
    }
    fn core_short(&mut self) -> Vec<char> {
        if !self.frags.is_empty() && self.rng.pct(60) {
            let f = self.rng.below(self.frags.len());
            self.frags[f].clone()
        } else {
            (0..self.rng.range(1, 4)).map(|_| self.letter()).collect()
        }
    }

    pub fn odd(&mut self) -> char {
        loop {
            let c = if self.rng.pct(92) {
                *self.rng.pick(ODD)
            } else {
                let hi = *self.rng.pick(&[0x180u32, 0x600, 0x3000, 0x1_0000, 0x2_0000, 0x11_0000]);
                match char::from_u32((self.rng.next() % hi as u64) as u32) {
                    Some(c) => c,
                    None => continue,
                }
            };
            if self.no_sigma && (c == 'Σ' || c == 'σ' || c == 'ς') {
                continue;
            }
            return c;
        }
    }

    pub fn recase(&mut self, w: &mut [char]) {
        let mode = self.rng.below(5);
        for (i, c) in w.iter_mut().enumerate() {
            let up = match mode {
                0 | 1 => true,
                2 => false,
                3 => i == 0,
                _ => self.rng.pct(50),
            };
            *c = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        }
    }

    pub fn word(&mut self) -> String {
        let mut w = self.core();
        // Joined words: a short piece after a mark, or before one.
        if self.rng.pct(9) {
            let mark = *self.rng.pick(&['\'', '\'', '-', ' ', '.', '&', ',', '\u{2019}']);
            let bit: Vec<char> = if self.rng.pct(70) {
                (0..self.rng.range(1, 2)).map(|_| self.letter()).collect()
            } else {
                self.core_short()
            };
            if self.rng.pct(60) {
                w.push(mark);
                w.extend(bit);
            } else {
                let mut v = bit;
                v.push(mark);
                v.extend(w);
                w = v;
            }
        }
        self.recase(&mut w);
        if self.rng.pct(self.odd_pct) {
            for _ in 0..*self.rng.pick(&[1, 1, 1, 2, 2, 3, 5]) {
                let c = self.odd();
                let i = self.rng.below(w.len() + 1);
                if i < w.len() && self.rng.pct(40) {
                    w[i] = c;
                } else {
                    w.insert(i, c);
                }
            }
        }
        if self.rng.pct(3) {
            let c = self.odd();
            if self.rng.pct(50) {
                w.insert(0, c);
            } else {
                w.push(c);
            }
        }
        w.into_iter().collect()
    }

    /// Any text at all.
    pub fn wild(&mut self, long: usize) -> String {
        match self.rng.below(40) {
            0 => String::new(),
            1 => (0..self.rng.range(1, 5)).map(|_| *self.rng.pick(&[' ', '\t', '\n', '\u{a0}', '\u{3000}', '\'', '-'])).collect(),
            2..=7 => (0..self.rng.range(1, 8)).map(|_| self.odd()).collect(),
            8..=9 => {
                let w = self.word();
                let c = self.odd();
                format!("{w}{c}")
            }
            10..=11 => {
                let w = self.word();
                let c = self.odd();
                format!("{c}{w}")
            }
            12 if self.rng.pct(15) => {
                // A very long text.
                let n = self.rng.range(long / 10, long);
                let mut w = String::new();
                let one = if self.rng.pct(50) { self.word() } else { String::new() };
                while w.len() < n {
                    if one.is_empty() {
                        w += &self.word();
                        w.push('a');
                    } else {
                        w += &one;
                    }
                }
                w.chars().take(n).collect()
            }
            13..=20 => {
                // A literal of the rules where multi-byte characters surround or split it.
                let mut w = self.core_short();
                for _ in 0..self.rng.range(1, 4) {
                    let c = self.odd();
                    let i = self.rng.below(w.len() + 1);
                    w.insert(i, c);
                }
                self.recase(&mut w);
                w.into_iter().collect()
            }
            _ => self.word(),
        }
    }

    /// A long text: one piece over and over, or many, with lengths around those where counters end.
    pub fn big(&mut self) -> String {
        let n = match self.rng.below(4) {
            0 => self.rng.range(30, 140),
            1 => *self.rng.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300]),
            2 => self.rng.range(140, 400),
            _ => self.rng.range(240, 280),
        };
        let style = self.rng.below(4);
        let one: Vec<char> = self.core_short();
        let mut w: Vec<char> = vec![];
        while w.len() < n {
            match style {
                0 => w.extend(&one),
                1 => {
                    let a = self.core_short();
                    w.extend(a);
                }
                2 => {
                    let a = self.core();
                    w.extend(a);
                    if self.rng.pct(30) {
                        w.push(' ');
                    }
                }
                _ => {
                    // Letters that some algorithms write nothing for.
                    let c = *self.rng.pick(&['h', 'w', 'a', 'e', 'y', '.', 'h', 'w']);
                    for _ in 0..self.rng.range(1, 120) {
                        w.push(c);
                    }
                    let a = self.core_short();
                    w.extend(a);
                }
            }
        }
        if self.rng.pct(60) {
            w.truncate(n);
        }
        self.recase(&mut w);
        if self.rng.pct(30) {
            for _ in 0..self.rng.range(1, 5) {
                let c = self.odd();
                let i = self.rng.below(w.len());
                w[i] = c;
            }
        }
        w.into_iter().collect()
    }

    /// A text close to s.
    pub fn near(&mut self, s: &str) -> String {
        let mut w: Vec<char> = s.chars().collect();
        match self.rng.below(10) {
            0 => return s.to_string(),
            1 => return s.to_ascii_uppercase(),
            2 => return s.to_ascii_lowercase(),
            3 => return self.word(),
            _ => (),
        }
        for _ in 0..self.rng.range(1, 3) {
            let i = self.rng.below(w.len() + 1);
            match self.rng.below(6) {
                0 if i < w.len() => {
                    w.remove(i);
                }
                1 => {
                    let c = self.letter();
                    w.insert(i, c);
                }
                2 if i < w.len() => w[i] = self.letter(),
                3 if i + 1 < w.len() => w.swap(i, i + 1),
                4 if i < w.len() => {
                    let c = w[i];
                    w.insert(i, c);
                }
                5 if self.rng.pct(30) => {
                    let c = self.odd();
                    w.insert(i, c);
                }
                _ => {
                    let c = *self.rng.pick(&['A', 'E', 'H', 'W', 'S', ' ', '-']);
                    w.insert(i, c);
                }
            }
        }
        w.into_iter().collect()
    }

    fn max(&mut self) -> i64 {
        *self.rng.pick(&[-1, -1, -1, -1, 4, 4, 4, 0, 1, 2, 3, 5, 6, 7, 8, 10, 12, 20, 100])
    }

    pub fn map26(&mut self) -> Value {
        let style = self.rng.below(6);
        let dflt: Vec<char> = "01230120022455012623010202".chars().collect();
        let m: Vec<u32> = (0..26)
            .map(|i| {
                (match style {
                    0 => *self.rng.pick(&['0', '1', '2', '-']),
                    1 => *self.rng.pick(&['0', '1', '2', '3', '4', '5', '6']),
                    2 => {
                        if self.rng.pct(15) {
                            '-'
                        } else {
                            dflt[i]
                        }
                    }
                    3 => *self.rng.pick(&['a', '0', 'é', '-', '1', 'Z', '😀']),
                    4 => {
                        if self.rng.pct(10) {
                            *self.rng.pick(&['0', '1', '2', '3', '4', '5', '6'])
                        } else {
                            dflt[i]
                        }
                    }
                    _ => *self.rng.pick(&['1', '2', '0']),
                }) as u32
            })
            .collect();
        json!(m)
    }
    fn dash(m: &Value) -> bool {
        m.as_array().unwrap().iter().any(|c| c == 45)
    }

    /// The configuration of an encoder of algorithm alg.
    pub fn enc(&mut self, alg: &str, cfgs: &CfgInfo) -> Value {
        let dflt = self.rng.pct(15);
        match alg {
            "sdx" => {
                let m = self.map26();
                let hw = !Self::dash(&m);
                match self.rng.below(10) {
                    0 | 1 => json!({"alg":"sdx","how":"default","map":cps("01230120022455012623010202"),"hw":true}),
                    2 => json!({"alg":"sdx","how":"const","map":cps("01230120022455012623010202"),"hw":self.rng.pct(50)}),
                    3 => json!({"alg":"sdx","how":"genealogy","map":cps("-123-12--22455-12623-1-2-2"),"hw":false}),
                    4 => json!({"alg":"sdx","how":"arr","map":m,"hw":hw}),
                    5 => json!({"alg":"sdx","how":"str","map":m,"hw":hw}),
                    6 => json!({"alg":"sdx","how":"tryfrom","map":m,"hw":hw}),
                    7 => json!({"alg":"sdx","how":"string","map":m,"hw":hw}),
                    _ => json!({"alg":"sdx","how":"new","map":m,"hw":self.rng.pct(50)}),
                }
            }
            "rsx" => {
                let m = self.map26();
                match self.rng.below(7) {
                    0..=2 => json!({"alg":"rsx","how":"default","map":cps("01360240043788015936020505")}),
                    k => json!({"alg":"rsx","how":(["new","str","tryfrom","string"][k-3]),"map":m}),
                }
            }
            "col" | "cav1" | "cav2" | "mra" => json!({"alg":alg,"how":"new"}),
            "met" | "dmp" => {
                if dflt {
                    json!({"alg":alg,"how":"default","max":4})
                } else {
                    json!({"alg":alg,"how":"new","max":self.max()})
                }
            }
            "nys" => {
                if dflt {
                    json!({"alg":"nys","how":"default","strict":true})
                } else {
                    json!({"alg":"nys","how":"new","strict":self.rng.pct(30)})
                }
            }
            "phx" => {
                if dflt {
                    json!({"alg":"phx","how":"default","max":4})
                } else {
                    json!({"alg":"phx","how":"new","max":*self.rng.pick(&[0,1,2,3,4,4,5,6,8,12,30])})
                }
            }
            "dms" => {
                if dflt || cfgs.dms == 0 && self.rng.pct(50) {
                    json!({"alg":"dms","how":"default","cfg":0,"fold":true})
                } else {
                    json!({"alg":"dms","how":"new","cfg":self.rng.below(cfgs.dms + 1),"fold":self.rng.pct(60)})
                }
            }
            "bm" => {
                let nt = *self.rng.pick(&["ash", "gen", "gen", "sep"]);
                let rt = *self.rng.pick(&["approx", "approx", "exact"]);
                let max = *self.rng.pick(&[20, 20, 20, 1, 2, 3, 5, 10, 40]);
                if dflt {
                    json!({"alg":"bm","how":"default","cfg":self.rng.below(cfgs.bm + 1),"nt":"gen","rt":"approx","concat":true,"max":20})
                } else {
                    json!({"alg":"bm","how":"new","cfg":self.rng.below(cfgs.bm + 1),"nt":nt,"rt":rt,"concat":self.rng.pct(60),"max":max})
                }
            }
            a => panic!("{a}"),
        }
    }
}

/// How many custom configurations there are.
#[derive(Default, Clone, Copy)]
pub struct CfgInfo {
    pub dms: usize,
    pub bm: usize,
}

/// All words of length n over letters.
pub fn all_words(letters: &[char], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..n {
        v = v.iter().flat_map(|w| letters.iter().map(move |c| format!("{w}{c}"))).collect();
    }
    v
}

pub type Frags = HashMap<String, Vec<String>>;

fn gen_for(alg: &str, seed: u64, frags: &Frags) -> Gen {
    let mut g = Gen::new(seed, frags.get(alg).map(|v| v.as_slice()).unwrap_or(&[]));
    g.no_sigma = alg == "bm";
    g
}

/// The call that shows the code of a text.
fn coded(alg: &str, e: &Value, w: &str) -> Value {
    match alg {
        "dmp" => json!({"op":"dmpx","enc":e,"in":cps(w)}),
        "dms" => json!({"op":"dmsx","enc":e,"in":cps(w)}),
        "bm" => json!({"op":"bmx","enc":e,"in":cps(w),"langs":{"k":"guess","s":[]}}),
        _ => json!({"op":"enc","enc":e,"in":cps(w)}),
    }
}

pub const SIMPLE: &[&str] = &["sdx", "rsx", "col", "cav1", "cav2", "met", "dmp", "nys", "phx", "mra"];

/// The cases of a stream.
pub fn cases(stream: &str, n: usize, seed: u64, frags: &Frags, cfgs: &CfgInfo) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    let letters: Vec<char> = ('A'..='Z').collect();
    let ps: Vec<&str> = stream.split(':').collect();
    match ps[0] {
        // words:<alg> encoding of words
        "words" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            for _ in 0..n {
                let e = g.enc(alg, cfgs);
                let w = g.word();
                out.push(coded(alg, &e, &w));
            }
        }
        // big:<alg> encoding of long texts
        "big" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            for _ in 0..n {
                let e = g.enc(alg, cfgs);
                let w = g.big();
                out.push(coded(alg, &e, &w));
            }
        }
        // short:<alg> all words of at most 3 letters, with the default or the widest configuration
        "short" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            let e = match alg {
                "sdx" => json!({"alg":"sdx","how":"default","map":cps("01230120022455012623010202"),"hw":true}),
                "rsx" => json!({"alg":"rsx","how":"default","map":cps("01360240043788015936020505")}),
                "met" | "dmp" => json!({"alg":alg,"how":"new","max":-1}),
                "nys" => json!({"alg":"nys","how":"new","strict":false}),
                "phx" => json!({"alg":"phx","how":"default","max":4}),
                "dms" => json!({"alg":"dms","how":"default","cfg":0,"fold":true}),
                "bm" => json!({"alg":"bm","how":"default","cfg":0,"nt":"gen","rt":"approx","concat":true,"max":20}),
                _ => g.enc(alg, cfgs),
            };
            let mut ws: Vec<String> = vec![];
            for k in 0..=3 {
                ws.extend(all_words(&letters, k));
            }
            if ws.len() > n {
                // A sample of the three letter words.
                let keep: Vec<String> = ws.iter().filter(|w| w.len() < 3).cloned().collect();
                let long: Vec<String> = ws.into_iter().filter(|w| w.len() == 3).collect();
                ws = keep;
                while ws.len() < n {
                    ws.push(g.rng.pick(&long).clone());
                }
            }
            for w in ws {
                out.push(coded(alg, &e, &w));
            }
        }
        // affix:<alg>...: a short word with every pair of a letter and another ASCII character,
        // and every pair of letters, before, in and after it; caseaffix: as observations of "case"
        "affix" | "caseaffix" => {
            let case = ps[0] == "caseaffix";
            for (k, alg) in ps[1..].iter().enumerate() {
                let mut g = gen_for(alg, seed + k as u64 * 173, frags);
                let signs: Vec<char> = (32u8..127).map(|b| b as char).filter(|c| !c.is_ascii_alphabetic()).chain(['\t', '\n']).collect();
                let mut pairs: Vec<String> = vec![];
                for x in &letters {
                    for y in &signs {
                        pairs.push(format!("{x}{y}"));
                        pairs.push(format!("{y}{x}"));
                    }
                    for y in &letters {
                        pairs.push(format!("{x}{y}"));
                    }
                }
                let mut ws: Vec<String> = vec![];
                for p in &pairs {
                    for at in 0..3 {
                        let c = |g: &mut Gen| *g.rng.pick(&letters);
                        let v = |g: &mut Gen| *g.rng.pick(&['A', 'E', 'I', 'O', 'U', 'Y']);
                        let (a, b, d) = (c(&mut g), v(&mut g), c(&mut g));
                        ws.push(match at {
                            0 => format!("{p}{b}{d}{b}"),
                            1 => format!("{a}{b}{p}"),
                            _ => format!("{a}{b}{p}{b}"),
                        });
                    }
                }
                while ws.len() > n {
                    let i = g.rng.below(ws.len());
                    ws.swap_remove(i);
                }
                for w in ws {
                    let e = g.enc(alg, cfgs);
                    if case {
                        let vs = [w.clone(), w.to_ascii_lowercase()];
                        let b = g.near(&w);
                        out.push(json!({"op":"casx","enc":e,"ins":vs.iter().map(|v| cps(v)).collect::<Vec<Value>>(),"b":cps(&b)}));
                    } else {
                        let mut m: Vec<char> = w.chars().collect();
                        g.recase(&mut m);
                        let w: String = m.into_iter().collect();
                        out.push(coded(alg, &e, &w));
                    }
                }
            }
        }
        // frags:<alg> every literal of the rules at the start and at the end, next to every
        // letter; then pairs of literals
        "frags" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            let fs: Vec<String> = g.frags.iter().map(|f| f.iter().collect()).collect();
            let mut near = vec![String::new()];
            near.extend(letters.iter().map(|c| c.to_string()));
            let mut ws: Vec<String> = vec![];
            for f in &fs {
                for c in &near {
                    let (a, b) = (g.rng.pick(&near).clone(), g.rng.pick(&near).clone());
                    ws.push(format!("{c}{f}{a}{b}"));
                    let v = *g.rng.pick(&["", "A", "E", "I", "O", "U", "M", "B"]);
                    ws.push(format!("{v}{a}{f}{c}"));
                }
            }
            // Not more than half of them.
            while ws.len() > n / 2 {
                let i = g.rng.below(ws.len());
                ws.swap_remove(i);
            }
            while ws.len() < n && !fs.is_empty() {
                let (x, y) = (g.rng.pick(&fs).clone(), g.rng.pick(&fs).clone());
                let mut bit = |pct| if g.rng.pct(pct) { g.rng.pick(&letters).to_string() } else { String::new() };
                let (a, b, c) = (bit(25), bit(15), bit(50));
                ws.push(format!("{a}{x}{b}{y}{c}"));
            }
            for w in ws {
                let e = g.enc(alg, cfgs);
                let mut m: Vec<char> = w.chars().collect();
                g.recase(&mut m);
                let w: String = m.into_iter().collect();
                out.push(coded(alg, &e, &w));
            }
        }
        "ctor" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            for _ in 0..n {
                let mut s: Vec<char> = crate::exec::text(&g.map26()).chars().collect();
                match g.rng.below(6) {
                    0 | 1 => (),
                    2 => {
                        s.pop();
                    }
                    3 => {
                        let c = g.odd();
                        s.push(c);
                    }
                    4 => {
                        let k = g.rng.below(60);
                        s = (0..k).map(|_| if g.rng.pct(80) { '1' } else { g.odd() }).collect();
                    }
                    _ => {
                        let i = g.rng.below(26);
                        s[i] = g.odd();
                    }
                }
                let s: String = s.into_iter().collect();
                let how = *g.rng.pick(&["str", "tryfrom", "string"]);
                let w = g.word();
                out.push(json!({"op":"ctor","alg":alg,"how":how,"s":cps(&s),"in":cps(&w)}));
            }
        }
        // limits:<alg>...: the same text with several maximum lengths
        "limits" => {
            let mut gs: Vec<Gen> = ps[1..].iter().enumerate().map(|(i, a)| gen_for(a, seed + i as u64 * 97, frags)).collect();
            for i in 0..n {
                let k = i % gs.len();
                let alg = ps[1 + k];
                let g = &mut gs[k];
                let w = g.word();
                let ns: Vec<usize> = match alg {
                    "nys" => vec![6],
                    _ => {
                        let big = *g.rng.pick(&[7, 9, 12, 15, 20, 39]);
                        let mut v = vec![0, 1, 2, 3, 4, 5, 6, big];
                        // Not every length every time, and not always in order.
                        for _ in 0..3 {
                            let j = g.rng.below(v.len());
                            v.swap_remove(j);
                        }
                        v
                    }
                };
                out.push(json!({"op":"limx","alg":alg,"in":cps(&w),"ns":ns}));
            }
        }
        // eq:<alg>...: equality of codes of close texts
        "eq" => {
            let mut gs: Vec<Gen> = ps[1..].iter().enumerate().map(|(i, a)| gen_for(a, seed + i as u64 * 101, frags)).collect();
            for i in 0..n {
                let k = i % gs.len();
                let alg = ps[1 + k];
                let g = &mut gs[k];
                let e = g.enc(alg, cfgs);
                let a = g.word();
                let b = g.near(&a);
                out.push(json!({"op":"eqx","enc":e,"a":cps(&a),"b":cps(&b)}));
            }
        }
        // mreq: pairs of texts for the match rating comparison
        "mreq" => {
            let mut g = gen_for("mra", seed, frags);
            g.odd_pct = 12;
            for _ in 0..n {
                let a = g.word();
                let b = if g.rng.pct(80) { g.near(&a) } else { g.word() };
                out.push(json!({"op":"eq","enc":{"alg":"mra","how":"new"},"a":cps(&a),"b":cps(&b)}));
            }
        }
        // case variants of the same text
        "case" => {
            let mut gs: Vec<Gen> = ps[1..].iter().enumerate().map(|(i, a)| gen_for(a, seed + i as u64 * 131, frags)).collect();
            let mut i = 0;
            while out.len() < n {
                let k = i % gs.len();
                i += 1;
                let alg = ps[1 + k];
                let g = &mut gs[k];
                let e = g.enc(alg, cfgs);
                let w = g.word();
                let mut vs = vec![w.to_ascii_uppercase(), w.to_ascii_lowercase()];
                let mut m: Vec<char> = w.chars().collect();
                for c in m.iter_mut() {
                    *c = if g.rng.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                }
                vs.push(m.into_iter().collect());
                let b = if g.rng.pct(25) { g.word() } else { g.near(&w) };
                out.push(json!({"op":"casx","enc":e,"ins":vs.iter().map(|v| cps(v)).collect::<Vec<Value>>(),"b":cps(&b)}));
            }
        }
        // total:<alg>...: calls of every kind with texts of every kind
        "total" => {
            let mut gs: Vec<Gen> = ps[1..].iter().enumerate().map(|(i, a)| gen_for(a, seed + i as u64 * 151, frags)).collect();
            for i in 0..n {
                let k = i % gs.len();
                let alg = ps[1 + k];
                let g = &mut gs[k];
                let e = g.enc(alg, cfgs);
                let w = g.wild(if alg == "bm" { 60 } else { 3000 });
                let pair = g.rng.pct(35);
                let b = if g.rng.pct(60) { g.near(&w) } else { g.wild(if alg == "bm" { 20 } else { 200 }) };
                out.push(match (alg, pair, g.rng.below(4)) {
                    ("sdx" | "rsx", true, 0) => json!({"op":"dif","enc":e,"a":cps(&w),"b":cps(&b)}),
                    ("dmp", true, 0) => json!({"op":"dmpeq","enc":e,"a":cps(&w),"b":cps(&b),"alt":g.rng.pct(50)}),
                    (_, true, _) => json!({"op":"eq","enc":e,"a":cps(&w),"b":cps(&b)}),
                    ("dmp", _, _) => json!({"op":"dmpx","enc":e,"in":cps(&w)}),
                    ("dms", _, _) => json!({"op":"dmsx","enc":e,"in":cps(&w)}),
                    ("bm", _, 0) => {
                        let k = *g.rng.pick(&["any", "none", "some"]);
                        let s: Vec<&str> = if k == "some" { g.rng.pick(&[vec![], vec!["english", "klingon"], vec!["any"], vec!["french", "any"]]).to_vec() } else { vec![] };
                        json!({"op":"bmx","enc":e,"in":cps(&w),"langs":{"k":k,"s":s.iter().map(|x| cps(x)).collect::<Vec<Value>>()}})
                    }
                    ("bm", _, _) => json!({"op":"bmx","enc":e,"in":cps(&w),"langs":{"k":"guess","s":[]}}),
                    _ => json!({"op":"enc","enc":e,"in":cps(&w)}),
                });
            }
        }
        // long:<alg>: n characters or more
        "long" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            let e0 = match alg {
                "met" | "dmp" => json!({"alg":alg,"how":"new","max":-1}),
                "nys" => json!({"alg":"nys","how":"new","strict":false}),
                _ => g.enc(alg, cfgs),
            };
            let one = g.word();
            let texts: Vec<String> = vec![
                "a".repeat(n),
                "b".repeat(n),
                "ÿ".repeat(n),
                " ".repeat(n),
                format!("{}b", "é".repeat(n)),
                "chmn".repeat(n / 4 + 1),
                one.repeat(n / one.len().max(1) + 1),
                {
                    let mut w = String::new();
                    while w.chars().count() < n {
                        for _ in 0..50 {
                            w += &g.word();
                            w.push('e');
                        }
                    }
                    w
                },
            ];
            for t in texts {
                let e = if g.rng.pct(50) { g.enc(alg, cfgs) } else { e0.clone() };
                out.push(json!({"op":"enc","enc":e,"in":cps(&t)}));
                out.push(json!({"op":"eq","enc":e,"a":cps(&t),"b":cps(&one)}));
            }
        }
        // few:<alg>: all texts of at most 3 characters over letters and troublesome characters
        "few" => {
            let alg = ps[1];
            let mut g = gen_for(alg, seed, frags);
            let pool: Vec<char> = "ACDEGHKMNPSTWXYZac 'é-ßÇİﬃŉ日😀ΐ1\u{301}ẞ".chars().collect();
            let mut ws: Vec<String> = (0..=3).flat_map(|k| all_words(&pool, k)).collect();
            while ws.len() > n {
                let i = g.rng.below(ws.len());
                ws.swap_remove(i);
            }
            for w in ws {
                let e = g.enc(alg, cfgs);
                out.push(coded(alg, &e, &w));
            }
        }
        "chs" => {
            let mut g = Gen::new(seed, &[]);
            g.odd_pct = 100;
            for _ in 0..n {
                let len = g.rng.below(9);
                let s: String = (0..len).map(|_| if g.rng.pct(60) { g.odd() } else { g.letter() }).collect();
                let mut lo = g.rng.below(len + 3);
                let mut hi = g.rng.below(len + 4);
                if g.rng.pct(6) {
                    lo = 2000000000 - g.rng.below(2);
                }
                if g.rng.pct(8) {
                    hi = 2000000000 - g.rng.below(2);
                }
                let kind = *g.rng.pick(&["range", "range", "incl", "from", "to", "toincl", "full"]);
                out.push(json!({"op":"chs","s":cps(&s),"lo":lo,"hi":hi,"kind":kind}));
            }
        }
        "lset" => {
            let mut g = Gen::new(seed, &[]);
            let pool = ["english", "french", "german", "any", "", "polish", "éa", "zulu", "English", "fr"];
            for _ in 0..n {
                let mut one = || {
                    let k = *g.rng.pick(&["any", "none", "some", "some", "some", "from", "vec"]);
                    let m = g.rng.below(5);
                    let mut s: Vec<&str> = if k == "any" || k == "none" { vec![] } else { (0..m).map(|_| *g.rng.pick(&pool)).collect() };
                    if k != "vec" {
                        s.sort();
                        s.dedup();
                    }
                    json!({"k":k,"s":s.iter().map(|x| cps(x)).collect::<Vec<Value>>()})
                };
                let a = one();
                let b = one();
                out.push(json!({"op":"lset","a":a,"b":b}));
            }
        }
        s => panic!("stream {s}"),
    }
    out
}
