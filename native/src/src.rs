//! A labelled source of inputs: every value a case uses is drawn here, so that the log of the draws is a replayable
//! input, and so that values of a verifier's counterexample can be injected by label.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub type Log = Arc<Mutex<Vec<(String, String)>>>;

pub struct Src {
    s: u64,
    pub over: HashMap<String, String>,
    pub force: bool,
    pub exact: bool,
    pub pover: u32, // percent of the overrides that are used
    pub log: Log,
    pub fdict: Arc<Vec<f32>>,
    pub idict: Arc<Vec<i64>>,
    pub nontrivial: bool,
    pub scale: bool, // whether the case may be a large one
    pub big: bool,   // whether it is
    used: HashMap<String, u32>,
    suffix: String,
}

impl Src {
    pub fn new(seed: u64, log: Log, fdict: Arc<Vec<f32>>, idict: Arc<Vec<i64>>) -> Self {
        let mut x = Src { s: seed ^ 0x9E37_79B9_7F4A_7C15, over: HashMap::new(), force: false, exact: false, pover: 80, log, fdict, idict, nontrivial: true, used: HashMap::new(), suffix: String::new(), scale: false, big: false };
        for _ in 0..8 { x.next(); }
        x
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    fn take(&mut self, label: &str) -> Option<String> {
        // a label that is drawn again gets a number, so that the log can be replayed
        let k = { let k = self.used.entry(label.to_string()).or_insert(0); *k += 1; *k };
        self.suffix = if k > 1 { format!("#{}", k) } else { String::new() };
        let v = match self.over.get(&format!("{}{}", label, self.suffix)) { Some(v) => v.clone(), None if self.exact => return None, None => self.over.get(label)?.clone() };
        if self.force || self.below(100) < self.pover as u64 { Some(v) } else { None }
    }
    fn note(&mut self, label: &str, sf: String, v: String) { self.log.lock().unwrap().push((format!("{}{}", label, sf), v)); }
    pub fn f32_with(&mut self, label: &str, g: impl FnOnce(&mut Src) -> f32) -> f32 {
        let t = self.take(label); let sf = self.suffix.clone();
        let v = match t.and_then(|t| parse_f32(&t)) { Some(x) => x, None => g(self) };
        self.note(label, sf, format!("{:08x} {:?}", v.to_bits(), v));
        v
    }
    pub fn int_with(&mut self, label: &str, g: impl FnOnce(&mut Src) -> i64) -> i64 {
        let t = self.take(label); let sf = self.suffix.clone();
        let v = match t.and_then(|t| t.split(' ').next().unwrap().parse::<i64>().ok()) { Some(x) => x, None => g(self) };
        self.note(label, sf, format!("{}", v));
        v
    }
    pub fn str_with(&mut self, label: &str, g: impl FnOnce(&mut Src) -> String) -> String {
        let t = self.take(label); let sf = self.suffix.clone();
        let v = match t { Some(t) => unhex(&t), None => g(self) };
        self.note(label, sf, tohex(&v));
        v
    }
    pub fn pick(&mut self, label: &str, n: i64) -> i64 {
        let v = self.int_with(label, |s| s.below(n as u64) as i64);
        if v < 0 || v >= n { v.rem_euclid(n) } else { v }
    }
    /// Whether this is to be a large case.
    pub fn large(&mut self) -> bool {
        let on = self.scale;
        let v = self.int_with("scale", |_| on as i64);
        self.big = v == 1;
        self.big
    }
    /// A size up to hi that is not small: around a constant of the crate, around a power of two, or anything.
    pub fn big_size(&mut self, hi: i64) -> i64 {
        let d: Vec<i64> = self.idict.iter().cloned().filter(|v| *v > 32 && *v < hi).collect();
        let v = match self.below(4) {
            0 | 1 if !d.is_empty() => { let k = self.below(d.len() as u64) as usize; d[k] + self.below(4) as i64 }
            2 => { let b = 63 - hi.leading_zeros() as u64; (1i64 << (5 + self.below(b.max(6) - 5))) + self.below(3) as i64 }
            3 => hi,
            _ => { let b = 64 - hi.leading_zeros() as u64; let k = 4 + self.below(b.max(6) - 4); self.below(1 << k) as i64 }
        };
        v.max(0).min(hi)
    }
    /// A source for what need not be logged: it depends on the seed only, which is.
    pub fn filler(&mut self, label: &str) -> Src {
        let seed = self.int_with(label, |s| s.next() as i64) as u64;
        Src::new(seed, Default::default(), self.fdict.clone(), self.idict.clone())
    }
    pub fn bool(&mut self, label: &str) -> bool { self.pick(label, 2) == 1 }
    pub fn dim(&mut self) -> usize { if self.pick("dim", 2) == 0 { 2 } else { 3 } }
    /// An integer in [lo, hi], small values and borders preferred.
    pub fn int(&mut self, label: &str, lo: i64, hi: i64) -> i64 {
        let d = self.idict.clone();
        let v = self.int_with(label, |s| {
            let r = match s.below(12) {
                0..=4 => s.below(9) as i64 - 4,
                5 | 6 => s.below(41) as i64 - 20,
                7 => { let k = s.below(62); (s.below(1 << k) as i64) * if s.below(2) == 0 { 1 } else { -1 } }
                8 => lo.saturating_add(s.below(4) as i64),
                9 => hi.saturating_sub(s.below(4) as i64),
                10 if !d.is_empty() => { let k = s.below(d.len() as u64) as usize; d[k].saturating_add(s.below(3) as i64 - 1) }
                _ => { let w = (hi as i128 - lo as i128 + 1) as u128; (lo as i128 + (s.next() as u128 % w) as i128) as i64 }
            };
            if r < lo || r > hi { let w = hi as i128 - lo as i128 + 1; (lo as i128 + (r as i128 - lo as i128).rem_euclid(w)) as i64 } else { r }
        });
        v.max(lo).min(hi)
    }
    pub fn wild_f32(&mut self) -> f32 {
        let d = self.fdict.clone();
        let v: f32 = match self.below(16) {
            0 => 0.0,
            1 => self.below(9) as f32 - 4.0,
            2 => (self.below(33) as f32 - 16.0) * 0.5,
            3 => (self.below(201) as f32 - 100.0) * 0.1,
            4..=6 => (self.unit() * 20.0 - 10.0) as f32,
            7 => (self.unit() * 2000.0 - 1000.0) as f32,
            8 => f32::from_bits(self.next() as u32),
            9 => *[1e-30f32, 1e30, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, -0.0, 1.0 + f32::EPSILON].get(self.below(8) as usize).unwrap(),
            10 | 11 if !d.is_empty() => { let k = self.below(d.len() as u64) as usize; d[k] }
            12 => 0.5f32.powi(self.below(30) as i32 - 10),
            _ => (self.unit() * 4.0 - 2.0) as f32,
        };
        let v = if self.below(5) == 0 { -v } else { v };
        match self.below(12) { 0 => up(v), 1 => down(v), _ => v }
    }
    /// Not a NaN.
    pub fn coord(&mut self, label: &str) -> f32 {
        self.f32_with(label, |s| loop { let v = s.wild_f32(); if !v.is_nan() { return v; } })
    }
    /// Finite and at most lim in magnitude.
    pub fn coord_lim(&mut self, label: &str, lim: f32) -> f32 {
        let v = self.f32_with(label, |s| loop { let v = s.wild_f32(); if v.abs() <= lim { return v; } });
        if v.abs() <= lim { v } else { 0.0 }
    }
    pub fn resolution(&mut self, label: &str) -> f32 {
        let d = self.fdict.clone();
        let v = self.f32_with(label, |s| match s.below(12) {
            0..=2 => 1.0,
            3 | 4 => 0.1,
            5 => 0.5,
            6 => 0.05,
            7 => *[0.2f32, 0.25, 0.3, 2.0, 0.01, 10.0, 0.001, 100.0].get(s.below(8) as usize).unwrap(),
            8 if !d.is_empty() => { let k = s.below(d.len() as u64) as usize; d[k] }
            _ => (s.unit() * 5.0 + 0.01) as f32,
        });
        if v.is_finite() && v >= 1e-3 && v <= 1e3 { v } else { 1.0 }
    }
    /// A coordinate related to the grid of the resolution: multiples, borders, near both, anything between; at most `cells`
    /// resolutions in magnitude.
    pub fn grid_coord(&mut self, label: &str, res: f32, cells: i64) -> f32 {
        let v = self.f32_with(label, |s| {
            let k = match s.below(6) {
                0..=2 => s.below(11) as i64 - 5,
                3 | 4 => s.below(2 * 30.min(cells as u64) + 1) as i64 - 30.min(cells),
                _ => s.below(2 * cells as u64 + 1) as i64 - cells,
            }.max(-cells).min(cells);
            let v = match s.below(8) {
                0 | 1 => k as f32 * res,
                2 | 3 => (k as f32 + 0.5) * res,
                4 | 5 => (k as f64 + s.unit() - 0.5) as f32 * res,
                6 => { let e = 0.5f64.powi(s.below(22) as i32 + 1); ((k as f64 + e) * res as f64) as f32 }
                _ => { let d = s.fdict.clone(); if d.is_empty() { k as f32 * res } else { let j = s.below(d.len() as u64) as usize; d[j] } }
            };
            match s.below(8) { 0 => up(v), 1 => down(v), _ => v }
        });
        if v.is_finite() && v.abs() <= cells as f32 * res { v } else { 0.0 }
    }
}

pub fn up(v: f32) -> f32 { if v.is_nan() || v == f32::INFINITY { v } else if v == 0.0 { f32::from_bits(1) } else if v > 0.0 { f32::from_bits(v.to_bits() + 1) } else { f32::from_bits(v.to_bits() - 1) } }
pub fn down(v: f32) -> f32 { -up(-v) }

pub fn parse_f32(t: &str) -> Option<f32> {
    let h = t.split(' ').next()?;
    if h.len() == 8 && h.bytes().all(|c| c.is_ascii_hexdigit()) && t.contains(' ') { return u32::from_str_radix(h, 16).ok().map(f32::from_bits); }
    match h { "nan" | "NaN" => Some(f32::NAN), "inf" => Some(f32::INFINITY), "-inf" => Some(f32::NEG_INFINITY), _ => h.parse::<f64>().ok().map(|x| x as f32) }
}
fn tohex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }
fn unhex(s: &str) -> String { String::from_utf8_lossy(&(0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect::<Vec<u8>>()).into_owned() }
