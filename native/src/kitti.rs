//! Oracles of C18-C21.
use crate::ck;
use crate::src::Src;
use crate::Case;
use kuba::*;
use nalgebra as na;
use std::io::Read;

/// An input that gives its bytes in pieces and fails after them if asked to.
struct Input { data: Vec<u8>, pos: usize, piece: usize, fail: bool }
impl Read for Input {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.data.len() && self.fail { return Err(std::io::Error::new(std::io::ErrorKind::PermissionDenied, "no")); }
        let n = self.piece.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn close(a: f32, w: f64, tol: f64) -> bool { if w.is_nan() { a.is_nan() } else if w.is_infinite() { a as f64 == w } else { (a as f64 - w).abs() <= tol * (1.0 + w.abs()) } }

fn c18(s: &mut Src) -> Result<(), String> {
    let p = { let v = s.f32_with("p", |s| match s.below(4) { 0 => (s.below(101)) as f32 * 0.01, 1 => s.wild_f32(), _ => s.unit() as f32 }); v };
    if p >= 0.0 && p <= 1.0 {
        let l = math::logodds_from_probability(p);
        let w = (p as f64 / (1.0 - p as f64)).ln();
        ck!(close(l, w, 1e-4), "the log-odds of {} is {}, not {}", p, l, w);
        if p > 0.0001 && p < 0.9999 { let b = math::probability_from_logodds(l); ck!((b as f64 - p as f64).abs() < 1e-5, "probability {} comes back as {}", p, b); }
    }
    ck!(math::logodds_from_probability(0.5) == 0.0 && math::probability_from_logodds(0.0) == 0.5, "one half is not log-odds zero");
    let x = s.coord("x");
    let b = math::probability_from_logodds(x);
    let w = 1.0 - 1.0 / (1.0 + (x as f64).exp());
    ck!(close(b, w, 1e-5), "the probability of log-odds {} is {}, not {}", x, b, w);
    let y = s.coord("y");
    let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
    ck!(math::probability_from_logodds(lo) as f64 <= math::probability_from_logodds(hi) as f64 + 1e-6, "the probability falls from {} to {}", lo, hi);
    let sg = |v: f32| if v > 0.0 { 1.0f32 } else if v < 0.0 { -1.0 } else { 0.0 };
    ck!(math::f32_signum(x) == sg(x), "the sign of {} is {}", x, math::f32_signum(x));
    let v3 = na::Vector3::new(s.coord("v.0"), s.coord("v.1"), s.coord("v.2"));
    let r = vector::signum::<na::U3>(&v3);
    for i in 0..3 { ck!(r[i] == sg(v3[i]), "the sign of {:?} is {:?}", v3, r); }
    let v2 = na::Vector2::new(v3[0], v3[1]);
    let r = vector::signum::<na::U2>(&v2);
    for i in 0..2 { ck!(r[i] == sg(v2[i]), "the sign of {:?} is {:?}", v2, r); }
    Ok(())
}

fn bytes(s: &mut Src) -> Vec<u8> {
    let big = s.large();
    let n = s.int_with("len", |s| if big { let v = s.big_size(1 << 23); if s.below(8) == 0 { v } else { v - v % 16 } } else { match s.below(4) { 0 => s.below(70) as i64, 1 => 4 * s.below(20) as i64, _ => 16 * s.below(7) as i64 } }).max(0).min(if big { 1 << 24 } else { 4096 });
    let seed = s.int_with("bytes", |s| s.next() as i64) as u64;
    let mut g = Src::new(seed, Default::default(), s.fdict.clone(), s.idict.clone());
    let mut out = vec![];
    while (out.len() as i64) < n { let f = if g.below(3) == 0 { f32::from_bits(g.next() as u32) } else { g.wild_f32() }; out.extend_from_slice(&f.to_ne_bytes()); }
    out.truncate(n as usize);
    out
}
fn check_scan(data: &[u8], r: std::io::Result<PointCloud3>, fail: bool) -> Result<(), String> {
    if fail { match r { Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => return Ok(()), Err(e) => return Err(format!("a failing input gives {:?}", e)), Ok(_) => return Err("a failing input is accepted".into()) } }
    if data.len() % 16 != 0 { return match r { Err(e) if e.kind() == std::io::ErrorKind::InvalidData => Ok(()), Err(e) => Err(format!("{} bytes give {:?}", data.len(), e)), Ok(c) => Err(format!("{} bytes give {} points", data.len(), c.num_points())) }; }
    let c = match r { Ok(c) => c, Err(e) => return Err(format!("{} bytes give the error {}", data.len(), e)) };
    ck!(c.num_points() == data.len() / 16, "{} bytes give {} points", data.len(), c.num_points());
    for (k, p) in c.points_iter().enumerate() {
        for i in 0..3 { let a = 16 * k + 4 * i; let w = [data[a], data[a + 1], data[a + 2], data[a + 3]]; ck!(p[i].to_bits() == u32::from_ne_bytes(w), "coordinate {} of point {} is {} instead of {}", i, k, p[i], f32::from_ne_bytes(w)); }
    }
    Ok(())
}
fn c19(s: &mut Src) -> Result<(), String> {
    let data = bytes(s);
    let (fail, piece) = (s.pick("fail", 8) == 0, s.int("piece", 1, if s.big { 1 << 20 } else { 64 }) as usize);
    let mut i = Input { data: data.clone(), pos: 0, piece, fail };
    check_scan(&data, kitti::point_cloud_reader::read(&mut i), fail)
}

struct Rec { text: String, six: Option<[f64; 6]> }
fn record(s: &mut Src, l: &str) -> Rec {
    let n = s.int_with(&format!("{}.n", l), |s| match s.below(6) { 0 => s.below(7) as i64, 1 => 6, _ => 6 + s.below(26) as i64 }).max(0).min(64);
    let mut fs = vec![];
    let mut six = [0.0f64; 6];
    let mut good = n >= 6;
    for j in 0..n {
        let x = s.str_with(&format!("{}.{}", l, j), |s| {
            let v: f64 = match (j, s.below(12)) { (_, 0) => return ["", "x", "1,5", "nan", "inf", "1e400", "--1", " ", "0x10", "+1", ".5", "1\n"][s.below(12) as usize].into(),
                (0, _) => s.unit() * 170.0 - 85.0, (1, _) => s.unit() * 360.0 - 180.0, (2, _) => s.unit() * 500.0, (3, _) | (5, _) => s.unit() * 6.2 - 3.1, (4, _) => s.unit() * 3.1 - 1.55, _ => s.below(100) as f64 };
            let v = if j < 2 && s.below(2) == 0 { (if j == 0 { 49.0 } else { 8.4 }) + s.unit() * 0.01 } else { v };
            match s.below(3) { 0 => format!("{}", v), 1 => format!("{:.12}", v), _ => format!("{:e}", v) }
        });
        let x = x.replace('\0', "0");
        if x.contains(' ') { good = false; }
        if j < 6 { match if j < 3 { x.parse::<f64>().ok() } else { x.parse::<f32>().ok().map(|v| v as f64) } { Some(v) => six[j as usize] = v, None => good = false } }
        fs.push(x);
    }
    if fs.iter().any(|x| x.contains(' ')) { s.nontrivial = false; return record_of(&fs.join(" ")); }
    Rec { text: fs.join(" "), six: if good { Some(six) } else { None } }
}
fn record_of(t: &str) -> Rec {
    let f: Vec<&str> = t.split(' ').collect();
    let mut six = [0.0; 6];
    if f.len() < 6 { return Rec { text: t.into(), six: None }; }
    for j in 0..6 { match if j < 3 { f[j].parse::<f64>().ok() } else { f[j].parse::<f32>().ok().map(|v| v as f64) } { Some(v) => six[j] = v, None => return Rec { text: t.into(), six: None } } }
    Rec { text: t.into(), six: Some(six) }
}
fn eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn check_pose(r: &Rec, origin: Option<[f64; 3]>, pose: &Pose3, o: Option<&na::Translation3<f64>>) -> Result<(), String> {
    let six = r.six.unwrap();
    let want_o = origin.unwrap_or([six[0], six[1], six[2]]);
    if let Some(o) = o { for i in 0..3 { ck!(eq(o.vector[i], want_o[i]), "record {:?} with origin {:?}: the origin returned is {:?}", r.text, origin, o); } }
    let q = na::UnitQuaternion::<f32>::from_euler_angles(six[3] as f32, six[4] as f32, six[5] as f32);
    for i in 0..4 { ck!(eq(pose.rotation.coords[i] as f64, q.coords[i] as f64) , "record {:?}: the rotation is {:?} instead of {:?}", r.text, pose.rotation, q); }
    let t = &pose.translation.vector;
    match origin {
        None => for i in 0..3 { ck!(t[i] == 0.0, "record {:?} without an origin is at {:?}", r.text, t); },
        Some(o) => {
            let w = [(six[1] - o[1]) * 40075160.0 * (o[0] * std::f64::consts::PI / 180.0).cos() / 360.0, (six[0] - o[0]) * 40008000.0 / 360.0, six[2] - o[2]];
            for i in 0..3 { ck!((w[i].is_nan() && t[i].is_nan()) || close(t[i], w[i], 1e-6) || (t[i].is_infinite() && w[i].abs() > 3e38), "record {:?} with origin {:?} is at {:?}: {} expected on axis {}", r.text, o, t, w[i], i); }
        }
    }
    Ok(())
}
fn c20(s: &mut Src) -> Result<(), String> {
    let r = record(s, "field");
    let origin = if s.bool("origin") { Some([s.f32_with("o.0", |s| (s.unit() * 170.0 - 85.0) as f32) as f64, s.f32_with("o.1", |s| (s.unit() * 360.0 - 180.0) as f32) as f64, s.f32_with("o.2", |s| (s.unit() * 500.0) as f32) as f64]) } else { None };
    let mode = s.pick("mode", 12);
    let (fail, piece) = (mode == 0, s.int("piece", 1, 64) as usize);
    let mut data = r.text.clone().into_bytes();
    if s.large() && r.six.is_some() { let n = s.int_with("tail", |s| s.big_size(200_000)).max(0).min(200_004); for _ in 0..n { data.extend_from_slice(b" 1"); } }
    if mode == 1 { data.push(0xff); }
    let mut i = Input { data, pos: 0, piece, fail };
    let got = kitti::oxt_reader::read(&mut i, origin.map(|o| na::Translation3::new(o[0], o[1], o[2])));
    if fail { return match got { Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => Ok(()), Err(e) => Err(format!("a failing input gives {:?}", e)), Ok(_) => Err("a failing input is accepted".into()) }; }
    if mode == 1 || r.six.is_none() { return match got { Err(e) if e.kind() == std::io::ErrorKind::InvalidData => Ok(()), Err(e) => Err(format!("record {:?} gives {:?}", r.text, e)), Ok(_) => Err(format!("record {:?} is accepted", r.text)) }; }
    match got { Ok((p, o)) => check_pose(&r, origin, &p, Some(&o)), Err(e) => Err(format!("record {:?} gives the error {}", r.text, e)) }
}

struct Tmp(std::path::PathBuf);
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn tmp() -> Tmp {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("kuba-native-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    Tmp(p)
}
/// The file name with ÿ and þ as bytes that are not UTF-8.
fn os(x: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    for c in x.chars() { if c == 'ÿ' { b.push(0xff) } else if c == 'þ' { b.push(0xfe) } else { b.extend(c.to_string().bytes()) } }
    std::ffi::OsString::from_vec(b)
}
fn c21(s: &mut Src) -> Result<(), String> {
    let d = tmp();
    let big = s.large();
    let n = s.pick("files", 7);
    let poses = s.bool("poses");
    let print = s.pick("print", 6) == 0;
    let mut names = vec![];
    for k in 0..n {
        let x = s.str_with(&format!("name.{}", k), |s| { let v = s.below(30); match s.below(9) { 0 => format!("{}.txt", v), 6 => format!("{}{}", ["ÿ", "þ", "ÿþ", "þÿ"][(v % 4) as usize], v % 3), 7 => ["\u{1f600}", "\u{ff21}", "\u{10ffff}", "\u{e000}", "~", " ", "-", "a.b.c", ".hidden", "z.tar.gz"][(v % 10) as usize].to_string(), 8 => ["a", "a.txt", "a-1", "A.txt", "a b", "a.TXT", "B", "aa", "b~", "_"][(v % 10) as usize].to_string(), 1 => format!("A{:02}.bin", v), 2 => format!("{:03} é.txt", v), 3 => format!("{:010}", v * 5), _ => format!("{:010}.txt", v) } });
        let x: String = x.chars().filter(|c| *c != '/' && *c != '\0').collect();
        if x.is_empty() || x == "." || x == ".." || names.contains(&os(&x)) { continue; }
        names.push(os(&x));
    }
    if big { let m = s.int_with("many", |s| s.big_size(1500)).max(0).min(1504); for k in 0..m { let x = os(&format!("{:010}.bin", 1000 + k)); if !names.contains(&x) { names.push(x); } } }
    let missing = s.pick("missing", 20) == 0;
    let bad = if s.pick("broken", 4) == 0 { Some(s.pick("which", 7) as usize) } else { None };
    let how = s.pick("how", 3);
    names.sort();
    let mut recs = vec![];
    let mut scans = vec![];
    for (k, x) in names.iter().enumerate() {
        let p = d.0.join(x);
        let mut text: Vec<u8>;
        if poses {
            let lat = s.f32_with(&format!("lat.{}", k), |s| 49.0 + s.unit() as f32) as f64;
            let lon = s.f32_with(&format!("lon.{}", k), |s| 8.0 + s.unit() as f32) as f64;
            let r = record_of(&format!("{} {} {} 0.1 0.2 {} 1 2 3", lat, lon, k, 0.1 * k as f64));
            text = r.text.clone().into_bytes();
            recs.push(r);
        } else { text = vec![]; for j in 0..(4 * (k % 3 + 1)) { text.extend_from_slice(&((k * 100 + j) as f32).to_ne_bytes()); } scans.push(text.clone()); }
        if bad == Some(k) {
            if how == 0 { std::fs::create_dir(&p).unwrap(); continue; }
            if how == 1 { text.truncate(3); } else { std::os::unix::fs::symlink("/nonexistent/kuba", &p).unwrap(); continue; }
        }
        std::fs::write(&p, &text).unwrap();
    }
    let fails = missing || bad.map_or(false, |b| b < names.len());
    let dir = if missing { d.0.join("none/none") } else { d.0.clone() };
    match kitti::fs::seq_files_in_dir(&dir) {
        Ok(v) => { ck!(!missing, "a missing directory is listed"); let w: Vec<_> = { let mut w: Vec<_> = names.iter().map(|x| d.0.join(x)).collect(); w.sort(); w }; ck!(v == w, "the files {:?} are listed as {:?}", w, v); }
        Err(e) => ck!(missing, "listing fails with {}", e),
    }
    let msg = |r: usize| format!("directory with {:?}, broken {:?} (kind {}): {} results", names, bad, how, r);
    if poses {
        let r = silent(print, || kitti::oxt_reader::read_from_dir(&dir, print));
        match r {
            Err(e) => ck!(fails, "directory with {:?}: {}", names, e),
            Ok(v) => {
                ck!(!fails && v.len() == names.len(), "{}", msg(v.len()));
                let o = recs.get(0).map(|r| { let x = r.six.unwrap(); [x[0], x[1], x[2]] });
                for (k, p) in v.iter().enumerate() { check_pose(&recs[k], if k == 0 { None } else { o }, p, None).map_err(|e| format!("file {}: {}", k, e))?; }
            }
        }
    } else {
        let r = silent(print, || kitti::point_cloud_reader::read_from_dir(&dir, print));
        match r {
            Err(e) => ck!(fails, "directory with {:?}: {}", names, e),
            Ok(v) => { ck!(!fails && v.len() == names.len(), "{}", msg(v.len())); for (k, c) in v.into_iter().enumerate() { check_scan(&scans[k], Ok(c), false).map_err(|e| format!("file {}: {}", k, e))?; } }
        }
    }
    Ok(())
}
fn silent<T>(_print: bool, f: impl FnOnce() -> T) -> T { f() }

pub fn case_of(p: &str) -> Option<Case> {
    Some(match p { "C18" => c18, "C19" => c19, "C20" => c20, "C21" => c21, _ => return None })
}
