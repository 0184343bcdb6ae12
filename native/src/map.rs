//! Oracles of C08-C17, C22 and C23.
use crate::ck;
use crate::src::{down, up, Src};
use crate::Case;
use kuba::prelude::*;
use kuba::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A coordinate around the cell base, at most w cells away.
fn near(s: &mut Src, l: &str, res: f32, base: i64, w: i64) -> f32 {
    let v = s.f32_with(l, |s| {
        let k = base + s.below(2 * w as u64 + 1) as i64 - w;
        let v = match s.below(6) {
            0 => k as f32 * res,
            1 => (k as f32 + 0.5) * res,
            2 => { let e = 0.5f64.powi(s.below(20) as i32 + 1); ((k as f64 + e) * res as f64) as f32 }
            3 => { let e = 0.5f64.powi(s.below(20) as i32 + 1); ((k as f64 - e) * res as f64) as f32 }
            _ => ((k as f64 + s.unit() - 0.5) * res as f64) as f32,
        };
        match s.below(8) { 0 => up(v), 1 => down(v), _ => v }
    });
    if v.is_finite() && (v as f64 / res as f64 - base as f64).abs() <= w as f64 + 2.0 { v } else { base as f32 * res }
}
fn base(s: &mut Src, l: &str) -> i64 {
    let v = s.int_with(l, |s| match s.below(8) { 0..=4 => 0, 5 | 6 => s.below(41) as i64 - 20, _ => s.below(4001) as i64 - 2000 });
    v.max(-2000).min(2000)
}
/// A value to store: any bit pattern now and then.
fn stored(s: &mut Src, l: &str) -> f32 { s.f32_with(l, |s| match s.below(8) { 0 => s.wild_f32(), 1 => *[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MAX, f32::MIN, 1e-45].get(s.below(7) as usize).unwrap(), _ => (s.below(2001) as i64 - 1000) as f32 * 0.01 }) }
fn value(s: &mut Src, l: &str) -> f32 { s.f32_with(l, |s| (s.below(2001) as i64 - 1000) as f32 * 0.01) }
fn small_prob(s: &mut Src, l: &str) -> f32 {
    let v = s.f32_with(l, |s| match s.below(8) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => s.unit() as f32 });
    if v >= 0.0 && v <= 1.0 { v } else { 0.5 }
}

macro_rules! dimx { ($m:ident, $b:ident, $N:expr, $U:ty, $IX:ty, $P:ty, $C:ty, $B:ty, $CB:ty, $GM:ty, $PC:ty, $OG:ty, $W:expr) => {
pub mod $m {
    use super::*;
    use crate::geom::$b::{beq, cell, pt};
    pub type P = $P; pub type C = $C; pub type B = $B;
    type GM = $GM; type OG = $OG;
    const N: usize = $N;
    const W: i64 = $W;
    fn key(c: &C) -> Vec<isize> { (0..N).map(|i| c[i]).collect() }
    fn mkc(k: &[isize]) -> C { let mut c = C::origin(); for i in 0..N { c[i] = k[i]; } c }
    fn ix(k: &[isize]) -> Option<nd::Dim<[usize; $N]>> { if k.iter().any(|x| *x < 0) { return None; } let mut a = [0usize; $N]; for i in 0..N { a[i] = k[i] as usize; } Some(nd::Dim(a)) }
    /// All cells of a map of the shape.
    fn cells(shape: &[usize]) -> Vec<Vec<isize>> {
        let mut out = vec![vec![]];
        for n in shape { let mut nx = vec![]; for p in &out { for k in 0..*n as isize { let mut q: Vec<isize> = p.clone(); q.push(k); nx.push(q); } } out = nx; }
        out
    }
    fn points(s: &mut Src, l: &str, max: i64, mut g: impl FnMut(&mut Src, &str) -> f32) -> Vec<P> {
        let big = s.large();
        let n = s.int_with(&format!("{}.n", l), |s| if big { s.big_size(200_000) } else { s.below(max as u64 + 1) as i64 }).max(0).min(if big { 200_004 } else { 40 });
        let mut ps: Vec<P> = (0..n.min(40)).map(|j| pt(s, &format!("{}.{}", l, j), &mut g)).collect();
        if n > 40 { let mut f = s.filler("fill"); ps.extend((40..n).map(|_| pt(&mut f, "", &mut g))); }
        ps
    }
    fn same_bits(a: &P, b: &P) -> bool { (0..N).all(|i| a[i].to_bits() == b[i].to_bits()) }

    pub fn c08(s: &mut Src) -> Result<(), String> {
        let ps = points(s, "pts", 12, |s, l| s.coord(l));
        let pc = <$PC>::from_points(&ps);
        for (nm, c) in [("from_points", pc.clone()), ("from_data", <$PC>::from_data(pc.data.clone())), ("", pc)].iter() {
            ck!(c.num_points() == ps.len(), "{}: {} points of {}", nm, c.num_points(), ps.len());
            let it: Vec<P> = c.points_iter().collect();
            ck!(it.len() == ps.len() && it.iter().zip(&ps).all(|(a, b)| same_bits(a, b)), "{}: iterates {:?}, not {:?}", nm, it, ps);
            let b = c.bounds();
            for i in 0..N {
                let (mut lo, mut hi) = (0.0f32, 0.0f32);
                for p in &ps { if p[i] < lo { lo = p[i]; } if p[i] > hi { hi = p[i]; } }
                ck!(b.min[i] == lo && b.max[i] == hi, "the bounds of {:?} are {:?}: expected {} to {} on axis {}", ps, b, lo, hi, i);
            }
        }
        Ok(())
    }

    // ---- maps ----
    pub struct Start { pub g: GM, pub res: f32, pub base: [i64; $N], pub shape: Vec<usize>, pub tile: usize, pub old: HashMap<Vec<isize>, f32>, pub track: Vec<C> }
    /// A map, empty or with extents on multiples of the resolution, with values, a tile size and tracked cells.
    pub fn start(s: &mut Src, align: bool, fixed: bool) -> Start {
        let big = s.large();
        let side = if fixed { 40 } else if N == 2 { 300 } else { 44 };
        let thin = if big && fixed { s.pick("thin", N as i64) as usize } else { N };
        let res = s.resolution("resolution");
        let tile = s.int("tile", 1, if big { side / 2 } else { 7 }) as usize;
        let mut bs = [0i64; $N];
        for i in 0..N { bs[i] = base(s, &format!("base.{}", i)); }
        let empty = s.pick("empty", 3) == 0;
        let whole = align || s.bool("whole tiles") && !(big && fixed);
        let mut shape = vec![0usize; N];
        let mut g = GM::new(res, B { min: P::origin(), max: P::origin() }, tile, 0.0);
        let mut b0 = bs;
        if !empty {
            let mut b = B { min: P::origin(), max: P::origin() };
            for i in 0..N {
                let (mut m, mut n) = (bs[i] + s.int(&format!("min.{}", i), -4, 4), if big { s.int_with(&format!("shape.{}", i), |s| if i == thin { s.big_size(100_000) } else if fixed { 1 } else { s.big_size(side) }).max(1).min(if i == thin { 100_004 } else { side + 4 }) } else { s.int(&format!("shape.{}", i), 1, W) });
                if whole { m = m.div_euclid(tile as i64) * tile as i64; n = tile as i64 * ((n + tile as i64 - 1) / tile as i64); }
                b.min[i] = m as f32 * res; b.max[i] = (m + n) as f32 * res;
                b0[i] = m; shape[i] = n as usize;
            }
            if (0..N).all(|i| b.min[i] == 0.0 && b.max[i] == 0.0) { b.max[0] = res; }
            g = GM::new(res, b, tile, 0.0);
        }
        let mut old = HashMap::new();
        for (j, k) in cells(g.data.shape()).into_iter().enumerate() { let v = j as f32 * 0.25 - 7.0; g.data[ix(&k).unwrap()] = v; old.insert(k, v); }
        let mut track = vec![];
        let nt = if big { s.int_with("ntracked", |s| s.big_size(200_000)).max(0).min(200_004) } else { 0 };
        if nt > 0 { let mut f = s.filler("tracks"); for _ in 0..nt { track.push(cell(&mut f, "", -3, 9)); } }
        for j in 0..s.pick("tracked", 4) { track.push(cell(s, &format!("tracked.{}", j), -3, 9)); }
        g.add_changed_cells(track.clone());
        let on = s.bool("track");
        g.set_track_changes(on);
        Start { g, res, base: b0, shape, tile, old, track }
    }
    /// What growing did: the map must hold the old values at their places; gives the number of cells the minimum moved.
    fn grown(g: &GM, st_bounds: &B, was_empty: bool, res: f32, old: &HashMap<Vec<isize>, f32>, def: f32, track: &[C], what: &str) -> Result<(Vec<isize>, HashMap<Vec<isize>, f32>, Vec<C>), String> {
        let mut off = vec![0isize; N];
        for i in 0..N {
            let n = ((g.bounds.max[i] as f64 - g.bounds.min[i] as f64) / res as f64).round() as isize;
            ck!(g.data.shape()[i] as isize == n, "{}: {} cells on axis {} for bounds {:?} at {}", what, g.data.shape()[i], i, g.bounds, res);
            if !was_empty {
                ck!(g.bounds.min[i] as f64 <= st_bounds.min[i] as f64 + 0.25 * res as f64 && g.bounds.max[i] as f64 >= st_bounds.max[i] as f64 - 0.25 * res as f64, "{}: the bounds {:?} do not contain the old bounds {:?}", what, g.bounds, st_bounds);
                off[i] = ((st_bounds.min[i] as f64 - g.bounds.min[i] as f64) / res as f64).round() as isize;
            }
        }
        let mut want = HashMap::new();
        for k in cells(g.data.shape()) { want.insert(k, def); }
        for (k, v) in old {
            let q: Vec<isize> = k.iter().zip(&off).map(|(a, b)| a + b).collect();
            ck!(want.contains_key(&q), "{}: the cell {:?} moved out of the map, to {:?}", what, k, q);
            want.insert(q, *v);
        }
        let tr: Vec<C> = track.iter().map(|c| { let mut d = c.clone(); for i in 0..N { d[i] += off[i]; } d }).collect();
        Ok((off, want, tr))
    }
    fn check_data(g: &GM, want: &HashMap<Vec<isize>, f32>, what: &str) -> Result<(), String> {
        ck!(g.data.len() == want.len(), "{}: {} cells, expected {}", what, g.data.len(), want.len());
        for (k, v) in want {
            let r = g.data[ix(k).unwrap()];
            ck!(r.to_bits() == v.to_bits() || r == *v, "{}: cell {:?} holds {} instead of {}", what, k, r, v);
        }
        Ok(())
    }
    fn request(s: &mut Src, l: &str, res: f32, base: &[i64; $N]) -> B {
        let mut b = B { min: P::origin(), max: P::origin() };
        for i in 0..N {
            b.min[i] = near(s, &format!("{}.min.{}", l, i), res, base[i], W);
            b.max[i] = near(s, &format!("{}.max.{}", l, i), res, base[i], W);
            if b.min[i] > b.max[i] { let t = b.min[i]; b.min[i] = b.max[i]; b.max[i] = t; }
        }
        b
    }
    fn thick(b: &B, res: f32) -> bool { (0..N).all(|i| (b.max[i] as f64 - b.min[i] as f64) >= res as f64 / 16.0) }

    pub fn c10(s: &mut Src) -> Result<(), String> {
        let Start { mut g, res, shape, tile, old, track, .. } = start(s, false, true);
        let b = g.bounds.clone();
        ck!(g.data.shape().iter().zip(&shape).all(|(a, b)| a == b), "a new map with bounds {:?} at {} has the shape {:?}", b, res, g.data.shape());
        ck!(g.tile_size == tile && g.resolution() == res && beq(&g.bounds(), &b), "a new map: tile {} resolution {} bounds {:?}", g.tile_size, g.resolution(), g.bounds());
        let def = stored(s, "default");
        let f = GM::new(res, b.clone(), tile, def);
        ck!(f.data.shape() == g.data.shape() && f.data.iter().all(|x| x.to_bits() == def.to_bits()) && !f.track_changes() && f.changed_cells().is_empty(), "a new map holds {:?}", f.data);
        let f = GM::from_ndarray(g.data.clone(), res, b.clone(), tile);
        ck!(f.data == g.data && f.resolution == res && beq(&f.bounds, &b) && f.tile_size == tile && !f.track_changes() && f.changed_cells().is_empty(), "from_ndarray changes what it is given");
        let f = GM::default();
        ck!(f.data.len() == 0 && (0..N).all(|i| f.bounds.min[i] == 0.0 && f.bounds.max[i] == 0.0 && f.data.shape()[i] == 0) && !f.track_changes() && f.changed_cells().is_empty(), "the default map is not empty");
        let mut want = old;
        let on = g.track_changes();
        for j in 0..4 {
            let mut c = cell(s, &format!("c{}", j).replace("c0", "c"), -3, W + 3);
            if s.pick(&format!("wild{}", j), 8) == 0 { let i = s.pick(&format!("wilda{}", j), N as i64) as usize; c[i] = s.int(&format!("wildv{}", j), i64::MIN, i64::MAX) as isize; }
            let v = stored(s, &format!("v{}", j));
            let k = key(&c);
            let r = catch_unwind(AssertUnwindSafe(|| g.get(&c)));
            match (want.get(&k), &r) {
                (Some(x), Ok(y)) => ck!(x.to_bits() == y.to_bits(), "cell {:?} reads as {} instead of {}", k, y, x),
                (None, Ok(y)) => return Err(format!("reading cell {:?} outside of the map {:?} gives {}", k, g.data.shape(), y)),
                (Some(_), Err(_)) => return Err(format!("reading cell {:?} of the map {:?} panics", k, g.data.shape())),
                _ => (),
            }
            let r = catch_unwind(AssertUnwindSafe(|| g.set(&c, v)));
            ck!(r.is_ok() == want.contains_key(&k), "writing cell {:?} of the map {:?} {}", k, g.data.shape(), if r.is_ok() { "is accepted" } else { "panics" });
            if r.is_ok() { want.insert(k.clone(), v); ck!(g.get(&c).to_bits() == v.to_bits(), "cell {:?} reads as {} after writing {}", k, g.get(&c), v); }
            check_data(&g, &want, "after a write")?;
            ck!(beq(&g.bounds, &b) && g.resolution == res && g.tile_size == tile && g.track_changes() == on && g.changed_cells() == track, "a write changes more than the cell");
        }
        Ok(())
    }
    pub fn c11(s: &mut Src) -> Result<(), String> {
        let Start { mut g, res, base, tile, mut old, mut track, shape } = start(s, false, false);
        let on = g.track_changes();
        let mut empty = shape.iter().all(|n| *n == 0);
        let mut whole = empty || (0..N).all(|i| base[i].rem_euclid(tile as i64) == 0 && shape[i] % tile == 0);
        for j in 0..3 {
            let mut at = base;
            for i in 0..N { if shape[i] as i64 > W && s.bool(&format!("end{}.{}", j, i)) { at[i] += shape[i] as i64; } }
            let rq = request(s, &format!("request{}", j).replace("request0", "request"), res, &at);
            let def = value(s, &format!("default{}", j));
            let b0 = g.bounds.clone();
            let d0 = g.data.clone();
            let r = catch_unwind(AssertUnwindSafe(|| g.expand_bounds(&rq, def)));
            if r.is_err() { if thick(&rq, res) { return Err(format!("growing a map with bounds {:?} to {:?} panics", b0, rq)); } return Ok(()); }
            let what = format!("growing {:?} to {:?} at {}, tile {}", b0, rq, res, tile);
            for i in 0..N { ck!(g.bounds.min[i] as f64 <= rq.min[i] as f64 + 0.25 * res as f64 && g.bounds.max[i] as f64 >= rq.max[i] as f64 - 0.25 * res as f64, "{}: the bounds {:?} do not contain the request", what, g.bounds); }
            let (_, want, tr) = grown(&g, &b0, empty, res, &old, def, &track, &what)?;
            check_data(&g, &want, &what)?;
            ck!(g.changed_cells() == tr, "{}: the tracked cells {:?} became {:?}, expected {:?}", what, track, g.changed_cells(), tr);
            ck!(g.tile_size == tile && g.resolution == res && g.track_changes() == on, "{}: tile size, resolution or tracking changed", what);
            if !empty && whole && (0..N).all(|i| rq.min[i] as f64 >= b0.min[i] as f64 + 0.25 * res as f64 && rq.max[i] as f64 <= b0.max[i] as f64 - 1.25 * res as f64) {
                ck!(beq(&g.bounds, &b0) && g.data == d0, "{}: a map that covers the request changed to {:?}", what, g.bounds);
            }
            old = want; track = tr; empty = false; whole = true;
        }
        Ok(())
    }
    pub fn c12(s: &mut Src) -> Result<(), String> {
        let Start { mut g, res, base, tile, shape, .. } = start(s, false, false);
        let whole = shape.iter().all(|n| *n == 0) || (0..N).all(|i| base[i].rem_euclid(tile as i64) == 0 && shape[i] % tile == 0);
        for j in 0..2 {
            let mut at = base;
            for i in 0..N { if shape[i] as i64 > W && s.bool(&format!("end{}.{}", j, i)) { at[i] += shape[i] as i64; } }
            let rq = request(s, &format!("request{}", j).replace("request0", "request"), res, &at);
            let b0 = g.bounds.clone();
            let d0 = g.data.shape().to_vec();
            if catch_unwind(AssertUnwindSafe(|| g.expand_bounds(&rq, 0.0))).is_err() { return Ok(()); }
            for t in 0..8 {
                let p = pt(s, &format!("p{}.{}", j, t).replace("p0.0", "p"), |s, l| s.f32_with(l, |s| s.unit() as f32));
                let mut q = p;
                for i in 0..N {
                    let (lo, hi) = (rq.min[i], rq.max[i]);
                    if !(q[i] >= lo && q[i] <= hi) {
                        let f = p[i].rem_euclid(1.0);
                        q[i] = if f < 0.3 { lo } else if f < 0.6 { hi } else if f < 0.7 { up(lo) } else if f < 0.8 { down(hi) } else { lo + (hi - lo) * f };
                        if !(q[i] >= lo && q[i] <= hi) { q[i] = hi; }
                    }
                }
                let c = g.cell_from_point(&q);
                for i in 0..N { ck!(c[i] >= 0 && (c[i] as usize) < g.data.shape()[i], "growing {:?} to {:?} at {}, tile {}: the point {:?} of the request lies in cell {:?}, outside of the map {:?} with bounds {:?}", b0, rq, res, tile, q, c, g.data.shape(), g.bounds); }
                g.set(&c, 1.5);
                ck!(g.get(&c) == 1.5, "cell {:?} is not writable", c);
            }
            if whole || g.data.shape() != &d0[..] || !beq(&g.bounds, &b0) {
                for i in 0..N {
                    let (lo, hi) = (g.bounds.min[i] as f64 / res as f64, g.bounds.max[i] as f64 / res as f64);
                    ck!((lo - lo.round()).abs() < 0.25 && (hi - hi.round()).abs() < 0.25 && (lo.round() as i64).rem_euclid(tile as i64) == 0 && (hi.round() as i64).rem_euclid(tile as i64) == 0 && g.data.shape()[i] % tile == 0,
                        "growing {:?} to {:?} at {}: the bounds {:?} with {:?} cells are not whole tiles of {}", b0, rq, res, g.bounds, g.data.shape(), tile);
                }
            }
        }
        Ok(())
    }

    // ---- rays ----
    fn ray_in(s: &mut Src) -> (P, P, B, f32, f32) {
        let res = s.resolution("resolution");
        let w = if s.large() { s.int_with("wide", |s| s.big_size(6000)).max(1).min(6004) } else { [3, 12, 60, 400][s.pick("w", 4) as usize] };
        let mut bs = [0i64; $N];
        for i in 0..N { bs[i] = base(s, &format!("base.{}", i)); }
        let org = { let mut p = P::origin(); for i in 0..N { p[i] = near(s, &format!("origin.{}", i), res, bs[i], w); } p };
        let end = { let mut p = P::origin(); for i in 0..N { let l = format!("end.{}", i); p[i] = if s.pick(&format!("same.{}", i), 6) == 0 { org[i] } else { near(s, &l, res, bs[i], w) }; } p };
        let mn = { let mut p = P::origin(); for i in 0..N { let bb = if s.pick(&format!("far.{}", i), 2) == 0 { 0 } else { bs[i] }; p[i] = near(s, &format!("bounds.min.{}", i), res, bb, 3); } p };
        let ml = s.f32_with("max_len", |s| match s.below(6) { 0 => 0.0, 1 => -1.0, 2 => 1e9, _ => (s.unit() * 2.0 * w as f64) as f32 * res });
        (org, end, B { min: mn, max: mn }, res, ml)
    }
    fn l1(a: &C, b: &C) -> i128 { (0..N).map(|i| (a[i] as i128 - b[i] as i128).abs()).sum() }
    fn chain(org: &P, end: &P, b: &B, res: f32, ml: f32) -> Result<(Vec<C>, Option<C>), String> {
        let (o, e) = (converter::cell_from_point(org, &b.min, res), converter::cell_from_point(end, &b.min, res));
        let (cs, r) = ray_caster::cast_ray(org, end, b, res, ml);
        let what = format!("the ray from {:?} to {:?} ({:?} to {:?}), minimum {:?}, resolution {}, limit {}", org, end, o, e, b.min, res, ml);
        if o == e { ck!(cs.is_empty() && r == Some(e.clone()), "{}: {} free cells and the end {:?}", what, cs.len(), r); return Ok((cs, r)); }
        ck!(!cs.is_empty() && cs[0] == o, "{}: does not start in the cell of the origin", what);
        for k in 0..cs.len() {
            ck!(l1(&o, &cs[k]) == k as i128, "{}: cell {} is {:?}, a repetition or a detour", what, k, cs[k]);
            if k > 0 { ck!(l1(&cs[k - 1], &cs[k]) == 1, "{}: cell {} is {:?} after {:?}", what, k, cs[k], cs[k - 1]); }
            for i in 0..N { ck!(cs[k][i] >= o[i].min(e[i]) && cs[k][i] <= o[i].max(e[i]), "{}: cell {:?} is not between the ends", what, cs[k]); }
        }
        match &r {
            Some(x) => { ck!(*x == e, "{}: the reported end is {:?}", what, x); ck!(!cs.contains(&e) && l1(cs.last().unwrap(), &e) == 1, "{}: the end does not follow the last cell {:?}", what, cs.last()); }
            None => ck!(ml > 0.0, "{}: no end without a range limit", what),
        }
        Ok((cs, r))
    }
    pub fn c13(s: &mut Src) -> Result<(), String> {
        if s.pick("wild", 4) == 0 {
            let (org, end, mn) = (pt(s, "origin", |s, l| s.coord_lim(l, 1e30)), pt(s, "end", |s, l| s.coord_lim(l, 1e30)), pt(s, "bounds.min", |s, l| s.coord_lim(l, 1e30)));
            let res = s.f32_with("resolution", |s| if s.below(2) == 0 { 1e20 } else { s.wild_f32().abs().max(1e-3) });
            let ml = s.f32_with("max_len", |s| s.wild_f32());
            let (o, e) = (converter::cell_from_point(&org, &mn, res), converter::cell_from_point(&end, &mn, res));
            if (0..N).any(|i| (o[i] as i128).abs() > 1 << 60 || (e[i] as i128).abs() > 1 << 60) || l1(&o, &e) > 5000 { s.nontrivial = false; return Ok(()); }
            return chain(&org, &end, &B { min: mn, max: mn }, res, ml).map(|_| ());
        }
        let (org, end, b, res, ml) = ray_in(s);
        chain(&org, &end, &b, res, ml).map(|_| ())
    }
    pub fn c14(s: &mut Src) -> Result<(), String> {
        let (mut org, mut end, mut b, mut res, mut ml) = ray_in(s);
        // everything representable, and the limit just the distance to some centre on the way
        let exact = s.pick("exact", 4) == 3;
        if exact {
            res = [1.0, 0.5, 0.25, 2.0][s.pick("exact.res", 4) as usize];
            for i in 0..N {
                org[i] = s.int(&format!("exact.origin.{}", i), -60, 60) as f32 * res;
                end[i] = org[i] + s.int(&format!("exact.way.{}", i), -90, 90) as f32 * res / 4.0;
                b.min[i] = s.int(&format!("exact.min.{}", i), -60, 60) as f32 * res;
            }
            b.max = b.min;
            if s.bool("exact.axis") { let k = s.pick("exact.dim", N as i64) as usize; for i in 0..N { if i != k { end[i] = org[i]; } } }
            ml = (1 + s.pick("exact.limit", 12)) as f32 * res;
        }
        let (cs, r) = ray_caster::cast_ray(&org, &end, &b, res, ml);
        let e = converter::cell_from_point(&end, &b.min, res);
        let what = format!("the ray from {:?} to {:?}, minimum {:?}, resolution {}, limit {}", org, end, b.min, res, ml);
        let c64 = |x: f32, i: usize| (x as f64 - b.min[i] as f64) / res as f64;
        let scale = (0..N).map(|i| (org[i].abs() as f64 + end[i].abs() as f64 + b.min[i].abs() as f64) / res as f64 + (c64(org[i], i) - c64(end[i], i)).abs()).fold(1.0, f64::max);
        let eps = 2f64.powi(-18) * scale * 4.0;
        if eps > 0.05 { s.nontrivial = false; return Ok(()); }
        let touched = |c: &C| {
            let (mut t0, mut t1) = (0.0f64, 1.0f64);
            for i in 0..N {
                let (a, d) = (c64(org[i], i), c64(end[i], i) - c64(org[i], i));
                let (lo, hi) = (c[i] as f64 - 0.5 - eps, c[i] as f64 + 0.5 + eps);
                if d.abs() < 1e-12 { if a < lo || a > hi { return false; } continue; }
                let (x, y) = ((lo - a) / d, (hi - a) / d);
                t0 = t0.max(x.min(y)); t1 = t1.min(x.max(y));
            }
            t0 <= t1
        };
        let len = |c: &C| (0..N).map(|i| ((c[i] as f64) * res as f64 + b.min[i] as f64 - org[i] as f64).powi(2)).sum::<f64>().sqrt();
        let teps = if exact { 0.0 } else { eps * res as f64 * 4.0 + 1e-5 * ml.abs() as f64 };
        for k in 0..cs.len() {
            ck!(touched(&cs[k]), "{}: cell {:?} is not touched by the segment", what, cs[k]);
            if k > 0 && ml > 0.0 { ck!(len(&cs[k]) <= ml as f64 + teps, "{}: cell {:?} is {} away", what, cs[k], len(&cs[k])); }
        }
        if let Some(x) = &r { ck!(*x == e, "{}: the end is {:?}", what, x); }
        else {
            ck!(ml > 0.0, "{}: cut without a limit", what);
            let last = match cs.last() { Some(c) => c.clone(), None => return Err(format!("{}: cut before the origin's cell", what)) };
            let mut fine = false;
            for i in 0..N {
                let mut c = last.clone();
                if e[i] == c[i] { continue; }
                c[i] += (e[i] - c[i]).signum();
                if c != e && touched(&c) && len(&c) > ml as f64 - teps { fine = true; }
            }
            ck!(fine, "{}: cut after {:?}, although the next cell is within the limit", what, last);
        }
        Ok(())
    }
    fn union(org: &P, ps: &[P], b: &B, res: f32, ml: f32) -> (HashSet<C>, HashSet<C>) {
        let (mut f, mut o) = (HashSet::new(), HashSet::new());
        for p in ps { let (cs, e) = ray_caster::cast_ray(org, p, b, res, ml); for c in cs { f.insert(c); } if let Some(c) = e { o.insert(c); } }
        for c in &o { f.remove(c); }
        (f, o)
    }
    fn scan(s: &mut Src, res: f32, base: &[i64; $N], w: i64) -> (P, Vec<P>) {
        let org = { let mut p = P::origin(); for i in 0..N { p[i] = near(s, &format!("origin.{}", i), res, base[i], w); } p };
        let big = s.big;
        let n = s.int_with("pts.n", |s| if big { s.big_size(3000) } else { match s.below(8) { 0 => 0, 1 => 1, _ => s.below(9) as i64 } }).max(0).min(if big { 3004 } else { 24 });
        let fill = n - n.min(24);
        let n = n.min(24);
        let mut ps: Vec<P> = (0..n).map(|j| { let mut p = P::origin(); for i in 0..N { p[i] = near(s, &format!("pts.{}.{}", j, i), res, base[i], w); } if j > 0 && s.pick(&format!("dup.{}", j), 6) == 0 { p = org; } p }).collect();
        if fill > 0 { let mut f = s.filler("fill"); for _ in 0..fill { let mut p = P::origin(); for i in 0..N { p[i] = near(&mut f, "", res, base[i], w); } ps.push(p); } }
        (org, ps)
    }
    pub fn c15(s: &mut Src) -> Result<(), String> {
        s.large();
        let res = s.resolution("resolution");
        let mut bs = [0i64; $N];
        for i in 0..N { bs[i] = base(s, &format!("base.{}", i)); }
        let big = s.big;
        // a few long rays, or many short ones
        let w = s.int_with("w", |s| match s.below(6) { 0 => if big { s.big_size(5000) } else { 1 + s.below(300) as i64 }, _ => 1 + s.below(12) as i64 }).max(1).min(5004);
        if w > 12 { s.big = false; }
        let (org, mut ps) = scan(s, res, &bs, w);
        s.big = big;
        let mn = { let mut p = P::origin(); for i in 0..N { p[i] = near(s, &format!("bounds.min.{}", i), res, bs[i], 3); } p };
        let b = B { min: mn, max: mn };
        let ml = s.f32_with("max_len", |s| match s.below(6) { 0 => 0.0, 1 => -1.0, 2 => 1e9, _ => (s.unit() * 2.0 * w as f64) as f32 * res });
        let (wf, wo) = union(&org, &ps, &b, res, ml);
        for turn in 0..2 {
            let (f, o) = ray_caster::cast_rays(&org, &<$PC>::from_points(&ps), &b, res, ml);
            ck!(o == wo, "scan from {:?} of {:?}: the occupied cells {:?}, the ends of the rays {:?}", org, ps, o, wo);
            ck!(f == wf, "scan from {:?} of {:?}: the free cells differ from those passed by the rays: {:?} / {:?}", org, ps, f.difference(&wf).collect::<Vec<_>>(), wf.difference(&f).collect::<Vec<_>>());
            if turn == 0 { ps.reverse(); if ps.len() > 2 { ps.swap(0, 1); } }
        }
        Ok(())
    }

    // ---- integration ----
    fn model(s: &mut Src) -> LidarNoiseModel {
        let (h, m, lo, hi, t) = (s.f32_with("hit", |s| s.wild_f32()), s.f32_with("miss", |s| s.wild_f32()), s.f32_with("lo", |s| s.wild_f32()), s.f32_with("hi", |s| s.wild_f32()), s.f32_with("threshold", |s| s.wild_f32()));
        let mut nm = LidarNoiseModel::default();
        if s.bool("model") { nm.hit_probability_logodds = h; nm.miss_probability_logodds = m; nm.min_probability_logodds = lo; nm.max_probability_logodds = hi; nm.occupied_threshold_logodds = t; }
        nm
    }
    pub fn c16(s: &mut Src) -> Result<(), String> { integrate(s, true) }
    pub fn c22i(s: &mut Src) -> Result<(), String> { integrate(s, false) }
    fn integrate(s: &mut Src, values: bool) -> Result<(), String> {
        let Start { mut g, res, base, mut old, mut track, shape, .. } = start(s, true, false);
        let mut nm = model(s);
        let mut empty = shape.iter().all(|n| *n == 0);
        for turn in 0..2 {
            nm.max_range = s.f32_with(&format!("max_range{}", turn), |s| match s.below(6) { 0 => 0.0, 1 => -1.0, 2 | 3 => 60.0, _ => (s.unit() * 2.0 * W as f64) as f32 * res });
            let (org, ps) = scan(s, res, &base, W);
            let pc = <$PC>::from_points(&ps);
            let hull = { let mut b = pc.bounds(); for i in 0..N { b.min[i] = b.min[i].min(org[i]); b.max[i] = b.max[i].max(org[i]); } b };
            if (0..N).any(|i| (hull.max[i] - hull.min[i]) as f64 / res as f64 > 60.0) { s.nontrivial = false; return Ok(()); }
            let b0 = g.bounds.clone();
            let what = format!("integrating {:?} from {:?} into a map with bounds {:?} at {}", ps, org, b0, res);
            let on = g.track_changes();
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| nm.integrate_point_cloud(&mut g, &org, &pc))) {
                if !thick(&hull, res) { return Ok(()); }
                return Err(format!("{} panics: {}", what, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()));
            }
            let (_, mut want, tr) = grown(&g, &b0, empty, res, &old, 0.0, &track, &what)?;
            for p in ps.iter().chain(std::iter::once(&org)) {
                let c = g.cell_from_point(p);
                for i in 0..N { ck!(c[i] >= 0 && (c[i] as usize) < g.data.shape()[i], "{}: the point {:?} is outside of the grown map {:?}", what, p, g.bounds); }
            }
            let (f, o) = union(&org, &ps, &g.bounds, res, nm.max_range);
            for c in &f { let k = key(c); let v = match want.get(&k) { Some(v) => *v, None => return Err(format!("{}: ray cell {:?} outside of the map", what, k)) }; want.insert(k, (v + nm.miss_probability_logodds).max(nm.min_probability_logodds)); }
            for c in &o { let k = key(c); let v = match want.get(&k) { Some(v) => *v, None => return Err(format!("{}: end cell {:?} outside of the map", what, k)) }; want.insert(k, (v + nm.hit_probability_logodds).min(nm.max_probability_logodds)); }
            if values {
                for (k, v) in &want { let r = g.data[ix(k).unwrap()]; ck!(r == *v || (r.is_nan() && v.is_nan()), "{}: cell {:?} ({}) holds {} instead of {}", what, k, if o.contains(&mkc(k)) { "an end" } else if f.contains(&mkc(k)) { "passed" } else { "untouched" }, r, v); }
            } else {
                let got = g.changed_cells();
                ck!(g.track_changes() == on, "{}: tracking was switched", what);
                ck!(got.len() >= tr.len() && got[..tr.len()] == tr[..], "{}: the cells tracked before {:?} became {:?}", what, tr, got);
                let new = &got[tr.len()..];
                let set: HashSet<C> = new.iter().cloned().collect();
                ck!(set.len() == new.len(), "{}: a changed cell is listed twice: {:?}", what, new);
                let touched: HashSet<C> = if on { f.union(&o).cloned().collect() } else { HashSet::new() };
                ck!(set == touched, "{}: the changed cells are {:?}, the touched ones {:?}", what, set, touched);
            }
            old = want; track = g.changed_cells(); empty = false;
            if s.pick(&format!("again{}", turn), 3) == 0 { break; }
        }
        Ok(())
    }
    pub fn c22(s: &mut Src) -> Result<(), String> {
        let Start { mut g, track, .. } = start(s, true, false);
        let d = g.data.clone();
        ck!(g.changed_cells() == track && g.changed_cells() == track, "the list of changed cells is {:?}, not {:?}", g.changed_cells(), track);
        let on = s.bool("on");
        g.set_track_changes(on);
        ck!(g.track_changes() == on && g.changed_cells() == track, "switching tracking {} gives {} and {:?}", on, g.track_changes(), g.changed_cells());
        let big = s.big;
        let mut more: Vec<C> = (0..s.pick("more", 5)).map(|j| cell(s, &format!("more.{}", j), -5, 5)).collect();
        if big { let n = s.int_with("nmore", |s| s.big_size(200_000)).max(0).min(200_004); let mut f = s.filler("mores"); for _ in 0..n { more.push(cell(&mut f, "", -5, 5)); } }
        g.add_changed_cells(more.clone());
        let mut all = track; all.extend(more);
        ck!(g.changed_cells() == all && g.track_changes() == on, "adding gives {:?}, not {:?}", g.changed_cells(), all);
        g.clear_changed_cells();
        ck!(g.changed_cells().is_empty() && g.track_changes() == on && g.data == d, "clearing leaves {:?}", g.changed_cells());
        c22i(s)
    }
    pub fn c17(s: &mut Src) -> Result<(), String> {
        let nm = model(s);
        let res = 1.0;
        let mut mx = P::origin(); for i in 0..N { mx[i] = 3.0; }
        let v = s.f32_with("value", |s| s.wild_f32());
        if v.is_nan() { return Ok(()); }
        let mut g = GM::new(res, B { min: P::origin(), max: mx }, 3, v);
        let mut c = C::origin(); for i in 0..N { c[i] = s.int(&format!("c.{}", i), 0, 2) as isize; }
        let (h, m, lo, hi) = (nm.hit_probability_logodds, nm.miss_probability_logodds, nm.min_probability_logodds, nm.max_probability_logodds);
        let smaller = |a: f32, b: f32| if a.is_nan() { b } else if b.is_nan() { a } else if a <= b { a } else { b };
        let larger = |a: f32, b: f32| if a.is_nan() { b } else if b.is_nan() { a } else if a >= b { a } else { b };
        let occ = |nm: &LidarNoiseModel, g: &GM, c: &C| -> bool { <LidarNoiseModel as NoiseModel<$U, $IX>>::occupied(nm, g, c) };
        let d0 = <LidarNoiseModel as NoiseModel<$U, $IX>>::default_cell_value(&nm);
        ck!(d0 == 0.0, "unknown cells start at {}", d0);
        ck!(occ(&nm, &g, &c) == (v > nm.occupied_threshold_logodds), "a cell at {} with threshold {} counts as {}", v, nm.occupied_threshold_logodds, occ(&nm, &g, &c));
        let eq = |a: f32, b: f32| a == b || (a.is_nan() && b.is_nan());
        let mut want = v;
        for j in 0..4 {
            let hit = s.bool(&format!("kind{}", j));
            let before = want;
            // which NaN handling min and max have is left open: an addition of opposite infinities ends the case
            if (want + if hit { h } else { m }).is_nan() { break; }
            if hit { nm.integrate_hit(&mut g, &c); want = smaller(want + h, hi); } else { nm.integrate_miss(&mut g, &c); want = larger(want + m, lo); }
            let r = g.get(&c);
            ck!(eq(r, want), "a {} on {} with step {} and limits {} to {} gives {} instead of {}", if hit { "hit" } else { "miss" }, before, if hit { h } else { m }, lo, hi, r, want);
            for k in cells(g.data.shape()) { if k != key(&c) { ck!(eq(g.get(&mkc(&k)), v), "an update of {:?} changes {:?}", c, k); } }
            ck!(g.changed_cells().is_empty(), "an update changes the list of changed cells");
        }
        // probabilities
        let p: Vec<f32> = (0..5).map(|j| small_prob(s, &format!("p{}", j))).collect();
        let mr = s.f32_with("range", |s| s.wild_f32());
        let n = LidarNoiseModel::new(p[0], p[1], p[2], p[3], p[4], mr);
        for (nm, a, x) in [("hit", n.hit_probability_logodds, p[0]), ("miss", n.miss_probability_logodds, p[1]), ("minimum", n.min_probability_logodds, p[2]), ("maximum", n.max_probability_logodds, p[3]), ("threshold", n.occupied_threshold_logodds, p[4])].iter() {
            ck!(eq(*a, math::logodds_from_probability(*x)), "the {} log-odds of probability {} is {}", nm, x, a);
        }
        ck!(n.max_range.to_bits() == mr.to_bits() || (n.max_range.is_nan() && mr.is_nan()), "the range {} is stored as {}", mr, n.max_range);
        let k = s.pick("bad", 5) as usize;
        let x = s.f32_with("badp", |s| s.wild_f32());
        let mut q = p.clone(); q[k] = x;
        let r = catch_unwind(|| LidarNoiseModel::new(q[0], q[1], q[2], q[3], q[4], mr));
        ck!(r.is_ok() == (x >= 0.0 && x <= 1.0), "probability {} as argument {} is {}", x, k, if r.is_ok() { "accepted" } else { "rejected" });
        let d = LidarNoiseModel::default();
        let e = <LidarNoiseModel as NoiseModel<$U, $IX>>::default_noise_model();
        for (a, b, x) in [(d.hit_probability_logodds, e.hit_probability_logodds, DEFAULT_HIT_PROBABILITY), (d.miss_probability_logodds, e.miss_probability_logodds, DEFAULT_MISS_PROBABILITY), (d.min_probability_logodds, e.min_probability_logodds, DEFAULT_MIN_PROBABILITY), (d.max_probability_logodds, e.max_probability_logodds, DEFAULT_MAX_PROBABILITY), (d.occupied_threshold_logodds, e.occupied_threshold_logodds, DEFAULT_OCCUPIED_THRESHOLD)].iter() {
            ck!(a == b && *a == math::logodds_from_probability(*x), "the default model stores {} for probability {}", a, x);
        }
        ck!(d.max_range == DEFAULT_MAX_RANGE && e.max_range == DEFAULT_MAX_RANGE, "the default range is {}", d.max_range);
        Ok(())
    }
    fn same_map(a: &GM, b: &GM) -> bool {
        a.data.shape() == b.data.shape() && a.data.iter().zip(b.data.iter()).all(|(x, y)| x.to_bits() == y.to_bits() || x == y || (x.is_nan() && y.is_nan())) && a.resolution == b.resolution && beq(&a.bounds, &b.bounds) && a.tile_size == b.tile_size
            && a.track_changes() == b.track_changes() && a.changed_cells() == b.changed_cells()
    }
    pub fn c23(s: &mut Src) -> Result<(), String> {
        let Start { mut g, res, base, .. } = start(s, true, false);
        if s.pick("off grid", 4) == 0 { for i in 0..N { let d = s.f32_with(&format!("off.{}", i), |s| s.unit() as f32 - 0.5) * res; g.bounds.min[i] += d; g.bounds.max[i] += d; } }
        let mut h = g.clone();
        ck!(same_map(&g, &h), "a cloned map differs");
        let nm = model(s);
        let (mr, nm2) = (nm.max_range, LidarNoiseModel { ..LidarNoiseModel { hit_probability_logodds: nm.hit_probability_logodds, miss_probability_logodds: nm.miss_probability_logodds, min_probability_logodds: nm.min_probability_logodds, max_probability_logodds: nm.max_probability_logodds, occupied_threshold_logodds: nm.occupied_threshold_logodds, max_range: nm.max_range } });
        let mut o = OG { grid_map: g, noise_model: nm };
        for j in 0..if s.big { 60 } else { 6 } {
            let what = s.pick(&format!("op{}", j), 6);
            let c = cell(s, &format!("c{}", j), -2, W + 2);
            match what {
                0 => { let v = stored(s, &format!("v{}", j)); let (a, b) = (catch_unwind(AssertUnwindSafe(|| o.set(&c, v))), catch_unwind(AssertUnwindSafe(|| h.set(&c, v)))); ck!(a.is_ok() == b.is_ok(), "set differs at {:?}", c); }
                1 => { let v = s.bool(&format!("t{}", j)); o.set_track_changes(v); h.set_track_changes(v); }
                2 => { let v = vec![c.clone(), c.clone()]; o.add_changed_cells(v.clone()); h.add_changed_cells(v); }
                3 => { o.clear_changed_cells(); h.clear_changed_cells(); }
                _ => {
                    let (org, ps) = { let w = 6.min(W); let org = { let mut p = P::origin(); for i in 0..N { p[i] = near(s, &format!("o{}.{}", j, i), res, base[i], w); } p };
                        let n = s.pick(&format!("n{}", j), 4); let ps: Vec<P> = (0..n).map(|k| { let mut p = P::origin(); for i in 0..N { p[i] = near(s, &format!("q{}.{}.{}", j, k, i), res, base[i], w); } p }).collect(); (org, ps) };
                    if base.iter().any(|b| b.abs() > 40) { continue; }
                    let pc = <$PC>::from_points(&ps);
                    let a = catch_unwind(AssertUnwindSafe(|| o.integrate_point_cloud(&org, &pc)));
                    let b = catch_unwind(AssertUnwindSafe(|| nm2.integrate_point_cloud(&mut h, &org, &pc)));
                    ck!(a.is_ok() == b.is_ok(), "integrating {:?} from {:?}: one panics", ps, org);
                    if a.is_err() { return Ok(()); }
                    // sets iterate in any order: compare the new changed cells as sets, then continue from equal lists
                    let (x, y): (Vec<C>, Vec<C>) = (o.changed_cells(), h.changed_cells());
                    ck!(x.len() == y.len() && x.iter().cloned().collect::<HashSet<C>>() == y.iter().cloned().collect::<HashSet<C>>(), "the changed cells differ");
                    o.clear_changed_cells(); h.clear_changed_cells(); o.add_changed_cells(y.clone()); h.add_changed_cells(y);
                }
            }
            ck!(same_map(&o.grid_map, &h), "the occupancy map differs from its grid map after operation {} ({}): {:?} / {:?}", j, what, o.grid_map.changed_cells(), h.changed_cells());
            let (a, b) = (catch_unwind(AssertUnwindSafe(|| o.get(&c))), catch_unwind(AssertUnwindSafe(|| h.get(&c))));
            ck!(a.is_ok() == b.is_ok(), "get differs at {:?}", c);
            if let (Ok(x), Ok(y)) = (a, b) {
                ck!(x == y || (x.is_nan() && y.is_nan()), "get gives {} instead of {}", x, y);
            }
            let (a, b) = (catch_unwind(AssertUnwindSafe(|| o.occupied(&c))), catch_unwind(AssertUnwindSafe(|| <LidarNoiseModel as NoiseModel<$U, $IX>>::occupied(&nm2, &h, &c))));
            ck!(a.as_ref().ok() == b.as_ref().ok(), "occupied differs at {:?}: {:?} instead of {:?} (None: it panics)", c, a.ok(), b.ok());
            let p = pt(s, &format!("p{}", j), |s, l| s.grid_coord(l, res, 50));
            ck!(o.resolution() == h.resolution() && beq(&o.bounds(), &h.bounds()) && o.track_changes() == h.track_changes() && o.changed_cells() == h.changed_cells(), "a query differs");
            ck!(o.cell_from_point(&p) == h.cell_from_point(&p) && same_bits(&o.point_from_cell(&c), &h.point_from_cell(&c)), "a conversion differs at {:?} / {:?}", p, c);
        }
        ck!(o.noise_model.max_range == mr, "the model changed");
        // independence of a clone
        let mut a = h.clone();
        if a.data.len() > 0 { let z = C::origin(); let v = h.get(&z); a.set(&z, v + 1.0); ck!(h.get(&z) == v || v.is_nan(), "writing a clone changes the original"); }
        a.add_changed_cells(vec![C::origin()]);
        ck!(h.changed_cells().len() + 1 == a.changed_cells().len(), "a clone shares the list of changed cells");
        // new maps
        let r = s.resolution("r2"); let t = s.int("t2", 0, 1 << 40) as usize;
        let n = OG::new(LidarNoiseModel::default(), r, t);
        ck!(n.grid_map.data.len() == 0 && crate::geom::$b::zero(&n.grid_map.bounds) && n.grid_map.resolution == r && n.grid_map.tile_size == t && !n.track_changes() && n.changed_cells().is_empty(), "a new occupancy map is not an empty map with the given resolution and tile size");
        let c = cell(s, "c.new", -2, 2);
        ck!(catch_unwind(AssertUnwindSafe(|| n.get(&c))).is_err() && catch_unwind(AssertUnwindSafe(|| n.occupied(&c))).is_err(), "a new occupancy map answers for the cell {:?}", c);
        let n = OG::default();
        ck!(n.grid_map.data.len() == 0 && crate::geom::$b::zero(&n.grid_map.bounds) && n.grid_map.resolution == kuba::grid_map::DEFAULT_RESOLUTION && n.grid_map.tile_size == kuba::grid_map::DEFAULT_TILE_SIZE && n.noise_model.max_range == DEFAULT_MAX_RANGE, "the default occupancy map is not as documented");
        Ok(())
    }
}
} }
use nalgebra as na; use ndarray as nd;
dimx!(m2, d2, 2, na::U2, nd::Ix2, Point2, Cell2, Bounds2, CellBounds2, GridMap2f, PointCloud2, LidarOccupancyGridMap2, 9);
dimx!(m3, d3, 3, na::U3, nd::Ix3, Point3, Cell3, Bounds3, CellBounds3, GridMap3f, PointCloud3, LidarOccupancyGridMap3, 6);

fn c09(s: &mut Src) -> Result<(), String> {
    let shape = s.pick("shape", 6);
    let m: Vec<f32> = (0..16).map(|i| { let one = if i % 5 == 0 { 1.0f32 } else { 0.0 }; s.f32_with(&format!("m.{}", i), |s| match shape {
        0 | 1 => s.wild_f32(),
        2 => if s.below(4) == 0 { one + 0.5f32.powi(s.below(24) as i32) } else { one },                 // almost the identity
        3 => if i % 4 == 3 && i < 12 { s.wild_f32() } else { one },                                     // a translation
        4 => if i >= 12 { one } else { s.wild_f32() },                                                   // affine
        _ => if s.below(3) == 0 { s.wild_f32() } else if s.below(3) == 0 { one } else { 0.0 },           // sparse
    }) }).map(|v| if v.is_finite() && v.abs() <= 1e4 { v } else { 0.0 }).collect();
    let big = s.large();
    let n = s.int_with("pts.n", |s| if big { s.big_size(200_000) } else { s.below(9) as i64 }).max(0).min(if big { 200_004 } else { 40 });
    let mut ps = vec![];
    for j in 0..n.min(40) { let mut p = Point3::origin(); for i in 0..3 { p[i] = s.coord_lim(&format!("pts.{}.{}", j, i), 1e4); } ps.push(p); }
    if n > 40 { let mut f = s.filler("fill"); for _ in 40..n { let mut p = Point3::origin(); for i in 0..3 { p[i] = f.coord_lim("", 1e4); } ps.push(p); } }
    let pc = PointCloud3::from_points(&ps);
    let mat = na::Matrix4::<f32>::from_row_slice(&m);
    let t = pc.transform(&mat);
    ck!(t.num_points() == ps.len(), "{} points of {}", t.num_points(), ps.len());
    let o: Vec<Point3> = pc.points_iter().collect();
    for (j, (q, p)) in t.points_iter().zip(&ps).enumerate() {
        ck!((0..3).all(|i| o[j][i].to_bits() == p[i].to_bits()), "the original changed at {}", j);
        for i in 0..3 {
            let (mut w, mut a) = (m[4 * i + 3] as f64, m[4 * i + 3].abs() as f64);
            for k in 0..3 { let x = m[4 * i + k] as f64 * p[k] as f64; w += x; a += x.abs(); }
            ck!((q[i] as f64 - w).abs() <= a * 1e-6 + 1e-37, "point {} {:?} goes to {:?}, row {} gives {}", j, p, q, i, w);
        }
    }
    Ok(())
}

macro_rules! both { ($f:ident) => { |s: &mut Src| if s.dim() == 2 { m2::$f(s) } else { m3::$f(s) } } }
pub fn case_of(p: &str) -> Option<Case> {
    Some(match p {
        "C08" => both!(c08), "C09" => c09, "C10" => both!(c10), "C11" => both!(c11), "C12" => both!(c12), "C13" => both!(c13), "C14" => both!(c14), "C15" => both!(c15),
        "C16" => both!(c16), "C17" => both!(c17), "C22" => both!(c22), "C23" => both!(c23),
        _ => return None,
    })
}
