//! Oracles of C01-C07.
use crate::src::Src;
use crate::Case;
use kuba::*;

pub const L: i64 = 1 << 18;

#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

/// c is the cell nearest to s (in cells), up to rounding.
pub fn nearest(c: isize, s: f64) -> bool { (c as f64 - s).abs() <= 0.5 + (1.0 + s.abs()) * 2f64.powi(-22) }

macro_rules! dim { ($m:ident, $N:expr, $U:ty, $P:ty, $C:ty, $B:ty, $CB:ty, $GM:ty) => {
pub mod $m {
    use super::*;
    #[allow(unused_imports)]
    use kuba::prelude::*;
    pub type P = $P; pub type C = $C; pub type B = $B; pub type CB = $CB;
    pub const N: usize = $N;
    pub fn pt(s: &mut Src, l: &str, mut g: impl FnMut(&mut Src, &str) -> f32) -> P { let mut p = P::origin(); for i in 0..N { p[i] = g(s, &format!("{}.{}", l, i)); } p }
    pub fn cell(s: &mut Src, l: &str, lo: i64, hi: i64) -> C { let mut p = C::origin(); for i in 0..N { p[i] = s.int(&format!("{}.{}", l, i), lo, hi) as isize; } p }
    pub fn order(b: &mut B) { for i in 0..N { if b.min[i] > b.max[i] { let t = b.min[i]; b.min[i] = b.max[i]; b.max[i] = t; } } }
    pub fn bx(s: &mut Src, l: &str) -> B {
        let mode = s.pick(&format!("{}.mode", l), 8);
        let mut b = B { min: pt(s, &format!("{}.min", l), |s, l| s.coord(l)), max: pt(s, &format!("{}.max", l), |s, l| s.coord(l)) };
        if mode == 0 { b = B { min: P::origin(), max: P::origin() }; }
        order(&mut b); b
    }
    pub fn gbx(s: &mut Src, l: &str, res: f32, cells: i64) -> B {
        let mut b = B { min: pt(s, &format!("{}.min", l), |s, l| s.grid_coord(l, res, cells)), max: pt(s, &format!("{}.max", l), |s, l| s.grid_coord(l, res, cells)) };
        order(&mut b); b
    }
    pub fn zero(b: &B) -> bool { (0..N).all(|i| b.min[i] == 0.0 && b.max[i] == 0.0) }
    pub fn beq(a: &B, b: &B) -> bool { (0..N).all(|i| a.min[i] == b.min[i] && a.max[i] == b.max[i]) }

    pub fn c01(s: &mut Src) -> Result<(), String> {
        let res = s.resolution("res");
        let pr = s.bool("per axis");
        let rn = if pr { let mut r = P::origin(); for i in 0..N { r[i] = s.resolution(&format!("res{}", i)); } r } else { let mut r = P::origin(); for i in 0..N { r[i] = res; } r };
        let mut p = P::origin(); let mut o = P::origin();
        for i in 0..N { p[i] = s.grid_coord(&format!("p.{}", i), rn[i], L); o[i] = s.grid_coord(&format!("o.{}", i), rn[i], L); }
        let c = cell(s, "c", -L, L);
        let chk = |nm: &str, rr: &dyn Fn(usize) -> f32, pc: &P, cc: &C| -> Result<(), String> {
            for i in 0..N {
                let r = rr(i) as f64;
                let e = c[i] as f64 * r + o[i] as f64;
                ck!((pc[i] as f64 - e).abs() <= r * 2f64.powi(-22) * (1.0 + c[i].abs() as f64 + (o[i] as f64 / r).abs()) + 1e-40,
                    "{}: the point of cell {} is {} on axis {}, not its centre {}", nm, c[i], pc[i], i, e);
                let q = (p[i] as f64 - o[i] as f64) / r;
                ck!(nearest(cc[i], q), "{}: the cell of {} (offset {}, resolution {}) is {} on axis {}, but its position is {} cells", nm, p[i], o[i], r, cc[i], i, q);
            }
            Ok(())
        };
        let mut pc = P::origin(); let mut cc = C::origin();
        for i in 0..N { pc[i] = converter::point_coord_from_cell_coord(c[i], o[i], rn[i]); cc[i] = converter::cell_coord_from_point_coord(p[i], o[i], rn[i]); }
        chk("scalar", &|i| rn[i], &pc, &cc)?;
        chk("per axis", &|i| rn[i], &converter::point_from_cell_n(&c, &o, &rn), &converter::cell_from_point_n(&p, &o, &rn))?;
        if !pr {
            chk("points", &|_| res, &converter::point_from_cell(&c, &o, res), &converter::cell_from_point(&p, &o, res))?;
            let mut mx = o; for i in 0..N { mx[i] += res; }
            let g = <$GM>::from_ndarray(Default::default(), res, B { min: o, max: mx }, s.int("tile", 1, 100) as usize);
            chk("grid map", &|_| res, &g.point_from_cell(&c), &g.cell_from_point(&p))?;
            let m = OccupancyGridMapN::<LidarNoiseModel, $U, _> { grid_map: g, noise_model: LidarNoiseModel::default() };
            chk("occupancy map", &|_| res, &m.point_from_cell(&c), &m.cell_from_point(&p))?;
        }
        Ok(())
    }
    pub fn c02(s: &mut Src) -> Result<(), String> {
        let res = s.resolution("res");
        let mut rn = P::origin(); for i in 0..N { rn[i] = s.resolution(&format!("res{}", i)); }
        let mut p = P::origin(); let mut o = P::origin(); let mut q = P::origin(); let mut w = P::origin();
        for i in 0..N {
            p[i] = s.grid_coord(&format!("p.{}", i), res, L); o[i] = s.grid_coord(&format!("o.{}", i), res, L);
            q[i] = s.grid_coord(&format!("q.{}", i), rn[i], L); w[i] = s.grid_coord(&format!("w.{}", i), rn[i], L);
        }
        let c = cell(s, "c", -L, L);
        let b = converter::cell_from_point(&converter::point_from_cell(&c, &o, res), &o, res);
        ck!(b == c, "cell {:?} comes back as {:?} (offset {:?}, resolution {})", c, b, o, res);
        let b = converter::cell_from_point_n(&converter::point_from_cell_n(&c, &w, &rn), &w, &rn);
        ck!(b == c, "per axis: cell {:?} comes back as {:?} (offset {:?}, resolution {:?})", c, b, w, rn);
        let r = converter::point_from_cell(&converter::cell_from_point(&p, &o, res), &o, res);
        for i in 0..N { ck!((r[i] as f64 - p[i] as f64).abs() / res as f64 <= 0.5 + 2f64.powi(-20) * (1.0 + ((p[i].abs() + o[i].abs()) / res) as f64), "the point {} is far from its cell's point {} (offset {}, resolution {})", p[i], r[i], o[i], res); }
        let r = converter::point_from_cell_n(&converter::cell_from_point_n(&q, &w, &rn), &w, &rn);
        for i in 0..N { ck!((r[i] as f64 - q[i] as f64).abs() / rn[i] as f64 <= 0.5 + 2f64.powi(-20) * (1.0 + ((q[i].abs() + w[i].abs()) / rn[i]) as f64), "per axis: the point {} is far from its cell's point {} (offset {}, resolution {})", q[i], r[i], w[i], rn[i]); }
        Ok(())
    }
    pub fn c03(s: &mut Src) -> Result<(), String> {
        let (a, b) = (bx(s, "a"), bx(s, "b"));
        let v = a.enclosing(&b);
        if zero(&a) { ck!(beq(&v, &b), "enclosing of the empty box and {:?} is {:?}", b, v); return Ok(()); }
        for i in 0..N {
            ck!(v.min[i] <= a.min[i] && v.min[i] <= b.min[i] && v.max[i] >= a.max[i] && v.max[i] >= b.max[i], "{:?} does not contain {:?} and {:?}", v, a, b);
            ck!((v.min[i] == a.min[i] || v.min[i] == b.min[i]) && (v.max[i] == a.max[i] || v.max[i] == b.max[i]), "{:?} is not the smallest box around {:?} and {:?}", v, a, b);
        }
        Ok(())
    }
    pub fn c04(s: &mut Src) -> Result<(), String> {
        let (a, b) = if s.bool("near") { let r = s.resolution("r"); (gbx(s, "a", r, 20), gbx(s, "b", r, 20)) } else { (bx(s, "a"), bx(s, "b")) };
        let mut b = b;
        for i in 0..N {
            let k = s.int_with(&format!("ulps.{}", i), |s| if s.below(8) == 0 { s.below(5) as i64 - 2 } else { 100 });
            if k.abs() > 4 { continue; }
            let step = |v: f32| { let mut v = v; for _ in 0..k.abs() { v = if k > 0 { crate::src::up(v) } else { crate::src::down(v) }; } v };
            if s.bool(&format!("side.{}", i)) { let v = step(a.max[i]); if v <= b.max[i] { b.min[i] = v; } } else { let v = step(a.min[i]); if v >= b.min[i] { b.max[i] = v; } }
        }
        let v = a.overlapping(&b);
        let (mut empty, mut surely) = (false, true);
        let mut e = B { min: P::origin(), max: P::origin() };
        for i in 0..N {
            let (lo, hi) = (if a.min[i] > b.min[i] { a.min[i] } else { b.min[i] }, if a.max[i] < b.max[i] { a.max[i] } else { b.max[i] });
            // adjacent numbers differ by the rounding of a single operation
            if hi <= lo || hi.is_finite() && hi <= crate::src::up(lo) || (hi as f64 - lo as f64) <= 2f64.powi(-24) { empty = true; }
            let d = hi as f64 - lo as f64;
            if !(d > 2f64.powi(-20) * (hi.abs().max(lo.abs()).max(1.0) as f64)) { surely = false; }
            e.min[i] = lo; e.max[i] = hi;
        }
        if empty { ck!(zero(&v), "disjoint or touching {:?} and {:?} overlap in {:?}", a, b, v); }
        else if surely { ck!(beq(&v, &e), "{:?} and {:?} overlap in {:?}, not {:?}", a, b, v, e); }
        else { ck!(beq(&v, &e) || zero(&v), "{:?} and {:?} overlap in {:?}", a, b, v); }
        Ok(())
    }
    pub fn c05(s: &mut Src) -> Result<(), String> {
        let res = s.resolution("res");
        let b = gbx(s, "b", res, L);
        let expand = s.bool("expand");
        let v = b.discretized(res, expand);
        for i in 0..N {
            let (sn, sx, lo, hi) = (b.min[i] as f64 / res as f64, b.max[i] as f64 / res as f64, v.min[i] as f64 / res as f64, v.max[i] as f64 / res as f64);
            let (tn, tx) = (2f64.powi(-21) * (1.0 + sn.abs()), 2f64.powi(-21) * (1.0 + sx.abs()));
            let ctx = || format!("{:?} discretized to {} (expand {}) is {:?}", b, res, expand, v);
            ck!(lo <= sn + tn && hi >= sx - tx, "{}: does not contain the box", ctx());
            ck!(lo > sn - 1.0 - tn && hi <= sx + 1.0 + tx, "{}: more than a cell larger", ctx());
            let (kn, kx) = (sn.round(), sx.round());
            if (sn - kn).abs() * 2f64.powi(25) <= sn.abs() { ck!(v.min[i] == b.min[i], "{}: moved a minimum face on a multiple", ctx()); }
            if (sx - kx).abs() * 2f64.powi(25) <= sx.abs() {
                if expand { ck!((hi - sx - 1.0).abs() <= tx, "{}: a maximum face on a multiple must move by one cell", ctx()); }
                else { ck!(v.max[i] == b.max[i], "{}: moved a maximum face on a multiple", ctx()); }
            }
            if sn.floor() + tn < sn && sn < sn.floor() + 1.0 - tn { ck!((lo - sn.floor()).abs() <= tn, "{}: minimum not at the previous multiple", ctx()); }
            if sx.ceil() - 1.0 + tx < sx && sx < sx.ceil() - tx { ck!((hi - sx.ceil()).abs() <= tx, "{}: maximum not at the next multiple", ctx()); }
            ck!((lo - lo.round()).abs() <= 2.0 * tn && (hi - hi.round()).abs() <= 2.0 * tx, "{}: a face is not on a multiple", ctx());
        }
        Ok(())
    }
    pub fn c06(s: &mut Src) -> Result<(), String> {
        let m = isize::MAX as i64 / 4;
        let t = s.int("tile", 1, m);
        let small = s.bool("small");
        let lim = if small { 1000 } else { m };
        let mut a = CB { min: cell(s, "cb.min", -lim, lim), max: cell(s, "cb.max", -lim, lim) };
        for i in 0..N { if a.min[i] > a.max[i] { let x = a.min[i]; a.min[i] = a.max[i]; a.max[i] = x; } }
        let v = a.discretized(t as usize);
        for i in 0..N {
            let (lo, hi) = ((a.min[i] as i64).div_euclid(t) * t, -((-(a.max[i] as i64)).div_euclid(t) * t));
            ck!(v.min[i] as i64 == lo && v.max[i] as i64 == hi, "{:?} rounded to tiles of {} is {:?}: expected {}..{} on axis {}", a, t, v, lo, hi, i);
        }
        Ok(())
    }
    pub fn c07(s: &mut Src) -> Result<(), String> {
        let res = s.resolution("res");
        let mut rn = P::origin(); for i in 0..N { rn[i] = s.resolution(&format!("res{}", i)); }
        let cb = CB { min: cell(s, "cb.min", -L, L), max: cell(s, "cb.max", -L, L) };
        let close = |x: f32, c: isize, r: f32| (x as f64 / r as f64 - c as f64).abs() <= 2f64.powi(-21) * (1.0 + c.abs() as f64);
        let chk = |nm: &str, v: &B, mn: &C, mx: &C, r: &dyn Fn(usize) -> f32| -> Result<(), String> {
            for i in 0..N { ck!(close(v.min[i], mn[i], r(i)) && close(v.max[i], mx[i], r(i)), "{} of cells {:?} to {:?} is {:?}", nm, mn, mx, v); }
            Ok(())
        };
        chk("from_cell_bounds", &B::from_cell_bounds(&cb, res), &cb.min, &cb.max, &|_| res)?;
        chk("from_cell_bounds_n", &B::from_cell_bounds_n(&cb, &rn), &cb.min, &cb.max, &|i| rn[i])?;
        let (sz, off) = (cell(s, "size", 0, L / 2), cell(s, "offset", -L / 2, L / 2));
        let mut mx = off; for i in 0..N { mx[i] += sz[i]; }
        chk("from_size_cells", &B::from_size_cells(&sz, res, &off), &off, &mx, &|_| res)?;
        chk("from_size_cells_n", &B::from_size_cells_n(&sz, &rn, &off), &off, &mx, &|i| rn[i])?;
        let b = gbx(s, "b", res, L);
        let v = CB::from_bounds(&b, res);
        for i in 0..N { ck!(nearest(v.min[i], b.min[i] as f64 / res as f64) && nearest(v.max[i], b.max[i] as f64 / res as f64), "from_bounds of {:?} at {} is {:?}", b, res, v); }
        let (mn, mx) = (pt(s, "min", |s, l| s.f32_with(l, |s| s.wild_f32())), pt(s, "max", |s, l| s.f32_with(l, |s| s.wild_f32())));
        let mx = if s.bool("samecorner") { mn } else { mx };
        let good = (0..N).all(|i| mn[i] <= mx[i]);
        let r = std::panic::catch_unwind(|| B::new(mn, mx));
        ck!(r.is_ok() == good, "Bounds::new({:?}, {:?}) {}", mn, mx, if good { "is rejected" } else { "is accepted" });
        if let Ok(v) = r { ck!((0..N).all(|i| v.min[i].to_bits() == mn[i].to_bits() && v.max[i].to_bits() == mx[i].to_bits()), "Bounds::new({:?}, {:?}) stores {:?}", mn, mx, v); }
        let (cn, cx) = (cell(s, "cmin", i64::MIN, i64::MAX), cell(s, "cmax", i64::MIN, i64::MAX));
        let good = (0..N).all(|i| cn[i] <= cx[i]);
        let r = std::panic::catch_unwind(|| CB::new(cn, cx));
        ck!(r.is_ok() == good, "CellBounds::new({:?}, {:?}) {}", cn, cx, if good { "is rejected" } else { "is accepted" });
        if let Ok(v) = r { ck!(v.min == cn && v.max == cx, "CellBounds::new({:?}, {:?}) stores {:?}", cn, cx, v); }
        ck!(zero(&B::empty()), "the empty box is {:?}", B::empty());
        ck!(CB::empty().min == C::origin() && CB::empty().max == C::origin(), "the empty cell bounds are {:?}", CB::empty());
        let a = bx(s, "a");
        let mut a2 = a.clone();
        ck!(a2 == a && beq(&a, &a2), "a cloned box differs: {:?}", a2);
        let k = s.pick("axis", 2 * N as i64) as usize;
        let x = s.coord("x");
        let old = if k < N { a.min[k] } else { a.max[k - N] };
        if k < N { a2.min[k] = x } else { a2.max[k - N] = x }
        ck!((a2 == a) == (x == old), "{:?} == {:?} is {}", a, a2, a2 == a);
        let mut cb2 = cb.clone();
        ck!(cb2 == cb, "cloned cell bounds differ");
        let y = s.int("y", -L, L) as isize;
        let oldc = if k < N { cb.min[k] } else { cb.max[k - N] };
        if k < N { cb2.min[k] = y } else { cb2.max[k - N] = y }
        ck!((cb2 == cb) == (y == oldc), "{:?} == {:?} is {}", cb, cb2, cb2 == cb);
        Ok(())
    }
}
} }
dim!(d2, 2, nalgebra::U2, Point2, Cell2, Bounds2, CellBounds2, GridMap2f);
dim!(d3, 3, nalgebra::U3, Point3, Cell3, Bounds3, CellBounds3, GridMap3f);

macro_rules! both { ($f:ident) => { |s: &mut Src| if s.dim() == 2 { d2::$f(s) } else { d3::$f(s) } } }

pub fn case_of(p: &str) -> Option<Case> {
    Some(match p {
        "C01" => both!(c01), "C02" => both!(c02), "C03" => both!(c03), "C04" => both!(c04), "C05" => both!(c05), "C06" => both!(c06), "C07" => both!(c07),
        _ => return None,
    })
}
