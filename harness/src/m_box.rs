//! Monitors of bounding boxes: set operations (C20), measures (C21), pixel iteration (C22).
use crate::cx::{guard, Cx};
use crate::dict;
use crate::num::*;
use crate::rng::Rng;
use pbrtrs::verif_core::boundingbox::{self as bb, Bounds2, Bounds3};
use pbrtrs::verif_core::point::{Point2, Point3};

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    match &cx.id[..] {
        "C20" => {
            if i % 8 == 1 {
                c20_int(cx, &mut r)
            } else if i % 2 == 0 {
                c20::<Float>(cx, &mut r)
            } else {
                c20::<i64>(cx, &mut r)
            }
        }
        "C21" => {
            if i % 9 == 2 {
                c21_int(cx, &mut r);
            } else if i % 3 < 2 {
                c21::<Float>(cx, &mut r);
            } else {
                c21::<i64>(cx, &mut r)
            }
        }
        _ => c22(cx, &mut r, i),
    }
}

type A = [f64; 3];
/// reference box
#[derive(Clone, Copy, PartialEq, Debug)]
struct B {
    lo: A,
    hi: A,
}

impl B {
    fn of(a: A, b: A) -> B {
        let mut x = B { lo: a, hi: b };
        for k in 0..3 {
            x.lo[k] = a[k].min(b[k]);
            x.hi[k] = a[k].max(b[k]);
        }
        x
    }
    fn has(&self, p: A) -> bool {
        (0..3).all(|k| self.lo[k] <= p[k] && p[k] <= self.hi[k])
    }
    fn has_excl(&self, p: A) -> bool {
        (0..3).all(|k| self.lo[k] <= p[k] && p[k] < self.hi[k])
    }
}

fn pt<T: El>(a: A) -> Point3<T> {
    Point3::new(T::of(a[0]), T::of(a[1]), T::of(a[2]))
}
fn arr<T: El>(p: &Point3<T>) -> A {
    [p.x.f(), p.y.f(), p.z.f()]
}
fn see<T: El>(b: &Bounds3<T>) -> B {
    B { lo: arr(&b.p_min), hi: arr(&b.p_max) }
}

fn coord<T: El>(r: &mut Rng, grid: bool, cap: f64) -> f64 {
    if grid {
        r.range(-3, 3) as f64
    } else {
        T::gen(r, cap).f()
    }
}

fn c20<T: El>(cx: &mut Cx, r: &mut Rng) {
    let grid = r.pct(60);
    let cap = if T::INT { 4e15 } else { *r.pick(&[10.0, 1e9, 1e36]) };
    let g = |r: &mut Rng| [coord::<T>(r, grid, cap), coord::<T>(r, grid, cap), coord::<T>(r, grid, cap)];
    let (mut a, mut b) = (g(r), g(r));
    let (mut c, mut d) = (g(r), g(r));
    match r.below(10) {
        0 => b = a,                        // a point
        1 => b[r.below(3)] = a[0],         // maybe flat
        2 => {
            let k = r.below(3);
            b[k] = a[k]; // flat
        }
        3 => {
            // shares a face coordinate with the first
            let k = r.below(3);
            c[k] = if r.pct(50) { a[k] } else { b[k] };
        }
        4 => {
            // nested or equal
            c = a;
            d = b;
        }
        _ => (),
    }
    if !T::INT && r.pct(8) {
        // unbounded on some sides
        cx.rep.count("boxes with infinite faces");
        for _ in 0..1 + r.below(4) {
            let k = r.below(3);
            let v = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY]);
            match r.below(4) {
                0 => a[k] = v,
                1 => b[k] = v,
                2 => c[k] = v,
                _ => d[k] = v,
            }
        }
    }
    let (x, y) = (B::of(a, b), B::of(c, d));
    let inp = format!("{} box {:?} {:?}, box {:?} {:?}", T::NAME, a, b, c, d);
    cx.rep.eval(key(&[a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2], d[0], d[1], d[2], T::INT as u8 as f64]), x != y);
    cx.rep.sample(|| inp.clone());
    let mk = guard(|| (Bounds3::new(pt::<T>(a), pt::<T>(b)), Bounds3::new(pt::<T>(c), pt::<T>(d))));
    let (bx, by) = match mk {
        Ok(v) => v,
        Err(e) => {
            cx.violate(format!("building a box panicked: {}", e), inp);
            return;
        }
    };
    cx.ensure(see(&bx) == x && see(&by) == y, || (format!("box of two corners is {:?} / {:?}", see(&bx), see(&by)), inp.clone()));
    let p1 = guard(|| see(&Bounds3::new_pt(pt::<T>(a))));
    cx.ensure(p1 == Ok(B { lo: a, hi: a }), || (format!("box of one point is {:?}", p1), inp.clone()));
    // union
    let want = B::of([x.lo[0].min(y.lo[0]), x.lo[1].min(y.lo[1]), x.lo[2].min(y.lo[2])], [x.hi[0].max(y.hi[0]), x.hi[1].max(y.hi[1]), x.hi[2].max(y.hi[2])]);
    for (op, u) in [("union", guard(|| see(&bx.union(&by)))), ("union (reversed)", guard(|| see(&by.union(&bx))))] {
        cx.rep.count("unions checked");
        cx.ensure(u == Ok(want), || (format!("{} is {:?}, should be {:?}", op, u, want), inp.clone()));
    }
    let up = guard(|| see(&bx.union_pt(&pt::<T>(c))));
    let wp = B::of([x.lo[0].min(c[0]), x.lo[1].min(c[1]), x.lo[2].min(c[2])], [x.hi[0].max(c[0]), x.hi[1].max(c[1]), x.hi[2].max(c[2])]);
    cx.ensure(up == Ok(wp), || (format!("union with point {:?} is {:?}, should be {:?}", c, up, wp), inp.clone()));
    // overlap
    let some = (0..3).all(|k| x.lo[k] <= y.hi[k] && y.lo[k] <= x.hi[k]);
    cx.rep.count(if some { "overlapping pairs" } else { "disjoint pairs" });
    let o = guard(|| (bx.overlaps(&by), by.overlaps(&bx)));
    cx.ensure(o == Ok((some, some)), || (format!("overlaps gives {:?}, should be {}", o, some), inp.clone()));
    // intersection, judged by membership of probe points
    let ri = guard(|| (bx.intersect(&by), by.intersect(&bx)));
    let (ix, iy) = match ri {
        Ok(v) => v,
        Err(e) => {
            cx.violate(format!("intersection panicked: {}", e), inp);
            return;
        }
    };
    let mut axis: [Vec<f64>; 3] = Default::default();
    for k in 0..3 {
        let mut v = vec![x.lo[k], x.hi[k], y.lo[k], y.hi[k]];
        let mut w = v.clone();
        for i in 0..4 {
            for j in 0..i {
                w.push(T::of((v[i] + v[j]) / 2.0).f());
            }
        }
        for q in v.iter() {
            let e = if T::INT { 1.0 } else { q.abs().max(1e-3) * EPS * 4.0 };
            w.push(T::of(q + e).f());
            w.push(T::of(q - e).f());
        }
        v = w;
        v.retain(|q| !q.is_nan());
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        axis[k] = v;
    }
    let probe = |cx: &mut Cx, p: A| {
        cx.rep.count("membership probes");
        let q = pt::<T>(p);
        let res = guard(|| (bx.inside(&q), bx.inside_exclusive(&q), ix.inside(&q), iy.inside(&q)));
        let want = (x.has(p), x.has_excl(p), x.has(p) && y.has(p), x.has(p) && y.has(p));
        if res != Ok(want) {
            cx.violate(
                format!("point {:?}: (inside first, inside first exclusively, inside intersection, reversed) = {:?}, should be {:?}", p, res, want),
                inp.clone(),
            );
        }
    };
    for _ in 0..24 {
        let p = [*r.pick(&axis[0]), *r.pick(&axis[1]), *r.pick(&axis[2])];
        probe(cx, p);
    }
    for k in 0..8 {
        let f = |b: &B| [if k & 1 > 0 { b.lo[0] } else { b.hi[0] }, if k & 2 > 0 { b.lo[1] } else { b.hi[1] }, if k & 4 > 0 { b.lo[2] } else { b.hi[2] }];
        probe(cx, f(&x));
        probe(cx, f(&y));
        // corners of the region common to both (or of the gap between them)
        let g = B { lo: [x.lo[0].max(y.lo[0]), x.lo[1].max(y.lo[1]), x.lo[2].max(y.lo[2])], hi: [x.hi[0].min(y.hi[0]), x.hi[1].min(y.hi[1]), x.hi[2].min(y.hi[2])] };
        probe(cx, f(&g));
    }
    // faces exactly: each face point in isolation
    for k in 0..3 {
        for hi in [false, true] {
            let mut p = [0.0; 3];
            for j in 0..3 {
                let m = T::of((x.lo[j] + x.hi[j]) / 2.0).f();
                p[j] = if m.is_nan() { 0.0 } else { m };
            }
            p[k] = if hi { x.hi[k] } else { x.lo[k] };
            probe(cx, p);
        }
    }
    // corners
    let mut want: Vec<A> = (0..8)
        .map(|k| [if k & 1 > 0 { x.lo[0] } else { x.hi[0] }, if k & 2 > 0 { x.lo[1] } else { x.hi[1] }, if k & 4 > 0 { x.lo[2] } else { x.hi[2] }])
        .collect();
    let got = guard(|| (0..8).map(|k| arr(&bx.corner(k))).collect::<Vec<A>>());
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    cx.rep.count("corner sets checked");
    let ok = match got.clone() {
        Ok(mut g) => {
            g.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
            g == want
        }
        Err(_) => false,
    };
    cx.ensure(ok, || (format!("corners are {:?}", got), inp.clone()));
    // expansion
    let dl = if !T::INT && r.pct(20) { T::of(any_float(r, 36.0).f().abs()) } else { T::of(T::gen(r, 1e3).f().abs()) };
    let df = dl.f();
    cx.rep.count("expansions checked");
    match guard(|| see(&bx.expand(dl))) {
        Ok(e) => {
            let ok = (0..3).all(|k| {
                same::<T>(e.lo[k], x.lo[k] - df, x.lo[k].abs() + df, 2.0) && same::<T>(e.hi[k], x.hi[k] + df, x.hi[k].abs() + df, 2.0)
            });
            cx.ensure(ok, || (format!("expanded by {}: {:?}", df, e), inp.clone()));
        }
        Err(e) => cx.violate(format!("expansion by {} panicked: {}", df, e), inp.clone()),
    }
}

/// Boxes over the whole 64-bit range.
fn c20_int(cx: &mut Cx, r: &mut Rng) {
    let g = |r: &mut Rng| [any_int(r), any_int(r), any_int(r)];
    let (a, b, mut c, d) = (g(r), g(r), g(r), g(r));
    if r.pct(40) {
        let k = r.below(3);
        c[k] = a[k].saturating_add(r.range(-1, 1));
    }
    let inp = format!("i64 box {:?} {:?}, box {:?} {:?}", a, b, c, d);
    cx.rep.eval(key(&[a[0] as f64, a[1] as f64, a[2] as f64, b[0] as f64, b[1] as f64, b[2] as f64, c[0] as f64, d[0] as f64]), true);
    cx.rep.sample(|| inp.clone());
    let q = |v: [i64; 3]| Point3::new(v[0], v[1], v[2]);
    let lo = |a: [i64; 3], b: [i64; 3]| [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])];
    let hi = |a: [i64; 3], b: [i64; 3]| [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])];
    let (xl, xh, yl, yh) = (lo(a, b), hi(a, b), lo(c, d), hi(c, d));
    let v = |b: &Bounds3<i64>| ([b.p_min.x, b.p_min.y, b.p_min.z], [b.p_max.x, b.p_max.y, b.p_max.z]);
    let inb = |l: [i64; 3], h: [i64; 3], p: [i64; 3]| (0..3).all(|k| l[k] <= p[k] && p[k] <= h[k]);
    let some = (0..3).all(|k| xl[k] <= yh[k] && yl[k] <= xh[k]);
    let res = guard(|| {
        let (x, y) = (Bounds3::new(q(a), q(b)), Bounds3::new(q(c), q(d)));
        (v(&x), v(&x.union(&y)), v(&x.union_pt(&q(c))), x.overlaps(&y), y.overlaps(&x))
    });
    let want = ((xl, xh), (lo(xl, yl), hi(xh, yh)), (lo(xl, c), hi(xh, c)), some, some);
    cx.rep.count("full-range integer boxes checked");
    cx.ensure(res == Ok(want), || (format!("box, union, union with point, overlaps: {:?}, should be {:?}", res, want), inp.clone()));
    let near = |r: &mut Rng, k: usize| (*r.pick(&[xl[k], xh[k], yl[k], yh[k], xl[k].max(yl[k]), xh[k].min(yh[k])])).saturating_add(r.range(-1, 1));
    for _ in 0..12 {
        let p = [near(r, 0), near(r, 1), near(r, 2)];
        let both = inb(xl, xh, p) && inb(yl, yh, p);
        let want = (inb(xl, xh, p), (0..3).all(|k| xl[k] <= p[k] && p[k] < xh[k]), both, both);
        let res = guard(|| {
            let (x, y) = (Bounds3::new(q(a), q(b)), Bounds3::new(q(c), q(d)));
            (x.inside(&q(p)), x.inside_exclusive(&q(p)), x.intersect(&y).inside(&q(p)), y.intersect(&x).inside(&q(p)))
        });
        cx.rep.count("membership probes");
        cx.ensure(res == Ok(want), || (format!("point {:?}: (inside first, exclusively, inside intersection, reversed) = {:?}, should be {:?}", p, res, want), inp.clone()));
    }
    // expansion where it fits
    let e = (any_int(r) >> 1).abs();
    if (0..3).all(|k| xl[k].checked_sub(e).is_some() && xh[k].checked_add(e).is_some()) {
        let want = ([xl[0] - e, xl[1] - e, xl[2] - e], [xh[0] + e, xh[1] + e, xh[2] + e]);
        let res = guard(|| v(&Bounds3::new(q(a), q(b)).expand(e)));
        cx.ensure(res == Ok(want), || (format!("expanded by {}: {:?}", e, res), inp.clone()));
    }
}

/// Measures of integer boxes over the whole range where they fit.
fn c21_int(cx: &mut Cx, r: &mut Rng) {
    let sh = *r.pick(&[1u32, 2, 20, 32, 40, 43]);
    let g = |r: &mut Rng| [any_int(r) >> sh, any_int(r) >> sh, any_int(r) >> sh];
    let (a, mut b) = (g(r), g(r));
    if r.pct(30) {
        // extents that differ by one or not at all
        for k in 1..3 {
            b[k] = a[k].saturating_add((b[0] - a[0]).saturating_add(r.range(-1, 1))).clamp(i64::MIN >> 1, i64::MAX >> 1);
        }
    }
    let (mut l, mut h) = (a, b);
    for k in 0..3 {
        l[k] = a[k].min(b[k]);
        h[k] = a[k].max(b[k]);
    }
    let d: Vec<i128> = (0..3).map(|k| h[k] as i128 - l[k] as i128).collect();
    if d.iter().any(|x| *x > i64::MAX as i128) {
        cx.rep.eval(0, false);
        return;
    }
    let inp = format!("i64 box {:?} {:?}", l, h);
    cx.rep.eval(key(&[l[0] as f64, l[1] as f64, l[2] as f64, h[0] as f64, h[1] as f64, h[2] as f64]), true);
    cx.rep.sample(|| inp.clone());
    cx.rep.count("full-range integer boxes measured");
    let bx = Bounds3 { p_min: Point3::new(l[0], l[1], l[2]), p_max: Point3::new(h[0], h[1], h[2]) };
    let dg = guard(|| {
        let v = bx.diagonal();
        vec![v.x as i128, v.y as i128, v.z as i128]
    });
    cx.ensure(dg.as_ref() == Ok(&d), || (format!("diagonal {:?}, should be {:?}", dg, d), inp.clone()));
    let m = *d.iter().max().unwrap();
    let k = guard(|| bx.maximum_extent());
    cx.ensure(matches!(k, Ok(k) if k < 3 && d[k] == m), || (format!("longest axis is reported as {:?}, extents are {:?}", k, d), inp.clone()));
    let fits = |x: i128| x <= i64::MAX as i128;
    let (xy, yz, zx) = (d[0] * d[1], d[1] * d[2], d[2] * d[0]);
    if fits(xy) && fits(yz) && fits(zx) {
        let area = 2 * (xy + yz + zx);
        if fits(area) {
            let got = guard(|| bx.surface_area() as i128);
            cx.ensure(got == Ok(area), || (format!("surface area {:?}, should be {}", got, area), inp.clone()));
        }
        // in whatever order the factors are taken
        if let Some(vol) = xy.checked_mul(d[2]).filter(|v| fits(*v)) {
            let got = guard(|| bx.volume() as i128);
            cx.ensure(got == Ok(vol), || (format!("volume {:?}, should be {}", got, vol), inp.clone()));
        }
    }
}

fn c21<T: El>(cx: &mut Cx, r: &mut Rng) {
    let cap = if T::INT { 4e4 } else { 1e6 };
    let grid = r.pct(35);
    let far = match if T::INT { 0 } else { r.below(20) } {
        1..=3 => (2f64).powi(r.range(-20, 15) as i32),
        4 | 5 => (2f64).powi(r.range(-90, 90) as i32),
        _ => 1.0,
    };
    if far > 1e9 || far < 1e-9 {
        cx.rep.count("boxes of extreme size");
    }
    // nothing subnormal: there relative accuracy is lost
    let g1 = |r: &mut Rng| {
        let x = T::of(coord::<T>(r, grid, cap) * far).f();
        if x.abs() < 1e-30 { 0.0 } else { x }
    };
    let max = Float::MAX as f64;
    let g = |r: &mut Rng| [g1(r), g1(r), g1(r)];
    let (a, mut b) = (g(r), g(r));
    if r.pct(20) {
        let k = r.below(3);
        b[k] = a[k];
    }
    if r.pct(15) {
        // equal extents on two or three axes
        let e = T::of(T::gen(r, 1e3).f().abs() * far).f();
        for k in 0..3 {
            if r.pct(80) {
                b[k] = T::of(a[k] + e).f();
            }
        }
    }
    let x = B::of(a, b);
    let inp = format!("{} box {:?} {:?}", T::NAME, a, b);
    cx.rep.eval(key(&[a[0], a[1], a[2], b[0], b[1], b[2], T::INT as u8 as f64]), x.lo != x.hi);
    cx.rep.sample(|| inp.clone());
    let bx = Bounds3 { p_min: pt::<T>(x.lo), p_max: pt::<T>(x.hi) };
    let d = [x.hi[0] - x.lo[0], x.hi[1] - x.lo[1], x.hi[2] - x.lo[2]];
    let s = [x.hi[0].abs() + x.lo[0].abs(), x.hi[1].abs() + x.lo[1].abs(), x.hi[2].abs() + x.lo[2].abs()];
    cx.rep.count("boxes measured");
    match guard(|| {
        let v = bx.diagonal();
        [v.x.f(), v.y.f(), v.z.f()]
    }) {
        Ok(v) => cx.ensure((0..3).all(|k| same::<T>(v[k], d[k], d[k].abs(), 2.0)), || (format!("diagonal {:?}, should be {:?}", v, d), inp.clone())),
        Err(e) => cx.violate(format!("diagonal panicked: {}", e), inp.clone()),
    }
    let area = 2.0 * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]);
    let vol = d[0] * d[1] * d[2];
    let measurable = area.max(vol) < max / 64.0;
    if !measurable {
        cx.rep.count("areas and volumes beyond the type");
    }
    for (op, got, want) in [("surface area", guard(|| bx.surface_area().f()), area), ("volume", guard(|| bx.volume().f()), vol)] {
        if !T::INT && !measurable {
            continue;
        }
        match got {
            Ok(v) => cx.ensure(same::<T>(v, want, want.abs(), 16.0), || (format!("{} {:e}, should be {:e}", op, v, want), inp.clone())),
            Err(e) => cx.violate(format!("{} panicked: {}", op, e), inp.clone()),
        }
    }
    let m = d[0].max(d[1]).max(d[2]);
    let k = guard(|| bx.maximum_extent());
    let ok = matches!(k, Ok(k) if k < 3 && same::<T>(d[k], m, m, 4.0));
    cx.ensure(ok, || (format!("longest axis is reported as {:?}, extents are {:?}", k, d), inp.clone()));
    if d[0] == d[1] || d[1] == d[2] || d[0] == d[2] {
        cx.rep.count("boxes with equal extents");
    }
    if T::INT {
        return;
    }
    let f = |v: f64| v as Float;
    let bx = Bounds3 { p_min: pt::<Float>(x.lo), p_max: pt::<Float>(x.hi) };
    // interpolation
    let mut t = [0.0; 3];
    for v in t.iter_mut() {
        *v = share(r, 2.0).f();
    }
    cx.rep.count("interpolations checked");
    match guard(|| arr(&bb::lerp(&bx, &pt::<Float>(t)))) {
        Err(e) => cx.violate(format!("interpolation panicked: {}", e), inp.clone()),
        Ok(p) => {
            let ok = (0..3).all(|k| near(p[k], x.lo[k] * (1.0 - t[k]) + x.hi[k] * t[k], s[k] * (1.0 + 2.0 * t[k].abs()), 8.0));
            cx.ensure(ok, || (format!("interpolation at {:?} gives {:?}", t, p), inp.clone()));
            // relative offset undoes it
            match guard(|| {
                let o = bx.offset(&pt::<Float>(p));
                [o.x.f(), o.y.f(), o.z.f()]
            }) {
                Err(e) => cx.violate(format!("offset panicked: {}", e), inp.clone()),
                Ok(o) => {
                    for k in 0..3 {
                        let (want, tol) = if d[k] > 0.0 {
                            ((p[k] - x.lo[k]) / d[k], (p[k].abs() + s[k]) / d[k] + t[k].abs())
                        } else {
                            (p[k] - x.lo[k], p[k].abs() + s[k])
                        };
                        // the difference itself is exact up to one rounding: tolerance is relative to it
                        let ok = near(o[k], want, want.abs(), 8.0);
                        let ok2 = d[k] <= 0.0 || near(o[k], t[k], tol * (1.0 + t[k].abs()), 16.0);
                        cx.rep.count("offsets checked");
                        cx.ensure(ok && ok2, || (format!("offset of {:?} (interpolated at {:?}) is {:?}", p, t, o), inp.clone()));
                    }
                }
            }
        }
    }
    // an arbitrary point too
    let p = [Float::gen(r, 1e6).f(), Float::gen(r, 1e6).f(), Float::gen(r, 1e6).f()];
    match guard(|| {
        let o = bx.offset(&pt::<Float>(p));
        [o.x.f(), o.y.f(), o.z.f()]
    }) {
        Err(e) => cx.violate(format!("offset panicked: {}", e), inp.clone()),
        Ok(o) => {
            let ok = (0..3).all(|k| {
                let w = if d[k] > 0.0 { (p[k] - x.lo[k]) / d[k] } else { p[k] - x.lo[k] };
                w.abs() > max / 4.0 || near(o[k], w, w.abs(), 8.0)
            });
            cx.ensure(ok, || (format!("offset of {:?} is {:?}", p, o), inp.clone()));
        }
    }
    // a box turned inside out on some axes is empty: its sphere contains nothing
    let mut inv = x;
    let flip = 1 + r.below(7);
    let mut empty = false;
    for k in 0..3 {
        if flip >> k & 1 > 0 && x.lo[k] < x.hi[k] {
            inv.lo[k] = x.hi[k];
            inv.hi[k] = x.lo[k];
            empty = true;
        }
    }
    if empty {
        cx.rep.count("spheres of empty boxes checked");
        let got = guard(|| bb::bounding_sphere(&Bounds3 { p_min: pt::<Float>(inv.lo), p_max: pt::<Float>(inv.hi) }).1.f());
        cx.ensure(got == Ok(0.0), || (format!("the bounding sphere of the empty box {:?} has radius {:?}", inv, got), inp.clone()));
    }
    // bounding sphere
    cx.rep.count("spheres checked");
    match guard(|| {
        let (c, rad) = bb::bounding_sphere(&bx);
        (arr(&c), rad.f())
    }) {
        Err(e) => cx.violate(format!("bounding sphere panicked: {}", e), inp.clone()),
        Ok((c, rad)) => {
            let tot = s[0] + s[1] + s[2];
            let ok = (0..3).all(|k| near(c[k], (x.lo[k] + x.hi[k]) / 2.0, s[k], 4.0));
            let half = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt() / 2.0;
            // squares neither vanish nor overflow
            let judged = half == 0.0 || half * half > TINY * 1e8 && half * half < max / 16.0;
            cx.ensure(ok && (!judged || near(rad, half, half + tot, 8.0)), || (format!("bounding sphere is centred at {:?} with radius {:e}, should have radius {:e}", c, rad, half), inp.clone()));
        }
    }
}

fn c22(cx: &mut Cx, r: &mut Rng, i: u64) {
    // exhaustive over small boxes first, random afterwards
    const N: i64 = 9; // corners -4..=4
    let total = (N * N * N * N) as u64;
    let (x0, y0, x1, y1) = if i < total {
        let mut k = i as i64;
        let mut v = [0i64; 4];
        for q in v.iter_mut() {
            *q = k % N - 4;
            k /= N;
        }
        cx.rep.count("small boxes, enumerated");
        (v[0], v[1], v[2], v[3])
    } else {
        let c = |r: &mut Rng| match r.below(5) {
            0 => (*r.pick(&dict::get().ints)).wrapping_mul(if r.pct(50) { 1 } else { -1 }),
            1 => r.range(-20, 20),
            2 => r.range(-100000, 100000),
            3 => {
                let d = r.range(0, 50);
                if r.pct(50) { i64::MAX - d } else { i64::MIN + d }
            }
            _ => r.range(-4_000_000_000_000, 4_000_000_000_000),
        };
        let e = |r: &mut Rng| match r.below(8) {
            0 => (*r.pick(&dict::get().ints)).clamp(-2, 300),
            1 => r.range(-1000, 0),
            2 => r.range(0, 2),
            3 => r.range(100, 300),
            _ => r.range(0, 40),
        };
        let mut side = |r: &mut Rng| {
            let a = c(r);
            // any two corners, or corners not far apart
            let b = if r.pct(8) { c(r) } else { a.saturating_add(e(r)) };
            (a, b)
        };
        let ((a, w), (b, h)) = (side(r), side(r));
        cx.rep.count("random boxes");
        (a, b, w, h)
    };
    // now and then one long row or column
    let long = |r: &mut Rng| match r.below(6) {
        0 => (*r.pick(&dict::get().ints)).clamp(1, 260_000) + r.range(0, 3),
        1 => r.range(5_000, 262_200),
        _ => 65_530 + r.range(0, 5000),
    };
    let (x1, y1) = match (i >= total, r.below(400)) {
        (true, 0) => (x0.saturating_add(long(r)), y0.saturating_add(r.range(1, 2))),
        (true, 1) => (x0.saturating_add(r.range(1, 2)), y0.saturating_add(long(r))),
        _ => (x1, y1),
    };
    let w = (x1 as i128 - x0 as i128).max(0);
    let n = w.saturating_mul((y1 as i128 - y0 as i128).max(0));
    let want = |k: i128| ((x0 as i128 + k % w) as i64, (y0 as i128 + k / w) as i64);
    let inp = format!("box ({}, {}) .. ({}, {})", x0, y0, x1, y1);
    cx.rep.eval(key(&[x0 as f64, y0 as f64, x1 as f64, y1 as f64]), n > 0);
    cx.rep.count(if n == 0 {
        "empty boxes"
    } else if n == 1 {
        "single pixels"
    } else if n > WATCHED {
        "boxes too large to see the end of"
    } else {
        "pixel boxes"
    });
    cx.rep.sample(|| inp.clone());
    let new = || Bounds2 { p_min: Point2::new(x0, y0), p_max: Point2::new(x1, y1) };
    let how = r.below(8);
    let (p, q, s) = (r.u64(), r.u64(), r.range(2, 40) as usize);
    // the sequence is watched pixel by pixel, and cut one past its proper length
    let res = guard(|| {
        let mut k = 0i128;
        let mut it = new().into_iter();
        let hint = |(lo, hi): (usize, Option<usize>), k: i128| {
            if (lo as i128) > n - k || hi.map_or(false, |hi| (hi as i128) < n - k) {
                return Err(format!("announces {:?} pixels when {} are left", (lo, hi), n - k));
            }
            Ok(())
        };
        loop {
            if k < 3 || k % 97 == 0 {
                hint(it.size_hint(), k)?;
            }
            match it.next() {
                None => break,
                Some(p) => {
                    if k >= n {
                        return Err(format!("yields ({}, {}) after all {} pixels", p.x, p.y, n));
                    }
                    if (p.x, p.y) != want(k) {
                        return Err(format!("pixel {} is ({}, {}), should be {:?}", k, p.x, p.y, want(k)));
                    }
                    k += 1;
                    if k >= WATCHED || n > 10 * WATCHED && k > 10_000 {
                        return Ok(k);
                    }
                }
            }
        }
        if k != n {
            return Err(format!("ends after {} of {} pixels", k, n));
        }
        // and stays at its end
        for _ in 0..3 {
            if let Some(p) = it.next() {
                return Err(format!("resumes with ({}, {}) after its end", p.x, p.y));
            }
            hint(it.size_hint(), n)?;
        }
        if n > if how <= 2 { 20_000 } else { 3000 } {
            return Ok(k);
        }
        // the same pixels through the iterator's other methods, from somewhere on
        let from = (p % (n as u64 + 1)) as i128;
        let mut it = new().into_iter();
        for k in 0..from {
            if it.next().map(|p| (p.x, p.y)) != Some(want(k)) {
                return Err(format!("a second iteration differs at pixel {}", k));
            }
        }
        let rest: Vec<(i64, i64)> = (from..n).map(want).collect();
        let xy = |p: Point2<i64>| (p.x, p.y);
        let differs = |how: &str| Err(format!("{} after {} of {} pixels gives other pixels", how, from, n));
        match how {
            0 => {
                if it.count() as i128 != n - from {
                    return differs("count");
                }
            }
            1 => {
                if it.last().map(xy) != rest.last().cloned() {
                    return differs("last");
                }
            }
            2 => {
                let j = (q % (n as u64 + 2)) as usize;
                if it.nth(j).map(xy) != rest.get(j).cloned() {
                    return differs("nth");
                }
                if it.map(xy).ne(rest.iter().skip(j + 1).cloned()) {
                    return differs("what follows nth");
                }
            }
            3 => {
                if it.map(xy).collect::<Vec<_>>() != rest {
                    return differs("collect");
                }
            }
            4 => {
                if it.step_by(s).map(xy).ne(rest.iter().step_by(s).cloned()) {
                    return differs("step_by");
                }
            }
            5 => {
                let mut got = vec![];
                it.for_each(|p| got.push(xy(p)));
                if got != rest {
                    return differs("for_each");
                }
            }
            6 => {
                // taking turns with another one
                let mut other = new().into_iter();
                for k in 0..n {
                    if other.next().map(xy) != Some(want(k)) || it.next().map(xy) != rest.get(k as usize).cloned() {
                        return differs("taking turns");
                    }
                }
            }
            _ => {
                let j = (q % (n as u64 + 1)) as usize;
                if it.by_ref().take(j).map(xy).ne(rest.iter().take(j).cloned()) || it.map(xy).ne(rest.iter().skip(j).cloned()) {
                    return differs("take");
                }
            }
        }
        Ok(k)
    });
    match res {
        Err(e) => cx.violate(format!("iteration panicked: {}", e), inp),
        Ok(Err(e)) => cx.violate(e, inp),
        Ok(Ok(k)) => cx.rep.add("pixels observed", k as u64),
    }
}

/// Pixels of one iteration that are watched
const WATCHED: i128 = 530_000;
