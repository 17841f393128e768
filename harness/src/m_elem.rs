//! C27: element types (limits, conversions) and recognition of NaN coordinates.
use crate::cx::{guard, Cx};
use crate::dict;
use crate::num::*;
use crate::rng::Rng;
use pbrtrs::verif_core as co;
use pbrtrs::verif_core::point::{Point2, Point3};
use pbrtrs::verif_core::{HasNan, ToFloat};

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    if i % 3 < 2 {
        nan(cx, &mut r)
    } else {
        elements(cx, &mut r)
    }
}

/// Any float bit pattern, NaNs of all kinds included.
fn bits(r: &mut Rng) -> Float {
    let nans: [Float; 4] = [Float::NAN, -Float::NAN, Float::from_bits(Float::INFINITY.to_bits() + 1), Float::from_bits((-Float::INFINITY).to_bits() | 5)];
    match r.below(8) {
        0 | 1 => *r.pick(&nans),
        2 => *r.pick(&[Float::INFINITY, -Float::INFINITY, Float::MAX, Float::MIN, Float::MIN_POSITIVE, 0.0, -0.0]),
        3 => Float::from_bits(r.u64() as _),
        4 => any_float(r, 30.0),
        5 => *r.pick(&dict::get().floats) as Float,
        _ => Float::gen(r, 1e9),
    }
}

fn nan(cx: &mut Cx, r: &mut Rng) {
    let v = [bits(r), bits(r), bits(r)];
    let has = v.iter().any(|x| *x != *x);
    let inp = || format!("({:?}, {:?}, {:?})", v[0], v[1], v[2]);
    cx.rep.eval(key(&[v[0] as f64, v[1] as f64, v[2] as f64]), true);
    let pat: String = v.iter().map(|x| if x.is_nan() { 'N' } else { '.' }).collect();
    cx.rep.count(&format!("coordinates {}", pat));
    match guard(|| Point3::new(v[0], v[1], v[2]).has_nan()) {
        Ok(g) => cx.ensure(g == has, || (format!("has_nan gives {}, should be {}", g, has), inp())),
        Err(e) => cx.violate(format!("has_nan panicked: {}", e), inp()),
    }
    for x in v {
        match guard(|| ElemType::is_nan(&x)) {
            Ok(g) => cx.ensure(g == (x != x), || (format!("is_nan of {:?} gives {}", x, g), inp())),
            Err(e) => cx.violate(format!("is_nan panicked: {}", e), inp()),
        }
    }
    match guard(|| Point2::from(Point3::new(v[0], v[1], v[2]))) {
        Ok(p) => {
            if has {
                cx.violate("a point with a NaN coordinate was projected to two dimensions".into(), inp())
            } else {
                cx.ensure(p.x.to_bits() == v[0].to_bits() && p.y.to_bits() == v[1].to_bits(), || (format!("projected to ({:?}, {:?})", p.x, p.y), inp()))
            }
        }
        Err(e) => cx.ensure(has, || (format!("projection of a point without NaN was refused: {}", e), inp())),
    }
    let w = [any_int(r), any_int(r), any_int(r)];
    let inp = || format!("{:?}", w);
    match guard(|| (Point3::new(w[0], w[1], w[2]).has_nan(), Point2::from(Point3::new(w[0], w[1], w[2])))) {
        Ok((h, p)) => cx.ensure(!h && p.x == w[0] && p.y == w[1], || (format!("integer point: has_nan {}, projected to ({}, {})", h, p.x, p.y), inp())),
        Err(e) => cx.violate(format!("integer point: {}", e), inp()),
    }
    cx.rep.sample(inp);
}

fn elements(cx: &mut Cx, r: &mut Rng) {
    let i = if r.pct(40) { between(r) } else { any_int(r) };
    let x = bits(r);
    cx.rep.eval(key(&[i as f64, x as f64]), true);
    let inp = || format!("{} {:?}", i, x);
    cx.rep.count("element values checked");
    let got = guard(|| {
        (
            <i64 as ElemType>::from_int(i as isize),
            <Float as ElemType>::from_int(i as isize),
            i.to_float(),
            x.to_float(),
            ElemType::is_nan(&i),
            (<i64 as ElemType>::min_value(), <i64 as ElemType>::max_value()),
            (<Float as ElemType>::min_value(), <Float as ElemType>::max_value()),
            co::INFINITY,
        )
    });
    match got {
        Ok((a, b, c, d, n, li, lf, inf)) => {
            cx.ensure(a == i, || (format!("from_int to i64 gives {}", a), inp()));
            // correctly rounded conversion, as the language does it
            cx.ensure(near_int(b, i), || (format!("from_int to Float gives {:?}", b), inp()));
            cx.ensure(near_int(c, i), || (format!("to_float of an integer gives {:?}", c), inp()));
            cx.ensure(d.to_bits() == x.to_bits() || (d.is_nan() && x.is_nan()), || (format!("to_float of a float gives {:?}", d), inp()));
            cx.ensure(!n, || ("is_nan of an integer".into(), inp()));
            cx.ensure(li.0 <= i && i <= li.1, || (format!("integer limits {:?} do not bound {}", li, i), inp()));
            cx.ensure(x.is_nan() || lf.0 <= x && x <= lf.1, || (format!("float limits {:?} do not bound {:?}", lf, x), inp()));
            cx.ensure(inf.is_infinite() && inf > 0.0, || (format!("INFINITY is {:?}", inf), inp()));
        }
        Err(e) => cx.violate(format!("an element operation panicked: {}", e), inp()),
    }
}

/// An integer at or next to the middle between two neighbouring floats of either precision, or next to one of them.
fn between(r: &mut Rng) -> i64 {
    let p = *r.pick(&[24u32, 24, 53, 53, 25, 54]); // bits of the significand
    let b = (p + r.below(63 - p as usize + 1) as u32).min(63); // bits of the integer
    if b <= p {
        return any_int(r);
    }
    let m = (1u64 << (p - 1)) | (r.u64() & ((1 << (p - 1)) - 1));
    let v = (m << (b - p)) + if r.pct(70) { 1 << (b - p - 1) } else { 0 };
    let v = (v as i64).saturating_add(*r.pick(&[0, 0, 1, -1, 1, -1, 2, -2, 3]));
    if r.pct(50) { v } else { v.wrapping_neg() }
}

/// f is the float nearest to i.
fn near_int(f: Float, i: i64) -> bool {
    // the language's conversion rounds to nearest, ties to even
    f == i as Float
}
