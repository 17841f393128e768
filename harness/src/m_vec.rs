//! Monitors of vector, point and normal arithmetic (C17), component selection (C18), frames (C19).
use crate::cx::{guard, Cx};
use crate::num::*;
use crate::rng::Rng;
use pbrtrs::verif_core as co;
use pbrtrs::verif_core::normal::Normal3;
use pbrtrs::verif_core::point::{self, Point2, Point3};
use pbrtrs::verif_core::vector::{self, Vector2, Vector3};

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    match &cx.id[..] {
        "C17" => {
            if i % 8 == 1 {
                c17_int(cx, &mut r)
            } else if i % 8 == 2 {
                c17_far(cx, &mut r)
            } else if i % 2 == 0 {
                c17::<Float>(cx, &mut r)
            } else {
                c17::<i64>(cx, &mut r)
            }
        }
        "C18" => {
            if i % 8 == 1 {
                c18_int(cx, &mut r)
            } else if i % 2 == 0 {
                c18::<Float>(cx, &mut r)
            } else {
                c18::<i64>(cx, &mut r)
            }
        }
        _ => {
            c19_frame(cx, &mut r, i);
            if i % 2 == 0 {
                c19_face::<Float>(cx, &mut r)
            } else {
                c19_face::<i64>(cx, &mut r)
            }
        }
    }
}

type A3 = [f64; 3];

/// Checks a three-component result against a reference.
fn v3<T: El>(cx: &mut Cx, op: &str, got: Result<A3, String>, want: A3, scale: A3, k: f64, inp: &str) {
    cx.rep.count("operations checked");
    match got {
        Ok(g) => {
            let ok = (0..3).all(|i| same::<T>(g[i], want[i], scale[i], k));
            cx.ensure(ok, || (format!("{} of {}: {:?}, should be {:?}", op, T::NAME, g, want), inp.to_string()));
        }
        Err(e) => cx.violate(format!("{} of {} panicked: {}", op, T::NAME, e), inp.to_string()),
    }
}

fn s1<T: El>(cx: &mut Cx, op: &str, got: Result<f64, String>, want: f64, scale: f64, k: f64, inp: &str) {
    cx.rep.count("operations checked");
    match got {
        Ok(g) => cx.ensure(same::<T>(g, want, scale, k), || (format!("{} of {}: {:e}, should be {:e}", op, T::NAME, g, want), inp.to_string())),
        Err(e) => cx.violate(format!("{} of {} panicked: {}", op, T::NAME, e), inp.to_string()),
    }
}

macro_rules! arr {
    ($e:expr) => {{
        let q = $e;
        [q.x.f(), q.y.f(), q.z.f()]
    }};
}

fn add(a: A3, b: A3) -> A3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: A3, b: A3) -> A3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn sc(a: A3, s: f64) -> A3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
fn ab(a: A3) -> A3 {
    [a[0].abs(), a[1].abs(), a[2].abs()]
}

fn c17<T: El>(cx: &mut Cx, r: &mut Rng)
where
    T: std::ops::Neg<Output = T>,
{
    let cap = if T::INT { 1e6 } else { 1e9 };
    // now and then all magnitudes together far from one, as far as squares stay finite
    let far = if !T::INT && r.pct(20) { (2f64).powi(r.range(-20, 25) as i32) } else { 1.0 };
    let g1 = |r: &mut Rng| if far == 1.0 { T::gen(r, cap) } else { T::of(T::gen(r, cap).f() * far) };
    let g = |r: &mut Rng| [g1(r), g1(r), g1(r)];
    let (ta, mut tb, s) = (g(r), g(r), g1(r));
    if r.pct(5) {
        // parallel or equal arguments
        tb = if r.pct(50) { ta } else { [-ta[0], -ta[1], -ta[2]] };
    }
    let a = [ta[0].f(), ta[1].f(), ta[2].f()];
    let b = [tb[0].f(), tb[1].f(), tb[2].f()];
    let sf = s.f();
    let inp = format!("{} a={:?} b={:?} s={:?}", T::NAME, a, b, sf);
    cx.rep.eval(key(&[a[0], a[1], a[2], b[0], b[1], b[2], sf, T::INT as u8 as f64]), a != [0.0; 3] && b != [0.0; 3]);
    cx.rep.sample(|| inp.clone());
    let (va, vb) = (Vector3::new(ta[0], ta[1], ta[2]), Vector3::new(tb[0], tb[1], tb[2]));
    let (na, nb) = (Normal3::new(ta[0], ta[1], ta[2]), Normal3::new(tb[0], tb[1], tb[2]));
    let (pa, pb) = (Point3::new(ta[0], ta[1], ta[2]), Point3::new(tb[0], tb[1], tb[2]));
    let s2 = add(ab(a), ab(b));
    let neg = sc(a, -1.0);
    let i = &inp[..];
    v3::<T>(cx, "vector new", guard(|| arr!(va)), a, ab(a), 0.0, i);
    v3::<T>(cx, "normal new", guard(|| arr!(na)), a, ab(a), 0.0, i);
    v3::<T>(cx, "point new", guard(|| arr!(pa)), a, ab(a), 0.0, i);
    v3::<T>(cx, "-vector", guard(|| arr!(-va)), neg, ab(a), 0.0, i);
    v3::<T>(cx, "-&vector", guard(|| arr!(-&va)), neg, ab(a), 0.0, i);
    v3::<T>(cx, "-normal", guard(|| arr!(-na)), neg, ab(a), 0.0, i);
    v3::<T>(cx, "-&normal", guard(|| arr!(-&na)), neg, ab(a), 0.0, i);
    v3::<T>(cx, "vector+vector", guard(|| arr!(va + vb)), add(a, b), s2, 2.0, i);
    v3::<T>(cx, "normal+normal", guard(|| arr!(na + nb)), add(a, b), s2, 2.0, i);
    v3::<T>(cx, "point+vector", guard(|| arr!(pa + vb)), add(a, b), s2, 2.0, i);
    v3::<T>(cx, "vector-vector", guard(|| arr!(va - vb)), sub(a, b), s2, 2.0, i);
    v3::<T>(cx, "normal-normal", guard(|| arr!(na - nb)), sub(a, b), s2, 2.0, i);
    v3::<T>(cx, "point-vector", guard(|| arr!(pa - vb)), sub(a, b), s2, 2.0, i);
    v3::<T>(cx, "point-point", guard(|| arr!(pa - pb)), sub(a, b), s2, 2.0, i);
    v3::<T>(cx, "&point-point", guard(|| arr!(&pa - pb)), sub(a, b), s2, 2.0, i);
    let m = sc(a, sf);
    v3::<T>(cx, "vector*s", guard(|| arr!(va * s)), m, ab(m), 2.0, i);
    v3::<T>(cx, "&vector*s", guard(|| arr!(&va * s)), m, ab(m), 2.0, i);
    v3::<T>(cx, "normal*s", guard(|| arr!(na * s)), m, ab(m), 2.0, i);
    v3::<T>(cx, "&normal*s", guard(|| arr!(&na * s)), m, ab(m), 2.0, i);
    v3::<T>(cx, "point*s", guard(|| arr!(pa * s)), m, ab(m), 2.0, i);
    v3::<T>(cx, "&point*s", guard(|| arr!(&pa * s)), m, ab(m), 2.0, i);
    if sf != 0.0 {
        // integers: truncating division, as for the numbers themselves
        let d = if T::INT { [(a[0] / sf).trunc(), (a[1] / sf).trunc(), (a[2] / sf).trunc()] } else { sc(a, 1.0 / sf) };
        v3::<T>(cx, "vector/s", guard(|| arr!(va / s)), d, ab(d), 4.0, i);
        v3::<T>(cx, "normal/s", guard(|| arr!(na / s)), d, ab(d), 4.0, i);
        v3::<T>(cx, "point/s", guard(|| arr!(pa / s)), d, ab(d), 4.0, i);
        let w = guard(|| {
            let q = Vector2::new(ta[0], ta[1]) / s;
            [q.x.f(), q.y.f(), 0.0]
        });
        v3::<T>(cx, "vector2/s", w, [d[0], d[1], 0.0], ab(d), 4.0, i);
        if !T::INT {
            v3::<T>(cx, "vector*s/s", guard(|| arr!(va * s / s)), a, ab(a), 8.0, i);
            v3::<T>(cx, "point*s/s", guard(|| arr!(pa * s / s)), a, ab(a), 8.0, i);
            v3::<T>(cx, "normal*s/s", guard(|| arr!(na * s / s)), a, ab(a), 8.0, i);
        }
    }
    if r.pct(10) {
        let z = if r.pct(50) { T::of(0.0) } else { -T::of(0.0) };
        cx.rep.count("divisions by zero refused");
        let mut refused = |op: &str, got: Result<A3, String>| {
            if let Ok(g) = got {
                cx.violate(format!("{} of {}: division by zero gave {:?}", op, T::NAME, g), inp.clone());
            }
        };
        refused("vector2/0", guard(|| {
            let q = Vector2::new(ta[0], ta[1]) / z;
            [q.x.f(), q.y.f(), 0.0]
        }));
        if T::INT {
            refused("vector/0", guard(|| arr!(va / z)));
            refused("normal/0", guard(|| arr!(na / z)));
            refused("point/0", guard(|| arr!(pa / z)));
        }
    }
    v3::<T>(cx, "vector from point", guard(|| arr!(Vector3::from(pa))), a, ab(a), 0.0, i);
    v3::<T>(cx, "point from vector", guard(|| arr!(Point3::from(va))), a, ab(a), 0.0, i);
    v3::<T>(cx, "normal from vector", guard(|| arr!(Normal3::from(va))), a, ab(a), 0.0, i);
    let p2 = guard(|| {
        let q = Point2::from(pa);
        [q.x.f(), q.y.f(), 0.0]
    });
    v3::<T>(cx, "point2 from point", p2, [a[0], a[1], 0.0], ab(a), 0.0, i);
    let p2 = guard(|| {
        let q = Point2::new(ta[0], ta[1]).abs();
        [q.x.f(), q.y.f(), 0.0]
    });
    v3::<T>(cx, "point2 abs", p2, [a[0].abs(), a[1].abs(), 0.0], ab(a), 0.0, i);
    v3::<T>(cx, "point abs", guard(|| arr!(pa.abs())), ab(a), ab(a), 0.0, i);
    s1::<T>(cx, "vector dot", guard(|| va.dot(&vb).f()), dot(a, b), adot(a, b), 8.0, i);
    s1::<T>(cx, "normal dot", guard(|| na.dot(&nb).f()), dot(a, b), adot(a, b), 8.0, i);
    let c = cross(a, b);
    let cs = [
        (a[1] * b[2]).abs() + (a[2] * b[1]).abs(),
        (a[2] * b[0]).abs() + (a[0] * b[2]).abs(),
        (a[0] * b[1]).abs() + (a[1] * b[0]).abs(),
    ];
    v3::<T>(cx, "vector cross", guard(|| arr!(va.cross(&vb))), c, cs, 8.0, i);
    v3::<T>(cx, "normal cross", guard(|| arr!(na.cross(&nb))), c, cs, 8.0, i);
    s1::<T>(cx, "vector len_sq", guard(|| va.len_sq().f()), dot(a, a), dot(a, a), 8.0, i);
    s1::<T>(cx, "normal len_sq", guard(|| na.len_sq().f()), dot(a, a), dot(a, a), 8.0, i);
    let l = dot(a, a).sqrt();
    s1::<Float>(cx, "vector len", guard(|| va.len() as f64), l, l, 8.0, i);
    s1::<Float>(cx, "normal len", guard(|| na.len() as f64), l, l, 8.0, i);
    if !T::INT {
        let f = |x: f64| x as Float;
        let (qa, qb) = (Point3::new(f(a[0]), f(a[1]), f(a[2])), Point3::new(f(b[0]), f(b[1]), f(b[2])));
        v3::<Float>(cx, "point floor", guard(|| arr!(point::floor(&qa))), [a[0].floor(), a[1].floor(), a[2].floor()], [0.0; 3], 0.0, i);
        v3::<Float>(cx, "point ceil", guard(|| arr!(point::ceil(&qa))), [a[0].ceil(), a[1].ceil(), a[2].ceil()], [0.0; 3], 0.0, i);
        let t = share(r, 10.0);
        let tf = t as f64;
        let w = [a[0] * (1.0 - tf) + b[0] * tf, a[1] * (1.0 - tf) + b[1] * tf, a[2] * (1.0 - tf) + b[2] * tf];
        let ws = sc(s2, 1.0 + 2.0 * tf.abs());
        v3::<Float>(cx, "point lerp", guard(|| arr!(point::lerp(t, &qa, &qb))), w, ws, 8.0, &format!("{} t={}", inp, tf));
        s1::<Float>(cx, "lerp", guard(|| co::lerp(t, qa.x, qb.x) as f64), w[0], ws[0], 8.0, &format!("{} t={}", inp, tf));
    }
}

/// Magnitudes near the limits of the type, where the result is an ordinary number.
fn c17_far(cx: &mut Cx, r: &mut Rng) {
    let lim = if EPS > 1e-10 { 36.0 } else { 300.0 };
    let (lo, hi) = ((10f64).powf(-lim), (10f64).powf(lim));
    let g = |r: &mut Rng| any_float(r, lim);
    let (ta, tb, s) = ([g(r), g(r), g(r)], [g(r), g(r), g(r)], g(r));
    let a = [ta[0].f(), ta[1].f(), ta[2].f()];
    let b = [tb[0].f(), tb[1].f(), tb[2].f()];
    let sf = s.f();
    let inp = format!("Float a={:?} b={:?} s={:?}", a, b, sf);
    cx.rep.eval(key(&[a[0], a[1], a[2], b[0], b[1], b[2], sf, 9.0]), true);
    cx.rep.count("arguments near the limits of the type");
    let (va, vb) = (Vector3::new(ta[0], ta[1], ta[2]), Vector3::new(tb[0], tb[1], tb[2]));
    let (na, nb) = (Normal3::new(ta[0], ta[1], ta[2]), Normal3::new(tb[0], tb[1], tb[2]));
    let (pa, pb) = (Point3::new(ta[0], ta[1], ta[2]), Point3::new(tb[0], tb[1], tb[2]));
    let ordinary = |x: A3| x.iter().all(|v| v.is_finite() && v.abs() >= lo && v.abs() <= hi);
    let i = &inp[..];
    v3::<Float>(cx, "-vector", guard(|| arr!(-va)), sc(a, -1.0), ab(a), 0.0, i);
    v3::<Float>(cx, "-normal", guard(|| arr!(-na)), sc(a, -1.0), ab(a), 0.0, i);
    v3::<Float>(cx, "vector from point", guard(|| arr!(Vector3::from(pa))), a, ab(a), 0.0, i);
    v3::<Float>(cx, "point from vector", guard(|| arr!(Point3::from(va))), a, ab(a), 0.0, i);
    v3::<Float>(cx, "normal from vector", guard(|| arr!(Normal3::from(va))), a, ab(a), 0.0, i);
    v3::<Float>(cx, "point abs", guard(|| arr!(pa.abs())), ab(a), ab(a), 0.0, i);
    let s2 = add(ab(a), ab(b));
    v3::<Float>(cx, "vector+vector", guard(|| arr!(va + vb)), add(a, b), s2, 2.0, i);
    v3::<Float>(cx, "normal+normal", guard(|| arr!(na + nb)), add(a, b), s2, 2.0, i);
    v3::<Float>(cx, "point+vector", guard(|| arr!(pa + vb)), add(a, b), s2, 2.0, i);
    v3::<Float>(cx, "vector-vector", guard(|| arr!(va - vb)), sub(a, b), s2, 2.0, i);
    v3::<Float>(cx, "normal-normal", guard(|| arr!(na - nb)), sub(a, b), s2, 2.0, i);
    v3::<Float>(cx, "point-vector", guard(|| arr!(pa - vb)), sub(a, b), s2, 2.0, i);
    v3::<Float>(cx, "point-point", guard(|| arr!(pa - pb)), sub(a, b), s2, 2.0, i);
    let fl = [a[0].floor(), a[1].floor(), a[2].floor()];
    let ce = [a[0].ceil(), a[1].ceil(), a[2].ceil()];
    v3::<Float>(cx, "point floor", guard(|| arr!(point::floor(&pa))), fl, [0.0; 3], 0.0, i);
    v3::<Float>(cx, "point ceil", guard(|| arr!(point::ceil(&pa))), ce, [0.0; 3], 0.0, i);
    let m = sc(a, sf);
    if ordinary(m) {
        cx.rep.count("products near the limits of the type");
        v3::<Float>(cx, "vector*s", guard(|| arr!(va * s)), m, ab(m), 2.0, i);
        v3::<Float>(cx, "&vector*s", guard(|| arr!(&va * s)), m, ab(m), 2.0, i);
        v3::<Float>(cx, "normal*s", guard(|| arr!(na * s)), m, ab(m), 2.0, i);
        v3::<Float>(cx, "&normal*s", guard(|| arr!(&na * s)), m, ab(m), 2.0, i);
        v3::<Float>(cx, "point*s", guard(|| arr!(pa * s)), m, ab(m), 2.0, i);
        v3::<Float>(cx, "&point*s", guard(|| arr!(&pa * s)), m, ab(m), 2.0, i);
    }
    let d = [a[0] / sf, a[1] / sf, a[2] / sf];
    if ordinary(d) {
        cx.rep.count("quotients near the limits of the type");
        v3::<Float>(cx, "vector/s", guard(|| arr!(va / s)), d, ab(d), 4.0, i);
        v3::<Float>(cx, "normal/s", guard(|| arr!(na / s)), d, ab(d), 4.0, i);
        v3::<Float>(cx, "point/s", guard(|| arr!(pa / s)), d, ab(d), 4.0, i);
        let w = guard(|| {
            let q = Vector2::new(ta[0], ta[1]) / s;
            [q.x.f(), q.y.f(), 0.0]
        });
        v3::<Float>(cx, "vector2/s", w, [d[0], d[1], 0.0], ab(d), 4.0, i);
    }
}

type Exact3 = [i128; 3];

/// Integer operations over the whole 64-bit range, exactly, wherever no term or sum of terms overflows.
fn c17_int(cx: &mut Cx, r: &mut Rng) {
    let t = [any_int(r), any_int(r), any_int(r)];
    let u = [any_int(r), any_int(r), any_int(r)];
    let s = any_int(r);
    let inp = format!("i64 a={:?} b={:?} s={}", t, u, s);
    cx.rep.eval(key(&[t[0] as f64, t[1] as f64, t[2] as f64, u[0] as f64, u[1] as f64, u[2] as f64, s as f64]), true);
    cx.rep.sample(|| inp.clone());
    let w = |v: [i64; 3]| [v[0] as i128, v[1] as i128, v[2] as i128];
    let (a, b, sf) = (w(t), w(u), s as i128);
    let fits = |x: i128| x.abs() < i64::MAX as i128;
    let zip = |f: &dyn Fn(i128, i128) -> i128| [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])];
    let one = |f: &dyn Fn(i128) -> i128| [f(a[0]), f(a[1]), f(a[2])];
    let (va, vb) = (Vector3::new(t[0], t[1], t[2]), Vector3::new(u[0], u[1], u[2]));
    let (na, nb) = (Normal3::new(t[0], t[1], t[2]), Normal3::new(u[0], u[1], u[2]));
    let (pa, pb) = (Point3::new(t[0], t[1], t[2]), Point3::new(u[0], u[1], u[2]));
    macro_rules! x3 {
        ($e:expr) => {
            guard(|| {
                let q = $e;
                [q.x as i128, q.y as i128, q.z as i128]
            })
        };
    }
    let mut chk = |op: &str, want: Exact3, got: Result<Exact3, String>| {
        cx.rep.count("full-range integer operations checked");
        cx.ensure(got == Ok(want), || (format!("{}: {:?}, should be {:?}", op, got, want), inp.clone()));
    };
    let safe = zip(&|x, y| x.abs() + y.abs()).iter().all(|x| fits(*x));
    if safe {
        let (sum, dif) = (zip(&|x, y| x + y), zip(&|x, y| x - y));
        chk("vector+vector", sum, x3!(va + vb));
        chk("normal+normal", sum, x3!(na + nb));
        chk("point+vector", sum, x3!(pa + vb));
        chk("vector-vector", dif, x3!(va - vb));
        chk("normal-normal", dif, x3!(na - nb));
        chk("point-vector", dif, x3!(pa - vb));
        chk("point-point", dif, x3!(pa - pb));
        chk("&point-point", dif, x3!(&pa - pb));
    }
    if a.iter().all(|x| fits(*x)) {
        let neg = one(&|x| -x);
        chk("-vector", neg, x3!(-va));
        chk("-&vector", neg, x3!(-&va));
        chk("-normal", neg, x3!(-na));
        chk("-&normal", neg, x3!(-&na));
        chk("point abs", one(&|x| x.abs()), x3!(pa.abs()));
        let q = guard(|| {
            let q = Point2::new(t[0], t[1]).abs();
            [q.x as i128, q.y as i128, 0]
        });
        chk("point2 abs", [a[0].abs(), a[1].abs(), 0], q);
        if sf != 0 && fits(sf) {
            let d = one(&|x| x / sf);
            chk("vector/s", d, x3!(va / s));
            chk("normal/s", d, x3!(na / s));
            chk("point/s", d, x3!(pa / s));
            let q = guard(|| {
                let q = Vector2::new(t[0], t[1]) / s;
                [q.x as i128, q.y as i128, 0]
            });
            chk("vector2/s", [d[0], d[1], 0], q);
        }
    }
    let m = one(&|x| x * sf);
    if m.iter().all(|x| fits(*x)) {
        chk("vector*s", m, x3!(va * s));
        chk("&vector*s", m, x3!(&va * s));
        chk("normal*s", m, x3!(na * s));
        chk("&normal*s", m, x3!(&na * s));
        chk("point*s", m, x3!(pa * s));
        chk("&point*s", m, x3!(&pa * s));
    }
    chk("vector from point", a, x3!(Vector3::from(pa)));
    chk("point from vector", a, x3!(Point3::from(va)));
    chk("normal from vector", a, x3!(Normal3::from(va)));
    let q = guard(|| {
        let q = Point2::from(pa);
        [q.x as i128, q.y as i128, 0]
    });
    chk("point2 from point", [a[0], a[1], 0], q);
    let sum = |x: [i128; 3]| x[0].saturating_add(x[1]).saturating_add(x[2]);
    let dots = |x: Exact3, y: Exact3| (sum([x[0] * y[0], x[1] * y[1], x[2] * y[2]]), sum([(x[0] * y[0]).abs(), (x[1] * y[1]).abs(), (x[2] * y[2]).abs()]));
    let (d, dm) = dots(a, b);
    if fits(dm) {
        chk("vector dot", [d, 0, 0], guard(|| [va.dot(&vb) as i128, 0, 0]));
        chk("normal dot", [d, 0, 0], guard(|| [na.dot(&nb) as i128, 0, 0]));
    }
    let (l, lm) = dots(a, a);
    if fits(lm) {
        chk("vector len_sq", [l, 0, 0], guard(|| [va.len_sq() as i128, 0, 0]));
        chk("normal len_sq", [l, 0, 0], guard(|| [na.len_sq() as i128, 0, 0]));
    }
    let c = |i: usize, j: usize| ((a[i] * b[j]).saturating_sub(a[j] * b[i]), (a[i] * b[j]).abs().saturating_add((a[j] * b[i]).abs()));
    let cr = [c(1, 2), c(2, 0), c(0, 1)];
    if cr.iter().all(|x| fits(x.1)) {
        let want = [cr[0].0, cr[1].0, cr[2].0];
        chk("vector cross", want, x3!(va.cross(&vb)));
        chk("normal cross", want, x3!(na.cross(&nb)));
    }
}

/// Component selection over the whole 64-bit range.
fn c18_int(cx: &mut Cx, r: &mut Rng) {
    let mut t = [any_int(r), any_int(r), any_int(r)];
    let u = [any_int(r), any_int(r), any_int(r)];
    if r.pct(30) {
        // neighbours that no float can tell apart
        t[r.below(3)] = t[r.below(3)].saturating_add(r.range(-1, 1));
    }
    let inp = format!("i64 a={:?} b={:?}", t, u);
    cx.rep.eval(key(&[t[0] as f64, t[1] as f64, t[2] as f64, u[0] as f64, u[1] as f64, u[2] as f64, 2.0]), true);
    cx.rep.sample(|| inp.clone());
    let (va, vb) = (Vector3::new(t[0], t[1], t[2]), Vector3::new(u[0], u[1], u[2]));
    let (na, nb) = (Normal3::new(t[0], t[1], t[2]), Normal3::new(u[0], u[1], u[2]));
    let (pa, pb) = (Point3::new(t[0], t[1], t[2]), Point3::new(u[0], u[1], u[2]));
    macro_rules! x3 {
        ($e:expr) => {
            guard(|| {
                let q = $e;
                [q.x, q.y, q.z]
            })
        };
    }
    let mn = [t[0].min(u[0]), t[1].min(u[1]), t[2].min(u[2])];
    let mx = [t[0].max(u[0]), t[1].max(u[1]), t[2].max(u[2])];
    let (lo, hi) = (t[0].min(t[1]).min(t[2]), t[0].max(t[1]).max(t[2]));
    let p = [r.below(3), r.below(3), r.below(3)];
    let w = [t[p[0]], t[p[1]], t[p[2]]];
    for (op, want, got) in [
        ("vector min", mn, x3!(va.min(&vb))),
        ("vector max", mx, x3!(va.max(&vb))),
        ("normal min", mn, x3!(na.min(&nb))),
        ("normal max", mx, x3!(na.max(&nb))),
        ("point min", mn, x3!(pa.min(&pb))),
        ("point max", mx, x3!(pa.max(&pb))),
        ("vector min and max component", [lo, hi, 0], guard(|| [va.min_component(), va.max_component(), 0])),
        ("normal min and max component", [lo, hi, 0], guard(|| [na.min_component(), na.max_component(), 0])),
        ("vector permute", w, x3!(va.permute(p[0], p[1], p[2]))),
        ("normal permute", w, x3!(na.permute(p[0], p[1], p[2]))),
        ("component at vector max_dimension", [hi; 3], guard(|| [t[va.max_dimension()]; 3])),
        ("component at normal max_dimension", [hi; 3], guard(|| [t[na.max_dimension()]; 3])),
    ] {
        cx.rep.count("full-range integer operations checked");
        cx.ensure(got == Ok(want), || (format!("{}: {:?}, should be {:?}", op, got, want), inp.clone()));
    }
    let long = r.pct(10);
    let n = 1 + r.below(if long { 700 } else { 9 });
    let l: Vec<i64> = (0..n).map(|_| any_int(r)).collect();
    let want = (*l.iter().min().unwrap(), *l.iter().max().unwrap());
    let got = guard(|| (co::pmin(&l[..]), co::pmax(&l[..])));
    cx.ensure(got == Ok(want), || (format!("pmin, pmax: {:?}, should be {:?}", got, want), format!("{:?}", l)));
}

fn c18<T: El>(cx: &mut Cx, r: &mut Rng) {
    let cap = if T::INT { 9e15 } else { 1e30 };
    // ties, zeros of both signs and near ties are what decides
    let g = |r: &mut Rng| {
        let m = r.below(5);
        let base = T::gen(r, cap);
        // the ends of the type, infinities included
        let end = !T::INT && r.pct(10);
        let mut v = [base; 3];
        for x in v.iter_mut() {
            if m == 0 || r.pct(50) {
                *x = match r.below(6) {
                    0 => T::of(0.0),
                    1 => T::of(-base.f()),
                    2 => T::of(base.f() + 1.0),
                    3 if !T::INT => T::of(base.f() * (1.0 + EPS)),
                    4 if !T::INT => T::of(-0.0),
                    _ if end => T::of(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, Float::MAX as f64, Float::MIN as f64, TINY, -TINY, TINY / 64.0, 3e38, -3e38])),
                    _ => T::gen(r, cap),
                };
            }
        }
        v
    };
    let (ta, tb) = (g(r), g(r));
    let a = [ta[0].f(), ta[1].f(), ta[2].f()];
    let b = [tb[0].f(), tb[1].f(), tb[2].f()];
    let inp = format!("{} a={:?} b={:?}", T::NAME, a, b);
    let i = &inp[..];
    cx.rep.eval(key(&[a[0], a[1], a[2], b[0], b[1], b[2], T::INT as u8 as f64]), true);
    if a[0] == a[1] || a[1] == a[2] || a[0] == a[2] {
        cx.rep.count("cases with ties");
    }
    cx.rep.sample(|| inp.clone());
    let (va, vb) = (Vector3::new(ta[0], ta[1], ta[2]), Vector3::new(tb[0], tb[1], tb[2]));
    let (na, nb) = (Normal3::new(ta[0], ta[1], ta[2]), Normal3::new(tb[0], tb[1], tb[2]));
    let (pa, pb) = (Point3::new(ta[0], ta[1], ta[2]), Point3::new(tb[0], tb[1], tb[2]));
    let mn = [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])];
    let mx = [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])];
    let z = [0.0; 3];
    v3::<T>(cx, "vector min", guard(|| arr!(va.min(&vb))), mn, z, 0.0, i);
    v3::<T>(cx, "vector max", guard(|| arr!(va.max(&vb))), mx, z, 0.0, i);
    v3::<T>(cx, "normal min", guard(|| arr!(na.min(&nb))), mn, z, 0.0, i);
    v3::<T>(cx, "normal max", guard(|| arr!(na.max(&nb))), mx, z, 0.0, i);
    v3::<T>(cx, "point min", guard(|| arr!(pa.min(&pb))), mn, z, 0.0, i);
    v3::<T>(cx, "point max", guard(|| arr!(pa.max(&pb))), mx, z, 0.0, i);
    let (lo, hi) = (a[0].min(a[1]).min(a[2]), a[0].max(a[1]).max(a[2]));
    s1::<T>(cx, "vector min_component", guard(|| va.min_component().f()), lo, 0.0, 0.0, i);
    s1::<T>(cx, "vector max_component", guard(|| va.max_component().f()), hi, 0.0, 0.0, i);
    s1::<T>(cx, "normal min_component", guard(|| na.min_component().f()), lo, 0.0, 0.0, i);
    s1::<T>(cx, "normal max_component", guard(|| na.max_component().f()), hi, 0.0, 0.0, i);
    for (op, d) in [("vector max_dimension", guard(|| va.max_dimension())), ("normal max_dimension", guard(|| na.max_dimension()))] {
        cx.rep.count("operations checked");
        match d {
            Ok(k) if k < 3 && a[k] == hi => (),
            o => cx.violate(format!("{} of {} is {:?}, which is not a largest component", op, T::NAME, o), inp.clone()),
        }
    }
    let p = [r.below(3), r.below(3), r.below(3)];
    let w = [a[p[0]], a[p[1]], a[p[2]]];
    let ip = format!("{} permutation {:?}", inp, p);
    v3::<T>(cx, "vector permute", guard(|| arr!(va.permute(p[0], p[1], p[2]))), w, z, 0.0, &ip);
    v3::<T>(cx, "normal permute", guard(|| arr!(na.permute(p[0], p[1], p[2]))), w, z, 0.0, &ip);
    v3::<T>(cx, "vector index", guard(|| [va[0].f(), va[1].f(), va[2].f()]), a, z, 0.0, i);
    v3::<T>(cx, "normal index", guard(|| [na[0].f(), na[1].f(), na[2].f()]), a, z, 0.0, i);
    let v2 = Vector2::new(ta[0], ta[1]);
    v3::<T>(cx, "vector2 index", guard(|| [v2[0].f(), v2[1].f(), 0.0]), [a[0], a[1], 0.0], z, 0.0, i);
    let bad = *r.pick(&[3usize, 4, 5, 7, 8, 255, 256, 1 << 32, usize::MAX]);
    for (op, ok) in [
        ("vector index", guard(|| va[bad].f()).is_ok()),
        ("normal index", guard(|| na[bad].f()).is_ok()),
        ("vector2 index", guard(|| v2[bad - 1].f()).is_ok()),
        ("vector permute", guard(|| va.permute(0, bad, 1)).is_ok()),
        ("normal permute", guard(|| na.permute(bad, 0, 1)).is_ok()),
    ] {
        cx.rep.count("out-of-range indices offered");
        cx.ensure(!ok, || (format!("{} of {} accepts index {}", op, T::NAME, bad), inp.clone()));
    }
    // lists
    let n = 1 + match r.below(10) {
        0 => 50 + r.below(400),
        1 => r.below(40),
        _ => r.below(8),
    };
    let mut l: Vec<T> = (0..n).map(|_| T::gen(r, cap)).collect();
    if r.pct(30) {
        let k = r.below(n);
        let x = l[k];
        let j = r.below(n);
        l[j] = x;
    }
    if !T::INT && r.pct(10) {
        let k = r.below(n);
        l[k] = T::of(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, Float::MAX as f64, Float::MIN as f64, TINY, -TINY]));
    }
    let lf: Vec<f64> = l.iter().map(|x| x.f()).collect();
    let (lo, hi) = lf.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), x| (a.min(*x), b.max(*x)));
    let li = format!("{} list {:?}", T::NAME, lf);
    s1::<T>(cx, "pmin", guard(|| co::pmin(&l[..]).f()), lo, 0.0, 0.0, &li);
    s1::<T>(cx, "pmax", guard(|| co::pmax(&l[..]).f()), hi, 0.0, 0.0, &li);
}

#[cfg(not(cs_plain))]
pub fn frame(v: &Vector3<Float>) -> (Vector3<Float>, Vector3<Float>) {
    vector::coordinate_system::<Float>(v)
}
#[cfg(cs_plain)]
pub fn frame(v: &Vector3<Float>) -> (Vector3<Float>, Vector3<Float>) {
    vector::coordinate_system(v)
}

fn c19_frame(cx: &mut Cx, r: &mut Rng, i: u64) {
    // directions: signed axes, edge and corner diagonals, near those, uniform, tiny components
    let mut d = [0.0f64; 3];
    let m = if i < 27 { 0 } else { r.below(7) };
    match m {
        0 => {
            let k = if i < 27 { i as usize } else { r.below(27) };
            d = [(k % 3) as f64 - 1.0, (k / 3 % 3) as f64 - 1.0, (k / 9) as f64 - 1.0];
            if d == [0.0; 3] {
                d = [0.0, 0.0, 1.0];
            }
        }
        1 => {
            let k = r.below(27);
            d = [(k % 3) as f64 - 1.0, (k / 3 % 3) as f64 - 1.0, (k / 9) as f64 - 1.0];
            for x in d.iter_mut() {
                *x += (r.unit() - 0.5) * (10f64).powi(-(r.below(9) as i32));
            }
        }
        2 => {
            // one component dominating by many orders
            for x in d.iter_mut() {
                *x = (r.unit() - 0.5) * (10f64).powi(-(r.below(10) as i32));
            }
        }
        3 => {
            // |x| = |y| exactly, or nearly, or zero
            let a = r.unit();
            d = [a, if r.pct(50) { a } else { -a }, r.unit() - 0.5];
            if r.pct(30) {
                d[1] *= 1.0 + EPS * (r.below(5) as f64 - 2.0);
            }
            if r.pct(30) {
                d[2] = 0.0;
            }
        }
        4 => {
            d = [r.unit() - 0.5, r.unit() - 0.5, r.unit() - 0.5];
            d[r.below(3)] = 0.0;
        }
        _ => d = [r.unit() - 0.5, r.unit() - 0.5, r.unit() - 0.5],
    }
    let l = dot(d, d).sqrt();
    if l < 1e-9 {
        d = [0.0, 1.0, 0.0];
    } else {
        d = sc(d, 1.0 / l);
    }
    let v = Vector3::new(d[0] as Float, d[1] as Float, d[2] as Float);
    let d = arr!(v);
    let inp = format!("unit vector {:?}", d);
    cx.rep.eval(key(&d), true);
    cx.rep.count("frames checked");
    cx.rep.sample(|| inp.clone());
    match guard(|| {
        let (a, b) = frame(&v);
        (arr!(a), arr!(b))
    }) {
        Err(e) => cx.violate(format!("coordinate system panicked: {}", e), inp),
        Ok((a, b)) => {
            let k = 32.0;
            let c = cross(d, a);
            let ok = near(dot(a, a), 1.0, 1.0, k)
                && near(dot(b, b), 1.0, 1.0, k)
                && near(dot(a, b), 0.0, 1.0, k)
                && near(dot(a, d), 0.0, 1.0, k)
                && near(dot(b, d), 0.0, 1.0, k)
                && (0..3).all(|i| near(b[i], c[i], 1.0, k));
            cx.ensure(ok, || (format!("not an orthonormal right-handed frame: {:?} {:?}", a, b), inp.clone()));
        }
    }
}

fn c19_face<T: El>(cx: &mut Cx, r: &mut Rng) {
    let cap = if T::INT { *r.pick(&[1e6, 1e9]) } else { 1e9 };
    let g = |r: &mut Rng| [T::gen(r, cap), T::gen(r, cap), T::gen(r, cap)];
    let ta = g(r);
    let mut tb = g(r);
    match r.below(8) {
        0 => {
            // exactly perpendicular
            tb = [T::of(-ta[1].f()), ta[0], T::of(0.0)];
        }
        1 => tb = [T::of(0.0), T::of(-ta[2].f()), ta[1]],
        2 => tb = [T::of(-ta[0].f()), T::of(-ta[1].f()), T::of(-ta[2].f())],
        3 => tb = ta,
        4 => tb = [T::of(0.0); 3],
        _ => (),
    }
    let a = [ta[0].f(), ta[1].f(), ta[2].f()];
    let b = [tb[0].f(), tb[1].f(), tb[2].f()];
    let ex = |i: usize| (a[i] as i128) * (b[i] as i128);
    let d = if T::INT { (ex(0) + ex(1) + ex(2)) as f64 } else { dot(a, b) };
    // decided only where rounding cannot change the sign
    let sure = T::INT || d.abs() > 16.0 * EPS * adot(a, b) + 8.0 * TINY;
    let zero = T::INT && d == 0.0 || (a[0] * b[0] == 0.0 && a[1] * b[1] == 0.0 && a[2] * b[2] == 0.0);
    let inp = format!("{} v={:?} reference={:?}", T::NAME, a, b);
    cx.rep.count("facings checked");
    cx.rep.count(if d < 0.0 { "pointing away" } else if d > 0.0 { "pointing along" } else { "perpendicular" });
    let n = sc(a, -1.0);
    for (op, got) in [
        ("vector", guard(|| arr!(Vector3::new(ta[0], ta[1], ta[2]).face_forward(&Vector3::new(tb[0], tb[1], tb[2]))))),
        ("normal", guard(|| arr!(Normal3::new(ta[0], ta[1], ta[2]).face_forward(&Normal3::new(tb[0], tb[1], tb[2]))))),
    ] {
        match got {
            Err(e) => cx.violate(format!("face_forward of {} panicked: {}", op, e), inp.clone()),
            Ok(g) => {
                let ok = if zero && !sure {
                    g == a
                } else if !sure {
                    g == a || g == n
                } else if d < 0.0 {
                    g == n
                } else {
                    g == a
                };
                cx.ensure(ok, || (format!("{} facing gives {:?} (dot product {:e})", op, g, d), inp.clone()));
            }
        }
    }
}
