//! Monitor of rays (C23).
use crate::cx::{guard, Cx};
use crate::num::*;
use crate::rng::Rng;
use pbrtrs::verif_core::point::Point3;
use pbrtrs::verif_core::ray::{Ray, RayDifferential};
use pbrtrs::verif_core::vector::Vector3;
use pbrtrs::verif_core::Medium;

type A = [f64; 3];

fn g(r: &mut Rng, cap: f64) -> A {
    if cap == FAR {
        return [any_float(r, 30.0).f(), any_float(r, 30.0).f(), any_float(r, 30.0).f()];
    }
    [Float::gen(r, cap).f(), Float::gen(r, cap).f(), Float::gen(r, cap).f()]
}
/// Stands for any magnitude at all.
const FAR: f64 = 1e30;

fn p(a: A) -> Point3<Float> {
    Point3::new(a[0] as Float, a[1] as Float, a[2] as Float)
}
fn v(a: A) -> Vector3<Float> {
    Vector3::new(a[0] as Float, a[1] as Float, a[2] as Float)
}
macro_rules! arr {
    ($e:expr) => {{
        let q = &$e;
        [q.x.f(), q.y.f(), q.z.f()]
    }};
}

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    let r = &mut r;
    let cap = *r.pick(&[1e6, 1e6, 1e6, 1e6, 1e6, 1e14, FAR]);
    let far = cap == FAR;
    if far {
        cx.rep.count("rays of extreme magnitudes");
    }
    let max = Float::MAX as f64 / 8.0;
    let (o, d) = (g(r, cap), g(r, cap));
    let t = match r.below(4) {
        0 => share(r, 10.0).f(),
        _ if far || r.pct(4) => any_float(r, 30.0).f(),
        _ => Float::gen(r, cap).f(),
    } as Float;
    let tf = t.f();
    let inp = format!("ray origin {:?} direction {:?} t {}", o, d, tf);
    cx.rep.sample(|| inp.clone());
    cx.rep.eval(key(&[o[0], o[1], o[2], d[0], d[1], d[2], tf]), d != [0.0; 3]);
    // unbounded ray
    cx.rep.count("rays evaluated");
    let res = guard(|| {
        let q = Ray::new_infinite(p(o), v(d));
        (arr!(q.o), arr!(q.d), q.t_max.f(), q.time.f(), arr!(q.at(t)), arr!(q.o), arr!(q.d))
    });
    match res {
        Err(e) => cx.violate(format!("unbounded ray panicked: {}", e), inp.clone()),
        Ok((o1, d1, tm, time, at, o2, d2)) => {
            cx.ensure(o1 == o && d1 == d && o2 == o && d2 == d && tm == f64::INFINITY && time == 0.0, || {
                (format!("unbounded ray has origin {:?}, direction {:?}, extent {}, time {}", o1, d1, tm, time), inp.clone())
            });
            let ok = (0..3).all(|k| (d[k] * tf).abs() > max || near(at[k], o[k] + d[k] * tf, o[k].abs() + (d[k] * tf).abs(), 4.0));
            cx.ensure(ok, || (format!("evaluates to {:?}", at), inp.clone()));
        }
    }
    // bounded ray: extent and time are kept and do not enter the evaluation
    let (tm, time) = (Float::gen(r, cap), Float::gen(r, cap));
    let res = guard(|| {
        let q = Ray::new(p(o), v(d), tm, time, Medium {});
        (arr!(q.o), arr!(q.d), q.t_max.f(), q.time.f(), arr!(q.at(t)))
    });
    match res {
        Err(e) => cx.violate(format!("ray panicked: {}", e), inp.clone()),
        Ok((o1, d1, tm1, time1, at)) => {
            cx.ensure(o1 == o && d1 == d && tm1 == tm.f() && time1 == time.f(), || {
                (format!("ray with extent {} and time {} has origin {:?}, direction {:?}, extent {}, time {}", tm, time, o1, d1, tm1, time1), inp.clone())
            });
            let ok = (0..3).all(|k| (d[k] * tf).abs() > max || near(at[k], o[k] + d[k] * tf, o[k].abs() + (d[k] * tf).abs(), 4.0));
            cx.ensure(ok, || (format!("bounded by {} evaluates to {:?}", tm, at), inp.clone()));
        }
    }
    // differentials
    let (xo, yo, xd, yd) = (g(r, cap), g(r, cap), g(r, cap), g(r, cap));
    let n = if far { 1 } else if r.pct(10) { 4 + r.below(5) } else { 1 + r.below(3) };
    let fs: Vec<Float> = (0..n)
        .map(|_| match r.below(5) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 if n == 1 && r.pct(30) => any_float(r, 30.0),
            3 => share(r, 2.0),
            _ => Float::gen(r, if n > 3 { 4.0 } else { 100.0 }),
        })
        .collect();
    let has = r.pct(50);
    let inp = format!("{} x {:?} {:?} y {:?} {:?} scaled by {:?}", inp, xo, xd, yo, yd, fs);
    cx.rep.count("differentials scaled");
    let res = guard(|| {
        let mut q = RayDifferential::new(Ray::new(p(o), v(d), tm, time, Medium {}));
        q.has_differentials = has;
        q.rx_origin = p(xo);
        q.ry_origin = p(yo);
        q.rx_direction = v(xd);
        q.ry_direction = v(yd);
        for s in &fs {
            q.scale_differentials(*s);
        }
        (
            [arr!(q.rx_origin), arr!(q.ry_origin), arr!(q.rx_direction), arr!(q.ry_direction)],
            (arr!(q.ray.o), arr!(q.ray.d), q.ray.t_max.f(), q.ray.time.f()),
            q.has_differentials,
        )
    });
    match res {
        Err(e) => cx.violate(format!("scaling differentials panicked: {}", e), inp.clone()),
        Ok((got, main, flag)) => {
            cx.ensure(flag == has, || ("scaling changed whether there are differentials".into(), inp.clone()));
            cx.ensure(main == (o, d, tm.f(), time.f()), || (format!("scaling changed the main ray: {:?}", main), inp.clone()));
            for (name, g, a, m) in [("x origin", got[0], xo, o), ("y origin", got[1], yo, o), ("x direction", got[2], xd, d), ("y direction", got[3], yd, d)] {
                for k in 0..3 {
                    // reference and the magnitude passing through the computation
                    let (mut w, mut mag) = (a[k], a[k].abs() + m[k].abs());
                    for s in &fs {
                        w = m[k] + (w - m[k]) * s.f();
                        mag = (mag + m[k].abs()) * s.f().abs() + m[k].abs() + w.abs();
                    }
                    cx.ensure(mag > max || near(g[k], w, mag, 16.0), || (format!("auxiliary {} is {:?}, component {} should be {:e}", name, g, k, w), inp.clone()));
                }
            }
        }
    }
    let res = guard(|| {
        let q = RayDifferential::new(Ray::new(p(o), v(d), tm, time, Medium {}));
        (q.has_differentials, arr!(q.ray.o), arr!(q.ray.d), q.ray.t_max.f(), q.ray.time.f())
    });
    cx.ensure(res == Ok((false, o, d, tm.f(), time.f())), || (format!("a fresh ray differential is {:?}", res), inp.clone()));
}
