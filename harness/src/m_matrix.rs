//! Monitors of matrix inversion (C12, C13), matrix arithmetic (C14) and transforms (C15, C16).
use crate::cx::{guard, Cx};
use crate::num::*;
use crate::rng::Rng;
use pbrtrs::verif_core::matrix::{to_mat4f, Matrix4};
use pbrtrs::verif_core::transform::Transform;
use pbrtrs::verif_core::vector::Vector3;

pub type M = [[f64; 4]; 4];

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    match &cx.id[..] {
        "C12" => c12(cx, &mut r, i),
        "C13" => c13(cx, &mut r, i),
        "C14" => {
            if i % 2 == 0 {
                c14::<Float>(cx, &mut r)
            } else {
                c14::<i64>(cx, &mut r)
            }
        }
        "C15" => c15(cx, &mut r, i),
        _ => c16(cx, &mut r, i),
    }
}

const ID: M = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];

fn map(m: &M, f: impl Fn(f64) -> f64) -> M {
    let mut o = *m;
    for r in o.iter_mut() {
        for x in r.iter_mut() {
            *x = f(*x);
        }
    }
    o
}
fn mul(a: &M, b: &M) -> M {
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            for k in 0..4 {
                o[r][c] += a[r][k] * b[k][c];
            }
        }
    }
    o
}
fn abs(m: &M) -> M {
    map(m, f64::abs)
}
fn norm(m: &M) -> f64 {
    m.iter().map(|r| r.iter().map(|x| x.abs()).sum()).fold(0.0, f64::max)
}
fn flat(m: &M) -> Vec<f64> {
    m.iter().flatten().copied().collect()
}
fn to<T: El>(m: &M) -> Matrix4<T> {
    let mut o = [[T::of(0.0); 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = T::of(m[r][c]);
        }
    }
    Matrix4 { mat: o }
}
fn from<T: El>(m: &Matrix4<T>) -> M {
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = m.mat[r][c].f();
        }
    }
    o
}
fn transpose(m: &M) -> M {
    let mut o = *m;
    for r in 0..4 {
        for c in 0..4 {
            o[r][c] = m[c][r];
        }
    }
    o
}
fn finite(m: &M) -> bool {
    m.iter().flatten().all(|x| x.is_finite())
}

/// Reference inverse: Gauss-Jordan with partial pivoting in f64 on the scaled matrix.
pub fn inv(m: &M) -> Option<M> {
    let s = m.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    if s == 0.0 || !s.is_finite() {
        return None;
    }
    let mut a = map(m, |x| x / s);
    let mut b = ID;
    for c in 0..4 {
        let p = (c..4).max_by(|&i, &j| a[i][c].abs().partial_cmp(&a[j][c].abs()).unwrap()).unwrap();
        if a[p][c].abs() < 1e-14 {
            return None;
        }
        a.swap(c, p);
        b.swap(c, p);
        let d = a[c][c];
        for k in 0..4 {
            a[c][k] /= d;
            b[c][k] /= d;
        }
        for r in 0..4 {
            if r != c {
                let f = a[r][c];
                for k in 0..4 {
                    a[r][k] -= f * a[c][k];
                    b[r][k] -= f * b[c][k];
                }
            }
        }
    }
    Some(map(&b, |x| x / s))
}

const KMAX: f64 = if EPS > 1e-10 { 1e4 } else { 1e9 };

fn perms() -> Vec<[usize; 4]> {
    let mut v = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    let p = [a, b, c, d];
                    let mut q = p;
                    q.sort();
                    if q == [0, 1, 2, 3] {
                        v.push(p);
                    }
                }
            }
        }
    }
    v
}

fn rotation(r: &mut Rng) -> M {
    // product of axis rotations by arbitrary and special angles
    let mut m = ID;
    for ax in 0..3 {
        let t = match r.below(4) {
            0 => std::f64::consts::FRAC_PI_2 * r.below(4) as f64,
            1 => 0.0,
            _ => r.unit() * 6.283185307179586,
        };
        let (s, c) = t.sin_cos();
        let (i, j) = [(1, 2), (0, 2), (0, 1)][ax];
        let mut q = ID;
        q[i][i] = c;
        q[j][j] = c;
        q[i][j] = -s;
        q[j][i] = s;
        m = mul(&m, &q);
    }
    m
}

/// Matrices that a shortcut may take for a simpler kind than they are.
fn structured(r: &mut Rng) -> M {
    let small = |r: &mut Rng| *r.pick(&[1.0, -1.0, 2.0, -2.0, 3.0, 0.5, -0.5, 0.25, 7.0, 1e-3, 1e-7]);
    let mut m = ID;
    match r.below(11) {
        0 => {
            // the identity but for a few entries
            for _ in 0..1 + r.below(4) {
                m[r.below(4)][r.below(4)] = small(r);
            }
        }
        1 => {
            // unit triangular, sparse
            let up = r.pct(50);
            for _ in 0..1 + r.below(5) {
                let (a, b) = (r.below(4), r.below(4));
                if a != b {
                    m[a.min(b)][a.max(b)] = small(r);
                }
            }
            if up {
                m = transpose(&m);
            }
        }
        2 | 3 => {
            // rows or columns of unit length that need not be perpendicular
            let vs = [[1.0, 0.0, 0.0], [0.6, 0.8, 0.0], [0.8, 0.6, 0.0], [0.28, 0.96, 0.0], [0.0, 0.6, 0.8], [0.6, 0.0, 0.8], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
            for a in 0..3 {
                let v = *r.pick(&vs);
                for b in 0..3 {
                    m[a][b] = if r.pct(30) { -v[b] } else { v[b] };
                }
            }
            if r.pct(50) {
                m = transpose(&m);
            }
            if r.pct(30) {
                for a in 0..3 {
                    m[a][3] = small(r);
                }
            }
        }
        4 => {
            // symmetric
            for a in 0..4 {
                for b in 0..=a {
                    m[a][b] = r.range(-5, 5) as f64;
                    m[b][a] = m[a][b];
                }
            }
            if r.pct(50) {
                // but for one entry
                m[r.below(4)][r.below(4)] += 1.0;
            }
        }
        5 => {
            // antisymmetric and a diagonal
            for a in 0..4 {
                for b in 0..a {
                    m[a][b] = r.range(-5, 5) as f64;
                    m[b][a] = -m[a][b];
                }
            }
        }
        6 => {
            // scale and translation
            for a in 0..3 {
                m[a][a] = small(r);
                m[a][3] = if r.pct(70) { small(r) } else { 0.0 };
            }
        }
        7 => {
            // a translation kept in the last row, or a projection
            for a in 0..3 {
                m[3][a] = if r.pct(60) { small(r) } else { 0.0 };
            }
            if r.pct(30) {
                m[3][3] = 0.0;
            }
        }
        8 => {
            // quarter turns, then a translation
            let p = *r.pick(&[[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
            for a in 0..3 {
                for b in 0..3 {
                    m[a][b] = 0.0;
                }
                m[a][p[a]] = if r.pct(50) { 1.0 } else { -1.0 };
                m[a][3] = if r.pct(50) { small(r) } else { 0.0 };
            }
        }
        9 => {
            // affine with small integers
            for a in 0..3 {
                for b in 0..4 {
                    m[a][b] = r.range(-4, 4) as f64;
                }
            }
            if r.pct(20) {
                m[3][3] = small(r);
            }
        }
        _ => {
            // a diagonal, one entry off it
            for a in 0..4 {
                m[a][a] = small(r);
            }
            m[r.below(4)][r.below(4)] = small(r);
        }
    }
    m
}

/// A matrix workload. Returns (family, matrix, integer entries?).
fn gen(r: &mut Rng, i: u64) -> (&'static str, M, bool) {
    let ps = perms();
    match r.below(17) {
        13..=16 => {
            let m = structured(r);
            ("structured", m, m.iter().flatten().all(|x| x.fract() == 0.0))
        }
        11 => {
            let top = *r.pick(&[100, 10_000, 1_000_000, 1_000_000_000]);
            let mut m = [[0.0; 4]; 4];
            for x in m.iter_mut().flatten() {
                *x = if r.pct(15) { 0.0 } else { r.range(-top, top) as f64 };
            }
            ("large integers", m, true)
        }
        0 => {
            let p = ps[(i as usize) % 24];
            let mut m = [[0.0; 4]; 4];
            for k in 0..4 {
                m[k][p[k]] = if r.pct(50) { 1.0 } else { -1.0 };
            }
            ("signed permutation", m, true)
        }
        1 => {
            let p = *r.pick(&ps);
            let mut m = [[0.0; 4]; 4];
            for k in 0..4 {
                let e = (10f64).powf(r.unit() * 20.0 - 10.0);
                m[k][p[k]] = (if r.pct(50) { e } else { -e }) as Float as f64;
            }
            ("scaled permutation", m, false)
        }
        2 => {
            let mut m = ID;
            for k in 0..4 {
                m[k][k] = <Float as El>::gen(r, 1e3).f();
            }
            ("diagonal", m, false)
        }
        3 => {
            let up = r.pct(50);
            let mut m = [[0.0; 4]; 4];
            for a in 0..4 {
                for b in 0..4 {
                    if a == b {
                        m[a][b] = (1 + r.below(9)) as f64 * if r.pct(50) { 1.0 } else { -1.0 };
                    } else if (a < b) == up {
                        m[a][b] = r.range(-9, 9) as f64;
                    }
                }
            }
            ("triangular", m, true)
        }
        4 => {
            // ties among candidate pivots, many zeros
            let mut m = [[0.0; 4]; 4];
            for x in m.iter_mut().flatten() {
                *x = *r.pick(&[0.0, 0.0, 1.0, -1.0]);
            }
            ("sparse signs", m, true)
        }
        5 => {
            let mut m = [[0.0; 4]; 4];
            for x in m.iter_mut().flatten() {
                *x = r.range(-9, 9) as f64;
            }
            ("dense integers", m, true)
        }
        6 => {
            let mut m = [[0.0; 4]; 4];
            for x in m.iter_mut().flatten() {
                *x = (r.unit() * 2.0 - 1.0) as Float as f64;
            }
            ("dense floats", m, false)
        }
        7 => {
            // tiny or zero diagonal: a fixed pivot order loses everything
            let mut m = [[0.0; 4]; 4];
            for x in m.iter_mut().flatten() {
                *x = (r.unit() * 2.0 - 1.0) as Float as f64;
            }
            for k in 0..4 {
                if r.pct(70) {
                    m[k][k] = *r.pick(&[0.0, 1e-8, -1e-10, 1e-5]) as Float as f64;
                }
            }
            ("tiny diagonal", m, false)
        }
        8 => {
            let mut m = rotation(r);
            let s = (10f64).powf(r.unit() * 2.0 - 1.0);
            for a in 0..3 {
                for b in 0..3 {
                    m[a][b] *= s;
                }
                m[a][3] = (r.unit() - 0.5) * 20.0;
            }
            ("affine", map(&m, |x| x as Float as f64), false)
        }
        9 => ("rotation", map(&rotation(r), |x| x as Float as f64), false),
        10 => {
            let mut m = [[0.0; 4]; 4];
            for x in m.iter_mut().flatten() {
                *x = <Float as El>::gen(r, 1e3).f();
            }
            ("mixed magnitudes", m, false)
        }
        _ => {
            // block patterns
            let mut m = [[0.0; 4]; 4];
            let k = 1 + r.below(3);
            for a in 0..4 {
                for b in 0..4 {
                    if (a < k) == (b < k) {
                        m[a][b] = r.range(-5, 5) as f64;
                    }
                }
            }
            ("block diagonal", m, true)
        }
    }
}

fn c12(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (fam, mut m, ints) = gen(r, i);
    let mut scale = 1.0;
    if r.pct(50) {
        scale = (2f64).powi(r.range(-40, 40) as i32);
        m = map(&m, |x| (x * scale) as Float as f64);
    }
    let as_int = ints && scale == 1.0 && r.pct(60);
    if !as_int {
        m = map(&m, |x| x as Float as f64);
    }
    let x = match inv(&m) {
        Some(x) => x,
        None => {
            cx.rep.eval(0, false);
            cx.rep.count("not judged: singular");
            return;
        }
    };
    let perm = fam.ends_with("permutation") || fam == "diagonal";
    let kappa = norm(&m) * norm(&x);
    if !perm && !(kappa <= KMAX) {
        cx.rep.eval(0, false);
        cx.rep.count("not judged: ill-conditioned");
        return;
    }
    let inp = format!("{} {} matrix {:?} (condition {:.3e})", fam, if as_int { "i64" } else { "Float" }, m, kappa);
    cx.rep.eval(key(&flat(&m)), true);
    cx.rep.count(&format!("inverted: {}", fam));
    cx.rep.count(if as_int { "integer matrices" } else { "float matrices" });
    cx.rep.sample(|| inp.clone());
    let res = guard(|| {
        if as_int {
            let a = to::<i64>(&m);
            let o = from(&a.inverse());
            (o, from(&a))
        } else {
            let a = to::<Float>(&m);
            let o = from(&a.inverse());
            (o, from(&a))
        }
    });
    let (got, after) = match res {
        Err(e) => {
            cx.violate(format!("an invertible matrix was refused: {}", e), inp);
            return;
        }
        Ok(v) => v,
    };
    cx.ensure(after == m, || ("inversion changed its argument".into(), inp.clone()));
    if !finite(&got) {
        cx.violate(format!("inverse is not finite: {:?}", got), inp);
        return;
    }
    if perm {
        // every entry is one reciprocal or zero
        let mut ok = true;
        for a in 0..4 {
            for b in 0..4 {
                let want = if m[b][a] != 0.0 { 1.0 / m[b][a] } else { 0.0 };
                ok &= near(got[a][b], want, want.abs(), 8.0);
            }
        }
        cx.ensure(ok, || (format!("wrong inverse {:?}", got), inp.clone()));
        return;
    }
    let tol = 64.0 * kappa;
    let (p, q) = (mul(&m, &got), mul(&got, &m));
    let mut worst = 0.0f64;
    for a in 0..4 {
        for b in 0..4 {
            worst = worst.max((p[a][b] - ID[a][b]).abs()).max((q[a][b] - ID[a][b]).abs());
        }
    }
    let ratio = worst / (EPS * kappa);
    let bucket = if ratio <= 1.0 { "residual <= 1 eps*cond" } else if ratio <= 8.0 { "residual 1..8 eps*cond" } else { "residual > 8 eps*cond" };
    cx.rep.count(bucket);
    cx.ensure(worst <= tol * EPS, || (format!("product with the inverse is off the identity by {:e} (allowed {:e}): inverse {:?}", worst, tol * EPS, got), inp.clone()));
}

fn c13(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (fam, mut m, ints) = gen(r, i);
    if r.pct(30) {
        // zeros must not depend on what else is there
        for x in m.iter_mut().flatten() {
            let e = (10f64).powf(r.unit() * 16.0 - 8.0);
            *x = *r.pick(&[0.0, 1.0, -1.0, e, -e]) as Float as f64;
        }
    } else if r.pct(20) {
        // the whole range of finite numbers, where intermediate results overflow and underflow
        let top = Float::MAX as f64;
        for x in m.iter_mut().flatten() {
            let e = (r.unit() * 2.0 - 1.0) * top.log10();
            let y = (10f64).powf(e).min(top);
            *x = *r.pick(&[0.0, 1.0, y, -y, y, -y]) as Float as f64;
        }
    }
    let ints = ints && m.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() < 1e6);
    let k = (i % 4) as usize;
    let what = match i / 4 % 3 {
        0 => "row",
        1 => "column",
        _ => "row and column",
    };
    for j in 0..4 {
        if what != "column" {
            m[k][j] = if r.pct(10) { -0.0 } else { 0.0 };
        }
        if what == "column" {
            m[j][k] = 0.0;
        }
    }
    if what == "row and column" {
        let k2 = r.below(4);
        for j in 0..4 {
            m[j][k2] = 0.0;
        }
    }
    let scale = if r.pct(40) { (2f64).powi(r.range(-40, 40) as i32) } else { 1.0 };
    m = map(&m, |x| ((x * scale) as Float as f64).clamp(Float::MIN as f64, Float::MAX as f64));
    let as_int = ints && scale == 1.0 && r.pct(50);
    let inp = format!("{} {} matrix with zero {} {}: {:?}", if as_int { "i64" } else { "Float" }, fam, what, k, m);
    cx.rep.eval(key(&flat(&m)), norm(&m) > 0.0);
    cx.rep.count(&format!("zero {} {}", what, k));
    cx.rep.sample(|| inp.clone());
    let res = guard(|| if as_int { from(&to::<i64>(&m).inverse()) } else { from(&to::<Float>(&m).inverse()) });
    match &res {
        Ok(g) => cx.violate(format!("a singular matrix was inverted to {:?}", g), inp.clone()),
        Err(e) => {
            cx.rep.count("refusals observed");
            cx.ensure(e.contains("ingular"), || (format!("refused otherwise than as singular: {}", e), inp.clone()))
        }
    }
    if !as_int {
        cx.rep.count("transforms offered");
        let t = guard(|| from(&Transform::new_(to::<Float>(&m)).inverse().m));
        if let Ok(g) = t {
            cx.violate(format!("a transform was built from a singular matrix, inverse {:?}", g), inp.clone());
        }
    }
    // afterwards inversion works as before
    let d = (1 + r.below(9)) as f64;
    let ok = guard(|| from(&to::<Float>(&map(&ID, |x| x * d)).inverse()));
    let good = matches!(&ok, Ok(g) if (0..4).all(|a| (0..4).all(|b| near(g[a][b], ID[a][b] / d, 1.0 / d, 8.0))));
    cx.ensure(good, || (format!("after the refusal, inverting {}*identity gives {:?}", d, ok), inp.clone()));
}

fn c14<T: El>(cx: &mut Cx, r: &mut Rng) {
    // sums of four products stay exact in the reference
    let cap = if T::INT { 4e7 } else { *r.pick(&[1e6, 1e15]) };
    let small = r.pct(50);
    let g = |r: &mut Rng| {
        if r.pct(30) {
            return from(&to::<T>(&structured(r)));
        }
        let mut m = [[0.0; 4]; 4];
        let sparse = r.pct(20);
        for x in m.iter_mut().flatten() {
            *x = if sparse && r.pct(60) { 0.0 } else { T::gen(r, if small { 20.0 } else { cap }).f() };
        }
        m
    };
    let (mut a, mut b) = (g(r), g(r));
    if !T::INT && r.pct(15) && norm(&a).max(norm(&b)) < 1e4 {
        // far from one, together or each entry apart, as far as products stay finite
        cx.rep.count("matrices of extreme magnitudes");
        let k = r.range(-105, 105);
        let (ka, kb) = (k, r.range(-105, (90 - k).min(105)));
        let each = r.pct(30);
        let wide = if EPS > 1e-10 { 1 } else { 8 };
        for (m, k) in [(&mut a, ka), (&mut b, kb)] {
            for x in m.iter_mut().flatten() {
                let k = if each { r.range(-60, 45) } else { k };
                *x = (*x * (2f64).powi((k * wide) as i32)) as Float as f64;
            }
        }
    }
    let (a, b) = (a, b);
    let (ta, tb) = (to::<T>(&a), to::<T>(&b));
    let inp = format!("{} A={:?} B={:?}", T::NAME, a, b);
    cx.rep.eval(key(&[flat(&a), flat(&b)].concat()), norm(&a) > 0.0 && norm(&b) > 0.0);
    cx.rep.sample(|| inp.clone());
    let want = mul(&a, &b);
    let mag = mul(&abs(&a), &abs(&b));
    let mut chk = |op: &str, got: Result<M, String>, want: M, mag: M, k: f64| {
        cx.rep.count("matrix results checked");
        match got {
            Err(e) => cx.violate(format!("{} panicked: {}", op, e), inp.clone()),
            Ok(g) => {
                for x in 0..4 {
                    for y in 0..4 {
                        if !same::<T>(g[x][y], want[x][y], mag[x][y], k) {
                            cx.violate(format!("{}: entry ({}, {}) is {:e}, should be {:e}", op, x, y, g[x][y], want[x][y]), inp.clone());
                            return;
                        }
                    }
                }
            }
        }
    };
    chk("product", guard(|| from(&(ta * tb))), want, mag, 8.0);
    let mut s = a;
    let mut sm = a;
    for x in 0..4 {
        for y in 0..4 {
            s[x][y] = a[x][y] + b[x][y];
            sm[x][y] = a[x][y].abs() + b[x][y].abs();
        }
    }
    chk("sum", guard(|| from(&(ta + tb))), s, sm, 2.0);
    chk("transpose", guard(|| from(&ta.transpose())), transpose(&a), abs(&a), 0.0);
    chk("double transpose", guard(|| from(&ta.transpose().transpose())), a, abs(&a), 0.0);
    chk("transpose of product", guard(|| from(&(ta * tb).transpose())), transpose(&want), transpose(&mag), 8.0);
    chk("product of transposes", guard(|| from(&(tb.transpose() * ta.transpose()))), transpose(&want), transpose(&mag), 8.0);
    chk("identity product", guard(|| from(&(ta * to::<T>(&ID)))), a, abs(&a), 2.0);
    chk("product with identity", guard(|| from(&(to::<T>(&ID) * ta))), a, abs(&a), 2.0);
    chk("rows by index", guard(|| {
        let mut o = [[0.0; 4]; 4];
        for x in 0..4 {
            for y in 0..4 {
                o[x][y] = ta[x][y].f();
            }
        }
        o
    }), a, abs(&a), 0.0);
    chk("new", guard(|| from(&Matrix4::new(ta.mat))), a, abs(&a), 0.0);
    {
        // conversion to float: each entry the nearest float of its own entry
        cx.rep.count("conversions checked");
        match guard(|| from(&to_mat4f(&ta))) {
            Ok(g) => {
                let ok = (0..4).all(|x| (0..4).all(|y| near(g[x][y], a[x][y], a[x][y].abs(), 1.0)));
                cx.ensure(ok, || (format!("conversion to float gives {:?}", g), inp.clone()));
            }
            Err(e) => cx.violate(format!("conversion to float panicked: {}", e), inp.clone()),
        }
    }
    if T::INT && small {
        // associativity, exact
        let c = g(r);
        let tc = to::<T>(&c);
        let (x, y) = (guard(|| from(&((ta * tb) * tc))), guard(|| from(&(ta * (tb * tc)))));
        cx.rep.count("associativity checked");
        cx.ensure(x == y && x.is_ok(), || (format!("product is not associative with C={:?}: {:?} versus {:?}", c, x, y), inp.clone()));
    }
    let bad = *r.pick(&[4usize, 5, 8, 16, 255, 256, 1 << 32, usize::MAX]);
    cx.rep.count("out-of-range indices offered");
    let t = guard(|| ta[bad][0].f());
    cx.ensure(t.is_err(), || (format!("index {} gives {:?}", bad, t), inp.clone()));
}

/// Transform workload: (description, transform, its matrix, its inverse matrix by reference, tolerance scale)
fn tr(cx: &mut Cx, r: &mut Rng, i: u64) -> Option<(String, Result<Transform, String>, M, M)> {
    // magnitudes whose reciprocals are ordinary numbers too
    let wide = r.pct(10);
    let g = |r: &mut Rng, cap: f64| if wide { any_float(r, 25.0) } else { <Float as El>::gen(r, cap) };
    match r.below(3) {
        0 => {
            let d = [g(r, 1e6), g(r, 1e6), g(r, 1e6)];
            let v = Vector3::new(d[0], d[1], d[2]);
            let (mut m, mut n) = (ID, ID);
            for k in 0..3 {
                m[k][3] = d[k].f();
                n[k][3] = -d[k].f();
            }
            cx.rep.count("translations");
            Some((format!("translate {:?}", d), guard(|| Transform::translate(&v)), m, n))
        }
        1 => {
            let mut d = [g(r, 1e6), g(r, 1e6), g(r, 1e6)];
            for x in d.iter_mut() {
                if *x == 0.0 {
                    *x = 1.0;
                }
            }
            let (mut m, mut n) = (ID, ID);
            for k in 0..3 {
                m[k][k] = d[k].f();
                n[k][k] = 1.0 / d[k].f();
            }
            cx.rep.count("scales");
            Some((format!("scale {:?}", d), guard(|| Transform::scale(d[0], d[1], d[2])), m, n))
        }
        _ => {
            let (fam, m, _) = gen(r, i);
            let m = map(&m, |x| x as Float as f64);
            let x = inv(&m)?;
            if !(norm(&m) * norm(&x) <= KMAX) {
                return None;
            }
            cx.rep.count("transforms from matrices");
            Some((format!("{} {:?}", fam, m), guard(|| Transform::new_(to::<Float>(&m))), m, x))
        }
    }
}

fn c15(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (inp, t, m, n) = match tr(cx, r, i) {
        Some(x) => x,
        None => {
            cx.rep.eval(0, false);
            cx.rep.count("not judged: singular or ill-conditioned");
            return;
        }
    };
    cx.rep.eval(key(&flat(&m)), m != ID);
    cx.rep.sample(|| inp.clone());
    let t = match t {
        Ok(t) => t,
        Err(e) => {
            cx.violate(format!("building the transform panicked: {}", e), inp);
            return;
        }
    };
    let kappa = norm(&m) * norm(&n);
    // a chain of inverses and transposes: after each step, matrix and stored inverse are a pair
    let (mut t, mut m, mut n) = (t, m, n);
    let mut hist = String::new();
    for step in 0..5 {
        let (got, goti) = match guard(|| (from(&t.m), from(&t.inverse().m))) {
            Ok(x) => x,
            Err(e) => {
                cx.violate(format!("inverse panicked after {}: {}", hist, e), inp);
                return;
            }
        };
        cx.rep.count("pairs observed");
        // the matrix itself: exact for the given one, close for a computed inverse
        let exact = inp.starts_with("translate");
        let ok = if exact {
            got == m && goti == n
        } else {
            let given = if (hist.matches("inverse").count() % 2) == 0 { (got == m, near_inv(&goti, &n, kappa)) } else { (near_inv(&got, &m, kappa), goti == n) };
            given.0 && given.1
        };
        cx.ensure(ok, || (format!("after [{}]: matrix {:?} with inverse {:?}, should be {:?} and {:?}", hist, got, goti, m, n), inp.clone()));
        // and the observed pair multiplies to the identity, entry by entry
        let (p, q) = (mul(&got, &goti), mul(&goti, &got));
        let (pm, qm) = (mul(&abs(&got), &abs(&goti)), mul(&abs(&goti), &abs(&got)));
        let mut worst: f64 = 0.0;
        let mut ok = true;
        for a in 0..4 {
            for b in 0..4 {
                for (x, mag) in [(p[a][b], pm[a][b]), (q[a][b], qm[a][b])] {
                    let e = (x - ID[a][b]).abs();
                    worst = worst.max(e);
                    let lim = if inp.starts_with("scale") || exact { 16.0 * EPS * mag.max(1e-300) + 8.0 * TINY } else { 64.0 * EPS * kappa };
                    ok &= e <= lim;
                }
            }
        }
        cx.ensure(ok && worst.is_finite(), || (format!("after [{}]: matrix times inverse is off the identity by {:e}: {:?} and {:?}", hist, worst, got, goti), inp.clone()));
        // twice is the same
        let tt = guard(|| (t.inverse().inverse() == t, t.transpose().transpose() == t));
        cx.ensure(tt == Ok((true, true)), || (format!("after [{}]: double inverse / double transpose is another transform: {:?}", hist, tt), inp.clone()));
        if step == 4 {
            break;
        }
        if r.pct(50) {
            hist += " inverse";
            t = t.inverse();
            std::mem::swap(&mut m, &mut n);
        } else {
            hist += " transpose";
            t = t.transpose();
            m = transpose(&m);
            n = transpose(&n);
        }
    }
}

fn near_inv(g: &M, w: &M, kappa: f64) -> bool {
    let s = norm(w);
    finite(g) && (0..4).all(|a| (0..4).all(|b| (g[a][b] - w[a][b]).abs() <= 64.0 * EPS * kappa * s || near(g[a][b], w[a][b], w[a][b].abs(), 8.0)))
}

fn c16(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 4 {
        0 => c16_identity(cx, r),
        1 => c16_scale(cx, r, i),
        _ => c16_act(cx, r, i),
    }
}

fn c16_act(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (inp, t, m, n) = match tr(cx, r, i) {
        Some(x) => x,
        None => {
            cx.rep.eval(0, false);
            return;
        }
    };
    let t = match t {
        Ok(t) => t,
        Err(e) => {
            cx.violate(format!("building the transform panicked: {}", e), inp);
            return;
        }
    };
    let int = r.pct(40);
    let v: [f64; 3] = if int {
        [i64::gen(r, 1e6).f(), i64::gen(r, 1e6).f(), i64::gen(r, 1e6).f()]
    } else {
        [Float::gen(r, 1e6).f(), Float::gen(r, 1e6).f(), Float::gen(r, 1e6).f()]
    };
    let inp = format!("{} applied to {} vector {:?}", inp, if int { "i64" } else { "Float" }, v);
    cx.rep.eval(key(&[flat(&m), v.to_vec()].concat()), v != [0.0; 3]);
    cx.rep.count("applications checked");
    cx.rep.sample(|| inp.clone());
    let res = guard(|| {
        let w = if int { Vector3::new(v[0] as i64, v[1] as i64, v[2] as i64).transform(&t) } else { Vector3::new(v[0] as Float, v[1] as Float, v[2] as Float).transform(&t) };
        let back = w.transform(&t.inverse());
        ([w.x as f64, w.y as f64, w.z as f64], [back.x as f64, back.y as f64, back.z as f64])
    });
    match res {
        Err(e) => cx.violate(format!("applying the transform panicked: {}", e), inp),
        Ok((w, back)) => {
            let mut ok = true;
            let mut want = [0.0; 3];
            for k in 0..3 {
                want[k] = (0..3).map(|j| m[k][j] * v[j]).sum();
                let mag: f64 = (0..3).map(|j| (m[k][j] * v[j]).abs()).sum();
                ok &= near(w[k], want[k], mag, 16.0);
            }
            cx.ensure(ok, || (format!("gives {:?}, should be {:?}", w, want), inp.clone()));
            // the inverse undoes it (for matrices whose linear part stands alone)
            let affine = (0..3).all(|k| m[3][k] == 0.0 && n[3][k] == 0.0) || (0..3).all(|k| m[k][3] == 0.0 && n[k][3] == 0.0);
            if affine {
                cx.rep.count("round trips checked");
                let simple = inp.starts_with("translate") || inp.starts_with("scale");
                let s = if simple { 1.0 } else { norm(&m) * norm(&n) * 8.0 };
                let vs = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
                let ok = (0..3).all(|k| near(back[k], v[k], if simple { v[k].abs() } else { vs } * s, 16.0));
                cx.ensure(ok, || (format!("the inverse transform gives {:?} back", back), inp.clone()));
            }
        }
    }
}

fn c16_identity(cx: &mut Cx, r: &mut Rng) {
    let mut m = ID;
    let k = r.below(24);
    let mut same = true;
    if k >= 18 {
        // several entries differ, so that sums, traces or single rows do not tell
        let p = *r.pick(&perms());
        match k {
            18 => {
                m = [[0.0; 4]; 4];
                for a in 0..4 {
                    m[a][p[a]] = 1.0;
                }
            }
            19 => {
                let d = *r.pick(&[1.0, 0.5, 1e-3, EPS * 4.0]) as Float as f64;
                m[p[0]][p[0]] += d;
                m[p[1]][p[1]] -= d;
            }
            20 => {
                let d = *r.pick(&[1.0, 0.5, 1e-3, 1e-12]) as Float as f64;
                m[p[0]][p[1]] += d;
                m[p[2]][p[3]] -= d;
            }
            21 => {
                m[p[0]][p[0]] = -1.0;
                m[p[1]][p[1]] = if r.pct(50) { -1.0 } else { 1.0 };
            }
            22 => m = map(&m, |x| x * *[0.0, 2.0, -1.0, 0.5].get(p[0]).unwrap()),
            _ => m = map(&m, |x| 1.0 - x),
        }
        same = m == ID;
    }
    if k < 16 {
        let e = m[k / 4][k % 4];
        let d = *r.pick(&[1.0, -1.0, 1e-6, -1e-4, 1e-3, 0.5, EPS, -EPS, 1e-12, 100.0, 1e-20, -1e-28, 1e-35, TINY, -TINY, TINY / 1024.0, 1e30]);
        let x = (e + d) as Float as f64;
        m[k / 4][k % 4] = x;
        same = x == e;
    }
    if r.pct(20) && same {
        m[0][1] = -0.0; // a negative zero is a zero
    }
    let inp = format!("matrix {:?}", m);
    cx.rep.eval(key(&flat(&m)), true);
    cx.rep.count(if same { "identities classified" } else { "near identities classified" });
    // the stored inverse has no say
    let got = guard(|| Transform::new(to::<Float>(&m), to::<Float>(&if r.pct(50) { ID } else { map(&ID, |x| x * 2.0) })).is_identity());
    cx.ensure(got == Ok(same), || (format!("is_identity gives {:?}, should be {}", got, same), inp.clone()));
    cx.rep.sample(|| inp.clone());
}

fn c16_scale(cx: &mut Cx, r: &mut Rng, i: u64) {
    let _ = i;
    let kind = r.below(9);
    let (what, mut m): (&str, M) = match kind {
        7 | 8 => {
            // axes scaled so that some mean of their changes is none
            let e = if r.pct(50) { 0.0016 + r.unit() * 0.05 } else { r.unit() * 0.9 };
            let q = match r.below(4) {
                0 => [1.0 + e, 1.0 - e, 1.0],
                1 => [1.0 + e, 1.0 / (1.0 + e), 1.0],
                2 => [1.0 + e, 1.0 - e / 2.0, 1.0 - e / 2.0],
                _ => [1.0 - e, 1.0 / (1.0 - e).sqrt(), 1.0 / (1.0 - e).sqrt()],
            };
            let at = r.below(3);
            let mut m = if r.pct(50) { ID } else { rotation(r) };
            for k in 0..3 {
                let f = q[(k + at) % 3].sqrt() * if r.pct(50) { 1.0 } else { -1.0 };
                for a in 0..3 {
                    m[a][k] *= f;
                }
            }
            ("scalings that cancel out", m)
        }
        0 => ("rotation", rotation(r)),
        1 => {
            let p = *r.pick(&[[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
            let mut m = [[0.0; 4]; 4];
            for k in 0..3 {
                m[k][p[k]] = if r.pct(50) { 1.0 } else { -1.0 };
            }
            m[3][3] = 1.0;
            ("signed permutation", m)
        }
        2 => {
            let mut m = ID;
            for k in 0..3 {
                m[k][3] = <Float as El>::gen(r, 1e6).f();
            }
            ("translation", m)
        }
        3 => {
            let mut m = rotation(r);
            for k in 0..3 {
                m[k][3] = <Float as El>::gen(r, 1e6).f();
            }
            ("rigid motion", m)
        }
        4 => {
            // one axis scaled
            let mut m = ID;
            let f = match r.below(6) {
                0 => 1.01,
                1 => 0.99,
                4 => *r.pick(&[1.0008, 0.9992, 1.0002, 0.9998, 1.002, 0.998, 1.00001, 0.99999]),
                5 => 1.0 + (r.unit() - 0.5) * 0.01,
                2 => r.unit(),
                _ => 1.0 + r.unit() * 10.0,
            };
            let k = r.below(3);
            m[k][k] = if r.pct(50) { f } else { -f };
            ("one axis", m)
        }
        5 => {
            let mut m = rotation(r);
            let k = r.below(3);
            let f = *r.pick(&[0.5, 0.9, 1.1, 2.0, 100.0, 0.01, 0.995, 1.005, 0.999, 1.001, 0.9999, 1.0001]);
            for a in 0..3 {
                m[a][k] *= f;
            }
            ("scaled rotation", m)
        }
        _ => {
            let mut m = ID;
            for a in 0..3 {
                for b in 0..3 {
                    m[a][b] = (r.unit() - 0.5) * 3.0;
                }
            }
            ("general", m)
        }
    };
    // the rest of the matrix has no part in it
    if r.pct(40) {
        for k in 0..3 {
            m[k][3] = <Float as El>::gen(r, 1e6).f();
        }
    }
    if r.pct(10) {
        for k in 0..4 {
            m[3][k] = <Float as El>::gen(r, 1e3).f();
        }
    }
    let m = map(&m, |x| x as Float as f64);
    let inp = format!("{} {:?}", what, m);
    let dev: f64 = (0..3).map(|c| ((0..3).map(|k| m[k][c] * m[k][c]).sum::<f64>() - 1.0).abs()).fold(0.0, f64::max);
    let want = if dev > 0.0015 {
        Some(true)
    } else if kind <= 3 || dev < 0.0005 {
        Some(false)
    } else {
        None
    };
    cx.rep.eval(key(&flat(&m)), want.is_some());
    let got = guard(|| Transform::new(to::<Float>(&m), to::<Float>(&ID)).has_scale());
    match want {
        None => cx.rep.count("not judged: deviation next to the threshold"),
        Some(w) => {
            cx.rep.count(if w { "scalings classified" } else { "non-scalings classified" });
            cx.ensure(got == Ok(w), || (format!("has_scale gives {:?}, should be {} (largest deviation of a squared length {:e})", got, w, dev), inp.clone()));
        }
    }
    cx.rep.sample(|| inp.clone());
}

