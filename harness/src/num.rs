//! Numeric workload and oracles. References are computed in f64; integer workloads are capped so
//! that every reference value is exact.
use crate::dict;
use crate::rng::Rng;
pub use pbrtrs::verif_core::{ElemType, Float};

pub const EPS: f64 = Float::EPSILON as f64;
pub const TINY: f64 = Float::MIN_POSITIVE as f64;

pub trait El: ElemType + std::panic::RefUnwindSafe + std::panic::UnwindSafe {
    const INT: bool;
    const NAME: &'static str;
    /// value of magnitude at most about `cap`
    fn gen(r: &mut Rng, cap: f64) -> Self;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
}

impl El for i64 {
    const INT: bool = true;
    const NAME: &'static str = "i64";
    fn gen(r: &mut Rng, cap: f64) -> i64 {
        let c = cap as i64;
        let v = match r.below(9) {
            0 => *r.pick(&[0i64, 1, -1, 2, -2, 3, 7, -10]),
            1 => (*r.pick(&dict::get().ints)).saturating_add(r.range(-1, 1)),
            2 => -(*r.pick(&dict::get().ints)).clamp(-c, c),
            3 | 4 => r.range(-10, 10),
            5 => r.range(-1000, 1000),
            6 => {
                let k = r.below(41);
                (1i64 << k) + r.range(-1, 1)
            }
            _ => r.range(-c, c),
        };
        if v.unsigned_abs() > c as u64 { v % (c + 1) } else { v }
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> i64 {
        x as i64
    }
}

impl El for Float {
    const INT: bool = false;
    const NAME: &'static str = "Float";
    fn gen(r: &mut Rng, cap: f64) -> Float {
        let s = if r.pct(50) { 1.0 } else { -1.0 };
        let v = match r.below(14) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, -3.0, 0.25, 10.0, 0.1, -0.1]),
            1 => s * *r.pick(&dict::get().floats),
            2 => s * (*r.pick(&dict::get().floats) + (r.unit() - 0.5) * 1e-3),
            3 => *r.pick(&dict::get().ints) as f64 * s,
            4 | 5 => r.range(-10, 10) as f64,
            6 | 7 => s * r.unit(),
            8 => s * r.unit() * 10.0,
            9 => s * r.unit() * 1000.0,
            10 => s * (2f64).powi(r.range(-20, 20) as i32),
            11 => s * (10f64).powf(r.unit() * 12.0 - 6.0),
            12 => s * (10f64).powf(-r.unit() * 12.0),
            _ => s * (10f64).powf(r.unit() * cap.log10().max(0.0)),
        };
        let v = if v.is_finite() { v } else { 1.0 };
        let v = if v.abs() > cap { v % cap } else { v };
        // keep clear of the subnormal range, where reciprocals and products lose their meaning
        if v != 0.0 && v.abs() < 1e-12 { v.signum() as Float * 1e-12 } else { v as Float }
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> Float {
        x as Float
    }
}

/// |got - want| within k rounding errors of terms of total magnitude `scale`.
pub fn near(got: f64, want: f64, scale: f64, k: f64) -> bool {
    if got.is_nan() || want.is_nan() {
        return false;
    }
    if got == want {
        return true;
    }
    (got - want).abs() <= k * EPS * scale + 8.0 * TINY
}

/// Like near, but exact for integer elements.
pub fn same<T: El>(got: f64, want: f64, scale: f64, k: f64) -> bool {
    if T::INT { got == want } else { near(got, want, scale, k) }
}

pub fn key(v: &[f64]) -> u64 {
    let mut h = 0u64;
    for x in v {
        h = crate::rng::mix(h ^ x.to_bits());
    }
    h
}

pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn adot(a: [f64; 3], b: [f64; 3]) -> f64 {
    (a[0] * b[0]).abs() + (a[1] * b[1]).abs() + (a[2] * b[2]).abs()
}

/// Any 64-bit integer: limits, powers of two and their neighbours, random bits.
pub fn any_int(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, 1, -1]),
        1 => (*r.pick(&dict::get().ints)).wrapping_mul(if r.pct(50) { 1 } else { -1 }),
        2 => {
            let k = r.below(63);
            let v = (1i64 << k).wrapping_add(r.range(-2, 2));
            if r.pct(50) { v } else { v.wrapping_neg() }
        }
        3 => r.range(-5, 5),
        _ => {
            let k = r.below(64) as u32;
            (r.u64() as i64) >> k
        }
    }
}

/// A finite float of any magnitude from 10^-lim to 10^lim.
pub fn any_float(r: &mut Rng, lim: f64) -> Float {
    let s = if r.pct(50) { 1.0 } else { -1.0 };
    (s * (10f64).powf((r.unit() * 2.0 - 1.0) * lim)) as Float
}

/// A parameter of an interpolation, a ray or a scaling: 0 and 1, simple fractions, next to those,
/// anything between and some beyond (up to `wide`).
pub fn share(r: &mut Rng, wide: f64) -> Float {
    match r.below(9) {
        0 => 0.0,
        1 => 1.0,
        2 => (r.range(-8, 16) as f64 / *r.pick(&[2.0, 3.0, 4.0, 5.0, 6.0, 8.0, 10.0, 16.0, 100.0])) as Float,
        3 => {
            let v = *r.pick(&[0.0, 0.5, 1.0, -1.0, 2.0]);
            (v + *r.pick(&[EPS, -EPS, 1e-3, -1e-3, 1e-6, -1e-6])) as Float
        }
        4 => {
            let v = *r.pick(&dict::get().floats);
            (if v.is_finite() && v.abs() <= wide { v } else { 0.75 }) as Float
        }
        5 | 6 => r.unit() as Float,
        _ => ((r.unit() * 2.0 - 1.0) * wide) as Float,
    }
}
