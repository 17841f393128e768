//! Purity under repetition and threads (C10), memory events (C24), parsing cost (C11).
use crate::alloc;
use crate::cx::{guard, Cx};
#[cfg(feature = "scene")]
use crate::hostile;
use crate::rng::{mix, Rng};
#[cfg(feature = "scene")]
use crate::scene::*;

/// A text and what kind it is.
#[cfg(feature = "scene")]
fn text(r: &mut Rng, big: usize) -> String {
    match r.below(3) {
        0 => {
            let f = r.below(hostile::FAMILIES);
            hostile::family(r, f, big).1
        }
        1 => {
            let mut p = Profile::base();
            p.budget = 15;
            p.strs = Strs::Full;
            p.nums = Nums::Full;
            let (t, _) = gen_scene(r, &p);
            let l = *r.pick(&LAYOUTS);
            render(r, &t, l).0
        }
        _ => {
            let mut p = Profile::base();
            p.budget = 10;
            let (mut t, _) = gen_scene(r, &p);
            hostile::edit(r, &mut t);
            render(r, &t, Layout::Lines).0
        }
    }
}

fn h(s: &str) -> u64 {
    crate::rng::hash(s.as_bytes())
}

#[cfg(any(feature = "matrix", feature = "vecs", feature = "boxes", feature = "rays"))]
mod ops {
    //! Every operation of the math modules on one set of operands, results as text (NaN compares
    //! unequal, text does not).
    use crate::cx::guard;
    use crate::num::*;
    use crate::rng::Rng;

    /// Operands: those of the seed, or a near copy of them.
    struct G {
        r: Rng,
        small: bool,
        near: u64,
    }

    impl G {
        fn vals<T: El>(&mut self, n: usize) -> Vec<T> {
            let few = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 4.0, 100.0];
            let mut v: Vec<T> = (0..n).map(|_| if self.small { T::of(*self.r.pick(&few)) } else { T::gen(&mut self.r, 1e6) }).collect();
            if self.near != 0 {
                let mut q = Rng::new(self.near);
                let (i, j) = (q.below(n), q.below(n));
                match q.below(6) {
                    0 => v.swap(i, j),
                    1 => v[i] = T::of(-v[i].f()),
                    2 => v[i] = T::of(v[i].f() + 1.0),
                    3 => v[i] = v[j],
                    4 => {
                        // the sum stays
                        v[i] = T::of(v[i].f() + 1.0);
                        v[j] = T::of(v[j].f() - 1.0);
                    }
                    _ => v[i] = T::gen(&mut q, 1e6),
                }
            }
            v
        }
    }

    #[cfg(feature = "matrix")]
    fn matrix<T: El>(g: &mut G) -> String {
        use pbrtrs::verif_core::matrix::Matrix4;
        let v = g.vals::<T>(32);
        let mut m = [[T::of(0.0); 4]; 4];
        let mut q = m;
        for k in 0..16 {
            m[k / 4][k % 4] = if g.r.pct(20) { T::of(0.0) } else { v[k] };
            q[k / 4][k % 4] = v[16 + k];
        }
        let (m, q) = (Matrix4::new(m), Matrix4::new(q));
        let a = guard(|| m.inverse());
        format!("{:?} {:?} {:?} {:?} {:?} {:?}", a.is_ok(), a.ok(), m * q, m + q, m.transpose(), m[g.r.below(4)])
    }

    #[cfg(feature = "matrix")]
    fn transform(g: &mut G) -> String {
        use pbrtrs::verif_core::matrix::Matrix4;
        use pbrtrs::verif_core::transform::Transform;
        use pbrtrs::verif_core::vector::Vector3;
        let v = g.vals::<Float>(19);
        let mut m = [[0.0 as Float; 4]; 4];
        for k in 0..16 {
            m[k / 4][k % 4] = if g.r.pct(20) { 0.0 } else { v[k] };
        }
        let w = Vector3::new(v[16], v[17], v[18]);
        let see = |t: Transform| (t.inverse(), t.transpose(), t.has_scale(), t.is_identity(), w.transform(&t));
        let t = guard(|| see(Transform::new_(Matrix4::new(m))));
        let s = guard(|| see(Transform::scale(v[16], v[17], v[18])));
        let d = guard(|| see(Transform::translate(&w)));
        format!("{:?} {:?} {:?}", t.ok(), s.ok(), d.ok())
    }

    #[cfg(feature = "vecs")]
    fn vecs<T: El>(g: &mut G) -> String {
        use pbrtrs::verif_core::normal::Normal3;
        use pbrtrs::verif_core::point::{Point2, Point3};
        use pbrtrs::verif_core::vector::{Vector2, Vector3};
        let v = g.vals::<T>(7);
        let (a, b) = (Vector3::new(v[0], v[1], v[2]), Vector3::new(v[3], v[4], v[5]));
        let (p, q) = (Point3::from(a), Point3::from(b));
        let (n, m) = (Normal3::from(a), Normal3::from(b));
        let (k, x, y, z) = (g.r.below(4), g.r.below(3), g.r.below(3), g.r.below(3));
        let mut s = format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} ",
            (a + b, a - b, a * v[6], &a * v[6], -a, -&a),
            guard(|| a / v[6]).ok(),
            (a.cross(&b), a.dot(&b), a.len(), a.len_sq()),
            guard(|| a[k]).ok(),
            (a.max_dimension(), a.min(&b), a.max(&b), a.face_forward(&b)),
            (a.min_component(), a.max_component(), a.permute(x, y, z)),
            (p.abs(), p - q, &p - q, p + a, p - a, p * v[6], &p * v[6], p.min(&q), p.max(&q)),
            guard(|| (p / v[6], Vector2::new(v[0], v[1]) / v[6], n / v[6])).ok(),
            (Point2::new(v[0], v[1]).abs(), Point2::from(p), Vector3::from(q)),
        );
        s += &format!(
            "{:?} {:?} {:?} {:?}",
            (n + m, n - m, n * v[6], &n * v[6], -n, -&n),
            (n.cross(&m), n.dot(&m), n.len(), n.len_sq()),
            (n.max_dimension(), n.min(&m), n.max(&m), n.face_forward(&m)),
            (n.min_component(), n.max_component(), n.permute(x, y, z), guard(|| n[k]).ok()),
        );
        s
    }

    #[cfg(feature = "vecs")]
    fn floats(g: &mut G) -> String {
        use pbrtrs::verif_core::point::{self, Point3};
        use pbrtrs::verif_core::vector::Vector3;
        let v = g.vals::<Float>(7);
        let (p, q) = (Point3::new(v[0], v[1], v[2]), Point3::new(v[3], v[4], v[5]));
        let a = Vector3::new(v[0], v[1], v[2]);
        let f = guard(|| crate::m_vec::frame(&(a / a.len()))).ok();
        format!("{:?} {:?} {:?} {:?}", point::lerp(v[6], &p, &q), point::floor(&p), point::ceil(&q), f)
    }

    #[cfg(feature = "boxes")]
    fn boxes<T: El>(g: &mut G) -> String {
        use pbrtrs::verif_core::boundingbox::Bounds3;
        use pbrtrs::verif_core::point::Point3;
        let v = g.vals::<T>(15);
        let p = |k: usize| Point3::new(v[k], v[k + 1], v[k + 2]);
        let (a, b) = (Bounds3::new(p(0), p(3)), Bounds3::new(p(6), p(9)));
        let see = |x: &Bounds3<T>| format!("{:?}{:?}", x.p_min, x.p_max);
        let c = guard(|| a.corner(g.r.below(8))).ok();
        format!(
            "{} {} {} {} {} {:?} {:?} {:?} {:?}",
            see(&a.union(&b)),
            see(&a.union_pt(&p(12))),
            see(&a.intersect(&b)),
            see(&a.expand(v[0])),
            see(&Bounds3::new_pt(p(12))),
            (a.overlaps(&b), a.inside(&p(12)), a.inside_exclusive(&p(12)), a.maximum_extent()),
            guard(|| (a.volume(), a.surface_area())).ok(),
            a.diagonal(),
            (c, guard(|| a.offset(&p(12))).ok()),
        )
    }

    #[cfg(feature = "boxes")]
    fn float_boxes(g: &mut G) -> String {
        use pbrtrs::verif_core::boundingbox::{self as bb, Bounds2, Bounds3};
        use pbrtrs::verif_core::point::{Point2, Point3};
        let v = g.vals::<Float>(9);
        let p = |k: usize| Point3::new(v[k], v[k + 1], v[k + 2]);
        let a = Bounds3::new(p(0), p(3));
        let u = g.vals::<i64>(2);
        let (w, h) = (g.r.range(0, 6), g.r.range(0, 6));
        let px: Vec<Point2<i64>> = Bounds2 { p_min: Point2::new(u[0], u[1]), p_max: Point2::new(u[0] + w, u[1] + h) }.into_iter().take(100).collect();
        format!("{:?} {:?} {:?}", bb::bounding_sphere(&a), bb::lerp(&a, &p(6)), px)
    }

    #[cfg(feature = "rays")]
    fn rays(g: &mut G) -> String {
        use pbrtrs::verif_core::point::Point3;
        use pbrtrs::verif_core::ray::{Ray, RayDifferential};
        use pbrtrs::verif_core::vector::Vector3;
        let v = g.vals::<Float>(7);
        let q = Ray::new_infinite(Point3::new(v[0], v[1], v[2]), Vector3::new(v[3], v[4], v[5]));
        let at = q.at(v[6]);
        let mut d = RayDifferential::new(q);
        d.scale_differentials(v[6]);
        format!("{:?} {:?} {:?} {:?} {:?}", at, d.rx_origin, d.ry_origin, d.rx_direction, d.ry_direction)
    }

    /// Operands of a seed; `near` other than zero makes them a near copy.
    pub fn all(seed: u64, near: u64) -> String {
        let mut g = G { r: Rng::new(seed), small: seed % 3 == 0, near };
        let g = &mut g;
        let mut s = String::new();
        let _ = (&mut *g, &mut s);
        #[cfg(feature = "matrix")]
        {
            s += &matrix::<Float>(g);
            s += &guard(|| matrix::<i64>(g)).unwrap_or_default();
            s += &transform(g);
        }
        #[cfg(feature = "vecs")]
        {
            s += &vecs::<Float>(g);
            s += &guard(|| vecs::<i64>(g)).unwrap_or_default();
            s += &floats(g);
        }
        #[cfg(feature = "boxes")]
        {
            s += &boxes::<Float>(g);
            s += &guard(|| boxes::<i64>(g)).unwrap_or_default();
            s += &float_boxes(g);
        }
        #[cfg(feature = "rays")]
        {
            s += &rays(g);
        }
        s
    }
}

#[cfg(not(any(feature = "matrix", feature = "vecs", feature = "boxes", feature = "rays")))]
mod ops {
    pub fn all(_: u64, _: u64) -> String {
        String::new()
    }
}

#[derive(Clone)]
enum Job {
    #[cfg(feature = "scene")]
    Parse(String),
    Math(u64, u64),
}

fn exec(j: &Job) -> String {
    match j {
        #[cfg(feature = "scene")]
        Job::Parse(t) => format!("{:?}", crate::observe::parse(t)),
        Job::Math(s, n) => ops::all(*s, *n),
    }
}

fn describe(j: &Job) -> String {
    match j {
        #[cfg(feature = "scene")]
        Job::Parse(t) => t.clone(),
        Job::Math(s, n) => format!("math operations on operands of seed {} (near copy {})", s, n),
    }
}

fn jobs(cx: &Cx, i: u64, n: usize) -> Vec<Job> {
    let mut r = Rng::case(cx.seed, "C10", i);
    let _ = n;
    (0..n)
        .map(|_| {
            #[cfg(feature = "scene")]
            if r.pct(65) {
                return Job::Parse(text(&mut r, 3000));
            }
            Job::Math(r.u64(), 0)
        })
        .collect()
}

/// A text of the same length (or nearly) that shares most of its characters with `t`.
#[cfg(feature = "scene")]
fn near_text(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return t.to_owned();
    }
    let n = c.len();
    let class = |x: char| if x.is_ascii_digit() { 1 } else if x.is_ascii_alphabetic() { 2 } else if x.is_whitespace() { 3 } else { 0 };
    for _ in 0..20 {
        let (i, j) = (r.below(n), r.below(n));
        if class(c[i]) == 0 {
            continue;
        }
        match r.below(6) {
            // two characters of a kind change places: length, histogram and sum stay
            0..=2 if class(c[i]) == class(c[j]) && c[i] != c[j] => c.swap(i, j),
            3 if class(c[i]) == 1 => c[i] = (b'0' + r.below(10) as u8) as char,
            3 if class(c[i]) == 2 => c[i] = (b'a' + r.below(26) as u8) as char,
            4 if class(c[i]) == 3 => c[i] = *r.pick(&[' ', '\n', '\t']),
            5 if class(c[i]) == 1 && class(c[j]) == 1 && i != j && c[i] < '9' && c[j] > '0' => {
                // one up, one down
                c[i] = (c[i] as u8 + 1) as char;
                c[j] = (c[j] as u8 - 1) as char;
            }
            _ => continue,
        }
        break;
    }
    c.into_iter().collect()
}

/// Calls with nearly equal arguments, one right after the other, there and back: a result kept from
/// one call must not answer another.
fn neighbours(cx: &mut Cx, r: &mut Rng, n: usize) -> u64 {
    let mut js = vec![];
    #[cfg(feature = "scene")]
    {
        let mut t = String::new();
        for _ in 0..20 {
            t = text(r, 300);
            if t.len() > 30 && t.len() < 1200 {
                break;
            }
        }
        let mut t: String = t.chars().take(1200).collect();
        js.push(Job::Parse(t.clone()));
        for k in 0..n {
            if k % 40 == 39 {
                t = near_text(r, &t);
            }
            js.push(Job::Parse(near_text(r, &t)));
        }
    }
    let s = r.u64();
    js.push(Job::Math(s, 0));
    for _ in 0..n / 4 {
        js.push(Job::Math(s, r.u64() | 1));
        js.push(Job::Math(s, 0));
    }
    let there: Vec<u64> = js.iter().map(|j| h(&exec(j))).collect();
    for k in (0..js.len()).rev() {
        cx.rep.count("calls with nearly equal arguments compared");
        let back = h(&exec(&js[k]));
        cx.ensure(back == there[k], || ("a call between calls with nearly equal arguments gave another result".into(), describe(&js[k])));
    }
    // all texts from the same place in memory, one overwriting the other
    #[cfg(feature = "scene")]
    {
        let mut place = String::with_capacity(8192);
        for (k, j) in js.iter().enumerate() {
            if let Job::Parse(t) = j {
                // at any alignment
                let from = k % 67;
                place.clear();
                place.extend(std::iter::repeat('"').take(from));
                place.push_str(t);
                cx.rep.count("texts that replace another one in place");
                let here = h(&format!("{:?}", crate::observe::parse(&place[from..])));
                cx.ensure(here == there[k], || ("a text that replaced another one in the same place gave another result".into(), describe(j)));
            }
        }
    }
    // every other one in a new thread
    let (js, there) = (&js, &there);
    let bad = std::thread::scope(|s| {
        s.spawn(move || (0..js.len()).step_by(2).filter(|&k| h(&exec(&js[k])) != there[k]).collect::<Vec<_>>()).join().unwrap_or_else(|_| vec![0])
    });
    if let Some(&k) = bad.first() {
        cx.violate("a call in a new thread gave another result".into(), describe(&js[k]));
    }
    there.iter().fold(0u64, |a, b| mix(a ^ *b))
}

pub fn c10(cx: &mut Cx, i: u64) {
    let n = 10;
    let js = jobs(cx, i, n);
    // first time: one after the other
    let base: Vec<u64> = js.iter().map(|j| h(&exec(j))).collect();
    // digest for the comparison between processes that ran other cases before
    let d = base.iter().fold(0u64, |a, b| mix(a ^ *b));
    let mut r = Rng::case(cx.seed, "C10 order", i);
    let near = if cx.light { 20 } else { 240 };
    let d = mix(d ^ neighbours(cx, &mut r, near));
    cx.digests.push(d);
    // again in other orders, in the same thread
    for _ in 0..2 {
        let mut o: Vec<usize> = (0..n).collect();
        r.shuffle(&mut o);
        for k in o {
            cx.rep.count("repeated calls compared");
            let again = h(&exec(&js[k]));
            cx.ensure(again == base[k], || ("a repeated call gave another result".into(), describe(&js[k])));
        }
    }
    // and from a destructor that runs because of a panic
    struct Later<'a>(&'a [Job], &'a mut Vec<u64>);
    impl Drop for Later<'_> {
        fn drop(&mut self) {
            for j in self.0 {
                self.1.push(h(&exec(j)));
            }
        }
    }
    let mut late = vec![];
    let _ = guard(|| {
        let _later = Later(&js, &mut late);
        panic!("on purpose");
    });
    cx.rep.add("calls from a destructor compared", late.len() as u64);
    for (k, (a, b)) in late.iter().zip(&base).enumerate() {
        cx.ensure(a == b, || ("a call from a destructor that runs because of a panic gave another result".into(), describe(&js[k])));
    }
    // and in eight threads at once, each in its own order, results checked by each thread
    let threads = 8;
    let barrier = std::sync::Barrier::new(threads);
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut o: Vec<usize> = (0..n).collect();
            r.shuffle(&mut o);
            o
        })
        .collect();
    let bad: Vec<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .enumerate()
            .map(|(t, o)| {
                let (js, base, barrier) = (&js, &base, &barrier);
                // threads with and without a name, with stacks of different sizes
                let b = std::thread::Builder::new().stack_size((2 + t) << 20);
                let b = match t % 4 {
                    0 => b,
                    1 => b.name("main".into()),
                    2 => b.name(format!("worker-{}", t)),
                    _ => b.name(String::new()),
                };
                let body = move || {
                    barrier.wait();
                    let mut bad = vec![];
                    for &k in o {
                        if h(&exec(&js[k])) != base[k] {
                            bad.push(k);
                        }
                    }
                    bad
                };
                b.spawn_scoped(s, body).expect("thread")
            })
            .collect();
        hs.into_iter().flat_map(|x| x.join().unwrap_or_else(|_| vec![0])).collect()
    });
    cx.rep.add("concurrent calls compared", (threads * n) as u64);
    for o in &orders {
        // distinct schedules offered
        let k = o.iter().fold(0u64, |a, b| mix(a ^ *b as u64));
        cx.rep.distinct.insert(k);
    }
    cx.rep.evaluations += 1;
    if let Some(&k) = bad.first() {
        cx.violate("a call made while other threads were calling gave another result".into(), describe(&js[k]));
    }
    cx.rep.sample(|| format!("{} jobs, e.g. {}", n, describe(&js[0])));
}

/// A small scene with one token more, less or different, or ending early: up to `max` of all such.
#[cfg(feature = "scene")]
fn variants(r: &mut Rng, max: usize) -> Vec<String> {
    let mut p = Profile::base();
    p.budget = 1 + r.below(3);
    p.kids = 2;
    p.params = 3;
    p.long = 0;
    p.max_opts = 2;
    let (t, _) = gen_scene(r, &p);
    if t.len() > 400 {
        return vec![];
    }
    let others = [Tok::LB, Tok::RB, Tok::str("x"), Tok::str("spectrum x"), Tok::Num("1".into()), Tok::Num("1.5".into()), Tok::id("Shape"), Tok::id("AttributeEnd")];
    let n = t.len();
    let sep = *r.pick(&[" ", "\n", "\r\n\t"]);
    let join = |t: &[Tok]| t.iter().map(|t| t.text()).collect::<Vec<_>>().join(sep);
    let m = 2 + 2 * others.len();
    let mut ks: Vec<usize> = (0..n * m).collect();
    r.shuffle(&mut ks);
    // every early end, and some of the others
    ks.retain(|k| k % m != 0);
    ks.truncate(max);
    let ends = if max < 40 { r.below(n)..(n.min(r.below(n) + 3)) } else { 0..n };
    let mut out: Vec<String> = ends.map(|k| join(&t[..k])).collect();
    for k in ks {
        let (at, how) = (k / m, k % m);
        let mut u = t.clone();
        match how {
            1 => drop(u.remove(at)),
            _ if how % 2 == 0 => u[at] = others[(how - 2) / 2].clone(),
            _ => u.insert(at, others[(how - 2) / 2].clone()),
        }
        out.push(join(&u));
    }
    out
}

pub fn c24(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, "C24", i);
    let miri = cfg!(miri);
    #[cfg(feature = "scene")]
    {
        let n = if miri { 2 } else if r.pct(30) { 60 } else { 0 };
        for t in if n > 0 { variants(&mut r, n) } else { vec![] } {
            let _ = guard(|| pbrtrs::parser::Parser::parse(&t).is_ok());
            let usage = alloc::measure(|| guard(|| pbrtrs::parser::Parser::parse(&t)).map_err(|_| ()));
            cx.rep.count("small scenes with one token off");
            cx.rep.add("allocator events observed", usage.events);
            cx.rep.distinct.insert(h(&t));
            cx.ensure(usage.leaked == 0, || (format!("{} bytes not returned to the allocator after a parse", usage.leaked), t.clone()));
        }
    }
    let what;
    let usage;
    let job;
    #[cfg(feature = "scene")]
    {
        job = if r.pct(75) { Job::Parse(text(&mut r, if miri { 40 } else { 20_000 })) } else { Job::Math(r.u64(), 0) };
    }
    #[cfg(not(feature = "scene"))]
    {
        job = Job::Math(r.u64(), 0);
    }
    match &job {
        #[cfg(feature = "scene")]
        Job::Parse(t) => {
            if miri && t.len() > 1500 {
                cx.rep.count("skipped under the interpreter: long text");
                return;
            }
            what = "parse";
            // first run warms up lazily initialised state (panic hook strings, thread locals)
            let _ = guard(|| pbrtrs::parser::Parser::parse(t).is_ok());
            usage = alloc::measure(|| guard(|| pbrtrs::parser::Parser::parse(t)).map_err(|_| ()));
            // and everything delivered is looked at
            let out = crate::observe::parse(t);
            let bad = crate::observe::valid_text(&out);
            cx.rep.count("results looked at byte by byte");
            let ok = bad.is_none();
            cx.ensure(ok, || (format!("a delivered string is not valid text: {:?}", bad), describe(&job)));
            if ok {
                std::hint::black_box(h(&format!("{:?}", out)));
            }
        }
        Job::Math(s, _) => {
            what = "math";
            let s = *s;
            let _ = ops::all(s, 0);
            usage = alloc::measure(|| ops::all(s, 0));
        }
    }
    cx.rep.eval(h(&describe(&job)), true);
    cx.rep.count(&format!("{} calls observed", what));
    cx.rep.add("allocator events observed", usage.events);
    cx.rep.add("bytes allocated and returned", usage.total);
    cx.ensure(usage.leaked == 0, || (format!("{} bytes not returned to the allocator after a {}", usage.leaked, what), describe(&job)));
    cx.rep.sample(|| describe(&job));
}

// ------------------------------------------------------------------ C11

/// Exactly one call of the parser; callgrind collects inside this function only.
#[cfg(feature = "scene")]
#[no_mangle]
#[inline(never)]
pub extern "C" fn measured_parse(p: *const u8, n: usize) -> usize {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    // verdict only; the result is dropped inside the measured section
    match std::panic::catch_unwind(|| pbrtrs::parser::Parser::parse(s).is_ok()) {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 2,
    }
}

/// Texts that grow in one dimension: family k at about n characters.
#[cfg(feature = "scene")]
pub fn grow(seed: u64, k: usize, n: usize) -> Option<(&'static str, String)> {
    fn rep(s: &str, n: usize) -> String {
        s.repeat((n / s.len()).max(1))
    }
    let w = |s: String| format!("WorldBegin\n{}\nWorldEnd\n", s);
    let shape = |s: String| format!("WorldBegin\nShape \"s\" {}\nWorldEnd\n", s);
    Some(match k {
        0 => ("directives", w(rep("Shape \"sphere\" \"float radius\" [1.5]\n", n))),
        1 => ("float list", shape(format!("\"float v\" [{}]", rep("1.25 ", n)))),
        2 => ("integer list", shape(format!("\"integer v\" [{}]", rep("12 ", n)))),
        3 => ("string list", shape(format!("\"string v\" [{}]", rep("\"ab\" ", n)))),
        4 => ("point list", shape(format!("\"point2 v\" [{}]", rep("1 2.5 ", n)))),
        5 => ("spectrum", shape(format!("\"spectrum v\" [{}]", rep("400 0.5 ", n)))),
        6 => ("parameters", shape(rep("\"float a\" 1 ", n))),
        7 => ("long string", shape(format!("\"string s\" \"{}\"", rep("abcd", n)))),
        8 => ("escapes", shape(format!("\"string s\" \"{}\"", rep("\\\\\\n", n)))),
        9 => ("comment", w(format!("# {}", rep("x", n)))),
        10 => ("comment lines", w(rep("# c\n", n))),
        11 => ("whitespace", w(rep(" \t", n))),
        12 => ("empty lines", w(rep("\n", n))),
        13 => ("crlf lines", w(rep("\r\n", n))),
        14 => ("options", format!("{}WorldBegin WorldEnd", rep("Translate 1 2 3\n", n))),
        15 => ("option parameters", format!("Film \"image\" {} WorldBegin WorldEnd", rep("\"integer x\" [1 2] ", n))),
        16 => ("sibling blocks", w(rep("AttributeBegin Shape \"s\" AttributeEnd\n", n))),
        17 => ("long number", shape(format!("\"float v\" 0.{}", rep("1", n)))),
        18 => ("long identifier", format!("{} WorldBegin WorldEnd", rep("Identity", n))),
        19 => ("long name", shape(format!("\"float {}\" 1", rep("n", n)))),
        20 => ("wide characters", shape(format!("\"string s\" \"{}\"", rep("é中", n)))),
        21 => ("textures", w(rep("Texture \"t\" \"spectrum\" \"imagemap\" \"string filename\" \"f\"\n", n))),
        22 => ("refused: end missing", format!("WorldBegin {}", rep("Shape \"s\" \"float r\" 1 ", n))),
        23 => ("refused: bracket missing", format!("WorldBegin Shape \"s\" \"float v\" [ {}", rep("1 ", n))),
        24 => ("refused: last element", shape(format!("\"float v\" [{} \"x\"]", rep("1 ", n)))),
        25 => ("refused: odd points", shape(format!("\"point2 v\" [{} 1]", rep("1 2 ", n)))),
        26 => ("refused: string open", format!("WorldBegin Shape \"{}", rep("abc", n))),
        27 => ("refused: operands", format!("Translate {} WorldBegin WorldEnd", rep("1 ", n))),
        28 => ("refused: last declaration", shape(format!("{} \"floot x\" 1", rep("\"float a\" 1 ", n)))),
        29 => ("refused: ends missing", format!("WorldBegin {}", rep("AttributeBegin AttributeEnd Shape \"s\" ", n))),
        30 => ("refused: point list open", format!("WorldBegin Shape \"s\" \"point2 v\" [{}", rep("1 2 ", n))),
        31 => ("deep then wide", w(format!("{}{}{}", "AttributeBegin ".repeat(40), rep("Shape \"s\" ", n), "AttributeEnd ".repeat(40)))),
        32 => ("mixed", w(rep("AttributeBegin # c\nMaterial \"matte\" \"rgb Kd\" [0.1 .2 3e-1] \"texture t\" \"x\"\nTransformBegin Shape \"s\" \"bool b\" \"true\" TransformEnd AttributeEnd\n", n))),
        33 => ("texture parameters", shape(rep("\"texture t\" \"x\" ", n))),
        34 => ("bool list", shape(format!("\"bool b\" [{}]", rep("\"true\" ", n)))),
        35 => ("refused: bool list", shape(format!("\"bool b\" [{} \"maybe\"]", rep("\"true\" ", n)))),
        36 => ("spectra", shape(rep("\"rgb a\" [1 2 3] \"xyz b\" [1 2 3] \"blackbody c\" [1 2] ", n))),
        37 => ("includes", w(rep("Include \"f.pbrt\"\n", n))),
        38 => ("refused: brackets", format!("WorldBegin Shape \"s\" \"float v\" {}", rep("[", n))),
        39 => ("refused: signs", shape(format!("\"float v\" {}", rep("+-", n)))),
        40 => ("long exponent", shape(format!("\"float v\" 0.5e-{}1", rep("0", n)))),
        41 => ("refused: long integer", shape(format!("\"integer v\" {}", rep("7", n)))),
        42 => ("matrices", format!("{}WorldBegin WorldEnd", rep("LookAt 1 2 3 4 5 6 7 8 9\nTransform 1 0 0 0 1 0 0 0 1\n", n))),
        43 => ("vector list", shape(format!("\"vector2 v\" [{}]", rep("1 2.5 ", n)))),
        44 => ("exponents", shape(format!("\"float v\" [{}]", rep("1e3 2.5e-7 ", n)))),
        45 => ("string lines", shape(format!("\"string s\" \"{}\"", rep("a\n", n)))),
        46 => ("refused: option at the end", format!("{}Bogus 1 WorldBegin WorldEnd", rep("Scale 1 2 3 Identity ", n))),
        47 => ("refused: block end at the end", format!("WorldBegin {}AttributeEnd", rep("TransformBegin TransformEnd ", n))),
        48 => ("refused: spectrum odd", shape(format!("\"spectrum v\" [{} 1]", rep("1 2 ", n)))),
        49 => ("texture names", w(rep("Texture \"t\" \"float\" \"constant\" \"texture tex\" \"u\" \"float value\" 1\n", n))),
        50 => ("long declaration blanks", shape(format!("\"float {}x\" 1", rep(" ", n)))),
        51 => ("text after the world", format!("WorldBegin WorldEnd {}", rep("# c\n", n))),
        52..=63 => {
            // one random option and one random directive, over and over
            let mut r = Rng::case(seed, "C11", k as u64);
            let mut p = Profile::base();
            p.budget = 4;
            p.long = 0;
            p.max_opts = 3;
            p.strs = Strs::Full;
            p.nums = Nums::Full;
            let (t, _) = gen_scene(&mut r, &p);
            let l = *r.pick(&LAYOUTS);
            let (text, _) = render(&mut r, &t, l);
            // the scene is repeated as a comment-free body by repeating everything before its WorldBegin
            // or everything inside it
            let (a, b) = match (find_word(&text, "WorldBegin"), find_word(&text, "WorldEnd")) {
                (Some(a), Some(b)) if a + 10 <= b => (a, b),
                _ => (0, 0),
            };
            if b == 0 {
                ("random text", rep(&text, n))
            } else if k % 2 == 0 {
                ("random directives", w(rep(&format!("{}\n", &text[a + 10..b]), n)))
            } else {
                ("random options", format!("{}WorldBegin WorldEnd", rep(&format!("{}\n", &text[..a]), n)))
            }
        }
        // few characters that denote much: what is denoted grows faster than the text, the work must not
        64 => ("exponent value", shape(format!("\"float v\" 1e-{} {}", n * n / 16, rep(" ", n)))),
        65 => ("exponent value up", shape(format!("\"float v\" 0.0e{} {}", n * n / 16, rep(" ", n)))),
        66 => ("refused: exponent value", shape(format!("{} \"integer v\" 1e{}", rep(" ", n), n * n / 16))),
        67 => ("integer value", shape(format!("\"integer v\" {} {}", (n * n / 16).min(2_000_000_000), rep("\n", n)))),
        68 => ("negative integer value", shape(format!("\"integer v\" -{} {}", (n * n / 16).min(2_000_000_000), rep("\n", n)))),
        69 => ("operand values", format!("Translate {0}.0 -{0} 1e{1} {2}WorldBegin WorldEnd", n * n / 16, n % 30, rep(" ", n))),
        70 => ("nested blocks", w(format!("{}{}", rep("AttributeBegin ", n / 2), rep("AttributeEnd ", n / 2)))),
        71 => ("long option name", format!("Film \"{}\" WorldBegin WorldEnd", rep("im", n))),
        72 => ("refused: long directive", w(format!("{} \"x\"", rep("Shape", n)))),
        73 => ("refused: long type", shape(format!("\"{} x\" 1", rep("float", n)))),
        74 => ("refused: last string", shape(format!("\"string v\" [{} 1]", rep("\"ab\" ", n)))),
        75 => ("refused: comments then end", format!("WorldBegin {}", rep("# c\n", n))),
        76 => ("lines then options", format!("{}Film \"image\" WorldBegin WorldEnd", rep("\n \t", n))),
        77 => ("refused: bad character at the end", w(format!("{} @", rep("Shape \"s\" # c\n", n)))),
        78 => ("refused: bad escape at the end", shape(format!("\"string s\" \"{}\\q\"", rep("abc", n)))),
        79 => ("single values", shape(rep("\"string a\" \"b\" \"integer i\" 3 \"bool c\" \"false\" ", n))),
        80 => ("ideographic blanks", w(rep("\u{3000}", n))),
        81 => ("no-break blanks", w(rep("\u{a0}\u{2003}\u{85}", n))),
        82 => ("other line ends", w(rep("\u{2028}\u{b}\u{c}", n))),
        83 => ("carriage returns", w(rep("\r", n))),
        84 => ("other blanks between values", shape(format!("\"float v\" [1 {} 2]", rep("\u{3000}\u{a0}", n)))),
        85 => ("comment of wide characters", w(format!("# {}", rep("é中", n)))),
        86 => ("values and comments", shape(format!("\"float v\" [{}]", rep("1 # c\n", n)))),
        87 => ("long include", w(format!("Include \"{}\"", rep("d/", n)))),
        88 => ("long file name", shape(format!("\"spectrum v\" \"{}\"", rep("d/", n)))),
        89 => ("long texture name", w(format!("Texture \"{}\" \"{}\" \"c\"", rep("n", n / 2), rep("m", n / 2)))),
        90 => ("refused: other blanks then end", format!("WorldBegin {}", rep("\u{3000}\t", n))),
        91 => ("same names", shape(rep("\"float a\" 1 \"integer a\" 1 \"string a\" \"b\" \"bool a\" \"true\" \"rgb a\" [1 2 3] ", n))),
        92 => ("negative numbers", shape(format!("\"float v\" [{}]", rep("-1.5e-3 +2 -.5 ", n)))),
        93 => ("zeros before", shape(format!("\"integer v\" {}7", rep("0", n)))),
        94 => ("refused: long point", shape(format!("\"float v\" {}", rep("1.", n)))),
        95 => ("file spectra", shape(rep("\"spectrum v\" [\"a.spd\"] ", n))),
        96 => ("lists in blocks", w(format!("{}{}{}", "AttributeBegin TransformBegin ".repeat(8), rep("Shape \"s\" \"float v\" [1 2] \"rgb c\" [1 2 3] \"point2 p\" [1 2] \"spectrum s\" [1 2]\n", n), "TransformEnd AttributeEnd ".repeat(8)))),
        97 => ("falling samples", shape(format!("\"spectrum v\" [{}]", many(n, |i| format!("{}.5 1 ", 900000 - i))))),
        98 => ("rising samples", shape(format!("\"spectrum v\" [{}]", many(n, |i| format!("{} 0.25 ", i))))),
        99 => ("different names", shape(many(n, |i| format!("\"float p{}\" 1 ", i)))),
        100 => ("different types", w(many(n, |i| format!("Shape \"s{}\"\n", i)))),
        101 => ("different strings", shape(format!("\"string v\" [{}]", many(n, |i| format!("\"v{}\" ", i))))),
        102 => ("different textures", w(many(n, |i| format!("Texture \"t{}\" \"float\" \"constant\" \"float value\" {}\n", i, i)))),
        103 => ("different numbers", shape(format!("\"float v\" [{}]", many(n, |i| format!("{}.{} ", i, i % 97))))),
        104 => ("refused: lists in blocks", format!("WorldBegin {}{} Bogus", "TransformBegin ".repeat(9), rep("Shape \"s\" \"float v\" [1 2] \"rgb c\" [1 2 3] ", n))),
        105 => ("different names of all types", shape(many(n, |i| format!("\"integer i{0}\" 1 \"bool b{0}\" \"true\" \"string s{0}\" \"x\" \"texture t{0}\" \"y\" \"rgb c{0}\" [1 2 3] \"point2 p{0}\" [1 2] \"vector2 v{0}\" [1 2] ", i)))),
        106 => ("different includes", w(many(n, |i| format!("Include \"d/f{}.pbrt\"\n", i)))),
        107 => ("different integers", shape(format!("\"integer v\" [{}]", many(n, |i| format!("{} ", i))))),
        108 => ("small blocks of all kinds", w(many(n, |i| if i % 2 == 0 { "AttributeBegin TransformBegin Material \"m\" TransformEnd AttributeEnd\n".into() } else { "TransformBegin AttributeBegin Shape \"s\" \"float r\" [1] AttributeEnd LightSource \"l\" TransformEnd\n".into() }))),
        109 => ("different options", format!("{}WorldBegin WorldEnd", many(n, |i| format!("CoordinateSystem \"c{0}\" CoordSysTransform \"c{0}\" Film \"f{0}\" \"integer x{0}\" {0}\n", i)))),
        110 => ("all directives", w(rep("Material \"m\" \"float a\" 1\nShape \"s\" \"integer i\" [1 2]\nLightSource \"l\" \"blackbody b\" [1 2]\nAreaLightSource \"a\" \"bool b\" \"false\"\nTexture \"t\" \"u\" \"v\" \"vector2 p\" [1 2]\nInclude \"f\"\n", n))),
        111 => ("long row", w(rep("Shape \"s\" \"float v\" [ 1 ] ", n))),
        _ => return None,
    })
}

/// Different parts one after the other, about n characters of them.
#[cfg(feature = "scene")]
fn many(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    let mut i = 0;
    while s.len() < n {
        s.push_str(&f(i));
        i += 1;
    }
    s
}

/// Where a keyword stands as the last occurrence in the text.
#[cfg(feature = "scene")]
fn find_word(t: &str, w: &str) -> Option<usize> {
    t.rfind(w)
}

/// `cost <seed> <family> <size>...`: parses each size once inside measured_parse and prints
/// "name size chars verdict total peak events".
#[cfg(feature = "scene")]
pub fn cost(a: &[String]) -> i32 {
    let seed: u64 = a[2].parse().unwrap();
    let k: usize = a[3].parse().unwrap();
    for s in &a[4..] {
        let n: usize = s.parse().unwrap();
        let (name, t) = match grow(seed, k, n) {
            Some(x) => x,
            None => return 4,
        };
        let mut v = 9;
        let u = alloc::measure(|| v = measured_parse(t.as_ptr(), t.len()));
        println!("{}\t{}\t{}\t{}\t{}\t{}\t{}", name, n, t.len(), v, u.total, u.peak, u.events);
    }
    0
}
