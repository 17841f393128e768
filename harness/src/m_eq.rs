//! C26: comparison of parsed scenes and of math values says "equal" exactly when all parts are equal.
use crate::cx::{guard, Cx};
use crate::num::*;
use crate::observe::{self, ODir, OScene, OV};
use crate::rng::{hash, Rng};
use crate::scene::*;
use crate::{dict, report::clip};
use pbrtrs::parser::Parser;
use pbrtrs::verif_core as co;
use pbrtrs::verif_core::normal::Normal3;
use pbrtrs::verif_core::point::{Point2, Point3};
use pbrtrs::verif_core::vector::{Vector2, Vector3};
use std::path::Path;

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    if i % 2 == 0 {
        scenes(cx, &mut r)
    } else if i % 4 == 1 {
        values::<Float>(cx, &mut r);
        matrices(cx, &mut r)
    } else {
        values::<i64>(cx, &mut r)
    }
}

/// Paths compare by their components, as everywhere in Rust.
fn as_path(s: &str) -> String {
    Path::new(s).components().map(|c| format!("{:?}", c)).collect::<Vec<_>>().join("|")
}

fn normal(d: &mut ODir) {
    if d.kind == "Include" {
        for s in d.strs.iter_mut() {
            *s = as_path(s);
        }
    }
    for c in d.colls.iter_mut() {
        for p in c.iter_mut() {
            for v in p.vals.iter_mut() {
                if let OV::File(s) = v {
                    *s = as_path(s);
                }
            }
        }
    }
    for k in d.kids.iter_mut().flatten() {
        normal(k);
    }
}

fn parts(s: &OScene) -> OScene {
    let mut s = s.clone();
    s.opts.iter_mut().for_each(normal);
    normal(&mut s.world);
    s
}

const SWAPS: [(&str, &str); 16] = [
    ("Material", "Shape"),
    ("Shape", "LightSource"),
    ("Attribute", "Transform"),
    ("Translate", "Scale"),
    ("Camera", "Film"),
    ("Sampler", "Integrator"),
    ("Filter", "Accelerator"),
    ("LookAt", "Transform"),
    ("CoordinateSystem", "CoordSysTransform"),
    ("point2", "vector2"),
    ("rgb", "xyz"),
    ("string", "texture"),
    ("float", "integer"),
    ("integer", "float"),
    ("true", "false"),
    ("spectrum", "blackbody"),
];

/// A text a little different from `s`.
fn neighbour(r: &mut Rng, s: &str) -> (&'static str, String) {
    let c: Vec<char> = s.chars().collect();
    match r.below(10) {
        0 => ("the same text", s.to_string()),
        1 => {
            let (a, b) = *r.pick(&SWAPS);
            ("another kind", s.replace(a, b))
        }
        2 => {
            let (a, b) = *r.pick(&SWAPS);
            ("another kind once", s.replacen(a, b, 1))
        }
        3 => {
            // one more blank somewhere
            let k = r.below(c.len() + 1);
            let mut t: String = c[..k].iter().collect();
            t.push(*r.pick(&[' ', '\n', '\t']));
            t.extend(&c[k..]);
            ("a blank more", t)
        }
        4 => {
            // a stretch of text twice
            let a = r.below(c.len());
            let b = a + r.below((c.len() - a).min(60) + 1);
            let mut t: String = c[..b].iter().collect();
            t.extend(&c[a..]);
            ("a stretch twice", t)
        }
        5 => {
            let a = r.below(c.len());
            let b = a + r.below((c.len() - a).min(60) + 1);
            let mut t: String = c[..a].iter().collect();
            t.extend(&c[b..]);
            ("a stretch less", t)
        }
        _ => {
            // one character of a name, string or number
            let k: Vec<usize> = (0..c.len()).filter(|&k| c[k].is_alphanumeric() || "-+._/".contains(c[k])).collect();
            if k.is_empty() {
                return ("the same text", s.to_string());
            }
            let mut t = c.clone();
            // prefer digits and string contents to directive names
            let d: Vec<usize> = k.iter().cloned().filter(|&k| c[k].is_ascii_digit()).collect();
            let at = if !d.is_empty() && r.pct(60) { *r.pick(&d) } else { *r.pick(&k) };
            t[at] = if c[at].is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else { *r.pick(&['a', 'b', 'Z', 'é', '/', '.']) };
            ("one character", t.into_iter().collect())
        }
    }
}

/// The text with some tokens blanked out or exchanged in place, so that nothing else moves.
fn in_place(r: &mut Rng, s: &str, toks: &[Tok], offs: &[usize]) -> (&'static str, String) {
    let blank = |t: &str| -> String { t.chars().map(|c| if c == '\n' || c == '\r' { c } else { ' ' }).collect() };
    let end = |k: usize| offs[k] + toks[k].text().len();
    let without = |a: usize, b: usize| format!("{}{}{}", &s[..offs[a]], blank(&s[offs[a]..end(b)]), &s[end(b)..]);
    let exchanged = |a: usize, b: usize| format!("{}{}{}{}{}", &s[..offs[a]], toks[b].text(), &s[end(a)..offs[b]], toks[a].text(), &s[end(b)..]);
    let n = toks.len();
    let k = r.below(n);
    match r.below(8) {
        5 => {
            // letters of a string, upper for lower case
            let ks: Vec<usize> = (0..n).filter(|&k| matches!(&toks[k], Tok::Str { raw, .. } if !raw.contains('\\'))).collect();
            if ks.is_empty() {
                return ("the same text", s.to_string());
            }
            let k = *r.pick(&ks);
            let from = if r.pct(50) { 0 } else { toks[k].text().find(' ').unwrap_or(0) };
            let t = &toks[k].text()[from..];
            let u = match r.below(3) {
                0 => t.to_ascii_uppercase(),
                1 => t.to_ascii_lowercase(),
                _ => t.chars().map(|c| if r.pct(40) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect(),
            };
            ("letter case in a string", format!("{}{}{}", &s[..offs[k] + from], u, &s[end(k)..]))
        }
        6 => {
            // characters moved from a string into the next
            let ks: Vec<usize> = (0..n.saturating_sub(1)).filter(|&k| matches!((&toks[k], &toks[k + 1]), (Tok::Str { raw: a, .. }, Tok::Str { raw: b, .. }) if !a.contains('\\') && !b.contains('\\') && a.len() > 3)).collect();
            if ks.is_empty() {
                return ("the same text", s.to_string());
            }
            let k = *r.pick(&ks);
            let c: Vec<char> = toks[k].text().chars().collect();
            let at = 1 + r.below(c.len() - 2);
            let (head, tail): (String, String) = (c[..at].iter().collect(), c[at..c.len() - 1].iter().collect());
            ("characters moved to the next string", format!("{}{}\"{}\"{}{}", &s[..offs[k]], head, &s[end(k)..offs[k + 1]], tail, &s[offs[k + 1] + 1..]))
        }
        7 => {
            // a blank in a string, or instead of a character of it
            let ks: Vec<usize> = (0..n).filter(|&k| matches!(&toks[k], Tok::Str { raw, .. } if !raw.contains('\\') && raw.chars().count() > 3)).collect();
            if ks.is_empty() {
                return ("the same text", s.to_string());
            }
            let k = *r.pick(&ks);
            let mut c: Vec<char> = toks[k].text().chars().collect();
            let at = match r.below(3) {
                0 => 1,
                1 => c.len() - 2,
                _ => 1 + r.below(c.len() - 2),
            };
            c[at] = *r.pick(&[' ', '/', '.', '_', '0', '-']);
            ("a character of a string", format!("{}{}{}", &s[..offs[k]], c.into_iter().collect::<String>(), &s[end(k)..]))
        }
        0 => {
            // elements of a list
            let ks: Vec<usize> = (0..n).filter(|&k| matches!(toks[k], Tok::Num(_))).collect();
            if ks.is_empty() {
                return ("the same text", s.to_string());
            }
            let a = *r.pick(&ks);
            let mut b = a + r.below(4);
            while b >= n || !matches!(toks[b], Tok::Num(_)) {
                b -= 1;
            }
            ("elements blanked out", without(a, b.max(a)))
        }
        1 => {
            // a parameter, or several
            let ks: Vec<usize> = (0..n).filter(|&k| matches!(&toks[k], Tok::Str { val, .. } if TYPES.contains(&val.split_whitespace().next().unwrap_or("")) && val.contains(' '))).collect();
            if ks.is_empty() {
                return ("the same text", s.to_string());
            }
            let a = *r.pick(&ks);
            let mut b = a + 1;
            if b < n && toks[b] == Tok::LB {
                while b < n - 1 && toks[b] != Tok::RB {
                    b += 1;
                }
            }
            ("a parameter blanked out", without(a, b.min(n - 1)))
        }
        2 => {
            // a directive, or several
            let ks: Vec<usize> = (1..n).filter(|&k| matches!(toks[k], Tok::Id(_))).collect();
            if ks.len() < 2 {
                return ("the same text", s.to_string());
            }
            let i = r.below(ks.len() - 1);
            let j = i + 1 + r.below((ks.len() - 1 - i).min(3));
            ("directives blanked out", without(ks[i], ks[j] - 1))
        }
        3 => {
            let b = (k + r.below(3)).min(n - 1);
            ("tokens blanked out", without(k, b))
        }
        _ => {
            let ks: Vec<usize> = (k + 1..n).filter(|&j| toks[j].text().len() == toks[k].text().len() && toks[j].word() == toks[k].word() && toks[j] != toks[k]).collect();
            if ks.is_empty() {
                return ("the same text", s.to_string());
            }
            ("tokens exchanged", exchanged(k, *r.pick(&ks)))
        }
    }
}

/// The same little scene at two places that are easily confused.
fn places(cx: &mut Cx, r: &mut Rng) {
    let (r1, c1) = (r.below(40), r.below(40));
    let d = 1 + r.below(3);
    let k = *r.pick(&[1usize, 2, 7, 10, 16, 31, 32, 37, 64, 80, 99, 100, 101, 120, 127, 128, 255, 256, 257, 1000, 1024, 4096, 65535, 65536]);
    let ((r1, c1), (r2, c2)) = match r.below(5) {
        0 => ((r1, c1), (c1, r1)),
        1 => ((r1, c1 + k * d), (r1 + d, c1)),
        2 => ((r1, c1 + k * d), (r1, c1)),
        3 => ((r1 + k.min(4096) * d, c1), (r1, c1)),
        _ => ((r1 + k.min(4096) * d, c1), (r1, c1 + d)),
    };
    let s = *r.pick(&["WorldBegin WorldEnd", "WorldBegin Shape \"s\" \"float r\" 1 WorldEnd", "Identity WorldBegin Include \"f\" WorldEnd"]);
    let at = |r: usize, c: usize| format!("{}{}{}", "\n".repeat(r), " ".repeat(c), s);
    let (a, b) = (at(r1, c1), at(r2, c2));
    let got = guard(|| match (Parser::parse(&a), Parser::parse(&b)) {
        (Ok(x), Ok(y)) => Some((x == y, x != y, y == x)),
        _ => None,
    });
    let case = || format!("{:?} after {} lines and {} blanks, and after {} lines and {} blanks", s, r1, c1, r2, c2);
    let want = (r1, c1) == (r2, c2);
    cx.rep.eval(hash(case().as_bytes()), !want);
    cx.rep.count("the same scene at two places");
    match got {
        Ok(Some((eq, ne, rev))) => cx.ensure(eq == want && rev == want && ne != want, || (format!("==: {}, reversed: {}, !=: {}", eq, rev, ne), case())),
        Ok(None) => cx.violate("a well-formed scene was refused".into(), case()),
        Err(e) => cx.violate(format!("parsing or comparing panicked: {}", e), case()),
    }
}

/// Two scenes with very many parts of one kind, of which one part or none is different.
fn long_ones(cx: &mut Cx, r: &mut Rng) {
    let n = match r.below(4) {
        0 => 2 + r.below(60),
        1 => *r.pick(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]),
        2 => 60 + r.below(400),
        _ => 400 + r.below(3000),
    };
    // where the difference is, if anywhere
    let at = match r.below(4) {
        0 => usize::MAX,
        1 => n - 1,
        _ => r.below(n),
    };
    let w = r.below(14);
    let nest = if r.pct(30) { 1 + r.below(60) } else { 0 };
    let text = |at: usize| -> String {
        let part = |i: usize| -> String {
            let d = i == at;
            let b = i % 7;
            match w {
                0 => format!("Shape \"s{}\" \"float r\" {}\n", b, if d { 8 } else { b }),
                1 => format!("{} 1 2 {}\n", if d { "Scale    " } else { "Translate" }, b),
                2 => format!("\"float p{}\" {} ", b, if d { 9 } else { b }),
                3 => format!("\"float {}{}\" 1 ", if d { 'q' } else { 'p' }, b),
                4 => format!("{} ", if d { 9 } else { b }),
                5 => format!("\"{}\" ", if d { "xy".to_string() } else { format!("x{}", b) }),
                6 => format!("{} ", if d { "9.75".to_string() } else { format!("{}.25", b) }),
                7 => format!("\"{}\" ", if d { "true " } else { "false" }).replace("true \"", "true\" "),
                8 => (if d { 'X' } else { (b'a' + b as u8) as char }).to_string(),
                9 => format!("AttributeBegin Shape \"{}\" AttributeEnd ", if d { 't' } else { 's' }),
                10 => format!("{} ", if d { "1 9" } else { "1 2" }),
                11 => format!("\"texture t\" \"{}\" ", if d { 'y' } else { 'x' }),
                12 => format!("{} ", if d { "400 9" } else { "400 2" }),
                _ => format!("{}/", if d { 'z' } else { 'd' }),
            }
        };
        let all: String = (0..n).map(part).collect();
        let body = match w {
            0 | 9 => all,
            2 | 3 | 11 => format!("Shape \"s\" {}", all),
            4 => format!("Shape \"s\" \"integer v\" [ {}]", all),
            5 => format!("Shape \"s\" \"string v\" [ {}]", all),
            6 => format!("Material \"s\" \"float v\" [ {}]", all),
            7 => format!("Shape \"s\" \"bool v\" [ {}]", all),
            8 => format!("Texture \"{}\" \"u\" \"v\" \"string n\" \"v\"", all),
            10 => format!("LightSource \"s\" \"{} v\" [ {}]", if n % 2 == 0 { "point2" } else { "vector2" }, all),
            12 => format!("Shape \"s\" \"spectrum v\" [ {}]", all),
            13 => format!("Include \"{}\"", all),
            _ => String::new(),
        };
        let opts = if w == 1 { all_opts(n, &part) } else { String::new() };
        format!("{}WorldBegin {}{} {}WorldEnd", opts, "TransformBegin ".repeat(nest), body, "TransformEnd ".repeat(nest))
    };
    let (a, b) = (text(usize::MAX), text(at));
    let want = a == b;
    let case = || format!("{} parts of kind {} in {} blocks, part {} different\n{}\n---- compared with ----\n{}", n, w, nest, at as i64, clip(&a, 6000), clip(&b, 6000));
    let got = guard(|| match (Parser::parse(&a), Parser::parse(&b)) {
        (Ok(x), Ok(y)) => Some((x == y, x != y, y == x)),
        _ => None,
    });
    cx.rep.eval(hash(b.as_bytes()), !want);
    cx.rep.count(if want { "very many parts, all the same" } else { "very many parts, one different" });
    match got {
        Ok(Some((eq, ne, rev))) => cx.ensure(eq == want && rev == want && ne != want, || (format!("==: {}, reversed: {}, !=: {}", eq, rev, ne), case())),
        Ok(None) => cx.violate("a well-formed scene was refused".into(), case()),
        Err(e) => cx.violate(format!("parsing or comparing panicked: {}", e), case()),
    }
}

fn all_opts(n: usize, part: &dyn Fn(usize) -> String) -> String {
    (0..n).map(part).collect()
}

fn scenes(cx: &mut Cx, r: &mut Rng) {
    if r.pct(6) {
        return long_ones(cx, r);
    }
    let mut p = Profile::base();
    p.budget = 1 + r.below(10);
    p.kids = 3;
    p.max_opts = 4;
    p.params = 3;
    p.long = if r.pct(10) { 20 } else { 0 };
    if r.pct(20) {
        p.nums = Nums::Full;
    }
    if r.pct(20) {
        p.strs = Strs::Full;
    }
    let (toks, _) = gen_scene(r, &p);
    let l = *r.pick(&LAYOUTS);
    let (a, offs) = render(r, &toks, l);
    if r.pct(6) {
        return places(cx, r);
    }
    let (how, b) = if r.pct(50) { in_place(r, &a, &toks, &offs) } else { neighbour(r, &a) };
    let both = || format!("{}\n---- compared with ----\n{}", a, b);
    let got = guard(|| match (Parser::parse(&a), Parser::parse(&b)) {
        (Ok(x), Ok(y)) => Some((x == y, x != y, y == x, x == x && y == y, observe::scene(&x), observe::scene(&y), observe::scene_of_copies(&x))),
        _ => None,
    });
    match got {
        Ok(Some((eq, ne, rev, refl, x, y, copies))) => {
            // a literal outside the grammar (0e1.5) may stand for NaN, which equals nothing
            #[allow(clippy::eq_op)]
            if x != x || y != y {
                cx.rep.eval(0, false);
                cx.rep.count("not comparable (NaN)");
                return;
            }
            let want = parts(&x) == parts(&y);
            cx.rep.eval(hash(both().as_bytes()), a != b);
            cx.rep.count(&format!("{}: {}", how, if want { "equal" } else { "different" }));
            cx.rep.count("scenes whose parameters were cloned");
            if copies != x {
                cx.violate("a clone of a parameter differs from it".into(), a.clone());
            } else if !refl {
                cx.violate("a scene is not equal to itself".into(), both());
            } else if eq != want || rev != want || ne == want {
                cx.violate(format!("scenes that are {} compare as ==: {}, reversed: {}, !=: {}", if want { "the same" } else { "different" }, eq, rev, ne), both());
            } else {
                cx.rep.sample(|| format!("{}, {}: {}", how, want, clip(&both(), 300)));
            }
        }
        Ok(None) => {
            cx.rep.eval(0, false);
            cx.rep.count("not comparable (refused)");
        }
        Err(e) => cx.violate(format!("parsing or comparing panicked: {}", e), both()),
    }
}

/// A value next to x, or x itself.
fn beside<T: El>(r: &mut Rng, x: T) -> T {
    if T::INT {
        let d = *r.pick(&[0i64, 0, 1, -1, 2, 1 << 20, 1 << 32, 1 << 40]);
        return T::of(x.f() + d as f64);
    }
    match r.below(8) {
        0 | 1 => x,
        2 => T::of(-x.f()),
        3 => T::of(x.f() * (1.0 + EPS)),
        4 => T::of(x.f() * (1.0 - EPS)),
        5 => T::of(x.f() + *r.pick(&[1e-3, 1e-5, 1e-6, 1e-7, 1e-9])),
        6 => T::of(*r.pick(&dict::get().floats)),
        _ => T::gen(r, 1e6),
    }
}

/// n components and the same with none, one or all of them changed a little
fn pair<T: El>(r: &mut Rng, n: usize) -> (Vec<T>, Vec<T>) {
    let a: Vec<T> = (0..n).map(|_| T::gen(r, 1e9)).collect();
    let mut b = a.clone();
    match r.below(6) {
        0 => (),
        1 => {
            for x in b.iter_mut() {
                *x = beside(r, *x);
            }
        }
        2 => {
            let (i, j) = (r.below(n), r.below(n));
            b.swap(i, j);
        }
        _ => {
            let i = r.below(n);
            b[i] = beside(r, b[i]);
        }
    }
    (a, b)
}

fn judge(cx: &mut Cx, what: &str, parts: bool, got: Result<(bool, bool, bool), String>, inp: impl Fn() -> String) {
    cx.rep.count(if parts { "equal values compared" } else { "different values compared" });
    match got {
        Ok((eq, ne, rev)) => cx.ensure(eq == parts && ne != parts && rev == parts, || {
            (format!("{}: components {}, but == gives {}, != gives {}, reversed == gives {}", what, if parts { "equal" } else { "different" }, eq, ne, rev), inp())
        }),
        Err(e) => cx.violate(format!("comparing {} panicked: {}", what, e), inp()),
    }
}

macro_rules! cmp {
    ($cx:expr, $what:expr, $p:expr, $a:expr, $b:expr, $inp:expr) => {{
        let got = guard(|| {
            let (x, y) = ($a, $b);
            // a clone stands for its original
            #[allow(clippy::clone_on_copy)]
            let z = x.clone();
            (z == y && x == z, x != y, y == x)
        });
        judge($cx, $what, $p, got, $inp)
    }};
}

fn values<T: El>(cx: &mut Cx, r: &mut Rng) {
    let (a, b) = pair::<T>(r, 3);
    let inp = || format!("{:?} and {:?}", a, b);
    let e3 = (0..3).all(|i| a[i] == b[i]);
    let e2 = (0..2).all(|i| a[i] == b[i]);
    cx.rep.eval(key(&a.iter().chain(&b).map(|x| x.f()).collect::<Vec<_>>()), true);
    cmp!(cx, "Vector3", e3, Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]), inp);
    cmp!(cx, "Point3", e3, Point3::new(a[0], a[1], a[2]), Point3::new(b[0], b[1], b[2]), inp);
    cmp!(cx, "Normal3", e3, Normal3::new(a[0], a[1], a[2]), Normal3::new(b[0], b[1], b[2]), inp);
    cmp!(cx, "Vector2", e2, Vector2::new(a[0], a[1]), Vector2::new(b[0], b[1]), inp);
    cmp!(cx, "Point2", e2, Point2::new(a[0], a[1]), Point2::new(b[0], b[1]), inp);
    let (a, b) = pair::<T>(r, 16);
    let inp = || format!("{:?} and {:?}", a, b);
    let m4 = |v: &[T]| co::matrix::Matrix4::new([[v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]], [v[8], v[9], v[10], v[11]], [v[12], v[13], v[14], v[15]]]);
    let m3 = |v: &[T]| co::matrix::Matrix3::new([[v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]]);
    cmp!(cx, "Matrix4", (0..16).all(|i| a[i] == b[i]), m4(&a), m4(&b), inp);
    cmp!(cx, "Matrix3", (0..9).all(|i| a[i] == b[i]), m3(&a), m3(&b), inp);
}

fn matrices(cx: &mut Cx, r: &mut Rng) {
    let (a, b) = pair::<Float>(r, 32);
    let inp = || format!("{:?} and {:?}", a, b);
    let m4 = |v: &[Float]| co::matrix::Matrix4::new([[v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]], [v[8], v[9], v[10], v[11]], [v[12], v[13], v[14], v[15]]]);
    let t = |v: &[Float]| co::transform::Transform::new(m4(&v[..16]), m4(&v[16..]));
    cmp!(cx, "Transform", (0..32).all(|i| a[i] == b[i]), t(&a), t(&b), inp);
}
