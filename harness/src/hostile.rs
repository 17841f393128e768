//! Hostile texts: size and nesting stress, malformed numbers and strings, mutations, noise.
use crate::dict;
use crate::rng::Rng;
use crate::scene::*;

fn size(r: &mut Rng, big: usize) -> usize {
    match r.below(6) {
        0 => r.below(8),
        1 => (*r.pick(&dict::get().ints)).clamp(0, 5000) as usize + r.below(2),
        2 => 10 + r.below(300),
        3 => 300 + r.below(3000),
        _ => {
            if r.pct(15) {
                big / 2 + r.below(big)
            } else {
                r.below(1500)
            }
        }
    }
}

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

const NUMS: [&str; 46] = [
    "1e", "1e-", "1e+", "-", "+", ".", "-.", "+.", "..", "1..2", ".e1", "-e1", "e1", "1e1e1", "1e1.5", "1e-1.5", "1.5e1.5", "1e.", "1.e.", "--1", "+-1",
    "1-", "1+2", "1e99999999999999999999", "1e9223372036854775807", "1e-9223372036854775808", "1e4294967296", "1e4294967297", "99999999999999999999",
    "-9223372036854775809", "9223372036854775808", "1e19", "9e18", "10e18", "-1e19", "0e99", "0e4294967295", "0.0e400", "1.0e400", "1.0e-400", "٣", "1٣",
    "½", "1e½", "²", "1.٣",
];

pub const FAMILIES: usize = 56;
/// Families of small, varied texts: they come several times.
const VARIED: [usize; 11] = [12, 22, 25, 26, 28, 29, 30, 31, 32, 33, 13];

const PATHS: [&str; 24] = [
    "", ".", "..", "/", "//", "a/..", "a/.", "../..", "a/", "/a", "a//b", "./a", ".a", "a.", "a.b.c", "..a", "C:\\\\a", "\\", "~", "a/../b.pbrt", "a\0b", "-", "*", "a/b/..",
];
/// Literals whose value is not an ordinary number, or hardly one.
const EXTREME: [&str; 26] = [
    "1e400", "-1e400", "1.0e400", "-1.0e400", "0e400.5", "-0e400.5", "0.0e400.5", "1e400.5", "-1e400.5", "1e-400.5", "1e5.5", "9223372036854775807", "-9223372036854775808", "0", "-0", "-0.0",
    "0.0", "1e-400", "1e38", "3.5e38", "1e-45", "1e-46", "1e308", "1e309", "5e-324", "1e18",
];

/// A text of the given family; the name is for the evidence.
pub fn family(r: &mut Rng, f: usize, big: usize) -> (&'static str, String) {
    let f = if f >= 35 { VARIED[(f - 35) % VARIED.len()] } else { f };
    let mut n = size(r, big);
    if matches!(f, 0 | 2 | 7 | 9 | 10 | 11 | 18) && r.pct(4) {
        // counters of 16 bits overflow here
        n = 65_500 + r.below(80_000);
    }
    match f {
        0 => ("comment lines", format!("{}WorldBegin\nWorldEnd", rep(r.pick(&["#\n", "# c\n", "#\r\n", "##\n", "#\n\n"]), n))),
        1 => ("alternating blanks and comments", format!("WorldBegin {} WorldEnd", rep(r.pick(&[" #\n", "\n#x\n", "\t#\n ", "\r\n#\r\n"]), n))),
        2 => ("whitespace run", format!("WorldBegin{}WorldEnd", rep(r.pick(&[" ", "\n", "\r\n", "\t", "\u{a0}", "\u{2028}"]), n.max(1)))),
        3 => {
            let b = *r.pick(&["Attribute", "Transform"]);
            ("closed nesting", format!("WorldBegin {} {} WorldEnd", rep(&format!("{}Begin ", b), n), rep(&format!("{}End ", b), n)))
        }
        4 => ("unclosed nesting", format!("WorldBegin {}", rep(r.pick(&["AttributeBegin ", "TransformBegin\n", "WorldBegin "]), n))),
        5 => ("stray ends", format!("WorldBegin {}", rep(r.pick(&["AttributeEnd ", "TransformEnd ", "WorldEnd "]), n))),
        6 => ("nested exponents", format!("Translate {}1", rep(r.pick(&["1e", "1e-", "1.e", ".1e", "1e+"]), n))),
        7 => ("sign run", format!("Scale {}", rep(r.pick(&["-", "+", "-+", "."]), n))),
        8 => ("bracket run", format!("Film \"x\" \"float y\" {}", rep(r.pick(&["[", "]", "[]", "[ 1 "]), n))),
        9 => {
            let ch = *r.pick(&["a", "\\\\", "\\\"", "\\n", "é", "😀", "\n", "\r\n", "#", "\\a"]);
            ("long string", format!("WorldBegin Shape \"{}\" WorldEnd", rep(ch, n)))
        }
        10 => ("unterminated string", format!("WorldBegin Shape \"{}{}", rep(r.pick(&["a", "\\\"", "\n", "é"]), n), r.pick(&["", "\\", "\\\\"]))),
        11 => ("long number", {
            let d = rep(r.pick(&["0", "9", "1", "12"]), n.max(1));
            let l = match r.below(7) {
                0 => d,
                1 => format!("0.{}", d),
                2 => format!("{}.{}", d, d),
                3 => format!("1e{}", d),
                4 => format!("1.0e-{}", d),
                5 => format!("{}e-{}", d, n),
                _ => format!("{}.0e{}", d, n),
            };
            format!("Translate {} 0 0 WorldBegin WorldEnd", l)
        }),
        12 => ("odd number", {
            let mut s = String::from("TransformTimes");
            for _ in 0..2 {
                s += " ";
                if r.pct(60) {
                    s += r.pick(&NUMS);
                } else {
                    s += &gen_float(r, Nums::Full);
                }
            }
            s + " WorldBegin WorldEnd"
        }),
        13 => ("odd integer", {
            let l = if r.pct(50) { r.pick(&NUMS).to_string() } else { gen_int(r, Nums::Full) };
            let e = if r.pct(30) { format!("{}e{}", l, r.below(70)) } else { l };
            format!("WorldBegin Shape \"s\" \"integer n\" [{} 2] WorldEnd", e)
        }),
        14 => ("long list", {
            let (ty, el) = *r.pick(&[("float", "1.5 "), ("integer", "7 "), ("point2", "1 2 "), ("spectrum", "400 1 "), ("string", "\"s\" "), ("bool", "\"true\" ")]);
            format!("WorldBegin Shape \"s\" \"{} v\" [{}] WorldEnd", ty, rep(el, n))
        }),
        15 => ("many directives", format!("WorldBegin {} WorldEnd", rep(r.pick(&["Shape \"s\" ", "Include \"f\"\n", "AttributeBegin AttributeEnd ", "Shape \"s\" \"float r\" 1 "]), n))),
        16 => ("many options", format!("{} WorldBegin WorldEnd", rep(r.pick(&["Identity ", "Translate 1 2 3\n", "Film \"f\" ", "ActiveTransform All "]), n))),
        17 => ("many parameters", format!("WorldBegin Shape \"s\" {} WorldEnd", rep(r.pick(&["\"float r\" 1 ", "\"rgb c\" [1 2 3] ", "\"string s\" \"x\" ", "\"texture t\" \"x\" "]), n))),
        18 => ("long identifier", format!("{} WorldBegin", rep(r.pick(&["a", "é", "a1", "World"]), n.max(1)))),
        19 => ("token soup", {
            let mut s = String::new();
            let k = 1 + r.below(60);
            for _ in 0..k {
                let t = soup(r);
                s += t.text();
                s += r.pick(&[" ", " ", "\n", "", "#c\n", "\r\n", "\t"]);
            }
            s
        }),
        20 => ("grammar noise", {
            let al: Vec<char> = "\"\"[]#\\\n\r .e+-019aWBE é\t".chars().collect();
            let k = r.below(200);
            (0..k).map(|_| *r.pick(&al)).collect()
        }),
        21 => ("unicode noise", {
            let k = r.below(200);
            gen_chars(r, k)
        }),
        22 => ("mangled scene", {
            let mut p = Profile::base();
            p.budget = 10;
            p.strs = if r.pct(40) { Strs::Full } else { Strs::Simple };
            p.nums = if r.pct(40) { Nums::Full } else { Nums::Simple };
            let (t, _) = gen_scene(r, &p);
            let l = *r.pick(&LAYOUTS);
            let (s, _) = render(r, &t, l);
            mangle(r, &s)
        }),
        23 => ("truncated scene", {
            let mut p = Profile::base();
            p.budget = 10;
            let (t, _) = gen_scene(r, &p);
            let (s, _) = render(r, &t, Layout::Lines);
            let k = r.below(s.chars().count() + 1);
            s.chars().take(k).collect()
        }),
        24 => ("declaration noise", {
            let w = [" ", "  ", "float", "rgb", "x", "", "spectrum", "\u{3000}", "y z", "integer\tn", "\\n"];
            let mut d = String::new();
            for _ in 0..r.below(5) {
                d += r.pick(&w);
            }
            let v = *r.pick(&["1", "[1 2 3]", "[]", "\"true\"", "[\"a\"]", "[1", "]", "[1 2]", "", "WorldEnd"]);
            format!("WorldBegin Shape \"s\" \"{}\" {} WorldEnd", d, v)
        }),
        25 => ("long odd string in any place", {
            let mut t = small_scene(r);
            let k = r.below(t.len());
            let s = odd_text(r);
            t[k] = Tok::str(&s);
            finish(r, &t)
        }),
        26 => ("long odd value", {
            // every parameter type with a value that cannot be one of its values
            let ty = *r.pick(&TYPES);
            let s = odd_text(r);
            let v = match r.below(5) {
                0 => s,
                1 => format!("true{}", s),
                2 => format!("{}false", s),
                3 => format!("1.5{}", s),
                _ => format!("{} {}", r.pick(&TYPES), s),
            };
            let mut t = vec![Tok::id("WorldBegin"), Tok::id("Shape"), Tok::str("s"), Tok::str(&format!("{} n", ty))];
            match r.below(4) {
                0 => t.push(Tok::str(&v)),
                1 => t.extend([Tok::LB, Tok::str(&v), Tok::RB]),
                2 => t.extend([Tok::LB, Tok::Num("1".into()), Tok::str(&v), Tok::RB]),
                _ => t.extend([Tok::LB, Tok::str("true"), Tok::str(&v), Tok::RB]),
            }
            t.push(Tok::id("WorldEnd"));
            finish(r, &t)
        }),
        27 => ("long odd declaration", {
            let s = odd_text(r);
            let d = match r.below(6) {
                0 => s,
                1 => format!("{} x", s),
                2 => format!("float {}", s),
                3 => format!("{}{} x", r.pick(&TYPES), s),
                4 => format!("{} {}", r.pick(&TYPES), s),
                _ => format!("{} x {}", r.pick(&TYPES), s),
            };
            let t = vec![
                Tok::id("WorldBegin"), Tok::id("Shape"), Tok::str("s"), Tok::str(&d), Tok::LB, Tok::Num("1".into()), Tok::Num("2".into()), Tok::RB, Tok::id("WorldEnd"),
            ];
            finish(r, &t)
        }),
        28 => ("long odd identifier in any place", {
            let mut t = small_scene(r);
            let k = r.below(t.len() + 1);
            let n = 1 + r.below(120);
            let al = ['a', 'Z', 'é', 'ß', '中', '𝔘', 'ı', 'Я', '_', '7'];
            let mut s: String = (0..n).map(|_| *r.pick(&al)).collect();
            if r.pct(30) {
                s = format!("{}{}", r.pick(&["World", "WorldBegin", "Attribute", "Shape", "Translate"]), s);
            }
            let x = Tok::Id(s);
            if r.pct(50) && k < t.len() {
                t[k] = x;
            } else {
                t.insert(k, x);
            }
            finish(r, &t)
        }),
        29 => ("extreme numbers in many places", {
            let n = *r.pick(&[3, 10]);
            let mut t = scene_of(r, n);
            let share = *r.pick(&[10usize, 50, 100]);
            for x in t.iter_mut() {
                if matches!(x, Tok::Num(_)) && r.pct(share) {
                    *x = Tok::Num(r.pick(&EXTREME).to_string());
                }
            }
            finish(r, &t)
        }),
        30 => ("paths in many places", {
            let mut t = scene_of(r, 8);
            for x in t.iter_mut() {
                if matches!(x, Tok::Str { val, .. } if !val.contains(' ')) && r.pct(60) {
                    *x = Tok::str(r.pick(&PATHS));
                }
            }
            finish(r, &t)
        }),
        31 => ("the same few strings everywhere", {
            let mut t = scene_of(r, 8);
            let words = ["scale", "mix", "constant", "imagemap", "float", "spectrum", "color", "t", "a", "none", "filename", "true"];
            let pool: Vec<String> = (0..1 + r.below(4)).map(|_| if r.pct(30) { r.pick(&dict::get().strs).clone() } else { r.pick(&words).to_string() }).collect();
            for x in t.iter_mut() {
                if let Tok::Str { val, .. } = x {
                    let w: Vec<&str> = val.split_whitespace().collect();
                    let n = r.pick(&pool).clone();
                    let v = if w.len() == 2 && TYPES.contains(&w[0]) {
                        if r.pct(60) { format!("{} {}", w[0], n) } else { val.clone() }
                    } else if val == "true" || val == "false" {
                        val.clone()
                    } else {
                        n
                    };
                    *x = Tok::str(&v);
                }
            }
            finish(r, &t)
        }),
        32 => ("the end after an escape", {
            let t = scene_of(r, 3);
            let mut s = finish(r, &t);
            if let Some(k) = s.rfind("WorldEnd") {
                s.truncate(k);
            }
            let w = *r.pick(&["Shape \"", "Shape \"s\" \"string n\" \"", "Shape \"s\" \"string n\" [\"a\" \"", "Include \"", "Shape \"s\" \""]);
            s += w;
            for _ in 0..r.below(5) {
                s.push(*r.pick(&['a', 'é', '\\', ' ', '\n']));
            }
            s.push('\\');
            for _ in 0..r.below(6) {
                s.push(*r.pick(&['x', 'u', 'U', 'n', 't', 'r', '0', '1', '7', 'a', 'f', '{', '}', '"', '\\', '\'', '\n', '\r', 'é', 'N', 'o', 'd', '8', '$']));
            }
            s
        }),
        33 => ("escapes of all kinds", {
            let mut s = String::from("WorldBegin Shape \"s\" \"string v\" [");
            for _ in 0..1 + r.below(6) {
                s.push('"');
                for _ in 0..r.below(12) {
                    if r.pct(50) {
                        s.push('\\');
                    }
                    let c = match r.below(3) {
                        0 => *r.pick(&['x', 'u', 'U', 'n', 't', 'r', '0', '1', '7', 'a', 'f', '{', '}', '\'', 'd', '8', 'D', 'F']),
                        1 => *r.pick(&dict::get().chars),
                        _ => char::from_u32(32 + r.below(0x400) as u32).unwrap_or('q'),
                    };
                    if c == '"' {
                        s.push('\\');
                    }
                    s.push(c);
                }
                s += "\" ";
            }
            s + "] WorldEnd"
        }),
        _ => ("deep mixture", {
            let mut s = String::from("WorldBegin ");
            for k in 0..n {
                s += ["AttributeBegin ", "TransformBegin ", "Shape \"a\" \"float r\" 1 "][k % 3];
                if r.pct(3) {
                    s += "AttributeEnd ";
                }
            }
            s
        }),
    }
}

fn scene_of(r: &mut Rng, budget: usize) -> Vec<Tok> {
    let mut p = Profile::base();
    p.budget = budget;
    p.max_opts = 6;
    p.params = 4;
    gen_scene(r, &p).0
}

fn small_scene(r: &mut Rng) -> Vec<Tok> {
    let mut p = Profile::base();
    p.budget = 4;
    p.long = 0;
    let (t, _) = gen_scene(r, &p);
    t
}

fn finish(r: &mut Rng, t: &[Tok]) -> String {
    let l = *r.pick(&LAYOUTS);
    render(r, t, l).0
}

/// Characters of one to four bytes, so that no byte count falls on a character boundary by luck.
fn odd_text(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.below(12),
        1 => 10 + r.below(60),
        2 => 60 + r.below(240),
        _ => (*r.pick(&dict::get().ints)).clamp(0, 600) as usize + r.below(4),
    };
    let al: &[char] = match r.below(5) {
        0 => &['é'],
        1 => &['中'],
        2 => &['😀'],
        3 => &['a', 'é', '中', '😀', ' ', 'b'],
        _ => &['x', 'y', '"', '\\', '\n', '\r', '\t', '\0', '\u{301}', '\u{202e}', '\u{fffd}', '\u{10ffff}', '{', '}', '\u{7f}'],
    };
    let mut s: String = (0..r.below(4)).map(|_| 'q').collect();
    s.extend((0..n).map(|_| *r.pick(al)));
    s
}

pub fn soup(r: &mut Rng) -> Tok {
    let ids = [
        "WorldBegin", "WorldEnd", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "Shape", "Material", "Texture", "Include", "LightSource",
        "AreaLightSource", "Translate", "Rotate", "LookAt", "Film", "Camera", "Identity", "ActiveTransform", "TransformTimes", "worldbegin", "x",
    ];
    match r.below(12) {
        0..=4 => Tok::id(r.pick(&ids)),
        5 | 6 => {
            let ty = *r.pick(&TYPES);
            Tok::str(&format!("{} p{}", ty, r.below(5)))
        }
        7 => {
            let s = gen_string(r, Strs::Simple);
            Tok::str(&s)
        }
        8 => Tok::LB,
        9 => Tok::RB,
        10 => Tok::Num(gen_int(r, Nums::Simple)),
        _ => Tok::Num(gen_float(r, Nums::Simple)),
    }
}

/// Character-level edits.
pub fn mangle(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(4) {
        if c.is_empty() {
            break;
        }
        let k = r.below(c.len());
        match r.below(6) {
            0 => {
                c.remove(k);
            }
            1 => {
                let ch = *r.pick(&['"', '[', ']', '#', '\\', '\n', '\r', 'e', '.', '-', '0', 'é', '\u{0}', '~']);
                c.insert(k, ch);
            }
            2 => c[k] = *r.pick(&['"', '[', ']', '#', '\\', ' ', 'e', '.', '-', '9', '½']),
            3 => {
                let j = r.below(c.len());
                c.swap(k, j);
            }
            4 => {
                let m = (k + 1 + r.below(20)).min(c.len());
                let part: Vec<char> = c[k..m].to_vec();
                let at = r.below(c.len());
                for (x, ch) in part.into_iter().enumerate() {
                    c.insert(at + x, ch);
                }
            }
            _ => {
                let m = (k + 1 + r.below(20)).min(c.len());
                c.drain(k..m);
            }
        }
    }
    c.into_iter().collect()
}

/// Token-level edits of a scene: 1 to 3.
pub fn edit(r: &mut Rng, t: &mut Vec<Tok>) -> &'static str {
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let mut name = "none";
    for _ in 0..n {
        name = edit1(r, t);
    }
    if n > 1 {
        "several edits"
    } else {
        name
    }
}

fn find(r: &mut Rng, t: &[Tok], f: impl Fn(&Tok) -> bool) -> Option<usize> {
    let v: Vec<usize> = (0..t.len()).filter(|&k| f(&t[k])).collect();
    if v.is_empty() {
        None
    } else {
        Some(*r.pick(&v))
    }
}

const DIRECTIVES: [&str; 24] = [
    "ReverseOrientation", "ObjectBegin", "ObjectEnd", "ObjectInstance", "NamedMaterial", "MakeNamedMaterial", "MakeNamedMedium", "MediumInterface", "PixelFilter",
    "SurfaceIntegrator", "VolumeIntegrator", "Renderer", "Volume", "Attribute", "ColorSpace", "Option", "Import", "Import2", "begin", "end", "World", "Light", "Sphere", "E5",
];
const FOREIGN_TYPES: [&str; 36] = [
    "point", "vector", "normal", "color", "point3", "vector3", "normal3", "point", "vector", "normal", "point2d", "bvector", "spectrumfile", "rgbspectrum",
    "int", "bools", "boolean", "string2", "double", "point2f", "vector2f", "Point2", "point4", "rgba", "color3", "xy", "texture2", "file", "spectra", "black", "long", "f32",
    "float32", "integers", "path", "param",
];

/// A word that means something elsewhere: in the file format, or in the source.
fn foreign(r: &mut Rng, words: &[&str]) -> String {
    if r.pct(50) {
        return r.pick(words).to_string();
    }
    let s = r.pick(&dict::get().strs).clone();
    let w: Vec<String> = s.split(|c: char| !c.is_alphanumeric()).filter(|w| w.chars().next().map_or(false, |c| c.is_alphabetic())).map(|w| w.to_string()).collect();
    if w.is_empty() {
        "w".into()
    } else {
        r.pick(&w).clone()
    }
}

pub fn edit1(r: &mut Rng, t: &mut Vec<Tok>) -> &'static str {
    if t.is_empty() {
        t.push(soup(r));
        return "insert";
    }
    let is_decl = |t: &Tok| matches!(t, Tok::Str { val, .. } if TYPES.contains(&val.split_whitespace().next().unwrap_or("")));
    let k = r.below(t.len());
    match r.below(25) {
        22 => {
            // a directive the format or the source knows a word for, but not this parser, with operands or without
            let at = find(r, t, |x| matches!(x, Tok::Id(_))).unwrap_or(k);
            let mut n = vec![Tok::Id(foreign(r, &DIRECTIVES))];
            match r.below(5) {
                0 => n.push(Tok::str("x")),
                1 => n.extend((0..1 + r.below(4)).map(|i| Tok::Num(i.to_string()))),
                2 => n.extend(vec![Tok::str("x"), Tok::str("float f"), Tok::Num("1".into())]),
                _ => (),
            }
            t.splice(at..at, n);
            "foreign directive"
        }
        23 => {
            if let Some(k) = find(r, t, is_decl) {
                let name = match &t[k] {
                    Tok::Str { val, .. } => val.split_whitespace().nth(1).unwrap_or("q").to_string(),
                    _ => unreachable!(),
                };
                t[k] = Tok::str(&format!("{} {}", foreign(r, &FOREIGN_TYPES), name));
            }
            "foreign type"
        }
        24 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Id(_))) {
                t[k] = Tok::Id(foreign(r, &DIRECTIVES));
            }
            "foreign directive"
        }
        0 => {
            t.remove(k);
            "delete token"
        }
        1 => {
            let x = t[k].clone();
            t.insert(k, x);
            "duplicate token"
        }
        2 => {
            if k + 1 < t.len() {
                t.swap(k, k + 1);
            }
            "swap tokens"
        }
        3 => {
            let x = soup(r);
            let k = r.below(t.len() + 1);
            t.insert(k, x);
            "insert token"
        }
        4 => {
            t[k] = soup(r);
            "replace token"
        }
        5 => {
            t.truncate(k);
            "truncate"
        }
        6 | 7 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Id(s) if s.ends_with("End"))) {
                t[k] = Tok::id(r.pick(&["AttributeEnd", "TransformEnd", "WorldEnd"]));
            }
            "change block end"
        }
        8 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Id(s) if s.ends_with("Begin") && s != "WorldBegin")) {
                t[k] = Tok::id(r.pick(&["AttributeBegin", "TransformBegin"]));
            }
            "change block begin"
        }
        9 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Id(s) if s.ends_with("End") || s.ends_with("Begin"))) {
                t.remove(k);
            }
            "delete block mark"
        }
        10 => {
            let k = r.below(t.len() + 1);
            t.insert(k, Tok::id(r.pick(&["AttributeEnd", "TransformEnd", "WorldEnd", "AttributeBegin", "TransformBegin"])));
            "insert block mark"
        }
        11 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::LB | Tok::RB)) {
                t.remove(k);
            }
            "delete bracket"
        }
        12 => {
            let b = if r.pct(50) { Tok::LB } else { Tok::RB };
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Num(_) | Tok::LB | Tok::RB)) {
                t.insert(k, b);
            }
            "insert bracket"
        }
        13 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::LB)) {
                while k + 1 < t.len() && t[k + 1] != Tok::RB {
                    t.remove(k + 1);
                }
            }
            "empty list"
        }
        14 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Num(_))) {
                if r.pct(50) {
                    t.remove(k);
                } else {
                    let l = gen_float(r, Nums::Simple);
                    t.insert(k, Tok::Num(l));
                }
            }
            "change operand count"
        }
        15 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Num(_))) {
                t[k] = match r.below(5) {
                    0 => Tok::str("true"),
                    1 => Tok::str("1.5"),
                    2 => Tok::Num("2.5".into()),
                    3 => Tok::Num("5e-1".into()),
                    _ => Tok::id("x"),
                };
            }
            "retype number"
        }
        16 | 17 => {
            if let Some(k) = find(r, t, is_decl) {
                let val = match &t[k] {
                    Tok::Str { val, .. } => val.clone(),
                    _ => unreachable!(),
                };
                let w: Vec<&str> = val.split_whitespace().collect();
                let (a, b) = (w[0].to_string(), w.get(1).unwrap_or(&"q").to_string());
                let d = match r.below(10) {
                    8 => format!("{} {}", a.to_uppercase(), b),
                    9 => format!("{} {}", &a[..a.len() - 1], b),
                    0 => a,
                    1 => format!("{} {} extra", a, b),
                    2 => format!("{}s {}", a, b),
                    3 => format!("{}{} {}", a[..1].to_uppercase(), &a[1..], b),
                    4 => format!("{} {}", b, a),
                    5 => String::new(),
                    _ => format!("{} {}", r.pick(&TYPES), b),
                };
                t[k] = Tok::str(&d);
            }
            "edit declaration"
        }
        18 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Id(_))) {
                let s = t[k].text().to_string();
                t[k] = Tok::Id(match r.below(9) {
                    0 => s.to_lowercase(),
                    1 => format!("{}{}", s, r.pick(&["s", "X", "1", "End", "Begin", "é", "e5"])),
                    2 => s[..s.chars().next().map(|c| c.len_utf8()).unwrap_or(0)].to_string(),
                    3 => s.to_uppercase(),
                    4 => format!("{}{}", r.pick(&["x", "X", "World", "A"]), s),
                    5 => {
                        let mut c: Vec<char> = s.chars().collect();
                        c.pop();
                        if c.is_empty() { "z".into() } else { c.into_iter().collect() }
                    }
                    6 => {
                        let mut c: Vec<char> = s.chars().collect();
                        let k = r.below(c.len());
                        c[k] = if c[k].is_uppercase() { c[k].to_ascii_lowercase() } else { c[k].to_ascii_uppercase() };
                        c.into_iter().collect()
                    }
                    7 => format!("{}{}", s, s),
                    _ => r.pick(&["Shape", "Material", "Texture", "Include", "LightSource", "Translate", "Film", "LookAt", "Identity"]).to_string(),
                });
            }
            "rename directive"
        }
        19 => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Str { .. })) {
                match r.below(4) {
                    0 => {
                        t.remove(k);
                    }
                    1 => t[k] = Tok::Num("3".into()),
                    2 => t[k] = Tok::id("name"),
                    3 if r.pct(40) => t[k] = Tok::str(&r.pick(&dict::get().strs).clone()),
                    _ => t[k] = Tok::str(r.pick(&["on", "off", "no", "true", "false", "True", "x y", "", "TRUE", "FALSE", "1", "0", "yes", "true ", " false", "t", "truefalse"])),
                }
            }
            "retype string"
        }
        20 => {
            // a value in brackets, or a list without
            if let Some(k) = find(r, t, |x| matches!(x, Tok::LB)) {
                let mut j = k;
                while j < t.len() && t[j] != Tok::RB {
                    j += 1;
                }
                if j < t.len() {
                    t.remove(j);
                }
                t.remove(k);
            }
            "unwrap list"
        }
        _ => {
            if let Some(k) = find(r, t, |x| matches!(x, Tok::Num(_) | Tok::Str { .. })) {
                t.insert(k + 1, Tok::RB);
                t.insert(k, Tok::LB);
            }
            "wrap value"
        }
    }
}
