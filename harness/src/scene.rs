//! Scene workload: token sequences together with the scene they denote (the ground truth the
//! monitors compare the parser's result with), numeric-literal and string generators.
use crate::dict;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    /// decoded value, and the text between (and including) the quotes
    Str { val: String, raw: String },
    Num(String),
    LB,
    RB,
}

impl Tok {
    pub fn text(&self) -> &str {
        match self {
            Tok::Id(s) => s,
            Tok::Str { raw, .. } => raw,
            Tok::Num(s) => s,
            Tok::LB => "[",
            Tok::RB => "]",
        }
    }
    pub fn word(&self) -> bool {
        matches!(self, Tok::Id(_) | Tok::Num(_))
    }
    pub fn str(s: &str) -> Tok {
        Tok::Str { val: s.to_string(), raw: plain(s) }
    }
    pub fn id(s: &str) -> Tok {
        Tok::Id(s.to_string())
    }
}

pub fn plain(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            r.push('\\');
        }
        r.push(c);
    }
    r.push('"');
    r
}

/// Expected value of one parameter element.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    I(String),
    F(String),
    S(String),
    T(&'static str, Vec<String>),
    File(String),
}

/// The eleven collections of a parameter set, in the order of the public struct.
pub const COLLS: [&str; 11] = [
    "bools", "ints", "floats", "point2fs", "vector2fs", "point3fs", "vector3fs", "normal3fs", "spectra", "strings", "textures",
];

#[derive(Clone, Debug, PartialEq)]
pub struct EParam {
    pub coll: usize,
    pub name: String,
    pub tok: usize,
    pub vals: Vec<V>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EDir {
    pub kind: String,
    pub tok: usize,
    pub strs: Vec<String>,
    pub nums: Vec<String>,
    pub params: Vec<EParam>,
    pub kids: Option<Vec<EDir>>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Scene {
    pub opts: Vec<EDir>,
    pub world: EDir,
}

/// Option directives with a fixed number of numbers.
pub const NUM_OPTS: [(&str, usize); 7] = [
    ("Translate", 3),
    ("Scale", 3),
    ("Rotate", 4),
    ("LookAt", 9),
    ("Transform", 9),
    ("ConcatTransform", 9),
    ("TransformTimes", 2),
];
pub const STR_OPTS: [&str; 3] = ["CoordinateSystem", "CoordSysTransform", "Include"];
pub const PARAM_OPTS: [&str; 6] = ["Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator"];
pub const PARAM_DIRS: [&str; 4] = ["Material", "Shape", "LightSource", "AreaLightSource"];
pub const TYPES: [&str; 11] = [
    "bool", "integer", "float", "point2", "vector2", "string", "rgb", "xyz", "blackbody", "spectrum", "texture",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Nums {
    /// short literals, almost always distinct, exactly representable
    Simple,
    /// the whole literal grammar
    Full,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Strs {
    Simple,
    Full,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub nums: Nums,
    pub strs: Strs,
    pub max_opts: usize,
    /// mean number of children of a block
    pub kids: usize,
    pub depth: usize,
    pub params: usize,
    /// percentage of lists that are long
    pub long: usize,
    /// number of directives allowed in total
    pub budget: usize,
    /// one list, string or name of more than 65,535 elements
    pub huge: bool,
    /// one place with very many options, directives or parameters
    pub many: bool,
}

impl Profile {
    pub fn base() -> Profile {
        Profile { nums: Nums::Simple, strs: Strs::Simple, max_opts: 4, kids: 4, depth: 4, params: 4, long: 3, budget: 60, huge: false, many: false }
    }
}

// ---------------------------------------------------------------- numeric literals

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

fn sign(r: &mut Rng) -> &'static str {
    match r.below(6) {
        0 | 1 => "-",
        2 => "+",
        _ => "",
    }
}

/// Value of an integer literal (no point, exponent absent or non-negative) that fits 64 bits.
pub fn int_value(lit: &str) -> Option<i64> {
    let (m, e) = match lit.find('e') {
        Some(k) => (&lit[..k], &lit[k + 1..]),
        None => (lit, ""),
    };
    if m.contains('.') {
        return None;
    }
    let mv: i128 = m.trim_start_matches('+').parse().ok()?;
    let ev: i64 = if e.is_empty() { 0 } else { e.parse().ok()? };
    if ev < 0 || ev > 18 {
        return None;
    }
    let mut v = mv;
    if v != 0 {
        for _ in 0..ev.min(60) {
            v = v.checked_mul(10)?;
            if v > i64::MAX as i128 || v < i64::MIN as i128 {
                return None;
            }
        }
    }
    i64::try_from(v).ok()
}

/// Numbers with a meaning of their own: angles, sizes, temperatures, wavelengths, limits.
fn meaningful(r: &mut Rng) -> String {
    let v = *r.pick(&[0i64, 1, 2, 3, 10, 30, 45, 60, 64, 90, 100, 120, 127, 128, 180, 255, 256, 270, 360, 400, 700, 720, 800, 1000, 1024, 1900, 2700, 5000, 6500, 10000, 32767, 32768, 65535, 65536, 1000000, 2147483647, 2147483648]);
    (if r.pct(50) { -v } else { v }).to_string()
}

pub fn gen_int(r: &mut Rng, p: Nums) -> String {
    if r.pct(6) {
        return meaningful(r);
    }
    if p == Nums::Simple {
        let v = match r.below(10) {
            0 => *r.pick(&dict::get().ints),
            1 => r.range(-9, 9),
            _ => r.range(-99999, 99999),
        };
        return v.to_string();
    }
    match r.below(14) {
        13 => {
            // at the limits of 64 (or 32, 53, 63) bits, some of it in the exponent
            let v: i128 = *r.pick(&[i64::MAX as i128, i64::MIN as i128, i64::MIN as i128 + 1, i64::MAX as i128 - 1, 1 << 53, -(1 << 53), (1 << 53) + 1, 1 << 62, i32::MAX as i128, i32::MIN as i128, u32::MAX as i128]);
            let k = if r.pct(50) { 0 } else { r.below(19) };
            let m = v / 10i128.pow(k as u32);
            let plus = if m >= 0 && r.pct(20) { "+" } else { "" };
            let zeros = if r.pct(20) { "0".repeat(1 + r.below(5)) } else { String::new() };
            let (s, m) = if m < 0 { ("-", -m) } else { (plus, m) };
            format!("{}{}{}e{}{}", s, zeros, m, r.pick(&["", "+", "0", "+0", "-0"]).replace("-0", if k == 0 { "-0" } else { "" }), k)
        }
        0 => "9223372036854775807".into(),
        1 => "-9223372036854775808".into(),
        2 => format!("{}0", sign(r)),
        3 => format!("{}{}{}", sign(r), "0".repeat(r.below(6)), r.below(1000)),
        4 | 5 => {
            // mantissa and exponent whose product fits
            let e = r.below(19);
            let m = r.below(10usize.pow(18 - e as u32).min(100000).max(2));
            let lit = format!("{}{}e{}{}", sign(r), m, r.pick(&["", "+", "0", "+0"]), e);
            lit
        }
        6 => {
            let n = 1 + r.below(18);
            format!("{}{}", sign(r), digits(r, n))
        }
        7 => {
            let d = *r.pick(&dict::get().ints);
            d.saturating_add(r.range(-1, 1)).to_string()
        }
        8 => {
            // around powers of two
            let k = r.below(63);
            let v = (1i64 << k).saturating_add(r.range(-1, 1));
            format!("{}{}", if r.pct(50) { "-" } else { "" }, v)
        }
        9 => {
            let k = r.below(19) as u32;
            format!("{}{}", if r.pct(30) { "-" } else { "" }, 10i64.pow(k) + r.range(-1, 1).max(if k == 0 { 0 } else { -1 }))
        }
        _ => r.range(-100000, 100000).to_string(),
    }
}

pub fn gen_float(r: &mut Rng, p: Nums) -> String {
    if r.pct(6) {
        let m = meaningful(r);
        return match r.below(4) {
            0 => format!("{}.0", m),
            1 => format!("{}.5", m),
            2 => format!("{}e-2", m),
            _ => m,
        };
    }
    if p == Nums::Simple {
        return match r.below(6) {
            0 => gen_int(r, p),
            1 => {
                let d = *r.pick(&dict::get().floats);
                if d.abs() < 1e6 && (d == 0.0 || d.abs() > 1e-6) { format!("{}", d as f32) } else { "1.5".into() }
            }
            2 => format!("{}.5", r.range(-999, 999)),
            3 => format!(".{}", ["5", "25", "75", "125", "375"][r.below(5)]),
            4 => format!("-{}.25", r.below(5000)),
            _ => format!("{}.{}", r.below(3000), ["0", "5", "25", "75", "125", "625"][r.below(6)]),
        };
    }
    match r.below(20) {
        18 => {
            // very many zeros, taken back by the exponent
            let z = if r.pct(10) { r.below(5000) } else { r.below(700) };
            let n = 1 + r.below(25);
            let d = digits(r, n);
            let e = z as i64 + r.range(-60, 60);
            if r.pct(50) {
                format!("{}0.{}{}e{}", sign(r), "0".repeat(z), d, e)
            } else {
                format!("{}1{}{}.{}e{}", sign(r), d, "0".repeat(z), if r.pct(50) { "" } else { "25" }, -e)
            }
        }
        19 => {
            // at the limits of both precisions, with mantissas of many digits
            let n = 1 + r.below(18);
            let k = *r.pick(&[-324i64, -308, -45, -38, 38, 308, 330, -330, 19, -19]);
            let e = k - n as i64 + r.range(-3, 4);
            format!("{}{}{}{}e{}", sign(r), 1 + r.below(9), digits(r, n - 1), if e >= 0 || r.pct(30) { ".0" } else { "" }, e)
        }
        16 => {
            // at or next to the middle between two single-precision numbers
            let b = match r.below(4) {
                0 => r.below(0x00ff_ffff) as u32,
                1 => 0x3000_0000 + r.below(0x2000_0000) as u32,
                _ => r.below(0x7f00_0000) as u32,
            };
            let mid = (f32::from_bits(b) as f64 + f32::from_bits(b + 1) as f64) / 2.0;
            let s = format!("{:.170}", mid);
            let s = s.trim_end_matches('0');
            let near = match r.below(3) {
                0 => s.to_string(),
                1 => format!("{}{}1", s, "0".repeat(r.below(30))),
                _ => match s.char_indices().rev().find(|(_, c)| *c != '0' && *c != '.') {
                    Some((k, c)) if k > s.find('.').unwrap_or(0) => format!("{}{}{}", &s[..k], (c as u8 - 1) as char, "9".repeat(1 + r.below(30))),
                    _ => s.to_string(),
                },
            };
            let near = if near.ends_with('.') { format!("{}0", near) } else { near };
            format!("{}{}{}", sign(r), near, r.pick(&["", "", "e0", "e+00"]))
        }
        17 => {
            // the same for double precision: integers of 54 bits times a power of two
            let k = r.below(60);
            let m = ((1u128 << 53) + 2 * r.below(1 << 51) as u128 + 1) << k;
            let t = match r.below(4) {
                0 => format!("{}.0", m),
                1 => format!("{}.{}1", m, "0".repeat(r.below(25))),
                2 => format!("{}.{}", m - 1, "9".repeat(1 + r.below(25))),
                _ => {
                    // the point further left, and an exponent
                    let d = m.to_string();
                    let p = 1 + r.below(d.len() - 1);
                    format!("{}.{}{}e{}", &d[..p], &d[p..], r.pick(&["", "0001"]), d.len() - p)
                }
            };
            format!("{}{}", sign(r), t)
        }
        0 | 1 => gen_int(r, p),
        2 => {
            // integers whose exponent takes them out of 64 bits, or far out of range
            format!("{}{}e{}{}", sign(r), 1 + r.below(999), r.pick(&["", "+"]), [19, 20, 25, 30, 36, 38, 39, 50, 100, 300, 308, 400, 4999, 99999][r.below(14)])
        }
        3 => format!("{}{}e-{}", sign(r), r.below(100000), r.below(50)),
        4 => format!("{}0.0e{}{}", sign(r), r.pick(&["", "-", "+"]), [0, 1, 38, 39, 45, 50, 308, 309, 400, 1000][r.below(10)]),
        5 => format!("{}0e{}{}", sign(r), r.pick(&["", "-", "+"]), r.below(400)),
        6 => {
            // big mantissa, compensating exponent
            let n = 8 + r.below(30);
            let m = digits(r, n);
            format!("{}{}.{}e-{}", sign(r), m, r.below(10), r.below(45))
        }
        7 => {
            // small mantissa, compensating exponent
            let z = r.below(40);
            format!("{}0.{}{}e{}", sign(r), "0".repeat(z), 1 + r.below(9999), r.below(60))
        }
        8 => format!("{}{}.", sign(r), r.below(100000)),
        9 => {
            let n = 1 + r.below(12);
            format!("{}.{}", sign(r), digits(r, n))
        }
        10 => {
            let (a, b) = (1 + r.below(15), 1 + r.below(25));
            format!("{}{}.{}", sign(r), digits(r, a), digits(r, b))
        }
        11 => {
            let (a, b) = (1 + r.below(3), 1 + r.below(8));
            format!("{}{}.{}e{}{}", sign(r), digits(r, a), digits(r, b), r.pick(&["", "-", "+", "0", "-0", "+00"]), r.below(40))
        }
        12 => {
            let n = 1 + r.below(8);
            format!("{}.{}e{}{}", sign(r), digits(r, n), r.pick(&["", "-", "+"]), r.below(45))
        }
        13 => format!("{}{}.e{}{}", sign(r), r.below(1000), r.pick(&["", "-", "+"]), r.below(30)),
        14 => {
            // shortest decimal forms of arbitrary bit patterns of both precisions
            let v = if r.pct(50) {
                f32::from_bits(r.u64() as u32) as f64
            } else {
                f64::from_bits(r.u64())
            };
            if !v.is_finite() {
                return "1.5".into();
            }
            let s = format!("{:e}", v);
            // make it unambiguously a float literal: mantissa with a point
            if let Some(k) = s.find('e') {
                let (m, e) = s.split_at(k);
                if m.contains('.') {
                    format!("{}{}", m, e)
                } else {
                    format!("{}.0{}", m, e)
                }
            } else {
                s
            }
        }
        _ => {
            let d = *r.pick(&dict::get().floats);
            let s = format!("{}", d);
            if s.contains("inf") || s.contains("NaN") {
                "2.5".into()
            } else if !s.contains('.') {
                format!("{}.0", s)
            } else {
                s
            }
        }
    }
}

// ---------------------------------------------------------------- strings

const ODD: [char; 48] = [
    '#', '[', ']', '\'', '.', '-', '+', 'n', 't', 'r', '0', '\\', '"', '\n', '\t', ' ', 'e', '/', ':', ';', ',', '{', '}', '(', ')', '\u{0}',
    '\u{7f}', 'é', 'ß', '½', '٣', '中', '文', '😀', '\u{301}', '\u{200d}', '\u{feff}', '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{fffd}',
    '\u{10ffff}', '\u{e000}', 'Ω', '\r', '\u{b}', '%',
];

/// Sequences that mean something together, to some program.
const RUNS: [&str; 36] = [
    "\r\n", "\r\r\n", "\n\r", "\n\n", "\\\\", "\\n", "\\t", "\\r", "\\0", "\\\"", "\"\"", "''", "##", "#\n", "//", "/*", "*/", "${x}", "$(x)", "%s", "%n", "{}", "{0}",
    "&amp;", "&#10;", "\\u0041", "\\u{41}", "\\x41", "\\101", "e\u{301}", "\u{1f469}\u{200d}\u{1f4bb}", "ﬁ", "İ", "ǅ", "\u{1b}[0m", "...",
];

pub fn gen_chars(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        if r.below(60) == 0 {
            s.push_str(r.pick(&RUNS));
            continue;
        }
        let c = match r.below(12) {
            0..=4 => *r.pick(&ODD),
            5 => *r.pick(&dict::get().chars),
            6 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
            7 => char::from_u32(r.below(0x110000) as u32).unwrap_or('y'),
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    s
}

/// One of the many encodings of `val` as a quoted string.
pub fn encode(r: &mut Rng, val: &str, fancy: bool) -> String {
    let mut o = String::from("\"");
    let cs: Vec<char> = val.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            '\n' => {
                // a raw LF right after a CR would read as CR LF
                let after_cr = i > 0 && cs[i - 1] == '\r';
                match if fancy { r.below(5) } else { 0 } {
                    0 | 1 => o.push_str("\\n"),
                    // CR CR LF is a CR before a line end
                    2 => o.push_str("\r\n"),
                    _ if after_cr => o.push_str("\\n"),
                    3 => o.push_str("\\\n"),
                    _ => o.push('\n'),
                }
            }
            'n' => o.push('n'),
            c if fancy && (c != '\r' || cs.get(i + 1) != Some(&'\n')) && r.pct(6) => {
                o.push('\\');
                o.push(c);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A length about one of the source's own numbers, or up to thousands.
fn odd_len(r: &mut Rng) -> usize {
    if r.pct(60) {
        ((*r.pick(&dict::get().ints)).min(6000) + r.range(-1, 1)).clamp(1, 6000) as usize
    } else {
        1 + r.below(3000)
    }
}

pub fn gen_string(r: &mut Rng, p: Strs) -> String {
    let plain = ["sphere", "matte", "glass", "image", "path", "halton", "a b", "checks", "x", "spectrum", "float radius", "true", "1", "0.5", "tex-1", "dir/file name.pbrt", "", ".", "..", "/", "./a//b/../c/", "/tmp", "Cargo.toml", "lights.pbrt", "~/x", "$HOME", "%20", "C:\\x", " lead", "trail ", "a\tb"];
    match p {
        Strs::Simple => match r.below(8) {
            0 => r.pick(&dict::get().strs).clone(),
            1 => format!("s{}", r.below(100000)),
            _ => r.pick(&plain).to_string(),
        },
        Strs::Full => match r.below(10) {
            0 => r.pick(&plain).to_string(),
            1 => r.pick(&dict::get().strs).clone(),
            2 => {
                let n = if r.pct(30) { odd_len(r) } else { 100 + r.below(600) };
                gen_chars(r, n)
            }
            3 => {
                let s = r.pick(&dict::get().strs).clone();
                let n = r.below(4);
                format!("{}{}{}", gen_chars(r, n), s, gen_chars(r, n))
            }
            4 => (0..r.below(6)).map(|_| *r.pick(&['\\', '"', 'n', '\n', '#'])).collect(),
            _ => {
                let n = r.below(24);
                gen_chars(r, n)
            }
        },
    }
}

pub fn str_tok(r: &mut Rng, p: Strs, val: &str) -> Tok {
    let fancy = p == Strs::Full;
    // A value holding CR LF cannot be written raw (it reads as LF); encode() escapes the LF.
    Tok::Str { val: val.to_string(), raw: encode(r, val, fancy) }
}

fn gen_name(r: &mut Rng, p: Strs) -> String {
    let names = ["radius", "Kd", "fov", "L", "filename", "xresolution", "tex1", "uscale", "P", "scale", "from", "a", "float", "rgb", "true", "1", "x_y", "N.z"];
    if p == Strs::Full && r.pct(60) {
        let n = if r.pct(5) { odd_len(r) + 10 } else { 1 + r.below(16) };
        let s: String = gen_chars(r, n).chars().filter(|c| !c.is_whitespace()).collect();
        if !s.is_empty() {
            return s;
        }
    }
    match r.below(6) {
        0 => format!("p{}", r.below(100000)),
        1 => {
            let s = r.pick(&dict::get().strs).clone();
            let w = s.split_whitespace().next().unwrap_or("w").to_string();
            w
        }
        _ => r.pick(&names).to_string(),
    }
}

const BLANKS: [&str; 10] = [" ", "  ", "\t", "\n", " \t ", "\u{a0}", "\u{3000}", "\r ", "\u{2003}", "\u{b}"];

/// All characters that are white space to Unicode, but LF.
const SPACES: [&str; 24] = [
    "\t", "\u{b}", "\u{c}", "\r", " ", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2001}", "\u{2002}", "\u{2003}", "\u{2004}", "\u{2005}",
    "\u{2006}", "\u{2007}", "\u{2008}", "\u{2009}", "\u{200a}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}",
];

fn blank(r: &mut Rng, p: Strs) -> &'static str {
    if p == Strs::Full && r.pct(40) {
        if r.pct(40) {
            SPACES[r.below(SPACES.len())]
        } else {
            BLANKS[r.below(BLANKS.len())]
        }
    } else {
        " "
    }
}

pub fn decl(r: &mut Rng, p: Strs, ty: &str, name: &str) -> Tok {
    let mut s = String::new();
    if p == Strs::Full && r.pct(20) {
        s += blank(r, p);
    }
    s += ty;
    s += blank(r, p);
    s += name;
    if p == Strs::Full && r.pct(20) {
        s += blank(r, p);
    }
    str_tok(r, p, &s)
}

// ---------------------------------------------------------------- scenes

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    pub toks: Vec<Tok>,
    left: usize,
    huge: bool,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile) -> Gen<'a> {
        let left = p.budget;
        let huge = p.huge;
        Gen { r, p, toks: vec![], left, huge }
    }
    fn push(&mut self, t: Tok) -> usize {
        self.toks.push(t);
        self.toks.len() - 1
    }
    fn float(&mut self) -> String {
        let l = gen_float(self.r, self.p.nums);
        self.push(Tok::Num(l.clone()));
        l
    }
    fn int(&mut self) -> String {
        let l = gen_int(self.r, self.p.nums);
        self.push(Tok::Num(l.clone()));
        l
    }
    fn string(&mut self) -> String {
        let mut s = gen_string(self.r, self.p.strs);
        if self.huge && self.r.pct(30) {
            self.huge = false;
            let unit = *self.r.pick(&["a", "é", "xyz", "\n", "#", "\"", "😀"]);
            s += &unit.repeat((65_500 + self.r.below(10_000)) / unit.chars().count() + 1);
            s += "tail";
        }
        let t = str_tok(self.r, self.p.strs, &s);
        self.push(t);
        s
    }
    /// A string as scenes have it in this place, or any.
    fn usual(&mut self, kind: &str) -> String {
        if !self.r.pct(25) {
            return self.string();
        }
        let pool: &[&str] = match kind {
            "Camera" => &["perspective", "orthographic", "environment", "realistic"],
            "Sampler" => &["halton", "sobol", "random", "stratified", "02sequence", "lowdiscrepancy", "maxmindist"],
            "Film" => &["image"],
            "Filter" => &["box", "gaussian", "mitchell", "sinc", "triangle"],
            "Integrator" => &["path", "bdpt", "mlt", "sppm", "whitted", "directlighting", "volpath", "ao"],
            "Accelerator" => &["bvh", "kdtree"],
            "Material" => &["matte", "plastic", "glass", "mirror", "metal", "mix", "uber", "substrate", "translucent", "disney", "hair", "none", ""],
            "Shape" => &["sphere", "cylinder", "disk", "cone", "trianglemesh", "plymesh", "curve", "loopsubdiv", "nurbs", "heightfield"],
            "LightSource" => &["point", "distant", "infinite", "spot", "goniometric", "projection"],
            "AreaLightSource" => &["diffuse", "area"],
            "Texture type" => &["float", "color", "spectrum"],
            "Texture" => &["constant", "scale", "mix", "bilerp", "imagemap", "uv", "checkerboard", "dots", "fbm", "wrinkled", "windy", "marble"],
            _ => &["checks", "tex1", "bump", "grid"],
        };
        let s = self.r.pick(pool).to_string();
        let t = str_tok(self.r, self.p.strs, &s);
        self.push(t);
        s
    }
    fn boolean(&mut self) -> bool {
        let b = self.r.pct(50);
        let t = str_tok(self.r, self.p.strs, if b { "true" } else { "false" });
        self.push(t);
        b
    }
    fn len(&mut self) -> usize {
        if self.huge && self.r.pct(40) {
            self.huge = false;
            return 65_500 + self.r.below(9_000);
        }
        if self.r.pct(self.p.long) {
            match self.r.below(4) {
                0 => {
                    let d = *self.r.pick(&dict::get().ints);
                    (d + self.r.range(-1, 1)).clamp(1, 3000) as usize
                }
                1 => 1 + self.r.below(1500),
                2 => 1 + self.r.below(300),
                _ => 1 + self.r.below(70),
            }
        } else {
            1 + self.r.below(6)
        }
    }
    /// one value without brackets, or a list
    fn one_or_list<T>(&mut self, f: fn(&mut Self) -> T) -> Vec<T> {
        if self.r.pct(35) {
            vec![f(self)]
        } else {
            self.list(f)
        }
    }
    fn list<T>(&mut self, f: fn(&mut Self) -> T) -> Vec<T> {
        let n = self.len();
        self.list_n(f, n)
    }
    fn list_n<T>(&mut self, f: fn(&mut Self) -> T, n: usize) -> Vec<T> {
        self.push(Tok::LB);
        let v = (0..n).map(|_| f(self)).collect();
        self.push(Tok::RB);
        v
    }
    pub fn param(&mut self) -> EParam {
        let ty = TYPES[self.r.below(TYPES.len())];
        self.param_of(ty)
    }
    pub fn param_of(&mut self, ty: &str) -> EParam {
        let name = gen_name(self.r, self.p.strs);
        let d = decl(self.r, self.p.strs, ty, &name);
        let tok = self.push(d);
        let (coll, vals) = match ty {
            "bool" => (0, self.one_or_list(Self::boolean).into_iter().map(V::B).collect()),
            "integer" => (1, self.one_or_list(Self::int).into_iter().map(V::I).collect()),
            "float" => (2, self.one_or_list(Self::float).into_iter().map(V::F).collect()),
            "point2" | "vector2" => {
                let tag = if ty == "point2" { "p2" } else { "v2" };
                let v = self.list(|g| vec![g.float(), g.float()]);
                (if ty == "point2" { 3 } else { 4 }, v.into_iter().map(|x| V::T(tag, x)).collect())
            }
            "string" => (9, self.one_or_list(Self::string).into_iter().map(V::S).collect()),
            "rgb" => (8, vec![V::T("rgb", self.list_n(Self::float, 3))]),
            "xyz" => (8, vec![V::T("xyz", self.list_n(Self::float, 3))]),
            "blackbody" => (8, vec![V::T("blackbody", self.list_n(Self::float, 2))]),
            "spectrum" => {
                if self.r.pct(30) {
                    (8, vec![V::File(self.string())])
                } else {
                    let n = 2 * self.len();
                    (8, vec![V::T("spectrum", self.list_n(Self::float, n))])
                }
            }
            "texture" => (10, vec![V::S(self.string())]),
            _ => unreachable!(),
        };
        EParam { coll, name, tok, vals }
    }
    fn params(&mut self) -> Vec<EParam> {
        let mut n = self.r.below(self.p.params + 1);
        if self.p.params > 3 && self.r.pct(self.p.long) {
            n = match self.r.below(3) {
                0 => (*self.r.pick(&dict::get().ints)).clamp(0, 300) as usize,
                _ => self.r.below(80),
            };
        }
        if n > 1 && self.r.pct(15) {
            // the same name again and again, possibly under the same type
            let ty = TYPES[self.r.below(TYPES.len())];
            let first = self.param_of(ty);
            let mut v = vec![first];
            for _ in 1..n {
                let ty2 = if self.r.pct(60) { ty } else { TYPES[self.r.below(TYPES.len())] };
                let mut e = self.param_of(ty2);
                // rename to the first name
                let name = v[0].name.clone();
                let t = decl(self.r, self.p.strs, ty2, &name);
                self.toks[e.tok] = t;
                e.name = name;
                v.push(e);
            }
            return v;
        }
        let mut v: Vec<EParam> = vec![];
        for _ in 0..n {
            let p = if !v.is_empty() && self.r.pct(5) {
                // the previous parameter once more, token for token
                let mut p = v[v.len() - 1].clone();
                let part: Vec<Tok> = self.toks[p.tok..].to_vec();
                p.tok = self.toks.len();
                self.toks.extend(part);
                p
            } else {
                self.param()
            };
            v.push(p);
        }
        v
    }
    fn dir(&mut self, kind: &str) -> EDir {
        let tok = self.push(Tok::id(kind));
        EDir { kind: kind.to_string(), tok, ..EDir::default() }
    }
    pub fn option(&mut self) -> EDir {
        let k = self.r.below(18);
        self.option_of(k)
    }
    /// The directive just written once more, token for token.
    fn again(&mut self, d: &EDir) -> EDir {
        let shift = self.toks.len() - d.tok;
        let part: Vec<Tok> = self.toks[d.tok..].to_vec();
        self.toks.extend(part);
        fn moved(d: &EDir, by: usize) -> EDir {
            let mut e = d.clone();
            e.tok += by;
            e.params.iter_mut().for_each(|p| p.tok += by);
            if let Some(k) = &mut e.kids {
                for x in k.iter_mut() {
                    *x = moved(x, by);
                }
            }
            e
        }
        moved(d, shift)
    }
    pub fn option_of(&mut self, k: usize) -> EDir {
        match k {
            0..=6 => {
                let (kind, n) = NUM_OPTS[k];
                let mut d = self.dir(kind);
                if self.r.pct(25) {
                    // operands that coincide, vanish or are one
                    let p = self.p.nums;
                    let pool: Vec<String> = (0..1 + self.r.below(3)).map(|_| if self.r.pct(50) { gen_float(self.r, p) } else { self.r.pick(&["0", "1", "-1", "0.0", "-0.0", "1.0"]).to_string() }).collect();
                    for k in 0..n {
                        let l = if n == 9 && pool.len() == 1 { ["1", "0"][(k % 4 != 0) as usize].to_string() } else { self.r.pick(&pool).clone() };
                        self.push(Tok::Num(l.clone()));
                        d.nums.push(l);
                    }
                    return d;
                }
                for _ in 0..n {
                    let l = self.float();
                    d.nums.push(l);
                }
                d
            }
            7..=9 => {
                let mut d = self.dir(STR_OPTS[k - 7]);
                let s = self.string();
                d.strs.push(s);
                d
            }
            10..=15 => {
                let mut d = self.dir(PARAM_OPTS[k - 10]);
                let s = self.usual(PARAM_OPTS[k - 10]);
                d.strs.push(s);
                d.params = self.params();
                d
            }
            16 => self.dir("Identity"),
            _ => {
                let mut d = self.dir("ActiveTransform");
                let ids = ["StartTime", "EndTime", "All", "x9", "WorldBegin", "WorldEnd", "Identity", "Éa1", "中文", "e1", "E5", "Translate", "AttributeEnd"];
                let s = if self.r.pct(6) {
                    let n = odd_len(self.r).min(2000);
                    (0..n).map(|_| *self.r.pick(&['a', 'Z', 'q', 'é', '7', '0', 'e'])).fold("i".to_string(), |s, c| format!("{}{}", s, c))
                } else if self.r.pct(20) {
                    let w: String = self.r.pick(&dict::get().strs).chars().filter(|c| c.is_alphabetic()).collect();
                    if w.is_empty() { "w".to_string() } else { w }
                } else {
                    self.r.pick(&ids).to_string()
                };
                self.push(Tok::Id(s.clone()));
                d.strs.push(s);
                d
            }
        }
    }
    pub fn directive(&mut self, depth: usize) -> EDir {
        self.left = self.left.saturating_sub(1);
        match self.r.below(12) {
            0..=5 => {
                let kind = PARAM_DIRS[self.r.below(4)];
                let mut d = self.dir(kind);
                let s = self.usual(kind);
                d.strs.push(s);
                d.params = self.params();
                d
            }
            6 => {
                let mut d = self.dir("Include");
                let s = self.string();
                d.strs.push(s);
                d
            }
            7 => {
                let mut d = self.dir("Texture");
                for k in ["name", "Texture type", "Texture"].iter() {
                    let s = self.usual(k);
                    d.strs.push(s);
                }
                d.params = self.params();
                d
            }
            _ if depth == 0 => {
                let mut d = self.dir("Shape");
                let s = self.string();
                d.strs.push(s);
                d
            }
            k => {
                let kind = if k % 2 == 0 { "Attribute" } else { "Transform" };
                self.block(kind, depth - 1)
            }
        }
    }
    pub fn block(&mut self, kind: &str, depth: usize) -> EDir {
        let tok = self.push(Tok::Id(format!("{}Begin", kind)));
        let mut kids = vec![];
        let n = self.r.below(2 * self.p.kids + 1);
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            let mut k = self.directive(depth);
            if self.r.pct(6) && self.toks.len() - k.tok < 500 {
                for _ in 0..1 + self.r.below(3) {
                    let next = self.again(&k);
                    kids.push(k);
                    k = next;
                }
            }
            kids.push(k);
        }
        self.push(Tok::Id(format!("{}End", kind)));
        EDir { kind: kind.to_string(), tok, kids: Some(kids), ..EDir::default() }
    }
    /// A chain of nested blocks `n` deep with directives before, inside and after each block.
    pub fn chain(&mut self, kind: &str, n: usize) -> EDir {
        let tok = self.push(Tok::Id(format!("{}Begin", kind)));
        let mut kids = vec![];
        if self.r.pct(30) {
            kids.push(self.directive(0));
        }
        if n > 0 {
            let k = if self.r.pct(50) { "Attribute" } else { "Transform" };
            kids.push(self.chain(k, n - 1));
        }
        if self.r.pct(40) {
            kids.push(self.directive(0));
        }
        self.push(Tok::Id(format!("{}End", kind)));
        EDir { kind: kind.to_string(), tok, kids: Some(kids), ..EDir::default() }
    }
    /// A count next to where a limit could be.
    fn count(&mut self) -> usize {
        match self.r.below(4) {
            0 => (*self.r.pick(&dict::get().ints)).clamp(0, 20_000) as usize + self.r.below(3),
            1 => (1usize << (5 + self.r.below(9))) + self.r.below(3),
            2 => [100, 1000, 5000, 10_000][self.r.below(4)] + self.r.below(3),
            _ => self.r.below(3000),
        }
    }
    /// Scenes with one very long sequence.
    fn long_scene(&mut self) -> Scene {
        let n = self.count();
        let place = self.r.below(4);
        self.p.long = 0;
        let mut opts = vec![];
        if place == 0 {
            let k = if self.r.pct(50) { Some(self.r.below(18)) } else { None };
            self.p.params = 1;
            for _ in 0..n {
                let k = k.unwrap_or_else(|| self.r.below(18));
                opts.push(self.option_of(k));
            }
        } else if self.r.pct(50) {
            opts.push(self.option());
        }
        let tok = self.push(Tok::id("WorldBegin"));
        let mut kids = vec![];
        if place == 1 || place == 2 {
            // many directives, in the world or in a block of it
            self.p.params = 1;
            self.left = usize::MAX;
            let inner = place == 2;
            let at = if inner { Some(self.push(Tok::id("AttributeBegin"))) } else { None };
            let same = self.r.pct(50);
            let mut ks: Vec<EDir> = vec![];
            for _ in 0..n {
                let k = if same && !ks.is_empty() {
                    let last = ks[ks.len() - 1].clone();
                    self.again(&last)
                } else {
                    self.directive(0)
                };
                ks.push(k);
            }
            if let Some(t) = at {
                self.push(Tok::id("AttributeEnd"));
                kids.push(EDir { kind: "Attribute".into(), tok: t, kids: Some(ks), ..EDir::default() });
            } else {
                kids = ks;
            }
        } else if place == 3 {
            let mut d = self.dir("Shape");
            let s = self.string();
            d.strs.push(s);
            let ty = TYPES[self.r.below(TYPES.len())];
            let one = self.r.pct(60);
            for _ in 0..n {
                let t = if one { ty } else { TYPES[self.r.below(TYPES.len())] };
                let p = self.param_of(t);
                d.params.push(p);
            }
            kids.push(d);
        }
        self.push(Tok::id("WorldEnd"));
        Scene { opts, world: EDir { kind: "World".into(), tok, kids: Some(kids), ..EDir::default() } }
    }
    pub fn scene(&mut self) -> Scene {
        if self.p.many {
            return self.long_scene();
        }
        let n = self.r.below(self.p.max_opts + 1);
        let mut opts: Vec<EDir> = vec![];
        for _ in 0..n {
            let o = if !opts.is_empty() && self.r.pct(6) {
                let last = opts[opts.len() - 1].clone();
                self.again(&last)
            } else {
                self.option()
            };
            opts.push(o);
        }
        let world = if self.p.depth > 4 && self.r.pct(40) {
            let n = match self.r.below(3) {
                0 => (*self.r.pick(&dict::get().ints)).clamp(0, 63) as usize,
                1 => 63 - self.r.below(4),
                _ => self.r.below(64),
            };
            self.chain("World", n)
        } else {
            let d = self.p.depth;
            self.block("World", d)
        };
        Scene { opts, world }
    }
}

pub fn gen_scene(r: &mut Rng, p: &Profile) -> (Vec<Tok>, Scene) {
    let mut g = Gen::new(r, p.clone());
    let s = g.scene();
    (g.toks, s)
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    Compact,
    Spaces,
    Lines,
    Crlf,
    Wild,
}

pub const LAYOUTS: [Layout; 5] = [Layout::Compact, Layout::Spaces, Layout::Lines, Layout::Crlf, Layout::Wild];

/// What a comment could begin with to be taken for something else.
const PRAGMAS: [&str; 20] = [
    "WorldEnd", "WorldBegin", "AttributeEnd", "Include \"x\"", "include <x>", "!/usr/bin/pbrt", "!", "if 0", "endif", "define X", "pragma once", "line 7", "%",
    "{", "}", "[", "]", "\"", "1", "|",
];

fn comment(r: &mut Rng, eol: &str) -> String {
    let body = match r.below(9) {
        0 => String::new(),
        7 => r.pick(&dict::get().strs).clone(),
        8 => r.pick(&PRAGMAS).to_string(),
        1 => " \"unbalanced [ ] 1.2.3 # WorldEnd".to_string(),
        2 => "#".repeat(r.below(5)),
        3 => " Shape \"x\" \\".to_string(),
        4 => format!(" {}", r.pick(&dict::get().strs)),
        _ => {
            let n = r.below(40);
            gen_chars(r, n)
        }
    };
    let body: String = body.chars().filter(|&c| c != '\n').collect();
    // a trailing CR belongs to the line end only as CR LF; leave it out to keep layouts unambiguous
    format!("#{}{}", body.trim_end_matches('\r'), eol)
}

const WS: [&str; 16] = [
    " ", " ", "  ", "\t", "\n", "\r\n", "\n\n", "\u{b}", "\u{c}", "\r", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{1680}", " \t \n",
];

pub fn sep(r: &mut Rng, l: Layout, needed: bool) -> String {
    match l {
        Layout::Compact => if needed { " ".into() } else { String::new() },
        Layout::Spaces => " ".repeat(1 + r.below(2)),
        Layout::Lines => {
            let mut s = String::new();
            if r.pct(10) {
                s += " ";
                s += &comment(r, "\n");
            } else if r.pct(30) {
                s += "\n";
                s += &" ".repeat(r.below(5));
            } else {
                s += " ";
            }
            s
        }
        Layout::Crlf => {
            let mut s = String::new();
            if r.pct(10) {
                s += " ";
                s += &comment(r, "\r\n");
            } else if r.pct(35) {
                s += "\r\n";
                s += &"\t".repeat(r.below(3));
            } else {
                s += " ";
            }
            s
        }
        Layout::Wild => {
            let mut s = String::new();
            let n = r.below(4);
            for _ in 0..n {
                if r.pct(25) {
                    let eol = *r.pick(&["\n", "\r\n"]);
                    s += &comment(r, eol);
                } else {
                    s += if r.pct(25) { r.pick(&SPACES) } else { r.pick(&WS) };
                }
            }
            if needed && s.is_empty() {
                // a comment directly after a word also separates
                if r.pct(30) {
                    s += &comment(r, "\n");
                } else {
                    s += if r.pct(25) { r.pick(&SPACES) } else { r.pick(&WS) };
                }
            }
            s
        }
    }
}

/// Text of the token sequence, and the byte offset of every token.
pub fn render(r: &mut Rng, toks: &[Tok], l: Layout) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut offs = Vec::with_capacity(toks.len());
    if l != Layout::Compact {
        s += &sep(r, l, false);
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let needed = toks[i - 1].word() && t.word();
            let x = sep(r, l, needed);
            s += &x;
        }
        offs.push(s.len());
        s += t.text();
    }
    if l != Layout::Compact {
        s += &sep(r, l, false);
        if r.pct(20) {
            // comment at end of file without a line end
            let c = comment(r, "");
            if !toks.is_empty() {
                s += "\n";
                s += &c;
            }
        }
    }
    (s, offs)
}

/// Now and then, very much layout before some token: rows and columns beyond 16 bits.
pub fn far_away(r: &mut Rng, toks: &[Tok], text: &mut String, offs: &mut [usize], per_mille: usize) {
    if toks.is_empty() || r.below(1000) >= per_mille {
        return;
    }
    let k = if r.pct(50) { 0 } else { r.below(toks.len()) };
    let m = *r.pick(&[80usize, 80, 9_000, 70_000]);
    let n = 65_500 + r.below(m);
    let pad = match r.below(8) {
        0 => "\n".repeat(n),
        1 => "\r\n".repeat(n),
        2 => " ".repeat(n),
        3 => "\t".repeat(n),
        4 => "#\n".repeat(n),
        5 => format!("#{}\n", "c".repeat(n)),
        6 => format!("{}{}", "\n".repeat(n), " ".repeat(n)),
        _ => "\u{3000}".repeat(n),
    };
    text.insert_str(offs[k], &pad);
    for o in offs[k..].iter_mut() {
        *o += pad.len();
    }
}

/// (row, column) of each byte offset (ascending): rows end at LF, CR LF counts as LF,
/// one column per character.
pub fn positions(text: &str, offs: &[usize]) -> Vec<(u64, u64)> {
    let mut out = Vec::with_capacity(offs.len());
    let (mut row, mut col) = (1u64, 1u64);
    let mut k = 0;
    let b = text.as_bytes();
    for (i, c) in text.char_indices() {
        while k < offs.len() && offs[k] == i {
            out.push((row, col));
            k += 1;
        }
        if c == '\n' {
            row += 1;
            col = 1;
        } else if c == '\r' && b.get(i + 1) == Some(&b'\n') {
        } else {
            col += 1;
        }
    }
    while k < offs.len() {
        out.push((row, col));
        k += 1;
    }
    out
}
