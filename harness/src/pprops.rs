//! Monitors of the scene-parser properties.
use crate::compare::*;
use crate::cx::Cx;
use crate::dict;
use crate::hostile;
use crate::observe::{self, Out};
use crate::refparse::{reference, Blame, Ref};
use crate::report::clip;
use crate::rng::{hash, Rng};
use crate::scene::*;

pub fn case(cx: &mut Cx, i: u64) {
    let mut r = Rng::case(cx.seed, &cx.id, i);
    let id = cx.id.clone();
    match &id[..] {
        "C01" => c01(cx, &mut r, i),
        "C07" => {
            if r.pct(15) {
                lexical(cx, &mut r, false)
            } else {
                malformed(cx, &mut r, false)
            }
        }
        "C25" => {
            if r.pct(25) {
                lexical(cx, &mut r, true)
            } else {
                malformed(cx, &mut r, true)
            }
        }
        "C09" => c09(cx, &mut r),
        "C02" if r.pct(15) => c02_refuse(cx, &mut r),
        _ => valid(cx, &mut r),
    }
}

fn profile(id: &str, r: &mut Rng, thorough: bool) -> Profile {
    let mut p = Profile::base();
    match id {
        "C02" => {
            p.nums = Nums::Full;
            p.max_opts = 8;
            p.kids = 2;
            p.depth = 1;
            p.params = 6;
            p.budget = 12;
        }
        "C03" => {
            p.strs = Strs::Full;
            p.kids = 3;
            p.depth = 2;
            p.budget = 12;
            p.params = 5;
        }
        "C04" => {
            p.kids = 1 + r.below(6);
            p.depth = 1 + r.below(9);
            p.params = 1;
            p.long = 0;
            p.max_opts = 1;
            p.budget = 10 + r.below(150);
        }
        "C05" => {
            p.params = 1 + r.below(12);
            p.long = 12;
            p.kids = 2;
            p.depth = 1;
            p.budget = 6;
            p.max_opts = 2;
        }
        "C06" => {
            p.max_opts = 30;
            p.kids = 1;
            p.depth = 1;
            p.params = 4;
            p.budget = 3;
            p.long = 2;
        }
        "C08" => {
            p.strs = if r.pct(60) { Strs::Full } else { Strs::Simple };
            p.nums = if r.pct(30) { Nums::Full } else { Nums::Simple };
            p.budget = 25;
        }
        _ => (),
    }
    if r.below(1000) < 8 && ["C03", "C05", "C06", "C08"].contains(&id) {
        p.huge = true;
    }
    if r.below(1000) < 3 && ["C03", "C04", "C05", "C06", "C08"].contains(&id) {
        p.many = true;
    }
    if r.pct(6) {
        // everything at once
        p.nums = Nums::Full;
        p.strs = Strs::Full;
        p.max_opts = 20;
        p.kids = 5;
        p.depth = 4;
        p.params = 6;
        p.budget = 60;
    }
    if r.pct(if thorough { 3 } else { 1 }) {
        p.budget *= 12;
        p.kids *= 5;
        p.long = 20;
        p.max_opts *= 5;
    }
    p
}

fn valid(cx: &mut Cx, r: &mut Rng) {
    let id = cx.id.clone();
    let p = profile(&id, r, cx.thorough);
    let (toks, want) = gen_scene(r, &p);
    let l = if id == "C08" && r.pct(60) { Layout::Wild } else { *r.pick(&LAYOUTS) };
    let (mut text, mut offs) = render(r, &toks, l);
    far_away(r, &toks, &mut text, &mut offs, if id == "C08" { 12 } else { 2 });
    let pos = positions(&text, &offs);
    let classes: &[Class] = match &id[..] {
        "C02" => &[Class::Number],
        "C03" => &[Class::Text],
        "C04" => &[Class::World],
        "C05" => &[Class::Param, Class::Number, Class::Text],
        "C06" => &[Class::Option, Class::Number, Class::Text, Class::Param],
        "C08" => &[Class::Position],
        _ => &[],
    };
    let key = hash(text.as_bytes());
    cx.rep.count(&format!("layout {:?}", l));
    match observe::parse(&text) {
        Out::Ok(got) => {
            let mut c = Cmp::new(&pos);
            c.scene(&want, &got);
            let s = &c.seen;
            let relevant = match &id[..] {
                "C02" => s.numbers,
                "C03" => s.strings,
                "C04" => s.dirs + s.blocks - 1,
                "C05" => s.params,
                "C06" => s.opts,
                _ => s.positions - 1,
            };
            for (k, n) in [
                ("directives compared", s.dirs),
                ("blocks compared", s.blocks),
                ("options compared", s.opts),
                ("parameters compared", s.params),
                ("numbers compared", s.numbers),
                ("strings compared", s.strings),
                ("positions compared", s.positions),
            ] {
                cx.rep.add(k, n);
            }
            cx.rep.eval(key, relevant > 0);
            let what: Vec<String> = c.diffs.iter().filter(|d| classes.contains(&d.class)).take(4).map(|d| d.what.clone()).collect();
            if !what.is_empty() {
                cx.violate(what.join("; "), text);
                return;
            }
        }
        Out::Err(e) => {
            cx.rep.eval(key, true);
            cx.violate(format!("a well-formed scene was refused: {}", e), text);
            return;
        }
        Out::Panic(e) => {
            cx.rep.eval(key, true);
            cx.violate(format!("parsing a well-formed scene panicked: {}", e), text);
            return;
        }
    }
    cx.rep.sample(|| clip(&text, 300));
}

/// Integer-typed parameters take only integer literals.
fn c02_refuse(cx: &mut Cx, r: &mut Rng) {
    let mut l;
    loop {
        l = gen_float(r, Nums::Full);
        // only literals that certainly are not integer literals
        if l.contains('.') || l.contains("e-") && !l.trim_start_matches(|c| c == '-' || c == '+' || c == '0').starts_with('e') {
            if let Some(k) = l.find('e') {
                // "e-0" is not negative
                if !l.contains('.') && l[k + 2..].trim_start_matches('0').is_empty() {
                    continue;
                }
            }
            break;
        }
    }
    let mut ty = "integer";
    if r.pct(35) {
        let g = if r.pct(50) { gen_int(r, Nums::Full) } else { gen_float(r, Nums::Full) };
        l = no_number(r, &g);
        ty = *r.pick(&["integer", "float"]);
    }
    let good = gen_int(r, Nums::Simple);
    let v = match r.below(4) {
        0 => l.clone(),
        1 => format!("[{}]", l),
        2 => format!("[{} {}]", good, l),
        _ => format!("[{} {} {}]", good, l, good),
    };
    let text = format!("WorldBegin\nShape \"s\" \"{} n\" {}\nWorldEnd", ty, v);
    cx.rep.eval(hash(text.as_bytes()), true);
    cx.rep.count("non-integer literals and non-numbers offered to integer (or float) parameters");
    match observe::parse(&text) {
        Out::Err(_) => (),
        o => cx.violate(format!("{} parameter with literal {} was not refused: {:?}", ty, l, o), text),
    }
}

// ------------------------------------------------------------------ C07, C25

fn small(r: &mut Rng) -> (Vec<Tok>, Scene) {
    let mut p = Profile::base();
    p.budget = 2 + r.below(14);
    p.kids = 3;
    p.max_opts = 3;
    p.params = 3;
    p.long = 0;
    if r.pct(20) {
        p.strs = Strs::Full;
    }
    if r.pct(20) {
        p.nums = Nums::Full;
    }
    if r.pct(6) {
        p.depth = 9;
    }
    if r.pct(12) {
        // long lists and many parameters: defects far from the start
        p.long = 40;
        p.params = 6;
    }
    let (mut toks, scene) = gen_scene(r, &p);
    if r.pct(1) {
        // hundreds of blocks, one after the other; the scene as such no longer applies
        let at = toks.iter().position(|t| *t == Tok::id("WorldBegin")).map_or(0, |k| k + 1);
        let mut many = vec![];
        for _ in 0..100 + r.below(400) {
            let kind = *r.pick(&["Attribute", "Transform"]);
            many.push(Tok::Id(format!("{}Begin", kind)));
            if r.pct(30) {
                many.push(Tok::id("Shape"));
                many.push(str_tok(r, Strs::Simple, "sphere"));
            }
            many.push(Tok::Id(format!("{}End", kind)));
        }
        toks.splice(at..at, many);
    }
    (toks, scene)
}

fn mentions(msg: &str, p: (u64, u64)) -> bool {
    msg.contains(&format!("({}, {})", p.0, p.1))
}

fn malformed(cx: &mut Cx, r: &mut Rng, place: bool) {
    let (mut toks, _) = small(r);
    let name = if r.pct(if place { 0 } else if toks.len() > 400 { 30 } else { 10 }) { "unedited" } else { hostile::edit(r, &mut toks) };
    let l = *r.pick(&LAYOUTS);
    let (mut text, mut offs) = render(r, &toks, l);
    far_away(r, &toks, &mut text, &mut offs, if place { 6 } else { 2 });
    let pos = positions(&text, &offs);
    let out = observe::parse(&text);
    let key = hash(text.as_bytes());
    match (reference(&toks), out) {
        (Ref::Maybe(want), out) => {
            let ok = matches!(out, Out::Ok(_));
            cx.rep.eval(key, ok && !place);
            cx.rep.count(if ok { "not required, accepted" } else { "not required, refused" });
            if place {
                return;
            }
            match out {
                Out::Ok(got) => {
                    let mut c = Cmp::new(&pos);
                    c.scene(&want, &got);
                    let d: Vec<String> = c.diffs.iter().filter(|d| d.class != Class::Position).take(4).map(|d| d.what.clone()).collect();
                    if !d.is_empty() {
                        cx.violate(format!("neither refused nor accepted with its content: {}", d.join("; ")), text);
                    }
                }
                Out::Err(_) => (),
                Out::Panic(e) => cx.violate(format!("the parser panicked: {}", e), text),
            }
        }
        (Ref::Accept(want), out) => {
            cx.rep.eval(key, !place);
            cx.rep.count(&format!("accepted: {}", name));
            if place {
                return;
            }
            match out {
                Out::Ok(got) => {
                    let mut c = Cmp::new(&pos);
                    c.scene(&want, &got);
                    let d: Vec<String> = c.diffs.iter().filter(|d| d.class != Class::Position).take(4).map(|d| d.what.clone()).collect();
                    if !d.is_empty() {
                        cx.violate(format!("accepted, but with another content: {}", d.join("; ")), text);
                    }
                }
                Out::Err(e) => cx.violate(format!("a well-formed scene was refused: {}", e), text),
                Out::Panic(e) => cx.violate(format!("parsing a well-formed scene panicked: {}", e), text),
            }
        }
        (Ref::Refuse(blame, why), out) => {
            cx.rep.eval(key, true);
            cx.rep.count(&format!("{}: {}", if place { "blamed" } else { "refused" }, why));
            let msg = match out {
                Out::Err(m) => m,
                Out::Ok(got) => {
                    if !place {
                        let n = got.world.kids.map(|k| k.len()).unwrap_or(0);
                        cx.violate(format!("malformed scene ({}, {}) accepted with {} options and {} world entries", name, why, got.opts.len(), n), text);
                    }
                    return;
                }
                Out::Panic(e) => {
                    cx.violate(format!("malformed scene ({}) made the parser panic: {}", why, e), text);
                    return;
                }
            };
            if !place {
                cx.rep.sample(|| format!("{} / {}: {}", name, why, clip(&text, 200)));
                return;
            }
            cx.rep.sample(|| format!("{} / {}: {} -> {}", name, why, clip(&text, 160), clip(&msg, 160)));
            let ok = match blame {
                Blame::Tok(k) => mentions(&msg, pos[k]),
                Blame::Any(a, b) => mentions(&msg, pos[a]) || mentions(&msg, pos[b]),
                Blame::Eof => msg.contains("EOF"),
                Blame::Open => true,
            };
            if let Blame::Eof = blame {
                cx.rep.count("truncations reported");
            }
            let want = match blame {
                Blame::Tok(k) => format!("{:?}", pos[k]),
                Blame::Any(a, b) => format!("{:?} or {:?}", pos[a], pos[b]),
                _ => "EOF".into(),
            };
            if !ok {
                cx.violate(format!("{} ({}): error does not name {}: {}", why, name, want, msg), text);
                return;
            }
        }
    }
}

const STRAY: [char; 34] = [
    '\u{feff}', '\u{2060}', '\u{200d}',
    '~', '!', '@', '$', '%', '^', '&', '*', '(', ')', '{', '}', ';', ':', '\'', ',', '<', '>', '/', '?', '|', '\\', '_', '=', '`', '€', '😀', '\u{0}', '\u{7f}',
    '\u{200b}', '«',
];

/// A character that begins no token.
fn stray(r: &mut Rng) -> char {
    let c = match r.below(4) {
        0 => *r.pick(&dict::get().chars),
        1 => char::from_u32(r.below(0x3000) as u32).unwrap_or('~'),
        _ => *r.pick(&STRAY),
    };
    if c.is_alphanumeric() || c.is_numeric() || c.is_whitespace() || "\"[]#+-.".contains(c) {
        *r.pick(&STRAY)
    } else {
        c
    }
}

/// A word that is a number elsewhere, but not in this format.
pub fn no_number(r: &mut Rng, l: &str) -> String {
    const ELSEWHERE: [&str; 44] = [
        "1E5", "2.5E-3", "1_000", "0x1F", "0b101", "0o17", "1f", "1.0f", "1.5d0", "1d5", "1,5", "1'000", "inf", "Infinity", "-inf", "nan", "NaN", "1e", "1e+", "1e-", "--1", "+-1",
        "-+1", "++1", "1..2", "..5", "½", "1²", "٣", "１２", "−1", "∞", "1/2", "50%", "1e5e2", "1e--5", "+", "-", ".", "-.", "e5", ".e5", "-e5", "1i",
    ];
    if r.pct(40) {
        return r.pick(&ELSEWHERE).to_string();
    }
    // something put into the literal that is neither a digit, a sign, a point nor 'e'
    let c = match r.below(4) {
        0 => stray(r),
        1 => *r.pick(&dict::get().chars),
        _ => *r.pick(&['E', 'f', 'F', 'd', 'D', 'x', 'X', '_', 'p', 'u', 'i', 'L', 'l', 'n', 'a', 'é', ',', '\'', 'o', 'b', '٣', '²']),
    };
    let c = if c.is_ascii_digit() || c.is_whitespace() || "\"[]#+-.e".contains(c) { '_' } else { c };
    let at = r.below(l.len() + 1);
    format!("{}{}{}", &l[..at], c, &l[at..])
}

/// One lexical defect in an otherwise well-formed scene.
fn lexical(cx: &mut Cx, r: &mut Rng, place: bool) {
    let (mut toks, _) = small(r);
    let l = *r.pick(&LAYOUTS);
    let kind = r.below(8);
    let mut k = r.below(toks.len());
    let (text, want, what): (String, Vec<(u64, u64)>, &str) = match kind {
        0..=2 => {
            // an Id token renders verbatim; keep neighbours apart by rendering as a word
            let c = stray(r);
            // alone, or the way other formats begin a comment or a directive, which then takes the line
            let w = match r.below(6) {
                0 => format!("{}{}", c, stray(r)),
                1 => format!("{}{} it {}\n", c, c, r.below(9)),
                2 => format!("{}\n", r.pick(&["//", "// x", "/* x */", ";", "; x", "%", "% x", "<!-- x -->", "$x", "@x", "!", "\\", "\\ x", "'x'", "`x`", "{}", "()", "<>"])),
                _ => c.to_string(),
            };
            if r.pct(12) {
                // glued to the very first token, like a byte order mark
                k = 0;
                let t = toks[0].text().to_string();
                toks[0] = Tok::Id(format!("{}{}", if r.pct(50) { '\u{feff}' } else { c }, t));
            } else {
                toks.insert(k, Tok::Id(w));
            }
            let (mut text, mut offs) = render(r, &toks, l);
            far_away(r, &toks, &mut text, &mut offs, 6);
            let pos = positions(&text, &offs);
            (text, vec![pos[k]], "stray character")
        }
        3 => {
            let n = toks.iter().enumerate().filter(|(_, t)| matches!(t, Tok::Num(_))).map(|(i, _)| i).collect::<Vec<_>>();
            if n.is_empty() {
                cx.rep.eval(0, false);
                return;
            }
            let k = *r.pick(&n);
            let a = r.below(1000);
            let head = format!("{}.{}", a, r.below(10));
            toks[k] = Tok::Num(format!("{}.{}", head, r.below(10)));
            let (text, offs) = render(r, &toks, l);
            let pos = positions(&text, &offs);
            let p = pos[k];
            (text, vec![p, (p.0, p.1 + head.len() as u64)], "number with two points")
        }
        6 | 7 => {
            let n = toks.iter().enumerate().filter(|(_, t)| matches!(t, Tok::Num(_))).map(|(i, _)| i).collect::<Vec<_>>();
            if n.is_empty() {
                cx.rep.eval(0, false);
                return;
            }
            let k = *r.pick(&n);
            let w = no_number(r, toks[k].text());
            toks[k] = Tok::Num(w);
            let (text, _) = render(r, &toks, l);
            (text, vec![], "no number of this format")
        }
        4 => {
            // unterminated string: cut inside the last string
            let s = toks.iter().enumerate().filter(|(_, t)| matches!(t, Tok::Str { .. })).map(|(i, _)| i).collect::<Vec<_>>();
            if s.is_empty() {
                cx.rep.eval(0, false);
                return;
            }
            let k = *r.pick(&s);
            toks.truncate(k + 1);
            let (text, offs) = render(r, &toks, Layout::Spaces);
            // cut before the closing quote
            let raw = toks[k].text();
            let end = offs[k] + raw.len() - 1;
            (text[..end].to_string(), vec![], "unterminated string")
        }
        _ => {
            // the text is cut anywhere before the end of WorldEnd
            let (text, offs) = render(r, &toks, l);
            let last = offs[offs.len() - 1] + "WorldEnd".len();
            let mut cut = r.below(last);
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            (text[..cut].to_string(), vec![], "cut text")
        }
    };
    let key = hash(text.as_bytes());
    cx.rep.eval(key, !place || !want.is_empty());
    cx.rep.count(&format!("{}: {}", if place { "blamed" } else { "refused" }, what));
    match observe::parse(&text) {
        Out::Err(m) => {
            cx.rep.sample(|| format!("{}: {} -> {}", what, clip(&text, 160), clip(&m, 100)));
            if place && !want.is_empty() && !want.iter().any(|p| mentions(&m, *p)) {
                cx.violate(format!("{}: error names none of {:?}: {}", what, want, m), text);
            }
        }
        Out::Ok(_) => {
            if !place {
                cx.violate(format!("scene with a defect ({}) accepted", what), text)
            }
        }
        Out::Panic(e) => cx.violate(format!("scene with a defect ({}) made the parser panic: {}", what, e), text),
    }
}

// ------------------------------------------------------------------ C09

fn c09(cx: &mut Cx, r: &mut Rng) {
    let (mut toks, _) = small(r);
    let name = if r.pct(60) { "valid" } else { hostile::edit(r, &mut toks) };
    let l1 = if r.pct(50) { Layout::Compact } else { Layout::Spaces };
    let l2 = if r.pct(75) { Layout::Wild } else { *r.pick(&LAYOUTS) };
    let (a, _) = render(r, &toks, l1);
    let (mut b, mut offs) = render(r, &toks, l2);
    far_away(r, &toks, &mut b, &mut offs, 8);
    if r.pct(4) {
        // very much layout
        let n = (*r.pick(&dict::get().ints)).clamp(0, 3000) as usize + r.below(500);
        b = format!("{}{}", r.pick(&["\n", "# c\n", " ", "\t\n", "#\r\n", "\r\n"]).repeat(n), b);
    }
    let (x, y) = (observe::parse(&a), observe::parse(&b));
    let both = format!("{}\n---- the same tokens in another layout ----\n{}", a, b);
    cx.rep.eval(hash(b.as_bytes()), a != b && toks.len() > 3);
    match (x, y) {
        (Out::Ok(mut s), Out::Ok(mut t)) => {
            cx.rep.count("pairs both accepted");
            for o in [&mut s, &mut t] {
                o.opts.iter_mut().for_each(strip);
                strip(&mut o.world);
            }
            // NaN cannot occur; compare through Debug to be exact about zeros too
            if format!("{:?}", s) != format!("{:?}", t) {
                cx.violate(format!("layout changed the meaning of a scene ({})", name), both);
            } else {
                cx.rep.sample(|| both);
            }
        }
        (Out::Err(_), Out::Err(_)) => cx.rep.count("pairs both refused"),
        (x, y) => {
            let short = |o: &Out| match o {
                Out::Ok(_) => "accepted".to_string(),
                Out::Err(e) => format!("refused ({})", e),
                Out::Panic(e) => format!("panic ({})", e),
            };
            cx.violate(format!("layout changed the verdict: {} versus {}", short(&x), short(&y)), both)
        }
    }
}

// ------------------------------------------------------------------ C01

fn c01(cx: &mut Cx, r: &mut Rng, i: u64) {
    let big = if cx.thorough { 200_000 } else { 40_000 };
    let f = (i as usize) % hostile::FAMILIES;
    let (name, text) = hostile::family(r, f, big);
    let v = observe::verdict(&text);
    cx.digests.push(v as u64);
    cx.rep.eval(hash(text.as_bytes()), text.len() > 3);
    cx.rep.count(&format!("{}: {}", name, ["refused", "accepted", "PANIC"][v as usize]));
    cx.rep.add("characters parsed", text.len() as u64);
    if v == 2 {
        let m = crate::cx::LAST_PANIC.with(|p| p.borrow().clone());
        cx.violate(format!("{}: the parser panicked: {}", name, m), text);
    } else {
        cx.rep.sample(|| format!("{}: {}", name, clip(&text, 200)));
    }
}
