//! Oracle: compares an observed scene with the expected one. Every mismatch has a class, so that
//! each property reports only what it is about.
use crate::observe::*;
use crate::scene::*;
use pbrtrs::verif_core::Float;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// number of, kind of, nesting of, strings of world directives
    World,
    /// collections, names, number of values
    Param,
    /// kind/number/strings of options
    Option,
    Number,
    Text,
    Position,
}

pub struct Diff {
    pub class: Class,
    pub what: String,
}

#[derive(Default)]
pub struct Seen {
    pub dirs: u64,
    pub blocks: u64,
    pub opts: u64,
    pub params: u64,
    pub numbers: u64,
    pub strings: u64,
    pub positions: u64,
}

pub struct Cmp<'a> {
    pub pos: &'a [Pos],
    pub diffs: Vec<Diff>,
    pub seen: Seen,
}

/// The value a literal denotes in the configured precision (correctly rounded).
pub fn lit(l: &str) -> Float {
    l.parse::<Float>().unwrap_or(Float::NAN)
}

pub fn same_num(l: &str, got: f64) -> bool {
    let want = lit(l);
    let got = got as Float;
    if got.is_nan() || want.is_nan() {
        return false;
    }
    want == got
}

impl<'a> Cmp<'a> {
    pub fn new(pos: &'a [Pos]) -> Cmp<'a> {
        Cmp { pos, diffs: vec![], seen: Seen::default() }
    }
    fn diff(&mut self, class: Class, what: String) {
        if self.diffs.len() < 50 {
            self.diffs.push(Diff { class, what });
        }
    }
    fn at(&mut self, tok: usize, got: Pos, what: &str) {
        self.seen.positions += 1;
        if self.pos[tok] != got {
            let want = self.pos[tok];
            self.diff(Class::Position, format!("{}: position {:?}, should be {:?}", what, got, want));
        }
    }
    fn num(&mut self, l: &str, got: f64, wh: &str) {
        self.seen.numbers += 1;
        if !same_num(l, got) {
            self.diff(Class::Number, format!("{}: literal {} delivered as {:e}, should be {:e}", wh, l, got, lit(l)));
        }
    }
    fn text(&mut self, want: &str, got: &str, wh: &str) {
        self.seen.strings += 1;
        if want != got {
            self.diff(Class::Text, format!("{}: string {:?} delivered as {:?}", wh, want, got));
        }
    }
    fn val(&mut self, e: &V, o: &OV, wh: &str) {
        match (e, o) {
            (V::B(a), OV::B(b)) => {
                if a != b {
                    self.diff(Class::Param, format!("{}: bool {} delivered as {}", wh, a, b));
                }
            }
            (V::I(l), OV::I(v)) => {
                self.seen.numbers += 1;
                let want = int_value(l);
                if want.map(|x| x as i128) != Some(*v) {
                    self.diff(Class::Number, format!("{}: integer literal {} delivered as {}", wh, l, v));
                }
            }
            (V::F(l), OV::F(v)) => self.num(l, *v, wh),
            (V::S(a), OV::S(b)) => self.text(a, b, wh),
            (V::File(a), OV::File(b)) => self.text(a, b, wh),
            (V::T(t, ls), OV::T(u, vs)) if t == u && ls.len() == vs.len() => {
                for (l, v) in ls.iter().zip(vs) {
                    self.num(l, *v, wh);
                }
            }
            (e, o) => self.diff(Class::Param, format!("{}: value {:?} delivered as {:?}", wh, e, o)),
        }
    }
    fn params(&mut self, e: &[EParam], o: &[Vec<OParam>], wh: &str) {
        for c in 0..COLLS.len() {
            let es: Vec<&EParam> = e.iter().filter(|p| p.coll == c).collect();
            let none = vec![];
            let os = o.get(c).unwrap_or(&none);
            if es.len() != os.len() {
                self.diff(Class::Param, format!("{}: {} parameters in {}, should be {}", wh, os.len(), COLLS[c], es.len()));
                continue;
            }
            for (k, (e, o)) in es.iter().zip(os).enumerate() {
                self.seen.params += 1;
                let w = format!("{} {}[{}] {:?}", wh, COLLS[c], k, e.name);
                self.seen.strings += 1;
                if e.name != o.name {
                    self.diff(Class::Param, format!("{}: name delivered as {:?}", w, o.name));
                    self.diff(Class::Text, format!("{}: name delivered as {:?}", w, o.name));
                }
                self.at(e.tok, o.pos, &w);
                if e.vals.len() != o.vals.len() {
                    self.diff(Class::Param, format!("{}: {} values, should be {}", w, o.vals.len(), e.vals.len()));
                    continue;
                }
                for (a, b) in e.vals.iter().zip(&o.vals) {
                    self.val(a, b, &w);
                }
            }
        }
    }
    fn dir(&mut self, e: &EDir, o: &ODir, wh: &str, class: Class) {
        let wh = format!("{}/{}", wh, e.kind);
        if e.kind != o.kind {
            self.diff(class, format!("{}: is a {}", wh, o.kind));
            return;
        }
        if class == Class::Option {
            self.seen.opts += 1;
        } else if e.kids.is_some() {
            self.seen.blocks += 1;
        } else {
            self.seen.dirs += 1;
        }
        self.at(e.tok, o.pos, &wh);
        if e.strs.len() != o.strs.len() || e.nums.len() != o.nums.len() || e.kids.is_some() != o.kids.is_some() {
            self.diff(class, format!("{}: operands {:?} {:?} delivered as {:?} {:?}", wh, e.strs, e.nums, o.strs, o.nums));
            return;
        }
        for (a, b) in e.strs.iter().zip(&o.strs) {
            self.seen.strings += 1;
            if a != b {
                self.diff(class, format!("{}: string {:?} delivered as {:?}", wh, a, b));
                self.diff(Class::Text, format!("{}: string {:?} delivered as {:?}", wh, a, b));
            }
        }
        for (a, b) in e.nums.iter().zip(&o.nums) {
            self.num(a, *b, &wh);
        }
        self.params(&e.params, &o.colls, &wh);
        if let (Some(a), Some(b)) = (&e.kids, &o.kids) {
            self.dirs(a, b, &wh, class);
        }
    }
    fn dirs(&mut self, a: &[EDir], b: &[ODir], wh: &str, class: Class) {
        if a.len() != b.len() {
            self.diff(
                class,
                format!(
                    "{}: has {} entries {:?}, should have {} {:?}",
                    wh,
                    b.len(),
                    b.iter().map(|d| &d.kind[..]).take(20).collect::<Vec<_>>(),
                    a.len(),
                    a.iter().map(|d| &d.kind[..]).take(20).collect::<Vec<_>>()
                ),
            );
        }
        for (i, (e, o)) in a.iter().zip(b).enumerate() {
            self.dir(e, o, &format!("{}[{}]", wh, i), class);
        }
    }
    pub fn scene(&mut self, e: &Scene, o: &OScene) {
        self.dirs(&e.opts, &o.opts, "options", Class::Option);
        self.dir(&e.world, &o.world, "", Class::World);
    }
}

/// Same scene, positions aside.
pub fn strip(d: &mut ODir) {
    d.pos = (0, 0);
    for c in d.colls.iter_mut() {
        for p in c.iter_mut() {
            p.pos = (0, 0);
        }
    }
    if let Some(k) = &mut d.kids {
        for x in k.iter_mut() {
            strip(x);
        }
    }
}
