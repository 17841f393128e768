//! Independent reference for the scene grammar, over token sequences. Three-valued: for scenes that
//! the properties neither require nor forbid, only the content is judged if they are accepted.
use crate::scene::*;

#[derive(Debug)]
pub enum Blame {
    /// the error must name the position of this token
    Tok(usize),
    /// ... of one of these tokens
    Any(usize, usize),
    /// the text ended too early
    Eof,
    /// not judged
    Open,
}

#[derive(Debug)]
pub enum Ref {
    Accept(Scene),
    Refuse(Blame, &'static str),
    /// Not required to be accepted (an extension of the format, say), but if it is, then as this.
    Maybe(Scene),
}

enum Stop {
    R(Blame, &'static str),
}
type Res<T> = Result<T, Stop>;

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    depth: usize,
    maybe: bool,
}

fn bad<T>(i: usize, why: &'static str) -> Res<T> {
    Err(Stop::R(Blame::Tok(i), why))
}
fn eof<T>() -> Res<T> {
    Err(Stop::R(Blame::Eof, "truncated"))
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn string(&mut self) -> Res<String> {
        match self.peek() {
            None => eof(),
            Some(Tok::Str { val, .. }) => {
                self.i += 1;
                Ok(val.clone())
            }
            _ => bad(self.i, "string expected"),
        }
    }
    fn is_num(&self, k: usize) -> bool {
        matches!(self.t.get(k), Some(Tok::Num(_)))
    }
    fn elem_ok(&self, k: usize, ty: &str) -> bool {
        match (self.t.get(k), ty) {
            (Some(Tok::Num(l)), "integer") => int_value(l).is_some(),
            (Some(Tok::Num(_)), "float") => true,
            (Some(Tok::Str { .. }), "string") => true,
            (Some(Tok::Str { val, .. }), "bool") => val == "true" || val == "false",
            _ => false,
        }
    }
    fn elem(&self, k: usize, ty: &str) -> V {
        match (&self.t[k], ty) {
            (Tok::Num(l), "integer") => V::I(l.clone()),
            (Tok::Num(l), _) => V::F(l.clone()),
            (Tok::Str { val, .. }, "bool") => V::B(val == "true"),
            (Tok::Str { val, .. }, _) => V::S(val.clone()),
            _ => unreachable!(),
        }
    }
    /// after '[' at self.i: homogeneous non-empty list
    fn list(&mut self, ty: &str) -> Res<Vec<V>> {
        let open = self.i;
        self.i += 1;
        let mut v = vec![];
        while self.elem_ok(self.i, ty) {
            v.push(self.elem(self.i, ty));
            self.i += 1;
        }
        match self.peek() {
            None => eof(),
            Some(Tok::RB) if v.is_empty() => Err(Stop::R(Blame::Any(open, self.i), "empty list")),
            Some(Tok::RB) => {
                self.i += 1;
                Ok(v)
            }
            Some(_) => bad(self.i, "wrong element"),
        }
    }
    fn num_list(&mut self, n: usize) -> Res<Vec<String>> {
        match self.peek() {
            None => return eof(),
            Some(Tok::LB) => self.i += 1,
            Some(_) => return bad(self.i, "'[' expected"),
        }
        let mut v = vec![];
        for _ in 0..n {
            match self.peek() {
                None => return eof(),
                Some(Tok::Num(l)) => v.push(l.clone()),
                Some(_) => return bad(self.i, "number expected"),
            }
            self.i += 1;
        }
        match self.peek() {
            None => eof(),
            Some(Tok::RB) => {
                self.i += 1;
                Ok(v)
            }
            Some(_) => bad(self.i, "']' expected"),
        }
    }
    fn pairs(&mut self) -> Res<Vec<Vec<String>>> {
        self.groups(2)
    }
    fn groups(&mut self, m: usize) -> Res<Vec<Vec<String>>> {
        let open = self.i;
        match self.peek() {
            None => return eof(),
            Some(Tok::LB) => self.i += 1,
            Some(_) => return bad(self.i, "'[' expected"),
        }
        let s = self.i;
        while self.is_num(self.i) {
            self.i += 1;
        }
        let n = self.i - s;
        if n % m != 0 {
            return match self.peek() {
                None => Err(Stop::R(Blame::Open, "truncated")),
                Some(_) => Err(Stop::R(Blame::Any(self.i - 1, self.i), "odd number of coordinates")),
            };
        }
        match self.peek() {
            None => eof(),
            Some(Tok::RB) if n == 0 => Err(Stop::R(Blame::Any(open, self.i), "empty list")),
            Some(Tok::RB) => {
                let v = (0..n / m).map(|k| (0..m).map(|j| self.t[s + m * k + j].text().to_string()).collect()).collect();
                self.i += 1;
                Ok(v)
            }
            Some(_) => bad(self.i, "wrong element"),
        }
    }
    fn params(&mut self) -> Res<Vec<EParam>> {
        let mut out = vec![];
        while let Some(Tok::Str { val, .. }) = self.peek() {
            let tok = self.i;
            let w: Vec<&str> = val.split_whitespace().collect();
            if w.len() != 2 {
                return bad(tok, "declaration is not 'type name'");
            }
            // parameter types of the file format that this parser does not implement
            let later = ["point", "vector", "normal", "point3", "vector3", "normal3", "color"].contains(&w[0]);
            self.maybe |= later;
            if !later && !TYPES.contains(&w[0]) {
                return bad(tok, "unknown parameter type");
            }
            self.i += 1;
            let (coll, vals) = match w[0] {
                ty @ ("bool" | "integer" | "float" | "string") => {
                    let coll = match ty {
                        "bool" => 0,
                        "integer" => 1,
                        "float" => 2,
                        _ => 9,
                    };
                    let v = match self.peek() {
                        None => return eof(),
                        Some(Tok::LB) => self.list(ty)?,
                        Some(_) if self.elem_ok(self.i, ty) => {
                            self.i += 1;
                            vec![self.elem(self.i - 1, ty)]
                        }
                        Some(_) => return bad(self.i, "wrong value"),
                    };
                    (coll, v)
                }
                "point2" => (3, self.pairs()?.into_iter().map(|p| V::T("p2", p)).collect()),
                "vector2" => (4, self.pairs()?.into_iter().map(|p| V::T("v2", p)).collect()),
                "point" | "point3" => (5, self.groups(3)?.into_iter().map(|p| V::T("p3", p)).collect()),
                "vector" | "vector3" => (6, self.groups(3)?.into_iter().map(|p| V::T("v3", p)).collect()),
                "normal" | "normal3" => (7, self.groups(3)?.into_iter().map(|p| V::T("n3", p)).collect()),
                "rgb" | "color" => (8, vec![V::T("rgb", self.num_list(3)?)]),
                "xyz" => (8, vec![V::T("xyz", self.num_list(3)?)]),
                "blackbody" => (8, vec![V::T("blackbody", self.num_list(2)?)]),
                "spectrum" => match self.peek() {
                    None => return eof(),
                    Some(Tok::LB) => {
                        let open = self.i;
                        let v = self.list("float")?;
                        if v.len() % 2 == 1 {
                            return Err(Stop::R(Blame::Any(tok, open), "odd number of spectrum samples"));
                        }
                        let l = v
                            .into_iter()
                            .map(|x| match x {
                                V::F(l) => l,
                                _ => unreachable!(),
                            })
                            .collect();
                        (8, vec![V::T("spectrum", l)])
                    }
                    Some(Tok::Str { val, .. }) => {
                        self.i += 1;
                        (8, vec![V::File(val.clone())])
                    }
                    Some(_) => return bad(self.i, "spectrum expected"),
                },
                "texture" => match self.peek() {
                    None => return eof(),
                    Some(Tok::Str { val, .. }) => {
                        self.i += 1;
                        (10, vec![V::S(val.clone())])
                    }
                    Some(Tok::LB) => {
                        self.maybe = true;
                        let v = self.list("string")?;
                        if v.len() != 1 {
                            return Err(Stop::R(Blame::Open, "more than one texture name"));
                        }
                        (10, v)
                    }
                    Some(_) => return bad(self.i, "texture name expected"),
                },
                _ => unreachable!(),
            };
            out.push(EParam { coll, name: w[1].to_string(), tok, vals });
        }
        Ok(out)
    }
    fn option(&mut self) -> Res<EDir> {
        let tok = self.i;
        let id = match self.peek() {
            None => return eof(),
            Some(Tok::Id(s)) => s.clone(),
            Some(_) => return bad(tok, "directive expected"),
        };
        self.i += 1;
        let mut d = EDir { kind: id.clone(), tok, ..EDir::default() };
        if let Some((_, n)) = NUM_OPTS.iter().find(|(k, _)| *k == id) {
            while self.is_num(self.i) {
                d.nums.push(self.t[self.i].text().to_string());
                self.i += 1;
            }
            if d.nums.len() != *n {
                return match (d.nums.is_empty(), self.peek()) {
                    (true, None) => eof(),
                    (true, Some(_)) => Err(Stop::R(Blame::Any(tok, tok + 1), "operands missing")),
                    _ => bad(tok, "wrong operand count"),
                };
            }
        } else if STR_OPTS.contains(&&id[..]) {
            d.strs.push(self.string()?);
        } else if PARAM_OPTS.contains(&&id[..]) {
            d.strs.push(self.string()?);
            d.params = self.params()?;
        } else if id == "ActiveTransform" {
            match self.peek() {
                None => return eof(),
                Some(Tok::Id(s)) => {
                    d.strs.push(s.clone());
                    self.i += 1;
                }
                Some(_) => return bad(self.i, "identifier expected"),
            }
        } else if id != "Identity" {
            return bad(tok, "unknown option");
        }
        Ok(d)
    }
    fn block(&mut self, kind: &str) -> Res<EDir> {
        let tok = self.i;
        self.i += 1;
        self.depth += 1;
        if self.depth > 64 {
            self.maybe = true;
        }
        let end = format!("{}End", kind);
        let mut kids = vec![];
        loop {
            match self.peek() {
                None => return eof(),
                Some(Tok::Id(s)) if *s == end => {
                    self.i += 1;
                    self.depth -= 1;
                    return Ok(EDir { kind: kind.to_string(), tok, kids: Some(kids), ..EDir::default() });
                }
                Some(Tok::Id(_)) => kids.push(self.directive()?),
                Some(_) => return bad(self.i, "directive expected"),
            }
        }
    }
    fn directive(&mut self) -> Res<EDir> {
        let tok = self.i;
        let id = match self.peek() {
            Some(Tok::Id(s)) => s.clone(),
            _ => unreachable!(),
        };
        match &id[..] {
            "AttributeBegin" => return self.block("Attribute"),
            "TransformBegin" => return self.block("Transform"),
            "WorldBegin" => {
                self.maybe = true;
                return self.block("World");
            }
            _ => (),
        }
        self.i += 1;
        let mut d = EDir { kind: id.clone(), tok, ..EDir::default() };
        if PARAM_DIRS.contains(&&id[..]) {
            d.strs.push(self.string()?);
            d.params = self.params()?;
        } else if id == "Include" {
            d.strs.push(self.string()?);
        } else if id == "Texture" {
            for _ in 0..3 {
                d.strs.push(self.string()?);
            }
            d.params = self.params()?;
        } else {
            return bad(tok, "unknown directive");
        }
        Ok(d)
    }
    fn scene(&mut self) -> Res<Scene> {
        let mut opts = vec![];
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if s == "WorldBegin" => break,
                _ => opts.push(self.option()?),
            }
        }
        let world = self.block("World")?;
        if self.i < self.t.len() {
            // what follows the world is not specified
            self.maybe = true;
        }
        Ok(Scene { opts, world })
    }
}

pub fn reference(t: &[Tok]) -> Ref {
    let mut p = P { t, i: 0, depth: 0, maybe: false };
    match p.scene() {
        Ok(s) if p.maybe => Ref::Maybe(s),
        Ok(s) => Ref::Accept(s),
        // what comes first decides what is blamed
        Err(Stop::R(_, why)) if p.maybe => Ref::Refuse(Blame::Open, why),
        Err(Stop::R(b, why)) => Ref::Refuse(b, why),
    }
}
