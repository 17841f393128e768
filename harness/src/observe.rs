//! Observation of the real parser: turns its result into a neutral tree.
use pbrtrs::parser::verif_hooks as h;
use pbrtrs::parser::{Directive, Param, ParamSet, Parser, ParserError, PreDirective};
use pbrtrs::verif_core::{Float, Spectrum};

pub type Pos = (u64, u64);

#[derive(Clone, Debug, PartialEq)]
pub enum OV {
    B(bool),
    I(i128),
    F(f64),
    S(String),
    T(&'static str, Vec<f64>),
    File(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct OParam {
    pub name: String,
    pub pos: Pos,
    pub vals: Vec<OV>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ODir {
    pub kind: String,
    pub pos: Pos,
    pub strs: Vec<String>,
    pub nums: Vec<f64>,
    pub colls: Vec<Vec<OParam>>,
    pub kids: Option<Vec<ODir>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OScene {
    pub opts: Vec<ODir>,
    pub world: ODir,
}

fn f(x: &Float) -> f64 {
    *x as f64
}

thread_local! {
    /// whether to look at copies of the parameters instead of the parameters
    static COPIES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn param<T: Clone>(p: &Param<T>, g: impl Fn(&T) -> OV) -> OParam {
    let copy;
    let p = if COPIES.with(|c| c.get()) {
        copy = p.clone();
        &copy
    } else {
        p
    };
    let (name, pos, vals) = h::param(p);
    OParam { name: name.to_string(), pos, vals: vals.iter().map(g).collect() }
}

fn coll<T: Clone>(v: &[Param<T>], g: impl Fn(&T) -> OV + Copy) -> Vec<OParam> {
    v.iter().map(|p| param(p, g)).collect()
}

fn params(p: &ParamSet) -> Vec<Vec<OParam>> {
    vec![
        coll(&p.bools[..], |b| OV::B(*b)),
        coll(&p.ints[..], |i| OV::I(*i as i128)),
        coll(&p.floats[..], |x| OV::F(f(x))),
        coll(&p.point2fs[..], |x| OV::T("p2", vec![f(&x.x), f(&x.y)])),
        coll(&p.vector2fs[..], |x| OV::T("v2", vec![f(&x.x), f(&x.y)])),
        coll(&p.point3fs[..], |x| OV::T("p3", vec![f(&x.x), f(&x.y), f(&x.z)])),
        coll(&p.vector3fs[..], |x| OV::T("v3", vec![f(&x.x), f(&x.y), f(&x.z)])),
        coll(&p.normal3fs[..], |x| OV::T("n3", vec![f(&x.x), f(&x.y), f(&x.z)])),
        coll(&p.spectra[..], |s| match s {
            Spectrum::Rgb(a, b, c) => OV::T("rgb", vec![f(a), f(b), f(c)]),
            Spectrum::Xyz(a, b, c) => OV::T("xyz", vec![f(a), f(b), f(c)]),
            Spectrum::Spectrum(v) => OV::T("spectrum", v.iter().flat_map(|(a, b)| vec![f(a), f(b)]).collect()),
            Spectrum::File(p) => OV::File(p.to_string_lossy().into_owned()),
            Spectrum::Blackbody(a, b) => OV::T("blackbody", vec![f(a), f(b)]),
        }),
        coll(&p.strings[..], |s| OV::S(s.to_string())),
        coll(&p.textures[..], |s| OV::S(s.to_string())),
    ]
}

fn dir(kind: &str, d: &pbrtrs::parser::DirectiveStruct) -> ODir {
    let (ty, pos, ps) = h::directive(d);
    ODir { kind: kind.into(), pos, strs: vec![ty.to_string()], colls: params(ps), ..ODir::default() }
}

fn block(kind: &str, b: &pbrtrs::parser::BlockStruct) -> ODir {
    let (pos, kids) = h::block(b);
    ODir { kind: kind.into(), pos, kids: Some(kids.iter().map(directive).collect()), ..ODir::default() }
}

fn directive(d: &Directive) -> ODir {
    match d {
        Directive::Material(d) => dir("Material", d),
        Directive::Shape(d) => dir("Shape", d),
        Directive::LightSource(d) => dir("LightSource", d),
        Directive::AreaLightSource(d) => dir("AreaLightSource", d),
        Directive::Attribute(b) => block("Attribute", b),
        Directive::Transform(b) => block("Transform", b),
        Directive::World(b) => block("World", b),
        Directive::Include(p, path) => ODir {
            kind: "Include".into(),
            pos: h::pos(p),
            strs: vec![path.to_string_lossy().into_owned()],
            ..ODir::default()
        },
        Directive::Texture(t) => {
            let (name, ty, class, pos, ps) = h::texture(t);
            ODir {
                kind: "Texture".into(),
                pos,
                strs: vec![name.to_string(), ty.to_string(), class.to_string()],
                colls: params(ps),
                ..ODir::default()
            }
        }
    }
}

fn nums(kind: &str, p: &pbrtrs::parser::Pos, n: Vec<f64>) -> ODir {
    ODir { kind: kind.into(), pos: h::pos(p), nums: n, ..ODir::default() }
}

fn text(kind: &str, p: &pbrtrs::parser::Pos, s: &str) -> ODir {
    ODir { kind: kind.into(), pos: h::pos(p), strs: vec![s.to_string()], ..ODir::default() }
}

fn m3(m: &pbrtrs::verif_core::Matrix3f) -> Vec<f64> {
    m.mat.iter().flat_map(|r| r.iter().map(f).collect::<Vec<_>>()).collect()
}

fn v3(v: &pbrtrs::verif_core::Vector3f) -> Vec<f64> {
    vec![f(&v.x), f(&v.y), f(&v.z)]
}

fn option(d: &PreDirective) -> ODir {
    match d {
        PreDirective::Identity(p) => nums("Identity", p, vec![]),
        PreDirective::Translate(p, v) => nums("Translate", p, v3(v)),
        PreDirective::Scale(p, v) => nums("Scale", p, v3(v)),
        PreDirective::Rotate(p, a, v) => {
            let mut n = vec![f(a)];
            n.extend(v3(v));
            nums("Rotate", p, n)
        }
        PreDirective::LookAt(p, m) => nums("LookAt", p, m3(m)),
        PreDirective::CoordinateSystem(p, s) => text("CoordinateSystem", p, s),
        PreDirective::CoordSysTransform(p, s) => text("CoordSysTransform", p, s),
        PreDirective::Transform(p, m) => nums("Transform", p, m3(m)),
        PreDirective::ConcatTransform(p, m) => nums("ConcatTransform", p, m3(m)),
        PreDirective::ActiveTransform(p, s) => text("ActiveTransform", p, s),
        PreDirective::TransformTimes(p, a, b) => nums("TransformTimes", p, vec![f(a), f(b)]),
        PreDirective::Camera(d) => dir("Camera", d),
        PreDirective::Sampler(d) => dir("Sampler", d),
        PreDirective::Film(d) => dir("Film", d),
        PreDirective::Filter(d) => dir("Filter", d),
        PreDirective::Integrator(d) => dir("Integrator", d),
        PreDirective::Accelerator(d) => dir("Accelerator", d),
        PreDirective::Include(p, path) => text("Include", p, &path.to_string_lossy()),
    }
}

/// Outcome of one call of the real parser.
#[derive(Clone, Debug)]
pub enum Out {
    Ok(OScene),
    Err(String),
    Panic(String),
}

pub fn scene(s: &(Vec<PreDirective>, Directive)) -> OScene {
    OScene { opts: s.0.iter().map(option).collect(), world: directive(&s.1) }
}

/// The scene with its parameters seen through clones of them.
pub fn scene_of_copies(s: &(Vec<PreDirective>, Directive)) -> OScene {
    COPIES.with(|c| c.set(true));
    let o = scene(s);
    COPIES.with(|c| c.set(false));
    o
}

pub fn parse(text: &str) -> Out {
    let r = std::panic::catch_unwind(|| match Parser::parse(text) {
        Ok(s) => Out::Ok(scene(&s)),
        Err(e) => Out::Err(err_text(&e)),
    });
    match r {
        Ok(o) => o,
        Err(e) => Out::Panic(panic_text(e)),
    }
}

/// Parse without building the neutral tree: 1 accepted, 0 refused, 2 panicked.
pub fn verdict(text: &str) -> u8 {
    match std::panic::catch_unwind(|| Parser::parse(text).is_ok()) {
        Ok(true) => 1,
        Ok(false) => 0,
        Err(_) => 2,
    }
}

pub fn err_text(e: &ParserError) -> String {
    format!("{}", e)
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn strings_of<'a>(d: &'a ODir, f: &mut dyn FnMut(&'a str)) {
    f(&d.kind);
    d.strs.iter().for_each(|s| f(s));
    for p in d.colls.iter().flatten() {
        f(&p.name);
        for v in &p.vals {
            if let OV::S(s) | OV::File(s) = v {
                f(s);
            }
        }
    }
    for k in d.kids.iter().flatten() {
        strings_of(k, f);
    }
}

/// Whether every string of an outcome holds valid text: its bytes looked at, whatever its type promises.
pub fn valid_text(o: &Out) -> Option<Vec<u8>> {
    let mut bad = None;
    let mut f = |s: &str| {
        if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
            bad = Some(s.as_bytes().to_vec());
        }
    };
    match o {
        Out::Ok(s) => {
            s.opts.iter().for_each(|d| strings_of(d, &mut f));
            strings_of(&s.world, &mut f);
        }
        Out::Err(e) | Out::Panic(e) => f(e),
    }
    bad
}
