//! Runtime monitors for pbrtrs. `monitor run <ID> ...` executes a range of cases of one property's
//! workload against the real crate and judges every observation; see /verif/DESIGN.md.
mod alloc;
#[cfg(feature = "scene")]
mod compare;
mod cx;
mod dict;
#[cfg(any(feature = "matrix", feature = "vecs", feature = "boxes", feature = "rays"))]
mod num;
#[cfg(feature = "boxes")]
mod m_box;
#[cfg(feature = "vecs")]
mod m_elem;
#[cfg(all(feature = "scene", feature = "matrix", feature = "vecs"))]
mod m_eq;
#[cfg(feature = "matrix")]
mod m_matrix;
#[cfg(feature = "rays")]
mod m_ray;
#[cfg(feature = "vecs")]
mod m_vec;
mod mixed;
#[cfg(feature = "scene")]
mod observe;
#[cfg(feature = "scene")]
mod hostile;
#[cfg(feature = "scene")]
mod pprops;
#[cfg(feature = "scene")]
mod refparse;
mod report;
mod rng;
#[cfg(feature = "scene")]
mod scene;

use cx::Cx;
use std::io::Write;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn case(cx: &mut Cx, i: u64) -> bool {
    match &cx.id.clone()[..] {
        #[cfg(feature = "scene")]
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C25" => pprops::case(cx, i),
        #[cfg(feature = "matrix")]
        "C12" | "C13" | "C14" | "C15" | "C16" => m_matrix::case(cx, i),
        #[cfg(feature = "vecs")]
        "C17" | "C18" | "C19" => m_vec::case(cx, i),
        #[cfg(feature = "boxes")]
        "C20" | "C21" | "C22" => m_box::case(cx, i),
        #[cfg(feature = "rays")]
        "C23" => m_ray::case(cx, i),
        #[cfg(all(feature = "scene", feature = "matrix", feature = "vecs"))]
        "C26" => m_eq::case(cx, i),
        #[cfg(feature = "vecs")]
        "C27" => m_elem::case(cx, i),
        "C10" => mixed::c10(cx, i),
        "C24" => mixed::c24(cx, i),
        _ => return false,
    }
    true
}

fn run(a: Vec<String>) -> i32 {
    let get = |k: &str| arg(&a, k);
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    dict::load(get("--dict").as_deref());
    let mut cx = Cx {
        id: a[2].clone(),
        seed: num("--seed", 1),
        thorough: get("--tier").as_deref() == Some("thorough"),
        case: 0,
        light: a.iter().any(|x| x == "--light"),
        rep: report::Report::default(),
        digests: vec![],
        state: get("--state").and_then(|p| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).ok()),
    };
    let from = num("--from", 0);
    let count = num("--count", 100);
    let budget = num("--budget", 100000);
    let reverse = a.iter().any(|x| x == "--reverse");
    let t0 = std::time::Instant::now();
    for k in 0..count {
        let i = if reverse { from + count - 1 - k } else { from + k };
        cx.begin(i);
        if !case(&mut cx, i) {
            eprintln!("unknown property {}", cx.id);
            return 2;
        }
        if cx.rep.stop() || t0.elapsed().as_secs() >= budget {
            break;
        }
    }
    if let Some(p) = get("--digests") {
        let mut f = std::fs::File::create(p).expect("digest file");
        for d in &cx.digests {
            f.write_all(&d.to_le_bytes()).expect("digest file");
        }
    }
    let j = cx.rep.json();
    match get("--out") {
        Some(p) => std::fs::write(p, j).expect("report"),
        None => print!("{}", j),
    }
    if cx.rep.violations.is_empty() {
        0
    } else {
        1
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        cx::LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| &s[..]) {
        // an ordinary thread: 2 MiB of stack
        Some("run") => std::thread::Builder::new().stack_size(2 << 20).spawn(move || run(a)).unwrap().join().unwrap_or(3),
        #[cfg(feature = "scene")]
        Some("cost") => mixed::cost(&a),
        #[cfg(feature = "scene")]
        Some("text") => {
            // parse a file (or stdin) once: replay of an input
            let s = std::fs::read_to_string(&a[2]).expect("input");
            let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || format!("{:?}", observe::parse(&s)));
            println!("{}", t.unwrap().join().unwrap_or_else(|_| "died".to_owned()));
            0
        }
        _ => {
            eprintln!("usage: monitor run <ID> --seed S --from I --count N --tier T --dict FILE --out FILE --state FILE");
            2
        }
    };
    std::process::exit(code);
}
