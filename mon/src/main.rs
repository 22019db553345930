//! Runtime monitors for il2-iltags. One process runs a range of cases of one property on the
//! real library; the driver (/verif/check.py) starts several, watches them and merges results.
mod alloc;
mod bridge;
mod ctx;
mod gen;
mod iomon;
mod model;
mod props;
mod rng;

use ctx::{Ctx, R};
use std::io::Write;
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    prop: String,
    seed: u64,
    start: u64,
    count: u64,
    step: u64,
    deadline: f64,
    out: String,
    progress: String,
    thorough: bool,
}

fn args() -> Args {
    let mut a = Args {
        prop: String::new(), seed: 1, start: 0, count: 1, step: 1, deadline: 0.0,
        out: String::new(), progress: String::new(), thorough: false,
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--prop" => a.prop = x,
            "--seed" => a.seed = x.parse().unwrap(),
            "--start" => a.start = x.parse().unwrap(),
            "--count" => a.count = x.parse().unwrap(),
            "--step" => a.step = x.parse().unwrap(),
            "--deadline" => a.deadline = x.parse().unwrap(),
            "--out" => a.out = x,
            "--progress" => a.progress = x,
            "--tier" => a.thorough = x == "thorough",
            o => panic!("unknown option {}", o),
        }
        i += 2;
    }
    a
}

fn emit(a: &Args, c: &Ctx, done: u64, fail: Option<(u64, String)>, complete: bool) {
    let mut s = String::from("{");
    s.push_str(&format!("\"done\":{},\"evals\":{},\"complete\":{},", done, c.evals, complete));
    s.push_str("\"counters\":{");
    let cs: Vec<String> = c.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    s.push_str(&cs.join(","));
    s.push_str("},\"samples\":[");
    let ss: Vec<String> = c.samples.iter().map(|x| js(x)).collect();
    s.push_str(&ss.join(","));
    s.push_str("],\"fail\":");
    match &fail {
        Some((i, m)) => s.push_str(&format!("{{\"index\":{},\"what\":{}}}", i, js(m))),
        None => s.push_str("null"),
    }
    s.push_str("}\n");
    if a.out.is_empty() {
        print!("{}", s);
        let _ = std::io::stdout().flush();
    } else {
        let mut h = Vec::with_capacity(c.distinct.len() * 8);
        for d in &c.distinct {
            h.extend_from_slice(&d.to_le_bytes());
        }
        std::fs::write(format!("{}.h", a.out), h).unwrap();
        std::fs::write(&a.out, s).unwrap();
    }
}

fn run(a: &Args) -> i32 {
    let case = match props::find(&a.prop) {
        Some(c) => c,
        None => {
            eprintln!("no such property: {}", a.prop);
            return 2;
        }
    };
    let num: u64 = a.prop.trim_start_matches('C').parse().unwrap_or(0);
    let mut c = Ctx::new(a.seed, a.thorough);
    let mut progress = if a.progress.is_empty() { None } else { std::fs::File::create(&a.progress).ok() };
    gen::lits();
    let t0 = std::time::Instant::now();
    let mut done = 0;
    let mut i = a.start;
    for _ in 0..a.count {
        if let Some(p) = progress.as_mut() {
            use std::os::unix::fs::FileExt;
            let _ = p.write_at(&i.to_le_bytes(), 0);
        }
        c.begin(num, i);
        bridge::REENTER.store(false, std::sync::atomic::Ordering::Relaxed);
        let r: std::thread::Result<R> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(&mut c)));
        let fail = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(_) => {
                let m = PANIC.lock().map(|x| x.clone()).unwrap_or_default();
                Some(format!("panic: {}", m))
            }
        };
        if let Some(m) = fail {
            emit(a, &c, done, Some((i, m)), false);
            return 10;
        }
        done += 1;
        i += a.step;
        if a.deadline > 0.0 && t0.elapsed().as_secs_f64() > a.deadline {
            break;
        }
    }
    emit(a, &c, done, None, done == a.count);
    0
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{} at {}", m, l);
        }
    }));
    let a = args();
    let code = if cfg!(miri) {
        run(&a)
    } else {
        // the reference model may recurse as deeply as the generators go
        std::thread::Builder::new()
            .stack_size(1 << 28)
            .spawn(move || run(&a))
            .unwrap()
            .join()
            .unwrap_or(3)
    };
    if cfg!(miri) && code == 0 {
        // end normally, so that the interpreter looks for leaks
        return;
    }
    std::process::exit(code);
}
