mod checks; mod gen; mod refm; mod rng; mod special; mod trace;
use checks::*;
use rng::Rng;
use special::*;
use std::collections::HashSet;
use std::time::{Duration, Instant};
use trace::*;

#[derive(Clone)]
enum Case { T(Trace), S(Special) }
impl Case {
    fn text(&self) -> String { match self { Case::T(t) => t.text(), Case::S(s) => s.text() } }
    fn run(&self, prop: &str) -> Result<(), String> {
        match self { Case::T(t) => run_trace(prop, t).map_err(|(k, m)| format!("step {k}: {m}")), Case::S(s) => run_special(prop, s) }
    }
}

fn generate(prop: &str, r: &mut Rng, i: usize) -> Case {
    if ["C01", "C02", "C05", "C14", "C15"].contains(&prop) && r.chance(1, 30) { return Case::T(gen::bulk(r)); }
    if ["C05", "C08", "C09"].contains(&prop) && (i == 3 || r.chance(1, 500)) { return Case::S(gen_collide(r)); }
    match prop {
        "C16" => if r.chance(3, 4) { Case::S(gen_build(r)) } else { Case::T(gen::game(prop, r)) },
        "C17" => Case::S(gen_sgf(r)),
        "C21" => if r.chance(1, 10) { Case::S(gen_dead(r)) } else { Case::T(gen::game(prop, r)) },
        "C15" if i < 3 => Case::S(gen_long(r, i)),
        "C15" | "C01" | "C02" | "C05" | "C11" | "C13" | "C14" | "C20" => if r.chance(1, 2) { Case::T(gen::board(r)) } else { Case::T(gen::game(prop, r)) },
        "C03" => if r.chance(1, 4) { Case::T(gen::board(r)) } else { Case::T(gen::game(prop, r)) },
        _ => Case::T(gen::game(prop, r)),
    }
}

fn shrink(prop: &str, t: Trace, until: Instant) -> Trace {
    let mut cur = t;
    if let Err((k, _)) = run_trace(prop, &cur) { if k < cur.ops.len() { cur.ops.truncate(k.max(1)); } }
    let mut changed = true;
    while changed && Instant::now() < until {
        changed = false;
        let mut i = 0;
        while i < cur.ops.len() && Instant::now() < until {
            let mut c = cur.clone();
            c.ops.remove(i);
            if run_trace(prop, &c).is_err() { cur = c; changed = true } else { i += 1 }
        }
        let mut i = 0;
        while i < cur.setup.len() && Instant::now() < until {
            let mut c = cur.clone();
            c.setup.remove(i);
            if run_trace(prop, &c).is_err() { cur = c; changed = true } else { i += 1 }
        }
    }
    cur
}

fn fail(prop: &str, c: &Case, msg: &str, out: &str) -> ! {
    let body = format!("property {prop}\n# {}\n{}", msg.replace('\n', " "), c.text());
    if !out.is_empty() { let _ = std::fs::write(out, &body); }
    println!("FAIL {msg}\n{body}");
    std::process::exit(1)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let prop = opt("--prop", "C01");
            let seed: u64 = opt("--seed", "1").parse().unwrap();
            let secs: f64 = opt("--secs", "10").parse().unwrap();
            let out = opt("--out", "");
            let (p2, o2) = (prop.clone(), out.clone());
            let hangs = ["C01", "C02", "C03", "C05", "C09", "C11", "C15", "C19", "C04", "C16", "C17"].contains(&prop.as_str());
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let cur = CURRENT.lock().unwrap().clone();
                if let Some((t, s)) = cur {
                    if s.elapsed() > Duration::from_secs(60) && !t.contains("special long") || s.elapsed() > Duration::from_secs(400) {
                        let body = format!("property {p2}\n# does not terminate (stopped after 60 s)\n{t}");
                        if hangs {
                            if !o2.is_empty() { let _ = std::fs::write(&o2, &body); }
                            println!("FAIL does not terminate\n{body}");
                            std::process::exit(1);
                        }
                        println!("{{\"evaluations\":0,\"hang\":true}}");
                        std::process::exit(0);
                    }
                }
            });
            let start = Instant::now();
            let mut r = Rng(seed.wrapping_mul(0x1234567) ^ 0xABCDEF);
            let (mut n, mut steps, mut distinct) = (0usize, 0usize, HashSet::new());
            let mut sample = String::new();
            let min = if prop == "C15" { 3 } else { 1 };
            while n < min || start.elapsed().as_secs_f64() < secs {
                let c = generate(&prop, &mut r, n);
                n += 1;
                let t = c.text();
                if let Case::T(t) = &c { steps += t.ops.len() + 1 } else { steps += 1 }
                if let Err(m) = c.run(&prop) {
                    let c2 = match &c { Case::T(t) => Case::T(shrink(&prop, t.clone(), Instant::now() + Duration::from_secs(20))), x => x.clone() };
                    let m2 = c2.run(&prop).err().unwrap_or(m);
                    fail(&prop, &c2, &m2, &out);
                }
                if t.lines().count() > 3 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    t.hash(&mut h);
                    distinct.insert(h.finish());
                    if sample.is_empty() || (sample.len() > 400 && t.len() < sample.len()) { sample = t; }
                }
            }
            let esc: String = sample.chars().flat_map(|c| match c { '\n' => vec![';', ' '], '"' | '\\' => vec![' '], c => vec![c] }).collect();
            println!("{{\"evaluations\":{n},\"steps\":{steps},\"distinct_nontrivial\":{},\"sample\":\"{}\"}}", distinct.len(), esc);
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let prop = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("C01").trim().to_string();
            let body: String = t.lines().filter(|l| !l.starts_with("property ") && !l.starts_with('#')).map(|l| format!("{l}\n")).collect();
            let c = if body.starts_with("special") { Case::S(Special::parse(&body).unwrap()) } else { Case::T(Trace::parse(&body).unwrap()) };
            match c.run(&prop) {
                Ok(()) => println!("replay: property {prop} holds on this input"),
                Err(m) => { println!("replay: property {prop} violated: {m}"); std::process::exit(1) }
            }
        }
        _ => { eprintln!("usage: search --prop C01 --seed 1 --secs 10 --out FILE | replay FILE"); std::process::exit(2) }
    }
}
