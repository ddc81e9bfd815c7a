//! search find PROP SECONDS SEED TIER DICT OUTDIR | search replay FILE [PROP]
mod axioms;
mod checks;
mod gen;
mod oracle;
mod seq;
use checks::{run, Case};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn enc(c: &Case) -> String {
    let mut s = c.kind.clone();
    for a in &c.args { s.push('\n'); s.extend(a.escape_default()); s.push('.'); }
    s.push('\n');
    s
}
fn dec(t: &str) -> Case {
    let mut l = t.lines().filter(|l| !l.starts_with("//"));
    let kind = l.next().unwrap_or("").to_string();
    let args = l.filter(|a| a.ends_with('.')).map(|a| {
        let mut out = String::new();
        let v: Vec<char> = a[..a.len() - 1].chars().collect();
        let mut i = 0;
        while i < v.len() {
            if v[i] == '\\' && i + 1 < v.len() {
                i += 1;
                match v[i] {
                    'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'),
                    'u' => { let j = v[i..].iter().position(|&c| c == '}').unwrap() + i; let h: String = v[i + 2..j].iter().collect(); out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()); i = j; }
                    c => out.push(c),
                }
            } else { out.push(v[i]) }
            i += 1;
        }
        out
    }).collect();
    Case { kind, args }
}
fn fails(c: &Case, p: &str) -> Option<String> {
    let f = run(c);
    f.into_iter().find(|f| p == "any" || f.props.contains(&p)).map(|f| f.msg)
}
fn shrink(mut c: Case, p: &str, until: Instant) -> Case {
    let ok = |c: &Case| Instant::now() < until && fails(c, p).is_some();
    loop {
        let before = c.clone();
        // fewer arguments
        if c.args.len() > 1 {
            let mut i = 0;
            while i < c.args.len() && c.args.len() > 1 {
                let mut d = c.clone();
                d.args.remove(i);
                if ok(&d) { c = d } else { i += 1 }
            }
        }
        // shorter arguments
        for i in 0..c.args.len() {
            if c.kind == "num" || c.kind == "ops" || c.kind == "deep" || c.kind == "big" || c.kind == "nest" { break; }
            let mut step = (c.args[i].chars().count() / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let v: Vec<char> = c.args[i].chars().collect();
                    if at >= v.len() { break; }
                    let t: String = v[..at].iter().chain(&v[(at + step).min(v.len())..]).collect();
                    let mut d = c.clone();
                    d.args[i] = t;
                    if ok(&d) { c = d } else { at += step }
                }
                if step == 1 { break; }
                step /= 2;
            }
            for at in 0..c.args[i].chars().count() {
                for plain in ['a', '0', ' '] {
                    let mut v: Vec<char> = c.args[i].chars().collect();
                    if at >= v.len() || v[at] == plain { break; }
                    v[at] = plain;
                    let mut d = c.clone();
                    d.args[i] = v.into_iter().collect();
                    if ok(&d) { c = d; break; }
                }
            }
        }
        if c == before || Instant::now() >= until { return c; }
    }
}
struct Shared {
    next: AtomicUsize,
    stop: AtomicBool,
    cases: AtomicUsize,
    found: Mutex<Option<(Case, String)>>,
    now: Vec<Mutex<(Instant, String)>>,
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let c = dec(&std::fs::read_to_string(&a[2]).unwrap());
            let p = a.get(3).cloned().unwrap_or("any".into());
            let c2 = c.clone();
            let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || fails(&c2, &p)).unwrap().join().unwrap();
            match r {
                Some(m) => { println!("{:?}\nFAILS: {}", c, m); std::process::exit(1) }
                None => { println!("{:?}\nholds", c); }
            }
        }
        Some("axioms") => match axioms::run(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1)) {
            Ok(n) => println!("HELD {}", n),
            Err(m) => { println!("BROKEN {}", m); std::process::exit(1) }
        },
        Some("find") => find(&a),
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
}
fn find(a: &[String]) {
    let prop = a[2].clone();
    let secs: f64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap_or(1);
    let thorough = a[5] == "thorough";
    let dict = Arc::new(load(&a[6]));
    let outdir = a[7].clone();
    let threads: usize = std::env::var("SEARCH_THREADS").ok().and_then(|t| t.parse().ok()).unwrap_or(8);
    let start = Instant::now();
    let sh = Arc::new(Shared {
        next: AtomicUsize::new(0), stop: AtomicBool::new(false), cases: AtomicUsize::new(0), found: Mutex::new(None),
        now: (0..threads).map(|_| Mutex::new((Instant::now(), String::new()))).collect(),
    });
    let done_blocks = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let (sh, prop, dict, outdir, done_blocks) = (sh.clone(), prop.clone(), dict.clone(), outdir.clone(), done_blocks.clone());
        hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            let cur = std::fs::File::create(format!("{}/cur.{}", outdir, t)).unwrap();
            let mut rng = gen::Rng::new(seed * 1000 + t as u64);
            let mut one = |c: Case| -> bool {
                let e = enc(&c);
                let mut buf = e.clone().into_bytes();
                buf.extend_from_slice(b"// end\n");
                let _ = cur.write_at(&buf, 0);
                *sh.now[t].lock().unwrap() = (Instant::now(), e);
                let r = fails(&c, &prop);
                sh.cases.fetch_add(1, SeqCst);
                if let Some(m) = r {
                    let mut f = sh.found.lock().unwrap();
                    if f.is_none() { *f = Some((c, m)); }
                    sh.stop.store(true, SeqCst);
                    return false;
                }
                !sh.stop.load(SeqCst)
            };
            let limit = Duration::from_secs_f64(secs);
            // random and exhaustive inputs alternate, so that neither waits for the other
            let mut more = true;
            let mut half = Duration::ZERO;
            while !sh.stop.load(SeqCst) && (start.elapsed() < limit || more) {
                if start.elapsed() >= limit * 3 { break; }
                if more && (half < start.elapsed() / 2 || start.elapsed() >= limit) {
                    let s = Instant::now();
                    match gen::block(&prop, sh.next.fetch_add(1, SeqCst), thorough, &dict) {
                        Some(v) => { for c in v { if !one(c) { break; } } done_blocks.fetch_add(1, SeqCst); }
                        None => more = false,
                    }
                    half += s.elapsed();
                    continue;
                }
                if start.elapsed() >= limit { continue; }
                for _ in 0..200 { if !one(gen::random(&prop, &mut rng, &dict)) { break; } }
            }
            sh.now[t].lock().unwrap().1.clear();
            more
        }).unwrap());
    }
    // a case that does not come back
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(50));
        for n in &sh.now {
            let g = n.lock().unwrap();
            if !g.1.is_empty() && g.0.elapsed() > Duration::from_secs(25) {
                std::fs::write(format!("{}/case", outdir), &g.1).unwrap();
                println!("HANG {}", sh.cases.load(SeqCst));
                std::io::stdout().flush().unwrap();
                std::process::exit(1);
            }
        }
    }
    let unfinished = hs.into_iter().any(|h| h.join().unwrap_or(true));
    let found = sh.found.lock().unwrap().take();
    match found {
        Some((c, m)) => {
            let p2 = prop.clone();
            let (c, m) = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                let c2 = shrink(c.clone(), &p2, Instant::now() + Duration::from_secs(10));
                let m2 = fails(&c2, &p2);
                match m2 { Some(m2) => (c2, m2), None => (c, m) }
            }).unwrap().join().unwrap();
            std::fs::write(format!("{}/case", outdir), enc(&c)).unwrap();
            println!("FOUND {} {}", sh.cases.load(SeqCst), m);
            std::process::exit(1);
        }
        None => println!("NONE {} blocks={} complete={}", sh.cases.load(SeqCst), done_blocks.load(SeqCst), !unfinished),
    }
}
fn load(f: &str) -> gen::Dict {
    let mut d = gen::Dict { strs: vec![], chars: vec![], nums: vec![] };
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some(s) = l.strip_prefix("s ") { d.strs.extend(dec(&format!("k\n{}.", s)).args); }
        if let Some(s) = l.strip_prefix("c ") { d.chars.extend(dec(&format!("k\n{}.", s)).args.iter().flat_map(|s| s.chars().collect::<Vec<_>>())); }
        if let Some(s) = l.strip_prefix("n ") { if let Ok(n) = s.parse() { d.nums.push(n) } }
    }
    d
}
