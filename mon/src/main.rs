//! mon hist --prop P --seed N --secs T --out FILE --status FILE [--cases N]
//! mon replay FILE
mod conc;
mod deep;
mod occ;
mod engine;
mod guards;
mod other;
mod probes;
mod profiles;
mod raw;
mod sweep;
mod shapes;
#[path = "../../race/src/work.rs"]
mod work;
include!("../../race/src/run.rs");

/// Counts heap blocks, so that what a world leaves behind shows.
struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static ALLOC: Counting = Counting;

use engine::*;
use moncore::rng::mix;
use profiles::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
pub struct Args(Vec<String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<String> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1).cloned())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}
fn write_case(c: &Case) -> String {
    let mut s = format!("hist {} {}\n", c.prop, c.seed);
    for (a, b) in &c.ops {
        s += &format!("{a} {b}\n");
    }
    s
}
fn read_case(s: &str) -> Option<Case> {
    let mut l = s.lines();
    let mut h = l.next()?.split_whitespace();
    if h.next()? != "hist" {
        return None;
    }
    let prop = h.next()?.to_string();
    let seed = h.next()?.parse().ok()?;
    let mut ops = vec![];
    for x in l {
        let mut p = x.split_whitespace();
        if let (Some(a), Some(b)) = (p.next().and_then(|a| a.parse().ok()), p.next().and_then(|a| a.parse().ok())) {
            ops.push((a, b));
        }
    }
    if ops.is_empty() {
        // only the seed is known (the process died): regenerate
        let p = profile(&prop)?;
        return Some(gen_case(p, seed));
    }
    Some(Case { prop, seed, ops })
}

/// Heap blocks which a case leaves behind, the same number three times over; None if there are none.
fn leak(p: &Profile, c: &Case) -> Option<i64> {
    let once = || {
        moncore::comps::reg_reset();
        let a = LIVE.load(std::sync::atomic::Ordering::Relaxed);
        drop(run_case(p, c, None));
        moncore::comps::reg_reset();
        LIVE.load(std::sync::atomic::Ordering::Relaxed) - a
    };
    let l = once();
    (l > 0 && once() > 0 && once() > 0 && once() > 0).then_some(l)
}

fn hist(a: &Args) -> i32 {
    let prop = a.get("--prop").expect("--prop");
    let p = profile(&prop).expect("profile");
    let seed = a.num("--seed", 1);
    let secs = a.num("--secs", 10);
    let max = a.num("--cases", u64::MAX);
    let status = a.get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let start = Instant::now();
    let mut n = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ops = 0u64;
    let mut sizes = [0u64; 5];
    let mut nontrivial = 0u64;
    let mut sample: Option<Vec<String>> = None;
    let mut foreign: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut violation: Option<(Case, Fail, Vec<String>)> = None;
    while n < max && start.elapsed() < Duration::from_secs(secs) {
        let mut cs = mix(mix(seed, 0xCA5E), n);
        n += 1;
        // each worker sees a huge world early
        while n == 50 && !cfg!(any(miri, asan)) && Cfg::of(cs).0.size != 4 {
            cs = mix(cs, 1);
        }
        if let Some(f) = &status {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("hist {} {:<22}\n", p.id, cs).as_bytes(), 0);
        }
        let c = gen_case(p, cs);
        ops += c.ops.len() as u64;
        sizes[Cfg::of(cs).0.size] += 1;
        match run_case(p, &c, None) {
            Ok(st) => {
                let nt = p.need.iter().all(|k| st.n.get(k).copied().unwrap_or(0) > 0);
                for (k, v) in &st.n {
                    *counters.entry(k.to_string()).or_default() += v;
                }
                let clean = |k| st.n.get(k).copied().unwrap_or(0) == 0;
                if p.id == "C16" && !cfg!(any(miri, asan)) && n % 3 == 0 && clean("calls given up") && clean("destructors that panicked") {
                    *counters.entry("heap censuses".into()).or_default() += 1;
                    if let Some(l) = leak(p, &c) {
                        let msg = format!("the history leaves {l} heap blocks behind after its world is dropped");
                        violation = Some((c, Fail { kind: Kind::Mem, msg }, vec![]));
                        break;
                    }
                }
                if nt {
                    nontrivial += 1;
                    hashes.insert(st.hash);
                    if sample.is_none() && Cfg::of(cs).0.size <= 1 {
                        let mut t = vec![format!("case seed {cs}")];
                        let _ = run_case(p, &c, Some(&mut t));
                        t.truncate(40);
                        sample = Some(t);
                    }
                }
            }
            Err((_, f)) if relevant(p, f.kind) => {
                let small = shrink(p, &c, f.kind, Duration::from_secs(15));
                let mut t = vec![];
                let (c, f) = match run_case(p, &small, Some(&mut t)) {
                    Err((_, f2)) if f2.kind == f.kind => (small, f2),
                    _ => (c, f),
                };
                violation = Some((c, f, t));
                break;
            }
            Err((_, f)) => {
                KEPT.store(true, std::sync::atomic::Ordering::Relaxed);
                let e = foreign.entry(format!("{:?}", f.kind)).or_insert((0, f.msg.clone()));
                e.0 += 1;
            }
        }
    }
    let mut o = String::from("{");
    o += &format!("\"evaluations\":{n},\"ops\":{ops},\"nontrivial\":{nontrivial},\"sizes\":{sizes:?},");
    o += &format!(
        "\"counters\":{{{}}},",
        counters.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    );
    o += &format!(
        "\"foreign\":{{{}}},",
        foreign.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&v.1))).collect::<Vec<_>>().join(",")
    );
    o += &format!("\"sample\":{},", arr(&sample.unwrap_or_default()));
    o += &format!("\"hashes\":[{}],", hashes.iter().take(400_000).map(|h| h.to_string()).collect::<Vec<_>>().join(","));
    o += &format!("\"rule\":{},", js(p.rule));
    let code = match &violation {
        None => {
            o += "\"violation\":null}";
            0
        }
        Some((c, f, t)) => {
            o += &format!(
                "\"violation\":{{\"kind\":{},\"message\":{},\"replay\":{},\"trace\":{}}}}}",
                js(&format!("{:?}", f.kind)),
                js(&f.msg),
                js(&write_case(c)),
                arr(t)
            );
            1
        }
    };
    if let Some(f) = a.get("--out") {
        std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("writing the result");
    } else {
        println!("{o}");
    }
    code
}
fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let s: String = s.lines().filter(|l| !l.starts_with(['#', '@'])).map(|l| format!("{l}\n")).collect();
    if s.starts_with("conc ") {
        return conc::replay(s.lines().next().unwrap());
    }
    if s.starts_with("sweep ") {
        let p: Vec<&str> = s.split_whitespace().collect();
        return sweep::sweep(&Args(vec!["--seed".into(), p[1].into(), "--first".into(), p[2].into()]));
    }
    if s.starts_with("rawhist ") {
        let p: Vec<&str> = s.split_whitespace().collect();
        return sweep::sweep(&Args(vec!["--history".into(), p[1].into(), "--rough".into(), p[2].into()]));
    }
    if s.starts_with("race ") {
        let p: Vec<&str> = s.split_whitespace().collect();
        return run(&["--case", p[1], "--ops", p[2], "--times", "60", "--secs", "200"].map(String::from));
    }
    if s.starts_with("occ ") || s.starts_with("keep ") {
        let p: Vec<String> = s.split_whitespace().map(String::from).collect();
        return occ::occ(&Args(["--kind", &p[0], "--prop", &p[1], "--case", &p[2], "--sched", &p[3]].map(String::from).into()));
    }
    if s.starts_with("deep ") {
        let p: Vec<String> = s.split_whitespace().map(String::from).collect();
        let a = ["--prop", &p[1], "--seed", &p[2], "--first", &p[3], "--size", &p[4]].map(String::from);
        return deep::deep(&Args(a.into()));
    }
    if s.starts_with("guards ") {
        return guards::replay(s.lines().next().unwrap());
    }
    let c = read_case(&s).expect("a recorded history");
    let p = profile(&c.prop).expect("profile");
    let mut t = vec![];
    match run_case(p, &c, Some(&mut t)) {
        Ok(_) if p.id == "C16" && !cfg!(miri) && leak(p, &c).is_some() => {
            println!("heap blocks are left behind");
            1
        }
        Ok(_) => {
            println!("no violation");
            0
        }
        Err((n, f)) => {
            for l in &t {
                println!("  {l}");
            }
            println!("op {n}: {:?}: {}", f.kind, f.msg);
            1
        }
    }
}
fn main() -> std::process::ExitCode {
    std::panic::set_hook(Box::new(|_| {}));
    let a = Args(std::env::args().collect());
    let code = match a.0.get(1).map(|s| s.as_str()) {
        Some("hist") => hist(&a),
        Some("conc") => conc::conc(&a),
        Some("guards") => guards::guards(&a),
        Some("deep") => deep::deep(&a),
        Some("occ" | "keep") => occ::occ(&a),
        Some("sweep") => sweep::sweep(&a),
        Some("probe") => probes::probe(&a.0[2]),
        Some("race") => run(&a.0),
        Some("nop") => 0,
        Some("replay") => replay(&a.0[2]),
        _ => {
            eprintln!("usage: mon hist|replay");
            2
        }
    };
    // what a case left behind on purpose (a world that may be corrupt, a call given up) is no leak
    if KEPT.load(std::sync::atomic::Ordering::Relaxed) || !cfg!(miri) {
        std::process::exit(code);
    }
    std::process::ExitCode::from(code as u8)
}
pub static KEPT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
