//! Concurrent programs on the processor's own schedules: real threads, the real lock crate. Calls are not stopped at lock
//! operations only, as they are under the scheduler of `mon conc`, so what goes wrong between two atomic accesses can show here.
//! stress --prop P --seed N --secs T --out FILE --status FILE        stress --prop P --case SEED [--times N]
use moncore::comps::*;
use moncore::conc::{self as mc, *};
use moncore::model::Expr;
use moncore::own::{Mine, Own};
use moncore::rng::mix;
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use xecs::World;

include!("../../mon/src/shapes_gen.rs");
mod occ;
use CKind::*;

struct P {
    w: Workload,
    kinds: &'static [CKind],
}
//                                       cr ba ha at de rm ex rd wr st sw qu gq
static PROFILES: &[P] = &[
    P { w: Workload { id: "C02", weights: [14, 8, 2, 1, 0,12, 8, 0, 0, 0, 0, 0, 0], max_threads: 4, max_ops: 5, groups: false, multi: false, lin: false }, kinds: &[] },
    beside("C01"),
    beside("C03"),
    beside("C04"),
    beside("C05"),
    beside("C07"),
    beside("C10"),
    P { w: Workload { id: "C12", weights: [ 0, 0, 3, 6, 5, 2, 0,10,10, 8, 6,14, 0], max_threads: 4, max_ops: 4, groups: false, multi: false, lin: true }, kinds: &[Lin, Final, Panic, Deadlock] },
    P { w: Workload { id: "C13", weights: [ 5, 3, 6, 8, 6, 7, 3, 5, 4, 3, 2, 6, 8], max_threads: 4, max_ops: 4, groups: true, multi: true, lin: true }, kinds: &[Lin, Final, Panic, Handle] },
    P { w: Workload { id: "C14", weights: [10, 6,14, 3, 2,12, 5, 3, 1, 0, 0, 0, 0], max_threads: 4, max_ops: 3, groups: true, multi: false, lin: true }, kinds: &[Lin, Final, Panic, Handle, Deadlock] },
    P { w: Workload { id: "C15", weights: [ 4, 3, 8, 8, 8, 8, 2, 3, 3, 2, 2,10,14], max_threads: 4, max_ops: 6, groups: true, multi: true, lin: false }, kinds: &[Deadlock] },
];
/// a property of histories: every thread on entities of its own
const fn beside(id: &'static str) -> P {
    P { w: Workload { id, weights: [5, 3, 6, 8, 6, 7, 3, 5, 4, 3, 2, 6, 8], max_threads: 4, max_ops: 4, groups: true, multi: true, lin: false }, kinds: &[] }
}
const BUDGET: usize = 60_000;

thread_local! {
    static JITTER: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}
fn pause() {
    let x = JITTER.with(|j| {
        let x = mix(j.get(), 77);
        j.set(x);
        x
    });
    match x % 8 {
        0 => std::thread::yield_now(),
        1..=3 => {
            for _ in 0..x >> 57 {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
fn nofatal(_: &(dyn Any + Send)) -> bool {
    false
}
fn text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with an unknown payload".into()
    }
}
fn quote(s: &str) -> String {
    let s: String = s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect();
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

struct Shared {
    epoch: AtomicU64,
    done: AtomicUsize,
    world: AtomicPtr<World>,
    logs: Vec<Mutex<Log>>,
    seed: AtomicU64,
    tids: Mutex<Vec<i32>>,
    mine: Mutex<Arc<Vec<Mutex<Mine>>>>,
    failed: Mutex<Option<CFail>>,
}
fn sleeping(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S'))
}
enum Wait {
    Done,
    Blocked,
    Slow,
}
/// wait for all threads; blocked means that those which have not finished slept through many looks at them
fn wait(s: &Shared, n: usize) -> Wait {
    let t0 = Instant::now();
    let mut spins = 0u32;
    let mut asleep = 0;
    while s.done.load(Acquire) < n {
        spins += 1;
        if spins < 2000 {
            std::hint::spin_loop();
        } else if t0.elapsed() < Duration::from_millis(200) {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_millis(100));
            // finished threads wait for the next epoch awake
            let busy = s.tids.lock().unwrap().iter().filter(|t| !sleeping(**t)).count();
            asleep = if busy <= s.done.load(Acquire) { asleep + 1 } else { 0 };
            if asleep >= 100 && t0.elapsed() > Duration::from_secs(15) {
                return Wait::Blocked;
            }
            if t0.elapsed() > Duration::from_secs(90) {
                return Wait::Slow;
            }
        }
    }
    Wait::Done
}

struct Seen {
    events: usize,
    overlap: bool,
    handles: u64,
    nodes: usize,
    gave_up: bool,
    hash: u64,
}
fn judge(p: &P, own: &Option<Own>, mine: &[Mine], prog: &Prog, logs: &[Vec<Event>], w: World, env: &Env, exprs: &[Expr], seen: &mut Seen) -> Option<CFail> {
    let mut w = w;
    for (t, l) in logs.iter().enumerate() {
        if let Some(Event { ev: Ev::Panicked(m), .. }) = l.last() {
            return Some(CFail { kind: Panic, also: "", msg: format!("a call of thread {t} panicked: {m}") });
        }
    }
    if p.w.id == "C15" {
        return None;
    }
    if let Some(o) = own {
        let r = catch_unwind(AssertUnwindSafe(|| o.judge(w, env, mine)));
        return match r {
            Ok(r) => r.err(),
            Err(e) => Some(CFail { kind: Final, also: "", msg: format!("looking at the world after the run panicked: {}", text(&*e)) }),
        };
    }
    match handle_monitor(logs) {
        Ok(n) => seen.handles = n,
        Err(f) => return Some(f),
    }
    if let Err(f) = ids_monitor(prog, logs) {
        return Some(f);
    }
    let next = next_id(prog, logs);
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<FinalState, CFail> {
        let fin = audit(&mut w, prog, env, next + 3)?;
        let (t, g) = stored(&fin);
        let (at, ag) = (reg().alive.as_ref().map_or(0, |a| a.len()) as i64, G_ALIVE.load(SeqCst));
        if at != t || ag != g {
            return Err(CFail { kind: Final, also: "C10", msg: format!("{at} tracked and {ag} counted values are alive after the run, {t} and {g} are stored") });
        }
        audit_ids(&w, next, &fin.live)?;
        Ok(fin)
    }));
    let fin = match res {
        Ok(Ok(f)) => f,
        Ok(Err(f)) => return Some(f),
        Err(e) => return Some(CFail { kind: Final, also: "", msg: format!("looking at the world after the run panicked: {}", text(&*e)) }),
    };
    drop(w);
    let left = reg().alive.as_ref().map_or(0, |a| a.len());
    let errs = reg().errors.clone();
    if left != 0 || !errs.is_empty() {
        return Some(CFail { kind: Final, also: "C10", msg: format!("{left} values are left after the world was dropped; {errs:?}") });
    }
    if !p.w.lin {
        return None;
    }
    let (l, n) = explain(prog, logs, exprs, Some(&fin), BUDGET);
    seen.nodes = n;
    match l {
        mc::Lin::Explained => None,
        mc::Lin::GaveUp => {
            seen.gave_up = true;
            None
        }
        mc::Lin::Unexplained => Some(CFail {
            kind: Lin,
            also: "",
            msg: format!("no order of the calls explains the results and the final state {:?} (existing: {:?})", fin.comps, fin.live),
        }),
    }
}
fn trace(prog: &Prog, logs: &[Vec<Event>], env: &Env) -> Vec<String> {
    let mut t = prog.describe(env);
    let mut ev: Vec<(u64, String)> = vec![];
    for (i, l) in logs.iter().enumerate() {
        for e in l {
            let d = match &e.ev {
                Ev::Query { shape, rows, writes, complete } => format!(
                    "query {} -> {:?} wrote {writes:?} complete {complete}",
                    env.shapes[*shape].name,
                    rows.iter().map(|r| (r.id, r.toks.clone())).collect::<Vec<_>>()
                ),
                e => format!("{e:?}"),
            };
            ev.push((e.call, format!("[{}..{}] thread {i}: {d}", e.call, e.ret)));
        }
    }
    ev.sort();
    t.extend(ev.into_iter().map(|e| e.1));
    t
}

fn told(own: &Option<Own>, mine: &[Mine], prog: &Prog, logs: &[Vec<Event>], env: &Env) -> Vec<String> {
    own.as_ref().map_or_else(|| trace(prog, logs, env), |o| o.trace(env, mine))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let prop = get("--prop").expect("--prop");
    if prop.ends_with('+') {
        return occ::main(&prop, num("--seed", 1), num("--secs", 10), get("--case").and_then(|v| v.parse().ok()), get("--status"), get("--out"));
    }
    let p = PROFILES.iter().find(|p| p.w.id == prop).expect("profile");
    let (seed, secs) = (num("--seed", 1), num("--secs", 10));
    let only = get("--case").and_then(|v| v.parse::<u64>().ok());
    let repeats = num("--times", if only.is_some() { 200_000 } else { 60 });
    let status = get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let env = Env::new((0..NSHAPES).map(|i| &PARTS[i % PARTS.len()][i / PARTS.len()]).collect(), pause, nofatal, text);
    let exprs: Vec<Expr> = env.shapes.iter().map(|e| (e.desc)()).collect();
    let start = Instant::now();
    let (mut n, mut ops, mut non, mut programs) = (0u64, 0u64, 0u64, 0u64);
    let mut long = 0u64;
    let mut c: BTreeMap<&str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut foreign: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut sample: Vec<String> = vec![];
    let mut violation: Option<(CFail, u64, Vec<String>)> = None;
    let mut hung = false;
    let mut turn = 0;
    'outer: while start.elapsed() < Duration::from_secs(secs) && (only.is_none() || turn == 0) {
        let cs = only.unwrap_or(mix(mix(seed, 0x57E55), turn));
        turn += 1;
        let own = (p.kinds.is_empty() || matches!(p.w.id, "C13" | "C15") && mix(cs, 5) % 2 == 0).then(|| Own::gen(&p.w, cs, &env, 500));
        let prog = own.as_ref().map_or_else(|| Prog::gen(&p.w, cs, &env), |o| o.prog.clone());
        let nt = own.as_ref().map_or(prog.threads.len(), |o| o.nt);
        if own.is_none() && prog.threads.iter().filter(|t| !t.is_empty()).count() < 2 {
            continue;
        }
        programs += 1;
        if let Some(f) = &status {
            let _ = f.write_all_at(format!("stress {} {cs:<24}\n", p.w.id).as_bytes(), 0);
        }
        let s = Shared {
            epoch: AtomicU64::new(0),
            done: AtomicUsize::new(0),
            world: AtomicPtr::new(std::ptr::null_mut()),
            logs: (0..nt).map(|_| Mutex::new(Log::default())).collect(),
            seed: AtomicU64::new(0),
            tids: Mutex::new(vec![]),
            mine: Mutex::new(Arc::new(vec![])),
            failed: Mutex::new(None),
        };
        // outlive everything: a thread which hangs is left behind
        let s: &'static Shared = Box::leak(Box::new(s));
        let prog: &'static Prog = Box::leak(Box::new(prog));
        let own: &'static Option<Own> = Box::leak(Box::new(own));
        let exprs: &'static Vec<Expr> = unsafe { &*(&exprs as *const Vec<Expr>) };
        let env: &'static Env = unsafe { &*(&env as *const Env) };
        let threads: Vec<_> = (0..nt)
            .map(|t| {
                std::thread::spawn(move || {
                    s.tids.lock().unwrap().push(unsafe { gettid() });
                    let mut epoch = 0;
                    loop {
                        epoch += 1;
                        let mut spins = 0u32;
                        loop {
                            let e = s.epoch.load(Acquire);
                            if e == u64::MAX {
                                return;
                            }
                            if e == epoch {
                                break;
                            }
                            spins += 1;
                            if spins < 5000 {
                                std::hint::spin_loop()
                            } else if spins < 50_000 {
                                std::thread::yield_now()
                            } else {
                                std::thread::sleep(Duration::from_micros(300))
                            }
                        }
                        JITTER.with(|j| j.set(mix(s.seed.load(Relaxed), t as u64)));
                        let w = unsafe { &*s.world.load(Acquire) };
                        if mix(epoch, t as u64) % 3 == 0 {
                            pause();
                        }
                        let mut x = Exec::new(env, &s.logs[t]);
                        let ran = catch_unwind(AssertUnwindSafe(|| match own {
                            Some(o) => {
                                let mine = s.mine.lock().unwrap().clone();
                                if let Err(f) = o.run(env, exprs, &mine[t], &s.logs[t], w, s.seed.load(Relaxed)) {
                                    *s.failed.lock().unwrap() = Some(f);
                                }
                            }
                            None => x.run(w, &prog.threads[t]),
                        }));
                        if ran.is_err() {
                            s.logs[t].lock().unwrap_or_else(|e| e.into_inner()).events.push(Event { call: 0, ret: 0, ev: Ev::Panicked("outside a call".into()) });
                        }
                        s.done.fetch_add(1, AcqRel);
                    }
                })
            })
            .collect();
        for rep in 0..if own.is_some() { repeats.min(8).max(only.map_or(0, |_| 5000)) } else { repeats } {
            n += 1;
            reg_reset();
            let w = match catch_unwind(AssertUnwindSafe(|| prog.build())) {
                Ok(w) => w,
                Err(e) => {
                    let f = CFail { kind: Panic, also: "", msg: format!("building the initial world panicked: {}", text(&*e)) };
                    if p.kinds.contains(&Panic) {
                        violation = Some((f, cs, prog.describe(env)));
                        break 'outer;
                    }
                    foreign.entry("Panic".into()).or_insert((0, f.msg)).0 += 1;
                    break;
                }
            };
            for l in &s.logs {
                *l.lock().unwrap_or_else(|e| e.into_inner()) = Log::default();
            }
            let w = Box::into_raw(Box::new(w));
            *s.mine.lock().unwrap() = Arc::new(own.as_ref().map_or(vec![], |o| o.start()));
            s.world.store(w, Release);
            s.seed.store(mix(cs, rep), Relaxed);
            s.done.store(0, Release);
            s.epoch.store(rep + 1, Release);
            let mut seen = Seen { events: 0, overlap: false, handles: 0, nodes: 0, gave_up: false, hash: 0 };
            let waited = wait(s, nt);
            if !matches!(waited, Wait::Done) {
                hung = true;
                let l: Vec<(Option<String>, bool)> = s
                    .logs
                    .iter()
                    .map(|l| {
                        let l = l.lock().unwrap_or_else(|e| e.into_inner());
                        (l.pending.as_ref().map(|x| x.1.clone()), l.handle.is_some())
                    })
                    .collect();
                let held = l.iter().any(|x| x.1);
                let m: Vec<String> = l.iter().enumerate().filter_map(|(t, x)| x.0.as_ref().map(|x| format!("thread {t} in {x}"))).collect();
                let f = CFail { kind: Deadlock, also: "", msg: format!("no thread can continue: {}", m.join("; ")) };
                let logs: Vec<Vec<Event>> = s.logs.iter().map(|l| l.lock().unwrap_or_else(|e| e.into_inner()).events.clone()).collect();
                if matches!(waited, Wait::Blocked) && p.kinds.contains(&Deadlock) && !(p.w.id == "C14" && held) {
                    violation = Some((f, cs, trace(prog, &logs, env)));
                } else {
                    foreign.entry(if matches!(waited, Wait::Slow) { "Slow" } else { "Deadlock" }.into()).or_insert((0, f.msg)).0 += 1;
                }
                break 'outer;
            }
            let logs: Vec<Vec<Event>> = s.logs.iter().map(|l| std::mem::take(&mut l.lock().unwrap_or_else(|e| e.into_inner()).events)).collect();
            let w = *unsafe { Box::from_raw(w) };
            let mut mine: Vec<Mine> = vec![];
            for m in Arc::try_unwrap(std::mem::replace(&mut *s.mine.lock().unwrap(), Arc::new(vec![]))).ok().into_iter().flatten() {
                mine.push(m.into_inner().unwrap_or_else(|e| e.into_inner()));
            }
            let mut spans: Vec<(u64, u64, usize)> =
                logs.iter().enumerate().flat_map(|(t, l)| l.iter().map(move |e| (e.call, e.ret, t))).collect();
            spans.sort();
            seen.events = spans.len();
            seen.overlap = spans.windows(2).any(|x| x[0].2 != x[1].2 && x[1].0 < x[0].1);
            let first = spans.first().map_or(0, |x| x.0);
            seen.hash = spans.iter().fold(cs, |h, x| mix(h, (x.0 - first) << 20 ^ (x.1 - first) << 4 ^ x.2 as u64));
            let f = s.failed.lock().unwrap().take();
            if let Some(o) = own {
                seen.events = mine.iter().map(|m| m.calls as usize).sum();
                // the threads run for long beside each other
                seen.overlap = true;
                seen.hash = mine.iter().fold(mix(cs, rep), |h, m| mix(h, m.rows));
                long += 1;
                let _ = o;
            }
            let f = if f.is_some() { f } else { judge(p, own, &mine, prog, &logs, w, env, exprs, &mut seen) };
            ops += seen.events as u64;
            let mut add = |k, v: u64| *c.entry(k).or_default() += v;
            add("rows of a thread's own entities", mine.iter().map(|m| m.rows).sum());
            add("search states", seen.nodes as u64);
            add("histories with overlapping calls", seen.overlap as u64);
            add("explanations given up", seen.gave_up as u64);
            add("calls about an entity during another thread's handle of it", seen.handles);
            match f {
                None => {
                    if seen.overlap && !seen.gave_up {
                        non += 1;
                        if hashes.len() < 400_000 && hashes.insert(seen.hash) && sample.is_empty() {
                            sample = told(own, &mine, prog, &logs, env);
                        }
                    }
                }
                Some(f) if p.kinds.contains(&f.kind) || f.also == p.w.id => {
                    violation = Some((f, cs, told(own, &mine, prog, &logs, env)));
                    break 'outer;
                }
                Some(f) => {
                    foreign.entry(format!("{:?}", f.kind)).or_insert((0, f.msg.clone())).0 += 1;
                }
            }
            if start.elapsed() > Duration::from_secs(secs) && only.is_none() {
                break;
            }
        }
        s.epoch.store(u64::MAX, Release);
        for t in threads {
            let _ = t.join();
        }
    }
    c.insert("programs", programs);
    c.insert("long runs, each thread on entities of its own", long);
    let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","));
    let mut o = format!(
        "{{\"evaluations\":{n},\"ops\":{ops},\"nontrivial\":{non},\"counters\":{{{}}},\"foreign\":{{{}}},\"sample\":{},\"hashes\":[{}],\"rule\":{},",
        c.iter().map(|(k, v)| format!("{}:{v}", quote(k))).collect::<Vec<_>>().join(","),
        foreign.iter().map(|(k, v)| format!("{}:[{},{}]", quote(k), v.0, quote(&v.1))).collect::<Vec<_>>().join(","),
        arr(&sample),
        hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(","),
        quote("a random program of 2 to 4 threads run by the processor, repeated with random pauses; non-trivial if calls of different threads overlapped and the history was explained")
    );
    let code = match &violation {
        None => {
            o += "\"violation\":null}";
            0
        }
        Some((f, cs, t)) => {
            o += &format!(
                "\"violation\":{{\"kind\":{},\"message\":{},\"replay\":{},\"trace\":{}}}}}",
                quote(&format!("{:?}", f.kind)),
                quote(&f.msg),
                quote(&format!("@stress\nstress {} {cs}\n", p.w.id)).replace("@stress ", "@stress\\n"),
                arr(t)
            );
            1
        }
    };
    match get("--out") {
        Some(f) => std::fs::write(f, o).expect("writing the result"),
        None => println!("{o}"),
    }
    let _ = hung;
    std::process::exit(code)
}
extern "C" {
    fn gettid() -> i32;
}
