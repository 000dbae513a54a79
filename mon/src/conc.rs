//! Concurrent programs under the deterministic scheduler.
use crate::shapes::*;
use crate::{arr, js, Args};
use moncore::comps::*;
use moncore::conc::{self as mc, *};
use moncore::model::Expr;
use moncore::own::{Mine, Own};
use moncore::rng::mix;
use parking_lot::monitor::{self, Outcome, Strategy};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

//                                       cr ba ha at de rm ex rd wr st sw qu gq
const W_LIN: [u32; 13] =                [ 5, 3, 6, 8, 6, 7, 3, 5, 4, 3, 2, 6, 8];
const W_HANDLE: [u32; 13] =             [10, 6,14, 3, 2,12, 5, 3, 1, 0, 0, 0, 0];
const W_LOCK: [u32; 13] =               [ 4, 3, 8, 8, 8, 8, 2, 3, 3, 2, 2,10,14];
const W_IDS: [u32; 13] =                [14, 8, 4, 2, 1,14, 6, 0, 0, 0, 0, 0, 0];
const W_REM: [u32; 13] =                [ 5, 3, 6, 8, 4,14, 2, 1, 1, 1, 1, 2, 3];
const W_EXCL: [u32; 13] =               [ 0, 0, 3, 6, 5, 2, 0,10,10, 8, 6,14, 0];

pub struct CProfile {
    pub w: Workload,
    pub kinds: &'static [CKind],
    pub rule: &'static str,
}
use CKind::*;
impl CProfile {
    fn counts(&self, f: &CFail) -> bool {
        self.kinds.contains(&f.kind) || f.also == self.w.id
    }
}
/// a property of histories, looked at after concurrent ones
const fn after(id: &'static str, weights: [u32; 13], max_ops: usize) -> CProfile {
    CProfile {
        w: Workload { id, weights, max_threads: 4, max_ops, groups: true, multi: true, lin: false },
        kinds: &[],
        rule: "a random program of 2 to 4 threads, under a random or PCT schedule, and a look at everything once all calls have returned; non-trivial if calls overlapped",
    }
}
pub static CPROFILES: &[CProfile] = &[
    after("C01", W_LIN, 5),
    after("C02", W_IDS, 5),
    after("C03", W_REM, 5),
    after("C04", W_LIN, 5),
    after("C05", W_LIN, 5),
    after("C07", W_LIN, 5),
    after("C10", W_LIN, 5),
    CProfile {
        w: Workload { id: "C12", weights: W_EXCL, max_threads: 4, max_ops: 4, groups: false, multi: false, lin: true },
        kinds: &[Lin, Final, Panic, Deadlock, Livelock],
        rule: "a random program of 2 to 4 threads taking one guard or query at a time and re-reading through it, under a random or PCT schedule; non-trivial if at least one access had to wait for another",
    },
    CProfile {
        w: Workload { id: "C13", weights: W_LIN, max_threads: 4, max_ops: 4, groups: true, multi: true, lin: true },
        kinds: &[Lin, Final, Panic],
        rule: "a random program of 2 to 4 threads over few entities and components with up to 4 groups, under a random or PCT schedule; non-trivial if calls overlapped and the history was explained by the sequential model",
    },
    CProfile {
        w: Workload { id: "C14", weights: W_HANDLE, max_threads: 4, max_ops: 3, groups: true, multi: false, lin: true },
        kinds: &[Lin, Final, Panic, Handle, Deadlock],
        rule: "a random program of handle chains, batches and removals, under a random or PCT schedule; non-trivial if a call about an entity overlapped another thread's live handle of it",
    },
    CProfile {
        w: Workload { id: "C15", weights: W_LOCK, max_threads: 5, max_ops: 6, groups: true, multi: true, lin: false },
        kinds: &[Deadlock, Livelock],
        rule: "a random program of 2 to 5 threads obeying the lock discipline, under a random or PCT schedule; non-trivial if a thread had to wait for a lock",
    },
];
pub fn cprofile(id: &str) -> Option<&'static CProfile> {
    CPROFILES.iter().find(|p| p.w.id == id)
}
fn fatal(p: &(dyn Any + Send)) -> bool {
    p.is::<monitor::RunAborted>()
}
fn text(p: &(dyn Any + Send)) -> String {
    monitor::panic_text(p)
}
pub fn env() -> Env {
    Env::new((0..NSHAPES).map(shape).collect(), monitor::yield_point, fatal, text)
}
pub fn strategy(s: u64) -> Strategy {
    match s % 8 {
        0 => Strategy::Random { keep: 0 },
        1 | 2 => Strategy::Random { keep: 128 },
        3 => Strategy::Random { keep: 220 },
        4 => Strategy::Pct { depth: 1, len: 40 },
        5 => Strategy::Pct { depth: 2, len: 60 },
        6 => Strategy::Pct { depth: 3, len: 80 },
        _ => Strategy::Pct { depth: 5, len: 120 },
    }
}
pub struct Run {
    pub out: Outcome,
    pub logs: Vec<Vec<Event>>,
    pub pending: Vec<Option<(u64, String)>>,
    pub about_handles: u64,
    pub nodes: usize,
    pub gave_up: bool,
    pub overlap: bool,
}
const BUDGET: usize = 60_000;

/// One run of one program under one schedule.
pub fn run_one(p: &CProfile, prog: &Prog, sched: u64, env: &Env, exprs: &[Expr]) -> (Run, Option<CFail>) {
    reg_reset();
    monitor::set_solo(true);
    monitor::reset_held();
    let built = catch_unwind(AssertUnwindSafe(|| prog.build()));
    monitor::set_solo(false);
    let mut r = Run {
        out: Outcome::default(),
        logs: vec![],
        pending: vec![],
        about_handles: 0,
        nodes: 0,
        gave_up: false,
        overlap: false,
    };
    let mut w = match built {
        Ok(w) => w,
        Err(e) => {
            let f = CFail { kind: CKind::Panic, also: "", msg: format!("building the initial world panicked: {}", text(&*e)) };
            return (r, Some(f));
        }
    };
    let logs: Vec<Mutex<Log>> = prog.threads.iter().map(|_| Mutex::new(Log::default())).collect();
    let wr = &w;
    r.out = monitor::run_threads(
        sched,
        strategy(sched),
        20_000,
        prog.threads
            .iter()
            .zip(&logs)
            .map(|(ops, log)| Box::new(move || Exec::new(env, log).run(wr, ops)) as Box<dyn FnOnce() + Send + '_>)
            .collect(),
    );
    let mut handles = vec![];
    for l in logs {
        let l = l.into_inner().unwrap_or_else(|e| e.into_inner());
        handles.push(l.handle);
        r.pending.push(l.pending);
        r.logs.push(l.events);
    }
    let mut spans: Vec<(u64, u64, usize)> =
        r.logs.iter().enumerate().flat_map(|(t, l)| l.iter().map(move |e| (e.call, e.ret, t))).collect();
    spans.sort();
    r.overlap = spans.windows(2).any(|x| x[0].2 != x[1].2 && x[1].0 < x[0].1);
    let f = (|| -> Option<CFail> {
        let fail = |kind, msg: String| Some(CFail { kind, also: "", msg });
        if let Some(d) = &r.out.deadlock {
            let waiting = r
                .pending
                .iter()
                .enumerate()
                .filter_map(|(t, x)| x.as_ref().map(|x| format!("thread {t} in {}{}", x.1, if handles[t].is_some() { " (holding a handle)" } else { "" })))
                .collect::<Vec<_>>()
                .join("; ");
            // the removal of an entity waits although nobody holds a handle
            let no_handle = handles.iter().all(|h| h.is_none());
            if p.w.id == "C14" && !no_handle {
                return None;
            }
            return fail(CKind::Deadlock, format!("no thread can continue: {waiting} [{d}]"));
        }
        if r.out.livelock {
            return fail(CKind::Livelock, format!("the run did not end within {} steps", r.out.steps));
        }
        for (t, l) in r.logs.iter().enumerate() {
            if let Some(Event { ev: Ev::Panicked(m), .. }) = l.last() {
                return fail(CKind::Panic, format!("a call of thread {t} panicked: {m}"));
            }
        }
        if let Some(m) = r.out.panics.iter().flatten().next() {
            return fail(CKind::Panic, format!("a thread panicked outside a call: {m}"));
        }
        None
    })();
    if f.is_some() || r.out.deadlock.is_some() {
        // the world may be in any state; do not let its destruction hide the verdict
        let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
        return (r, f);
    }
    if p.w.id == "C15" {
        drop(w);
        return (r, None);
    }
    match handle_monitor(&r.logs) {
        Ok(n) => r.about_handles = n,
        Err(f) => return (r, Some(f)),
    }
    if let Err(f) = ids_monitor(prog, &r.logs) {
        return (r, Some(f));
    }
    let next = next_id(prog, &r.logs);
    monitor::set_solo(true);
    monitor::reset_held();
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<FinalState, CFail> {
        let fin = audit(&mut w, prog, env, next + 3)?;
        let (t, g) = stored(&fin);
        let (at, ag) = (reg().alive.as_ref().map_or(0, |a| a.len()) as i64, G_ALIVE.load(std::sync::atomic::Ordering::SeqCst));
        if at != t || ag != g {
            return Err(CFail { kind: CKind::Final, also: "C10", msg: format!("{at} tracked and {ag} counted values are alive after the run, {t} and {g} are stored") });
        }
        audit_ids(&w, next, &fin.live)?;
        Ok(fin)
    }));
    monitor::set_solo(false);
    let fin = match res {
        Ok(Ok(f)) => f,
        Ok(Err(f)) => return (r, Some(f)),
        Err(e) => {
            let m = text(&*e);
            return (r, Some(CFail { kind: CKind::Final, also: "", msg: format!("looking at the world after the run panicked: {m}") }));
        }
    };
    drop(w);
    let left = reg().alive.as_ref().map_or(0, |a| a.len());
    let errs = reg().errors.clone();
    if left != 0 || !errs.is_empty() {
        let f = CFail { kind: CKind::Final, also: "C10", msg: format!("{left} values are left after the world was dropped; {errs:?}") };
        return (r, Some(f));
    }
    if p.w.lin {
        let (l, n) = explain(prog, &r.logs, exprs, Some(&fin), BUDGET);
        r.nodes = n;
        match l {
            mc::Lin::Explained => {}
            mc::Lin::GaveUp => r.gave_up = true,
            mc::Lin::Unexplained => {
                let f = CFail {
                    kind: CKind::Lin,
                    also: "",
                    msg: format!("no order of the calls explains the results and the final state {:?} (existing: {:?})", fin.comps, fin.live),
                };
                return (r, Some(f));
            }
        }
    }
    (r, None)
}
/// whether this program is a long one in which every thread has entities of its own
fn long(p: &CProfile, cs: u64) -> bool {
    p.kinds.is_empty() && mix(cs, 5) % 5 == 0 || matches!(p.w.id, "C13" | "C15") && mix(cs, 5) % 9 == 0
}
struct Long {
    out: Outcome,
    mine: Vec<Mine>,
    pending: Vec<Option<(u64, String)>>,
}
fn run_long(o: &Own, sched: u64, env: &Env, exprs: &[Expr]) -> (Long, Option<CFail>) {
    reg_reset();
    monitor::set_solo(true);
    monitor::reset_held();
    let built = catch_unwind(AssertUnwindSafe(|| o.prog.build()));
    monitor::set_solo(false);
    let mut r = Long { out: Outcome::default(), mine: vec![], pending: vec![] };
    let w = match built {
        Ok(w) => w,
        Err(e) => return (r, Some(CFail { kind: CKind::Panic, also: "", msg: format!("building the initial world panicked: {}", text(&*e)) })),
    };
    let mine = o.start();
    let logs: Vec<Mutex<Log>> = (0..o.nt).map(|_| Mutex::new(Log::default())).collect();
    let failed: Mutex<Option<CFail>> = Mutex::new(None);
    let strategy = match strategy(sched) {
        Strategy::Pct { depth, len } => Strategy::Pct { depth: depth * 2, len: len * (1 + o.nops as u32 / 6) },
        s => s,
    };
    r.out = monitor::run_threads(
        sched,
        strategy,
        400_000,
        (0..o.nt)
            .map(|t| {
                let (w, mine, logs, failed) = (&w, &mine, &logs, &failed);
                Box::new(move || {
                    if let Err(f) = o.run(env, exprs, &mine[t], &logs[t], w, sched) {
                        *failed.lock().unwrap_or_else(|e| e.into_inner()) = Some(f);
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect(),
    );
    r.mine = mine.into_iter().map(|m| m.into_inner().unwrap_or_else(|e| e.into_inner())).collect();
    r.pending = logs.into_iter().map(|l| l.into_inner().unwrap_or_else(|e| e.into_inner()).pending).collect();
    let failed = failed.into_inner().unwrap_or_else(|e| e.into_inner());
    let f = if failed.is_some() {
        failed
    } else if let Some(d) = &r.out.deadlock {
        let m: Vec<String> = r.pending.iter().enumerate().filter_map(|(t, x)| x.as_ref().map(|x| format!("thread {t} in {}", x.1))).collect();
        Some(CFail { kind: CKind::Deadlock, also: "", msg: format!("no thread can continue: {} [{d}]", m.join("; ")) })
    } else if r.out.livelock {
        Some(CFail { kind: CKind::Livelock, also: "", msg: format!("the run did not end within {} steps", r.out.steps) })
    } else {
        r.out.panics.iter().flatten().next().map(|m| CFail { kind: CKind::Panic, also: "", msg: format!("a thread panicked outside a call: {m}") })
    };
    if f.is_some() {
        let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
        return (r, f);
    }
    monitor::set_solo(true);
    monitor::reset_held();
    let res = catch_unwind(AssertUnwindSafe(|| o.judge(w, env, &r.mine)));
    monitor::set_solo(false);
    let f = match res {
        Ok(x) => x.err(),
        Err(e) => Some(CFail { kind: CKind::Final, also: "", msg: format!("looking at the world after the run panicked: {}", text(&*e)) }),
    };
    (r, f)
}
fn trace(prog: &Prog, r: &Run, env: &Env) -> Vec<String> {
    let mut t = prog.describe(env);
    let mut ev: Vec<(u64, String)> = vec![];
    for (i, l) in r.logs.iter().enumerate() {
        for e in l {
            let d = match &e.ev {
                Ev::Query { shape, rows, writes, complete } => {
                    format!("query {} -> {:?} wrote {writes:?} complete {complete}", env.shapes[*shape].name, rows.iter().map(|r| (r.id, r.toks.clone())).collect::<Vec<_>>())
                }
                e => format!("{e:?}"),
            };
            ev.push((e.call, format!("[{}..{}] thread {i}: {d}", e.call, e.ret)));
        }
        if let Some((c, p)) = &r.pending[i] {
            ev.push((*c, format!("[{c}..    ] thread {i}: {p} does not return")));
        }
    }
    ev.sort();
    t.extend(ev.into_iter().map(|e| e.1));
    t
}
fn shrink(p: &CProfile, prog: &Prog, kind: CKind, sched: u64, env: &Env, exprs: &[Expr]) -> (BTreeSet<usize>, u64) {
    let t0 = Instant::now();
    let mut drop = BTreeSet::new();
    let mut best = sched;
    let mut again = true;
    while again {
        again = false;
        for i in 0..prog.nops() {
            if drop.contains(&i) {
                continue;
            }
            let mut d = drop.clone();
            d.insert(i);
            let q = prog.without(&d);
            for s in std::iter::once(best).chain((0..60).map(|j| mix(sched, j + 1))) {
                if t0.elapsed() > Duration::from_secs(15) {
                    return (drop, best);
                }
                if let (_, Some(f)) = run_one(p, &q, s, env, exprs) {
                    if f.kind == kind && p.counts(&f) {
                        drop = d.clone();
                        best = s;
                        again = true;
                        break;
                    }
                }
            }
        }
    }
    (drop, best)
}

pub fn conc(a: &Args) -> i32 {
    let p = cprofile(&a.get("--prop").expect("--prop")).expect("profile");
    let seed = a.num("--seed", 1);
    let secs = a.num("--secs", 10);
    let max = a.num("--cases", u64::MAX);
    let env = env();
    let exprs: Vec<Expr> = env.shapes.iter().map(|e| (e.desc)()).collect();
    let status = a.get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let start = Instant::now();
    let (mut n, mut ops, mut nontrivial, mut programs) = (0u64, 0u64, 0u64, 0u64);
    let mut c: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut foreign: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut sample: Option<Vec<String>> = None;
    let mut violation = None;
    let runs = 6;
    'outer: while n < max && start.elapsed() < Duration::from_secs(secs) {
        let cs = mix(mix(seed, 0xC0C0), programs);
        programs += 1;
        if long(p, cs) {
            let o = Own::gen(&p.w, cs, &env, 60);
            for i in 0..runs {
                let sched = mix(cs, i);
                n += 1;
                if let Some(f) = &status {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_all_at(format!("conc {} {} {:<24}\n", p.w.id, cs, sched).as_bytes(), 0);
                }
                let (r, f) = run_long(&o, sched, &env, &exprs);
                let calls: u64 = r.mine.iter().map(|m| m.calls).sum();
                ops += calls;
                let mut add = |k, v: u64| *c.entry(k).or_default() += v;
                add("context switches", r.out.switches);
                add("waits for a lock", r.out.blocks);
                add("scheduling steps", r.out.steps);
                add("long runs, each thread on entities of its own", 1);
                add("rows of a thread's own entities", r.mine.iter().map(|m| m.rows).sum());
                match f {
                    None => {
                        if r.out.switches > 0 {
                            nontrivial += 1;
                            hashes.insert(mix(cs, r.out.hash));
                        }
                    }
                    Some(f) if p.counts(&f) => {
                        violation = Some((f, format!("conc {} {} {}\n", p.w.id, cs, sched), o.trace(&env, &r.mine)));
                        break 'outer;
                    }
                    Some(f) => foreign.entry(format!("{:?}", f.kind)).or_insert((0, f.msg.clone())).0 += 1,
                }
            }
            continue;
        }
        let prog = Prog::gen(&p.w, cs, &env);
        if prog.threads.iter().filter(|t| !t.is_empty()).count() < 2 {
            continue;
        }
        for i in 0..runs {
            let sched = mix(cs, i);
            n += 1;
            if let Some(f) = &status {
                use std::os::unix::fs::FileExt;
                let _ = f.write_all_at(format!("conc {} {} {:<24}\n", p.w.id, cs, sched).as_bytes(), 0);
            }
            let (r, f) = run_one(p, &prog, sched, &env, &exprs);
            ops += r.logs.iter().map(|l| l.len() as u64).sum::<u64>();
            let mut add = |k, v: u64| *c.entry(k).or_default() += v;
            add("context switches", r.out.switches);
            add("waits for a lock", r.out.blocks);
            add("scheduling steps", r.out.steps);
            add("search states", r.nodes as u64);
            add("histories with overlapping calls", r.overlap as u64);
            add("explanations given up", r.gave_up as u64);
            add("calls about an entity during another thread's handle of it", r.about_handles);
            for e in r.logs.iter().flatten() {
                add(
                    match &e.ev {
                        Ev::Alloc(_) | Ev::AllocN(..) => "creations",
                        Ev::Attach(.., true) | Ev::HAttach(..) => "attachments",
                        Ev::Detach(_, _, Ok(_)) | Ev::HDetach(..) => "detachments",
                        Ev::Remove(_, true) | Ev::HRemove(_) => "removals",
                        Ev::Query { .. } => "queries",
                        Ev::Attach(.., false) | Ev::Detach(_, _, Err(_)) | Ev::Remove(_, false) => "refusals",
                        _ => "other calls",
                    },
                    1,
                )
            }
            match f {
                None => {
                    let nt = match p.w.id {
                        "C12" | "C15" => r.out.blocks > 0,
                        "C13" => r.overlap && !r.gave_up,
                        "C14" => r.about_handles > 0,
                        _ => r.overlap,
                    };
                    if nt {
                        nontrivial += 1;
                        if hashes.insert(mix(cs, r.out.hash)) && sample.is_none() {
                            sample = Some(trace(&prog, &r, &env));
                        }
                    }
                }
                Some(f) if p.counts(&f) => {
                    let (drop, s) = shrink(p, &prog, f.kind, sched, &env, &exprs);
                    let q = prog.without(&drop);
                    let (r2, f2) = run_one(p, &q, s, &env, &exprs);
                    let (q, r, f, s, drop) = match f2 {
                        Some(g) if g.kind == f.kind && p.counts(&g) => (q, r2, g, s, drop),
                        _ => (prog.clone(), r, f, sched, BTreeSet::new()),
                    };
                    let d: Vec<String> = drop.iter().map(|x| x.to_string()).collect();
                    violation = Some((f, format!("conc {} {} {} {}\n", p.w.id, cs, s, d.join(",")), trace(&q, &r, &env)));
                    break 'outer;
                }
                Some(f) => {
                    let e = foreign.entry(format!("{:?}", f.kind)).or_insert((0, f.msg.clone()));
                    e.0 += 1;
                }
            }
        }
    }
    let mut o = String::from("{");
    c.insert("programs", programs);
    o += &format!("\"evaluations\":{n},\"ops\":{ops},\"nontrivial\":{nontrivial},");
    o += &format!("\"counters\":{{{}}},", c.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"foreign\":{{{}}},",
        foreign.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&v.1))).collect::<Vec<_>>().join(",")
    );
    o += &format!("\"sample\":{},", arr(&sample.unwrap_or_default()));
    o += &format!("\"hashes\":[{}],", hashes.iter().take(400_000).map(|h| h.to_string()).collect::<Vec<_>>().join(","));
    o += &format!("\"rule\":{},", js(p.rule));
    let code = match &violation {
        None => {
            o += "\"violation\":null}";
            0
        }
        Some((f, rep, t)) => {
            o += &format!(
                "\"violation\":{{\"kind\":{},\"message\":{},\"replay\":{},\"trace\":{}}}}}",
                js(&format!("{:?}", f.kind)),
                js(&f.msg),
                js(rep),
                arr(t)
            );
            1
        }
    };
    match a.get("--out") {
        Some(f) => std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("writing the result"),
        None => println!("{o}"),
    }
    code
}
pub fn replay(line: &str) -> i32 {
    let mut x = line.split_whitespace().skip(1);
    let p = cprofile(x.next().expect("property")).expect("profile");
    let cs: u64 = x.next().and_then(|v| v.parse().ok()).expect("seed");
    let sched: u64 = x.next().and_then(|v| v.parse().ok()).expect("schedule");
    let drop: BTreeSet<usize> = x.next().map(|v| v.split(',').filter_map(|v| v.parse().ok()).collect()).unwrap_or_default();
    let env = env();
    let exprs: Vec<Expr> = env.shapes.iter().map(|e| (e.desc)()).collect();
    if long(p, cs) {
        let o = Own::gen(&p.w, cs, &env, 60);
        let (r, f) = run_long(&o, sched, &env, &exprs);
        for l in o.trace(&env, &r.mine) {
            println!("  {l}");
        }
        println!("{}", f.as_ref().map_or("no violation".into(), |f| format!("{:?}: {}", f.kind, f.msg)));
        return f.is_some() as i32;
    }
    let prog = Prog::gen(&p.w, cs, &env).without(&drop);
    let (r, f) = run_one(p, &prog, sched, &env, &exprs);
    for l in trace(&prog, &r, &env) {
        println!("  {l}");
    }
    match f {
        Some(f) => {
            println!("{:?}: {}", f.kind, f.msg);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
