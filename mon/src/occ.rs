//! Who is inside, and who keeps what alive, under the scheduler: see `moncore::occ` and `moncore::keep`.
use crate::conc::{env, strategy};
use crate::{arr, js, Args};
use moncore::comps::*;
use moncore::conc::{CFail, CKind, Env};
use moncore::keep::Keep;
use moncore::occ::{Occ, Play, Table, Told};
use moncore::rng::mix;
use parking_lot::monitor::{self, Outcome, Strategy};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn run<P: Play>(o: &P, sched: u64, env: &Env) -> (Outcome, Told) {
    reg_reset();
    monitor::set_solo(true);
    monitor::reset_held();
    let built = catch_unwind(AssertUnwindSafe(|| o.build()));
    monitor::set_solo(false);
    let w = match built {
        Ok(w) => w,
        Err(e) => {
            let panics = Some(format!("building the world: {}", monitor::panic_text(&*e)));
            return (Outcome::default(), Told { panics, ..Told::default() });
        }
    };
    let strategy = match strategy(sched) {
        Strategy::Pct { depth, len } => Strategy::Pct { depth: depth * 3, len: len * 10 },
        s => s,
    };
    let table = Table::default();
    let out = monitor::run_threads(
        sched,
        strategy,
        400_000,
        (0..o.threads())
            .map(|t| {
                let (w, table) = (&w, &table);
                Box::new(move || o.run(env, t, w, table, sched)) as Box<dyn FnOnce() + Send + '_>
            })
            .collect(),
    );
    let mut told = table.tell();
    let whole = told.failed.is_none() && told.panics.is_none() && out.deadlock.is_none() && !out.livelock && out.panics.iter().all(|p| p.is_none());
    monitor::set_solo(true);
    monitor::reset_held();
    if whole {
        let r = catch_unwind(AssertUnwindSafe(|| o.judge(env, w, &table)));
        told = table.tell();
        if let (Err(e), None) = (r, &told.failed) {
            let msg = format!("looking at the world after the run panicked: {}", monitor::panic_text(&*e));
            told.failed = Some(CFail { kind: CKind::Final, also: "C13", msg });
        }
    } else {
        let _ = catch_unwind(AssertUnwindSafe(move || drop(w)));
    }
    monitor::set_solo(false);
    (out, told)
}
pub fn occ(a: &Args) -> i32 {
    match a.get("--kind").or(a.0.get(1).cloned()).as_deref() {
        Some("keep") => play::<Keep>(a, "keep"),
        _ => play::<Occ>(a, "occ"),
    }
}
fn play<P: Play>(a: &Args, kind: &str) -> i32 {
    let prop = a.get("--prop").unwrap_or("C12".into());
    let secs = Duration::from_secs(a.num("--secs", 20));
    let seed = a.num("--seed", 1);
    let only = a.get("--case").map(|v| v.parse::<u64>().unwrap());
    let on = a.get("--sched").map(|v| v.parse::<u64>().unwrap());
    let status = a.get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let env = env();
    let start = Instant::now();
    let mut c: BTreeMap<&str, u64> = BTreeMap::new();
    let mut foreign: BTreeMap<&str, (u64, String)> = BTreeMap::new();
    let (mut n, mut ops, mut non) = (0u64, 0u64, 0u64);
    let mut hashes = HashSet::new();
    let mut sample = vec![];
    let mut violation = None;
    let mut turn = 0;
    'all: while start.elapsed() < secs && (only.is_none() || turn == 0) {
        let cs = only.unwrap_or(mix(mix(seed, 0x0CC), turn));
        turn += 1;
        let o = P::gen(cs, &env, true);
        // hash tables make the order of some accesses differ from run to run
        for i in 0..if on.is_some() { 100 } else { 4 } {
            let sched = on.unwrap_or(mix(cs, i));
            n += 1;
            if let Some(f) = &status {
                use std::os::unix::fs::FileExt;
                let _ = f.write_all_at(format!("{kind} {prop} {cs} {sched:<24}\n").as_bytes(), 0);
            }
            let (out, t) = run(&o, sched, &env);
            ops += t.entered + t.structural;
            let mut add = |k, v: u64| *c.entry(k).or_default() += v;
            add("accesses entered", t.entered);
            add("accesses shared with another thread", t.shared);
            add("structural changes beside them", t.structural);
            add("steps of queries", t.steps);
            add("context switches", out.switches);
            add("waits for a lock", out.blocks);
            let stuck = out.deadlock.as_ref().filter(|_| kind == "keep" && (prop == "C15" || prop == "C14" && t.handles == 0)).map(|d| CFail {
                kind: CKind::Deadlock,
                also: "",
                msg: format!("no thread can continue: {} [{d}]", t.doing.join("; ")),
            });
            let mine = t.failed.clone().filter(|f| f.also.contains(&prop));
            if let Some(f) = mine.or(stuck) {
                violation = Some((f, o.describe(&env), format!("{kind} {prop} {cs} {sched}\n")));
                break 'all;
            }
            let other = if let Some(f) = t.failed {
                Some(("Other", f.msg))
            } else if let Some(m) = t.panics {
                Some(("Panic", m))
            } else if let Some(d) = out.deadlock {
                // with several accesses held beside structural changes the program may be at fault
                Some(("Deadlock", format!("{} [{d}]", t.doing.join("; "))))
            } else if out.livelock {
                Some(("Livelock", format!("{} steps", out.steps)))
            } else {
                out.panics.iter().flatten().next().map(|m| ("Panic", m.clone()))
            };
            match other {
                Some((k, m)) => foreign.entry(k).or_insert((0, format!("{kind} {cs} {sched}: {m}"))).0 += 1,
                None if out.blocks > 0 && (kind == "occ" || t.structural > 0) || t.shared > 0 => {
                    non += 1;
                    hashes.insert(mix(cs, out.hash));
                    if sample.is_empty() && o.size() < 30 {
                        sample = o.describe(&env);
                    }
                }
                None => {}
            }
        }
    }
    let o = format!(
        "{{\"evaluations\":{n},\"ops\":{ops},\"nontrivial\":{non},\"counters\":{{{}}},\"foreign\":{{{}}},\"sample\":{},\"hashes\":[{}],\"rule\":{},\"violation\":{}}}",
        c.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        foreign.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&v.1))).collect::<Vec<_>>().join(","),
        arr(&sample),
        hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(","),
        js(P::RULE),
        match &violation {
            None => "null".into(),
            Some((f, log, replay)) => format!(
                "{{\"kind\":{},\"message\":{},\"replay\":{},\"trace\":{}}}",
                js(&format!("{:?}", f.kind)),
                js(&f.msg),
                js(replay),
                arr(log)
            ),
        }
    );
    match a.get("--out") {
        Some(f) => std::fs::write(f, o).expect("writing the result"),
        None => println!("{o}"),
    }
    violation.is_some() as i32
}
