//! Who is inside, and who keeps what alive, with real threads and locks: see `moncore::occ` and `moncore::keep`.
use crate::*;
use moncore::keep::Keep;
use moncore::occ::{Occ, Play, Table};

struct Run<P> {
    o: P,
    /// read by every thread; taken when all of them are done
    w: std::sync::RwLock<Option<World>>,
    table: Table,
    left: AtomicUsize,
    ids: Vec<AtomicUsize>,
}
/// `prop`: with a plus sign, as the programs of `main` have the plain names
pub fn main(prop: &str, seed: u64, secs: u64, only: Option<u64>, status: Option<String>, out: Option<String>) {
    if prop == "C12+" {
        play::<Occ>(prop, seed, secs, only, status, out)
    } else {
        play::<Keep>(prop, seed, secs, only, status, out)
    }
}
fn play<P: Play>(name: &str, seed: u64, secs: u64, only: Option<u64>, status: Option<String>, out: Option<String>) {
    let prop = name.trim_end_matches('+');
    let keep = prop != "C12";
    let status = status.map(|f| std::fs::File::create(f).expect("status file"));
    let env: &'static Env = Box::leak(Box::new(Env::new((0..NSHAPES).map(|i| &PARTS[i % PARTS.len()][i / PARTS.len()]).collect(), pause, nofatal, text)));
    let start = Instant::now();
    let mut c: BTreeMap<&str, u64> = BTreeMap::new();
    let mut foreign: BTreeMap<&str, (u64, String)> = BTreeMap::new();
    let (mut n, mut ops, mut non, mut turn) = (0u64, 0u64, 0u64, 0u64);
    let mut hashes = HashSet::new();
    let mut sample = vec![];
    let mut violation = None;
    'all: while start.elapsed() < Duration::from_secs(secs) && (only.is_none() || turn == 0) {
        let cs = only.unwrap_or(mix(mix(seed, 0x0CCC), turn));
        turn += 1;
        for rep in 0..if only.is_some() { 3000 } else { 10 } {
            if start.elapsed() > Duration::from_secs(secs) && only.is_none() {
                break 'all;
            }
            n += 1;
            if let Some(f) = &status {
                let _ = f.write_all_at(format!("stress {name} {cs:<24}\n").as_bytes(), 0);
            }
            reg_reset();
            let o = P::gen(cs, env, false);
            let w = match catch_unwind(AssertUnwindSafe(|| o.build())) {
                Ok(w) => w,
                Err(e) => {
                    foreign.entry("Panic").or_insert((0, text(&*e))).0 += 1;
                    break;
                }
            };
            let nt = o.threads();
            // a thread which hangs is left behind with what it uses
            let r = Arc::new(Run {
                o,
                w: std::sync::RwLock::new(Some(w)),
                table: Table::default(),
                left: AtomicUsize::new(nt),
                ids: (0..nt).map(|_| AtomicUsize::new(0)).collect(),
            });
            let ready = Arc::new(std::sync::Barrier::new(nt));
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    let (r, ready) = (r.clone(), ready.clone());
                    std::thread::spawn(move || {
                        JITTER.with(|j| j.set(mix(mix(cs, rep), t as u64)));
                        r.ids[t].store(unsafe { gettid() } as usize, Release);
                        ready.wait();
                        let x = {
                            let w = r.w.read().unwrap();
                            catch_unwind(AssertUnwindSafe(|| r.o.run(env, t, w.as_ref().unwrap(), &r.table, rep)))
                        };
                        r.ids[t].store(0, Release);
                        r.left.fetch_sub(1, AcqRel);
                        x.is_ok()
                    })
                })
                .collect();
            let t0 = Instant::now();
            let mut before = (u64::MAX, Instant::now());
            let mut asleep = 0;
            while r.left.load(Acquire) > 0 {
                std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 5 { 60 } else { 1000 }));
                let t = r.table.tell();
                if t.failed.is_some() {
                    break;
                }
                let did = t.entered + t.structural + t.steps;
                if did != before.0 {
                    before = (did, Instant::now());
                    asleep = 0;
                } else if before.1.elapsed() > Duration::from_secs(15) {
                    std::thread::sleep(Duration::from_millis(100));
                    let ids: Vec<_> = r.ids.iter().map(|i| i.load(Acquire)).filter(|i| *i != 0).collect();
                    asleep = if !ids.is_empty() && ids.iter().all(|i| sleeping(*i as i32)) { asleep + 1 } else { 0 };
                    if asleep < 50 && before.1.elapsed() < Duration::from_secs(90) {
                        continue;
                    }
                    // that calls return is another property than C12
                    let (msg, kind) = (t.doing.join("; "), CKind::Deadlock);
                    if asleep >= 50 && keep && (prop == "C15" || prop == "C14" && t.handles == 0) {
                        let msg = format!("no thread continues: all those which are not done have slept for seconds: {msg}");
                        violation = Some((CFail { kind, also: "", msg }, cs, r.o.describe(env)));
                    } else {
                        foreign.entry("Hang").or_insert((0, msg)).0 += 1;
                    }
                    break 'all;
                }
            }
            let mut t = r.table.tell();
            if t.failed.is_none() {
                for h in hs {
                    let _ = h.join();
                }
                t = r.table.tell();
                if t.failed.is_none() && t.panics.is_none() {
                    let w = r.w.write().ok().and_then(|mut w| w.take());
                    let done = catch_unwind(AssertUnwindSafe(|| w.map(|w| r.o.judge(env, w, &r.table))));
                    t = r.table.tell();
                    if let (Err(e), None) = (done, &t.failed) {
                        let msg = format!("looking at the world after the run panicked: {}", text(&*e));
                        t.failed = Some(CFail { kind: CKind::Final, also: "C13", msg });
                    }
                }
            }
            if let Some(f) = t.failed {
                if f.also.contains(prop) {
                    violation = Some((f, cs, r.o.describe(env)));
                    break 'all;
                }
                foreign.entry("Other").or_insert((0, f.msg)).0 += 1;
                // its threads may not have ended
                break;
            }
            ops += t.entered + t.structural;
            let mut add = |k, v: u64| *c.entry(k).or_default() += v;
            add("accesses entered", t.entered);
            add("accesses shared with another thread", t.shared);
            add("structural changes beside them", t.structural);
            add("steps of queries", t.steps);
            if let Some(m) = t.panics {
                foreign.entry("Panic").or_insert((0, m)).0 += 1;
            } else if t.shared > 0 || keep && t.structural > 0 {
                non += 1;
                hashes.insert(mix(cs, mix(t.shared, mix(t.structural, t.steps))));
                if sample.is_empty() && r.o.size() < 30 {
                    sample = r.o.describe(env);
                }
            }
        }
    }
    let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","));
    let o = format!(
        "{{\"evaluations\":{n},\"ops\":{ops},\"nontrivial\":{non},\"counters\":{{{}}},\"foreign\":{{{}}},\"sample\":{},\"hashes\":[{}],\"rule\":{},\"violation\":{}}}",
        c.iter().map(|(k, v)| format!("{}:{v}", quote(k))).collect::<Vec<_>>().join(","),
        foreign.iter().map(|(k, v)| format!("{}:[{},{}]", quote(k), v.0, quote(&v.1))).collect::<Vec<_>>().join(","),
        arr(&sample),
        hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(","),
        quote(P::RULE),
        match &violation {
            None => "null".into(),
            Some((f, cs, t)) => format!(
                "{{\"kind\":{},\"message\":{},\"replay\":{},\"trace\":{}}}",
                quote(&format!("{:?}", f.kind)),
                quote(&f.msg),
                format!("\"@stress\\nstress {name} {cs}\\n\""),
                arr(t)
            ),
        }
    );
    match out {
        Some(f) => std::fs::write(f, o).expect("writing the result"),
        None => println!("{o}"),
    }
    std::process::exit(violation.is_some() as i32)
}
