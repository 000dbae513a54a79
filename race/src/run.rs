/// The loop of the race workers; part of two programs (the real lock crate under the thread sanitizer, the monitored one under
/// the interpreter).
fn run(a: &[String]) -> i32 {
    use std::collections::{BTreeMap, HashSet};
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    use std::time::{Duration, Instant};
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let quote = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
    let (seed, secs, only) = (num("--seed", 1), num("--secs", 10), get("--case").and_then(|v| v.parse::<u64>().ok()));
    let ops = num("--ops", 30) as usize;
    let times = num("--times", 1);
    let status = get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let env = work::env();
    let start = Instant::now();
    let (mut n, mut non, mut calls) = (0u64, 0u64, 0u64);
    let mut c: BTreeMap<&str, u64> = BTreeMap::new();
    let mut hashes = HashSet::new();
    let mut sample = vec![];
    let mut odd: BTreeMap<String, u64> = BTreeMap::new();
    if !cfg!(miri) {
        // threads which block for ever are another property's business: end here with what was seen
        let out = get("--out");
        std::thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = work::PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
                if p != last {
                    (last, since) = (p, Instant::now());
                } else if since.elapsed() > Duration::from_secs(40) {
                    let o = format!(
                        "{{\"evaluations\":1,\"ops\":{p},\"nontrivial\":1,\"counters\":{{}},\"foreign\":{{\"Blocked\":[1,\"the threads of a world made no progress\"]}},\
                         \"sample\":[],\"hashes\":[{p}],\"rule\":\"\",\"violation\":null}}"
                    );
                    if let Some(f) = &out {
                        let _ = std::fs::write(f, o);
                    }
                    std::process::exit(0);
                }
            }
        });
    }
    while start.elapsed() < Duration::from_secs(secs) && (only.is_none() || n < times) {
        let cs = only.unwrap_or(moncore::rng::mix(moncore::rng::mix(seed, 0x17AC), n));
        if let Some(f) = &status {
            let _ = f.write_all_at(format!("race {cs} {ops:<24}\n").as_bytes(), 0);
        }
        n += 1;
        let st = work::round(cs, ops, &env, sample.is_empty() || only.is_some());
        for (k, v) in &st.n {
            *c.entry(k).or_default() += v;
            calls += if *k == "query rows" { 0 } else { *v };
        }
        for m in st.odd {
            *odd.entry(m).or_default() += 1;
        }
        if st.overlap {
            non += 1;
            hashes.insert(st.hash);
            if sample.is_empty() {
                sample = st.describe;
                sample.truncate(60);
            }
        }
        if moncore::comps::CORRUPT.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("CORRUPT VALUE: bytes were read which are not those of a value");
            return 77;
        }
    }
    let o = format!(
        "{{\"evaluations\":{n},\"ops\":{calls},\"nontrivial\":{non},\"counters\":{{{}}},\"foreign\":{{{}}},\"sample\":[{}],\"hashes\":[{}],\"rule\":{},\"violation\":null}}",
        c.iter().map(|(k, v)| format!("{}:{v}", quote(k))).collect::<Vec<_>>().join(","),
        odd.iter().take(20).map(|(k, v)| format!("{}:[{v},{}]", quote(k), quote(k))).collect::<Vec<_>>().join(","),
        sample.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","),
        hashes.iter().take(400_000).map(|h: &u64| h.to_string()).collect::<Vec<_>>().join(","),
        quote("a world shared by 2 to 4 threads (by reference, or as systems through a lock) running long random programs of every shared operation; non-trivial if calls of different threads overlapped")
    );
    match get("--out") {
        Some(f) => std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("writing the result"),
        None => println!("{o}"),
    }
    0
}
