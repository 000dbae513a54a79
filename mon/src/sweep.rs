//! Every query shape once, on a small world, each row read and written, in every protocol: work for the interpreter.
use crate::engine::{call, eid};
use crate::raw::Raw;
use crate::shapes::*;
use crate::{arr, js, Args};
use moncore::comps::*;
use moncore::model::{GKind, Grp};
use moncore::ops::{self, OPS};
use moncore::rng::{mix, Rng};
use std::io::Write;
use std::time::{Duration, Instant};
use xecs::World;

/// rows seen, calls made
fn one(i: usize, seed: u64, log: &mut Vec<String>) -> (u64, u64) {
    let x = meta(i);
    let mut r = Rng::new(mix(seed, i as u64));
    let ks: Vec<usize> = (0..NK).filter(|k| x.comps >> k & 1 == 1).collect();
    let mut w = World::new();
    let mut calls = 0;
    for k in &ks {
        (OPS[*k].register)(&mut w);
    }
    let late = r.chance(1, 2);
    if !late {
        for g in &x.groups {
            ops::make_group(&mut w, *g);
        }
    }
    let mut tok = 10;
    let n = 3 + r.below(2);
    for id in 1..=n {
        let mut e = w.create_entity();
        for k in &ks {
            tok += 1;
            // the first entity has everything, the others something
            if id == 1 || r.chance(2, 3) {
                calls += 1;
                e = (OPS[*k].attach)(e, tok).0;
            }
        }
        drop(e);
    }
    if late {
        for g in &x.groups {
            ops::make_group(&mut w, *g);
        }
    }
    // move things about
    let k = *r.pick(&ks);
    match r.below(3) {
        0 => w.remove_entity(eid(2)),
        1 => drop((OPS[k].detach_world)(&w, eid(1))),
        _ => drop((OPS[k].attach_world)(&w, eid(2), 500)),
    }
    calls += 1;
    let mut rows = 0;
    let mode = r.below(5);
    {
        let mut wr = |_: usize, t: u64| Some((t + 1, t % 2 == 0));
        let mut q = (shape(i).open)(&w);
        log.push(format!("{}: mode {mode}, {n} entities, groups {}", shape(i).name, if late { "late" } else { "early" }));
        match mode {
            0 => rows += q.collect_all(100, &mut wr).len() as u64,
            1 => rows += q.via_with_id().collect_all(100, &mut wr).len() as u64,
            2 => {
                while rows < 100 && q.next(&mut wr).is_some() {
                    rows += 1;
                    let id = eid(1 + r.below(n));
                    rows += q.from_id(id, &mut wr).is_some() as u64;
                }
            }
            3 => {
                rows += q.next_id(&mut wr).is_some() as u64;
                rows += q.nth(1, &mut wr).is_some() as u64;
                q.hint();
                rows += q.fold_all(100).len() as u64;
            }
            _ => {
                for id in 1..=n + 1 {
                    rows += q.from_id(eid(id), &mut wr).is_some() as u64;
                }
                rows += q.last().is_some() as u64;
            }
        }
    }
    // the world is still usable
    for k in &ks {
        calls += 1;
        if let Some(s) = (OPS[*k].storage_read)(&w) {
            rows += s.data().len() as u64;
        }
    }
    log.push(format!("    {rows} values"));
    (rows, calls)
}
/// A history without a reference on few components with groups.
fn history(seed: u64, rough: bool, log: &mut Vec<String>, count: &mut [u64; 6]) {
    let mut r = Rng::new(mix(seed, 0x4157));
    let mut w = World::new();
    let mut ks: Vec<usize> = vec![];
    for _ in 0..2 + r.below(3) {
        let k = r.below(if ks.len() < 2 { NG } else { NK });
        if !ks.contains(&k) {
            (OPS[k].register)(&mut w);
            ks.push(k);
        }
    }
    let gs: Vec<usize> = ks.iter().cloned().filter(|k| *k < NG).collect();
    let mut groups = vec![];
    let n = 8 + r.below(25);
    let bombs = rough && r.chance(1, 3);
    let total = r.below(4);
    let mut max = 2;
    drop(w.create_entities(2));
    let mut tok = 100;
    for part in 0..=total {
        if part > 0 && gs.len() >= 2 {
            let a = *r.pick(&gs);
            let b = *r.pick(&gs);
            let g = Grp { kind: *r.pick(&[GKind::Full, GKind::Partial, GKind::Non]), a, b };
            if call(|| ops::make_group(&mut w, g)).is_ok() {
                groups.push(g);
            }
        }
        let mut x = Raw::new(&mut w, max, tok, &groups);
        x.comps = ks.clone();
        x.holds = rough;
        x.run(&mut r, n / (total + 1) + 1, bombs);
        max = x.max;
        tok = x.tok;
        for (c, v) in count.iter_mut().zip([x.st.ops, x.st.reads, x.st.holds, x.st.waits, x.st.bombs, 0]) {
            *c += v;
        }
        if x.st.waits > 0 {
            break;
        }
    }
    count[5] += groups.len() as u64;
    log.push(format!("history {seed}: components {ks:?}, groups {groups:?}, destructors that panic {bombs}, totals so far {count:?}"));
}
pub fn sweep(a: &Args) -> i32 {
    parking_lot::monitor::set_solo(true);
    let seed = a.num("--seed", 1);
    let (part, parts) = (a.num("--part", 0), a.num("--parts", 1));
    let secs = a.num("--secs", 60);
    let first = a.get("--first").and_then(|s| s.parse::<u64>().ok());
    let mut status = a.get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let start = Instant::now();
    let (mut n, mut non, mut rows, mut calls) = (0u64, 0u64, 0u64, 0u64);
    let mut hashes = vec![];
    let mut log = vec![];
    let total = NSHAPES as u64;
    let hist = a.get("--history").and_then(|s| s.parse::<u64>().ok());
    let mut j = if hist.is_some() { total } else { part };
    while j < total && start.elapsed() < Duration::from_secs(secs) {
        // a different order for every seed
        let i = match first {
            Some(f) => f,
            None => (j * 97 + seed * 31) % total,
        };
        j += parts;
        if let Some(f) = &mut status {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("sweep {seed} {i:<8}\n").as_bytes(), 0);
        }
        log.clear();
        let (r, c) = one(i as usize, seed, &mut log);
        n += 1;
        rows += r;
        calls += c;
        if r > 0 {
            non += 1;
            hashes.push(mix(mix(seed, i), r));
        }
        if first.is_some() {
            break;
        }
    }
    let swept = n;
    let mut count = [0u64; 6];
    let mut m = part;
    // every other process lets destructors panic and gives up calls that wait; its end is not searched for leaks
    let rough = a.get("--rough").map_or(part % 2 == 1, |s| s == "1");
    if rough {
        crate::KEPT.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    while first.is_none() && start.elapsed() < Duration::from_secs(secs) {
        let s = hist.unwrap_or(mix(mix(seed, 0x415), m));
        m += parts;
        if let Some(f) = &mut status {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("rawhist {s:<22} {}\n", rough as u8).as_bytes(), 0);
        }
        if log.len() > 6 {
            log.pop();
        }
        let before = count;
        history(s, rough, &mut log, &mut count);
        n += 1;
        if count[1] > before[1] && count[0] > before[0] {
            non += 1;
            hashes.push(mix(s, count[1] - before[1]));
        }
        if hist.is_some() {
            break;
        }
    }
    calls += count[0];
    let counters = ["operations without a reference", "values read without a reference", "calls while something was held", "calls given up", "destructors that panicked", "groups in histories"]
        .iter()
        .zip(count)
        .map(|(k, v)| format!(",{}:{v}", js(k)))
        .collect::<String>();
    let o = format!(
        "{{\"evaluations\":{n},\"ops\":{calls},\"nontrivial\":{non},\"counters\":{{\"query shapes\":{swept},\"values seen\":{rows}{counters}}},\"foreign\":{{}},\
         \"sample\":{},\"hashes\":[{}],\"rule\":{},\"violation\":null}}",
        arr(&log),
        hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(","),
        js("each query shape once on a small world with its groups, rows read and written in one of five protocols, then random histories without a reference; non-trivial if values were seen")
    );
    if let Some(f) = a.get("--out") {
        std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("writing the result");
    } else {
        println!("{o}");
    }
    0
}
