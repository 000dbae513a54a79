//! Every query shape on worlds with tens of thousands of rows (beyond 16 bits of ids, indices and counts), against what is
//! stored; again after removals.
use crate::engine::{call, eid, fail, ok, Fail, Kind, R};
use crate::profiles::{profile, relevant};
use crate::shapes::*;
use crate::{arr, js, Args};
use moncore::comps::*;
use moncore::model::GKind;
use moncore::ops::{self, OPS};
use moncore::query::{DynQ, Row};
use moncore::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::io::Write;
use std::time::{Duration, Instant};
use xecs::World;

macro_rules! check {
    ($c:expr, $k:expr, $($a:tt)*) => {
        if !($c) { return fail($k, format!($($a)*)); }
    };
}

/// what is stored, by component and id (0: nothing, else token + 1)
struct Deep {
    w: World,
    val: Vec<Vec<u64>>,
    live: Vec<bool>,
    ks: Vec<usize>,
    shape: usize,
    log: Vec<String>,
    n: BTreeMap<&'static str, u64>,
}
fn token(id: usize, k: usize) -> u64 {
    mask(k, (id as u64) << 3 | k as u64)
}
/// what a query writes over a token, if anything
fn rewrite(k: usize, tok: u64) -> Option<(u64, bool)> {
    let x = mix(tok, k as u64 ^ 0xD33);
    if x % 16 != 0 {
        return None;
    }
    // kept in the range of the component, and decodable
    let bit = if k == 6 { 1 << 15 } else { 1 << 24 };
    Some((tok ^ bit, x >> 8 & 1 == 0))
}
/// counts at which something narrow would turn over
fn edge(n: usize) -> bool {
    [127usize, 255, 1023, 4095, 32767, 65535].iter().any(|e| n >= *e && n <= *e + 2)
}
impl Deep {
    fn has(&self, k: usize, id: usize) -> bool {
        self.val[k].get(id).map_or(false, |v| *v != 0)
    }
    fn add(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n
    }
    fn matches(&self) -> Vec<bool> {
        let x = &meta(self.shape).expr;
        (0..self.live.len())
            .map(|id| {
                let mut e = [None; NK];
                for k in &self.ks {
                    if self.has(*k, id) {
                        e[*k] = Some(moncore::model::Val { tok: 0, serial: 0 });
                    }
                }
                self.live[id] && x.matches(&e)
            })
            .collect()
    }
    fn build(r: &mut Rng, shape: usize, n: usize) -> R<Deep> {
        let x = meta(shape);
        let ks: Vec<usize> = (0..NK).filter(|k| x.comps >> k & 1 == 1).collect();
        let mut leaves = vec![];
        x.expr.leaves(&mut leaves);
        let mut w = World::new();
        for k in &ks {
            (OPS[*k].register)(&mut w);
        }
        let late = r.chance(1, 2);
        let mut d = Deep { w, val: vec![vec![0; n + 1]; NK], live: vec![true; n + 1], ks: ks.clone(), shape, log: vec![], n: BTreeMap::new() };
        d.live[0] = false;
        let groups = |d: &mut Deep| -> R {
            for g in &x.groups {
                let w = &mut d.w;
                ok("making a group", || ops::make_group(w, *g))?;
            }
            Ok(())
        };
        if !late {
            groups(&mut d)?;
        }
        let parts = 1 + r.below(2);
        let mut from = 1;
        for p in 0..parts {
            let to = if p + 1 == parts { n + 1 } else { 1 + r.below(n + 1) }.max(from);
            let wide: Vec<usize> = ks.iter().copied().filter(|k| leaves.iter().any(|l| l.0 == *k)).collect();
            let toks: Vec<Vec<u64>> = wide.iter().map(|k| (from..to).map(|id| token(id, *k)).collect()).collect();
            let ids = ok("creating a batch", || {
                let mut e = d.w.create_entities(to - from);
                for (k, t) in wide.iter().zip(&toks) {
                    e = (OPS[*k].batch)(e, t, false).0;
                }
                e.into_ids()
            })?;
            check!(ids.start.get() == from && ids.end.get() == to, Kind::Ids, "a batch of {} has the ids {:?}, expected {from}..{to}", to - from, ids);
            for k in wide {
                for id in from..to {
                    d.val[k][id] = token(id, k) + 1;
                }
            }
            from = to;
        }
        let salt = r.next();
        for k in &ks {
            let everyone = leaves.iter().any(|l| l.0 == *k);
            for id in 1..=n {
                let h = mix(salt, (id * 8 + k) as u64);
                if everyone && h % 80 == 0 {
                    let got = ok("detaching", || (OPS[*k].detach_world)(&d.w, eid(id)))?;
                    check!(
                        got.map(|v| v.tok + 1) == Some(d.val[*k][id]),
                        Kind::Read,
                        "detaching {} from {id} gave {got:?}, stored was {}",
                        NAMES[*k],
                        d.val[*k][id] - 1
                    );
                    d.val[*k][id] = 0;
                } else if !everyone && h % 3 == 0 {
                    ok("attaching", || (OPS[*k].attach_world)(&d.w, eid(id), token(id, *k)))?;
                    d.val[*k][id] = token(id, *k) + 1;
                }
            }
        }
        if late {
            groups(&mut d)?;
        }
        d.log.push(format!("{n} entities in {parts} batches, groups {}", if late { "last" } else { "first" }));
        Ok(d)
    }
    fn kind(&self) -> Kind {
        if meta(self.shape).groups.is_empty() {
            Kind::Query
        } else {
            Kind::GroupQ
        }
    }
    /// a row's values against what is stored, and what was written noted
    fn row(&mut self, name: &str, id: usize, row: &Row) -> R {
        let kind = self.kind();
        for o in &row.obs {
            let v = self.val[o.k].get(id).copied().unwrap_or(0);
            check!(v == o.tok + 1, kind, "query {name} yields {}={} for entity {id}, stored is {}", NAMES[o.k], o.tok as i64, v as i64 - 1);
        }
        for (_, k, tok, _) in &row.wrote {
            self.val[*k][id] = tok + 1;
        }
        Ok(())
    }
    fn run(&mut self, r: &mut Rng) -> R {
        let name = shape(self.shape).name.to_string();
        let kind = self.kind();
        let expr = &meta(self.shape).expr;
        let want = self.matches();
        let total = want.iter().filter(|w| **w).count();
        let mut seen = vec![false; want.len()];
        let mut leaves = vec![];
        expr.leaves(&mut leaves);
        // a row without id is recognised by one of these
        let key = leaves.iter().position(|l| !is_zst(l.0) && l.0 != 6);
        let plain = key.is_some();
        let jumps = r.chance(1, 3);
        self.log.push(format!("{name}: {total} rows{}", if jumps { ", with jumps" } else { "" }));
        // the world outlives the query, and only the query is in use
        let w: &World = unsafe { &*(&self.w as *const World) };
        let mut q: Box<dyn DynQ> = ok("a query", || (shape(self.shape).open)(w))?;
        let mut wr = rewrite;
        let (mut n, mut jumped) = (0, 0);
        let hint = |q: &Box<dyn DynQ>, left: usize| -> R {
            let (lo, hi) = ok("a size hint", || q.hint())?;
            check!(
                lo <= left && hi.map_or(true, |h| h >= left) && (!expr.exact() || (lo == left && hi == Some(left))),
                Kind::Proto,
                "query {name}: size hint ({lo}, {hi:?}) with {left} items to come"
            );
            Ok(())
        };
        loop {
            let left = total.saturating_sub(n);
            if n % 997 == 0 || left < 3 || edge(n) || edge(left) {
                hint(&q, left)?;
            }
            if n % 701 == 0 || edge(n) {
                let id = match r.below(4) {
                    0 => 32766 + r.below(5),
                    1 => 65534 + r.below(5),
                    _ => 1 + r.below(want.len() + 3),
                };
                let x = ok("a lookup by id", || q.from_id(eid(id), &mut wr))?;
                let m = want.get(id).copied().unwrap_or(false);
                check!(x.is_some() == m, Kind::Proto, "query {name}: lookup of id {id} found={}, entity matches={m}", x.is_some());
                if let Some(x) = x {
                    self.row(&name, id, &x)?;
                }
                self.add("lookups by id in long queries", 1);
            }
            let c = r.below(64);
            if jumps && c == 0 && n % 3 == 0 {
                let k = *r.pick(&[1, 2, 100, 300, 1000]);
                let x = ok("nth", || q.nth(k, &mut |_, _| None))?;
                check!(x.is_some() == (left > k), Kind::Proto, "query {name}: nth({k}) with {left} items to come gives {}", if x.is_some() { "one" } else { "none" });
                jumped += k.min(left);
                n += k.min(left);
                if let Some(x) = x {
                    n += 1;
                    // recognised or not
                    let id = key.map(|i| (x.obs[i].tok & 0xff_ffff) as usize >> 3);
                    if let Some(id) = id {
                        check!(want.get(id) == Some(&true) && !seen[id], kind, "query {name} yields entity {id}, which does not match or came before");
                        seen[id] = true;
                        self.row(&name, id, &x)?;
                    } else {
                        jumped += 1;
                    }
                }
                continue;
            }
            let with_id = !plain || c % 2 == 1;
            let x = ok("a step of a query", || if with_id { q.next_id(&mut wr) } else { q.next(&mut wr) })?;
            let Some(x) = x else { break };
            n += 1;
            let id = match (x.id, key) {
                (Some(id), _) => id,
                (None, Some(i)) => (x.obs[i].tok & 0xff_ffff) as usize >> 3,
                _ => unreachable!(),
            };
            check!(want.get(id) == Some(&true), kind, "query {name} yields entity {id} in place {n}, which does not match");
            check!(!seen[id], kind, "query {name} yields entity {id} twice");
            seen[id] = true;
            self.row(&name, id, &x)?;
        }
        check!(n == total, kind, "query {name} yields {n} rows, {total} entities match; first missing {:?}", (1..want.len()).find(|i| want[*i] && !seen[*i] && jumped == 0));
        for _ in 0..3 {
            let x = ok("a step of an exhausted query", || if r.chance(1, 2) { q.next(&mut wr) } else { q.next_id(&mut wr) })?;
            check!(x.is_none(), Kind::Proto, "query {name}: exhausted iterator yields again");
            hint(&q, 0)?;
        }
        ok("dropping a query", || drop(q))?;
        self.add("rows of long queries", n as u64);
        if total > 65535 {
            self.add("queries of more than 65535 rows", 1);
        }
        Ok(())
    }
    fn stored(&mut self) -> R {
        for k in self.ks.clone() {
            let Some(s) = ok("reading a storage", || (OPS[k].storage_read)(&self.w))? else {
                return fail(Kind::Read, format!("storage of {} is not there", NAMES[k]));
            };
            let n = self.val[k].iter().filter(|v| **v != 0).count();
            check!(s.count() == n && s.is_empty() == (n == 0), Kind::Read, "storage of {} counts {}, stored are {n}", NAMES[k], s.count());
            for id in 1..self.live.len() {
                let v = ok("a look into a storage", || s.get(eid(id)))?;
                let want = self.val[k][id];
                check!(v.map_or(0, |v| v.tok + 1) == want, Kind::Read, "{} of {id} is {v:?}, stored was {}", NAMES[k], want as i64 - 1);
                check!(s.exist(eid(id)) == (want != 0), Kind::Read, "existence of {} of {id} is wrong", NAMES[k]);
            }
            if !is_zst(k) {
                let mut d: Vec<u64> = s.data().iter().map(|v| v.tok + 1).collect();
                let mut e: Vec<u64> = self.val[k].iter().copied().filter(|v| *v != 0).collect();
                d.sort();
                e.sort();
                check!(d == e, Kind::Read, "the slice of {} is not what is stored", NAMES[k]);
            }
        }
        for g in &meta(self.shape).groups {
            let member = |id: usize| self.has(g.a, id) && self.has(g.b, id);
            let n = (1..self.live.len()).filter(|id| member(*id)).count();
            let mut orders = vec![];
            for k in g.owned() {
                if is_zst(k) {
                    continue;
                }
                let s = ok("reading a storage", || (OPS[k].storage_read)(&self.w))?.unwrap();
                let data = s.data();
                let front: Vec<usize> = data.iter().take(n).map(|v| (v.tok & 0xff_ffff) as usize >> 3).collect();
                if let Some(id) = front.iter().find(|id| !member(**id)) {
                    return fail(Kind::Layout, format!("storage of {} has entity {id} among its first {n}, which are the members of {}", NAMES[k], g.name()));
                }
                orders.push(front);
            }
            if g.kind == GKind::Full && orders.len() == 2 {
                check!(orders[0] == orders[1], Kind::Layout, "the members of {} are not in the same order in both storages", g.name());
            }
        }
        Ok(())
    }
    fn remove(&mut self, r: &mut Rng) -> R {
        let n = self.live.len() - 1;
        let mut ids: Vec<usize> = (0..(n / 40).max(1)).map(|_| 1 + r.below(n)).collect();
        ids.extend([1, n, n - 1, 32767, 32768, 65535, 65536].iter().filter(|i| **i >= 1 && **i <= n));
        let mut freed = vec![];
        for id in ids {
            if !self.live[id] {
                continue;
            }
            ok("removing an entity", || self.w.remove_entity(eid(id)))?;
            self.live[id] = false;
            for k in 0..NK {
                self.val[k][id] = 0;
            }
            freed.push(id);
        }
        for _ in 0..freed.len() / 2 {
            let e = ok("creating an entity", || self.w.create_entity().into_id())?.get();
            let Some(p) = freed.iter().position(|f| *f == e) else {
                return fail(Kind::Ids, format!("creation gave {e} although {} freed ids wait for reuse", freed.len()));
            };
            freed.swap_remove(p);
            self.live[e] = true;
            for k in self.ks.clone() {
                if r.chance(4, 5) {
                    ok("attaching", || (OPS[k].attach_world)(&self.w, eid(e), token(e, k)))?;
                    self.val[k][e] = token(e, k) + 1;
                }
            }
        }
        for id in 1..=n {
            let x = ok("an existence check", || self.w.exist(eid(id)))?;
            check!(x == self.live[id], Kind::Ids, "entity {id} exists: {x}, which is wrong");
        }
        self.log.push(format!("{} entities removed, half of their ids reused", n / 40));
        Ok(())
    }
}
fn one(i: usize, seed: u64, n: usize, log: &mut Vec<String>, count: &mut BTreeMap<&'static str, u64>) -> R {
    let mut r = Rng::new(mix(mix(seed, i as u64), n as u64));
    let mut d = match call(|| Deep::build(&mut r, i, n)) {
        Ok(d) => d?,
        Err(e) => return fail(Kind::Panic, e),
    };
    let mut go = || -> R {
        d.run(&mut r)?;
        d.stored()?;
        d.remove(&mut r)?;
        d.run(&mut r)?;
        d.stored()
    };
    let res = go();
    *log = std::mem::take(&mut d.log);
    for (k, v) in &d.n {
        *count.entry(k).or_default() += v;
    }
    if res.is_err() {
        // it may be corrupt
        std::mem::forget(d);
    } else {
        ok("dropping a world", || drop(d))?;
    }
    res
}
/// the shapes which concern a property
fn concerns(prop: &str, i: usize) -> bool {
    let x = meta(i);
    let mut l = vec![];
    x.expr.leaves(&mut l);
    match prop {
        "C01" => i < NSINGLE || i % 5 == 0,
        "C03" | "C19" => i % 2 == 0,
        "C04" => i < NSINGLE || x.groups.is_empty(),
        "C05" => !x.groups.is_empty(),
        "C07" => i < NGROUP && !x.groups.is_empty(),
        "C18" => l.iter().any(|l| l.1),
        _ => true,
    }
}
pub fn deep(a: &Args) -> i32 {
    parking_lot::monitor::set_solo(true);
    let prop = a.get("--prop").unwrap_or_default();
    let p = profile(&prop).expect("profile");
    let seed = a.num("--seed", 1);
    let (part, parts) = (a.num("--part", 0) as usize, a.num("--parts", 1) as usize);
    let secs = Duration::from_secs(a.num("--secs", 60));
    let first = a.get("--first").map(|s| s.parse::<usize>().unwrap());
    let start = Instant::now();
    let mut status = a.get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let mut shapes: Vec<usize> = (0..NSHAPES).filter(|i| concerns(&prop, *i)).collect();
    let mut r = Rng::new(mix(seed, 0xDEE9));
    for i in (1..shapes.len()).rev() {
        shapes.swap(i, r.below(i + 1));
    }
    let mine: Vec<usize> = match first {
        Some(i) => vec![i],
        None => shapes.iter().copied().skip(part).step_by(parts).collect(),
    };
    let (mut cases, mut violation) = (0u64, None);
    let mut count = BTreeMap::new();
    let mut foreign: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut hashes = vec![];
    let mut sample = vec![];
    let mut swept = 0u64;
    'all: for round in 0u64.. {
        for (j, i) in mine.iter().enumerate() {
            if start.elapsed() > secs && first.is_none() {
                break 'all;
            }
            let mut r = Rng::new(mix(mix(seed, *i as u64), round));
            let n = match a.get("--size") {
                Some(s) => s.parse().unwrap(),
                None if round == 0 || r.chance(1, 3) => 71_000 + r.below(4000),
                None => *r.pick(&[300, 1100, 4200, 9000, 33_500]) + r.below(100),
            };
            let s = mix(seed, round);
            let s = if first.is_some() { seed } else { s };
            if let Some(f) = &mut status {
                use std::os::unix::fs::FileExt;
                let _ = f.write_all_at(format!("deep {prop} {s} {i} {n:<8}\n").as_bytes(), 0);
            }
            let mut log = vec![];
            cases += 1;
            swept += (round == 0) as u64;
            let res = one(*i, s, n, &mut log, &mut count);
            if sample.is_empty() {
                sample = log.clone();
            }
            hashes.push(mix(mix(s, *i as u64), n as u64));
            match res {
                Ok(()) => {}
                Err(f) if relevant(p, f.kind) => {
                    // the smallest of a few sizes which still fails
                    let mut best = (n, f, log);
                    if first.is_none() {
                        for m in [3, 20, 140, 300, 1100, 4200, 34_000] {
                            let mut log = vec![];
                            if m < n {
                                match one(*i, s, m, &mut log, &mut count) {
                                    Err(f) if f.kind == best.1.kind => {
                                        best = (m, f, log);
                                        break;
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    let (n, f, log): (usize, Fail, _) = best;
                    violation = Some((f, log, format!("deep {prop} {s} {i} {n}\n")));
                    break 'all;
                }
                Err(f) => {
                    let e = foreign.entry(format!("{:?}", f.kind)).or_insert((0, f.msg.clone()));
                    e.0 += 1;
                }
            }
            if first.is_some() && j == 0 {
                break 'all;
            }
        }
    }
    let mut counters: Vec<String> = count.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    counters.push(format!("\"query shapes\":{swept}"));
    let ops: u64 = count.values().sum();
    let o = format!(
        "{{\"evaluations\":{cases},\"ops\":{ops},\"nontrivial\":{cases},\"counters\":{{{}}},\"foreign\":{{{}}},\"sample\":{},\"hashes\":[{}],\"rule\":{},\"violation\":{}}}",
        counters.join(","),
        foreign.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(&v.1))).collect::<Vec<_>>().join(","),
        arr(&sample),
        hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(","),
        js("each query shape which concerns the property on a world of over 70000 entities (later of other sizes), all rows, lookups, size hints and stored values compared, again after removals; all are non-trivial"),
        match &violation {
            None => "null".into(),
            Some((f, log, replay)) => format!(
                "{{\"kind\":{},\"message\":{},\"replay\":{},\"trace\":{}}}",
                js(&format!("{:?}", f.kind)),
                js(&f.msg),
                js(replay),
                arr(log)
            ),
        }
    );
    if let Some(f) = a.get("--out") {
        std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("writing the result");
    } else {
        println!("{o}");
    }
    violation.is_some() as i32
}
