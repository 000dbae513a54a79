//! One thread, many guards alive at once: which further access is possible, and which must wait.
//! In solo mode a lock operation that would wait for ever raises SelfDeadlock, so "waits" is observable.
use crate::shapes::*;
use crate::{arr, js, Args};
use moncore::comps::*;
use moncore::model::{Expr, GKind, Grp, Model};
use moncore::ops::*;
use moncore::query::*;
use moncore::rng::{mix, Rng};
use parking_lot::monitor;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use xecs::{EntityId, World};

pub const RULE: &str = "a random stack of guards, storage accesses, queries, group queries and resource guards on one thread, \
each further access predicted to succeed or to wait; non-trivial if both happened while at least two were alive";

enum Held<'w> {
    G(Box<dyn Guard + 'w>, usize),
    S(Box<dyn Stor + 'w>),
    Q(Box<dyn DynQ + 'w>),
    I(Box<dyn DynIdQ + 'w>),
    R(Box<dyn RGuard + 'w>),
}
struct Item<'w> {
    h: Held<'w>,
    acc: Vec<(usize, bool)>,
    name: String,
    /// exhausted iterators stay conflicting while they are alive
    done: bool,
}
/// (component or NK + resource, exclusive)
fn accesses(x: &Expr, out: &mut Vec<(usize, bool)>) {
    match x {
        Expr::Leaf { k, mutable } => out.push((*k, *mutable)),
        Expr::Tup(v) => v.iter().for_each(|e| accesses(e, out)),
        Expr::WoLeft(a, b) | Expr::WoRight(a, b) => {
            accesses(a, out);
            accesses(b, out)
        }
        Expr::Group { g, ma, mb } => {
            out.push((g.a, *ma));
            out.push((g.b, *mb))
        }
    }
}
fn conflict(a: &[(usize, bool)], b: &[(usize, bool)]) -> bool {
    a.iter().any(|(k, m)| b.iter().any(|(l, n)| k == l && (*m || *n)))
}
fn self_conflict(a: &[(usize, bool)]) -> bool {
    (0..a.len()).any(|i| (0..i).any(|j| a[i].0 == a[j].0 && (a[i].1 || a[j].1)))
}
fn nz(i: usize) -> EntityId {
    EntityId::new(i).unwrap()
}
fn accn(a: &[(usize, bool)]) -> String {
    a.iter()
        .map(|(k, m)| {
            let n = if *k < NK { NAMES[*k].to_string() } else { format!("resource {}", k - NK) };
            format!("{}{n}", if *m { "mut " } else { "" })
        })
        .collect::<Vec<_>>()
        .join(", ")
}
#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub nontrivial: bool,
    pub hash: u64,
}
enum Got<T> {
    Ok(T),
    Waits,
    Panic(String),
}
fn attempt<T>(f: impl FnOnce() -> T) -> Got<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Got::Ok(v),
        Err(p) if p.is::<monitor::SelfDeadlock>() => Got::Waits,
        Err(p) => Got::Panic(monitor::panic_text(&*p)),
    }
}
pub struct Shapes {
    all: Vec<(&'static Entry, Expr, Vec<(usize, bool)>, Vec<Grp>)>,
}
pub fn shapes() -> Shapes {
    let mut all = vec![];
    for i in 0..NSHAPES {
        let e = shape(i);
        let x = (e.desc)();
        let mut a = vec![];
        accesses(&x, &mut a);
        let mut g = vec![];
        x.groups(&mut g);
        all.push((e, x, a, g));
    }
    Shapes { all }
}
pub const STEPS: usize = 40;

pub fn run_case(seed: u64, drop_steps: &BTreeSet<usize>, sh: &Shapes, mut trace: Option<&mut Vec<String>>) -> Result<Stats, String> {
    let mut st = Stats::default();
    let mut r = Rng::new(mix(seed, 0x60A2D));
    reg_reset();
    monitor::set_solo(true);
    monitor::reset_held();
    let mut w = World::new();
    // world
    let mut reg = [true; NK];
    for k in 0..NK {
        if r.chance(1, 12) {
            reg[k] = false
        } else {
            (OPS[k].register)(&mut w);
        }
    }
    let mut groups: Vec<Grp> = vec![];
    for _ in 0..r.below(6) {
        let g = Grp { kind: *r.pick(&[GKind::Full, GKind::Partial, GKind::Non]), a: r.below(NG), b: r.below(NG) };
        let mut m = Model::new();
        m.reg = reg;
        m.groups = groups.clone();
        if m.accepts(g) {
            groups.push(g)
        }
    }
    let late = r.chance(1, 2);
    if !late {
        groups.iter().for_each(|g| make_group(&mut w, *g));
    }
    let mut tok = 0u64;
    let n = 1 + r.below(6);
    let mut model: Vec<[Option<u64>; NK]> = vec![[None; NK]; n + 1];
    for id in 1..=n {
        let mut e = w.create_entity();
        for k in 0..NK {
            if reg[k] && r.chance(2, 3) {
                tok += 1;
                e = (OPS[k].attach)(e, tok).0;
                model[id][k] = Some(mask(k, tok));
            }
        }
    }
    if late {
        groups.iter().for_each(|g| make_group(&mut w, *g));
    }
    let mut res = [None; NR];
    for i in 0..NR {
        if r.chance(4, 5) {
            tok += 1;
            (RES[i].register)(&mut w, tok);
            res[i] = Some(rmask(i, tok));
        }
    }
    let usable: Vec<usize> = (0..sh.all.len())
        .filter(|i| {
            let (_, _, a, g) = &sh.all[*i];
            a.iter().all(|(k, _)| reg[*k]) && g.iter().all(|g| groups.contains(g)) && !self_conflict(a)
        })
        .collect();
    let w = &w;
    let mut held: Vec<Item> = vec![];
    let (mut waits2, mut oks2) = (false, false);
    // which components to concentrate on
    let focus: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(NK)).filter(|k| reg[*k]).collect();
    let mut h = 0u64;
    macro_rules! say {
        ($($x:tt)*) => { if let Some(t) = trace.as_deref_mut() { t.push(format!($($x)*)) } };
    }
    say!("{n} entities, groups {}", groups.iter().map(|g| g.name()).collect::<Vec<_>>().join(", "));
    for id in 1..=n {
        say!("entity {id}: {}", (0..NK).filter_map(|k| model[id][k].map(|t| format!("{}={t}", NAMES[k]))).collect::<Vec<_>>().join(" "));
    }
    let mut ended = false;
    for step in 0..STEPS {
        if drop_steps.contains(&step) {
            continue;
        }
        let mut r = Rng::new(mix(mix(seed, 77), step as u64));
        let mut all: Vec<(usize, bool)> = vec![];
        held.iter().for_each(|i| all.extend(&i.acc));
        let k = if !focus.is_empty() && r.chance(2, 3) { *r.pick(&focus) } else { r.below(NK) };
        let id = 1 + r.below(n + 1);
        let choice = r.below(100);
        st.steps += 1;
        let mut count = |k: &'static str| *st.n.entry(k).or_default() += 1;
        // ---------------------------------------------------- a new access
        if choice < 62 {
            let kind = r.below(10);
            let (name, acc): (String, Vec<(usize, bool)>);
            let shape = if usable.is_empty() { 0 } else { *r.pick(&usable) };
            // shapes over the focus, when there is one
            let shape = if !usable.is_empty() && r.chance(1, 2) {
                let s: Vec<usize> =
                    usable.iter().copied().filter(|i| sh.all[*i].2.iter().any(|(k, _)| focus.contains(k))).collect();
                if s.is_empty() { shape } else { s[r.below(s.len())] }
            } else {
                shape
            };
            let ri = r.below(NR);
            let e = sh.all.get(shape);
            let as_id = r.chance(1, 4);
            match kind {
                0 => (name, acc) = (format!("entity_component_read {} of {id}", NAMES[k]), vec![(k, false)]),
                1 => (name, acc) = (format!("entity_component_write {} of {id}", NAMES[k]), vec![(k, true)]),
                2 => (name, acc) = (format!("components_read {}", NAMES[k]), vec![(k, false)]),
                3 => (name, acc) = (format!("components_write {}", NAMES[k]), vec![(k, true)]),
                4 => (name, acc) = (format!("resource_read {ri}"), vec![(NK + ri, false)]),
                5 => (name, acc) = (format!("resource_write {ri}"), vec![(NK + ri, true)]),
                _ => {
                    if usable.is_empty() {
                        continue;
                    }
                    (name, acc) = (format!("query {}", e.unwrap().0.name), e.unwrap().2.clone())
                }
            }
            let registered = match kind {
                4 | 5 => res[ri].is_some(),
                0..=3 => reg[k],
                _ => true,
            };
            let present = registered && (kind > 1 || model.get(id).map_or(false, |c| c[k].is_some()));
            let clash = registered && conflict(&acc, &all);
            let got = attempt(|| -> Option<Held> {
                match kind {
                    0 => (OPS[k].read)(w, nz(id)).map(|g| Held::G(g, id)),
                    1 => (OPS[k].write)(w, nz(id)).map(|g| Held::G(g, id)),
                    2 => (OPS[k].storage_read)(w).map(Held::S),
                    3 => (OPS[k].storage_write)(w).map(Held::S),
                    4 => (RES[ri].read)(w).map(Held::R),
                    5 => (RES[ri].write)(w).map(Held::R),
                    _ => {
                        let q = (e.unwrap().0.open)(w);
                        Some(if as_id { Held::I(q.via_with_id()) } else { Held::Q(q) })
                    }
                }
            });
            h = mix(h, mix(kind as u64 * 1000 + shape as u64, clash as u64));
            match got {
                Got::Panic(m) => return Err(format!("{name} panicked: {m}")),
                Got::Waits if !clash => {
                    return Err(format!("{name} waits for ever, although nothing alive conflicts with it (alive: {})", alive(&held)))
                }
                Got::Ok(g) if clash && (present || g.is_some()) => {
                    let what = if g.is_some() { "gives access" } else { "returns" };
                    return Err(format!("{name} {what} although a conflicting access is alive (alive: {})", alive(&held)));
                }
                Got::Ok(None) if present => return Err(format!("{name} gives nothing")),
                Got::Ok(Some(_)) if !present => return Err(format!("{name} gives access to something which is not there")),
                Got::Waits => {
                    count("conflicting accesses that waited");
                    waits2 |= held.len() >= 2;
                    say!("{name}: waits");
                }
                Got::Ok(None) => count("accesses to nothing"),
                Got::Ok(Some(x)) => {
                    count(if held.is_empty() { "accesses with nothing alive" } else { "compatible accesses that proceeded" });
                    oks2 |= held.len() >= 2;
                    say!("{name}: ok");
                    held.push(Item { h: x, acc, name, done: false });
                }
            }
        } else if choice < 80 && !held.is_empty() {
            // ---------------------------------------------------- use something alive
            let i = r.below(held.len());
            let it = &mut held[i];
            tok += 1;
            let t = tok;
            let acc = it.acc.clone();
            let name = it.name.clone();
            let single = acc[0];
            let mut wrote: Vec<(usize, usize, u64)> = vec![];
            let mut seen: Vec<(usize, usize, u64)> = vec![];
            let how = r.below(7);
            let mut done = false;
            let mut rows: Vec<Row> = vec![];
            let mut next_tok = t;
            let mut wr = |_: usize, _: u64| {
                next_tok += 1;
                Some((next_tok, how % 2 == 0))
            };
            let got = attempt(|| match &mut it.h {
                Held::G(g, id) => {
                    seen.push((*id, single.0, g.val().tok));
                    if single.1 {
                        let v = g.put(t, how == 0);
                        wrote.push((*id, single.0, v.tok));
                    }
                }
                Held::S(s) => {
                    for id in 1..=n {
                        if let Some(v) = s.get(nz(id)) {
                            seen.push((id, single.0, v.tok));
                        }
                    }
                    if single.1 {
                        if let Some((_, Some(v))) = s.get_mut(nz(id), false, &mut |_, _| Some((t, false))) {
                            wrote.push((id, single.0, v.tok));
                        }
                    }
                }
                Held::R(g) => {
                    let i = single.0 - NK;
                    if Some(g.val().tok) != res[i] {
                        seen.push((0, single.0, g.val().tok));
                    }
                    if single.1 {
                        res[i] = Some(g.put(t, how == 0).tok);
                    }
                }
                // one row, or all which are left: what is used up stays alive
                Held::Q(q) => loop {
                    let row = match how {
                        0 => q.from_id(nz(id), &mut wr),
                        1 | 4 => q.next_id(&mut wr),
                        2 | 5 => q.next(&mut wr),
                        _ => q.nth((how == 3) as usize, &mut wr),
                    };
                    done = how != 0 && row.is_none();
                    let more = row.is_some() && how >= 4;
                    rows.extend(row);
                    if !more || rows.len() > n {
                        break;
                    }
                },
                Held::I(q) => loop {
                    let row = match how {
                        0 | 6 => q.nth(how / 6, &mut wr),
                        _ => q.next(&mut wr),
                    };
                    done = row.is_none();
                    let more = row.is_some() && how >= 4;
                    rows.extend(row);
                    if !more || rows.len() > n {
                        break;
                    }
                },
            });
            match got {
                Got::Ok(()) => {}
                Got::Waits => return Err(format!("using what {name} gave waits for ever (alive: {})", alive(&held))),
                Got::Panic(m) => return Err(format!("using what {name} gave panicked: {m}")),
            }
            tok = next_tok;
            if rows.len() > n {
                return Err(format!("{name} yields more rows than there are entities"));
            }
            for row in rows {
                // a row without an id belongs to an entity which has everything it shows
                let shown = |id: &usize| row.obs.iter().all(|o| model[*id][o.k] == Some(o.tok));
                let id = row.id.or_else(|| (1..=n).find(shown)).unwrap_or(0);
                seen.extend(row.obs.iter().map(|o| (id, o.k, o.tok)));
                wrote.extend(row.wrote.iter().map(|(_, k, t, _)| (id, *k, *t)));
            }
            count("uses of something alive");
            if done {
                count("iterators used up but kept alive");
                held[i].done = true;
            }
            for (id, k, v) in &seen {
                let want = if *k < NK { model.get(*id).and_then(|c| c[*k]) } else { None };
                if want != Some(*v) {
                    return Err(format!("{name} shows {v} for {} of {id}, it should be {want:?}", if *k < NK { NAMES[*k] } else { "a resource" }));
                }
            }
            for (id, k, v) in wrote {
                model[id][k] = Some(v);
            }
            say!("use {name}: {seen:?}");
        } else if choice < 94 && !held.is_empty() {
            let i = r.below(held.len());
            let x = held.remove(i);
            let Item { name, h, .. } = x;
            let unwinding = r.chance(1, 4);
            say!("drop {name}{}", if unwinding { ", unwinding from a panic" } else { "" });
            match attempt(move || drop_it(h, unwinding)) {
                Got::Ok(()) if unwinding => count("guards and iterators dropped by unwinding"),
                Got::Ok(()) => count("guards and iterators dropped"),
                Got::Waits => return Err(format!("dropping what {name} gave waits")),
                Got::Panic(m) => return Err(format!("dropping what {name} gave panicked: {m}")),
            }
        } else if choice >= 94 && step > 4 {
            // ---------------------------------------------------- a structural call; the last step if anything is alive
            let id = 1 + r.below(n);
            let what = r.below(4);
            tok += 1;
            let t = tok;
            if !reg[k] {
                continue;
            }
            let guarded = |k: usize| all.iter().any(|(l, _)| *l == k);
            let (name, must) = match what {
                0 => (format!("attach {} to {id}", NAMES[k]), guarded(k)),
                1 => (format!("detach {} from {id}", NAMES[k]), guarded(k) && model[id][k].is_some()),
                2 => (format!("remove {id}"), (0..NK).any(|k| guarded(k) && model[id][k].is_some())),
                _ => (format!("attach {} to new entities", NAMES[k]), guarded(k)),
            };
            let got = attempt(|| match what {
                0 => {
                    (OPS[k].attach_world)(w, nz(id), t);
                }
                1 => {
                    (OPS[k].detach_world)(w, nz(id));
                }
                2 => w.remove_entity(nz(id)),
                _ => {
                    (OPS[k].batch)(w.create_entities(2), &[t, t], true);
                }
            });
            h = mix(h, 5000 + what as u64 + must as u64 * 7);
            match got {
                Got::Panic(m) => return Err(format!("{name} panicked: {m}")),
                Got::Ok(()) if must => return Err(format!("{name} completes while the component is guarded (alive: {})", alive(&held))),
                Got::Waits if held.is_empty() => return Err(format!("{name} waits for ever although nothing is alive")),
                Got::Waits => {
                    count("structural calls that waited");
                    say!("{name}: waits");
                }
                Got::Ok(()) => {
                    count("structural calls that proceeded");
                    say!("{name}: ok");
                }
            }
            ended = true;
            break;
        }
    }
    st.nontrivial = waits2 && oks2;
    st.hash = h;
    // everything is free again once nothing is alive
    while let Some(x) = held.pop() {
        let Item { name, h, .. } = x;
        if let Got::Waits | Got::Panic(_) = attempt(move || drop(h)) {
            return Err(format!("dropping what {name} gave fails"));
        }
    }
    for k in 0..NK {
        if reg[k] {
            match attempt(|| (OPS[k].storage_write)(w).map(|s| s.count())) {
                Got::Ok(Some(_)) => {}
                _ => return Err(format!("components_write {} still fails or waits after everything was dropped", NAMES[k])),
            }
        }
    }
    for i in 0..NR {
        if res[i].is_some() {
            match attempt(|| (RES[i].write)(w).map(|g| g.val().tok)) {
                Got::Ok(v) if v == res[i] => {}
                Got::Ok(v) => return Err(format!("resource {i} holds {v:?}, it should be {:?}", res[i])),
                _ => return Err(format!("resource_write {i} still fails or waits after everything was dropped")),
            }
        }
    }
    if !ended {
        for k in 0..NK {
            if !reg[k] {
                continue;
            }
            for id in 1..=n {
                let got = attempt(|| (OPS[k].read)(w, nz(id)).map(|g| g.val().tok));
                match got {
                    Got::Ok(v) if v == model[id][k] => {}
                    Got::Ok(v) => return Err(format!("{} of {id} is {v:?} in the end, it should be {:?}", NAMES[k], model[id][k])),
                    _ => return Err(format!("reading {} of {id} fails or waits after everything was dropped", NAMES[k])),
                }
            }
            tok += 1;
            match attempt(|| (OPS[k].attach_world)(w, nz(1), tok)) {
                Got::Ok(_) => {}
                _ => return Err(format!("attaching {} still fails or waits after everything was dropped", NAMES[k])),
            }
        }
        if !matches!(attempt(|| w.remove_entity(nz(1))), Got::Ok(())) {
            return Err("removing an entity still fails or waits after everything was dropped".into());
        }
        *st.n.entry("final checks that everything is free").or_default() += 1;
    }
    Ok(st)
}
struct Unwind;
/// A guard goes away the same whether its owner returns or panics.
fn drop_it(h: Held, unwinding: bool) {
    if !unwinding {
        return drop(h);
    }
    let r = catch_unwind(AssertUnwindSafe(move || {
        let _h = h;
        std::panic::resume_unwind(Box::new(Unwind));
    }));
    match r {
        Err(p) if p.is::<Unwind>() => {}
        Err(p) => std::panic::resume_unwind(p),
        Ok(()) => unreachable!(),
    }
}
fn alive(held: &[Item]) -> String {
    held.iter().map(|i| format!("{} [{}]{}", i.name, accn(&i.acc), if i.done { " used up" } else { "" })).collect::<Vec<_>>().join("; ")
}
fn guarded_run(seed: u64, d: &BTreeSet<usize>, sh: &Shapes, t: Option<&mut Vec<String>>) -> Result<Stats, String> {
    match catch_unwind(AssertUnwindSafe(|| run_case(seed, d, sh, t))) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", monitor::panic_text(&*p))),
    }
}
pub fn guards(a: &Args) -> i32 {
    let seed = a.num("--seed", 1);
    let secs = a.num("--secs", 10);
    let max = a.num("--cases", u64::MAX);
    let sh = shapes();
    let status = a.get("--status").map(|f| std::fs::File::create(f).expect("status file"));
    let start = Instant::now();
    let (mut n, mut ops, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut c: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut sample: Option<Vec<String>> = None;
    let mut violation = None;
    let none = BTreeSet::new();
    while n < max && start.elapsed() < Duration::from_secs(secs) {
        let cs = mix(mix(seed, 0x9A4D), n);
        n += 1;
        if let Some(f) = &status {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("guards {:<24}\n", cs).as_bytes(), 0);
        }
        match guarded_run(cs, &none, &sh, None) {
            Ok(s) => {
                ops += s.steps;
                for (k, v) in s.n {
                    *c.entry(k).or_default() += v;
                }
                if s.nontrivial {
                    nontrivial += 1;
                    if hashes.insert(s.hash) && sample.is_none() {
                        let mut t = vec![];
                        let _ = guarded_run(cs, &none, &sh, Some(&mut t));
                        sample = Some(t);
                    }
                }
            }
            Err(_) => {
                let mut d = BTreeSet::new();
                for i in (0..STEPS).rev() {
                    d.insert(i);
                    if guarded_run(cs, &d, &sh, None).is_ok() {
                        d.remove(&i);
                    }
                }
                let mut t = vec![];
                let m = guarded_run(cs, &d, &sh, Some(&mut t)).err().unwrap_or_default();
                let dl: Vec<String> = d.iter().map(|x| x.to_string()).collect();
                violation = Some((m, format!("guards {cs} {}\n", dl.join(",")), t));
                break;
            }
        }
    }
    let mut o = format!("{{\"evaluations\":{n},\"ops\":{ops},\"nontrivial\":{nontrivial},");
    o += &format!("\"counters\":{{{}}},", c.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
    o += "\"foreign\":{},";
    o += &format!("\"sample\":{},", arr(&sample.unwrap_or_default()));
    o += &format!("\"hashes\":[{}],", hashes.iter().take(400_000).map(|h| h.to_string()).collect::<Vec<_>>().join(","));
    o += &format!("\"rule\":{},", js(RULE));
    let code = match &violation {
        None => {
            o += "\"violation\":null}";
            0
        }
        Some((m, rep, t)) => {
            o += &format!("\"violation\":{{\"kind\":\"Guards\",\"message\":{},\"replay\":{},\"trace\":{}}}}}", js(m), js(rep), arr(t));
            1
        }
    };
    match a.get("--out") {
        Some(f) => std::fs::File::create(f).and_then(|mut f| f.write_all(o.as_bytes())).expect("writing the result"),
        None => println!("{o}"),
    }
    code
}
pub fn replay(line: &str) -> i32 {
    let mut x = line.split_whitespace().skip(1);
    let cs: u64 = x.next().and_then(|v| v.parse().ok()).expect("seed");
    let d: BTreeSet<usize> = x.next().map(|v| v.split(',').filter_map(|v| v.parse().ok()).collect()).unwrap_or_default();
    let mut t = vec![];
    let r = guarded_run(cs, &d, &shapes(), Some(&mut t));
    for l in t {
        println!("  {l}");
    }
    match r {
        Ok(_) => {
            println!("no violation");
            0
        }
        Err(m) => {
            println!("Guards: {m}");
            1
        }
    }
}
