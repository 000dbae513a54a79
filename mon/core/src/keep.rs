//! Who keeps what alive: batches of up to thousands of entities, and single ones, made and filled through handles by
//! several threads which also remove each other's entities. A book records every id given out, when a handle kept it for
//! certain (from after the handle was obtained until before it is given up), who removes it, and what was attached to it.
//! Either ids are never reused and removals are aimed at ids which their thread does not know yet (it learns them when it
//! gives its handle up), or removals are aimed at known ones only and ids are reused. No entity is removed twice.
use crate::comps::*;
use crate::conc::*;
use crate::model::{GKind, Grp};
use crate::occ::{Play, Table};
use crate::ops::{self, OPS};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use xecs::{EntityId, World};

#[derive(Clone, Debug)]
enum Act {
    /// so many entities at once; these components one after the other
    Batch(usize, Vec<usize>),
    /// one entity, these components, then removed by its handle or not
    One(Vec<usize>),
    /// a handle of an own entity: attachments, detachments, removed by its handle at the end or not
    Again(Vec<(usize, bool)>, bool),
    Remove(usize),
    Query(usize),
    Exist,
}
#[derive(Default, Clone, Debug)]
struct Claim {
    /// which issue
    no: u64,
    thread: usize,
    live: bool,
    /// its removal was begun
    removing: bool,
    /// the handle which keeps it, if that is alive
    handle: u64,
    has: BTreeMap<usize, u64>,
}
#[derive(Default)]
pub struct Book {
    ids: BTreeMap<usize, Claim>,
    alive: BTreeSet<u64>,
    batches: Vec<(usize, usize)>,
    /// batches being made
    coming: Vec<usize>,
    /// removals of ids which nobody knew: when called, when returned, whether done
    tries: BTreeMap<usize, (u64, u64, bool)>,
    no: u64,
    top: usize,
}
impl Book {
    pub fn handles(&self) -> usize {
        self.alive.len()
    }
    fn same(&self, id: usize, no: u64) -> bool {
        self.ids.get(&id).map_or(false, |c| c.no == no)
    }
}
pub struct Keep {
    comps: Vec<usize>,
    groups: Vec<Grp>,
    acts: Vec<Vec<Act>>,
    guess: bool,
    rare: usize,
    seed: u64,
}
fn nz(i: usize) -> EntityId {
    EntityId::new(i).unwrap()
}
/// takes a handle off the book before it is given up, whatever happens
struct Kept<'t>(&'t Table, u64);
impl Drop for Kept<'_> {
    fn drop(&mut self) {
        self.0.lock().book.alive.remove(&self.1);
    }
}
const IDS: &str = "C02 C13";
const KEPT: &str = "C13 C14";
const STATE: &str = "C13 C14 C19";

impl Keep {
    fn issue_at(&self, t: usize, table: &Table, ids: std::ops::Range<usize>, from: u64, until: u64, toks: &[(usize, u64)]) {
        let mut x = table.lock();
        let b = &mut x.book;
        b.no += 1;
        let no = b.no;
        let (first, n) = (ids.start, ids.len());
        let mut wrong: Option<(CKind, &'static str, String)> = None;
        for (i, id) in ids.enumerate() {
            if let Some(c) = b.ids.get(&id) {
                if c.live && !c.removing {
                    wrong = Some((CKind::Final, IDS, format!("id {id} was given to thread {t} although thread {} has it and nobody removes it", c.thread)));
                }
            }
            let mut c = Claim { no, thread: t, live: true, ..Claim::default() };
            match b.tries.get(&id) {
                Some((_, ret, true)) => {
                    if *ret < until {
                        wrong = Some((CKind::Handle, KEPT, format!("the removal of {id} was done while the handle of its batch of {n} was alive")));
                    }
                    c.live = false;
                    c.removing = true;
                }
                Some((_, u64::MAX, _)) => c.removing = true,
                Some((call, ..)) if *call > from => {
                    wrong = Some((CKind::Handle, KEPT, format!("the removal of {id} was refused although the handle of its batch was alive when it was called")));
                }
                _ => {}
            }
            for (k, base) in toks {
                c.has.insert(*k, mask(*k, base + i as u64));
            }
            b.ids.insert(id, c);
        }
        if n > 1 {
            b.batches.push((first, n));
        }
        b.top = b.top.max(first + n - 1);
        drop(x);
        if let Some((k, of, m)) = wrong {
            table.violated(k, of, m);
        }
    }
    fn act(&self, env: &Env, t: usize, w: &World, table: &Table, r: &mut Rng, tok: &mut u64, a: &Act) {
        let rare = self.rare;
        let y = |r: &mut Rng| {
            if r.below(rare) == 0 {
                for _ in 0..1 + r.below(3) {
                    (env.yield_point)()
                }
            }
        };
        match a {
            Act::Batch(n, ks) => {
                table.lock().book.coming.push(*n);
                let mut e = w.create_entities(*n);
                let from = tick();
                let h = {
                    let mut x = table.lock();
                    x.entered += 1;
                    x.book.no += 1;
                    let h = x.book.no;
                    x.book.alive.insert(h);
                    h
                };
                let kept = Kept(table, h);
                let mut toks: BTreeMap<usize, u64> = BTreeMap::new();
                for k in ks {
                    y(r);
                    let base = *tok;
                    *tok += *n as u64;
                    let v: Vec<u64> = (0..*n as u64).map(|i| base + i).collect();
                    e = (OPS[*k].batch)(e, &v, r.chance(1, 2)).0;
                    toks.insert(*k, base);
                    table.lock().steps += *n as u64;
                }
                y(r);
                drop(kept);
                // while the handle was alive for certain
                let until = tick();
                let ids = e.into_ids();
                let (first, end) = (ids.start.get(), ids.end.get());
                if end < first || end - first != *n {
                    return table.violated(CKind::Final, IDS, format!("thread {t}: a batch of {n} has the ids {first}..{end}"));
                }
                let toks: Vec<(usize, u64)> = toks.into_iter().collect();
                self.issue_at(t, table, first..end, from, until, &toks);
                let mut x = table.lock();
                if let Some(i) = x.book.coming.iter().position(|m| m == n) {
                    x.book.coming.remove(i);
                }
            }
            Act::One(ks) => {
                let mut e = w.create_entity();
                let from = tick();
                let mut toks: BTreeMap<usize, u64> = BTreeMap::new();
                for k in ks {
                    y(r);
                    *tok += 1;
                    e = (OPS[*k].attach)(e, *tok).0;
                    toks.insert(*k, *tok);
                }
                y(r);
                let until = tick();
                let id = e.into_id().get();
                let toks: Vec<(usize, u64)> = toks.into_iter().collect();
                self.issue_at(t, table, id..id + 1, from, until, &toks);
                table.lock().entered += 1;
            }
            Act::Again(ks, remove) => {
                // one of the thread's own which nobody removes yet
                let pick = {
                    let x = table.lock();
                    let own: Vec<usize> = x.book.ids.iter().filter(|(_, c)| c.thread == t && c.live && !c.removing).map(|(i, _)| *i).collect();
                    if own.is_empty() {
                        return;
                    }
                    let id = *r.pick(&own);
                    (id, x.book.ids[&id].no)
                };
                let (id, no) = pick;
                y(r);
                let Some(mut e) = w.entity(nz(id)) else {
                    let x = table.lock();
                    let c = x.book.ids.get(&id);
                    if x.book.same(id, no) && c.map_or(false, |c| !c.removing) {
                        drop(x);
                        table.violated(CKind::Handle, KEPT, format!("thread {t} gets no handle of its entity {id}, which nobody removes"));
                    }
                    return;
                };
                let h = {
                    let mut x = table.lock();
                    x.entered += 1;
                    if !x.book.same(id, no) || x.book.ids[&id].removing {
                        // it may be removed and given out again
                        return;
                    }
                    x.book.no += 1;
                    let h = x.book.no;
                    x.book.alive.insert(h);
                    x.book.ids.get_mut(&id).unwrap().handle = h;
                    h
                };
                let kept = Kept(table, h);
                for (k, add) in ks {
                    y(r);
                    let had = table.lock().book.ids[&id].has.get(k).copied();
                    if *add {
                        *tok += 1;
                        e = (OPS[*k].attach)(e, *tok).0;
                        let mut x = table.lock();
                        if x.book.same(id, no) {
                            x.book.ids.get_mut(&id).unwrap().has.insert(*k, mask(*k, *tok));
                        }
                    } else {
                        let v = (OPS[*k].detach)(&e).map(|v| v.tok);
                        if v != had {
                            return table.violated(CKind::Handle, KEPT, format!("detach {} from {id} through its handle gives {v:?}; it had {had:?}", NAMES[*k]));
                        }
                        let mut x = table.lock();
                        if x.book.same(id, no) {
                            x.book.ids.get_mut(&id).unwrap().has.remove(k);
                        }
                    }
                }
                for k in &self.comps {
                    if r.chance(1, 3) {
                        let had = table.lock().book.ids[&id].has.get(k).copied();
                        let v = (OPS[*k].hread)(&e).map(|g| g.val().tok);
                        if v != had {
                            return table.violated(CKind::Handle, KEPT, format!("{} of {id} reads {v:?} through its handle; stored was {had:?}", NAMES[*k]));
                        }
                    }
                }
                y(r);
                let mine = {
                    let mut x = table.lock();
                    if !x.book.same(id, no) {
                        drop(x);
                        return table.violated(CKind::Handle, KEPT, format!("id {id} was given out again while its handle is alive"));
                    }
                    let c = x.book.ids.get_mut(&id).unwrap();
                    let mine = *remove && !c.removing;
                    if mine {
                        c.removing = true
                    }
                    mine
                };
                drop(kept);
                if mine {
                    e.manaully_drop();
                    let mut x = table.lock();
                    x.structural += 1;
                    if x.book.same(id, no) {
                        x.book.ids.get_mut(&id).unwrap().live = false
                    }
                }
            }
            Act::Remove(n) => {
                for _ in 0..*n {
                    if table.stop() {
                        return;
                    }
                    self.remove(t, w, table, r);
                    y(r);
                }
            }
            Act::Exist => {
                let ids: Vec<(usize, u64)> = {
                    let x = table.lock();
                    x.book.ids.iter().filter(|(_, c)| c.live && !c.removing).map(|(i, c)| (*i, c.no)).collect()
                };
                for _ in 0..5.min(ids.len()) {
                    let (id, no) = *r.pick(&ids);
                    let v = w.exist(nz(id));
                    let x = table.lock();
                    if !v && x.book.same(id, no) && !x.book.ids[&id].removing {
                        drop(x);
                        return table.violated(CKind::Final, IDS, format!("entity {id} does not exist although nobody removes it"));
                    }
                }
            }
            Act::Query(shape) => self.query(env, t, w, table, r, *shape),
        }
    }
    fn remove(&self, t: usize, w: &World, table: &Table, r: &mut Rng) {
        let call;
        // an unknown one, or a known one and its issue
        let target = {
            let mut x = table.lock();
            call = tick();
            let b = &mut x.book;
            let coming: usize = b.coming.iter().sum();
            if self.guess && coming > 0 && r.chance(2, 3) {
                let id = b.top + 1 + r.below(coming);
                if b.tries.contains_key(&id) {
                    return;
                }
                b.tries.insert(id, (call, u64::MAX, false));
                (id, None, 0)
            } else {
                let kept: Vec<usize> = b.ids.iter().filter(|(_, c)| c.live && !c.removing && b.alive.contains(&c.handle)).map(|(i, _)| *i).collect();
                let id = if !kept.is_empty() && r.chance(3, 4) {
                    *r.pick(&kept)
                } else {
                    let any: Vec<usize> = b.ids.iter().filter(|(_, c)| c.live && !c.removing).map(|(i, _)| *i).collect();
                    if any.is_empty() {
                        return;
                    }
                    *r.pick(&any)
                };
                let alive = b.alive.clone();
                let c = b.ids.get_mut(&id).unwrap();
                c.removing = true;
                let h = if alive.contains(&c.handle) { c.handle } else { 0 };
                (id, Some(c.no), h)
            }
        };
        let (id, no, h) = target;
        let done = catch_unwind(AssertUnwindSafe(|| w.remove_entity(nz(id))));
        let mut x = table.lock();
        x.structural += 1;
        let ret = tick();
        let b = &mut x.book;
        match (no, done) {
            (Some(no), Ok(())) => {
                let kept = h != 0 && b.alive.contains(&h);
                if b.same(id, no) {
                    b.ids.get_mut(&id).unwrap().live = false;
                }
                drop(x);
                if kept {
                    table.violated(CKind::Handle, KEPT, format!("thread {t}: the removal of {id} was done while a handle of it was alive all along"));
                }
            }
            (Some(_), Err(p)) => {
                drop(x);
                if p.is::<String>() || p.is::<&str>() {
                    drop(p);
                    table.violated(CKind::Handle, IDS, format!("thread {t}: the removal of {id}, which exists and which nobody else removes, is refused"));
                } else {
                    resume_unwind(p)
                }
            }
            (None, Ok(())) => {
                b.tries.insert(id, (call, ret, true));
                if let Some(c) = b.ids.get_mut(&id) {
                    c.live = false;
                    c.removing = true;
                }
            }
            (None, Err(p)) => {
                if !(p.is::<String>() || p.is::<&str>()) {
                    drop(x);
                    resume_unwind(p)
                }
                b.tries.insert(id, (call, ret, false));
                if let Some(c) = b.ids.get_mut(&id) {
                    // called before the batch was made, or wrong
                    c.removing = false;
                }
            }
        }
    }
    fn query(&self, env: &Env, t: usize, w: &World, table: &Table, r: &mut Rng, shape: usize) {
        let e = env.shapes[shape];
        let mut leaves = vec![];
        (e.desc)().leaves(&mut leaves);
        let must: Vec<(usize, u64, BTreeMap<usize, u64>)> = {
            let x = table.lock();
            x.book
                .ids
                .iter()
                .filter(|(_, c)| c.thread == t && c.live && !c.removing && leaves.iter().all(|(k, _)| c.has.contains_key(k)))
                .map(|(i, c)| (*i, c.no, c.has.clone()))
                .collect()
        };
        let mut rows: BTreeMap<usize, Vec<(usize, u64)>> = BTreeMap::new();
        {
            let mut q = (e.open)(w);
            let mut n = 0;
            while let Some(row) = q.next_id(&mut |_, _| None) {
                n += 1;
                if n % 64 == 0 && r.below(self.rare) == 0 {
                    (env.yield_point)();
                }
                let id = row.id.unwrap_or(0);
                if rows.insert(id, row.obs.iter().map(|o| (o.k, o.tok)).collect()).is_some() || n > 100_000 {
                    drop(q);
                    return table.violated(CKind::Final, "C13", format!("query {} yields entity {id} twice", e.name));
                }
            }
            table.lock().steps += n;
        }
        let mut wrong = None;
        let x = table.lock();
        for (id, no, has) in &must {
            if !x.book.same(*id, *no) || x.book.ids[id].removing {
                continue;
            }
            let want: Vec<(usize, u64)> = leaves.iter().map(|(k, _)| (*k, has[k])).collect();
            if rows.get(id) != Some(&want) {
                wrong = Some(format!("query {} yields {:?} for entity {id}, which has {want:?} and which nobody changes", e.name, rows.get(id)));
                break;
            }
        }
        for (first, n) in &x.book.batches {
            let some = rows.range(*first..first + n).count();
            if some == 0 || some == *n || (*first..first + n).any(|i| x.book.ids.get(&i).map_or(true, |c| c.removing || c.thread != x.book.ids[first].thread)) {
                continue;
            }
            // single handles may have changed some since
            if self.guess {
                wrong = Some(format!("query {} sees {some} of the {n} entities of the batch which starts with {first}", e.name));
                break;
            }
        }
        drop(x);
        if let Some(m) = wrong {
            table.violated(CKind::Final, "C13", m);
        }
    }
}
impl Play for Keep {
    const RULE: &'static str = "2 to 4 threads which make batches of up to 3000 entities and single ones, fill them through handles, remove each other's and query; non-trivial if removals were done and threads waited or met";
    fn gen(seed: u64, env: &Env, _: bool) -> Keep {
        let mut r = Rng::new(mix(seed, 0x6EE9));
        let mut order = [0; NK];
        let mut perm: Vec<usize> = (0..NK).collect();
        for i in (1..NK).rev() {
            perm.swap(i, r.below(i + 1));
        }
        for (i, k) in perm.iter().enumerate() {
            order[*k] = i;
        }
        let mut comps = vec![];
        for _ in 0..1 + r.below(4) {
            let hi = if r.chance(4, 5) { NG } else { NK };
            let k = r.below(hi);
            if !comps.contains(&k) {
                comps.push(k)
            }
        }
        let mut groups: Vec<Grp> = vec![];
        for _ in 0..r.below(4) {
            let (a, b) = (*r.pick(&comps), *r.pick(&comps));
            let g = Grp { kind: [GKind::Full, GKind::Partial, GKind::Non][r.below(3)], a, b };
            if a >= NG || b >= NG || a == b || order[a] > order[b] || groups.contains(&g) {
                continue;
            }
            if groups.iter().any(|h| h.owned().iter().any(|k| g.owned().contains(k))) {
                continue;
            }
            groups.push(g)
        }
        let (plain, grouped) = usable(&comps, &order, &groups, env, true);
        let pure = |i: &usize| {
            let x = (env.shapes[*i].desc)();
            let (mut l, mut c) = (vec![], vec![]);
            x.leaves(&mut l);
            x.comps(&mut c);
            l.len() == c.len()
        };
        let plain: Vec<usize> = plain.into_iter().filter(pure).collect();
        let grouped: Vec<usize> = grouped.into_iter().filter(pure).collect();
        let guess = r.chance(1, 2);
        let big = r.below(4);
        let nt = 2 + r.below(3);
        let acts = (0..nt)
            .map(|_| {
                (0..1 + r.below(6))
                    .map(|_| {
                        let mut ks: Vec<usize> = comps.iter().cloned().filter(|_| r.chance(3, 4)).collect();
                        for i in (1..ks.len()).rev() {
                            ks.swap(i, r.below(i + 1));
                        }
                        if !ks.is_empty() && r.chance(1, 4) {
                            ks.push(ks[0]);
                        }
                        match r.below(10) {
                            0..=2 => Act::Batch(
                                match (big, r.below(4)) {
                                    (0, _) | (_, 0) => 1 + r.below(5),
                                    (1, _) | (_, 1) => 10 + r.below(60),
                                    (2, _) | (_, 2) => 70 + r.below(500),
                                    _ => 600 + r.below(2400),
                                },
                                ks,
                            ),
                            3 | 4 if !guess => Act::One(ks),
                            5 | 6 if !guess => Act::Again(ks.iter().map(|k| (*k, r.chance(2, 3))).collect(), r.chance(1, 3)),
                            7 if r.chance(1, 3) => Act::Exist,
                            8 if !grouped.is_empty() => Act::Query(*r.pick(&grouped)),
                            9 if !plain.is_empty() => Act::Query(*r.pick(&plain)),
                            _ => Act::Remove(1 + r.below(4)),
                        }
                    })
                    .collect()
            })
            .collect();
        Keep { comps, groups, acts, guess, rare: [1, 2, 4][r.below(3)], seed }
    }
    fn threads(&self) -> usize {
        self.acts.len()
    }
    fn size(&self) -> usize {
        self.acts.iter().flatten().map(|a| if let Act::Batch(n, _) = a { *n } else { 1 }).sum()
    }
    fn describe(&self, env: &Env) -> Vec<String> {
        let mut v = vec![format!("components {:?}, groups {:?}", self.comps.iter().map(|k| NAMES[*k]).collect::<Vec<_>>(), self.groups)];
        for (t, a) in self.acts.iter().enumerate() {
            for a in a {
                v.push(format!(
                    "thread {t}: {}",
                    match a {
                        Act::Query(s) => format!("query {}", env.shapes[*s].name),
                        a => format!("{a:?}"),
                    }
                ))
            }
        }
        v
    }
    fn build(&self) -> World {
        let mut w = World::new();
        for k in &self.comps {
            (OPS[*k].register)(&mut w);
        }
        for g in &self.groups {
            ops::make_group(&mut w, *g);
        }
        w
    }
    fn run(&self, env: &Env, t: usize, w: &World, table: &Table, rep: u64) {
        let mut r = Rng::new(mix(mix(self.seed, rep), 0x6EE9 + t as u64));
        let mut tok = 20_000 * (t as u64 + 1);
        for a in &self.acts[t] {
            if table.stop() {
                return;
            }
            {
                let mut x = table.lock();
                while x.now.len() <= t {
                    x.now.push(None)
                }
                x.now[t] = Some(format!("{a:?}"));
            }
            let done = catch_unwind(AssertUnwindSafe(|| self.act(env, t, w, table, &mut r, &mut tok, a)));
            table.lock().now[t] = None;
            match done {
                Ok(()) => {}
                Err(p) if (env.fatal)(&*p) => resume_unwind(p),
                Err(p) => {
                    let m = (env.panic_text)(&*p);
                    drop(catch_unwind(AssertUnwindSafe(move || drop(p))));
                    table.violated(CKind::Panic, "C13", format!("thread {t} in {a:?}: {m}"));
                    return;
                }
            }
            (env.yield_point)();
        }
    }
    fn judge(&self, env: &Env, w: World, table: &Table) {
        let (ids, top) = {
            let mut x = table.lock();
            (std::mem::take(&mut x.book.ids), x.book.top)
        };
        let bad = |of: &'static str, m: String| table.violated(CKind::Final, of, format!("after the run: {m}"));
        for id in 1..=top {
            let c = ids.get(&id);
            let live = c.map_or(false, |c| c.live);
            if w.exist(nz(id)) != live {
                return bad("C02 C13 C14", format!("entity {id} exists: {}; issued and not removed: {live}", !live));
            }
        }
        for k in &self.comps {
            let s = (OPS[*k].storage_read)(&w).expect("registered");
            let mut n = 0;
            for id in 1..=top {
                let want = ids.get(&id).filter(|c| c.live).and_then(|c| c.has.get(k).copied());
                let got = s.get(nz(id)).map(|v| v.tok);
                n += want.is_some() as usize;
                if want != got {
                    let what = if ids.get(&id).map_or(false, |c| c.live) { "exists" } else { "was removed" };
                    return bad(STATE, format!("entity {id}, which {what}, has {} = {got:?}; expected {want:?}", NAMES[*k]));
                }
            }
            if s.count() != n || s.data().len() != n {
                return bad(STATE, format!("the storage of {} has {} values, {n} are expected", NAMES[*k], s.count()));
            }
        }
        let tracked = ids.values().filter(|c| c.live).flat_map(|c| c.has.keys()).filter(|k| is_tracked(**k)).count();
        let alive = reg().alive.as_ref().map_or(0, |a| a.len());
        if alive != tracked {
            return bad("C10 C13", format!("{alive} tracked values are alive, {tracked} are stored"));
        }
        for (i, e) in env.shapes.iter().enumerate() {
            let (Some(_), g) = &env.info[i] else { continue };
            let ([g], true) = (&g[..], matches!((e.desc)(), crate::model::Expr::Group { .. })) else { continue };
            if !self.groups.contains(g) {
                continue;
            }
            let mut q = (e.open)(&w);
            let mut got = BTreeMap::new();
            let mut n = 0;
            while let Some(row) = q.next_id(&mut |_, _| None) {
                n += 1;
                got.insert(row.id.unwrap_or(0), row.obs.iter().map(|o| o.tok).collect::<Vec<_>>());
                if n > top + 5 {
                    break;
                }
            }
            let want: BTreeMap<usize, Vec<u64>> =
                ids.iter().filter(|(_, c)| c.live).filter_map(|(i, c)| Some((*i, vec![*c.has.get(&g.a)?, *c.has.get(&g.b)?]))).collect();
            if n != want.len() || got != want {
                let d = want.keys().chain(got.keys()).find(|i| want.get(i) != got.get(i));
                return bad("C05 C13", format!("query {} yields {n} rows for {} members; first difference at {d:?}", e.name, want.len()));
            }
        }
        // every freed id comes back, bare, and then the next new one
        let mut free: BTreeSet<usize> = (1..=top).filter(|i| !ids.get(i).map_or(false, |c| c.live)).collect();
        while !free.is_empty() {
            let id = w.create_entity().into_id().get();
            if !free.remove(&id) {
                return bad("C02 C13", format!("a new entity gets id {id}; {} freed ids are left", free.len()));
            }
            for k in &self.comps {
                if (OPS[*k].read)(&w, nz(id)).is_some() {
                    return bad("C03 C13 C14", format!("the recycled id {id} starts with {}", NAMES[*k]));
                }
            }
        }
        let id = w.create_entity().into_id().get();
        if id != top + 1 {
            bad("C02 C13", format!("a new entity gets id {id} although {top} ids were given out and none is free"));
        }
    }
}
