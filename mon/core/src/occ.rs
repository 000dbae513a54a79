//! Who is inside: long accesses (queries stepped one row at a time over worlds of hundreds of entities, guards, storages,
//! resources) by several threads. Each access enters itself into a table once it was obtained and leaves the table before
//! it is given up, so what the table shows as inside certainly is; two conflicting entries are a violation.
use crate::comps::*;
use crate::conc::*;
use crate::model::{Expr, GKind, Grp, Val};
use crate::ops::{self, OPS, RES};
use crate::rng::{mix, Rng};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use xecs::{EntityId, World};

type Acc = (usize, bool);

#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Read(usize, usize),
    Write(usize, usize),
    StorR(usize),
    StorW(usize),
    ResR(usize),
    ResW(usize),
    Query { shape: usize, limit: usize, plain: u8, look: u8 },
}
#[derive(Clone, Debug)]
pub enum Do {
    /// these accesses one inside the other
    Hold(Vec<Kind>),
    Attach(usize, usize),
    Detach(usize, usize),
    Remove(usize),
}
pub struct Occ {
    pub comps: Vec<usize>,
    pub groups: Vec<Grp>,
    pub late: bool,
    pub setup: Vec<Vec<usize>>,
    pub threads: Vec<Vec<Do>>,
    /// one yield per so many steps
    pub rare: u64,
    seed: u64,
}
#[derive(Default)]
pub(crate) struct In {
    live: Vec<(u64, usize, Vec<Acc>, String)>,
    pub(crate) seq: u64,
    pub(crate) failed: Option<CFail>,
    pub entered: u64,
    pub shared: u64,
    pub structural: u64,
    pub steps: u64,
    pub now: Vec<Option<String>>,
    pub(crate) panics: Option<String>,
    pub(crate) book: crate::keep::Book,
}
#[derive(Default)]
pub struct Table(Mutex<In>);
#[derive(Default, Debug)]
pub struct Told {
    pub entered: u64,
    pub shared: u64,
    pub structural: u64,
    pub steps: u64,
    pub failed: Option<CFail>,
    pub panics: Option<String>,
    pub doing: Vec<String>,
    /// handles alive
    pub handles: usize,
}
/// Programs which judge themselves while they run and after it.
pub trait Play: Send + Sync + Sized + 'static {
    const RULE: &'static str;
    /// `scheduled`: under the scheduler, where a program which blocks is noticed
    fn gen(seed: u64, env: &Env, scheduled: bool) -> Self;
    fn threads(&self) -> usize;
    fn size(&self) -> usize;
    fn describe(&self, env: &Env) -> Vec<String>;
    fn build(&self) -> World;
    fn run(&self, env: &Env, t: usize, w: &World, table: &Table, rep: u64);
    fn judge(&self, _env: &Env, _w: World, _table: &Table) {}
}

fn nz(i: usize) -> EntityId {
    EntityId::new(i).unwrap()
}
fn accesses(x: &Expr, out: &mut Vec<Acc>) {
    match x {
        Expr::Leaf { k, mutable } => out.push((*k, *mutable)),
        Expr::Tup(v) => v.iter().for_each(|e| accesses(e, out)),
        Expr::WoLeft(a, b) | Expr::WoRight(a, b) => {
            accesses(a, out);
            accesses(b, out)
        }
        Expr::Group { g, ma, mb } => {
            out.push((g.a, *ma));
            out.push((g.b, *mb))
        }
    }
}
fn conflict(a: &[Acc], b: &[Acc]) -> bool {
    a.iter().any(|(k, m)| b.iter().any(|(l, n)| k == l && (*m || *n)))
}
impl Table {
    pub(crate) fn lock(&self) -> std::sync::MutexGuard<'_, In> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn enter(&self, t: usize, acc: &[Acc], name: &str) -> u64 {
        let mut x = self.lock();
        x.seq += 1;
        x.entered += 1;
        let id = x.seq;
        let other = x.live.iter().find(|l| l.1 != t && conflict(&l.2, acc)).map(|l| (l.1, l.3.clone()));
        if let (Some((u, n)), true) = (other, x.failed.is_none()) {
            x.failed = Some(CFail {
                kind: CKind::Exclusion,
                also: "C12",
                msg: format!("thread {t} obtained {name} while thread {u} is inside {n}"),
            });
        }
        if x.live.iter().any(|l| l.1 != t && l.2.iter().any(|(k, _)| acc.iter().any(|(m, _)| k == m))) {
            x.shared += 1;
        }
        x.live.push((id, t, acc.to_vec(), name.into()));
        id
    }
    fn leave(&self, id: u64) {
        self.lock().live.retain(|l| l.0 != id)
    }
    /// those inside which exclude a change of this component by this thread
    fn against(&self, t: usize, ks: &[usize]) -> Vec<u64> {
        let a: Vec<Acc> = ks.iter().map(|k| (*k, true)).collect();
        self.lock().live.iter().filter(|l| l.1 != t && conflict(&l.2, &a)).map(|l| l.0).collect()
    }
    fn changed(&self, t: usize, before: &[u64], what: String) {
        let mut x = self.lock();
        x.structural += 1;
        let l = x.live.iter().find(|l| before.contains(&l.0)).map(|l| (l.1, l.3.clone()));
        if let (Some((u, n)), true) = (l, x.failed.is_none()) {
            x.failed = Some(CFail {
                kind: CKind::Exclusion,
                also: "C12",
                msg: format!("thread {t}: {what} was done while thread {u} was inside {n} all along"),
            });
        }
    }
    fn fail(&self, msg: String) {
        self.violated(CKind::Exclusion, "C12", msg)
    }
    /// `of`: the properties which this contradicts
    pub(crate) fn violated(&self, kind: CKind, of: &'static str, msg: String) {
        let mut x = self.lock();
        if x.failed.is_none() {
            x.failed = Some(CFail { kind, also: of, msg });
        }
    }
    pub(crate) fn stop(&self) -> bool {
        let x = self.lock();
        x.failed.is_some() || x.panics.is_some()
    }
    pub fn tell(&self) -> Told {
        let x = self.lock();
        Told {
            entered: x.entered,
            shared: x.shared,
            structural: x.structural,
            steps: x.steps,
            failed: x.failed.clone(),
            panics: x.panics.clone(),
            handles: x.book.handles(),
            doing: x.now.iter().enumerate().filter_map(|(t, n)| n.as_ref().map(|n| format!("thread {t} in {n}"))).collect(),
        }
    }
}

impl Play for Occ {
    const RULE: &'static str = "2 to 4 threads with long queries, guards, storages and resources over up to 2600 entities, and structural changes beside them; non-trivial if accesses of different threads to one component met or waited";
    fn threads(&self) -> usize {
        self.threads.len()
    }
    fn size(&self) -> usize {
        self.setup.len()
    }
    fn gen(seed: u64, env: &Env, scheduled: bool) -> Occ {
        let mut r = Rng::new(mix(seed, 0x0CC));
        let mut order = [0; NK];
        let mut perm: Vec<usize> = (0..NK).collect();
        for i in (1..NK).rev() {
            perm.swap(i, r.below(i + 1));
        }
        for (i, k) in perm.iter().enumerate() {
            order[*k] = i;
        }
        let mut comps = vec![];
        for _ in 0..1 + r.below(5) {
            let hi = if r.chance(4, 5) { NG } else { NK };
            let k = r.below(hi);
            if !comps.contains(&k) {
                comps.push(k)
            }
        }
        let mut groups: Vec<Grp> = vec![];
        let own = |groups: &[Grp], k: usize| {
            groups.iter().any(|g| match g.kind {
                GKind::Full => g.a == k || g.b == k,
                GKind::Partial => g.a == k,
                GKind::Non => false,
            })
        };
        for _ in 0..r.below(3) {
            let (a, b) = (*r.pick(&comps), *r.pick(&comps));
            if a >= NG || b >= NG || a == b || order[a] > order[b] {
                continue;
            }
            let kind = [GKind::Full, GKind::Partial, GKind::Non][r.below(3)];
            if matches!(kind, GKind::Full | GKind::Partial) && own(&groups, a) || kind == GKind::Full && own(&groups, b) {
                continue;
            }
            let g = Grp { kind, a, b };
            if !groups.contains(&g) {
                groups.push(g)
            }
        }
        let n = match r.below(8) {
            0..=2 => 2 + r.below(20),
            3..=6 => 100 + r.below(500),
            _ => 600 + r.below(2000),
        };
        let dense = 2 + r.below(3);
        let setup: Vec<Vec<usize>> = (0..n).map(|_| comps.iter().cloned().filter(|_| r.below(dense) > 0).collect()).collect();
        let (plain, grouped) = usable(&comps, &order, &groups, env, true);
        let nt = 2 + r.below(3);
        let nres = 1 + r.below(2);
        // several accesses held at once (locks are still asked for in the common order)
        let nest = scheduled && seed % 3 == 0 && groups.is_empty();
        let limit = |r: &mut Rng| if r.chance(3, 4) { usize::MAX } else { 1 + r.below(n) };
        // some programs mostly share
        let share = r.chance(1, 3);
        let pure = |i: &usize| {
            let mut a = vec![];
            accesses(&(env.shapes[*i].desc)(), &mut a);
            a.iter().all(|x| !x.1)
        };
        let (splain, sgrouped): (Vec<usize>, Vec<usize>) =
            (plain.iter().cloned().filter(pure).collect(), grouped.iter().cloned().filter(pure).collect());
        let mut one = |r: &mut Rng| -> Kind {
            let k = *r.pick(&comps);
            let (plain, grouped) = if share && r.chance(5, 6) { (&splain, &sgrouped) } else { (&plain, &grouped) };
            let id = 1 + r.below(n);
            let mut x = r.below(12);
            if share && x < 6 && r.chance(5, 6) {
                // the reading one of the pair
                x &= !1;
            }
            match x {
                0 => Kind::Read(id, k),
                1 => Kind::Write(id, k),
                2 => Kind::StorR(k),
                3 => Kind::StorW(k),
                4 => Kind::ResR(r.below(nres)),
                5 => Kind::ResW(r.below(nres)),
                x if x < 9 && !grouped.is_empty() => {
                    Kind::Query { shape: *r.pick(grouped), limit: limit(r), plain: r.below(4) as u8, look: r.below(3) as u8 }
                }
                _ if !plain.is_empty() => Kind::Query { shape: *r.pick(plain), limit: limit(r), plain: r.below(4) as u8, look: r.below(3) as u8 },
                _ => Kind::StorW(k),
            }
        };
        let rank = |env: &Env, k: &Kind| -> Vec<usize> {
            match k {
                Kind::Read(_, k) | Kind::Write(_, k) | Kind::StorR(k) | Kind::StorW(k) => vec![order[*k]],
                Kind::ResR(r) | Kind::ResW(r) => vec![NK + r],
                Kind::Query { shape, .. } => env.info[*shape].0.as_ref().map_or(vec![], |c| c.iter().map(|k| order[*k]).collect()),
            }
        };
        let threads = (0..nt)
            .map(|t| {
                let m = 1 + r.below(5);
                (0..m)
                    .map(|_| {
                        let k = *r.pick(&comps);
                        // structural changes: of entities which only this thread changes
                        let own: Vec<usize> = (1..=n).filter(|i| i % nt == t).collect();
                        match r.below(8) {
                            0 if !own.is_empty() => Do::Attach(*r.pick(&own), k),
                            1 if !own.is_empty() => Do::Detach(*r.pick(&own), k),
                            2 if !own.is_empty() && r.chance(1, 2) => Do::Remove(*r.pick(&own)),
                            _ => {
                                let mut v = vec![one(&mut r)];
                                while nest && v.len() < 4 && r.chance(1, 3) {
                                    let x = one(&mut r);
                                    let last = v.iter().flat_map(|k| rank(env, k)).max();
                                    if rank(env, &x).iter().min() > last.as_ref() {
                                        v.push(x)
                                    }
                                }
                                Do::Hold(v)
                            }
                        }
                    })
                    .collect()
            })
            .collect();
        Occ { comps: comps.clone(), groups, late: r.chance(1, 2), setup, threads, rare: [1, 4, 20][r.below(3)], seed }
    }
    fn describe(&self, env: &Env) -> Vec<String> {
        let mut v = vec![
            format!("{} entities with some of {:?}", self.setup.len(), self.comps.iter().map(|k| NAMES[*k]).collect::<Vec<_>>()),
            format!("groups {:?}{}", self.groups, if self.late { ", made last" } else { "" }),
        ];
        for (t, d) in self.threads.iter().enumerate() {
            for o in d {
                v.push(format!(
                    "thread {t}: {}",
                    match o {
                        Do::Hold(k) => k.iter().map(|k| self.name(env, k)).collect::<Vec<_>>().join(", inside it "),
                        o => format!("{o:?}"),
                    }
                ))
            }
        }
        v
    }
    fn build(&self) -> World {
        let mut w = World::new();
        for k in &self.comps {
            (OPS[*k].register)(&mut w);
        }
        for r in 0..2 {
            (RES[r].register)(&mut w, 1);
        }
        if !self.late {
            for g in &self.groups {
                ops::make_group(&mut w, *g);
            }
        }
        let mut tok = 1;
        for c in &self.setup {
            let mut e = w.create_entity();
            for k in c {
                tok += 1;
                e = (OPS[*k].attach)(e, tok).0;
            }
            drop(e);
        }
        if self.late {
            for g in &self.groups {
                ops::make_group(&mut w, *g);
            }
        }
        w
    }
    fn run(&self, env: &Env, t: usize, w: &World, table: &Table, rep: u64) {
        let mut r = Rng::new(mix(mix(self.seed, rep), 0x7EAD + t as u64));
        let mut has: Vec<Vec<usize>> = vec![vec![]];
        has.extend(self.setup.iter().cloned());
        let mut gone = vec![false; has.len()];
        let mut tok = 100_000 * (t as u64 + 1);
        for d in &self.threads[t] {
            if table.stop() {
                return;
            }
            {
                let mut x = table.lock();
                while x.now.len() <= t {
                    x.now.push(None)
                }
                x.now[t] = Some(match d {
                    Do::Hold(k) => k.iter().map(|k| self.name(env, k)).collect::<Vec<_>>().join(" and inside it "),
                    d => format!("{d:?}"),
                });
            }
            let done = catch_unwind(AssertUnwindSafe(|| match d {
                Do::Hold(v) => self.hold(env, t, w, table, &mut r, &mut tok, v),
                Do::Attach(id, k) if !gone[*id] => {
                    tok += 1;
                    let b = table.against(t, &[*k]);
                    (OPS[*k].attach_world)(w, nz(*id), tok);
                    table.changed(t, &b, format!("attach {} to {id}", NAMES[*k]));
                    if !has[*id].contains(k) {
                        has[*id].push(*k)
                    }
                }
                Do::Detach(id, k) if !gone[*id] => {
                    let b = table.against(t, &[*k]);
                    if (OPS[*k].detach_world)(w, nz(*id)).is_some() {
                        table.changed(t, &b, format!("detach {} from {id}", NAMES[*k]));
                    }
                    has[*id].retain(|x| x != k)
                }
                Do::Remove(id) if !gone[*id] => {
                    gone[*id] = true;
                    let b = table.against(t, &has[*id]);
                    w.remove_entity(nz(*id));
                    table.changed(t, &b, format!("removal of {id} with {:?}", has[*id].iter().map(|k| NAMES[*k]).collect::<Vec<_>>()));
                }
                _ => {}
            }));
            table.lock().now[t] = None;
            match done {
                Ok(()) => {}
                Err(p) if (env.fatal)(&*p) => resume_unwind(p),
                Err(p) => {
                    let m = (env.panic_text)(&*p);
                    drop(catch_unwind(AssertUnwindSafe(move || drop(p))));
                    table.lock().panics = Some(format!("thread {t} in {d:?}: {m}"));
                    return;
                }
            }
            (env.yield_point)();
        }
    }
}
impl Occ {
    fn name(&self, env: &Env, k: &Kind) -> String {
        match k {
            Kind::Read(i, k) => format!("a read guard of {} of {i}", NAMES[*k]),
            Kind::Write(i, k) => format!("a write guard of {} of {i}", NAMES[*k]),
            Kind::StorR(k) => format!("the storage of {} to read", NAMES[*k]),
            Kind::StorW(k) => format!("the storage of {} to write", NAMES[*k]),
            Kind::ResR(r) => format!("a read guard of resource {r}"),
            Kind::ResW(r) => format!("a write guard of resource {r}"),
            Kind::Query { shape, .. } => format!("query {}", env.shapes[*shape].name),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn hold(&self, env: &Env, t: usize, w: &World, table: &Table, r: &mut Rng, tok: &mut u64, v: &[Kind]) {
        let Some((k, rest)) = v.split_first() else { return };
        let name = self.name(env, k);
        let pauses = 1 + r.below(3);
        let wait = || {
            for _ in 0..pauses {
                (env.yield_point)()
            }
        };
        macro_rules! inside {
            ($acc:expr, $body:block) => {{
                let id = table.enter(t, &$acc, &name);
                // whatever happens, the table must not show someone who has left
                let x = Leave(table, id);
                $body
                self.hold(env, t, w, table, r, tok, rest);
                drop(x);
            }};
        }
        let alter = |what: &str| table.fail(format!("thread {t}: {what} changed while {name} is alive"));
        match k {
            Kind::Read(id, k) => {
                if let Some(g) = (OPS[*k].read)(w, nz(*id)) {
                    let g = g;
                    inside!([(*k, false)], {
                        let a = g.val();
                        wait();
                        if g.val() != a {
                            alter("the value")
                        }
                    });
                }
            }
            Kind::Write(id, k) => {
                if let Some(g) = (OPS[*k].write)(w, nz(*id)) {
                    let mut g = g;
                    inside!([(*k, true)], {
                        *tok += 1;
                        let a = g.put(*tok, false);
                        wait();
                        if g.val() != a {
                            alter("the value")
                        }
                    });
                }
            }
            Kind::StorR(k) => {
                if let Some(s) = (OPS[*k].storage_read)(w) {
                    inside!([(*k, false)], {
                        let a: Vec<Val> = s.data();
                        wait();
                        if s.data() != a {
                            alter("the content")
                        }
                    });
                }
            }
            Kind::StorW(k) => {
                if let Some(s) = (OPS[*k].storage_write)(w) {
                    let mut s = s;
                    inside!([(*k, true)], {
                        let base = *tok;
                        s.data_mut(&mut |i, _| Some((base + i as u64 % 1000, false)));
                        *tok += 1000;
                        let a = s.data();
                        wait();
                        if s.data() != a {
                            alter("the content")
                        }
                    });
                }
            }
            Kind::ResR(i) => {
                if let Some(g) = (RES[*i].read)(w) {
                    inside!([(NK + i, false)], {
                        let a = g.val();
                        wait();
                        if g.val() != a {
                            alter("the value")
                        }
                    });
                }
            }
            Kind::ResW(i) => {
                if let Some(g) = (RES[*i].write)(w) {
                    let mut g = g;
                    inside!([(NK + i, true)], {
                        *tok += 1;
                        let a = g.put(*tok, false);
                        wait();
                        if g.val() != a {
                            alter("the value")
                        }
                    });
                }
            }
            Kind::Query { shape, limit, plain, look } => {
                let e = env.shapes[*shape];
                let mut acc = vec![];
                accesses(&(e.desc)(), &mut acc);
                let mut q = (e.open)(w);
                let id = table.enter(t, &acc, &name);
                let x = Leave(table, id);
                (env.yield_point)();
                let mut steps = 0u64;
                // rows seen: the entity and its values as this query left them
                let mut seen: Vec<(usize, Vec<(usize, u64)>)> = vec![];
                while steps < *limit as u64 {
                    steps += 1;
                    let mut next = *tok;
                    let mut wr = |_: usize, _: u64| {
                        next += 1;
                        Some((next, false))
                    };
                    // 0, 1: one way only; 2: both; 3: lookups beside the iteration
                    let row = match plain {
                        0 => q.next(&mut wr),
                        1 => q.next_id(&mut wr),
                        2 if steps % 3 == 0 => q.next(&mut wr),
                        _ if steps % 50 == 7 => {
                            let skip = r.below(4);
                            q.nth(skip, &mut wr)
                        }
                        _ => q.next_id(&mut wr),
                    };
                    *tok = next;
                    let Some(row) = row else { break };
                    if let (Some(id), true) = (row.id, seen.len() < 400) {
                        let mut o: Vec<(usize, u64)> = row.obs.iter().map(|o| (o.k, o.tok)).collect();
                        for (leaf, _, tok, _) in &row.wrote {
                            o[*leaf].1 = *tok;
                        }
                        seen.push((id, o));
                    }
                    if steps % self.rare == 0 {
                        (env.yield_point)();
                    }
                    if *look > 0 && steps % 40 == 0 && !seen.is_empty() {
                        self.look(&mut q, &seen, r, &alter);
                        if table.stop() {
                            break;
                        }
                    }
                }
                q.hint();
                wait();
                if *look > 0 {
                    for _ in 0..4.min(seen.len()) {
                        self.look(&mut q, &seen, r, &alter);
                    }
                }
                self.hold(env, t, w, table, r, tok, rest);
                table.lock().steps += steps;
                drop(x);
                drop(q);
            }
        }
    }
    fn look(&self, q: &mut Box<dyn crate::query::DynQ + '_>, seen: &[(usize, Vec<(usize, u64)>)], r: &mut Rng, alter: &dyn Fn(&str)) {
        let (id, o) = r.pick(seen);
        let now = q.from_id(nz(*id), &mut |_, _| None).map(|x| x.obs.iter().map(|o| (o.k, o.tok)).collect::<Vec<_>>());
        if now.as_ref() != Some(o) {
            alter(&format!("the row of entity {id} (components and tokens: {o:?} before, {now:?} now)"))
        }
    }
}
struct Leave<'t>(&'t Table, u64);
impl Drop for Leave<'_> {
    fn drop(&mut self) {
        self.0.leave(self.1)
    }
}
