//! Concurrent programs: generation, execution into timed event histories, and the oracles over them
//! (a sequential model searched for an explanation of the history; interval monitors; a final audit).
//! Independent of the lock crate, so that it also runs against the real one.
use crate::comps::*;
use crate::model::*;
use crate::ops::{self, OPS};
use crate::query::*;
use crate::rng::{mix, Rng};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use xecs::{EntityId, World};

pub struct Env {
    pub shapes: Vec<&'static Entry>,
    /// per shape: the order in which it locks components, if it is one of the common discipline; the groups it uses
    pub info: Vec<(Option<Vec<usize>>, Vec<Grp>)>,
    /// called between the steps of an iteration
    pub yield_point: fn(),
    /// a panic that tears the run down and is no observation
    pub fatal: fn(&(dyn Any + Send)) -> bool,
    pub panic_text: fn(&(dyn Any + Send)) -> String,
}
impl Env {
    pub fn new(
        shapes: Vec<&'static Entry>,
        yield_point: fn(),
        fatal: fn(&(dyn Any + Send)) -> bool,
        panic_text: fn(&(dyn Any + Send)) -> String,
    ) -> Env {
        let info = shapes
            .iter()
            .map(|e| {
                let x = (e.desc)();
                let mut g = vec![];
                x.groups(&mut g);
                (lock_order(&x), g)
            })
            .collect();
        Env { shapes, info, yield_point, fatal, panic_text }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum CKind {
    /// no sequential order explains the results
    Lin,
    Panic,
    /// state after all calls returned
    Final,
    Handle,
    Deadlock,
    Livelock,
    Exclusion,
    Blocking,
}

#[derive(Clone, Debug)]
pub enum Target {
    Id(usize),
    /// the entity this thread created last, or this id
    Own(usize),
}
#[derive(Clone, Debug)]
pub enum HStep {
    Attach(usize, u64),
    Detach(usize),
    Read(usize),
    Write(usize, u64),
    Yield,
}
#[derive(Clone, Debug)]
pub enum Op {
    Create { steps: Vec<HStep> },
    Batch { n: usize, arrays: Vec<(usize, Vec<u64>)> },
    Handle { t: Target, steps: Vec<HStep>, remove: bool },
    Attach(Target, usize, u64),
    Detach(Target, usize),
    Remove(Target),
    Exist(Target),
    Read(Target, usize),
    Write(Target, usize, u64),
    Stor(usize),
    StorW(usize, Target, u64),
    Query { shape: usize, tok: u64, limit: Option<usize> },
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub comps: Vec<usize>,
    /// the common component order: position of each component
    pub order: [usize; NK],
    pub groups: Vec<Grp>,
    pub groups_first: bool,
    /// per setup entity: components with tokens, removed afterwards
    pub setup: Vec<(Vec<(usize, u64)>, bool)>,
    pub threads: Vec<Vec<Op>>,
}

#[derive(Clone, Copy)]
pub struct Workload {
    pub id: &'static str,
    /// create batch handle attach detach remove exist read write stor storw query groupquery
    pub weights: [u32; 13],
    pub max_threads: usize,
    pub max_ops: usize,
    pub groups: bool,
    pub multi: bool,
    /// look for a sequential explanation
    pub lin: bool,
}

/// components in the order their locks are taken; None if the shape does not follow a common order discipline
pub fn lock_order(x: &Expr) -> Option<Vec<usize>> {
    fn groups_ok(x: &Expr, first: bool) -> bool {
        match x {
            Expr::Leaf { .. } => true,
            Expr::Group { .. } => first,
            Expr::Tup(v) => v.iter().enumerate().all(|(i, e)| groups_ok(e, first && i == 0)),
            Expr::WoLeft(a, b) => groups_ok(a, false) && groups_ok(b, false),
            Expr::WoRight(a, b) => groups_ok(a, first) && groups_ok(b, false),
        }
    }
    let mut c = vec![];
    x.comps(&mut c);
    // a group may be one of a component with itself; naming it twice otherwise is the caller's fault
    let mut g = vec![];
    x.groups(&mut g);
    let selves = g.iter().filter(|g| g.a == g.b).count();
    let s: BTreeSet<_> = c.iter().collect();
    if s.len() + selves == c.len() && groups_ok(x, true) {
        Some(c)
    } else {
        None
    }
}

/// shapes over these components, in the common order: plain ones, and those of groups
pub fn usable(comps: &[usize], order: &[usize; NK], groups: &[Grp], env: &Env, multi: bool) -> (Vec<usize>, Vec<usize>) {
    let mut plain = vec![];
    let mut grouped = vec![];
    for (i, (c, g)) in env.info.iter().enumerate() {
        let Some(c) = c else { continue };
        if !c.iter().all(|k| comps.contains(k)) || c.windows(2).any(|p| order[p[0]] > order[p[1]]) {
            continue;
        }
        if !g.iter().all(|g| groups.contains(g)) {
            continue;
        }
        if g.is_empty() {
            if multi || c.len() == 1 {
                plain.push(i)
            }
        } else {
            grouped.push(i)
        }
    }
    (plain, grouped)
}

impl Prog {
    pub fn gen(w: &Workload, seed: u64, env: &Env) -> Prog {
        let mut r = Rng::new(mix(seed, 0xC04C));
        let mut tok = 1u64;
        let mut order: [usize; NK] = std::array::from_fn(|i| i);
        if r.chance(2, 3) {
            for i in (1..NK).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        // few components make conflicts likely
        let nc = 1 + r.below(if w.groups { 4 } else { 3 });
        let mut comps = vec![];
        while comps.len() < nc {
            let k = if r.chance(3, 4) { r.below(4) } else { r.below(NK) };
            if !comps.contains(&k) {
                comps.push(k)
            }
        }
        let mut groups = vec![];
        if w.groups {
            for _ in 0..r.below(5) {
                let (a, b) = (*r.pick(&comps), *r.pick(&comps));
                let kind = *r.pick(&[GKind::Full, GKind::Partial, GKind::Non]);
                let g = Grp { kind, a, b };
                let mut m = Model::new();
                m.reg = [true; NK];
                m.groups = groups.clone();
                if a < NG && b < NG && order[a] <= order[b] && m.accepts(g) {
                    groups.push(g);
                }
            }
        }
        let (plain, grouped) = usable(&comps, &order, &groups, env, w.multi);
        let mut next = || {
            tok += 1;
            tok
        };
        let n0 = r.below(5);
        let dense = r.chance(1, 2);
        let setup: Vec<_> = (0..n0)
            .map(|_| {
                let c = comps.iter().filter(|_| dense || r.chance(1, 2)).map(|k| (*k, next())).collect();
                (c, r.chance(1, 5))
            })
            .collect();
        let nt = 2 + r.below(w.max_threads - 1);
        let idmax = n0 + 1 + r.below(3);
        let total: u32 = w.weights.iter().sum();
        let mut emph = w.weights;
        if r.chance(1, 2) {
            for x in emph.iter_mut() {
                if r.chance(1, 3) {
                    *x *= 4
                } else if r.chance(1, 3) {
                    *x = 0
                }
            }
            if emph.iter().sum::<u32>() == 0 {
                emph = w.weights
            }
        }
        let _ = total;
        let total: u32 = emph.iter().sum();
        let mut threads = vec![];
        for _ in 0..nt {
            let mut ops = vec![];
            for _ in 0..1 + r.below(w.max_ops) {
                let mut x = r.below(total as usize) as u32;
                let mut c = 0;
                while x >= emph[c] {
                    x -= emph[c];
                    c += 1;
                }
                let id = 1 + r.below(idmax);
                let t = if r.chance(1, 4) { Target::Own(id) } else { Target::Id(id) };
                let k = *r.pick(&comps);
                let mut hsteps = |r: &mut Rng, create: bool| {
                    let mut v = vec![];
                    for _ in 0..r.below(4) {
                        let k = *r.pick(&comps);
                        v.push(match r.below(if create { 4 } else { 8 }) {
                            0..=2 => HStep::Attach(k, next()),
                            3 => HStep::Yield,
                            4 | 5 => HStep::Detach(k),
                            6 => HStep::Read(k),
                            _ => HStep::Write(k, next()),
                        })
                    }
                    v
                };
                ops.push(match c {
                    0 => Op::Create { steps: hsteps(&mut r, true) },
                    1 => {
                        let n = r.below(4);
                        let arrays = (0..r.below(3)).map(|_| (*r.pick(&comps), (0..n).map(|_| next()).collect())).collect();
                        Op::Batch { n, arrays }
                    }
                    2 => Op::Handle { t, steps: hsteps(&mut r, false), remove: r.chance(1, 4) },
                    3 => Op::Attach(t, k, next()),
                    4 => Op::Detach(t, k),
                    5 => Op::Remove(t),
                    6 => Op::Exist(t),
                    7 => Op::Read(t, k),
                    8 => Op::Write(t, k, next()),
                    9 => Op::Stor(k),
                    10 => Op::StorW(k, t, next()),
                    c => {
                        let set = if c == 12 && !grouped.is_empty() { &grouped } else { &plain };
                        if set.is_empty() {
                            Op::Stor(k)
                        } else {
                            let shape = *r.pick(set);
                            let base = next();
                            for _ in 0..40 {
                                next();
                            }
                            Op::Query { shape, tok: base, limit: if r.chance(1, 5) { Some(r.below(3)) } else { None } }
                        }
                    }
                })
            }
            threads.push(ops);
        }
        Prog { comps, order, groups, groups_first: r.chance(1, 2), setup, threads }
    }
    /// without the ops at these positions (counted over all threads)
    pub fn without(&self, drop: &BTreeSet<usize>) -> Prog {
        let mut p = self.clone();
        let mut i = 0;
        for t in p.threads.iter_mut() {
            t.retain(|_| {
                i += 1;
                !drop.contains(&(i - 1))
            })
        }
        p
    }
    pub fn nops(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
    pub fn describe(&self, env: &Env) -> Vec<String> {
        let mut v = vec![format!(
            "components {}; groups {} made {}",
            self.comps.iter().map(|k| NAMES[*k]).collect::<Vec<_>>().join(","),
            self.groups.iter().map(|g| g.name()).collect::<Vec<_>>().join(","),
            if self.groups_first { "first" } else { "after the initial entities" }
        )];
        for (i, (c, rm)) in self.setup.iter().enumerate() {
            v.push(format!(
                "initial entity {}: {}{}",
                i + 1,
                c.iter().map(|(k, t)| format!("{}={}", NAMES[*k], mask(*k, *t))).collect::<Vec<_>>().join(" "),
                if *rm { " (removed)" } else { "" }
            ));
        }
        for (i, t) in self.threads.iter().enumerate() {
            for o in t {
                v.push(match o {
                    Op::Query { shape, tok, limit } => {
                        format!("thread {i} runs: query {} writing from {tok}, at most {limit:?} rows", env.shapes[*shape].name)
                    }
                    o => format!("thread {i} runs: {o:?}"),
                });
            }
        }
        v
    }
    pub fn build(&self) -> World {
        let mut w = World::new();
        for k in &self.comps {
            (OPS[*k].register)(&mut w);
        }
        if self.groups_first {
            for g in &self.groups {
                ops::make_group(&mut w, *g);
            }
        }
        for (c, _) in &self.setup {
            let mut e = w.create_entity();
            for (k, t) in c {
                e = (OPS[*k].attach)(e, *t).0;
            }
            drop(e);
        }
        for (i, (_, rm)) in self.setup.iter().enumerate() {
            if *rm {
                w.remove_entity(EntityId::new(i + 1).unwrap());
            }
        }
        if !self.groups_first {
            for g in &self.groups {
                ops::make_group(&mut w, *g);
            }
        }
        w
    }
}

// ------------------------------------------------------------------ execution

#[derive(Clone, Debug, PartialEq)]
pub struct QRow {
    pub id: usize,
    /// tokens seen, leaf order
    pub toks: Vec<(usize, u64)>,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Alloc(usize),
    AllocN(usize, usize),
    Acq(usize, bool),
    Rel(usize, usize),
    HAttach(usize, usize, Vec<u64>),
    HDetach(usize, usize, Option<u64>),
    HRead(usize, usize, Option<u64>),
    HWrite(usize, usize, u64, Option<u64>),
    /// the handle's own removal: give the handle up ...
    RelRemove(usize),
    /// ... and remove the entity unless someone else did
    HRemove(usize),
    Attach(usize, usize, u64, bool),
    Detach(usize, usize, Result<Option<u64>, String>),
    Remove(usize, bool),
    Exist(usize, bool),
    Read(usize, usize, Option<u64>),
    Write(usize, usize, u64, Option<u64>),
    Stor(usize, usize, Vec<u64>, Vec<(usize, Option<u64>)>),
    StorW(usize, usize, u64, Option<u64>),
    Query { shape: usize, rows: Vec<QRow>, writes: Vec<(usize, usize, u64)>, complete: bool },
    Panicked(String),
}
#[derive(Clone, Debug)]
pub struct Event {
    pub call: u64,
    pub ret: u64,
    pub ev: Ev,
}
static CLOCK: AtomicU64 = AtomicU64::new(1);
pub(crate) fn tick() -> u64 {
    // relaxed: the clock must not order what the library does not order
    CLOCK.fetch_add(1, Ordering::Relaxed)
}
#[derive(Default)]
pub struct Log {
    pub events: Vec<Event>,
    /// call in progress
    pub pending: Option<(u64, String)>,
    /// ids kept by a live handle
    pub handle: Option<(usize, usize)>,
}
pub struct Exec<'e> {
    pub env: &'e Env,
    pub log: &'e Mutex<Log>,
    own: Option<usize>,
}
fn nz(id: usize) -> EntityId {
    EntityId::new(id).unwrap()
}
impl<'e> Exec<'e> {
    pub fn new(env: &'e Env, log: &'e Mutex<Log>) -> Self {
        Exec { env, log, own: None }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Log> {
        self.log.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn call<R>(&self, what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<(u64, u64, R), String> {
        let t0 = {
            let mut l = self.lock();
            let t = tick();
            l.pending = Some((t, what()));
            t
        };
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => {
                let t1 = tick();
                self.lock().pending = None;
                Ok((t0, t1, r))
            }
            Err(p) if (self.env.fatal)(&*p) => resume_unwind(p),
            Err(p) => {
                let t1 = tick();
                self.lock().pending = None;
                let m = (self.env.panic_text)(&*p);
                drop(catch_unwind(AssertUnwindSafe(move || drop(p))));
                let _ = t1;
                Err(m)
            }
        }
    }
    fn push(&self, call: u64, ret: u64, ev: Ev) {
        self.lock().events.push(Event { call, ret, ev })
    }
    fn target(&self, t: &Target) -> usize {
        match t {
            Target::Id(i) => *i,
            Target::Own(i) => self.own.unwrap_or(*i),
        }
    }
    fn steps<'a>(&mut self, mut e: xecs::Entity<'a>, id: usize, at: usize, steps: &[HStep], remove: bool) -> Result<(), String> {
        self.lock().handle = Some((id, 1));
        for s in steps {
            match s {
                HStep::Yield => (self.env.yield_point)(),
                HStep::Attach(k, t) => {
                    let (a, b, (e2, v)) = self.call(|| format!("attach {} through the handle of {id}", NAMES[*k]), || (OPS[*k].attach)(e, *t))?;
                    e = e2;
                    self.push(a, b, Ev::HAttach(id, *k, vec![v.tok]));
                }
                HStep::Detach(k) => {
                    let (a, b, v) = self.call(|| format!("detach {} through the handle of {id}", NAMES[*k]), || (OPS[*k].detach)(&e))?;
                    self.push(a, b, Ev::HDetach(id, *k, v.map(|v| v.tok)));
                }
                HStep::Read(k) => {
                    let y = self.env.yield_point;
                    let (a, b, v) = self.call(
                        || format!("read {} through the handle of {id}", NAMES[*k]),
                        || {
                            (OPS[*k].hread)(&e).map(|g| {
                                let v = g.val().tok;
                                y();
                                if g.val().tok == v {
                                    v
                                } else {
                                    BAD
                                }
                            })
                        },
                    )?;
                    self.push(a, b, Ev::HRead(id, *k, v));
                }
                HStep::Write(k, t) => {
                    let y = self.env.yield_point;
                    let (a, b, v) = self.call(
                        || format!("write {} through the handle of {id}", NAMES[*k]),
                        || {
                            (OPS[*k].hwrite)(&e).map(|mut g| {
                                let old = g.val().tok;
                                g.put(*t, false);
                                y();
                                if g.val().tok == mask(*k, *t) {
                                    old
                                } else {
                                    BAD
                                }
                            })
                        },
                    )?;
                    self.push(a, b, Ev::HWrite(id, *k, mask(*k, *t), v));
                }
            }
        }
        if remove {
            self.lock().handle = None;
            let (a, b, ()) = self.call(|| format!("manaully_drop of {id}"), || e.manaully_drop())?;
            self.push(a, b, Ev::RelRemove(id));
            self.push(a, b, Ev::HRemove(id));
        } else {
            self.lock().handle = None;
            let (a, b, i) = self.call(|| format!("into_id of the handle of {id}"), || e.into_id().get())?;
            if id == 0 {
                self.own = Some(i);
                for e in self.lock().events[at..].iter_mut() {
                    match &mut e.ev {
                        Ev::Alloc(x) | Ev::HAttach(x, ..) | Ev::HDetach(x, ..) | Ev::HRead(x, ..) | Ev::HWrite(x, ..) => *x = i,
                        _ => {}
                    }
                }
            } else if i != id {
                return Err(format!("the handle of {id} gave the id {i}"));
            }
            self.push(a, b, Ev::Rel(i, 1));
        }
        Ok(())
    }
    fn op(&mut self, w: &World, op: &Op) -> Result<(), String> {
        let y = self.env.yield_point;
        match op {
            Op::Create { steps } => {
                let (a, b, e) = self.call(|| "create_entity".into(), || w.create_entity())?;
                // the id is only known at the end
                let at = {
                    let mut l = self.lock();
                    l.events.push(Event { call: a, ret: b, ev: Ev::Alloc(0) });
                    l.events.len() - 1
                };
                self.steps(e, 0, at, steps, false)?;
            }
            Op::Batch { n, arrays } => {
                let (a, b, mut e) = self.call(|| format!("create_entities({n})"), || w.create_entities(*n))?;
                // ids are only known at the end
                let at = {
                    let mut l = self.lock();
                    l.events.push(Event { call: a, ret: b, ev: Ev::AllocN(0, *n) });
                    l.handle = Some((0, *n));
                    l.events.len() - 1
                };
                for (k, t) in arrays {
                    let (a, b, (e2, v)) = self.call(|| format!("attach an array of {}", NAMES[*k]), || (OPS[*k].batch)(e, t, true))?;
                    e = e2;
                    self.push(a, b, Ev::HAttach(0, *k, v.iter().map(|v| v.tok).collect()));
                }
                self.lock().handle = None;
                let (a, b, ids) = self.call(|| "into_ids".into(), || e.into_ids())?;
                let start = ids.start.get();
                if ids.end.get() < start || ids.end.get() - start != *n {
                    return Err(format!("create_entities({n}) returned the range {ids:?}"));
                }
                let mut l = self.lock();
                for e in l.events[at..].iter_mut() {
                    match &mut e.ev {
                        Ev::AllocN(s, _) | Ev::HAttach(s, ..) => *s = start,
                        _ => {}
                    }
                }
                l.events.push(Event { call: a, ret: b, ev: Ev::Rel(start, *n) });
                drop(l);
                if *n > 0 {
                    self.own = Some(start);
                }
            }
            Op::Handle { t, steps, remove } => {
                let id = self.target(t);
                let (a, b, e) = self.call(|| format!("entity({id})"), || w.entity(nz(id)))?;
                self.push(a, b, Ev::Acq(id, e.is_some()));
                if let Some(e) = e {
                    self.steps(e, id, 0, steps, *remove)?;
                }
            }
            Op::Attach(t, k, tok) => {
                let id = self.target(t);
                let t0 = tick();
                match self.call(|| format!("attach_component {} to {id}", NAMES[*k]), || (OPS[*k].attach_world)(w, nz(id), *tok)) {
                    Ok((a, b, v)) => self.push(a, b, Ev::Attach(id, *k, v.tok, true)),
                    Err(m) if refusal(&m) => self.push(t0, tick(), Ev::Attach(id, *k, *tok, false)),
                    Err(m) => return Err(m),
                }
            }
            Op::Detach(t, k) => {
                let id = self.target(t);
                let t0 = tick();
                match self.call(|| format!("detach_component {} from {id}", NAMES[*k]), || (OPS[*k].detach_world)(w, nz(id))) {
                    Ok((a, b, v)) => self.push(a, b, Ev::Detach(id, *k, Ok(v.map(|v| v.tok)))),
                    Err(m) if refusal(&m) => self.push(t0, tick(), Ev::Detach(id, *k, Err(m))),
                    Err(m) => return Err(m),
                }
            }
            Op::Remove(t) => {
                let id = self.target(t);
                let t0 = tick();
                match self.call(|| format!("remove_entity({id})"), || w.remove_entity(nz(id))) {
                    Ok((a, b, ())) => self.push(a, b, Ev::Remove(id, true)),
                    Err(m) if refusal(&m) => self.push(t0, tick(), Ev::Remove(id, false)),
                    Err(m) => return Err(m),
                }
            }
            Op::Exist(t) => {
                let id = self.target(t);
                let (a, b, v) = self.call(|| format!("exist({id})"), || w.exist(nz(id)))?;
                self.push(a, b, Ev::Exist(id, v));
            }
            Op::Read(t, k) => {
                let id = self.target(t);
                let (a, b, v) = self.call(
                    || format!("read {} of {id}", NAMES[*k]),
                    || {
                        (OPS[*k].read)(w, nz(id)).map(|g| {
                            let v = g.val().tok;
                            y();
                            if g.val().tok == v {
                                v
                            } else {
                                BAD
                            }
                        })
                    },
                )?;
                self.push(a, b, Ev::Read(id, *k, v));
            }
            Op::Write(t, k, tok) => {
                let id = self.target(t);
                let (a, b, v) = self.call(
                    || format!("write {} of {id}", NAMES[*k]),
                    || {
                        (OPS[*k].write)(w, nz(id)).map(|mut g| {
                            let old = g.val().tok;
                            g.put(*tok, true);
                            y();
                            if g.val().tok == mask(*k, *tok) {
                                old
                            } else {
                                BAD
                            }
                        })
                    },
                )?;
                self.push(a, b, Ev::Write(id, *k, mask(*k, *tok), v));
            }
            Op::Stor(k) => {
                let (a, b, (n, d, ids)) = self.call(
                    || format!("read the storage of {}", NAMES[*k]),
                    || {
                        let s = (OPS[*k].storage_read)(w).expect("registered");
                        let n = s.count();
                        let d: Vec<u64> = s.data().iter().map(|v| v.tok).collect();
                        y();
                        let ids: Vec<_> = (1..10).map(|i| (i, s.get(nz(i)).map(|v| v.tok))).collect();
                        (n, d, ids)
                    },
                )?;
                self.push(a, b, Ev::Stor(*k, n, d, ids));
            }
            Op::StorW(k, t, tok) => {
                let id = self.target(t);
                let (a, b, v) = self.call(
                    || format!("write {} of {id} through the storage", NAMES[*k]),
                    || {
                        let mut s = (OPS[*k].storage_write)(w).expect("registered");
                        y();
                        let old = s.get_mut(nz(id), false, &mut |_, _| Some((*tok, false))).map(|(o, _)| o.tok);
                        y();
                        old
                    },
                )?;
                self.push(a, b, Ev::StorW(*k, id, mask(*k, *tok), v));
            }
            Op::Query { shape, tok, limit } => {
                let e = self.env.shapes[*shape];
                let mut leaves = vec![];
                (e.desc)().leaves(&mut leaves);
                let (a, b, (rows, writes, complete)) = self.call(
                    || format!("query {}", e.name),
                    || {
                        let mut q = (e.open)(w);
                        let mut next = *tok;
                        let (mut rows, mut writes) = (vec![], vec![]);
                        let cap = limit.unwrap_or(64);
                        let mut complete = false;
                        loop {
                            if rows.len() >= cap {
                                break;
                            }
                            let r = q.next_id(&mut |_, _| {
                                next += 1;
                                Some((next, false))
                            });
                            match r {
                                None => {
                                    complete = true;
                                    break;
                                }
                                Some(r) => {
                                    let id = r.id.unwrap_or(0);
                                    for (leaf, k, t, _) in &r.wrote {
                                        debug_assert_eq!(leaves[*leaf].0, *k);
                                        writes.push((id, *k, *t));
                                    }
                                    rows.push(QRow { id, toks: r.obs.iter().map(|o| (o.k, o.tok)).collect() });
                                }
                            }
                            y();
                        }
                        (rows, writes, complete)
                    },
                )?;
                self.push(a, b, Ev::Query { shape: *shape, rows, writes, complete });
            }
        }
        Ok(())
    }
    pub fn run(&mut self, w: &World, ops: &[Op]) {
        for o in ops {
            if let Err(m) = self.op(w, o) {
                let t = tick();
                self.push(t, t, Ev::Panicked(m));
                return;
            }
        }
    }
}
/// A panic out of a call which is refused when the entity does not exist; whether it was right to refuse is decided by
/// the search for an explanation, whatever the text.
fn refusal(m: &str) -> bool {
    !m.contains("self-deadlock")
}

// ------------------------------------------------------------------ oracles

#[derive(Clone, Debug)]
pub struct CFail {
    pub kind: CKind,
    /// the property which what was seen contradicts by itself, besides the one the program is about
    pub also: &'static str,
    pub msg: String,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Dying {
    id: u8,
    thread: u8,
    groups: u16,
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    /// token + 1, 0: absent
    comps: Vec<[u32; NK]>,
    live: u64,
    freed: u64,
    next: u8,
    held: Vec<u8>,
    gen: Vec<u8>,
    hgen: Vec<u8>,
    dying: Vec<Dying>,
    pos: Vec<u16>,
    /// threads inside a removal
    inrem: u8,
}
impl St {
    fn start(p: &Prog) -> St {
        let n = p.setup.len();
        let mut s = St {
            comps: vec![[0; NK]; n + 1],
            live: 0,
            freed: 0,
            next: n as u8 + 1,
            held: vec![0; n + 1],
            gen: vec![0; n + 1],
            hgen: vec![0; p.threads.len()],
            dying: vec![],
            pos: vec![0; p.threads.len()],
            inrem: 0,
        };
        for (i, (c, rm)) in p.setup.iter().enumerate() {
            if *rm {
                s.freed |= 2 << i;
                s.gen[i + 1] = 1;
            } else {
                s.live |= 2 << i;
                for (k, t) in c {
                    s.comps[i + 1][*k] = mask(*k, *t) as u32 + 1;
                }
            }
        }
        s
    }
    fn is_live(&self, id: usize) -> bool {
        id < 64 && self.live >> id & 1 == 1
    }
    fn get(&self, id: usize, k: usize) -> Option<u64> {
        self.comps.get(id).and_then(|c| c[k].checked_sub(1)).map(|t| t as u64)
    }
    fn set(&mut self, id: usize, k: usize, t: Option<u64>) {
        self.comps[id][k] = t.map_or(0, |t| t as u32 + 1)
    }
    fn grow(&mut self, id: usize) {
        while self.comps.len() <= id {
            self.comps.push([0; NK]);
            self.held.push(0);
            self.gen.push(0);
        }
    }
    fn alloc(&mut self, id: usize) {
        self.grow(id);
        self.live |= 1 << id;
        self.held[id] += 1;
    }
    fn member(&self, id: usize, gi: usize, g: &Grp) -> bool {
        match self.dying.iter().find(|d| d.id as usize == id) {
            Some(d) => d.groups >> gi & 1 == 1,
            None => self.comps[id][g.a] != 0 && self.comps[id][g.b] != 0,
        }
    }
    fn matches(&self, id: usize, x: &Expr, p: &Prog) -> bool {
        match x {
            Expr::Leaf { k, .. } => self.comps[id][*k] != 0,
            Expr::Tup(v) => v.iter().all(|x| self.matches(id, x, p)),
            Expr::WoLeft(x, y) => !self.matches(id, x, p) && self.matches(id, y, p),
            Expr::WoRight(x, y) => self.matches(id, x, p) && !self.matches(id, y, p),
            Expr::Group { g, .. } => p.groups.iter().position(|h| h == g).map_or(false, |i| self.member(id, i, g)),
        }
    }
    fn kill(&mut self, id: usize, thread: usize, p: &Prog) {
        let mut groups = 0;
        for (i, g) in p.groups.iter().enumerate() {
            if self.comps[id][g.a] != 0 && self.comps[id][g.b] != 0 {
                groups |= 1 << i;
            }
        }
        self.live &= !(1 << id);
        self.gen[id] += 1;
        self.dying.push(Dying { id: id as u8, thread: thread as u8, groups });
        self.inrem |= 1 << thread;
    }
    /// the event as an atomic step; false if it could not have given this result now
    fn apply(&mut self, e: &Ev, t: usize, p: &Prog, exprs: &[Expr]) -> bool {
        match e {
            Ev::Alloc(id) => {
                let id = *id;
                if id >= 60 {
                    return false;
                }
                if self.freed != 0 {
                    if self.freed >> id & 1 == 0 {
                        return false;
                    }
                    self.freed &= !(1 << id);
                } else {
                    if id != self.next as usize {
                        return false;
                    }
                    self.next += 1;
                }
                self.alloc(id);
                self.hgen[t] = self.gen[id];
            }
            Ev::AllocN(start, n) => {
                if *start != self.next as usize || start + n >= 60 {
                    return false;
                }
                for i in *start..start + n {
                    self.alloc(i);
                }
                self.next += *n as u8;
            }
            Ev::Acq(id, ok) => {
                if self.is_live(*id) != *ok {
                    return false;
                }
                if *ok {
                    self.held[*id] += 1;
                    self.hgen[t] = self.gen[*id];
                }
            }
            Ev::Rel(id, n) => {
                for i in *id..id + n {
                    self.held[i] -= 1;
                }
            }
            Ev::RelRemove(id) => self.held[*id] -= 1,
            Ev::HRemove(id) => {
                if self.is_live(*id) && self.gen[*id] == self.hgen[t] {
                    if self.held[*id] > 0 {
                        return false;
                    }
                    self.kill(*id, t, p);
                }
            }
            Ev::HAttach(id, k, toks) => {
                for (i, tok) in toks.iter().enumerate() {
                    if !self.is_live(id + i) {
                        return false;
                    }
                    self.set(id + i, *k, Some(*tok));
                }
            }
            Ev::HDetach(id, k, res) => {
                if self.get(*id, *k) != *res || !self.is_live(*id) {
                    return false;
                }
                self.set(*id, *k, None);
            }
            Ev::HRead(id, k, res) | Ev::Read(id, k, res) => return self.get(*id, *k) == *res,
            Ev::HWrite(id, k, tok, res) | Ev::Write(id, k, tok, res) | Ev::StorW(k, id, tok, res) => {
                if self.get(*id, *k) != *res {
                    return false;
                }
                if res.is_some() {
                    self.set(*id, *k, Some(*tok));
                }
            }
            Ev::Attach(id, k, tok, ok) => {
                if self.is_live(*id) != *ok {
                    return false;
                }
                if *ok {
                    self.set(*id, *k, Some(*tok));
                }
            }
            Ev::Detach(id, k, res) => match res {
                Ok(v) => {
                    if !self.is_live(*id) || self.get(*id, *k) != *v {
                        return false;
                    }
                    self.set(*id, *k, None);
                }
                Err(_) => return !self.is_live(*id),
            },
            Ev::Remove(id, ok) => {
                if self.is_live(*id) != *ok {
                    return false;
                }
                if *ok {
                    if self.held[*id] > 0 {
                        return false;
                    }
                    self.kill(*id, t, p);
                }
            }
            Ev::Exist(id, res) => return self.is_live(*id) == *res,
            Ev::Stor(k, n, data, ids) => {
                let mut want: Vec<u64> = (0..self.comps.len()).filter_map(|i| self.get(i, *k)).collect();
                let mut got = data.clone();
                want.sort();
                got.sort();
                return *n == want.len() && got == want && ids.iter().all(|(i, v)| self.get(*i, *k) == *v);
            }
            Ev::Query { shape, rows, writes, complete } => {
                let x = &exprs[*shape];
                let mut seen = 0u64;
                for r in rows {
                    if r.id == 0 || r.id >= self.comps.len() || seen >> r.id & 1 == 1 {
                        return false;
                    }
                    seen |= 1 << r.id;
                    if !self.matches(r.id, x, p) || !r.toks.iter().all(|(k, t)| self.get(r.id, *k) == Some(*t)) {
                        return false;
                    }
                }
                if *complete && (0..self.comps.len()).any(|i| seen >> i & 1 == 0 && self.matches(i, x, p)) {
                    return false;
                }
                for (id, k, t) in writes {
                    self.set(*id, *k, Some(*t));
                }
            }
            Ev::Panicked(_) => return false,
        }
        true
    }
}
pub enum Lin {
    Explained,
    Unexplained,
    GaveUp,
}
/// What the audit found after the run.
#[derive(Clone, Debug, Default)]
pub struct FinalState {
    /// id -> tokens, for every id that exists or still has components
    pub comps: BTreeMap<usize, [Option<u64>; NK]>,
    pub live: BTreeSet<usize>,
}
/// Is there an order of the steps, consistent with real time, in which the model gives the same results and ends in
/// the same state? `live` false: the run did not end (deadlock), only what was returned is explained.
pub fn explain(p: &Prog, logs: &[Vec<Event>], exprs: &[Expr], end: Option<&FinalState>, budget: usize) -> (Lin, usize) {
    let mut memo: HashSet<u64> = HashSet::new();
    let mut stack = vec![St::start(p)];
    let mut nodes = 0;
    while let Some(s) = stack.pop() {
        nodes += 1;
        if nodes > budget {
            return (Lin::GaveUp, nodes);
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        if !memo.insert(h.finish()) {
            continue;
        }
        let n = logs.len();
        if s.inrem == 0 && (0..n).all(|t| s.pos[t] as usize == logs[t].len()) {
            let good = match end {
                None => true,
                Some(f) => (1..s.comps.len().max(f.comps.keys().last().map_or(0, |k| k + 1))).all(|id| {
                    s.is_live(id) == f.live.contains(&id)
                        && (0..NK).all(|k| s.get(id, k) == f.comps.get(&id).and_then(|c| c[k]))
                }),
            };
            if good {
                return (Lin::Explained, nodes);
            }
            continue;
        }
        // moves, the most likely one pushed last
        let mut moves: Vec<(u64, St)> = vec![];
        // the earliest return among events not done yet bounds what may go now
        let bound = (0..n).filter_map(|t| logs[t].get(s.pos[t] as usize).map(|e| e.ret)).min().unwrap_or(u64::MAX);
        for t in 0..n {
            if s.inrem >> t & 1 == 1 {
                continue;
            }
            if let Some(e) = logs[t].get(s.pos[t] as usize) {
                if e.call > bound {
                    continue;
                }
                let mut s2 = s.clone();
                if s2.apply(&e.ev, t, p, exprs) {
                    if s2.inrem >> t & 1 == 0 {
                        s2.pos[t] += 1;
                    }
                    moves.push((e.ret, s2));
                }
            }
        }
        for (di, d) in s.dying.iter().enumerate() {
            let id = d.id as usize;
            let ret = logs[d.thread as usize][s.pos[d.thread as usize] as usize].ret;
            let mut busy = 0u32;
            for (gi, g) in p.groups.iter().enumerate() {
                if d.groups >> gi & 1 == 1 {
                    busy |= 1 << g.a | 1 << g.b;
                    let mut s2 = s.clone();
                    s2.dying[di].groups &= !(1 << gi);
                    moves.push((ret, s2));
                }
            }
            let mut any = d.groups != 0;
            for k in 0..NK {
                if s.comps[id][k] != 0 {
                    any = true;
                    if busy >> k & 1 == 0 {
                        let mut s2 = s.clone();
                        s2.comps[id][k] = 0;
                        moves.push((ret, s2));
                    }
                }
            }
            if !any {
                let mut s2 = s.clone();
                s2.dying.remove(di);
                s2.freed |= 1 << id;
                s2.inrem &= !(1 << d.thread);
                s2.pos[d.thread as usize] += 1;
                moves.push((ret, s2));
            }
        }
        moves.sort_by_key(|m| std::cmp::Reverse(m.0));
        stack.extend(moves.into_iter().map(|m| m.1));
    }
    (Lin::Unexplained, nodes)
}

/// Interval monitor of live handles: acquired at A, given up at B; what other threads completed in between.
pub fn handle_monitor(logs: &[Vec<Event>]) -> Result<u64, CFail> {
    let mut handles = vec![]; // (thread, first id, n, from, to)
    for (t, l) in logs.iter().enumerate() {
        let mut open: Option<(usize, usize, u64)> = None;
        for e in l {
            match &e.ev {
                Ev::Alloc(id) => open = Some((*id, 1, e.ret)),
                Ev::AllocN(id, n) => open = Some((*id, *n, e.ret)),
                Ev::Acq(id, true) => open = Some((*id, 1, e.ret)),
                Ev::Rel(..) | Ev::RelRemove(..) => {
                    if let Some((id, n, from)) = open.take() {
                        handles.push((t, id, n, from, e.call));
                    }
                }
                _ => {}
            }
        }
    }
    let mut seen = 0;
    for &(t, first, n, from, to) in &handles {
        for (u, l) in logs.iter().enumerate() {
            if u == t {
                continue;
            }
            for e in l {
                // entirely within the life of the handle
                let within = e.call > from && e.ret < to;
                let inside = |id: &usize| within && *id >= first && *id < first + n;
                let bad = match &e.ev {
                    Ev::Remove(id, true) if inside(id) => Some("was removed"),
                    Ev::Exist(id, false) if inside(id) => Some("was reported as not existing"),
                    Ev::Acq(id, false) if inside(id) => Some("could not be found"),
                    Ev::Remove(id, false) if inside(id) => Some("was refused as not existing"),
                    Ev::Attach(id, _, _, false) if inside(id) => Some("was refused as not existing"),
                    Ev::Alloc(id) if inside(id) => Some("was given out again"),
                    Ev::AllocN(s, m) if within && *s < first + n && first < s + m => Some("was given out again"),
                    _ => None,
                };
                if let Some(b) = bad {
                    return Err(CFail {
                        kind: CKind::Handle,
                        also: if b.ends_with("again") || b.contains("existing") || b.contains("found") { "C02" } else { "" },
                        msg: format!("entity {first} (handle of thread {t} alive during {from}..{to}) {b} by thread {u}: {:?}", e),
                    });
                }
                let about = match &e.ev {
                    Ev::Remove(id, _) | Ev::Exist(id, _) | Ev::Acq(id, _) => *id >= first && *id < first + n,
                    _ => false,
                };
                if about && e.call < to && e.ret > from {
                    seen += 1
                }
            }
        }
    }
    Ok(seen)
}

/// an id is given out at most once more than it was free
pub fn ids_monitor(p: &Prog, logs: &[Vec<Event>]) -> Result<(), CFail> {
    let mut free: BTreeMap<usize, i64> = BTreeMap::new();
    for (i, (_, removed)) in p.setup.iter().enumerate() {
        free.insert(i + 1, *removed as i64);
    }
    let mut given = vec![];
    for e in logs.iter().flatten() {
        match &e.ev {
            Ev::Alloc(id) => given.push(*id),
            Ev::AllocN(s, n) => given.extend(*s..*s + *n),
            Ev::Remove(id, true) | Ev::HRemove(id) => *free.entry(*id).or_insert(1) += 1,
            _ => {}
        }
    }
    for id in given {
        let f = free.entry(id).or_insert(1);
        *f -= 1;
        if *f < 0 {
            return Err(CFail { kind: CKind::Lin, also: "C02", msg: format!("the id {id} was given out more often than it was free") });
        }
    }
    Ok(())
}

pub fn audit(w: &mut World, p: &Prog, env: &Env, ids: usize) -> Result<FinalState, CFail> {
    let bad = |also: &'static str, m: String| CFail { kind: CKind::Final, also, msg: m };
    let mut f = FinalState::default();
    for id in 1..ids {
        let alive = w.exist(nz(id));
        if alive != w.entity(nz(id)).is_some() {
            return Err(bad("C02", format!("exist({id}) and entity({id}) disagree after the run")));
        }
        if alive {
            f.live.insert(id);
        }
        for k in &p.comps {
            if let Some(v) = (OPS[*k].read)(w, nz(id)).map(|g| g.val().tok) {
                f.comps.entry(id).or_insert([None; NK])[*k] = Some(v);
                if !alive {
                    return Err(bad("C03", format!("entity {id} does not exist after the run but still has {}={v}", NAMES[*k])));
                }
            }
        }
    }
    for k in &p.comps {
        let s = (OPS[*k].storage_read)(w).expect("registered");
        let mut want: Vec<u64> = f.comps.values().filter_map(|c| c[*k]).collect();
        let mut got: Vec<u64> = s.data().iter().map(|v| v.tok).collect();
        let order = got.clone();
        want.sort();
        got.sort();
        if want != got || s.count() != want.len() {
            return Err(bad("C01", format!("the storage of {} holds {got:?} (count {}) after the run, the entities {want:?}", NAMES[*k], s.count())));
        }
        // members of owning groups come first
        for g in &p.groups {
            if !g.owned().contains(k) || is_zst(*k) {
                continue;
            }
            let members: BTreeSet<u64> = f.comps.values().filter(|c| c[g.a].is_some() && c[g.b].is_some()).filter_map(|c| c[*k]).collect();
            let front: BTreeSet<u64> = order.iter().take(members.len()).copied().collect();
            if k != &6 && front != members {
                return Err(bad("C07", format!("{}: the storage of {} starts with {front:?} after the run, members are {members:?}", g.name(), NAMES[*k])));
            }
        }
    }
    for e in env.shapes.iter() {
        let x = (e.desc)();
        let mut g = vec![];
        x.groups(&mut g);
        let mut c = vec![];
        x.comps(&mut c);
        let top = matches!(x, Expr::Leaf { mutable: false, .. } | Expr::Group { ma: false, mb: false, .. });
        if !top || !c.iter().all(|k| p.comps.contains(k)) || !g.iter().all(|g| p.groups.contains(g)) {
            continue;
        }
        let mut want: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
        for (id, cs) in &f.comps {
            let t: Vec<u64> = c.iter().filter_map(|k| cs[*k]).collect();
            if t.len() == c.len() {
                want.insert(*id, t);
            }
        }
        let mut q = (e.open)(w);
        let mut got: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
        for _ in 0..ids + 200 {
            match q.next_id(&mut |_, _| None) {
                None => break,
                Some(r) => {
                    if got.insert(r.id.unwrap(), r.obs.iter().map(|o| o.tok).collect()).is_some() {
                        return Err(bad(if g.is_empty() { "C04" } else { "C05" }, format!("query {} yields entity {} twice after the run", e.name, r.id.unwrap())));
                    }
                }
            }
        }
        if got != want {
            return Err(bad(if g.is_empty() { "C04" } else { "C05" }, format!("query {} yields {got:?} after the run, it should be {want:?}", e.name)));
        }
    }
    Ok(f)
}
/// all removed ids, and nothing else, are given out again before new ones
pub fn audit_ids(w: &World, next: usize, live: &BTreeSet<usize>) -> Result<(), CFail> {
    let mut free: BTreeSet<usize> = (1..next).filter(|i| !live.contains(i)).collect();
    while !free.is_empty() {
        let id = w.create_entity().into_id().get();
        if !free.remove(&id) {
            return Err(CFail { kind: CKind::Final, also: "C02", msg: format!("create_entity gave {id} after the run while the ids {free:?} were free") });
        }
    }
    let id = w.create_entity().into_id().get();
    if id != next {
        return Err(CFail { kind: CKind::Final, also: "C02", msg: format!("create_entity gave {id} after the run, the next never-used id is {next}") });
    }
    Ok(())
}
/// one past the greatest id ever given out
pub fn next_id(p: &Prog, logs: &[Vec<Event>]) -> usize {
    let mut n = p.setup.len() + 1;
    for e in logs.iter().flatten() {
        match &e.ev {
            Ev::Alloc(id) => n = n.max(id + 1),
            Ev::AllocN(s, m) => n = n.max(s + m),
            _ => {}
        }
    }
    n
}
pub fn stored(f: &FinalState) -> (i64, i64) {
    let (mut t, mut g) = (0, 0);
    for c in f.comps.values() {
        for k in 0..NK {
            if c[k].is_some() {
                if is_tracked(k) {
                    t += 1
                }
                if k == 5 {
                    g += 1
                }
            }
        }
    }
    (t, g)
}
