//! Single-threaded histories: generate, execute against the real world and the reference side by side, compare.
use crate::other::Other;
use crate::shapes::*;
use moncore::comps::*;
use moncore::model::*;
use moncore::query::*;
use moncore::rng::{mix, Rng};
use fill::{PairOps, FILL, NF, NP, PAIRS};
use moncore::ops::{self, OPS, RES};
use parking_lot::monitor;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::{EntityId, World};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Read,
    Ids,
    Query,
    GroupQ,
    Layout,
    MakeGroup,
    Refusal,
    Drops,
    Res,
    Proto,
    Panic,
    Held,
    Diff,
    /// memory: a value that is not one, a second drop, a leak
    Mem,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: Kind,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(kind: Kind, msg: impl Into<String>) -> R<T> {
    Err(Fail { kind, msg: msg.into() })
}
macro_rules! check {
    ($c:expr, $k:expr, $($a:tt)*) => {
        if !($c) { return fail($k, format!($($a)*)); }
    };
}

pub const NOPS: usize = 27;
#[rustfmt::skip]
pub const OPNAMES: [&str; NOPS] = [
    "create", "create+attach", "batch", "attach", "handle attach", "detach", "handle detach", "remove",
    "handle remove", "read", "storage read", "write", "storage write", "query", "group query", "make group",
    "misuse", "resource", "register", "probe ids", "audit", "guards", "remove burst", "churn", "recycle", "group churn", "hammer",
];
#[rustfmt::skip]
#[derive(Clone)]
pub struct Profile {
    pub id: &'static str,
    pub kinds: &'static [Kind],
    pub weights: [u32; NOPS],
    /// counters that must all be positive for a case to count as non-trivial
    pub need: &'static [&'static str],
    pub rule: &'static str,
    /// audit after every op in tiny worlds
    pub audits: Audits,
}
#[derive(Clone, Copy, Default)]
pub struct Audits {
    pub ids: bool,
    pub read: bool,
    pub query: bool,
    pub groupq: bool,
    pub layout: bool,
    pub drops: bool,
    pub res: bool,
}
impl Audits {
    pub const ALL: Audits =
        Audits { ids: true, read: true, query: true, groupq: true, layout: true, drops: true, res: true };
    pub const NONE: Audits =
        Audits { ids: false, read: false, query: false, groupq: false, layout: false, drops: false, res: false };
}

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub ops: Vec<(u8, u64)>,
}
/// Derived from the seed alone.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub size: usize, // 0 tiny 1 small 2 mid 3 large 4 huge
    /// tokens up to here stay distinct in every component
    pub max_tok: u64,
    pub max_live: usize,
    pub reg: [bool; NK],
    pub early_groups: usize,
    pub period: usize,
    /// dozens of further component types, resources and groups
    pub wide: bool,
    /// all of these groups
    pub crowd: bool,
    /// a second world is used in turn
    pub two: bool,
    /// some steps are taken by other threads
    pub hop: bool,
}
impl Cfg {
    pub fn of(seed: u64) -> (Cfg, usize) {
        let mut r = Rng::new(mix(seed, 0xC0F));
        let size = match r.below(1000) {
            0..=549 => 0,
            550..=849 => 1,
            850..=989 => 2,
            999 if r.chance(1, 5) => 4,
            _ => 3,
        };
        // an interpreter is slow: small worlds, many operations on few entities
        let size = if cfg!(miri) { if size < 3 { size / 2 } else { 1 } } else { size };
        let (max_live, nops, period) = match size {
            0 if cfg!(miri) => (2 + r.below(6), 15 + r.below(40), 4),
            1 if cfg!(miri) => (6 + r.below(30), 20 + r.below(60), 12),
            0 => (2 + r.below(6), 20 + r.below(100), 1),
            1 => (6 + r.below(30), 60 + r.below(200), 6 + r.below(10)),
            2 => (40 + r.below(200), 150 + r.below(300), 40),
            3 => (800 + r.below(5000), 60 + r.below(80), 30),
            // ids and indices beyond 16 bits
            _ => (67_000 + r.below(20_000), 30 + r.below(50), 100),
        };
        let mut reg = [true; NK];
        if r.chance(1, 2) {
            for x in reg.iter_mut() {
                *x = r.chance(3, 4);
            }
        }
        // the component with 16-bit tokens
        reg[6] &= size != 4;
        let max_tok = if size == 4 { u32::MAX as u64 } else { 55_000 };
        let early_groups = if r.chance(1, 2) { r.below(5) } else { 0 };
        let wide = size <= 1 && !cfg!(miri) && r.chance(1, 14);
        let two = size <= 1 && !wide && !cfg!(miri) && r.chance(1, 12);
        let hop = !cfg!(miri) && r.chance(1, 25);
        let crowd = wide && r.chance(1, 4);
        (Cfg { size, max_tok, max_live, reg, early_groups, period, wide, crowd, two, hop }, nops)
    }
}
pub fn gen_case(p: &Profile, seed: u64) -> Case {
    let (_, n) = Cfg::of(seed);
    let mut r = Rng::new(mix(seed, 0x0B5));
    let total: u32 = p.weights.iter().sum();
    let mut ops = Vec::with_capacity(n);
    // a case emphasises some operations at random
    let mut w = p.weights;
    if r.chance(1, 3) {
        for x in w.iter_mut() {
            if r.chance(1, 4) {
                *x *= 4
            } else if r.chance(1, 4) {
                *x = 0
            }
        }
    }
    let t2: u32 = w.iter().sum();
    let (w, total) = if t2 == 0 { (p.weights, total) } else { (w, t2) };
    for _ in 0..n {
        let mut x = r.below(total as usize) as u32;
        let mut c = 0;
        while x >= w[c] {
            x -= w[c];
            c += 1;
        }
        ops.push((c as u8, r.next()));
    }
    Case { prop: p.id.into(), seed, ops }
}

/// the reference for the further types
#[derive(Default)]
pub struct Wide {
    /// by type: entity -> token
    vals: Vec<BTreeMap<usize, u64>>,
    groups: Vec<usize>,
    res: Vec<Option<u64>>,
}
impl Wide {
    fn register(&mut self, w: &mut World) {
        FILL.iter().for_each(|f| (f.register)(w));
        self.vals = vec![BTreeMap::new(); NF];
        self.res = vec![None; NF];
    }
    fn both(&self, p: &PairOps) -> BTreeMap<usize, (u64, u64)> {
        self.vals[p.a].iter().filter_map(|(id, a)| Some((*id, (*a, *self.vals[p.b].get(id)?)))).collect()
    }
}
impl<'p> Ex<'p> {
    fn op_wide(&mut self, r: &mut Rng) -> R {
        if self.tok > self.cfg.max_tok {
            return Ok(());
        }
        let j = r.below(NF);
        let id = self.live(r);
        self.st.add("operations on further types", 1);
        match (r.below(12), id) {
            (0..=4, Some(id)) => {
                // neighbours too: they form groups
                for j in j..(j + 1 + r.below(6)).min(NF) {
                    let tok = self.fresh();
                    self.t(|| format!("attach F{j} to {id}"));
                    ok("attaching one of many types", || (FILL[j].attach)(&self.w, eid(id), tok))?;
                    self.wide.vals[j].insert(id, tok);
                }
            }
            (5, Some(id)) => {
                self.t(|| format!("detach F{j} from {id}"));
                let got = ok("detaching one of many types", || (FILL[j].detach)(&self.w, eid(id)))?;
                let want = self.wide.vals[j].remove(&id);
                check!(got == want, Kind::Read, "detaching F{j} from {id} gave {got:?}, stored was {want:?}");
            }
            (6, Some(id)) => {
                let tok = self.fresh();
                self.t(|| format!("write F{j} of {id}"));
                let got = ok("writing one of many types", || (FILL[j].write)(&self.w, eid(id), tok))?;
                let want = self.wide.vals[j].get(&id).copied();
                check!(got == want, Kind::Read, "writing F{j} of {id} found {got:?}, stored was {want:?}");
                if want.is_some() {
                    self.wide.vals[j].insert(id, tok);
                }
            }
            (7 | 8, _) => {
                // in a crowd all of them at once
                let start = r.below(NP);
                let some = if self.cfg.crowd { (start..start + NP).map(|p| p % NP).collect() } else { vec![start, r.below(NP), r.below(NP)] };
                for p in some {
                    // the same random numbers with and without groups
                    let skip = if self.cfg.crowd { self.wide.groups.contains(&p) } else { r.chance(1, 2) };
                    if skip || self.nogroups {
                        continue;
                    }
                    self.t(|| format!("make group {p} over F{} and F{}", PAIRS[p].a, PAIRS[p].b));
                    let w = &mut self.w;
                    let got = call(|| (PAIRS[p].make)(w));
                    if self.wide.groups.contains(&p) {
                        check!(got.is_err(), Kind::MakeGroup, "an identical group over two of many types was accepted");
                    } else {
                        check!(got.is_ok(), Kind::MakeGroup, "group {p} over two of many types was refused: {got:?}");
                        self.wide.groups.push(p);
                    }
                }
            }
            (9, _) => {
                let n = r.below(4);
                if !self.room(n * 4) {
                    return Ok(());
                }
                let toks: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
                self.t(|| format!("create_entities({n}) attaching F{j} and its neighbours"));
                let ks: Vec<usize> = (j..(j + 3).min(NF)).collect();
                let ids = ok("a batch with many types", || {
                    let mut e = self.w.create_entities(n);
                    for k in &ks {
                        e = (FILL[*k].batch)(e, &toks);
                    }
                    e.into_ids()
                })?;
                for (i, t) in (ids.start.get()..ids.end.get()).zip(toks) {
                    check!(!self.m.alive(i), Kind::Ids, "a batch has {i}, which is alive");
                    while self.m.next_id() < i {
                        let n = self.m.next_id();
                        self.m.ents.push(None);
                        self.m.freed.insert(n);
                    }
                    self.m.create(i);
                    for k in &ks {
                        self.wide.vals[*k].insert(i, t);
                    }
                }
            }
            (10, _) => {
                let tok = self.fresh();
                self.t(|| format!("resource RF{j}"));
                let w = &mut self.w;
                let got = ok("one of many resources", || {
                    let got = (FILL[j].res_get)(w);
                    (FILL[j].res_set)(w, tok);
                    got
                })?;
                let want = std::mem::replace(&mut self.wide.res[j], Some(tok));
                check!(got == want, Kind::Res, "resource RF{j} reads {got:?}, stored was {want:?}");
            }
            _ => {
                let id = self.anyid(r);
                let got = ok("reading one of many types", || (FILL[j].read)(&self.w, eid(id)))?;
                let want = self.wide.vals[j].get(&id).copied();
                check!(got == want, Kind::Read, "reading F{j} of {id} gave {got:?}, stored was {want:?}");
            }
        }
        Ok(())
    }
    fn audit_wide(&mut self) -> R {
        if !self.cfg.wide {
            return Ok(());
        }
        for j in 0..NF {
            let got = ok("querying one of many types", || (FILL[j].all)(&self.w))?;
            let n = got.len();
            let got: BTreeMap<usize, u64> = got.into_iter().collect();
            check!(n == got.len() && got == self.wide.vals[j], Kind::Query, "query &F{j} yields {got:?} ({n} items), stored is {:?}", self.wide.vals[j]);
            let got = ok("one of many resources", || (FILL[j].res_get)(&self.w))?;
            check!(got == self.wide.res[j], Kind::Res, "resource RF{j} reads {got:?}, stored was {:?}", self.wide.res[j]);
        }
        for p in self.wide.groups.clone() {
            let p = &PAIRS[p];
            let want = self.wide.both(p);
            let got = ok("querying one of many groups", || (p.rows)(&self.w))?;
            let n = got.len();
            let got: BTreeMap<usize, (u64, u64)> = got.into_iter().map(|(i, a, b)| (i, (a, b))).collect();
            check!(n == got.len() && got == want, Kind::GroupQ, "the group over F{} and F{} yields {got:?} ({n} items), members are {want:?}", p.a, p.b);
            for id in [1, 2, self.m.next_id() / 2 + 1] {
                let got = ok("looking up in one of many groups", || (p.get)(&self.w, eid(id)))?;
                check!(got == want.get(&id).copied(), Kind::GroupQ, "the group over F{} and F{} has {got:?} for {id}, expected {:?}", p.a, p.b, want.get(&id));
            }
            if p.kind < 2 {
                let (a, b) = ok("storage of one of many types", || (p.dense)(&self.w))?;
                let mut front: Vec<u64> = a.iter().take(n).copied().collect();
                let order: Vec<Option<u64>> = front.iter().map(|t| want.values().find(|v| v.0 == *t).map(|v| v.1)).collect();
                front.sort();
                let mut members: Vec<u64> = want.values().map(|v| v.0).collect();
                members.sort();
                check!(front == members, Kind::Layout, "storage of F{} begins with {front:?}, the group has {members:?}", p.a);
                if p.kind == 0 {
                    let second: Vec<Option<u64>> = b.iter().take(n).map(|t| Some(*t)).collect();
                    check!(order == second, Kind::Layout, "storages of F{} and F{} are not in the same order", p.a, p.b);
                }
            }
            self.st.add("audits of further groups", 1);
        }
        Ok(())
    }
}

/// how far an iterator jumps
fn jump(r: &mut Rng, total: usize) -> usize {
    match r.below(8) {
        0 => total + r.below(70),
        1 => *r.pick(&[usize::MAX, usize::MAX / 2, 1 << 32]),
        2 => r.below(total + 2),
        _ => 1 + r.below(3),
    }
}
pub fn eid(x: usize) -> EntityId {
    EntityId::new(x).expect("nonzero")
}

#[derive(Default)]
pub struct CaseStats {
    pub n: BTreeMap<&'static str, u64>,
    pub hash: u64,
}
impl CaseStats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.n.entry(k).or_default() += n
        }
    }
}

/// What a call did: returned, or panicked with this text.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<monitor::RunAborted>() {
            std::panic::resume_unwind(p);
        }
        monitor::panic_text(&*p)
    })
}
/// A call that must not panic.
pub fn ok<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    call(f).map_err(|e| Fail { kind: Kind::Panic, msg: format!("{what} panicked: {e}") })
}

pub struct Ex<'p> {
    pub w: World,
    pub m: Model,
    pub tok: u64,
    pub cfg: Cfg,
    pub p: &'p Profile,
    pub st: CaseStats,
    pub wide: Wide,
    pub other: Option<Other>,
    /// differential mode: no reference comparison, outcomes are recorded instead
    pub diff: Option<Vec<String>>,
    /// do not make groups (the other half of the differential)
    pub nogroups: bool,
    pub trace: Option<Vec<String>>,
    pub recent: Vec<usize>,
}

impl<'p> Ex<'p> {
    pub fn new(p: &'p Profile, seed: u64) -> Self {
        let (cfg, _) = Cfg::of(seed);
        let mut m = Model::new();
        let mut w = World::new();
        let many_first = seed % 3 != 0;
        let mut wide = Wide::default();
        if cfg.wide && many_first {
            wide.register(&mut w);
        }
        for k in 0..NK {
            if cfg.reg[k] {
                (OPS[k].register)(&mut w);
                m.reg[k] = true;
            }
        }
        if cfg.wide && !many_first {
            wide.register(&mut w);
        }
        Ex {
            wide,
            other: None,
            w,
            m,
            tok: 1,
            cfg,
            p,
            st: CaseStats::default(),
            diff: None,
            nogroups: false,
            trace: None,
            recent: vec![],
        }
    }
    fn t(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(s());
        }
    }
    fn out(&mut self, s: impl FnOnce() -> String) {
        if let Some(d) = &mut self.diff {
            d.push(s());
        }
    }
    fn fresh(&mut self) -> u64 {
        self.tok += 1;
        self.tok
    }
    fn h(&mut self, x: u64) {
        self.st.hash = mix(self.st.hash, x);
    }
    fn live(&self, r: &mut Rng) -> Option<usize> {
        if self.m.live.is_empty() {
            return None;
        }
        // recently touched entities are picked more often
        if r.chance(1, 3) && !self.recent.is_empty() {
            let x = *r.pick(&self.recent);
            if self.m.alive(x) {
                return Some(x);
            }
        }
        Some(*r.pick(&self.m.live))
    }
    fn touch(&mut self, id: usize) {
        if self.recent.len() >= 4 {
            self.recent.remove(0);
        }
        self.recent.push(id);
    }
    /// an id that does not exist: freed, never allocated, or far away
    fn dead(&self, r: &mut Rng) -> usize {
        match r.below(8) {
            0..=3 if !self.m.freed.is_empty() => {
                let v: Vec<_> = self.m.freed.iter().copied().collect();
                *r.pick(&v)
            }
            4 => usize::MAX - r.below(2),
            5 => self.m.next_id() + r.below(1 << 20),
            _ => self.m.next_id() + r.below(4),
        }
    }
    fn anyid(&self, r: &mut Rng) -> usize {
        if r.chance(1, 3) {
            self.dead(r)
        } else {
            self.live(r).unwrap_or(1)
        }
    }
    /// a registered component, those used by groups more often
    fn comp(&self, r: &mut Rng) -> Option<usize> {
        if self.diff.is_none() && !self.m.groups.is_empty() && r.chance(1, 2) {
            let g = r.pick(&self.m.groups);
            return Some(if r.chance(1, 2) { g.a } else { g.b });
        }
        let c: Vec<usize> = (0..NK).filter(|k| self.m.reg[*k]).collect();
        (!c.is_empty()).then(|| *r.pick(&c))
    }
    fn unreg(&self, r: &mut Rng) -> Option<usize> {
        let c: Vec<usize> = (0..NK).filter(|k| !self.m.reg[*k]).collect();
        (!c.is_empty()).then(|| *r.pick(&c))
    }
    fn strict(&self) -> bool {
        self.diff.is_none()
    }

    // ------------------------------------------------------------ reference updates
    fn created(&mut self, id: usize) -> R {
        if self.strict() {
            check!(id > 0 && !self.m.alive(id), Kind::Ids, "creation returned id {id}, which is alive");
            if self.m.freed.is_empty() {
                check!(
                    id == self.m.next_id(),
                    Kind::Ids,
                    "creation returned id {id}, expected the next never-used id {}",
                    self.m.next_id()
                );
            } else {
                check!(
                    self.m.freed.contains(&id),
                    Kind::Ids,
                    "creation returned id {id} although ids {:?} are free for reuse",
                    self.m.freed.iter().take(5).collect::<Vec<_>>()
                );
                self.st.add("id recycled", 1);
            }
        } else {
            check!(id > 0 && id < 1 << 24 && !self.m.alive(id), Kind::Ids, "creation returned id {id}");
            // keep the reference usable whatever was returned
            while self.m.next_id() < id {
                let n = self.m.next_id();
                self.m.ents.push(None);
                self.m.freed.insert(n);
            }
        }
        self.m.create(id);
        self.touch(id);
        Ok(())
    }
    fn put(&mut self, id: usize, k: usize, v: Val) {
        if self.m.put(id, k, v).is_some() {
            self.st.add("overwrite", 1);
        } else {
            self.st.add("attach", 1);
            if self.m.groups.iter().any(|g| (g.a == k || g.b == k) && self.both(id, *g)) {
                self.st.add("group join", 1);
            }
        }
        self.touch(id);
    }
    fn both(&self, id: usize, g: Grp) -> bool {
        self.m.get(id, g.a).is_some() && self.m.get(id, g.b).is_some()
    }
    fn leaves_groups(&mut self, id: usize, k: Option<usize>) {
        let n = self
            .m
            .groups
            .iter()
            .filter(|g| k.map_or(true, |k| g.a == k || g.b == k) && self.both(id, **g))
            .count() as u64;
        self.st.add("group leave", n);
        self.st.add("leave of overlapping groups", (n > 1) as u64);
    }
    fn removed(&mut self, id: usize) {
        self.leaves_groups(id, None);
        for v in &mut self.wide.vals {
            v.remove(&id);
        }
        let e = self.m.remove(id);
        self.st.add("remove", 1);
        self.st.add("remove with components", e.iter().any(|v| v.is_some()) as u64);
    }

    // ------------------------------------------------------------ operations
    pub fn step(&mut self, op: (u8, u64)) -> R {
        let mut r = Rng::new(op.1);
        let code = op.0 as usize % NOPS;
        self.h(code as u64);
        let before = monitor::held();
        if self.cfg.wide {
            let mut r = Rng::new(mix(op.1, 0x71DE));
            for _ in 0..r.below(3) {
                self.op_wide(&mut r)?;
            }
        }
        if self.cfg.two && self.diff.is_none() {
            let mut r = Rng::new(mix(op.1, 0x0723));
            if self.other.is_none() || r.chance(1, 25) {
                self.t(|| "a new second world".into());
                self.other = Some(Other::new(&mut r));
            }
            let other = self.other.as_mut().unwrap();
            for _ in 0..r.below(3) {
                self.st.add("steps of a second world", 1);
                other.step(&mut r, 1 + self.tok)?;
            }
        }
        let mutated = match code {
            0 => self.op_create(&mut r, 0),
            1 => {
                let n = 1 + r.below(4);
                self.op_create(&mut r, n)
            }
            2 => self.op_batch(&mut r),
            3 => self.op_attach(&mut r, false),
            4 => self.op_attach(&mut r, true),
            5 => self.op_detach(&mut r, false),
            6 => self.op_detach(&mut r, true),
            7 => self.op_remove(&mut r, false),
            8 => self.op_remove(&mut r, true),
            9 => self.op_read(&mut r),
            10 => self.op_storage_read(&mut r),
            11 => self.op_write(&mut r),
            12 => self.op_storage_write(&mut r),
            13 => self.op_query(&mut r),
            14 => self.op_group_query(&mut r),
            15 => self.op_make_group(&mut r),
            16 => self.op_misuse(&mut r),
            17 => self.op_resource(&mut r),
            18 => self.op_register(&mut r),
            19 => self.op_probe(&mut r),
            20 => self.audit(self.p.audits),
            21 => self.op_guards(&mut r),
            22 => {
                let n = 1 + r.below(1 + self.m.live.len().min(60));
                for _ in 0..n {
                    self.op_remove(&mut r, n % 2 == 0)?;
                }
                Ok(())
            }
            23 => {
                for _ in 0..2 + r.below(6) {
                    let h = r.chance(1, 2);
                    if r.chance(1, 2) {
                        self.op_attach(&mut r, h)?
                    } else {
                        self.op_detach(&mut r, h)?
                    }
                }
                Ok(())
            }
            24 => {
                for _ in 0..1 + r.below(4) {
                    self.op_remove(&mut r, false)?;
                }
                for _ in 0..1 + r.below(4) {
                    let n = r.below(3);
                    self.op_create(&mut r, n)?;
                }
                Ok(())
            }
            25 => self.op_group_churn(&mut r),
            _ => self.op_hammer(&mut r),
        };
        mutated?;
        let held = monitor::held();
        check!(held == before, Kind::Held, "{} left {} lock(s) held", OPNAMES[code], held - before);
        if self.p.audits.drops {
            self.audit_drops(false)?;
        }
        Ok(())
    }
    fn room(&self, n: usize) -> bool {
        self.m.live.len() + n <= self.cfg.max_live && self.tok < self.cfg.max_tok
    }
    fn op_create(&mut self, r: &mut Rng, n: usize) -> R {
        if !self.room(1) {
            return Ok(());
        }
        let ks: Vec<(usize, u64)> = (0..n).filter_map(|_| self.comp(r)).map(|k| (k, 0)).collect();
        let ks: Vec<(usize, u64)> = ks.into_iter().map(|(k, _)| (k, self.fresh())).collect();
        self.t(|| format!("create_entity attaching {:?}", names(&ks)));
        let (id, vals) = ok("create_entity/attach", || {
            let mut e = self.w.create_entity();
            let mut vals = vec![];
            for (k, tok) in &ks {
                let (x, v) = (OPS[*k].attach)(e, *tok);
                vals.push(v);
                e = x;
            }
            (e.into_id().get(), vals)
        })?;
        self.created(id)?;
        self.out(|| format!("created {id}"));
        for ((k, _), v) in ks.iter().zip(vals) {
            self.put(id, *k, v);
        }
        self.st.add("create", 1);
        Ok(())
    }
    fn op_batch(&mut self, r: &mut Rng) -> R {
        self.op_batch_of(r, None)
    }
    fn op_batch_of(&mut self, r: &mut Rng, all: Option<usize>) -> R {
        let avail = self.cfg.max_live.saturating_sub(self.m.live.len());
        let mut n = match r.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => r.below(8),
            _ => r.below(1 + avail),
        };
        n = all.unwrap_or(n).min(avail);
        let mut ks: Vec<usize> = (0..r.below(4)).filter_map(|_| self.comp(r)).collect();
        if !ks.is_empty() && r.chance(1, 4) {
            let k = *r.pick(&ks);
            ks.push(k);
        }
        if all.is_none() && !self.room(n * (1 + ks.len())) || self.tok + (n * ks.len()) as u64 > self.cfg.max_tok {
            return Ok(());
        }
        let toks: Vec<Vec<u64>> = ks.iter().map(|_| (0..n).map(|_| self.fresh()).collect()).collect();
        self.t(|| format!("create_entities({n}) attaching arrays of {:?}", ks.iter().map(|k| NAMES[*k]).collect::<Vec<_>>()));
        let vec_or_slice = r.chance(1, 2);
        // entities of the batch get and lose components on their own too while it is built
        let own: Vec<(usize, usize, usize, Option<u64>)> = if self.strict() && n > 0 && r.chance(1, 3) {
            let first = self.m.next_id();
            (0..1 + r.below(3))
                .filter_map(|_| {
                    let k = self.comp(r)?;
                    let tok = if r.chance(3, 4) { Some(self.fresh()) } else { None };
                    Some((r.below(1 + ks.len()), first + if r.chance(1, 4) { 0 } else { r.below(n) }, k, tok))
                })
                .collect()
        } else {
            vec![]
        };
        for (at, id, k, tok) in &own {
            self.t(|| format!("  before array {at}: {} {} {id}", if tok.is_some() { "attach to entity" } else { "detach from entity" }, NAMES[*k]));
        }
        let (range, vals, owns) = ok("create_entities/attach", || {
            let mut e = self.w.create_entities(n);
            let mut vals: Vec<Vec<Val>> = vec![];
            let mut owns: Vec<Vec<(usize, usize, Option<Val>, bool)>> = vec![];
            for at in 0..=ks.len() {
                owns.push(vec![]);
                for (_, id, k, tok) in own.iter().filter(|o| o.0 == at && self.w.exist(eid(o.1))) {
                    owns[at].push(match tok {
                        Some(tok) => (*id, *k, Some((OPS[*k].attach_world)(&self.w, eid(*id), *tok)), true),
                        None => (*id, *k, (OPS[*k].detach_world)(&self.w, eid(*id)), false),
                    });
                }
                if at < ks.len() {
                    let (x, v) = (OPS[ks[at]].batch)(e, &toks[at], vec_or_slice);
                    e = x;
                    vals.push(v);
                }
            }
            (e.into_ids(), vals, owns)
        })?;
        let (s, e) = (range.start.get(), range.end.get());
        self.out(|| format!("batch {s}..{e}"));
        if self.strict() {
            check!(
                s == self.m.next_id() && e == s + n,
                Kind::Ids,
                "create_entities({n}) returned {s}..{e}, expected {}..{}",
                self.m.next_id(),
                self.m.next_id() + n
            );
        } else {
            check!(s > 0 && e == s + n && (s..e).all(|i| !self.m.alive(i)) && e < 1 << 24, Kind::Ids, "batch {s}..{e}");
            while self.m.next_id() < s {
                let n = self.m.next_id();
                self.m.ents.push(None);
                self.m.freed.insert(n);
            }
        }
        for id in s..e {
            self.m.create(id);
        }
        let mut vals = vals.into_iter();
        for (at, own) in owns.into_iter().enumerate() {
            for (id, k, v, attached) in own {
                if attached {
                    self.put(id, k, v.expect("attached"));
                } else {
                    let want = self.m.get(id, k);
                    check!(v == want, Kind::Read, "detach of {} from {id} while its batch is built returned {v:?}, stored was {want:?}", NAMES[k]);
                    if v.is_some() {
                        self.leaves_groups(id, Some(k));
                        self.m.take(id, k);
                    }
                    self.touch(id);
                }
                self.st.add("batch entity changed on its own", 1);
            }
            if let (Some(k), Some(vs)) = (ks.get(at), vals.next()) {
                for (i, v) in vs.into_iter().enumerate() {
                    self.put(s + i, *k, v);
                }
            }
        }
        self.st.add("batch", 1);
        self.st.add("batch entities", n as u64);
        if n > 0 && self.m.groups.iter().any(|g| ks.contains(&g.a) || ks.contains(&g.b)) {
            self.st.add("batch into group components", 1);
        }
        Ok(())
    }
    fn op_attach(&mut self, r: &mut Rng, handle: bool) -> R {
        let (Some(id), true) = (self.live(r), self.tok < self.cfg.max_tok) else { return Ok(()) };
        let n = if handle { 1 + r.below(3) } else { 1 };
        let ks: Vec<usize> = (0..n).filter_map(|_| self.comp(r)).collect();
        let ks: Vec<(usize, u64)> = ks.into_iter().map(|k| (k, self.fresh())).collect();
        self.attach_to(id, &ks, handle)
    }
    fn attach_to(&mut self, id: usize, ks: &[(usize, u64)], handle: bool) -> R {
        self.t(|| format!("attach {:?} to {id}{}", names(ks), if handle { " through a handle" } else { "" }));
        let mut vals = vec![];
        ok(&format!("attaching {:?} to live entity {id}", names(ks)), || {
            if handle {
                let mut e = self.w.entity(eid(id)).expect("no handle for a live entity");
                for (i, (k, tok)) in ks.iter().enumerate() {
                    if i > 0 && tok % 4 == 0 {
                        // on the side, while the handle lives
                        vals.push((OPS[*k].attach_world)(&self.w, eid(id), *tok));
                        continue;
                    }
                    let (x, v) = (OPS[*k].attach)(e, *tok);
                    vals.push(v);
                    e = x;
                }
                assert_eq!(e.into_id().get(), id, "handle answers with another id");
            } else {
                for (k, tok) in ks {
                    vals.push((OPS[*k].attach_world)(&self.w, eid(id), *tok));
                }
            }
        })?;
        for ((k, _), v) in ks.iter().zip(vals) {
            self.put(id, *k, v);
        }
        Ok(())
    }
    fn op_detach(&mut self, r: &mut Rng, handle: bool) -> R {
        let (Some(id), Some(k)) = (self.live(r), self.comp(r)) else { return Ok(()) };
        // mostly something it has
        let has: Vec<usize> = (0..NK).filter(|k| self.m.get(id, *k).is_some()).collect();
        let k = if !has.is_empty() && r.chance(2, 3) { *r.pick(&has) } else { k };
        self.detach_from(id, k, handle)
    }
    fn detach_from(&mut self, id: usize, k: usize, handle: bool) -> R {
        self.t(|| format!("detach {} from {id}", NAMES[k]));
        let got = ok(&format!("detaching {} from live entity {id}", NAMES[k]), || {
            if handle {
                let e = self.w.entity(eid(id)).expect("no handle for a live entity");
                (OPS[k].detach)(&e)
            } else {
                (OPS[k].detach_world)(&self.w, eid(id))
            }
        })?;
        self.out(|| format!("detach {k} from {id}: {:?}", got.map(|v| v.tok)));
        if self.strict() {
            let want = self.m.get(id, k);
            check!(got == want, Kind::Read, "detach of {} from {id} returned {got:?}, stored was {want:?}", NAMES[k]);
        }
        self.st.add(if got.is_some() { "detach" } else { "detach of nothing" }, 1);
        if got.is_some() {
            self.leaves_groups(id, Some(k));
            self.m.take(id, k);
        }
        self.touch(id);
        Ok(())
    }
    fn op_remove(&mut self, r: &mut Rng, handle: bool) -> R {
        let Some(id) = self.live(r) else { return Ok(()) };
        self.remove_id(id, handle)
    }
    fn remove_id(&mut self, id: usize, handle: bool) -> R {
        self.t(|| format!("remove {id}{}", if handle { " through its handle" } else { "" }));
        ok(&format!("removing live entity {id}"), || {
            if handle {
                self.w.entity(eid(id)).expect("no handle for a live entity").manaully_drop()
            } else {
                self.w.remove_entity(eid(id))
            }
        })?;
        self.removed(id);
        if self.strict() && (self.p.id == "C03" || self.cfg.size == 0) && (!cfg!(miri) || id % 8 == 0) {
            self.gone(id)?;
        }
        Ok(())
    }
    /// nothing anywhere for this id
    fn gone(&mut self, id: usize) -> R {
        check!(!self.w.exist(eid(id)), Kind::Ids, "removed entity {id} is still reported as existing");
        check!(self.w.entity(eid(id)).is_none(), Kind::Ids, "a handle for removed entity {id} can still be obtained");
        for k in (0..NK).filter(|k| self.m.reg[*k]) {
            let (a, b) = ok("reading a removed entity", || {
                let s = (OPS[k].storage_read)(&self.w).expect("registered");
                let b = s.get(eid(id));
                (s.exist(eid(id)), b)
            })?;
            check!(!a && b.is_none(), Kind::Read, "removed entity {id} still has {} in its storage: {b:?}", NAMES[k]);
            let r = ok("looking a removed entity up", || {
                let mut q = (shape(single_shape(k, false)).open)(&self.w);
                q.from_id(eid(id), &mut |_, _| None).is_some()
            })?;
            check!(!r, Kind::Query, "query &{} finds removed entity {id}", NAMES[k]);
        }
        for g in self.m.groups.clone() {
            let Some(s) = group_shape(g, false, false) else { continue };
            let r = ok("looking a removed entity up in a group", || {
                let mut q = (shape(s).open)(&self.w);
                q.from_id(eid(id), &mut |_, _| None).is_some()
            })?;
            check!(!r, Kind::GroupQ, "group {} finds removed entity {id}", g.name());
        }
        self.st.add("absence checked after removal", 1);
        Ok(())
    }
    fn op_read(&mut self, r: &mut Rng) -> R {
        let Some(k) = self.comp(r) else { return Ok(()) };
        let id = self.anyid(r);
        let handle = self.m.alive(id) && r.chance(1, 2);
        self.t(|| format!("read {} of {id}", NAMES[k]));
        let got = ok("reading a component", || {
            if handle {
                let e = self.w.entity(eid(id)).expect("no handle for a live entity");
                let x = if id % 3 == 0 { (OPS[k].hwrite)(&e) } else { (OPS[k].hread)(&e) };
                x.map(|g| g.val())
            } else if id % 3 == 0 {
                (OPS[k].write)(&self.w, eid(id)).map(|g| g.val())
            } else {
                (OPS[k].read)(&self.w, eid(id)).map(|g| g.val())
            }
        })?;
        self.st.add("read", 1);
        self.out(|| format!("read {k} of {id}: {:?}", got.map(|v| v.tok)));
        if self.strict() {
            let want = self.m.get(id, k);
            check!(got == want, Kind::Read, "reading {} of {id} gave {got:?}, stored was {want:?}", NAMES[k]);
        }
        Ok(())
    }
    fn op_storage_read(&mut self, r: &mut Rng) -> R {
        let Some(k) = self.comp(r) else { return Ok(()) };
        let ids: Vec<usize> = (0..4).map(|_| self.anyid(r)).collect();
        let wr = r.chance(1, 2);
        self.t(|| format!("storage of {} read at {ids:?}", NAMES[k]));
        let (per, count, empty, data) = ok("reading a storage", || {
            let s = if wr { (OPS[k].storage_write)(&self.w) } else { (OPS[k].storage_read)(&self.w) };
            let s = s.expect("registered");
            let per: Vec<_> = ids
                .iter()
                .map(|id| {
                    let g = s.get(eid(*id));
                    let e = s.exist(eid(*id));
                    let u = if self.m.get(*id, k).is_some() && e { Some(s.get_unchecked(eid(*id))) } else { g };
                    (e, g, u)
                })
                .collect();
            let mut data: Vec<(u64, u64)> = s.data().iter().map(|v| (v.tok, v.serial)).collect();
            data.sort();
            (per, s.count(), s.is_empty(), data)
        })?;
        self.st.add("storage read", 1);
        self.out(|| {
            let d: Vec<u64> = data.iter().map(|x| x.0).collect();
            let p: Vec<_> = per.iter().map(|(e, g, _)| (*e, g.map(|v| v.tok))).collect();
            format!("storage {k}: {p:?} {count} {empty} {d:?}")
        });
        if self.strict() {
            for (id, (e, g, u)) in ids.iter().zip(&per) {
                let want = self.m.get(*id, k);
                check!(
                    *e == want.is_some() && *g == want && *u == want,
                    Kind::Read,
                    "storage of {} at {id}: exist={e} get={g:?} get_unchecked={u:?}, stored was {want:?}",
                    NAMES[k]
                );
            }
            self.cmp_storage(k, count, empty, data)?;
        }
        Ok(())
    }
    fn cmp_storage(&self, k: usize, count: usize, empty: bool, data: Vec<(u64, u64)>) -> R {
        let mut want: Vec<(u64, u64)> = self.m.with_comp(k).map(|(_, v)| (v.tok, v.serial)).collect();
        want.sort();
        check!(
            count == want.len() && empty == want.is_empty(),
            Kind::Read,
            "storage of {} reports count {count}, empty {empty}; {} are stored",
            NAMES[k],
            want.len()
        );
        if data != want {
            let a = data.iter().find(|x| want.binary_search(x).is_err());
            let b = want.iter().find(|x| data.binary_search(x).is_err());
            return fail(
                Kind::Read,
                format!(
                    "data slice of {} has {} values, {} are stored; (token, serial) unexpected {a:?}, missing {b:?}",
                    NAMES[k],
                    data.len(),
                    want.len()
                ),
            );
        }
        Ok(())
    }
    fn op_write(&mut self, r: &mut Rng) -> R {
        let (Some(k), true) = (self.comp(r), self.tok < self.cfg.max_tok) else { return Ok(()) };
        let id = self.anyid(r);
        let handle = self.m.alive(id) && r.chance(1, 2);
        let tok = self.fresh();
        let replace = r.chance(1, 2);
        self.t(|| format!("write {} of {id} to {tok} (replace {replace})", NAMES[k]));
        let got = ok("writing a component", || {
            let mut done = |mut g: Box<dyn ops::Guard + '_>| {
                let old = g.val();
                (old, g.put(tok, replace))
            };
            if handle {
                let e = self.w.entity(eid(id)).expect("no handle for a live entity");
                let x = (OPS[k].hwrite)(&e).map(&mut done);
                x
            } else {
                (OPS[k].write)(&self.w, eid(id)).map(&mut done)
            }
        })?;
        self.out(|| format!("write {k} of {id}: {:?}", got.map(|g| (g.0.tok, g.1.tok))));
        let want = self.m.get(id, k);
        if self.strict() {
            check!(
                got.map(|g| g.0) == want,
                Kind::Read,
                "write access to {} of {id} found {:?}, stored was {want:?}",
                NAMES[k],
                got.map(|g| g.0)
            );
        }
        if let (Some((_, now)), true) = (got, want.is_some()) {
            let v = Val { tok: mask(k, tok), serial: now.serial };
            if self.strict() {
                check!(now == v, Kind::Read, "write guard shows {now:?} after {v:?} was written");
            }
            self.m.put(id, k, v);
            self.st.add("write", 1);
        }
        Ok(())
    }
    fn op_storage_write(&mut self, r: &mut Rng) -> R {
        let (Some(k), true) = (self.comp(r), self.tok < 50_000) else { return Ok(()) };
        let style = r.below(3);
        if style == 2 {
            // through the data slice
            if k == 6 && !self.strict() {
                return Ok(());
            }
            let all = r.chance(1, 3) || !self.strict();
            let seed = r.next();
            let strict = self.strict();
            let mut next = self.tok;
            let wrote = ok("writing the data slice", || {
                let mut s = (OPS[k].storage_write)(&self.w).expect("registered");
                let n = s.count();
                let mut done = 0;
                s.data_mut(&mut |i, old| {
                    if !(all || (seed as usize % n.max(1)) == i) || (strict && done >= 300) {
                        return None;
                    }
                    done += 1;
                    next += 1;
                    let tok = if strict { next } else { mask(k, mix(old.tok, seed)) };
                    Some((tok, seed & 1 == 0))
                })
            })?;
            self.tok = next;
            self.t(|| format!("data_mut of {}: {wrote:?}", NAMES[k]));
            self.st.add("slice write", wrote.len() as u64);
            let mut by: HashMap<(u64, u64), Vec<usize>> = HashMap::new();
            for (id, v) in self.m.with_comp(k) {
                by.entry((v.tok, v.serial)).or_default().push(id);
            }
            for (old, v) in wrote {
                match by.get_mut(&(old.tok, old.serial)).and_then(|b| b.pop()) {
                    Some(id) => {
                        self.m.put(id, k, v);
                    }
                    None if strict => {
                        return fail(Kind::Read, format!("data slice of {} holds {old:?}, which is not stored", NAMES[k]))
                    }
                    None => {}
                }
            }
            return Ok(());
        }
        let id = if style == 0 {
            self.anyid(r)
        } else {
            match self.live(r) {
                Some(i) => i,
                None => return Ok(()),
            }
        };
        let tok = self.fresh();
        let replace = r.chance(1, 2);
        let have = self.m.get(id, k).is_some();
        self.t(|| format!("storage write {} of {id} to {tok}", NAMES[k]));
        let got = ok("writing through a storage", || {
            let mut s = (OPS[k].storage_write)(&self.w).expect("registered");
            let have = have && s.exist(eid(id));
            s.get_mut(eid(id), style == 1 && have, &mut |_, _| Some((tok, replace)))
        })?;
        let want = self.m.get(id, k);
        self.out(|| format!("storage write {k} of {id}: {:?}", got.map(|g| g.0.tok)));
        if self.strict() {
            check!(
                got.map(|g| g.0) == want,
                Kind::Read,
                "storage write access to {} of {id} found {:?}, stored was {want:?}",
                NAMES[k],
                got.map(|g| g.0)
            );
        }
        if let (Some((_, Some(now))), true) = (got, want.is_some()) {
            let v = Val { tok: mask(k, tok), serial: now.serial };
            if self.strict() {
                check!(now == v, Kind::Read, "storage shows {now:?} after {v:?} was written");
            }
            self.m.put(id, k, v);
            self.st.add("storage write", 1);
        }
        Ok(())
    }

    // ------------------------------------------------------------ queries
    fn op_query(&mut self, r: &mut Rng) -> R {
        for _ in 0..20 {
            let i = if r.chance(1, 4) {
                r.below(NSINGLE)
            } else if self.p.id == "C05" || (self.p.id == "C20" && r.chance(1, 3)) {
                NQUERY + r.below(NSHAPES - NQUERY)
            } else {
                NGROUP + r.below(NQUERY - NGROUP)
            };
            if openable(&self.m, i) {
                return self.query(i, r);
            }
        }
        Ok(())
    }
    fn op_group_query(&mut self, r: &mut Rng) -> R {
        if self.m.groups.is_empty() || !self.strict() {
            return Ok(());
        }
        let g = *r.pick(&self.m.groups);
        let i = if r.chance(1, 6) {
            // nested in a larger query
            let c: Vec<usize> = (NQUERY..NSHAPES).filter(|i| openable(&self.m, *i)).collect();
            if c.is_empty() { None } else { Some(*r.pick(&c)) }
        } else {
            group_shape(g, r.chance(1, 2), r.chance(1, 2)).or(group_shape(g, false, false))
        };
        match i {
            Some(i) => self.query(i, r),
            None => Ok(()),
        }
    }
    pub fn query(&mut self, i: usize, r: &mut Rng) -> R {
        let sh = shape(i);
        let x = &meta(i).expr;
        let mut leaves = vec![];
        x.leaves(&mut leaves);
        let mut gs = vec![];
        x.groups(&mut gs);
        let kind = if gs.is_empty() { Kind::Query } else { Kind::GroupQ };
        let want: Vec<usize> = self.m.matching(&x).map(|(id, _)| id).collect();
        let anymut = leaves.iter().any(|l| l.1);
        let writing = anymut && r.chance(1, 2) && self.tok + 5_000 < self.cfg.max_tok;
        let mode = if self.strict() { r.below(8) } else { r.below(2) };
        self.st.add(if gs.is_empty() { "query" } else { "group query" }, 1);
        self.st.add(if gs.is_empty() { "query rows" } else { "group rows" }, want.len() as u64);
        self.h(i as u64);
        self.t(|| format!("query {} mode {mode} writing {writing}, {} match", sh.name, want.len()));
        let name = sh.name.replace("&'a ", "&");
        let total = want.len();
        let cap = total + 3;
        let diff = self.diff.is_some();

        // writer: fresh tokens, or a function of the old one when the order must not matter
        let last_tok = self.cfg.max_tok + 4_000;
        let wr = std::cell::RefCell::new((self.tok, r.next()));
        let salt = r.next();
        let mut writer = |k: usize, old: u64| -> Option<(u64, bool)> {
            let mut s = wr.borrow_mut();
            if diff {
                return (k != 6).then(|| (mask(k, mix(old, salt)), mix(old, salt) >> 63 == 1));
            }
            if s.0 > last_tok {
                return None;
            }
            s.0 += 1;
            s.1 = mix(s.1, 3);
            (s.1 % 4 != 0).then(|| (s.0, s.1 & 16 == 0))
        };
        let mut no = |_: usize, _: u64| None;

        let mut q = Some(ok(&format!("query {name}"), || (sh.open)(&self.w))?);
        let mut rows: Vec<Row> = vec![]; // everything yielded, in order
        let mut lookups: Vec<(usize, Option<Row>, usize)> = vec![]; // id, result, rows before
        let mut complete = true;
        let res = ok(&format!("iterating query {name}"), || -> R {
            let hint_ok = |h: (usize, Option<usize>), seen: usize| -> R {
                let rem = total.saturating_sub(seen);
                check!(
                    h.0 <= rem && h.1.map_or(true, |u| u >= rem),
                    Kind::Proto,
                    "query {name}: size hint {h:?} with {rem} of {total} items to come"
                );
                check!(
                    !x.exact() || (h.0 == rem && h.1 == Some(rem)),
                    Kind::Proto,
                    "query {name}: size hint {h:?} is not exact, {rem} of {total} items to come"
                );
                Ok(())
            };
            macro_rules! w {
                () => {
                    if writing { &mut writer as Writer } else { &mut no as Writer }
                };
            }
            match mode {
                0 | 1 | 6 => {
                    let it = q.as_mut().unwrap();
                    let limit = if mode == 6 { r.below(total + 2) } else { cap };
                    complete = mode != 6;
                    while rows.len() < limit {
                        hint_ok(it.hint(), rows.len())?;
                        let x = if mode == 1 { it.next_id(w!()) } else { it.next(w!()) };
                        match x {
                            Some(x) => rows.push(x),
                            None => {
                                complete = true;
                                break;
                            }
                        }
                    }
                    if complete && rows.len() < cap {
                        hint_ok(it.hint(), rows.len())?;
                        for _ in 0..2 {
                            check!(
                                it.next(&mut no).is_none() && it.next_id(&mut no).is_none(),
                                Kind::Proto,
                                "query {name}: exhausted iterator yields again"
                            );
                        }
                        hint_ok(it.hint(), rows.len())?;
                    }
                }
                2 => {
                    let mut it = q.take().unwrap().via_with_id();
                    match r.below(6) {
                        0 => {
                            rows = it.collect_all(cap, w!());
                        }
                        2 => {
                            rows = it.fold_all(cap, w!());
                        }
                        3 => {
                            let l = it.last();
                            check!(l.is_some() == (total > 0), kind, "query {name}: with_id().last() is {l:?}, {total} entities match");
                            rows.extend(l);
                            complete = false;
                        }
                        1 => {
                            let n = it.count();
                            check!(n == total, kind, "query {name}: with_id().count() is {n}, {total} entities match");
                            complete = false;
                        }
                        _ => {
                            // jumps too, every other time
                            let jumping = r.chance(1, 2);
                            let mut used = 0;
                            while rows.len() < cap {
                                hint_ok(it.hint(), used)?;
                                let n = if jumping && r.chance(1, 3) { jump(r, total) } else { 0 };
                                let x = if n > 0 || r.chance(1, 4) { it.nth(n, w!()) } else { it.next(w!()) };
                                check!(
                                    x.is_some() == (n < total.saturating_sub(used)),
                                    Kind::Proto,
                                    "query {name}: nth({n}) with ids after {used} items is_some={}, {total} entities match",
                                    x.is_some()
                                );
                                complete &= n == 0 || used == total;
                                match x {
                                    Some(x) => rows.push(x),
                                    None => break,
                                }
                                used += n + 1;
                            }
                            for _ in 0..2 {
                                hint_ok(it.hint(), total)?;
                                check!(it.next(&mut no).is_none(), Kind::Proto, "query {name}: exhausted iterator with ids yields again");
                            }
                        }
                    }
                }
                3 | 7 => {
                    let it = q.as_mut().unwrap();
                    let early = r.chance(1, 6);
                    let jumping = r.chance(1, 3);
                    let (mut steps, mut used, mut skipped, mut out) = (0, 0, false, false);
                    while rows.len() < cap {
                        steps += 1;
                        if early && steps > 1 + total / 2 {
                            break;
                        }
                        match r.below(6) {
                            0 | 1 => {
                                let id = self.anyid(r);
                                let x = it.from_id(eid(id), w!());
                                lookups.push((id, x, rows.len()));
                            }
                            2 => hint_ok(it.hint(), used)?,
                            x => {
                                let n = if jumping && r.chance(1, 3) { jump(r, total) } else { 0 };
                                let left = total.saturating_sub(used);
                                let x = match x {
                                    _ if n > 0 => it.nth(n, w!()),
                                    3 | 4 => it.next_id(w!()),
                                    _ => it.next(w!()),
                                };
                                check!(
                                    n == 0 || x.is_some() == (n < left),
                                    Kind::Proto,
                                    "query {name}: nth({n}) after {used} items is_some={}, {total} entities match",
                                    x.is_some()
                                );
                                skipped |= n > 0 && left > 0;
                                match x {
                                    Some(x) => rows.push(x),
                                    None => {
                                        out = true;
                                        break;
                                    }
                                }
                                used += n + 1;
                            }
                        }
                    }
                    for _ in 0..3 {
                        let id = self.anyid(r);
                        let x = it.from_id(eid(id), w!());
                        lookups.push((id, x, rows.len()));
                    }
                    if out {
                        check!(
                            it.next(&mut no).is_none() && it.next_id(&mut no).is_none() && it.nth(0, &mut no).is_none(),
                            Kind::Proto,
                            "query {name}: exhausted iterator yields again"
                        );
                        used = total;
                    }
                    hint_ok(it.hint(), used)?;
                    complete = out && !skipped;
                }
                4 => {
                    complete = false;
                    match r.below(4) {
                        0 => {
                            let n = q.take().unwrap().count();
                            check!(n == total, kind, "query {name}: count() is {n}, {total} entities match");
                        }
                        1 => {
                            let l = q.take().unwrap().last();
                            check!(l.is_some() == (total > 0), kind, "query {name}: last() is {l:?}, {total} match");
                            rows.extend(l);
                        }
                        2 => {
                            rows = q.take().unwrap().fold_all(cap);
                            complete = true;
                        }
                        _ => {
                            // nth, then the rest
                            let it = q.as_mut().unwrap();
                            let n = r.below(total + 2);
                            let x = it.nth(n, w!());
                            check!(
                                x.is_some() == (n < total),
                                Kind::Proto,
                                "query {name}: nth({n}) is_some={}, {total} entities match",
                                x.is_some()
                            );
                            let mut c = 0;
                            if let Some(x) = x {
                                rows.push(x);
                                hint_ok(it.hint(), n + 1)?;
                                while let Some(x) = it.next(w!()) {
                                    rows.push(x);
                                    c += 1;
                                    if c > cap {
                                        break;
                                    }
                                }
                                check!(
                                    n + rows.len() == total,
                                    Kind::Proto,
                                    "query {name}: nth({n}) and the rest make {} items, {total} match",
                                    n + rows.len()
                                );
                            }
                        }
                    }
                }
                _ => {
                    rows = q.take().unwrap().collect_all(cap, w!());
                }
            }
            Ok(())
        })?;
        drop(q);
        let tok = wr.borrow().0;
        self.tok = tok;
        res?;

        if diff {
            let mut v: Vec<String> = rows
                .iter()
                .map(|r| format!("{:?}{:?}", r.id, r.obs.iter().map(|o| o.tok).collect::<Vec<_>>()))
                .collect();
            v.sort();
            self.out(|| format!("query {name}: {v:?}"));
            // keep the reference's tokens in step where that is possible
            for row in &rows {
                if let Some(id) = row.id {
                    for (_, k, tok, serial) in &row.wrote {
                        if self.m.get(id, *k).is_some() {
                            self.m.put(id, *k, Val { tok: *tok, serial: *serial });
                        }
                    }
                }
            }
            return Ok(());
        }
        // identify rows without id by their tokens
        let key = |m: &Model, id: usize| -> Vec<u64> {
            leaves.iter().map(|l| m.get(id, l.0).map_or(u64::MAX, |v| v.tok)).collect()
        };
        let mut by: HashMap<Vec<u64>, Vec<usize>> = HashMap::new();
        if rows.iter().any(|r| r.id.is_none()) {
            for id in &want {
                by.entry(key(&self.m, *id)).or_default().push(*id);
            }
        }
        let wantset: BTreeSet<usize> = want.iter().copied().collect();
        // rows without id must not be taken for those that come with theirs
        let claimed: BTreeSet<usize> = rows.iter().filter_map(|r| r.id).collect();
        let mut seen = BTreeSet::new();
        let mut li = 0;
        for (n, row) in rows.iter().enumerate() {
            while li < lookups.len() && lookups[li].2 <= n {
                let (id, x, _) = lookups[li].clone();
                self.lookup_row(&name, &wantset, id, x.as_ref(), kind)?;
                if x.map_or(false, |x| !x.wrote.is_empty()) && wantset.contains(&id) && !seen.contains(&id) {
                    by.entry(key(&self.m, id)).or_default().push(id);
                }
                li += 1;
            }
            let toks: Vec<u64> = row.obs.iter().map(|o| o.tok).collect();
            let id = match row.id {
                Some(id) => {
                    check!(
                        wantset.contains(&id),
                        kind,
                        "query {name} yields entity {id} ({toks:?}), which does not match; its components: {:?}",
                        self.m.ents.get(id).and_then(|e| e.as_ref()).map(|e| present(e))
                    );
                    check!(!seen.contains(&id), kind, "query {name} yields entity {id} twice");
                    id
                }
                None => {
                    // any not yet seen entity with these values
                    let c = by.get_mut(&toks);
                    let id = c.and_then(|c| loop {
                        let i = c.pop()?;
                        if !seen.contains(&i) && !claimed.contains(&i) {
                            break Some(i);
                        }
                    });
                    match id {
                        Some(id) => id,
                        None => {
                            return fail(
                                kind,
                                format!("query {name} yields {toks:?}, which no (further) matching entity has"),
                            )
                        }
                    }
                }
            };
            seen.insert(id);
            self.cmp_row(&name, id, row, kind)?;
        }
        for (id, x, _) in &lookups[li..] {
            self.lookup_row(&name, &wantset, *id, x.as_ref(), kind)?;
        }
        self.st.add("lookups by id", lookups.len() as u64);
        if complete {
            check!(
                seen.len() == total,
                kind,
                "query {name} yields {} entities, {total} match; missing {:?}",
                seen.len(),
                want.iter().filter(|i| !seen.contains(i)).take(5).collect::<Vec<_>>()
            );
        }
        Ok(())
    }
    fn lookup_row(&mut self, name: &str, want: &BTreeSet<usize>, id: usize, x: Option<&Row>, kind: Kind) -> R {
        check!(
            x.is_some() == want.contains(&id),
            Kind::Proto,
            "query {name}: lookup of id {id} found={}, entity matches={}",
            x.is_some(),
            want.contains(&id)
        );
        if let Some(x) = x {
            self.cmp_row(name, id, x, kind)?;
        }
        Ok(())
    }
    fn cmp_row(&mut self, name: &str, id: usize, row: &Row, kind: Kind) -> R {
        for o in &row.obs {
            let v = self.m.get(id, o.k);
            check!(
                v == Some(Val { tok: o.tok, serial: o.serial }),
                kind,
                "query {name} pairs entity {id} with {} = (token {}, serial {}), it has {v:?}",
                NAMES[o.k],
                o.tok,
                o.serial
            );
        }
        for (_, k, tok, serial) in &row.wrote {
            self.m.put(id, *k, Val { tok: *tok, serial: *serial });
            self.st.add("query write", 1);
        }
        Ok(())
    }

    // ------------------------------------------------------------ groups
    fn op_make_group(&mut self, r: &mut Rng) -> R {
        let kind = *r.pick(&[GKind::Full, GKind::Partial, GKind::Non, GKind::Partial, GKind::Non]);
        let mut a = r.below(NG);
        let mut b = r.below(NG);
        if a == b && !r.chance(1, 4) {
            b = (a + 1 + r.below(NG - 1)) % NG;
        }
        if r.chance(3, 4) {
            // prefer what can succeed
            for _ in 0..6 {
                if self.m.accepts(Grp { kind, a, b }) {
                    break;
                }
                a = r.below(NG);
                b = (a + 1 + r.below(NG - 1)) % NG;
            }
        }
        self.make_group(Grp { kind, a, b })
    }
    pub fn make_group(&mut self, g: Grp) -> R {
        if self.m.groups.len() >= 14 {
            return Ok(());
        }
        let accept = self.m.accepts(g);
        if self.nogroups {
            return Ok(());
        }
        if !self.strict() && !accept {
            return Ok(());
        }
        self.t(|| format!("make_group {} (acceptable: {accept})", g.name()));
        let w = &mut self.w;
        let got = call(|| ops::make_group(w, g));
        match (accept, got) {
            (true, Ok(())) => {
                let pop = self.m.ents.iter().flatten().filter(|e| e[g.a].is_some() && e[g.b].is_some()).count();
                self.st.add("group made", 1);
                self.st.add("group made over members", (pop > 0) as u64);
                self.m.groups.push(g);
            }
            (false, Err(e)) => {
                check!(!e.starts_with("self-deadlock"), Kind::MakeGroup, "make_group {} hangs: {e}", g.name());
                self.st.add("group refused", 1);
                if self.p.id == "C08" {
                    monitor_held(Kind::Held)?;
                    self.audit(self.p.audits)?;
                    // no trace: querying the refused group is refused as well, unless an identical one exists
                    if !self.m.groups.contains(&g) && self.m.reg[g.a] && self.m.reg[g.b] {
                        if let Some(s) = group_shape(g, false, false) {
                            let r = call(|| drop((shape(s).open)(&self.w)));
                            check!(r.is_err(), Kind::MakeGroup, "refused group {} can be queried", g.name());
                        }
                    }
                }
            }
            (true, Err(e)) => {
                return fail(Kind::MakeGroup, format!("make_group {} was refused although acceptable: {e}", g.name()))
            }
            (false, Ok(())) => {
                return fail(
                    Kind::MakeGroup,
                    format!(
                        "make_group {} succeeded; registered: {}/{}, existing groups: {:?}",
                        g.name(),
                        self.m.reg[g.a],
                        self.m.reg[g.b],
                        self.m.groups.iter().map(|g| g.name()).collect::<Vec<_>>()
                    ),
                )
            }
        }
        Ok(())
    }
    /// pushes entities in and out of a group, at its ends in particular
    /// the same change over and over: whatever counts changes comes round
    fn op_hammer(&mut self, r: &mut Rng) -> R {
        let n = match self.cfg.size {
            _ if cfg!(miri) => 1 + r.below(3),
            4 if self.diff.is_none() && r.chance(1, 4) => 66_000 + r.below(1000),
            3 if self.diff.is_none() && r.chance(1, 60) => 66_000 + r.below(1000),
            s if s > 0 && r.chance(1, 12) => 257 + r.below(20),
            0 if r.chance(1, 60) => 257 + r.below(20),
            _ => 1 + r.below(8),
        };
        let what = r.below(4);
        let Some(k) = self.comp(r) else { return Ok(()) };
        if self.tok + 2 > self.cfg.max_tok || !self.room(1) {
            return Ok(());
        }
        let toks = [self.fresh(), self.fresh()];
        let handle = r.chance(1, 2);
        let Some(id) = (if what < 2 { Some(0) } else { self.live(r) }) else { return Ok(()) };
        self.t(|| format!("{n} times: {} {}", ["create, attach and remove", "create and remove", "attach and detach", "overwrite"][what], NAMES[k]));
        for i in 0..n {
            let tok = toks[i % 2];
            match what {
                0 | 1 => {
                    let (id, v) = ok("create_entity/attach", || {
                        let e = self.w.create_entity();
                        if what == 0 {
                            let (e, v) = (OPS[k].attach)(e, tok);
                            (e.into_id().get(), Some(v))
                        } else {
                            (e.into_id().get(), None)
                        }
                    })?;
                    self.created(id)?;
                    if let Some(v) = v {
                        self.put(id, k, v);
                    }
                    ok("removing a live entity", || {
                        if handle {
                            self.w.entity(eid(id)).expect("no handle for a live entity").manaully_drop()
                        } else {
                            self.w.remove_entity(eid(id))
                        }
                    })?;
                    self.removed(id);
                    if self.strict() && i % 64 == 0 {
                        self.gone(id)?;
                    }
                }
                _ => {
                    let v = ok("attaching to a live entity", || (OPS[k].attach_world)(&self.w, eid(id), tok))?;
                    self.put(id, k, v);
                    if what == 2 {
                        let got = ok("detaching from a live entity", || (OPS[k].detach_world)(&self.w, eid(id)))?;
                        if self.strict() {
                            check!(got == Some(v), Kind::Read, "detach of {} from {id} returned {got:?}, stored was {v:?}", NAMES[k]);
                        }
                        if got.is_some() {
                            self.leaves_groups(id, Some(k));
                            self.m.take(id, k);
                        }
                        self.touch(id);
                    }
                }
            }
        }
        self.st.add("changes repeated", n as u64);
        Ok(())
    }
    fn op_group_churn(&mut self, r: &mut Rng) -> R {
        if self.m.groups.is_empty() || self.diff.is_some() {
            return Ok(());
        }
        let g = *r.pick(&self.m.groups);
        let members: Vec<usize> = self.m.live.iter().copied().filter(|i| self.both(*i, g)).collect();
        for _ in 0..1 + r.below(4) {
            if self.tok > self.cfg.max_tok {
                return Ok(());
            }
            match r.below(4) {
                0 => {
                    if !members.is_empty() {
                        let id = if r.chance(1, 2) { *members.last().unwrap() } else { *r.pick(&members) };
                        if self.m.alive(id) {
                            let k = if r.chance(1, 2) { g.a } else { g.b };
                            self.detach_from(id, k, r.chance(1, 2))?;
                        }
                    }
                }
                1 => {
                    if !members.is_empty() {
                        let id = *r.pick(&members);
                        if self.m.alive(id) {
                            self.remove_id(id, r.chance(1, 2))?;
                        }
                    }
                }
                _ => {
                    if let Some(id) = self.live(r) {
                        let (t1, t2) = (self.fresh(), self.fresh());
                        let mut ks = vec![(g.a, t1), (g.b, t2)];
                        if r.chance(1, 2) {
                            ks.swap(0, 1);
                        }
                        if r.chance(1, 2) {
                            ks.pop();
                        }
                        self.attach_to(id, &ks, r.chance(1, 2))?;
                    }
                }
            }
        }
        if self.strict() && self.p.audits.groupq {
            self.audit_groupq(Some(g))?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ misuse
    fn expect_panic(&mut self, what: &str, f: impl FnOnce(&mut World)) -> R {
        self.t(|| format!("misuse: {what}"));
        let w = &mut self.w;
        match call(|| f(w)) {
            Ok(()) => fail(Kind::Refusal, format!("{what} was not refused")),
            Err(e) if e.starts_with("self-deadlock") => fail(Kind::Refusal, format!("{what} hangs: {e}")),
            Err(_) => {
                self.st.add("refused call", 1);
                monitor_held(Kind::Refusal).map_err(|f| Fail { msg: format!("{what}: {}", f.msg), ..f })
            }
        }
    }
    fn op_misuse(&mut self, r: &mut Rng) -> R {
        if !self.strict() {
            return Ok(());
        }
        let dead = self.dead(r);
        let tok = self.tok;
        let which = r.below(14);
        match which {
            0 => {
                let Some(k) = self.comp(r) else { return Ok(()) };
                self.expect_panic("registering a type twice", |w| (OPS[k].register)(w))?;
            }
            1 | 2 => {
                let (Some(k), Some(id)) = (self.unreg(r), self.live(r)) else { return Ok(()) };
                self.expect_panic("attaching an unregistered component", |w| {
                    if which == 1 {
                        (OPS[k].attach_world)(w, eid(id), tok);
                    } else {
                        (OPS[k].attach)(w.entity(eid(id)).unwrap(), tok);
                    }
                })?;
            }
            3 => {
                let (Some(k), Some(id)) = (self.unreg(r), self.live(r)) else { return Ok(()) };
                let h = r.chance(1, 2);
                self.expect_panic("detaching an unregistered component", |w| {
                    if h {
                        (OPS[k].detach_world)(w, eid(id));
                    } else {
                        let e = w.entity(eid(id)).unwrap();
                        (OPS[k].detach)(&e);
                    }
                })?;
            }
            4 => {
                let k = r.below(NK);
                self.expect_panic(&format!("attaching to nonexistent entity {dead}"), |w| {
                    (OPS[k].attach_world)(w, eid(dead), tok);
                })?;
            }
            5 => {
                let k = r.below(NK);
                self.expect_panic(&format!("detaching from nonexistent entity {dead}"), |w| {
                    (OPS[k].detach_world)(w, eid(dead));
                })?;
            }
            6 | 7 => {
                self.expect_panic(&format!("removing nonexistent entity {dead}"), |w| w.remove_entity(eid(dead)))?;
            }
            8 | 9 => {
                // wrong length; the batch itself stays, and so does what was attached before
                let n = r.below(4).min(self.cfg.max_live.saturating_sub(self.m.live.len()));
                if n == 0 || !self.room(n) {
                    return Ok(());
                }
                let (Some(k), Some(k2)) = (self.comp(r), self.comp(r)) else { return Ok(()) };
                let len = *r.pick(&[0, n - 1, n + 1, n + 2, 2 * n]);
                if len == n {
                    return Ok(());
                }
                let first = r.chance(1, 2);
                let boxed = r.chance(1, 2);
                let toks: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
                let start = self.m.next_id();
                let mut vals = vec![];
                self.expect_panic(&format!("attaching {len} values to a batch of {n}"), |w| {
                    let mut e = w.create_entities(n);
                    if first {
                        let (x, v) = (OPS[k2].batch)(e, &toks, boxed);
                        vals = v;
                        e = x;
                    }
                    (OPS[k].batch)(e, &vec![7; len], boxed);
                })?;
                for id in start..start + n {
                    self.m.create(id);
                }
                for (i, v) in vals.into_iter().enumerate() {
                    self.put(start + i, k2, v);
                }
            }
            10 => {
                let n = r.below(3).min(self.cfg.max_live.saturating_sub(self.m.live.len()));
                let Some(k) = self.unreg(r) else { return Ok(()) };
                if !self.room(n) {
                    return Ok(());
                }
                let start = self.m.next_id();
                self.expect_panic("batch-attaching an unregistered component", |w| {
                    (OPS[k].batch)(w.create_entities(n), &vec![7; n], true);
                })?;
                for id in start..start + n {
                    self.m.create(id);
                }
            }
            11 | 12 => {
                // a query that cannot be answered
                for _ in 0..12 {
                    let i = r.below(NSHAPES);
                    if !openable(&self.m, i) {
                        let name = shape(i).name.replace("&'a ", "&");
                        self.expect_panic(&format!("query {name} (component or group missing)"), |w| {
                            drop((shape(i).open)(w))
                        })?;
                        break;
                    }
                }
            }
            _ => {
                // reads of absent things answer nothing
                let un = self.unreg(r);
                let id = self.anyid(r);
                let m = &self.m;
                let w = &self.w;
                ok("reading absent things", || -> R {
                    if let Some(k) = un {
                        let o = &OPS[k];
                        check!(!(o.registered)(w), Kind::Refusal, "unregistered {} reported as registered", NAMES[k]);
                        check!(
                            (o.storage_read)(w).is_none()
                                && (o.storage_write)(w).is_none()
                                && (o.read)(w, eid(id)).is_none()
                                && (o.write)(w, eid(id)).is_none(),
                            Kind::Refusal,
                            "reading unregistered {} gives something",
                            NAMES[k]
                        );
                        if m.alive(id) {
                            let e = w.entity(eid(id)).expect("live");
                            check!(
                                (o.hread)(&e).is_none() && (o.hwrite)(&e).is_none(),
                                Kind::Refusal,
                                "reading unregistered {} gives something",
                                NAMES[k]
                            );
                        }
                    }
                    check!(w.entity(eid(dead)).is_none() && !w.exist(eid(dead)), Kind::Refusal, "handle for nonexistent entity {dead}");
                    for k in (0..NK).filter(|k| m.reg[*k]) {
                        let o = &OPS[k];
                        check!((o.registered)(w), Kind::Refusal, "registered {} reported as unregistered", NAMES[k]);
                        check!(
                            (o.read)(w, eid(dead)).is_none() && (o.write)(w, eid(dead)).is_none(),
                            Kind::Refusal,
                            "nonexistent entity {dead} has a {}",
                            NAMES[k]
                        );
                        if m.get(id, k).is_none() {
                            check!(
                                (o.read)(w, eid(id)).is_none() && (o.write)(w, eid(id)).is_none(),
                                Kind::Refusal,
                                "entity {id} has a {} it should not have",
                                NAMES[k]
                            );
                        }
                    }
                    for rs in 0..NR {
                        if m.res[rs].is_none() {
                            check!(
                                (RES[rs].read)(w).is_none() && (RES[rs].write)(w).is_none(),
                                Kind::Refusal,
                                "unregistered resource {rs} reads as something"
                            );
                        }
                    }
                    Ok(())
                })??;
                self.st.add("absent read", 1);
            }
        }
        if self.p.id == "C09" {
            self.audit(self.p.audits)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ resources and others
    fn op_resource(&mut self, r: &mut Rng) -> R {
        let i = r.below(NR);
        let which = r.below(6);
        let tok = if which <= 2 { self.fresh() } else { 0 };
        let replace = r.chance(1, 2);
        self.t(|| format!("resource {i}: {}", ["register", "write", "write", "read", "format", "two guards"][which]));
        match which {
            0 => {
                let w = &mut self.w;
                let v = ok("registering a resource", || (RES[i].register)(w, tok))?;
                check!(v.tok == rmask(i, tok), Kind::Res, "harness: resource value");
                self.res_put(i, v);
                self.st.add("resource stored", 1);
            }
            1 | 2 => {
                let got = ok("writing a resource", || {
                    (RES[i].write)(&self.w).map(|mut g| {
                        let old = g.val();
                        (old, g.put(tok, replace))
                    })
                })?;
                let want = self.m.res[i];
                if self.strict() {
                    check!(got.map(|g| g.0) == want, Kind::Res, "resource {i} write found {got:?}, stored was {want:?}");
                }
                if let Some((_, v)) = got {
                    check!(v.tok == rmask(i, tok), Kind::Res, "resource {i} shows {v:?} after writing {tok}");
                    self.m.res[i] = Some(v);
                    self.st.add("resource written", 1);
                }
            }
            3 => self.audit_res(Some(i))?,
            4 => {
                let want = self.m.res[i];
                let got = ok("formatting a resource", || {
                    let all = |g: Box<dyn ops::RGuard + '_>| {
                        let p = g.plain();
                        (format!("{g}"), format!("{g:?}"), p.1, p.0)
                    };
                    let a = (RES[i].read)(&self.w).map(all);
                    let b = (RES[i].write)(&self.w).map(all);
                    let c = (RES[i].read)(&self.w).map(|g| (format!("{g:>9}"), g.plain().2));
                    (a, b, c)
                })?;
                check!(
                    got.0.is_some() == want.is_some() && got.1.is_some() == want.is_some(),
                    Kind::Res,
                    "resource {i} present={}, expected {}",
                    got.0.is_some(),
                    want.is_some()
                );
                for x in [&got.0, &got.1].into_iter().flatten() {
                    check!(x.0 == x.3, Kind::Res, "resource {i} displays as {:?}, its value as {:?}", x.0, x.3);
                    check!(x.1.contains(&x.2), Kind::Res, "resource {i} debug text {:?} lacks its value {:?}", x.1, x.2);
                    self.st.add("resource formatted", 1);
                }
                if let Some((a, b)) = got.2 {
                    check!(a == b, Kind::Res, "resource {i} displays as {a:?} where its value displays as {b:?}");
                }
            }
            _ => {
                let j = (i + 1 + r.below(NR - 1)) % NR;
                let tok = self.fresh();
                let (want_i, want_j) = (self.m.res[i], self.m.res[j]);
                let new = ok("holding two resources", || -> R<Option<Val>> {
                    let a = (RES[i].write)(&self.w);
                    let b = (RES[j].read)(&self.w);
                    let b2 = (RES[j].read)(&self.w);
                    let vb = b.as_ref().map(|g| g.val());
                    let vb2 = b2.as_ref().map(|g| g.val());
                    check!(vb == want_j && vb2 == want_j, Kind::Res, "resource {j} reads {vb:?}, stored was {want_j:?}");
                    match a {
                        Some(mut a) => {
                            let va = Some(a.val());
                            check!(want_i == va, Kind::Res, "resource {i} reads {va:?}, stored was {want_i:?}");
                            let now = a.put(tok, false);
                            let vb = b.as_ref().map(|g| g.val());
                            check!(vb == want_j, Kind::Res, "writing resource {i} changed resource {j}");
                            Ok(Some(now))
                        }
                        None => {
                            check!(want_i.is_none(), Kind::Res, "resource {i} is missing");
                            Ok(None)
                        }
                    }
                })??;
                if new.is_some() {
                    self.m.res[i] = new;
                    self.st.add("resource written", 1);
                }
            }
        }
        Ok(())
    }
    fn res_put(&mut self, i: usize, v: Val) {
        if v.serial != 0 && self.m.res[i].is_none() {
            self.m.tracked += 1;
        }
        if self.m.res[i].is_some() {
            self.st.add("resource replaced", 1);
        }
        self.m.res[i] = Some(v);
    }
    fn op_register(&mut self, r: &mut Rng) -> R {
        let Some(k) = self.unreg(r) else { return Ok(()) };
        self.t(|| format!("register {}", NAMES[k]));
        let w = &mut self.w;
        ok("registering a new component", || (OPS[k].register)(w))?;
        self.m.reg[k] = true;
        Ok(())
    }
    fn op_probe(&mut self, r: &mut Rng) -> R {
        for _ in 0..6 {
            let id = self.anyid(r);
            self.probe(id)?;
        }
        let _ = ok("Debug of the world", || format!("{:?}", self.w).len())?;
        Ok(())
    }
    fn probe(&mut self, id: usize) -> R {
        let (a, b) = ok(&format!("asking whether entity {id} exists"), || {
            (self.w.exist(eid(id)), self.w.entity(eid(id)).map(|e| e.into_id().get()))
        })?;
        self.st.add("existence probe", 1);
        if self.diff.is_some() {
            self.out(|| format!("exist {id}: {a} {b:?}"));
            return Ok(());
        }
        let want = self.m.alive(id);
        check!(
            a == want && b == want.then_some(id),
            Kind::Ids,
            "entity {id}: exist={a}, handle={b:?}; allocated and not removed: {want}"
        );
        Ok(())
    }
    /// several guards alive at once, none of which may be in another's way
    fn op_guards(&mut self, r: &mut Rng) -> R {
        if !self.strict() || self.tok > self.cfg.max_tok {
            return Ok(());
        }
        let regs: Vec<usize> = (0..NK).filter(|k| self.m.reg[*k]).collect();
        if regs.len() < 3 {
            return Ok(());
        }
        let (Some(i), Some(j)) = (self.live(r), self.live(r)) else { return Ok(()) };
        let mut ks = regs.clone();
        for n in (1..ks.len()).rev() {
            let m = r.below(n + 1);
            ks.swap(n, m);
        }
        let (a, b, c) = (ks[0], ks[1], ks[2]);
        let tok = self.fresh();
        let (wa, wb, wc) = (self.m.get(i, a), self.m.get(j, b), self.m.get(i, c));
        let wr = self.m.res[0].map(|v| v.tok);
        self.t(|| format!("guards: write {} of {i}, read {} of {j} and {} of {i}", NAMES[a], NAMES[b], NAMES[c]));
        let new = ok("holding guards of different components", || -> R<Option<Val>> {
            let e = self.w.entity(eid(i)).expect("live");
            let ga = (OPS[a].hwrite)(&e);
            let gb = (OPS[b].read)(&self.w, eid(j));
            let gb2 = (OPS[b].storage_read)(&self.w);
            let gc = (OPS[c].write)(&self.w, eid(i));
            let res = (RES[0].read)(&self.w);
            let vb = gb.as_ref().map(|g| g.val());
            check!(vb == wb, Kind::Read, "{} of {j} reads {vb:?}, stored was {wb:?}", NAMES[b]);
            let vb = gb2.as_ref().and_then(|g| g.get(eid(j)));
            check!(vb == wb, Kind::Read, "{} of {j} reads {vb:?}, stored was {wb:?}", NAMES[b]);
            let vc = gc.as_ref().map(|g| g.val());
            check!(vc == wc, Kind::Read, "{} of {i} reads {vc:?}, stored was {wc:?}", NAMES[c]);
            check!(res.as_ref().map(|g| g.val().tok) == wr, Kind::Res, "resource 0 changed");
            let x = ga.map(|mut g| {
                let old = g.val();
                (old, g.put(tok, true))
            });
            check!(x.map(|x| x.0) == wa, Kind::Read, "{} of {i} reads {:?}, stored was {wa:?}", NAMES[a], x.map(|x| x.0));
            let vb = gb.as_ref().map(|g| g.val());
            let vc = gc.as_ref().map(|g| g.val());
            check!(vb == wb && vc == wc, Kind::Read, "writing {} of {i} changed another component", NAMES[a]);
            Ok(x.map(|x| x.1))
        })??;
        if let Some(v) = new {
            self.m.put(i, a, v);
            self.st.add("write", 1);
        }
        self.st.add("several guards", 1);
        Ok(())
    }

    // ------------------------------------------------------------ audits
    pub fn audit(&mut self, a: Audits) -> R {
        self.audit_wide()?;
        if self.diff.is_some() {
            return self.dump();
        }
        self.st.add("audit", 1);
        if a.ids {
            self.audit_ids()?;
        }
        for k in (0..NK).filter(|k| self.m.reg[*k]).collect::<Vec<_>>() {
            if a.read {
                self.audit_read(k)?;
            }
            if a.query {
                self.audit_query(k)?;
            }
        }
        if a.groupq {
            self.audit_groupq(None)?;
        }
        if a.layout {
            self.audit_layout()?;
        }
        if a.res {
            self.audit_res(None)?;
        }
        if a.drops {
            self.audit_drops(true)?;
        }
        monitor_held(Kind::Held)
    }
    fn audit_ids(&mut self) -> R {
        let n = self.m.next_id();
        let ids: Vec<usize> = if n < 300 {
            (1..n + 3).chain([n + 1000, usize::MAX]).collect()
        } else {
            let mut r = Rng::new(self.tok);
            (0..200).map(|_| 1 + r.below(n + 3)).chain([n, n + 1, usize::MAX]).collect()
        };
        for id in ids {
            self.probe(id)?;
        }
        Ok(())
    }
    fn audit_read(&mut self, k: usize) -> R {
        let n = self.m.next_id();
        let m = &self.m;
        let w = &self.w;
        let (count, empty, data) = ok("reading a storage", || -> R<_> {
            let s = (OPS[k].storage_read)(w).expect("registered component has no storage");
            for id in (1..n + 2).chain([n + 700, usize::MAX]) {
                let want = m.get(id, k);
                let e = s.exist(eid(id));
                let g = s.get(eid(id));
                check!(
                    e == want.is_some() && g == want,
                    Kind::Read,
                    "storage of {} at {id}: exist={e} get={g:?}, stored was {want:?}",
                    NAMES[k]
                );
            }
            let mut d: Vec<(u64, u64)> = s.data().iter().map(|v| (v.tok, v.serial)).collect();
            d.sort();
            Ok((s.count(), s.is_empty(), d))
        })??;
        self.cmp_storage(k, count, empty, data)?;
        // per-entity path on a sample
        let mut r = Rng::new(self.tok ^ 77);
        for _ in 0..self.m.live.len().min(8) {
            let id = *r.pick(&self.m.live);
            let want = self.m.get(id, k);
            let got = ok("reading a component", || {
                (OPS[k].read)(&self.w, eid(id)).map(|g| g.val())
            })?;
            check!(got == want, Kind::Read, "reading {} of {id} gave {got:?}, stored was {want:?}", NAMES[k]);
        }
        Ok(())
    }
    fn audit_query(&mut self, k: usize) -> R {
        self.plain_audit(single_shape(k, false), Kind::Query)
    }
    fn plain_audit(&mut self, i: usize, kind: Kind) -> R {
        let sh = shape(i);
        let x = &meta(i).expr;
        let name = sh.name.replace("&'a ", "&");
        let total = self.m.matching(&x).count();
        let n = self.m.next_id();
        let (rows, looks) = ok(&format!("query {name}"), || {
            let mut q = (sh.open)(&self.w);
            let mut rows = vec![];
            while let Some(r) = q.next_id(&mut |_, _| None) {
                rows.push(r);
                if rows.len() > total + 3 {
                    break;
                }
            }
            let looks: Vec<(usize, bool)> = if n < 400 {
                (1..n + 2).chain([usize::MAX]).map(|id| (id, q.from_id(eid(id), &mut |_, _| None).is_some())).collect()
            } else {
                vec![]
            };
            (rows, looks)
        })?;
        let mut seen = BTreeSet::new();
        for row in &rows {
            let id = row.id.unwrap();
            let ok = self.m.ents.get(id).and_then(|e| e.as_ref()).map_or(false, |e| x.matches(e));
            check!(ok, kind, "query {name} yields entity {id}, which does not match");
            check!(seen.insert(id), kind, "query {name} yields entity {id} twice");
            self.cmp_row(&name, id, row, kind)?;
        }
        check!(
            rows.len() == total,
            kind,
            "query {name} yields {} entities, {total} match; missing {:?}",
            rows.len(),
            self.m.matching(&x).map(|e| e.0).filter(|i| !seen.contains(i)).take(5).collect::<Vec<_>>()
        );
        for (id, f) in looks {
            let want = self.m.ents.get(id).and_then(|e| e.as_ref()).map_or(false, |e| x.matches(e));
            check!(f == want, Kind::Proto, "query {name}: lookup of id {id} found={f}, entity matches={want}");
        }
        Ok(())
    }
    fn audit_groupq(&mut self, only: Option<Grp>) -> R {
        for g in self.m.groups.clone() {
            if only.map_or(false, |o| o != g) {
                continue;
            }
            if let Some(i) = group_shape(g, false, false) {
                self.st.add("group compared with the intersection", 1);
                self.plain_audit(i, Kind::GroupQ)?;
            }
        }
        Ok(())
    }
    fn audit_layout(&mut self) -> R {
        let groups: Vec<Grp> = self.m.groups.iter().copied().filter(|g| g.kind != GKind::Non).collect();
        for g in groups {
            let order = |k: usize| -> R<Vec<u64>> {
                ok("reading a storage", || {
                    (OPS[k].storage_read)(&self.w).expect("registered").data().iter().map(|v| v.tok).collect()
                })
            };
            let members: Vec<usize> =
                self.m.ents.iter().enumerate().filter(|(_, e)| e.as_ref().map_or(false, |e| e[g.a].is_some() && e[g.b].is_some())).map(|x| x.0).collect();
            let n = members.len();
            let mut fronts = vec![];
            for k in g.owned() {
                if is_zst(k) {
                    continue; // values cannot be told apart
                }
                let by: HashMap<u64, usize> = members.iter().map(|id| (self.m.get(*id, k).unwrap().tok, *id)).collect();
                let o = order(k)?;
                check!(o.len() >= n, Kind::Layout, "storage of {} has {} values, group {} has {n} members", NAMES[k], o.len(), g.name());
                let mut front = vec![];
                for (p, tok) in o[..n].iter().enumerate() {
                    match by.get(tok) {
                        Some(id) => front.push(*id),
                        None => {
                            return fail(
                                Kind::Layout,
                                format!("position {p} of {} holds {tok}, not a member's value; group {} has {n} members", NAMES[k], g.name()),
                            )
                        }
                    }
                }
                fronts.push(front);
            }
            if fronts.len() == 2 {
                check!(
                    fronts[0] == fronts[1],
                    Kind::Layout,
                    "group {}: leading values belong to {:?} in one storage and {:?} in the other",
                    g.name(),
                    &fronts[0][..n.min(8)],
                    &fronts[1][..n.min(8)]
                );
            }
            self.st.add("layout compared", 1);
            self.st.add("layout members", n as u64);
        }
        Ok(())
    }
    fn audit_res(&mut self, only: Option<usize>) -> R {
        for i in 0..NR {
            if only.map_or(false, |o| o != i) {
                continue;
            }
            let got = ok("reading a resource", || {
                let a = (RES[i].read)(&self.w).map(|g| g.val());
                let b = (RES[i].write)(&self.w).map(|g| g.val());
                (a, b)
            })?;
            let want = self.m.res[i];
            check!(got == (want, want), Kind::Res, "resource {i} reads as {got:?}, stored was {want:?}");
            self.st.add("resource read", 1);
        }
        Ok(())
    }
    fn audit_drops(&mut self, full: bool) -> R {
        let r = reg();
        if let Some(e) = r.errors.first() {
            return fail(Kind::Drops, e.clone());
        }
        let alive = r.alive.as_ref().map_or(0, |a| a.len());
        check!(
            alive as i64 == self.m.tracked,
            Kind::Drops,
            "{alive} tracked values are alive, {} are stored",
            self.m.tracked
        );
        let g = G_ALIVE.load(std::sync::atomic::Ordering::SeqCst);
        check!(g == self.m.gcount, Kind::Drops, "{g} zero-sized droppable values are alive, {} are stored", self.m.gcount);
        if full {
            let a = r.alive.as_ref();
            for id in &self.m.live {
                for k in 0..NK {
                    if let Some(v) = self.m.get(*id, k) {
                        if v.serial != 0 {
                            check!(
                                a.map_or(false, |a| a.contains_key(&v.serial)),
                                Kind::Drops,
                                "value #{} was dropped while stored as {} of {id}",
                                v.serial,
                                NAMES[k]
                            );
                        }
                    }
                }
            }
            for (i, v) in self.m.res.iter().enumerate() {
                if let Some(v) = v.filter(|v| v.serial != 0) {
                    check!(
                        a.map_or(false, |a| a.contains_key(&v.serial)),
                        Kind::Drops,
                        "resource {i} (value #{}) was dropped while stored",
                        v.serial
                    );
                }
            }
            drop(r);
            self.st.add("drop census", 1);
        }
        Ok(())
    }
    /// everything observable, in an order-independent form (differential mode)
    fn dump(&mut self) -> R {
        let n = self.m.next_id().min(400);
        let mut s = String::new();
        use std::fmt::Write;
        for id in 1..n + 2 {
            let e = ok("exist", || self.w.exist(eid(id)))?;
            let _ = write!(s, "{}", e as u8);
        }
        for k in (0..NK).filter(|k| self.m.reg[*k]) {
            let v = ok("dump", || {
                let st = (OPS[k].storage_read)(&self.w).expect("registered");
                let per: Vec<Option<u64>> = (1..n + 2).map(|id| st.get(eid(id)).map(|v| v.tok)).collect();
                let mut d: Vec<u64> = st.data().iter().map(|v| v.tok).collect();
                d.sort();
                drop(st);
                let mut q = (shape(single_shape(k, false)).open)(&self.w);
                let mut rows = vec![];
                while let Some(r) = q.next_id(&mut |_, _| None) {
                    rows.push((r.id, r.obs[0].tok));
                    if rows.len() > 200_000 {
                        break;
                    }
                }
                rows.sort();
                (per, d, rows)
            })?;
            let _ = write!(s, "|{k}:{v:?}");
        }
        let _ = write!(s, "|res:");
        for i in 0..NR {
            let v = ok("dump", || (RES[i].read)(&self.w).map(|g| g.val().tok))?;
            let _ = write!(s, "{v:?}");
        }
        self.st.add("state compared", 1);
        self.out(|| s);
        Ok(())
    }
    /// resynchronise the reference's values with the world after order-dependent token use (differential mode)
    pub fn finish(mut self) -> R<CaseStats> {
        if self.diff.is_none() {
            self.audit(self.p.audits)?;
        } else {
            self.dump()?;
        }
        let drops = self.p.audits.drops;
        self.other = None;
        let w = std::mem::replace(&mut self.w, World::new());
        ok("dropping the world", || drop(w))?;
        if drops {
            let r = reg();
            if let Some(e) = r.errors.first() {
                return fail(Kind::Drops, e.clone());
            }
            let alive = r.alive.as_ref().map_or(0, |a| a.len());
            let g = G_ALIVE.load(std::sync::atomic::Ordering::SeqCst);
            check!(
                alive == 0 && g == 0,
                Kind::Drops,
                "{alive} tracked and {g} zero-sized values outlive the world"
            );
            self.st.add("world dropped", 1);
        }
        Ok(self.st)
    }
}
fn names(ks: &[(usize, u64)]) -> Vec<String> {
    ks.iter().map(|(k, t)| format!("{}={t}", NAMES[*k])).collect()
}
fn present(e: &Ent) -> Vec<&'static str> {
    (0..NK).filter(|k| e[*k].is_some()).map(|k| NAMES[k]).collect()
}
fn monitor_held(kind: Kind) -> R {
    let h = monitor::held();
    check!(h == 0, kind, "{h} lock(s) are still held");
    Ok(())
}

/// Runs one case; Err carries the index of the failing op.
pub fn run_case(p: &Profile, case: &Case, trace: Option<&mut Vec<String>>) -> Result<CaseStats, (usize, Fail)> {
    monitor::set_solo(true);
    monitor::reset_held();
    reg_reset();
    CORRUPT.store(false, std::sync::atomic::Ordering::Relaxed);
    if p.id == "C06" {
        return run_diff(p, case, trace);
    }
    let tracing = trace.is_some();
    let mut ex = Ex::new(p, case.seed);
    if tracing {
        ex.trace = Some(vec![]);
    }
    let res = run_ops(&mut ex, case);
    if let (Some(t), Some(x)) = (trace, ex.trace.take()) {
        t.extend(x);
    }
    if p.id == "C16" {
        return aftermath(ex, case, res);
    }
    match res {
        Ok(()) => ex.finish().map_err(|f| (case.ops.len(), f)),
        Err(e) => {
            // the world may be corrupt: do not run its destructor
            std::mem::forget(ex);
            Err(e)
        }
    }
}
fn run_ops(ex: &mut Ex, case: &Case) -> Result<(), (usize, Fail)> {
    let mut r = Rng::new(mix(case.seed, 0xEA));
    for _ in 0..ex.cfg.early_groups {
        if ex.p.weights[15] == 0 {
            break;
        }
        ex.op_make_group(&mut r).map_err(|f| (0, f))?;
    }
    if ex.cfg.size == 4 {
        let n = ex.cfg.max_live - 1000;
        // the groups before it may have taken any number of random choices
        ex.op_batch_of(&mut Rng::new(mix(case.seed, 0xB16)), Some(n)).map_err(|f| (0, f))?;
    }
    for (n, op) in case.ops.iter().enumerate() {
        if ex.cfg.hop && op.1 % 3 == 0 && ex.p.id != "C16" {
            // the world and everything about it moves to another thread and back
            let step = std::thread::scope(|s| {
                let ex = &mut *ex;
                s.spawn(move || {
                    monitor::set_solo(true);
                    ex.st.add("steps taken by another thread", 1);
                    ex.step(*op)
                })
                .join()
            });
            match step {
                Ok(x) => x.map_err(|f| (n, f))?,
                Err(p) => std::panic::resume_unwind(p),
            }
        } else {
            ex.step(*op).map_err(|f| (n, f))?;
        }
        let period = ex.cfg.period;
        if n % period == period - 1 {
            ex.audit(ex.p.audits).map_err(|f| (n, f))?;
        }
    }
    Ok(())
}
/// C16 goes on where the reference stops: after a history, or after the first answer which is not the reference's (that is
/// another property's business), operations without a reference, then operations with destructors that panic.
fn aftermath(mut ex: Ex, case: &Case, res: Result<(), (usize, Fail)>) -> Result<CaseStats, (usize, Fail)> {
    let at = res.as_ref().err().map_or(case.ops.len(), |e| e.0);
    let mut r = Rng::new(mix(case.seed, 0xAF7));
    // a call that was given up because it waits for itself leaves a state which no real execution leaves
    let mut real = !matches!(&res, Err((_, f)) if f.msg.contains("self-deadlock"));
    let mut st = std::mem::take(&mut ex.st);
    let (mut bombs, max, tok) = (0, ex.m.next_id(), ex.tok + 1000);
    let groups = ex.m.groups.clone();
    let n = if cfg!(miri) { 3 } else { 12 };
    for phase in 0..2 {
        let mut raw = crate::raw::Raw::new(&mut ex.w, max, tok, &groups);
        if real {
            raw.run(&mut r, n, phase == 1);
        } else {
            raw.look(&mut r, 1);
        }
        let s = raw.st;
        st.add("operations without a reference", s.ops);
        st.add("values read without a reference", s.reads);
        st.add("calls while something was held", s.holds);
        st.add("calls given up", s.waits);
        st.add("destructors that panicked", s.bombs);
        real &= s.waits == 0;
        bombs += s.bombs;
    }
    let early = mem(case, at);
    drop(ex.m);
    drop(ex.other);
    let w = ex.w;
    let dropped = call(|| drop(w));
    early?;
    mem(case, at)?;
    let n = reg().alive.as_ref().map_or(0, |a| a.len());
    let g = G_ALIVE.load(std::sync::atomic::Ordering::SeqCst);
    if bombs == 0 && real && dropped.is_ok() && (n > 0 || g > 0) && !cfg!(miri) {
        return Err((at, Fail { kind: Kind::Mem, msg: format!("{n} tracked and {g} zero-sized values outlive the world") }));
    }
    st.add("world dropped", 1);
    res.map(|_| st)
}
fn mem(_: &Case, at: usize) -> Result<(), (usize, Fail)> {
    if let Some(e) = reg().errors.first() {
        return Err((at, Fail { kind: Kind::Mem, msg: e.clone() }));
    }
    if CORRUPT.load(std::sync::atomic::Ordering::Relaxed) {
        return Err((at, Fail { kind: Kind::Mem, msg: "a value was read whose bytes are not those of a value".into() }));
    }
    Ok(())
}
fn run_diff(p: &Profile, case: &Case, trace: Option<&mut Vec<String>>) -> Result<CaseStats, (usize, Fail)> {
    let mut outs = vec![];
    let mut ends = vec![];
    let mut stats = None;
    let mut tr = vec![];
    for nogroups in [false, true] {
        reg_reset();
        let mut ex = Ex::new(p, case.seed);
        ex.diff = Some(vec![]);
        ex.nogroups = nogroups;
        ex.trace = Some(vec![]).filter(|_| trace.is_some());
        let res = run_ops(&mut ex, case);
        if !nogroups {
            tr = ex.trace.take().unwrap_or_default();
        }
        let res = match res {
            Ok(()) => ex.dump().map_err(|f| (case.ops.len(), f)),
            e => e,
        };
        outs.push(ex.diff.take().unwrap());
        ends.push(res.err());
        if !nogroups {
            stats = Some(std::mem::take(&mut ex.st));
        }
        if ends.last().unwrap().is_some() {
            std::mem::forget(ex);
        } else {
            let _ = call(|| drop(ex));
        }
    }
    if let Some(t) = trace {
        t.extend(tr);
    }
    let d = outs[0].iter().zip(&outs[1]).position(|(a, b)| a != b);
    if let Some(i) = d {
        let cut = |s: &str, o: &str| {
            let p = s.bytes().zip(o.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
            s.chars().skip(p).take(200).collect::<String>()
        };
        return Err((
            0,
            Fail {
                kind: Kind::Diff,
                msg: format!(
                    "with groups: ...{}...; without groups: ...{}...",
                    cut(&outs[0][i], &outs[1][i]),
                    cut(&outs[1][i], &outs[0][i])
                ),
            },
        ));
    }
    match (&ends[0], &ends[1]) {
        (None, None) => {}
        (Some((n, f)), None) => {
            return Err((*n, Fail { kind: Kind::Diff, msg: format!("only with groups: {}", f.msg) }))
        }
        (None, Some((n, f))) => {
            return Err((*n, Fail { kind: Kind::Diff, msg: format!("only without groups: {}", f.msg) }))
        }
        (Some((n, f)), Some(_)) => return Err((*n, f.clone())),
    }
    if outs[0].len() != outs[1].len() {
        return Err((0, Fail { kind: Kind::Diff, msg: "the two runs answered a different number of calls".into() }));
    }
    Ok(stats.unwrap())
}

/// Smallest sub-history that still fails in the same way.
pub fn shrink(p: &Profile, case: &Case, kind: Kind, budget: std::time::Duration) -> Case {
    let start = std::time::Instant::now();
    let fails = |c: &Case| matches!(run_case(p, c, None), Err((_, f)) if f.kind == kind);
    let mut best = case.clone();
    if let Err((n, _)) = run_case(p, &best, None) {
        let mut c = best.clone();
        c.ops.truncate(n + 1);
        if fails(&c) {
            best = c;
        }
    }
    let mut chunk = (best.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut shrunk = false;
        while i < best.ops.len() {
            if start.elapsed() > budget {
                return best;
            }
            let mut c = best.clone();
            let end = (i + chunk).min(c.ops.len());
            c.ops.drain(i..end);
            if fails(&c) {
                best = c;
                shrunk = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !shrunk {
            return best;
        }
        if !shrunk {
            chunk = (chunk / 2).max(1);
        }
    }
}
