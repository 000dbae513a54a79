//! Long concurrent programs in which every thread works on entities of its own, beside the others in the same storages and
//! groups: whatever the others do, what a thread sees of its entities is determined, so nothing has to be searched.
use crate::comps::*;
use crate::conc::*;
use crate::model::*;
use crate::ops::OPS;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU8, Ordering::*};
use std::sync::Mutex;
use xecs::{EntityId, World};

const CLAIMS: usize = 1 << 13;
const NW: usize = 12;

pub struct Own {
    pub prog: Prog,
    pub seed: u64,
    pub nt: usize,
    pub nops: usize,
    /// a thread keeps about this many entities
    keep: usize,
    plain: Vec<usize>,
    grouped: Vec<usize>,
    weights: [u32; NW],
    claims: Vec<AtomicU8>,
    pub stop: AtomicBool,
}
pub struct Mine {
    pub t: usize,
    pub ents: BTreeMap<usize, Ent>,
    n: u64,
    max: usize,
    pub calls: u64,
    pub rows: u64,
    pub log: VecDeque<String>,
}
fn nz(id: usize) -> EntityId {
    EntityId::new(id).unwrap()
}
fn bad<T>(also: &'static str, msg: String) -> Result<T, CFail> {
    Err(CFail { kind: CKind::Lin, also, msg })
}
impl Mine {
    fn tok(&mut self) -> u64 {
        self.n += 1;
        self.n * 4 + self.t as u64
    }
    fn some(&self, r: &mut Rng) -> Option<usize> {
        if self.ents.is_empty() {
            return None;
        }
        self.ents.keys().nth(r.below(self.ents.len())).copied()
    }
}
fn stored(k: usize, tok: u64) -> Option<Val> {
    Some(Val { tok: mask(k, tok), serial: 0 })
}
fn toks(e: &Ent) -> [Option<u64>; NK] {
    std::array::from_fn(|k| e[k].map(|v| v.tok))
}
impl Own {
    pub fn gen(w: &Workload, seed: u64, env: &Env, max_ops: usize) -> Own {
        let prog = Prog::gen(w, mix(seed, 0x0111), env);
        let mut r = Rng::new(mix(seed, 0x0112));
        let (plain, grouped) = usable(&prog.comps, &prog.order, &prog.groups, env, w.multi);
        //                  cr ba at de rd wr rm qu gq ex ha st
        let mut weights = [8, 3, 10, 7, 6, 5, 7, 8, 8, 2, 5, 3];
        for x in weights.iter_mut() {
            match r.below(6) {
                0 => *x *= 5,
                1 => *x = 0,
                _ => {}
            }
        }
        if grouped.is_empty() {
            weights[8] = 0
        }
        weights[0] = weights[0].max(1);
        let nt = 2 + r.below(3);
        let nops = 5 + r.below(max_ops);
        let keep = [1, 3, 8, 20][r.below(4)];
        Own {
            prog,
            seed,
            nt,
            nops,
            keep,
            plain,
            grouped,
            weights,
            claims: (0..CLAIMS).map(|_| AtomicU8::new(0)).collect(),
            stop: AtomicBool::new(false),
        }
    }
    pub fn describe(&self, env: &Env) -> Vec<String> {
        let mut p = self.prog.clone();
        p.threads.clear();
        let mut v = p.describe(env);
        v.push(format!("{} threads, {} calls each about entities of their own, of which each keeps about {}", self.nt, self.nops, self.keep));
        v
    }
    /// what each thread owns at the beginning
    pub fn start(&self) -> Vec<Mutex<Mine>> {
        for c in &self.claims {
            c.store(0, Relaxed)
        }
        self.stop.store(false, Relaxed);
        let mut v: Vec<Mine> = (0..self.nt)
            .map(|t| Mine { t, ents: BTreeMap::new(), n: 4000, max: self.prog.setup.len(), calls: 0, rows: 0, log: VecDeque::new() })
            .collect();
        for (i, (c, removed)) in self.prog.setup.iter().enumerate() {
            if !removed {
                let mut e: Ent = [None; NK];
                for (k, t) in c {
                    e[*k] = stored(*k, *t);
                }
                v[i % self.nt].ents.insert(i + 1, e);
                self.claims[i + 1].store(1, Relaxed);
            }
        }
        v.into_iter().map(Mutex::new).collect()
    }
    fn claim(&self, m: &mut Mine, id: usize) -> Result<(), CFail> {
        m.max = m.max.max(id);
        if id < CLAIMS && self.claims[id].swap(m.t as u8 + 1, Relaxed) != 0 {
            return bad("C02", format!("create gave thread {} the id {id}, which an entity has that nobody removed", m.t));
        }
        m.ents.insert(id, [None; NK]);
        Ok(())
    }
    /// before the call which removes it
    fn release(&self, m: &mut Mine, id: usize) {
        m.ents.remove(&id);
        if id < CLAIMS {
            self.claims[id].store(0, Relaxed);
        }
    }
    fn bare(&self, e: &xecs::Entity, m: &Mine) -> Result<(), CFail> {
        for k in &self.prog.comps {
            if let Some(g) = (OPS[*k].hread)(e) {
                return bad("C03", format!("an entity just created by thread {} has {}={}", m.t, NAMES[*k], g.val().tok));
            }
        }
        Ok(())
    }
    fn step(&self, r: &mut Rng, m: &mut Mine, w: &World, env: &Env, exprs: &[Expr], what: &dyn Fn(&mut Mine, String)) -> Result<(), CFail> {
        let y = env.yield_point;
        let total: u32 = self.weights.iter().sum();
        let mut x = r.below(total as usize) as u32;
        let mut c = 0;
        while x >= self.weights[c] {
            x -= self.weights[c];
            c += 1;
        }
        let k = *r.pick(&self.prog.comps);
        let id = m.some(r);
        if m.ents.len() > self.keep && c < 2 {
            c = 6
        }
        let id = match (c, id) {
            (2..=6 | 9 | 10, None) => {
                c = 0;
                0
            }
            (_, id) => id.unwrap_or(0),
        };
        m.calls += 1;
        match c {
            0 => {
                let ks: Vec<usize> = self.prog.comps.iter().copied().filter(|_| r.chance(1, 2)).collect();
                let look = r.chance(1, 4);
                what(m, format!("create_entity, attach {:?}", ks.iter().map(|k| NAMES[*k]).collect::<Vec<_>>()));
                let mut e = w.create_entity();
                if look {
                    self.bare(&e, m)?;
                }
                let mut ent: Ent = [None; NK];
                for k in ks {
                    let t = m.tok();
                    y();
                    e = (OPS[k].attach)(e, t).0;
                    ent[k] = stored(k, t);
                }
                let id = e.into_id().get();
                self.claim(m, id)?;
                m.log.back_mut().map(|l| *l += &format!(" -> {id}"));
                m.ents.insert(id, ent);
            }
            1 => {
                let n = r.below(4);
                let ks: Vec<usize> = self.prog.comps.iter().copied().filter(|_| r.chance(1, 3)).collect();
                what(m, format!("create_entities({n}), attach {:?}", ks.iter().map(|k| NAMES[*k]).collect::<Vec<_>>()));
                let mut e = w.create_entities(n);
                let mut ents = vec![[None; NK]; n];
                for k in ks {
                    let t: Vec<u64> = (0..n).map(|_| m.tok()).collect();
                    y();
                    e = (OPS[k].batch)(e, &t, true).0;
                    for i in 0..n {
                        ents[i][k] = stored(k, t[i]);
                    }
                }
                let ids = e.into_ids();
                let (a, b) = (ids.start.get(), ids.end.get());
                if b < a || b - a != n {
                    return bad("C02", format!("create_entities({n}) gave {ids:?}"));
                }
                m.log.back_mut().map(|l| *l += &format!(" -> {ids:?}"));
                for i in 0..n {
                    self.claim(m, a + i)?;
                    m.ents.insert(a + i, ents[i]);
                }
            }
            2 => {
                let t = m.tok();
                what(m, format!("attach {}={} to {id}", NAMES[k], mask(k, t)));
                (OPS[k].attach_world)(w, nz(id), t);
                m.ents.get_mut(&id).unwrap()[k] = stored(k, t);
            }
            3 => {
                what(m, format!("detach {} from {id}", NAMES[k]));
                let got = (OPS[k].detach_world)(w, nz(id)).map(|v| v.tok);
                let want = m.ents.get_mut(&id).unwrap()[k].take().map(|v| v.tok);
                if got != want {
                    return bad("C01", format!("detaching {} from {id} gave {got:?}, its only user stored {want:?}", NAMES[k]));
                }
            }
            4 => {
                what(m, format!("read {} of {id}", NAMES[k]));
                let want = m.ents[&id][k].map(|v| v.tok);
                let g = (OPS[k].read)(w, nz(id));
                let got = g.as_ref().map(|g| g.val().tok);
                y();
                let again = g.as_ref().map(|g| g.val().tok);
                if got != want || again != want {
                    return bad("C01", format!("{} of {id} reads {got:?}, then {again:?} through the same guard, its only user stored {want:?}", NAMES[k]));
                }
            }
            5 => {
                let t = m.tok();
                what(m, format!("write {}={} of {id}", NAMES[k], mask(k, t)));
                let want = m.ents[&id][k].map(|v| v.tok);
                let replace = r.chance(1, 2);
                let got = (OPS[k].write)(w, nz(id)).map(|mut g| {
                    let old = g.val().tok;
                    g.put(t, replace);
                    y();
                    (old, g.val().tok)
                });
                if got != want.map(|v| (v, mask(k, t))) {
                    return bad("C01", format!("{} of {id} read, and after writing {t} read, {got:?}; its only user had stored {want:?}", NAMES[k]));
                }
                if want.is_some() {
                    m.ents.get_mut(&id).unwrap()[k] = stored(k, t);
                }
            }
            6 => {
                self.release(m, id);
                if r.chance(1, 3) {
                    what(m, format!("remove {id} by its handle"));
                    match w.entity(nz(id)) {
                        None => return bad("C02", format!("entity {id} is not found although only thread {} could remove it", m.t)),
                        Some(e) => e.manaully_drop(),
                    }
                } else {
                    what(m, format!("remove {id}"));
                    w.remove_entity(nz(id));
                }
            }
            7 | 8 => {
                let set = if c == 8 && !self.grouped.is_empty() { &self.grouped } else { &self.plain };
                if set.is_empty() {
                    return Ok(());
                }
                let s = *r.pick(set);
                let e = env.shapes[s];
                let also = if env.info[s].1.is_empty() { "C04" } else { "C05" };
                let limit = if r.chance(1, 5) { r.below(4) } else { 20_000 };
                let lookup: Vec<usize> = if r.chance(1, 3) { (0..2).filter_map(|_| m.some(r)).collect() } else { vec![] };
                what(m, format!("query {}", e.name));
                let mut leaves = vec![];
                exprs[s].leaves(&mut leaves);
                let expect = |m: &Mine, id: usize| -> Option<Vec<u64>> {
                    let e = &m.ents[&id];
                    exprs[s].matches(e).then(|| leaves.iter().map(|(k, _)| e[*k].map_or(BAD, |v| v.tok)).collect())
                };
                let me = m.t as u64;
                let mut n = m.n;
                let mut writer = |k: usize, tok: u64| {
                    // only what is mine; smaller are the initial values
                    if is_zst(k) || tok < 16_000 || tok & 3 != me {
                        return None;
                    }
                    n += 1;
                    if n % 4 == 0 {
                        return None;
                    }
                    Some((n * 4 + me, n & 2 == 0))
                };
                let mut q = (e.open)(w);
                let mut seen: BTreeSet<usize> = BTreeSet::new();
                let mut row = |m: &mut Mine, id: usize, row: &crate::query::Row, how: &str| -> Result<(), CFail> {
                    if row.obs.iter().any(|o| o.tok == BAD) {
                        return bad(also, format!("query {} {how} entity {id} with a value which nobody stored", e.name));
                    }
                    if !m.ents.contains_key(&id) {
                        return Ok(());
                    }
                    m.rows += 1;
                    let got: Vec<u64> = row.obs.iter().map(|o| o.tok).collect();
                    let want = expect(m, id);
                    if want.as_ref() != Some(&got) {
                        return bad(also, format!("query {} {how} entity {id} with {got:?}; its only user expects {want:?}", e.name));
                    }
                    for (_, k, t, _) in &row.wrote {
                        m.ents.get_mut(&id).unwrap()[*k] = Some(Val { tok: *t, serial: 0 });
                    }
                    Ok(())
                };
                for id in lookup {
                    let got = q.from_id(nz(id), &mut writer);
                    let want = expect(m, id);
                    if got.is_some() != want.is_some() {
                        return bad(also, format!("query {} looks entity {id} up: {}, its only user expects {want:?}", e.name, if got.is_some() { "found" } else { "not found" }));
                    }
                    if let Some(g) = got {
                        row(m, id, &g, "looks up")?;
                    }
                }
                let mut complete = false;
                while seen.len() < limit {
                    y();
                    match q.next_id(&mut writer) {
                        None => {
                            complete = true;
                            break;
                        }
                        Some(g) => {
                            let id = g.id.unwrap_or(0);
                            if !seen.insert(id) {
                                return bad(also, format!("query {} yields entity {id} twice", e.name));
                            }
                            row(m, id, &g, "yields")?;
                        }
                    }
                }
                drop(q);
                m.n = n;
                if complete {
                    if let Some(id) = m.ents.iter().find(|(id, e)| exprs[s].matches(e) && !seen.contains(id)).map(|x| *x.0) {
                        return bad(also, format!("query {} does not yield entity {id}, whose only user stored {:?}", e.name, toks(&m.ents[&id])));
                    }
                }
            }
            9 => {
                what(m, format!("exist({id})"));
                if !w.exist(nz(id)) {
                    return bad("C02", format!("entity {id} does not exist although only thread {} could remove it", m.t));
                }
            }
            10 => {
                what(m, format!("use the handle of {id}"));
                let Some(mut h) = w.entity(nz(id)) else {
                    return bad("C02", format!("entity {id} is not found although only thread {} could remove it", m.t));
                };
                for _ in 0..1 + r.below(3) {
                    let k = *r.pick(&self.prog.comps);
                    y();
                    match r.below(3) {
                        0 => {
                            let t = m.tok();
                            h = (OPS[k].attach)(h, t).0;
                            m.ents.get_mut(&id).unwrap()[k] = stored(k, t);
                        }
                        1 => {
                            let got = (OPS[k].detach)(&h).map(|v| v.tok);
                            let want = m.ents.get_mut(&id).unwrap()[k].take().map(|v| v.tok);
                            if got != want {
                                return bad("C01", format!("detaching {} from {id} gave {got:?}, its only user stored {want:?}", NAMES[k]));
                            }
                        }
                        _ => {
                            let got = (OPS[k].hread)(&h).map(|g| g.val().tok);
                            let want = m.ents[&id][k].map(|v| v.tok);
                            if got != want {
                                return bad("C01", format!("{} of {id} reads {got:?}, its only user stored {want:?}", NAMES[k]));
                            }
                        }
                    }
                }
                if r.chance(1, 4) {
                    self.release(m, id);
                    h.manaully_drop();
                } else if h.into_id().get() != id {
                    return bad("C02", format!("the handle of {id} gave another id"));
                }
            }
            _ => {
                what(m, format!("read the storage of {}", NAMES[k]));
                let s = (OPS[k].storage_read)(w).expect("registered");
                let n = s.count();
                let mut mine = 0;
                for (id, e) in &m.ents {
                    let got = s.get(nz(*id)).map(|v| v.tok);
                    if got != e[k].map(|v| v.tok) || s.exist(nz(*id)) != got.is_some() {
                        return bad("C01", format!("{} of {id} reads {got:?} in its storage, its only user stored {:?}", NAMES[k], toks(e)[k]));
                    }
                    mine += got.is_some() as usize;
                }
                y();
                if n < mine || s.count() != n || s.data().len() != n {
                    return bad("C01", format!("the storage of {} counts {n}, then {}, holds {} values, {mine} of them of thread {}", NAMES[k], s.count(), s.data().len(), m.t));
                }
            }
        }
        Ok(())
    }
    pub fn run(&self, env: &Env, exprs: &[Expr], mine: &Mutex<Mine>, log: &Mutex<Log>, w: &World, rep: u64) -> Result<(), CFail> {
        let mut m = mine.lock().unwrap_or_else(|e| e.into_inner());
        let mut r = Rng::new(mix(mix(self.seed, rep), m.t as u64));
        let what = |m: &mut Mine, s: String| {
            log.lock().unwrap_or_else(|e| e.into_inner()).pending = Some((m.calls, s.clone()));
            if m.log.len() > 40 {
                m.log.pop_front();
            }
            m.log.push_back(s);
        };
        for _ in 0..self.nops {
            if self.stop.load(Relaxed) {
                break;
            }
            let res = match catch_unwind(AssertUnwindSafe(|| self.step(&mut r, &mut m, w, env, exprs, &what))) {
                Ok(x) => x,
                Err(p) if (env.fatal)(&*p) => resume_unwind(p),
                Err(p) => {
                    let t = (env.panic_text)(&*p);
                    drop(catch_unwind(AssertUnwindSafe(move || drop(p))));
                    Err(CFail { kind: CKind::Panic, also: "", msg: format!("a call of thread {} panicked: {t}", m.t) })
                }
            };
            if let Err(f) = res {
                self.stop.store(true, Relaxed);
                return Err(f);
            }
        }
        log.lock().unwrap_or_else(|e| e.into_inner()).pending = None;
        Ok(())
    }
    /// after all threads have ended well
    pub fn judge(&self, w: World, env: &Env, mine: &[Mine]) -> Result<(), CFail> {
        let mut w = w;
        let next = 1 + mine.iter().map(|m| m.max).max().unwrap_or(0);
        let fin = audit(&mut w, &self.prog, env, next + 3)?;
        let mut live = BTreeSet::new();
        for m in mine {
            for (id, e) in &m.ents {
                live.insert(*id);
                let got = fin.comps.get(id).copied().unwrap_or([None; NK]);
                if got != toks(e) {
                    return Err(CFail { kind: CKind::Final, also: "C01", msg: format!("entity {id} has {got:?} after the run, its only user stored {:?}", toks(e)) });
                }
            }
        }
        if live != fin.live {
            return Err(CFail { kind: CKind::Final, also: "C02", msg: format!("the entities {:?} exist after the run, created and not removed are {live:?}", fin.live) });
        }
        let (t, g) = crate::conc::stored(&fin);
        let (at, ag) = (reg().alive.as_ref().map_or(0, |a| a.len()) as i64, G_ALIVE.load(SeqCst));
        if at != t || ag != g {
            return Err(CFail { kind: CKind::Final, also: "C10", msg: format!("{at} tracked and {ag} counted values are alive after the run, {t} and {g} are stored") });
        }
        audit_ids(&w, next, &fin.live)?;
        drop(w);
        let left = reg().alive.as_ref().map_or(0, |a| a.len());
        let errs = reg().errors.clone();
        if left != 0 || !errs.is_empty() {
            return Err(CFail { kind: CKind::Final, also: "C10", msg: format!("{left} values are left after the world was dropped; {errs:?}") });
        }
        Ok(())
    }
    pub fn trace(&self, env: &Env, mine: &[Mine]) -> Vec<String> {
        let mut v = self.describe(env);
        for m in mine {
            v.push(format!("thread {}: {} calls, the last of them:", m.t, m.calls));
            for l in m.log.iter().rev().take(14).rev() {
                v.push(format!("  thread {}: {l}", m.t));
            }
        }
        v
    }
}
