//! A second world beside the one of the history, with a small reference of its own: what is kept per type or per id outside
//! a world would show.
use crate::engine::{eid, fail, ok, Kind, R};
use moncore::comps::*;
use moncore::model::{GKind, Grp};
use moncore::ops::{self, OPS};
use moncore::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use xecs::group::{FullOwning, NonOwning, PartialOwning};
use xecs::query::WithId;
use xecs::World;

/// C, D, S: no census counts them
const KS: [usize; 3] = [2, 3, 6];

pub struct Other {
    w: World,
    vals: [BTreeMap<usize, u64>; 3],
    live: BTreeSet<usize>,
    freed: BTreeSet<usize>,
    next: usize,
    res: Option<u64>,
    kind: GKind,
}
macro_rules! check {
    ($c:expr, $k:expr, $($a:tt)*) => {
        if !($c) { return fail($k, format!("in a second world: {}", format!($($a)*))); }
    };
}
impl Other {
    pub fn new(r: &mut Rng) -> Other {
        let mut w = World::new();
        for k in KS {
            (OPS[k].register)(&mut w);
        }
        let kind = *r.pick(&[GKind::Full, GKind::Partial, GKind::Non]);
        ops::make_group(&mut w, Grp { kind, a: 2, b: 3 });
        Other { w, vals: Default::default(), live: BTreeSet::new(), freed: BTreeSet::new(), next: 1, res: None, kind }
    }
    fn some(&self, r: &mut Rng) -> Option<usize> {
        if self.live.is_empty() {
            return None;
        }
        self.live.iter().nth(r.below(self.live.len())).copied()
    }
    fn born(&mut self, id: usize) -> R {
        check!(!self.live.contains(&id), Kind::Ids, "the id {id} of a live entity is given out");
        if self.freed.is_empty() {
            check!(id == self.next, Kind::Ids, "a new entity got the id {id}, the next is {}", self.next);
            self.next += 1;
        } else {
            check!(self.freed.remove(&id), Kind::Ids, "a new entity got the id {id} although ids were free");
        }
        self.live.insert(id);
        Ok(())
    }
    pub fn step(&mut self, r: &mut Rng, tok: u64) -> R {
        let i = r.below(3);
        let k = KS[i];
        match (r.below(10), self.some(r)) {
            (0 | 1, _) if self.live.len() < 30 => {
                let w = &self.w;
                let (id, v) = ok("a second world's create_entity", || {
                    let (e, v) = (OPS[k].attach)(w.create_entity(), tok);
                    (e.into_id().get(), v)
                })?;
                self.born(id)?;
                self.vals[i].insert(id, v.tok);
            }
            (2, _) if self.live.len() < 30 => {
                let n = r.below(4);
                let ids = ok("a second world's create_entities", || self.w.create_entities(n).into_ids())?;
                check!(ids.start.get() == self.next && ids.end.get() == self.next + n, Kind::Ids, "a batch of {n} got {ids:?}, the next id is {}", self.next);
                for _ in 0..n {
                    self.live.insert(self.next);
                    self.next += 1;
                }
            }
            (3..=5, Some(id)) => {
                for (i, k) in KS.into_iter().enumerate().take(1 + i) {
                    let v = ok("attaching in a second world", || (OPS[k].attach_world)(&self.w, eid(id), tok))?;
                    self.vals[i].insert(id, v.tok);
                }
            }
            (6, Some(id)) => {
                let got = ok("detaching in a second world", || (OPS[k].detach_world)(&self.w, eid(id)))?.map(|v| v.tok);
                let want = self.vals[i].remove(&id);
                check!(got == want, Kind::Read, "detaching {} from {id} gave {got:?}, stored was {want:?}", NAMES[k]);
            }
            (7, Some(id)) => {
                ok("removing in a second world", || self.w.remove_entity(eid(id)))?;
                self.live.remove(&id);
                self.freed.insert(id);
                for v in &mut self.vals {
                    v.remove(&id);
                }
            }
            (8, _) => {
                if r.chance(1, 3) {
                    ok("registering a resource in a second world", || self.w.register_resource(R0(tok)))?;
                    self.res = Some(tok);
                } else if let Some(mut g) = ok("writing a resource of a second world", || self.w.resource_write::<R0>())? {
                    g.0 = tok;
                    self.res = Some(tok);
                }
            }
            _ => {}
        }
        self.audit()
    }
    fn audit(&self) -> R {
        let res = ok("reading a resource of a second world", || self.w.resource_read::<R0>().map(|g| g.0))?;
        check!(res == self.res, Kind::Res, "the resource reads {res:?}, stored was {:?}", self.res);
        for id in 1..self.next + 2 {
            check!(self.w.exist(eid(id)) == self.live.contains(&id), Kind::Ids, "existence of {id} is wrong");
        }
        for (i, k) in KS.into_iter().enumerate() {
            for id in 1..self.next + 2 {
                let got = (OPS[k].read)(&self.w, eid(id)).map(|g| g.val().tok);
                let want = self.vals[i].get(&id).copied();
                check!(got == want, Kind::Read, "{} of {id} reads {got:?}, stored was {want:?}", NAMES[k]);
            }
        }
        let plain: BTreeMap<usize, u64> = ok("querying a second world", || self.w.query::<&C>().with_id().map(|(i, c)| (i.get(), c.0 as u64)).collect())?;
        check!(plain == self.vals[0], Kind::Query, "query &C yields {plain:?}, stored was {:?}", self.vals[0]);
        let want: BTreeMap<usize, (u64, u64)> = self.vals[0].iter().filter_map(|(i, a)| self.vals[1].get(i).map(|b| (*i, (*a, *b)))).collect();
        let both = |v: Vec<(usize, (u64, u64))>| {
            let n = v.len();
            let m: BTreeMap<_, _> = v.into_iter().collect();
            (m.len() == n).then_some(m)
        };
        macro_rules! rows {
            ($q:ty) => {
                both(ok("querying a second world", || self.w.query::<$q>().with_id().map(|(i, (a, b))| (i.get(), (a.tok(), b.tok()))).collect())?)
            };
        }
        let got = rows!((&C, &D));
        check!(got.as_ref() == Some(&want), Kind::Query, "query (&C,&D) yields {got:?}, stored was {want:?}");
        let got = match self.kind {
            GKind::Full => rows!(FullOwning<&C, &D>),
            GKind::Partial => rows!(PartialOwning<&C, &D>),
            GKind::Non => rows!(NonOwning<&C, &D>),
        };
        check!(got.as_ref() == Some(&want), Kind::GroupQ, "the group yields {got:?}, stored was {want:?}");
        Ok(())
    }
}
