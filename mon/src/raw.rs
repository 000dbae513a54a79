//! Operations without a reference: nothing is predicted, everything that can be reached is read. They run where the
//! reference cannot follow (destructors that panic, a world that already answered wrongly) and for the memory checks.
use crate::engine::{call, eid};
use crate::shapes::*;
use moncore::comps::*;
use moncore::ops::{OPS, RES};
use moncore::rng::Rng;
use xecs::World;

#[derive(Default)]
pub struct RawStats {
    pub ops: u64,
    pub bombs: u64,
    pub holds: u64,
    pub waits: u64,
    pub reads: u64,
}
pub struct Raw<'w> {
    pub w: &'w mut World,
    /// ids above were never given out
    pub max: usize,
    pub tok: u64,
    pub st: RawStats,
    /// hold guards over calls
    pub holds: bool,
    /// components used
    pub comps: Vec<usize>,
    /// shapes that the world might answer
    shapes: Vec<usize>,
}
fn gave_up<T>(r: Result<T, String>) -> bool {
    matches!(r, Err(e) if e.contains("self-deadlock"))
}
/// One call through a shared reference; true if it was given up because it would wait for ever.
fn shared_op(w: &World, max: &mut usize, t: u64, ks: &[usize], r: &mut Rng) -> bool {
    let (id, k) = (1 + r.below(*max + 1), *r.pick(ks));
    let k2 = *r.pick(ks);
    let e = eid(id);
    gave_up(match r.below(11) {
        0 => call(|| *max = (*max).max(w.create_entity().into_id().get())),
        1 => {
            let n = r.below(4);
            let toks: Vec<u64> = (0..n as u64).map(|i| t + i).collect();
            let boxed = r.chance(1, 2);
            let twice = r.chance(1, 2);
            call(|| {
                let mut x = w.create_entities(n);
                x = (OPS[k].batch)(x, &toks, boxed).0;
                if twice {
                    x = (OPS[k].batch)(x, &toks, !boxed).0;
                }
                *max = (*max).max(x.into_ids().end.get());
            })
        }
        2..=4 => call(|| {
            (OPS[k].attach_world)(w, e, t);
        }),
        5 | 6 => call(|| {
            (OPS[k].detach_world)(w, e);
        }),
        7 => call(|| w.remove_entity(e)),
        8 => call(|| {
            if let Some(h) = w.entity(e) {
                let (h, _) = (OPS[k].attach)(h, t);
                (OPS[k2].detach)(&h);
                if t % 3 == 0 {
                    h.manaully_drop();
                }
            }
        }),
        9 => call(|| {
            if let Some(mut g) = (OPS[k].write)(w, e) {
                g.put(t, true);
            }
        }),
        _ => call(|| {
            if let Some(mut g) = (OPS[k].storage_write)(w) {
                g.data_mut(&mut |_, v| Some((v.tok ^ 1, t % 2 == 0)));
            }
        }),
    })
}
impl<'w> Raw<'w> {
    pub fn new(w: &'w mut World, max: usize, tok: u64, groups: &[moncore::model::Grp]) -> Self {
        let reg: Vec<bool> = (0..NK).map(|k| call(|| (OPS[k].registered)(w)).unwrap_or(false)).collect();
        let mut shapes = vec![];
        if !cfg!(miri) {
            for i in 0..NSHAPES {
                let x = meta(i);
                if (0..NK).all(|k| x.comps >> k & 1 == 0 || reg[k]) && x.groups.iter().all(|g| groups.contains(g)) {
                    shapes.push(i)
                }
            }
        } else {
            for k in (0..NK).filter(|k| reg[*k]) {
                shapes.push(single_shape(k, false));
                shapes.push(single_shape(k, true));
            }
            for g in groups {
                shapes.extend(group_shape(*g, true, true));
                shapes.extend(group_shape(*g, false, true));
                shapes.extend(group_shape(*g, false, false));
            }
        }
        Raw { w, max, tok, st: RawStats::default(), holds: true, comps: (0..NK).collect(), shapes }
    }
    fn id(&self, r: &mut Rng) -> usize {
        1 + r.below(self.max + 1)
    }
    fn t(&mut self) -> u64 {
        self.tok += 1;
        self.tok
    }
    fn op(&mut self, r: &mut Rng) -> bool {
        let t = self.t();
        self.st.ops += 1;
        if r.below(20) == 0 {
            let j = r.below(NR);
            let w = &mut *self.w;
            return gave_up(call(|| (RES[j].register)(w, t)));
        }
        shared_op(self.w, &mut self.max, t, &self.comps, r)
    }
    /// Read everything reachable.
    pub fn look(&mut self, r: &mut Rng, share: usize) {
        let w = &*self.w;
        let mut n = 0u64;
        for k in self.comps.clone() {
            let _ = call(|| {
                if let Some(s) = (OPS[k].storage_read)(w) {
                    n += s.data().len() as u64;
                    if !cfg!(miri) {
                        for id in 1..=self.max.min(300) + 1 {
                            n += s.get(eid(id)).is_some() as u64;
                        }
                    }
                }
            });
        }
        for i in self.shapes.clone() {
            if r.below(share) != 0 {
                continue;
            }
            let mode = r.below(4);
            let t = self.tok;
            let ids: Vec<usize> = (0..3).map(|_| self.id(r)).collect();
            let _ = call(|| {
                let mut q = (shape(i).open)(w);
                let mut wr = |_: usize, x: u64| if x % 2 == 0 { Some((x ^ t & 6, x % 4 == 0)) } else { None };
                n += match mode {
                    0 => q.collect_all(5000, &mut wr).len() as u64,
                    1 => q.via_with_id().collect_all(5000, &mut wr).len() as u64,
                    2 => {
                        for id in ids {
                            n += q.from_id(eid(id), &mut wr).is_some() as u64;
                        }
                        let mut c = 0;
                        while c < 5000 && q.next_id(&mut wr).is_some() {
                            c += 1
                        }
                        c
                    }
                    _ => q.fold_all(5000).len() as u64,
                };
            });
        }
        for x in RES.iter() {
            let _ = call(|| {
                if let Some(g) = (x.read)(w) {
                    n += g.val().tok & 1;
                    n += g.plain().0.len() as u64;
                }
            });
        }
        self.st.reads += n;
    }
    /// Hold something, call something, use what is held. False if the call had to be given up: the world is then half-way
    /// through an operation that no real execution would leave.
    fn hold(&mut self, r: &mut Rng) -> bool {
        let (id, k, t) = (self.id(r), *r.pick(&self.comps), self.t());
        let ks = &self.comps;
        let w: &World = self.w;
        let mut max = self.max;
        let shapes = &self.shapes;
        let mut stopped = false;
        let mut n = 0;
        let _ = call(|| {
            let kind = r.below(6);
            let i = if shapes.is_empty() { 0 } else { *r.pick(shapes) };
            let mut ops = || {
                for j in 0..1 + r.below(3) as u64 {
                    n += 1;
                    if shared_op(w, &mut max, t * 8 + j, ks, r) {
                        stopped = true;
                        return;
                    }
                }
            };
            match kind {
                0 => {
                    let g = (OPS[k].read)(w, eid(id));
                    ops();
                    g.map(|g| g.val());
                }
                1 => {
                    let g = (OPS[k].write)(w, eid(id));
                    ops();
                    g.map(|mut g| g.put(7, true));
                }
                2 => {
                    let g = (OPS[k].storage_read)(w);
                    ops();
                    g.map(|g| g.data().len());
                }
                3 => {
                    let g = (OPS[k].storage_write)(w);
                    ops();
                    g.map(|mut g| g.data_mut(&mut |_, v| Some((v.tok, true))).len());
                }
                4 if !shapes.is_empty() => {
                    let mut g = (shape(i).open)(w);
                    g.next(&mut |_, _| None);
                    ops();
                    while g.next_id(&mut |_, t| Some((t, true))).is_some() {}
                }
                _ => {
                    let j = t as usize % NR;
                    let g = (RES[j].write)(w);
                    let h = (RES[(j + 1) % NR].read)(w);
                    ops();
                    g.map(|mut g| g.put(9, true));
                    h.map(|h| h.val());
                }
            }
        });
        self.max = max;
        self.st.ops += n;
        self.st.holds += 1;
        self.st.waits += stopped as u64;
        !stopped
    }
    pub fn run(&mut self, r: &mut Rng, n: usize, bombs: bool) {
        for _ in 0..n {
            if bombs && r.chance(1, 2) {
                bomb_arm(1 + r.below(4) as i64);
            }
            if self.holds && !bombs && r.chance(1, 4) {
                if !self.hold(r) {
                    break;
                }
            } else if self.op(r) {
                break;
            }
            if bomb_disarm() {
                self.st.bombs += 1;
            }
        }
        self.look(r, if cfg!(miri) { 4 } else { 2 });
    }
}
