//! Threads sharing one world, for the race detectors. Nothing here orders the threads except the library's own locks:
//! clocks and counters are relaxed, logs are private to a thread, values carry no shared bookkeeping.
use crate::shapes::*;
use futures::stream::{Stream, StreamExt};
use moncore::comps::*;
use moncore::conc::*;
use moncore::model::{GKind, Grp};
use moncore::ops::{self, OPS, RES};
use moncore::rng::{mix, Rng};
use parking_lot::RwLock;
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use xecs::{System, World};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
//                                cr ba ha at de rm ex rd wr st sw qu gq
const W_RACE: [u32; 13] =        [ 5, 3, 6, 8, 6, 6, 3, 6, 6, 4, 4, 9,10];

fn workload(ops: usize) -> Workload {
    Workload { id: "C17", weights: W_RACE, max_threads: 4, max_ops: ops, groups: true, multi: true, lin: false }
}
fn nofatal(_: &(dyn Any + Send)) -> bool {
    false
}
fn text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
thread_local! {
    static JITTER: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}
fn jitter() {
    let x = JITTER.with(|j| {
        let x = mix(j.get(), 77);
        j.set(x);
        x
    });
    match x % 16 {
        0 => std::thread::yield_now(),
        1 | 2 => {
            for _ in 0..if cfg!(miri) { 1 } else { x >> 50 } {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
pub fn env() -> Env {
    Env::new((0..NSHAPES).map(shape).collect(), jitter, nofatal, text)
}
#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub describe: Vec<String>,
    /// another thread's call was under way during at least one call
    pub overlap: bool,
    pub odd: Vec<String>,
}
fn resource(w: &World, r: &mut Rng) {
    let j = r.below(NR);
    if r.chance(1, 2) {
        if let Some(mut g) = (RES[j].write)(w) {
            let v = g.val().tok;
            g.put(v + 1, r.chance(1, 2));
            jitter();
        }
    } else if let Some(g) = (RES[j].read)(w) {
        let v = g.val().tok;
        jitter();
        assert_eq!(v, g.val().tok, "a resource changed under its read guard");
        if r.chance(1, 4) {
            g.plain();
        }
    }
}
/// A system: each poll does one step on the shared world.
struct Worker<'e> {
    world: Arc<RwLock<World>>,
    ex: Exec<'e>,
    ops: std::vec::IntoIter<Op>,
    r: Rng,
    comps: Vec<usize>,
}
impl<'e> Unpin for Worker<'e> {}
impl<'e> Stream for Worker<'e> {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let me = &mut *self;
        if me.r.chance(1, 4) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let Some(op) = me.ops.next() else { return Poll::Ready(None) };
        let w = System::world(me);
        if me.r.chance(1, 6) {
            // alone with the world
            let mut w = w.write();
            let (a, b) = (*me.r.pick(&me.comps), *me.r.pick(&me.comps));
            match me.r.below(4) {
                0 => drop(catch_unwind(AssertUnwindSafe(|| (RES[me.r.below(NR)].register)(&mut w, 5)))),
                1 => drop(catch_unwind(AssertUnwindSafe(|| (OPS[a].register)(&mut w)))),
                2 if a < NG && b < NG && a < b => {
                    let kind = *me.r.pick(&[GKind::Full, GKind::Partial, GKind::Non]);
                    drop(catch_unwind(AssertUnwindSafe(|| ops::make_group(&mut w, Grp { kind, a, b }))))
                }
                _ => me.ex.run(&w, &[op]),
            }
        } else {
            let w = w.read();
            me.ex.run(&w, &[op]);
            if me.r.chance(1, 4) {
                resource(&w, &mut me.r);
            }
        }
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        Poll::Ready(Some(1))
    }
}
impl<'e> System for Worker<'e> {
    fn world(&self) -> Arc<RwLock<World>> {
        self.world.clone()
    }
}
/// One world, several threads.
pub fn round(seed: u64, ops: usize, env: &Env, describe: bool) -> Stats {
    let mut r = Rng::new(mix(seed, 0x17));
    let mut prog = Prog::gen(&workload(ops), seed, env);
    let systems = r.chance(1, 3);
    if systems {
        // groups made while running must fit the common order, which is then that of the numbering
        prog.order = std::array::from_fn(|i| i);
        let ok = |x: &Op| match x {
            Op::Query { shape, .. } => {
                let mut c = vec![];
                (env.shapes[*shape].desc)().comps(&mut c);
                c.windows(2).all(|p| p[0] < p[1])
            }
            _ => true,
        };
        for t in prog.threads.iter_mut() {
            t.retain(ok);
        }
        prog.groups.retain(|g| g.a < g.b);
        let groups = prog.groups.clone();
        for t in prog.threads.iter_mut() {
            t.retain(|x| match x {
                Op::Query { shape, .. } => {
                    let mut g = vec![];
                    (env.shapes[*shape].desc)().groups(&mut g);
                    g.iter().all(|g| groups.contains(g))
                }
                _ => true,
            });
        }
    }
    let mut st = Stats::default();
    if describe {
        st.describe = prog.describe(env);
        st.describe.push(if systems { "as systems over a shared lock".into() } else { "by reference".into() });
    }
    let mut w = prog.build();
    for j in 0..NR {
        if r.chance(2, 3) {
            (RES[j].register)(&mut w, 1);
        }
    }
    let logs: Vec<Mutex<Log>> = prog.threads.iter().map(|_| Mutex::new(Log::default())).collect();
    let mut shared = None;
    if systems {
        let a = Arc::new(RwLock::new(w));
        std::thread::scope(|s| {
            for (i, (ops, log)) in prog.threads.iter().zip(&logs).enumerate() {
                let mut sys = Worker {
                    world: a.clone(),
                    ex: Exec::new(env, log),
                    ops: ops.clone().into_iter(),
                    r: Rng::new(mix(seed, 100 + i as u64)),
                    comps: prog.comps.clone(),
                };
                s.spawn(move || {
                    JITTER.with(|j| j.set(mix(seed, 200 + i as u64)));
                    futures::executor::block_on(async move { while sys.next().await.is_some() {} })
                });
            }
        });
        shared = Some(a);
    } else {
        std::thread::scope(|s| {
            for (i, (ops, log)) in prog.threads.iter().zip(&logs).enumerate() {
                let wr = &w;
                let mut r = Rng::new(mix(seed, 300 + i as u64));
                s.spawn(move || {
                    JITTER.with(|j| j.set(mix(seed, 200 + i as u64)));
                    let mut e = Exec::new(env, log);
                    for o in ops {
                        e.run(wr, std::slice::from_ref(o));
                        PROGRESS.fetch_add(1, Ordering::Relaxed);
                        if r.chance(1, 5) {
                            resource(wr, &mut r);
                        }
                    }
                });
            }
        });
        shared.get_or_insert_with(|| Arc::new(RwLock::new(w)));
    }
    let mut spans = vec![];
    let mut h = seed;
    for (t, l) in logs.into_iter().enumerate() {
        for e in l.into_inner().unwrap_or_else(|e| e.into_inner()).events {
            spans.push((e.call, e.ret, t));
            let name = match &e.ev {
                Ev::Alloc(_) | Ev::AllocN(..) => "creations",
                Ev::Attach(.., true) | Ev::HAttach(..) => "attachments",
                Ev::Detach(_, _, Ok(_)) | Ev::HDetach(..) => "detachments",
                Ev::Remove(_, true) | Ev::HRemove(_) => "removals",
                Ev::Query { rows, .. } => {
                    *st.n.entry("query rows").or_default() += rows.len() as u64;
                    "queries"
                }
                Ev::Panicked(m) => {
                    st.odd.push(m.clone());
                    "unexpected panics"
                }
                _ => "other calls",
            };
            *st.n.entry(name).or_default() += 1;
        }
    }
    spans.sort();
    for p in spans.windows(2) {
        if p[0].2 != p[1].2 {
            h = mix(h, p[1].2 as u64);
            if p[1].0 < p[0].1 {
                st.overlap = true;
                *st.n.entry("overlapping calls").or_default() += 1;
            }
        }
    }
    *st.n.entry(if systems { "worlds shared by systems" } else { "worlds shared by reference" }).or_default() += 1;
    st.hash = h;
    drop(shared);
    st
}
