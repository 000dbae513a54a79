//! Many further component and resource types (and groups over pairs of them): whatever the library numbers, packs
//! into masks or keeps in small tables has to cope with dozens of them.
use std::num::NonZeroUsize;
use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, NonOwning, PartialOwning};
use xecs::query::WithId;
use xecs::{Entities, EntityId, World};

#[derive(Clone, Copy, Debug)]
pub struct F<const N: usize>(u64);
pub struct RF<const N: usize>(u64);
impl<const N: usize> F<N> {
    fn new(tok: u64) -> Self {
        F(tok * 128 + N as u64)
    }
    /// the token, or a value that is no token if this isn't an F<N>
    fn tok(&self) -> u64 {
        if self.0 % 128 == N as u64 { self.0 / 128 } else { u64::MAX }
    }
}
pub struct FillOps {
    pub register: fn(&mut World),
    pub attach: fn(&World, EntityId, u64),
    pub detach: fn(&World, EntityId) -> Option<u64>,
    pub read: fn(&World, EntityId) -> Option<u64>,
    pub write: fn(&World, EntityId, u64) -> Option<u64>,
    pub all: fn(&World) -> Vec<(usize, u64)>,
    pub batch: for<'a> fn(Entities<'a>, &[u64]) -> Entities<'a>,
    pub res_set: fn(&mut World, u64),
    pub res_get: fn(&World) -> Option<u64>,
}
fn batch<'a, const N: usize>(e: Entities<'a>, toks: &[u64]) -> Entities<'a> {
    let v: Vec<F<N>> = toks.iter().map(|t| F::new(*t)).collect();
    e.attach(v)
}
const fn fops<const N: usize>() -> FillOps {
    FillOps {
        register: |w| {
            w.register::<F<N>>();
        },
        attach: |w, id, t| w.attach_component(id, F::<N>::new(t)),
        detach: |w, id| w.detach_component::<F<N>>(id).map(|f| f.tok()),
        read: |w, id| w.entity_component_read::<F<N>>(id).map(|f| f.tok()),
        write: |w, id, t| {
            w.entity_component_write::<F<N>>(id).map(|mut f| {
                let old = f.tok();
                *f = F::new(t);
                old
            })
        },
        all: |w| w.query::<&F<N>>().with_id().map(|(i, f)| (i.get(), f.tok())).collect(),
        batch: batch::<N>,
        res_set: |w, t| w.register_resource(RF::<N>(t)),
        res_get: |w| w.resource_read::<RF<N>>().map(|r| r.0),
    }
}
pub struct PairOps {
    pub a: usize,
    pub b: usize,
    /// 0 full-owning, 1 partial-owning, 2 non-owning
    pub kind: usize,
    pub make: fn(&mut World),
    pub rows: fn(&World) -> Vec<(usize, u64, u64)>,
    pub get: fn(&World, NonZeroUsize) -> Option<(u64, u64)>,
    /// the storages' values in their order
    pub dense: fn(&World) -> (Vec<u64>, Vec<u64>),
}
macro_rules! pair {
    ($a:expr, $b:expr, $kind:expr, $make:ident, $ty:ident) => {
        PairOps {
            a: $a,
            b: $b,
            kind: $kind,
            make: |w| w.make_group($make::<F<$a>, F<$b>>()),
            rows: |w| w.query::<$ty<&F<$a>, &F<$b>>>().with_id().map(|(i, (a, b))| (i.get(), a.tok(), b.tok())).collect(),
            get: |w, id| {
                use xecs::query::QueryIterator;
                w.query::<$ty<&F<$a>, &F<$b>>>().from_id(id).map(|(a, b)| (a.tok(), b.tok()))
            },
            dense: |w| {
                let a = w.components_read::<F<$a>>().unwrap().data().iter().map(|f| f.tok()).collect();
                let b = w.components_read::<F<$b>>().unwrap().data().iter().map(|f| f.tok()).collect();
                (a, b)
            },
        }
    };
}
macro_rules! six {
    ($($n:literal)*) => {
        pub const NF: usize = [$($n),*].len() * 6;
        pub static FILL: [FillOps; NF] = [$(
            fops::<{ $n * 6 }>(), fops::<{ $n * 6 + 1 }>(), fops::<{ $n * 6 + 2 }>(),
            fops::<{ $n * 6 + 3 }>(), fops::<{ $n * 6 + 4 }>(), fops::<{ $n * 6 + 5 }>(),
        )*];
        pub const NP: usize = NF;
        pub static PAIRS: [PairOps; NP] = [$(
            pair!({ $n * 6 }, { $n * 6 + 1 }, 0, full_owning, FullOwning),
            pair!({ $n * 6 + 2 }, { $n * 6 + 3 }, 1, partial_owning, PartialOwning),
            pair!({ $n * 6 + 4 }, { $n * 6 + 5 }, 2, non_owning, NonOwning),
            pair!({ $n * 6 + 5 }, { $n * 6 + 4 }, 2, non_owning, NonOwning),
            pair!({ $n * 6 + 1 }, { $n * 6 }, 2, non_owning, NonOwning),
            pair!({ $n * 6 + 3 }, { $n * 6 + 4 }, 1, partial_owning, PartialOwning),
        )*];
    };
}
six!(0 1 2 3 4 5 6 7 8 9 10);
