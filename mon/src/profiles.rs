//! Per property: what the workload emphasises, which disagreements decide it, and what counts as non-trivial.
use crate::engine::{Audits, Kind, Kind::*, Profile, NOPS};

//                            cr c+ ba at ha de hd rm hr rd sr wr sw qu gq mg mi rs rg pr au gu bu ch rc gc ha
#[rustfmt::skip]
const W_GEN: [u32; NOPS] =   [ 6,10, 5,12, 8, 8, 6, 5, 4, 6, 4, 5, 4, 6, 4, 3, 0, 0, 1, 1, 1, 2, 1, 4, 3, 3, 2];
#[rustfmt::skip]
const W_IDS: [u32; NOPS] =   [14, 8,10, 3, 2, 2, 1, 9, 7, 0, 0, 0, 0, 1, 0, 1, 3, 0, 0,14, 2, 0, 3, 0,10, 0, 3];
#[rustfmt::skip]
const W_REM: [u32; NOPS] =   [ 4,12, 6,12, 6, 4, 3,10, 8, 1, 1, 1, 1, 2, 3, 6, 0, 0, 1, 1, 1, 0, 2, 3,10, 4, 2];
#[rustfmt::skip]
const W_QUERY: [u32; NOPS] = [ 4,14, 6,10, 4, 5, 2, 4, 2, 0, 0, 1, 1,40, 0, 1, 0, 0, 1, 0, 0, 0, 1, 4, 2, 0, 1];
#[rustfmt::skip]
const W_GROUP: [u32; NOPS] = [ 4,12, 8,10, 6, 6, 4, 5, 4, 0, 0, 1, 1, 4,20, 9, 0, 0, 1, 0, 0, 0, 2, 6, 3,14, 1];
#[rustfmt::skip]
const W_LAYOUT: [u32; NOPS] =[ 4,12, 8,10, 6, 6, 4, 5, 4, 0, 0, 1, 1, 0, 2, 9, 0, 0, 1, 0, 2, 0, 2, 6, 3,14, 1];
#[rustfmt::skip]
const W_MAKE: [u32; NOPS] =  [ 3,10, 4, 6, 3, 3, 2, 3, 2, 0, 0, 1, 0, 1, 4,30, 0, 0, 4, 0, 1, 0, 1, 3, 2, 4, 1];
#[rustfmt::skip]
const W_MISUSE: [u32; NOPS] =[ 5, 8, 4, 6, 4, 3, 2, 4, 2, 1, 1, 1, 1, 2, 2, 4,40, 3, 2, 1, 0, 1, 1, 2, 3, 2, 1];
#[rustfmt::skip]
const W_DROPS: [u32; NOPS] = [ 4,12, 8,12, 8, 8, 5, 6, 4, 1, 1, 6, 6, 4, 3, 3, 6, 8, 1, 0, 0, 2, 2, 5, 4, 4, 1];
#[rustfmt::skip]
const W_RES: [u32; NOPS] =   [ 2, 3, 1, 2, 1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 2,70, 1, 0, 0, 4, 0, 0, 0, 0, 0];
#[rustfmt::skip]
const W_WRITE: [u32; NOPS] = [ 4,14, 6, 8, 4, 4, 2, 3, 2, 1, 1,16,16,22,12, 4, 0, 6, 1, 0, 0, 8, 1, 2, 2, 3, 1];
#[rustfmt::skip]
const W_BATCH: [u32; NOPS] = [ 4, 6,30, 5, 4, 4, 3, 5, 3, 1, 1, 1, 1, 3, 6, 7, 4, 0, 2, 2, 1, 0, 3, 2, 5, 4, 1];
#[rustfmt::skip]
const W_PROTO: [u32; NOPS] = [ 3,14, 6, 8, 3, 4, 2, 3, 2, 0, 0, 0, 0,36,18, 6, 0, 0, 1, 0, 0, 0, 1, 3, 2, 4, 1];
#[rustfmt::skip]
const W_DIFF: [u32; NOPS] =  [ 6,12, 8,12, 6, 8, 4, 5, 4, 3, 3, 3, 3,14, 0, 9, 0, 2, 1, 2, 2, 0, 1, 5, 3, 0, 1];

#[rustfmt::skip]
const W_MEM: [u32; NOPS] =   [ 6,12, 7,12, 8, 8, 5, 6, 4, 4, 6, 5, 8,14,10, 7, 5, 5, 1, 1, 0, 4, 1, 5, 3, 6, 1];

const N: Audits = Audits::NONE;
pub static PROFILES: &[Profile] = &[
    Profile {
        id: "C01",
        kinds: &[Read, Query, Panic],
        weights: W_GEN,
        need: &["attach", "overwrite", "detach", "read", "storage read", "write"],
        rule: "a random history of all operations; non-trivial if it attached, overwrote, detached, wrote in place and read by per-entity and storage access",
        audits: Audits { read: true, query: true, ..N },
    },
    Profile {
        id: "C02",
        kinds: &[Ids, Panic, Read],
        weights: W_IDS,
        need: &["create", "batch", "remove", "id recycled", "existence probe"],
        rule: "a random history weighted towards creation, batches and removal; non-trivial if it created singly and in batch, removed, had an id reissued and probed existence",
        audits: Audits { ids: true, ..N },
    },
    Profile {
        id: "C03",
        kinds: &[Read, Query, GroupQ, Layout, Ids, Panic],
        weights: W_REM,
        need: &["remove with components", "id recycled", "absence checked after removal"],
        rule: "a random history weighted towards removal under groups; non-trivial if an entity with components was removed, its absence was checked everywhere and an id was reissued",
        audits: Audits { ids: true, read: true, query: true, groupq: true, layout: true, ..N },
    },
    Profile {
        id: "C04",
        kinds: &[Query, Panic],
        weights: W_QUERY,
        need: &["query", "query rows", "attach", "detach"],
        rule: "a random history with many queries of random shape (tuples of 2 to 5, Without on either side, nested); non-trivial if it queried and rows came out after attachments and detachments",
        audits: Audits { query: true, ..N },
    },
    Profile {
        id: "C05",
        kinds: &[GroupQ, Panic],
        weights: W_GROUP,
        need: &["group made", "group rows", "group join", "group leave"],
        rule: "a random history with up to 14 overlapping groups; non-trivial if a group was made, entities joined and left it, and group queries yielded rows",
        audits: Audits { groupq: true, ..N },
    },
    Profile {
        id: "C06",
        kinds: &[Diff],
        weights: W_DIFF,
        need: &["group made", "group join", "state compared", "query rows"],
        rule: "one random history executed in a world with groups and in one without, every answer and the full state compared; non-trivial if groups were made and joined and queries yielded rows",
        audits: N,
    },
    Profile {
        id: "C07",
        kinds: &[Layout, Panic],
        weights: W_LAYOUT,
        need: &["group made", "group join", "group leave", "layout members"],
        rule: "a random history with overlapping groups, storage order compared with membership after each operation; non-trivial if entities joined and left and members were located",
        audits: Audits { layout: true, ..N },
    },
    Profile {
        id: "C08",
        kinds: &[MakeGroup, Read, Query, GroupQ, Layout, Ids, Held, Panic],
        weights: W_MAKE,
        need: &["group made", "group refused"],
        rule: "a random history with many group creations of every kind, compatible and not; non-trivial if some were accepted and some refused",
        audits: Audits { ids: true, read: true, query: true, groupq: true, layout: true, ..N },
    },
    Profile {
        id: "C09",
        kinds: &[Refusal, Read, Query, GroupQ, Layout, Ids, Drops, Held, Res, Panic],
        weights: W_MISUSE,
        need: &["refused call", "absent read"],
        rule: "a random history with misuse of every kind, full state compared after each refusal; non-trivial if calls were refused and absent things read",
        audits: Audits::ALL,
    },
    Profile {
        id: "C10",
        kinds: &[Drops, Panic],
        weights: W_DROPS,
        need: &["overwrite", "detach", "remove with components", "drop census", "resource replaced"],
        rule: "a random history over tracked values, census of live values after every operation and at world drop; non-trivial if it overwrote, detached, removed and replaced a resource",
        audits: Audits { drops: true, ..N },
    },
    Profile {
        id: "C11",
        kinds: &[Res, Panic],
        weights: W_RES,
        need: &["resource stored", "resource written", "resource formatted", "resource replaced"],
        rule: "a random history of resource operations over six types; non-trivial if it registered, replaced, wrote and formatted",
        audits: Audits { res: true, ..N },
    },
    Profile {
        id: "C16",
        kinds: &[Mem],
        weights: W_MEM,
        need: &["attach", "overwrite", "detach", "remove", "query rows", "write"],
        rule: "a random history of all operations under an undefined-behaviour interpreter or the address sanitizer; non-trivial if it attached, overwrote, detached, removed, wrote and had queries yield rows",
        audits: Audits { ids: true, ..N },
    },
    Profile {
        id: "C18",
        kinds: &[Read, Query, GroupQ, Res, Panic],
        weights: W_WRITE,
        need: &["write", "storage write", "slice write", "query write"],
        rule: "a random history weighted towards writes through every mutable path, all values compared afterwards; non-trivial if it wrote by entity, by storage, by slice and by query",
        audits: Audits { read: true, query: true, groupq: true, res: true, ..N },
    },
    Profile {
        id: "C19",
        kinds: &[Read, Query, GroupQ, Layout, Ids, Refusal, Panic],
        weights: W_BATCH,
        need: &["batch", "batch entities", "batch into group components"],
        rule: "a random history weighted towards batches of 0 to thousands with repeated component types; non-trivial if a batch brought components that groups cover",
        audits: Audits { ids: true, read: true, query: true, groupq: true, layout: true, ..N },
    },
    Profile {
        id: "C20",
        kinds: &[Proto, Query, GroupQ, Panic],
        weights: W_PROTO,
        need: &["query rows", "group rows", "lookups by id"],
        rule: "a random history with many queries stepped by next, next_with_id, with_id, nth, lookups by id and size hints in random interleaving; non-trivial if queries and group queries yielded rows and lookups were made",
        audits: N,
    },
];
pub fn profile(id: &str) -> Option<&'static Profile> {
    PROFILES.iter().find(|p| p.id == id)
}
pub fn relevant(p: &Profile, k: Kind) -> bool {
    p.kinds.contains(&k)
}
