//! The library's per-type entry points behind function tables, so that the engines are not generic.
use crate::comps::*;
use crate::model::{GKind, Grp, Val};
use crate::query::put;
use crate::with_gcomp;
use xecs::group::{full_owning, non_owning, partial_owning, Group};
use xecs::*;

pub fn val<T: Comp>(c: &T) -> Val {
    Val { tok: c.tok(), serial: c.serial().unwrap_or(0) }
}
pub type Change<'f> = &'f mut dyn FnMut(usize, Val) -> Option<(u64, bool)>;
/// A guard of one value.
pub trait Guard {
    fn val(&self) -> Val;
    /// write; gives the value now stored
    fn put(&mut self, tok: u64, replace: bool) -> Val;
}
/// A guard of one storage.
pub trait Stor {
    fn exist(&self, id: EntityId) -> bool;
    fn get(&self, id: EntityId) -> Option<Val>;
    /// id must be stored
    fn get_unchecked(&self, id: EntityId) -> Val;
    fn count(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn data(&self) -> Vec<Val>;
    /// (before, after)
    fn get_mut(&mut self, id: EntityId, unchecked: bool, f: Change) -> Option<(Val, Option<Val>)>;
    /// of everything changed: (before, after)
    fn data_mut(&mut self, f: Change) -> Vec<(Val, Val)>;
}
pub struct CompOps {
    pub register: fn(&mut World),
    pub registered: fn(&World) -> bool,
    pub attach: for<'a> fn(Entity<'a>, u64) -> (Entity<'a>, Val),
    pub attach_world: fn(&World, EntityId, u64) -> Val,
    pub batch: for<'a> fn(Entities<'a>, &[u64], bool) -> (Entities<'a>, Vec<Val>),
    pub detach: fn(&Entity<'_>) -> Option<Val>,
    pub detach_world: fn(&World, EntityId) -> Option<Val>,
    pub read: for<'a> fn(&'a World, EntityId) -> Option<Box<dyn Guard + 'a>>,
    pub write: for<'a> fn(&'a World, EntityId) -> Option<Box<dyn Guard + 'a>>,
    pub hread: for<'b> fn(&'b Entity<'_>) -> Option<Box<dyn Guard + 'b>>,
    pub hwrite: for<'b> fn(&'b Entity<'_>) -> Option<Box<dyn Guard + 'b>>,
    pub storage_read: for<'a> fn(&'a World) -> Option<Box<dyn Stor + 'a>>,
    pub storage_write: for<'a> fn(&'a World) -> Option<Box<dyn Stor + 'a>>,
}
impl<'a, T: Comp> Guard for ComponentRead<'a, T> {
    fn val(&self) -> Val {
        val::<T>(self)
    }
    fn put(&mut self, _: u64, _: bool) -> Val {
        unreachable!()
    }
}
impl<'a, T: Comp> Guard for ComponentWrite<'a, T> {
    fn val(&self) -> Val {
        val::<T>(self)
    }
    fn put(&mut self, tok: u64, replace: bool) -> Val {
        put::<T>(self, tok, replace);
        val::<T>(self)
    }
}
impl<'a, T: Comp> Stor for StorageRead<'a, T> {
    fn exist(&self, id: EntityId) -> bool {
        StorageRead::exist(self, id)
    }
    fn get(&self, id: EntityId) -> Option<Val> {
        StorageRead::get(self, id).map(val::<T>)
    }
    fn get_unchecked(&self, id: EntityId) -> Val {
        val::<T>(unsafe { StorageRead::get_unchecked(self, id) })
    }
    fn count(&self) -> usize {
        StorageRead::count(self)
    }
    fn is_empty(&self) -> bool {
        StorageRead::is_empty(self)
    }
    fn data(&self) -> Vec<Val> {
        StorageRead::data(self).iter().map(val::<T>).collect()
    }
    fn get_mut(&mut self, _: EntityId, _: bool, _: Change) -> Option<(Val, Option<Val>)> {
        unreachable!()
    }
    fn data_mut(&mut self, _: Change) -> Vec<(Val, Val)> {
        unreachable!()
    }
}
impl<'a, T: Comp> Stor for StorageWrite<'a, T> {
    fn exist(&self, id: EntityId) -> bool {
        StorageWrite::exist(self, id)
    }
    fn get(&self, id: EntityId) -> Option<Val> {
        StorageWrite::get(self, id).map(val::<T>)
    }
    fn get_unchecked(&self, id: EntityId) -> Val {
        val::<T>(unsafe { StorageWrite::get_unchecked(self, id) })
    }
    fn count(&self) -> usize {
        StorageWrite::count(self)
    }
    fn is_empty(&self) -> bool {
        StorageWrite::is_empty(self)
    }
    fn data(&self) -> Vec<Val> {
        StorageWrite::data(self).iter().map(val::<T>).collect()
    }
    fn get_mut(&mut self, id: EntityId, unchecked: bool, f: Change) -> Option<(Val, Option<Val>)> {
        let x: Option<&mut T> = if unchecked {
            Some(unsafe { StorageWrite::get_unchecked_mut(self, id) })
        } else {
            StorageWrite::get_mut(self, id)
        };
        x.map(|c| {
            let old = val::<T>(c);
            let now = f(0, old).map(|(tok, replace)| {
                put::<T>(c, tok, replace);
                val::<T>(c)
            });
            (old, now)
        })
    }
    fn data_mut(&mut self, f: Change) -> Vec<(Val, Val)> {
        let n = StorageWrite::count(self);
        let d = StorageWrite::data_mut(self);
        assert_eq!(n, d.len(), "data_mut() has another length than count()");
        let mut done = vec![];
        for (i, c) in d.iter_mut().enumerate() {
            let old = val::<T>(c);
            if let Some((tok, replace)) = f(i, old) {
                put::<T>(c, tok, replace);
                done.push((old, val::<T>(c)));
            }
        }
        done
    }
}
fn register<T: Comp>(w: &mut World) {
    w.register::<T>();
}
fn registered<T: Comp>(w: &World) -> bool {
    w.has_registered::<T>()
}
fn attach<'a, T: Comp>(e: Entity<'a>, tok: u64) -> (Entity<'a>, Val) {
    let c = T::make(tok);
    let v = val::<T>(&c);
    (e.attach(c), v)
}
fn attach_world<T: Comp>(w: &World, id: EntityId, tok: u64) -> Val {
    let c = T::make(tok);
    let v = val::<T>(&c);
    w.attach_component(id, c);
    v
}
fn batch<'a, T: Comp>(e: Entities<'a>, toks: &[u64], boxed: bool) -> (Entities<'a>, Vec<Val>) {
    let mut v: Vec<T> = Vec::with_capacity(toks.len() + (toks.len() % 3));
    let mut vs = vec![];
    for t in toks {
        let c = T::make(*t);
        vs.push(val::<T>(&c));
        v.push(c);
    }
    let e = if boxed { e.attach::<T, Box<[T]>>(v.into_boxed_slice()) } else { e.attach::<T, Vec<T>>(v) };
    (e, vs)
}
fn batch_slice<'a, T: Comp + Clone>(e: Entities<'a>, toks: &[u64], slice: bool) -> (Entities<'a>, Vec<Val>) {
    let v: Vec<T> = toks.iter().map(|t| T::make(*t)).collect();
    let vs = v.iter().map(val::<T>).collect();
    (if slice { e.attach::<T, &[T]>(v.as_slice()) } else { e.attach::<T, Vec<T>>(v) }, vs)
}
fn detach<T: Comp>(e: &Entity<'_>) -> Option<Val> {
    e.detach::<T>().map(|v| val::<T>(&v))
}
fn detach_world<T: Comp>(w: &World, id: EntityId) -> Option<Val> {
    w.detach_component::<T>(id).map(|v| val::<T>(&v))
}
fn read<'a, T: Comp>(w: &'a World, id: EntityId) -> Option<Box<dyn Guard + 'a>> {
    w.entity_component_read::<T>(id).map(|g| Box::new(g) as _)
}
fn write<'a, T: Comp>(w: &'a World, id: EntityId) -> Option<Box<dyn Guard + 'a>> {
    w.entity_component_write::<T>(id).map(|g| Box::new(g) as _)
}
fn hread<'b, T: Comp>(e: &'b Entity<'_>) -> Option<Box<dyn Guard + 'b>> {
    e.component_read::<T>().map(|g| Box::new(g) as _)
}
fn hwrite<'b, T: Comp>(e: &'b Entity<'_>) -> Option<Box<dyn Guard + 'b>> {
    e.component_write::<T>().map(|g| Box::new(g) as _)
}
fn storage_read<'a, T: Comp>(w: &'a World) -> Option<Box<dyn Stor + 'a>> {
    w.components_read::<T>().map(|g| Box::new(g) as _)
}
fn storage_write<'a, T: Comp>(w: &'a World) -> Option<Box<dyn Stor + 'a>> {
    w.components_write::<T>().map(|g| Box::new(g) as _)
}
const fn ops<T: Comp>() -> CompOps {
    CompOps {
        register: register::<T>,
        registered: registered::<T>,
        attach: attach::<T>,
        attach_world: attach_world::<T>,
        batch: batch::<T>,
        detach: detach::<T>,
        detach_world: detach_world::<T>,
        read: read::<T>,
        write: write::<T>,
        hread: hread::<T>,
        hwrite: hwrite::<T>,
        storage_read: storage_read::<T>,
        storage_write: storage_write::<T>,
    }
}
const fn slices<T: Comp + Clone>() -> CompOps {
    let mut o = ops::<T>();
    o.batch = batch_slice::<T>;
    o
}
pub static OPS: [CompOps; NK] =
    [ops::<A>(), ops::<B>(), slices::<C>(), slices::<D>(), ops::<Z>(), ops::<G>(), slices::<S>(), ops::<V>()];

pub trait RGuard: std::fmt::Debug + std::fmt::Display {
    fn val(&self) -> Val;
    fn put(&mut self, tok: u64, replace: bool) -> Val;
    /// how the value itself is formatted: display, debug, padded display
    fn plain(&self) -> (String, String, String);
}
fn rval<T: Res>(c: &T) -> Val {
    Val { tok: c.tok(), serial: c.serial().unwrap_or(0) }
}
impl<'a, T: Res> RGuard for ResourceRead<'a, T> {
    fn val(&self) -> Val {
        rval::<T>(self)
    }
    fn put(&mut self, _: u64, _: bool) -> Val {
        unreachable!()
    }
    fn plain(&self) -> (String, String, String) {
        let x: &T = self;
        (format!("{x}"), format!("{x:?}"), format!("{x:>9}"))
    }
}
impl<'a, T: Res> RGuard for ResourceWrite<'a, T> {
    fn val(&self) -> Val {
        rval::<T>(self)
    }
    fn put(&mut self, tok: u64, replace: bool) -> Val {
        if replace {
            **self = T::make(tok)
        } else {
            self.set(tok)
        }
        rval::<T>(self)
    }
    fn plain(&self) -> (String, String, String) {
        let x: &T = self;
        (format!("{x}"), format!("{x:?}"), format!("{x:>9}"))
    }
}
pub struct ResOps {
    pub register: fn(&mut World, u64) -> Val,
    pub read: for<'a> fn(&'a World) -> Option<Box<dyn RGuard + 'a>>,
    pub write: for<'a> fn(&'a World) -> Option<Box<dyn RGuard + 'a>>,
}
fn rreg<T: Res>(w: &mut World, tok: u64) -> Val {
    let x = T::make(tok);
    let v = rval::<T>(&x);
    w.register_resource(x);
    v
}
fn rread<'a, T: Res>(w: &'a World) -> Option<Box<dyn RGuard + 'a>> {
    w.resource_read::<T>().map(|g| Box::new(g) as _)
}
fn rwrite<'a, T: Res>(w: &'a World) -> Option<Box<dyn RGuard + 'a>> {
    w.resource_write::<T>().map(|g| Box::new(g) as _)
}
const fn rops<T: Res>() -> ResOps {
    ResOps { register: rreg::<T>, read: rread::<T>, write: rwrite::<T> }
}
/// two types which only their `TypeId` tells apart: same name, same path, same layout
const fn twins() -> (ResOps, ResOps) {
    (
        {
            crate::plain_res!(Twin, 6, u64);
            rops::<Twin>()
        },
        {
            crate::plain_res!(Twin, 7, u64);
            rops::<Twin>()
        },
    )
}
pub static RES: [ResOps; NR] =
    [rops::<R0>(), rops::<R1>(), rops::<R2>(), rops::<R3>(), rops::<R4>(), rops::<R5>(), twins().0, twins().1];

/// A group description; Copy, as make_group demands (the crate's own are only for Copy components).
#[derive(Clone, Copy)]
struct Dyn(Grp);
impl From<Dyn> for Group {
    fn from(d: Dyn) -> Group {
        let g = d.0;
        with_gcomp!(g.a, X => with_gcomp!(g.b, Y => match g.kind {
            GKind::Full => full_owning::<X, Y>().into(),
            GKind::Partial => partial_owning::<X, Y>().into(),
            GKind::Non => non_owning::<X, Y>().into(),
        }))
    }
}
pub fn make_group(w: &mut World, g: Grp) {
    // the direct way where it is possible
    match (g.kind, g.a, g.b) {
        (GKind::Full, 2, 4) => w.make_group(full_owning::<C, Z>()),
        (GKind::Partial, 2, 4) => w.make_group(partial_owning::<C, Z>()),
        (GKind::Non, 2, 4) => w.make_group(non_owning::<C, Z>()),
        _ => w.make_group(Dyn(g)),
    }
}
