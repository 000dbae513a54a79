//! Query shapes: one erased interface over every query type, so that oracles are written once.
use crate::comps::*;
use crate::model::{Expr, GKind, Grp};
use xecs::group::{FullOwning, NonOwning, PartialOwning};
use xecs::query::{QueryIterator, Queryable, WithId, Without};
use xecs::{EntityId, World};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Obs {
    pub k: usize,
    pub tok: u64,
    pub serial: u64,
    pub addr: usize,
}
/// Decides from component and current token what is written to a mutable leaf: None leaves it, Some((tok, replace)).
pub type Writer<'w> = &'w mut dyn FnMut(usize, u64) -> Option<(u64, bool)>;

pub fn obs<T: Comp>(x: &T) -> Obs {
    Obs { k: T::K, tok: x.tok(), serial: x.serial().unwrap_or(0), addr: x as *const T as usize }
}
/// returns serial after the write
pub fn put<T: Comp>(x: &mut T, tok: u64, replace: bool) -> u64 {
    if replace {
        *x = T::make(tok)
    } else {
        x.set(tok)
    }
    x.serial().unwrap_or(0)
}

pub trait Shape<'a>: Queryable<'a> {
    fn desc() -> Expr;
    fn observe(item: &Self::Item, out: &mut Vec<Obs>);
    /// (leaf index in item, component, token, serial) of everything written
    fn write(item: &mut Self::Item, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>);
}
impl<'a, T: Comp> Shape<'a> for &'a T {
    fn desc() -> Expr {
        Expr::Leaf { k: T::K, mutable: false }
    }
    fn observe(item: &Self::Item, out: &mut Vec<Obs>) {
        out.push(obs::<T>(item))
    }
    fn write(_: &mut Self::Item, leaf: &mut usize, _: Writer, _: &mut Vec<(usize, usize, u64, u64)>) {
        *leaf += 1
    }
}
fn write_leaf<T: Comp>(x: &mut T, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>) {
    if let Some((tok, replace)) = w(T::K, x.tok()) {
        let s = put(x, tok, replace);
        done.push((*leaf, T::K, mask(T::K, tok), s));
    }
    *leaf += 1
}
impl<'a, T: Comp> Shape<'a> for &'a mut T {
    fn desc() -> Expr {
        Expr::Leaf { k: T::K, mutable: true }
    }
    fn observe(item: &Self::Item, out: &mut Vec<Obs>) {
        out.push(obs::<T>(item))
    }
    fn write(item: &mut Self::Item, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>) {
        write_leaf::<T>(item, leaf, w, done)
    }
}
macro_rules! tuple_shape {
    ($($T:ident $i:tt),*) => {
        impl<'a, $($T: Shape<'a> + 'a),*> Shape<'a> for ($($T,)*) {
            fn desc() -> Expr {
                Expr::Tup(vec![$($T::desc()),*])
            }
            fn observe(item: &Self::Item, out: &mut Vec<Obs>) {
                $($T::observe(&item.$i, out);)*
            }
            fn write(item: &mut Self::Item, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>) {
                $($T::write(&mut item.$i, leaf, &mut *w, done);)*
            }
        }
    };
}
tuple_shape!(X 0, Y 1);
tuple_shape!(X 0, Y 1, U 2);
tuple_shape!(X 0, Y 1, U 2, W 3);
tuple_shape!(X 0, Y 1, U 2, W 3, Q 4);
impl<'a, X: Shape<'a> + 'a, Y: Shape<'a> + 'a> Shape<'a> for (Without<X>, Y) {
    fn desc() -> Expr {
        Expr::WoLeft(Box::new(X::desc()), Box::new(Y::desc()))
    }
    fn observe(item: &Self::Item, out: &mut Vec<Obs>) {
        Y::observe(item, out)
    }
    fn write(item: &mut Self::Item, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>) {
        Y::write(item, leaf, w, done)
    }
}
impl<'a, X: Shape<'a> + 'a, Y: Shape<'a> + 'a> Shape<'a> for (X, Without<Y>) {
    fn desc() -> Expr {
        Expr::WoRight(Box::new(X::desc()), Box::new(Y::desc()))
    }
    fn observe(item: &Self::Item, out: &mut Vec<Obs>) {
        X::observe(item, out)
    }
    fn write(item: &mut Self::Item, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>) {
        X::write(item, leaf, w, done)
    }
}
macro_rules! group_shape {
    ($G:ident, $kind:expr, ($ta:ty, $ma:expr), ($tb:ty, $mb:expr)) => {
        impl<'a, X: Comp, Y: Comp> Shape<'a> for $G<$ta, $tb> {
            fn desc() -> Expr {
                Expr::Group { g: Grp { kind: $kind, a: X::K, b: Y::K }, ma: $ma, mb: $mb }
            }
            fn observe(item: &Self::Item, out: &mut Vec<Obs>) {
                out.push(obs::<X>(&item.0));
                out.push(obs::<Y>(&item.1));
            }
            #[allow(unused_variables)]
            fn write(item: &mut Self::Item, leaf: &mut usize, w: Writer, done: &mut Vec<(usize, usize, u64, u64)>) {
                <$ta as Shape<'a>>::write(&mut item.0, leaf, &mut *w, done);
                <$tb as Shape<'a>>::write(&mut item.1, leaf, w, done);
            }
        }
    };
}
macro_rules! group_shapes {
    ($G:ident, $kind:expr) => {
        group_shape!($G, $kind, (&'a X, false), (&'a Y, false));
        group_shape!($G, $kind, (&'a X, false), (&'a mut Y, true));
        group_shape!($G, $kind, (&'a mut X, true), (&'a Y, false));
        group_shape!($G, $kind, (&'a mut X, true), (&'a mut Y, true));
    };
}
group_shapes!(FullOwning, GKind::Full);
group_shapes!(PartialOwning, GKind::Partial);
group_shapes!(NonOwning, GKind::Non);

/// One step's result: leaves seen before writing, and what was written.
#[derive(Default, Clone, Debug)]
pub struct Row {
    pub id: Option<usize>,
    pub obs: Vec<Obs>,
    pub wrote: Vec<(usize, usize, u64, u64)>,
}
pub trait DynQ {
    fn next(&mut self, w: Writer) -> Option<Row>;
    fn next_id(&mut self, w: Writer) -> Option<Row>;
    fn from_id(&mut self, id: EntityId, w: Writer) -> Option<Row>;
    fn nth(&mut self, n: usize, w: Writer) -> Option<Row>;
    fn hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Row>;
    /// std adaptor consuming everything; rows in order, no writes
    fn fold_all(self: Box<Self>, cap: usize) -> Vec<Row>;
    /// collect all items first, then look at (and write to) them
    fn collect_all(self: Box<Self>, cap: usize, w: Writer) -> Vec<Row>;
    fn via_with_id<'b>(self: Box<Self>) -> Box<dyn DynIdQ + 'b>
    where
        Self: 'b;
}
/// the `with_id()` adaptor
pub trait DynIdQ {
    fn next(&mut self, w: Writer) -> Option<Row>;
    fn nth(&mut self, n: usize, w: Writer) -> Option<Row>;
    fn hint(&self) -> (usize, Option<usize>);
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Row>;
    fn fold_all(self: Box<Self>, cap: usize, w: Writer) -> Vec<Row>;
    fn collect_all(self: Box<Self>, cap: usize, w: Writer) -> Vec<Row>;
}
pub struct Q<'a, S: Shape<'a>> {
    it: Box<dyn QueryIterator<Item = <S as Queryable<'a>>::Item> + 'a>,
}
pub struct IQ<I>(I);
fn row<'a, S: Shape<'a>>(id: Option<usize>, mut item: S::Item, w: Writer) -> Row {
    let mut r = Row { id, ..Default::default() };
    S::observe(&item, &mut r.obs);
    S::write(&mut item, &mut 0, w, &mut r.wrote);
    r
}
impl<'a, S: Shape<'a> + 'a> DynQ for Q<'a, S>
where
    S::Item: 'a,
{
    fn next(&mut self, w: Writer) -> Option<Row> {
        self.it.next().map(|i| row::<S>(None, i, w))
    }
    fn next_id(&mut self, w: Writer) -> Option<Row> {
        self.it.next_with_id().map(|(id, i)| row::<S>(Some(id.get()), i, w))
    }
    fn from_id(&mut self, id: EntityId, w: Writer) -> Option<Row> {
        self.it.from_id(id).map(|i| row::<S>(Some(id.get()), i, w))
    }
    fn nth(&mut self, n: usize, w: Writer) -> Option<Row> {
        self.it.nth(n).map(|i| row::<S>(None, i, w))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<Row> {
        self.it.last().map(|i| row::<S>(None, i, &mut |_, _| None))
    }
    fn fold_all(self: Box<Self>, cap: usize) -> Vec<Row> {
        let mut v = vec![];
        self.it.take(cap).for_each(|i| v.push(row::<S>(None, i, &mut |_, _| None)));
        v
    }
    fn collect_all(self: Box<Self>, cap: usize, w: Writer) -> Vec<Row> {
        let mut it = self.it;
        let items: Vec<_> = it.by_ref().take(cap).collect();
        items.into_iter().map(|i| row::<S>(None, i, &mut *w)).collect()
    }
    fn via_with_id<'b>(self: Box<Self>) -> Box<dyn DynIdQ + 'b>
    where
        Self: 'b,
    {
        Box::new(Id::<'a, S> { it: self.it.with_id() })
    }
}
pub struct Id<'a, S: Shape<'a>> {
    it: xecs_id::IdIter<Box<dyn QueryIterator<Item = <S as Queryable<'a>>::Item> + 'a>>,
}
mod xecs_id {
    pub use xecs::query::IdIter;
}
impl<'a, S: Shape<'a> + 'a> DynIdQ for Id<'a, S> {
    fn next(&mut self, w: Writer) -> Option<Row> {
        self.it.next().map(|(id, i)| row::<S>(Some(id.get()), i, w))
    }
    fn nth(&mut self, n: usize, w: Writer) -> Option<Row> {
        self.it.nth(n).map(|(id, i)| row::<S>(Some(id.get()), i, w))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<Row> {
        self.it.last().map(|(id, i)| row::<S>(Some(id.get()), i, &mut |_, _| None))
    }
    fn fold_all(self: Box<Self>, cap: usize, w: Writer) -> Vec<Row> {
        self.it.fold(vec![], |mut v, (id, i)| {
            assert!(v.len() < cap, "with_id().fold() does not come to an end");
            v.push(row::<S>(Some(id.get()), i, &mut *w));
            v
        })
    }
    fn collect_all(self: Box<Self>, cap: usize, w: Writer) -> Vec<Row> {
        let mut it = self.it;
        let items: Vec<_> = it.by_ref().take(cap).collect();
        items.into_iter().map(|(id, i)| row::<S>(Some(id.get()), i, &mut *w)).collect()
    }
}
pub fn open<'a, S: Shape<'a> + 'a>(w: &'a World) -> Box<dyn DynQ + 'a>
where
    S::Item: 'a,
{
    Box::new(Q::<'a, S> { it: w.query::<S>() })
}

pub struct Entry {
    pub name: &'static str,
    pub desc: fn() -> Expr,
    pub open: for<'a> fn(&'a World) -> Box<dyn DynQ + 'a>,
}
#[macro_export]
macro_rules! shapes {
    ($($t:ty;)*) => {
        pub static SHAPES: &[$crate::query::Entry] = &[$({
            fn d<'a>() -> $crate::model::Expr { <$t as $crate::query::Shape<'a>>::desc() }
            fn o<'a>(w: &'a $crate::xecs::World) -> Box<dyn $crate::query::DynQ + 'a> { $crate::query::open::<$t>(w) }
            $crate::query::Entry { name: stringify!($t), desc: d, open: o }
        }),*];
    };
}
