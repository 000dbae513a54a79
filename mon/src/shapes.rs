//! The table of query shapes.
include!("shapes_gen.rs");
use moncore::comps::NK;
use moncore::model::{Expr, Grp, Model};
use moncore::query::Entry;
use std::sync::OnceLock;

pub fn shape(i: usize) -> &'static Entry {
    &PARTS[i % PARTS.len()][i / PARTS.len()]
}
/// What a shape is, computed once.
pub struct Meta {
    pub expr: Expr,
    pub comps: u32,
    pub groups: Vec<Grp>,
}
pub fn meta(i: usize) -> &'static Meta {
    static M: [OnceLock<Meta>; NSHAPES] = [const { OnceLock::new() }; NSHAPES];
    M[i].get_or_init(|| {
        let expr = (shape(i).desc)();
        let mut c = vec![];
        expr.comps(&mut c);
        let mut groups = vec![];
        expr.groups(&mut groups);
        Meta { comps: c.iter().fold(0, |m, k| m | 1 << k), groups, expr }
    })
}
pub fn openable(m: &Model, i: usize) -> bool {
    let x = meta(i);
    (0..NK).all(|k| x.comps >> k & 1 == 0 || m.reg[k]) && x.groups.iter().all(|g| m.groups.contains(g))
}
/// Index of the shape querying group g with this access; None if not in the table.
pub fn group_shape(g: Grp, ma: bool, mb: bool) -> Option<usize> {
    (NSINGLE..NGROUP).find(|i| matches!(meta(*i).expr, Expr::Group { g: h, ma: x, mb: y } if h == g && ma == x && mb == y))
}
pub fn single_shape(k: usize, m: bool) -> usize {
    k * 2 + m as usize
}
