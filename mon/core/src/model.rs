//! What the world must look like: plain sequential reference, written from the properties.
use crate::comps::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Val {
    pub tok: u64,
    pub serial: u64, // 0: not tracked
}
pub type Ent = [Option<Val>; NK];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum GKind {
    Full,
    Partial,
    Non,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Grp {
    pub kind: GKind,
    pub a: usize,
    pub b: usize,
}
impl Grp {
    pub fn owned(&self) -> Vec<usize> {
        match self.kind {
            GKind::Full => vec![self.a, self.b],
            GKind::Partial => vec![self.a],
            GKind::Non => vec![],
        }
    }
    pub fn name(&self) -> String {
        format!("{:?}<{},{}>", self.kind, NAMES[self.a], NAMES[self.b])
    }
}

/// A query shape, as data.
#[derive(Clone, Debug)]
pub enum Expr {
    Leaf { k: usize, mutable: bool },
    Tup(Vec<Expr>),
    /// (Without<0>, 1)
    WoLeft(Box<Expr>, Box<Expr>),
    /// (0, Without<1>)
    WoRight(Box<Expr>, Box<Expr>),
    Group { g: Grp, ma: bool, mb: bool },
}
impl Expr {
    /// leaves that appear in the item: (component, mutable)
    pub fn leaves(&self, out: &mut Vec<(usize, bool)>) {
        match self {
            Expr::Leaf { k, mutable } => out.push((*k, *mutable)),
            Expr::Tup(v) => v.iter().for_each(|e| e.leaves(out)),
            Expr::WoLeft(_, y) => y.leaves(out),
            Expr::WoRight(x, _) => x.leaves(out),
            Expr::Group { g, ma, mb } => {
                out.push((g.a, *ma));
                out.push((g.b, *mb))
            }
        }
    }
    pub fn comps(&self, out: &mut Vec<usize>) {
        match self {
            Expr::Leaf { k, .. } => out.push(*k),
            Expr::Tup(v) => v.iter().for_each(|e| e.comps(out)),
            Expr::WoLeft(x, y) | Expr::WoRight(x, y) => {
                x.comps(out);
                y.comps(out)
            }
            Expr::Group { g, .. } => {
                out.push(g.a);
                out.push(g.b)
            }
        }
    }
    pub fn groups(&self, out: &mut Vec<Grp>) {
        match self {
            Expr::Leaf { .. } => {}
            Expr::Tup(v) => v.iter().for_each(|e| e.groups(out)),
            Expr::WoLeft(x, y) | Expr::WoRight(x, y) => {
                x.groups(out);
                y.groups(out)
            }
            Expr::Group { g, .. } => out.push(*g),
        }
    }
    pub fn matches(&self, e: &Ent) -> bool {
        match self {
            Expr::Leaf { k, .. } => e[*k].is_some(),
            Expr::Tup(v) => v.iter().all(|x| x.matches(e)),
            Expr::WoLeft(x, y) => !x.matches(e) && y.matches(e),
            Expr::WoRight(x, y) => x.matches(e) && !y.matches(e),
            Expr::Group { g, .. } => e[g.a].is_some() && e[g.b].is_some(),
        }
    }
    /// size hints must be exact
    pub fn exact(&self) -> bool {
        matches!(self, Expr::Leaf { .. } | Expr::Group { .. })
    }
}

#[derive(Clone, Default)]
pub struct Model {
    /// indexed by id; None: not alive
    pub ents: Vec<Option<Ent>>,
    pub live: Vec<usize>,
    pub freed: BTreeSet<usize>,
    pub reg: [bool; NK],
    pub groups: Vec<Grp>,
    pub res: [Option<Val>; NR],
    /// tracked values that must be alive now
    pub tracked: i64,
    pub gcount: i64,
}
impl Model {
    pub fn new() -> Self {
        Model { ents: vec![None], ..Default::default() }
    }
    pub fn next_id(&self) -> usize {
        self.ents.len()
    }
    pub fn alive(&self, id: usize) -> bool {
        self.ents.get(id).map_or(false, |e| e.is_some())
    }
    pub fn get(&self, id: usize, k: usize) -> Option<Val> {
        self.ents.get(id).and_then(|e| e.as_ref()).and_then(|e| e[k])
    }
    pub fn create(&mut self, id: usize) {
        while self.ents.len() <= id {
            self.ents.push(None);
        }
        self.ents[id] = Some([None; NK]);
        self.freed.remove(&id);
        self.live.push(id);
    }
    fn count(&mut self, k: usize, d: i64) {
        if is_tracked(k) {
            self.tracked += d
        }
        if k == 5 {
            self.gcount += d
        }
    }
    pub fn put(&mut self, id: usize, k: usize, v: Val) -> Option<Val> {
        let old = self.ents[id].as_mut().unwrap()[k].replace(v);
        if old.is_none() {
            self.count(k, 1);
        }
        old
    }
    pub fn take(&mut self, id: usize, k: usize) -> Option<Val> {
        let old = self.ents[id].as_mut().unwrap()[k].take();
        if old.is_some() {
            self.count(k, -1);
        }
        old
    }
    pub fn remove(&mut self, id: usize) -> Ent {
        let e = self.ents[id].take().unwrap();
        for k in 0..NK {
            if e[k].is_some() {
                self.count(k, -1);
            }
        }
        let p = self.live.iter().rposition(|x| *x == id).unwrap();
        self.live.swap_remove(p);
        self.freed.insert(id);
        e
    }
    pub fn with_comp(&self, k: usize) -> impl Iterator<Item = (usize, Val)> + '_ {
        self.ents.iter().enumerate().filter_map(move |(id, e)| e.as_ref().and_then(|e| e[k]).map(|v| (id, v)))
    }
    pub fn matching<'a>(&'a self, x: &'a Expr) -> impl Iterator<Item = (usize, &'a Ent)> + 'a {
        self.ents.iter().enumerate().filter_map(move |(id, e)| match e {
            Some(e) if x.matches(e) => Some((id, e)),
            _ => None,
        })
    }
    pub fn accepts(&self, g: Grp) -> bool {
        self.reg[g.a]
            && self.reg[g.b]
            && !(g.a == g.b && g.kind != GKind::Non)
            && !self.groups.contains(&g)
            && !g.owned().iter().any(|k| self.groups.iter().any(|h| h.owned().contains(k)))
    }
    pub fn openable(&self, x: &Expr) -> bool {
        let mut c = vec![];
        x.comps(&mut c);
        let mut g = vec![];
        x.groups(&mut g);
        c.iter().all(|k| self.reg[*k]) && g.iter().all(|g| self.groups.contains(g))
    }
}
