//! Component and resource types used by the workloads. Values carry a token (what the model predicts), an
//! internal consistency check (torn or foreign memory shows), and where they are not plain data a serial number
//! whose creation and drop are events.
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use xecs::Component;

pub const NK: usize = 8;
/// components 0..NG may take part in groups
pub const NG: usize = 6;
pub const NAMES: [&str; NK] = ["A", "B", "C", "D", "Z", "G", "S", "V"];
/// token read from a value whose internal check failed
pub const BAD: u64 = 0xBAD0_BAD0_BAD0_BAD0;

#[derive(Default)]
pub struct Reg {
    pub alive: Option<HashMap<u64, ()>>,
    pub next: u64,
    pub drops: u64,
    pub errors: Vec<String>,
}
pub static REG: Mutex<Reg> = Mutex::new(Reg { alive: None, next: 1, drops: 0, errors: Vec::new() });
pub static G_ALIVE: AtomicI64 = AtomicI64::new(0);
pub static G_DROPS: AtomicU64 = AtomicU64::new(0);

pub fn reg() -> std::sync::MutexGuard<'static, Reg> {
    REG.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn reg_reset() {
    let mut r = reg();
    r.alive = Some(HashMap::new());
    r.errors.clear();
    r.drops = 0;
    G_ALIVE.store(0, Ordering::SeqCst);
}

/// a value whose internal check failed was read
pub static CORRUPT: AtomicBool = AtomicBool::new(false);
fn corrupt() -> u64 {
    CORRUPT.store(true, Ordering::Relaxed);
    BAD
}
/// The destructor which brings this to zero panics.
static BOMB: AtomicI64 = AtomicI64::new(0);
pub fn bomb_arm(n: i64) {
    BOMB.store(n, Ordering::Relaxed)
}
/// true if it went off
pub fn bomb_disarm() -> bool {
    BOMB.swap(0, Ordering::Relaxed) < 0
}
fn bomb() {
    if BOMB.load(Ordering::Relaxed) > 0 && BOMB.fetch_sub(1, Ordering::Relaxed) == 1 {
        BOMB.store(if std::thread::panicking() { 1 } else { -1 }, Ordering::Relaxed);
        if !std::thread::panicking() {
            panic!("this destructor panics");
        }
    }
}

/// Under the interpreter a heap cell stands for the census: it reports a second drop, a use after the drop and a leak.
#[cfg(any(miri, feature = "light"))]
#[derive(Debug)]
pub struct Tracker {
    pub serial: u64,
    cell: Box<u64>,
}
#[cfg(any(miri, feature = "light"))]
impl Tracker {
    fn new() -> Self {
        let serial = G_DROPS.fetch_add(1, Ordering::Relaxed) + 1;
        Tracker { serial, cell: Box::new(!serial) }
    }
    fn ok(&self) -> bool {
        *self.cell == !self.serial
    }
}
#[cfg(any(miri, feature = "light"))]
impl Drop for Tracker {
    fn drop(&mut self) {
        if !self.ok() {
            corrupt();
        }
        bomb();
    }
}
#[cfg(not(any(miri, feature = "light")))]
#[derive(Debug)]
pub struct Tracker {
    pub serial: u64,
    check: u64,
}
#[cfg(not(any(miri, feature = "light")))]
impl Tracker {
    fn new() -> Self {
        let mut r = reg();
        let serial = r.next;
        r.next += 1;
        r.alive.get_or_insert_with(HashMap::new).insert(serial, ());
        Tracker { serial, check: !serial }
    }
    fn ok(&self) -> bool {
        self.check == !self.serial
    }
}
#[cfg(not(any(miri, feature = "light")))]
impl Drop for Tracker {
    fn drop(&mut self) {
        let mut r = reg();
        r.drops += 1;
        if !self.ok() {
            r.errors.push(format!("dropped something that is not a value (serial {:#x})", self.serial));
        } else if r.alive.get_or_insert_with(HashMap::new).remove(&self.serial).is_none() {
            let s = self.serial;
            r.errors.push(format!("value #{} dropped twice", s));
        }
        self.check = 0;
        drop(r);
        bomb();
    }
}

pub trait Comp: Component {
    const K: usize;
    /// carries no token
    const ZST: bool = false;
    fn make(tok: u64) -> Self;
    fn tok(&self) -> u64;
    fn set(&mut self, tok: u64);
    fn serial(&self) -> Option<u64> {
        None
    }
}
/// what a token becomes when stored in component k
pub fn mask(k: usize, tok: u64) -> u64 {
    match k {
        2 => tok & 0xffff_ffff,
        4 | 5 => 0,
        6 => tok & 0xffff,
        _ => tok,
    }
}
pub fn is_zst(k: usize) -> bool {
    k == 4 || k == 5
}
pub fn is_tracked(k: usize) -> bool {
    matches!(k, 0 | 1 | 7)
}

pub struct A {
    tok: u64,
    check: u64,
    t: Tracker,
}
impl Comp for A {
    const K: usize = 0;
    fn make(tok: u64) -> Self {
        A { tok, check: !tok, t: Tracker::new() }
    }
    fn tok(&self) -> u64 {
        if self.check == !self.tok && self.t.ok() {
            self.tok
        } else {
            corrupt()
        }
    }
    fn set(&mut self, tok: u64) {
        self.tok = tok;
        self.check = !tok;
    }
    fn serial(&self) -> Option<u64> {
        Some(self.t.serial)
    }
}
pub struct B {
    b: Box<u64>,
    s: String,
    t: Tracker,
}
impl Comp for B {
    const K: usize = 1;
    fn make(tok: u64) -> Self {
        B { b: Box::new(tok), s: tok.to_string(), t: Tracker::new() }
    }
    fn tok(&self) -> u64 {
        if self.t.ok() && self.s.parse() == Ok(*self.b) {
            *self.b
        } else {
            corrupt()
        }
    }
    fn set(&mut self, tok: u64) {
        *self.b = tok;
        self.s = tok.to_string();
    }
    fn serial(&self) -> Option<u64> {
        Some(self.t.serial)
    }
}
#[derive(Clone, Copy)]
pub struct C(pub u32);
impl Comp for C {
    const K: usize = 2;
    fn make(tok: u64) -> Self {
        C(tok as u32)
    }
    fn tok(&self) -> u64 {
        self.0 as u64
    }
    fn set(&mut self, tok: u64) {
        self.0 = tok as u32
    }
}
#[derive(Clone)]
#[repr(align(64))]
pub struct D {
    v: [u64; 9],
}
impl Comp for D {
    const K: usize = 3;
    fn make(tok: u64) -> Self {
        let mut v = [0; 9];
        for (i, x) in v.iter_mut().enumerate() {
            *x = tok ^ i as u64;
        }
        D { v }
    }
    fn tok(&self) -> u64 {
        let tok = self.v[0];
        if self as *const _ as usize % 64 == 0 && (0..9).all(|i| self.v[i] == tok ^ i as u64) {
            tok
        } else {
            corrupt()
        }
    }
    fn set(&mut self, tok: u64) {
        *self = D::make(tok)
    }
}
#[derive(Clone, Copy)]
pub struct Z;
impl Comp for Z {
    const K: usize = 4;
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        Z
    }
    fn tok(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
/// zero-sized, with a counted drop
pub struct G(());
impl Comp for G {
    const K: usize = 5;
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        G_ALIVE.fetch_add(1, Ordering::Relaxed);
        G(())
    }
    fn tok(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
impl Drop for G {
    fn drop(&mut self) {
        G_ALIVE.fetch_sub(1, Ordering::Relaxed);
        G_DROPS.fetch_add(1, Ordering::Relaxed);
        bomb();
    }
}
#[derive(Clone, Copy)]
pub struct S(pub u16);
impl Comp for S {
    const K: usize = 6;
    fn make(tok: u64) -> Self {
        S(tok as u16)
    }
    fn tok(&self) -> u64 {
        self.0 as u64
    }
    fn set(&mut self, tok: u64) {
        self.0 = tok as u16
    }
}
pub struct V {
    v: Vec<u64>,
    t: Tracker,
}
impl Comp for V {
    const K: usize = 7;
    fn make(tok: u64) -> Self {
        V { v: vec![tok; (tok % 5) as usize + 1], t: Tracker::new() }
    }
    fn tok(&self) -> u64 {
        let tok = *self.v.first().unwrap_or(&BAD);
        if self.t.ok() && self.v.len() == (tok % 5) as usize + 1 && self.v.iter().all(|x| *x == tok) {
            tok
        } else {
            corrupt()
        }
    }
    fn set(&mut self, tok: u64) {
        self.v = vec![tok; (tok % 5) as usize + 1];
    }
    fn serial(&self) -> Option<u64> {
        Some(self.t.serial)
    }
}

#[macro_export]
macro_rules! with_comp {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = $crate::comps::A; $e }
            1 => { type $T = $crate::comps::B; $e }
            2 => { type $T = $crate::comps::C; $e }
            3 => { type $T = $crate::comps::D; $e }
            4 => { type $T = $crate::comps::Z; $e }
            5 => { type $T = $crate::comps::G; $e }
            6 => { type $T = $crate::comps::S; $e }
            _ => { type $T = $crate::comps::V; $e }
        }
    };
}
/// component with k < NG
#[macro_export]
macro_rules! with_gcomp {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = $crate::comps::A; $e }
            1 => { type $T = $crate::comps::B; $e }
            2 => { type $T = $crate::comps::C; $e }
            3 => { type $T = $crate::comps::D; $e }
            4 => { type $T = $crate::comps::Z; $e }
            _ => { type $T = $crate::comps::G; $e }
        }
    };
}

// ---------------------------------------------------------------- resources
pub const NR: usize = 8;
pub trait Res: xecs::Resource + std::fmt::Debug + std::fmt::Display {
    const R: usize;
    fn make(tok: u64) -> Self;
    fn tok(&self) -> u64;
    fn set(&mut self, tok: u64);
    fn serial(&self) -> Option<u64> {
        None
    }
}
#[macro_export]
macro_rules! plain_res {
    ($n:ident, $r:expr, $t:ty) => {
        #[derive(Debug)]
        pub struct $n(pub $t);
        impl std::fmt::Display for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}<{}>", stringify!($n), self.0)
            }
        }
        impl $crate::comps::Res for $n {
            const R: usize = $r;
            fn make(tok: u64) -> Self {
                $n(tok as $t)
            }
            fn tok(&self) -> u64 {
                self.0 as u64
            }
            fn set(&mut self, tok: u64) {
                self.0 = tok as $t
            }
        }
    };
}
plain_res!(R0, 0, u64);
plain_res!(R1, 1, u8);
#[derive(Debug)]
pub struct R2(pub String, pub Tracker);
impl std::fmt::Display for R2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad(&self.0)
    }
}
impl Res for R2 {
    const R: usize = 2;
    fn make(tok: u64) -> Self {
        R2(tok.to_string(), Tracker::new())
    }
    fn tok(&self) -> u64 {
        self.0.parse().unwrap_or_else(|_| corrupt())
    }
    fn set(&mut self, tok: u64) {
        self.0 = tok.to_string()
    }
    fn serial(&self) -> Option<u64> {
        Some(self.1.serial)
    }
}
/// zero-sized resource
#[derive(Debug)]
pub struct R3;
impl std::fmt::Display for R3 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("r3")
    }
}
impl Res for R3 {
    const R: usize = 3;
    fn make(_: u64) -> Self {
        R3
    }
    fn tok(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}
/// over-aligned and large
#[derive(Debug)]
#[repr(align(128))]
pub struct R4(pub [u64; 40]);
impl std::fmt::Display for R4 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "r4:{}", self.0[39])
    }
}
impl Res for R4 {
    const R: usize = 4;
    fn make(tok: u64) -> Self {
        R4([tok; 40])
    }
    fn tok(&self) -> u64 {
        if self as *const _ as usize % 128 == 0 && self.0.iter().all(|x| *x == self.0[0]) {
            self.0[0]
        } else {
            corrupt()
        }
    }
    fn set(&mut self, tok: u64) {
        self.0 = [tok; 40]
    }
}
/// same layout as R0, tracked
#[derive(Debug)]
pub struct R5(pub u64, pub Tracker);
impl std::fmt::Display for R5 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:>5}", self.0)
    }
}
impl Res for R5 {
    const R: usize = 5;
    fn make(tok: u64) -> Self {
        R5(tok, Tracker::new())
    }
    fn tok(&self) -> u64 {
        self.0
    }
    fn set(&mut self, tok: u64) {
        self.0 = tok
    }
    fn serial(&self) -> Option<u64> {
        Some(self.1.serial)
    }
}
pub fn rmask(r: usize, tok: u64) -> u64 {
    match r {
        1 => tok & 0xff,
        3 => 0,
        _ => tok,
    }
}
