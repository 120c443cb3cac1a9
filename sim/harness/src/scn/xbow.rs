//! x-bow: change waits (C15), bubbling waits (C16), value loops (C17),
//! cleanup (C18) and data access through paths (C19), over the real store.
//!
//! The oracle is (1) the prefix relation of named path segments and (2) a
//! second, plain copy of the data to which every edit is applied directly.
use crate::alloc::{counted, live_bytes};
use crate::ctx::*;
use crate::wk::*;
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

// ---------------------------------------------------------------- data model

#[derive(Trackable, Clone)]
#[track(deep)]
pub struct Root {
    a: u32,
    b: Sub,
    items: Vec<Sub>,
    map: HashMap<String, Sub>,
    opt: Option<Sub>,
    boxed: Box<Sub>,
    rc: Rc<u32>,
    tup: (u32, Sub, Vec<u32>),
    en: En,
    pair: Pair<u32, Vec<u32>>,
    #[track(shallow)]
    plain: Opaque,
    #[track(skip)]
    skipped: u32,
    grid: Vec<Vec<u32>>,
    imap: HashMap<u32, HashMap<u32, u32>>,
    wide: Vec<u32>,
    tree: Tree,
    text: String,
    more: Box<More>,
}
/// The less usual shapes of data.
#[derive(Trackable, Clone)]
#[track(deep)]
pub struct More {
    wen: Wen,
    gen: Gen<u32, Vec<u32>>,
    ts: Ts,
    quint: (u32, Sub, u32, Vec<u32>, u32),
    obox: Option<Box<Sub>>,
    vopt: Vec<Option<u32>>,
    rcv: Rc<Vec<u32>>,
    held: Held<Opaque>,
    bits: (bool, char, i64),
    mapt: HashMap<(u32, u32), (u32, u32)>,
    ooo: Option<Option<u32>>,
    bv: Box<Vec<u32>>,
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub enum Wen {
    Quad(u32, #[track(skip)] u32, Vec<u32>, u32, Sub),
    Named {
        p: u32,
        #[track(shallow)]
        q: Vec<u32>,
        r: Option<u32>,
        s: u32,
    },
    Empty,
    Other(u32, u32, u32, u32),
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub enum Gen<A, B> {
    L(A),
    Both(B, A),
    R { r: B },
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub struct Ts(u32, #[track(skip)] u32, #[track(shallow)] Opaque, u32, Sub);
/// Holds something that isn't trackable.
#[derive(Trackable, Clone)]
#[x_bow(bound = "T: Clone")]
pub struct Held<T> {
    one: T,
    #[track(skip)]
    hidden: T,
    #[track(deep)]
    n: u32,
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub struct Tree {
    v: u32,
    kids: Vec<Tree>,
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub struct Sub {
    x: u32,
    y: u32,
    list: Vec<u32>,
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub enum En {
    First(u32, u32),
    Second { x: u32, sub: Sub },
    Third,
    Fourth(u32),
}
#[derive(Trackable, Clone)]
#[track(deep)]
pub struct Pair<A, B> {
    l: A,
    r: B,
}
#[derive(Clone)]
pub struct Opaque {
    n: u32,
}

/// Digest, edit and construct values.
pub trait Val {
    fn digest(&self) -> u64;
    fn edit(&mut self, r: u64);
    fn make(r: u64) -> Self
    where
        Self: Sized;
}
fn mixh(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).rotate_left(23).wrapping_mul(0xD6E8_FEB8_6659_FD93)
}
impl Val for u32 {
    fn digest(&self) -> u64 {
        mixh(1, *self as u64)
    }
    fn edit(&mut self, r: u64) {
        *self = self.wrapping_add(1 + (r % 5) as u32);
    }
    fn make(r: u64) -> Self {
        (r % 1000) as u32
    }
}
impl Val for String {
    fn digest(&self) -> u64 {
        self.bytes().fold(17, |a, b| mixh(a, b as u64))
    }
    fn edit(&mut self, r: u64) {
        if r % 4 == 0 {
            self.clear()
        } else {
            self.push((b'a' + (r % 26) as u8) as char)
        }
    }
    fn make(r: u64) -> Self {
        "x".repeat((r % 5) as usize)
    }
}
impl Val for Tree {
    fn digest(&self) -> u64 {
        mixh(mixh(16, self.v.digest()), self.kids.digest())
    }
    fn edit(&mut self, r: u64) {
        match r % 4 {
            0 => self.v.edit(r / 4),
            1 => self.kids.edit(r / 4),
            _ => match self.kids.first_mut() {
                Some(k) => k.edit(r / 4),
                None => self.v.edit(r / 4),
            },
        }
    }
    fn make(r: u64) -> Self {
        let mut t = Tree { v: u32::make(r), kids: vec![] };
        for i in 0..r % 4 {
            t = Tree { v: u32::make(r + i), kids: vec![t.clone(), t] };
        }
        t
    }
}
impl Val for Opaque {
    fn digest(&self) -> u64 {
        mixh(2, self.n as u64)
    }
    fn edit(&mut self, r: u64) {
        self.n.edit(r)
    }
    fn make(r: u64) -> Self {
        Opaque { n: u32::make(r) }
    }
}
impl Val for Sub {
    fn digest(&self) -> u64 {
        mixh(mixh(self.x.digest(), self.y.digest()), self.list.digest())
    }
    fn edit(&mut self, r: u64) {
        match r % 3 {
            0 => self.x.edit(r / 3),
            1 => self.y.edit(r / 3),
            _ => self.list.edit(r / 3),
        }
    }
    fn make(r: u64) -> Self {
        Sub { x: u32::make(r), y: u32::make(r / 3), list: Val::make(r / 7) }
    }
}
impl<T: Val> Val for Vec<T> {
    fn digest(&self) -> u64 {
        self.iter().fold(3, |a, v| mixh(a, v.digest()))
    }
    fn edit(&mut self, r: u64) {
        match r % 5 {
            0 => self.push(T::make(r / 5)),
            1 => {
                self.pop();
            }
            2 if self.len() > 1 => {
                let n = self.len();
                self.swap(0, n - 1)
            }
            3 if r % 7 == 0 => self.clear(),
            _ => {
                if let Some(v) = self.last_mut() {
                    v.edit(r / 5)
                } else {
                    self.push(T::make(r / 5))
                }
            }
        }
    }
    fn make(r: u64) -> Self {
        (0..r % 4).map(|i| T::make(r / 4 + i)).collect()
    }
}
pub trait Key: std::hash::Hash + Eq + Clone + Ord {
    fn key(i: u64) -> Self;
}
impl Key for String {
    fn key(i: u64) -> Self {
        // Prefixes of one another, to catch sloppy key hashing.
        ["", "k", "kk", "kkk"][(i % 4) as usize].to_string()
    }
}
impl Key for u32 {
    fn key(i: u64) -> Self {
        // Equal in their low bits.
        [0, 1, 257, 65_537][(i % 4) as usize]
    }
}
impl<K: Key, T: Val> Val for HashMap<K, T> {
    fn digest(&self) -> u64 {
        let mut ks: Vec<_> = self.keys().cloned().collect();
        ks.sort();
        ks.iter().enumerate().fold(4, |a, (i, k)| mixh(mixh(a, self[k].digest()), (0..4).find(|j| K::key(*j) == *k).unwrap() + 10 * i as u64))
    }
    fn edit(&mut self, r: u64) {
        let k = K::key(r / 3);
        match r % 3 {
            0 => {
                self.insert(k, T::make(r / 12));
            }
            1 => {
                self.remove(&k);
            }
            _ => {
                if let Some(v) = self.get_mut(&k) {
                    v.edit(r / 12)
                }
            }
        }
    }
    fn make(r: u64) -> Self {
        (0..r % 5).map(|i| (K::key(i + r / 5), T::make(r / 20 + i))).collect()
    }
}
impl<T: Val> Val for Option<T> {
    fn digest(&self) -> u64 {
        match self {
            None => 5,
            Some(v) => mixh(6, v.digest()),
        }
    }
    fn edit(&mut self, r: u64) {
        match self {
            None => *self = Some(T::make(r)),
            Some(_) if r % 3 == 0 => *self = None,
            Some(v) => v.edit(r / 3),
        }
    }
    fn make(r: u64) -> Self {
        if r % 3 == 0 {
            None
        } else {
            Some(T::make(r / 3))
        }
    }
}
impl<T: Val> Val for Box<T> {
    fn digest(&self) -> u64 {
        mixh(7, (**self).digest())
    }
    fn edit(&mut self, r: u64) {
        if r % 4 == 0 {
            *self = Box::new(T::make(r / 4))
        } else {
            (**self).edit(r / 4)
        }
    }
    fn make(r: u64) -> Self {
        Box::new(T::make(r))
    }
}
impl<T: Val> Val for Rc<T> {
    fn digest(&self) -> u64 {
        mixh(8, (**self).digest())
    }
    fn edit(&mut self, r: u64) {
        *self = Rc::new(T::make(r))
    }
    fn make(r: u64) -> Self {
        Rc::new(T::make(r))
    }
}
impl<A: Val, B: Val, C: Val> Val for (A, B, C) {
    fn digest(&self) -> u64 {
        mixh(mixh(mixh(9, self.0.digest()), self.1.digest()), self.2.digest())
    }
    fn edit(&mut self, r: u64) {
        match r % 3 {
            0 => self.0.edit(r / 3),
            1 => self.1.edit(r / 3),
            _ => self.2.edit(r / 3),
        }
    }
    fn make(r: u64) -> Self {
        (A::make(r), B::make(r / 2), C::make(r / 3))
    }
}
impl<A: Val, B: Val> Val for Pair<A, B> {
    fn digest(&self) -> u64 {
        mixh(mixh(10, self.l.digest()), self.r.digest())
    }
    fn edit(&mut self, r: u64) {
        if r % 2 == 0 {
            self.l.edit(r / 2)
        } else {
            self.r.edit(r / 2)
        }
    }
    fn make(r: u64) -> Self {
        Pair { l: A::make(r), r: B::make(r / 2) }
    }
}
impl Val for En {
    fn digest(&self) -> u64 {
        match self {
            En::First(a, b) => mixh(mixh(11, a.digest()), b.digest()),
            En::Second { x, sub } => mixh(mixh(12, x.digest()), sub.digest()),
            En::Third => 13,
            En::Fourth(a) => mixh(14, a.digest()),
        }
    }
    fn edit(&mut self, r: u64) {
        if r % 2 == 0 {
            *self = En::make(r / 2);
            return;
        }
        match self {
            En::First(a, b) => {
                if r % 4 == 1 {
                    a.edit(r)
                } else {
                    b.edit(r)
                }
            }
            En::Second { x, sub } => {
                if r % 4 == 1 {
                    x.edit(r)
                } else {
                    sub.edit(r)
                }
            }
            En::Third => *self = En::make(r / 2),
            En::Fourth(a) => a.edit(r),
        }
    }
    fn make(r: u64) -> Self {
        match r % 4 {
            0 => En::First(u32::make(r), u32::make(r / 2)),
            1 => En::Second { x: u32::make(r), sub: Sub::make(r) },
            2 => En::Third,
            _ => En::Fourth(u32::make(r)),
        }
    }
}
impl Val for bool {
    fn digest(&self) -> u64 {
        mixh(20, *self as u64)
    }
    fn edit(&mut self, _: u64) {
        *self = !*self;
    }
    fn make(r: u64) -> Self {
        r % 2 == 0
    }
}
impl Val for char {
    fn digest(&self) -> u64 {
        mixh(21, *self as u64)
    }
    fn edit(&mut self, r: u64) {
        *self = char::make(*self as u64 + r % 5 + 1);
    }
    fn make(r: u64) -> Self {
        (b'a' + (r % 26) as u8) as char
    }
}
impl Val for i64 {
    fn digest(&self) -> u64 {
        mixh(22, *self as u64)
    }
    fn edit(&mut self, r: u64) {
        *self -= 1 + (r % 5) as i64;
    }
    fn make(r: u64) -> Self {
        -((r % 1000) as i64)
    }
}
impl Val for str {
    fn digest(&self) -> u64 {
        self.bytes().fold(23, |a, b| mixh(a, b as u64))
    }
    fn edit(&mut self, _: u64) {
        if self.bytes().next().is_some_and(|b| b.is_ascii_lowercase()) {
            self.make_ascii_uppercase()
        } else {
            self.make_ascii_lowercase()
        }
    }
}
impl<A: Val, B: Val> Val for (A, B) {
    fn digest(&self) -> u64 {
        mixh(mixh(24, self.0.digest()), self.1.digest())
    }
    fn edit(&mut self, r: u64) {
        if r % 2 == 0 {
            self.0.edit(r / 2)
        } else {
            self.1.edit(r / 2)
        }
    }
    fn make(r: u64) -> Self {
        (A::make(r), B::make(r / 2))
    }
}
/// For types whose parts are all values: digest and edit one of them.
macro_rules! parts {
    ($tag:expr, $s:ident, [$($e:expr),+]) => {
        fn digest(&self) -> u64 {
            let $s = self;
            [$($e.digest()),+].iter().fold($tag, |a, b| mixh(a, *b))
        }
        fn edit(&mut self, r: u64) {
            let $s = self;
            let n = [$(stringify!($e)),+].len() as u64;
            let mut k = r % n;
            $(
                if k == 0 {
                    return $e.edit(r / n);
                }
                k = k.wrapping_sub(1);
            )+
            let _ = k;
        }
    };
}
impl Val for (u32, Sub, u32, Vec<u32>, u32) {
    parts!(25, s, [s.0, s.1, s.2, s.3, s.4]);
    fn make(r: u64) -> Self {
        (Val::make(r), Val::make(r + 1), Val::make(r + 2), Val::make(r + 3), Val::make(r + 4))
    }
}
impl Val for Ts {
    parts!(26, s, [s.0, s.1, s.2, s.3, s.4]);
    fn make(r: u64) -> Self {
        Ts(Val::make(r), Val::make(r + 1), Val::make(r + 2), Val::make(r + 3), Val::make(r + 4))
    }
}
impl<T: Val> Val for Held<T> {
    parts!(27, s, [s.one, s.hidden, s.n]);
    fn make(r: u64) -> Self {
        Held { one: T::make(r), hidden: T::make(r + 1), n: Val::make(r + 2) }
    }
}
impl Val for Wen {
    fn digest(&self) -> u64 {
        match self {
            Wen::Quad(a, b, c, d, e) => [a.digest(), b.digest(), c.digest(), d.digest(), e.digest()].iter().fold(28, |a, b| mixh(a, *b)),
            Wen::Named { p, q, r, s } => [p.digest(), q.digest(), r.digest(), s.digest()].iter().fold(29, |a, b| mixh(a, *b)),
            Wen::Empty => 30,
            Wen::Other(a, b, c, d) => [a.digest(), b.digest(), c.digest(), d.digest()].iter().fold(31, |a, b| mixh(a, *b)),
        }
    }
    fn edit(&mut self, z: u64) {
        if z % 3 == 0 {
            *self = Wen::make(z / 3);
            return;
        }
        let z = z / 3;
        let all: Vec<&mut dyn Val> = match self {
            Wen::Quad(a, b, c, d, e) => vec![a, b, c, d, e],
            Wen::Named { p, q, r, s } => vec![p, q, r, s],
            Wen::Empty => vec![],
            Wen::Other(a, b, c, d) => vec![a, b, c, d],
        };
        let n = all.len() as u64;
        if let Some(v) = all.into_iter().nth((z % n.max(1)) as usize) {
            v.edit(z / n)
        }
    }
    fn make(r: u64) -> Self {
        let (m, r) = (r % 4, r / 4);
        match m {
            0 => Wen::Quad(Val::make(r), Val::make(r + 1), Val::make(r + 2), Val::make(r + 3), Val::make(r + 4)),
            1 => Wen::Named { p: Val::make(r), q: Val::make(r + 1), r: Val::make(r + 2), s: Val::make(r + 3) },
            2 if r % 2 == 0 => Wen::Empty,
            _ => Wen::Other(Val::make(r), Val::make(r + 1), Val::make(r + 2), Val::make(r + 3)),
        }
    }
}
impl<A: Val, B: Val> Val for Gen<A, B> {
    fn digest(&self) -> u64 {
        match self {
            Gen::L(a) => mixh(32, a.digest()),
            Gen::Both(b, a) => mixh(mixh(33, a.digest()), b.digest()),
            Gen::R { r } => mixh(34, r.digest()),
        }
    }
    fn edit(&mut self, z: u64) {
        if z % 3 == 0 {
            *self = Gen::make(z / 3);
            return;
        }
        match self {
            Gen::L(a) => a.edit(z / 3),
            Gen::Both(b, _) if z % 3 == 1 => b.edit(z / 3),
            Gen::Both(_, a) => a.edit(z / 3),
            Gen::R { r } => r.edit(z / 3),
        }
    }
    fn make(r: u64) -> Self {
        match r % 3 {
            0 => Gen::L(A::make(r)),
            1 => Gen::Both(B::make(r), A::make(r + 1)),
            _ => Gen::R { r: B::make(r) },
        }
    }
}
impl Key for (u32, u32) {
    fn key(i: u64) -> Self {
        [(0, 1), (1, 0), (0, 0), (256, 1)][(i % 4) as usize]
    }
}
impl Val for More {
    parts!(35, s, [s.wen, s.gen, s.ts, s.quint, s.obox, s.vopt, s.rcv, s.held, s.bits, s.mapt, s.ooo, s.bv]);
    fn make(r: u64) -> Self {
        More {
            wen: Val::make(r),
            gen: Val::make(r),
            ts: Val::make(r),
            quint: Val::make(r + 1),
            obox: Val::make(r + 1),
            vopt: (0..3).map(|i| Val::make(r + i)).collect(),
            rcv: Val::make(r + 3),
            held: Val::make(r + 2),
            bits: Val::make(r),
            mapt: Val::make(r + 23),
            ooo: Val::make(r),
            bv: Val::make(r + 7),
        }
    }
}
impl Val for Root {
    fn digest(&self) -> u64 {
        [
            self.a.digest(),
            self.b.digest(),
            self.items.digest(),
            self.map.digest(),
            self.opt.digest(),
            self.boxed.digest(),
            self.rc.digest(),
            self.tup.digest(),
            self.en.digest(),
            self.pair.digest(),
            self.plain.digest(),
            self.skipped.digest(),
            self.grid.digest(),
            self.imap.digest(),
            self.wide.digest(),
            self.tree.digest(),
            self.text.digest(),
            self.more.digest(),
        ]
        .iter()
        .fold(15, |a, b| mixh(a, *b))
    }
    fn edit(&mut self, r: u64) {
        let s = r / 18;
        match r % 18 {
            0 => self.a.edit(s),
            1 => self.b.edit(s),
            2 => self.items.edit(s),
            3 => self.map.edit(s),
            4 => self.opt.edit(s),
            5 => self.boxed.edit(s),
            6 => self.rc.edit(s),
            7 => self.tup.edit(s),
            8 => self.en.edit(s),
            9 => self.pair.edit(s),
            10 => self.plain.edit(s),
            11 => self.skipped.edit(s),
            12 => self.grid.edit(s),
            13 => self.wide.edit(s),
            14 => self.tree.edit(s),
            15 => self.text.edit(s),
            16 => (*self.more).edit(s),
            _ => self.imap.edit(s),
        }
    }
    fn make(r: u64) -> Self {
        Root {
            a: Val::make(r),
            b: Val::make(r + 1),
            items: (0..3).map(|i| Sub::make(r + i)).collect(),
            map: Val::make(r + 4),
            opt: Val::make(r + 1),
            boxed: Val::make(r + 2),
            rc: Val::make(r + 3),
            tup: Val::make(r + 4),
            en: Val::make(r),
            pair: Val::make(r + 5),
            plain: Val::make(r + 6),
            skipped: 7,
            grid: (0..3).map(|i| Val::make(r + 3 + i)).collect(),
            imap: Val::make(r + 19),
            wide: (0..WIDE).collect(),
            tree: Val::make(r + 3),
            text: Val::make(r),
            more: Val::make(r),
        }
    }
}

const WIDE: u32 = 530;

// ---------------------------------------------------------------- paths

type BoxStream<'a, T> = Pin<Box<dyn Stream<Item = T> + 'a>>;
type BoxFut<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;

/// Every use of a path the scenarios make, with the data type erased.
pub trait DynPath {
    fn until(&self) -> BoxStream<'_, ()>;
    fn bubbling(&self) -> BoxStream<'_, ()>;
    fn read(&self) -> Option<u64>;
    /// Takes a mutable borrow (how: 0 guard, 1 without notifying + notify,
    /// 2 set_opt), calls `inside` while it is held. Returns false if there is
    /// no data at this path.
    fn mutate(&self, r: u64, how: usize, inside: &mut dyn FnMut()) -> bool;
    fn while_reading(&self, inside: &mut dyn FnMut()) -> bool;
    fn notify(&self, times: usize);
    fn for_each<'a>(&'a self, f: Box<dyn FnMut(u64) + 'a>) -> BoxFut<'a>;
    fn for_each_async<'a>(&'a self, f: Box<dyn FnMut(u64) -> Handler + 'a>) -> BoxFut<'a>;
    fn signal<'a>(&'a self, fire: bool) -> BoxStream<'a, u64>;
    fn bind<'a>(&'a self, f: Box<dyn FnMut(u64) + 'a>, incoming: BoxStream<'a, u64>) -> BoxFut<'a>;
}
struct MapStream<S, F>(S, F);
impl<T, U, S: Stream<Item = T> + Unpin, F: FnMut(T) -> U + Unpin> Stream for MapStream<S, F> {
    type Item = U;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<U>> {
        let t = self.get_mut();
        match Pin::new(&mut t.0).poll_next(cx) {
            Poll::Ready(Some(v)) => Poll::Ready(Some((t.1)(v))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<P: Path> DynPath for P
where
    P::Out: Val + Clone + Sized,
{
    fn until(&self) -> BoxStream<'_, ()> {
        Box::pin(self.until_change())
    }
    fn bubbling(&self) -> BoxStream<'_, ()> {
        Box::pin(self.until_bubbling_change())
    }
    fn read(&self) -> Option<u64> {
        self.borrow_opt().as_deref().map(|v| v.digest())
    }
    fn mutate(&self, r: u64, how: usize, inside: &mut dyn FnMut()) -> bool {
        match how {
            // A mutable borrow counts whether or not anything is written.
            TOUCH => match self.borrow_opt_mut() {
                None => false,
                Some(_g) => {
                    fault("borrowed mutably without writing");
                    inside();
                    true
                }
            },
            0 => match self.borrow_opt_mut() {
                None => false,
                Some(mut g) => {
                    if r % 2 == 0 {
                        inside();
                    }
                    g.edit(r);
                    if r % 2 == 1 {
                        inside();
                    }
                    true
                }
            },
            1 => {
                match self.borrow_opt_mut_without_notifying() {
                    None => return false,
                    Some(mut g) => {
                        inside();
                        g.edit(r)
                    }
                }
                self.notify_changed();
                true
            }
            _ => {
                let mut v = match self.get_opt() {
                    None => {
                        let v = P::Out::make(r);
                        let d = v.digest();
                        match self.set_opt(v) {
                            Ok(()) => violate("wrong-availability", "set_opt stored a value where there is no data"),
                            Err(v) => check!(v.digest() == d, "wrong-data", "set_opt gave another value back"),
                        }
                        return false;
                    }
                    Some(v) => v,
                };
                v.edit(r);
                self.set_opt(v).is_ok()
            }
        }
    }
    fn notify(&self, times: usize) {
        for _ in 0..times {
            self.notify_changed();
        }
    }
    fn while_reading(&self, inside: &mut dyn FnMut()) -> bool {
        match self.borrow_opt() {
            None => false,
            Some(_r) => {
                inside();
                true
            }
        }
    }
    fn for_each<'a>(&'a self, mut f: Box<dyn FnMut(u64) + 'a>) -> BoxFut<'a> {
        Box::pin(PathExt::for_each(self, move |v: &P::Out| f(v.digest())))
    }
    fn for_each_async<'a>(&'a self, mut f: Box<dyn FnMut(u64) -> Handler + 'a>) -> BoxFut<'a> {
        Box::pin(PathExt::for_each_async(self, move |v: &P::Out| f(v.digest())))
    }
    fn signal<'a>(&'a self, fire: bool) -> BoxStream<'a, u64> {
        Box::pin(MapStream(self.signal_stream(fire), |r: std::cell::Ref<'a, P::Out>| r.digest()))
    }
    fn bind<'a>(&'a self, mut f: Box<dyn FnMut(u64) + 'a>, incoming: BoxStream<'a, u64>) -> BoxFut<'a> {
        Box::pin(PathExt::bind_for_each(self, move |v: &P::Out| f(v.digest()), MapStream(incoming, |r: u64| <P::Out as Val>::make(r))))
    }
}

/// Borrows mutably without writing.
const TOUCH: usize = 9;

/// A path to a `str`: it can be edited in place, but not replaced.
struct StrPath<P>(P);
impl<P: Path<Out = str>> DynPath for StrPath<P> {
    fn until(&self) -> BoxStream<'_, ()> {
        Box::pin(self.0.until_change())
    }
    fn bubbling(&self) -> BoxStream<'_, ()> {
        Box::pin(self.0.until_bubbling_change())
    }
    fn read(&self) -> Option<u64> {
        self.0.borrow_opt().as_deref().map(|v| v.digest())
    }
    fn mutate(&self, r: u64, how: usize, inside: &mut dyn FnMut()) -> bool {
        if how == 0 || how == TOUCH {
            let Some(mut g) = self.0.borrow_opt_mut() else { return false };
            inside();
            if how == 0 {
                g.edit(r);
            }
        } else {
            {
                let Some(mut g) = self.0.borrow_opt_mut_without_notifying() else { return false };
                if how == 1 {
                    inside();
                }
                g.edit(r);
            }
            self.0.notify_changed();
        }
        true
    }
    fn notify(&self, times: usize) {
        for _ in 0..times {
            self.0.notify_changed();
        }
    }
    fn while_reading(&self, inside: &mut dyn FnMut()) -> bool {
        let _r = self.0.borrow_opt();
        if _r.is_some() {
            inside();
        }
        _r.is_some()
    }
    fn for_each<'a>(&'a self, mut f: Box<dyn FnMut(u64) + 'a>) -> BoxFut<'a> {
        Box::pin(PathExt::for_each(&self.0, move |v: &str| f(v.digest())))
    }
    fn for_each_async<'a>(&'a self, mut f: Box<dyn FnMut(u64) -> Handler + 'a>) -> BoxFut<'a> {
        Box::pin(PathExt::for_each_async(&self.0, move |v: &str| f(v.digest())))
    }
    fn signal<'a>(&'a self, fire: bool) -> BoxStream<'a, u64> {
        Box::pin(MapStream(self.0.signal_stream(fire), |r: std::cell::Ref<'a, str>| r.digest()))
    }
    fn bind<'a>(&'a self, _: Box<dyn FnMut(u64) + 'a>, _: BoxStream<'a, u64>) -> BoxFut<'a> {
        unreachable!("a str can't be replaced")
    }
}

/// Paths to data that always exists.
pub trait DynGuaranteed {
    fn read(&self) -> u64;
    fn mutate(&self, r: u64, how: usize, inside: &mut dyn FnMut());
}
impl<P: PathExtGuaranteed> DynGuaranteed for P
where
    P::Out: Val + Clone + Sized,
{
    fn read(&self) -> u64 {
        let d = self.get().digest();
        check!(self.borrow().digest() == d, "wrong-data", "get and borrow differ");
        d
    }
    fn mutate(&self, r: u64, how: usize, inside: &mut dyn FnMut()) {
        match how {
            TOUCH => {
                let _g = self.borrow_mut();
                fault("borrowed mutably without writing");
                inside();
            }
            0 => {
                let mut g = self.borrow_mut();
                inside();
                g.edit(r)
            }
            1 => {
                {
                    let mut g = self.borrow_mut_without_notifying();
                    inside();
                    g.edit(r);
                }
                self.notify_changed();
            }
            _ => {
                let mut v = self.get();
                v.edit(r);
                self.set(v);
            }
        }
    }
}
pub struct Named<'s> {
    segs: Vec<String>,
    path: Box<dyn DynPath + 's>,
    always: Option<Box<dyn DynGuaranteed + 's>>,
    /// The same place in plain data: its digest, an edit of it.
    plain: Box<dyn Fn(&mut Root) -> Option<u64> + 's>,
    edit: Box<dyn Fn(&mut Root, u64) + 's>,
    replace: Box<dyn Fn(&mut Root, u64) -> bool + 's>,
}
fn named<'s, P: IntoPath, F, T: Val + 'static>(segs: String, p: P, plain: F) -> Named<'s>
where
    P::IntoPath: Path<Out = T> + Clone + 's,
    T: Clone,
    F: Fn(&mut Root) -> Option<&mut T> + Clone + 's,
{
    let path = p.into_path();
    // A copy of a path names the same place.
    if CLONES.get() {
        let copy = path.clone();
        drop(path);
        named_as(segs, copy, plain)
    } else {
        named_as(segs, path, plain)
    }
}
thread_local! {
    static CLONES: Cell<bool> = const { Cell::new(false) };
}
fn named_as<'s, P, F, T: Val + 'static>(segs: String, p: P, plain: F) -> Named<'s>
where
    P: Path<Out = T> + 's,
    T: Clone,
    F: Fn(&mut Root) -> Option<&mut T> + Clone + 's,
{
    let plain2 = plain.clone();
    let plain3 = plain.clone();
    Named {
        segs: segs.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        path: Box::new(p),
        always: None,
        plain: Box::new(move |r| plain(r).map(|t| t.digest())),
        edit: Box::new(move |r, z| {
            if let Some(t) = plain3(r) {
                t.edit(z)
            }
        }),
        replace: Box::new(move |r, v| match plain2(r) {
            None => false,
            Some(t) => {
                *t = T::make(v);
                true
            }
        }),
    }
}

fn paths<'s>(s: &'s Store<Root>, strs: bool) -> Vec<Named<'s>> {
    let mut v: Vec<Named<'s>> = vec![];
    CLONES.set(chance(1, 3));
    let r = || s.build_path();
    macro_rules! p {
        ($n:expr, $p:expr, $f:expr) => {
            v.push(named($n.to_string(), $p, $f))
        };
    }
    macro_rules! sub {
        ($n:expr, $p:expr, |$i:ident| $f:expr) => {{
            let n = $n.to_string();
            p!(n, $p, move |$i: &mut Root| -> Option<&mut Sub> { $f });
            p!(format!("{n}/x"), $p.x(), move |$i: &mut Root| -> Option<&mut u32> { let q: Option<&mut Sub> = $f; q.map(|s| &mut s.x) });
            p!(format!("{n}/y"), $p.y(), move |$i: &mut Root| -> Option<&mut u32> { let q: Option<&mut Sub> = $f; q.map(|s| &mut s.y) });
            p!(format!("{n}/list"), $p.list(), move |$i: &mut Root| -> Option<&mut Vec<u32>> { let q: Option<&mut Sub> = $f; q.map(|s| &mut s.list) });
            for j in 0..2usize {
                p!(format!("{n}/list/[{j}]"), $p.list().index(j), move |$i: &mut Root| -> Option<&mut u32> { let q: Option<&mut Sub> = $f; q.and_then(|s| s.list.get_mut(j)) });
            }
        }};
    }
    // The same through the interface for data that always exists.
    macro_rules! always {
        ($n:expr, $p:expr, $f:expr) => {{
            p!($n, $p, $f);
            v.last_mut().unwrap().always = Some(Box::new($p.into_path()));
        }};
    }
    v.push(named(String::new(), r(), |r: &mut Root| Some(r)));
    always!("", r(), |r: &mut Root| Some(r));
    always!("a", r().a(), |r: &mut Root| Some(&mut r.a));
    always!("b", r().b(), |r: &mut Root| Some(&mut r.b));
    always!("b/list", r().b().list(), |r: &mut Root| Some(&mut r.b.list));
    always!("boxed/*", r().boxed().content(), |r: &mut Root| Some(&mut *r.boxed));
    always!("boxed/*/y", r().boxed().content().y(), |r: &mut Root| Some(&mut r.boxed.y));
    always!("tup/1/x", r().tup().t1().x(), |r: &mut Root| Some(&mut r.tup.1.x));
    always!("pair/r", r().pair().r(), |r: &mut Root| Some(&mut r.pair.r));
    always!("plain", r().plain(), |r: &mut Root| Some(&mut r.plain));
    always!("tree/v", r().tree().v(), |r: &mut Root| Some(&mut r.tree.v));
    p!("a", r().a(), |r: &mut Root| Some(&mut r.a));
    sub!("b", r().b(), |r| Some(&mut r.b));
    p!("items", r().items(), |r: &mut Root| Some(&mut r.items));
    for i in 0..4usize {
        sub!(format!("items/[{i}]"), r().items().index(i), |r| r.items.get_mut(i));
    }
    p!("map", r().map(), |r: &mut Root| Some(&mut r.map));
    for i in 0..4u64 {
        sub!(format!("map/[{i}]"), r().map().key(String::key(i)), |r| r.map.get_mut(&String::key(i)));
    }
    p!("opt", r().opt(), |r: &mut Root| Some(&mut r.opt));
    sub!("opt/some", r().opt().Some_0(), |r| r.opt.as_mut());
    p!("boxed", r().boxed(), |r: &mut Root| Some(&mut r.boxed));
    sub!("boxed/*", r().boxed().content(), |r| Some(&mut *r.boxed));
    p!("rc", r().rc(), |r: &mut Root| Some(&mut r.rc));
    p!("rc/*", r().rc().content(), |r: &mut Root| Rc::get_mut(&mut r.rc));
    p!("tup", r().tup(), |r: &mut Root| Some(&mut r.tup));
    p!("tup/0", r().tup().t0(), |r: &mut Root| Some(&mut r.tup.0));
    sub!("tup/1", r().tup().t1(), |r| Some(&mut r.tup.1));
    p!("tup/2", r().tup().t2(), |r: &mut Root| Some(&mut r.tup.2));
    p!("tup/2/[0]", r().tup().t2().index_shallow(0), |r: &mut Root| r.tup.2.get_mut(0));
    p!("en", r().en(), |r: &mut Root| Some(&mut r.en));
    p!("en/first0", r().en().First_0(), |r: &mut Root| if let En::First(a, _) = &mut r.en { Some(a) } else { None });
    p!("en/first1", r().en().First_1(), |r: &mut Root| if let En::First(_, b) = &mut r.en { Some(b) } else { None });
    p!("en/secondx", r().en().Second_x(), |r: &mut Root| if let En::Second { x, .. } = &mut r.en { Some(x) } else { None });
    sub!("en/secondsub", r().en().Second_sub(), |r| if let En::Second { sub, .. } = &mut r.en { Some(sub) } else { None });
    p!("en/fourth0", r().en().Fourth_0(), |r: &mut Root| if let En::Fourth(a) = &mut r.en { Some(a) } else { None });
    p!("pair", r().pair(), |r: &mut Root| Some(&mut r.pair));
    p!("pair/l", r().pair().l(), |r: &mut Root| Some(&mut r.pair.l));
    p!("pair/r", r().pair().r(), |r: &mut Root| Some(&mut r.pair.r));
    p!("pair/r/[1]", r().pair().r().index(1), |r: &mut Root| r.pair.r.get_mut(1));
    p!("plain", r().plain(), |r: &mut Root| Some(&mut r.plain));
    p!("grid", r().grid(), |r: &mut Root| Some(&mut r.grid));
    for i in 0..3usize {
        p!(format!("grid/[{i}]"), r().grid().index(i), move |r: &mut Root| r.grid.get_mut(i));
        for j in 0..3usize {
            p!(format!("grid/[{i}]/[{j}]"), r().grid().index(i).index(j), move |r: &mut Root| r.grid.get_mut(i).and_then(|g| g.get_mut(j)));
        }
    }
    p!("imap", r().imap(), |r: &mut Root| Some(&mut r.imap));
    for i in (0..4).map(u32::key) {
        p!(format!("imap/[{i}]"), r().imap().key(i), move |r: &mut Root| r.imap.get_mut(&i));
        for j in (0..4).map(u32::key) {
            p!(format!("imap/[{i}]/[{j}]"), r().imap().key(i).key_shallow(j), move |r: &mut Root| r.imap.get_mut(&i).and_then(|g| g.get_mut(&j)));
        }
    }
    p!("text", r().text(), |r: &mut Root| Some(&mut r.text));
    // Indexes equal in their low bits, far apart, and beyond the end.
    p!("wide", r().wide(), |r: &mut Root| Some(&mut r.wide));
    for i in [0, 1, 255, 256, 257, 512, 513, 65_536, 65_537, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 52, 1 << 63, usize::MAX] {
        p!(format!("wide/[{i}]"), r().wide().index(i), move |r: &mut Root| r.wide.get_mut(i));
    }
    // A recursive type, through type-erased paths at each level.
    type ErasedTree<'s> = Rc<dyn Path<Out = Tree> + 's>;
    fn at(t: &mut Tree, depth: usize, side: usize) -> Option<&mut Tree> {
        let mut t = t;
        for d in 0..depth {
            t = t.kids.get_mut(if d + 1 == depth { side } else { 0 })?;
        }
        Some(t)
    }
    p!("tree", r().tree(), |r: &mut Root| Some(&mut r.tree));
    let mut t: ErasedTree<'s> = Rc::new(r().tree().into_path());
    let mut name = "tree".to_string();
    // 256 levels: rarely interesting and expensive to build
    let levels = if chance(1, 60) { 131 } else if chance(1, 6) { 8 } else { 3 };
    for d in 1..=levels {
        if d <= 8 || d >= 126 {
            p!(format!("{name}/v"), t.clone().build_path().v(), move |r: &mut Root| at(&mut r.tree, d - 1, 0).map(|t| &mut t.v));
            p!(format!("{name}/kids"), t.clone().build_path().kids(), move |r: &mut Root| at(&mut r.tree, d - 1, 0).map(|t| &mut t.kids));
            p!(format!("{name}/kids/[1]"), t.clone().build_path().kids().index(1), move |r: &mut Root| at(&mut r.tree, d, 1));
        }
        t = Rc::new(t.build_path().kids().index(0).into_path());
        name += "/kids/[0]";
        if d <= 8 || d >= 126 {
            v.push(named(name.clone(), t.clone().build_path(), move |r: &mut Root| at(&mut r.tree, d, 0)));
        }
    }
    // The less usual shapes.
    p!("more", r().more(), |r: &mut Root| Some(&mut r.more));
    let m = || r().more().content();
    always!("more/*", m(), |r: &mut Root| Some(&mut *r.more));
    macro_rules! m {
        ($n:expr, $p:expr, |$i:ident| $f:expr) => {
            p!(concat!("more/*/", $n), $p, move |$i: &mut Root| {
                let $i = &mut *$i.more;
                $f
            })
        };
    }
    m!("wen", m().wen(), |r| Some(&mut r.wen));
    m!("wen/quad0", m().wen().Quad_0(), |r| if let Wen::Quad(a, ..) = &mut r.wen { Some(a) } else { None });
    m!("wen/quad2", m().wen().Quad_2(), |r| if let Wen::Quad(_, _, a, ..) = &mut r.wen { Some(a) } else { None });
    m!("wen/quad2/[0]", m().wen().Quad_2().index(0), |r| if let Wen::Quad(_, _, a, ..) = &mut r.wen { a.get_mut(0) } else { None });
    m!("wen/quad3", m().wen().Quad_3(), |r| if let Wen::Quad(_, _, _, a, _) = &mut r.wen { Some(a) } else { None });
    sub!("more/*/wen/quad4", m().wen().Quad_4(), |r| if let Wen::Quad(.., a) = &mut r.more.wen { Some(a) } else { None });
    m!("wen/namedp", m().wen().Named_p(), |r| if let Wen::Named { p, .. } = &mut r.wen { Some(p) } else { None });
    m!("wen/namedq", m().wen().Named_q(), |r| if let Wen::Named { q, .. } = &mut r.wen { Some(q) } else { None });
    m!("wen/namedr", m().wen().Named_r(), |z| if let Wen::Named { r, .. } = &mut z.wen { Some(r) } else { None });
    m!("wen/namedr/some", m().wen().Named_r().Some_0(), |z| if let Wen::Named { r, .. } = &mut z.wen { r.as_mut() } else { None });
    m!("wen/nameds", m().wen().Named_s(), |r| if let Wen::Named { s, .. } = &mut r.wen { Some(s) } else { None });
    m!("wen/other0", m().wen().Other_0(), |r| if let Wen::Other(a, ..) = &mut r.wen { Some(a) } else { None });
    m!("wen/other1", m().wen().Other_1(), |r| if let Wen::Other(_, a, ..) = &mut r.wen { Some(a) } else { None });
    m!("wen/other2", m().wen().Other_2(), |r| if let Wen::Other(_, _, a, _) = &mut r.wen { Some(a) } else { None });
    m!("wen/other3", m().wen().Other_3(), |r| if let Wen::Other(.., a) = &mut r.wen { Some(a) } else { None });
    m!("gen", m().gen(), |r| Some(&mut r.gen));
    m!("gen/l", m().gen().L_0(), |r| if let Gen::L(a) = &mut r.gen { Some(a) } else { None });
    m!("gen/both0", m().gen().Both_0(), |r| if let Gen::Both(a, _) = &mut r.gen { Some(a) } else { None });
    m!("gen/both0/[0]", m().gen().Both_0().index(0), |r| if let Gen::Both(a, _) = &mut r.gen { a.get_mut(0) } else { None });
    m!("gen/both1", m().gen().Both_1(), |r| if let Gen::Both(_, a) = &mut r.gen { Some(a) } else { None });
    m!("gen/r", m().gen().R_r(), |z| if let Gen::R { r } = &mut z.gen { Some(r) } else { None });
    m!("gen/r/[1]", m().gen().R_r().index(1), |z| if let Gen::R { r } = &mut z.gen { r.get_mut(1) } else { None });
    m!("ts", m().ts(), |r| Some(&mut r.ts));
    m!("ts/0", m().ts().t0(), |r| Some(&mut r.ts.0));
    m!("ts/2", m().ts().t2(), |r| Some(&mut r.ts.2));
    m!("ts/3", m().ts().t3(), |r| Some(&mut r.ts.3));
    sub!("more/*/ts/4", m().ts().t4(), |r| Some(&mut r.more.ts.4));
    m!("quint", m().quint(), |r| Some(&mut r.quint));
    m!("quint/0", m().quint().t0(), |r| Some(&mut r.quint.0));
    always!("more/*/quint/1/y", m().quint().t1().y(), |r: &mut Root| Some(&mut r.more.quint.1.y));
    m!("quint/2", m().quint().t2(), |r| Some(&mut r.quint.2));
    m!("quint/3/[2]", m().quint().t3().index(2), |r| r.quint.3.get_mut(2));
    always!("more/*/quint/4", m().quint().t4(), |r: &mut Root| Some(&mut r.more.quint.4));
    m!("obox", m().obox(), |r| Some(&mut r.obox));
    m!("obox/some", m().obox().Some_0(), |r| r.obox.as_mut());
    sub!("more/*/obox/some/*", m().obox().Some_0().content(), |r| r.more.obox.as_deref_mut());
    m!("vopt", m().vopt(), |r| Some(&mut r.vopt));
    for i in 0..3usize {
        p!(format!("more/*/vopt/[{i}]"), m().vopt().index(i), move |r: &mut Root| r.more.vopt.get_mut(i));
        p!(format!("more/*/vopt/[{i}]/some"), m().vopt().index(i).Some_0(), move |r: &mut Root| r.more.vopt.get_mut(i).and_then(|v| v.as_mut()));
    }
    m!("rcv", m().rcv(), |r| Some(&mut r.rcv));
    m!("rcv/*", m().rcv().content(), |r| Rc::get_mut(&mut r.rcv));
    m!("rcv/*/[0]", m().rcv().content().index(0), |r| Rc::get_mut(&mut r.rcv).and_then(|v| v.get_mut(0)));
    m!("held", m().held(), |r| Some(&mut r.held));
    m!("held/one", m().held().one(), |r| Some(&mut r.held.one));
    always!("more/*/held/n", m().held().n(), |r: &mut Root| Some(&mut r.more.held.n));
    m!("bits/0", m().bits().t0(), |r| Some(&mut r.bits.0));
    m!("bits/1", m().bits().t1(), |r| Some(&mut r.bits.1));
    m!("bits/2", m().bits().t2(), |r| Some(&mut r.bits.2));
    m!("mapt", m().mapt(), |r| Some(&mut r.mapt));
    for k in (0..4).map(<(u32, u32)>::key) {
        p!(format!("more/*/mapt/[{k:?}]"), m().mapt().key(k), move |r: &mut Root| r.more.mapt.get_mut(&k));
        p!(format!("more/*/mapt/[{k:?}]/1"), m().mapt().key(k).t1(), move |r: &mut Root| r.more.mapt.get_mut(&k).map(|v| &mut v.1));
    }
    m!("ooo", m().ooo(), |r| Some(&mut r.ooo));
    m!("ooo/some", m().ooo().Some_0(), |r| r.ooo.as_mut());
    m!("ooo/some/some", m().ooo().Some_0().Some_0(), |r| r.ooo.as_mut().and_then(|v| v.as_mut()));
    m!("bv", m().bv(), |r| Some(&mut r.bv));
    m!("bv/*", m().bv().content_shallow(), |r| Some(&mut *r.bv));
    m!("bv/*/[0]", m().bv().content().index(0), |r| r.bv.get_mut(0));
    if strs {
        v.push(Named {
            segs: vec!["text".into(), "*".into()],
            path: Box::new(StrPath(r().text().content().into_path())),
            always: None,
            plain: Box::new(|r| Some(r.text.as_str().digest())),
            edit: Box::new(|r, z| r.text.as_mut_str().edit(z)),
            replace: Box::new(|_, _| false),
        });
    }
    // Type-erased paths are paths too, and name the same place.
    let erased: Rc<dyn Path<Out = Sub> + 's> = Rc::new(r().b().into_path());
    v.push(named("b".into(), erased.build_path(), |r: &mut Root| Some(&mut r.b)));
    let erased: Box<dyn Path<Out = Sub> + 's> = Box::new(r().items().index(1).into_path());
    v.push(named_as("items/[1]/x".into(), erased.build_path().x().into_path(), |r: &mut Root| r.items.get_mut(1).map(|s| &mut s.x)));
    v
}
fn is_prefix(a: &[String], b: &[String]) -> bool {
    a.len() <= b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}

// ---------------------------------------------------------------- wakers


// ---------------------------------------------------------------- C15 / C16 / C18 / C19: waits

struct Listener<'p> {
    id: usize,
    path: usize,
    bubbling: bool,
    stream: BoxStream<'p, ()>,
    pending: bool,
    /// The waker of the last poll, if that poll was Pending.
    armed: Option<(Arc<CountWaker>, u64)>,
    used: Vec<Arc<CountWaker>>,
}
struct World<'p> {
    paths: &'p [Named<'p>],
    ls: Vec<Listener<'p>>,
    next: usize,
    pool: Vec<Arc<CountWaker>>,
    prefer: Vec<usize>,
    bubbling_pct: usize,
}
impl<'p> World<'p> {
    fn name(&self, p: usize) -> String {
        format!("/{}", self.paths[p].segs.join("/"))
    }
    fn pick_path(&self) -> usize {
        // Concentrate on a few related paths, so that listeners meet.
        if chance(4, 5) && !self.prefer.is_empty() {
            self.prefer[choose(self.prefer.len())]
        } else {
            choose(self.paths.len())
        }
    }
    fn create(&mut self) {
        let path = self.pick_path();
        let bubbling = choose(100) < self.bubbling_pct;
        let ps: &'p [Named<'p>] = self.paths;
        let stream = if bubbling { ps[path].path.bubbling() } else { ps[path].path.until() };
        log(format!("create L{} {}{}", self.next, if bubbling { "bubbling " } else { "" }, self.name(path)));
        self.ls.push(Listener { id: self.next, path, bubbling, stream, pending: false, armed: None, used: vec![] });
        self.next += 1;
    }
    fn poll(&mut self, i: usize) {
        step();
        let w = match choose(3) {
            0 => count_waker(),
            1 => self.pool[choose(self.pool.len())].clone(),
            _ => self.ls[i].used.last().cloned().unwrap_or_else(count_waker),
        };
        let name = self.name(self.ls[i].path);
        let l = &mut self.ls[i];
        let waker = w.waker();
        let before = w.n();
        let got = l.stream.as_mut().poll_next(&mut Context::from_waker(&waker));
        log(format!("poll L{} {} -> {}", l.id, name, got.is_ready()));
        match got {
            Poll::Ready(None) => violate("wait-ended", format!("the wait for changes of {name} ended")),
            Poll::Ready(Some(())) => {
                check!(l.pending, "spurious-change", "the {}wait L{} on {name} reported a change, but neither that path nor a related one was mutably borrowed since it was created or last reported", if l.bubbling { "bubbling " } else { "" }, l.id);
                probe("wait reported");
                l.armed = None;
            }
            Poll::Pending => {
                check!(!l.pending, "missed-change", "the {}wait L{} on {name} is pending although a relevant mutable borrow was made since it was created or last reported", if l.bubbling { "bubbling " } else { "" }, l.id);
                l.armed = Some((w.clone(), before));
            }
        }
        l.pending = false;
        drop(waker);
        if !l.used.iter().any(|u| Arc::ptr_eq(u, &w)) {
            l.used.push(w);
        }
    }
    fn changed(&mut self, p: usize) {
        let segs = &self.paths[p].segs;
        for l in &mut self.ls {
            let ls = &self.paths[l.path].segs;
            let hit = if l.bubbling { is_prefix(ls, segs) } else { is_prefix(segs, ls) };
            if hit {
                l.pending = true;
                if let Some((w, n)) = l.armed.take() {
                    check!(
                        w.n() > n,
                        "lost-wake",
                        "L{} on /{} was not woken by a change of /{}",
                        l.id,
                        ls.join("/"),
                        segs.join("/")
                    );
                    probe("wait woken");
                }
            }
        }
    }
    fn drop_listener(&mut self, i: usize) {
        let l = if chance(1, 2) { self.ls.remove(i) } else { self.ls.swap_remove(i) };
        log(format!("drop L{}", l.id));
        fault("wait dropped");
        let used = l.used;
        let (id, _) = (l.id, drop(l.stream));
        drop(l.armed);
        // The store holds the last waker a wait was polled with, and must have
        // let go of it (and of any earlier one) now.
        for w in used {
            let others = self.ls.iter().filter(|o| o.used.iter().any(|u| Arc::ptr_eq(u, &w))).count();
            if others == 0 {
                let mine = self.pool.iter().filter(|p| Arc::ptr_eq(p, &w)).count() + 1;
                check!(Arc::strong_count(&w) == mine, "waker-kept", "a waker of the dropped wait L{id} is still held by the store");
            }
        }
    }
}

// ---------------------------------------------------------------- many places at once

#[derive(Trackable)]
#[track(deep)]
pub struct Crowd {
    ints: HashMap<u32, u32>,
    names: HashMap<String, u32>,
    pairs: HashMap<(u8, u16), Vec<u32>>,
    list: Vec<(u32, u32)>,
}
/// Waits at some of very many places that differ in nothing but their key,
/// while most of the others change.
fn crowd(bubbling_pct: usize) {
    probe("crowd");
    let n = 120 + choose(500);
    let pad = [0u32, 1, 1000, 0xffff_0000][choose(4)];
    let st = Store::new(Crowd {
        ints: (0..n as u32).map(|i| (pad ^ i, i)).collect(),
        names: (0..n).map(|i| (format!("k{i}"), 0)).collect(),
        pairs: (0..n).map(|i| ((i as u8, i as u16), vec![0])).collect(),
        list: (0..n).map(|_| (0, 0)).collect(),
    });
    type Dyn<'s> = Box<dyn Path<Out = u32> + 's>;
    let r = || st.build_path();
    let place = |k: usize, i: usize| -> Dyn<'_> {
        match k {
            0 => Box::new(r().ints().key(pad ^ i as u32).into_path()),
            1 => Box::new(r().names().key_shallow(format!("k{i}")).into_path()),
            2 => Box::new(r().pairs().key((i as u8, i as u16)).index(0).into_path()),
            3 => Box::new(r().list().index(i).t0().into_path()),
            _ => Box::new(r().list().index(i).t1().into_path()),
        }
    };
    let mut dirty: Vec<Vec<bool>> = vec![vec![false; n]; 5];
    let mut watched: Vec<(usize, usize)> = (0..20 + choose(40)).map(|_| (choose(5), choose(n))).collect();
    if chance(1, 3) {
        // very many of them at a few places
        fault("crowd_of_waits_at_one_place");
        let few = 1 + choose(3);
        let more = if chance(1, 2) { 1500 } else { 200 };
        for k in 0..choose(more) {
            watched.push(watched[k % few]);
        }
    }
    let ps: Vec<Dyn> = watched.iter().map(|(k, i)| place(*k, *i)).collect();
    let mut waits: Vec<(BoxStream<()>, Arc<CountWaker>)> = ps
        .iter()
        .map(|p| {
            let s: BoxStream<()> = if choose(100) < bubbling_pct { Box::pin(p.until_bubbling_change()) } else { Box::pin(p.until_change()) };
            (s, count_waker())
        })
        .collect();
    let mut round = |waits: &mut Vec<(BoxStream<()>, Arc<CountWaker>)>, dirty: &mut Vec<Vec<bool>>| {
        for ((k, i), (s, w)) in watched.iter().zip(waits.iter_mut()) {
            step();
            let waker = w.waker();
            let got = s.as_mut().poll_next(&mut Context::from_waker(&waker)).is_ready();
            let want = dirty[*k][*i];
            check!(!got || want, "spurious-change", "a wait at one of {n} places of kind {k} reported a change, but only other places changed");
            check!(got || !want, "missed-change", "a wait at one of {n} places of kind {k} did not report a change of its place");
            if got {
                let again = s.as_mut().poll_next(&mut Context::from_waker(&waker)).is_ready();
                check!(!again, "spurious-change", "a wait at one of {n} places of kind {k} reported one change twice");
            }
        }
        for d in dirty.iter_mut() {
            d.fill(false);
        }
    };
    round(&mut waits, &mut dirty);
    for _ in 0..1 + choose(3) {
        let (k, sparse) = (choose(6), choose(3));
        for i in 0..n {
            let ks = if k < 5 { k..k + 1 } else { 0..5 };
            for k in ks {
                let mine = watched.contains(&(k, i));
                if mine && sparse > 0 || i % 7 == 0 && sparse == 1 {
                    continue;
                }
                let before: Vec<u64> = if mine { waits.iter().map(|w| w.1.n()).collect() } else { vec![] };
                if let Some(mut b) = place(k, i).borrow_opt_mut() {
                    *b += 1;
                }
                dirty[k][i] = true;
                if mine {
                    for (j, wi) in watched.iter().enumerate() {
                        check!(*wi != (k, i) || waits[j].1.n() > before[j], "lost-wake", "a wait at one of {n} places of kind {k} was not woken by a change of its place");
                    }
                }
            }
        }
        round(&mut waits, &mut dirty);
    }
}

fn setup_world<'p>(ps: &'p [Named<'p>], bubbling_pct: usize) -> World<'p> {
    let anchor = choose(ps.len());
    let mut prefer: Vec<usize> = (0..ps.len())
        .filter(|i| is_prefix(&ps[*i].segs, &ps[anchor].segs) || is_prefix(&ps[anchor].segs, &ps[*i].segs))
        .collect();
    let extra = choose(4);
    for _ in 0..extra {
        prefer.push(choose(ps.len()));
    }
    World { paths: ps, ls: vec![], next: 0, pool: vec![count_waker(), count_waker(), null_waker(0), null_waker(1)], prefer, bubbling_pct }
}

fn waits(bubbling_pct: usize, data_checks: bool) {
    if !data_checks && chance(1, 30) {
        return crowd(bubbling_pct);
    }
    let seed = choose(40) as u64;
    let store = Store::new(Root::make(seed));
    let mut model = Root::make(seed);
    let by_ref = (store.build_path().b().into_path(), store.build_path().items().index(0).into_path());
    let mut ps = paths(&store, true);
    ps.push(named("b/x".into(), by_ref.0.as_ref_path().x(), |r| Some(&mut r.b.x)));
    ps.push(named("items/[0]/list".into(), by_ref.1.as_ref_path().list(), |r| r.items.get_mut(0).map(|s| &mut s.list)));
    let mut w = setup_world(&ps, bubbling_pct);
    let mut shared: Option<Rc<u32>> = None;
    let max_live = range(2, 9);
    let ops = range(4, 60);
    for _ in 0..ops {
        span(|| {
            step();
            match weighted(&[6, 8, 6, 3, 1]) {
                0 if w.ls.len() < max_live => w.create(),
                1 if !w.ls.is_empty() => {
                    let i = choose(w.ls.len());
                    w.poll(i);
                }
                3 if !w.ls.is_empty() => {
                    let i = choose(w.ls.len());
                    w.drop_listener(i);
                }
                4 => {
                    // Somebody else holds on to the content of the Rc: it
                    // can't be borrowed mutably while that is so.
                    if shared.take().is_none() && data_checks {
                        shared = Some(store.build_path().rc().borrow().clone());
                        fault("content of an Rc shared");
                    }
                }
                _ => {
                    let p = w.pick_path();
                    let r = choose(1 << 16) as u64;
                    let how = if chance(1, 8) { TOUCH } else { choose(3) };
                    // What happens while the guard is held.
                    let plan = if how != 2 { choose(4) } else { 0 };
                    let name = w.name(p);
                    let reading = chance(1, 8);
                    let rc_locked = name == "/rc/*" && shared.as_ref().map_or(false, |s| Rc::strong_count(s) > 1);
                    let before = ps[p].path.read();
                    if chance(1, 40) {
                        // Very many changes between two polls.
                        let n = match choose(400) {
                            0 => 65_536,
                            i => [128, 255, 256, 257, 512][i % 5],
                        };
                        fault("burst of changes");
                        log(format!("notify {name} {n} times"));
                        ps[p].path.notify(n);
                        w.changed(p);
                        return;
                    }
                    let wc = RefCell::new(&mut w);
                    let mut inside = || {
                        if plan > 0 {
                            fault("waits used while the store is borrowed");
                        }
                        let mut w = wc.borrow_mut();
                        match plan {
                            1 => w.create(),
                            2 if !w.ls.is_empty() => {
                                let i = choose(w.ls.len());
                                w.poll(i)
                            }
                            3 if !w.ls.is_empty() => {
                                let i = choose(w.ls.len());
                                w.drop_listener(i)
                            }
                            _ => {}
                        }
                    };
                    if reading {
                        let ok = ps[p].path.while_reading(&mut inside);
                        check!(ok == (ps[p].plain)(&mut model).is_some(), "wrong-availability", "{name}: borrow_opt is_some = {ok}");
                        return;
                    }
                    let ok = match &ps[p].always {
                        Some(g) if chance(1, 2) => {
                            check!(Some(g.read()) == before, "wrong-data", "{name}: borrow and borrow_opt differ");
                            g.mutate(r, how, &mut inside);
                            true
                        }
                        _ => ps[p].path.mutate(r, how, &mut inside),
                    };
                    log(format!("mutate {name} r={r} how={how} -> {ok}"));
                    let m = (ps[p].plain)(&mut model);
                    if rc_locked {
                        check!(!ok, "wrong-availability", "{name} was mutably borrowed although its Rc is shared");
                    } else {
                        check!(ok == m.is_some(), "wrong-availability", "{name}: data at this path exists: {}, mutable borrow succeeded: {ok}", m.is_some());
                    }
                    check!(ok || ps[p].path.read() == before, "wrong-data", "{name} changed by a borrow that failed");
                    if ok {
                        if how != TOUCH {
                            (ps[p].edit)(&mut model, r);
                        }
                        fault("mutable borrow");
                        w.changed(p);
                    } else {
                        probe("borrow of missing data");
                    }
                    if data_checks {
                        for n in &ps {
                            let want = (n.plain)(&mut model);
                            check!(n.path.read() == want, "wrong-data", "/{} read {:?}, model {:?} after editing {name}", n.segs.join("/"), n.path.read(), want);
                        }
                    }
                }
            }
        });
    }
    // Everything still waiting reports exactly what it must.
    for i in 0..w.ls.len() {
        w.poll(i);
        w.poll(i);
    }
    check!(ps[0].path.read() == Some(model.digest()), "wrong-data", "the store's data differs from the plain copy at the end");
    while !w.ls.is_empty() {
        let i = choose(w.ls.len());
        w.drop_listener(i);
    }
    for p in &w.pool {
        check!(Arc::strong_count(p) == 1, "waker-kept", "a shared waker is still held by the store after all waits were dropped");
    }
}
pub fn changes() {
    waits(25, false)
}
pub fn bubbling() {
    waits(75, false)
}
pub fn data() {
    waits(20, true)
}

/// C18: many listeners come and go; the store must not grow with their number.
pub fn leftovers() {
    let seed = choose(8) as u64;
    let mut root = Root::make(seed);
    root.grid = (0..64).map(|_| vec![0u32; 4]).collect();
    let store = Store::new(root);
    let ps = paths(&store, true);
    let max_live = range(1, 6);
    let pct = choose(101);
    let mut w = setup_world(&ps, pct);
    let deep: Vec<_> = (0..640usize).map(|i| store.build_path().grid().index(i % 64).index(i / 64).into_path()).collect();
    // Warm up with the largest number of simultaneous waits.
    {
        let mut v: Vec<BoxStream<()>> = vec![];
        for i in 0..max_live * 2 {
            let s: BoxStream<()> = counted(|| -> BoxStream<()> { if i % 2 == 0 { Box::pin(deep[i].until_change()) } else { Box::pin(deep[i].until_bubbling_change()) } });
            v.push(s);
        }
        while let Some(s) = v.pop() {
            counted(|| drop(s));
        }
    }
    let base = live_bytes();
    let cycles = range(20, 400);
    {
        let mut v: std::collections::VecDeque<(BoxStream<()>, Arc<CountWaker>)> = Default::default();
        for i in 0..cycles {
            step();
            span(|| {
                while v.len() >= max_live {
                    let (s, cw) = if chance(1, 2) { v.pop_front().unwrap() } else { v.pop_back().unwrap() };
                    counted(|| drop(s));
                    fault("wait dropped");
                    check!(Arc::strong_count(&cw) == 1, "waker-kept", "a waker of a dropped wait is still held by the store");
                }
                let p = &deep[(i * 7 + choose(3)) % deep.len()];
                let b = choose(100) < pct;
                let mut s: BoxStream<()> = counted(|| -> BoxStream<()> { if b { Box::pin(p.until_bubbling_change()) } else { Box::pin(p.until_change()) } });
                let cw = count_waker();
                if chance(3, 4) {
                    let k = cw.waker();
                    let _ = counted(|| s.as_mut().poll_next(&mut Context::from_waker(&k)));
                }
                v.push_back((s, cw));
                if chance(1, 3) {
                    counted(|| drop(store.build_path().grid().index(i % 64).borrow_opt_mut()));
                    fault("mutable borrow");
                }
            });
        }
        while let Some((s, cw)) = v.pop_back() {
            counted(|| drop(s));
            check!(Arc::strong_count(&cw) == 1, "waker-kept", "a waker of a dropped wait is still held by the store");
        }
    }
    let grown = live_bytes() - base;
    log(format!("grown {grown}"));
    check!(grown < 4096, "store-grows", "{cycles} waits with at most {max_live} alive at a time were created and dropped; the store keeps {grown} more bytes than before");
    probe("cleanup measured");
    // The same at a place of any other kind and depth.
    {
        let p = {
            let a = choose(ps.len());
            let b = choose(ps.len());
            if chance(2, 3) && ps[b].segs.len() > ps[a].segs.len() { b } else { a }
        };
        let path = &ps[p].path;
        let open = |n: usize| -> BoxStream<()> { counted(|| if n < pct { path.bubbling() } else { path.until() }) };
        {
            let mut v: Vec<_> = (0..max_live * 2).map(|i| open(if i % 2 == 0 { 0 } else { 100 })).collect();
            while let Some(s) = v.pop() {
                counted(|| drop(s));
            }
        }
        let base = live_bytes();
        let cycles = range(10, 80);
        let mut v: std::collections::VecDeque<(BoxStream<()>, Arc<CountWaker>)> = Default::default();
        for i in 0..=cycles {
            step();
            span(|| {
                while v.len() >= max_live || (i == cycles && !v.is_empty()) {
                    let (s, cw) = if chance(1, 2) { v.pop_front().unwrap() } else { v.pop_back().unwrap() };
                    counted(|| drop(s));
                    check!(Arc::strong_count(&cw) == 1, "waker-kept", "a waker of a dropped wait at a place with {} parts is still held by the store", ps[p].segs.len());
                }
                if i == cycles {
                    return;
                }
                let mut s = open(choose(100));
                let cw = count_waker();
                if chance(3, 4) {
                    let k = cw.waker();
                    let _ = counted(|| s.as_mut().poll_next(&mut Context::from_waker(&k)));
                }
                v.push_back((s, cw));
                if chance(1, 3) {
                    counted(|| path.notify(1));
                }
            });
        }
        drop(v);
        let grown = live_bytes() - base;
        log(format!("grown at {} {grown}", w.name(p)));
        check!(grown < 2048, "store-grows", "{cycles} waits at a place with {} parts, at most {max_live} alive at a time, were created and dropped; the store keeps {grown} more bytes than before", ps[p].segs.len());
    }
    // The store still works as a fresh one.
    for _ in 0..range(2, 12) {
        span(|| match choose(3) {
            0 => w.create(),
            1 if !w.ls.is_empty() => {
                let i = choose(w.ls.len());
                w.poll(i)
            }
            _ => {
                let p = w.pick_path();
                if ps[p].path.mutate(choose(1 << 16) as u64, 0, &mut || {}) {
                    w.changed(p);
                }
            }
        });
    }
    for i in 0..w.ls.len() {
        w.poll(i);
    }
}

// ---------------------------------------------------------------- C17: value loops

/// What a handler future of for_each_async does.
pub struct Handler {
    sh: Rc<Shared>,
    id: usize,
    task: usize,
    gates: usize,
    mutate_at: Option<(usize, usize, u64)>,
    mutate_in_drop: Option<(usize, u64)>,
}
#[derive(Default)]
pub struct Shared {
    handlers: RefCell<Vec<HState>>,
    queue: RefCell<Vec<(usize, u64)>>,
    /// Applies a store edit right away; set while the paths are alive.
    edit: RefCell<Option<Box<dyn Fn(usize, u64)>>>,
}
struct HState {
    task: usize,
    dropped: bool,
    done: bool,
    open: bool,
    waker: Option<Waker>,
    must_poll: bool,
    polled: bool,
}
impl Future for Handler {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        step();
        let id = self.id;
        {
            let mut hs = self.sh.handlers.borrow_mut();
            check!(!hs[id].dropped && !hs[id].done, "polled-after-end", "a handler was polled after it ended");
            let newest = hs.iter().rposition(|h| h.task == self.task).unwrap();
            check!(newest == id, "stale-handler", "an older handler of a loop was polled after a newer value arrived");
            hs[id].must_poll = false;
            hs[id].polled = true;
            hs[id].waker = Some(cx.waker().clone());
        }
        if let Some((at, p, r)) = self.mutate_at {
            if at == self.gates {
                self.mutate_at = None;
                fault("store mutated inside a handler");
                self.sh.edit_now(p, r);
            }
        }
        if self.gates == 0 {
            self.sh.handlers.borrow_mut()[id].done = true;
            return Poll::Ready(());
        }
        let mut hs = self.sh.handlers.borrow_mut();
        if hs[id].open {
            hs[id].open = false;
            drop(hs);
            self.gates -= 1;
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }
}
impl Drop for Handler {
    fn drop(&mut self) {
        let mut hs = self.sh.handlers.borrow_mut();
        check!(!hs[self.id].dropped, "double-drop", "a handler was dropped twice");
        hs[self.id].dropped = true;
        hs[self.id].waker = None;
        let done = hs[self.id].done;
        drop(hs);
        if let Some((p, r)) = self.mutate_in_drop.take() {
            if !done {
                fault("store mutated while a cancelled handler is dropped");
                self.sh.edit_now(p, r);
            }
        }
    }
}
impl Shared {
    fn edit_now(&self, p: usize, r: u64) {
        let f = self.edit.borrow();
        if let Some(f) = &*f {
            f(p, r)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Each,
    EachAsync,
    Signal(bool),
    Bind,
}
enum Driver<'p> {
    Fut(BoxFut<'p>),
    Stream(BoxStream<'p, u64>),
}
struct Incoming {
    q: RefCell<Vec<u64>>,
    ended: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}
struct In(Rc<Incoming>);
impl Stream for In {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let mut q = self.0.q.borrow_mut();
        if !q.is_empty() {
            return Poll::Ready(Some(q.remove(0)));
        }
        if self.0.ended.get() {
            return Poll::Ready(None);
        }
        *self.0.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}
struct Task<'p> {
    id: usize,
    kind: Kind,
    path: usize,
    driver: Option<Driver<'p>>,
    waker: Arc<CountWaker>,
    seen: u64,
    polled: bool,
    incoming: Rc<Incoming>,
    log: Rc<RefCell<Vec<u64>>>,
}
/// Model state shared with edits made from anywhere.
struct Model {
    root: RefCell<Root>,
    dirty: RefCell<Vec<(usize, bool)>>, // per task: path, relevant change not yet handled
    own_write: Cell<Option<usize>>,
}

pub fn loops() {
    let seed = choose(40) as u64;
    // Leaked: edits are made from inside handlers of any lifetime.
    let store: &'static Store<Root> = Box::leak(Box::new(Store::new(Root::make(seed))));
    let ps: &'static Vec<Named<'static>> = Box::leak(Box::new(paths(store, false)));
    let model = Rc::new(Model { root: RefCell::new(Root::make(seed)), dirty: RefCell::new(vec![]), own_write: Cell::new(None) });
    let sh: Rc<Shared> = Rc::default();
    let mark = {
        let model = model.clone();
        Rc::new(move |p: usize| {
            for (i, (tp, d)) in model.dirty.borrow_mut().iter_mut().enumerate() {
                if is_prefix(&ps[p].segs, &ps[*tp].segs) && model.own_write.get() != Some(i) {
                    *d = true;
                }
            }
        })
    };
    let apply = {
        let (model, mark) = (model.clone(), mark.clone());
        Rc::new(move |p: usize, r: u64| {
            let how = if r % 13 == 5 { TOUCH } else { (r % 3) as usize };
            let ok = ps[p].path.mutate(r, how, &mut || {});
            log(format!("mutate /{} r={r} how={how} -> {ok}", ps[p].segs.join("/")));
            let mut m = model.root.borrow_mut();
            let v = (ps[p].plain)(&mut m);
            check!(ok == v.is_some(), "wrong-availability", "/{}: mutable borrow succeeded: {ok}", ps[p].segs.join("/"));
            if v.is_some() {
                if how != TOUCH {
                    (ps[p].edit)(&mut m, r);
                }
                drop(m);
                mark(p);
            }
        })
    };
    *sh.edit.borrow_mut() = Some(Box::new({
        let apply = apply.clone();
        move |p, r| apply(p, r)
    }));
    // A small set of related paths.
    let anchor = choose(ps.len());
    let mut prefer: Vec<usize> = (0..ps.len()).filter(|i| is_prefix(&ps[*i].segs, &ps[anchor].segs)).collect();
    for _ in 0..choose(3) {
        prefer.push(choose(ps.len()));
    }
    let pick = |prefer: &Vec<usize>| if chance(7, 8) { prefer[choose(prefer.len())] } else { choose(ps.len()) };
    let mut tasks: Vec<Task<'static>> = vec![];

    let poll_task = |tasks: &mut Vec<Task<'static>>, i: usize| {
        step();
        let t = &mut tasks[i];
        let Some(driver) = t.driver.as_mut() else { return };
        let first = !t.polled;
        t.polled = true;
        if chance(1, 3) {
            t.waker = count_waker();
        }
        t.seen = t.waker.n();
        let waker = t.waker.waker();
        let mut cx = Context::from_waker(&waker);
        let name = format!("/{}", ps[t.path].segs.join("/"));
        let avail = (ps[t.path].plain)(&mut model.root.borrow_mut());
        let dirty = std::mem::replace(&mut model.dirty.borrow_mut()[t.id].1, false);
        let calls_before = t.log.borrow().len();
        // A bound value about to be written.
        let inc: Vec<u64> = t.incoming.q.borrow().clone();
        let ended = t.incoming.ended.get();
        if t.kind == Kind::Bind && !inc.is_empty() {
            let v = *inc.last().unwrap();
            if (ps[t.path].replace)(&mut model.root.borrow_mut(), v) {
                model.own_write.set(Some(t.id));
                mark(t.path);
                model.own_write.set(None);
            }
        }
        log(format!("poll T{} {:?} {name} first={first} dirty={dirty}", t.id, t.kind));
        let kind = t.kind;
        let out = match driver {
            Driver::Fut(f) => f.as_mut().poll(&mut cx).map(|()| None),
            Driver::Stream(s) => match s.as_mut().poll_next(&mut cx) {
                Poll::Ready(Some(v)) => {
                    t.log.borrow_mut().push(v);
                    Poll::Ready(Some(v))
                }
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            },
        };
        let t = &mut tasks[i];
        let calls = t.log.borrow()[calls_before..].to_vec();
        log(format!("  -> ready={} calls={calls:?}", out.is_ready()));
        if !calls.is_empty() {
            probe("value handled");
        }
        let fires = match kind {
            Kind::Signal(f) => (first && f) || dirty,
            _ => first || dirty,
        };
        match kind {
            Kind::Each | Kind::EachAsync => {
                check!(out.is_pending(), "loop-ended", "a value loop on {name} ended");
                let want: Vec<u64> = if fires { avail.into_iter().collect() } else { vec![] };
                check!(calls == want, "wrong-value", "loop T{i} on {name} (first poll: {first}, changed: {dirty}) handled {calls:?}, expected {want:?}");
            }
            Kind::Signal(_) => {
                if fires {
                    match (avail, out) {
                        (Some(a), Poll::Ready(Some(v))) => check!(a == v, "wrong-value", "stream T{i} on {name} yielded a wrong value"),
                        (None, Poll::Ready(None)) => {
                            probe("stream ended on missing data");
                            t.driver = None;
                        }
                        (a, o) => violate("wrong-value", format!("stream T{i} on {name} (first poll: {first}, changed: {dirty}): data available: {}, result {o:?}", a.is_some())),
                    }
                    // A stream that was ready has not registered its waker
                    // for later changes in the consumer's eyes: poll again.
                    t.waker.waker().wake();
                } else {
                    check!(out.is_pending(), "spurious-change", "stream T{i} on {name} yielded without a change");
                }
            }
            Kind::Bind => {
                let gone = !inc.is_empty() && avail.is_none();
                check!(out.is_ready() == (ended || gone), "bind-end", "binding T{i} on {name}: incoming ended: {ended}, finished: {}", out.is_ready());
                if out.is_ready() {
                    t.driver = None;
                    fault("bound stream ended");
                }
                let now = (ps[t.path].plain)(&mut model.root.borrow_mut());
                if !inc.is_empty() {
                    check!(ps[t.path].path.read() == now, "lost-write", "a value from the bound stream of T{i} was not stored at {name}");
                    probe("bound value stored");
                    check!(calls.is_empty() || first, "echoed-write", "binding T{i} on {name} called its handler for its own write");
                } else if !out.is_ready() {
                    let want: Vec<u64> = if fires { avail.into_iter().collect() } else { vec![] };
                    check!(calls == want, "wrong-value", "binding T{i} on {name} (first poll: {first}, changed: {dirty}) handled {calls:?}, expected {want:?}");
                }
            }
        }
    };
    let quiesce = |tasks: &mut Vec<Task<'static>>| {
        loop {
            let ready: Vec<usize> = tasks
                .iter()
                .enumerate()
                .filter(|(_, t)| t.driver.is_some() && (!t.polled || t.waker.n() > t.seen))
                .map(|(i, _)| i)
                .collect();
            if ready.is_empty() {
                break;
            }
            let i = ready[choose(ready.len())];
            poll_task(tasks, i);
        }
        for t in tasks.iter() {
            if t.driver.is_none() {
                continue;
            }
            check!(!model.dirty.borrow()[t.id].1, "latest-value-missed", "T{} on /{} is idle although its value changed", t.id, ps[t.path].segs.join("/"));
            check!(t.incoming.q.borrow().is_empty(), "lost-write", "T{} is idle although its bound stream has a value", t.id);
        }
        for (id, h) in sh.handlers.borrow().iter().enumerate() {
            check!(!h.must_poll || h.dropped, "lost-wake", "handler {id} was woken but not polled");
            let newest = sh.handlers.borrow().iter().rposition(|o| o.task == h.task).unwrap();
            if newest == id && tasks[h.task].driver.is_some() && ps[tasks[h.task].path].path.read().is_some() {
                check!(h.polled, "handler-lost", "handler {id} of T{} was created for the latest value but never run", h.task);
                check!(h.done || !h.dropped, "handler-lost", "handler {id} of T{} was dropped unfinished although no newer value arrived", h.task);
            }
            if !h.dropped && !h.done {
                let newest = sh.handlers.borrow().iter().rposition(|o| o.task == h.task).unwrap();
                check!(newest == id, "stale-handler", "handler {id} is still alive although a newer value arrived");
            }
            check!(!h.done || h.dropped, "handler-kept", "handler {id} completed but was not dropped");
        }
    };
    let n_ops = range(3, 40);
    for _ in 0..n_ops {
        span(|| {
            step();
            match weighted(&[6, 8, 4, 3, 3, 3, 2]) {
                0 if tasks.len() < 6 => {
                    let kind = [Kind::Each, Kind::EachAsync, Kind::Signal(true), Kind::Signal(false), Kind::Bind][weighted(&[3, 4, 2, 1, 3])];
                    let path = pick(&prefer);
                    let id = tasks.len();
                    let calls: Rc<RefCell<Vec<u64>>> = Rc::default();
                    let incoming = Rc::new(Incoming { q: RefCell::default(), ended: Cell::new(false), waker: RefCell::default() });
                    let p = &ps[path].path;
                    let c = calls.clone();
                    let driver = match kind {
                        Kind::Each => Driver::Fut(p.for_each(Box::new(move |v| c.borrow_mut().push(v)))),
                        Kind::EachAsync => {
                            let sh = sh.clone();
                            let prefer = prefer.clone();
                            Driver::Fut(p.for_each_async(Box::new(move |v| {
                                c.borrow_mut().push(v);
                                let gates = choose(4);
                                let hid = {
                                    let mut hs = sh.handlers.borrow_mut();
                                    hs.push(HState { task: id, dropped: false, done: false, open: false, waker: None, must_poll: true, polled: false });
                                    hs.len() - 1
                                };
                                let n = sh.handlers.borrow().len();
                                let mutate_at = if n < 30 && chance(1, 4) { Some((choose(gates + 1), pick(&prefer), choose(1 << 12) as u64)) } else { None };
                                let mutate_in_drop = if n < 30 && chance(1, 6) { Some((pick(&prefer), choose(1 << 12) as u64)) } else { None };
                                Handler { sh: sh.clone(), id: hid, task: id, gates, mutate_at, mutate_in_drop }
                            })))
                        }
                        Kind::Signal(f) => Driver::Stream(p.signal(f)),
                        Kind::Bind => {
                            let i2 = incoming.clone();
                            Driver::Fut(p.bind(Box::new(move |v| c.borrow_mut().push(v)), Box::pin(In(i2))))
                        }
                    };
                    log(format!("new T{id} {kind:?} /{}", ps[path].segs.join("/")));
                    model.dirty.borrow_mut().push((path, false));
                    tasks.push(Task { id, kind, path, driver: Some(driver), waker: count_waker(), seen: 0, polled: false, incoming, log: calls });
                }
                1 | 0 => {
                    let p = pick(&prefer);
                    let r = choose(1 << 16) as u64;
                    fault("mutable borrow");
                    apply(p, r);
                }
                2 => {
                    // Open a gate of a running handler.
                    let hs: Vec<usize> = sh.handlers.borrow().iter().enumerate().filter(|(_, h)| h.waker.is_some() && !h.done).map(|(i, _)| i).collect();
                    if !hs.is_empty() {
                        let h = hs[choose(hs.len())];
                        let w = {
                            let mut s = sh.handlers.borrow_mut();
                            s[h].open = true;
                            s[h].must_poll = true;
                            s[h].waker.take().unwrap()
                        };
                        w.wake();
                    }
                }
                3 => {
                    let b: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].kind == Kind::Bind && tasks[*i].driver.is_some()).collect();
                    if !b.is_empty() {
                        let t = &tasks[b[choose(b.len())]];
                        for _ in 0..range(1, 3) {
                            t.incoming.q.borrow_mut().push(choose(1 << 12) as u64);
                        }
                        if chance(1, 5) {
                            t.incoming.ended.set(true);
                        }
                        fault("bound value");
                        if let Some(w) = t.incoming.waker.borrow_mut().take() {
                            w.wake()
                        }
                    }
                }
                4 => {
                    let r: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].driver.is_some()).collect();
                    if !r.is_empty() {
                        // Possibly a spurious poll.
                        let i = r[choose(r.len())];
                        poll_task(&mut tasks, i);
                    }
                }
                5 => quiesce(&mut tasks),
                _ => {
                    let r: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].driver.is_some()).collect();
                    if !r.is_empty() {
                        let i = r[choose(r.len())];
                        fault("loop cancelled");
                        log(format!("cancel T{i}"));
                        let d = tasks[i].driver.take();
                        drop(d);
                        for h in sh.handlers.borrow().iter() {
                            check!(h.task != i || h.dropped, "handler-kept", "a handler of the cancelled loop T{i} is still alive");
                        }
                    }
                }
            }
        });
    }
    quiesce(&mut tasks);
    let want = model.root.borrow().digest();
    check!(ps[0].path.read() == Some(want), "wrong-data", "the store's data differs from the plain copy at the end");
    *sh.edit.borrow_mut() = None;
    drop(tasks);
    for (i, h) in sh.handlers.borrow().iter().enumerate() {
        check!(h.dropped, "handler-kept", "handler {i} was never dropped");
    }
    let _ = store;
}
