//! Collections shared between threads and handed from one to another, and which of them may be.
use crate::alloc::{ctl, off, watched};
use crate::out::Ev;
use crate::win::*;
#[cfg(feature = "unstable")]
use fallible_collections::btree::{BTreeMap, BTreeSet};
#[cfg(feature = "hash")]
use fallible_collections::TryHashMap;
use fallible_collections::{TryBox, TryClone, TryVec};
use std::marker::PhantomData;
use std::sync::Barrier;

/// Keys and values are plain numbers; a set has values 0.
pub trait Sh: Send + Sync + Sized {
    fn empty() -> Self;
    fn ins(&mut self, k: u32, v: u32) -> Result<Option<u32>, ()>;
    fn rm(&mut self, k: u32) -> Option<u32>;
    fn get(&self, k: u32) -> Option<u32>;
    fn len(&self) -> usize;
    fn all(&self, back: bool) -> Vec<i64>;
    fn range(&self, _lo: u32, _hi: u32, _back: bool) -> Vec<i64> { vec![] }
    fn dup(&self) -> Option<Self>;
    fn same(&self, o: &Self) -> bool;
    fn text(&self) -> String;
    fn split(&mut self, _k: u32) -> Option<Self> { None }
    fn join(&mut self, _o: &mut Self) {}
}
fn flat<'a>(i: impl Iterator<Item = (&'a u32, &'a u32)>) -> Vec<i64> {
    let mut r = vec![];
    for (n, (a, b)) in i.enumerate() { if n % 5 == 4 { std::thread::yield_now(); } r.push(*a as i64); r.push(*b as i64); }
    r
}
#[cfg(feature = "unstable")]
impl Sh for BTreeMap<u32, u32> {
    fn empty() -> Self { BTreeMap::new() }
    fn ins(&mut self, k: u32, v: u32) -> Result<Option<u32>, ()> { self.try_insert(k, v).map_err(|_| ()) }
    fn rm(&mut self, k: u32) -> Option<u32> { self.remove(&k) }
    fn get(&self, k: u32) -> Option<u32> { if self.contains_key(&k) { BTreeMap::get(self, &k).copied() } else { None } }
    fn len(&self) -> usize { BTreeMap::len(self) }
    fn all(&self, back: bool) -> Vec<i64> { if back { flat(self.iter().rev()) } else { flat(self.iter()) } }
    fn range(&self, lo: u32, hi: u32, back: bool) -> Vec<i64> { let r = BTreeMap::range(self, lo..=hi); if back { flat(r.rev()) } else { flat(r) } }
    fn dup(&self) -> Option<Self> { self.try_clone().ok() }
    fn same(&self, o: &Self) -> bool { self == o && self.cmp(o) == std::cmp::Ordering::Equal }
    fn text(&self) -> String { format!("{:?}", self) }
    fn split(&mut self, k: u32) -> Option<Self> { self.split_off(&k).ok() }
    fn join(&mut self, o: &mut Self) { self.append(o) }
}
#[cfg(feature = "unstable")]
impl Sh for BTreeSet<u32> {
    fn empty() -> Self { BTreeSet::new() }
    fn ins(&mut self, k: u32, _: u32) -> Result<Option<u32>, ()> { self.try_insert(k).map(|b| if b { None } else { Some(0) }).map_err(|_| ()) }
    fn rm(&mut self, k: u32) -> Option<u32> { self.take(&k).map(|_| 0) }
    fn get(&self, k: u32) -> Option<u32> { if self.contains(&k) { BTreeSet::get(self, &k).map(|_| 0) } else { None } }
    fn len(&self) -> usize { BTreeSet::len(self) }
    fn all(&self, back: bool) -> Vec<i64> {
        if back { flat(self.iter().rev().map(|a| (a, &0))) } else { flat(self.union(self).map(|a| (a, &0))) }
    }
    fn range(&self, lo: u32, hi: u32, back: bool) -> Vec<i64> { let r = BTreeSet::range(self, lo..=hi).map(|a| (a, &0)); if back { flat(r.rev()) } else { flat(r) } }
    fn dup(&self) -> Option<Self> { Some(self.clone()) }
    fn same(&self, o: &Self) -> bool { self == o && self.is_subset(o) && self.difference(o).next().is_none() }
    fn text(&self) -> String { format!("{:?}", self) }
    fn split(&mut self, k: u32) -> Option<Self> { self.try_split_off(&k).ok() }
    fn join(&mut self, o: &mut Self) { self.append(o) }
}
#[cfg(feature = "hash")]
impl Sh for TryHashMap<u32, u32> {
    fn empty() -> Self { TryHashMap::default() }
    fn ins(&mut self, k: u32, v: u32) -> Result<Option<u32>, ()> { self.insert(k, v).map_err(|_| ()) }
    fn rm(&mut self, k: u32) -> Option<u32> { self.remove(&k) }
    fn get(&self, k: u32) -> Option<u32> { TryHashMap::get(self, &k).copied() }
    fn len(&self) -> usize { TryHashMap::len(self) }
    fn all(&self, _: bool) -> Vec<i64> {
        let mut v: Vec<(u32, u32)> = self.iter().map(|(a, b)| (*a, *b)).collect();
        v.sort();
        flat(v.iter().map(|x| (&x.0, &x.1)))
    }
    fn dup(&self) -> Option<Self> { self.try_clone().ok() }
    fn same(&self, o: &Self) -> bool { self.all(false) == o.all(false) }
    fn text(&self) -> String { format!("{:?}", self) }
}

/// how often a program is gone through, at the least and in time
const AGAIN: u32 = 12;
const FOR: std::time::Duration = std::time::Duration::from_millis(2);
pub struct D<S: Sh> { m: Vec<S> }

/// One call of another thread's program.
fn read<S: Sh>(m: &S, c: &str) -> Vec<i64> {
    let n = |s: &str| s.parse::<u32>().unwrap();
    let (o, a) = c.split_at(1);
    match o {
        "g" => m.get(n(a)).map_or(vec![], |v| vec![v as i64]),
        "l" => vec![m.len() as i64],
        "f" => m.all(false),
        "b" => m.all(true),
        "r" | "q" => { let (x, y) = a.split_once('-').unwrap(); m.range(n(x), n(y), o == "q") }
        "c" => m.dup().map_or(vec![-1], |d| d.all(false)),
        "e" => m.dup().map_or(vec![-1], |d| vec![m.same(&d) as i64]),
        _ => { let mut r = vec![]; let mut cur = String::new(); for c in m.text().chars().chain(" ".chars()) { if c.is_ascii_digit() { cur.push(c) } else { if let Ok(x) = cur.parse() { r.push(x) } cur.clear() } } r }
    }
}
/// One call here or on another thread, which has the collection for so long.
fn at<R: Send>(there: bool, p: &Plan, f: impl FnOnce() -> R + Send) -> Option<R> {
    if !there { return win(p, f); }
    win(p, || off(|| std::thread::scope(|s| s.spawn(|| { ctl().off -= 1; let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); ctl().off += 1; r }).join().unwrap())))
        .and_then(|r| r.ok())
}
impl<S: Sh> D<S> {
    pub fn new() -> Self { D { m: (0..3).map(|_| S::empty()).collect() } }
    pub fn held(&self) -> (*const u8, usize) { (self.m.as_ptr() as *const u8, std::mem::size_of_val(&self.m[..])) }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        let n = |i: usize| t[i].parse::<u32>().unwrap();
        e.i("s", s as i64);
        let mut r: Option<u32> = None;
        let mut other = None;
        let there = t[t.len() - 1] == "@";
        let ok = match op {
            "ins" => { e.i("k", n(2) as i64).i("v", n(3) as i64); let m = &mut self.m[s]; match at(there, p, || m.ins(n(2), n(3))) { None => 2, Some(Err(())) => 0, Some(Ok(x)) => { r = x; 1 } } }
            "rm" => { e.i("k", n(2) as i64); let m = &mut self.m[s]; match at(there, p, || m.rm(n(2))) { None => 2, Some(x) => { r = x; 1 } } }
            "get" => { e.i("k", n(2) as i64); let m = &self.m[s]; match at(there, p, || m.get(n(2))) { None => 2, Some(x) => { r = x; 1 } } }
            "dup" => {
                let d = n(2) as usize;
                other = Some(d);
                let m = &self.m[s];
                match at(there, p, || m.dup()) { None => 2, Some(None) => 0, Some(Some(x)) => { self.m[d] = x; 1 } }
            }
            "sp" => {
                let d = n(3) as usize;
                e.i("k", n(2) as i64);
                other = Some(d);
                self.m[d] = S::empty();
                let m = &mut self.m[s];
                match at(there, p, || m.split(n(2))) { None => 2, Some(None) => 0, Some(Some(x)) => { self.m[d] = x; 1 } }
            }
            "ap" => {
                let d = n(2) as usize;
                other = Some(d);
                let mut o = std::mem::replace(&mut self.m[d], S::empty());
                let m = &mut self.m[s];
                let ok = at(there, p, || m.join(&mut o)).map_or(2, |_| 1);
                self.m[d] = o;
                ok
            }
            "drop" => { let m = std::mem::replace(&mut self.m[s], S::empty()); at(there, p, move || drop(m)).map_or(2, |_| 1) }
            // several threads read at once, each a collection, again and again; programs (S/calls) separated by ';', calls by ','
            "par" => {
                let prg: Vec<(usize, Vec<&str>)> = t[2].split(';').map(|x| { let (a, b) = x.split_once('/').unwrap(); (a.parse().unwrap(), b.split(',').collect()) }).collect();
                let m = &self.m;
                win(p, || {});
                let res: Vec<Option<Vec<Vec<i64>>>> = watched(|| off(|| {
                    let gate = Barrier::new(prg.len());
                    let gate = &gate;
                    std::thread::scope(|sc| {
                        let hs: Vec<_> = prg.iter().map(|q| sc.spawn(move || {
                            gate.wait();
                            let mut a: Vec<_> = q.1.iter().map(|c| read(&m[q.0], c)).collect();
                            // an answer that is not like the first one is the one to look at
                            let t0 = std::time::Instant::now();
                            let mut k = 0;
                            while k < AGAIN || t0.elapsed() < FOR { k += 1; for (i, c) in q.1.iter().enumerate() { let b = read(&m[q.0], c); if b != a[i] { a[i] = b; return a; } } }
                            a
                        })).collect();
                        hs.into_iter().map(|h| h.join().ok()).collect()
                    })
                }));
                let fine = res.iter().all(|x| x.is_some());
                e.s.push_str(",\"th\":[");
                for (i, (q, a)) in prg.iter().zip(res.iter()).enumerate() {
                    if i > 0 { e.s.push(','); }
                    e.s.push('[');
                    for (j, (c, y)) in q.1.iter().zip(a.iter().flatten()).enumerate() {
                        if j > 0 { e.s.push(','); }
                        let (x, z) = c[1..].split_once('-').unwrap_or((&c[1..], "0"));
                        e.s.push_str(&format!("{{\"s\":{},\"o\":\"{}\",\"a\":{},\"b\":{},\"r\":{:?}}}", q.0, &c[..1], if x.is_empty() { "0" } else { x }, z, y));
                    }
                    e.s.push(']');
                }
                e.s.push(']');
                if fine { 1 } else { 2 }
            }
            _ => panic!("unknown op {}", op),
        };
        e.i("ok", ok).is("r", &r.into_iter().map(|x| x as i64).collect::<Vec<_>>()).i("ln", self.m[s].len() as i64).is("st", &self.m[s].all(false));
        if let Some(d) = other { e.i("t", d as i64).is("st2", &self.m[d].all(false)); }
        e
    }
}

// Which types may be handed to another thread, and which may be seen from one.
struct P<T>(PhantomData<T>);
trait Not { const SEND: i64 = 0; const SYNC: i64 = 0; }
impl<T> Not for P<T> {}
struct A<T>(PhantomData<T>);
struct B<T>(PhantomData<T>);
impl<T> Not for A<T> {}
impl<T> Not for B<T> {}
#[allow(dead_code)]
impl<T: Send> A<T> { const SEND: i64 = 1; }
#[allow(dead_code)]
impl<T: Sync> B<T> { const SYNC: i64 = 1; }
pub struct Marks;
type Bo = u32;
type Se = std::cell::Cell<u32>;
type Sy = std::sync::MutexGuard<'static, u32>;
type No = *const u32;
macro_rules! ask { ($r:ident, $name:expr, $k:expr, $v:expr, $t:ty) => { $r.push(($name, $k, $v, <A<$t>>::SEND, <B<$t>>::SYNC)); } }
macro_rules! one { ($r:ident, $k:expr, $K:ty) => {
    ask!($r, "plain", $k, "b", $K);
    ask!($r, "vec", $k, "b", TryVec<$K>);
    ask!($r, "box", $k, "b", TryBox<$K>);
    ask!($r, "veciter", $k, "b", <&'static TryVec<$K> as IntoIterator>::IntoIter);
    ask!($r, "vecwalk", $k, "b", fallible_collections::vec::Iter<'static, $K>);
    ask!($r, "vecwalkm", $k, "b", fallible_collections::vec::IterMut<'static, $K>);
    ask!($r, "vecown", $k, "b", <TryVec<$K> as IntoIterator>::IntoIter);
    #[cfg(feature = "unstable")] {
        use fallible_collections::btree::set;
        ask!($r, "set", $k, "b", set::BTreeSet<$K>);
        ask!($r, "setiter", $k, "b", set::Iter<'static, $K>);
        ask!($r, "setown", $k, "b", set::IntoIter<$K>);
        ask!($r, "setrange", $k, "b", set::Range<'static, $K>);
        ask!($r, "setdif", $k, "b", set::Difference<'static, $K>);
        ask!($r, "setsym", $k, "b", set::SymmetricDifference<'static, $K>);
        ask!($r, "setint", $k, "b", set::Intersection<'static, $K>);
        ask!($r, "setuni", $k, "b", set::Union<'static, $K>);
    }
} }
macro_rules! two { ($r:ident, $k:expr, $K:ty, $v:expr, $V:ty) => {
    #[cfg(feature = "hash")] { ask!($r, "hash", $k, $v, TryHashMap<$K, $V>); }
    #[cfg(feature = "unstable")] {
        use fallible_collections::btree::map;
        ask!($r, "map", $k, $v, map::BTreeMap<$K, $V>);
        ask!($r, "iter", $k, $v, map::Iter<'static, $K, $V>);
        ask!($r, "iterm", $k, $v, map::IterMut<'static, $K, $V>);
        ask!($r, "own", $k, $v, map::IntoIter<$K, $V>);
        ask!($r, "keys", $k, $v, map::Keys<'static, $K, $V>);
        ask!($r, "values", $k, $v, map::Values<'static, $K, $V>);
        ask!($r, "valuesm", $k, $v, map::ValuesMut<'static, $K, $V>);
        ask!($r, "range", $k, $v, map::Range<'static, $K, $V>);
        ask!($r, "rangem", $k, $v, map::RangeMut<'static, $K, $V>);
        ask!($r, "entry", $k, $v, map::Entry<'static, $K, $V>);
        ask!($r, "vacant", $k, $v, map::VacantEntry<'static, $K, $V>);
        ask!($r, "occupied", $k, $v, map::OccupiedEntry<'static, $K, $V>);
    }
} }
macro_rules! row { ($r:ident, $k:expr, $K:ty) => { one!($r, $k, $K); two!($r, $k, $K, "b", Bo); two!($r, $k, $K, "s", Se); two!($r, $k, $K, "y", Sy); two!($r, $k, $K, "n", No); } }
fn marks() -> Vec<(&'static str, &'static str, &'static str, i64, i64)> {
    let mut r = vec![];
    row!(r, "b", Bo);
    row!(r, "s", Se);
    row!(r, "y", Sy);
    row!(r, "n", No);
    r
}
impl Marks {
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let (x, kk, vk) = (t[1], t[2], t[3]);
        win(p, || {});
        let mut e = Ev::new("mark");
        e.t("x", x).t("k", kk).t("v", vk);
        match marks().iter().find(|m| m.0 == x && m.1 == kk && m.2 == vk) {
            Some(m) => e.i("there", 1).i("snd", m.3).i("syn", m.4),
            None => e.i("there", 0).i("snd", 0).i("syn", 0),
        };
        e.i("ok", 1);
        e
    }
}
