//! Duplication of nested values.
use crate::out::Ev;
use crate::reg::*;
use crate::win::*;
use fallible_collections::{FallibleBox, TryBox, TryClone, TryVec};
#[cfg(feature = "hash")]
use fallible_collections::TryHashMap;
#[cfg(feature = "unstable")]
use fallible_collections::btree::BTreeMap;
use std::sync::Arc;

/// A token: structure [code, n, 0, 0], or leaf [0, value, identity, shared].
type Tok = Vec<i64>;
pub trait Shape: TryClone + 'static {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self;
    fn flat(&self, sh: i64, o: &mut Vec<Tok>);
    /// writes v into leaf number *k
    fn poke(&mut self, k: &mut i64, v: i64);
}
macro_rules! leaf { ($($t:ty),*) => { $(impl Shape for $t {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { <$t as Elem>::make(i.next().unwrap_or(0)) }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) { let x = self.obs(); o.push(vec![0, x.0, x.1, sh, !<$t as Elem>::COPY as i64]); }
    fn poke(&mut self, k: &mut i64, v: i64) { if *k == 0 { Elem::set(self, v); } *k -= 1; }
})* } }
leaf!(T, H, A32, Z, u64, u8, bool, i8);
impl<S: Shape> Shape for Option<S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { if i.next().unwrap_or(0) % 4 == 3 { None } else { Some(S::build(i)) } }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) { o.push(vec![1, self.is_some() as i64, 0, 0]); if let Some(x) = self { x.flat(sh, o) } }
    fn poke(&mut self, k: &mut i64, v: i64) { if let Some(x) = self { x.poke(k, v) } }
}
fn many<S: Shape>(i: &mut dyn Iterator<Item = i64>) -> Vec<S> { let n = i.next().unwrap_or(0) % 4; let mut v = Vec::new(); for _ in 0..n { v.push(S::build(i)); } v }
impl<S: Shape> Shape for Vec<S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { many(i) }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) { o.push(vec![2, self.len() as i64, 0, 0]); for x in self { x.flat(sh, o) } }
    fn poke(&mut self, k: &mut i64, v: i64) { for x in self { x.poke(k, v) } }
}
impl<S: Shape> Shape for TryVec<S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { many(i).into() }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) { o.push(vec![3, self.len() as i64, 0, 0]); for x in self.iter() { x.flat(sh, o) } }
    fn poke(&mut self, k: &mut i64, v: i64) { for x in self.iter_mut() { x.poke(k, v) } }
}
impl<S: Shape> Shape for Box<S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { <Box<S> as FallibleBox<S>>::try_new(S::build(i)).ok().unwrap() }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) { o.push(vec![4, 1, 0, 0]); (**self).flat(sh, o) }
    fn poke(&mut self, k: &mut i64, v: i64) { (**self).poke(k, v) }
}
impl<S: Shape> Shape for TryBox<S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { TryBox::try_new(S::build(i)).ok().unwrap() }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) { o.push(vec![5, 1, 0, 0]); (**self).flat(sh, o) }
    fn poke(&mut self, k: &mut i64, v: i64) { unsafe { let p = &**self as *const S as *mut S; (*p).poke(k, v) } }
}
impl<S: Shape> Shape for Arc<S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self { Arc::new(S::build(i)) }
    fn flat(&self, _: i64, o: &mut Vec<Tok>) { o.push(vec![6, 1, 0, 0]); (**self).flat(1, o) }
    fn poke(&mut self, k: &mut i64, v: i64) { let mut o = vec![]; self.flat(1, &mut o); if let Some(x) = Arc::get_mut(self) { x.poke(k, v) } else { *k -= o.iter().filter(|x| x[0] == 0).count() as i64; } }
}
#[cfg(feature = "hash")]
impl<K: Key, S: Shape> Shape for TryHashMap<K, S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self {
        let mut m = TryHashMap::default();
        let n = i.next().unwrap_or(0) % 4;
        for j in 0..n { m.insert(K::make(j), S::build(i)).unwrap(); }
        m
    }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) {
        o.push(vec![7, self.len() as i64, 0, 0]);
        let mut v: Vec<(&K, &S)> = self.iter().collect();
        v.sort_by_key(|x| x.0.obs().0);
        for (k, x) in v { let a = k.obs(); o.push(vec![0, a.0, a.1, sh, 1]); x.flat(sh, o) }
    }
    fn poke(&mut self, _: &mut i64, _: i64) {}
}
#[cfg(feature = "unstable")]
impl<K: Key, S: Shape> Shape for BTreeMap<K, S> {
    fn build(i: &mut dyn Iterator<Item = i64>) -> Self {
        let mut m = BTreeMap::new();
        let n = i.next().unwrap_or(0);
        let n = if n > 30 { n } else { n % 4 };
        for j in 0..n { m.try_insert(K::make(j), S::build(i)).ok().unwrap(); }
        m
    }
    fn flat(&self, sh: i64, o: &mut Vec<Tok>) {
        o.push(vec![8, self.len() as i64, 0, 0]);
        for (k, x) in self.iter() { let a = k.obs(); o.push(vec![0, a.0, a.1, sh, 1]); x.flat(sh, o) }
    }
    fn poke(&mut self, k: &mut i64, v: i64) { for (_, x) in self.iter_mut() { *k -= 1; x.poke(k, v) } }
}

pub struct D<S: Shape> { v: Vec<Option<S>> }
impl<S: Shape> D<S> {
    pub fn new() -> Self { D { v: vec![None, None, None] } }
    fn toks(&self, s: usize) -> Vec<Tok> { let mut o = vec![]; match &self.v[s] { None => o.push(vec![9, 0, 0, 0]), Some(x) => x.flat(0, &mut o) } o }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let mut d = s;
        let ok;
        match op {
            "mk" => {
                let vs = list(t[2]);
                let mut it = vs.iter().cloned();
                let old = self.v[s].take();
                win(&Plan::default(), || drop(old));
                ok = match win(&Plan::default(), || { S::build(&mut it) }) { None => 2, Some(x) => { self.v[s] = Some(x); 1 } };
                reg().cl = 0;
            }
            "tc" => {
                d = t[2].parse().unwrap();
                let old = self.v[d].take();
                win(&Plan::default(), || drop(old));
                let x = &self.v[s];
                // counted from here
                e.i("al0", reg().al).i("blk0", crate::alloc::ctl().blk).i("eblk0", crate::alloc::ctl().eblk);
                ok = match x {
                    None => { win(p, || {}); 1 }
                    Some(x) => match win(p, || x.try_clone()) { None => 2, Some(Err(_)) => 0, Some(Ok(y)) => { self.v[d] = Some(y); 1 } },
                };
            }
            "mu" => {
                let (mut k, v) = (t[2].parse().unwrap(), t[3].parse().unwrap());
                e.i("k", k).i("v", v);
                let x = &mut self.v[s];
                ok = win(p, || { if let Some(x) = x { x.poke(&mut k, v) } }).map_or(2, |_| 1);
            }
            "dr" => { let x = self.v[s].take(); ok = win(p, || drop(x)).map_or(2, |_| 1); }
            _ => panic!("unknown shape op {}", op),
        }
        let mk = std::mem::take(&mut reg().made);
        e.i("t", d as i64).i("ok", ok).vs("st", &self.toks(s)).vs("st2", &self.toks(d)).vs("sto", &self.toks(3 - s - if d == s { (s + 1) % 3 } else { d })).ps("mk", &mk);
        e
    }
}

/// Numbers: the duplicate, as text.
pub fn number(t: &[&str], p: &Plan) -> Ev {
    let mut e = Ev::new("num");
    let (ty, v) = (t[1], t[2]);
    let mut out = String::new();
    macro_rules! go { ($($n:literal $ty:ty),*) => { match ty { $($n => { let x: $ty = v.parse().unwrap(); match win(p, || x.try_clone()) { None => 2, Some(Err(_)) => 0, Some(Ok(y)) => { out = format!("{}", y); 1 } } })* _ => panic!("type") } } }
    let ok = go!("u8" u8, "u16" u16, "u32" u32, "u64" u64, "i8" i8, "i16" i16, "i32" i32, "i64" i64, "usize" usize, "isize" isize, "bool" bool);
    e.t("ty", ty).t("in", v).t("out", &out).i("ok", ok);
    e
}
