//! Ordered maps.
use crate::alloc::off;
use crate::out::Ev;
use crate::reg::*;
use crate::win::*;
use fallible_collections::btree::{map::Entry, BTreeMap};
use fallible_collections::TryClone;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

pub struct D<K: Key, V: Val> { m: Vec<BTreeMap<K, V>> }

pub fn k2<K: Key>(k: &K) -> Y { let o = k.obs(); off(|| vec![o.0, o.1]) }
fn v2<V: Val>(v: &V) -> Y { let o = v.obs(); off(|| vec![o.0, o.1]) }
fn kv<K: Key, V: Val>(k: &K, v: &V) -> Y { let (a, b) = (k.obs(), v.obs()); off(|| vec![a.0, a.1, b.0, b.1]) }

/// Front and back steps; what was yielded, and the hints after each step.  N and R skip one entry first;
/// D asks for the text of the iterator, C takes a clone and uses it up.
pub fn ints(s: &str) -> Y {
    let mut r = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_ascii_digit() || (c == '-' && cur.is_empty()) { cur.push(c) }
        else { if let Ok(x) = cur.parse::<i128>() { r.push(if x >= 65536 { x & 0xffff } else { x } as i64) } cur.clear(); }
    }
    r
}
/// the numbers shown between the outermost brackets
fn shown<T: std::fmt::Debug>(t: &T) -> Y {
    let s = format!("{:?}", t);
    match (s.find('['), s.rfind(']')) { (Some(a), Some(b)) if a < b => ints(&s[a..b]), _ => vec![-1] }
}
pub fn steps<I: Iterator + std::fmt::Debug>(mut it: I, back: impl Fn(&mut I, usize) -> Option<I::Item>, fin: impl Fn(I, char, &mut dyn FnMut(I::Item)) -> i64, dup: impl Fn(&I) -> Option<I>, hint: impl Fn(&I) -> [i64; 3],
    f: impl Fn(I::Item) -> Y, stp: &str, d: &mut Drv) {
    for c in stp.chars() {
        if c == 'C' {
            // a clone is taken here and run to its end; the original goes on afterwards
            if let Some(c) = dup(&it) {
                for x in c { let y = f(x); off(|| d.cs.push(y)) }
                let n = dup(&it).unwrap().count();
                let l = dup(&it).unwrap().last().map_or(vec![], &f);
                off(|| { d.xs.push(vec![n as i64]); d.xs.push(l); });
            }
            continue;
        }
        if c == 'D' { off(|| { let y = shown(&it); d.ds.push(y) }); continue; }
        if "AZLK".contains(c) {
            // all at once: everything from the front, from the back, the last only, how many
            let fs = &mut d.fs;
            let n = fin(it, c, &mut |x| { let y = f(x); off(|| fs.push(y)) });
            if c == 'K' { off(|| d.fs.push(vec![n])); }
            return;
        }
        let (bk, by) = crate::win::stride(c);
        let y = if bk { back(&mut it, by) } else if by > 0 { it.nth(by) } else { it.next() }.map_or(vec![], &f);
        let h = hint(&it);
        off(|| { d.ys.push(y); d.hs.extend(h); });
    }
}
pub fn hint_exact<I: ExactSizeIterator>(i: &I) -> [i64; 3] { let h = i.size_hint(); [h.0 as i64, h.1.map_or(-1, |x| x as i64), i.len() as i64] }
pub fn hint_some<I: Iterator>(i: &I) -> [i64; 3] { let h = i.size_hint(); [h.0 as i64, h.1.map_or(-1, |x| x as i64), -1] }

/// i5, e7, u
pub fn parse(s: &str) -> (u8, i64) { if s == "u" { (b'u', 0) } else { (s.as_bytes()[0], s[1..].parse().unwrap()) } }
pub fn bp(s: &str) -> Bound<Probe> { match parse(s) { (b'i', n) => Bound::Included(Probe(n as i32)), (b'e', n) => Bound::Excluded(Probe(n as i32)), _ => Bound::Unbounded } }
fn rf(b: &Bound<Probe>) -> Bound<&Probe> { match b { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), _ => Bound::Unbounded } }
/// notes that the range was handed out
pub fn made_of<I>(i: I, got: &mut i64) -> I { *got = 1; i }
pub fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
pub fn ordn(o: Option<Ordering>) -> i64 { o.map_or(9, |x| x as i64) }

struct SrcIt<'a, K, V>(&'a [(i64, i64)], usize, std::marker::PhantomData<(K, V)>);
impl<'a, K: Key, V: Val> Iterator for SrcIt<'a, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        callback(b'i');
        if self.1 < self.0.len() {
            self.1 += 1;
            let (k, v) = self.0[self.1 - 1];
            let (k, v) = (K::make(k), V::make(v));
            off(|| { let (a, b) = (k.obs(), v.obs()); reg().made.push((a.1, a.0)); reg().made.push((b.1, b.0)); });
            Some((k, v))
        } else { None }
    }
}
fn made<V: Val>(v: i64) -> V { callback(b'g'); let x = V::make(v); off(|| { let b = x.obs(); reg().made.push((b.1, b.0)) }); x }

impl<K: Key, V: Val> D<K, V> {
    pub fn new() -> Self { D { m: (0..3).map(|_| BTreeMap::new()).collect() } }
    pub fn held(&self) -> (*const u8, usize) { (self.m.as_ptr() as *const u8, std::mem::size_of_val(&self.m[..])) }
    fn all(&self, s: usize) -> Vec<Y> {
        let n = self.m[s].len();
        let mut r = vec![];
        // bounded, so that a broken map cannot keep us here
        for (k, v) in self.m[s].iter().take(n + 3) { r.push(kv(k, v)); }
        r
    }
    /// whether walking backwards shows the same
    fn both(&self, s: usize, a: &[Y]) -> bool {
        let mut n = a.len();
        for (k, v) in self.m[s].iter().rev().take(n + 3) { if n == 0 || kv(k, v) != a[n - 1] { return false; } n -= 1; }
        n == 0
    }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let mut full = op == "scan";
        let mut other = None;
        let n = |i: usize| t[i].parse::<i64>().unwrap();
        let mut r: Option<Y> = None;
        let mut ref_ok = 1;
        let ok;
        match op {
            "ins" => {
                let (k, v) = (K::make(n(2)), V::make(n(3)));
                e.is("k", &k2(&k)).is("x", &v2(&v));
                let m = &mut self.m[s];
                ok = match win(p, || m.try_insert(k, v)) { None => 2, Some(Err(_)) => 0, Some(Ok(b)) => { r = b.as_ref().map(v2); 1 } };
            }
            "get" => {
                // by key, by borrowed form; existence; key and value; index
                let how = t[3];
                e.is("k", &[n(2), 0]).t("how", how);
                let m = &self.m[s];
                let pr = Probe(n(2) as i32);
                let k = K::make(n(2));
                ok = match how {
                    "k" => win(p, || { r = m.get::<K>(&k).map(v2); }),
                    "p" => win(p, || { r = m.get(&pr).map(v2); }),
                    "h" => win(p, || { let h = m.contains_key(&pr); r = if h { Some(vec![]) } else { None }; }),
                    "e" => win(p, || { r = m.get_key_value(&pr).map(|(a, b)| kv(a, b)); }),
                    _ => win(p, || { r = Some(v2(&m[&pr])); }),
                }.map_or(2, |_| 1);
            }
            "getm" => {
                e.is("k", &[n(2), 0]).i("v", n(3));
                let pr = Probe(n(2) as i32);
                let val = n(3);
                let m = &mut self.m[s];
                ok = win(p, || { if let Some(v) = m.get_mut(&pr) { r = Some(v2(v)); v.set(val); } }).map_or(2, |_| 1);
            }
            "rm" => {
                e.is("k", &[n(2), 0]);
                let m = &mut self.m[s];
                let pr = Probe(n(2) as i32);
                ok = match win(p, || m.remove(&pr)) { None => 2, Some(b) => { r = b.as_ref().map(v2); 1 } };
            }
            "clear" => { let m = &mut self.m[s]; ok = win(p, || m.clear()).map_or(2, |_| 1); }
            "ent" => {
                let k = K::make(n(2));
                let how = t[3];
                let val = n(4);
                let x = V::make(val);
                e.is("k", &k2(&k)).is("x", &v2(&x)).t("how", how).i("v", val);
                let m = &mut self.m[s];
                let (mut occ, mut kk, mut cur, mut back, mut tx) = (-1i64, vec![], vec![], vec![], vec![]);
                let mut called = 0i64;
                {
                    let (occ, kk, cur, back, called, tx) = (&mut occ, &mut kk, &mut cur, &mut back, &mut called, &mut tx);
                    let res = win(p, || -> Result<(), std::collections::TryReserveError> {
                        let en = m.try_entry(k)?;
                        off(|| {
                            *kk = k2(en.key());
                            *tx = ints(&format!("{:?}", en));
                            *occ = match &en { Entry::Occupied(o) => { *cur = v2(o.get()); *kk = k2(o.key()); 1 } Entry::Vacant(v) => { *kk = k2(v.key()); 0 } };
                        });
                        match how {
                            "or" => { let q = en.or_try_insert(x)?; off(|| *back = v2(q)); }
                            "orw" => { let q = en.or_try_insert_with(|| { *called += 1; drop(x); made::<V>(val) })?; off(|| *back = v2(q)); }
                            "ord" => { let q = en.or_default()?; off(|| *back = v2(q)); q.set(val); }
                            "am" => { let q = en.and_modify(|v| { *called += 1; callback(b'g'); v.set(val + 1); }).or_try_insert(x)?; off(|| *back = v2(q)); }
                            "set" => match en {
                                Entry::Occupied(mut o) => { let b = o.insert(x); off(|| *back = v2(&b)); }
                                Entry::Vacant(v) => { let q = v.try_insert(x)?; off(|| *back = v2(q)); }
                            },
                            "rm" => match en {
                                Entry::Occupied(o) => { let b = o.remove(); off(|| *back = v2(&b)); }
                                Entry::Vacant(v) => { let b = v.into_key(); off(|| *back = k2(&b)); }
                            },
                            "rme" => match en {
                                Entry::Occupied(o) => { let (a, b) = o.remove_entry(); off(|| *back = kv(&a, &b)); }
                                Entry::Vacant(v) => { let b = v.into_key(); off(|| *back = k2(&b)); }
                            },
                            "gm" => match en {
                                Entry::Occupied(mut o) => { o.get_mut().set(val); off(|| *back = v2(o.get())); }
                                Entry::Vacant(_) => {}
                            },
                            "im" => match en {
                                Entry::Occupied(o) => { let q = o.into_mut(); q.set(val); off(|| *back = v2(q)); }
                                Entry::Vacant(_) => {}
                            },
                            _ => {}
                        }
                        Ok(())
                    });
                    ok = match res { None => 2, Some(Err(_)) => 0, Some(Ok(())) => 1 };
                }
                e.i("occ", occ).is("kk", &kk).is("cur", &cur).is("back", &back).i("called", called).is("tx", &tx);
            }
            "ext" | "fromit" | "extr" => {
                let kvs: Vec<(i64, i64)> = if t[2] == "-" { vec![] } else { t[2].split(',').map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() };
                e.ps("kvs", &kvs);
                let src = SrcIt::<K, V>(&kvs, 0, std::marker::PhantomData);
                if op == "extr" {
                    // by reference, for plain keys and values
                    let pv: Vec<(PK, u64)> = kvs.iter().map(|&(k, v)| (PK::make(k), <u64 as Elem>::make(v))).collect();
                    let m = (&mut self.m[s] as &mut dyn std::any::Any).downcast_mut::<BTreeMap<PK, u64>>().unwrap();
                    ok = win(p, || m.extend(pv.iter().map(|x| (&x.0, &x.1)))).map_or(2, |_| 1);
                    for _ in 0..2 * kvs.len() { reg().made.push((0, 0)); }
                }
                else if op == "ext" { let m = &mut self.m[s]; ok = win(p, || m.extend(src)).map_or(2, |_| 1); }
                else { ok = match win(p, || src.collect::<BTreeMap<K, V>>()) { None => 2, Some(x) => { self.m[s] = x; 1 } }; }
                full = true;
            }
            "tcl" | "cl" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                other = Some(d);
                let m = &self.m[s];
                let res = if op == "tcl" { win(p, || m.try_clone()) } else { win(p, || Ok(m.clone())) };
                ok = match res { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.m[d] = x; 1 } };
                full = true;
            }
            "sp" => {
                let d = n(3) as usize;
                e.is("k", &[n(2), 0]).i("t", d as i64);
                other = Some(d);
                let pr = Probe(n(2) as i32);
                self.m[d] = BTreeMap::new(); // what was there goes away first
                let m = &mut self.m[s];
                ok = match win(p, || m.split_off(&pr)) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.m[d] = x; 1 } };
            }
            "ap" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                other = Some(d);
                let (a, b) = unsafe { let q = self.m.as_mut_ptr(); (&mut *q.add(s), &mut *q.add(d)) };
                ok = win(p, || a.append(b)).map_or(2, |_| 1);
            }
            "rel" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                let (a, b) = (&self.m[s], &self.m[d]);
                let mut res = [0i64; 5];
                ok = win(p, || {
                    res = [(a == b) as i64, (a != b) as i64, ordn(a.partial_cmp(b)), ordn(Some(a.cmp(b))), 0];
                }).map_or(2, |_| 1);
                res[4] = crate::alloc::watched(|| hash_of(a) == hash_of(b)) as i64;
                e.is("rr", &res);
            }
            "dbg" => {
                let m = &self.m[s];
                let txt = win(p, || { let n = crate::out::written(m); off(|| { let t = crate::out::texts(m); assert!(t.0.len() + t.1.len() == n); t }) });
                ok = if txt.is_some() { 1 } else { 2 };
                let txt = txt.unwrap_or_default();
                e.t("txt", &txt.0).t("tp", &txt.1).i("te", txt.2);
            }
            "drop" => { let m = std::mem::take(&mut self.m[s]); ok = win(p, || drop(m)).map_or(2, |_| 1); }
            "scan" => { ok = 1; win(p, || {}); e.i("em", crate::alloc::watched(|| { let a = self.all(s); self.both(s, &a); self.m[s].is_empty() }) as i64); }
            "it" => {
                let (kd, stp) = (t[2], t[3]);
                e.t("kd", kd).chars("stp", stp);
                let mut d = Drv::default();
                let dp = &mut d;
                ok = match kd {
                    "r" => { let m = &self.m[s]; win(p, || steps(m.iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_exact, |(a, b)| kv(a, b), stp, dp)) }
                    "b" => { let m = &self.m[s]; win(p, || steps(m.into_iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_exact, |(a, b)| kv(a, b), stp, dp)) }
                    "k" => { let m = &self.m[s]; win(p, || steps(m.keys(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_exact, |a| k2(a), stp, dp)) }
                    "v" => { let m = &self.m[s]; win(p, || steps(m.values(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_exact, |a| v2(a), stp, dp)) }
                    "m" => { let m = &mut self.m[s]; win(p, || steps(m.iter_mut(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |_| None, hint_exact, |(a, b)| { let y = kv(a, b); b.set(y[2] + 100); y }, stp, dp)) }
                    "bm" => { let m = &mut self.m[s]; win(p, || steps(m.into_iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |_| None, hint_exact, |(a, b)| { let y = kv(a, b); b.set(y[2] + 100); y }, stp, dp)) }
                    "w" => { let m = &mut self.m[s]; win(p, || steps(m.values_mut(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |_| None, hint_exact, |b| { let y = v2(b); b.set(y[0] + 100); y }, stp, dp)) }
                    _ => { let m = std::mem::take(&mut self.m[s]); win(p, || steps(m.into_iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |_| None, hint_exact, |(a, b)| kv(&a, &b), stp, dp)) }
                }.map_or(2, |_| 1);
                e.i("ns", d.ys.len() as i64).vs("ys", &d.ys).is("hs", &d.hs).vs("cs", &d.cs).vs("tds", &d.ds).vs("xs", &d.xs).vs("rst", &d.fs);
            }
            "rg" => {
                let (mode, lo, hi, stp) = (t[2], t[3], t[4], t[5]);
                let (a, b) = (parse(lo), parse(hi));
                e.t("kd", mode).t("lk", &(a.0 as char).to_string()).i("lo", a.1).t("hk", &(b.0 as char).to_string()).i("hi", b.1).chars("stp", stp);
                let mut d = Drv::default();
                let dp = &mut d;
                let mut got = 0i64;
                let gp = &mut got;
                let (bl, bh) = (bp(lo), bp(hi));
                let rr = (rf(&bl), rf(&bh));
                ok = match mode {
                    "r" => { let m = &self.m[s]; win(p, || steps(made_of(m.range::<Probe, _>(rr), gp), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_some, |(a, b)| kv(a, b), stp, dp)) }
                    _ => { let m = &mut self.m[s]; win(p, || steps(made_of(m.range_mut::<Probe, _>(rr), gp), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |_| None, hint_some, |(a, b)| { let y = kv(a, b); b.set(y[2] + 100); y }, stp, dp)) }
                }.map_or(2, |_| 1);
                e.i("got", got).i("ns", d.ys.len() as i64).vs("ys", &d.ys).is("hs", &d.hs).vs("cs", &d.cs).vs("tds", &d.ds).vs("xs", &d.xs).vs("rst", &d.fs);
            }
            _ => panic!("unknown map op {}", op),
        }
        if ok != 1 || self.m[s].len() <= 12 || reg().lied { full = true; }
        e.i("ok", ok).vs("r", &r.into_iter().collect::<Vec<_>>());
        e.i("ln", self.m[s].len() as i64);
        if let Some(d) = other { e.i("ln2", self.m[d].len() as i64); }
        if full || op == "sp" || op == "ap" {
            let a = self.all(s);
            let mut bk = self.both(s, &a);
            e.vs("st", &a);
            if let Some(d) = other { let a = self.all(d); bk = bk && self.both(d, &a); e.vs("st2", &a); }
            e.i("bk", bk as i64);
        }
        let mk: Vec<(i64, i64)> = std::mem::take(&mut reg().made);
        e.ps("mk", &mk);
        let mis = self.m[s].iter().take(64).any(|(k, v)| k as *const K as usize % std::mem::align_of::<K>() != 0 || v as *const V as usize % std::mem::align_of::<V>() != 0);
        if mis { ref_ok = 0; }
        e.i("mis", 1 - ref_ok);
        e
    }
}
