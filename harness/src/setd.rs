//! Ordered sets.  Elements are logged like map entries without a value: [value, identity, 0, 0].
use crate::alloc::off;
use crate::ord::*;
use crate::out::Ev;
use crate::reg::*;
use crate::win::*;
use fallible_collections::btree::BTreeSet;
use std::ops::Bound;

pub struct S<K: Key> { m: Vec<BTreeSet<K>> }
type Y = Vec<i64>;
fn k4<K: Key>(k: &K) -> Y { let o = k.obs(); off(|| vec![o.0, o.1, 0, 0]) }
fn rf(b: &Bound<Probe>) -> Bound<&Probe> { match b { Bound::Included(x) => Bound::Included(x), Bound::Excluded(x) => Bound::Excluded(x), _ => Bound::Unbounded } }
struct SrcIt<'a, K>(&'a [i64], usize, std::marker::PhantomData<K>);
impl<'a, K: Key> Iterator for SrcIt<'a, K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        callback(b'i');
        if self.1 < self.0.len() {
            self.1 += 1;
            let k = K::make(self.0[self.1 - 1]);
            off(|| { let a = k.obs(); reg().made.push((a.1, a.0)); reg().made.push((0, 0)); });
            Some(k)
        } else { None }
    }
}
impl<K: Key + Clone> S<K> {
    pub fn new() -> Self { S { m: (0..3).map(|_| BTreeSet::new()).collect() } }
    pub fn held(&self) -> (*const u8, usize) { (self.m.as_ptr() as *const u8, std::mem::size_of_val(&self.m[..])) }
    fn all(&self, s: usize) -> Vec<Y> {
        let n = self.m[s].len();
        self.m[s].iter().take(n + 3).map(|k| k4(k)).collect()
    }
    /// whether walking backwards shows the same
    fn both(&self, s: usize, a: &[Y]) -> bool {
        let mut n = a.len();
        for k in self.m[s].iter().rev().take(n + 3) { if n == 0 || k4(k) != a[n - 1] { return false; } n -= 1; }
        n == 0
    }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let mut full = op == "scan";
        let mut other = None;
        let n = |i: usize| t[i].parse::<i64>().unwrap();
        let mut r: Option<Y> = None;
        let ok;
        match op {
            "sins" => {
                let k = K::make(n(2));
                e.is("k", &k2(&k));
                let m = &mut self.m[s];
                ok = match win(p, || m.try_insert(k)) { None => 2, Some(Err(_)) => 0, Some(Ok(b)) => { if b { r = Some(vec![]); } 1 } };
            }
            "rep" => {
                let k = K::make(n(2));
                e.is("k", &k2(&k));
                let m = &mut self.m[s];
                ok = match win(p, || m.replace(k)) { None => 2, Some(Err(_)) => 0, Some(Ok(b)) => { r = b.as_ref().map(k4); 1 } };
            }
            "take" => {
                e.is("k", &[n(2), 0]);
                let m = &mut self.m[s];
                let pr = Probe(n(2) as i32);
                ok = match win(p, || m.take(&pr)) { None => 2, Some(b) => { r = b.as_ref().map(k4); 1 } };
            }
            "srm" => {
                e.is("k", &[n(2), 0]);
                let m = &mut self.m[s];
                let pr = Probe(n(2) as i32);
                ok = match win(p, || m.remove(&pr)) { None => 2, Some(b) => { if b { r = Some(vec![]); } 1 } };
            }
            "sget" => {
                let how = t[3];
                e.is("k", &[n(2), 0]).t("how", how);
                let m = &self.m[s];
                let pr = Probe(n(2) as i32);
                let k = K::make(n(2));
                ok = match how {
                    "k" => win(p, || { r = m.get::<K>(&k).map(k4); }),
                    "p" => win(p, || { r = m.get(&pr).map(k4); }),
                    _ => win(p, || { if m.contains(&pr) { r = Some(vec![]); } }),
                }.map_or(2, |_| 1);
            }
            "clear" => { let m = &mut self.m[s]; ok = win(p, || m.clear()).map_or(2, |_| 1); }
            "ext" | "fromit" | "extr" => {
                let ks = list(t[2]);
                e.ps("kvs", &ks.iter().map(|&k| (k, 0)).collect::<Vec<_>>());
                let src = SrcIt::<K>(&ks, 0, std::marker::PhantomData);
                if op == "extr" {
                    let pv: Vec<PK> = ks.iter().map(|&k| PK::make(k)).collect();
                    let m = (&mut self.m[s] as &mut dyn std::any::Any).downcast_mut::<BTreeSet<PK>>().unwrap();
                    ok = win(p, || m.extend(pv.iter())).map_or(2, |_| 1);
                    for _ in 0..2 * ks.len() { reg().made.push((0, 0)); }
                }
                else if op == "ext" { let m = &mut self.m[s]; ok = win(p, || m.extend(src)).map_or(2, |_| 1); }
                else { ok = match win(p, || src.collect::<BTreeSet<K>>()) { None => 2, Some(x) => { self.m[s] = x; 1 } }; }
                full = true;
            }
            "cl" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                other = Some(d);
                let m = &self.m[s];
                ok = match win(p, || m.clone()) { None => 2, Some(x) => { self.m[d] = x; 1 } };
                full = true;
            }
            "sp" => {
                let d = n(3) as usize;
                e.is("k", &[n(2), 0]).i("t", d as i64);
                other = Some(d);
                let pr = Probe(n(2) as i32);
                self.m[d] = BTreeSet::new();
                let m = &mut self.m[s];
                ok = match win(p, || m.try_split_off(&pr)) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.m[d] = x; 1 } };
            }
            "ap" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                other = Some(d);
                let (a, b) = unsafe { let q = self.m.as_mut_ptr(); (&mut *q.add(s), &mut *q.add(d)) };
                ok = win(p, || a.append(b)).map_or(2, |_| 1);
            }
            "rel" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                let (a, b) = (&self.m[s], &self.m[d]);
                let mut res = [0i64; 5];
                ok = win(p, || { res = [(a == b) as i64, (a != b) as i64, ordn(a.partial_cmp(b)), ordn(Some(a.cmp(b))), 0]; }).map_or(2, |_| 1);
                res[4] = crate::alloc::watched(|| hash_of(a) == hash_of(b)) as i64;
                e.is("rr", &res);
            }
            "pred" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                let (a, b) = (&self.m[s], &self.m[d]);
                let mut res = [0i64; 3];
                ok = win(p, || { res = [a.is_subset(b) as i64, a.is_superset(b) as i64, a.is_disjoint(b) as i64]; }).map_or(2, |_| 1);
                e.is("rr", &res);
            }
            "alg" => {
                let d = n(2) as usize;
                let (kd, stp) = (t[3], t[4]);
                e.i("t", d as i64).t("kd", kd).chars("stp", stp);
                let (a, b) = (&self.m[s], &self.m[d]);
                let mut dv = Drv::default();
                let dp = &mut dv;
                let f = |k: &K| k4(k);
                ok = match kd {
                    "dif" => win(p, || { let i = a.difference(b); off(|| dp.hs.extend(hint_some(&i))); steps(i, |_, _| None, fin_fwd, |i| Some(i.clone()), hint_some, f, stp, dp) }),
                    "sym" => win(p, || { let i = a.symmetric_difference(b); off(|| dp.hs.extend(hint_some(&i))); steps(i, |_, _| None, fin_fwd, |i| Some(i.clone()), hint_some, f, stp, dp) }),
                    "int" => win(p, || { let i = a.intersection(b); off(|| dp.hs.extend(hint_some(&i))); steps(i, |_, _| None, fin_fwd, |i| Some(i.clone()), hint_some, f, stp, dp) }),
                    _ => win(p, || { let i = a.union(b); off(|| dp.hs.extend(hint_some(&i))); steps(i, |_, _| None, fin_fwd, |i| Some(i.clone()), hint_some, f, stp, dp) }),
                }.map_or(2, |_| 1);
                e.i("ns", dv.ys.len() as i64).vs("ys", &dv.ys).is("hs", &dv.hs).vs("cs", &dv.cs).vs("xs", &dv.xs).vs("rst", &dv.fs);
            }
            "algo" => {
                // operator form; the result goes to a third slot
                let (d, kd, u) = (n(2) as usize, t[3], n(4) as usize);
                e.i("t", d as i64).t("kd", kd).i("u", u as i64);
                self.m[u] = BTreeSet::new();
                let (a, b) = (&self.m[s], &self.m[d]);
                let res = match kd {
                    "dif" => win(p, || a - b), "sym" => win(p, || a ^ b), "int" => win(p, || a & b), _ => win(p, || a | b),
                };
                ok = match res { None => 2, Some(x) => { self.m[u] = x; 1 } };
                e.vs("st3", &self.all(u)).i("ln3", self.m[u].len() as i64);
            }
            "dbg" => {
                let m = &self.m[s];
                let txt = win(p, || { let n = crate::out::written(m); off(|| { let t = crate::out::texts(m); assert!(t.0.len() + t.1.len() == n); t }) });
                ok = if txt.is_some() { 1 } else { 2 };
                let txt = txt.unwrap_or_default();
                e.t("txt", &txt.0).t("tp", &txt.1).i("te", txt.2);
            }
            "drop" => { let m = std::mem::take(&mut self.m[s]); ok = win(p, || drop(m)).map_or(2, |_| 1); }
            "scan" => { ok = 1; win(p, || {}); e.i("em", crate::alloc::watched(|| { let a = self.all(s); self.both(s, &a); self.m[s].is_empty() }) as i64); }
            "it" => {
                let (kd, stp) = (t[2], t[3]);
                e.t("kd", kd).chars("stp", stp);
                let mut d = Drv::default();
                let dp = &mut d;
                ok = match kd {
                    "r" => { let m = &self.m[s]; win(p, || steps(m.iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_exact, |a| k4(a), stp, dp)) }
                    "b" => { let m = &self.m[s]; win(p, || steps(m.into_iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_exact, |a| k4(a), stp, dp)) }
                    _ => { let m = std::mem::take(&mut self.m[s]); win(p, || steps(m.into_iter(), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |_| None, hint_exact, |a| k4(&a), stp, dp)) }
                }.map_or(2, |_| 1);
                e.i("ns", d.ys.len() as i64).vs("ys", &d.ys).is("hs", &d.hs).vs("cs", &d.cs).vs("tds", &d.ds).vs("xs", &d.xs).vs("rst", &d.fs);
            }
            "rg" => {
                let (mode, lo, hi, stp) = (t[2], t[3], t[4], t[5]);
                let (a, b) = (parse(lo), parse(hi));
                e.t("kd", mode).t("lk", &(a.0 as char).to_string()).i("lo", a.1).t("hk", &(b.0 as char).to_string()).i("hi", b.1).chars("stp", stp);
                let mut d = Drv::default();
                let dp = &mut d;
                let mut got = 0i64;
                let gp = &mut got;
                let (bl, bh) = (bp(lo), bp(hi));
                let rr = (rf(&bl), rf(&bh));
                let m = &self.m[s];
                ok = win(p, || steps(made_of(m.range::<Probe, _>(rr), gp), |i, k| if k == 0 { i.next_back() } else { i.nth_back(k) }, fin_both, |i| Some(i.clone()), hint_some, |a| k4(a), stp, dp)).map_or(2, |_| 1);
                e.i("got", got).i("ns", d.ys.len() as i64).vs("ys", &d.ys).is("hs", &d.hs).vs("cs", &d.cs).vs("tds", &d.ds).vs("xs", &d.xs).vs("rst", &d.fs);
            }
            _ => panic!("unknown set op {}", op),
        }
        if ok != 1 || self.m[s].len() <= 12 || reg().lied { full = true; }
        if op == "sp" || op == "ap" { full = true; }
        e.i("ok", ok).vs("r", &r.into_iter().collect::<Vec<_>>());
        e.i("ln", self.m[s].len() as i64);
        if let Some(d) = other { e.i("ln2", self.m[d].len() as i64); }
        if full {
            let a = self.all(s);
            let mut bk = self.both(s, &a);
            e.vs("st", &a);
            if let Some(d) = other { let a = self.all(d); bk = bk && self.both(d, &a); e.vs("st2", &a); }
            e.i("bk", bk as i64);
        }
        let mk: Vec<(i64, i64)> = std::mem::take(&mut reg().made);
        e.ps("mk", &mk);
        let mis = self.m[s].iter().take(64).any(|k| k as *const K as usize % std::mem::align_of::<K>() != 0);
        e.i("mis", mis as i64);
        e
    }
}
