//! The hash map.
use crate::alloc::off;
use crate::out::Ev;
use crate::reg::*;
use crate::win::*;
use fallible_collections::{TryClone, TryHashMap};

type Y = Vec<i64>;
pub struct D<K: Key, V: Val> { m: Vec<TryHashMap<K, V>> }
fn y4<K: Key, V: Val>(k: &K, v: &V) -> Y { let (a, b) = (k.obs(), v.obs()); off(|| vec![a.0, a.1, b.0, b.1]) }
fn y2<E: Elem>(x: &E) -> Y { let a = x.obs(); off(|| vec![a.0, a.1]) }

impl<K: Key, V: Val> D<K, V> {
    pub fn new() -> Self { D { m: (0..3).map(|_| TryHashMap::default()).collect() } }
    pub fn held(&self) -> (*const u8, usize) { (self.m.as_ptr() as *const u8, std::mem::size_of_val(&self.m[..])) }
    /// everything the map lists, in key order
    fn all(&self, s: usize) -> Vec<Y> {
        let n = self.m[s].len();
        let mut v: Vec<Y> = self.m[s].iter().take(n + 3).map(|(k, v)| y4(k, v)).collect();
        v.sort();
        v
    }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let n = |i: usize| t[i].parse::<i64>().unwrap();
        let mut r: Option<Y> = None;
        let mut full = false;
        let mut other = None;
        let ok;
        match op {
            "hwc" => {
                let c = num(t[2]);
                e.i("n", lnum(c));
                ok = match win(p, || TryHashMap::with_capacity(c)) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.m[s] = x; 1 } };
                full = true;
            }
            "hdef" => { ok = match win(p, || TryHashMap::default()) { None => 2, Some(x) => { self.m[s] = x; 1 } }; full = true; }
            "hins" => {
                let (k, v) = (K::make(n(2)), V::make(n(3)));
                e.is("k", &y2(&k)).is("x", &y2(&v));
                let m = &mut self.m[s];
                ok = match win(p, || m.insert(k, v)) { None => 2, Some(Err(_)) => 0, Some(Ok(b)) => { r = b.as_ref().map(y2); 1 } };
            }
            "hget" => {
                e.is("k", &[n(2), 0]).t("how", t[3]);
                let m = &self.m[s];
                let pr = Probe(n(2) as i32);
                let k = K::make(n(2));
                ok = match t[3] {
                    "k" => win(p, || { r = m.get::<K>(&k).map(y2); }),
                    _ => win(p, || { r = m.get(&pr).map(y2); }),
                }.map_or(2, |_| 1);
            }
            "hrm" => {
                e.is("k", &[n(2), 0]).t("how", t[3]);
                let m = &mut self.m[s];
                let pr = Probe(n(2) as i32);
                let k = K::make(n(2));
                let x = match t[3] {
                    "k" => win(p, || m.remove::<K>(&k)),
                    _ => win(p, || m.remove(&pr)),
                };
                ok = match x { None => 2, Some(b) => { r = b.as_ref().map(y2); 1 } };
            }
            // a walk of n steps: shared (the map stays) or owning (the map is emptied, the rest dropped)
            "hit" => {
                let (kd, k) = (t[2], n(3));
                e.t("kd", kd).i("n", k);
                let mut ys: Vec<Y> = vec![];
                let mut hs: Vec<i64> = vec![];
                fn go<I: ExactSizeIterator>(mut i: I, k: i64, f: impl Fn(I::Item) -> Y, ys: &mut Vec<Y>, hs: &mut Vec<i64>) {
                    for _ in 0..k {
                        match i.next() { Some(x) => { let y = f(x); off(|| ys.push(y)) } None => off(|| ys.push(vec![])) }
                        let h = i.size_hint();
                        let l = i.len();
                        off(|| hs.extend([h.0 as i64, h.1.map_or(-1, |x| x as i64), l as i64]));
                    }
                }
                ok = if kd == "o" {
                    let m = std::mem::take(&mut self.m[s]);
                    win(p, || go(m.into_iter(), k, |(a, b)| y4(&a, &b), &mut ys, &mut hs))
                } else {
                    let m = &self.m[s];
                    win(p, || go(m.iter(), k, |(a, b)| y4(a, b), &mut ys, &mut hs))
                }.map_or(2, |_| 1);
                // yields up to the first "nothing", in key order; where nothing came back is in ns
                let got = ys.iter().take_while(|y| !y.is_empty()).count();
                let after = ys.iter().skip(got).all(|y| y.is_empty());
                let mut z: Vec<Y> = ys[..got].to_vec();
                z.sort();
                e.vs("ys", &z).is("hs", &hs).i("fused", after as i64);
            }
            "htcl" => {
                let d = n(2) as usize;
                e.i("t", d as i64);
                other = Some(d);
                let m = &self.m[s];
                ok = match win(p, || m.try_clone()) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.m[d] = x; 1 } };
                full = true;
            }
            "hdbg" => {
                let m = &self.m[s];
                let txt = win(p, || { let n = crate::out::written(m); off(|| { let t = crate::out::texts(m); assert!(t.0.len() + t.1.len() == n); t }) });
                ok = if txt.is_some() { 1 } else { 2 };
                let (txt, tp, te) = txt.unwrap_or_default();
                // its parts in order of the text, so that the order of the table does not matter
                let mut parts: Vec<String> = txt.trim_start_matches('{').trim_end_matches('}').split(", ").filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                parts.sort_by_key(|x| x.split(':').next().unwrap().parse::<i64>().unwrap_or(-1));
                // over several lines too
                let mut lines: Vec<&str> = tp.split_terminator('\n').collect();
                let k = lines.len();
                if k > 2 { lines[1..k - 1].sort_by_key(|x| x.trim().split(':').next().unwrap().parse::<i64>().unwrap_or(-1)); }
                e.t("tp", &lines.join("\n")).i("te", te);
                e.t("txt", &format!("{}{}{}", &txt[..txt.len().min(1)], parts.join(", "), if txt.ends_with('}') { "}" } else { "" }));
            }
            "hdrop" => { let m = std::mem::take(&mut self.m[s]); ok = win(p, || drop(m)).map_or(2, |_| 1); full = true; }
            "hscan" => { ok = 1; win(p, || {}); crate::alloc::watched(|| self.all(s)); full = true; }
            _ => panic!("unknown hash op {}", op),
        }
        if ok != 1 || self.m[s].len() <= 12 { full = true; }
        e.i("ok", ok).vs("r", &r.into_iter().collect::<Vec<_>>());
        e.i("ln", self.m[s].len() as i64);
        if let Some(d) = other { e.i("ln2", self.m[d].len() as i64); }
        if full {
            e.vs("st", &self.all(s));
            if let Some(d) = other { e.vs("st2", &self.all(d)); }
        }
        let mk: Vec<(i64, i64)> = std::mem::take(&mut reg().made);
        e.ps("mk", &mk);
        let mis = self.m[s].iter().take(64).any(|(k, v)| k as *const K as usize % std::mem::align_of::<K>() != 0 || v as *const V as usize % std::mem::align_of::<V>() != 0);
        e.i("mis", mis as i64).i("hp", (p.pk == b'h' && p.pat > 0) as i64);
        e
    }
}
