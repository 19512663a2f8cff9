//! Vectors, plain and wrapped.
use crate::alloc::{ctl, off};
use crate::out::{c30, Ev};
use crate::reg::*;
use crate::win::*;
use fallible_collections::{FallibleVec, TryClone, TryCollect, TryVec};
use std::convert::TryFrom;

pub struct D<E: Elem> { wrap: bool, v: Vec<Vec<E>>, w: Vec<TryVec<E>> }

fn obs<E: Elem>(x: &[E]) -> Vec<(i64, i64)> { x.iter().map(|e| e.obs()).collect() }

struct Gen { base: i64, n: i64 }
impl Gen {
    fn next<E: Elem>(&mut self) -> E {
        callback(b'g');
        let e = E::make(self.base + self.n);
        off(|| { let o = e.obs(); reg().made.push((o.1, o.0)); });
        self.n += 1;
        e
    }
}
/// Iterator over fresh elements which counts its calls and may panic.
struct Src { vals: Vec<i64>, at: usize, calls: i64, hint: usize, up: Option<usize> }
struct SrcIt<'a, E>(&'a mut Src, std::marker::PhantomData<E>);
impl<'a, E: Elem> Iterator for SrcIt<'a, E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        self.0.calls += 1;
        callback(b'i');
        if self.0.at < self.0.vals.len() {
            self.0.at += 1;
            let e = E::make(self.0.vals[self.0.at - 1]);
            off(|| { let o = e.obs(); reg().made.push((o.1, o.0)); });
            Some(e)
        } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { 
        let up = self.0.up.map(|u| if u > 1 << 30 { u } else { u.saturating_sub(self.0.at) });
        if self.0.hint == 0 { (0, up) } else if up.is_some() { (self.0.vals.len() - self.0.at, up) } else { (self.0.hint - 1, None) } }
}

/// What is yielded, the remaining counts reported, for a script of steps (see FWalk).
fn drive<I: Iterator>(mut it: I, back: impl Fn(&mut I, usize) -> Option<I::Item>, fin: impl Fn(I, char, &mut dyn FnMut(I::Item)) -> i64, steps: &str, mut f: impl FnMut(I::Item) -> (i64, i64), d: &mut Drv) {
    for c in steps.chars() {
        if "AZLK".contains(c) {
            let fs = &mut d.fs;
            let n = fin(it, c, &mut |x| { let o = f(x); off(|| fs.push(vec![o.0, o.1])) });
            if c == 'K' { off(|| d.fs.push(vec![n])); }
            return;
        }
        let (bk, by) = crate::win::stride(c);
        let y = if bk { back(&mut it, by) } else { ahead(&mut it, by) };
        let o = y.map_or(vec![], |x| { let o = f(x); off(|| vec![o.0, o.1]) });
        let h = it.size_hint();
        off(|| { d.ys.push(o); d.hs.push(h.0 as i64); d.hs.push(h.1.map_or(-1, |x| x as i64)); });
    }
}
fn ahead<I: Iterator>(i: &mut I, k: usize) -> Option<I::Item> { if k == 0 { i.next() } else { i.nth(k) } }
fn behind<I: DoubleEndedIterator>(i: &mut I, k: usize) -> Option<I::Item> { if k == 0 { i.next_back() } else { i.nth_back(k) } }

impl<E: Elem> D<E> {
    pub fn held(&self) -> (*const u8, usize) {
        if self.wrap { (self.w.as_ptr() as *const u8, std::mem::size_of_val(&self.w[..])) } else { (self.v.as_ptr() as *const u8, std::mem::size_of_val(&self.v[..])) }
    }
    pub fn new(wrap: bool) -> Self {
        D { wrap, v: (0..3).map(|_| Vec::new()).collect(), w: (0..3).map(|_| TryVec::new()).collect() }
    }
    fn sl(&self, s: usize) -> &[E] { if self.wrap { self.w[s].as_slice() } else { &self.v[s] } }
    fn cap(&self, s: usize) -> i64 { if self.wrap { -1 } else { c30(self.v[s].capacity()) } }
    fn two(&mut self, s: usize, t: usize) -> (&mut Vec<E>, &mut Vec<E>) {
        assert!(s != t);
        unsafe { let p = self.v.as_mut_ptr(); (&mut *p.add(s), &mut *p.add(t)) }
    }
    fn twow(&mut self, s: usize, t: usize) -> (&mut TryVec<E>, &mut TryVec<E>) {
        assert!(s != t);
        unsafe { let p = self.w.as_mut_ptr(); (&mut *p.add(s), &mut *p.add(t)) }
    }
    fn store_v(&mut self, s: usize, x: Vec<E>) { self.v[s] = x; }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let mut ok;
        match op {
            "push" | "pushgb" => {
                let x = E::make(num(t[2]) as i64);
                e.ps("x", &[x.obs()]);
                if op == "pushgb" {
                    let v = &mut self.v[s];
                    let r = win(p, || v.try_push_give_back(x));
                    ok = match r { None => 2, Some(Ok(())) => 1, Some(Err((b, _))) => { e.ps("back", &[b.obs()]); 0 } };
                } else if self.wrap {
                    let v = &mut self.w[s];
                    ok = match win(p, || v.push(x)) { None => 2, Some(r) => r.is_ok() as i64 };
                } else {
                    let v = &mut self.v[s];
                    ok = match win(p, || v.try_push(x)) { None => 2, Some(r) => r.is_ok() as i64 };
                }
            }
            "reserve" => {
                let n = num(t[2]);
                e.i("n", lnum(n));
                ok = if self.wrap { let v = &mut self.w[s]; match win(p, || v.reserve(n)) { None => 2, Some(r) => r.is_ok() as i64 } }
                     else { let v = &mut self.v[s]; match win(p, || FallibleVec::try_reserve(v, n)) { None => 2, Some(r) => r.is_ok() as i64 } };
            }
            "withcap" => {
                let n = num(t[2]);
                e.i("n", lnum(n));
                if self.wrap {
                    ok = match win(p, || TryVec::<E>::with_capacity(n)) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.w[s] = x; 1 } };
                } else {
                    ok = match win(p, || <Vec<E> as FallibleVec<E>>::try_with_capacity(n)) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.store_v(s, x); 1 } };
                }
            }
            "insert" => {
                let i = num(t[2]);
                let x = E::make(num(t[3]) as i64);
                e.i("i", lnum(i)).ps("x", &[x.obs()]);
                let v = &mut self.v[s];
                ok = match win(p, || v.try_insert(i, x)) { None => 2, Some(Ok(())) => 1, Some(Err((b, _))) => { e.ps("back", &[b.obs()]); 0 } };
            }
            "append" => {
                let d: usize = t[2].parse().unwrap();
                e.i("t", d as i64);
                ok = if self.wrap { let (a, b) = self.twow(s, d); match win(p, || a.append(b)) { None => 2, Some(r) => r.is_ok() as i64 } }
                     else { let (a, b) = self.two(s, d); match win(p, || a.try_append(b)) { None => 2, Some(r) => r.is_ok() as i64 } };
                e.ps("st2", &obs(self.sl(d))).i("cap2", self.cap(d));
            }
            "resize" | "resizenc" => {
                let n = num(t[2]);
                let x = E::make(num(t[3]) as i64);
                e.i("n", lnum(n)).ps("x", &[x.obs()]);
                let v = &mut self.v[s];
                ok = if op == "resize" { match win(p, || E::copy_resize(v, n, x)) { None => 2, Some(r) => r.is_ok() as i64 } }
                     else { match win(p, || v.try_resize_no_copy(n, x)) { None => 2, Some(r) => r.is_ok() as i64 } };
            }
            "resizewith" => {
                let n = num(t[2]);
                let mut g = Gen { base: num(t[3]) as i64, n: 0 };
                e.i("n", lnum(n)).i("b", g.base);
                let gp = &mut g;
                ok = if self.wrap { let v = &mut self.w[s]; match win(p, || v.resize_with(n, || gp.next())) { None => 2, Some(r) => r.is_ok() as i64 } }
                     else { let v = &mut self.v[s]; match win(p, || v.try_resize_with(n, || gp.next())) { None => 2, Some(r) => r.is_ok() as i64 } };
                e.i("gc", g.n);
            }
            "extend" | "extendnc" => {
                let vals = list(t[2]);
                let src: Vec<E> = vals.iter().map(|&v| E::make(v)).collect();
                e.is("vals", &vals);
                if op == "extend" { let v = &mut self.v[s]; ok = match win(p, || E::copy_extend(v, &src)) { None => 2, Some(r) => r.is_ok() as i64 }; }
                else if self.wrap { let v = &mut self.w[s]; ok = match win(p, || v.extend_from_slice(&src)) { None => 2, Some(r) => r.is_ok() as i64 }; }
                else { let v = &mut self.v[s]; ok = match win(p, || v.try_extend_from_slice_no_copy(&src)) { None => 2, Some(r) => r.is_ok() as i64 }; }
                e.is("src", &src.iter().map(|x| x.obs().0).collect::<Vec<_>>());
                drop(src);
            }
            "clear" => { ok = if self.wrap { let v = &mut self.w[s]; win(p, || v.clear()).map_or(2, |_| 1) } else { let v = &mut self.v[s]; win(p, || v.clear()).map_or(2, |_| 1) }; }
            "pop" => {
                let r = if self.wrap { let v = &mut self.w[s]; win(p, || v.pop()) } else { let v = &mut self.v[s]; win(p, || v.pop()) };
                ok = r.is_some() as i64 + 2 * r.is_none() as i64;
                e.ps("back", &r.unwrap_or(None).iter().map(|x| x.obs()).collect::<Vec<_>>());
            }
            "set" => {
                // in-place write through slice access or the mutable iterator
                let i = num(t[2]); let val = num(t[3]) as i64;
                e.i("i", i as i64).i("v", val);
                let how = val % 3;
                ok = if self.wrap {
                    let w = &mut self.w[s];
                    win(p, || match how {
                        0 => w.as_mut_slice()[i].set(val),
                        1 => w.iter_mut().nth(i).unwrap().set(val),
                        _ => w[i].set(val),
                    })
                } else { let v = &mut self.v[s]; win(p, || v[i].set(val)) }.map_or(2, |_| 1);
            }
            "it" => {
                // kinds: r(ef) m(ut) o(wned) b(orrowed into_iter)
                let kd = t[2]; let steps = t[3];
                e.t("kd", kd).chars("stp", steps);
                let mut d = Drv::default();
                let dp = &mut d;
                ok = if self.wrap {
                    let w = &mut self.w[s];
                    match kd {
                        "r" => win(p, || { drive(w.iter(), ahead, fin_fwd, steps, |x| x.obs(), dp); }),
                        "m" => win(p, || { drive(w.iter_mut(), ahead, fin_fwd, steps, |x| { let o = x.obs(); x.set(o.0 + 100); o }, dp); }),
                        "b" => win(p, || { drive((&*w).into_iter(), behind, fin_both, steps, |x| x.obs(), dp); }),
                        _ => { let v = std::mem::take(w); win(p, || { drive(v.into_iter(), behind, fin_both, steps, |x| x.obs(), dp); }) }
                    }
                } else {
                    let v = std::mem::take(&mut self.v[s]);
                    win(p, || { drive(v.into_iter(), behind, fin_both, steps, |x| x.obs(), dp); })
                }.map_or(2, |_| 1);
                e.vs("ys", &d.ys).is("hs", &d.hs).vs("rst", &d.fs);
            }
            "concat" => {
                // t[2]: lists separated by ';'
                let parts: Vec<Vec<i64>> = if t[2] == "." { vec![] } else { t[2].split(';').map(list).collect() };
                e.vs("parts", &parts);
                let nested: TryVec<TryVec<E>> = parts.iter()
                    .map(|l| TryVec::from(l.iter().map(|&v| E::make(v)).collect::<Vec<E>>())).collect::<Vec<_>>().into();
                ok = match win(p, || nested.concat()) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.w[s] = x; 1 } };
                let after: Vec<Vec<i64>> = nested.iter().map(|l| l.iter().map(|x| x.obs().0).collect()).collect();
                e.vs("pafter", &after);
            }
            "tryclone" => {
                let d: usize = t[2].parse().unwrap();
                e.i("t", d as i64);
                if self.wrap {
                    let w = &self.w[s];
                    ok = match win(p, || w.try_clone()) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.w[d] = x; 1 } };
                } else {
                    let v = &self.v[s];
                    ok = match win(p, || v.try_clone()) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.v[d] = x; 1 } };
                }
                e.ps("st2", &obs(self.sl(d))).i("cap2", self.cap(d));
            }
            "fromslice" => {
                let vals = list(t[2]);
                let src: Vec<E> = vals.iter().map(|&v| E::make(v)).collect();
                e.is("vals", &vals);
                // bytes below 128 also make up a text
                let txt: String = if t.len() > 3 { vals.iter().map(|&v| v as u8 as char).collect() } else { String::new() };
                ok = match win(p, || if t.len() > 3 { E::from_text(&txt) } else { TryVec::<E>::try_from(src.as_slice()) }) { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.w[s] = x; 1 } };
                e.is("src", &src.iter().map(|x| x.obs().0).collect::<Vec<_>>());
            }
            "fromvec" => {
                let vals = list(t[2]);
                let src: Vec<E> = vals.iter().map(|&v| E::make(v)).collect();
                e.ps("xs", &obs(&src));
                let before = src.as_ptr() as usize;
                ok = match win(p, || TryVec::<E>::from(src)) { None => 2, Some(x) => { self.w[s] = x; 1 } };
                e.i("same", (self.w[s].as_ptr() as usize == before) as i64);
            }
            "collect" => {
                let vals = list(t[2]);
                let hint = num(t[3]);
                e.is("vals", &vals).i("n", lnum(hint));
                let mut src = Src { vals, at: 0, calls: 0, hint, up: t.get(4).filter(|x| **x != "n").map(|x| num(x)) };
                let sp = &mut src;
                ok = match win(p, || { let r: Result<Vec<E>, _> = SrcIt::<E>(sp, std::marker::PhantomData).try_collect(); r }) {
                    None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { if self.wrap { self.w[s] = x.into() } else { self.v[s] = x }; 1 } };
                e.i("calls", src.calls);
            }
            #[cfg(feature = "unstable")]
            "fromelem" => {
                let n = num(t[2]);
                let x = E::make(num(t[3]) as i64);
                e.i("n", lnum(n)).ps("x", &[x.obs()]);
                let r = if n % 2 == 0 { win(p, || fallible_collections::vec::try_from_elem(x, n)) } else { win(p, || fallible_collections::try_vec![x; n]) };
                ok = match r { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.v[s] = x; 1 } };
            }
            "tryvec" => {
                let vals = list(t[2]);
                let xs: Vec<E> = vals.iter().map(|&v| E::make(v)).collect();
                e.ps("xs", &obs(&xs));
                let r = tryvec_list(p, xs);
                ok = match r { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { self.v[s] = x; 1 } };
            }
            "eq" => {
                let vals = list(t[2]);
                let other: Vec<E> = vals.iter().map(|&v| E::make(v)).collect();
                e.is("vals", &vals);
                let w = &self.w[s];
                let o2: TryVec<E> = vals.iter().map(|&v| E::make(v)).collect::<Vec<E>>().into();
                let r = win(p, || (*w == other, *w == other.as_slice(), *w == o2, *w != other));
                ok = r.map_or(2, |_| 1);
                let r = r.unwrap_or((false, false, false, true));
                let mut r = vec![r.0 as i64, r.1 as i64, r.2 as i64, !r.3 as i64];
                #[allow(clippy::eq_op)]
                e.i("se", (*w == *w) as i64);
                if vals.iter().all(|&v| v >= 0 && v < 128) {
                    let txt: String = vals.iter().map(|&v| v as u8 as char).collect();
                    if let Some(q) = E::is_text(w, &txt) { r.push(q as i64) }
                }
                e.is("r", &r);
            }
            "dbg" => {
                let txt = if self.wrap { let w = &self.w[s]; win(p, || { let n = crate::out::written(w); off(|| { let t = crate::out::texts(w); assert!(t.0.len() + t.1.len() == n); t }) }) }
                          else { let v = &self.v[s]; win(p, || { let n = crate::out::written(v); off(|| { let t = crate::out::texts(v); assert!(t.0.len() + t.1.len() == n); t }) }) };
                ok = if txt.is_some() { 1 } else { 2 };
                let (ln, em) = if self.wrap { (self.w[s].len(), self.w[s].is_empty()) } else { (self.v[s].len(), self.v[s].is_empty()) };
                let txt = txt.unwrap_or_default();
                e.t("txt", &txt.0).t("tp", &txt.1).i("te", txt.2).i("ln", ln as i64).i("em", em as i64);
            }
            "drop" => {
                ok = if self.wrap { let w = std::mem::take(&mut self.w[s]); win(p, || drop(w)).map_or(2, |_| 1) }
                     else { let v = std::mem::take(&mut self.v[s]); win(p, || drop(v)).map_or(2, |_| 1) };
            }
            _ => panic!("unknown vec op {}", op),
        }
        if ok == 2 && false { ok = 2; }
        e.i("ok", ok).ps("st", &obs(self.sl(s))).i("cap", self.cap(s));
        let mk: Vec<(i64, i64)> = std::mem::take(&mut reg().made);
        e.ps("mk", &mk);
        let al = if self.sl(s).is_empty() || std::mem::size_of::<E>() == 0 { 0 } else { (self.sl(s).as_ptr() as usize % std::mem::align_of::<E>()) as i64 };
        e.i("mis", al);
        // every view of a wrapped vector shows the same elements
        let vw = !self.wrap || {
            let w = &mut self.w[s];
            let (p, n) = { let x = w.as_slice(); (x.as_ptr(), x.len()) };
            let q = { let x: &[E] = &*w; (x.as_ptr(), x.len()) };
            let m = { let x: &mut [E] = &mut *w; (x.as_ptr(), x.len()) };
            let k = { let x = w.as_mut_slice(); (x.as_ptr(), x.len()) };
            let b = E::as_bytes(w).map_or((p, n), |x| (x.as_ptr(), x.len()));
            q == (p, n) && m == q && k == q && b == q && w.len() == n && w.is_empty() == (n == 0)
        };
        e.i("vw", vw as i64);
        let _ = ctl();
        e
    }
}
#[cfg(feature = "unstable")]
fn tryvec_list<E: Elem>(p: &Plan, mut xs: Vec<E>) -> Option<Result<Vec<E>, std::collections::TryReserveError>> {
    extern crate alloc;
    use fallible_collections::try_vec;
    match xs.len() {
        0 => win(p, || -> Result<Vec<E>, _> { try_vec![] }),
        1 => { let a = xs.pop().unwrap(); win(p, || try_vec![a]) }
        2 => { let b = xs.pop().unwrap(); let a = xs.pop().unwrap(); win(p, || try_vec![a, b]) }
        _ => { let c = xs.pop().unwrap(); let b = xs.pop().unwrap(); let a = xs.pop().unwrap(); win(p, || try_vec![a, b, c,]) }
    }
}
#[cfg(not(feature = "unstable"))]
fn tryvec_list<E: Elem>(_: &Plan, xs: Vec<E>) -> Option<Result<Vec<E>, std::collections::TryReserveError>> { Some(Ok(xs)) }
