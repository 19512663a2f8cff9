//! Boxes and shared pointers.
use crate::out::Ev;
use crate::reg::*;
use crate::win::*;
use fallible_collections::{FallibleArc, FallibleBox, FallibleRc, TryBox, TryClone};
use std::rc::Rc;
use std::sync::Arc;

enum C<E> { No, B(Box<E>), T(TryBox<E>), R(Rc<E>), A(Arc<E>), Raw(*mut E) }
impl<E> C<E> {
    fn r(&self) -> Option<&E> {
        match self { C::No => None, C::B(x) => Some(x), C::T(x) => Some(&**x), C::R(x) => Some(x), C::A(x) => Some(x), C::Raw(p) => Some(unsafe { &**p }) }
    }
    fn tag(&self) -> &'static str { match self { C::No => "-", C::B(_) => "b", C::T(_) => "t", C::R(_) => "r", C::A(_) => "a", C::Raw(_) => "w" } }
}
impl<E> Drop for D<E> {
    fn drop(&mut self) { for c in &self.c { if let C::Raw(p) = c { unsafe { drop(TryBox::from_raw(*p)) } } } }
}
pub struct D<E> { c: Vec<C<E>> }
impl<E: Elem> D<E> {
    pub fn new() -> Self { D { c: (0..4).map(|_| C::No).collect() } }
    #[allow(deprecated)]
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let n = |i: usize| t[i].parse::<i64>().unwrap();
        let ok;
        let mut other = None;
        let mut r: Option<(i64, i64)> = None;
        match op {
            "nb" => {
                // what is in the slot goes first
                let old = std::mem::replace(&mut self.c[s], C::No);
                win(&Plan::default(), || drop_cell(old));
                let x = E::make(n(3));
                let o = x.obs();
                e.t("kd", t[2]).ps("x", &[o]);
                let res = match t[2] {
                    "b" => win(p, || <Box<E> as FallibleBox<E>>::try_new(x)).map(|y| y.map(C::B)),
                    "t" => win(p, || TryBox::try_new(x)).map(|y| y.map(C::T)),
                    "r" => win(p, || <Rc<E> as FallibleRc<E>>::try_new(x)).map(|y| y.map(C::R)),
                    _ => win(p, || <Arc<E> as FallibleArc<E>>::try_new(x)).map(|y| y.map(C::A)),
                };
                ok = match res { None => 2, Some(Err(_)) => 0, Some(Ok(c)) => { self.c[s] = c; 1 } };
            }
            "tc" => {
                let d = n(2) as usize;
                other = Some(d);
                let old = std::mem::replace(&mut self.c[d], C::No);
                win(&Plan::default(), || drop_cell(old));
                let res = match &self.c[s] {
                    C::B(x) => win(p, || x.try_clone()).map(|y| y.map(C::B)),
                    C::T(x) => win(p, || x.try_clone()).map(|y| y.map(C::T)),
                    C::A(x) => win(p, || x.try_clone()).map(|y| y.map(C::A)),
                    C::R(x) => win(p, || Ok(C::R(x.clone()))),
                    _ => win(p, || Ok(C::No)),
                };
                ok = match res { None => 2, Some(Err(_)) => 0, Some(Ok(c)) => { self.c[d] = c; 1 } };
            }
            "wr" => {
                let v = n(2);
                e.i("v", v);
                let c = &mut self.c[s];
                ok = win(p, || match c {
                    C::B(x) => { x.set(v); r = Some(x.obs()); }
                    C::R(x) => { if let Some(y) = Rc::get_mut(x) { y.set(v); r = Some(y.obs()); } }
                    C::A(x) => { if let Some(y) = Arc::get_mut(x) { y.set(v); r = Some(y.obs()); } }
                    C::Raw(x) => { let y = unsafe { &mut **x }; y.set(v); r = Some(y.obs()); }
                    _ => {}
                }).map_or(2, |_| 1);
            }
            "rw" => {
                let c = std::mem::replace(&mut self.c[s], C::No);
                let d = win(p, || match c { C::T(x) => C::Raw(TryBox::into_raw(x)), C::B(x) => C::Raw(Box::into_raw(x)), c => c });
                ok = match d { Some(x) => { self.c[s] = x; 1 } None => 2 };
            }
            "ur" => {
                e.t("kd", t[2]);
                let c = std::mem::replace(&mut self.c[s], C::No);
                let d = win(p, || match c { C::Raw(x) => unsafe { if t[2] == "t" { C::T(TryBox::from_raw(x)) } else { C::B(Box::from_raw(x)) } }, c => c });
                ok = match d { Some(x) => { self.c[s] = x; 1 } None => 2 };
            }
            "dr" => {
                let c = std::mem::replace(&mut self.c[s], C::No);
                ok = win(p, || drop_cell(c)).map_or(2, |_| 1);
            }
            "rd" => { let c = &self.c[s]; ok = win(p, || { r = c.r().map(|x| x.obs()); }).map_or(2, |_| 1); }
            _ => panic!("unknown cell op {}", op),
        }
        e.i("t", other.map_or(s, |x| x) as i64);
        e.i("ok", ok).ps("r", &r.into_iter().collect::<Vec<_>>());
        let st: Vec<Vec<i64>> = self.c.iter().map(|c| c.r().map_or(vec![], |x| { let o = x.obs(); vec![o.0, o.1] })).collect();
        let kinds: String = self.c.iter().map(|c| c.tag()).collect();
        let mis = self.c.iter().any(|c| c.r().map_or(false, |x| x as *const E as usize % std::mem::align_of::<E>() != 0));
        // which slots share one address (meaningless for zero-sized values)
        let adr: Vec<i64> = self.c.iter().map(|c| c.r().map_or(-1, |x| self.c.iter().position(|d| d.r().map_or(false, |y| std::ptr::eq(x, y))).unwrap() as i64)).collect();
        let mk = std::mem::take(&mut reg().made);
        e.vs("st", &st).chars("ks", &kinds).is("adr", &adr).ps("mk", &mk).i("mis", mis as i64).i("sz", std::mem::size_of::<E>() as i64);
        e
    }
}
fn drop_cell<E>(c: C<E>) { match c { C::Raw(p) => unsafe { drop(TryBox::from_raw(p)) }, c => drop(c) } }
