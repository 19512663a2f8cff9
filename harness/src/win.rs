//! The observed window around one public call, and the facts common to all events.
use crate::alloc::ctl;
use crate::out::Ev;
use crate::reg::{reg, Injected};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Default)]
pub struct Plan { pub k: i64, pub sticky: bool, pub cfail: i64, pub pk: u8, pub pat: i64 }

/// Runs one public call; None when it panicked.
pub fn win<R>(p: &Plan, f: impl FnOnce() -> R) -> Option<R> {
    {
        let c = ctl();
        c.k = p.k; c.sticky = p.sticky; c.seen = 0; c.att = 0; c.eat = 0; c.den = 0; c.big = 0; c.off = 0; c.elem = false;
        let r = reg();
        r.made.clear(); r.cl = 0; r.cf = 0; r.cfail = p.cfail; r.cb = 0; r.pk = p.pk; r.pat = p.pat; r.pn = 0; r.cmp = 0;
        r.dead_seen = 0;
        crate::alloc::watch_from();
        c.track = true;
        c.armed = true;
    }
    let res = catch_unwind(AssertUnwindSafe(f));
    {
        let c = ctl();
        c.track = false; c.armed = false; c.off = 0; c.elem = false; c.k = 0;
        let r = reg();
        r.pat = 0; r.cfail = 0;
        crate::alloc::watch_now();
    }
    match res {
        Ok(v) => Some(v),
        Err(payload) => {
            let _inj = payload.is::<Injected>();
            drop(payload);
            None
        }
    }
}
pub fn common(e: &mut Ev) {
    let c = ctl();
    let r = reg();
    e.i("att", c.att).i("eat", c.eat).i("den", c.den).i("big", c.big).i("cl", r.cl).i("cf", r.cf).i("pn", r.pn)
        .i("cmp", r.cmp).i("al", r.al).i("bad", r.bad).i("ds", r.dead_seen).i("blk", c.blk).i("eblk", c.eblk).i("mem", c.mem).i("chg", c.chg);
}
pub fn num(s: &str) -> usize {
    match s {
        "max" => usize::MAX,
        "imax" => isize::MAX as usize,
        "imax1" => isize::MAX as usize + 1,
        "half" => usize::MAX / 2,
        "tb" => 1usize << 42,
        _ => s.parse().expect("number"),
    }
}
/// How a number argument is logged: -1 stands for "cannot be allocated".
pub fn lnum(n: usize) -> i64 { if n >= (1 << 30) { -1 } else { n as i64 } }
pub fn list(s: &str) -> Vec<i64> {
    if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().expect("list")).collect() }
}

pub type Y = Vec<i64>;
#[derive(Default)]
pub struct Drv { pub ys: Vec<Y>, pub hs: Vec<i64>, pub cs: Vec<Y>, pub ds: Vec<Y>, pub xs: Vec<Y>, pub fs: Vec<Y> }
pub fn fin_fwd<I: Iterator>(i: I, c: char, f: &mut dyn FnMut(I::Item)) -> i64 {
    match c { 'L' => { if let Some(x) = i.last() { f(x) } 0 } 'K' => i.count() as i64, _ => { i.for_each(f); 0 } }
}
pub fn fin_both<I: DoubleEndedIterator>(i: I, c: char, f: &mut dyn FnMut(I::Item)) -> i64 {
    if c == 'Z' { i.rfold((), |_, x| f(x)); 0 } else { fin_fwd(i, c, f) }
}

/// a step of a walk: whether it is taken from the back, and how many entries it passes over
pub fn stride(c: char) -> (bool, usize) {
    match c { 'B' => (true, 0), 'R' => (true, 1), 'N' => (false, 1), '2'..='9' => (false, c as usize - '0' as usize), 'c'..='j' => (true, c as usize - 'a' as usize), 'X' => (false, 40), 'W' => (true, 40), _ => (false, 0) }
}
