//! Vectors of elements without size, at lengths no other vector can reach.  A length is logged as [0, n] or [1, MAX - n].
use crate::out::Ev;
use crate::win::*;
use fallible_collections::{FallibleVec, TryClone, TryVec};
use std::collections::TryReserveError;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct U;
impl TryClone for U { fn try_clone(&self) -> Result<Self, TryReserveError> { Ok(U) } }

fn len(s: &str) -> usize { match s.strip_prefix('m') { Some(x) => usize::MAX - x.parse::<usize>().unwrap(), None => s.parse().unwrap() } }
fn log(n: usize) -> [i64; 2] { if n > usize::MAX / 2 { [1, (usize::MAX - n) as i64] } else { [0, n as i64] } }
fn of(n: usize) -> Vec<U> { let mut v = Vec::new(); unsafe { v.set_len(n) }; v }

pub fn step(t: &[&str], p: &Plan) -> Ev {
    let (how, wr) = (t[1], t[2] == "w");
    let (a, b) = (len(t[3]), len(t[4]));
    let mut e = Ev::new("zx");
    e.t("how", how).i("wr", wr as i64).is("a", &log(a)).is("b", &log(b));
    if how == "concat" {
        let parts: TryVec<TryVec<U>> = vec![of(a).into(), of(b).into()].into();
        let r = win(p, || parts.concat());
        let done = r.as_ref().map_or(0, |r| r.as_ref().map_or(0, |w| w.len()));
        e.i("ok", r.map_or(2, |r| r.is_ok() as i64)).is("after", &log(done)).is("other", &log(parts[1].len()));
        return e;
    }
    let mut v = of(a);
    let mut o = of(b);
    let (ok, after, other);
    if wr {
        let mut w: TryVec<U> = v.into();
        let mut ow: TryVec<U> = o.into();
        let r = match how {
            "push" => win(p, || w.push(U)),
            "reserve" => win(p, || w.reserve(b)),
            "append" => win(p, || w.append(&mut ow)),
            "extendnc" => { let s = &ow; win(p, || w.extend_from_slice(s)) }
            _ => panic!("zst op"),
        };
        ok = r.map_or(2, |r| r.is_ok() as i64);
        after = w.len(); other = ow.len();
    } else {
        let r = match how {
            "push" => win(p, || FallibleVec::try_push(&mut v, U)),
            "pushgb" => win(p, || v.try_push_give_back(U).map_err(|x| x.1)),
            "insert" => win(p, || v.try_insert(a / 2, U).map_err(|x| x.1)),
            "reserve" => win(p, || FallibleVec::try_reserve(&mut v, b)),
            "append" => win(p, || v.try_append(&mut o)),
            "extend" => { let s = &o; win(p, || v.try_extend_from_slice(s)) }
            "extendnc" => { let s = &o; win(p, || v.try_extend_from_slice_no_copy(s)) }
            _ => panic!("zst op"),
        };
        ok = r.map_or(2, |r| r.is_ok() as i64);
        after = v.len(); other = o.len();
    }
    e.i("ok", ok).is("after", &log(after)).is("other", &log(other));
    e
}
