//! Bounded reads and writes on byte vectors.
use crate::alloc::{ctl, off};
use crate::out::{c30, Ev};
use crate::win::*;
use fallible_collections::{try_read_up_to, TryRead, TryVec};
use std::io::{self, Read, Write};

/// Serves bytes according to a plan: (0,n) up to n bytes, (1,_) interrupted, (2,_) failure, (3,_) end of data.
struct Src { plan: Vec<(i64, i64)>, at: usize, left: i64, next: i64, taken: i64, calls: i64, att0: i64 }
fn byte(i: i64) -> u8 { ((i * 37 + 11) % 251) as u8 }
impl Src {
    fn new(plan: Vec<(i64, i64)>, base: i64) -> Src {
        let left = plan.first().map_or(0, |x| x.1);
        Src { plan, at: 0, left, next: base, taken: 0, calls: 0, att0: -1 }
    }
    fn step(&mut self) { self.at += 1; self.left = self.plan.get(self.at).map_or(0, |x| x.1); }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.att0 < 0 { self.att0 = ctl().att; }
        self.calls += 1;
        crate::reg::callback(b'i');
        match self.plan.get(self.at) {
            None | Some(&(3, _)) => Ok(0),
            Some(&(1, _)) => { self.step(); Err(io::ErrorKind::Interrupted.into()) }
            Some(&(2, _)) => { self.step(); Err(io::ErrorKind::ConnectionReset.into()) }
            Some(_) => {
                let n = (self.left as usize).min(b.len());
                for x in b[..n].iter_mut() { *x = byte(self.next); self.next += 1; }
                self.left -= n as i64;
                self.taken += n as i64;
                if self.left == 0 { self.step(); }
                Ok(n)
            }
        }
    }
}
fn plan_of(s: &str) -> Vec<(i64, i64)> {
    if s == "-" { return vec![]; }
    s.split(',').map(|x| (x[..1].parse().unwrap(), x[1..].parse().unwrap_or(0))).collect()
}
pub struct D { v: Vec<TryVec<u8>> }
impl D {
    pub fn new() -> Self { D { v: (0..2).map(|_| TryVec::new()).collect() } }
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let kind = |x: &io::Error| match x.kind() { io::ErrorKind::ConnectionReset => 2, io::ErrorKind::Interrupted => 1, _ => 0 };
        let mut ek = -1;
        let mut r = -1i64;
        let ok;
        match op {
            // rd slot how limit base plan   (how: u bounded read, t through Take, i into a new vector, h after reading pre bytes of the Take)
            "rd" => {
                let how = t[2];
                let lim: u64 = match t[3] { "max" => u64::MAX, "imax" => i64::MAX as u64, "imax1" => i64::MAX as u64 + 1, "tb" => 1 << 42, x => x.parse().unwrap() };
                let base: i64 = t[4].parse().unwrap();
                let plan = plan_of(t[5]);
                e.t("how", how).i("n", if lim > 1 << 30 { -1 } else { lim as i64 }).i("base", base).ps("plan", &plan);
                let mut src = Src::new(plan, base);
                let res = match how {
                    "u" => { let b = &mut self.v[s]; win(p, || try_read_up_to(&mut src, lim, b)) }
                    "t" => { let b = &mut self.v[s]; let mut k = src.take(lim); let x = win(p, || k.try_read_to_end(b)); e.i("rest", c30(k.limit() as usize)); src = k.into_inner(); x }
                    _ => {
                        let mut k = src.take(lim);
                        let x = win(p, || k.read_into_try_vec());
                        src = k.into_inner();
                        match x { None => None, Some(Err(x)) => Some(Err(x)), Some(Ok(b)) => { let n = b.len(); self.v[s] = b; Some(Ok(n)) } }
                    }
                };
                ok = match res { None => 2, Some(Err(x)) => { ek = kind(&x); 0 } Some(Ok(n)) => { r = n as i64; 1 } };
                e.i("taken", src.taken).i("calls", src.calls).i("att0", src.att0);
            }
            // wr slot how bytes   (how: w write, a write_all, f flush, v one slice, s several slices, p printed in pieces)
            "wr" => {
                let bytes: Vec<u8> = list(t[3]).iter().map(|&x| if t[2] == "p" { x as u8 & 127 } else { x as u8 }).collect();
                e.t("how", t[2]).is("b", &bytes.iter().map(|&x| x as i64).collect::<Vec<_>>());
                let v = &mut self.v[s];
                let res = match t[2] {
                    "w" => win(p, || v.write(&bytes)),
                    "a" => win(p, || v.write_all(&bytes).map(|_| bytes.len())),
                    "v" => win(p, || v.write_vectored(&[io::IoSlice::new(&bytes)])),
                    "s" => {
                        let (i, j) = (bytes.len() / 4, bytes.len() / 4 + (bytes.len() / 2) * (bytes.len() % 2));
                        win(p, || v.write_vectored(&[io::IoSlice::new(&bytes[..i]), io::IoSlice::new(&bytes[i..j]), io::IoSlice::new(&bytes[j..])]))
                    }
                    "p" => {
                        let x: String = bytes.iter().map(|&b| b as char).collect();
                        let (x, y) = x.split_at(bytes.len() / 3);
                        win(p, || write!(v, "{}{}", x, y).map(|_| bytes.len()))
                    }
                    _ => win(p, || v.flush().map(|_| 0)),
                };
                ok = match res { None => 2, Some(Err(x)) => { ek = kind(&x); 0 } Some(Ok(n)) => { r = n as i64; 1 } };
            }
            "rs" => {
                let n = num(t[2]);
                e.i("n", lnum(n));
                let v = &mut self.v[s];
                ok = match win(p, || v.reserve(n)) { None => 2, Some(Err(_)) => 0, Some(Ok(())) => 1 };
            }
            "dr" => { let v = std::mem::replace(&mut self.v[s], TryVec::new()); ok = win(p, || drop(v)).map_or(2, |_| 1); }
            _ => panic!("unknown io op {}", op),
        }
        let _ = off(|| ());
        e.i("ok", ok).i("r", r).i("ek", ek).is("st", &self.v[s].as_slice().iter().map(|&x| x as i64).collect::<Vec<_>>());
        e
    }
}
