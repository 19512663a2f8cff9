//! Element registry: identity, life and death of every element, and failures injected into callbacks.
use crate::alloc::{ctl, off};
use fallible_collections::TryClone;
use std::alloc::{alloc, dealloc, Layout};
use std::cmp::Ordering;
use std::collections::TryReserveError;
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ptr;

pub struct Reg {
    pub next: i64,
    pub alive: Vec<u8>, // 0 unused, 1 alive, 2 dead
    pub al: i64,        // elements alive now
    pub bad: i64,       // destructions of something that was not alive
    pub made: Vec<(i64, i64)>, // (id, value) constructed by duplication or a closure in this call
    // callback counters and faults of the current call
    pub cl: i64,   // duplications asked for
    pub cfail: i64, // fail duplication number cfail
    pub cf: i64,   // a duplication failed on request
    pub cb: i64,   // callbacks of the selected kind seen
    pub pk: u8,    // kind of callback to panic in: c(lone) m(cmp) g(en) i(ter) d(rop) e(q) h(ash)
    pub pat: i64,  // panic in callback number pat
    pub pn: i64,   // injected panics
    pub cmp: i64,  // comparisons
    pub hmod: i64, // keys hash modulo this (collisions), 0 = not at all
    pub lie: u8,   // how comparisons answer, b'0' = truthfully
    pub lies: u64,
    pub lied: bool, // in this case
    pub dead_seen: i64, // accesses to dead or garbage elements by callbacks
}
static mut R: Option<Reg> = None;
pub fn reg() -> &'static mut Reg {
    unsafe {
        let r = &mut *ptr::addr_of_mut!(R);
        if r.is_none() {
            *r = Some(Reg {
                next: 1, alive: Vec::new(), al: 0, bad: 0, made: Vec::new(), cl: 0, cfail: 0, cf: 0, cb: 0,
                pk: 0, pat: 0, pn: 0, cmp: 0, hmod: 0, lie: b'0', lies: 1, lied: false, dead_seen: 0,
            });
        }
        r.as_mut().unwrap_unchecked()
    }
}
pub struct Injected;
pub fn callback(kind: u8) {
    let r = reg();
    // what caller code sees is what was there
    let c = ctl();
    if c.track && c.off == 0 && c.chg == 0 && c.bytes <= 4096 { crate::alloc::watch_now(); }
    if r.pat > 0 && r.pk == kind {
        r.cb += 1;
        if r.cb == r.pat {
            r.pn += 1;
            ctl().armed = false;
            if kind == b'd' && std::thread::panicking() {
                return;
            }
            std::panic::resume_unwind(Box::new(Injected));
        }
    }
}
pub fn new_id() -> i64 {
    let r = reg();
    off(|| {
        let id = r.next;
        r.next += 1;
        if r.alive.len() <= id as usize {
            r.alive.resize(id as usize + 1024, 0);
        }
        r.alive[id as usize] = 1;
        id
    })
}
fn note_made(id: i64, v: i64) {
    off(|| reg().made.push((id, v)));
}
fn kill(id: i64) {
    let r = reg();
    if id > 0 && (id as usize) < r.alive.len() && r.alive[id as usize] == 1 {
        r.alive[id as usize] = 2;
        r.al -= 1;
    } else {
        r.bad += 1;
    }
}
fn is_alive(id: i64) -> bool {
    let r = reg();
    id > 0 && (id as usize) < r.alive.len() && r.alive[id as usize] == 1
}
pub fn oom() -> TryReserveError {
    off(|| Vec::<u8>::new().try_reserve(usize::MAX).unwrap_err())
}
fn cloning() -> Result<(), TryReserveError> {
    let r = reg();
    r.cl += 1;
    callback(b'c');
    if r.cfail > 0 && r.cl == r.cfail {
        r.cf = 1;
        return Err(oom());
    }
    Ok(())
}

/// Every comparison made by a collection goes through here.  On request the order contradicts itself.
pub fn compare(a: i64, b: i64) -> Ordering {
    let r = reg();
    r.cmp += 1;
    callback(b'm');
    if r.lie == b'0' { return a.cmp(&b); }
    r.lies ^= r.lies << 13; r.lies ^= r.lies >> 7; r.lies ^= r.lies << 17;
    let x = r.lies >> 20;
    let any = match x % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater };
    match r.lie {
        b'r' => any,
        b'n' => if x & 1 == 0 { Ordering::Less } else { Ordering::Greater },
        b'l' => Ordering::Less,
        b'g' => Ordering::Greater,
        b'e' => Ordering::Equal,
        b'v' => b.cmp(&a),
        b'q' => if x % 16 == 0 { any } else { a.cmp(&b) },
        _ => if x % 4 == 0 { any } else { a.cmp(&b) },
    }
}
pub fn equal(a: i64, b: i64) -> bool { reg().cmp += 1; callback(b'e'); a == b }

/// The borrowed form of a key.
#[repr(transparent)]
pub struct Probe(pub i32);
impl PartialEq for Probe { fn eq(&self, o: &Self) -> bool { equal(self.0 as i64, o.0 as i64) } }
impl Eq for Probe {}
impl PartialOrd for Probe { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Probe { fn cmp(&self, o: &Self) -> Ordering { compare(self.0 as i64, o.0 as i64) } }
fn hashed<S: Hasher>(v: i64, s: &mut S) { callback(b'h'); s.write_i64(if reg().hmod > 0 { v % reg().hmod } else { v }) }
impl Hash for Probe { fn hash<S: Hasher>(&self, s: &mut S) { hashed(self.0 as i64, s) } }

pub trait Key: Elem + Ord + Hash + Borrow<Probe> {}
pub trait Val: Elem + Ord + Hash + Default {}

pub trait Elem: TryClone + Clone + PartialEq + fmt::Debug + Sized + 'static {
    const COPY: bool = false;
    fn make(v: i64) -> Self;
    /// (value, identity): identity 0 = not tracked, -1 = garbage, -id = already destroyed
    fn obs(&self) -> (i64, i64);
    fn set(&mut self, v: i64);
    fn copy_resize(_: &mut Vec<Self>, _: usize, _: Self) -> Result<(), TryReserveError> { unreachable!() }
    fn copy_extend(_: &mut Vec<Self>, _: &[Self]) -> Result<(), TryReserveError> { unreachable!() }
    // what only vectors of bytes offer
    fn from_text(_: &str) -> Result<fallible_collections::TryVec<Self>, TryReserveError> { unreachable!() }
    fn is_text(_: &fallible_collections::TryVec<Self>, _: &str) -> Option<bool> { None }
    fn as_bytes(_: &fallible_collections::TryVec<Self>) -> Option<&[Self]> { None }
}

const MG: u32 = 0x7E57_E1E3;
macro_rules! tracked {
    ($name:ident, $($attr:meta)?) => {
        $(#[$attr])?
        pub struct $name { magic: u32, id: i32, v: i32 }
        impl $name {
            fn fresh(v: i64) -> Self { reg().al += 1; $name { magic: MG, id: new_id() as i32, v: v as i32 } }
            fn val(&self) -> i64 {
                if self.magic != MG || !is_alive(self.id as i64) { reg().dead_seen += 1; }
                self.v as i64
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                if self.magic != MG { reg().bad += 1; return; }
                kill(self.id as i64);
                callback(b'd');
            }
        }
        impl Elem for $name {
            fn make(v: i64) -> Self { Self::fresh(v) }
            fn obs(&self) -> (i64, i64) {
                if self.magic != MG { return (0, -1); }
                (self.v as i64, if is_alive(self.id as i64) { self.id as i64 } else { -(self.id as i64) })
            }
            fn set(&mut self, v: i64) { self.v = v as i32; }
        }
        impl TryClone for $name {
            fn try_clone(&self) -> Result<Self, TryReserveError> {
                let v = self.val();
                cloning()?;
                let n = Self::fresh(v);
                note_made(n.id as i64, v);
                Ok(n)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let v = self.val();
                reg().cl += 1;
                callback(b'c');
                let n = Self::fresh(v);
                note_made(n.id as i64, v);
                n
            }
        }
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { equal(self.val(), o.val()) } }
        impl Eq for $name {}
        impl PartialOrd for $name { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $name { fn cmp(&self, o: &Self) -> Ordering { compare(self.val(), o.val()) } }
        impl Hash for $name { fn hash<S: Hasher>(&self, s: &mut S) { hashed(self.val(), s) } }
        impl Borrow<Probe> for $name { fn borrow(&self) -> &Probe { unsafe { &*(&self.v as *const i32 as *const Probe) } } }
        impl Key for $name {}
        impl Val for $name {}
        impl Default for $name { fn default() -> Self { let x = Self::fresh(0); note_made(x.id as i64, 0); x } }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.val()) } }
    };
}
tracked!(T,);
tracked!(A32, repr(align(32)));
tracked!(A512, repr(align(512)));
tracked!(A8K, repr(align(8192)));

/// Owns a heap block of its own, so duplicating it can fail for lack of memory.
pub struct H { t: T, p: *mut i64 }
const HL: Layout = Layout::new::<[i64; 3]>();
fn elem_alloc() -> *mut i64 {
    let c = ctl();
    let s = c.elem;
    c.elem = true;
    let p = unsafe { alloc(HL) } as *mut i64;
    c.elem = s;
    p
}
impl H {
    fn build(v: i64) -> Option<H> {
        let p = elem_alloc();
        if p.is_null() { return None; }
        unsafe { *p = v; }
        Some(H { t: T::fresh(v), p })
    }
}
impl Drop for H {
    fn drop(&mut self) {
        if self.t.magic == MG && is_alive(self.t.id as i64) {
            unsafe { dealloc(self.p as *mut u8, HL) }
        }
    }
}
impl Elem for H {
    fn make(v: i64) -> Self {
        let c = ctl();
        let a = c.armed;
        c.armed = false;
        let h = H::build(v).expect("harness memory");
        c.armed = a;
        h
    }
    fn obs(&self) -> (i64, i64) {
        let (v, id) = self.t.obs();
        if id > 0 && unsafe { *self.p } != v { return (v, -1); }
        (v, id)
    }
    fn set(&mut self, v: i64) { self.t.v = v as i32; unsafe { *self.p = v; } }
}
impl TryClone for H {
    fn try_clone(&self) -> Result<Self, TryReserveError> {
        let v = self.t.val();
        cloning()?;
        match H::build(v) {
            Some(h) => { note_made(h.t.id as i64, v); Ok(h) }
            None => { reg().cf = 1; Err(oom()) }
        }
    }
}
impl Clone for H {
    fn clone(&self) -> Self { let h = H::make(self.t.val()); reg().cl += 1; callback(b'c'); note_made(h.t.id as i64, h.t.v as i64); h }
}
impl PartialEq for H { fn eq(&self, o: &Self) -> bool { equal(self.t.val(), o.t.val()) } }
impl Eq for H {}
impl PartialOrd for H { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for H { fn cmp(&self, o: &Self) -> Ordering { compare(self.t.val(), o.t.val()) } }
impl Hash for H { fn hash<S: Hasher>(&self, s: &mut S) { hashed(self.t.val(), s) } }
impl Borrow<Probe> for H { fn borrow(&self) -> &Probe { self.t.borrow() } }
impl Key for H {}
impl Val for H {}
impl Default for H { fn default() -> Self { let x = H::make(0); note_made(x.t.id as i64, 0); x } }
impl fmt::Debug for H { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.t.val()) } }

macro_rules! large {
    ($L:ident, $n:expr) => {
pub struct $L { t: T, pad: [i64; $n] }
impl $L { fn fill(t: T) -> $L { let v = t.v as i64; $L { t, pad: [v; $n] } } }
impl Elem for $L {
    fn make(v: i64) -> Self { $L::fill(T::fresh(v)) }
    fn obs(&self) -> (i64, i64) { let (v, id) = self.t.obs(); if self.pad.iter().all(|&x| x == v) { (v, id) } else { (v, -1) } }
    fn set(&mut self, v: i64) { self.t.set(v); self.pad = [v; $n]; }
}
impl TryClone for $L { fn try_clone(&self) -> Result<Self, TryReserveError> { Ok($L::fill(self.t.try_clone()?)) } }
impl Clone for $L { fn clone(&self) -> Self { $L::fill(self.t.clone()) } }
impl PartialEq for $L { fn eq(&self, o: &Self) -> bool { self.t == o.t } }
impl fmt::Debug for $L { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.t.fmt(f) } }
    };
}
/// Large, and far larger.
large!(L, 700);
large!(G, 17_000);
impl Eq for L {}
impl PartialOrd for L { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for L { fn cmp(&self, o: &Self) -> Ordering { self.t.cmp(&o.t) } }
impl Hash for L { fn hash<S: Hasher>(&self, s: &mut S) { self.t.hash(s) } }
impl Borrow<Probe> for L { fn borrow(&self) -> &Probe { self.t.borrow() } }
impl Key for L {}
impl Val for L {}
impl Default for L { fn default() -> Self { L::fill(T::default()) } }
/// Zero-sized with an alignment.
#[repr(align(64))]
pub struct ZA(Z);
impl Elem for ZA {
    fn make(v: i64) -> Self { ZA(Z::make(v)) }
    fn obs(&self) -> (i64, i64) { (0, 0) }
    fn set(&mut self, _: i64) {}
}
impl TryClone for ZA { fn try_clone(&self) -> Result<Self, TryReserveError> { Ok(ZA(self.0.try_clone()?)) } }
impl Clone for ZA { fn clone(&self) -> Self { ZA(self.0.clone()) } }
impl PartialEq for ZA { fn eq(&self, _: &Self) -> bool { true } }
impl fmt::Debug for ZA { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0") } }

/// A key that needs no destructor.
pub struct PK { v: i32, chk: i32 }
impl Copy for PK {}
impl PK { fn val(&self) -> i64 { if self.chk != !self.v { reg().dead_seen += 1; } self.v as i64 } }
impl Elem for PK {
    const COPY: bool = true;
    fn make(v: i64) -> Self { PK { v: v as i32, chk: !(v as i32) } }
    fn obs(&self) -> (i64, i64) { (self.v as i64, if self.chk == !self.v { 0 } else { -1 }) }
    fn set(&mut self, v: i64) { *self = Self::make(v) }
}
impl TryClone for PK { fn try_clone(&self) -> Result<Self, TryReserveError> { let v = self.val(); cloning()?; Ok(Self::make(v)) } }
impl Clone for PK { fn clone(&self) -> Self { let v = self.val(); reg().cl += 1; callback(b'c'); Self::make(v) } }
impl PartialEq for PK { fn eq(&self, o: &Self) -> bool { equal(self.val(), o.val()) } }
impl Eq for PK {}
impl PartialOrd for PK { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for PK { fn cmp(&self, o: &Self) -> Ordering { compare(self.val(), o.val()) } }
impl Hash for PK { fn hash<S: Hasher>(&self, s: &mut S) { hashed(self.val(), s) } }
impl Borrow<Probe> for PK { fn borrow(&self) -> &Probe { unsafe { &*(&self.v as *const i32 as *const Probe) } } }
impl Key for PK {}
impl fmt::Debug for PK { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.val()) } }

/// A key of no size: there is only one.
pub struct UK(());
impl UK { fn val(&self) -> i64 { 1 } }
static ONE: Probe = Probe(1);
impl Elem for UK {
    fn make(_: i64) -> Self { UK(()) }
    fn obs(&self) -> (i64, i64) { (1, 0) }
    fn set(&mut self, _: i64) {}
}
impl TryClone for UK { fn try_clone(&self) -> Result<Self, TryReserveError> { cloning()?; Ok(UK(())) } }
impl Clone for UK { fn clone(&self) -> Self { reg().cl += 1; callback(b'c'); UK(()) } }
impl PartialEq for UK { fn eq(&self, o: &Self) -> bool { equal(self.val(), o.val()) } }
impl Eq for UK {}
impl PartialOrd for UK { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for UK { fn cmp(&self, o: &Self) -> Ordering { compare(self.val(), o.val()) } }
impl Hash for UK { fn hash<S: Hasher>(&self, s: &mut S) { hashed(self.val(), s) } }
impl Borrow<Probe> for UK { fn borrow(&self) -> &Probe { &ONE } }
impl Key for UK {}
impl fmt::Debug for UK { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "1") } }


/// Zero-sized, but construction and destruction are counted.
pub struct Z(());
impl Drop for Z {
    fn drop(&mut self) {
        let r = reg();
        r.al -= 1;
        callback(b'd');
    }
}
impl Elem for Z {
    fn make(_: i64) -> Self { reg().al += 1; Z(()) }
    fn obs(&self) -> (i64, i64) { (0, 0) }
    fn set(&mut self, _: i64) {}
}
impl TryClone for Z {
    fn try_clone(&self) -> Result<Self, TryReserveError> { cloning()?; reg().al += 1; Ok(Z(())) }
}
impl Clone for Z {
    fn clone(&self) -> Self { reg().cl += 1; callback(b'c'); reg().al += 1; Z(()) }
}
impl PartialEq for Z { fn eq(&self, _: &Self) -> bool { true } }
impl Eq for Z {}
impl PartialOrd for Z { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Z { fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal } }
impl Hash for Z { fn hash<S: Hasher>(&self, s: &mut S) { s.write_i64(0) } }
impl Val for Z {}
impl Default for Z { fn default() -> Self { reg().al += 1; Z(()) } }
impl fmt::Debug for Z { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0") } }

macro_rules! copies {
    () => {
        const COPY: bool = true;
        fn copy_resize(v: &mut Vec<Self>, n: usize, x: Self) -> Result<(), TryReserveError> {
            fallible_collections::FallibleVec::try_resize(v, n, x)
        }
        fn copy_extend(v: &mut Vec<Self>, s: &[Self]) -> Result<(), TryReserveError> {
            fallible_collections::FallibleVec::try_extend_from_slice(v, s)
        }
    };
}
impl Elem for u8 {
    copies!();
    fn from_text(s: &str) -> Result<fallible_collections::TryVec<u8>, TryReserveError> { std::convert::TryFrom::try_from(s) }
    fn is_text(v: &fallible_collections::TryVec<u8>, s: &str) -> Option<bool> { Some(*v == s) }
    fn as_bytes(v: &fallible_collections::TryVec<u8>) -> Option<&[u8]> { Some(v.as_ref()) }
    fn make(v: i64) -> Self { v as u8 }
    fn obs(&self) -> (i64, i64) { (*self as i64, 0) }
    fn set(&mut self, v: i64) { *self = v as u8 }
}
impl Val for u64 {}
const W: u64 = 0x0001_0000_0001_0001;
impl Elem for u64 {
    copies!();
    fn make(v: i64) -> Self { (v as u64 & 0xFFFF) * W }
    fn obs(&self) -> (i64, i64) {
        let v = self & 0xFFFF;
        if v * W == *self { (v as i64, 0) } else { (v as i64, -1) }
    }
    fn set(&mut self, v: i64) { *self = Self::make(v) }
}
impl Elem for i8 {
    copies!();
    fn make(v: i64) -> Self { v as i8 }
    fn obs(&self) -> (i64, i64) { (*self as i64, 0) }
    fn set(&mut self, v: i64) { *self = v as i8 }
}
impl Elem for bool {
    copies!();
    fn make(v: i64) -> Self { v % 2 == 1 }
    fn obs(&self) -> (i64, i64) { (*self as i64, 0) }
    fn set(&mut self, v: i64) { *self = v % 2 == 1 }
}
impl Elem for u16 {
    copies!();
    fn make(v: i64) -> Self { (v as u16 & 255) * 257 }
    fn obs(&self) -> (i64, i64) { if self % 257 == 0 { ((self / 257) as i64, 0) } else { (*self as i64, -1) } }
    fn set(&mut self, v: i64) { *self = Self::make(v) }
}
/// Floating point: not all values equal themselves.
pub struct F(f64);
impl Copy for F {}
impl Clone for F { fn clone(&self) -> Self { reg().cl += 1; callback(b'c'); F(self.0) } }
impl TryClone for F { fn try_clone(&self) -> Result<Self, TryReserveError> { cloning()?; Ok(F(self.0)) } }
impl Elem for F {
    copies!();
    fn make(v: i64) -> Self { F(if v % 10 == 7 { f64::from_bits(0x7ff8_0000_0000_0000 | v as u64) } else { v as f64 }) }
    fn obs(&self) -> (i64, i64) { (if self.0.is_nan() { (self.0.to_bits() & 0xFFFF_FFFF) as i64 } else { self.0 as i64 }, 0) }
    fn set(&mut self, v: i64) { *self = Self::make(v) }
}
impl PartialEq for F { fn eq(&self, o: &Self) -> bool { reg().cmp += 1; callback(b'e'); self.0 == o.0 } }
impl Eq for F {}
impl PartialOrd for F { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { reg().cmp += 1; self.0.partial_cmp(&o.0) } }
impl Ord for F { fn cmp(&self, o: &Self) -> Ordering { reg().cmp += 1; self.obs().0.cmp(&o.obs().0) } }
impl Hash for F { fn hash<S: Hasher>(&self, s: &mut S) { s.write_i64(self.obs().0) } }
impl Val for F {}
impl Default for F { fn default() -> Self { F(0.0) } }
impl fmt::Debug for F { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.obs().0) } }

/// Needs no destructor, but every one is its own.
pub struct I { v: i32, id: i32, chk: i32 }
impl I {
    fn fresh(v: i64) -> Self { let id = new_id() as i32; I { v: v as i32, id, chk: !(v as i32) ^ id } }
    fn val(&self) -> i64 { if self.chk != !self.v ^ self.id { reg().dead_seen += 1; } self.v as i64 }
}
impl Elem for I {
    fn make(v: i64) -> Self { Self::fresh(v) }
    fn obs(&self) -> (i64, i64) { (self.v as i64, if self.chk == !self.v ^ self.id { self.id as i64 } else { -1 }) }
    fn set(&mut self, v: i64) { self.v = v as i32; self.chk = !self.v ^ self.id; }
}
impl TryClone for I { fn try_clone(&self) -> Result<Self, TryReserveError> { let v = self.val(); cloning()?; let n = Self::fresh(v); note_made(n.id as i64, v); Ok(n) } }
impl Clone for I { fn clone(&self) -> Self { let v = self.val(); reg().cl += 1; callback(b'c'); let n = Self::fresh(v); note_made(n.id as i64, v); n } }
impl PartialEq for I { fn eq(&self, o: &Self) -> bool { equal(self.val(), o.val()) } }
impl Eq for I {}
impl PartialOrd for I { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for I { fn cmp(&self, o: &Self) -> Ordering { compare(self.val(), o.val()) } }
impl Hash for I { fn hash<S: Hasher>(&self, s: &mut S) { hashed(self.val(), s) } }
impl Val for I {}
impl Default for I { fn default() -> Self { let x = Self::fresh(0); note_made(x.id as i64, 0); x } }
impl fmt::Debug for I { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.val()) } }
/// A plain struct of an odd size.
#[derive(Clone, Copy, PartialEq)]
pub struct C3([u8; 3]);
impl fmt::Debug for C3 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.obs().0) } }
impl TryClone for C3 { fn try_clone(&self) -> Result<Self, TryReserveError> { cloning()?; Ok(*self) } }
impl Elem for C3 {
    copies!();
    fn make(v: i64) -> Self { C3([v as u8, (v >> 8) as u8, !(v as u8)]) }
    fn obs(&self) -> (i64, i64) {
        let v = self.0[0] as i64 | (self.0[1] as i64) << 8;
        if self.0[2] == !self.0[0] { (v, 0) } else { (v, -1) }
    }
    fn set(&mut self, v: i64) { *self = Self::make(v) }
}
