//! Instrumented global allocator: fault plan, request counting, layout and overwrite checks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr;

pub struct Ctl {
    pub track: bool,  // blocks requested now belong to the code under test
    pub armed: bool,  // the fault plan is active and requests are counted
    pub elem: bool,   // the request comes from an element, not from a collection
    pub off: u32,     // >0: harness bookkeeping, neither counted nor refused
    pub k: i64,       // refuse request number k (1-based), 0 = none
    pub sticky: bool, // ... and all later ones
    pub seen: i64,
    pub att: i64, // requests by the collection
    pub eat: i64, // requests by elements
    pub den: i64, // refused requests
    pub big: i64, // requests larger than any allocator here can serve (always refused)
    pub blk: i64, // live blocks requested by collections
    pub eblk: i64, // live blocks requested by elements
    pub bytes: i64, // live bytes in collection blocks
    pub chg: i64, // something the collections held when the call began is no longer as it was
    pub sum: u64, // of all that was held when the call began
    pub upto: u64, // blocks requested later are not part of it
    pub nseq: u64,
    pub wp: *const u8, // the collections themselves
    pub wl: usize,
    pub mem: i64, // first memory error seen: 1 layout, 2 unknown or double free, 3 overwrite, 4 write after free
}
pub static mut C: Ctl = Ctl {
    track: false, armed: false, elem: false, off: 0, k: 0, sticky: false, seen: 0, att: 0, eat: 0, den: 0,
    big: 0, blk: 0, eblk: 0, bytes: 0, chg: 0, sum: 0, upto: 0, nseq: 0, wp: ptr::null(), wl: 0, mem: 0,
};
#[inline(always)]
pub fn ctl() -> &'static mut Ctl {
    unsafe { &mut *ptr::addr_of_mut!(C) }
}

const LIVE: u64 = 0x11FE_B10C_0BAD_CAFE;
const DEAD: u64 = 0xDEAD_B10C_0BAD_CAFE;
const CAN: u64 = 0xC5C5_5C5C_C5C5_5C5C;
#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    owner: u64, // 0 harness, 1 collection, 2 element
    can: u64,
    prev: *mut Hdr, // live blocks of collections
    next: *mut Hdr,
    can2: u64,
}
const HS: usize = 64;
static mut HEAD: *mut Hdr = ptr::null_mut();
unsafe fn link(h: *mut Hdr) {
    let c = ctl();
    c.nseq += 1;
    (*h).owner |= c.nseq << 2;
    (*h).next = HEAD;
    if !HEAD.is_null() { (*HEAD).prev = h; }
    HEAD = h;
}
unsafe fn unlink(h: *mut Hdr) {
    if (*h).prev.is_null() { if HEAD == h { HEAD = (*h).next; } } else { (*(*h).prev).next = (*h).next; }
    if !(*h).next.is_null() { (*(*h).next).prev = (*h).prev; }
    (*h).prev = ptr::null_mut();
    (*h).next = ptr::null_mut();
}
/// The collections of this case.
pub fn watch_also(p: *const u8, n: usize) { ctl().wp = p; ctl().wl = n; }
/// What is still there no longer belongs to any collection.
pub fn watch_nothing() {
    ctl().wl = 0;
    unsafe { while !HEAD.is_null() { unlink(HEAD) } }
}
fn mix(a: u64, b: u64) -> u64 { (a ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) }
unsafe fn sum_of(mut a: u64, p: *const u8, n: usize) -> u64 {
    let mut i = 0;
    while i + 8 <= n { a = mix(a, ptr::read_unaligned(p.add(i) as *const u64)); i += 8; }
    while i < n { a = mix(a, ptr::read_volatile(p.add(i)) as u64); i += 1; }
    a
}
/// Everything the collections hold, with the collections themselves; blocks younger than `upto` are left out.
unsafe fn sum_all() -> u64 {
    let c = ctl();
    let mut a = sum_of(1, c.wp, c.wl);
    let mut h = HEAD;
    while !h.is_null() {
        if (*h).owner >> 2 <= c.upto { a = sum_of(mix(a, h as u64), (h as *const u8).add(HS), (*h).size); }
        h = (*h).next;
    }
    a
}
pub fn watch_from() { unsafe { let c = ctl(); c.chg = 0; c.upto = c.nseq; c.sum = sum_all(); } }
/// Reading outside an observed call.
pub fn watched<R>(f: impl FnOnce() -> R) -> R {
    let was = ctl().chg;
    watch_from();
    let r = f();
    watch_now();
    ctl().chg |= was;
    r
}
pub fn watch_now() { unsafe { let c = ctl(); if c.sum != sum_all() { c.chg = 1; } } }
const TAIL: usize = 16;
pub struct A;

fn off_for(align: usize) -> usize {
    if align > 64 { align } else { 64 }
}
unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(HS) as *mut Hdr
}
unsafe fn raw_alloc(l: Layout, owner: u64) -> *mut u8 {
    let o = off_for(l.align());
    let total = match l.size().checked_add(o + TAIL) {
        Some(t) => t,
        None => return ptr::null_mut(),
    };
    let al = if l.align() > 16 { l.align() } else { 16 };
    let lay = match Layout::from_size_align(total, al) {
        Ok(x) => x,
        Err(_) => return ptr::null_mut(),
    };
    let base = System.alloc(lay);
    if base.is_null() {
        return base;
    }
    let p = base.add(o);
    ptr::write(hdr(p), Hdr { magic: LIVE, size: l.size(), align: l.align(), owner, can: CAN, prev: ptr::null_mut(), next: ptr::null_mut(), can2: CAN });
    if owner != 0 {
        ptr::write_bytes(p, 0xA5, l.size());
    }
    if owner == 1 { link(hdr(p)); }
    for i in 0..TAIL {
        *p.add(l.size() + i) = 0xC5;
    }
    p
}
unsafe fn release(p: *mut u8, size: usize, align: usize) {
    let o = off_for(align);
    let al = if align > 16 { align } else { 16 };
    System.dealloc(p.sub(o), Layout::from_size_align_unchecked(size + o + TAIL, al));
}

const QN: usize = 512;
static mut QUAR: [*mut u8; QN] = [ptr::null_mut(); QN];
static mut QI: usize = 0;
fn err(code: i64) {
    if ctl().mem == 0 {
        ctl().mem = code;
    }
}
unsafe fn check_overwrite(p: *mut u8, h: &Hdr) {
    if h.can != CAN || h.can2 != CAN {
        err(3);
    }
    for i in 0..TAIL {
        if *p.add(h.size + i) != 0xC5 {
            err(3);
            break;
        }
    }
}
unsafe fn evict(p: *mut u8) {
    let h = ptr::read(hdr(p));
    if h.magic != DEAD || h.can != CAN {
        err(4);
        return; // header destroyed: leave the block alone
    }
    for i in 0..h.size {
        if *p.add(i) != 0xDD {
            err(4);
            break;
        }
    }
    release(p, h.size, h.align);
}
/// Checks every freed block still held back for later writes.
pub fn drain_quarantine() {
    unsafe {
        for i in 0..QN {
            if !QUAR[i].is_null() {
                evict(QUAR[i]);
                QUAR[i] = ptr::null_mut();
            }
        }
    }
}
unsafe fn refuse(size: usize) -> bool {
    let c = ctl();
    if c.off > 0 || !c.armed {
        return size > (1 << 40);
    }
    c.seen += 1;
    if c.elem {
        c.eat += 1;
    } else {
        c.att += 1;
    }
    if size > (1 << 40) {
        c.den += 1;
        c.big += 1;
        return true;
    }
    if c.k > 0 && (c.seen == c.k || (c.sticky && c.seen > c.k)) {
        c.den += 1;
        return true;
    }
    false
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = ctl();
        if refuse(l.size()) {
            return ptr::null_mut();
        }
        let owner = if c.off > 0 { 0 } else if c.elem { 2 } else if c.track { 1 } else { 0 };
        let p = raw_alloc(l, owner);
        if !p.is_null() {
            match owner {
                1 => { c.blk += 1; c.bytes += l.size() as i64 }
                2 => c.eblk += 1,
                _ => {}
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = ctl();
        let mut h = ptr::read(hdr(p));
        if h.magic != LIVE {
            err(2);
            return;
        }
        h.owner &= 3;
        if h.owner == 1 { unlink(hdr(p)); }
        if h.size != l.size() || h.align != l.align() {
            err(1);
        }
        check_overwrite(p, &h);
        match h.owner {
            1 => { c.blk -= 1; c.bytes -= h.size as i64 }
            2 => c.eblk -= 1,
            _ => {}
        }
        if h.owner == 0 {
            (*hdr(p)).magic = DEAD;
            release(p, h.size, h.align);
            return;
        }
        (*hdr(p)).magic = DEAD;
        ptr::write_bytes(p, 0xDD, h.size);
        let old = QUAR[QI];
        QUAR[QI] = p;
        QI = (QI + 1) % QN;
        if !old.is_null() {
            evict(old);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let mut h = ptr::read(hdr(p));
        if h.magic != LIVE {
            err(2);
            return ptr::null_mut();
        }
        h.owner &= 3;
        if h.size != l.size() || h.align != l.align() {
            err(1);
        }
        // Growing a block always moves it, so stale pointers into the old one are noticed.
        let c = ctl();
        if refuse(new) {
            return ptr::null_mut();
        }
        let lay = match Layout::from_size_align(new, h.align) {
            Ok(x) => x,
            Err(_) => return ptr::null_mut(),
        };
        let q = raw_alloc(lay, h.owner);
        if q.is_null() {
            return q;
        }
        match h.owner {
            1 => { c.blk += 1; c.bytes += new as i64 }
            2 => c.eblk += 1,
            _ => {}
        }
        ptr::copy_nonoverlapping(p, q, if new < h.size { new } else { h.size });
        self.dealloc(p, Layout::from_size_align_unchecked(h.size, h.align));
        q
    }
}
/// Harness bookkeeping inside an observed call.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    ctl().off += 1;
    let r = f();
    ctl().off -= 1;
    r
}
