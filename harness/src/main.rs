//! Interprets a script of public calls on fallible_collections and records one event per call.
mod alloc;
#[cfg(feature = "unstable")]
mod ord;
#[cfg(feature = "hash")]
mod hashd;
#[cfg(feature = "stdio")]
mod iod;
mod cell;
mod fmtd;
mod shape;
mod share;
mod out;
mod reg;
mod vecd;
#[cfg(feature = "unstable")]
mod setd;
mod win;
mod zst;
use out::Ev;
use reg::*;
use win::*;

#[global_allocator]
static GA: alloc::A = alloc::A;

trait Dom {
    fn step(&mut self, t: &[&str], p: &Plan) -> Ev;
    /// where the collections themselves are
    fn held(&self) -> (*const u8, usize) { (std::ptr::null(), 0) }
}
impl<E: Elem> Dom for vecd::D<E> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { vecd::D::step(self, t, p) } fn held(&self) -> (*const u8, usize) { vecd::D::held(self) } }
struct Nil;
impl Dom for Nil { fn step(&mut self, t: &[&str], _: &Plan) -> Ev { panic!("no case for {:?}", t) } }

fn vcase(kind: &str, wrap: bool) -> Box<dyn Dom> {
    match kind {
        "T" => Box::new(vecd::D::<T>::new(wrap)),
        "H" => Box::new(vecd::D::<H>::new(wrap)),
        "A" => Box::new(vecd::D::<A32>::new(wrap)),
        "L" => Box::new(vecd::D::<L>::new(wrap)),
        "Z" => Box::new(vecd::D::<Z>::new(wrap)),
        "B" => Box::new(vecd::D::<u8>::new(wrap)),
        "W" => Box::new(vecd::D::<u64>::new(wrap)),
        "C" => Box::new(vecd::D::<C3>::new(wrap)),
        "S" => Box::new(vecd::D::<i8>::new(wrap)),
        "M" => Box::new(vecd::D::<u16>::new(wrap)),
        "O" => Box::new(vecd::D::<bool>::new(wrap)),
        "F" => Box::new(vecd::D::<F>::new(wrap)),
        "I" => Box::new(vecd::D::<I>::new(wrap)),
        _ => panic!("kind"),
    }
}

#[cfg(feature = "unstable")]
impl<K: Key, V: Val> Dom for ord::D<K, V> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { ord::D::step(self, t, p) } fn held(&self) -> (*const u8, usize) { ord::D::held(self) } }
#[cfg(feature = "unstable")]
impl<K: Key> Dom for setd::S<K> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { setd::S::step(self, t, p) } fn held(&self) -> (*const u8, usize) { setd::S::held(self) } }
#[cfg(feature = "unstable")]
fn setcase(kind: &str) -> Box<dyn Dom> {
    match kind { "K" => Box::new(setd::S::<PK>::new()), "T" => Box::new(setd::S::<T>::new()), "H" => Box::new(setd::S::<H>::new()), "A" => Box::new(setd::S::<A32>::new()), "L" => Box::new(setd::S::<L>::new()), "U" => Box::new(setd::S::<UK>::new()), _ => panic!("kind") }
}
#[cfg(not(feature = "unstable"))]
fn setcase(_: &str) -> Box<dyn Dom> { panic!("build") }
#[cfg(feature = "unstable")]
fn ordcase(kind: &str, vk: &str) -> Box<dyn Dom> {
    fn with<K: Key>(vk: &str) -> Box<dyn Dom> {
        match vk {
            "T" => Box::new(ord::D::<K, T>::new()),
            "H" => Box::new(ord::D::<K, H>::new()),
            "A" => Box::new(ord::D::<K, A32>::new()),
            "L" => Box::new(ord::D::<K, L>::new()),
            "Z" => Box::new(ord::D::<K, Z>::new()),
            "W" => Box::new(ord::D::<K, u64>::new()),
            "F" => Box::new(ord::D::<K, F>::new()),
            "I" => Box::new(ord::D::<K, I>::new()),
            _ => panic!("kind"),
        }
    }
    match kind { "K" => with::<PK>(vk), "T" => with::<T>(vk), "H" => with::<H>(vk), "A" => with::<A32>(vk), "L" => with::<L>(vk), "U" => with::<UK>(vk), _ => panic!("kind") }
}
#[cfg(not(feature = "unstable"))]
fn ordcase(_: &str, _: &str) -> Box<dyn Dom> { panic!("build") }

#[cfg(feature = "hash")]
impl<K: Key, V: Val> Dom for hashd::D<K, V> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { hashd::D::step(self, t, p) } fn held(&self) -> (*const u8, usize) { hashd::D::held(self) } }
#[cfg(feature = "hash")]
fn hashcase(kind: &str, vk: &str) -> Box<dyn Dom> {
    fn with<K: Key>(vk: &str) -> Box<dyn Dom> {
        match vk {
            "T" => Box::new(hashd::D::<K, T>::new()),
            "H" => Box::new(hashd::D::<K, H>::new()),
            "A" => Box::new(hashd::D::<K, A32>::new()),
            "L" => Box::new(hashd::D::<K, L>::new()),
            "Z" => Box::new(hashd::D::<K, Z>::new()),
            "W" => Box::new(hashd::D::<K, u64>::new()),
            "F" => Box::new(hashd::D::<K, F>::new()),
            "I" => Box::new(hashd::D::<K, I>::new()),
            _ => panic!("kind"),
        }
    }
    match kind { "K" => with::<PK>(vk), "T" => with::<T>(vk), "H" => with::<H>(vk), "A" => with::<A32>(vk), "L" => with::<L>(vk), "U" => with::<UK>(vk), _ => panic!("kind") }
}
#[cfg(not(feature = "hash"))]
fn hashcase(_: &str, _: &str) -> Box<dyn Dom> { panic!("build") }

impl<E: Elem> Dom for cell::D<E> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { cell::D::step(self, t, p) } }
impl Dom for fmtd::D { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { fmtd::D::step(self, t, p) } }
impl<S: shape::Shape> Dom for shape::D<S> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { shape::D::step(self, t, p) } }
impl<S: share::Sh> Dom for share::D<S> { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { share::D::step(self, t, p) } fn held(&self) -> (*const u8, usize) { share::D::held(self) } }
impl Dom for share::Marks { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { share::Marks::step(self, t, p) } }
fn sharecase(kind: &str) -> Box<dyn Dom> {
    match kind {
        #[cfg(feature = "unstable")]
        "M" => Box::new(share::D::<fallible_collections::btree::BTreeMap<u32, u32>>::new()),
        #[cfg(feature = "unstable")]
        "S" => Box::new(share::D::<fallible_collections::btree::BTreeSet<u32>>::new()),
        #[cfg(feature = "hash")]
        "H" => Box::new(share::D::<fallible_collections::TryHashMap<u32, u32>>::new()),
        _ => panic!("kind"),
    }
}
struct Zst;
impl Dom for Zst { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { zst::step(t, p) } }
struct Num;
impl Dom for Num { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { shape::number(t, p) } }
#[cfg(feature = "stdio")]
impl Dom for iod::D { fn step(&mut self, t: &[&str], p: &Plan) -> Ev { iod::D::step(self, t, p) } }
#[cfg(feature = "stdio")]
fn iocase() -> Box<dyn Dom> { Box::new(iod::D::new()) }
#[cfg(not(feature = "stdio"))]
fn iocase() -> Box<dyn Dom> { panic!("build") }
fn cellcase(kind: &str) -> Box<dyn Dom> {
    match kind {
        "T" => Box::new(cell::D::<T>::new()),
        "H" => Box::new(cell::D::<H>::new()),
        "A" => Box::new(cell::D::<A32>::new()),
        "P" => Box::new(cell::D::<A512>::new()),
        "I" => Box::new(cell::D::<I>::new()),
        "L" => Box::new(cell::D::<L>::new()),
        "G" => Box::new(cell::D::<G>::new()),
        "Q" => Box::new(cell::D::<A8K>::new()),
        "Z" => Box::new(cell::D::<Z>::new()),
        "Y" => Box::new(cell::D::<ZA>::new()),
        "B" => Box::new(cell::D::<u8>::new()),
        "W" => Box::new(cell::D::<u64>::new()),
        "C" => Box::new(cell::D::<C3>::new()),
        _ => panic!("kind"),
    }
}
fn shapecase(kind: &str) -> Box<dyn Dom> {
    use fallible_collections::{TryBox, TryVec};
    use std::sync::Arc;
    type D<S> = shape::D<S>;
    match kind {
        "0" => Box::new(D::<Option<T>>::new()),
        "1" => Box::new(D::<Vec<Option<Box<T>>>>::new()),
        "2" => Box::new(D::<Box<Vec<H>>>::new()),
        "3" => Box::new(D::<TryBox<Option<H>>>::new()),
        "4" => Box::new(D::<TryVec<Vec<H>>>::new()),
        "5" => Box::new(D::<Vec<Arc<T>>>::new()),
        "6" => Box::new(D::<Option<Vec<TryVec<T>>>>::new()),
        "7" => Box::new(D::<Box<Box<A32>>>::new()),
        "8" => Box::new(D::<Arc<Vec<T>>>::new()),
        "9" => Box::new(D::<Vec<TryBox<u64>>>::new()),
        "10" => Box::new(D::<Option<Option<Arc<H>>>>::new()),
        "11" => Box::new(D::<Vec<Vec<Vec<T>>>>::new()),
        "12" => Box::new(D::<TryVec<TryBox<Vec<u8>>>>::new()),
        "13" => Box::new(D::<Vec<bool>>::new()),
        "14" => Box::new(D::<Box<Z>>::new()),
        #[cfg(feature = "hash")]
        "20" => Box::new(D::<fallible_collections::TryHashMap<T, Vec<T>>>::new()),
        #[cfg(feature = "hash")]
        "21" => Box::new(D::<Vec<fallible_collections::TryHashMap<H, Box<H>>>>::new()),
        #[cfg(feature = "hash")]
        "22" => Box::new(D::<fallible_collections::TryHashMap<T, fallible_collections::TryHashMap<T, Option<i8>>>>::new()),
        #[cfg(feature = "unstable")]
        "30" => Box::new(D::<fallible_collections::btree::BTreeMap<T, Vec<H>>>::new()),
        #[cfg(feature = "unstable")]
        "31" => Box::new(D::<fallible_collections::btree::BTreeMap<H, fallible_collections::btree::BTreeMap<T, T>>>::new()),
        #[cfg(feature = "unstable")]
        "32" => Box::new(D::<Option<fallible_collections::btree::BTreeMap<T, TryBox<Option<Arc<T>>>>>>::new()),
        _ => panic!("kind"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).unwrap();
    let mut f = std::fs::File::create(&a[2]).unwrap();
    std::panic::set_hook(Box::new(|_| { alloc::ctl().armed = false; }));
    let mut dom: Box<dyn Dom> = Box::new(Nil);
    let mut plan = Plan::default();
    let mut sweep = ' ';
    for (n, line) in script.lines().enumerate() {
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() { continue; }
        match t[0] {
            // faults of the next call: refuse request k (and later ones), fail duplication j, panic in callback j
            "!a" => { plan.k = t[1].parse().unwrap(); plan.sticky = t[2] == "1"; continue; }
            "!c" => { plan.cfail = t[1].parse().unwrap(); continue; }
            // keys of this case hash modulo m
            "!h" => { reg().hmod = t[1].parse().unwrap(); continue; }
            // from here on, comparisons of keys answer in this manner
            "!l" => { reg().lies = 0x9E37_79B9_7F4A_7C15 ^ t[1].parse::<u64>().unwrap().wrapping_mul(0x2545_F491_4F6C_DD1D); reg().lie = t[2].as_bytes()[0]; reg().lied = true; continue; }
            "!p" => { plan.pk = t[1].as_bytes()[0]; plan.pat = t[2].parse().unwrap(); continue; }
            // ... at every position in turn, until the call runs unharmed
            "!sa" | "!ss" | "!sc" | "!sp" => {
                sweep = t[0].chars().nth(2).unwrap();
                if sweep == 'p' { plan.pk = t[1].as_bytes()[0]; }
                continue;
            }
            _ => {}
        }
        if t[0] == "case" {
            // everything of the previous case goes away; what is left over is its leak
            let old = std::mem::replace(&mut dom, Box::new(Nil));
            alloc::watch_nothing();
            let clean = win(&Plan::default(), || drop(old)).is_some();
            alloc::drain_quarantine();
            let mut e = Ev::new("case");
            e.i("ok", clean as i64);
            common(&mut e);
            e.t("d", t[1]).t("kd", t[2]).t("fl", t.get(3).unwrap_or(&"")).i("nn", t.get(4).map_or(0, |x| x.parse().unwrap())).i("sl", n as i64);
            // start afresh, whatever happened before
            let r = reg();
            r.next = 1; r.alive.iter_mut().for_each(|x| *x = 0); r.al = 0; r.bad = 0; r.hmod = 0; r.lie = b'0'; r.lied = false;
            let c = alloc::ctl();
            c.blk = 0; c.eblk = 0; c.mem = 0; c.bytes = 0;
            dom = match t[1] {
                "vec" => vcase(t[2], t[3] == "w"),
                "ord" => ordcase(t[2], t[3]),
                "set" => setcase(t[2]),
                "io" => iocase(),
                "fmt" => Box::new(fmtd::D::new()),
                "cell" => cellcase(t[2]),
                "shape" => shapecase(t[2]),
                "num" => Box::new(Num),
                "zst" => Box::new(Zst),
                "hash" => hashcase(t[2], t[3]),
                "share" => sharecase(t[2]),
                "mark" => Box::new(share::Marks),
                "end" => Box::new(Nil),
                _ => panic!("domain {}", t[1]),
            };
            let h = dom.held();
            alloc::watch_also(h.0, h.1);
            e.put(&mut f);
            continue;
        }
        let mut pos = 1;
        loop {
            match sweep {
                'a' | 's' => { plan.k = pos; plan.sticky = sweep == 's'; }
                'c' => plan.cfail = pos,
                'p' => plan.pat = pos,
                _ => {}
            }
            let mut e = dom.step(&t, &plan);
            common(&mut e);
            e.i("fk", plan.k).i("fs", plan.sticky as i64).i("fc", plan.cfail).i("fp", plan.pat).i("sl", n as i64);
            e.put(&mut f);
            let hit = alloc::ctl().den > alloc::ctl().big || reg().cf > 0 || reg().pn > 0;
            pos += 1;
            if sweep == ' ' || !hit || e.ok == 1 || pos > 60 { break; }
        }
        plan = Plan::default();
        sweep = ' ';
    }
}
