//! Formatting with a stated capacity.
use crate::alloc::ctl;
use crate::out::Ev;
use crate::win::*;
use fallible_collections::{format::try_format, tryformat};
use std::cell::Cell;
use std::fmt::{self, Write as _};

/// Writes its pieces one by one, some of them character by character; counts its runs.
struct Pieces<'a> { p: &'a [String], runs: &'a Cell<i64>, att0: &'a Cell<i64> }
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.runs.get() == 0 { self.att0.set(ctl().att); }
        self.runs.set(self.runs.get() + 1);
        for (i, x) in self.p.iter().enumerate() {
            match i % 3 { 0 => f.write_str(x)?, 1 => { for c in x.chars() { f.write_char(c)?; } } _ => write!(f, "{}", x)? }
        }
        Ok(())
    }
}
fn text(s: &str) -> String {
    // letters stand for characters of one to four bytes
    s.chars().map(|c| match c { 'E' => 'é', 'U' => '€', 'X' => '𝄞', '_' => ' ', 'N' => '\n', c => c }).collect()
}
pub struct D { s: Vec<String> }
impl D {
    pub fn new() -> Self { D { s: vec![String::new(), String::new()] } }
    /// fm slot how extra pieces num: capacity is the text's length plus extra (or max/tb); how picks the format string
    pub fn step(&mut self, t: &[&str], p: &Plan) -> Ev {
        let op = t[0];
        let s: usize = t[1].parse().unwrap();
        let mut e = Ev::new(op);
        e.i("s", s as i64);
        let bytes = |x: &str| x.bytes().map(|b| b as i64).collect::<Vec<_>>();
        if op == "dr" {
            let x = std::mem::take(&mut self.s[s]);
            let ok = win(p, || drop(x)).map_or(2, |_| 1);
            e.i("ok", ok).i("got", 0);
            return e;
        }
        let how = t[2];
        let pieces: Vec<String> = if t[4] == "-" { vec![] } else { t[4].split('/').map(text).collect() };
        let n: i64 = t[5].parse().unwrap();
        let (runs, att0) = (Cell::new(0), Cell::new(-1));
        let a = Pieces { p: &pieces, runs: &runs, att0: &att0 };
        // what ordinary formatting gives
        let want = match how {
            "p" => format!("{}", a), "l" => format!("just words"), "m" => format!("<{}|{}>", a, n), "w" => format!("{:>7}{:#x}{:?}", n, n, text("aE")),
            "e" => format!(""), "d" => format!("{}{}", a, a), _ => format!("{{{}}} {:05} é", a, n),
        };
        let cap = match t[3] { "max" => usize::MAX, "imax1" => isize::MAX as usize + 1, "imax" => isize::MAX as usize, "tb" => 1 << 42, x => (want.len() as i64 + x.parse::<i64>().unwrap()).max(0) as usize };
        runs.set(0); att0.set(-1);
        let x = match how {
            "p" => win(p, || tryformat!(cap, "{}", a)),
            "l" => win(p, || tryformat!(cap, "just words")),
            "m" => win(p, || tryformat!(cap, "<{}|{}>", a, n)),
            "w" => win(p, || tryformat!(cap, "{:>7}{:#x}{:?}", n, n, "aé")),
            "e" => win(p, || try_format(cap, format_args!(""))),
            "d" => win(p, || try_format(cap, format_args!("{}{}", a, a))),
            _ => win(p, || try_format(cap, format_args!("{{{}}} {:05} é", a, n))),
        };
        let mut got = vec![];
        let ok = match x { None => 2, Some(Err(_)) => 0, Some(Ok(x)) => { got = bytes(&x); self.s[s] = x; 1 } };
        e.t("how", how).i("cap", lnum(cap)).vs("pcs", &pieces.iter().map(|x| bytes(x)).collect::<Vec<_>>()).i("n", n)
            .is("want", &bytes(&want)).is("txt", &got).i("runs", runs.get()).i("att0", att0.get()).i("ok", ok).i("got", self.s[s].capacity() as i64);
        e
    }
}
