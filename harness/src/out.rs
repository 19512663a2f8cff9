use std::fmt::Write as _;
use std::io::Write as _;
pub struct Ev { pub s: String, pub ok: i64 }
pub fn c30(n: usize) -> i64 { if n > (1 << 30) { 1 << 30 } else { n as i64 } }
impl Ev {
    pub fn new(e: &str) -> Ev { Ev { s: format!("{{\"e\":\"{}\"", e), ok: -1 } }
    pub fn i(&mut self, k: &str, v: i64) -> &mut Self { if k == "ok" { self.ok = v; } write!(self.s, ",\"{}\":{}", k, v).unwrap(); self }
    pub fn t(&mut self, k: &str, v: &str) -> &mut Self {
        write!(self.s, ",\"{}\":\"", k).unwrap();
        for c in v.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                '\n' => self.s.push_str("\\n"),
                c if (c as u32) < 32 => write!(self.s, "\\u{:04x}", c as u32).unwrap(),
                c => self.s.push(c),
            }
        }
        self.s.push('"');
        self
    }
    pub fn is(&mut self, k: &str, v: &[i64]) -> &mut Self {
        write!(self.s, ",\"{}\":[", k).unwrap();
        for (n, x) in v.iter().enumerate() { if n > 0 { self.s.push(','); } write!(self.s, "{}", x).unwrap(); }
        self.s.push(']');
        self
    }
    pub fn ps(&mut self, k: &str, v: &[(i64, i64)]) -> &mut Self {
        write!(self.s, ",\"{}\":[", k).unwrap();
        for (n, x) in v.iter().enumerate() { if n > 0 { self.s.push(','); } write!(self.s, "[{},{}]", x.0, x.1).unwrap(); }
        self.s.push(']');
        self
    }
    pub fn vs(&mut self, k: &str, v: &[Vec<i64>]) -> &mut Self {
        write!(self.s, ",\"{}\":[", k).unwrap();
        for (n, x) in v.iter().enumerate() {
            if n > 0 { self.s.push(','); }
            self.s.push('[');
            for (m, y) in x.iter().enumerate() { if m > 0 { self.s.push(','); } write!(self.s, "{}", y).unwrap(); }
            self.s.push(']');
        }
        self.s.push(']');
        self
    }
    pub fn chars(&mut self, k: &str, v: &str) -> &mut Self {
        write!(self.s, ",\"{}\":[", k).unwrap();
        for (n, c) in v.chars().enumerate() { if n > 0 { self.s.push(','); } write!(self.s, "\"{}\"", c).unwrap(); }
        self.s.push(']');
        self
    }
    pub fn put(&mut self, f: &mut std::fs::File) {
        self.s.push_str("}\n");
        f.write_all(self.s.as_bytes()).unwrap();
    }
}

/// A writer that accepts so many bytes and then fails.
pub struct Tight { pub left: usize, pub got: String }
impl std::fmt::Write for Tight {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left { self.left = 0; return Err(std::fmt::Error) }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
/// A writer that keeps nothing.
pub struct Sink(pub usize);
impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
/// Writes the text where nothing is kept, so that only what the crate itself needs is asked of the allocator.
pub fn written<T: std::fmt::Debug>(x: &T) -> usize {
    let mut w = Sink(0);
    let _ = write!(w, "{:?}", x);
    let _ = write!(w, "{:#?}", x);
    w.0
}
/// The text, the text over several lines, and whether a writer that fails half-way is noticed.
pub fn texts<T: std::fmt::Debug>(x: &T) -> (String, String, i64) {
    let a = format!("{:?}", x);
    let b = format!("{:#?}", x);
    let mut w = Tight { left: a.len() / 2, got: String::new() };
    let te = match write!(w, "{:?}", x) { Err(_) => a.starts_with(&w.got), Ok(()) => false };
    (a, b, te as i64)
}
