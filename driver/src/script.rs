//! Scripts and logs.  A script is a sequence of episodes; each starts with a `begin` line.  For
//! every call one JSON line is logged: first (flushed) what is called, then what came out.

use std::fs::File;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub struct Line {
    pub words: Vec<String>,
}

impl Line {
    pub fn op(&self) -> &str { &self.words[0] }
    pub fn tok(&self, i: usize) -> &str {
        self.words.get(i).unwrap_or_else(|| die(&format!("missing argument {} of {:?}", i, self.words)))
    }
    pub fn int(&self, i: usize) -> i64 { self.tok(i).parse().unwrap_or_else(|_| die(&format!("bad int in {:?}", self.words))) }
    pub fn reg(&self, i: usize) -> usize { self.int(i) as usize }
    /// letters "1.2.3", "." is the empty word
    pub fn word(&self, i: usize) -> Vec<u32> { word(self.tok(i)) }
    pub fn frac(&self, i: usize) -> (i64, i64) { frac(self.tok(i)) }
    /// "1,2,3", "_" is empty
    pub fn fracs(&self, i: usize) -> Vec<(i64, i64)> {
        if self.tok(i) == "_" { vec![] } else { self.tok(i).split(',').map(frac).collect() }
    }
    pub fn pairs(&self, i: usize) -> Vec<(Vec<u32>, (i64, i64))> {
        if self.tok(i) == "_" { return vec![]; }
        self.tok(i).split(',').map(|t| {
            let (w, c) = t.split_once('=').unwrap_or_else(|| die("bad pair"));
            (word(w), frac(c))
        }).collect()
    }
    /// a number below 4 that depends on the text of an argument
    pub fn shape(&self, i: usize) -> u32 { self.tok(i).bytes().fold(0u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) / 7 % 4 }
    pub fn u64(&self, i: usize) -> u64 { self.tok(i).parse().unwrap_or_else(|_| die("bad u64")) }
}

fn word(t: &str) -> Vec<u32> {
    if t == "." { return vec![]; }
    t.split('.').map(|x| x.parse().unwrap_or_else(|_| die(&format!("bad word {}", t)))).collect()
}

fn frac(t: &str) -> (i64, i64) {
    let p = |x: &str| x.parse().unwrap_or_else(|_| die(&format!("bad scalar {}", t)));
    match t.split_once('/') {
        Some((a, b)) => (p(a), p(b)),
        None => (p(t), 1),
    }
}

/// a mistake in the script, not in the library
pub fn die(msg: &str) -> ! {
    eprintln!("SCRIPT-ERROR: {}", msg);
    std::process::exit(64)
}

/// the episodes of a script, as text: they are parsed one at a time, which keeps the heap small
pub fn split(text: &str) -> Vec<&str> {
    let mut at: Vec<usize> = vec![];
    let mut pos = 0;
    for l in text.split_inclusive('\n') {
        if l.starts_with("begin") { at.push(pos); }
        pos += l.len();
    }
    if !text.trim().is_empty() && at.first() != Some(&0) { die("no begin") }
    (0..at.len()).map(|i| &text[at[i]..at.get(i + 1).copied().unwrap_or(text.len())]).collect()
}

pub fn parse(text: &str) -> Vec<Line> {
    text.lines().map(|l| Line { words: l.split_whitespace().map(|s| s.to_string()).collect() })
        .filter(|l| !l.words.is_empty()).collect()
}

pub struct Log {
    out: File,
}

impl Log {
    pub fn new(path: &str) -> Log {
        Log { out: std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap_or_else(|e| die(&format!("{}: {}", path, e))) }
    }
    fn put(&mut self, s: &str) {
        self.out.write_all(s.as_bytes()).unwrap_or_else(|e| die(&format!("log: {}", e)));
    }
    /// args: `,"r":1,"k":[1,2]`
    pub fn call(&mut self, ep: usize, op: &str, args: &str) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        self.put(&format!("{{\"op\":\"{}\",\"ep\":{}{}", op, ep, args));
    }
    pub fn ret(&mut self, out: &str, res: &str, obs: &str, buf: &str) {
        self.put(&format!(",\"out\":\"{}\",\"res\":[{}],\"obs\":[{}],\"buf\":[{}]}}\n", out, res, obs, buf));
    }
    pub fn more(&mut self, args: &str) { self.put(args); }
    pub fn line(&mut self, s: &str) { self.put(s); self.put("\n"); }
}

/// numbers the specification can hold
pub fn clamp(v: i64) -> i64 { if v.abs() < (1 << 31) { v } else { -(1 << 30) } }

pub fn list<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 { s.push(','); }
        s.push_str(&f(x));
    }
    s.push(']');
    s
}
pub fn ints(v: &[u32]) -> String { list(v, |x| clamp(*x as i64).to_string()) }
pub fn limbs(mut v: u64) -> String {
    let mut l = vec![];
    while v > 0 { l.push((v % 1000) as u32); v /= 1000; }
    ints(&l)
}
pub fn chars(s: &str) -> String { list(&s.chars().collect::<Vec<char>>(), |c| (*c as u32).to_string()) }
