//! The cache of Hall sets, also from several threads.

use super::*;
use rustyalgebra::lie::verif::{get_hall_set, HallSet, HallSetObject};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Barrier};

fn hall<const N: u32>(pre: i64) -> HallSetObject {
    get_hall_set::<N>(if pre < 0 { None } else { Some(pre as u32) })
}

/// several threads ask at the same moment, each several times
fn race<const N: u32>(threads: usize, times: usize, pre: i64) -> Vec<HallSetObject> {
    let gate = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads).map(|t| {
        let gate = gate.clone();
        std::thread::spawn(move || {
            gate.wait();
            (0..times).map(|_| hall::<N>(if t % 2 == 0 { pre } else { -1 })).collect::<Vec<_>>()
        })
    }).collect();
    hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| panic!("thread"))).collect()
}

fn query<const N: u32>(l: &Line) -> String {
    let hs = hall::<N>(-1);
    match l.op() {
        "isletter" => match hs.is_letter(l.u64(2)) { Ok(b) => format!("1,{}", b as u32), Err(_) => "0,0".into() },
        "range" => match hs.degree_range(l.int(2) as u32) {
            Ok((a, b)) => format!("1,{},{}", limbs(a as u64), limbs(b as u64)),
            Err(_) => "0,[],[]".into(),
        },
        _ => {
            let k = l.u64(2);
            let rs = [hs.key_details(k).is_ok(), hs.lparent_details(k).is_ok(), hs.rparent_details(k).is_ok()];
            inner(list(&rs, |b| (*b as u32).to_string()))
        }
    }
}

/// a thread per width at the same time: different widths, one moment
fn mixed(ws: &[u32], times: usize) -> Vec<(u32, HallSetObject)> {
    let gate = Arc::new(Barrier::new(ws.len()));
    let hs: Vec<_> = ws.iter().map(|w| {
        let (gate, w) = (gate.clone(), *w);
        std::thread::spawn(move || { gate.wait(); (0..times).map(|_| (w, by_width(w, Get(-1)).remove(0))).collect::<Vec<_>>() })
    }).collect();
    hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| panic!("thread"))).collect()
}

/// requests, queries, copies and drops of handles from several threads at once; one line per thread and round
fn storm<const N: u32>(threads: usize, times: usize) -> Vec<(HallSetObject, String)> {
    let gate = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads).map(|t| {
        let gate = gate.clone();
        std::thread::spawn(move || {
            gate.wait();
            (0..times).map(|r| {
                let h = hall::<N>(if (t + r) % 3 == 0 { 2 } else { -1 });
                let other = h.clone();
                let mut bits = vec![];
                for i in [0u64, 1, N as u64, N as u64 + 1] {
                    let q = if (t + r) % 2 == 0 { h.is_letter(i) } else { other.is_letter(i) };
                    bits.push(match q { Ok(b) => b as u32, Err(_) => 2 });
                }
                drop(other);
                let again = hall::<N>(-1);
                let rg = match again.degree_range(0) { Ok((a, b)) => format!("{},{}", limbs(a as u64), limbs(b as u64)), Err(_) => "[],[]".into() };
                (h, format!("{},{}", inner(list(&bits, |b| b.to_string())), rg))
            }).collect::<Vec<_>>()
        })
    }).collect();
    hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| panic!("thread"))).collect()
}

enum Ask<'a> { Get(i64), Race(usize, usize, i64), Query(&'a Line, &'a mut String), Storm(usize, usize, &'a mut Vec<String>) }
use Ask::*;

fn ask<const N: u32>(a: Ask) -> Vec<HallSetObject> {
    match a {
        Get(pre) => vec![hall::<N>(pre)],
        Race(t, k, pre) => race::<N>(t, k, pre),
        Query(l, out) => { *out = query::<N>(l); vec![] }
        Storm(t, k, out) => storm::<N>(t, k).into_iter().map(|(h, s)| { out.push(s); h }).collect(),
    }
}


fn by_width(w: u32, a: Ask) -> Vec<HallSetObject> {
    pick!(w, ask(a); 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 30 32 33 40 50 64 100
        127 128 255 256 257 258 272 300 512 513 1000 1024 4096 65535 65536 65537 65538 65552 1000000 16777217 16777218 2147483647)
}

pub fn episode(ep: usize, lines: &[Line], log: &mut Log) {
    // handles are kept, so that no address is used twice
    let mut kept: Vec<HallSetObject> = vec![];
    let mut ids: Vec<usize> = vec![];
    let mut name = |h: HallSetObject, kept: &mut Vec<HallSetObject>| -> usize {
        let id = h.verif_id();
        match ids.iter().position(|x| *x == id) {
            Some(i) => i + 1,
            None => { ids.push(id); kept.push(h); ids.len() }
        }
    };
    log.call(ep, "begin", "");
    log.ret("ok", "", "", "");
    for l in &lines[1..] {
        let a = match l.op() {
            "hget" => format!(",\"n\":{},\"pre\":{}", l.int(1), l.int(2)),
            "race" => format!(",\"n\":{},\"t\":{},\"k\":{},\"pre\":{}", l.int(1), l.int(2), l.int(3), l.int(4)),
            "storm" => format!(",\"n\":{},\"t\":{},\"k\":{}", l.int(1), l.int(2), l.int(3)),
            "mixed" => format!(",\"ws\":{}", ints(&l.word(1))),
            "isletter" | "details" => format!(",\"n\":{},\"i\":{}", l.int(1), limbs(l.u64(2))),
            "range" => format!(",\"n\":{},\"d\":{}", l.int(1), l.int(2)),
            x => die(&format!("unknown cache operation {}", x)),
        };
        log.call(ep, l.op(), &a);
        let w = if l.op() == "mixed" { 0 } else { l.int(1) as u32 };
        let r = catch_unwind(AssertUnwindSafe(|| match l.op() {
            "hget" => name(by_width(w, Get(l.int(2))).remove(0), &mut kept).to_string(),
            "race" => {
                let hs = by_width(w, Race(l.reg(2), l.reg(3), l.int(4)));
                let v: Vec<usize> = hs.into_iter().map(|h| name(h, &mut kept)).collect();
                inner(list(&v, |x| x.to_string()))
            }
            "storm" => {
                let mut said = vec![];
                let hs = by_width(w, Storm(l.reg(2), l.reg(3), &mut said));
                let v: Vec<String> = hs.into_iter().zip(said).map(|(h, s)| format!("[{},{}]", name(h, &mut kept), s)).collect();
                inner(list(&v, |x| x.clone()))
            }
            "mixed" => {
                let v: Vec<(u32, usize)> = mixed(&l.word(1), 4).into_iter().map(|(w, h)| (w, name(h, &mut kept))).collect();
                inner(list(&v, |(w, x)| format!("[{},{}]", w, x)))
            }
            _ => { let mut s = String::new(); by_width(w, Query(l, &mut s)); s }
        }));
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        finish(log, r);
    }
}

