//! driver SCRIPT LOG [FIRST]: runs the episodes of SCRIPT from number FIRST (0) on against the
//! library and appends one line per call to LOG.

mod coef;
mod guard;
mod keys;
#[cfg(rustyalgebra_verif)]
mod lie;
mod rvec;
mod scalar;
mod script;
mod vecs;

use script::*;
use std::sync::atomic::Ordering;

#[global_allocator]
static HEAP: guard::Guarded = guard::Guarded;

/// a call that takes longer than this is taken for one that never returns
const HANG_SECONDS: u32 = 40;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { die("usage: driver SCRIPT LOG [FIRST]"); }
    let text = std::fs::read_to_string(&a[1]).unwrap_or_else(|e| die(&format!("{}: {}", a[1], e)));
    let first: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last { same += 1 } else { same = 0; last = now }
            if same >= HANG_SECONDS { std::process::exit(97) }
        }
    });
    let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut log = Log::new(&a[2]);
        for (i, ep) in split(&text).into_iter().enumerate().skip(first) {
            let ep = &parse(ep)[..];
            match ep[0].tok(1) {
                "keys" => keys::episode(i, ep, &mut log),
                "vec" => vecs::episode(i, ep, &mut log),
                #[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_table)))]
                "table" => lie::table::episode(i, ep, &mut log),
                #[cfg(all(rustyalgebra_verif, not(any(rustyalgebra_verif_no_cache, rustyalgebra_verif_no_id))))]
                "cache" => lie::cache::episode(i, ep, &mut log),
                #[cfg(all(rustyalgebra_verif, not(rustyalgebra_verif_no_hkeys)))]
                "hallkeys" => lie::hkeys::episode(i, ep, &mut log),
                "coef" => coef::episode(i, ep, &mut log),
                "rvec" => rvec::episode(i, ep, &mut log),
                x => die(&format!("unknown kind of episode {}", x)),
            }
        }
    }).unwrap();
    if worker.join().is_err() { std::process::exit(65) }
}
