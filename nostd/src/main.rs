//! Runs the C12 workloads with the no-std build of vorbis_bitpack.
//! vnostd SEED: reads lines "WORKLOAD CASE", answers "ok ..." or "bad ..." to each.
#[path = "../../harness/src/bp.rs"]
mod bp;
#[allow(dead_code)]
#[path = "../../harness/src/rng.rs"]
mod rng;

use std::io::{BufRead, Write};

fn main() {
    let seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).expect("seed");
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (w, c) = l.split_once(' ').expect("WORKLOAD CASE");
        let case: u64 = c.parse().unwrap();
        let mut st = bp::Stats::default();
        let mut r = rng::Rng::new(rng::mix(rng::mix_str(rng::mix_str(seed, "C12"), &format!("nostd-{w}")), case));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bp::run(w, case, &mut r, &mut st)));
        let mut o = out.lock();
        match res {
            Ok(Ok(())) => writeln!(o, "ok {} {} {} {} {} {}", st.key, st.ops, st.bits, st.floats, st.eofs, st.faults),
            Ok(Err(e)) => writeln!(o, "bad {}", e.replace('\n', " ")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                writeln!(o, "bad panic: {}", m.unwrap_or_default().replace('\n', " "))
            }
        }
        .unwrap();
        o.flush().unwrap();
    }
}
