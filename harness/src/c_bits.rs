//! C12: bitpacking, in the std build (in this process) and the no-std build (in child processes).
use crate::bp;
use crate::ctx::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};

struct Kid(Child, BufReader<std::process::ChildStdout>);
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static KID: RefCell<Option<Kid>> = const { RefCell::new(None) };
}
fn ask(seed: u64, line: &str) -> Result<String, String> {
    KID.with(|k| {
        let mut k = k.borrow_mut();
        if k.is_none() {
            let bin = std::env::var_os("VH_NOSTD").expect("VH_NOSTD");
            let mut c = Command::new(bin).arg(seed.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("cannot run the no-std build");
            let o = BufReader::new(c.stdout.take().unwrap());
            *k = Some(Kid(c, o));
        }
        let kid = k.as_mut().unwrap();
        let r = writeln!(kid.0.stdin.as_mut().unwrap(), "{line}").and_then(|_| {
            let mut s = String::new();
            kid.1.read_line(&mut s).map(|_| s)
        });
        match r {
            Ok(s) if s.ends_with('\n') => Ok(s.trim_end().to_string()),
            _ => {
                let st = kid.0.wait();
                *k = None;
                Err(format!("the no-std build died in {line}: {st:?}"))
            }
        }
    })
}

pub fn c12(ctx: &Ctx) -> i32 {
    let t = ctx.pick(1, 40);
    let list = vec![("widths", 1), ("round-trip", 100_000 * t), ("end-of-data", 60_000 * t), ("full-sink", 30_000 * t), ("floats", 256), ("all-floats", 4096)];
    for (w, n) in list {
        ctx.run(w, n, 0, |c, rng, obs| {
            let mut st = bp::Stats::default();
            let r = bp::run(w, c, rng, &mut st);
            note(&st, "std", obs);
            r.map_err(|e| format!("std build: {e}").into())
        });
        ctx.run(&format!("nostd-{w}"), n, 0, |c, _, obs| {
            let a = ask(ctx.seed, &format!("{w} {c}"))?;
            let Some(s) = a.strip_prefix("ok ") else {
                return Err(format!("no-std build: {}", a.strip_prefix("bad ").unwrap_or(&a)).into());
            };
            let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
            note(&bp::Stats { key: v[0] ^ 0x5555, ops: v[1], bits: v[2], floats: v[3], eofs: v[4], faults: v[5] }, "no-std", obs);
            Ok(())
        });
    }
    ctx.finish("exploration", "Random sequences of writes of integers of all widths, flags, floats, finalizations, compared with a vector of bits, and read back counting the consumed bytes; reads past the end; sinks that fail; Vorbis float words (all 2^32) read, and packed from their exact value. All with the std build and with the no-std build. Non-trivial: all; distinct: by hash of the bytes written or read.")
}
fn note(st: &bp::Stats, b: &str, obs: &mut Obs) {
    obs.key = st.key;
    obs.nontrivial = true;
    obs.count(&format!("{b} operations"), st.ops);
    obs.count(&format!("{b} bits"), st.bits);
    obs.count(&format!("{b} float words"), st.floats);
    obs.count(&format!("{b} reads past the end"), st.eofs);
    obs.count(&format!("{b} sink errors"), st.faults);
    obs.evals += st.floats;
}
