//! C18: the WebAssembly build, in Node.js hosts, against the native library.
use crate::c_robust::damage_packets;
use crate::c_stream::fixtures;
use crate::ctx::*;
use crate::gen::{self, Profile};
use crate::mutate;
use crate::ogg;
use crate::run;
use crate::scen::{self, Gp};
use optivorbis::{OggToOgg, Remuxer};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{BufReader, Cursor, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Bytes(Vec<u8>),
    /// a string was thrown
    Thrown(String),
    /// something else was thrown
    Trap(String),
}
struct Host {
    child: Child,
    stdin: Option<ChildStdin>,
    answers: Receiver<(Answer, u64)>,
}
impl Host {
    fn start() -> Host {
        let wasm = std::env::var_os("VH_WASM").expect("VH_WASM is not set");
        let mut child = Command::new("node")
            .arg(verif_dir().join("wasm/host.mjs"))
            .arg(wasm)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot run node");
        let stdin = child.stdin.take();
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let (tx, answers) = std::sync::mpsc::channel();
        std::thread::spawn(move || -> Option<()> {
            loop {
                let mut h = [0; 5];
                out.read_exact(&mut h).ok()?;
                let mut b = vec![0; u32::from_le_bytes(h[1..].try_into().unwrap()) as usize];
                out.read_exact(&mut b).ok()?;
                let mut m = [0; 4];
                out.read_exact(&mut m).ok()?;
                let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                let a = match h[0] {
                    0 => Answer::Bytes(b),
                    1 => Answer::Thrown(text(&b)),
                    _ => Answer::Trap(text(&b)),
                };
                tx.send((a, u32::from_le_bytes(m) as u64)).ok()?;
            }
        });
        Host { child, stdin, answers }
    }
    fn cpu(&self) -> f64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
        (n(11) + n(12)) / 100.0
    }
    /// The answer and the size of the memory; None if there is none after much computation
    fn ask(&mut self, input: &[u8]) -> Option<(Answer, u64)> {
        let t = self.cpu();
        let w = self.stdin.as_mut().unwrap();
        w.write_all(&(input.len() as u32).to_le_bytes()).and_then(|_| w.write_all(input)).expect("the WebAssembly host ended");
        loop {
            match self.answers.recv_timeout(Duration::from_secs(2)) {
                Ok(a) => return Some(a),
                Err(RecvTimeoutError::Disconnected) => panic!("the WebAssembly host ended: {:?}", self.child.wait()),
                Err(RecvTimeoutError::Timeout) if self.cpu() - t > 90.0 => return None,
                Err(RecvTimeoutError::Timeout) => (),
            }
        }
    }
}
impl Drop for Host {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
}
fn ask(input: &[u8]) -> Result<(Answer, u64), String> {
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        let r = h.get_or_insert_with(Host::start).ask(input);
        if r.is_none() {
            *h = None;
        }
        r.ok_or("the WebAssembly build does not finish".into())
    })
}

/// The bytes with serials numbered by their first appearance; and the serials
fn canonical(b: &[u8]) -> Result<(Vec<u8>, Vec<u32>), String> {
    let mut pages = ogg::parse_pages(b)?;
    let mut ids: HashMap<u32, u32> = HashMap::new();
    let mut order = vec![];
    for p in &mut pages {
        let n = ids.len() as u32;
        let id = *ids.entry(p.serial).or_insert(n);
        if id == n {
            order.push(p.serial);
        }
        p.serial = id;
    }
    Ok((ogg::join(&pages), order))
}
/// Checks one input; returns the serials of the output
fn compare(b: &[u8], obs: &mut Obs) -> Result<Vec<u32>, Viol> {
    obs.input(b);
    obs.nontrivial = true;
    obs.evals += 1;
    let (w, mem) = ask(b).input(b)?;
    obs.max("memory of the WebAssembly instance", mem);
    let native = match run::guard(|| OggToOgg::new_with_defaults().remux(Cursor::new(b), Vec::new()).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(p) => {
            // C07 decides native panics: the builds do the same
            obs.count("native panics", 1);
            return match w {
                Answer::Trap(_) => Ok(vec![]),
                _ => Err(format!("the native library panicked ({p}), the WebAssembly build did not")).input(b),
            };
        }
    };
    match (w, native) {
        (Answer::Bytes(w), Ok(n)) => {
            let (cw, serials) = canonical(&w).map_err(|e| format!("WebAssembly output: {e}")).input(b)?;
            let (cn, _) = canonical(&n).map_err(|e| format!("native output: {e}")).input(b)?;
            obs.count("outputs compared", 1);
            obs.count("bytes compared", cw.len() as u64);
            if cw != cn {
                let k = cw.iter().zip(&cn).take_while(|(a, b)| a == b).count();
                return Err(format!("the WebAssembly build gives {} bytes and the native library {}; apart from serials they differ from byte {k} on", w.len(), n.len())).input(b);
            }
            Ok(serials)
        }
        (Answer::Thrown(w), Err(n)) => {
            obs.count("errors compared", 1);
            if w != n {
                return Err(format!("the WebAssembly build throws {w:?}, the error of the native library is {n:?}")).input(b);
            }
            Ok(vec![])
        }
        (Answer::Trap(w), n) => Err(format!("the WebAssembly build failed with {w:?}; native result: {:?}", n.map(|b| b.len()))).input(b),
        (Answer::Bytes(w), Err(n)) => Err(format!("the WebAssembly build gives {} bytes; error of the native library: {n:?}", w.len())).input(b),
        (Answer::Thrown(w), Ok(n)) => Err(format!("the WebAssembly build throws {w:?}; the native library gives {} bytes", n.len())).input(b),
    }
}

pub fn c18(ctx: &Ctx) -> i32 {
    let t = ctx.pick(1, 25);
    let n = |k: u64| k * t;
    let fx = fixtures();
    ctx.run("fixtures", fx.len() as u64, 0, |c, _, obs| {
        let (name, b) = &fx[c as usize];
        obs.sample = Some(name.clone());
        compare(b, obs).map(|_| ())
    });
    ctx.run("valid", n(8000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.max_packets = pr.max_packets.min(40);
        let gp = *rng.pick(&[Gp::Plain, Gp::Valid, Gp::Corrupt]);
        let sc = if rng.chance(1, 3) {
            let k = rng.range(1, 4);
            pr.max_packets = pr.max_packets.min(8);
            let vss = (0..k).map(|_| gen::gen_stream(rng, &pr)).collect();
            let f = rng.below(3);
            scen::chain(vss, f, gp, rng)
        } else {
            scen::random_single(rng, &pr, gp)
        };
        sc.observe(obs);
        let s = compare(&sc.bytes, obs)?;
        if s.iter().collect::<HashSet<_>>().len() != sc.streams.len() {
            return Err(format!("{} streams became {}", sc.streams.len(), s.len())).input(&sc.bytes);
        }
        Ok(())
    });
    ctx.run("damaged", n(24_000), 0, |_, rng, obs| {
        let vs = mutate::small_stream(rng);
        let mut pk = vs.packets();
        let mut b;
        match rng.below(5) {
            4 => {
                // lengths that are too large for 32-bit sums
                pk[1] = gen::gen_comments(rng).write();
                for _ in 0..rng.range(1, 3) {
                    let o = *rng.pick(&[7, 11, 15, 19, 23, 27, rng.clone().range(7, pk[1].len().max(8))]);
                    if o + 4 <= pk[1].len() {
                        let v = *rng.pick(&[u32::MAX, u32::MAX - 3, u32::MAX - 4, u32::MAX - 11, 0x8000_0000, 0x7fff_ffff, 0xffff_ff00]);
                        pk[1][o..o + 4].copy_from_slice(&v.to_le_bytes());
                    }
                }
                b = ogg::join(&mutate::mux(&pk, rng));
            }
            0 => {
                damage_packets(&mut pk, rng);
                b = ogg::join(&mutate::mux(&pk, rng));
            }
            1 => {
                let mut p = mutate::mux(&pk, rng);
                mutate::pages(&mut p, rng);
                b = ogg::join(&p);
            }
            2 => {
                b = ogg::join(&mutate::mux(&pk, rng));
                let other = mutate::small_stream(rng);
                let other = ogg::join(&mutate::mux(&other.packets(), rng));
                mutate::bytes(&mut b, rng, &other);
            }
            _ => {
                let mut vs = vs;
                mutate::setup(&mut vs.setup, rng);
                if vs.setup.books.iter().any(|b| b.lens.len() > 1 << 18) {
                    return Ok(());
                }
                pk[2] = vs.setup.write(vs.ident.channels, &vs.style);
                b = ogg::join(&mutate::mux(&pk, rng));
            }
        }
        if declares_much(&b) {
            // the memory of WebAssembly is limited
            obs.count("skipped: many codebook entries", 1);
            return Ok(());
        }
        compare(&b, obs).map(|_| ())
    });
    ctx.run("random", n(500), 0, |_, rng, obs| {
        let n = *rng.pick(&[0usize, 1, 27, 28, 300, 5000, 70_000]);
        let mut b = rng.bytes(n);
        for o in (0..n.saturating_sub(30)).step_by(rng.range(20, 600)) {
            b[o..o + 4].copy_from_slice(b"OggS");
            b[o + 4] = 0;
            b[o + 5] &= 7;
        }
        for o in ogg::page_offsets(&b) {
            ogg::fix_crc(&mut b, o);
        }
        if declares_much(&b) {
            return Ok(());
        }
        compare(&b, obs).map(|_| ())
    });
    // One instance used again and again: serials are random, memory is returned
    ctx.run("repetition", n(16), 8, |c, rng, obs| {
        let b = if c % 2 == 0 {
            fx[rng.below(fx.len())].1.clone()
        } else {
            let mut pr = Profile::random(rng);
            pr.max_packets = 60;
            pr.big = true;
            pr.extreme = false;
            scen::random_single(rng, &pr, Gp::Valid).bytes
        };
        let mut seen: HashSet<Vec<u32>> = HashSet::new();
        let mut mem = vec![];
        let mut streams = 0;
        for _ in 0..40 {
            let s = compare(&b, obs)?;
            streams = s.len();
            seen.insert(s);
            mem.push(ask(b"").input(&b)?.1);
        }
        obs.count("repeated calls", 40);
        obs.max("different serials", seen.len() as u64);
        if streams > 0 && seen.len() < 3 {
            return Err(format!("40 calls gave {} different serials: {seen:?}", seen.len())).input(&b);
        }
        let grown = mem[39] - mem[9];
        if grown > 65536 + 15 * b.len() as u64 {
            return Err(format!("30 more calls with {} bytes each made the memory of the instance grow by {grown} bytes", b.len())).input(&b);
        }
        Ok(())
    });
    ctx.finish("exploration", "The wasm32-unknown-unknown build of the crate with the web bindings, with overflow checks, instantiated in Node.js hosts that do what the JavaScript code of wasm-bindgen does, against the native library: repository fixtures, generated valid streams and chains, damaged packets, pages, bytes and setup headers, random bytes; then the same inputs again and again in an instance. Outputs must be equal apart from the (random) serials and errors must be thrown as strings with the native message. Every input is non-trivial; distinct: by hash of the input file.")
}
/// Whether some codebook in the bytes seems to declare more than 2^18 entries
fn declares_much(b: &[u8]) -> bool {
    let Ok(pages) = ogg::parse_pages(b) else { return false };
    scen_packets(&pages).iter().any(|p| {
        (0..p.len().saturating_sub(8)).any(|o| (0..8).any(|s| {
            let w = u64::from_le_bytes(p[o..o + 8].try_into().unwrap()) >> s;
            w & 0xff_ffff == 0x564342 && o + 9 < p.len() && {
                let x = u128::from(u64::from_le_bytes(p[o..o + 8].try_into().unwrap())) | u128::from(p[o + 8]) << 64;
                (x >> s >> 40) & 0xff_ffff > 1 << 18
            }
        }))
    })
}
fn scen_packets(pages: &[ogg::Page]) -> Vec<Vec<u8>> {
    ogg::packets_lax(pages).into_iter().flat_map(|s| s.data()).filter(|p| p.starts_with(b"\x05vorbis")).collect()
}
