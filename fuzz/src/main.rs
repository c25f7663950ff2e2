//! Coverage-guided generation of streams, judged by the model and the oracles of the harness.
#![no_main]
#![allow(dead_code)]
#[path = "../../harness/src/audio.rs"]
mod audio;
#[path = "../../harness/src/bits.rs"]
mod bits;
#[path = "../../harness/src/bp.rs"]
mod bp;
#[path = "../../harness/src/c_bits.rs"]
mod c_bits;
#[path = "../../harness/src/c_cli.rs"]
mod c_cli;
#[path = "../../harness/src/c_env.rs"]
mod c_env;
#[path = "../../harness/src/c_mangle.rs"]
mod c_mangle;
#[path = "../../harness/src/c_mem.rs"]
mod c_mem;
#[path = "../../harness/src/c_refuse.rs"]
mod c_refuse;
#[path = "../../harness/src/c_repair.rs"]
mod c_repair;
#[path = "../../harness/src/c_robust.rs"]
mod c_robust;
#[path = "../../harness/src/c_stream.rs"]
mod c_stream;
#[path = "../../harness/src/c_wasm.rs"]
mod c_wasm;
#[path = "../../harness/src/ctx.rs"]
mod ctx;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/huff.rs"]
mod huff;
#[path = "../../harness/src/mem.rs"]
mod mem;
#[path = "../../harness/src/mutate.rs"]
mod mutate;
#[path = "../../harness/src/ogg.rs"]
mod ogg;
#[path = "../../harness/src/pcm.rs"]
mod pcm;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/run.rs"]
mod run;
#[path = "../../harness/src/scen.rs"]
mod scen;
#[path = "../../harness/src/setup.rs"]
mod setup;
#[path = "../../harness/src/sup.rs"]
mod sup;
use libfuzzer_sys::{fuzz_mutator, fuzz_target, fuzzer_mutate};
use rng::Rng;
use scen::Gp;
use setup::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Settings seed, then packets with their lengths in 3 bytes
fn unpack(d: &[u8]) -> Option<(u64, Vec<Vec<u8>>)> {
    let seed = u64::from_le_bytes(d.get(..8)?.try_into().unwrap());
    let (mut at, mut v) = (8, vec![]);
    while at + 3 <= d.len() {
        let n = d[at] as usize | (d[at + 1] as usize) << 8 | (d[at + 2] as usize) << 16;
        at += 3;
        let n = n.min(d.len() - at);
        v.push(d[at..at + n].to_vec());
        at += n;
    }
    Some((seed, v))
}
fn pack(seed: u64, v: &[Vec<u8>]) -> Vec<u8> {
    let mut o = seed.to_le_bytes().to_vec();
    for p in v {
        o.extend(&(p.len() as u32).to_le_bytes()[..3]);
        o.extend(p);
    }
    o
}
static CTX: std::sync::OnceLock<ctx::Ctx> = std::sync::OnceLock::new();
/// Cases judged, invalid, valid, valid and not trivial
static N: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];

/// Whole files, for C07
fn check_file(d: &[u8]) -> Result<(), String> {
    let mut cfg = run::Cfg::random(&mut Rng::new(rng::hash_bytes(d)));
    cfg.verify = false;
    N[0].fetch_add(1, Relaxed);
    let mut obs = ctx::Obs::default();
    let known = CTX.get().unwrap().is_known("padding-decodes");
    let r = c_robust::hostile(d, &cfg, known, &mut obs).map_err(|v| v.msg);
    N[if obs.counts.contains_key("accepted") { 2 } else { 1 }].fetch_add(1, Relaxed);
    r
}
fn check(d: &[u8]) -> Result<(), String> {
    let ctx = CTX.get().unwrap();
    if ctx.prop == "C07" && d.starts_with(b"OggS") {
        return check_file(d);
    }
    let Some((seed, pk)) = unpack(d) else { return Ok(()) };
    if pk.len() < 4 || pk.len() > 64 {
        return Ok(());
    }
    let Some(id) = Ident::parse_lax(&pk[0]) else { return Ok(()) };
    if Comments::parse_prefix(&pk[1]).0.is_none() || pk[1].get(..7) != Some(b"\x03vorbis") || pk[2].get(..7) != Some(b"\x05vorbis") {
        return Ok(());
    }
    if pk[3..].iter().any(|p| p.is_empty()) {
        return Ok(());
    }
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut obs = ctx::Obs::default();
    let obs = &mut obs;
    let cfg = run::Cfg::random(rng);
    // Memory and time for the largest codebooks have their own workloads
    if Setup::parse(&pk[2], id.channels, false).is_ok_and(|s| s.books.iter().any(|b| b.lens.len() > 1 << 17)) {
        return Ok(());
    }
    N[0].fetch_add(1, Relaxed);
    let Some(vs) = c_stream::vstream_from_packets(&pk) else {
        N[1].fetch_add(1, Relaxed);
        let pages = ogg::mux(&pk, &vec![0; pk.len()], 7, ogg::random_paging(rng), true, rng);
        return match run::remux(&ogg::join(&pages), &cfg) {
            Ok(_) if ctx.prop == "C14" => Err("an invalid stream is accepted".into()),
            Err(run::Bad::Panic(p)) => Err(format!("panic: {p}")),
            _ => Ok(()),
        };
    };
    N[2].fetch_add(1, Relaxed);
    if vs.kept().len() > 1 {
        N[3].fetch_add(1, Relaxed);
    }
    let sc = scen::single(vs, *rng.pick(&[Gp::Plain, Gp::Valid]), rng);
    let out = run::remux(&sc.bytes, &cfg).map_err(|e| format!("a valid stream is refused: {e}"))?;
    let (s, vs) = (&sc.streams[0], &sc.streams[0].vs);
    let v = scen::out_streams(&out)?;
    if v.len() != 1 {
        return Err(format!("one stream became {}", v.len()));
    }
    match ctx.prop.as_str() {
        "C01" => {
            let o = scen::decode_headers(&v[0])?;
            if let Some(d) = vs.setup.semantic_diff(&o.setup) {
                return Err(format!("the output decodes with a different setup: {d}"));
            }
            scen::losslessness(vs, &o, ctx.is_known("padding-decodes"), obs)
        }
        "C02" => scen::headers(vs, &v[0]),
        "C03" => scen::optimality(vs, &scen::decode_headers(&v[0])?, obs),
        "C04" => scen::comments(vs, &v[0], &cfg),
        "C05" => {
            let extra = |_: usize| (!cfg.ignore && s.gp_model(false).offset != 0) as usize;
            scen::container(&out, obs, &extra).map(|_| ())
        }
        "C06" => scen::granules(s, &v[0], cfg.ignore, obs),
        _ => Ok(()),
    }
}
fn seeds(dir: &str) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for k in 0..400u64 {
        let mut rng = Rng::new(seed << 32 | k);
        let mut pr = gen::Profile::random(&mut rng);
        pr.extreme = false;
        pr.big = false;
        pr.max_packets = 4;
        let vs = gen::gen_stream(&mut rng, &pr);
        let b = pack(rng.next(), &vs.packets());
        if b.len() < 6000 {
            std::fs::write(format!("{dir}/{k}"), b).unwrap();
            let v = if k % 8 == 0 { vec![vs.clone(), vs] } else { vec![vs] };
            let o = scen::chain(v, k as usize / 4 % 2, Gp::Valid, &mut rng).bytes;
            std::fs::write(format!("{dir}/{k}.ogg"), o).unwrap();
        }
    }
}
fuzz_target!(
    init: {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            let _ = run::LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
        }));
        if let Ok(d) = std::env::var("FUZZ_SEEDS") {
            seeds(&d);
            std::process::exit(0);
        }
        let p = std::env::var("FUZZ_PROP").expect("FUZZ_PROP is not set");
        let _ = CTX.set(ctx::Ctx::new(&p, 1, ctx::Tier::Thorough, None));
    },
    |d: &[u8]| {
        let r = run::guard(|| check(d)).unwrap_or_else(|p| Err(format!("harness: {p}")));
        let n = N[0].load(Relaxed);
        if n % 1000 == 0 {
            eprintln!("judged {} {} {} {}", n, N[1].load(Relaxed), N[2].load(Relaxed), N[3].load(Relaxed));
        }
        if let Err(e) = r {
            eprintln!("broken: {e}");
            std::process::abort();
        }
    }
);
fuzz_mutator!(|data: &mut [u8], size: usize, max_size: usize, seed: u32| {
    let mut rng = Rng::new(seed as u64);
    let rng = &mut rng;
    let new = run::guard(|| {
        if data[..size].starts_with(b"OggS") {
            let mut p = ogg::parse_pages(&data[..size]).ok()?;
            mutate::pages(&mut p, rng);
            return (rng.chance(1, 3)).then(|| ogg::join(&p));
        }
        let (s, mut pk) = unpack(&data[..size])?;
        if pk.len() < 3 {
            return None;
        }
        match rng.below(8) {
            0 => {
                let id = Ident::parse_lax(&pk[0])?;
                let mut su = Setup::parse(&pk[2], id.channels, false).ok()?;
                mutate::setup(&mut su, rng);
                if su.books.iter().any(|b| b.lens.len() > 1 << 12 || b.lookup.as_ref().is_some_and(|l| !(1..=2).contains(&l.kind))) {
                    return None;
                }
                pk[2] = su.write(id.channels, &SetupStyle::default());
            }
            1 | 2 if pk.len() > 3 => {
                let k = rng.range(3, pk.len() - 1);
                mutate::packet(&mut pk[k], rng);
                if rng.chance(7, 8) {
                    *pk[k].first_mut()? &= 0xfe;
                }
            }
            3 | 4 if pk.len() > 3 => {
                let k = rng.range(2, pk.len() - 1);
                let p = &mut pk[k];
                let n = p.len();
                p.resize(n + 64, 0);
                let m = fuzzer_mutate(p, n, n + 64);
                p.truncate(m);
            }
            5 => {
                let k = rng.range(3, pk.len());
                let n = rng.below(60);
                let mut p = rng.bytes(n);
                p.insert(0, rng.next() as u8 & 0xfe);
                pk.insert(k, p);
            }
            6 if pk.len() > 4 => {
                let k = rng.range(3, pk.len() - 1);
                pk.remove(k);
            }
            _ => return None,
        }
        Some(pack(s, &pk))
    })
    .unwrap_or(None);
    match new {
        Some(b) if b.len() <= max_size => {
            data[..b.len()].copy_from_slice(&b);
            b.len()
        }
        _ => fuzzer_mutate(data, size, max_size),
    }
});
