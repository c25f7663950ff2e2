//! C07: hostile inputs.
use crate::c_stream::fixtures;
use crate::ctx::*;
use crate::gen::{self, Profile};
use crate::mutate;
use crate::ogg;
use crate::rng::Rng;
use crate::run::{self, Bad, Cfg};
use crate::{audio, scen};
use optivorbis::remuxer::ogg_to_ogg::RemuxError;
use crate::setup::*;
use optivorbis::VorbisOptimizer;

fn err_name(e: &optivorbis::remuxer::ogg_to_ogg::RemuxError) -> String {
    let s = format!("{e:?}");
    // without the values
    let mut t: String = s.chars().take_while(|c| c.is_alphabetic() || *c == '(').collect();
    t.truncate(60);
    t
}
/// Is there an audio packet that ends in the middle of a symbol in the input, and whose padding
/// bits select an unused codebook in the output? See the known finding of C01
fn padding_decodes(out: &[u8]) -> bool {
    let Ok(v) = scen::out_streams(out) else { return false };
    v.iter().any(|ls| {
        let Ok(o) = scen::decode_headers(ls) else { return false };
        o.ls.packets[3..].iter().any(|p| {
            let Some(d) = audio::decode(&o.ident, &o.setup, &o.codes, &p.bytes) else { return false };
            let end = p.bytes.len() * 8;
            matches!(d.end, audio::End::Bad(_)) && end < d.bits + 8 && (d.bits..end).all(|b| p.bytes[b / 8] >> (b % 8) & 1 == 0)
        })
    })
}
/// Remuxes hostile bytes. A result is remuxed again.
pub fn hostile(b: &[u8], cfg: &Cfg, known: bool, obs: &mut Obs) -> Res {
    obs.input(b);
    obs.nontrivial = true;
    obs.count("bytes of hostile input", b.len() as u64);
    match run::remux(b, cfg) {
        Ok(out) => {
            obs.count("accepted", 1);
            if out.is_empty() {
                // no Vorbis streams: not an Ogg file
                if cfg.err_none {
                    return Err("remuxing succeeds with an empty output").input(b);
                }
                return Ok(());
            }
            // Its output is an acceptable input. It has right checksums
            let mut c = *cfg;
            c.verify = true;
            obs.evals += 1;
            match run::remux(&out, &c) {
                Ok(_) => Ok(()),
                Err(Bad::Err(RemuxError::OptimizerError(_))) if known && padding_decodes(&out) => {
                    *obs.known.entry("padding-decodes".into()).or_insert(0) += 1;
                    Ok(())
                }
                Err(e) => Err(format!("the output ({} bytes) cannot be remuxed again: {e}", out.len())).input(b),
            }
        }
        Err(Bad::Err(e)) => {
            obs.count(&format!("refused: {}", err_name(&e)), 1);
            Ok(())
        }
        Err(e) => Err(format!("with {cfg:?}: {e}")).input(b),
    }
}
fn hostile_cfg(rng: &mut Rng) -> Cfg {
    let mut c = Cfg::random(rng);
    c.verify = rng.chance(1, 4);
    c.err_none = rng.chance(1, 2);
    c.random = rng.chance(1, 20);
    c
}
/// Damages one packet more than others
pub fn damage_packets(pk: &mut Vec<Vec<u8>>, rng: &mut Rng) {
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
        let i = match rng.below(8) {
            0 => 0,
            1 => 1,
            2..=4 => 2,
            _ => rng.below(pk.len()),
        };
        match rng.below(14) {
            0 => {
                let p = pk[rng.below(pk.len())].clone();
                let i = i.min(pk.len());
                pk.insert(i, p);
            }
            1 => {
                if pk.len() > 1 {
                    pk.remove(i.min(pk.len() - 1));
                }
            }
            2 => {
                let j = rng.below(pk.len());
                let i = i.min(pk.len() - 1);
                pk.swap(i, j);
            }
            _ => {
                let i = i.min(pk.len() - 1);
                mutate::packet(&mut pk[i], rng);
            }
        }
    }
}
/// Feeds packets to the low-level optimizer in the documented order
pub fn low_level(pk: &[Vec<u8>], cfg: &Cfg, rng: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    low_level_accepts(pk, cfg, rng, obs).map(|_| ())
}
/// Whether all packets are accepted
pub fn low_level_accepts(pk: &[Vec<u8>], cfg: &Cfg, rng: &mut Rng, obs: &mut Obs) -> Result<bool, String> {
    let o = cfg.opt();
    let r = run::guard(|| -> Result<usize, String> {
        let mut v = match VorbisOptimizer::new(&o, &pk[0]) {
            Ok(v) => v,
            Err(_) => return Ok(0),
        };
        for p in &pk[1..] {
            if v.analyze_packet(p).is_err() {
                return Ok(1);
            }
        }
        for p in pk {
            let r = if rng.chance(1, 2) { v.optimize_packet(p.as_slice()) } else { v.optimize_packet(p.clone()) };
            if r.is_err() {
                return Ok(2);
            }
        }
        Ok(3)
    });
    match r {
        Ok(Ok(k)) => {
            obs.count(["low level: refused the identification header", "low level: refused in analysis", "low level: refused in optimization", "low level: accepted"][k], 1);
            Ok(k == 3)
        }
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("the low-level optimizer panicked: {p}")),
    }
}

/// A codebook that declares many entries in few bytes
pub fn bomb(rng: &mut Rng, entries: u32, obs: &mut Obs) -> Vec<Vec<u8>> {
    let ident = Ident { channels: 1, rate: 8000, bmax: 0, bnom: 0, bmin: 0, bs: (6, 6) };
    let mut w = crate::bits::BitW::from_bytes(b"\x05vorbis");
    w.bits(0, 8);
    w.bits(0x564342, 24);
    let dims = *rng.pick(&[1u32, 2, 1, 65535]);
    w.bits(dims, 16);
    w.bits(entries, 24);
    w.flag(true);
    let depth = crate::bits::ilog(entries as u64 - 1);
    obs.max("declared codebook entries", entries as u64);
    match rng.below(4) {
        0 => {
            // all at the last length, one run
            w.bits(depth - 1, 5);
            w.bits(entries, crate::bits::ilog(entries as u64));
        }
        1 => {
            // increasing lengths, one entry each: the rest at the end
            w.bits(0, 5);
            let mut left = entries;
            let mut len = 1;
            while left > 0 && len < 32 {
                let n = if len < 8 { 1 } else { left };
                w.bits(n, crate::bits::ilog(left as u64));
                left -= n;
                len += 1;
            }
        }
        2 => {
            // overspecified
            w.bits(0, 5);
            w.bits(entries, crate::bits::ilog(entries as u64));
        }
        _ => {
            // underspecified
            w.bits(31, 5);
            w.bits(entries, crate::bits::ilog(entries as u64));
        }
    }
    let kind = rng.below(3) as u32;
    w.bits(kind, 4);
    if kind > 0 {
        w.bits(rng.u32(), 32);
        w.bits(rng.u32(), 32);
        w.bits(0, 4);
        w.bits(0, 1);
    }
    let n = rng.below(300);
    w.d.extend(rng.bytes(n));
    let mut p = Comments { vendor: vec![], fields: vec![] }.write();
    if rng.chance(1, 4) {
        p.truncate(rng.clone().range(7, p.len()));
    }
    vec![ident.write(), p, w.into_bytes(), vec![0], vec![]]
}

pub fn c07(ctx: &Ctx) -> i32 {
    let slow = slowness();
    let t = ctx.pick(1, 25);
    let n = |k: u64| k * t;
    let fx = fixtures();
    let known = ctx.is_known("padding-decodes");
    ctx.run("damaged-fixtures", n(1500), 0, |c, rng, obs| {
        let i = (c % fx.len() as u64) as usize;
        let mut b = fx[i].1.clone();
        let other = &fx[rng.below(fx.len())].1;
        mutate::bytes(&mut b, rng, other);
        hostile(&b, &hostile_cfg(rng), known, obs)
    });
    ctx.run("prefixes", n(1500), 0, |c, rng, obs| {
        // all prefixes of a few streams, if they are short
        let mut r2 = Rng::new(c / 500 + ctx.seed * 1000);
        let vs = mutate::small_stream(&mut r2);
        let b = ogg::join(&mutate::mux(&vs.packets(), &mut r2));
        let k = if b.len() < 500 { c as usize % 500 } else { rng.below(b.len() + 1) };
        let mut cfg = hostile_cfg(rng);
        cfg.verify = true;
        hostile(&b[..k.min(b.len())], &cfg, known, obs)
    });
    ctx.run("damaged-bytes", n(6000), 0, |_, rng, obs| {
        let vs = mutate::small_stream(rng);
        let mut b = ogg::join(&mutate::mux(&vs.packets(), rng));
        let other = mutate::small_stream(rng);
        let other = ogg::join(&mutate::mux(&other.packets(), rng));
        if rng.chance(1, 4) {
            b.extend(&other);
        }
        mutate::bytes(&mut b, rng, &other);
        if rng.chance(1, 2) {
            // right checksums wherever there is a page
            for o in ogg::page_offsets(&b) {
                ogg::fix_crc(&mut b, o);
            }
        }
        hostile(&b, &hostile_cfg(rng), known, obs)
    });
    ctx.run("damaged-pages", n(6000), 0, |_, rng, obs| {
        let vs = mutate::small_stream(rng);
        let mut p = mutate::mux(&vs.packets(), rng);
        if rng.chance(1, 2) {
            let vs = mutate::small_stream(rng);
            p.extend(mutate::mux(&vs.packets(), rng));
        }
        if rng.chance(1, 4) {
            let s = rng.u32();
            p.extend(ogg::foreign_stream(rng, s, true));
        }
        mutate::pages(&mut p, rng);
        hostile(&ogg::join(&p), &hostile_cfg(rng), known, obs)
    });
    ctx.run("damaged-packets", n(25_000), 0, |_, rng, obs| {
        let vs = mutate::small_stream(rng);
        let mut pk = vs.packets();
        damage_packets(&mut pk, rng);
        if pk.is_empty() {
            return Ok(());
        }
        let b = ogg::join(&mutate::mux(&pk, rng));
        let cfg = hostile_cfg(rng);
        obs.evals += 1;
        low_level(&pk, &cfg, rng, obs).input(&b)?;
        hostile(&b, &cfg, known, obs)
    });
    ctx.run("strange-headers", n(15_000), 0, |_, rng, obs| {
        let mut vs = mutate::small_stream(rng);
        mutate::setup(&mut vs.setup, rng);
        vs.style = SetupStyle {
            seed: rng.next(),
            vary: rng.chance(1, 2),
            bad_reserved: rng.chance(1, 8),
            bad_sync: rng.chance(1, 8),
            bad_framing: rng.chance(1, 8),
            bad_window: rng.chance(1, 8),
            ..Default::default()
        };
        if vs.setup.books.iter().any(|b| b.lens.len() > 1 << 20) {
            return Ok(());
        }
        let mut pk = vs.packets();
        pk[2] = vs.setup.write(vs.ident.channels, &vs.style);
        if rng.chance(1, 2) {
            // packets of arbitrary bits
            for _ in 0..rng.range(1, 4) {
                let n = rng.range(1, 400);
                let mut p = rng.bytes(n);
                p[0] &= 0xfe;
                pk.push(p);
            }
        }
        let b = ogg::join(&mutate::mux(&pk, rng));
        hostile(&b, &hostile_cfg(rng), known, obs)
    });
    ctx.run("random-audio", n(8000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.max_packets = 1;
        pr.extreme = rng.chance(1, 4);
        let vs = gen::gen_stream(rng, &pr);
        let mut pk = vs.packets();
        for _ in 0..rng.range(1, 10) {
            let n = *rng.pick(&[1usize, 2, 10, 100, 2000]);
            let mut p = match rng.below(4) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => rng.bytes(n),
            };
            p[0] &= if rng.chance(9, 10) { 0xfe } else { 0xff };
            pk.push(p);
        }
        let b = ogg::join(&mutate::mux(&pk, rng));
        hostile(&b, &hostile_cfg(rng), known, obs)
    });
    ctx.run("comment-headers", n(4000), 0, |_, rng, obs| {
        let vs = mutate::small_stream(rng);
        let mut pk = vs.packets();
        let c = gen::gen_comments(rng);
        pk[1] = c.write();
        let mut p = b"\x03vorbis".to_vec();
        let v = |rng: &mut Rng| *rng.pick(&[0u32, 1, 5, 100, 0x7fff_ffff, 0x8000_0000, u32::MAX, u32::MAX - 3]);
        for _ in 0..rng.below(6) {
            p.extend(v(rng).to_le_bytes());
            let n = rng.below(8);
            p.extend(rng.bytes(n));
        }
        if rng.chance(2, 3) {
            pk[1] = p;
        }
        let b = ogg::join(&mutate::mux(&pk, rng));
        hostile(&b, &hostile_cfg(rng), known, obs)
    });
    ctx.run("junk", n(1500), 0, |_, rng, obs| {
        let n = *rng.pick(&[0usize, 1, 3, 26, 27, 28, 58, 300, 5000, 200_000]);
        let mut b = rng.bytes(n);
        for _ in 0..rng.below(20) {
            if n > 4 {
                let o = rng.below(n - 4);
                b[o..o + 4].copy_from_slice(b"OggS");
                if o + 6 < n {
                    b[o + 4] = 0;
                    b[o + 5] &= 7;
                }
            }
        }
        if rng.chance(1, 2) {
            for o in ogg::page_offsets(&b) {
                ogg::fix_crc(&mut b, o);
            }
        }
        hostile(&b, &hostile_cfg(rng), known, obs)
    });
    ctx.run("many-entries", if slow > 1 { 4 * slow } else { ctx.pick(40, 400) }, 4, |c, rng, obs| {
        let e = if slow > 1 { 1 << 18 } else { *[1u32 << 16, 1 << 20, 1 << 22, (1 << 24) - 1].get(c as usize % 4).unwrap() };
        let e = e - if rng.chance(1, 3) { rng.below(1000) as u32 } else { 0 };
        let pk = bomb(rng, e, obs);
        let b = ogg::join(&mutate::mux(&pk, rng));
        hostile(&b, &Cfg::default(), known, obs)
    });
    ctx.finish("exploration", "Hostile inputs: repository fixtures and generated streams with damaged, cut, repeated and spliced bytes (with and without right checksums), damaged page structure with right checksums, damaged packets in right pages, setup headers with arbitrary field values, random audio packets, comment headers with arbitrary lengths, junk with page signatures, codebooks that declare up to 2^24-1 entries. Each is remuxed (and the packets given to the low-level optimizer) with overflow checks on and panics caught, on CPU time limits; if the result is a success, the output is remuxed again. Every input is non-trivial; distinct: by hash of the input file.")
}
