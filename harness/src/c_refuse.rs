//! C14: invalid streams and corrupt pages are refused.
use crate::audio::{self, End};
use crate::bits::ilog;
use crate::c_env;
use crate::c_robust;
use crate::ctx::*;
use crate::gen::{self, Profile, VStream};
use crate::huff::{Dec, TreeKind};
use crate::mutate;
use crate::ogg;
use crate::rng::Rng;
use crate::run::{self, Bad, Cfg};
use crate::scen::{self, Gp};
use crate::setup::*;

const VIOLATIONS: usize = 24;

/// A position in a list: the first, the last or anyone
fn at(rng: &mut Rng, n: usize) -> usize {
    match rng.below(4) {
        0 => 0,
        1 => n - 1,
        _ => rng.below(n),
    }
}
/// The first index out of range, half of the time
fn beyond(n: usize, max: usize, rng: &mut Rng) -> Option<usize> {
    if n > max {
        return None;
    }
    Some(if rng.chance(1, 2) { n } else { rng.range(n, max) })
}

/// Makes a setup header invalid in exactly one way. None: not possible with this one
fn violate(kind: usize, su: &mut Setup, st: &mut SetupStyle, channels: u8, rng: &mut Rng) -> Option<&'static str> {
    let nb = su.books.len();
    let any = |rng: &mut Rng, v: Vec<usize>| -> Option<usize> { (!v.is_empty()).then(|| v[at(rng, v.len())]) };
    Some(match kind {
        0 => {
            // too many codewords: one shorter than possible
            let c: Vec<usize> = (0..nb).filter(|i| su.codes().is_some_and(|c| c[*i].kind == TreeKind::Complete) && su.books[*i].lens.iter().any(|l| *l > 1)).collect();
            let i = any(rng, c)?;
            let k = any(rng, (0..su.books[i].lens.len()).filter(|k| su.books[i].lens[*k] > 1).collect())?;
            su.books[i].lens[k] -= 1;
            "overspecified codebook"
        }
        1 => {
            // one entry too many for a complete code
            let c: Vec<usize> = (0..nb)
                .filter(|i| su.codes().is_some_and(|c| c[*i].kind == TreeKind::Complete) && su.books[*i].lens.contains(&0))
                .collect();
            let i = any(rng, c)?;
            let k = any(rng, (0..su.books[i].lens.len()).filter(|k| su.books[i].lens[*k] == 0).collect())?;
            su.books[i].lens[k] = rng.range(1, 32) as u8;
            "additional codeword in a complete codebook"
        }
        2 => {
            let i = any(rng, (0..nb).filter(|i| su.books[*i].lookup.is_some()).collect())?;
            su.books[i].lookup.as_mut()?.kind = rng.range(3, 15) as u8;
            "reserved lookup type"
        }
        3 => {
            // more entries in a run than there are left
            let i = any(rng, (0..nb).filter(|i| su.books[*i].lens.len() & (su.books[*i].lens.len() + 1) != 0).collect())?;
            let n = su.books[i].lens.len() as u32;
            let w = ilog(n as u64);
            let run = if rng.chance(1, 2) { n + 1 } else { (1 << w) - 1 };
            st.raw_lens = Some((i, vec![(1, 1), (w - 1, 5), (run, w)]));
            "too many entries in an ordered codebook"
        }
        4 => {
            let i = any(rng, (0..nb).filter(|i| !su.books[*i].lens.is_empty()).collect())?;
            let w = ilog(su.books[i].lens.len() as u64);
            let from = rng.range(1, 32) as u32;
            let mut v = vec![(1, 1), (from - 1, 5)];
            v.extend((from..=32).map(|_| (0, w)));
            // a decoder without a limit would read the rest at length 33
            v.push((su.books[i].lens.len() as u32, w));
            st.raw_lens = Some((i, v));
            "codeword length over 32"
        }
        5 => {
            st.floor_type = Some((at(rng, su.floors.len()), *rng.pick(&[0u16, 2, 3, 0x0101, 0xffff, 0x8001])));
            "floor type"
        }
        6 => {
            let i = at(rng, su.floors.len());
            let k = any(rng, (0..su.floors[i].classes.len()).filter(|k| su.floors[i].classes[*k].master.is_some()).collect())?;
            su.floors[i].classes[k].master = Some(beyond(nb, 255, rng)? as u8);
            "floor masterbook"
        }
        7 => {
            let i = at(rng, su.floors.len());
            let k = any(rng, (0..su.floors[i].classes.len()).collect())?;
            let c = &mut su.floors[i].classes[k];
            let j = at(rng, c.books.len());
            c.books[j] = Some(beyond(nb, 254, rng)? as u8);
            "floor book"
        }
        8 => {
            let i = any(rng, (0..su.floors.len()).filter(|i| su.floors[*i].x.len() > 1).collect())?;
            let x = &mut su.floors[i].x;
            let (a, b) = (at(rng, x.len()), at(rng, x.len()));
            if a == b {
                return None;
            }
            x[a] = x[b];
            "repeated floor point"
        }
        9 => {
            let i = any(rng, (0..su.floors.len()).filter(|i| !su.floors[*i].x.is_empty()).collect())?;
            let a = at(rng, su.floors[i].x.len());
            su.floors[i].x[a] = 0;
            "floor point at zero"
        }
        10 => {
            let i = at(rng, su.floors.len());
            // 64 or more points
            let f = &mut su.floors[i];
            let parts = rng.range(8, 16);
            let dim = if rng.chance(1, 2) { 8 } else { (64usize.div_ceil(parts)) as u8 };
            f.parts = vec![0; parts];
            f.classes = vec![FClass { dim, sub: 0, master: None, books: vec![None] }];
            f.range_bits = *rng.pick(&[8u8, 9, 15]);
            let n = parts * dim as usize;
            f.x = (1..=n as u16).collect();
            for i in (1..n).rev() {
                f.x.swap(i, rng.below(i + 1));
            }
            "too many floor points"
        }
        11 => {
            let i = at(rng, su.residues.len());
            su.residues[i].kind = *rng.pick(&[3u16, 4, 0x0100, 0x0101, 0xffff]);
            "reserved residue type"
        }
        12 => {
            let i = at(rng, su.residues.len());
            su.residues[i].classbook = beyond(nb, 255, rng)? as u8;
            "classbook"
        }
        13 => {
            let i = at(rng, su.residues.len());
            let r = &mut su.residues[i];
            let cb = &su.books[r.classbook as usize];
            let n = cb.lens.len() as u64;
            let c = (1..=64u64).find(|c| {
                let mut p = 1u64;
                for _ in 0..cb.dims {
                    p = (p * c).min(1 << 40);
                }
                p > n
            })?;
            r.classifs = c as u8;
            let b = r.books[0];
            r.books.resize(c as usize, b);
            "classbook with too few entries"
        }
        14 => {
            let i = at(rng, su.residues.len());
            let r = &mut su.residues[i];
            let (a, b) = (at(rng, r.books.len()), at(rng, 8));
            r.books[a][b] = Some(beyond(nb, 255, rng)? as u8);
            "residue book"
        }
        15 => {
            st.mapping_type = Some((at(rng, su.mappings.len()), *rng.pick(&[1u16, 2, 0x0100, 0xffff])));
            "reserved mapping type"
        }
        16 => {
            let i = at(rng, su.mappings.len());
            let c = at(rng, channels as usize) as u8;
            let m = &mut su.mappings[i];
            let pos = at(rng, m.coupling.len() + 1);
            m.coupling.truncate(255);
            m.coupling.insert(pos.min(m.coupling.len()), (c, c));
            "coupling of a channel with itself"
        }
        17 => {
            if channels < 3 || channels.is_power_of_two() {
                return None;
            }
            let max = (1usize << ilog(channels as u64 - 1)) - 1;
            let bad = beyond(channels as usize, max, rng)? as u8;
            let good = at(rng, channels as usize) as u8;
            let i = at(rng, su.mappings.len());
            let m = &mut su.mappings[i];
            let pos = at(rng, m.coupling.len() + 1);
            m.coupling.truncate(255);
            m.coupling.insert(pos.min(m.coupling.len()), if rng.chance(1, 2) { (bad, good) } else { (good, bad) });
            "coupling of an undefined channel"
        }
        18 => {
            let i = any(rng, (0..su.mappings.len()).filter(|i| (2..16).contains(&su.mappings[*i].submaps.len())).collect())?;
            let m = &mut su.mappings[i];
            let c = at(rng, channels as usize);
            m.mux[c] = beyond(m.submaps.len(), 15, rng)? as u8;
            "undefined submap"
        }
        19 | 20 => {
            let i = at(rng, su.mappings.len());
            let s = at(rng, su.mappings[i].submaps.len());
            if kind == 19 {
                su.mappings[i].submaps[s].0 = beyond(su.floors.len(), 255, rng)? as u8;
                "undefined floor"
            } else {
                su.mappings[i].submaps[s].1 = beyond(su.residues.len(), 255, rng)? as u8;
                "undefined residue"
            }
        }
        21 => {
            let i = at(rng, su.modes.len());
            su.modes[i].mapping = beyond(su.mappings.len(), 255, rng)? as u8;
            "undefined mapping"
        }
        22 => {
            // half of the codewords are of length one, and a third one of any length
            let i = any(rng, (0..nb).filter(|i| su.books[*i].lens.len() > 2).collect())?;
            let n = su.books[i].lens.len();
            let mut l = vec![0u8; n];
            let mut to: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                to.swap(i, rng.below(i + 1));
            }
            l[to[0]] = 1;
            l[to[1]] = 1;
            l[to[2]] = *rng.pick(&[1u8, 2, 8, 32]);
            su.books[i].lens = l;
            "three codewords where two fit"
        }
        _ => {
            // sum of 2^-length is over one by the least amount possible
            let i = any(rng, (0..nb).filter(|i| su.books[*i].lens.len() > 33).collect())?;
            let n = su.books[i].lens.len();
            let mut l = vec![0u8; n];
            for (k, x) in l.iter_mut().take(33).enumerate() {
                *x = (k as u8 + 1).min(32);
            }
            l[33] = 32;
            for k in (1..n).rev() {
                l.swap(k, rng.below(k + 1));
            }
            su.books[i].lens = l;
            "codebook overspecified by a codeword of 32 bits"
        }
    })
}

fn base(rng: &mut Rng) -> VStream {
    let mut pr = Profile::random(rng);
    pr.max_packets = *rng.pick(&[0, 0, 1, 3]);
    pr.truncated = false;
    pr.extreme = rng.chance(1, 12);
    gen::gen_stream(rng, &pr)
}
/// The bad stream alone, or after or before a valid one
fn place_bad(pk: &[Vec<u8>], rng: &mut Rng) -> Vec<u8> {
    let mut pages = mutate::mux(pk, rng);
    let mut bytes = vec![];
    let mut tail = vec![];
    if rng.chance(1, 4) {
        let vs = base(rng);
        let serial = pages[0].serial.wrapping_add(1);
        let pg = ogg::random_paging(rng);
        let s = scen::place(vs, serial, Gp::Plain, pg, true, rng);
        if rng.chance(1, 2) {
            bytes = ogg::join(&s.pages);
        } else {
            pages.last_mut().unwrap().eos = true;
            tail = ogg::join(&s.pages);
        }
    }
    bytes.extend(ogg::join(&pages));
    bytes.extend(tail);
    bytes
}
fn must_refuse(what: &str, pk: &[Vec<u8>], rng: &mut Rng, obs: &mut Obs) -> Res {
    let bytes = place_bad(pk, rng);
    obs.input(&bytes);
    obs.nontrivial = true;
    obs.sample = Some(format!("{} bytes: {what}", bytes.len()));
    obs.count(&format!("refused: {what}"), 1);
    let mut cfg = Cfg::random(rng);
    cfg.err_none = rng.chance(1, 2);
    obs.evals += 1;
    if c_robust::low_level_accepts(pk, &cfg, rng, obs).input(&bytes)? {
        return Err(format!("{what}: the low-level optimizer accepts the stream")).input(&bytes);
    }
    match run::remux(&bytes, &cfg) {
        Err(Bad::Err(_)) => Ok(()),
        Ok(o) => Err(format!("{what}: accepted, with {} bytes of output", o.len())).input(&bytes),
        Err(e) => Err(format!("{what}: {e}")).input(&bytes),
    }
}
fn must_accept(what: &str, pk: &[Vec<u8>], rng: &mut Rng, obs: &mut Obs) -> Res {
    let bytes = place_bad(pk, rng);
    obs.input(&bytes);
    obs.nontrivial = true;
    obs.count(&format!("accepted: {what}"), 1);
    let cfg = Cfg::random(rng);
    obs.evals += 1;
    if !c_robust::low_level_accepts(pk, &cfg, rng, obs).input(&bytes)? {
        return Err(format!("{what}: the low-level optimizer refuses a valid stream")).input(&bytes);
    }
    run::remux(&bytes, &cfg).map(|_| ()).map_err(|e| format!("{what}: a valid stream is refused: {e}")).input(&bytes)
}

pub fn c14(ctx: &Ctx) -> i32 {
    ctx.run("identification", ctx.pick(2500, 50_000), 0, |_, rng, obs| {
        let vs = base(rng);
        let mut pk = vs.packets();
        let what = c_env::bad_ident(&mut pk[0], rng);
        must_refuse(what, &pk, rng, obs)
    });
    ctx.run("setup", ctx.pick(12_000, 250_000), 0, |c, rng, obs| {
        let kind = c as usize % VIOLATIONS;
        loop {
            let vs = base(rng);
            let mut su = vs.setup.clone();
            let mut st = vs.style.clone();
            let Some(what) = violate(kind, &mut su, &mut st, vs.ident.channels, rng) else { continue };
            let mut pk = vs.packets();
            pk[2] = su.write(vs.ident.channels, &st);
            // Is it what the model calls invalid?
            if Setup::parse(&pk[2], vs.ident.channels, false).is_ok() {
                return Err(format!("harness: {what}: the model accepts the header").into());
            }
            return must_refuse(what, &pk, rng, obs);
        }
    });
    // The last valid value of the same limits
    ctx.run("limits", ctx.pick(3000, 60_000), 0, |c, rng, obs| loop {
        let mut vs = base(rng);
        let nb = vs.setup.books.len();
        let su = &mut vs.setup;
        let ch = vs.ident.channels;
        let i = rng.below(su.floors.len());
        let r = rng.below(su.residues.len());
        let what = match c % 6 {
            0 => {
                let f = &mut su.floors[i];
                let (parts, dim) = *rng.pick(&[(9usize, 7u8), (21, 3)]);
                f.parts = vec![0; parts];
                f.classes = vec![FClass { dim, sub: 0, master: None, books: vec![None] }];
                f.range_bits = *rng.pick(&[6u8, 8, 15]);
                f.x = (1..=63).collect();
                "63 floor points"
            }
            1 => {
                let f = &mut su.floors[i];
                if f.x.is_empty() || f.range_bits == 0 {
                    continue;
                }
                let max = ((1u32 << f.range_bits) - 1) as u16;
                if !f.x.contains(&max) {
                    f.x[0] = max;
                }
                "last floor point"
            }
            2 => {
                if nb > 255 {
                    continue;
                }
                for b in su.residues[r].books.iter_mut().flatten().flatten() {
                    *b = nb as u8 - 1;
                }
                "last codebook in a residue"
            }
            3 => {
                let m = rng.below(su.mappings.len());
                let s = rng.below(su.mappings[m].submaps.len());
                su.mappings[m].submaps[s] = (su.floors.len() as u8 - 1, su.residues.len() as u8 - 1);
                "last floor and residue in a mapping"
            }
            4 => {
                if ch < 2 {
                    continue;
                }
                let m = rng.below(su.mappings.len());
                su.mappings[m].coupling = vec![(ch - 1, 0), (0, ch - 1), (ch - 1, ch - 2)];
                "last channel in a coupling step"
            }
            _ => {
                let k = su.modes.len();
                let m = rng.below(k);
                su.modes[m].mapping = su.mappings.len() as u8 - 1;
                "last mapping in a mode"
            }
        };
        let pk = vec![vs.ident_p.clone(), vs.comment_p.clone(), su.write(ch, &vs.style)];
        if let Err(e) = Setup::parse(&pk[2], ch, true) {
            return Err(format!("harness: {what}: the model refuses the header: {e}").into());
        }
        return must_accept(what, &pk, rng, obs);
    });
    ctx.run("truncated-headers", ctx.pick(4000, 100_000), 0, |_, rng, obs| {
        let vs = base(rng);
        let mut pk = vs.packets();
        let n = if rng.chance(1, 2) { rng.below(pk[2].len() + 1) } else { pk[2].len() - rng.below(pk[2].len().min(12)) };
        pk[2].truncate(n);
        pk.truncate(3);
        match Setup::parse(&pk[2], vs.ident.channels, false) {
            Err(_) => must_refuse("setup header cut", &pk, rng, obs),
            Ok(_) => must_accept("setup header cut after its last field", &pk, rng, obs),
        }
    });
    ctx.run("header-packets", ctx.pick(3000, 50_000), 0, |c, rng, obs| loop {
        let vs = base(rng);
        let mut pk = vs.packets();
        let h = rng.range(1, 2);
        let what = match c % 5 {
            0 => {
                pk.swap(1, 2);
                "setup header before comment header"
            }
            1 => {
                pk[h][0] = *rng.pick(&[0u8, 1, 2, 4, 6, 7, 9, 0x83, 0x85, 0xff]);
                "header packet type"
            }
            2 => {
                let k = rng.range(1, 6);
                pk[h][k] ^= 1 << rng.below(8);
                "header signature"
            }
            3 => {
                if vs.audio.is_empty() {
                    continue;
                }
                let at = rng.range(3, pk.len());
                let mut p = if rng.chance(1, 2) {
                    pk[rng.below(3)].clone()
                } else {
                    let mut p = vs.audio[rng.below(vs.audio.len())].bytes.clone();
                    if p.is_empty() {
                        continue;
                    }
                    p[0] |= 1;
                    p
                };
                if rng.chance(1, 4) {
                    p.truncate(1);
                }
                pk.insert(at, p);
                "header packet among the audio packets"
            }
            _ => {
                pk.remove(h);
                if pk.len() < 3 {
                    continue;
                }
                "missing header packet"
            }
        };
        if pk[2].first().is_some_and(|t| *t == 5) && pk[1].starts_with(b"\x03vorbis") && c % 5 == 4 {
            continue;
        }
        return must_refuse(what, &pk, rng, obs);
    });
    // Any packets; the model says whether they are valid
    ctx.run("packets", ctx.pick(15_000, 400_000), 0, |c, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.max_packets = *rng.pick(&[1, 2, 5]);
        pr.extreme = rng.chance(1, 12);
        let mut vs = gen::gen_stream(rng, &pr);
        if c % 2 == 0 {
            mutate::setup(&mut vs.setup, rng);
            if vs.setup.books.iter().any(|b| b.lens.len() > 1 << 17 || b.lookup.as_ref().is_some_and(|l| !(1..=2).contains(&l.kind))) {
                return Ok(());
            }
        }
        let used = c % 4 == 1;
        if used {
            // Residue books that cannot be used, in otherwise valid packets
            for b in &mut vs.setup.books {
                let Some(l) = &mut b.lookup else { continue };
                match rng.below(6) {
                    0 => b.lookup = None,
                    1 => {
                        b.dims = *rng.pick(&[0, 1, 2, 3, 5, 7, b.dims.saturating_add(1), b.dims.saturating_mul(2)]);
                        if b.dims == 0 && l.kind == 1 || b.lens.len() * b.dims as usize > 100_000 {
                            b.dims = 1;
                        }
                        let n = if l.kind == 1 { lookup1_values(b.lens.len() as u32, b.dims) as usize } else { b.lens.len() * b.dims as usize };
                        l.mult.resize(n, 0);
                    }
                    2 if b.lens.len() > 1 => {
                        let k = rng.below(b.lens.len());
                        b.lens[k] = 0;
                    }
                    _ => (),
                }
            }
        }
        let mut pk = vs.packets();
        pk[2] = vs.setup.write(vs.ident.channels, &vs.style);
        for p in &mut pk[3..] {
            if rng.chance(1, if used { 20 } else { 3 }) {
                mutate::packet(p, rng);
                if let Some(b) = p.first_mut() {
                    *b &= if rng.chance(19, 20) { 0xfe } else { 0xff };
                }
            }
        }
        for _ in 0..if used { 0 } else { rng.below(4) } {
            let n = *rng.pick(&[1usize, 2, 10, 100, 700]);
            let mut p = match rng.below(4) {
                0 => vec![0; n],
                1 => vec![0xff; n],
                _ => rng.bytes(n),
            };
            p[0] &= if rng.chance(19, 20) { 0xfe } else { 0xff };
            pk.push(p);
        }
        let su = match Setup::parse(&pk[2], vs.ident.channels, false) {
            Err(_) => return must_refuse("damaged setup header", &pk, rng, obs),
            Ok(s) => s,
        };
        let codes = su.codes().unwrap();
        let mut bad = None;
        for p in &pk[3..] {
            match audio::decode(&vs.ident, &su, &codes, p) {
                None => bad = bad.or(Some("header packet type".to_string())),
                Some(d) => {
                    if let End::Bad(b) = d.end {
                        let b = b.split_ascii_whitespace().filter(|w| w.parse::<u32>().is_err()).collect::<Vec<_>>().join(" ");
                        bad = bad.or(Some(b));
                    }
                }
            }
        }
        let _ = Dec::Eop;
        match bad {
            Some(b) => must_refuse(&format!("audio packet: {b}"), &pk, rng, obs),
            None => must_accept("audio packets", &pk, rng, obs),
        }
    });
    ctx.run("checksums", ctx.pick(4000, 100_000), 0, |_, rng, obs| {
        let n = rng.range(1, 2);
        let vss = (0..n).map(|_| mutate::small_stream(rng)).collect();
        let f = rng.below(2);
        let sc = scen::chain(vss, f, Gp::Plain, rng);
        let mut cfg = Cfg::random(rng);
        cfg.verify = false;
        let clean = run::remux(&sc.bytes, &cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
        let pages = ogg::parse_pages(&sc.bytes)?;
        let mut offs = vec![];
        let mut o = 0;
        for p in &pages {
            offs.push(o);
            o += 27 + p.segs.len() + p.body.len();
        }
        let mut d = sc.bytes.clone();
        let mut only_crc = true;
        let mut where_ = vec![];
        for _ in 0..*rng.pick(&[1, 1, 1, 2]) {
            let k = rng.below(pages.len());
            let p = &pages[k];
            let at = offs[k]
                + match rng.below(3) {
                    0 => rng.range(22, 25),
                    1 if !p.body.is_empty() => {
                        only_crc = false;
                        27 + p.segs.len() + rng.below(p.body.len())
                    }
                    _ => {
                        // header flags, granule position, serial, sequence number, checksum
                        let x = rng.range(5, 25);
                        only_crc &= x >= 22;
                        x
                    }
                };
            match rng.below(3) {
                0 => d[at] = !d[at],
                _ => d[at] ^= 1 << rng.below(8),
            }
            where_.push((k, at - offs[k]));
        }
        if d == sc.bytes {
            return Ok(());
        }
        if ogg::parse_pages(&d).is_ok() {
            return Err("harness: the damage does not change a checksum".into());
        }
        obs.input(&d);
        obs.nontrivial = true;
        obs.evals += 2;
        obs.sample = Some(format!("{} pages, damage at (page, byte) {where_:?}", pages.len()));
        obs.count(if only_crc { "checksum field damaged" } else { "page damaged" }, 1);
        let off = run::remux(&d, &cfg);
        cfg.verify = true;
        match run::remux(&d, &cfg) {
            Err(Bad::Err(_)) => (),
            Ok(_) => return Err(format!("{} pages, damage at (page, byte) {where_:?}: accepted with checksum verification", pages.len())).input(&d),
            Err(e) => return Err(e.to_string()).input(&d),
        }
        match off {
            Ok(o) => {
                obs.count("accepted without verification", 1);
                if only_crc && o != clean {
                    return Err("without checksum verification, a wrong checksum changes the output").input(&d);
                }
                ogg::parse_pages(&o).map(|_| ()).map_err(|e| format!("output of a damaged file without checksum verification: {e}")).input(&d)
            }
            Err(Bad::Err(e)) if only_crc => Err(format!("a wrong checksum is refused without checksum verification: {e}")).input(&d),
            Err(Bad::Err(_)) => Ok(()),
            Err(e) => Err(e.to_string()).input(&d),
        }
    });
    ctx.finish("exploration", "Random streams made invalid in one of 24 ways in the setup header (half of the time by the first value out of range) or 8 ways in the identification header, setup headers cut at any byte, misplaced header packets, and damaged and random audio packets: what an independent strict parser or decoder calls invalid must be refused by the remuxer and by the low-level optimizer, and the rest accepted, as must be the last valid values of the same limits. Damaged pages must be refused if and only if checksums are verified. Every input is non-trivial; distinct: by hash of the input file.")
}
