//! C01 to C06: what the output means.
use crate::ctx::*;
use crate::gen::{self, Profile, VStream};
use crate::ogg::{self, LStream, Paging};
use crate::rng::Rng;
use crate::run::{self, Cfg};
use crate::scen::{self, Gp, Scenario};
use crate::setup::*;
use crate::{audio, huff};

pub const FIXTURES: &str = "/repo/packages/optivorbis/resources/test";

pub fn vstream_from_packets(pk: &[Vec<u8>]) -> Option<VStream> {
    if pk.len() < 3 {
        return None;
    }
    let ident = Ident::parse_lax(&pk[0])?;
    let setup = Setup::parse(&pk[2], ident.channels, false).ok()?;
    let codes = setup.codes()?;
    let (v, f) = Comments::parse_prefix(&pk[1]);
    let mut s = VStream {
        ident,
        comments: Comments { vendor: v.unwrap_or_default(), fields: f },
        setup,
        codes,
        ident_p: pk[0].clone(),
        comment_p: pk[1].clone(),
        setup_p: pk[2].clone(),
        audio: vec![],
        style: Default::default(),
        pcm: true,
    };
    for p in &pk[3..] {
        gen::push_packet(&mut s, p.clone())?;
    }
    Some(s)
}
/// The fixtures of the repository that hold valid Vorbis streams only, as scenarios
pub fn fixtures() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(FIXTURES)
        .map(|d| {
            d.filter_map(|e| {
                let p = e.ok()?.path();
                (p.extension()? == "ogg").then(|| (p.file_name().unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap_or_default()))
            })
            .collect()
        })
        .unwrap_or_default();
    v.sort();
    v
}
pub fn fixture_scenario(b: &[u8]) -> Option<Scenario> {
    let pages = ogg::parse_pages(b).ok()?;
    let mut streams = vec![];
    let mut foreign = 0;
    for ls in ogg::packets_lax(&pages) {
        if ls.packets.first()?.bytes.starts_with(b"\x01vorbis") {
            let vs = vstream_from_packets(&ls.data())?;
            streams.push(scen::SStream { vs, serial: ls.serial, offset: 0, cut: 0, paging: Paging::Full, eos: true, pages: ls.pages, corrupt: false });
        } else {
            foreign += 1;
        }
    }
    (!streams.is_empty()).then(|| Scenario { streams, bytes: b.to_vec(), foreign, corrupt_gp: false })
}

/// Fibonacci-like histograms, or other huge counts, in a single scalar or vector book
pub fn histogram_stream(rng: &mut Rng, max_symbols: usize) -> VStream {
    // One book per partition classification value is enough: classbook with c entries
    let n = *rng.pick(&[1usize, 2, 3, 5, 10, 20, 33, 64, 200, 1000]);
    let fib = rng.chance(1, 2);
    let mut freq = vec![1u64; n];
    if fib {
        for i in 2..n {
            freq[i] = freq[i - 1] + freq[i - 2];
            if freq.iter().take(i + 1).sum::<u64>() > max_symbols as u64 {
                freq[i] = 1;
                freq.truncate(i);
                break;
            }
        }
    } else {
        match rng.below(4) {
            0 => (),
            1 => freq.iter_mut().enumerate().for_each(|(i, f)| *f = 1 + (i as u64 % 7)),
            2 => freq.iter_mut().for_each(|f| {
                let k = rng.below(9);
                *f = 1 + rng.below(1 << k) as u64
            }),
            _ => freq.iter_mut().enumerate().for_each(|(i, f)| *f = 1 << (i % 12)),
        }
    }
    skewed_stream(rng, &freq, max_symbols)
}
/// A mono stream whose vector book entries are used exactly as many times as given (at most
/// `max_symbols` in total)
pub fn skewed_stream(rng: &mut Rng, freq: &[u64], max_symbols: usize) -> VStream {
    relabeled_stream(rng, freq, max_symbols, true)
}
pub fn relabeled_stream(rng: &mut Rng, freq: &[u64], max_symbols: usize, relabel: bool) -> VStream {
    let n = freq.len();
    let mut syms: Vec<u32> = vec![];
    'a: for (i, f) in freq.iter().enumerate() {
        for _ in 0..*f {
            if syms.len() >= max_symbols {
                break 'a;
            }
            syms.push(i as u32);
        }
    }
    for i in (1..syms.len()).rev() {
        syms.swap(i, rng.below(i + 1));
    }
    // relabel entries
    let mut map: Vec<u32> = (0..n as u32).collect();
    if relabel {
        for i in (1..n).rev() {
            map.swap(i, rng.below(i + 1));
        }
    }
    let bits = crate::bits::ilog(n.max(2) as u64 - 1) as u8;
    let mut lens = vec![bits; n];
    if n == 1 {
        lens[0] = 1;
    } else {
        // complete the code: shorten the last ones
        let spare = (1usize << bits) - n;
        for l in lens.iter_mut().rev().take(spare) {
            *l -= 1;
        }
    }
    let ident = Ident { channels: 1, rate: 8000, bmax: 0, bnom: 0, bmin: 0, bs: (13, 13) };
    let books = vec![
        Book { dims: 1, lens: vec![1], lookup: None },
        Book { dims: 1, lens, lookup: Some(Lookup { kind: 1, min: 0x6000_0001, delta: 0x6000_0001, bits: 16, seq: false, mult: (0..n).map(|i| i as u16).collect() }) },
    ];
    let mut cascade = [None; 8];
    cascade[0] = Some(1u8);
    let mk = |per: usize| Setup {
        books: books.clone(),
        floors: vec![Floor { parts: vec![], classes: vec![], mult: 1, range_bits: 0, x: vec![] }],
        residues: vec![Residue { kind: 1, begin: 0, end: per as u32, psize: per as u32, classifs: 1, classbook: 0, books: vec![cascade] }],
        mappings: vec![Mapping { coupling: vec![], mux: vec![0], submaps: vec![(0, 0)] }],
        modes: vec![Mode { big: true, mapping: 0 }],
    };
    // each packet has `per` symbols
    let mut per = 4096.min(syms.len().max(1));
    while syms.len() % per != 0 {
        per -= 1;
    }
    let setup = mk(per);
    let codes = setup.codes().unwrap();
    let style = SetupStyle::default();
    let mut s = VStream {
        ident_p: ident.write(),
        comment_p: Comments { vendor: b"x".to_vec(), fields: vec![] }.write(),
        setup_p: setup.write(1, &style),
        comments: Comments { vendor: b"x".to_vec(), fields: vec![] },
        ident,
        setup,
        codes,
        audio: vec![],
        style,
        pcm: false,
    };
    for ch in syms.chunks(per) {
        let mut w = crate::bits::BitW::new();
        w.bits(0, 1);
        w.bits(0, 2); // window flags; a single mode has no mode bits
        w.bits(1, 1);
        w.bits(rng.u32() & 255, 8);
        w.bits(rng.u32() & 255, 8);
        w.bits(0, 1); // classification
        for c in ch {
            let e = map[*c as usize] as usize;
            w.code_msb(s.codes[1].words[e], s.codes[1].lens[e] as u32);
        }
        gen::push_packet(&mut s, w.d).expect("valid packet");
    }
    s
}

/// Remuxes a scenario, and calls the oracle for each of its Vorbis streams
pub fn each(sc: &Scenario, cfg: &Cfg, obs: &mut Obs, mut f: impl FnMut(usize, &LStream, &mut Obs) -> Result<(), String>) -> Res {
    sc.observe(obs);
    let out = run::remux(&sc.bytes, cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
    obs.count("output bytes", out.len() as u64);
    let v = scen::out_streams(&out).input(&sc.bytes)?;
    if v.len() != sc.streams.len() {
        return Err(format!("{} Vorbis streams became {}", sc.streams.len(), v.len())).input(&sc.bytes);
    }
    for (k, ls) in v.iter().enumerate() {
        f(k, ls, obs).map_err(|e| format!("stream {k} with {cfg:?}: {e}")).input(&sc.bytes)?;
    }
    Ok(())
}

/// The workloads shared by C01 to C06
fn workloads(ctx: &Ctx, scale: u64, gp: impl Fn(&mut Rng) -> Gp + Sync, oracle: impl Fn(&Scenario, &Cfg, &mut Obs) -> Res + Sync) {
    let t = if ctx.quick() { 1 } else { 12 };
    let fx = fixtures();
    ctx.run("fixtures", fx.len() as u64, 0, |c, rng, obs| {
        let Some(sc) = fixture_scenario(&fx[c as usize].1) else { return Ok(()) };
        let mut cfg = Cfg::random(rng);
        cfg.verify = !fx[c as usize].0.contains("crc");
        obs.count("fixtures", 1);
        oracle(&sc, &cfg, obs)
    });
    ctx.run("fixtures-repaged", fx.len() as u64 * 8 * t, 0, |c, rng, obs| {
        let Some(sc) = fixture_scenario(&fx[(c % fx.len() as u64) as usize].1) else { return Ok(()) };
        let vs = sc.streams[0].vs.clone();
        let g = gp(rng);
        let sc = scen::single(vs, g, rng);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("random", 1500 * scale * t, 0, |_, rng, obs| {
        let pr = Profile::random(rng);
        let g = gp(rng);
        let sc = scen::random_single(rng, &pr, g);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("extreme", 60 * scale * t, 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.extreme = true;
        pr.max_packets = 8;
        let g = gp(rng);
        let sc = scen::random_single(rng, &pr, g);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    // Codebooks of more than 65536 entries, in floors and residues
    ctx.run("wide", 8 * scale * t, 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.wide = true;
        pr.max_channels = 2;
        pr.max_packets = 30;
        let g = gp(rng);
        let sc = scen::random_single(rng, &pr, g);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("long", 40 * scale * t, 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.max_packets = *rng.pick(&[300, 600, 1200]);
        pr.extreme = false;
        pr.max_channels = 2;
        let g = gp(rng);
        let sc = scen::random_single(rng, &pr, g);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("big-packets", 60 * scale * t, 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.big = true;
        pr.max_packets = 10;
        pr.padded = true;
        let g = gp(rng);
        let mut vs = gen::gen_stream(rng, &pr);
        if rng.chance(1, 2) {
            // huge comment or padding
            let n = rng.range(1, 200_000);
            vs.comments.fields.push(rng.bytes(n));
            vs.comment_p = vs.comments.write();
        }
        let sc = scen::single(vs, g, rng);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("chain", 150 * scale * t, 0, |_, rng, obs| {
        let n = rng.range(2, 5);
        let vss = (0..n)
            .map(|_| {
                let mut pr = Profile::random(rng);
                pr.max_packets = pr.max_packets.min(12);
                gen::gen_stream(rng, &pr)
            })
            .collect();
        let nf = rng.below(3);
        let g = gp(rng);
        let sc = scen::chain(vss, nf, g, rng);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("scale", 2 * scen::SCALES * t, 0, |c, rng, obs| {
        let g = gp(rng);
        let sc = scen::scale(c, rng, g);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.run("histogram", 40 * scale * t, 0, |_, rng, obs| {
        let vs = histogram_stream(rng, *[2000usize, 20_000, 150_000].get(rng.clone().below(3)).unwrap());
        let sc = scen::single(vs, Gp::Plain, rng);
        oracle(&sc, &Cfg::random(rng), obs)
    });
}
fn plain(_: &mut Rng) -> Gp {
    Gp::Plain
}

pub fn c01(ctx: &Ctx) -> i32 {
    let known = ctx.is_known("padding-decodes");
    workloads(ctx, 6, plain, |sc, cfg, obs| {
        each(sc, cfg, obs, |k, ls, obs| {
            let o = scen::decode_headers(ls)?;
            if let Some(d) = sc.streams[k].vs.setup.semantic_diff(&o.setup) {
                return Err(format!("the output decodes with a different setup: {d}"));
            }
            scen::losslessness(&sc.streams[k].vs, &o, known, obs)
        })
    });
    // The same judged by an actual decoder
    ctx.run("pcm", ctx.pick(600, 8000), 0, |_, rng, obs| {
        let mut pr = Profile::basic();
        pr.big = rng.chance(1, 4);
        let vs = gen::gen_stream(rng, &pr);
        let kept: Vec<Vec<u8>> = vs.packets()[..3].iter().cloned().chain(vs.kept().iter().map(|a| a.bytes.clone())).collect();
        let before = crate::pcm::decode(&kept);
        let sc = scen::single(vs, Gp::Plain, rng);
        each(&sc, &Cfg::random(rng), obs, |_, ls, obs| {
            let Some(before) = &before else {
                obs.count("streams the PCM decoder does not support", 1);
                return Ok(());
            };
            let after = crate::pcm::decode(&ls.data()).ok_or("the PCM decoder cannot decode the output")?;
            obs.count("PCM samples compared", before.iter().flatten().map(|c| c.len() as u64).sum());
            obs.count("nonzero PCM samples", before.iter().flatten().flatten().filter(|x| **x << 1 != 0).count() as u64);
            if *before != after {
                let i = before.iter().zip(&after).position(|(a, b)| a != b);
                return Err(format!("PCM differs at packet {i:?} ({} packets became {})", before.len(), after.len()));
            }
            Ok(())
        })
    });
    let fx = fixtures();
    ctx.run("pcm-fixtures", fx.len() as u64, 0, |c, _, obs| {
        let Some(sc) = fixture_scenario(&fx[c as usize].1) else { return Ok(()) };
        let cfg = Cfg { verify: false, ..Default::default() };
        each(&sc, &cfg, obs, |k, ls, obs| {
            let vs = &sc.streams[k].vs;
            let kept: Vec<Vec<u8>> = vs.packets()[..3].iter().cloned().chain(vs.kept().iter().map(|a| a.bytes.clone())).collect();
            let Some(before) = crate::pcm::decode(&kept) else { return Ok(()) };
            let after = crate::pcm::decode(&ls.data()).ok_or("the PCM decoder cannot decode the output")?;
            obs.count("PCM samples compared", before.iter().flatten().map(|c| c.len() as u64).sum());
            if before != after {
                return Err("PCM differs".into());
            }
            Ok(())
        })
    });
    ctx.finish("exploration", "Random valid Vorbis streams (written by an independent encoder of headers and packets), repository fixtures with original and new paging, chains and skewed histograms, remuxed with random settings. The output is decoded symbol by symbol by an independent decoder (and by lewton to PCM) and compared with the input. Non-trivial: at least two decodable audio packets; distinct: by hash of the input file.")
}

pub fn c02(ctx: &Ctx) -> i32 {
    workloads(ctx, 4, plain, |sc, cfg, obs| {
        each(sc, cfg, obs, |k, ls, obs| {
            obs.count("headers compared", 1);
            scen::headers(&sc.streams[k].vs, ls)
        })
    });
    // Headers with extreme values, hardly any audio
    ctx.run("headers", ctx.pick(2500, 40_000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.extreme = rng.chance(1, 2);
        pr.pcm = false;
        pr.max_packets = rng.below(2);
        let sc = scen::random_single(rng, &pr, Gp::Plain);
        each(&sc, &Cfg::random(rng), obs, |k, ls, obs| {
            obs.count("headers compared", 1);
            scen::headers(&sc.streams[k].vs, ls)
        })?;
        obs.nontrivial = true;
        Ok(())
    });
    // Lookup sizes at and around exact powers
    ctx.run("lookup-sizes", ctx.pick(400, 6000), 0, |c, rng, obs| {
        let dims = [1u16, 2, 3, 4, 5, 6, 7, 8, 10, 16, 24, 40][(c % 12) as usize];
        let top = (200_000f64).powf(1.0 / dims as f64) as u64;
        let v = rng.range(1, top.max(2) as usize) as u64;
        let p = (v as u128).pow(dims as u32).min(200_000) as i64;
        let n = (p + rng.range(0, 2) as i64 - 1).clamp(1, 200_000) as usize;
        let mut lens = vec![0u8; n];
        lens[rng.below(n)] = 1;
        one_book(rng, Book { dims, lens, lookup: None }, obs)
    });
    // Every kind of float word in a book
    ctx.run("floats", ctx.pick(500, 10_000), 0, |c, rng, obs| {
        let mut words = vec![0u32, 0x8000_0000, 1, 0x1f_ffff, 0x7fff_ffff, 0xffff_ffff, 0x7fe0_0000, 788 << 21 | 1, 768 << 21 | 1 << 20, 0x20_0000, 0x20_0001, (1 << 21) * 20 | 1];
        if c >= 4 {
            for w in words.iter_mut() {
                *w = ((c as u32 * 7919).wrapping_mul(rng.u32() | 1)) ^ rng.u32();
                if rng.chance(1, 3) {
                    *w &= 0x87ff_ffff;
                }
            }
        }
        float_books(rng, &words, obs)
    });
    ctx.finish("exploration", "As C01, plus streams with hardly any audio and extreme headers, codebooks of sizes at exact powers and their neighbours, and codebooks with all kinds of Vorbis float words. The output headers are read by an independent strict parser and compared field by field (exact values for floats). Non-trivial: at least two audio packets, or a header workload; distinct: by hash of the input file.")
}
pub fn silent_setup(extra: Vec<Book>) -> (Ident, Setup) {
    let ident = Ident { channels: 1, rate: 8000, bmax: 0, bnom: 0, bmin: 0, bs: (6, 6) };
    let mut books = vec![Book { dims: 1, lens: vec![1], lookup: None }];
    books.extend(extra);
    let su = Setup {
        books,
        floors: vec![Floor { parts: vec![], classes: vec![], mult: 1, range_bits: 0, x: vec![] }],
        residues: vec![Residue { kind: 1, begin: 0, end: 0, psize: 1, classifs: 1, classbook: 0, books: vec![[None; 8]] }],
        mappings: vec![Mapping { coupling: vec![], mux: vec![0], submaps: vec![(0, 0)] }],
        modes: vec![Mode { big: false, mapping: 0 }],
    };
    (ident, su)
}
fn header_only(rng: &mut Rng, extra: Vec<Book>, obs: &mut Obs) -> Res {
    let (ident, setup) = silent_setup(extra);
    let Some(codes) = setup.codes() else { return Ok(()) };
    let comments = gen::gen_comments(rng);
    let style = SetupStyle { seed: rng.next(), vary: rng.chance(1, 2), ..Default::default() };
    let vs = VStream {
        ident_p: ident.write(),
        comment_p: comments.write(),
        setup_p: setup.write(1, &style),
        ident,
        comments,
        setup,
        codes,
        audio: vec![],
        style,
        pcm: false,
    };
    let sc = scen::single(vs, Gp::Plain, rng);
    each(&sc, &Cfg::random(rng), obs, |k, ls, obs| {
        obs.count("headers compared", 1);
        scen::headers(&sc.streams[k].vs, ls)
    })?;
    obs.nontrivial = true;
    Ok(())
}
fn one_book(rng: &mut Rng, mut b: Book, obs: &mut Obs) -> Res {
    let bits = rng.range(1, 16) as u8;
    let n = lookup1_values(b.lens.len() as u32, b.dims);
    obs.count("lookup table sizes", 1);
    b.lookup = Some(Lookup { kind: 1, min: 0x6000_0001, delta: 0x6000_0003, bits, seq: rng.chance(1, 2), mult: (0..n).map(|_| (rng.u32() & ((1 << bits) - 1)) as u16).collect() });
    header_only(rng, vec![b], obs)
}
fn float_books(rng: &mut Rng, words: &[u32], obs: &mut Obs) -> Res {
    let books = words
        .chunks(2)
        .map(|w| Book { dims: 1, lens: vec![1, 1], lookup: Some(Lookup { kind: 2, min: w[0], delta: w[1], bits: 3, seq: false, mult: vec![1, 5] }) })
        .collect();
    obs.count("float words", words.len() as u64);
    header_only(rng, books, obs)
}

pub fn c03(ctx: &Ctx) -> i32 {
    workloads(ctx, 3, plain, |sc, cfg, obs| {
        each(sc, cfg, obs, |k, ls, obs| scen::optimality(&sc.streams[k].vs, &scen::decode_headers(ls)?, obs))
    });
    ctx.run("histograms", ctx.pick(300, 5000), 0, |_, rng, obs| {
        let m = *rng.pick(&[10usize, 200, 3000, 30_000]);
        let vs = histogram_stream(rng, m);
        let sc = scen::single(vs, Gp::Plain, rng);
        each(&sc, &Cfg::default(), obs, |k, ls, obs| scen::optimality(&sc.streams[k].vs, &scen::decode_headers(ls)?, obs))
    });
    // Entries by decreasing usage, so that their lengths are in order, with gaps too
    ctx.run("sorted", ctx.pick(300, 5000), 0, |_, rng, obs| {
        let mut freq = vec![];
        let mut f = 1 << rng.below(14);
        while f > 0 && freq.len() < 500 {
            for _ in 0..if rng.chance(1, 2) { rng.range(1, 3) } else { 1 << rng.below(7) } {
                freq.push(f);
            }
            f = if rng.chance(1, 2) { f / 2 } else { f >> rng.range(1, 8) };
        }
        let vs = relabeled_stream(rng, &freq, usize::MAX, false);
        let sc = scen::single(vs, Gp::Plain, rng);
        each(&sc, &Cfg::default(), obs, |k, ls, obs| {
            let o = scen::decode_headers(ls)?;
            let l = &o.setup.books[1].lens;
            obs.count("sorted codebooks with a skipped length", l.windows(2).any(|w| w[1] > w[0] + 1) as u64);
            scen::losslessness(&sc.streams[k].vs, &o, false, obs)?;
            scen::optimality(&sc.streams[k].vs, &o, obs)
        })
    });
    // Code lengths near and over the 32 bit limit of the format need millions of symbols
    ctx.run("deep-trees", ctx.pick(3, 6), 3, |c, rng, obs| {
        let depth = [36usize, 31, 34, 35, 33, 37][c as usize];
        let mut freq = vec![1u64, 1];
        while freq.len() < depth {
            freq.push(freq[freq.len() - 1] + freq[freq.len() - 2]);
        }
        let vs = skewed_stream(rng, &freq, 60_000_000);
        let sc = scen::single(vs, Gp::Plain, rng);
        each(&sc, &Cfg::default(), obs, |k, ls, obs| scen::optimality(&sc.streams[k].vs, &scen::decode_headers(ls)?, obs))
    });
    let _ = (audio::trace_hash, huff::optimal_cost);
    ctx.finish("exploration", "As C01, plus streams whose usage counts of a codebook are given: Fibonacci, powers of two, ties, uniform, up to tens of millions of symbols so that unlimited code lengths would exceed 32 bits. Usage counts come from the independent decoder; the emitted lengths are compared with the Huffman (or length-limited) optimum. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}

/// A stream with these comments, whose header is `p`
pub fn with_comments(comments: Comments, p: Vec<u8>) -> VStream {
    let (ident, setup) = silent_setup(vec![]);
    let codes = setup.codes().unwrap();
    let mut vs = VStream {
        ident_p: ident.write(),
        comment_p: p,
        setup_p: setup.write(1, &SetupStyle::default()),
        ident,
        comments,
        setup,
        codes,
        audio: vec![],
        style: SetupStyle::default(),
        pcm: false,
    };
    for _ in 0..2 {
        gen::push_packet(&mut vs, vec![0]);
    }
    vs
}
/// Bytes that read as further comments, `after` the framing byte being the first length byte
pub fn more_comments(rng: &mut Rng, after: bool) -> Vec<u8> {
    let mut b = vec![];
    for i in 0..rng.range(1, 3) {
        let n = if i == 0 && after { 1 + (rng.below(2) << 8) } else { rng.below(5) };
        b.extend(&(n as u32).to_le_bytes()[(i == 0 && after) as usize..]);
        b.extend(vec![b'X'; n]);
    }
    b
}
fn check_comments(sc: &Scenario, cfg: &Cfg, obs: &mut Obs) -> Res {
    each(sc, cfg, obs, |k, ls, obs| {
        obs.count(&format!("vendor {} fields {}", run::VENDORS[cfg.vendor as usize], cfg.fields), 1);
        if ls.packets.len() != 5 {
            return Err(format!("{} packets in the output instead of 5", ls.packets.len()));
        }
        scen::comments(&sc.streams[k].vs, ls, cfg)
    })
}
pub fn c04(ctx: &Ctx) -> i32 {
    workloads(ctx, 2, plain, |sc, cfg, obs| each(sc, cfg, obs, |k, ls, _| scen::comments(&sc.streams[k].vs, ls, cfg)));
    ctx.run("comments", ctx.pick(4000, 60_000), 0, |c, rng, obs| {
        let comments = gen::gen_comments(rng);
        let mut p = comments.write();
        match rng.below(7) {
            0 => p.truncate(rng.range(0, p.len())),
            1 => {
                p.pop();
            }
            6 => {
                // what follows reads as one more comment, framing byte included or not
                if rng.chance(1, 2) {
                    p.pop();
                }
                p.extend(more_comments(rng, *p.last().unwrap() == 1));
            }
            2 => p.truncate(rng.range(7.min(p.len()), p.len().min(30))),
            3 => {
                let n = rng.range(1, 300);
                p.extend(rng.bytes(n));
            }
            4 => {
                // a length that points past the end
                let mut o = 7 + 4 + comments.vendor.len() + 4;
                if !comments.fields.is_empty() {
                    for f in &comments.fields[..rng.below(comments.fields.len())] {
                        o += 4 + f.len();
                    }
                    let v = *rng.pick(&[u32::MAX, 0x7fff_ffff, 100_000]);
                    p[o..o + 4].copy_from_slice(&v.to_le_bytes());
                } else {
                    p[o - 4..o].copy_from_slice(&rng.u32().to_le_bytes());
                }
            }
            _ => *p.last_mut().unwrap() &= 0xfe,
        }
        let vs = with_comments(comments, p);
        let sc = scen::single(vs, Gp::Plain, rng);
        let mut cfg = Cfg::random(rng);
        cfg.vendor = (c % 5) as u8;
        cfg.fields = (c / 5 % 2) as u8;
        check_comments(&sc, &cfg, obs)
    });
    // Sizes beyond 16 and 24 bits, for every pair of actions
    ctx.run("big comments", ctx.pick(90, 900), 0, |c, rng, obs| {
        let mut comments = gen::gen_comments(rng);
        let near = |rng: &mut Rng| {
            let n = *rng.pick(&[1usize << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20]);
            n + rng.below(5) - 2
        };
        match c / 10 % 9 {
            0 | 1 => comments.vendor = vec![b'v'; near(rng)],
            2 => comments.vendor = rng.bytes((1 << 24) + 1),
            3 | 4 => comments.fields = (0..near(rng)).map(|i| i.to_string().into_bytes()).collect(),
            5 | 6 => comments.fields.push(vec![b'f'; near(rng)]),
            7 => comments.fields.insert(0, vec![b'f'; (1 << 24) + 1]),
            _ => {
                let n = near(rng).min(5000);
                comments.fields = vec![vec![b'F'; 10_000_000 / n]; n];
            }
        }
        let mut p = comments.write();
        if rng.chance(1, 4) {
            p.truncate(p.len() - rng.range(1, 40));
        }
        let sc = scen::single(with_comments(comments, p), Gp::Plain, rng);
        let mut cfg = Cfg::random(rng);
        cfg.vendor = (c % 5) as u8;
        cfg.fields = (c / 5 % 2) as u8;
        check_comments(&sc, &cfg, obs)
    });
    ctx.finish("exploration", "As C01 with random comment headers, and headers cut at any byte, with wrong lengths, framing or trailing bytes, for every vendor and comment action. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}

pub fn c05(ctx: &Ctx) -> i32 {
    workloads(ctx, 4, |r| *r.pick(&[Gp::Plain, Gp::Valid]), |sc, cfg, obs| {
        sc.observe(obs);
        let out = run::remux(&sc.bytes, cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
        let extra = |k: usize| sc.streams.get(k).map_or(0, |s| (!cfg.ignore && s.gp_model(false).offset != 0) as usize);
        let v = scen::container(&out, obs, &extra).input(&sc.bytes)?;
        if v.len() != sc.streams.len() {
            return Err(format!("{} Vorbis streams became {}", sc.streams.len(), v.len())).input(&sc.bytes);
        }
        Ok(())
    });
    // Packet sizes at the boundaries of segments and pages
    ctx.run("sizes", ctx.pick(600, 10_000), 0, |_, rng, obs| {
        let sc = sized_stream(rng);
        let out = run::remux(&sc.bytes, &Cfg::random(rng)).map_err(|e| e.to_string()).input(&sc.bytes)?;
        sc.observe(obs);
        let v = scen::container(&out, obs, &|_| 0).input(&sc.bytes)?;
        let n = sc.streams[0].vs.audio.len() + 3;
        if v.len() != 1 || v[0].packets.len() != n {
            return Err(format!("{n} packets became {}", v.first().map_or(0, |s| s.packets.len()))).input(&sc.bytes);
        }
        for p in &v[0].packets {
            if p.bytes.len() >= 254 {
                obs.count("packets of 254 bytes or more", 1);
            }
            if p.bytes.len() % 255 == 0 {
                obs.count("packets ending with an empty segment", 1);
            }
        }
        Ok(())
    });
    ctx.finish("exploration", "As C01 with all pagings, plus streams whose packet sizes are at the boundaries of segments and pages. The output is parsed by an independent strict Ogg parser (checksums, lacing, flags, sequence numbers, order, number of pages). Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}
/// Audio packets whose optimized size is near multiples of 255 bytes: raw bits of residue vectors
pub fn sized_stream(rng: &mut Rng) -> Scenario {
    // 256 equally used 8-bit entries, which cannot be compressed if used uniformly
    let n = 256usize;
    let ident = Ident { channels: 1, rate: 8000, bmax: 0, bnom: 0, bmin: 0, bs: (13, 13) };
    let books = vec![
        Book { dims: 1, lens: vec![1; 2], lookup: None },
        Book { dims: 1, lens: vec![8; n], lookup: Some(Lookup { kind: 1, min: 0x6000_0001, delta: 0x6000_0001, bits: 8, seq: false, mult: (0..n).map(|i| i as u16).collect() }) },
    ];
    // sizes in bytes of the vectors for each of the residues (one per mode)
    let sizes: Vec<usize> = (0..rng.range(1, 8)).map(|_| (*rng.pick(&[0usize, 1, 2, 3, 4, 10]) * 255 + rng.below(8)).saturating_sub(4).clamp(1, 4096)).collect();
    let mut cascade = [None; 8];
    cascade[0] = Some(1u8);
    let setup = Setup {
        books,
        floors: vec![Floor { parts: vec![], classes: vec![], mult: 1, range_bits: 0, x: vec![] }],
        residues: sizes.iter().map(|s| Residue { kind: 1, begin: 0, end: *s as u32, psize: *s as u32, classifs: 2, classbook: 0, books: vec![cascade, [None; 8]] }).collect(),
        mappings: (0..sizes.len()).map(|i| Mapping { coupling: vec![], mux: vec![0], submaps: vec![(0, i as u8)] }).collect(),
        modes: (0..sizes.len()).map(|i| Mode { big: true, mapping: i as u8 }).collect(),
    };
    let codes = setup.codes().unwrap();
    let comments = Comments { vendor: vec![b'v'; *rng.pick(&[0, 200, 255, 600, 65_000, 65_025, 70_000])], fields: vec![] };
    let mut vs = VStream {
        ident_p: ident.write(),
        comment_p: comments.write(),
        setup_p: setup.write(1, &SetupStyle::default()),
        comments,
        ident,
        setup,
        codes,
        audio: vec![],
        style: Default::default(),
        pcm: false,
    };
    let np = rng.range(1, 150);
    let mb = crate::bits::ilog(sizes.len() as u64 - 1);
    let mut k = 0u32;
    for i in 0..np {
        let m = rng.below(sizes.len());
        let mut w = crate::bits::BitW::new();
        w.bits(0, 1);
        w.bits(m as u32, mb);
        w.bits(0, 2);
        w.bits((i > 2 || rng.chance(9, 10)) as u32, 1);
        if w.d.last().map_or(false, |_| true) && (w.d[(w.n - 1) / 8] >> ((w.n - 1) % 8)) & 1 == 1 {
            w.bits(0, 16);
            let c = rng.chance(1, 20) as u32;
            w.bits(c, 1);
            if c == 0 {
                for _ in 0..sizes[m] {
                    let e = (k % 256) as usize;
                    k += 1;
                    w.code_msb(vs.codes[1].words[e], 8);
                }
            }
        }
        gen::push_packet(&mut vs, w.d).expect("valid packet");
    }
    scen::single(vs, Gp::Plain, rng)
}

pub fn c06(ctx: &Ctx) -> i32 {
    let oracle = |sc: &Scenario, cfg: &Cfg, obs: &mut Obs| -> Res {
        each(sc, cfg, obs, |k, ls, obs| {
            let s = &sc.streams[k];
            scen::granules(s, ls, cfg.ignore, obs)?;
            // What a decoder plays
            if !cfg.ignore && !s.corrupt && s.offset > -(1 << 40) {
                let bs = s.blocks();
                let kept: Vec<usize> = s.vs.audio.iter().enumerate().filter(|(_, a)| !a.dec.discarded()).map(|(i, _)| i + 3).collect();
                let ils = &ogg::packets_lax(&s.pages)[0];
                let before = scen::presentation_of(ils, &bs, &kept);
                let after = scen::presentation_of(ls, &bs, &(3..3 + kept.len()).collect::<Vec<_>>());
                obs.count("presentations compared", 1);
                // Packets may grow, so the first audio page of the output may end sooner. The
                // position of such a page cannot tell more truncation than it has samples
                let m = s.gp_model(false);
                let early: Vec<_> = ls.gps().into_iter().filter(|g| g.0 >= 3 && m.f.map_or(false, |f| g.0 - 3 < f)).collect();
                obs.count("first audio pages that end earlier", !early.is_empty() as u64);
                let early = early.iter().any(|g| g.1 < 0);
                obs.count("first audio pages with fewer samples than are truncated", early as u64);
                if before != after && !early {
                    return Err(format!("the input plays {} samples after dropping {}, the output {} after dropping {}", before.1, before.0, after.1, after.0));
                }
            }
            Ok(())
        })
    };
    workloads(ctx, 5, |r| *r.pick(&[Gp::Plain, Gp::Valid, Gp::Valid, Gp::Valid, Gp::Corrupt]), oracle);
    ctx.run("granules", ctx.pick(6000, 100_000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.max_packets = *rng.pick(&[1, 2, 3, 4, 6, 20, 300]);
        pr.empty = rng.chance(1, 3);
        pr.truncated = false;
        pr.extreme = false;
        pr.max_channels = 1;
        let g = *rng.pick(&[Gp::Valid, Gp::Valid, Gp::Corrupt]);
        let sc = scen::random_single(rng, &pr, g);
        let cfg = Cfg::random(rng);
        oracle(&sc, &cfg, obs)
    });
    ctx.run("growing", ctx.pick(200, 4000), 0, |_, rng, obs| {
        let sc = scen::growing(rng);
        oracle(&sc, &Cfg::random(rng), obs)
    });
    ctx.finish("exploration", "As C01 with all pagings, start offsets, end truncations and corrupted granule positions. Granule positions of output pages are compared with a model computed from the block sizes the independent decoder sees, and for consistent inputs the samples a decoder would play are compared too. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}
