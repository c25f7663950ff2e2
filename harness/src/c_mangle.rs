//! C16: stream manglers. C17: the low-level optimizer.
use crate::ctx::*;
use crate::gen::{self, Profile};
use crate::ogg;
use crate::rng::{mix, Rng};
use crate::run::{self, Cfg};
use crate::scen::{self, Gp, Scenario};
use ::ogg::writing::PacketWriter;
use ::ogg::PacketWriteEndInfo as EndInfo;
use optivorbis::remuxer::ogg_to_ogg::OggVorbisStreamMangler;
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizer};
use std::cell::RefCell;
use std::io::Cursor;
use std::num::NonZeroU32;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pe {
    Normal,
    Page,
    Stream,
}
fn pe(i: &EndInfo) -> Pe {
    match i {
        EndInfo::NormalPacket => Pe::Normal,
        EndInfo::EndPage => Pe::Page,
        EndInfo::EndStream => Pe::Stream,
    }
}
fn end_info(p: Pe) -> EndInfo {
    match p {
        Pe::Normal => EndInfo::NormalPacket,
        Pe::Page => EndInfo::EndPage,
        Pe::Stream => EndInfo::EndStream,
    }
}
/// Calls of each method
#[derive(Clone, Debug, Default, PartialEq)]
struct Log {
    freq: Vec<u32>,
    rates: Vec<(i32, i32, i32)>,
    serial: Vec<(u32, usize, bool)>,
    end: Vec<(Pe, usize, bool)>,
    gp: Vec<(i64, usize, bool, bool)>,
}
/// What the mangler returns
#[derive(Clone, Copy, Debug)]
struct Plan {
    seed: u64,
    freq: bool,
    rates: bool,
    serial: u8,
    end: u8,
    gp: u8,
}
const NONE: Plan = Plan { seed: 0, freq: false, rates: false, serial: 0, end: 0, gp: 0 };
impl Plan {
    fn v(&self, what: u64, n: usize) -> u64 {
        mix(mix(self.seed, what), n as u64)
    }
    fn freq(&self, n: usize, f: u32) -> u32 {
        if self.freq {
            (self.v(1, n) as u32).max(1)
        } else {
            f
        }
    }
    fn rates(&self, n: usize, r: (i32, i32, i32)) -> (i32, i32, i32) {
        if self.rates {
            (self.v(2, n) as i32, self.v(3, n) as i32, self.v(4, n) as i32)
        } else {
            r
        }
    }
    fn serial(&self, n: usize, s: u32) -> u32 {
        match self.serial {
            0 => s,
            1 => s ^ self.seed as u32,
            // packets go to any of three streams
            _ => s.wrapping_add(self.v(5, n) as u32 % 3),
        }
    }
    fn end(&self, n: usize, p: Pe) -> Pe {
        match self.end {
            0 => p,
            1 if p == Pe::Normal => Pe::Page,
            1 => p,
            2 if p == Pe::Normal && self.v(6, n) % 3 == 0 => Pe::Page,
            2 => p,
            _ => [Pe::Normal, Pe::Page, Pe::Stream, Pe::Normal][self.v(6, n) as usize & 3],
        }
    }
    fn gp(&self, n: usize, g: i64) -> i64 {
        match self.gp {
            0 => g,
            1 => g.wrapping_add(self.seed as i64 >> 20),
            _ => self.v(7, n) as i64,
        }
    }
}
struct Spy {
    log: Rc<RefCell<Log>>,
    plan: Plan,
}
impl OggVorbisStreamMangler for Spy {
    fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
        let mut l = self.log.borrow_mut();
        l.freq.push(f.get());
        NonZeroU32::new(self.plan.freq(l.freq.len(), f.get())).unwrap()
    }
    fn mangle_bitrates(&mut self, min: i32, nom: i32, max: i32) -> (i32, i32, i32) {
        let mut l = self.log.borrow_mut();
        l.rates.push((min, nom, max));
        self.plan.rates(l.rates.len(), (min, nom, max))
    }
    fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
        let mut l = self.log.borrow_mut();
        l.serial.push((s, n, last));
        self.plan.serial(l.serial.len(), s)
    }
    fn mangle_packet_page_end_info(&mut self, i: EndInfo, n: usize, last: bool) -> EndInfo {
        let mut l = self.log.borrow_mut();
        l.end.push((pe(&i), n, last));
        end_info(self.plan.end(l.end.len(), pe(&i)))
    }
    fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
        let mut l = self.log.borrow_mut();
        l.gp.push((g, n, header, last));
        self.plan.gp(l.gp.len(), g)
    }
}
struct Defaults;
impl OggVorbisStreamMangler for Defaults {}

/// What the mangler must be called with
fn expected_calls(sc: &Scenario, cfg: &Cfg, log: &Log) -> Result<(), String> {
    let freq: Vec<u32> = sc.streams.iter().map(|s| s.vs.ident.rate).collect();
    if log.freq != freq {
        return Err(format!("sampling frequencies given: {:?}, of the streams: {freq:?}", log.freq));
    }
    let rates: Vec<(i32, i32, i32)> = sc.streams.iter().map(|s| (s.vs.ident.bmin, s.vs.ident.bnom, s.vs.ident.bmax)).collect();
    if log.rates != rates {
        return Err(format!("(minimum, nominal, maximum) bitrates given: {:?}, of the streams: {rates:?}", log.rates));
    }
    let mut at = 0;
    for (k, s) in sc.streams.iter().enumerate() {
        let m = s.gp_model(cfg.ignore);
        let n = m.calc.len() + 3;
        for i in 0..n {
            let last = i == n - 1;
            let what = format!("packet {i} of {n} of stream {k}");
            let want = (cfg.offset.wrapping_add(k as u32), i, last);
            match log.serial.get(at) {
                Some(g) if *g == want => (),
                g => return Err(format!("{what}: (serial, packet number, last) given: {g:?}, expected {want:?}")),
            }
            let ends_first = m.f.is_some_and(|f| f + 3 == i) && m.offset != 0 && !cfg.ignore;
            let p = if last {
                Pe::Stream
            } else if i == 0 || i == 2 || ends_first {
                Pe::Page
            } else {
                Pe::Normal
            };
            match log.end.get(at) {
                Some(g) if *g == (p, i, last) => (),
                g => return Err(format!("{what}: (page end, packet number, last) given: {g:?}, expected {:?}", (p, i, last))),
            }
            let ok = if i < 3 {
                vec![0]
            } else if last {
                vec![m.last]
            } else if m.f.map_or(true, |f| i - 3 >= f) {
                vec![m.calc[i - 3].wrapping_add(m.offset)]
            } else {
                vec![m.calc[i - 3], m.calc[i - 3].wrapping_add(m.offset)]
            };
            match log.gp.get(at) {
                Some(g) if ok.contains(&g.0) && (g.1, g.2, g.3) == (i, i < 3, last) => (),
                g => return Err(format!("{what}: (granule position, packet number, header, last) given: {g:?}, expected one of {ok:?}, {i}, {}, {last}", i < 3)),
            }
            at += 1;
        }
    }
    if log.serial.len() != at || log.end.len() != at || log.gp.len() != at {
        return Err(format!("{} serials, {} page ends, {} granule positions given for {at} packets", log.serial.len(), log.end.len(), log.gp.len()));
    }
    Ok(())
}
/// The packets of the output, with what the mangler returned for each
fn expected_output(packets: &[Vec<Vec<u8>>], log: &Log, plan: &Plan) -> Result<Vec<u8>, String> {
    run::guard(|| {
        let mut out = Vec::new();
        let mut w = PacketWriter::new(&mut out);
        let mut at = 0;
        for (k, s) in packets.iter().enumerate() {
            for (i, p) in s.iter().enumerate() {
                let mut p = p.clone();
                if i == 0 {
                    p[12..16].copy_from_slice(&plan.freq(k + 1, log.freq[k]).to_le_bytes());
                    let (min, nom, max) = plan.rates(k + 1, log.rates[k]);
                    p[16..20].copy_from_slice(&max.to_le_bytes());
                    p[20..24].copy_from_slice(&nom.to_le_bytes());
                    p[24..28].copy_from_slice(&min.to_le_bytes());
                }
                let (s, e, g) = (log.serial[at].0, log.end[at].0, log.gp[at].0);
                at += 1;
                w.write_packet(p, plan.serial(at, s), end_info(plan.end(at, e)), plan.gp(at, g) as u64).unwrap();
            }
        }
        drop(w);
        out
    })
}

fn mangle_case(rng: &mut Rng, obs: &mut Obs) -> Res {
    let sc = mangle_scenario(rng);
    mangle(&sc, rng, obs)
}
fn mangle_scenario(rng: &mut Rng) -> Scenario {
    let n = *rng.pick(&[1usize, 1, 2, 3]);
    let vss = (0..n)
        .map(|_| {
            let mut pr = Profile::random(rng);
            if rng.chance(1, 2) {
                pr.max_packets = pr.max_packets.max(3);
            }
            gen::gen_stream(rng, &pr)
        })
        .collect();
    let f = rng.below(2);
    let gp = *rng.pick(&[Gp::Plain, Gp::Valid, Gp::Valid, Gp::Corrupt]);
    scen::chain(vss, f, gp, rng)
}
fn mangle(sc: &Scenario, rng: &mut Rng, obs: &mut Obs) -> Res {
    let cfg = Cfg::random(rng);
    sc.observe(obs);
    let b = &sc.bytes;
    let pass = run::remux(b, &cfg).map_err(|e| e.to_string()).input(b)?;
    // Nothing overridden
    let rm = OggToOgg::new(cfg.settings_with(Defaults), cfg.opt());
    if run::remux_io(&rm, Cursor::new(b), Vec::new()).map_err(|e| e.to_string()).input(b)? != pass {
        return Err("a mangler with the default methods changes the output").input(b);
    }
    // Only recording
    let spy = |plan: Plan| {
        let log = Rc::new(RefCell::new(Log::default()));
        let rm = OggToOgg::new(cfg.settings_with(Spy { log: log.clone(), plan }), cfg.opt());
        let r = run::remux_io(&rm, Cursor::new(b), Vec::new()).map_err(|e| e.to_string());
        let l = std::mem::take(&mut *log.borrow_mut());
        (r, l, rm, log)
    };
    let (r, log, rm, again) = spy(NONE);
    if r.input(b)? != pass {
        return Err("a mangler which returns what it is given changes the output").input(b);
    }
    obs.count("mangler calls checked", (log.freq.len() + log.rates.len() + log.serial.len() + log.end.len() + log.gp.len()) as u64);
    expected_calls(sc, &cfg, &log).map_err(|e| format!("{cfg:?}: {e}")).input(b)?;
    if rng.chance(1, 4) {
        let o = run::remux_io(&rm, Cursor::new(b), Vec::new()).map_err(|e| e.to_string()).input(b)?;
        if o != pass || *again.borrow() != log {
            return Err("another remux with the same remuxer has other mangler calls").input(b);
        }
    }
    // Altering
    let packets: Vec<Vec<Vec<u8>>> = scen::out_streams(&pass).input(b)?.iter().map(|l| l.data()).collect();
    for _ in 0..3 {
        let plan = Plan {
            seed: rng.next(),
            freq: rng.chance(1, 2),
            rates: rng.chance(1, 2),
            serial: *rng.pick(&[0, 0, 1, 1, 2]),
            end: *rng.pick(&[0, 0, 1, 2, 3]),
            gp: rng.below(3) as u8,
        };
        let (r, l, _, _) = spy(plan);
        let got = match r {
            Ok(g) => g,
            Err(e) => {
                if expected_output(&packets, &log, &plan).is_err() {
                    obs.count("mangled values the Ogg writer does not support", 1);
                    continue;
                }
                return Err(format!("{plan:?}: {e}")).input(b);
            }
        };
        obs.evals += 1;
        obs.count("altered outputs compared", 1);
        for (name, on) in [("sampling frequency", plan.freq), ("bitrates", plan.rates), ("serial", plan.serial > 0), ("page end", plan.end > 0), ("granule position", plan.gp > 0)] {
            obs.count(&format!("altered: {name}"), on as u64);
        }
        if l != log {
            return Err(format!("{plan:?}: what the mangler returns changes what it is called with")).input(b);
        }
        let want = expected_output(&packets, &log, &plan).input(b)?;
        if got != want {
            let k = got.iter().zip(&want).take_while(|x| x.0 == x.1).count();
            return Err(format!("{plan:?}: the output has {} bytes, and differs at byte {k} from the {} bytes that the returned values give", got.len(), want.len())).input(b);
        }
        // The same without the writer of the Ogg crate, when it is simple
        if plan.serial < 2 && plan.end < 3 {
            let pages = ogg::parse_pages(&got).input(b)?;
            let mut at = 0;
            for (ls, src) in ogg::packets_lax(&pages).iter().zip(&packets) {
                if ls.packets.len() != src.len() {
                    return Err(format!("{plan:?}: {} packets became {}", src.len(), ls.packets.len())).input(b);
                }
                for (i, p) in ls.packets.iter().enumerate() {
                    at += 1;
                    let (s, e, g) = (plan.serial(at, log.serial[at - 1].0), plan.end(at, log.end[at - 1].0), plan.gp(at, log.gp[at - 1].0));
                    if ls.serial != s {
                        return Err(format!("{plan:?}: packet {i} is in stream {:#x}, and {s:#x} was returned", ls.serial)).input(b);
                    }
                    if p.last_in_page && ls.pages[p.page].gp != g {
                        return Err(format!("{plan:?}: the page of packet {i} has granule position {}, and {g} was returned", ls.pages[p.page].gp)).input(b);
                    }
                    if e != Pe::Normal && (!p.last_in_page || ls.pages[p.page].segs.last() == Some(&255)) {
                        return Err(format!("{plan:?}: no page ends with packet {i}")).input(b);
                    }
                    if ls.pages[p.page].eos != (i + 1 == src.len()) && p.last_in_page {
                        return Err(format!("{plan:?}: wrong end of stream flag after packet {i}")).input(b);
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn c16(ctx: &Ctx) -> i32 {
    ctx.run("manglers", ctx.pick(3000, 80_000), 0, |_, rng, obs| mangle_case(rng, obs));
    ctx.run("scale", ctx.pick(6, 60), 0, |c, rng, obs| {
        let gp = *rng.pick(&[Gp::Plain, Gp::Valid, Gp::Corrupt]);
        mangle(&scen::scale(c % 4, rng, gp), rng, obs)
    });
    ctx.finish("exploration", "Chained streams with all start offsets, end truncations and damaged granule positions, remuxed with manglers: one that overrides nothing, one that records its calls, and ones that return random sampling frequencies, bitrates, serials, page ends and granule positions. The recorded arguments are compared with a model of the stream, and the whole output with the one made from the pass-through packets and the returned values. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}

// ------------------------------------------------------------------------------------------ C17

type Opt = Option<(Vec<u8>, Option<u16>)>;

pub fn c17(ctx: &Ctx) -> i32 {
    let case = |sc: Scenario, rng: &mut Rng, obs: &mut Obs| -> Res {
        let n = sc.streams.len();
        let cfg = Cfg::random(rng);
        sc.observe(obs);
        let b = &sc.bytes;
        let out = run::remux(b, &cfg).map_err(|e| e.to_string()).input(b)?;
        let remuxed: Vec<Vec<Vec<u8>>> = scen::out_streams(&out).input(b)?.iter().map(|l| l.data()).collect();
        let opt = cfg.opt();
        // All the streams at once, packet by packet in random order
        let src: Vec<Vec<Vec<u8>>> = sc.streams.iter().map(|s| s.vs.packets()).collect();
        let results: Vec<Vec<(Option<u16>, Opt)>> = run::guard(|| -> Result<_, String> {
            let mut o = vec![];
            for s in &src {
                o.push(if rng.chance(1, 2) { VorbisOptimizer::new(&opt, &s[0]) } else { VorbisOptimizer::new(&opt, s[0].clone()) }.map_err(|e| format!("new: {e}"))?);
            }
            let mut a: Vec<Vec<Option<u16>>> = vec![vec![None]; n];
            let mut r: Vec<Vec<Opt>> = vec![vec![]; n];
            let mut seen: Vec<usize> = vec![1; n];
            loop {
                let left: Vec<usize> = (0..n).filter(|k| seen[*k] < 2 * src[*k].len()).collect();
                if left.is_empty() {
                    break;
                }
                let k = *rng.pick(&left);
                for _ in 0..rng.range(1, 5) {
                    let i = seen[k];
                    let m = src[k].len();
                    if i < m {
                        a[k].push(o[k].analyze_packet(&src[k][i]).map_err(|e| format!("analysis of packet {i} of stream {k}: {e}"))?);
                    } else if i < 2 * m {
                        let p = &src[k][i - m];
                        let x = match rng.below(3) {
                            0 => o[k].optimize_packet(p.as_slice()),
                            1 => o[k].optimize_packet(p.clone()),
                            _ => {
                                // an owned buffer with room
                                let mut v = Vec::with_capacity(p.len() * 2 + 64);
                                v.extend_from_slice(p);
                                o[k].optimize_packet(v)
                            }
                        };
                        let x = x.map_err(|e| format!("optimization of packet {} of stream {k}: {e}", i - m))?;
                        r[k].push(x.map(|(c, b)| (c.into_owned(), b)));
                    }
                    seen[k] += 1;
                }
            }
            Ok(a.into_iter().zip(r).map(|(a, r)| a.into_iter().zip(r).collect()).collect())
        })
        .and_then(|x| x)
        .input(b)?;
        obs.evals += n as u64;
        obs.max("interleaved optimizers", n as u64);
        for k in 0..n {
            let vs = &sc.streams[k].vs;
            let mut want = remuxed[k].iter();
            if results[k].len() != src[k].len() {
                return Err("harness: packets not fed".into());
            }
            for (i, (an, op)) in results[k].iter().enumerate() {
                let e = |m: String| Err(format!("stream {k} packet {i}: {m}")).input(b);
                let bs = if i < 3 || vs.audio[i - 3].dec.discarded() { None } else { vs.audio[i - 3].dec.blocksize };
                if *an != bs {
                    return e(format!("analysis gives {an:?} instead of {bs:?}"));
                }
                obs.count("packets", 1);
                match op {
                    None if i >= 3 && bs.is_none() => obs.count("discarded", 1),
                    None => return e("discarded in optimization".into()),
                    Some(_) if i >= 3 && bs.is_none() => return e("not discarded in optimization".into()),
                    Some((p, s)) => {
                        if *s != bs {
                            return e(format!("optimization gives block size {s:?} instead of {bs:?}"));
                        }
                        match want.next() {
                            Some(w) if w == p => (),
                            w => {
                                return e(format!("optimized to {} bytes, and the remuxer writes {:?} bytes{}", p.len(), w.map(|w| w.len()), if w.is_some_and(|w| w.len() == p.len()) { ", of other contents" } else { "" }))
                            }
                        }
                    }
                }
            }
            if want.next().is_some() {
                return Err(format!("stream {k}: the remuxer writes more packets")).input(b);
            }
        }
        Ok(())
    };
    ctx.run("optimizers", ctx.pick(5000, 120_000), 0, |_, rng, obs| {
        let n = *rng.pick(&[1usize, 1, 2, 3, 5]);
        let vss = (0..n)
            .map(|_| {
                let mut pr = Profile::random(rng);
                pr.empty = rng.chance(1, 2);
                gen::gen_stream(rng, &pr)
            })
            .collect();
        case(scen::chain(vss, 0, Gp::Plain, rng), rng, obs)
    });
    ctx.run("scale", ctx.pick(6, 60), 0, |c, rng, obs| case(scen::scale([0, 4, 5, 6][c as usize % 4], rng, Gp::Plain), rng, obs));
    ctx.finish("exploration", "One to five random streams, with empty, truncated and padded packets, given to as many low-level optimizers whose calls are interleaved at random, with borrowed and owned buffers. Returned block sizes and discards are compared with the independent decoder, and packets with those of the remuxer. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}
