//! C08 to C11: the environment of remuxing: I/O, other streams, serials, repetition.
use crate::ctx::*;
use crate::gen::{self, Profile};
use crate::mutate;
use crate::ogg;
use crate::rng::Rng;
use crate::run::{self, Bad, Cfg};
use crate::scen::{self, Gp, Scenario};
use optivorbis::remuxer::ogg_to_ogg::RemuxError;
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::path::Path;
use std::process::Command;

// ------------------------------------------------------------------------------------------ C08

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Read,
    Seek,
    Write,
}
/// A source or sink which records what is done with it, and injects faults
pub struct Dev {
    data: Vec<u8>,
    pos: u64,
    /// position the remuxer was given the source at
    start: u64,
    /// position of the first byte. There are only zeros before it
    hole: u64,
    rng: Rng,
    /// transfers have at most this many bytes (0: no limit)
    max: usize,
    /// one in this many calls is interrupted (0: none)
    intr: usize,
    fail: Option<(Op, u64, ErrorKind)>,
    pub calls: [u64; 3],
    pub interruptions: u64,
    pub failed: bool,
    pub lowest: u64,
    pub short: u64,
}
impl Dev {
    pub fn new(data: Vec<u8>, start: u64, rng: &mut Rng) -> Dev {
        Dev { data, pos: start, start, hole: 0, rng: rng.fork(), max: 0, intr: 0, fail: None, calls: [0; 3], interruptions: 0, failed: false, lowest: u64::MAX, short: 0 }
    }
    fn enter(&mut self, op: Op) -> io::Result<()> {
        let n = &mut self.calls[op as usize];
        *n += 1;
        if let Some((o, k, kind)) = self.fail {
            if o == op && *n == k {
                self.failed = true;
                return Err(io::Error::new(kind, "injected fault"));
            }
        }
        if self.intr > 0 && op != Op::Seek && self.rng.chance(1, self.intr) {
            self.interruptions += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        Ok(())
    }
    fn len(&mut self, n: usize) -> usize {
        if self.max > 0 && n > 0 {
            let k = self.rng.range(1, self.max).min(n);
            self.short += (k < n) as u64;
            k
        } else {
            n
        }
    }
}
impl Read for Dev {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.enter(Op::Read)?;
        self.lowest = self.lowest.min(self.pos);
        let k = self.len(b.len());
        if self.pos < self.hole {
            let k = k.min((self.hole - self.pos).min(1 << 16) as usize);
            b[..k].fill(0);
            self.pos += k as u64;
            return Ok(k);
        }
        let from = ((self.pos - self.hole).min(self.data.len() as u64)) as usize;
        let k = k.min(self.data.len() - from);
        b[..k].copy_from_slice(&self.data[from..from + k]);
        self.pos += k as u64;
        Ok(k)
    }
}
impl Seek for Dev {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.enter(Op::Seek)?;
        let p = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.hole as i128 + self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let (Some((Op::Write, k, ErrorKind::WriteZero)), true) = (self.fail, !b.is_empty()) {
            // a sink that accepts nothing more
            if self.calls[Op::Write as usize] + 1 >= k {
                self.calls[Op::Write as usize] += 1;
                self.failed = true;
                return Ok(0);
            }
        }
        self.enter(Op::Write)?;
        let k = self.len(b.len());
        self.data.extend(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
];

pub fn small_scenario(rng: &mut Rng) -> Scenario {
    let n = *rng.pick(&[1, 1, 2, 3]);
    let vss = (0..n)
        .map(|_| {
            let mut pr = Profile::random(rng);
            pr.extreme = false;
            pr.max_packets = pr.max_packets.min(8);
            pr.max_channels = 2;
            pr.big = rng.chance(1, 3);
            gen::gen_stream(rng, &pr)
        })
        .collect();
    let f = rng.below(2);
    scen::chain(vss, f, Gp::Valid, rng)
}

pub fn c08(ctx: &Ctx) -> i32 {
    // Faults that must not matter
    ctx.run("short-transfers", ctx.pick(3000, 60_000), 0, |c, rng, obs| {
        let sc = if c < 200 { medium_scenario(rng) } else { small_scenario(rng) };
        let cfg = Cfg::random(rng);
        sc.observe(obs);
        let want = run::remux(&sc.bytes, &cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
        // data before the initial position
        let prefix = match rng.below(4) {
            0 => vec![],
            1 => {
                let n = rng.range(1, 300);
                rng.bytes(n)
            }
            2 => small_scenario(rng).bytes,
            _ => sc.bytes[..rng.below(sc.bytes.len())].to_vec(),
        };
        // and how far it begins in the source
        let hole = if rng.chance(1, 3) { *rng.pick(&[1 << 16, (1 << 31) - 5, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 33, 1 << 53, 1 << 62]) } else { 0 };
        let start = hole + prefix.len() as u64;
        let mut src = Dev::new([prefix, sc.bytes.clone()].concat(), start, rng);
        src.hole = hole;
        if start >= 1 << 31 {
            obs.count("initial positions over 31 bits", 1);
        }
        let mut dst = Dev::new(vec![], 0, rng);
        src.max = *rng.pick(&[0, 1, 2, 7, 100, 5000]);
        dst.max = *rng.pick(&[0, 1, 3, 27, 300]);
        let intr = rng.chance(1, 3);
        if intr {
            src.intr = *rng.pick(&[0, 2, 50]);
            dst.intr = *rng.pick(&[2, 3, 10, 50]);
        }
        let r = run::remux_io(&cfg.remuxer(), &mut src, &mut dst).map(|_| ());
        obs.count("short reads", src.short);
        obs.count("short writes", dst.short);
        obs.count("interrupted reads", src.interruptions);
        obs.count("interrupted writes", dst.interruptions);
        obs.evals += 1;
        if src.lowest < src.start {
            return Err(format!("the source was read from position {}, before its initial position {}", src.lowest, src.start)).input(&sc.bytes);
        }
        match r {
            Ok(()) if dst.data == want => Ok(()),
            Ok(()) => Err(format!("the output depends on how I/O is split: {} bytes written with transfers of up to {} and {} bytes, {} expected", dst.data.len(), src.max, dst.max, want.len())).input(&sc.bytes),
            // Interrupted reads may be reported
            Err(Bad::Err(_)) if src.interruptions > 0 => {
                obs.count("interrupted reads reported as errors", 1);
                Ok(())
            }
            Err(e) => Err(format!("reads of up to {} bytes, writes of up to {} bytes, {} interrupted writes: {e}", src.max, dst.max, dst.interruptions)).input(&sc.bytes),
        }
    });
    // Errors at every call
    ctx.run("io-errors", ctx.pick(60, 1200), 0, |_, rng, obs| {
        let sc = small_scenario(rng);
        let mut cfg = Cfg::random(rng);
        cfg.err_none = rng.chance(1, 2);
        let (rmax, wmax) = (*rng.pick(&[0, 0, 200, 20]), *rng.pick(&[0, 0, 300, 20]));
        sc.observe(obs);
        let mk = |rng: &mut Rng| {
            let mut s = Dev::new(sc.bytes.clone(), 0, rng);
            let mut d = Dev::new(vec![], 0, rng);
            s.rng = Rng::new(1);
            d.rng = Rng::new(2);
            (s.max, d.max) = (rmax, wmax);
            (s, d)
        };
        let (mut s, mut d) = mk(rng);
        run::remux_io(&cfg.remuxer(), &mut s, &mut d).map(|_| ()).map_err(|e| e.to_string()).input(&sc.bytes)?;
        let total = [s.calls[0], s.calls[1], d.calls[2]];
        let want = d.data;
        let dry = (s.calls, d.calls);
        for op in [Op::Read, Op::Seek, Op::Write] {
            let n = total[op as usize];
            for k in 1..=n {
                if n > 150 && k > 20 && k < n - 20 && rng.chance((n - 150) as usize, n as usize) {
                    continue;
                }
                let kind = if op == Op::Write && rng.chance(1, 4) { ErrorKind::WriteZero } else { *rng.pick(&KINDS) };
                let (mut s, mut d) = mk(rng);
                if op == Op::Write {
                    d.fail = Some((op, k, kind));
                } else {
                    s.fail = Some((op, k, kind));
                }
                obs.evals += 1;
                let r = run::remux_io(&cfg.remuxer(), &mut s, &mut d).map(|_| ());
                if !(s.failed || d.failed) {
                    return Err(format!("call {k} of {n} ({op:?}) was not made again: {dry:?} became {:?} {:?}", s.calls, d.calls)).input(&sc.bytes);
                }
                obs.count(&format!("{op:?} errors injected"), 1);
                match r {
                    Err(Bad::Err(_)) => (),
                    Err(e) => return Err(format!("{kind:?} error in {op:?} call {k} of {n}: {e}")).input(&sc.bytes),
                    Ok(()) => {
                        if kind == ErrorKind::UnexpectedEof && op == Op::Read {
                            // It is how sources tell their end too. Never a silently different
                            // output, unless taken as the end of the input
                            if ctx.is_known("unexpected-eof") {
                                *obs.known.entry("unexpected-eof".into()).or_insert(0) += 1;
                                continue;
                            }
                        }
                        return Err(format!(
                            "{kind:?} error in {op:?} call {k} of {n} is ignored: remuxing succeeds with {} of {} bytes written",
                            d.data.len(),
                            want.len()
                        ))
                        .input(&sc.bytes);
                    }
                }
                if !want.starts_with(&d.data) {
                    return Err(format!("after a {kind:?} error in {op:?} call {k} of {n}, what was written is not the beginning of the output")).input(&sc.bytes);
                }
            }
        }
        Ok(())
    });
    ctx.finish("fault_enumeration", "Chained streams remuxed through a recording source and sink: random short reads and writes, interruptions, and data before the initial position must give the same output and no read before it; then an error (of random kind) is injected in each read, seek and write call in turn (in a sample of them if there are many) and must be reported, with only a prefix of the output written. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}
fn medium_scenario(rng: &mut Rng) -> Scenario {
    let mut pr = Profile::random(rng);
    pr.max_packets = 200;
    pr.big = true;
    pr.extreme = false;
    pr.max_channels = 2;
    scen::random_single(rng, &pr, Gp::Valid)
}

// ------------------------------------------------------------------------------------------ C09

pub fn c09(ctx: &Ctx) -> i32 {
    ctx.run("chains", ctx.pick(2500, 50_000), 0, |_, rng, obs| {
        let many = rng.chance(1, 400);
        let n = if many { rng.range(256, 280) } else { rng.range(1, *rng.clone().pick(&[2, 4, 4, 12])) };
        let vss = (0..n)
            .map(|_| {
                let mut pr = Profile::random(rng);
                pr.max_packets = pr.max_packets.min(if many { 3 } else { 8 });
                pr.extreme = !many && rng.chance(1, 40);
                gen::gen_stream(rng, &pr)
            })
            .collect();
        let f = *rng.pick(&[0, 1, 2, 4]);
        let gp = *rng.pick(&[Gp::Plain, Gp::Valid, Gp::Corrupt]);
        let sc = scen::chain(vss, f, gp, rng);
        sc.observe(obs);
        let cfg = Cfg::random(rng);
        let out = run::remux(&sc.bytes, &cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
        let mut want = vec![];
        for (k, s) in sc.streams.iter().enumerate() {
            let alone = Cfg { offset: cfg.offset.wrapping_add(k as u32), ..cfg };
            want.extend(run::remux(&ogg::join(&s.pages), &alone).map_err(|e| format!("stream {k} alone: {e}")).input(&sc.bytes)?);
            obs.evals += 1;
        }
        obs.count(if sc.foreign > 0 { "with other streams" } else { "Vorbis only" }, 1);
        if out != want {
            let v = scen::out_streams(&out).input(&sc.bytes)?;
            return Err(format!(
                "the output of {} chained streams ({} other streams) is not the concatenation of each one's output: {} streams, {} bytes, {} expected",
                sc.streams.len(), sc.foreign, v.len(), out.len(), want.len()
            ))
            .input(&sc.bytes);
        }
        let v = scen::out_streams(&out).input(&sc.bytes)?;
        for (k, s) in sc.streams.iter().enumerate() {
            let n = s.vs.kept().len() + 3;
            if v.len() != sc.streams.len() || v[k].packets.len() != n {
                return Err(format!("stream {k}: {n} packets expected")).input(&sc.bytes);
            }
        }
        Ok(())
    });
    ctx.run("multiplexed", ctx.pick(1500, 30_000), 0, |_, rng, obs| {
        let mk = |rng: &mut Rng| {
            let mut pr = Profile::random(rng);
            pr.max_packets = *rng.pick(&[0, 6, 6]);
            pr.extreme = false;
            gen::gen_stream(rng, &pr)
        };
        let (a, b) = (mk(rng), mk(rng));
        let se = scen::new_serials(rng, 4);
        let (pa, pb) = (ogg::random_paging(rng), ogg::random_paging(rng));
        let eos_a = rng.chance(3, 4);
        let a = scen::place(a, se[0], Gp::Plain, pa, eos_a, rng);
        let eos_b = rng.chance(3, 4);
        let b = scen::place(b, se[1], Gp::Plain, pb, eos_b, rng);
        // b begins after `at` pages of a
        let na = a.pages.len();
        let at = if eos_a { rng.range(1, na - 1) } else { rng.range(1, na) };
        let mut pages: Vec<ogg::Page> = vec![];
        if rng.chance(1, 3) {
            // a complete stream before
            let c = mk(rng);
            pages.extend(scen::place(c, se[2], Gp::Plain, ogg::Paging::Full, true, rng).pages);
        }
        pages.extend(a.pages[..at].iter().cloned());
        if rng.chance(1, 3) {
            pages.extend(ogg::foreign_stream(rng, se[3], true));
        }
        let (mut ia, mut ib) = (a.pages[at..].iter().peekable(), b.pages.iter().peekable());
        pages.push(ib.next().unwrap().clone());
        while ia.peek().is_some() || ib.peek().is_some() {
            let from_a = ib.peek().is_none() || (ia.peek().is_some() && rng.chance(1, 2));
            pages.push(if from_a { ia.next() } else { ib.next() }.unwrap().clone());
        }
        let bytes = ogg::join(&pages);
        obs.input(&bytes);
        obs.nontrivial = true;
        obs.count(if eos_a { "begins in the middle of another" } else { "begins after one that did not end" }, 1);
        match run::remux(&bytes, &Cfg::random(rng)) {
            Err(Bad::Err(RemuxError::UnsupportedStreamMultiplexing)) => Ok(()),
            Ok(o) => Err(format!("a Vorbis stream that begins after page {at} of {na} of another (end of stream flag: {eos_a}) is accepted, with {} bytes of output", o.len())).input(&bytes),
            Err(e) => Err(format!("concurrent Vorbis streams: {e}")).input(&bytes),
        }
    });
    ctx.run("after-end", ctx.pick(500, 10_000), 0, |_, rng, obs| {
        // The end of stream flag is on a page before the last ones, which come inside or after
        // another Vorbis stream
        let mk = |rng: &mut Rng| {
            let mut pr = Profile::random(rng);
            pr.max_packets = 8;
            pr.extreme = false;
            gen::gen_stream(rng, &pr)
        };
        let (a, b) = (mk(rng), mk(rng));
        let se = scen::new_serials(rng, 2);
        let a = scen::place(a, se[0], Gp::Plain, ogg::Paging::PerPacket, false, rng);
        let b = scen::place(b, se[1], Gp::Plain, ogg::Paging::PerPacket, rng.chance(1, 2), rng);
        if a.pages.len() < 5 {
            return Ok(());
        }
        let cut = rng.range(4, a.pages.len() - 1);
        if a.pages[cut].cont || !a.pages[cut..].iter().any(|p| p.completes()) {
            return Ok(());
        }
        let at = rng.range(1, b.pages.len());
        let mut pages = a.pages[..cut].to_vec();
        pages.last_mut().unwrap().eos = true;
        pages.extend(b.pages[..at].iter().cloned());
        pages.extend(a.pages[cut..].iter().cloned());
        pages.extend(b.pages[at..].iter().cloned());
        let bytes = ogg::join(&pages);
        obs.input(&bytes);
        obs.nontrivial = true;
        obs.count("goes on after another began", 1);
        match run::remux(&bytes, &Cfg::random(rng)) {
            Err(Bad::Err(_)) => Ok(()),
            Ok(o) => Err(format!("packets of a Vorbis stream after page {at} of another one are accepted, with {} bytes of output", o.len())).input(&bytes),
            Err(e) => Err(format!("concurrent Vorbis streams: {e}")).input(&bytes),
        }
    });
    ctx.run("repeated-serials", ctx.pick(500, 10_000), 0, |_, rng, obs| {
        // Two streams of a chain have the same serial, which is not valid. The result must be an
        // error, or what other serials give
        let mk = |rng: &mut Rng| {
            let mut pr = Profile::random(rng);
            pr.max_packets = 8;
            pr.extreme = false;
            gen::gen_stream(rng, &pr)
        };
        let n = rng.range(2, 4);
        let se = scen::new_serials(rng, n);
        let foreign = if rng.chance(1, 2) { rng.below(n) } else { n };
        let same = rng.chance(1, 4).then(|| mk(rng));
        let mut chain: Vec<Vec<ogg::Page>> = vec![];
        for k in 0..n {
            chain.push(if k == foreign {
                ogg::foreign_stream(rng, se[k], true)
            } else {
                let vs = same.clone().unwrap_or_else(|| mk(rng));
                let pg = ogg::random_paging(rng);
                let eos = rng.chance(3, 4) || (k + 1 < n);
                scen::place(vs, se[k], Gp::Plain, pg, eos, rng).pages
            });
        }
        let cfg = Cfg::random(rng);
        let good = ogg::join(&chain.concat());
        let (i, j) = (rng.below(n - 1), n - 1);
        chain[j].iter_mut().for_each(|p| p.serial = se[i]);
        let bytes = ogg::join(&chain.concat());
        obs.input(&bytes);
        obs.nontrivial = true;
        match run::remux(&bytes, &cfg) {
            Err(Bad::Err(_)) => {
                obs.count("repeated serials refused", 1);
                Ok(())
            }
            Ok(o) => {
                obs.count("repeated serials accepted", 1);
                let want = run::remux(&good, &cfg).map_err(|e| e.to_string()).input(&good)?;
                if o == want {
                    return Ok(());
                }
                Err(format!("a chain of {n} streams, of which {i} and {j} have the same serial ({foreign} is not Vorbis), gives {} bytes, and with different serials {}", o.len(), want.len())).input(&bytes)
            }
            Err(e) => Err(format!("a chain with a repeated serial: {e}")).input(&bytes),
        }
    });
    ctx.run("nil-eos", ctx.pick(600, 10_000), 0, |_, rng, obs| {
        // The end of stream flag is on a last page without packets
        let n = rng.range(1, 3);
        let mk = |rng: &mut Rng| {
            let mut pr = Profile::random(rng);
            pr.max_packets = 8;
            pr.extreme = false;
            gen::gen_stream(rng, &pr)
        };
        let se = scen::new_serials(rng, n);
        let (mut with, mut without) = (vec![], vec![]);
        let mut early = false;
        for (k, &serial) in se.iter().enumerate() {
            let vs = mk(rng);
            let pg = ogg::random_paging(rng);
            let s = scen::place(vs, serial, Gp::Plain, pg, true, rng);
            let mut p = s.pages.clone();
            if rng.chance(1, 2) {
                early |= k + 1 < n;
                let l = p.last_mut().unwrap();
                l.eos = false;
                let l = l.clone();
                p.push(ogg::Page { eos: true, cont: false, bos: false, seq: l.seq + 1, segs: vec![], body: vec![], ..l });
            }
            with.extend(p);
            without.extend(s.pages);
        }
        let bytes = ogg::join(&with);
        obs.input(&bytes);
        obs.nontrivial = true;
        let cfg = Cfg::random(rng);
        let want = run::remux(&ogg::join(&without), &cfg).map_err(|e| e.to_string()).input(&bytes)?;
        obs.count("streams with an empty last page", 1);
        match run::remux(&bytes, &cfg) {
            Ok(o) if o == want => Ok(()),
            Ok(o) => Err(format!("an empty last page with the end of stream flag changes the output: {} and {} bytes", want.len(), o.len())).input(&bytes),
            Err(Bad::Err(RemuxError::UnsupportedStreamMultiplexing)) if early && ctx.is_known("nil-eos") => {
                *obs.known.entry("nil-eos".into()).or_insert(0) += 1;
                Ok(())
            }
            Err(e) => Err(format!("empty last pages with the end of stream flag: {e}")).input(&bytes),
        }
    });
    ctx.run("no-vorbis", ctx.pick(1500, 20_000), 0, |_, rng, obs| {
        let mut pages = vec![];
        let n = rng.range(1, 4);
        for s in scen::new_serials(rng, n) {
            let eos = rng.chance(1, 2);
            let f = ogg::foreign_stream(rng, s, eos);
            if rng.chance(1, 2) && !pages.is_empty() {
                // beginning pages grouped
                pages.insert(0, f[0].clone());
                pages.extend(f[1..].iter().cloned());
            } else {
                pages.extend(f);
            }
        }
        let bytes = ogg::join(&pages);
        obs.input(&bytes);
        obs.nontrivial = true;
        let mut cfg = Cfg::random(rng);
        cfg.err_none = true;
        match run::remux(&bytes, &cfg) {
            Err(Bad::Err(RemuxError::NoVorbisStreamFound)) => (),
            Ok(o) => return Err(format!("no Vorbis streams, and {} bytes of output", o.len())).input(&bytes),
            Err(e) => return Err(format!("no Vorbis streams: {e}")).input(&bytes),
        }
        cfg.err_none = false;
        obs.evals += 1;
        match run::remux(&bytes, &cfg) {
            Ok(o) if o.is_empty() => Ok(()),
            Ok(o) => Err(format!("no Vorbis streams, and {} bytes of output", o.len())).input(&bytes),
            Err(e) => Err(format!("no Vorbis streams, not to be reported: {e}")).input(&bytes),
        }
    });
    ctx.run("bad-identification", ctx.pick(1500, 20_000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.max_packets = 3;
        pr.extreme = false;
        let vs = gen::gen_stream(rng, &pr);
        let mut pk = vs.packets();
        let what = bad_ident(&mut pk[0], rng);
        let mut bytes = ogg::join(&mutate::mux(&pk, rng));
        // also after or before a valid one
        let good = small_scenario(rng);
        if good.streams.last().unwrap().eos && rng.chance(1, 2) {
            bytes = [good.bytes, bytes].concat();
        }
        obs.input(&bytes);
        obs.nontrivial = true;
        obs.count(what, 1);
        let mut cfg = Cfg::random(rng);
        cfg.err_none = rng.chance(1, 2);
        match run::remux(&bytes, &cfg) {
            Err(Bad::Err(RemuxError::NoVorbisStreamFound)) => Err(format!("{what}: reported as not Vorbis")).input(&bytes),
            Err(Bad::Err(_)) => Ok(()),
            Ok(o) => Err(format!("{what}: accepted, with {} bytes of output", o.len())).input(&bytes),
            Err(e) => Err(format!("{what}: {e}")).input(&bytes),
        }
    });
    ctx.finish("exploration", "Chains of up to 12 random Vorbis streams with up to 4 other logical streams before, between, after and multiplexed: the output must be the concatenation of the outputs of each Vorbis stream alone. Vorbis streams that begin before another ends, inputs without Vorbis streams, and streams with an invalid identification header must give the stated errors. Distinct: by hash of the input file.")
}
/// Makes an identification header invalid
pub fn bad_ident(p: &mut Vec<u8>, rng: &mut Rng) -> &'static str {
    match rng.below(8) {
        0 => {
            let v = *rng.pick(&[1u32, 2, 1 << 31, 0x0100, 0x10000]);
            p[7..11].copy_from_slice(&v.to_le_bytes());
            "codec version"
        }
        1 => {
            p[11] = 0;
            "zero channels"
        }
        2 => {
            p[12..16].fill(0);
            "zero sampling frequency"
        }
        3 => {
            let (a, b) = *rng.pick(&[(5u8, 8u8), (0, 8), (8, 14), (8, 15), (14, 14), (5, 5), (15, 15), (0, 0)]);
            p[28] = a | b << 4;
            "block size out of range"
        }
        4 => {
            let (a, b) = *rng.pick(&[(7u8, 6u8), (13, 6), (9, 8), (13, 12)]);
            p[28] = a | b << 4;
            "small blocks larger than big blocks"
        }
        5 => {
            let n = rng.range(7, 28);
            p.truncate(n);
            "short identification header"
        }
        6 => {
            p.truncate(7);
            "nothing after the signature"
        }
        _ => {
            p[7] = 0xff;
            "codec version"
        }
    }
}

// ------------------------------------------------------------------------------------------ C10

/// `vh helper remux RANDOM OFFSET (IN OUT)...`: remuxes each file in turn
pub fn helper(a: &[String]) -> i32 {
    if a.first().map(|s| s.as_str()) == Some("cfg") {
        return crate::c_cli::helper(&a[1..]);
    }
    if a.first().map(|s| s.as_str()) != Some("remux") {
        return 2;
    }
    let cfg = Cfg { random: a[1] == "true", offset: a[2].parse().unwrap(), ..Default::default() };
    let rm = cfg.remuxer();
    for p in a[3..].chunks(2) {
        let b = std::fs::read(&p[0]).unwrap();
        match run::remux_io(&rm, Cursor::new(&b), Vec::new()) {
            Ok(o) => std::fs::write(&p[1], o).unwrap(),
            Err(Bad::Err(RemuxError::InvalidSourceDateEpoch)) => return 10,
            Err(Bad::Err(e)) => {
                eprintln!("{e}");
                return 11;
            }
            Err(Bad::Panic(e)) => {
                eprintln!("{e}");
                return 12;
            }
        }
    }
    0
}
/// Runs the helper. The result has the outputs, or the exit status
fn child(dir: &Path, random: bool, offset: u32, epoch: Option<&[u8]>, inputs: &[&[u8]]) -> Result<Vec<Vec<u8>>, i32> {
    use std::os::unix::ffi::OsStrExt;
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["helper", "remux", if random { "true" } else { "false" }, &offset.to_string()]);
    c.env_remove("SOURCE_DATE_EPOCH");
    if let Some(e) = epoch {
        c.env("SOURCE_DATE_EPOCH", std::ffi::OsStr::from_bytes(e));
    }
    for (i, b) in inputs.iter().enumerate() {
        let f = dir.join(format!("in{i}"));
        std::fs::write(&f, b).unwrap();
        c.arg(f).arg(dir.join(format!("out{i}")));
    }
    let o = c.output().expect("cannot run the helper");
    match o.status.code() {
        Some(0) => Ok((0..inputs.len()).map(|i| std::fs::read(dir.join(format!("out{i}"))).unwrap()).collect()),
        c => Err(c.unwrap_or(-1)),
    }
}
fn serials(out: &[u8]) -> Result<Vec<u32>, String> {
    Ok(scen::out_streams(out)?.iter().map(|s| s.serial).collect())
}
pub struct TmpDir(pub std::path::PathBuf);
impl TmpDir {
    pub fn new(name: &str) -> TmpDir {
        let d = scratch(&format!("{name}-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        TmpDir(d)
    }
}
impl Drop for TmpDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn tiny_chain(rng: &mut Rng, n: usize) -> Scenario {
    let vss = (0..n)
        .map(|_| {
            let mut pr = Profile::random(rng);
            pr.extreme = false;
            pr.max_packets = 2;
            pr.max_channels = 2;
            gen::gen_stream(rng, &pr)
        })
        .collect();
    let f = rng.below(2);
    scen::chain(vss, f, Gp::Plain, rng)
}

pub fn c10(ctx: &Ctx) -> i32 {
    ctx.run("sequential", ctx.pick(1500, 20_000), 0, |_, rng, obs| {
        let n = if rng.chance(1, 400) { rng.range(256, 300) } else { rng.range(1, 12) };
        let sc = tiny_chain(rng, n);
        sc.observe(obs);
        obs.nontrivial = n > 1;
        let cfg = Cfg { offset: if rng.chance(1, 2) { u32::MAX - rng.below(5) as u32 } else { rng.u32() }, ..Default::default() };
        let out = run::remux(&sc.bytes, &cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
        let got = serials(&out).input(&sc.bytes)?;
        let want: Vec<u32> = (0..n as u32).map(|i| cfg.offset.wrapping_add(i)).collect();
        obs.count("serials checked", n as u64);
        if got != want {
            return Err(format!("serials {got:?} instead of {want:?} with offset {}", cfg.offset)).input(&sc.bytes);
        }
        Ok(())
    });
    // More streams than 16 bits can count
    ctx.run("thousands", ctx.pick(3, 12), 3, |c, rng, obs| {
        let n = *rng.pick(&[65_537, 65_600, 66_000]);
        let comments = crate::setup::Comments { vendor: b"x".to_vec(), fields: vec![] };
        let p = comments.write();
        let vs = crate::c_stream::with_comments(comments, p);
        let mut pages = scen::place(vs, 0, Gp::Plain, ogg::Paging::Full, true, rng).pages;
        let mut bytes = vec![];
        let inc = rng.u32() | 1;
        for i in 0..n as u32 {
            pages.iter_mut().for_each(|p| p.serial = inc.wrapping_mul(i));
            bytes.extend(ogg::join(&pages));
        }
        obs.input(&bytes);
        obs.nontrivial = true;
        let cfg = Cfg { random: c % 3 == 0, offset: rng.u32(), ..Default::default() };
        let out = run::remux(&bytes, &cfg).map_err(|e| e.to_string())?;
        // serials of the first pages of streams
        let got: Vec<u32> = ogg::parse_pages(&out)?.iter().filter(|p| p.bos).map(|p| p.serial).collect();
        obs.count("serials checked", got.len() as u64);
        if got.len() != n {
            return Err(format!("{n} Vorbis streams became {}", got.len()).into());
        }
        if cfg.random {
            let set: std::collections::HashSet<u32> = got.iter().copied().collect();
            if set.len() != n {
                return Err(format!("{n} streams have only {} serials", set.len()).into());
            }
        } else if let Some(i) = (0..n).find(|i| got[*i] != cfg.offset.wrapping_add(*i as u32)) {
            return Err(format!("stream {i} of {n} has serial {} with offset {}", got[i], cfg.offset).into());
        }
        Ok(())
    });
    ctx.run("random", ctx.pick(300, 4000), 0, |_, rng, obs| {
        let n = *rng.pick(&[1, 2, 5, 12, 40, 40, 270]);
        let sc = tiny_chain(rng, n);
        sc.observe(obs);
        obs.nontrivial = true;
        let cfg = Cfg { random: true, offset: rng.u32(), ..Default::default() };
        let rm = cfg.remuxer();
        let mut first = std::collections::HashSet::new();
        for _ in 0..4 {
            let out = run::remux_io(&rm, Cursor::new(&sc.bytes), Vec::new()).map_err(|e| e.to_string()).input(&sc.bytes)?;
            let got = serials(&out).input(&sc.bytes)?;
            obs.evals += 1;
            obs.count("random serials checked", n as u64);
            let d: std::collections::HashSet<_> = got.iter().collect();
            if got.len() != n || d.len() != n {
                return Err(format!("{n} streams have serials {got:?}")).input(&sc.bytes);
            }
            first.insert(got[0]);
        }
        if first.len() < 3 {
            return Err(format!("four runs gave only the first serials {first:?}")).input(&sc.bytes);
        }
        Ok(())
    });
    let tmp = TmpDir::new("c10");
    let epochs: [&[u8]; 14] = [b"0", b"1", b"-1", b"1700000000", b"-1700000000", b"4294967296", b"9223372036854775807", b"-9223372036854775808", b"18446744073709551615", b"253402300800", b"315532800", b"+5", b"00", b"1577836800"];
    let bad: [&[u8]; 12] = [b"", b" ", b"x", b"1.5", b"1700000000 ", b" 1", b"0x10", b"1e9", b"\xff\xfe", b"2020-01-01", b"-", b"999999999999999999999999999999999999999999999"];
    ctx.run("epoch", ctx.pick(150, 2000), 0, |c, rng, obs| {
        let dir = tmp.0.join(format!("e{c}"));
        std::fs::create_dir_all(&dir).unwrap();
        let ns = *rng.pick(&[1, 2, 5]);
        let scs: Vec<Scenario> = (0..3).map(|_| tiny_chain(rng, ns)).collect();
        scs[0].observe(obs);
        obs.nontrivial = true;
        let e = epochs[c as usize % epochs.len()];
        let es = String::from_utf8_lossy(e).to_string();
        let off = rng.u32();
        let inp = &scs[0].bytes;
        let get = |d: &str, random, off, ep, inputs: &[&[u8]]| {
            let d = dir.join(d);
            std::fs::create_dir_all(&d).unwrap();
            child(&d, random, off, ep, inputs).map_err(|s| format!("SOURCE_DATE_EPOCH={:?}: remuxing failed with {s}", ep.map(String::from_utf8_lossy))).input(inp)
        };
        obs.count("processes", 10);
        let a = get("a", true, off, Some(e), &[inp])?;
        let b = get("b", true, off, Some(e), &[inp])?;
        if a != b {
            return Err(format!("SOURCE_DATE_EPOCH={es}: two processes gave different outputs, serials {:?} and {:?}", serials(&a[0])?, serials(&b[0])?)).input(inp);
        }
        // several files in a process
        let v: Vec<&[u8]> = scs.iter().map(|s| s.bytes.as_slice()).collect();
        let a3 = get("a3", true, off, Some(e), &v)?;
        let b3 = get("b3", true, off, Some(e), &v)?;
        if a3 != b3 || a3[0] != a[0] {
            return Err(format!("SOURCE_DATE_EPOCH={es}: remuxing several files is not reproducible")).input(inp);
        }
        let mut all = vec![];
        for o in &a3 {
            let s = serials(o)?;
            let d: std::collections::HashSet<_> = s.iter().collect();
            if d.len() != ns {
                return Err(format!("SOURCE_DATE_EPOCH={es}: repeated serials {s:?}")).input(inp);
            }
            all.push(s[0]);
        }
        // other inputs, other serials
        let s1 = serials(&get("c", true, off, Some(e), &[v[1]])?[0])?[0];
        let s2 = serials(&get("d", true, off, Some(e), &[v[2]])?[0])?[0];
        let s0 = serials(&a[0])?;
        if s0[0] == s1 && s1 == s2 {
            return Err(format!("SOURCE_DATE_EPOCH={es}: three different inputs get the serial {s1}")).input(inp);
        }
        // the offset is added
        let z = serials(&get("z", true, 0, Some(e), &[inp])?[0])?;
        let plus: Vec<u32> = z.iter().map(|s| s.wrapping_add(off)).collect();
        if plus != s0 {
            return Err(format!("SOURCE_DATE_EPOCH={es}: serials {z:?} without offset, {s0:?} with offset {off}")).input(inp);
        }
        // without randomization it does not matter
        let n1 = get("n1", false, off, Some(e), &[inp])?;
        let n2 = get("n2", false, off, Some(bad[c as usize % bad.len()]), &[inp])?;
        let n3 = get("n3", false, off, None, &[inp])?;
        if n1 != n2 || n1 != n3 || serials(&n1[0])?[0] != off {
            return Err(format!("SOURCE_DATE_EPOCH has an influence on not random serials")).input(inp);
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    });
    // Built without the feature, the variable has no influence
    if let Some(exe) = std::env::var_os("VH_NOFEAT") {
        ctx.run("no-feature", ctx.pick(40, 500), 0, |c, rng, obs| {
            let dir = tmp.0.join(format!("f{c}"));
            std::fs::create_dir_all(&dir).unwrap();
            let ns = *rng.pick(&[1, 2, 5]);
            let sc = tiny_chain(rng, ns);
            sc.observe(obs);
            obs.nontrivial = true;
            std::fs::write(dir.join("in"), &sc.bytes).unwrap();
            let off = rng.u32();
            let get = |random: bool, off: u32, e: Option<&[u8]>| -> Result<Vec<u8>, Viol> {
                use std::os::unix::ffi::OsStrExt;
                let mut c = Command::new(&exe);
                c.args([random.to_string(), off.to_string()]).arg(dir.join("in")).arg(dir.join("out"));
                c.env_remove("SOURCE_DATE_EPOCH");
                if let Some(e) = e {
                    c.env("SOURCE_DATE_EPOCH", std::ffi::OsStr::from_bytes(e));
                }
                let o = c.output().expect("cannot run the program without features");
                match o.status.code() {
                    Some(0) => Ok(std::fs::read(dir.join("out")).unwrap()),
                    s => Err(format!("without the feature, SOURCE_DATE_EPOCH={:?}: remuxing failed with {s:?}, {}", e.map(String::from_utf8_lossy), String::from_utf8_lossy(&o.stderr))).input(&sc.bytes),
                }
            };
            obs.count("processes without the feature", 8);
            let want = run::remux(&sc.bytes, &Cfg { offset: off, vendor: 0, ..Default::default() }).map_err(|e| e.to_string()).input(&sc.bytes)?;
            let (good, bad) = (epochs[c as usize % epochs.len()], bad[c as usize % bad.len()]);
            for e in [None, Some(good), Some(bad)] {
                // The settings are the defaults of the library
                let o = get(false, off, e)?;
                if serials(&o)? != serials(&want)? {
                    return Err(format!("without the feature and without randomization, the serials are {:?}", serials(&o)?)).input(&sc.bytes);
                }
            }
            let mut all = std::collections::HashSet::new();
            for e in [None, Some(good), Some(good), Some(good), Some(bad)] {
                let s = serials(&get(true, off, e)?)?;
                let d: std::collections::HashSet<_> = s.iter().collect();
                if s.len() != ns || d.len() != ns {
                    return Err(format!("without the feature, {ns} streams have serials {s:?}")).input(&sc.bytes);
                }
                all.insert(s[0]);
            }
            if all.len() < 3 {
                return Err(format!("without the feature, five runs gave only the first serials {all:?} with SOURCE_DATE_EPOCH={}", String::from_utf8_lossy(good))).input(&sc.bytes);
            }
            let _ = std::fs::remove_dir_all(&dir);
            Ok(())
        });
    }
    // Inputs which differ in the last page of one of their streams only
    ctx.run("epoch-audio", ctx.pick(40, 500), 0, |c, rng, obs| {
        let dir = tmp.0.join(format!("a{c}"));
        std::fs::create_dir_all(&dir).unwrap();
        let n = rng.range(1, 4);
        let mut parts = vec![];
        while parts.len() < n {
            let mut pr = Profile::random(rng);
            pr.extreme = false;
            pr.max_packets = 5;
            pr.max_channels = 2;
            let vs = gen::gen_stream(rng, &pr);
            let kept: Vec<u16> = vs.kept().iter().map(|a| a.dec.blocksize.unwrap()).collect();
            if kept.len() < 2 || vs.audio.last().unwrap().dec.discarded() {
                continue;
            }
            let q = scen::calc(&kept);
            if q[q.len() - 1] - q[q.len() - 2] < 8 {
                continue;
            }
            // The checksums of pages with several packets may cancel each other out
            let eos = parts.len() + 1 < n || rng.chance(1, 2);
            parts.push(scen::place(vs, parts.len() as u32 * 3 + 7, Gp::Plain, ogg::Paging::PerPacket, eos, rng).pages);
        }
        let which = rng.below(n);
        let ins: Vec<Vec<u8>> = (0..4)
            .map(|cut| {
                parts.iter().enumerate().flat_map(|(i, pages)| {
                    let mut pages = pages.clone();
                    if i == which {
                        pages.last_mut().unwrap().gp -= cut;
                    }
                    ogg::join(&pages)
                }).collect()
            })
            .collect();
        obs.input(&ins[0]);
        obs.nontrivial = true;
        let e = epochs[c as usize % epochs.len()];
        let mut all = std::collections::HashSet::new();
        for (i, b) in ins.iter().enumerate() {
            let d = dir.join(format!("{i}"));
            std::fs::create_dir_all(&d).unwrap();
            let o = child(&d, true, 0, Some(e), &[b]).map_err(|s| format!("SOURCE_DATE_EPOCH={:?}: remuxing failed with {s}", String::from_utf8_lossy(e))).input(b)?;
            obs.count("processes", 1);
            all.insert(serials(&o[0])?[0]);
        }
        if all.len() == 1 {
            return Err(format!("SOURCE_DATE_EPOCH={}: four inputs with different lengths of the audio of stream {which} all get the serials {all:?}", String::from_utf8_lossy(e))).input(&ins[0]);
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    });
    ctx.run("bad-epoch", ctx.pick(60, 600), 0, |c, rng, obs| {
        let dir = tmp.0.join(format!("b{c}"));
        std::fs::create_dir_all(&dir).unwrap();
        let sc = tiny_chain(rng, 1);
        sc.observe(obs);
        obs.nontrivial = true;
        let e = bad[c as usize % bad.len()];
        obs.count("invalid values", 1);
        match child(&dir, true, 0, Some(e), &[&sc.bytes]) {
            Err(10) => (),
            Err(s) => return Err(format!("invalid SOURCE_DATE_EPOCH {:?}: exit status {s}", String::from_utf8_lossy(e)).into()),
            Ok(_) => return Err(format!("invalid SOURCE_DATE_EPOCH {:?} is accepted", String::from_utf8_lossy(e)).into()),
        }
        let _ = std::fs::remove_dir_all(&dir);
        Ok(())
    });
    drop(tmp);
    ctx.finish("exploration", "Chains of up to 40 streams, with and without randomization, remuxed in this process, and in separate processes with valid, invalid and no SOURCE_DATE_EPOCH; the serials and whole outputs are compared. Non-trivial: several streams or processes; distinct: by hash of the input file.")
}

// ------------------------------------------------------------------------------------------ C11

pub fn c11(ctx: &Ctx) -> i32 {
    ctx.run("repetition", ctx.pick(1500, 30_000), 0, |_, rng, obs| {
        let sc = small_scenario(rng);
        sc.observe(obs);
        let cfg = Cfg::random(rng);
        let rm = cfg.remuxer();
        let go = |rm: &optivorbis::OggToOgg<_>| run::remux_io(rm, Cursor::new(&sc.bytes), Vec::new()).map_err(|e| e.to_string()).input(&sc.bytes);
        let want = go(&rm)?;
        // other work, good and bad, in between with the same remuxer
        for _ in 0..rng.below(4) {
            let mut o = small_scenario(rng).bytes;
            if rng.chance(1, 2) {
                mutate::bytes(&mut o, rng, &sc.bytes);
            }
            obs.evals += 1;
            match run::remux_io(&rm, Cursor::new(&o), Vec::new()) {
                Ok(_) => obs.count("other successful remuxes", 1),
                Err(Bad::Err(_)) => obs.count("other failed remuxes", 1),
                Err(e) => return Err(e.to_string()).input(&o),
            }
        }
        obs.evals += 3;
        if go(&rm)? != want {
            return Err("the output of a reused remuxer is different").input(&sc.bytes);
        }
        // With and without logging
        let was = run::logging();
        obs.count("log messages formatted", run::set_log(!was));
        let other = go(&rm)?;
        obs.count("log messages formatted", run::set_log(was));
        if other != want {
            return Err("the output depends on whether messages are logged").input(&sc.bytes);
        }
        if go(&cfg.remuxer())? != want {
            return Err("the output of a new remuxer is different").input(&sc.bytes);
        }
        Ok(())
    });
    ctx.run("repaged", ctx.pick(1500, 30_000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.extreme = false;
        let vs = gen::gen_stream(rng, &pr);
        let serial = rng.u32();
        // the same end truncation
        let kept: Vec<u16> = vs.kept().iter().map(|a| a.dec.blocksize.unwrap()).collect();
        let mut cut = 0;
        if kept.len() > 1 && !vs.audio.last().unwrap().dec.discarded() && rng.chance(1, 2) {
            let c = scen::calc(&kept);
            cut = rng.below((c[c.len() - 1] - c[c.len() - 2]) as usize) as i64;
        }
        let cfg = Cfg::random(rng);
        let mut first: Option<Vec<u8>> = None;
        for _ in 0..4 {
            let pg = ogg::random_paging(rng);
            let eos = rng.chance(1, 2);
            let mut s = scen::place(vs.clone(), if rng.chance(1, 2) { serial } else { rng.u32() }, Gp::Plain, pg, eos, rng);
            s.pages.last_mut().unwrap().gp -= cut;
            let bytes = ogg::join(&s.pages);
            obs.input(&bytes);
            obs.nontrivial = kept.len() > 1;
            obs.evals += 1;
            obs.count("pagings", 1);
            let out = run::remux(&bytes, &cfg).map_err(|e| e.to_string()).input(&bytes)?;
            match &first {
                None => first = Some(out),
                Some(f) if *f == out => (),
                Some(f) => return Err(format!("the output depends on the paging of the input ({pg:?}, end of stream flag {eos}, cut {cut}): {} and {} bytes", f.len(), out.len())).input(&bytes),
            }
        }
        Ok(())
    });
    ctx.run("again", ctx.pick(2500, 40_000), 0, |_, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.truncated = false; // see the known finding of C01
        let gp = *rng.pick(&[Gp::Plain, Gp::Valid, Gp::Corrupt]);
        let sc = scen::random_single(rng, &pr, gp);
        sc.observe(obs);
        let mut cfg = Cfg::random(rng);
        let one = run::remux(&sc.bytes, &cfg).map_err(|e| e.to_string()).input(&sc.bytes)?;
        cfg.ignore = false;
        // a second tag is not appended
        let two = run::remux(&one, &cfg).map_err(|e| e.to_string()).input(&one)?;
        obs.evals += 1;
        let (a, b) = (scen::out_streams(&one)?, scen::out_streams(&two)?);
        if a.len() != b.len() {
            return Err(format!("{} streams became {}", a.len(), b.len())).input(&one);
        }
        for (a, b) in a.iter().zip(&b) {
            if a.data() != b.data() {
                let k = a.packets.iter().zip(&b.packets).position(|(x, y)| x.bytes != y.bytes);
                return Err(format!("remuxing the output again changes packet {k:?} ({} packets became {})", a.packets.len(), b.packets.len())).input(&one);
            }
            obs.count("granule positions compared", a.gps().len() as u64);
            if a.gps() != b.gps() {
                return Err(format!("remuxing the output again changes granule positions {:?} to {:?}", a.gps(), b.gps())).input(&one);
            }
        }
        if two.len() != one.len() {
            return Err(format!("remuxing the output again changes its size from {} to {}", one.len(), two.len())).input(&one);
        }
        Ok(())
    });
    // Many remuxes at the same time
    ctx.run("threads", ctx.pick(30, 600), 1, |_, rng, obs| {
        let n = 24;
        let work: Vec<(Vec<u8>, Cfg)> = (0..n)
            .map(|i| {
                let mut b = small_scenario(rng).bytes;
                if i % 6 == 5 {
                    mutate::bytes(&mut b, rng, &[]);
                }
                (b, Cfg::random(rng))
            })
            .collect();
        obs.input(&work[0].0);
        obs.nontrivial = true;
        let run1 = |w: &(Vec<u8>, Cfg)| match run::remux(&w.0, &w.1) {
            Ok(o) => Ok(Some(o)),
            Err(Bad::Err(_)) => Ok(None),
            Err(e) => Err(e.to_string()),
        };
        let want: Vec<Result<Option<Vec<u8>>, String>> = work.iter().map(run1).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let running = std::sync::atomic::AtomicUsize::new(0);
        let most = std::sync::atomic::AtomicUsize::new(0);
        let bad = std::sync::Mutex::new(None);
        let rounds = 3;
        use std::sync::atomic::Ordering::SeqCst;
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n * rounds {
                        break;
                    }
                    most.fetch_max(running.fetch_add(1, SeqCst) + 1, SeqCst);
                    let r = run1(&work[i % n]);
                    running.fetch_sub(1, SeqCst);
                    if r != want[i % n] {
                        bad.lock().unwrap().get_or_insert((i % n, r.is_ok()));
                    }
                });
            }
        });
        obs.evals += (n * (rounds + 1)) as u64;
        obs.count("concurrent remuxes", (n * rounds) as u64);
        obs.max("remuxes at the same time", most.into_inner() as u64);
        if let Some((i, ok)) = bad.into_inner().unwrap() {
            return Err(format!("remuxing in several threads at the same time gives a different result (ok: {ok})")).input(&work[i].0);
        }
        Ok(())
    });
    ctx.finish("exploration", "Random streams remuxed repeatedly: with a new and a reused remuxer with other successful and failed remuxes in between, with other pagings and end-of-stream flags of the same packets, from their own output, and by 8 threads at the same time. Whole outputs are compared. Non-trivial: at least two audio packets; distinct: by hash of the input file.")
}
