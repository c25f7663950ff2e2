//! Scenarios: valid chained and multiplexed Ogg inputs together with what is known about them, and
//! the oracles over the output.
use crate::audio::{self, End, Phase, Sym};
use crate::ctx::Obs;
use crate::gen::{self, Profile, VStream};
use crate::huff::{self, TreeKind};
use crate::ogg::{self, LStream, Page, Paging};
use crate::rng::Rng;
use crate::run::Cfg;
use crate::setup::*;

#[derive(Clone, Debug)]
pub struct SStream {
    pub vs: VStream,
    pub serial: u32,
    /// Granule position offset of the whole stream
    pub offset: i64,
    /// Samples cut at the end
    pub cut: i64,
    pub paging: Paging,
    pub eos: bool,
    pub pages: Vec<Page>,
    /// Some granule positions were corrupted on purpose
    pub corrupt: bool,
}
/// Position after each audio packet of the given block sizes, for a stream that starts at 0
pub fn calc(bs: &[u16]) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    for (i, b) in bs.iter().enumerate() {
        v.push(if i == 0 { 0 } else { v[i - 1] + (bs[i - 1] as i64 + *b as i64) / 4 });
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gp {
    /// Starts at zero, not truncated
    Plain,
    /// Random consistent start offset and end truncation
    Valid,
    /// As Valid, with wrong intermediate and final positions
    Corrupt,
}

pub fn place(vs: VStream, serial: u32, gp: Gp, paging: Paging, eos: bool, rng: &mut Rng) -> SStream {
    let pk = vs.packets();
    let idx: Vec<i64> = (0..pk.len() as i64).collect();
    let mut pages = ogg::mux(&pk, &idx, serial, paging, eos, rng);
    // position after each packet
    let kept: Vec<(usize, u16)> = vs.audio.iter().enumerate().filter(|(_, a)| !a.dec.discarded()).map(|(i, a)| (i, a.dec.blocksize.unwrap())).collect();
    let c = calc(&kept.iter().map(|k| k.1).collect::<Vec<_>>());
    let mut pos = vec![0i64; pk.len()];
    let mut k = 0;
    for i in 0..vs.audio.len() {
        if k < kept.len() && kept[k].0 == i {
            k += 1;
        }
        pos[i + 3] = if k > 0 { c[k - 1] } else { 0 };
    }
    let mut s = SStream { vs, serial, offset: 0, cut: 0, paging, eos, pages: vec![], corrupt: false };
    // packet index of each page's granule position
    let pidx: Vec<i64> = pages.iter().map(|p| p.gp).collect();
    let page_of = |i: usize| pidx.iter().position(|x| *x >= i as i64).unwrap_or(usize::MAX);
    if !kept.is_empty() && gp != Gp::Plain {
        let n = kept.len();
        let first_kept_page = page_of(kept[0].0 + 3);
        // last packet completed on the page of the first kept packet, is it kept?
        let li = pidx[first_kept_page];
        let whole = kept.iter().any(|x| x.0 as i64 + 3 == li);
        let fpos = pos[li as usize];
        let last_on_last = page_of(kept[n - 1].0 + 3) == page_of(pk.len() - 1);
        if whole {
            s.offset = match rng.below(7) {
                // the first position may be negative: a decoder drops what it can
                5 => -fpos - rng.range(2, *rng.clone().pick(&[3, 300, 100_000])) as i64,
                0 | 1 => 0,
                2 => -(rng.below(fpos as usize + 1) as i64),
                3 => -((rng.below(fpos as usize + 1) as i64) & !63),
                4 => rng.range(1, 100_000) as i64,
                _ => *rng.pick(&[1i64, 44100 * 3600, 1 << 33, 1 << 50, i64::MAX / 4]),
            };
            // On the only audio page, a lower position means end truncation, a higher one is wrong
            if li >= kept[n - 1].0 as i64 + 3 && n > 1 {
                s.offset = 0;
            }
        }
        if n > 1 && last_on_last && rng.chance(2, 3) {
            let span = (c[n - 1] - c[n - 2]) as usize;
            s.cut = match rng.below(4) {
                0 => span as i64 - 1,
                1 => 0,
                _ => rng.below(span) as i64,
            };
        }
    }
    for (k, p) in pages.iter_mut().enumerate() {
        if p.gp >= 3 {
            let i = p.gp as usize;
            p.gp = pos[i];
            if !kept.is_empty() {
                p.gp += s.offset;
            }
            if i + 1 == pk.len() {
                p.gp -= s.cut;
            }
        } else if p.gp >= 0 {
            p.gp = 0;
        }
        let _ = k;
    }
    if gp == Gp::Corrupt && kept.len() > 2 {
        // any page after the first audio page with a kept packet
        let first_kept_page = page_of(kept[0].0 + 3);
        let garbage = |rng: &mut Rng, v: i64| match rng.below(7) {
            0 => 0,
            1 => -1,
            2 => v + rng.range(1, 5000) as i64,
            3 => v - rng.range(1, 5000) as i64,
            4 => i64::MAX,
            5 => i64::MIN,
            _ => rng.next() as i64,
        };
        let last = pages.len() - 1;
        for (k, p) in pages.iter_mut().enumerate() {
            if k > first_kept_page && p.completes() && rng.chance(1, 2) {
                if k == last && s.cut == 0 && rng.chance(1, 2) {
                    continue;
                }
                let end = p.gp + s.cut;
                p.gp = garbage(rng, p.gp);
                if k == last && rng.chance(1, 2) {
                    // around the least and most samples of the last packet
                    let span = pos[pk.len() - 1] - kept.len().checked_sub(2).map_or(0, |i| c[i]);
                    p.gp = end - *rng.pick(&[span, span, span + 1, span - 1, 0, -1, 1]);
                }
                s.corrupt = true;
            }
        }
    }
    s.pages = pages;
    s
}

/// What granule positions each kept packet may have in the output. The last item of each is the
/// preferred one.
pub struct GpModel {
    /// calculated position, from zero
    pub calc: Vec<i64>,
    /// index of the kept packet that ends the first audio page
    pub f: Option<usize>,
    pub offset: i64,
    pub last: i64,
    pub last_kept_original: bool,
}
impl SStream {
    pub fn blocks(&self) -> Vec<u16> {
        self.vs.kept().iter().map(|a| a.dec.blocksize.unwrap()).collect()
    }
    pub fn gp_model(&self, ignore: bool) -> GpModel {
        let ls = &ogg::packets_lax(&self.pages)[0];
        let bs = self.blocks();
        let c = calc(&bs);
        // (page granule position, last in page) of kept packets
        let kept: Vec<(i64, bool)> = self
            .vs
            .audio
            .iter()
            .enumerate()
            .filter(|(_, a)| !a.dec.discarded())
            .map(|(i, _)| (ls.pages[ls.packets[i + 3].page].gp, ls.packets[i + 3].last_in_page))
            .collect();
        let n = kept.len();
        let f = kept.iter().position(|k| k.1);
        let mut offset = match f {
            Some(f) if f + 1 < n || n == 1 => kept[f].0.saturating_sub(c[f]),
            _ => 0,
        };
        let real = offset;
        if ignore {
            offset = 0;
        }
        let mut m = GpModel { calc: c.clone(), f, offset, last: 0, last_kept_original: false };
        if n == 1 {
            m.last = offset;
            m.last_kept_original = !ignore;
        } else if n > 1 {
            let orig = kept[n - 1].0 as i128 - if ignore { real as i128 } else { 0 };
            let lo = c[n - 2] as i128 + offset as i128 + 1;
            let hi = c[n - 1] as i128 + offset as i128;
            if (lo..=hi).contains(&orig) {
                m.last = orig as i64;
                m.last_kept_original = true;
            } else {
                m.last = hi as i64;
            }
        }
        m
    }
}

/// Vorbis streams and what else is in the file
pub struct Scenario {
    pub streams: Vec<SStream>,
    pub bytes: Vec<u8>,
    pub foreign: usize,
    pub corrupt_gp: bool,
}
impl Scenario {
    pub fn describe(&self) -> String {
        let mut v = vec![format!("{} bytes, {} Vorbis and {} other streams", self.bytes.len(), self.streams.len(), self.foreign)];
        for s in &self.streams {
            v.push(format!("[{} {:?} pages {} offset {} cut {} eos {}]", s.vs.feature_key(), s.paging, s.pages.len(), s.offset, s.cut, s.eos));
        }
        v.join(" ")
    }
    pub fn nontrivial(&self) -> bool {
        self.streams.iter().any(|s| s.vs.kept().len() > 1)
    }
    pub fn observe(&self, o: &mut Obs) {
        o.input(&self.bytes);
        o.nontrivial = self.nontrivial();
        o.sample = Some(self.describe());
        o.count("Vorbis streams", self.streams.len() as u64);
        o.count("foreign streams", self.foreign as u64);
        o.count("input bytes", self.bytes.len() as u64);
        for s in &self.streams {
            o.count("audio packets", s.vs.audio.len() as u64);
            for a in &s.vs.audio {
                match a.dec.end {
                    End::Complete => (),
                    End::Eop(Phase::Header) => o.count("discarded packets", 1),
                    End::Eop(Phase::Floor) => o.count("packets cut in floor", 1),
                    _ => o.count("packets cut in residue", 1),
                }
            }
            o.count(if s.offset > 0 { "positive offsets" } else if s.offset < 0 { "negative offsets" } else { "zero offsets" }, 1);
            o.count("end truncated streams", (s.cut > 0) as u64);
            o.count("corrupt granule streams", s.corrupt as u64);
            for (k, v) in audio::take_used().iter().enumerate() {
                o.max(&format!("{}, with audio", audio::USED[k]), *v as u64);
            }
            let (i, su) = (&s.vs.ident, &s.vs.setup);
            let audio = s.vs.audio.iter().any(|a| a.dec.trace.len() > 3);
            let mut m = |what: &str, v: usize| {
                o.max(&format!("{what}{}", if audio { ", with audio" } else { "" }), v as u64);
            };
            m("channels", i.channels as usize);
            m("codebooks", su.books.len());
            m("floors", su.floors.len());
            m("residues", su.residues.len());
            m("mappings", su.mappings.len());
            m("modes", su.modes.len());
            for b in &su.books {
                m("codebook entries", b.lens.len());
                m("codebook dimensions", b.dims as usize);
                m("codeword length", b.lens.iter().copied().max().unwrap_or(0) as usize);
                if let Some(l) = &b.lookup {
                    m("lookup value bits", l.bits as usize);
                    m("lookup values", l.mult.len());
                }
            }
            for f in &su.floors {
                m("floor partitions", f.parts.len());
                m("floor classes", f.classes.len());
                m("floor range bits", f.range_bits as usize);
                m("floor points", f.x.len());
            }
            for r in &su.residues {
                m("residue end", r.end as usize);
                m("residue partition size", r.psize as usize);
                m("residue classifications", r.classifs as usize);
                m("residue passes", (0..8).filter(|k| r.books.iter().any(|b| b[*k].is_some())).count());
            }
            for x in &su.mappings {
                m("coupling steps", x.coupling.len());
                m("submaps", x.submaps.len());
            }
            for r in &s.vs.setup.residues {
                o.count(&format!("residues type {}", r.kind), 1);
            }
            for (b, c) in s.vs.setup.books.iter().zip(&s.vs.codes) {
                o.count(&format!("codebooks {:?} lookup {}", c.kind, b.lookup.as_ref().map_or(0, |l| l.kind)), 1);
            }
        }
    }
}
pub fn new_serials(rng: &mut Rng, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    while v.len() < n {
        let s = match rng.below(4) {
            0 => rng.below(5) as u32,
            1 => u32::MAX - rng.below(3) as u32,
            _ => rng.u32(),
        };
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}
/// One Vorbis stream alone
pub fn single(vs: VStream, gp: Gp, rng: &mut Rng) -> Scenario {
    let serial = new_serials(rng, 1)[0];
    let pg = ogg::random_paging(rng);
    let eos = rng.chance(5, 6);
    let s = place(vs, serial, gp, pg, eos, rng);
    let bytes = ogg::join(&s.pages);
    Scenario { bytes, corrupt_gp: s.corrupt, streams: vec![s], foreign: 0 }
}
pub fn random_single(rng: &mut Rng, pr: &Profile, gp: Gp) -> Scenario {
    let vs = gen::gen_stream(rng, pr);
    single(vs, gp, rng)
}
/// Streams whose first page of audio packets is full of packets that are bigger in the output,
/// as they have what is rare in the rest of the stream
pub fn growing(rng: &mut Rng) -> Scenario {
    loop {
        let mut pr = Profile::random(rng);
        (pr.extreme, pr.big, pr.max_channels, pr.max_packets) = (false, rng.chance(1, 2), 2, 0);
        let mut vs = gen::gen_stream(rng, &pr);
        let pools = gen::PacketGen::opposed(rng, &vs.setup).map(|g| {
            for _ in 0..rng.range(3, 12) {
                if let Some((b, ..)) = g.packet(rng, &vs.ident, &vs.setup, &vs.codes, false) {
                    if (100..4000).contains(&b.len()) {
                        gen::push_packet(&mut vs, b);
                    }
                }
            }
            std::mem::take(&mut vs.audio)
        });
        if pools.iter().any(|p| p.is_empty()) {
            continue;
        }
        let segs = |a: &gen::APacket| a.bytes.len() / 255 + 1;
        let (mut n, limit) = (0, 255 * rng.range(6, 16));
        while n < limit {
            let a = rng.pick(&pools[(n >= 255) as usize]);
            n += segs(a);
            vs.audio.push(a.clone());
        }
        let eos = rng.chance(9, 10);
        let s = place(vs, rng.u32(), Gp::Valid, Paging::Full, eos, rng);
        if s.pages.iter().filter(|p| p.segs.len() > 200).count() < 2 || s.offset == 0 {
            continue;
        }
        return Scenario { bytes: ogg::join(&s.pages), corrupt_gp: false, streams: vec![s], foreign: 0 };
    }
}
/// A stream whose packets have more than 65536 residue classifications
fn partitions(interleaved: bool, rng: &mut Rng) -> Option<gen::VStream> {
    use crate::setup::*;
    let channels = rng.range(33, 255) as u8;
    let kind = if interleaved { 2 } else { rng.below(2) as u16 };
    let bs = (rng.range(6, 13) as u8, 13);
    let size = if kind == 2 { 4096 * channels as u32 } else { 4096 };
    let psize = *rng.pick(&[1, 1, 1, 2]);
    let n = rng.range(1, 3) as u8;
    let dims = rng.range(if n == 1 { 5 } else { 1 }, 7) as u16;
    let entries = (n as usize).pow(dims as u32);
    let mut pr = Profile::basic();
    pr.extreme = false;
    let lens = if entries == 1 { vec![1] } else { gen::gen_lens(rng, entries, &pr) };
    let ident = Ident { channels, rate: 48000, bmax: 0, bnom: 0, bmin: 0, bs };
    let vq = Lookup { kind: 1, min: 0x6000_0001, delta: 0x6000_0001, bits: 4, seq: false, mult: vec![1, 2, 3] };
    let mut books = vec![[None; 8]; n as usize];
    // the last one is the only one with values
    books[n as usize - 1][rng.below(8)] = Some(1);
    let setup = Setup {
        books: vec![Book { dims, lens, lookup: None }, Book { dims: 1, lens: vec![2, 1, 2], lookup: Some(vq) }],
        floors: vec![Floor { parts: vec![], classes: vec![], mult: 4, range_bits: 0, x: vec![] }],
        residues: vec![Residue { kind, begin: rng.below(10) as u32, end: size - rng.below(10) as u32, psize, classifs: n, classbook: 0, books }],
        mappings: vec![Mapping { coupling: vec![], mux: vec![0; channels as usize], submaps: vec![(0, 0)] }],
        modes: vec![Mode { big: true, mapping: 0 }],
    };
    let codes = setup.codes()?;
    let style = SetupStyle::default();
    let comments = Comments { vendor: b"x".to_vec(), fields: vec![] };
    let mut vs = gen::VStream { ident_p: ident.write(), comment_p: comments.write(), setup_p: setup.write(channels, &style), comments, ident, setup, codes, audio: vec![], style, pcm: false };
    let pg = gen::PacketGen::new(rng, &vs.setup);
    for _ in 0..rng.range(1, 3) {
        let (b, ..) = pg.packet(rng, &vs.ident, &vs.setup, &vs.codes, false)?;
        gen::push_packet(&mut vs, b)?;
    }
    Some(vs)
}
pub const SCALES: u64 = 9;
/// Inputs whose counts exceed those of 8 or 16 bit counters, or positions 32 bits
pub fn scale(kind: u64, rng: &mut Rng, gp: Gp) -> Scenario {
    let repeat = |rng: &mut Rng, vs: &mut VStream, n: usize, max: usize| {
        vs.audio.retain(|a| a.bytes.len() <= max && !a.dec.discarded());
        let pool = vs.audio.clone();
        while !pool.is_empty() && vs.audio.len() < n {
            vs.audio.push(rng.pick(&pool).clone());
        }
        vs.audio.len() >= n
    };
    let small = |rng: &mut Rng| {
        let mut pr = Profile::random(rng);
        pr.extreme = false;
        pr.big = false;
        pr.truncated = false;
        pr.max_channels = 2;
        pr.max_packets = 40;
        pr
    };
    match kind % SCALES {
        // many packets, and pages
        0 | 1 => loop {
            let pr = small(rng);
            let mut vs = gen::gen_stream(rng, &pr);
            let n = if kind % SCALES == 0 { rng.range(65_530, 70_000) } else { *rng.pick(&[255, 256, 257, 258, 259, 260, 3000]) };
            if repeat(rng, &mut vs, n, if n > 60_000 { 16 } else { 60 }) {
                return single(vs, gp, rng);
            }
        },
        // positions of more than 32 bits
        2 => loop {
            let pr = small(rng);
            let mut vs = gen::gen_stream(rng, &pr);
            if vs.ident.bs.1 != 13 {
                continue;
            }
            vs.audio.retain(|a| a.dec.blocksize == Some(8192));
            if repeat(rng, &mut vs, 1_050_000, 4) {
                let eos = rng.chance(1, 2);
                let pg = *rng.pick(&[Paging::Full, Paging::Every(100)]);
                let s = place(vs, 5, gp, pg, eos, rng);
                let bytes = ogg::join(&s.pages);
                return Scenario { bytes, corrupt_gp: s.corrupt, streams: vec![s], foreign: 0 };
            }
        },
        // many streams
        3 => {
            let n = rng.range(256, 300);
            let vss = (0..n)
                .map(|_| {
                    let mut pr = small(rng);
                    pr.max_packets = 3;
                    pr.max_channels = 1;
                    gen::gen_stream(rng, &pr)
                })
                .collect();
            let f = rng.below(2);
            chain(vss, f, gp, rng)
        }
        // many or long comments
        4 => {
            let mut pr = small(rng);
            pr.max_packets = 3;
            let mut vs = gen::gen_stream(rng, &pr);
            match rng.below(4) {
                0 => vs.comments.fields = (0..rng.range(65_530, 70_000)).map(|i| i.to_string().into_bytes()).collect(),
                1 => vs.comments.vendor = vec![b'v'; rng.range(65_530, 70_000)],
                2 => vs.comments.fields.push(vec![b'f'; (1 << 24) + rng.below(3)]),
                _ => vs.comments.fields = (0..rng.range(255, 300)).map(|i| vec![b'x'; i]).collect(),
            }
            vs.comment_p = vs.comments.write();
            single(vs, gp, rng)
        }
        // a codebook of almost as many entries as possible
        5 => loop {
            let pr = small(rng);
            let mut vs = gen::gen_stream(rng, &pr);
            if vs.setup.books.len() == 256 {
                continue;
            }
            let n = *rng.pick(&[(1 << 23) - 1, 1 << 23, (1 << 23) + 5, (1 << 24) - 1]);
            let mut lens = vec![0; n];
            if rng.chance(1, 2) {
                lens[rng.below(n / 2)] = 1;
                lens[n / 2 + rng.below(n / 2)] = 1;
            }
            vs.setup.books.push(crate::setup::Book { dims: 1, lens, lookup: None });
            vs.setup_p = vs.setup.write(vs.ident.channels, &vs.style);
            vs.codes = vs.setup.codes().unwrap();
            return single(vs, gp, rng);
        },
        // many residue partitions
        7 => loop {
            if let Some(vs) = partitions(kind / SCALES % 2 == 0, rng) {
                return single(vs, gp, rng);
            }
        },
        // many codewords of the same length in an ordered list
        8 => {
            let mut freq = vec![1; *rng.pick(&[1 << 16, 3 << 15, 1 << 17])];
            if freq.len() == 3 << 15 {
                freq[..1 << 15].fill(2);
            }
            single(crate::c_stream::relabeled_stream(rng, &freq, usize::MAX, false), gp, rng)
        }
        // many used entries
        _ => {
            let n = rng.range(65_530, 70_000);
            let freq: Vec<u64> = (0..n).map(|_| if rng.chance(1, 4) { 0 } else { rng.range(1, 3) as u64 }).collect();
            single(crate::c_stream::skewed_stream(rng, &freq, usize::MAX), gp, rng)
        }
    }
}
/// Chained Vorbis streams, with foreign streams before, between, inside and after them
pub fn chain(vss: Vec<VStream>, foreign: usize, gp: Gp, rng: &mut Rng) -> Scenario {
    let n = vss.len();
    let serials = new_serials(rng, n + foreign);
    let mut groups: Vec<Vec<Page>> = vec![];
    let mut streams = vec![];
    for (i, vs) in vss.into_iter().enumerate() {
        let eos = i + 1 < n || rng.chance(2, 3);
        let pg = ogg::random_paging(rng);
        let s = place(vs, serials[i], gp, pg, eos, rng);
        groups.push(s.pages.clone());
        streams.push(s);
    }
    for k in 0..foreign {
        let eos = rng.chance(3, 4);
        let fp = ogg::foreign_stream(rng, serials[n + k], eos);
        if groups.is_empty() || rng.chance(1, 3) {
            let at = rng.below(groups.len() + 1);
            groups.insert(at, fp);
        } else {
            // multiplex with a group; its first page may come before or after
            let g = rng.below(groups.len());
            let a = std::mem::take(&mut groups[g]);
            let mut out = vec![];
            let (mut ia, mut ib) = (a.into_iter().peekable(), fp.into_iter().peekable());
            let only_bos_first = rng.chance(1, 2);
            if only_bos_first {
                if rng.chance(1, 2) {
                    out.push(ia.next().unwrap());
                    out.push(ib.next().unwrap());
                } else {
                    out.push(ib.next().unwrap());
                    out.push(ia.next().unwrap());
                }
            }
            let p = rng.range(1, 9);
            while ia.peek().is_some() || ib.peek().is_some() {
                let from_a = ib.peek().is_none() || (ia.peek().is_some() && rng.chance(p, 10));
                out.push(if from_a { ia.next().unwrap() } else { ib.next().unwrap() });
            }
            groups[g] = out;
        }
    }
    let pages: Vec<Page> = groups.into_iter().flatten().collect();
    let corrupt_gp = streams.iter().any(|s| s.corrupt);
    Scenario { bytes: ogg::join(&pages), streams, foreign, corrupt_gp }
}

// ------------------------------------------------------------------------------------- oracles

/// A decoded output stream
pub struct Out {
    pub ls: LStream,
    pub ident: Ident,
    pub setup: Setup,
    pub codes: Vec<huff::Code>,
}
/// The output, demultiplexed (leniently) in streams
pub fn out_streams(out: &[u8]) -> Result<Vec<LStream>, String> {
    Ok(ogg::packets_lax(&ogg::parse_pages(out).map_err(|e| format!("output is not Ogg: {e}"))?))
}
pub fn decode_headers(ls: &LStream) -> Result<Out, String> {
    if ls.packets.len() < 3 {
        return Err(format!("output stream with {} packets", ls.packets.len()));
    }
    let ident = Ident::parse_lax(&ls.packets[0].bytes).ok_or("unreadable output identification header")?;
    let setup = Setup::parse(&ls.packets[2].bytes, ident.channels, false).map_err(|e| format!("output setup header: {e}"))?;
    let codes = setup.codes().ok_or("overspecified codebook in the output")?;
    Ok(Out { ls: ls.clone(), ident, setup, codes })
}
pub fn fmt_trace(t: &[Sym]) -> String {
    let s: Vec<String> = t
        .iter()
        .take(6)
        .map(|s| match s {
            Sym::Raw(n, v) => format!("{n} bits={v}"),
            Sym::Entry(b, e) => format!("book {b} entry {e}"),
        })
        .collect();
    format!("[{}{}]", s.join(", "), if t.len() > 6 { ".." } else { "" })
}

/// C01. Counts the known finding `padding-decodes` when it is listed.
pub fn losslessness(vs: &VStream, o: &Out, known: bool, obs: &mut Obs) -> Result<(), String> {
    let kept = vs.kept();
    let outp = &o.ls.packets[3..];
    let what = |i: usize, s: String| format!("kept audio packet {i} of {}: {s}", kept.len());
    for (i, a) in kept.iter().enumerate() {
        let Some(p) = outp.get(i) else {
            return Err(format!("{} audio packets became {}", kept.len(), outp.len()));
        };
        let Some(d) = audio::decode(&o.ident, &o.setup, &o.codes, &p.bytes) else {
            return Err(what(i, "is not an audio packet in the output".into()));
        };
        obs.count("audio packets compared", 1);
        obs.count("symbols compared", a.dec.trace.len() as u64);
        if d.blocksize != a.dec.blocksize {
            return Err(what(i, format!("block size {:?} became {:?}", a.dec.blocksize, d.blocksize)));
        }
        if d.trace == a.dec.trace && std::mem::discriminant(&d.end) == std::mem::discriminant(&a.dec.end) {
            continue;
        }
        if a.dec.end != End::Complete && d.trace.starts_with(&a.dec.trace) {
            // Were the extra symbols (or an attempt to read one with an empty codebook) read only from less than eight zero padding bits?
            let bits = a.dec.trace.iter().fold(1usize, |n, s| {
                n + match *s {
                    Sym::Raw(w, _) => w as usize,
                    Sym::Entry(b, e) => o.codes[b as usize].lens[e as usize] as usize,
                }
            });
            let tail = p.bytes.len() * 8 - bits;
            let zero = (bits..p.bytes.len() * 8).all(|b| p.bytes[b / 8] >> (b % 8) & 1 == 0);
            if known && tail < 8 && zero {
                *obs.known.entry("padding-decodes".into()).or_insert(0) += 1;
                continue;
            }
        }
        let k = d.trace.iter().zip(&a.dec.trace).take_while(|(x, y)| x == y).count();
        return Err(what(
            i,
            format!(
                "decodes differently from element {k} on: {} elements {:?} {} became {} elements {:?} {}",
                a.dec.trace.len(), a.dec.end, fmt_trace(&a.dec.trace[k.min(a.dec.trace.len())..]),
                d.trace.len(), d.end, fmt_trace(&d.trace[k.min(d.trace.len())..])
            ),
        ));
    }
    if outp.len() != kept.len() {
        return Err(format!("{} audio packets became {}", kept.len(), outp.len()));
    }
    Ok(())
}

/// C02
pub fn headers(vs: &VStream, ls: &LStream) -> Result<(), String> {
    let p = &ls.packets;
    if p.len() < 3 {
        return Err(format!("output stream with {} packets", p.len()));
    }
    let id = Ident::parse_strict(&p[0].bytes)?;
    if id != vs.ident {
        return Err(format!("identification header {:?} became {id:?}", vs.ident));
    }
    let su = Setup::parse(&p[2].bytes, id.channels, true).map_err(|e| format!("output setup header is not conformant: {e}"))?;
    match vs.setup.semantic_diff(&su) {
        Some(d) => Err(format!("setup header changed: {}", d.chars().take(900).collect::<String>())),
        None => Ok(()),
    }
}

pub fn entry_frequencies(vs: &VStream) -> Vec<Vec<u64>> {
    let mut f: Vec<Vec<u64>> = vs.setup.books.iter().map(|b| vec![0; b.lens.len()]).collect();
    for a in &vs.audio {
        for s in &a.dec.trace {
            if let Sym::Entry(b, e) = *s {
                f[b as usize][e as usize] += 1;
            }
        }
    }
    f
}
/// C03
pub fn optimality(vs: &VStream, o: &Out, obs: &mut Obs) -> Result<(), String> {
    let freqs = entry_frequencies(vs);
    if o.setup.books.len() != freqs.len() {
        return Err("codebook count changed".into());
    }
    for (i, f) in freqs.iter().enumerate() {
        let l = &o.setup.books[i].lens;
        let e = |s: String| Err(format!("codebook {i}: {s}"));
        if l.len() != f.len() {
            return e(format!("{} entries became {}", f.len(), l.len()));
        }
        if let Some(k) = (0..f.len()).find(|k| (l[*k] != 0) != (f[*k] != 0)) {
            return e(format!("entry {k} has length {} and is used {} times", l[k], f[k]));
        }
        let used = f.iter().filter(|x| **x > 0).count();
        obs.count("codebooks checked", 1);
        obs.max("used entries in a codebook", used as u64);
        let kind = o.codes[i].kind;
        match (used, kind) {
            (0, TreeKind::Empty) => continue,
            (1, TreeKind::Single) => (),
            (_, TreeKind::Complete) if used > 1 => (),
            _ => return e(format!("{used} used entries and a {kind:?} tree")),
        }
        let cost = |l: &[u8]| l.iter().zip(f).map(|(a, b)| *a as u64 * b).sum::<u64>();
        let nz: Vec<u64> = f.iter().copied().filter(|x| *x > 0).collect();
        let best = if used == 1 { nz[0] } else { huff::optimal_cost(&nz) };
        let c = cost(l);
        obs.count("codeword bits checked", c);
        obs.max("codeword length", *l.iter().max().unwrap() as u64);
        if c > best {
            // Only the 32 bit limit may justify it
            let lim = huff::optimal_cost_limited(&nz, 32);
            if c > lim {
                return e(format!("codewords take {c} bits, {lim} are enough for usage counts {:?}", &nz[..nz.len().min(20)]));
            }
        }
        if c < best {
            return e(format!("cost {c} below the optimum {best}: oracle error"));
        }
        if c > cost(&vs.setup.books[i].lens) {
            return e(format!("codewords take {c} bits, {} before", cost(&vs.setup.books[i].lens)));
        }
    }
    let (_, bits) = Setup::parse_sized(&o.ls.packets[2].bytes, o.ident.channels, false)?;
    for (i, b) in o.setup.books.iter().enumerate() {
        let least = least_length_bits(&b.lens);
        obs.count("codeword length bits checked", bits[i] as u64);
        if b.lens.len() > 2 && least < 2 + 5 * b.lens.len() && b.lens.iter().all(|l| *l != 0) {
            obs.count("codebooks for the ordered format", 1);
        }
        if bits[i] > least {
            return Err(format!("codebook {i}: the list of codeword lengths takes {} bits, {least} are enough for {:?}", bits[i], &b.lens[..b.lens.len().min(20)]));
        }
    }
    for (i, p) in o.ls.packets[3..].iter().enumerate() {
        if let Some(d) = audio::decode(&o.ident, &o.setup, &o.codes, &p.bytes) {
            if d.end == End::Complete && d.bits.div_ceil(8) != p.bytes.len() {
                return Err(format!("audio packet {i} uses {} bits of {} bytes", d.bits, p.bytes.len()));
            }
        }
    }
    Ok(())
}

pub fn expected_comments(c: &Comments, cfg: &Cfg) -> Comments {
    comments_for(Some(&c.vendor), &c.fields, cfg)
}
pub fn comments_for(vendor: Option<&Vec<u8>>, fields: &[Vec<u8>], cfg: &Cfg) -> Comments {
    let full = optivorbis::OPTIVORBIS_VERSION_TAG.as_bytes();
    let short = optivorbis::OPTIVORBIS_SHORT_VERSION_TAG.as_bytes();
    let append = |tag: &[u8]| {
        let v = vendor.unwrap();
        let has = |t: &[u8]| v.ends_with(&[b"; ", t].concat());
        if has(full) || has(short) {
            v.clone()
        } else {
            [v, b"; ".as_slice(), tag].concat()
        }
    };
    let v = match (vendor, cfg.vendor) {
        (None, _) => vec![], // compared separately
        (Some(v), 0) => v.clone(),
        (_, 1) => full.to_vec(),
        (_, 2) => append(full),
        (_, 3) => append(short),
        _ => vec![],
    };
    Comments { vendor: v, fields: if cfg.fields == 0 { fields.to_vec() } else { vec![] } }
}
/// C04
pub fn comments(vs: &VStream, ls: &LStream, cfg: &Cfg) -> Result<(), String> {
    let p = ls.packets.get(1).ok_or("no comment header in the output")?;
    let c = Comments::parse_strict(&p.bytes)?;
    let (v, f) = Comments::parse_prefix(&vs.comment_p);
    let want = comments_for(v.as_ref(), &f, cfg);
    if v.is_none() {
        // Unreadable vendor string: any well-formed header whose vendor is empty or what the
        // action gives for an empty vendor
        let e = comments_for(Some(&vec![]), &[], cfg);
        if (c.vendor.is_empty() || c.vendor == e.vendor) && c.fields.is_empty() {
            return Ok(());
        }
    }
    if c != want {
        let s = |c: &Comments| format!("vendor {:?}, {} fields {:?}", String::from_utf8_lossy(&c.vendor), c.fields.len(), c.fields.iter().take(3).map(|f| String::from_utf8_lossy(f).chars().take(40).collect::<String>()).collect::<Vec<_>>());
        return Err(format!("vendor action {}, fields action {}: comment header is {}, expected {}", crate::run::VENDORS[cfg.vendor as usize], cfg.fields, s(&c), s(&want)));
    }
    Ok(())
}

/// C05: strict container rules and tight packing. `extra` pages are allowed per stream
pub fn container(out: &[u8], obs: &mut Obs, extra: &dyn Fn(usize) -> usize) -> Result<Vec<LStream>, String> {
    let v = ogg::parse_strict(out)?;
    for (k, s) in v.iter().enumerate() {
        let e = |m: String| Err(format!("output stream {k}: {m}"));
        if s.packets.len() < 3 {
            // Streams with headers only: nothing else to check
            if s.packets.is_empty() || s.packets[0].page != 0 || !s.packets[0].last_in_page {
                return e("identification header is not alone".into());
            }
            continue;
        }
        obs.count("pages checked", s.pages.len() as u64);
        obs.max("pages in a stream", s.pages.len() as u64);
        obs.count("continued pages", s.pages.iter().filter(|p| p.cont).count() as u64);
        if s.packets[0].page != 0 || !s.packets[0].last_in_page || s.packets[1].first_page != 1 {
            return e("the identification header is not alone on the first page".into());
        }
        let setup_page = s.packets[2].page;
        if !s.packets[2].last_in_page || s.packets.get(3).map_or(false, |p| p.first_page == setup_page) {
            return e("the setup header does not end its page".into());
        }
        if s.pages[setup_page].segs.last() == Some(&255) {
            return e("audio begins on the page of the setup header".into());
        }
        let hseg: usize = s.pages[1..=setup_page].iter().map(|p| p.segs.len()).sum();
        if setup_page > hseg.div_ceil(255) {
            return e(format!("comment and setup headers have {hseg} segments in {setup_page} pages"));
        }
        let apages = s.pages.len() - setup_page - 1;
        let aseg: usize = s.pages[setup_page + 1..].iter().map(|p| p.segs.len()).sum();
        if apages > aseg.div_ceil(255) + extra(k) {
            return e(format!("audio packets have {aseg} segments in {apages} pages"));
        }
    }
    Ok(v)
}

/// C06
pub fn granules(s: &SStream, ls: &LStream, ignore: bool, obs: &mut Obs) -> Result<(), String> {
    let m = s.gp_model(ignore);
    let n = m.calc.len();
    for (k, p) in ls.pages.iter().enumerate() {
        if !p.completes() && p.gp != -1 {
            return Err(format!("page {k}: no packet ends in it and its granule position is {}", p.gp));
        }
    }
    if ls.packets.len() != n + 3 {
        return Err(format!("{n} audio packets became {}", ls.packets.len() as i64 - 3));
    }
    for (i, gp) in ls.gps() {
        obs.count("granule positions checked", 1);
        if i < 3 {
            if gp != 0 {
                return Err(format!("header page with granule position {gp}"));
            }
            continue;
        }
        let i = i - 3;
        let ok: Vec<i64> = if i == n - 1 {
            obs.count(if m.last_kept_original { "last granule positions kept" } else { "last granule positions repaired" }, 1);
            vec![m.last]
        } else {
            vec![m.calc[i].wrapping_add(m.offset)]
        };
        if !ok.contains(&gp) {
            return Err(format!(
                "page of kept audio packet {i} of {n} has granule position {gp} instead of {ok:?} (start offset {}, first audio page ends with packet {:?}, ignored: {ignore})",
                m.offset, m.f
            ));
        }
    }
    Ok(())
}

/// The samples libvorbis plays for a stream of these block sizes and (packet, granule position,
/// end of stream) of each page: (samples dropped at the start, samples played).
pub fn presentation(bs: &[u16], gps: &[(usize, i64, bool)]) -> (i64, i64) {
    let c = calc(bs);
    let mut dropped = 0;
    let mut gpos: Option<i64> = None; // decoder's position after the previous packet
    let mut cutoff = 0;
    let mut prev = 0;
    let of: std::collections::HashMap<usize, &(usize, i64, bool)> = gps.iter().rev().map(|g| (g.0, g)).collect();
    for (i, _) in bs.iter().enumerate() {
        let step = c[i] - if i > 0 { c[prev] } else { 0 };
        prev = i;
        let page = of.get(&i).copied();
        match (gpos, page) {
            (None, Some(&(_, gp, eos))) => {
                let extra = c[i] - gp;
                if extra > 0 {
                    if eos {
                        cutoff = extra.min(c[i]);
                    } else {
                        dropped = extra.min(c[i]);
                    }
                }
                gpos = Some(gp);
            }
            (Some(g), page) => {
                let mut now = g + step;
                if let Some(&(_, gp, eos)) = page {
                    if eos && gp < now {
                        cutoff = (now - gp).min(step);
                    }
                    now = gp;
                }
                gpos = Some(now);
            }
            (None, None) => (),
        }
    }
    let total = c.last().copied().unwrap_or(0);
    (dropped, total - dropped - cutoff)
}
pub fn presentation_of(ls: &LStream, bs: &[u16], kept: &[usize]) -> (i64, i64) {
    // kept: packet numbers of kept audio packets
    let mut g = vec![];
    for (i, gp) in ls.gps() {
        // position of a page: the last kept packet that ends in it or before
        if let Some(k) = kept.partition_point(|x| *x <= i).checked_sub(1) {
            let p = &ls.pages[ls.packets[i].page];
            if g.last().is_some_and(|x: &(usize, i64, bool)| x.0 == k) {
                g.pop();
            }
            g.push((k, gp, p.eos || i + 1 == ls.packets.len()));
        }
    }
    presentation(bs, &g)
}
