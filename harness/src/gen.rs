//! Random valid Vorbis streams ("decoder as generator").
use crate::audio::{self, Gen, Phase, Sym};
use crate::huff::{random_lengths, Code};
use crate::rng::Rng;
use crate::setup::*;

#[derive(Clone, Debug)]
pub struct Profile {
    /// Restrict to what the lewton decoder handles, so that PCM can be compared
    pub pcm: bool,
    pub max_packets: usize,
    pub truncated: bool,
    pub padded: bool,
    pub empty: bool,
    /// Extreme but valid headers: 256 books, 64 floors, 255 channels...
    pub extreme: bool,
    /// Bigger residues, so that packets are larger
    pub big: bool,
    pub max_channels: usize,
    /// Many codebooks with over 65536 entries
    pub wide: bool,
}
impl Profile {
    pub fn basic() -> Self {
        Profile { pcm: true, max_packets: 12, truncated: false, padded: true, empty: true, extreme: false, big: false, max_channels: 8, wide: false }
    }
    pub fn random(rng: &mut Rng) -> Self {
        Profile {
            pcm: rng.chance(1, 2),
            max_packets: *rng.pick(&[0, 1, 2, 5, 12, 12, 30, 60]),
            truncated: rng.chance(1, 4),
            padded: rng.chance(1, 3),
            empty: rng.chance(1, 3),
            extreme: rng.chance(1, 10),
            big: rng.chance(1, 8),
            max_channels: *rng.pick(&[1, 2, 2, 2, 6, 8, 8, 40]),
            wide: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct APacket {
    pub bytes: Vec<u8>,
    pub dec: audio::Decoded,
}
#[derive(Clone, Debug)]
pub struct VStream {
    pub ident: Ident,
    pub comments: Comments,
    pub setup: Setup,
    pub codes: Vec<Code>,
    pub ident_p: Vec<u8>,
    pub comment_p: Vec<u8>,
    pub setup_p: Vec<u8>,
    pub audio: Vec<APacket>,
    pub style: SetupStyle,
    pub pcm: bool,
}

pub fn gen_ident(rng: &mut Rng, pr: &Profile) -> Ident {
    let bs0 = *rng.pick(&[6, 6, 6, 7, 8, 8, 9, 11, 13]);
    let bs1 = if rng.chance(1, 5) { bs0 } else { rng.range(bs0, 13.min(bs0 + 5)) };
    let channels = if pr.extreme && rng.chance(1, 4) { *rng.pick(&[16, 17, 128, 129, 254, 255]) } else { rng.range(1, pr.max_channels) };
    let br = |rng: &mut Rng| match rng.below(5) {
        0 => 0,
        1 => -1,
        2 => i32::MIN,
        3 => rng.u32() as i32,
        _ => 128000,
    };
    Ident {
        channels: channels as u8,
        rate: *rng.pick(&[1, 8000, 22050, 44100, 48000, 192000, u32::MAX, 0x0102_0304]),
        bmax: br(rng),
        bnom: br(rng),
        bmin: br(rng),
        bs: (bs0 as u8, bs1 as u8),
    }
}

pub fn gen_comments(rng: &mut Rng) -> Comments {
    let s = |rng: &mut Rng, max: usize| -> Vec<u8> {
        let n = rng.below(max + 1);
        match rng.below(4) {
            0 => rng.bytes(n),
            1 => vec![],
            2 => "áé\u{1F3B5}ü".repeat(n / 8).into_bytes(),
            _ => (0..n).map(|_| b'a' + rng.below(26) as u8).collect(),
        }
    };
    let vendor = match rng.below(8) {
        0 => b"Xiph.Org libVorbis I 20200704 (Reducing Environment)".to_vec(),
        1 => [s(rng, 20), b"; ".to_vec(), optivorbis::OPTIVORBIS_VERSION_TAG.as_bytes().to_vec()].concat(),
        2 => [s(rng, 20), b"; ".to_vec(), optivorbis::OPTIVORBIS_SHORT_VERSION_TAG.as_bytes().to_vec()].concat(),
        3 => [s(rng, 20), optivorbis::OPTIVORBIS_VERSION_TAG.as_bytes().to_vec()].concat(),
        4 => [s(rng, 20), b"; ".to_vec(), optivorbis::OPTIVORBIS_SHORT_VERSION_TAG.as_bytes().to_vec(), s(rng, 9)].concat(),
        5 => optivorbis::OPTIVORBIS_SHORT_VERSION_TAG.as_bytes().to_vec(),
        _ => s(rng, 300),
    };
    let n = *rng.pick(&[0, 0, 1, 2, 3, 8, 40]);
    let fields = (0..n)
        .map(|_| {
            let mut f = b"KEY=".to_vec();
            if rng.chance(1, 5) {
                f.clear();
            }
            let max = if rng.chance(1, 30) { 5000 } else { 60 };
            f.extend(s(rng, max));
            f
        })
        .collect();
    Comments { vendor, fields }
}

fn gen_f32(rng: &mut Rng, pcm: bool) -> u32 {
    if rng.chance(1, 6) {
        return *rng.pick(&[0, 0x6000_0000, 0x6280_0000]); // zero mantissas
    }
    if pcm {
        let m = if rng.chance(1, 2) { rng.u32() & 0x1f_ffff } else { rng.u32() & 0xff };
        let e = 788 - rng.range(0, 24) as u32;
        return (rng.u32() & 0x8000_0000) | e << 21 | m;
    }
    match rng.below(6) {
        0 => rng.u32(),
        1 => rng.u32() & 0x801f_ffff,                // exponent field zero
        2 => (rng.u32() & 0x81ff_ffff) % 0xc00_0000, // tiny exponents
        3 => rng.u32() | 0x7fe0_0000,
        4 => rng.u32() & 0xffe0_0001,
        _ => (rng.u32() & 0x801f_ffff) | 768 << 21,
    }
}

/// A codeword length list with `n` entries
pub fn gen_lens(rng: &mut Rng, n: usize, pr: &Profile) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    if n == 1 {
        return vec![1];
    }
    // How many are used
    let used = match rng.below(6) {
        0 => 1,
        1 => rng.range(1, n),
        2 => rng.range((n / 2).max(1), n),
        _ => n,
    };
    if used == 1 {
        let mut l = vec![0; n];
        l[rng.below(n)] = 1;
        return l;
    }
    let skew = *rng.pick(&[0, 0, 3, 8, 10]);
    let min_depth = (usize::BITS - (used - 1).leading_zeros()) as u8;
    let max = if pr.pcm && used > 100 { 24 } else { *rng.pick(&[32, 32, 24, 16]) }.max(min_depth);
    let mut l = random_lengths(rng, used, max, skew);
    // sorted or shuffled
    if rng.chance(1, 2) {
        l.sort_unstable();
    } else {
        for i in (1..l.len()).rev() {
            l.swap(i, rng.below(i + 1));
        }
    }
    if used < n {
        // scatter
        let mut out = vec![0u8; n];
        let mut idx: Vec<usize> = (0..n).collect();
        for i in 0..used {
            let j = rng.range(i, n - 1);
            idx.swap(i, j);
        }
        let mut chosen = idx[..used].to_vec();
        chosen.sort_unstable();
        for (k, i) in chosen.into_iter().enumerate() {
            out[i] = l[k];
        }
        return out;
    }
    l
}

fn gen_lookup(rng: &mut Rng, entries: usize, dims: u16, pr: &Profile) -> Lookup {
    let kind = if rng.chance(1, 2) { 1 } else { 2 };
    let bits = rng.range(1, 16) as u8;
    let n = if kind == 1 { lookup1_values(entries as u32, dims) as usize } else { entries * dims as usize };
    let mult = (0..n).map(|_| (rng.u32() & ((1 << bits) - 1)) as u16).collect();
    Lookup { kind, min: gen_f32(rng, pr.pcm), delta: gen_f32(rng, pr.pcm), bits, seq: rng.chance(1, 4), mult }
}

/// Usually a small number, sometimes the maximum, the one before it, or anything between
fn count(rng: &mut Rng, pr: &Profile, small: &[usize], max: usize) -> usize {
    let usual = !rng.chance(1, if pr.extreme { 4 } else { 80 });
    if usual {
        return *rng.pick(small);
    }
    match rng.below(4) {
        0 => max,
        1 => max - 1,
        2 => rng.range(1, max),
        _ => (1 << rng.below(max.ilog2() as usize + 1)) + rng.below(2),
    }
    .min(max)
}
/// Numbers of entries: mostly small, also some beyond 8 and 16 bits
fn entries(rng: &mut Rng, pr: &Profile, small: &[usize]) -> usize {
    if rng.chance(1, if pr.extreme { 10 } else { 40 }) {
        return *rng.pick(&[255, 256, 257, 300, 512, 700, 1024]);
    }
    if pr.wide && rng.chance(1, 6) {
        return *rng.pick(&[65_536, 65_600, 100_000, 1 << 18]);
    }
    if rng.chance(1, 1500) {
        return *rng.pick(&[4096, 5000, 65_535, 65_536, 65_537, 70_000]);
    }
    *rng.pick(small)
}

pub fn gen_setup(rng: &mut Rng, id: &Ident, pr: &Profile) -> Setup {
    let mut books: Vec<Book> = vec![];
    let ch = id.channels as usize;
    let half1 = 1usize << (id.bs.1 - 1);
    // --- scalar books for floors
    let nscalar = rng.range(1, 4);
    for _ in 0..nscalar {
        let n = entries(rng, pr, &[1, 2, 3, 8, 16, 33, 64]);
        books.push(Book {
            dims: *rng.pick(&[1, 1, 1, 2, 4]),
            lens: gen_lens(rng, n, pr),
            lookup: None,
        });
    }
    if rng.chance(1, 3) {
        // A vector book can be used in scalar context
        let l = gen_lens(rng, 16, pr);
        let dims = rng.range(1, 4) as u16;
        books.push(Book { dims, lookup: Some(gen_lookup(rng, 16, dims, pr)), lens: l });
    }
    let scalar_hi = books.len();
    // --- floors
    let nf = count(rng, pr, &[1, 2, 3], 64);
    let mut floors = vec![];
    for _ in 0..nf {
        let np = if pr.extreme || rng.chance(1, 40) { rng.below(32) } else { rng.below(7) };
        let most = if pr.extreme || rng.chance(1, 40) { 16 } else { 4 };
        let ncl = rng.range(1, most);
        let mut parts: Vec<u8> = (0..np).map(|_| rng.below(ncl) as u8).collect();
        let nclasses = parts.iter().map(|p| *p as usize + 1).max().unwrap_or(0);
        let classes: Vec<FClass> = (0..nclasses)
            .map(|_| {
                let sub = rng.below(4) as u8;
                FClass {
                    dim: rng.range(1, 8) as u8,
                    sub,
                    master: (sub > 0).then(|| rng.below(scalar_hi) as u8),
                    books: (0..1 << sub)
                        .map(|_| rng.chance(4, 5).then(|| rng.below(scalar_hi) as u8))
                        .collect(),
                }
            })
            .collect();
        // Limit the number of points
        let mut n = 0;
        let limit = 63;
        let mut keep = vec![];
        for p in parts.drain(..) {
            let d = classes[p as usize].dim as usize;
            if n + d <= limit {
                n += d;
                keep.push(p);
            }
        }
        let nclasses = keep.iter().map(|p| *p as usize + 1).max().unwrap_or(0);
        let classes = classes[..nclasses].to_vec();
        let need = usize::BITS - n.leading_zeros();
        let range_bits = if n == 0 { rng.below(16) as u8 } else { rng.range(need as usize, 15) as u8 };
        let mut x: Vec<u16> = vec![];
        while x.len() < n {
            let v = (rng.u32() & ((1 << range_bits) - 1)) as u16;
            if v != 0 && !x.contains(&v) {
                x.push(v);
            }
        }
        floors.push(Floor { parts: keep, classes, mult: rng.range(1, 4) as u8, range_bits, x });
    }
    // --- residues
    let nr = count(rng, pr, &[1, 2, 3], 64);
    let mut residues = vec![];
    for _ in 0..nr {
        let reuse = books.len() > 40;
        let psize = *rng.pick(&[1u32, 2, 4, 8, 16, 24, 32]);
        let psize = if rng.chance(1, 6) { rng.range(1, 70) as u32 } else { psize };
        let psize = if rng.chance(1, if pr.extreme { 8 } else { 60 }) { *rng.pick(&[100, 256, 1000, 4096, 65536, 1 << 24]) } else { psize };
        let classifs = *rng.pick(&[1usize, 2, 2, 3, 4, 4, 10]);
        let classifs = if rng.chance(1, if pr.extreme { 6 } else { 60 }) { *rng.pick(&[31, 63, 64, 5, 7, 8, 16, 17, 32, 33]) } else { classifs };
        let (classbook, classifs) = if reuse && rng.chance(4, 5) {
            // find a book with enough entries
            let b = rng.below(books.len());
            let mut c = classifs;
            while c > 1 && (c as u64).saturating_pow(books[b].dims as u32) > books[b].lens.len() as u64 {
                c -= 1;
            }
            if books[b].lens.is_empty() || books[b].dims == 0 || books[b].lens.iter().all(|l| *l == 0) {
                (0, 1)
            } else {
                (b, c)
            }
        } else {
            let mut dims = if pr.wide && classifs > 1 { 18 } else { rng.range(1, 4) };
            let limit = if pr.wide || rng.chance(1, if pr.extreme { 300 } else { 1000 }) { 300_000 } else { 1100 };
            while (classifs as u64).saturating_pow(dims as u32) > limit {
                dims -= 1;
            }
            let extra = if rng.chance(1, 3) { rng.below(5) } else { 0 };
            let n = classifs.pow(dims as u32) + extra;
            books.push(Book { dims: dims as u16, lens: gen_lens(rng, n, pr), lookup: None });
            (books.len() - 1, classifs)
        };
        let mut bks = vec![];
        for _ in 0..classifs {
            let mut a = [None; 8];
            let stages = *rng.pick(&[0usize, 1, 1, 1, 2, 3, 8]);
            for _ in 0..stages {
                let st = if rng.chance(2, 3) { rng.below(3) } else { rng.below(8) };
                // pick an existing compatible vector book, or make one
                let cand: Vec<usize> = (0..books.len())
                    .filter(|i| {
                        let b = &books[*i];
                        b.lookup.is_some() && b.dims > 0 && psize % b.dims as u32 == 0 && b.lens.iter().any(|l| *l != 0)
                    })
                    .collect();
                let bk = if !cand.is_empty() && (rng.chance(1, 2) || books.len() > 100) {
                    *rng.pick(&cand)
                } else if books.len() < 200 {
                    let divs: Vec<u16> = if rng.chance(1, 6) {
                        (1..=psize.min(65535) as u16).filter(|d| psize % *d as u32 == 0).collect()
                    } else {
                        [1u16, 2, 3, 4, 8].into_iter().filter(|d| psize % *d as u32 == 0).collect()
                    };
                    let dims = *rng.pick(&divs);
                    let n = entries(rng, pr, &[1, 2, 3, 9, 16, 25, 81, 100, 256]);
                    let n = if dims > 300 { n.min(16) } else { n };
                    let lens = gen_lens(rng, n, pr);
                    books.push(Book { dims, lookup: Some(gen_lookup(rng, n, dims, pr)), lens });
                    books.len() - 1
                } else {
                    continue;
                };
                if bk < 256 {
                    a[st] = Some(bk as u8);
                }
            }
            bks.push(a);
        }
        let kind = rng.below(3) as u16;
        let maxn = if kind == 2 { half1 * ch } else { half1 };
        let cap = if pr.big { 4000 } else { 300 };
        // channels multiply type 0 and 1 residues
        let cap = if kind == 2 { cap } else { (cap / ch).max(16) };
        let len = match rng.below(5) {
            0 => rng.below(cap + 1),
            1 if psize <= 32 => (psize as usize) * rng.range(1, 8),
            _ => rng.range(1, maxn.min(cap)),
        };
        let begin = if rng.chance(1, 2) { 0 } else { rng.below(maxn + 8) };
        let end = if rng.chance(1, 12) && maxn <= cap { 0xff_ffff } else { begin + len };
        residues.push(Residue {
            kind,
            begin: begin as u32,
            end: (end as u32).min(0xff_ffff),
            psize,
            classifs: classifs as u8,
            classbook: classbook as u8,
            books: bks,
        });
    }
    // --- more books, not referenced by anything
    let extra = if pr.extreme && rng.chance(1, 3) { 256 - books.len().min(256) } else { rng.below(3) };
    for _ in 0..extra {
        let n = if pr.pcm {
            *rng.pick(&[1, 2, 7, 300])
        } else {
            *rng.pick(&[0, 1, 1, 2, 5, 300, if pr.extreme { 3000 } else { 40 }])
        };
        let mut lens = gen_lens(rng, n, pr);
        if !pr.pcm && rng.chance(1, 5) {
            lens.iter_mut().for_each(|l| *l = 0); // all unused
        }
        let dims = if pr.pcm { rng.range(1, 9) as u16 } else { *rng.pick(&[0, 1, 2, 5, 100, 65535]) };
        // Zero dimensions imply an unbounded implicit table
        let lookup = (dims != 0 && rng.chance(1, 2) && (n * dims as usize) < 100_000).then(|| gen_lookup(rng, n, dims, pr));
        books.push(Book { dims, lens, lookup });
    }
    if !pr.extreme && rng.chance(1, 12) {
        let n = rng.range(120, 256);
        while books.len() < n {
            books.push(Book { dims: 1, lens: vec![1], lookup: None });
        }
    }
    if rng.chance(1, 2) {
        shuffle_books(rng, &mut books, &mut floors, &mut residues);
    }
    // --- mappings
    let nm = count(rng, pr, &[1, 2, 3], 64);
    let mut mappings = vec![];
    for _ in 0..nm {
        let most = if rng.chance(1, 6) { 16 } else { 16.min(ch + 1) };
        let ns = if rng.chance(1, 3) { rng.range(1, most) } else { 1 };
        let mut coupling = vec![];
        if ch > 1 && rng.chance(2, 3) {
            let n = if pr.extreme && rng.chance(1, 4) { 256 } else { rng.range(1, ch) };
            for _ in 0..n {
                let a = rng.below(ch);
                let b = (a + rng.range(1, ch - 1)) % ch;
                coupling.push((a as u8, b as u8));
            }
        }
        mappings.push(Mapping {
            coupling,
            mux: (0..ch).map(|_| if ns > 1 { rng.below(ns) as u8 } else { 0 }).collect(),
            submaps: (0..ns).map(|_| (rng.below(nf) as u8, rng.below(nr) as u8)).collect(),
        });
    }
    let nmodes = if pr.extreme { *rng.pick(&[64, 63, 33, 32, 17, 16, 9, 8, 3]) } else { count(rng, pr, &[1, 2, 2, 3, 4, 5], 64) };
    let modes = (0..nmodes).map(|_| Mode { big: rng.chance(1, 2), mapping: rng.below(nm) as u8 }).collect();
    Setup { books, floors, residues, mappings, modes }
}

/// Gives codebooks other numbers, so that references to them can have any value
fn shuffle_books(rng: &mut Rng, books: &mut Vec<Book>, floors: &mut [Floor], residues: &mut [Residue]) {
    if books.len() > 256 {
        return;
    }
    let mut to: Vec<usize> = (0..books.len()).collect();
    for i in (1..to.len()).rev() {
        to.swap(i, rng.below(i + 1));
    }
    // Subclass books are stored plus one, in eight bits
    if let Some(i) = to.iter().position(|t| *t == 255) {
        let free = (0..to.len()).find(|b| !floors.iter().flat_map(|f| &f.classes).flat_map(|c| &c.books).any(|x| *x == Some(*b as u8)));
        match free {
            Some(j) => to.swap(i, j),
            None => return,
        }
    }
    let mut v: Vec<Option<Book>> = books.iter().map(|_| None).collect();
    books.drain(..).zip(&to).for_each(|(b, t)| v[*t] = Some(b));
    *books = v.into_iter().flatten().collect();
    let map = |b: &mut u8| *b = to[*b as usize] as u8;
    for c in floors.iter_mut().flat_map(|f| &mut f.classes) {
        c.master.iter_mut().for_each(map);
        c.books.iter_mut().flatten().for_each(map);
    }
    for r in residues {
        map(&mut r.classbook);
        r.books.iter_mut().flatten().flatten().for_each(map);
    }
}

pub struct PacketGen {
    order: Vec<Vec<u32>>,
    skew: Vec<f64>,
    energy: usize,
}
impl PacketGen {
    pub fn new(rng: &mut Rng, su: &Setup) -> Self {
        let order = su
            .books
            .iter()
            .map(|b| {
                let mut o: Vec<u32> = (0..b.lens.len() as u32).filter(|i| b.lens[*i as usize] != 0).collect();
                match rng.below(4) {
                    0 => o.reverse(),
                    1 => (1..o.len()).rev().for_each(|i| o.swap(i, rng.below(i + 1))),
                    _ => (),
                }
                // sometimes some entries are never used
                if rng.chance(1, 3) && !o.is_empty() {
                    let k = rng.range(1, o.len());
                    o.truncate(k);
                }
                o
            })
            .collect();
        let skew = su.books.iter().map(|_| *rng.pick(&[1.0, 1.0, 2.0, 4.0, 12.0])).collect();
        PacketGen { order, skew, energy: *rng.pick(&[0, 30, 80, 95, 100]) }
    }
    /// Two generators that prefer the shortest and the longest codewords
    pub fn opposed(rng: &mut Rng, su: &Setup) -> [Self; 2] {
        let order = |sign: i32| {
            let of = |b: &Book| {
                let mut o: Vec<u32> = (0..b.lens.len() as u32).filter(|i| b.lens[*i as usize] != 0).collect();
                o.sort_by_key(|i| b.lens[*i as usize] as i32 * sign);
                o
            };
            su.books.iter().map(of).collect()
        };
        let skew = vec![*rng.pick(&[4.0, 12.0, 30.0]); su.books.len()];
        let energy = *rng.pick(&[60, 95, 100]);
        [1, -1].map(|sign| PacketGen { order: order(sign), skew: skew.clone(), energy })
    }
    /// A complete audio packet
    pub fn packet(&self, rng: &mut Rng, id: &Ident, su: &Setup, codes: &[Code], any_single: bool) -> Option<(Vec<u8>, Vec<Sym>, usize)> {
        let mut g = Gen {
            rng,
            w: crate::bits::BitW::new(),
            codes,
            order: &self.order,
            skew: &self.skew,
            energy_pct: self.energy,
            any_single_bit: any_single,
            trace: vec![],
        };
        g.w.bits(0, 1);
        let w = audio::walk(id, su, &mut g);
        if w.end != audio::End::Complete {
            return None;
        }
        Some((g.w.d.clone(), g.trace.clone(), g.w.n))
    }
}

/// Generates a stream. `feature` counts, for evidence, are derived from the stream by callers.
pub fn gen_stream(rng: &mut Rng, pr: &Profile) -> VStream {
    loop {
        if let Some(s) = try_gen_stream(rng, pr) {
            return s;
        }
    }
}

fn try_gen_stream(rng: &mut Rng, pr: &Profile) -> Option<VStream> {
    let ident = gen_ident(rng, pr);
    let setup = gen_setup(rng, &ident, pr);
    if setup.books.len() > 256 {
        return None;
    }
    let codes = setup.codes()?;
    let comments = gen_comments(rng);
    let style = SetupStyle { seed: rng.next(), vary: rng.chance(1, 2), ..Default::default() };
    let setup_p = setup.write(ident.channels, &style);
    let mut s = VStream {
        ident_p: ident.write(),
        comment_p: comments.write(),
        setup_p,
        codes,
        ident,
        comments,
        setup,
        audio: vec![],
        style,
        pcm: pr.pcm,
    };
    let n = if pr.max_packets == 0 { 0 } else { rng.range(1, pr.max_packets) };
    add_packets(rng, &mut s, pr, n)?;
    Some(s)
}

pub fn add_packets(rng: &mut Rng, s: &mut VStream, pr: &Profile, n: usize) -> Option<()> {
    let pg = PacketGen::new(rng, &s.setup);
    // Whether encoders' usual zero bit or any bit is used for single-entry books
    let any = rng.chance(1, 3);
    for _ in 0..n {
        if pr.empty && rng.chance(1, 10) {
            let p: Vec<u8> = if ilog_modes(&s.setup) >= 7 && rng.chance(1, 2) { vec![0] } else { vec![] };
            push_packet(s, p)?;
            continue;
        }
        let (mut b, trace, _) = pg.packet(rng, &s.ident, &s.setup, &s.codes, any)?;
        if b.len() > 300_000 {
            return None;
        }
        let mut cut = false;
        if pr.truncated && rng.chance(1, 3) && b.len() > 1 {
            let n = rng.range(1, b.len() - 1);
            b.truncate(n);
            cut = true;
        } else if pr.padded && rng.chance(1, 4) {
            let n = if rng.chance(1, 10) { 300 } else { rng.range(1, 9) };
            let fill = if rng.chance(1, 2) { rng.next() as u8 } else { 0 };
            b.extend(std::iter::repeat(fill).take(n));
        }
        push_packet(s, b)?;
        let d = &s.audio.last().unwrap().dec;
        if !cut {
            // self-check of the model: what was generated decodes back
            assert!(d.end == audio::End::Complete && d.trace == trace, "generator and decoder model disagree");
        }
        let _ = Phase::Header;
    }
    Some(())
}
fn ilog_modes(su: &Setup) -> u32 {
    // bits needed before a packet is not discarded, minus one
    crate::bits::ilog(su.modes.len() as u64 - 1) + 1
}
pub fn push_packet(s: &mut VStream, b: Vec<u8>) -> Option<()> {
    let dec = audio::decode(&s.ident, &s.setup, &s.codes, &b)?;
    if matches!(dec.end, audio::End::Bad(_)) {
        return None;
    }
    s.audio.push(APacket { bytes: b, dec });
    Some(())
}
impl VStream {
    pub fn packets(&self) -> Vec<Vec<u8>> {
        let mut v = vec![self.ident_p.clone(), self.comment_p.clone(), self.setup_p.clone()];
        v.extend(self.audio.iter().map(|a| a.bytes.clone()));
        v
    }
    /// Audio packets a decoder would not discard
    pub fn kept(&self) -> Vec<&APacket> {
        self.audio.iter().filter(|a| !a.dec.discarded()).collect()
    }
    pub fn feature_key(&self) -> String {
        let mut phases = [0usize; 4];
        for a in &self.audio {
            match a.dec.end {
                audio::End::Complete => phases[0] += 1,
                audio::End::Eop(Phase::Header) => phases[1] += 1,
                audio::End::Eop(Phase::Floor) => phases[2] += 1,
                _ => phases[3] += 1,
            }
        }
        format!(
            "ch{} bs{:?} {} audio packets complete/discarded/cut-in-floor/cut-in-residue {:?}",
            self.ident.channels,
            self.ident.bs,
            self.setup.describe(),
            phases
        )
    }
}
