//! Independent symbol-level Vorbis audio packet decoder, written from sections 4.3, 7.2 and 8.6 of
//! the specification. The same walk reads packets and generates them.
use crate::bits::{ilog, BitR, BitW};
use crate::huff::{Code, Dec};
use crate::rng::Rng;
use crate::setup::{Ident, Setup};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    Header,
    Floor,
    Residue,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Eop,
    Bad(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Complete,
    Eop(Phase),
    Bad(String),
}
/// One decoded element. Raw field: width and value. Codebook entry: book and entry.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sym {
    Raw(u8, u32),
    Entry(u16, u32),
}
pub trait Src {
    fn bits(&mut self, n: u32) -> Result<u32, Stop>;
    fn mode(&mut self, n: u32, modes: usize) -> Result<u32, Stop>;
    fn energy(&mut self) -> Result<u32, Stop>;
    fn entry(&mut self, book: u8) -> Result<u32, Stop>;
}
pub struct Reader<'a> {
    pub r: BitR<'a>,
    pub codes: &'a [Code],
    pub trace: Vec<Sym>,
}
impl Src for Reader<'_> {
    fn bits(&mut self, n: u32) -> Result<u32, Stop> {
        let v = self.r.bits(n).ok_or(Stop::Eop)?;
        self.trace.push(Sym::Raw(n as u8, v));
        Ok(v)
    }
    fn mode(&mut self, n: u32, modes: usize) -> Result<u32, Stop> {
        let v = self.bits(n)?;
        if v as usize >= modes {
            return Err(Stop::Bad(format!("undefined mode {v}")));
        }
        Ok(v)
    }
    fn energy(&mut self) -> Result<u32, Stop> {
        self.bits(1)
    }
    fn entry(&mut self, book: u8) -> Result<u32, Stop> {
        match self.codes[book as usize].decode(&mut self.r) {
            Dec::Entry(e) => {
                self.trace.push(Sym::Entry(book as u16, e));
                Ok(e)
            }
            Dec::Eop => Err(Stop::Eop),
            Dec::Unassigned => Err(Stop::Bad(format!("unassigned codeword in book {book}"))),
        }
    }
}
pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub w: BitW,
    pub codes: &'a [Code],
    /// Used entries of each book, most probable first
    pub order: &'a [Vec<u32>],
    pub skew: &'a [f64],
    pub energy_pct: usize,
    /// Some(book): emit any single bit for a single-entry book
    pub any_single_bit: bool,
    pub trace: Vec<Sym>,
}
impl Src for Gen<'_> {
    fn bits(&mut self, n: u32) -> Result<u32, Stop> {
        let v = if n == 32 { self.rng.u32() } else { self.rng.u32() & ((1 << n) - 1) };
        self.w.bits(v, n);
        self.trace.push(Sym::Raw(n as u8, v));
        Ok(v)
    }
    fn mode(&mut self, n: u32, modes: usize) -> Result<u32, Stop> {
        let v = self.rng.below(modes) as u32;
        self.w.bits(v, n);
        self.trace.push(Sym::Raw(n as u8, v));
        Ok(v)
    }
    fn energy(&mut self) -> Result<u32, Stop> {
        let v = self.rng.chance(self.energy_pct, 100) as u32;
        self.w.bits(v, 1);
        self.trace.push(Sym::Raw(1, v));
        Ok(v)
    }
    fn entry(&mut self, book: u8) -> Result<u32, Stop> {
        let o = &self.order[book as usize];
        if o.is_empty() {
            return Err(Stop::Bad("empty book".into()));
        }
        let u = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
        let i = ((o.len() as f64) * u.powf(self.skew[book as usize])) as usize;
        let e = o[i.min(o.len() - 1)];
        let c = &self.codes[book as usize];
        if c.kind == crate::huff::TreeKind::Single && self.any_single_bit {
            let b = self.rng.u32() & 1;
            self.w.bits(b, 1);
        } else {
            self.w.code_msb(c.words[e as usize], c.lens[e as usize] as u32);
        }
        self.trace.push(Sym::Entry(book as u16, e));
        Ok(e)
    }
}

pub struct Walk {
    pub mode: Option<u8>,
    pub blocksize: Option<u16>,
    pub end: End,
}

pub const USED: [&str; 9] = [
    "mode used",
    "mapping used",
    "channel with a floor",
    "floor used",
    "submap with a residue",
    "residue used",
    "classification used",
    "residue pass used",
    "coupling step that enables a channel",
];
thread_local! {
    /// The highest index of each kind that packets used, plus one, since it was last taken
    static USE: std::cell::Cell<[u16; USED.len()]> = const { std::cell::Cell::new([0; USED.len()]) };
}
pub fn take_used() -> [u16; USED.len()] {
    USE.take()
}

/// Decodes an audio packet after its type bit
pub fn walk<S: Src>(id: &Ident, su: &Setup, s: &mut S) -> Walk {
    let mut out = Walk { mode: None, blocksize: None, end: End::Complete };
    let mut phase = Phase::Header;
    let mut used = USE.get();
    let mut see = |k: usize, v: usize| used[k] = used[k].max(v as u16 + 1);
    let r = (|| -> Result<(), Stop> {
        let mode = s.mode(ilog(su.modes.len() as u64 - 1), su.modes.len())?;
        let m = &su.modes[mode as usize];
        let bs = if m.big { id.bs.1 } else { id.bs.0 };
        if m.big {
            s.bits(1)?;
            s.bits(1)?;
        }
        out.mode = Some(mode as u8);
        out.blocksize = Some(1 << bs);
        see(0, mode as usize);
        see(1, m.mapping as usize);
        phase = Phase::Floor;
        let map = &su.mappings[m.mapping as usize];
        let mut unused = vec![];
        for (ch, &sm) in map.mux.iter().enumerate() {
            let fl = &su.floors[map.submaps[sm as usize].0 as usize];
            let on = s.energy()? == 1;
            unused.push(!on);
            if !on {
                continue;
            }
            see(2, ch);
            see(3, map.submaps[sm as usize].0 as usize);
            let w = [8, 7, 7, 6][fl.mult as usize - 1];
            s.bits(w)?;
            s.bits(w)?;
            for &p in &fl.parts {
                let c = &fl.classes[p as usize];
                let mut v = match c.master {
                    Some(b) => s.entry(b)?,
                    None => 0,
                };
                for _ in 0..c.dim {
                    let k = v & ((1 << c.sub) - 1);
                    v >>= c.sub;
                    if let Some(b) = c.books[k as usize] {
                        s.entry(b)?;
                    }
                }
            }
        }
        for (k, &(a, b)) in map.coupling.iter().enumerate() {
            if !unused[a as usize] || !unused[b as usize] {
                if unused[a as usize] || unused[b as usize] {
                    see(8, k);
                }
                unused[a as usize] = false;
                unused[b as usize] = false;
            }
        }
        phase = Phase::Residue;
        for (i, &(_, res)) in map.submaps.iter().enumerate() {
            let chans: Vec<bool> = (0..map.mux.len())
                .filter(|c| map.mux[*c] as usize == i)
                .map(|c| unused[c])
                .collect();
            let rs = &su.residues[res as usize];
            if chans.iter().all(|u| *u) {
                continue;
            }
            let half = 1u64 << (bs - 1);
            // The channels (vectors) to decode
            let (vectors, size) = if rs.kind == 2 {
                (1, half * chans.len() as u64)
            } else {
                (chans.iter().filter(|u| !**u).count(), half)
            };
            let begin = (rs.begin as u64).min(size);
            let end = (rs.end as u64).min(size);
            if end <= begin {
                continue;
            }
            let parts = ((end - begin) / rs.psize as u64) as usize;
            see(4, i);
            see(5, res as usize);
            let cb = &su.books[rs.classbook as usize];
            let cpw = cb.dims as usize;
            let mut cls = vec![vec![0u32; parts + cpw]; vectors];
            for pass in 0..8 {
                let mut p = 0;
                while p < parts {
                    if pass == 0 {
                        for c in cls.iter_mut() {
                            let mut t = s.entry(rs.classbook)?;
                            for k in (0..cpw).rev() {
                                c[p + k] = t % rs.classifs as u32;
                                t /= rs.classifs as u32;
                            }
                        }
                    }
                    for _ in 0..cpw {
                        if p >= parts {
                            break;
                        }
                        for c in cls.iter() {
                            if let Some(b) = rs.books[c[p] as usize][pass] {
                                see(6, c[p] as usize);
                                see(7, pass);
                                let vb = &su.books[b as usize];
                                if vb.lookup.is_none() {
                                    return Err(Stop::Bad(format!("scalar book {b} in residue")));
                                }
                                if vb.dims == 0 || rs.psize % vb.dims as u32 != 0 {
                                    return Err(Stop::Bad(format!("book {b} dimensions in residue")));
                                }
                                for _ in 0..rs.psize / vb.dims as u32 {
                                    s.entry(b)?;
                                }
                            }
                        }
                        p += 1;
                    }
                    if cpw == 0 {
                        // Zero-dimension classbook: no progress is possible
                        if pass > 0 {
                            break;
                        }
                    }
                }
            }
        }
        Ok(())
    })();
    USE.set(used);
    out.end = match r {
        Ok(()) => End::Complete,
        Err(Stop::Eop) => End::Eop(phase),
        Err(Stop::Bad(b)) => End::Bad(b),
    };
    out
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub mode: Option<u8>,
    pub blocksize: Option<u16>,
    pub end: End,
    pub trace: Vec<Sym>,
    /// Bits consumed by complete elements, with the packet type bit
    pub bits: usize,
    pub total_bits: usize,
}
impl Decoded {
    pub fn discarded(&self) -> bool {
        self.end == End::Eop(Phase::Header)
    }
}
/// Decodes a whole audio packet. None: it is not an audio packet
pub fn decode(id: &Ident, su: &Setup, codes: &[Code], p: &[u8]) -> Option<Decoded> {
    let mut r = Reader { r: BitR::new(p), codes, trace: vec![] };
    let mut d = Decoded { mode: None, blocksize: None, end: End::Eop(Phase::Header), trace: vec![], bits: 0, total_bits: p.len() * 8 };
    match r.r.bit() {
        None => return Some(d),
        Some(1) => return None,
        _ => (),
    }
    let w = walk(id, su, &mut r);
    d.mode = w.mode;
    d.blocksize = w.blocksize;
    d.end = w.end;
    d.bits = r.trace.iter().fold(1, |a, s| {
        a + match *s {
            Sym::Raw(n, _) => n as usize,
            Sym::Entry(b, e) => codes[b as usize].lens[e as usize] as usize,
        }
    });
    d.trace = r.trace;
    Some(d)
}
pub fn trace_hash(t: &[Sym]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for s in t {
        let v = match *s {
            Sym::Raw(n, v) => (n as u64) << 40 | v as u64,
            Sym::Entry(b, e) => 1 << 62 | (b as u64) << 32 | e as u64,
        };
        h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    }
    h
}
