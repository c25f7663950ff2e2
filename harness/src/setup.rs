//! Independent model of the Vorbis identification, comment and setup headers: data structures,
//! a strict parser (every deviation from the specification is reported) and a writer.
use crate::bits::{ilog, BitR, BitW};
use crate::huff::{Code, TreeKind};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Ident {
    pub channels: u8,
    pub rate: u32,
    pub bmax: i32,
    pub bnom: i32,
    pub bmin: i32,
    /// log2 of block sizes
    pub bs: (u8, u8),
}
impl Ident {
    pub fn write(&self) -> Vec<u8> {
        let mut v = b"\x01vorbis\0\0\0\0".to_vec();
        v.push(self.channels);
        v.extend(self.rate.to_le_bytes());
        v.extend(self.bmax.to_le_bytes());
        v.extend(self.bnom.to_le_bytes());
        v.extend(self.bmin.to_le_bytes());
        v.push(self.bs.0 | self.bs.1 << 4);
        v.push(1);
        v
    }
    pub fn parse_strict(p: &[u8]) -> Result<Ident, String> {
        if p.len() != 30 {
            return Err(format!("identification header of {} bytes", p.len()));
        }
        if &p[..11] != b"\x01vorbis\0\0\0\0" {
            return Err("bad identification header prelude".into());
        }
        if p[29] != 1 {
            return Err(format!("identification framing byte is {}", p[29]));
        }
        Self::parse_lax(p).ok_or_else(|| "invalid identification header".into())
    }
    /// Ignores trailing data and the framing bit
    pub fn parse_lax(p: &[u8]) -> Option<Ident> {
        if p.len() < 30 || &p[..11] != b"\x01vorbis\0\0\0\0" {
            return None;
        }
        let i = |a: usize| i32::from_le_bytes(p[a..a + 4].try_into().unwrap());
        let id = Ident {
            channels: p[11],
            rate: i(12) as u32,
            bmax: i(16),
            bnom: i(20),
            bmin: i(24),
            bs: (p[28] & 15, p[28] >> 4),
        };
        (id.channels > 0
            && id.rate > 0
            && (6..=13).contains(&id.bs.0)
            && (6..=13).contains(&id.bs.1)
            && id.bs.0 <= id.bs.1)
            .then_some(id)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Lookup {
    pub kind: u8, // 1 or 2
    pub min: u32,
    pub delta: u32,
    pub bits: u8,
    pub seq: bool,
    pub mult: Vec<u16>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Book {
    pub dims: u16,
    pub lens: Vec<u8>, // 0: unused
    pub lookup: Option<Lookup>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FClass {
    pub dim: u8,
    pub sub: u8,
    pub master: Option<u8>,
    pub books: Vec<Option<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Floor {
    pub parts: Vec<u8>,
    pub classes: Vec<FClass>,
    pub mult: u8,
    pub range_bits: u8,
    pub x: Vec<u16>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Residue {
    pub kind: u16,
    pub begin: u32,
    pub end: u32,
    pub psize: u32,
    pub classifs: u8,
    pub classbook: u8,
    pub books: Vec<[Option<u8>; 8]>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mapping {
    pub coupling: Vec<(u8, u8)>,
    pub mux: Vec<u8>,
    pub submaps: Vec<(u8, u8)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Mode {
    pub big: bool,
    pub mapping: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Setup {
    pub books: Vec<Book>,
    pub floors: Vec<Floor>,
    pub residues: Vec<Residue>,
    pub mappings: Vec<Mapping>,
    pub modes: Vec<Mode>,
}

/// How to write a setup header: which of the equivalent encodings, and which repairable defects
#[derive(Clone, Debug, Default)]
pub struct SetupStyle {
    pub seed: u64,
    pub bad_sync: bool,
    pub bad_tdt: bool,
    pub bad_window: bool,
    pub bad_transform: bool,
    pub bad_reserved: bool,
    pub bad_framing: bool,
    pub trailing: usize,
    /// Placeholder counts and values the specification allows
    pub vary: bool,
    /// Not repairable: a floor and its type
    pub floor_type: Option<(usize, u16)>,
    pub mapping_type: Option<(usize, u16)>,
    /// A codebook, and (value, width) of what is written instead of its codeword lengths
    pub raw_lens: Option<(usize, Vec<(u32, u32)>)>,
}

/// Largest v such that v^dims <= entries
pub fn lookup1_values(entries: u32, dims: u16) -> u32 {
    if dims == 0 {
        return u32::MAX;
    }
    let (mut lo, mut hi) = (0u64, entries as u64);
    let ok = |v: u64| {
        let mut p = 1u128;
        if v <= 1 {
            return v <= entries as u64;
        }
        for _ in 0..dims {
            p *= v as u128;
            if p > entries as u128 {
                return false;
            }
        }
        true
    };
    while lo < hi {
        let mid = (lo + hi + 1) / 2;
        if ok(mid) {
            lo = mid
        } else {
            hi = mid - 1
        }
    }
    lo as u32
}

/// Exact value of a Vorbis float word, as (sign, mantissa with no trailing zero bits, exponent)
pub fn f32_norm(w: u32) -> (bool, u32, i32) {
    let m = w & 0x1f_ffff;
    let e = ((w >> 21) & 0x3ff) as i32 - 788;
    if m == 0 {
        return (false, 0, 0);
    }
    let z = m.trailing_zeros();
    (w >> 31 != 0, m >> z, e + z as i32)
}

impl Lookup {
    pub fn same(&self, o: &Lookup) -> bool {
        self.kind == o.kind
            && f32_norm(self.min) == f32_norm(o.min)
            && f32_norm(self.delta) == f32_norm(o.delta)
            && self.bits == o.bits
            && self.seq == o.seq
            && self.mult == o.mult
    }
}

/// The bits that codeword lengths take in the most compact format that can express them
pub fn least_length_bits(lens: &[u8]) -> usize {
    let n = lens.len();
    let used = lens.iter().filter(|l| **l != 0).count();
    let mut best = 2 + n + 5 * used;
    if used == n {
        best = best.min(2 + 5 * n);
    }
    if used == n && n > 0 && lens.windows(2).all(|w| w[0] <= w[1]) {
        let mut left = n;
        let mut bits = 6;
        for l in lens[0]..=lens[n - 1] {
            bits += ilog(left as u64) as usize;
            left -= lens.iter().filter(|x| **x == l).count();
        }
        best = best.min(bits);
    }
    if n == 0 {
        best = 2;
    }
    best
}
impl Setup {
    pub fn codes(&self) -> Option<Vec<Code>> {
        self.books.iter().map(|b| Code::new(&b.lens)).collect()
    }

    /// Why `o` (written by the optimizer) does not mean the same as self; codeword lengths are
    /// not compared
    pub fn semantic_diff(&self, o: &Setup) -> Option<String> {
        if self.books.len() != o.books.len() {
            return Some(format!("{} codebooks became {}", self.books.len(), o.books.len()));
        }
        for (i, (a, b)) in self.books.iter().zip(&o.books).enumerate() {
            if a.dims != b.dims {
                return Some(format!("codebook {i}: {} dimensions became {}", a.dims, b.dims));
            }
            if a.lens.len() != b.lens.len() {
                return Some(format!("codebook {i}: {} entries became {}", a.lens.len(), b.lens.len()));
            }
            match (&a.lookup, &b.lookup) {
                (None, None) => (),
                (Some(x), Some(y)) if x.same(y) => (),
                (x, y) => {
                    let s = |l: &Option<Lookup>| match l {
                        None => "none".to_string(),
                        Some(l) => format!(
                            "type {} min {:#x} {:?} delta {:#x} {:?} bits {} seq {} {} multiplicands",
                            l.kind, l.min, f32_norm(l.min), l.delta, f32_norm(l.delta), l.bits, l.seq, l.mult.len()
                        ),
                    };
                    return Some(format!("codebook {i}: lookup {} became {}", s(x), s(y)));
                }
            }
        }
        if self.floors != o.floors {
            return Some(format!("floors differ: {:?} became {:?}", self.floors, o.floors));
        }
        if self.residues.len() != o.residues.len() {
            return Some("residue count differs".into());
        }
        for (i, (a, b)) in self.residues.iter().zip(&o.residues).enumerate() {
            let mut a = a.clone();
            let mut b = b.clone();
            if a.end < a.begin {
                // Invalid in the input. Any empty residue is a repair
                if b.end > b.begin {
                    return Some(format!("residue {i}: empty residue became non-empty"));
                }
                a.begin = 0;
                a.end = 0;
                b.begin = 0;
                b.end = 0;
            }
            if a != b {
                return Some(format!("residue {i}: {a:?} became {b:?}"));
            }
        }
        if self.mappings != o.mappings {
            return Some(format!("mappings differ: {:?} became {:?}", self.mappings, o.mappings));
        }
        if self.modes != o.modes {
            return Some("modes differ".into());
        }
        None
    }

    pub fn write(&self, channels: u8, st: &SetupStyle) -> Vec<u8> {
        let mut rng = Rng::new(st.seed);
        // Defects must not change what else is written
        let mut bad = Rng::new(st.seed ^ 0xbad);
        let mut w = BitW::from_bytes(b"\x05vorbis");
        w.bits(self.books.len() as u32 - 1, 8);
        for (bi, b) in self.books.iter().enumerate() {
            w.bits(if st.bad_sync { bad.u32() & 0xff_ffff } else { 0x564342 }, 24);
            w.bits(b.dims as u32, 16);
            w.bits(b.lens.len() as u32, 24);
            let all_used = b.lens.iter().all(|l| *l != 0);
            let sorted = b.lens.windows(2).all(|p| p[0] <= p[1]);
            // Ordered needs ascending lengths; use it mostly when possible
            if let Some((_, raw)) = st.raw_lens.as_ref().filter(|r| r.0 == bi) {
                for &(v, n) in raw {
                    w.bits(v, n);
                }
            } else if all_used && sorted && !b.lens.is_empty() && (!st.vary || rng.chance(3, 4)) {
                w.flag(true);
                let first = b.lens[0];
                // A first length lower than needed, with runs of zero entries, is legal
                let mut len = if st.vary && rng.chance(1, 3) { rng.range(1, first as usize) as u8 } else { first };
                w.bits(len as u32 - 1, 5);
                let mut i = 0;
                while i < b.lens.len() {
                    let n = b.lens[i..].iter().take_while(|l| **l == len).count();
                    w.bits(n as u32, ilog((b.lens.len() - i) as u64));
                    i += n;
                    len += 1;
                }
            } else {
                w.flag(false);
                let sparse = !all_used || (st.vary && rng.chance(1, 4));
                w.flag(sparse);
                for &l in &b.lens {
                    if sparse {
                        w.flag(l != 0);
                    }
                    if l != 0 {
                        w.bits(l as u32 - 1, 5);
                    }
                }
            }
            match &b.lookup {
                None => w.bits(0, 4),
                Some(l) => {
                    w.bits(l.kind as u32, 4);
                    w.bits(l.min, 32);
                    w.bits(l.delta, 32);
                    w.bits(l.bits as u32 - 1, 4);
                    w.flag(l.seq);
                    for &m in &l.mult {
                        w.bits(m as u32, l.bits as u32);
                    }
                }
            }
        }
        let tdt = if st.vary { rng.below(64) } else { 0 };
        w.bits(tdt as u32, 6);
        for _ in 0..=tdt {
            w.bits(if st.bad_tdt { bad.u32() & 0xffff } else { 0 }, 16);
        }
        w.bits(self.floors.len() as u32 - 1, 6);
        for (fi, f) in self.floors.iter().enumerate() {
            w.bits(st.floor_type.filter(|t| t.0 == fi).map_or(1, |t| t.1) as u32, 16);
            w.bits(f.parts.len() as u32, 5);
            for &p in &f.parts {
                w.bits(p as u32, 4);
            }
            for c in &f.classes {
                w.bits(c.dim as u32 - 1, 3);
                w.bits(c.sub as u32, 2);
                if let Some(m) = c.master {
                    w.bits(m as u32, 8);
                }
                for b in &c.books {
                    w.bits(b.map_or(0, |b| b as u32 + 1), 8);
                }
            }
            w.bits(f.mult as u32 - 1, 2);
            w.bits(f.range_bits as u32, 4);
            for &x in &f.x {
                w.bits(x as u32, f.range_bits as u32);
            }
        }
        w.bits(self.residues.len() as u32 - 1, 6);
        for r in &self.residues {
            w.bits(r.kind as u32, 16);
            w.bits(r.begin, 24);
            w.bits(r.end, 24);
            w.bits(r.psize - 1, 24);
            w.bits(r.classifs as u32 - 1, 6);
            w.bits(r.classbook as u32, 8);
            for b in &r.books {
                let mut m = 0u32;
                for (i, x) in b.iter().enumerate() {
                    m |= (x.is_some() as u32) << i;
                }
                w.bits(m & 7, 3);
                let hi = m >> 3 != 0 || (st.vary && rng.chance(1, 4));
                w.flag(hi);
                if hi {
                    w.bits(m >> 3, 5);
                }
            }
            for b in &r.books {
                for x in b.iter().flatten() {
                    w.bits(*x as u32, 8);
                }
            }
        }
        w.bits(self.mappings.len() as u32 - 1, 6);
        for (mi, m) in self.mappings.iter().enumerate() {
            w.bits(st.mapping_type.filter(|t| t.0 == mi).map_or(0, |t| t.1) as u32, 16);
            let sm = m.submaps.len() > 1 || (st.vary && rng.chance(1, 4));
            w.flag(sm);
            if sm {
                w.bits(m.submaps.len() as u32 - 1, 4);
            }
            w.flag(!m.coupling.is_empty());
            if !m.coupling.is_empty() {
                w.bits(m.coupling.len() as u32 - 1, 8);
                let n = ilog(channels as u64 - 1);
                for &(a, b) in &m.coupling {
                    w.bits(a as u32, n);
                    w.bits(b as u32, n);
                }
            }
            w.bits(if st.bad_reserved { 1 + bad.below(3) as u32 } else { 0 }, 2);
            if m.submaps.len() > 1 {
                for &x in &m.mux {
                    w.bits(x as u32, 4);
                }
            }
            for &(f, r) in &m.submaps {
                w.bits(if st.vary { rng.u32() & 255 } else { 0 }, 8);
                w.bits(f as u32, 8);
                w.bits(r as u32, 8);
            }
        }
        w.bits(self.modes.len() as u32 - 1, 6);
        for m in &self.modes {
            w.flag(m.big);
            w.bits(if st.bad_window { bad.u32() & 0xffff } else { 0 }, 16);
            w.bits(if st.bad_transform { bad.u32() & 0xffff } else { 0 }, 16);
            w.bits(m.mapping as u32, 8);
        }
        w.flag(!st.bad_framing);
        let mut v = w.into_bytes();
        let t = bad.bytes(st.trailing);
        v.extend(t);
        v
    }

    /// Strict parse. `minimal` also requires the canonical minimal encodings the optimizer
    /// promises not to exceed: nothing after the framing bit except up to 7 zero bits.
    pub fn parse(p: &[u8], channels: u8, strict: bool) -> Result<Setup, String> {
        Ok(Self::parse_sized(p, channels, strict)?.0)
    }
    /// Also gives the bits that the codeword lengths of each codebook take
    pub fn parse_sized(p: &[u8], channels: u8, strict: bool) -> Result<(Setup, Vec<usize>), String> {
        const EOP: &str = "end of packet in setup header";
        if p.len() < 8 || &p[..7] != b"\x05vorbis" {
            return Err("bad setup header prelude".into());
        }
        let mut r = BitR::new(p);
        r.pos = 56;
        macro_rules! b {
            ($n:expr) => {
                r.bits($n).ok_or(EOP)?
            };
        }
        let nbooks = b!(8) + 1;
        let mut books = vec![];
        let mut length_bits = vec![];
        for i in 0..nbooks {
            let sync = b!(24);
            if strict && sync != 0x564342 {
                return Err(format!("codebook {i}: bad sync pattern {sync:#x}"));
            }
            let dims = b!(16) as u16;
            let entries = b!(24);
            let mut lens = vec![];
            let from = r.pos;
            if b!(1) == 1 {
                let mut len = b!(5) + 1;
                while lens.len() < entries as usize {
                    if len > 32 {
                        return Err(format!("codebook {i}: ordered length over 32"));
                    }
                    let n = b!(ilog(entries as u64 - lens.len() as u64));
                    if lens.len() + n as usize > entries as usize {
                        return Err(format!("codebook {i}: too many entries"));
                    }
                    lens.extend(std::iter::repeat(len as u8).take(n as usize));
                    len += 1;
                }
            } else {
                let sparse = b!(1) == 1;
                for _ in 0..entries {
                    if !sparse || b!(1) == 1 {
                        lens.push(b!(5) as u8 + 1);
                    } else {
                        lens.push(0);
                    }
                }
            }
            length_bits.push(r.pos - from);
            let lk = b!(4);
            let lookup = match lk {
                0 => None,
                1 | 2 => {
                    let min = b!(32);
                    let delta = b!(32);
                    let bits = b!(4) as u8 + 1;
                    let seq = b!(1) == 1;
                    let n = if lk == 1 {
                        lookup1_values(entries, dims) as u64
                    } else {
                        entries as u64 * dims as u64
                    };
                    let mut mult = vec![];
                    for _ in 0..n {
                        mult.push(b!(bits as u32) as u16);
                    }
                    Some(Lookup { kind: lk as u8, min, delta, bits, seq, mult })
                }
                x => return Err(format!("codebook {i}: lookup type {x}")),
            };
            if Code::new(&lens).is_none() {
                return Err(format!("codebook {i}: overspecified"));
            }
            books.push(Book { dims, lens, lookup });
        }
        let chk = |n: u32, what: &str| -> Result<u8, String> {
            if n as usize >= books.len() {
                Err(format!("{what}: codebook {n} out of range"))
            } else {
                Ok(n as u8)
            }
        };
        let n = b!(6) + 1;
        for _ in 0..n {
            let v = b!(16);
            if strict && v != 0 {
                return Err("nonzero time domain transform".into());
            }
        }
        let mut floors = vec![];
        for i in 0..b!(6) + 1 {
            if b!(16) != 1 {
                return Err(format!("floor {i}: unsupported type"));
            }
            let np = b!(5);
            let mut parts = vec![];
            for _ in 0..np {
                parts.push(b!(4) as u8);
            }
            let nc = parts.iter().map(|p| *p as usize + 1).max().unwrap_or(0);
            let mut classes = vec![];
            for _ in 0..nc {
                let dim = b!(3) as u8 + 1;
                let sub = b!(2) as u8;
                let master = if sub > 0 { Some(chk(b!(8), "floor masterbook")?) } else { None };
                let mut bk = vec![];
                for _ in 0..1 << sub {
                    let v = b!(8);
                    bk.push(if v == 0 { None } else { Some(chk(v - 1, "floor book")?) });
                }
                classes.push(FClass { dim, sub, master, books: bk });
            }
            let mult = b!(2) as u8 + 1;
            let range_bits = b!(4) as u8;
            let mut x: Vec<u16> = vec![];
            for p in &parts {
                for _ in 0..classes[*p as usize].dim {
                    let v = b!(range_bits as u32) as u16;
                    if v == 0 || x.contains(&v) {
                        return Err(format!("floor {i}: repeated point"));
                    }
                    x.push(v);
                }
            }
            if x.len() > 63 {
                return Err(format!("floor {i}: too many points"));
            }
            floors.push(Floor { parts, classes, mult, range_bits, x });
        }
        let mut residues = vec![];
        for i in 0..b!(6) + 1 {
            let kind = b!(16) as u16;
            if kind > 2 {
                return Err(format!("residue {i}: type {kind}"));
            }
            let begin = b!(24);
            let end = b!(24);
            if strict && end < begin {
                return Err(format!("residue {i}: end before begin"));
            }
            let psize = b!(24) + 1;
            let classifs = b!(6) as u8 + 1;
            let classbook = chk(b!(8), "classbook")?;
            let cb = &books[classbook as usize];
            let mut need = 1u64;
            for _ in 0..cb.dims {
                need = (need * classifs as u64).min(1 << 40);
            }
            if need > cb.lens.len() as u64 {
                return Err(format!("residue {i}: classbook has too few entries"));
            }
            let mut cascade = vec![];
            for _ in 0..classifs {
                let lo = b!(3);
                let hi = if b!(1) == 1 { b!(5) } else { 0 };
                cascade.push(hi << 3 | lo);
            }
            let mut bks = vec![];
            for c in cascade {
                let mut a = [None; 8];
                for (j, s) in a.iter_mut().enumerate() {
                    if c >> j & 1 == 1 {
                        *s = Some(chk(b!(8), "residue book")?);
                    }
                }
                bks.push(a);
            }
            residues.push(Residue { kind, begin, end, psize, classifs, classbook, books: bks });
        }
        let mut mappings = vec![];
        for i in 0..b!(6) + 1 {
            if b!(16) != 0 {
                return Err(format!("mapping {i}: reserved type"));
            }
            let ns = if b!(1) == 1 { b!(4) + 1 } else { 1 };
            let mut coupling = vec![];
            if b!(1) == 1 {
                let n = ilog(channels as u64 - 1);
                for _ in 0..b!(8) + 1 {
                    let a = b!(n);
                    let c = b!(n);
                    if a == c || a >= channels as u32 || c >= channels as u32 {
                        return Err(format!("mapping {i}: bad coupling"));
                    }
                    coupling.push((a as u8, c as u8));
                }
            }
            let resv = b!(2);
            if strict && resv != 0 {
                return Err(format!("mapping {i}: nonzero reserved bits"));
            }
            let mut mux = vec![0; channels as usize];
            if ns > 1 {
                for m in mux.iter_mut() {
                    let v = b!(4);
                    if v >= ns {
                        return Err(format!("mapping {i}: bad mux"));
                    }
                    *m = v as u8;
                }
            }
            let mut submaps = vec![];
            for _ in 0..ns {
                b!(8);
                let f = b!(8);
                let rs = b!(8);
                if f as usize >= floors.len() || rs as usize >= residues.len() {
                    return Err(format!("mapping {i}: bad floor or residue"));
                }
                submaps.push((f as u8, rs as u8));
            }
            mappings.push(Mapping { coupling, mux, submaps });
        }
        let mut modes = vec![];
        for i in 0..b!(6) + 1 {
            let big = b!(1) == 1;
            let wt = b!(16);
            let tt = b!(16);
            if strict && (wt != 0 || tt != 0) {
                return Err(format!("mode {i}: nonzero window or transform type"));
            }
            let m = b!(8);
            if m as usize >= mappings.len() {
                return Err(format!("mode {i}: bad mapping"));
            }
            modes.push(Mode { big, mapping: m as u8 });
        }
        if strict {
            if b!(1) != 1 {
                return Err("setup framing bit is zero".into());
            }
            if r.left() >= 8 {
                return Err(format!("{} bits after the setup framing bit", r.left()));
            }
            while r.left() > 0 {
                if b!(1) != 0 {
                    return Err("nonzero padding after the setup framing bit".into());
                }
            }
        }
        Ok((Setup { books, floors, residues, mappings, modes }, length_bits))
    }

    pub fn describe(&self) -> String {
        let kinds: Vec<String> = self
            .books
            .iter()
            .take(6)
            .map(|b| {
                let c = Code::new(&b.lens);
                format!(
                    "{}e/{}d/lk{}/{}",
                    b.lens.len(),
                    b.dims,
                    b.lookup.as_ref().map_or(0, |l| l.kind),
                    match c.map(|c| c.kind) {
                        Some(TreeKind::Empty) => "empty",
                        Some(TreeKind::Single) => "single",
                        Some(TreeKind::Complete) => "complete",
                        Some(TreeKind::Under) => "under",
                        None => "over",
                    }
                )
            })
            .collect();
        format!(
            "{} books [{}..], {} floors, {} residues (types {:?}), {} mappings, {} modes",
            self.books.len(),
            kinds.join(" "),
            self.floors.len(),
            self.residues.len(),
            self.residues.iter().take(4).map(|r| r.kind).collect::<Vec<_>>(),
            self.mappings.len(),
            self.modes.len()
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Comments {
    pub vendor: Vec<u8>,
    pub fields: Vec<Vec<u8>>,
}
impl Comments {
    pub fn write(&self) -> Vec<u8> {
        let mut v = b"\x03vorbis".to_vec();
        v.extend((self.vendor.len() as u32).to_le_bytes());
        v.extend(&self.vendor);
        v.extend((self.fields.len() as u32).to_le_bytes());
        for f in &self.fields {
            v.extend((f.len() as u32).to_le_bytes());
            v.extend(f);
        }
        v.push(1);
        v
    }
    pub fn parse_strict(p: &[u8]) -> Result<Comments, String> {
        if p.len() < 7 || &p[..7] != b"\x03vorbis" {
            return Err("bad comment header prelude".into());
        }
        let mut o = 7usize;
        let mut take = |n: usize| -> Result<&[u8], String> {
            let s = p.get(o..o.checked_add(n).ok_or("overflow")?).ok_or("comment header too short")?;
            o += n;
            Ok(s)
        };
        macro_rules! len {
            () => {
                u32::from_le_bytes(take(4)?.try_into().unwrap()) as usize
            };
        }
        let n = len!();
        let vendor = take(n)?.to_vec();
        let mut fields = vec![];
        for _ in 0..len!() {
            let n = len!();
            fields.push(take(n)?.to_vec());
        }
        if take(1)? != [1] {
            return Err("comment framing byte is not 1".into());
        }
        if o != p.len() {
            return Err(format!("{} bytes after the comment framing byte", p.len() - o));
        }
        Ok(Comments { vendor, fields })
    }
    /// What can be completely read from a possibly truncated header; None: no vendor string
    pub fn parse_prefix(p: &[u8]) -> (Option<Vec<u8>>, Vec<Vec<u8>>) {
        let Some(mut p) = p.get(7..) else { return (None, vec![]) };
        let mut take = || -> Option<u32> {
            let (a, b) = p.split_first_chunk::<4>()?;
            p = b;
            Some(u32::from_le_bytes(*a))
        };
        let Some(n) = take() else { return (None, vec![]) };
        let Some(v) = p.get(..n as usize) else { return (None, vec![]) };
        p = &p[n as usize..];
        let vendor = Some(v.to_vec());
        let mut f = vec![];
        let Some((a, b)) = p.split_first_chunk::<4>() else { return (vendor, f) };
        p = b;
        for _ in 0..u32::from_le_bytes(*a) {
            let Some((a, b)) = p.split_first_chunk::<4>() else { break };
            let n = u32::from_le_bytes(*a) as usize;
            let Some(s) = b.get(..n) else { break };
            f.push(s.to_vec());
            p = &b[n..];
        }
        (vendor, f)
    }
}
