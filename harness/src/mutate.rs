//! Hostile inputs: damaged files, damaged packets in undamaged pages, and headers with arbitrary
//! field values.
use crate::gen::{self, Profile, VStream};
use crate::ogg::{self, Page};
use crate::rng::Rng;
use crate::setup::*;

/// Damages bytes
pub fn bytes(b: &mut Vec<u8>, rng: &mut Rng, other: &[u8]) {
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3, 10]) {
        if b.is_empty() {
            b.extend(rng.bytes(40));
        }
        let n = b.len();
        let at = rng.below(n);
        match rng.below(11) {
            0 => b[at] ^= 1 << rng.below(8),
            1 => b[at] = rng.next() as u8,
            2 => b[at] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            3 => b.truncate(at),
            4 => {
                let k = rng.range(1, 9).min(n - at);
                b.drain(at..at + k);
            }
            5 => {
                let k = rng.range(1, 9);
                let x = rng.bytes(k);
                b.splice(at..at, x);
            }
            6 => {
                // repeat a part
                let k = rng.range(1, 300).min(n - at);
                let x = b[at..at + k].to_vec();
                let to = rng.below(n);
                b.splice(to..to, x);
            }
            7 if !other.is_empty() => {
                let o = rng.below(other.len());
                let k = rng.range(1, 2000).min(other.len() - o);
                let to = (at + rng.below(50)).min(n);
                b.splice(at..to, other[o..o + k].iter().copied());
            }
            8 => {
                let k = rng.range(1, 4).min(n - at);
                for x in &mut b[at..at + k] {
                    *x = rng.next() as u8;
                }
            }
            9 => {
                let v = rng.pick(&[0u32, 1, u32::MAX, 0x7fff_ffff, 0x8000_0000]).to_le_bytes();
                for (k, x) in v.iter().enumerate() {
                    if at + k < n {
                        b[at + k] = *x;
                    }
                }
            }
            _ => {
                // The first bytes have most headers
                let at = rng.below(n.min(200));
                b[at] = rng.next() as u8;
            }
        }
        if b.len() > 4 << 20 {
            b.truncate(4 << 20);
        }
    }
}
/// Damages bits, without changing the length much
pub fn packet(p: &mut Vec<u8>, rng: &mut Rng) {
    for _ in 0..*rng.pick(&[1, 1, 2, 5, 30]) {
        if p.is_empty() {
            let k = rng.below(5);
            p.extend(rng.bytes(k));
            continue;
        }
        let n = p.len();
        let at = if rng.chance(1, 2) { rng.below(n) } else { rng.below(n.min(120)) };
        match rng.below(9) {
            0..=3 => p[at] ^= 1 << rng.below(8),
            4 => p[at] = rng.next() as u8,
            5 => p.truncate(at),
            6 => {
                let k = rng.range(1, 40);
                p.extend(rng.bytes(k));
            }
            7 => p[at..].fill(*rng.clone().pick(&[0, 0xff])),
            _ => {
                for x in &mut p[at..] {
                    *x = rng.next() as u8;
                }
            }
        }
    }
}
/// Changes pages (their checksums stay right)
pub fn pages(v: &mut Vec<Page>, rng: &mut Rng) {
    for _ in 0..*rng.pick(&[1, 1, 2, 4]) {
        if v.is_empty() {
            return;
        }
        let n = v.len();
        let i = rng.below(n);
        let j = rng.below(n);
        match rng.below(13) {
            0 => {
                v.remove(i);
            }
            1 => {
                let p = v[i].clone();
                v.insert(j, p);
            }
            2 => v.swap(i, j),
            3 => v[i].cont ^= true,
            4 => v[i].bos ^= true,
            5 => v[i].eos ^= true,
            6 => v[i].gp = *rng.pick(&[0, -1, 1, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, -1000, 1 << 62, -(1 << 62)]),
            7 => v[i].gp = rng.next() as i64,
            8 => v[i].serial = if rng.chance(1, 2) { v[j].serial.wrapping_add(1) } else { rng.u32() },
            9 => v[i].seq = *rng.pick(&[0, 1, u32::MAX, 7]),
            10 => {
                // same bytes, other lacing
                let total: usize = v[i].segs.iter().map(|s| *s as usize).sum();
                let mut segs = vec![];
                let mut left = total;
                while left > 0 && segs.len() < 254 {
                    let s = rng.range(0, 255).min(left);
                    segs.push(s as u8);
                    left -= s;
                }
                let used: usize = segs.iter().map(|s| *s as usize).sum();
                v[i].body.truncate(used);
                v[i].segs = segs;
            }
            11 => {
                v[i].segs.clear();
                v[i].body.clear();
            }
            _ => {
                // all granule positions
                let d = rng.next() as i64;
                for p in v.iter_mut() {
                    p.gp = p.gp.wrapping_add(d);
                }
            }
        }
    }
}
/// Gives arbitrary values to some fields of a setup header
pub fn setup(su: &mut Setup, rng: &mut Rng) {
    for _ in 0..*rng.pick(&[1, 1, 2, 5]) {
        match rng.below(20) {
            0 => {
                let i = rng.below(su.books.len());
                let b = &mut su.books[i];
                b.dims = *rng.pick(&[0, 0, 1, 2, 3, 255, 65535]);
                // With as many values as that takes, mostly
                if let (Some(l), true) = (&mut b.lookup, rng.chance(3, 4)) {
                    let n = match (b.dims, l.kind) {
                        (0, _) => 0,
                        (d, 1) => lookup1_values(b.lens.len() as u32, d) as usize,
                        (d, _) => b.lens.len() * d as usize,
                    };
                    if n < 100_000 {
                        l.mult.resize(n, 0);
                    }
                }
            }
            1 => {
                let i = rng.below(su.books.len());
                let b = &mut su.books[i];
                if !b.lens.is_empty() {
                    let k = rng.below(b.lens.len());
                    b.lens[k] = rng.range(0, 32) as u8;
                }
            }
            2 => {
                let i = rng.below(su.books.len());
                let n = *rng.pick(&[0, 1, 2, 3, 17, 1000, 70_000]);
                let l = rng.range(0, 32) as u8;
                su.books[i].lens = vec![l; n];
            }
            3 => {
                let i = rng.below(su.books.len());
                if let Some(l) = &mut su.books[i].lookup {
                    l.kind = rng.below(16) as u8;
                }
            }
            4 => {
                let i = rng.below(su.books.len());
                if let Some(l) = &mut su.books[i].lookup {
                    l.min = rng.u32();
                    l.delta = rng.u32();
                }
            }
            5 => {
                let i = rng.below(su.floors.len());
                let f = &mut su.floors[i];
                f.range_bits = rng.below(16) as u8;
                f.mult = rng.range(1, 4) as u8;
            }
            6 => {
                let i = rng.below(su.floors.len());
                if let Some(x) = su.floors[i].x.first_mut() {
                    *x = *rng.pick(&[0, 1, 0xffff]);
                }
            }
            7 => {
                let i = rng.below(su.floors.len());
                if !su.floors[i].classes.is_empty() {
                    let k = rng.below(su.floors[i].classes.len());
                    let c = &mut su.floors[i].classes[k];
                    c.master = c.master.map(|_| rng.next() as u8);
                    for b in &mut c.books {
                        *b = rng.chance(1, 2).then(|| rng.below(255) as u8);
                    }
                }
            }
            8 => {
                let i = rng.below(su.residues.len());
                su.residues[i].kind = *rng.pick(&[0, 1, 2, 3, 65535]);
            }
            9 => {
                let i = rng.below(su.residues.len());
                let r = &mut su.residues[i];
                r.begin = *rng.pick(&[0, 1, 0xff_ffff, 0x80_0000]);
                r.end = *rng.pick(&[0, 1, 0xff_ffff, 4096]);
            }
            10 => {
                let i = rng.below(su.residues.len());
                su.residues[i].psize = *rng.pick(&[1, 2, 3, 0xff_ffff, 0x100_0000]);
            }
            11 => {
                let i = rng.below(su.residues.len());
                su.residues[i].classbook = rng.next() as u8;
            }
            12 => {
                let i = rng.below(su.residues.len());
                for b in su.residues[i].books.iter_mut().flatten().flatten() {
                    *b = rng.next() as u8;
                }
            }
            13 => {
                let i = rng.below(su.mappings.len());
                for c in &mut su.mappings[i].coupling {
                    *c = (rng.next() as u8, rng.next() as u8);
                }
            }
            14 => {
                let i = rng.below(su.mappings.len());
                for c in &mut su.mappings[i].mux {
                    *c = rng.below(16) as u8;
                }
            }
            15 => {
                let i = rng.below(su.mappings.len());
                for c in &mut su.mappings[i].submaps {
                    *c = (rng.next() as u8, rng.below(4) as u8);
                }
            }
            16 => {
                let i = rng.below(su.modes.len());
                su.modes[i].mapping = rng.next() as u8;
            }
            17 => {
                let n = rng.range(1, 64);
                let m = su.modes[0].clone();
                su.modes.resize(n, m);
            }
            18 => {
                let i = rng.below(su.residues.len());
                let b = rng.below(su.books.len()) as u8;
                su.residues[i].classbook = b;
            }
            _ => {
                let i = rng.below(su.residues.len());
                let nb = su.books.len();
                for x in su.residues[i].books.iter_mut().flatten() {
                    *x = Some(rng.below(nb.min(255)) as u8).filter(|_| rng.chance(1, 2));
                }
            }
        }
    }
}

/// The packets of a small valid stream
pub fn small_stream(rng: &mut Rng) -> VStream {
    let mut pr = Profile::random(rng);
    pr.max_packets = *rng.pick(&[0, 1, 2, 3, 6]);
    pr.extreme = rng.chance(1, 12);
    pr.big = rng.chance(1, 10);
    gen::gen_stream(rng, &pr)
}
/// Some granule positions for packets
pub fn gps(n: usize, rng: &mut Rng) -> Vec<i64> {
    let mut g = match rng.below(4) {
        0 => 0i64,
        1 => rng.next() as i64,
        _ => rng.below(5000) as i64,
    };
    (0..n)
        .map(|i| {
            if i < 3 {
                return 0;
            }
            g = g.wrapping_add(rng.below(2000) as i64);
            g
        })
        .collect()
}
pub fn mux(pk: &[Vec<u8>], rng: &mut Rng) -> Vec<Page> {
    let g = gps(pk.len(), rng);
    let pg = ogg::random_paging(rng);
    let (s, e) = (rng.u32(), rng.chance(3, 4));
    ogg::mux(pk, &g, s, pg, e, rng)
}
