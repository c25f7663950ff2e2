//! C12 oracles, compiled twice: with the std build of vorbis_bitpack (in vh) and with its no-std
//! build (in /verif/nostd).
#[cfg(feature = "nostd")]
use acid_io as io;
#[cfg(not(feature = "nostd"))]
use std::io;

use crate::rng::Rng;
use io::{ErrorKind, Read, Write};
use std::cell::RefCell;
use std::rc::Rc;
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

#[derive(Default)]
pub struct Stats {
    pub key: u64,
    pub ops: u64,
    pub bits: u64,
    pub floats: u64,
    pub eofs: u64,
    pub faults: u64,
}
/// A sink that can be watched, with a capacity
#[derive(Clone)]
struct Sink {
    data: Rc<RefCell<Vec<u8>>>,
    cap: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut d = self.data.borrow_mut();
        if d.len() >= self.cap && !b.is_empty() {
            return Err(ErrorKind::Other.into());
        }
        let n = b.len().min(self.cap - d.len());
        d.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// A source that counts what is consumed
struct Source {
    data: Vec<u8>,
    pos: Rc<RefCell<usize>>,
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut p = self.pos.borrow_mut();
        let n = b.len().min(self.data.len() - *p);
        b[..n].copy_from_slice(&self.data[*p..*p + n]);
        *p += n;
        Ok(n)
    }
}
pub fn width(w: u8) -> BitpackedIntegerWidth {
    BitpackedIntegerWidth::new(w).expect("valid width")
}
/// The exact value of a Vorbis float word: all of them are normal numbers (or zeros) in a f64
pub fn value(w: u32) -> f64 {
    let m = (w & 0x1f_ffff) as f64;
    let e = (w >> 21 & 0x3ff) as i32 - 788;
    // a power of two by its bits: exact
    let p = f64::from_bits(((1023 + e) as u64) << 52);
    if w >> 31 == 1 {
        -m * p
    } else {
        m * p
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    U(u32, u8),
    I(i32, u8),
    Flag(bool),
    Float(u32),
    Finalize,
    Flush,
}
fn random_int(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << rng.below(32),
        3 => (1u64 << rng.below(33)).wrapping_sub(1) as u32,
        _ => rng.u32(),
    }
}
fn random_ops(rng: &mut Rng) -> Vec<Op> {
    let n = *rng.pick(&[1usize, 2, 3, 5, 10, 40, 200]);
    let n = rng.range(1, n);
    let wide = rng.below(4);
    (0..n)
        .map(|_| {
            let w = match wide {
                0 => rng.below(33),
                1 => rng.below(9),
                2 => *rng.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32]),
                _ => rng.range(20, 32),
            } as u8;
            match rng.below(12) {
                0..=4 => Op::U(random_int(rng), w),
                5..=7 => Op::I(random_int(rng) as i32, w),
                8 => Op::Flag(rng.chance(1, 2)),
                9 => Op::Float(random_int(rng)),
                10 => Op::Finalize,
                _ if rng.chance(1, 4) => Op::Flush,
                _ => Op::U(random_int(rng), w),
            }
        })
        .collect()
}
fn write_op<W: Write>(w: &mut BitpackWriter<W>, o: Op) -> io::Result<()> {
    match o {
        Op::U(v, n) => w.write_unsigned_integer(v, width(n)),
        Op::I(v, n) => w.write_signed_integer(v, width(n)),
        Op::Flag(f) => w.write_flag(f),
        Op::Float(x) => w.write_float32(value(x)),
        Op::Finalize => w.finalize(),
        Op::Flush => w.flush(),
    }
}
fn model_bits(o: Op, float_word: u32) -> (u32, u8) {
    match o {
        Op::U(v, n) => (v, n),
        Op::I(v, n) => (v as u32, n),
        Op::Flag(f) => (f as u32, 1),
        Op::Float(_) => (float_word, 32),
        Op::Finalize | Op::Flush => (0, 0),
    }
}
/// The word that the writer packs a value in
fn pack(v: f64) -> u32 {
    let mut d = [0u8; 4];
    BitpackWriter::new(&mut d[..]).write_float32(v).expect("four bytes");
    u32::from_le_bytes(d)
}

/// Random writes, checked against a vector of bits, then read back
pub fn round_trip(rng: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let ops = random_ops(rng);
    let e = |k: usize, s: String| format!("operation {k} of {:?}: {s}", &ops[..ops.len().min(60)]);
    let data = Rc::new(RefCell::new(vec![]));
    let mut bits: Vec<bool> = vec![];
    let mut pads = vec![];
    let explicit = rng.chance(1, 2);
    {
        let mut w = BitpackWriter::new(Sink { data: data.clone(), cap: usize::MAX });
        for (k, o) in ops.iter().enumerate() {
            st.ops += 1;
            write_op(&mut w, *o).map_err(|x| e(k, format!("error {x:?} with a sink that never fails")))?;
            let (v, n) = model_bits(*o, if let Op::Float(x) = o { pack(value(*x)) } else { 0 });
            for i in 0..n {
                bits.push(v >> i & 1 == 1);
            }
            if let Op::Finalize = o {
                let p = (8 - bits.len() % 8) % 8;
                pads.push(p);
                bits.extend(vec![false; p]);
                if data.borrow().len() * 8 != bits.len() {
                    return Err(e(k, format!("after finalizing {} bits, the sink has {} bytes", bits.len(), data.borrow().len())));
                }
            }
            if data.borrow().len() > bits.len().div_ceil(8) {
                return Err(e(k, format!("after {} bits, the sink has {} bytes", bits.len(), data.borrow().len())));
            }
        }
        if explicit {
            w.finalize().map_err(|x| e(ops.len(), format!("{x:?}")))?;
        }
    }
    st.bits += bits.len() as u64;
    let mut want = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        want[i / 8] |= (*b as u8) << (i % 8);
    }
    let got = data.borrow().clone();
    st.key = got.iter().fold(ops.len() as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(9));
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b);
        return Err(e(ops.len(), format!("{} bytes {:02x?} written instead of {} bytes {:02x?} (first difference at {k:?})", got.len(), &got[..got.len().min(40)], want.len(), &want[..want.len().min(40)])));
    }
    // Read back, with other data after
    let extra = rng.below(3);
    let mut src = got.clone();
    src.extend(rng.bytes(extra));
    let pos = Rc::new(RefCell::new(0));
    let mut r = BitpackReader::new(Source { data: src, pos: pos.clone() });
    let mut done = 0usize;
    let mut pi = 0;
    for (k, o) in ops.iter().enumerate() {
        let bad = |what: String| Err(e(k, format!("reading: {what}")));
        macro_rules! get {
            ($x:expr) => {
                match $x {
                    Ok(v) => v,
                    Err(x) => return bad(format!("error {x:?} at bit {done} of {}", bits.len())),
                }
            };
        }
        let (v, n) = model_bits(*o, if let Op::Float(x) = o { pack(value(*x)) } else { 0 });
        let m = if n == 32 { u32::MAX } else { (1u32 << n) - 1 };
        match *o {
            Op::U(..) => {
                let g = get!(r.read_unsigned_integer(width(n)));
                if g != v & m {
                    return bad(format!("{g} instead of {}", v & m));
                }
            }
            Op::I(..) => {
                let g = get!(r.read_signed_integer(width(n)));
                let want = if n == 0 { 0 } else { ((v as i64) << (64 - n as u32) >> (64 - n as u32)) as i32 };
                if g != want {
                    return bad(format!("{g} instead of {want}"));
                }
            }
            Op::Flag(f) => {
                let g = get!(r.read_flag());
                if g != f {
                    return bad(format!("{g} instead of {f}"));
                }
            }
            Op::Float(x) => {
                let g = get!(r.read_float32());
                st.floats += 1;
                if g != value(x) {
                    return bad(format!("{g:e} instead of {:e} (word {x:#010x})", value(x)));
                }
            }
            Op::Finalize => {
                let g = get!(r.read_unsigned_integer(width(pads[pi] as u8)));
                if g != 0 {
                    return bad(format!("padding {g}"));
                }
                done += pads[pi];
                pi += 1;
            }
            Op::Flush => (),
        }
        done += n as usize;
        if *pos.borrow() != done.div_ceil(8) {
            return bad(format!("{} bytes consumed for {done} bits", *pos.borrow()));
        }
    }
    Ok(())
}
/// Reads past the end of data of every length
pub fn end_of_data(rng: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let n = rng.below(12);
    let d = rng.bytes(n);
    st.key = d.iter().fold(n as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3)) ^ rng.clone().next();
    let pos = Rc::new(RefCell::new(0));
    let mut r = BitpackReader::new(Source { data: d.clone(), pos });
    let mut at = 0usize;
    let signed = rng.chance(1, 3);
    let mut log = vec![];
    for _ in 0..200 {
        let w = rng.below(33) as u8;
        log.push(w);
        st.ops += 1;
        let left = n * 8 - at;
        let res = match (w, signed) {
            (32, _) if rng.chance(1, 2) => r.read_float32().map(|_| None),
            (1, _) if rng.chance(1, 2) => r.read_flag().map(|f| Some(f as u32)),
            (_, true) => r.read_signed_integer(width(w)).map(|v| Some(v as u32)),
            _ => r.read_unsigned_integer(width(w)).map(Some),
        };
        let e = |s: String| format!("reading widths {log:?} from {d:02x?}, {left} bits left: {s}");
        match res {
            Ok(v) => {
                if w as usize > left {
                    return Err(e(format!("value {v:?} past the end")));
                }
                let mut want = 0u32;
                for i in 0..w as usize {
                    want |= ((d[(at + i) / 8] >> ((at + i) % 8)) as u32 & 1) << i;
                }
                if signed && w != 32 && w != 1 && w > 0 {
                    want = ((want << (32 - w)) as i32 >> (32 - w)) as u32;
                }
                let m = if w == 0 { 0 } else { u32::MAX >> (32 - w) };
                if v.is_some_and(|v| if w == 1 { v & m != want & m } else { v != want }) {
                    return Err(e(format!("value {v:x?} instead of {want:x}")));
                }
                at += w as usize;
                st.bits += w as u64;
            }
            Err(x) => {
                if w as usize <= left {
                    return Err(e(format!("error {x:?} before the end")));
                }
                if x.kind() != ErrorKind::UnexpectedEof {
                    return Err(e(format!("error {x:?} at the end")));
                }
                st.eofs += 1;
                return Ok(());
            }
        }
    }
    Ok(())
}
/// Sinks that fail must be reported by an operation, or at the latest by finalizing
pub fn full_sink(rng: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let ops = random_ops(rng);
    let total: usize = {
        let d = Rc::new(RefCell::new(vec![]));
        let mut w = BitpackWriter::new(Sink { data: d.clone(), cap: usize::MAX });
        for o in &ops {
            let _ = write_op(&mut w, *o);
        }
        let _ = w.finalize();
        let n = d.borrow().len();
        n
    };
    st.key = rng.clone().next() ^ total as u64;
    if total == 0 {
        return Ok(());
    }
    let cap = rng.below(total);
    let d = Rc::new(RefCell::new(vec![]));
    let mut w = BitpackWriter::new(Sink { data: d.clone(), cap });
    for o in &ops {
        st.ops += 1;
        if let Err(e) = write_op(&mut w, *o) {
            st.faults += 1;
            return if e.kind() == ErrorKind::Other { Ok(()) } else { Err(format!("the sink's error became {e:?}")) };
        }
    }
    match w.finalize() {
        Err(_) => {
            st.faults += 1;
            Ok(())
        }
        Ok(()) => Err(format!("{ops:?}: no error with a sink for {cap} of {total} bytes")),
    }
}
/// Words from, from+step, .. below 2^32
pub fn floats(from: u64, to: u64, step: u64, st: &mut Stats) -> Result<(), String> {
    let mut w = from;
    st.key = from;
    while w < to {
        let word = w as u32;
        let v = value(word);
        let b = word.to_le_bytes();
        let g = BitpackReader::new(&b[..]).read_float32().map_err(|e| format!("{e:?}"))?;
        if g != v || (v != 0.0 && g.is_sign_negative() != v.is_sign_negative()) {
            return Err(format!("the Vorbis float word {word:#010x} is read as {g:e} instead of {v:e}"));
        }
        let p = pack(v);
        if value(p) != v {
            return Err(format!("{v:e} (word {word:#010x}) is packed in the word {p:#010x}, which is {:e}", value(p)));
        }
        st.floats += 1;
        w += step;
    }
    Ok(())
}
/// The range of widths
pub fn widths(st: &mut Stats) -> Result<(), String> {
    for w in 0..=255u8 {
        let r = BitpackedIntegerWidth::new(w);
        st.ops += 1;
        if r.map(|r| r.get()) != (w <= 32).then_some(w) {
            return Err(format!("width {w} gives {r:?}"));
        }
    }
    st.key = 1;
    Ok(())
}
pub fn run(workload: &str, case: u64, rng: &mut Rng, st: &mut Stats) -> Result<(), String> {
    match workload {
        "round-trip" => round_trip(rng, st),
        "end-of-data" => end_of_data(rng, st),
        "full-sink" => full_sink(rng, st),
        "widths" => widths(st),
        // 256 parts, about 16 million words in all
        "floats" => {
            let part = 1u64 << 24;
            let step = 255 + 2 * (rng.below(4) as u64);
            floats(case * part + rng.below(255) as u64, (case + 1) * part, step, st)?;
            // and the ends of each exponent
            for x in case * part >> 21..((case + 1) * part) >> 21 {
                floats(x << 21, (x << 21) + 300, 1, st)?;
                floats((x << 21) + (1 << 21) - 300, (x + 1) << 21, 1, st)?;
                for b in 0..21 {
                    let m = (x << 21) + (1 << b);
                    floats(m.saturating_sub(2), m + 3, 1, st)?;
                }
            }
            st.key = case;
            Ok(())
        }
        // 4096 parts: all words
        "all-floats" => floats(case << 20, (case + 1) << 20, 1, st),
        w => Err(format!("unknown workload {w}")),
    }
}
