//! C20: memory and time.
use crate::c_robust;
use crate::c_stream::{self, fixtures};
use crate::ctx::*;
use crate::gen::{self, Profile, VStream};
use crate::mem;
use crate::mutate;
use crate::ogg::{self, Page, Paging};
use crate::rng::Rng;
use crate::run::{self, Cfg};
use crate::setup::*;
use optivorbis::VorbisOptimizer;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

/// Counts what is written, and fails at some point
struct Null {
    n: u64,
    fail: u64,
}
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.n >= self.fail {
            return Err(io::ErrorKind::Other.into());
        }
        self.n += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Fails after some bytes were read
struct Src<'a> {
    c: Cursor<&'a [u8]>,
    left: u64,
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.c.read(b)?;
        if self.left < n as u64 {
            return Err(io::ErrorKind::Other.into());
        }
        self.left -= n as u64;
        Ok(n)
    }
}
impl Seek for Src<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.seek(p)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Done(u64),
    Refused,
    Panic,
}
fn kind(r: Result<Null, run::Bad>) -> Kind {
    match r {
        Ok(n) => Kind::Done(n.n),
        Err(run::Bad::Err(_)) => Kind::Refused,
        Err(run::Bad::Panic(_)) => Kind::Panic,
    }
}
/// Remuxes to nowhere
fn remux(b: &[u8], cfg: &Cfg, read: u64, write: u64) -> (Kind, mem::Used) {
    mem::measure(
        || run::remux_io(&cfg.remuxer(), Src { c: Cursor::new(b), left: read }, Null { n: 0, fail: write }),
        kind,
    )
}
const ALL: u64 = u64::MAX;

/// A stream with `n` audio packets, repeated from few
fn long_packets(vs: &VStream, n: usize) -> Vec<Vec<u8>> {
    let mut pk = vs.packets();
    let k = pk.len() - 3;
    for i in k..n.max(k) {
        pk.push(pk[3 + i % k].clone());
    }
    pk
}
fn long_file(vs: &VStream, n: usize, pg: Paging, foreign: usize, rng: &mut Rng) -> Vec<u8> {
    let pk = long_packets(vs, n);
    let g: Vec<i64> = (0..pk.len()).map(|i| if i < 3 { 0 } else { i as i64 * 64 }).collect();
    let mut p = ogg::mux(&pk, &g, 7, pg, true, rng);
    if foreign > 0 {
        // pages of another stream in between
        let mut f = vec![];
        for (i, x) in p.into_iter().enumerate() {
            f.push(x);
            let one = |i: usize| Page { cont: false, bos: i == 0, eos: false, gp: i as i64, serial: 9, seq: i as u32, segs: vec![foreign as u8], body: vec![b'x'; foreign] };
            f.push(one(i));
        }
        p = f;
    }
    ogg::join(&p)
}
fn small(rng: &mut Rng) -> VStream {
    loop {
        let mut pr = Profile::random(rng);
        pr.extreme = false;
        pr.big = false;
        pr.max_channels = 2;
        pr.max_packets = 30;
        let mut vs = gen::gen_stream(rng, &pr);
        vs.audio.retain(|a| a.bytes.len() <= 100);
        if vs.audio.iter().filter(|a| !a.dec.discarded()).count() > 2 {
            return vs;
        }
    }
}
/// Feeds a stream to the low-level optimizer, dropping what it returns
fn low_level(pk: &[Vec<u8>], cfg: &Cfg, stop: usize) -> (Kind, mem::Used) {
    let o = cfg.opt();
    let go = || -> Kind {
        let mut n = 0;
        let Ok(mut v) = VorbisOptimizer::new(&o, &pk[0]) else { return Kind::Refused };
        for p in &pk[1..] {
            n += 1;
            if n > stop {
                return Kind::Refused;
            }
            if v.analyze_packet(p).is_err() {
                return Kind::Refused;
            }
        }
        let mut out = 0;
        for p in pk {
            n += 1;
            if n > stop {
                return Kind::Refused;
            }
            match v.optimize_packet(p.as_slice()) {
                Ok(Some((p, _))) => out += p.len() as u64,
                Ok(None) => (),
                Err(_) => return Kind::Refused,
            }
        }
        Kind::Done(out)
    };
    mem::measure(|| run::guard(go).unwrap_or(Kind::Panic), |k| k)
}
/// The most bytes that `n` packets in a row have
fn window(pk: &[Vec<u8>], n: usize) -> u64 {
    let mut s = 0;
    let mut most = 0;
    for i in 0..pk.len() {
        s += pk[i].len();
        if i >= n {
            s -= pk[i - n].len();
        }
        most = most.max(s);
    }
    most as u64
}
/// What the headers of a stream declare: what memory may depend on
fn declared(id: &Ident, su: &Setup) -> u64 {
    let entries: usize = su.books.iter().map(|b| b.lens.len()).sum();
    let values: usize = su.books.iter().map(|b| b.lookup.as_ref().map_or(0, |l| l.mult.len())).sum();
    let class: usize = su.residues.iter().map(|r| su.books[r.classbook as usize].dims as usize + (1usize << id.bs.1) / 2 * if r.kind == 2 { id.channels as usize } else { 1 } / r.psize as usize).max().unwrap_or(0);
    (entries + values + class * id.channels as usize) as u64
}
const FIXED: u64 = 2 << 20;

pub fn c20(ctx: &Ctx) -> i32 {
    let t = ctx.pick(1, 25);
    let n = |k: u64| k * t;
    let fx = fixtures();
    ctx.run("growth", n(60), 0, |c, rng, obs| {
        let vs = small(rng);
        obs.nontrivial = true;
        let cfg = Cfg::random(rng);
        let (a, b) = (1500, 45_000);
        let (pa, pb) = (long_packets(&vs, a), long_packets(&vs, b));
        // Packets wait for their page to be full
        let slack = (32 << 10) + 4 * window(&pa, 300);
        let (ua, ub, len) = if c % 4 == 3 {
            obs.key = rng.next();
            let (x, y) = (low_level(&pa, &cfg, usize::MAX), low_level(&pb, &cfg, usize::MAX));
            (x, y, pb.iter().map(|p| p.len()).sum())
        } else {
            let pg = *rng.pick(&[Paging::Full, Paging::Every(10), Paging::Random, Paging::Tiny, Paging::PerPacket]);
            let foreign = if rng.chance(1, 3) { rng.range(1, 254) } else { 0 };
            let r2 = rng.fork();
            let (fa, fb) = (long_file(&vs, a, pg, foreign, &mut r2.clone()), long_file(&vs, b, pg, foreign, &mut r2.clone()));
            obs.input(&fb);
            let first = remux(&fa, &cfg, ALL, ALL);
            let r = remux(&fb, &cfg, ALL, ALL);
            obs.count("bytes read", 2 * fb.len() as u64);
            (first, r, fb.len())
        };
        for (k, _) in [ua, ub] {
            if !matches!(k, Kind::Done(_)) {
                return Err(format!("not accepted: {k:?}").into());
            }
        }
        obs.evals = 2;
        obs.count("packets", (a + b) as u64);
        obs.count("allocations", ub.1.allocations);
        obs.max("growth of the peak with 30 times the packets", ub.1.peak.saturating_sub(ua.1.peak));
        if ub.1.peak > ua.1.peak + slack {
            return Err(format!("{} bytes of memory are used for {a} packets, but {} for {b} packets of the same kind ({len} bytes, at most {slack} bytes more expected)", ua.1.peak, ub.1.peak).into());
        }
        if c < 6 {
            obs.sample = Some(format!("{a} packets: {:?}; {b} packets: {:?}", ua.1, ub.1));
        }
        Ok(())
    });
    ctx.run("bound", n(1000), 0, |c, rng, obs| {
        let mut pr = Profile::random(rng);
        pr.extreme |= rng.chance(1, 6);
        pr.wide = rng.chance(1, 30);
        let vs = gen::gen_stream(rng, &pr);
        let pk = vs.packets();
        let b = ogg::join(&mutate::mux(&pk, rng));
        obs.input(&b);
        obs.nontrivial = true;
        let (k, u) = remux(&b, &Cfg::random(rng), ALL, ALL);
        if !matches!(k, Kind::Done(_)) {
            return Err(format!("not accepted: {k:?}")).input(&b);
        }
        let d = declared(&vs.ident, &vs.setup);
        bound(u, d, vs.packets()[..3].iter().map(|p| p.len() as u64).sum(), window(&pk[3..], 256), obs).input(&b)?;
        if c < 4 {
            obs.sample = Some(format!("{} entries and values declared, {:?}", d, u));
        }
        Ok(())
    });
    ctx.run("declared", n(24), 4, |c, rng, obs| {
        // few bytes that declare much
        let e = *[1u32 << 16, 1 << 20, 1 << 22, (1 << 24) - 1].get(c as usize % 4).unwrap();
        let pk = c_robust::bomb(rng, e, obs);
        let b = ogg::join(&mutate::mux(&pk, rng));
        obs.input(&b);
        obs.nontrivial = true;
        let (k, u) = remux(&b, &Cfg::default(), ALL, ALL);
        if k == Kind::Panic {
            return Err("panic").input(&b);
        }
        given_back(&b, &Cfg::default(), u, ALL, ALL)?;
        bound(u, e as u64, b.len() as u64, 0, obs).input(&b)
    });
    ctx.run("given-back", n(5000), 0, |_, rng, obs| {
        let cfg = Cfg { verify: rng.chance(1, 3), ..Cfg::random(rng) };
        let vs = mutate::small_stream(rng);
        let mut pk = vs.packets();
        obs.nontrivial = true;
        let mut b = match rng.below(5) {
            0 => fx[rng.below(fx.len())].1.clone(),
            1 => {
                c_robust::damage_packets(&mut pk, rng);
                ogg::join(&mutate::mux(&pk, rng))
            }
            2 => {
                let mut su = vs.setup.clone();
                mutate::setup(&mut su, rng);
                if su.books.iter().any(|b| b.lens.len() > 1 << 20) {
                    return Ok(());
                }
                pk[2] = su.write(vs.ident.channels, &vs.style);
                ogg::join(&mutate::mux(&pk, rng))
            }
            _ => ogg::join(&mutate::mux(&pk, rng)),
        };
        if rng.chance(1, 3) {
            let o = b.clone();
            mutate::bytes(&mut b, rng, &o);
        }
        obs.input(&b);
        let len = b.len() as u64;
        let (r, w) = match rng.below(3) {
            0 => (ALL, ALL),
            1 => (rng.below(2 * b.len() + 1) as u64, ALL),
            _ => (ALL, rng.below(b.len() + 1) as u64),
        };
        let (k, u) = remux(&b, &cfg, r, w);
        match k {
            Kind::Done(_) => obs.count("succeeded", 1),
            Kind::Refused if r == ALL && w == ALL => obs.count("refused", 1),
            Kind::Refused => obs.count("refused or I/O error", 1),
            Kind::Panic => return Err("panic").input(&b),
        }
        obs.max("bytes of memory for an input byte", u.peak / len.max(1));
        given_back(&b, &cfg, u, r, w)?;
        // The low-level optimizer, dropped in any state
        if !pk.is_empty() {
            let stop = if rng.chance(1, 4) { usize::MAX } else { rng.below(2 * pk.len() + 1) };
            let (k, mut u) = low_level(&pk, &cfg, stop);
            if u.left != 0 {
                u = low_level(&pk, &cfg, stop).1;
            }
            obs.evals += 1;
            if k == Kind::Panic {
                return Err("panic").input(&b);
            }
            if u.left != 0 {
                return Err(format!("a dropped low-level optimizer that got {stop} packets keeps {} bytes of memory", u.left)).input(&b);
            }
        }
        Ok(())
    });
    ctx.run("time", n(16), 2, |c, rng, obs| {
        let vs = small(rng);
        let cfg = Cfg::random(rng);
        let pg = *rng.pick(&[Paging::Full, Paging::Every(10), Paging::PerPacket]);
        let (a, b) = (8000, 128_000);
        let foreign = if c % 3 == 2 { 100 } else { 0 };
        let r2 = rng.fork();
        let (fa, fb) = (long_file(&vs, a, pg, foreign, &mut r2.clone()), long_file(&vs, b, pg, foreign, &mut r2.clone()));
        obs.input(&fb);
        obs.nontrivial = true;
        run::set_log(false);
        let time = |f: &[u8]| {
            let t = mem::cpu();
            let _ = remux(f, &cfg, ALL, ALL);
            mem::cpu() - t
        };
        let mut ratio = f64::MAX;
        // Time is noisy, by much less than what is looked for: the least of some measurements
        for _ in 0..6 {
            let (x, y) = (time(&fa), time(&fb));
            ratio = ratio.min(y / x.max(1e-4));
            obs.evals += 2;
            if ratio < 24.0 {
                break;
            }
        }
        obs.max("times the time, in percent, with 16 times the packets", (ratio * 100.0) as u64);
        if ratio > 64.0 {
            return Err(format!("{b} packets take {ratio:.0} times as long as {a} packets of the same kind")).input(&fa);
        }
        Ok(())
    });
    // Sizes other than the number of packets
    ctx.run("scale", n(96), 2, |c, rng, obs| {
        let kind = c % SCALE.len() as u64;
        let cfg = Cfg { vendor: rng.below(5) as u8, fields: rng.below(4).min(1) as u8, ..Cfg::default() };
        let r2 = rng.fork();
        let base = scale_base(kind);
        let (fa, fb) = (scale(kind, base, &mut r2.clone()), scale(kind, 16 * base, &mut r2.clone()));
        obs.input(&fb);
        obs.nontrivial = true;
        run::set_log(false);
        let time = |f: &[u8]| {
            let t = mem::cpu();
            let r = remux(f, &cfg, ALL, ALL);
            (mem::cpu() - t, r)
        };
        let (mut x, mut y) = (f64::MAX, f64::MAX);
        let (mut ux, mut uy) = (None, None);
        for i in 0..8 {
            let (tx, a) = time(&fa);
            let (ty, b) = time(&fb);
            x = x.min(tx);
            y = y.min(ty);
            (ux, uy) = (Some(a), Some(b));
            obs.evals += 2;
            // Below a few milliseconds, nothing can be said of small
            if y / x.max(1e-4) < 24.0 || y < 0.02 || i > 2 && y / x.max(1e-4) < 40.0 {
                break;
            }
        }
        let ((ka, a), (kb, b)) = (ux.unwrap(), uy.unwrap());
        let name = SCALE[kind as usize];
        if !matches!(ka, Kind::Done(_)) || !matches!(kb, Kind::Done(_)) {
            return Err(format!("{name}: not accepted: {ka:?}, {kb:?}")).input(&fa);
        }
        obs.count(&format!("scaled: {name}"), 1);
        obs.max(&format!("times the memory, in percent, with 16 times the {name}"), b.peak * 100 / a.peak.max(1));
        obs.max(&format!("times the time, in percent, with 16 times the {name}"), (y / x.max(1e-4) * 100.0) as u64);
        if b.peak > 24 * a.peak + (256 << 10) {
            return Err(format!("with 16 times the {name} ({base}), the memory used goes from {} to {} bytes", a.peak, b.peak)).input(&fa);
        }
        if y > 0.02 && y / x.max(1e-4) > 64.0 {
            return Err(format!("with 16 times the {name} ({base}), CPU time goes from {x:.4} to {y:.4} s")).input(&fa);
        }
        Ok(())
    });
    ctx.run("cut-comments", n(400), 0, |c, rng, obs| {
        // Comment headers that announce more than they have
        let comments = gen::gen_comments(rng);
        let mut p = comments.write();
        let mut at = 7 + 4 + comments.vendor.len();
        let big = |rng: &mut Rng| *rng.pick(&[u32::MAX, 0x7fff_ffff, 1 << 31, 1 << 28, 50_000_000, 5_000_000]);
        let v = big(rng);
        match c % 4 {
            0 => p[7..11].copy_from_slice(&v.to_le_bytes()),
            1 | 2 => p[at..at + 4].copy_from_slice(&v.to_le_bytes()),
            _ => {
                for f in comments.fields.iter().take(rng.below(comments.fields.len() + 1)) {
                    at += 4 + f.len();
                }
                at += 4;
                p.truncate(at);
                p.extend(v.to_le_bytes());
            }
        }
        let vs = c_stream::with_comments(comments, p.clone());
        let b = ogg::join(&ogg::mux(&vs.packets(), &[0, 0, 0, 0, 64], 1, Paging::Full, true, rng));
        obs.input(&b);
        obs.nontrivial = true;
        let (k, u) = remux(&b, &Cfg::random(rng), ALL, ALL);
        if !matches!(k, Kind::Done(_)) {
            return Err(format!("not accepted: {k:?}")).input(&b);
        }
        obs.max("bytes of memory for a header that announces more than it has", u.peak);
        bound(u, 0, b.len() as u64, 0, obs).input(&b)
    });
    ctx.finish("exploration", "Every allocation and release by the thread that runs the code is counted. Streams of 1500 and 45000 packets of the same kind (any paging, pages of other streams in between, or fed to the low-level optimizer): the peak does not grow beyond what fits a page. Generated streams and codebooks that declare up to 2^24-1 entries in few bytes: the peak is bounded by what the headers declare and contain, and the packets of a page. Damaged and undamaged inputs, with read or write errors at random points, and low-level optimizers dropped after any number of packets: all memory is given back. Streams of 8000 and 128000 packets: CPU time is in proportion. Every input is non-trivial; distinct: by hash of the input.")
}
const SCALE: [&str; 12] = [
    "chained streams",
    "comments",
    "bytes of a comment",
    "bytes of the vendor string",
    "codebook entries",
    "codebook entries in order",
    "codebook entries of depth 32",
    "bytes of padding of a packet",
    "other streams",
    "bytes of a packet of another stream",
    "empty packets",
    "codebooks",
];
fn scale_base(kind: u64) -> usize {
    [40, 3000, 100_000, 100_000, 4000, 16_000, 4000, 100_000, 400, 100_000, 4000, 16][kind as usize]
}
/// A file that has `n` of something
fn scale(kind: u64, n: usize, rng: &mut Rng) -> Vec<u8> {
    let plain = |c: Comments| {
        let p = c.write();
        c_stream::with_comments(c, p)
    };
    let demo = || Comments { vendor: b"demo".to_vec(), fields: vec![] };
    let book = |lens: Vec<u8>| Book { dims: 1, lens, lookup: None };
    let with_books = |b: Vec<Book>| {
        let (ident, setup) = c_stream::silent_setup(b);
        let mut vs = plain(demo());
        let style = SetupStyle::default();
        vs.ident_p = ident.write();
        vs.setup_p = setup.write(1, &style);
        vs
    };
    let flat = |n: usize| {
        let d = crate::bits::ilog(n as u64 - 1) as u8;
        let mut l = vec![d; n];
        let spare = (1usize << d) - n;
        l[n - spare..].fill(d - 1);
        l
    };
    let file = |vs: &VStream, serial: u32, rng: &mut Rng| {
        let pk = vs.packets();
        let g: Vec<i64> = (0..pk.len()).map(|i| (i as i64 - 3).max(0) * 32).collect();
        ogg::mux(&pk, &g, serial, Paging::Full, true, rng)
    };
    let other = |serial: u32, size: usize, rng: &mut Rng| ogg::mux(&[b"other stream".to_vec(), vec![b'x'; size]], &[0, 1], serial, Paging::Full, true, rng);
    let mut one = plain(demo());
    match kind {
        0 => {
            let p: Vec<Page> = (0..n).flat_map(|i| file(&one, i as u32 * 77 + 1, rng)).collect();
            return ogg::join(&p);
        }
        1 => one = plain(Comments { vendor: vec![], fields: (0..n).map(|i| i.to_string().into_bytes()).collect() }),
        2 => one = plain(Comments { vendor: vec![], fields: vec![vec![b'c'; n]] }),
        3 => one = plain(Comments { vendor: vec![b'v'; n], fields: vec![] }),
        4 => {
            let mut l = flat(n);
            for i in (1..l.len()).rev() {
                l.swap(i, rng.below(i + 1));
            }
            one = with_books(vec![book(l)])
        }
        5 => {
            let mut l = flat(n);
            l.sort();
            one = with_books(vec![book(l)])
        }
        6 => {
            // a complete code, with as many long codewords as possible
            let mut l: Vec<u8> = (1..=32).rev().collect();
            l.push(32);
            // split leaves, in turn
            let mut k = 0;
            while l.len() < n {
                if l[k] < 32 {
                    l[k] += 1;
                    let x = l[k];
                    l.push(x);
                }
                k = (k + 1) % l.len();
            }
            one = with_books(vec![book(l)])
        }
        7 => {
            for _ in 0..4 {
                one.audio[0].bytes.extend(vec![0; n / 4]);
            }
        }
        8 => {
            let mut p: Vec<Page> = (0..n).flat_map(|i| other(i as u32 + 1, 40, rng)).collect();
            p.extend(file(&one, 0, rng));
            return ogg::join(&p);
        }
        9 => {
            let mut p = other(1, n, rng);
            p.extend(file(&one, 0, rng));
            return ogg::join(&p);
        }
        10 => {
            let a = one.audio[0].clone();
            let mut e = a.clone();
            e.bytes = vec![];
            one.audio = [vec![e; n], vec![a; 2]].concat();
        }
        _ => one = with_books((0..n - 1).map(|_| book(flat(500))).collect()),
    }
    ogg::join(&file(&one, 0, rng))
}
fn given_back(b: &[u8], cfg: &Cfg, u: mem::Used, r: u64, w: u64) -> Res {
    // The first time, libraries may keep something for good
    let u = if u.left != 0 { remux(b, cfg, r, w).1 } else { u };
    if u.left != 0 {
        return Err(format!("{} bytes of memory are kept after remuxing (read error after {r}, write error after {w})", u.left)).input(b);
    }
    Ok(())
}
fn bound(u: mem::Used, declared: u64, headers: u64, page: u64, obs: &mut Obs) -> Result<(), String> {
    let most = FIXED + 400 * declared + 64 * headers + 4 * page;
    obs.max("bytes of memory", u.peak);
    obs.max("percent of the bound", u.peak * 100 / most);
    if u.peak > most {
        return Err(format!("{} bytes of memory are used, for {declared} declared values, {headers} bytes of headers and at most {page} bytes of packets for a page", u.peak));
    }
    Ok(())
}
