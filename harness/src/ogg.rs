//! Independent Ogg muxer (with adversarial but valid paging) and strict demuxer (RFC 3533).
use crate::rng::Rng;

pub fn crc(d: &[u8]) -> u32 {
    fn table() -> &'static [u32; 256] {
        static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
        T.get_or_init(|| {
            let mut t = [0u32; 256];
            for (i, e) in t.iter_mut().enumerate() {
                let mut c = (i as u32) << 24;
                for _ in 0..8 {
                    c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
                }
                *e = c;
            }
            t
        })
    }
    let t = table();
    d.iter().fold(0, |c, b| (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize])
}

#[derive(Clone, Debug, PartialEq)]
pub struct Page {
    pub cont: bool,
    pub bos: bool,
    pub eos: bool,
    pub gp: i64,
    pub serial: u32,
    pub seq: u32,
    pub segs: Vec<u8>,
    pub body: Vec<u8>,
}
impl Page {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = b"OggS\0".to_vec();
        v.push(self.cont as u8 | (self.bos as u8) << 1 | (self.eos as u8) << 2);
        v.extend(self.gp.to_le_bytes());
        v.extend(self.serial.to_le_bytes());
        v.extend(self.seq.to_le_bytes());
        v.extend([0; 4]);
        v.push(self.segs.len() as u8);
        v.extend(&self.segs);
        v.extend(&self.body);
        let c = crc(&v);
        v[22..26].copy_from_slice(&c.to_le_bytes());
        v
    }
    /// Whether some packet ends in this page
    pub fn completes(&self) -> bool {
        self.segs.iter().any(|s| *s < 255)
    }
}
pub fn join(pages: &[Page]) -> Vec<u8> {
    pages.iter().flat_map(|p| p.bytes()).collect()
}
/// Recomputes the checksum of the page at `off`, if it is complete
pub fn fix_crc(d: &mut [u8], off: usize) {
    if off + 27 > d.len() || off + 27 + d[off + 26] as usize > d.len() {
        return;
    }
    let n = d[off + 26] as usize;
    let body: usize = d[off + 27..off + 27 + n].iter().map(|x| *x as usize).sum();
    let end = off + 27 + n + body;
    if end > d.len() {
        return;
    }
    d[off + 22..off + 26].fill(0);
    let c = crc(&d[off..end]);
    d[off + 22..off + 26].copy_from_slice(&c.to_le_bytes());
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Paging {
    /// As many segments per page as possible
    Full,
    /// A page ends with each packet
    PerPacket,
    /// A page ends with every k-th packet
    Every(usize),
    /// Pages with a random number of segments, splitting packets anywhere
    Random,
    /// Few segments per page
    Tiny,
    /// First page with exactly this many audio packets, then full pages
    First(usize),
}
pub fn random_paging(rng: &mut Rng) -> Paging {
    match rng.below(7) {
        0 => Paging::Full,
        1 => Paging::PerPacket,
        2 => Paging::Every(rng.range(2, 9)),
        3 => Paging::Random,
        4 => Paging::Tiny,
        5 => Paging::First(rng.range(1, 4)),
        _ => Paging::Every(rng.range(1, 40)),
    }
}

fn section(out: &mut Vec<Page>, pk: &[Vec<u8>], gps: &[i64], serial: u32, pg: Paging, rng: &mut Rng) {
    // lacing
    let mut lac: Vec<(u8, usize, bool)> = vec![];
    for (i, p) in pk.iter().enumerate() {
        for _ in 0..p.len() / 255 {
            lac.push((255, i, false));
        }
        lac.push(((p.len() % 255) as u8, i, true));
    }
    let mut pos = vec![0usize; pk.len()];
    let mut i = 0;
    let mut page_no = 0;
    while i < lac.len() {
        let cont = i > 0 && !lac[i - 1].2;
        let max_seg = match pg {
            Paging::Random => match rng.below(3) {
                0 => rng.range(1, 5),
                1 => rng.range(1, 60),
                _ => rng.range(1, 255),
            },
            Paging::Tiny => rng.range(1, 3),
            _ => 255,
        };
        let max_pk = match pg {
            Paging::PerPacket => 1,
            Paging::Every(k) => k,
            Paging::First(k) if page_no == 0 => k,
            _ => usize::MAX,
        };
        let mut p = Page { cont, bos: false, eos: false, gp: -1, serial, seq: out.len() as u32, segs: vec![], body: vec![] };
        let mut done = 0;
        while i < lac.len() && p.segs.len() < max_seg && done < max_pk {
            let (l, k, last) = lac[i];
            p.segs.push(l);
            p.body.extend(&pk[k][pos[k]..pos[k] + l as usize]);
            pos[k] += l as usize;
            if last {
                done += 1;
                p.gp = gps[k];
            }
            i += 1;
        }
        out.push(p);
        page_no += 1;
    }
}

/// Pages of a logical stream. `gps` has a granule position per packet (0 for headers).
pub fn mux(pk: &[Vec<u8>], gps: &[i64], serial: u32, pg: Paging, eos: bool, rng: &mut Rng) -> Vec<Page> {
    assert_eq!(pk.len(), gps.len());
    let mut out = vec![];
    section(&mut out, &pk[..1], &gps[..1], serial, Paging::Full, rng);
    out[0].bos = true;
    let h = pk.len().min(3);
    let hp = *rng.pick(&[Paging::Full, Paging::PerPacket, pg]);
    section(&mut out, &pk[1..h], &gps[1..h], serial, hp, rng);
    section(&mut out, &pk[h..], &gps[h..], serial, pg, rng);
    if eos {
        out.last_mut().unwrap().eos = true;
    }
    out
}

/// Parses a physical bitstream. Any deviation from a well-formed sequence of pages is an error.
pub fn parse_pages(d: &[u8]) -> Result<Vec<Page>, String> {
    let mut o = 0;
    let mut v = vec![];
    while o < d.len() {
        let e = |s: &str| Err(format!("page {} at byte {o}: {s}", v.len()));
        let h = &d[o..];
        if h.len() < 27 {
            return e("truncated page header");
        }
        if &h[..4] != b"OggS" {
            return e("no capture pattern");
        }
        if h[4] != 0 {
            return e("version is not 0");
        }
        if h[5] & !7 != 0 {
            return e("unknown header flags");
        }
        let n = h[26] as usize;
        if h.len() < 27 + n {
            return e("truncated segment table");
        }
        let segs = h[27..27 + n].to_vec();
        let body: usize = segs.iter().map(|x| *x as usize).sum();
        let end = 27 + n + body;
        if h.len() < end {
            return e("truncated page body");
        }
        let mut z = h[..end].to_vec();
        z[22..26].fill(0);
        let c = u32::from_le_bytes(h[22..26].try_into().unwrap());
        if crc(&z) != c {
            return e("checksum mismatch");
        }
        v.push(Page {
            cont: h[5] & 1 != 0,
            bos: h[5] & 2 != 0,
            eos: h[5] & 4 != 0,
            gp: i64::from_le_bytes(h[6..14].try_into().unwrap()),
            serial: u32::from_le_bytes(h[14..18].try_into().unwrap()),
            seq: u32::from_le_bytes(h[18..22].try_into().unwrap()),
            segs,
            body: h[27 + n..end].to_vec(),
        });
        o += end;
    }
    Ok(v)
}
/// Byte offsets of page signatures
pub fn page_offsets(d: &[u8]) -> Vec<usize> {
    (0..d.len().saturating_sub(26)).filter(|i| &d[*i..*i + 4] == b"OggS").collect()
}

#[derive(Clone, Debug)]
pub struct OPacket {
    pub bytes: Vec<u8>,
    /// Index of the page (in the stream) where it begins and ends
    pub first_page: usize,
    pub page: usize,
    pub last_in_page: bool,
}
#[derive(Clone, Debug)]
pub struct LStream {
    pub serial: u32,
    pub pages: Vec<Page>,
    pub packets: Vec<OPacket>,
}
impl LStream {
    pub fn data(&self) -> Vec<Vec<u8>> {
        self.packets.iter().map(|p| p.bytes.clone()).collect()
    }
    /// (packet number, granule position) of each packet that ends a page's packets
    pub fn gps(&self) -> Vec<(usize, i64)> {
        self.packets.iter().enumerate().filter(|(_, p)| p.last_in_page).map(|(i, p)| (i, self.pages[p.page].gp)).collect()
    }
}
/// Splits a sequence of pages in logical streams, which must not be interleaved
pub fn streams_strict(pages: &[Page]) -> Result<Vec<LStream>, String> {
    let mut v: Vec<LStream> = vec![];
    let mut open = false;
    let mut i = 0;
    while i < pages.len() {
        let p = &pages[i];
        if !p.bos {
            return Err(format!("page {i}: expected a beginning of stream page"));
        }
        if open {
            return Err(format!("page {i}: stream begins inside another"));
        }
        if v.iter().any(|s| s.serial == p.serial) {
            return Err(format!("page {i}: serial {:#x} reused", p.serial));
        }
        let mut s = LStream { serial: p.serial, pages: vec![], packets: vec![] };
        open = true;
        let mut partial: Option<(Vec<u8>, usize)> = None;
        while i < pages.len() && open {
            let p = &pages[i];
            if p.serial != s.serial {
                return Err(format!("page {i}: serial {:#x} inside stream {:#x} (missing end of stream?)", p.serial, s.serial));
            }
            if p.bos != s.pages.is_empty() {
                return Err(format!("page {i}: wrong beginning of stream flag"));
            }
            if p.seq != s.pages.len() as u32 {
                return Err(format!("page {i}: sequence number {} instead of {}", p.seq, s.pages.len()));
            }
            if p.cont != partial.is_some() {
                return Err(format!("page {i}: wrong continuation flag"));
            }
            let mut o = 0;
            let mut last: Option<usize> = None;
            for &l in &p.segs {
                let (b, _) = partial.get_or_insert_with(|| (vec![], s.pages.len()));
                b.extend(&p.body[o..o + l as usize]);
                o += l as usize;
                if l < 255 {
                    let (bytes, first_page) = partial.take().unwrap();
                    last = Some(s.packets.len());
                    s.packets.push(OPacket { bytes, first_page, page: s.pages.len(), last_in_page: false });
                }
            }
            if let Some(l) = last {
                s.packets[l].last_in_page = true;
            }
            open = !p.eos;
            s.pages.push(p.clone());
            i += 1;
        }
        if partial.is_some() {
            return Err(format!("stream {:#x} ends inside a packet", s.serial));
        }
        if open {
            return Err(format!("stream {:#x} has no end of stream page", s.serial));
        }
        v.push(s);
    }
    Ok(v)
}
pub fn parse_strict(d: &[u8]) -> Result<Vec<LStream>, String> {
    streams_strict(&parse_pages(d)?)
}
/// Packets of each stream of a well-formed file that may be multiplexed and lack EOS flags
pub fn packets_lax(pages: &[Page]) -> Vec<LStream> {
    let mut v: Vec<(LStream, Vec<u8>)> = vec![];
    for p in pages {
        let k = match v.iter().position(|s| s.0.serial == p.serial) {
            Some(k) => k,
            None => {
                v.push((LStream { serial: p.serial, pages: vec![], packets: vec![] }, vec![]));
                v.len() - 1
            }
        };
        let (s, part) = &mut v[k];
        let mut o = 0;
        let mut last = None;
        for &l in &p.segs {
            part.extend(&p.body[o..o + l as usize]);
            o += l as usize;
            if l < 255 {
                last = Some(s.packets.len());
                s.packets.push(OPacket { bytes: std::mem::take(part), first_page: 0, page: s.pages.len(), last_in_page: false });
            }
        }
        if let Some(l) = last {
            s.packets[l].last_in_page = true;
        }
        s.pages.push(p.clone());
    }
    v.into_iter().map(|x| x.0).collect()
}

/// A logical stream that is not Vorbis
pub fn foreign_stream(rng: &mut Rng, serial: u32, eos: bool) -> Vec<Page> {
    let first: Vec<u8> = match rng.below(7) {
        0 => b"OpusHead\x01\x02\0\0\x80\xbb\0\0\0\0\0".to_vec(),
        1 => b"fishead\0\x03\0\0\0".to_vec(),
        2 => b"\x80theora\x03\x02\x01".to_vec(),
        3 => rng.bytes(3),                     // too short for anything
        4 => b"\x01vorbiz\0\0\0\0\x02".to_vec(), // almost
        5 => b"\x7fFLAC\x01\0\0\x01fLaC\0\0\0\x22".to_vec(),
        _ => b"\x03vorbis comment type first".to_vec(),
    };
    let mut pk = vec![first];
    for _ in 0..rng.below(5) {
        let n = *rng.pick(&[0, 1, 10, 254, 255, 256, 700]);
        let mut b = rng.bytes(n);
        if rng.chance(1, 3) && n > 7 {
            b[..7].copy_from_slice(b"\x01vorbis");
        }
        pk.push(b);
    }
    let gps: Vec<i64> = (0..pk.len()).map(|i| if i == 0 { 0 } else { (rng.u32() & 0xffff) as i64 }).collect();
    let pg = random_paging(rng);
    let mut out = vec![];
    section(&mut out, &pk[..1], &gps[..1], serial, Paging::Full, rng);
    out[0].bos = true;
    section(&mut out, &pk[1..], &gps[1..], serial, pg, rng);
    if eos {
        out.last_mut().unwrap().eos = true;
    }
    out
}
