//! Bit-level model of the Vorbis bitpacking convention (LSB first), independent of vorbis_bitpack.
#[derive(Clone)]
pub struct BitR<'a> {
    pub d: &'a [u8],
    pub pos: usize,
}
impl<'a> BitR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        BitR { d, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.d.len() * 8 - self.pos
    }
    pub fn bit(&mut self) -> Option<u32> {
        if self.pos >= self.d.len() * 8 {
            return None;
        }
        let b = (self.d[self.pos / 8] >> (self.pos % 8)) & 1;
        self.pos += 1;
        Some(b as u32)
    }
    pub fn bits(&mut self, n: u32) -> Option<u32> {
        if self.left() < n as usize {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.bit().unwrap() as u64) << i;
        }
        Some(v as u32)
    }
    pub fn flag(&mut self) -> Option<bool> {
        self.bit().map(|b| b != 0)
    }
}
#[derive(Clone, Default)]
pub struct BitW {
    pub d: Vec<u8>,
    pub n: usize,
}
impl BitW {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_bytes(b: &[u8]) -> Self {
        BitW { d: b.to_vec(), n: b.len() * 8 }
    }
    pub fn bits(&mut self, v: u32, n: u32) {
        for i in 0..n {
            if self.n % 8 == 0 {
                self.d.push(0);
            }
            if (v >> i) & 1 != 0 {
                *self.d.last_mut().unwrap() |= 1 << (self.n % 8);
            }
            self.n += 1;
        }
    }
    pub fn flag(&mut self, b: bool) {
        self.bits(b as u32, 1)
    }
    /// Writes a codeword whose first transmitted bit is its most significant one
    pub fn code_msb(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.bits((v >> i) & 1, 1);
        }
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.d
    }
}
pub fn ilog(n: u64) -> u32 {
    64 - n.leading_zeros()
}
