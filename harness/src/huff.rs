//! Vorbis codeword assignment and decoding, written from the specification (section 3.2.1) and
//! with a different algorithm than the one under test; and the optimal prefix code cost.
use crate::bits::BitR;
use std::collections::BinaryHeap;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum TreeKind {
    Empty,
    /// Exactly one used entry, of length one: any bit decodes to it
    Single,
    Complete,
    Under,
}
#[derive(Clone, Debug)]
pub struct Code {
    pub lens: Vec<u8>,
    /// Codewords, MSB first; valid where lens != 0
    pub words: Vec<u32>,
    pub kind: TreeKind,
    /// (codeword left-aligned to 32 bits, length, entry), sorted by codeword
    sorted: Vec<(u32, u8, u32)>,
}
pub enum Dec {
    Entry(u32),
    Eop,
    Unassigned,
}
impl Code {
    /// Assigns to each used entry, in order, the lowest codeword of its length that is neither a
    /// prefix of nor prefixed by the codewords already assigned. None if over-specified.
    pub fn new(lens: &[u8]) -> Option<Code> {
        let mut words = vec![0u32; lens.len()];
        // Free space as a sorted list of free dyadic intervals: (start left-aligned 32 bit, depth).
        // Leftmost allocation keeps at most one free interval per depth.
        let mut free: Vec<(u64, u8)> = vec![(0, 0)];
        let mut used = 0;
        let mut sorted = vec![];
        for (e, &l) in lens.iter().enumerate() {
            if l == 0 {
                continue;
            }
            if l > 32 {
                return None;
            }
            used += 1;
            // leftmost free interval that is large enough
            let i = free.iter().position(|&(_, d)| d <= l)?;
            let (start, d) = free.remove(i);
            // take its leftmost 2^-l part; the rest is a list of intervals of depth d+1..=l to the right
            let mut pos = i;
            for dd in (d + 1..=l).rev() {
                free.insert(pos, (start + (1u64 << (32 - dd)), dd));
                pos += 1;
            }
            words[e] = ((start as u128) >> (32 - l as u32)) as u32;
            sorted.push((start as u32, l, e as u32));
        }
        sorted.sort_unstable();
        let kind = if used == 0 {
            TreeKind::Empty
        } else if used == 1 && sorted[0].1 == 1 {
            TreeKind::Single
        } else if free.is_empty() {
            TreeKind::Complete
        } else {
            TreeKind::Under
        };
        Some(Code { lens: lens.to_vec(), words, kind, sorted })
    }
    pub fn decode(&self, r: &mut BitR) -> Dec {
        if self.kind == TreeKind::Single {
            return match r.bit() {
                Some(_) => Dec::Entry(self.sorted[0].2),
                None => Dec::Eop,
            };
        }
        let mut w = 0u64;
        let mut n = 0u32;
        loop {
            let Some(b) = r.bit() else { return Dec::Eop };
            n += 1;
            w |= (b as u64) << (32 - n);
            // Find the greatest start <= w among codewords
            let i = self.sorted.partition_point(|&(s, _, _)| s as u64 <= w);
            let lo = w;
            let hi = w + (1u64 << (32 - n)); // exclusive range of continuations
            if i > 0 {
                let (s, l, e) = self.sorted[i - 1];
                let end = s as u64 + (1u64 << (32 - l as u32));
                if lo < end {
                    // w lies within the codeword interval
                    if l as u32 == n && s as u64 == lo {
                        return Dec::Entry(e);
                    }
                    if (l as u32) < n {
                        unreachable!();
                    }
                    continue; // codeword longer than what was read
                }
            }
            // no codeword starts at or before and covers w; is there any within [lo, hi)?
            if i < self.sorted.len() && (self.sorted[i].0 as u64) < hi {
                continue;
            }
            // Nodes that were never allocated are unassigned. The specification does not say
            // when to report this; report as soon as it is certain.
            return Dec::Unassigned;
        }
    }
    pub fn used(&self) -> usize {
        self.sorted.len()
    }
}

/// Total number of bits of an optimal prefix code for the frequencies (zero: unused), where a
/// single used symbol costs one bit per use.
pub fn optimal_cost(freqs: &[u64]) -> u64 {
    let mut h: BinaryHeap<std::cmp::Reverse<u64>> =
        freqs.iter().filter(|f| **f > 0).map(|f| std::cmp::Reverse(*f)).collect();
    if h.len() == 1 {
        return h.pop().unwrap().0;
    }
    let mut cost = 0;
    while h.len() > 1 {
        let a = h.pop().unwrap().0;
        let b = h.pop().unwrap().0;
        cost += a + b;
        h.push(std::cmp::Reverse(a + b));
    }
    cost
}

/// Optimal cost with a limit on the codeword length (package-merge). Small alphabets only.
pub fn optimal_cost_limited(freqs: &[u64], limit: usize) -> u64 {
    let mut f: Vec<u64> = freqs.iter().copied().filter(|f| *f > 0).collect();
    f.sort_unstable();
    let n = f.len();
    if n <= 1 {
        return f.first().copied().unwrap_or(0);
    }
    let mut prev: Vec<u64> = vec![];
    for _ in 0..limit {
        let mut packs: Vec<u64> = prev.chunks_exact(2).map(|c| c[0] + c[1]).collect();
        packs.extend_from_slice(&f);
        packs.sort_unstable();
        prev = packs;
    }
    prev[..2 * n - 2].iter().sum()
}

/// Random complete tree lengths for n >= 2 leaves, none longer than max.
pub fn random_lengths(rng: &mut crate::rng::Rng, n: usize, max: u8, skew: usize) -> Vec<u8> {
    let mut l = vec![1u8, 1];
    while l.len() < n {
        // Split a leaf: skew > 0 prefers the most recently created ones (deep trees)
        let mut tries = 0;
        loop {
            let i = if skew > 0 && rng.chance(skew, 10) {
                l.len() - 1
            } else {
                rng.below(l.len())
            };
            if l[i] < max {
                let d = l.remove(i) + 1;
                l.push(d);
                l.push(d);
                break;
            }
            tries += 1;
            if tries > 50 {
                // choose the shallowest leaf
                let i = (0..l.len()).min_by_key(|i| l[*i]).unwrap();
                let d = l.remove(i) + 1;
                l.push(d);
                l.push(d);
                break;
            }
        }
    }
    l
}
