//! A bounded sequence of choices. Every random decision of a case comes from a tape, so a case can
//! be replayed and shrunk by editing the recorded choices. 0 is always the simplest choice.
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};

enum Src {
    Rng(Box<ChaCha8Rng>),
    Replay(Vec<u64>),
    Bytes(Vec<u8>, usize),
}

pub struct Tape {
    src: Src,
    pub rec: Vec<u64>,
    /// crash recovery: choices are also appended to this file as they are made
    log: Option<std::fs::File>,
}

impl Tape {
    pub fn random(seed: u64, prop: &str, shard: u64, index: u64) -> Self {
        let mut key = [0u8; 32];
        key[..8].copy_from_slice(&seed.to_le_bytes());
        key[8..16].copy_from_slice(&shard.to_le_bytes());
        key[16..24].copy_from_slice(&index.to_le_bytes());
        for (i, b) in prop.bytes().enumerate() {
            key[24 + i % 8] = key[24 + i % 8].wrapping_mul(31).wrapping_add(b);
        }
        Tape { src: Src::Rng(Box::new(ChaCha8Rng::from_seed(key))), rec: vec![], log: crate::engine::rec_file() }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Tape { src: Src::Replay(choices), rec: vec![], log: crate::engine::rec_file() }
    }
    pub fn bytes(data: &[u8]) -> Self {
        Tape { src: Src::Bytes(data.to_vec(), 0), rec: vec![], log: crate::engine::rec_file() }
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let at = self.rec.len();
        let v = match &mut self.src {
            Src::Rng(r) => {
                if n <= u32::MAX as u64 {
                    ((r.next_u32() as u64) * n) >> 32
                } else {
                    ((r.next_u64() as u128 * n as u128) >> 64) as u64
                }
            }
            Src::Replay(c) => {
                let v = c.get(at).copied().unwrap_or(0);
                if v < n { v } else { v % n }
            }
            Src::Bytes(b, pos) => {
                let width = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 8 };
                let mut v = 0u64;
                for _ in 0..width {
                    v = v << 8 | b.get(*pos).copied().unwrap_or(0) as u64;
                    *pos += 1;
                }
                v % n
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            crate::engine::rec_write(f, v);
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn rangei(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
    /// length in min..=max, small lengths likelier
    pub fn len(&mut self, min: usize, max: usize) -> usize {
        let span = max - min;
        if span == 0 {
            return min;
        }
        let cap = match self.weighted(&[5, 3, 1]) {
            0 => span.min(2),
            1 => span.min(6),
            _ => span,
        };
        min + self.usize(cap + 1)
    }
    /// Fisher-Yates; all-zero choices leave the order unchanged
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.usize(xs.len() - i);
            xs.swap(i, j);
        }
    }
    pub fn string(&mut self, alphabet: &[char], min: usize, max: usize) -> String {
        let n = self.len(min, max);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    /// subset keeping order, each kept with probability num/den
    pub fn subset<T: Clone>(&mut self, xs: &[T], num: u64, den: u64) -> Vec<T> {
        xs.iter().filter(|_| self.chance(num, den)).cloned().collect()
    }
}
