//! The data provider: every random choice a check makes is decoded from one
//! byte string, which proptest generates (`bytes_strategy`) and shrinks.
//! Exhausted input decodes to 0, and 0 always means "the simplest choice", so
//! that deleting or lowering bytes simplifies the decoded case.

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;

pub struct Src<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Src { d, p: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        let b = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        b
    }
    pub fn u64(&mut self) -> u64 {
        let mut x = 0u64;
        for _ in 0..8 {
            x = (x << 8) | self.byte() as u64;
        }
        x
    }
    /// Uniform-ish in 0..n; monotone in the bytes.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else if n <= 256 {
            (self.byte() as u64 * n) >> 8
        } else if n <= 65536 {
            let x = ((self.byte() as u64) << 8) | self.byte() as u64;
            (x * n) >> 16
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.byte() >= 128
    }
    /// True with probability `pct` percent; 0 decodes to false.
    pub fn pct(&mut self, pct: u32) -> bool {
        (self.byte() as u32) * 100 >= (100 - pct.min(100)) * 256
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.us(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.below(tot as u64) as u32;
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// Heavy-tailed size in 0..=max: mostly small, now and then around a
    /// power of two (where buffers, masks and length encodings change).
    pub fn size(&mut self, max: usize) -> usize {
        const B: [usize; 30] = [
            7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 100, 127, 128,
            129, 255, 256,
        ];
        let b = self.byte();
        let n = if b < 150 {
            (b as usize * 5) / 150
        } else if b < 215 {
            5 + ((b as usize - 150) * 8) / 65
        } else {
            B[self.us(B.len())]
        };
        if n > max {
            if max == 0 {
                0
            } else {
                n % (max + 1)
            }
        } else {
            n
        }
    }
    /// A permutation of 0..n.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.us(i + 1);
            v.swap(i, j);
        }
        v
    }
}

/// proptest strategy for the byte string behind a case.
#[derive(Debug, Clone)]
pub struct Bytes;

impl Strategy for Bytes {
    type Tree = BytesTree;
    type Value = Vec<u8>;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        use proptest::prelude::Rng;
        let rng = runner.rng();
        let r = rng.next_u32();
        let len = match r % 100 {
            0..=14 => 16 + (r >> 8) % 112,
            15..=44 => 128 + (r >> 8) % 384,
            45..=84 => 512 + (r >> 8) % 1536,
            _ => 2048 + (r >> 8) % 2048,
        } as usize;
        let mut v = vec![0u8; len];
        rng.fill_bytes(&mut v);
        Ok(BytesTree::new(v))
    }
}

/// Shrinking: delete blocks, zero blocks, then lower single bytes.
#[derive(Debug, Clone)]
pub struct BytesTree {
    best: Vec<u8>,
    cur: Vec<u8>,
    phase: usize,
    pos: usize,
    improved: bool,
    started: bool,
}

const BLOCKS: [usize; 9] = [1024, 256, 64, 32, 16, 8, 4, 2, 1];

impl BytesTree {
    pub fn new(v: Vec<u8>) -> Self {
        BytesTree { best: v.clone(), cur: v, phase: 0, pos: 0, improved: false, started: false }
    }
    // Phases: 0 = truncations, 1..=9 delete blocks, 10..=18 zero blocks,
    // 19 = halve bytes, 20 = decrement bytes.
    fn next(&mut self) -> bool {
        loop {
            let n = self.best.len();
            match self.phase {
                0 => {
                    // pos = how much to keep, by halving the cut
                    let cut = n >> (self.pos + 1);
                    self.pos += 1;
                    if cut == 0 || n == 0 {
                        self.phase = 1;
                        self.pos = 0;
                        continue;
                    }
                    self.cur = self.best[..n - cut].to_vec();
                    return true;
                }
                1..=9 => {
                    let b = BLOCKS[self.phase - 1];
                    if self.pos + b > n {
                        self.phase += 1;
                        self.pos = 0;
                        continue;
                    }
                    let end = n - self.pos;
                    self.cur = self.best.clone();
                    self.cur.drain(end - b..end);
                    self.pos += b;
                    return true;
                }
                10..=18 => {
                    let b = BLOCKS[self.phase - 10];
                    if self.pos + b > n {
                        self.phase += 1;
                        self.pos = 0;
                        continue;
                    }
                    let r = self.pos..self.pos + b;
                    self.pos += b;
                    if self.best[r.clone()].iter().all(|x| *x == 0) {
                        continue;
                    }
                    self.cur = self.best.clone();
                    self.cur[r].iter_mut().for_each(|x| *x = 0);
                    return true;
                }
                19 | 20 => {
                    if self.pos >= n {
                        if self.phase == 19 {
                            self.phase = 20;
                            self.pos = 0;
                            continue;
                        }
                        if self.improved {
                            self.improved = false;
                            self.phase = 1;
                            self.pos = 0;
                            continue;
                        }
                        return false;
                    }
                    let p = self.pos;
                    let b = self.best[p];
                    self.pos += 1;
                    if b == 0 {
                        continue;
                    }
                    self.cur = self.best.clone();
                    self.cur[p] = if self.phase == 19 { b / 2 } else { b - 1 };
                    return true;
                }
                _ => return false,
            }
        }
    }
}

impl ValueTree for BytesTree {
    type Value = Vec<u8>;
    fn current(&self) -> Vec<u8> {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        // The current value fails: it is the best one so far.
        if self.started {
            if self.cur.len() < self.best.len() || self.cur < self.best {
                self.improved = true;
            }
            // Stay at the same place: the block after the deleted one moved here.
            match self.phase {
                0 => self.pos = 0,
                1..=9 => self.pos = self.pos.saturating_sub(BLOCKS[self.phase - 1]),
                19 | 20 => self.pos = self.pos.saturating_sub(1),
                _ => {}
            }
        }
        self.started = true;
        self.best = self.cur.clone();
        self.next()
    }
    fn complicate(&mut self) -> bool {
        // The current value passes: go back to the best and try the next one.
        if self.next() {
            true
        } else {
            self.cur = self.best.clone();
            false
        }
    }
}
