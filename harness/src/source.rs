//! The choice tape. Every random decision of a case is read from a vector of
//! `u32`s that proptest generates and shrinks; value 0 is always the simplest
//! choice and an exhausted tape reads as zeros, so shorter and smaller tapes
//! are simpler cases.

pub struct Source<'a> {
    d: &'a [u32],
    i: usize,
}

impl<'a> Source<'a> {
    pub fn new(d: &'a [u32]) -> Source<'a> {
        Source { d, i: 0 }
    }

    pub fn raw(&mut self) -> u32 {
        let v = self.d.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }

    pub fn raw64(&mut self) -> u64 {
        (u64::from(self.raw()) << 32) | u64::from(self.raw())
    }

    pub fn used_up(&self) -> bool {
        self.i > self.d.len()
    }

    /// A tape of `n` choices made from a few of this one.
    pub fn stretch(&mut self, n: usize) -> Vec<u32> {
        let mut x = self.raw64() | 1;
        (0..n)
            .map(|_| {
                x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
                (x >> 32) as u32
            })
            .collect()
    }

    /// Uniform in `0..n` (monotone in the tape value, so it shrinks to 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            self.i += 1;
            return 0;
        }
        ((u64::from(self.raw()) * n as u64) >> 32) as usize
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability `num/den`; false for tape value 0.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }

    /// A size in `0..=max`, skewed to small values but reaching `max`.
    pub fn size(&mut self, max: usize) -> usize {
        match self.weighted(&[5, 3, 1]) {
            0 => self.below(max.min(4) + 1),
            1 => self.below(max.min(12) + 1),
            _ => self.below(max + 1),
        }
    }

    /// A u32 with interesting magnitudes.
    pub fn u32_any(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4) as u32,
            1 => self.below(128) as u32,
            2 => self.below(20000) as u32,
            3 => {
                let b = self.below(32) as u32;
                let d = self.below(5) as u32;
                (1u32 << b).wrapping_add(d).wrapping_sub(2)
            }
            4 => u32::MAX - self.below(4) as u32,
            _ => self.raw(),
        }
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // 0 keeps the element in place.
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }

    pub fn exhausted(&self) -> bool {
        self.i >= self.d.len()
    }
}
