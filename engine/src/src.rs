//! The entropy source: a list of words chosen (and shrunk) by proptest, read front to back.
//! An exhausted source yields zeros, and zero always decodes to the simplest choice.

pub struct Src<'a> {
    w: &'a [u64],
    i: usize,
}

impl<'a> Src<'a> {
    pub fn new(w: &'a [u64]) -> Self {
        Src { w, i: 0 }
    }
    pub fn word(&mut self) -> u64 {
        let v = self.w.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    pub fn left(&self) -> usize {
        self.w.len().saturating_sub(self.i)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.word() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `pct`%. Zero words give `false`.
    pub fn pct(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        (self.word() % 100) as u32 >= 100u32.saturating_sub(pct)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Pick an index by weight.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        if total == 0 {
            return 0;
        }
        let mut r = (self.word() % u64::from(total)) as u32;
        for (i, &w) in ws.iter().enumerate() {
            if r < w {
                return i;
            }
            r -= w;
        }
        0
    }
}

/// Stable 64-bit FNV hash, for de-duplicating cases and deriving seeds.
pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for &b in *p {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}
