//! Choice tape: every generator in this crate draws its decisions from a tape of
//! `u32`s.  Tapes come from proptest strategies (see driver.rs); a tape that runs
//! out yields zeros, and every generator maps zero to its smallest choice, so
//! shrinking the tape shrinks the generated value.

pub struct Gen<'a> {
    tape: &'a [u32],
    pos: usize,
    fuel: usize,
}

impl<'a> Gen<'a> {
    pub fn new(tape: &'a [u32]) -> Gen<'a> {
        Gen { tape, pos: 0, fuel: tape.len() * 4 + 64 }
    }

    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }

    pub fn exhausted(&self) -> bool {
        self.pos >= self.tape.len()
    }

    pub fn raw(&mut self) -> u32 {
        let v = self.tape.get(self.pos).cloned().unwrap_or(0);
        self.pos += 1;
        self.fuel = self.fuel.saturating_sub(1);
        v
    }

    /// uniform in 0..n (n > 0), monotone in the tape value
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }

    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den; false is the minimal choice
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let x = self.below(den);
        x >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.below(xs.len());
        &xs[i]
    }

    /// index drawn with the given weights; index 0 is the minimal choice
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}
