//! Choice tape: every random choice of a generator is read from here, so a
//! shrunk tape is a shrunk case and a saved tape replays it exactly.

pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }
    /// Next raw word; 0 (the simplest choice) when the tape is used up.
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    /// n words derived from the next one: side decisions that must not run out with
    /// the tape. 0 gives all zeros, the simplest.
    pub fn derived(&mut self, n: usize) -> Vec<u32> {
        let mut x = self.raw() as u64;
        if x == 0 {
            return vec![];
        }
        (0..n)
            .map(|_| {
                x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                (z >> 32) as u32
            })
            .collect()
    }
    /// Uniform in 0..n, 0 is simplest.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.raw() as usize) % n
    }
    /// true with probability num/den; false is simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Weighted choice: index of the chosen weight.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        0
    }
}
