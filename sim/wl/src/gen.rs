//! Workload generation from a tape of bounded choices.  The tape is what gets minimised: every
//! choice is "smaller is simpler", and a missing choice is 0.
pub struct Gen;
impl Gen {
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        simrt::choose(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den (false is simpler)
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// a small non-zero integer
    pub fn value(&mut self) -> f64 {
        let v = self.below(18) as i64;
        (if v < 9 { v + 1 } else { 8 - v }) as f64
    }
}
