//! Every random decision of a case is a number of a list, by which the case can be replayed and made smaller.
pub struct Choices {
    given: Vec<u64>,
    pub taken: Vec<u64>,
    /// the case made of the choices is a non-trivial one
    pub nontrivial: bool,
    rng: u64,
    random: bool,
    pub consts: Vec<u64>,
}
impl Choices {
    pub fn random(seed: u64, consts: &[u64]) -> Self {
        Choices { given: vec![], taken: vec![], nontrivial: false, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, random: true, consts: consts.to_vec() }
    }
    pub fn replay(given: Vec<u64>, consts: &[u64]) -> Self { Choices { given, taken: vec![], nontrivial: false, rng: 0, random: false, consts: consts.to_vec() } }
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0 .. n-1; 0 is the simplest choice
    pub fn pick(&mut self, n: u64) -> u64 {
        let v = if self.random { self.next() % n.max(1) } else { self.given.get(self.taken.len()).copied().unwrap_or(0) % n.max(1) };
        self.taken.push(v);
        v
    }
    /// true with a probability of p percent; false is simpler
    pub fn chance(&mut self, p: u64) -> bool {
        let v = if self.random { (self.next() % 100 < p) as u64 } else { self.given.get(self.taken.len()).copied().unwrap_or(0) & 1 };
        self.taken.push(v);
        v == 1
    }
    pub fn constant(&mut self) -> u64 {
        if self.consts.is_empty() { return 3 }
        let k = self.pick(self.consts.len() as u64) as usize;
        self.consts[k].max(2)
    }
    /// a size: mostly small, sometimes around one of the constants of the code
    pub fn size(&mut self, small: u64, max: u64) -> u64 {
        if !self.consts.is_empty() && self.chance(4) {
            let k = self.pick(self.consts.len() as u64) as usize;
            let d = self.pick(3);
            return (self.consts[k] + d).saturating_sub(1).min(max);
        }
        self.pick(small + 1).min(max)
    }
}
