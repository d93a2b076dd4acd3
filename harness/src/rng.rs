//! A small deterministic generator of random choices.
/// `dict`: texts and numbers to use now and then, taken from the literals of the source under test.
pub struct Rng(u64, pub Vec<String>, pub Vec<i64>);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, vec![], vec![]); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    /// true once in n
    pub fn one(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    /// one of the texts; now and then one from the dictionary, alone or joined to it
    pub fn s(&mut self, xs: &[&str]) -> String {
        let x = self.plain(xs);
        if self.1.is_empty() && self.2.is_empty() || !self.one(16) { return x; }
        if x.parse::<i64>().is_ok() {
            if self.2.is_empty() { return x; }
            let i = self.below(self.2.len());
            let k = self.2[i];
            return k.to_string();
        }
        let d = if self.1.is_empty() { return x } else { let i = self.below(self.1.len()); self.1[i].clone() };
        match self.below(4) { 0 => d, 1 => d + &x, 2 => x + &d, _ => { let i = (0..=x.len()).filter(|i| x.is_char_boundary(*i)).collect::<Vec<_>>(); let i = i[self.below(i.len())]; format!("{}{}{}", &x[..i], d, &x[i..]) } }
    }
    pub fn plain(&mut self, xs: &[&str]) -> String { (*self.pick(xs)).to_string() }
    /// a number below n, now and then one from the dictionary
    pub fn size(&mut self, n: usize) -> usize {
        if !self.2.is_empty() && self.one(4) { let i = self.below(self.2.len()); let k = self.2[i]; if (0..3000).contains(&k) { return k as usize; } }
        if self.one(40) { return self.below(n * 4); }
        self.below(n)
    }
}
