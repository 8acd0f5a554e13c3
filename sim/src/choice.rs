//! The single source of every decision in a run: a seeded generator whose
//! answers are recorded, so that the list of answers *is* the schedule and
//! fault trace. Replaying the list reproduces the run; editing it minimises it.

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut s = seed
        .wrapping_mul(0x2545_F491_4F6C_DD1D)
        .wrapping_add(hash_bytes(prop.as_bytes()))
        .wrapping_add(index.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    splitmix(&mut s);
    splitmix(&mut s)
}

pub const MAX_CHOICES: usize = 60_000;

pub struct Choices {
    rng: u64,
    script: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    /// shared memory mirror of `rec` (word 0 is the length), read by the
    /// driver when the process dies in the middle of a run
    mirror: *mut u32,
    mirror_cap: usize,
}

impl Choices {
    pub fn seeded(seed: u64) -> Self {
        Choices { rng: seed, script: None, rec: Vec::new(), mirror: std::ptr::null_mut(), mirror_cap: 0 }
    }
    pub fn scripted(v: Vec<u32>) -> Self {
        Choices { rng: 0, script: Some(v), rec: Vec::new(), mirror: std::ptr::null_mut(), mirror_cap: 0 }
    }
    pub fn mirror_to(&mut self, p: *mut u32, cap: usize) {
        self.mirror = p;
        self.mirror_cap = cap;
        if !p.is_null() {
            unsafe { p.write_volatile(0) };
        }
    }
    /// A number in 0..n. By convention 0 is the simplest answer.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = self.rec.len();
        let v = match &self.script {
            Some(s) => s.get(i).copied().unwrap_or(0) % n,
            None if i >= MAX_CHOICES => 0,
            None => (splitmix(&mut self.rng) >> 11) as u32 % n,
        };
        self.rec.push(v);
        if !self.mirror.is_null() && i + 1 < self.mirror_cap {
            unsafe {
                self.mirror.add(i + 1).write_volatile(v);
                self.mirror.write_volatile(i as u32 + 1);
            }
        }
        v
    }
    /// True with probability num/den; 0 always means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.draw(v.len() as u32) as usize;
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, &p) in w.iter().enumerate() {
            if x < p {
                return i;
            }
            x -= p;
        }
        0
    }
}
