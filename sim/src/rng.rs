//! Pseudo-random numbers and recorded choice streams. Every decision of a simulated run is one draw from a `Stream`;
//! replaying the recorded draws repeats the run exactly, and a draw of 0 is always the simplest, most benign choice.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5DEE_CE66_D1CE_4E5B))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

/// Derives an independent seed from a base seed and a path of numbers.
pub fn derive(seed: u64, path: &[u64]) -> u64 {
    let mut s = mix(seed.wrapping_add(0x1234_5678_9ABC_DEF1));
    for p in path {
        s = mix(s.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ mix(p.wrapping_add(0x9E37_79B9_7F4A_7C15)));
    }
    s
}

pub struct Stream {
    rng: Option<Rng>,
    src: Vec<u32>,
    pub rec: Vec<u32>,
}

impl Stream {
    pub fn seeded(seed: u64) -> Self {
        Stream { rng: Some(Rng::new(seed)), src: Vec::new(), rec: Vec::new() }
    }

    pub fn replay(src: Vec<u32>) -> Self {
        Stream { rng: None, src, rec: Vec::new() }
    }

    /// Replays the choices from the given one on.
    pub fn replay_from(src: Vec<u32>, at: usize) -> Self {
        let rec = src[..at].to_vec();
        Stream { rng: None, src, rec }
    }

    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(rng) => rng.below(n as u64) as u32,
            None => self.src.get(self.rec.len()).copied().unwrap_or(0) % n,
        };
        self.rec.push(v);
        v
    }

    pub fn is_replay_empty(&self) -> bool {
        self.rng.is_none() && self.src.is_empty()
    }

    /// True with probability num/den; the draw 0 means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) >= den.saturating_sub(num)
    }

    /// Weighted choice; the draw 0 chooses the first entry with a weight.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.iter().position(|w| *w > 0).unwrap_or(0)
    }
}

#[derive(Clone)]
pub enum StreamSpec {
    Seed(u64),
    Choices(Vec<u32>),
}

impl StreamSpec {
    pub fn open(&self) -> Stream {
        match self {
            StreamSpec::Seed(s) => Stream::seeded(*s),
            StreamSpec::Choices(c) => Stream::replay(c.clone()),
        }
    }
}
