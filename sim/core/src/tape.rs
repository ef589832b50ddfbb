//! The choice tape: every nondeterministic decision of a run is drawn from here, so one tape is
//! one exactly repeatable execution, and shrinking a failure is shrinking its tape.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

pub struct Tape {
    rng: Option<Rng>,
    data: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape {
            rng: Some(Rng::new(seed)),
            data: Vec::new(),
            pos: 0,
            rec: Vec::new(),
        }
    }
    /// Replays `data`; decisions past its end take their simplest value.
    pub fn replay(data: Vec<u64>) -> Self {
        Tape {
            rng: None,
            data,
            pos: 0,
            rec: Vec::new(),
        }
    }
    /// A decision in `0..n`, 0 being the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.rec.push(v);
        v
    }
    /// True with probability `num/den`; the simplest value is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    /// A decision in `lo..=hi`, `lo` being the simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.draw(items.len() as u64) as usize;
        &items[i]
    }
    /// A seed for a local stream of unstructured choices; 0 means "plain".
    pub fn subseed(&mut self) -> u64 {
        self.draw(1 << 20)
    }
}
