//! Choice-sequence source: every generated case is a function of the sequence of bounded integer
//! choices drawn here. The same type replays a recorded sequence (for shrinking and replay files)
//! and can be fed raw bytes (coverage-guided fuzzing).

use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

enum Mode {
    Random(Rng),
    Replay { choices: Vec<u64>, pos: usize },
    Bytes { data: Vec<u8>, pos: usize },
}

pub struct Source {
    mode: Mode,
    pub rec: Vec<u64>,
    trace: Option<std::fs::File>,
}

impl Source {
    pub fn random(seed: u64, index: u64) -> Self {
        let mut r = Rng::new(seed ^ 0x5eed_0000_0000_0000);
        let a = r.next();
        let mut r2 = Rng::new(a ^ index.wrapping_mul(0xd134_2543_de82_ef95));
        r2.next();
        Source { mode: Mode::Random(r2), rec: Vec::new(), trace: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Source { mode: Mode::Replay { choices, pos: 0 }, rec: Vec::new(), trace: None }
    }
    pub fn bytes(data: Vec<u8>) -> Self {
        Source { mode: Mode::Bytes { data, pos: 0 }, rec: Vec::new(), trace: None }
    }
    /// Append every choice to `f` as it is drawn, so that the sequence survives a crash.
    pub fn set_trace(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }

    fn raw(&mut self, n: Option<u64>) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                match n {
                    Some(n) => ((x as u128 * n as u128) >> 64) as u64,
                    None => x,
                }
            }
            Mode::Replay { choices, pos } => {
                let x = choices.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                match n {
                    Some(n) => x % n,
                    None => x,
                }
            }
            Mode::Bytes { data, pos } => {
                let width = match n {
                    Some(n) if n <= 1 << 8 => 1,
                    Some(n) if n <= 1 << 16 => 2,
                    Some(n) if n <= 1 << 32 => 4,
                    _ => 8,
                };
                let mut x = 0u64;
                for i in 0..width {
                    x |= (data.get(*pos + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *pos += width;
                match n {
                    Some(n) => x % n,
                    None => x,
                }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            let _ = writeln!(f, "{v}");
        }
        v
    }

    /// Uniform in `0..n`; shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.raw(Some(n))
    }
    /// All 64 bits.
    pub fn bits(&mut self) -> u64 {
        self.raw(None)
    }
    /// Uniform in `lo..=hi`; shrinks towards `lo`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi.wrapping_sub(lo) as u64) + 1) as i64)
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Weighted choice: returns an index.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
}
