//! Source of choices. Every random decision of a generator is one `below(n)` call; the sequence
//! of drawn values *is* the test case, so cases are replayed, mutated and shrunk as sequences.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(32));
    r.next();
    r.next() ^ b
}

pub struct Src {
    data: Vec<u64>,
    pos: usize,
    tail: Option<Rng>,
    pub rec: Vec<u64>,
    cap: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { data: vec![], pos: 0, tail: Some(Rng::new(seed)), rec: Vec::with_capacity(64), cap: 200_000 }
    }
    /// Replay `data`; past its end every choice is 0 (the simplest one).
    pub fn replay(data: &[u64]) -> Src {
        Src { data: data.to_vec(), pos: 0, tail: None, rec: Vec::with_capacity(data.len()), cap: 200_000 }
    }
    /// Replay `data`, then go on randomly.
    pub fn mutated(data: Vec<u64>, seed: u64) -> Src {
        Src { data, pos: 0, tail: Some(Rng::new(seed)), rec: Vec::with_capacity(64), cap: 200_000 }
    }

    /// A choice in `0..n`. Generators put the simplest alternative at 0.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.rec.len() >= self.cap {
            0
        } else if self.pos < self.data.len() {
            let v = self.data[self.pos];
            self.pos += 1;
            if v < n { v } else { v % n }
        } else {
            match &mut self.tail {
                Some(r) => r.below(n),
                None => 0,
            }
        };
        self.rec.push(v);
        v
    }
    pub fn below_us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability `num`/`den`; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below_us(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        ws.len() - 1
    }
    /// "Another element?" with continuation probability num/den, at most `max`, at least `min`.
    /// One choice per element, so deleting choices deletes elements.
    pub fn more(&mut self, have: usize, min: usize, max: usize, num: u64, den: u64) -> bool {
        if have < min {
            return true;
        }
        if have >= max {
            return false;
        }
        self.chance(num, den)
    }
}

/// Minimise a failing choice sequence. `fails` re-runs the case; it must be deterministic.
pub fn shrink(start: Vec<u64>, budget: usize, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    // a case that is slow to run is reported less small rather than late
    let clock = std::time::Instant::now();
    macro_rules! attempt {
        ($cand:expr) => {{
            let c: Vec<u64> = $cand;
            if left == 0 || clock.elapsed().as_secs() >= 45 {
                left = 0;
                false
            } else {
                left -= 1;
                match fails(&c) {
                    // `rec` is what was really drawn: never longer than needed
                    Some(rec) if (rec.len(), &rec) < (best.len(), &best) => {
                        best = rec;
                        true
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if i <= best.len() {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    if attempt!(c) {
                        i = i.min(best.len() + size);
                    }
                }
                i = lo;
                if left == 0 {
                    break;
                }
            }
            if size == 1 || left == 0 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in &[8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..hi] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && left > 0 {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] && left > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // lower one value and drop a later one (counts and their elements)
        let mut i = 0;
        while i < best.len() && left > 0 {
            if best[i] > 0 {
                for j in i + 1..(i + 6).min(best.len()) {
                    if i < best.len() && j < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.remove(j);
                        if attempt!(c) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}
