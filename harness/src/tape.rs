//! The source of every random choice: a finite tape of 16-bit words. Once the tape is used up every
//! further word is 0, and 0 always selects the simplest alternative, so deleting words or lowering
//! them shrinks the generated case.
pub struct Tape<'a> {
    w: &'a [u16],
    i: usize,
    /// read from the end now
    back: bool,
}

impl<'a> Tape<'a> {
    pub fn new(w: &'a [u16]) -> Tape<'a> {
        Tape { w, i: 0, back: false }
    }
    pub fn word(&mut self) -> u16 {
        let n = self.w.len();
        let v = if self.i >= n {
            0
        } else if self.back {
            self.w[n - 1 - self.i]
        } else {
            self.w[self.i]
        };
        self.i += 1;
        v
    }
    /// Goes on from the other end: what is chosen after a document (pieces, settings) must not depend on
    /// how much of the tape the document took.
    pub fn flip(&mut self) {
        if !self.back {
            self.back = true;
            self.i = 0;
        }
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 0x10000 {
            self.word() as usize % n
        } else {
            ((self.word() as usize) << 16 | self.word() as usize) % n
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability n/d; false is the simple choice
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        let v = self.below(d);
        v >= d - n
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut k = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        w.len() - 1
    }
    /// small sizes mostly, up to max
    pub fn size(&mut self, max: usize) -> usize {
        let w = self.word() as usize;
        let m = match w & 7 {
            0..=3 => 3,
            4 | 5 => 8,
            6 => 24,
            _ => max,
        };
        (w >> 3) % (m.min(max) + 1)
    }
    pub fn u32(&mut self) -> u32 {
        (self.word() as u32) << 16 | self.word() as u32
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
