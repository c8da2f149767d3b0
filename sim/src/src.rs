//! The only source of randomness of a simulation: a recorded sequence of bounded choices.
//!
//! One seed is one sequence of choices, and one sequence of choices is one execution. A replay file holds the
//! sequence; shrinking edits it. A choice of 0 is always the simplest one (no fault, first task, smallest value),
//! and a replayed sequence that is too short continues with 0.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, data: &[u8]) -> u64 {
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut a = [0u64; 4];
        for x in a.iter_mut() {
            s = mix(s);
            *x = s;
        }
        Rng(a)
    }

    pub fn next(&mut self) -> u64 {
        // xoshiro256**
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Choices to make again, in the other order. None is one to make anew.
    again: Vec<Option<u64>>,
    /// Choices are also written here as they are made: for runs that end the process
    pub tee: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: vec![], again: vec![], tee: None }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: None, replay: choices, pos: 0, rec: vec![], again: vec![], tee: None }
    }

    /// Makes the choices since `from` again, with one of them made anew
    pub fn again(&mut self, from: usize) {
        let mut next: Vec<Option<u64>> = self.rec[from..].iter().map(|v| Some(*v)).collect();
        let k = self.draw(next.len() as u64) as usize;
        if let Some(x) = next.get_mut(k) {
            *x = None;
        }
        next.reverse();
        self.again = next;
    }

    /// Goes on with choices of its own
    pub fn anew(&mut self) {
        self.again.clear();
    }

    /// A choice in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let led = self.again.pop().flatten();
        let v = match &mut self.rng {
            Some(_) if led.is_some_and(|v| v < n) => led.unwrap_or(0),
            Some(rng) => ((rng.next() as u128 * n as u128) >> 64) as u64,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = f.write_all(format!("{v} ").as_bytes());
        }
        v
    }
}
