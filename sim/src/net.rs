//! Event queue and a bad network, for parties that react to messages and timers.

use crate::rt::World;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub struct Sim<E> {
    pub w: World,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    ev: BTreeMap<u64, E>,
    seq: u64,
    pub steps: u64,
}

impl<E> Sim<E> {
    pub fn new(w: &World) -> Self {
        Sim { w: w.clone(), q: BinaryHeap::new(), ev: BTreeMap::new(), seq: 0, steps: 0 }
    }

    pub fn after(&mut self, delay: u64, e: E) {
        let t = self.w.now() + delay;
        self.seq += 1;
        self.q.push(Reverse((t, self.seq)));
        self.ev.insert(self.seq, e);
    }

    pub fn next(&mut self) -> Option<E> {
        let Reverse((t, s)) = self.q.pop()?;
        let mut core = self.w.core();
        core.now = core.now.max(t);
        self.steps += 1;
        self.ev.remove(&s)
    }
}

/// What the network does to messages. Rates are per mille.
#[derive(Clone, Debug)]
pub struct Air {
    pub loss: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub max_delay: u64,
    /// No message passes between the two halves in these times
    pub cuts: Vec<(u64, u64)>,
    /// After this, messages only take time
    pub calm: u64,
}

impl Air {
    pub fn random(w: &World, calm: u64) -> Self {
        let n = w.draw(3);
        Air {
            loss: w.pick(&[0, 50, 200, 500]),
            dup: w.pick(&[0, 50, 300]),
            corrupt: 0,
            max_delay: w.pick(&[10, 1000, 30_000]),
            cuts: (0..n)
                .map(|_| {
                    let a = w.draw(calm);
                    (a, a + w.draw(calm / 3 + 1))
                })
                .collect(),
            calm,
        }
    }

    /// The copies that arrive, and after how long
    pub fn carry(&self, w: &World, from: usize, to: usize, data: &[u8]) -> Vec<(u64, Vec<u8>)> {
        let now = w.now();
        let mut out = vec![];
        if now >= self.calm {
            return vec![(1 + w.draw(self.max_delay), data.to_vec())];
        }
        if from % 2 != to % 2 && self.cuts.iter().any(|(a, b)| now >= *a && now < *b) {
            w.fault("fault.partition", to as u64);
            return out;
        }
        if w.chance(self.loss, 1000) {
            w.fault("fault.loss", to as u64);
            return out;
        }
        let mut copies = 1;
        if w.chance(self.dup, 1000) {
            w.fault("fault.duplicate", to as u64);
            copies = 2;
        }
        for _ in 0..copies {
            let mut d = data.to_vec();
            if w.chance(self.corrupt, 1000) {
                mutate(w, &mut d);
                w.fault("fault.corrupt", to as u64);
            }
            out.push((1 + w.draw(self.max_delay), d));
        }
        out
    }
}

/// Damage as lines, radios and flash cause it
pub fn mutate(w: &World, d: &mut Vec<u8>) {
    let n = w.range(1, 3);
    for _ in 0..n {
        let len = d.len() as u64;
        if len == 0 {
            d.push(w.draw(256) as u8);
            continue;
        }
        let at = w.draw(len) as usize;
        match w.draw(8) {
            0 | 1 => d[at] ^= 1 << w.draw(8),
            2 => d[at] = w.pick(&[0u8, 1, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xD7, 0xFF, 0x62, 0x20, 0x32, 0xB3, 0xE2, 0x66]),
            3 => d[at] = w.draw(256) as u8,
            4 => d.truncate(at),
            5 => d.insert(at, w.draw(256) as u8),
            6 => {
                d.remove(at);
            }
            _ => {
                // a burst
                let end = (at + 1 + w.draw(6) as usize).min(d.len());
                for b in &mut d[at..end] {
                    *b = w.draw(256) as u8;
                }
            }
        }
    }
}
