//! Byte-string workloads. A spec "kind:len:arg:seed" rebuilds the string.
use crate::rng::{hash_bytes, Rng};

#[derive(Clone, Debug)]
pub struct BSpec { pub kind: String, pub len: usize, pub arg: u64, pub seed: u64 }

/// kind, default arguments
pub const KINDS: [(&str, &[u64]); 14] = [
    ("uniform", &[2, 3, 4, 16, 65, 256]),
    ("period", &[1, 2, 3, 5, 6, 7, 63, 64, 65, 255, 256, 257, 1000, 5000]),
    ("brokenperiod", &[5, 6, 7, 100, 700, 4000]),
    ("words", &[2, 5, 20, 200, 2000]),
    ("runs", &[3, 10, 300, 40000]),
    ("gap", &[65528, 65529, 65530, 65534, 65535, 65536, 65537, 65541]),
    ("fan", &[1, 2, 3]),
    ("morse", &[2, 3]),
    ("fibword", &[1]),
    ("counter", &[1, 2, 4]),
    ("walk", &[1, 3]),
    ("minrep", &[4, 5, 6, 7, 8]),
    ("const", &[0, 255, 97]),
    ("alternate", &[6, 12, 500]),
];

impl BSpec {
    pub fn new(kind: &str, len: usize, arg: u64, seed: u64) -> Self { BSpec { kind: kind.into(), len, arg, seed } }
    pub fn text(&self) -> String { format!("{}:{}:{}:{}", self.kind, self.len, self.arg, self.seed) }
    pub fn parse(s: &str) -> Self {
        let f: Vec<&str> = s.split(':').collect();
        BSpec { kind: f[0].into(), len: f[1].parse().expect("len"), arg: f[2].parse().expect("arg"), seed: f[3].parse().expect("seed") }
    }
    pub fn random(r: &mut Rng, len: usize) -> Self {
        let (k, a) = r.pick(&KINDS);
        let a = *r.pick(a);
        BSpec::new(k, len, a, r.next() >> 20)
    }
    pub fn build(&self) -> Vec<u8> {
        let (n, a) = (self.len, self.arg);
        let mut r = Rng::new(self.seed ^ hash_bytes(self.kind.as_bytes()) ^ a.rotate_left(40));
        let mut v: Vec<u8> = Vec::with_capacity(n + 64);
        match self.kind.as_str() {
            "uniform" => { let lo = if a >= 256 { 0 } else { r.byte() }; while v.len() < n { v.push(lo.wrapping_add(r.below(a) as u8)) } }
            "period" => { let p: Vec<u8> = (0..a).map(|_| r.byte()).collect(); while v.len() < n { v.push(p[v.len() % p.len()]) } }
            // ... of few letters: every short sequence in it comes again and again
            "period2" | "period4" => { let l = self.kind[6..].parse().unwrap(); let p: Vec<u8> = (0..a).map(|_| r.below(l) as u8 * 7).collect(); while v.len() < n { v.push(p[v.len() % p.len()]) } }
            "broken2" | "broken4" => {
                let l = self.kind[6..].parse().unwrap();
                let p: Vec<u8> = (0..a).map(|_| r.below(l) as u8 * 7).collect();
                while v.len() < n { v.push(if r.chance(1, 3 * a) { r.byte() } else { p[v.len() % p.len()] }) }
            }
            "brokenperiod" => {
                let p: Vec<u8> = (0..a).map(|_| r.byte()).collect();
                while v.len() < n { v.push(if r.chance(1, 4 * a) { r.byte() } else { p[v.len() % p.len()] }) }
            }
            "words" => {
                let w: Vec<Vec<u8>> = (0..a).map(|_| (0..r.range(1, 30)).map(|_| r.byte() % 32).collect()).collect();
                while v.len() < n { v.extend(r.pick(&w)) }
            }
            "runs" => while v.len() < n { let (b, l) = (r.byte(), r.range(1, a)); for _ in 0..l { v.push(b) } },
            "gap" => {
                // Blocks that recur at exactly distance a, and otherwise random data
                while v.len() < n {
                    let i = v.len();
                    if i >= a as usize && (i / 200) % 3 == 0 { let b = v[i - a as usize]; v.push(b) } else { v.push(r.byte()) }
                }
            }
            "fan" => {
                // Trie nodes with all the 256 children, several levels deep
                let p: Vec<u8> = (0..a).map(|_| r.byte()).collect();
                let mut order: Vec<u8> = (0..=255).collect();
                while v.len() < n { r.shuffle(&mut order); for b in &order { v.extend(&p); v.push(*b) } }
            }
            "morse" => while v.len() < n { let i = v.len() as u64; let mut s = 0; let mut x = i; while x > 0 { s += x % a; x /= a } v.push((s % a) as u8) },
            "fibword" => { let (mut x, mut y) = (vec![0u8], vec![0u8, 1]); while y.len() < n { let z = [&y[..], &x[..]].concat(); x = y; y = z } v = y }
            "counter" => { let mut c = 0u32; while v.len() < n { v.extend(&c.to_be_bytes()[4 - a as usize..]); c = c.wrapping_add(1) } }
            "walk" => { let mut c = r.byte(); while v.len() < n { c = c.wrapping_add(r.below(2 * a + 1) as u8).wrapping_sub(a as u8); v.push(c) } }
            "minrep" => {
                // Repetitions of about the minimum useful length between fresh bytes
                let p: Vec<u8> = (0..40).map(|_| r.byte()).collect();
                v.extend(&p);
                while v.len() < n {
                    let l = (a + r.below(3)).saturating_sub(1).max(1) as usize;
                    let s = r.us(p.len() - l);
                    v.extend(&p[s..s + l]);
                    for _ in 0..r.below(3) { v.push(r.byte()) }
                }
            }
            // Every stretch is the previous one with one more byte after (before) it
            "lchain" | "rchain" => {
                let mut l = 2;
                let t: Vec<u8> = (0..20_000).map(|i: u64| (i % a) as u8).collect();
                while v.len() < n { if self.kind == "lchain" { v.extend(&t[..l]) } else { v.extend(t[..l].iter().rev()) } l += 1 }
            }
            "const" => v = vec![a as u8; n],
            "alternate" => {
                // Compressible and incompressible stretches in turn
                while v.len() < n {
                    let l = 1 + r.us(a as usize * 3);
                    if r.chance(1, 2) && v.len() > 20 { let s = r.us(v.len()); let e = (s + l).min(v.len()); v.extend_from_within(s..e) } else { for _ in 0..l { v.push(r.byte()) } }
                }
            }
            k => panic!("unknown kind {k}"),
        }
        v.truncate(n);
        v
    }
}
