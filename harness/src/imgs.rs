//! Image workloads. A spec is a line "WxH pattern[:arg] seed format", and is all it takes to rebuild the image.
use crate::refs;
use crate::rng::Rng;
use image::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Spec { pub w: u32, pub h: u32, pub pat: String, pub arg: u64, pub seed: u64, pub fmt: String }

pub const FORMATS: [&str; 10] = ["rgb8", "rgba8", "l8", "la8", "rgb16", "rgba16", "l16", "la16", "rgb32f", "rgba32f"];

/// pattern name, default argument choices
pub const PATTERNS: [(&str, &[u64]); 22] = [
    ("solid", &[0, 1, 3]),
    ("noise", &[2, 3, 16, 256]),
    ("pal", &[2, 3, 5, 17, 64, 65, 100, 256, 257, 1000]),
    ("skew", &[2, 5, 9, 12, 16, 20, 24]),
    ("grad", &[1, 3, 7]),
    ("rperiod", &[2, 3, 7, 64, 255, 256, 1000]),
    ("hruns", &[2, 5, 254, 255, 256, 257, 600]),
    ("rruns", &[2, 5, 255, 256, 600]),
    ("hexact", &[1, 2, 254, 255, 256, 509, 510, 511]),
    ("photo", &[1, 3, 8]),
    ("ext", &[1]),
    ("uniq", &[1, 7919]),
    ("blockrep", &[1, 7, 100, 1000, 5956, 5957, 5958, 6500]),
    ("walk", &[1, 2, 5, 20]),
    ("zebra", &[1, 2]),
    ("sparse", &[1, 5, 50]),
    ("hdrlike", &[1]),
    ("edges", &[1, 4]),
    ("avgtie", &[1, 2, 3]),
    ("blobs", &[2, 4, 9]),
    ("domin", &[2, 12, 40]),
    ("equal", &[2, 4, 16, 256]),
];

impl Spec {
    pub fn new(w: u32, h: u32, pat: &str, arg: u64, seed: u64, fmt: &str) -> Self { Spec { w, h, pat: pat.into(), arg, seed, fmt: fmt.into() } }
    pub fn text(&self) -> String { format!("{}x{} {}:{} {} {}", self.w, self.h, self.pat, self.arg, self.seed, self.fmt) }
    pub fn parse(s: &str) -> Spec {
        let f: Vec<&str> = s.split_whitespace().collect();
        let (w, h) = f[0].split_once('x').expect("WxH");
        let (p, a) = f[1].split_once(':').expect("pat:arg");
        Spec { w: w.parse().expect("w"), h: h.parse().expect("h"), pat: p.into(), arg: a.parse().expect("arg"), seed: f[2].parse().expect("seed"), fmt: f[3].into() }
    }
    pub fn random(r: &mut Rng, w: u32, h: u32) -> Spec {
        let (p, args) = r.pick(&PATTERNS);
        let arg = *r.pick(args);
        Spec::new(w, h, p, arg, r.next() >> 20, "rgb8")
    }
    pub fn with_fmt(mut self, f: &str) -> Spec { self.fmt = f.into(); self }
    pub fn build(&self) -> DynamicImage {
        let mut px = pixels(self);
        // "format~k": with pixel k changed
        let (f, k) = self.fmt.split_once('~').unwrap_or((&self.fmt, ""));
        if let Ok(k) = k.parse::<usize>() { px[k][k % 3] ^= 1 }
        to_format(self.w, self.h, &px, f, self.seed)
    }
}

fn rc(r: &mut Rng) -> [u8; 3] { let v = r.next(); [v as u8, (v >> 8) as u8, (v >> 16) as u8] }
fn differing(r: &mut Rng, c: [u8; 3]) -> [u8; 3] {
    loop {
        let mut d = c;
        // Sometimes only one channel changes
        if r.chance(1, 2) { d[r.us(3)] = r.byte() } else { d = rc(r) }
        if d != c { return d }
    }
}

/// Put a sequence along the Hilbert traversal
fn along_hilbert(w: u32, h: u32, seq: &[[u8; 3]]) -> Vec<[u8; 3]> {
    let mut v = vec![[0; 3]; seq.len()];
    for (p, c) in refs::hilbert_order(w, h).into_iter().zip(seq) { v[(p.1 * w + p.0) as usize] = *c }
    v
}

pub fn pixels(s: &Spec) -> Vec<[u8; 3]> {
    let n = s.w as usize * s.h as usize;
    let mut r = Rng::new(s.seed ^ crate::rng::hash_bytes(s.pat.as_bytes()) ^ s.arg.rotate_left(32));
    let (w, a) = (s.w as usize, s.arg);
    match s.pat.as_str() {
        "solid" => vec![match a { 0 => [0; 3], 1 => [255; 3], _ => rc(&mut r) }; n],
        "noise" => {
            let step = if a >= 256 { 1 } else { 255 / (a.max(2) - 1) };
            (0..n).map(|_| [0; 3].map(|_: u8| (r.below(a.max(2).min(256)) * step) as u8)).collect()
        }
        "pal" => { let p: Vec<_> = (0..a.max(1)).map(|_| rc(&mut r)).collect(); (0..n).map(|_| *r.pick(&p)).collect() }
        "skew" => {
            // Fibonacci-like frequencies: the deepest possible codes for this many pixels
            let k = a.max(2) as usize;
            let mut f: Vec<u64> = vec![1, 1];
            while f.len() < k { let l = f.len(); f.push(f[l - 1] + f[l - 2]) }
            let mut seq = Vec::with_capacity(n);
            'o: for (i, c) in f.iter().enumerate() {
                let col = [(i * 7 % 256) as u8, (i * 31 % 256) as u8, i as u8];
                for _ in 0..*c { if seq.len() == n { break 'o } seq.push(col) }
            }
            let last = *seq.last().unwrap();
            while seq.len() < n { seq.push(last) }
            if s.seed % 2 == 0 { r.shuffle(&mut seq) }
            seq
        }
        "grad" => (0..n).map(|i| { let (x, y) = ((i % w) as u64, (i / w) as u64); [(x * a) as u8, (y * a) as u8, ((x + y) * a / 2) as u8] }).collect(),
        "rperiod" => { let p: Vec<_> = (0..a.max(1)).map(|_| rc(&mut r)).collect(); (0..n).map(|i| p[i % p.len()]).collect() }
        "hruns" | "rruns" | "hexact" => {
            let mut seq = Vec::with_capacity(n);
            let mut c = rc(&mut r);
            while seq.len() < n {
                let l = if s.pat == "hexact" { a } else { r.range(1, a.max(1)) };
                for _ in 0..l { if seq.len() < n { seq.push(c) } }
                c = differing(&mut r, c);
            }
            if s.pat == "rruns" { seq } else { along_hilbert(s.w, s.h, &seq) }
        }
        "photo" => {
            // Sum of a few smooth waves plus noise
            let k: Vec<[f64; 5]> = (0..9).map(|_| [r.f64() * 0.2, r.f64() * 0.2, r.f64() * 6.3, r.f64() * 60.0, 0.0]).collect();
            (0..n).map(|i| {
                let (x, y) = ((i % w) as f64, (i / w) as f64);
                let mut c = [0u8; 3];
                for ch in 0..3 {
                    let v: f64 = 128.0 + k[ch * 3..ch * 3 + 3].iter().map(|k| k[3] * (k[0] * x + k[1] * y + k[2]).sin()).sum::<f64>();
                    c[ch] = (v + r.below(2 * a + 1) as f64 - a as f64).clamp(0.0, 255.0) as u8;
                }
                c
            }).collect()
        }
        "ext" => (0..n).map(|_| [0; 3].map(|_: u8| if r.chance(1, 2) { 255 } else { 0 })).collect(),
        "uniq" => (0..n).map(|i| { let v = (i as u64).wrapping_mul(a | 1) as u32; [v as u8, (v >> 8) as u8, (v >> 16) as u8] }).collect(),
        "blockrep" => {
            let b: Vec<_> = (0..a.max(1)).map(|_| rc(&mut r)).collect();
            let mut v: Vec<_> = (0..n).map(|i| b[i % b.len()]).collect();
            // Break some of the repetitions
            if s.seed % 3 == 0 { for _ in 0..(n / 500) { let i = r.us(n); v[i] = rc(&mut r) } }
            v
        }
        "walk" => {
            let mut c = rc(&mut r).map(|x| x as i64);
            let seq: Vec<_> = (0..n).map(|_| {
                let d = a as i64;
                if !r.chance(1, 3) { for x in c.iter_mut() { *x = (*x + r.below(2 * a + 1) as i64 - d).clamp(0, 255) } }
                c.map(|x| x as u8)
            }).collect();
            along_hilbert(s.w, s.h, &seq)
        }
        "zebra" => { let (p, q) = (rc(&mut r), rc(&mut r)); (0..n).map(|i| if (i / a.max(1) as usize) % 2 == 0 { p } else { q }).collect() }
        "sparse" => { let c = rc(&mut r); let mut v = vec![c; n]; for _ in 0..a { let i = r.us(n); v[i] = rc(&mut r) } v }
        "hdrlike" => (0..n).map(|_| *r.pick(&[[3, 0, 0], [0, 0, 0], [0, 0, 3], [0, 3, 0], [1, 0, 0], [255, 255, 255]])).collect(),
        "edges" => {
            // Flat regions with sharp borders
            let rects: Vec<_> = (0..8 * a).map(|_| { let (x, y) = (r.us(w), r.us(s.h as usize)); (x, y, x + 1 + r.us(w), y + 1 + r.us(s.h as usize), rc(&mut r)) }).collect();
            let bg = rc(&mut r);
            (0..n).map(|i| { let (x, y) = (i % w, i / w); rects.iter().rev().find(|q| q.0 <= x && x < q.2 && q.1 <= y && y < q.3).map(|q| q.4).unwrap_or(bg) }).collect()
        }
        "avgtie" => {
            // Sequences around integer and half-integer averages, distances exactly at small integers
            let mut c = 100i64;
            let seq: Vec<_> = (0..n).map(|_| { c = (c + *r.pick(&[0, 0, a as i64, -(a as i64), 2 * a as i64, -2 * (a as i64)])).clamp(0, 255); let v = c as u8; if r.chance(1, 2) { [v, v, v] } else { [v, 0, 0] } }).collect();
            along_hilbert(s.w, s.h, &seq)
        }
        "domin" => {
            // One colour nearly everywhere, others with counts falling by half
            let p: Vec<_> = (0..a.max(2)).map(|_| rc(&mut r)).collect();
            (0..n).map(|_| if r.chance(9, 10) { p[0] } else { let mut k = 1; while k + 1 < p.len() && k < 12 && r.chance(1, 2) { k += 1 } if k == 12 { *r.pick(&p) } else { p[k] } }).collect()
        }
        // White nearly everywhere
        "bright" => { let p: Vec<_> = (0..a.max(1)).map(|_| rc(&mut r)).collect(); (0..n).map(|_| if r.chance(999, 1000) { [255, 255, 252] } else { *r.pick(&p) }).collect() }
        "equal" => {
            // Every colour equally often, so that codes of different colours have the same length
            let p: Vec<_> = (0..a.max(1)).map(|_| rc(&mut r)).collect();
            let mut seq: Vec<_> = (0..n).map(|i| p[i % p.len()]).collect();
            r.shuffle(&mut seq);
            seq
        }
        "blobs" => {
            // Well-separated tight colour groups
            let p: Vec<_> = (0..a).map(|_| rc(&mut r).map(|x| (x / 2 + 64) as i64)).collect();
            (0..n).map(|_| { let c = *r.pick(&p); c.map(|x| (x + r.below(9) as i64 - 4).clamp(0, 255) as u8) }).collect()
        }
        p => panic!("unknown pattern {p}"),
    }
}

/// An image of the given format whose 8-bit RGB view is as close as the format permits to px
pub fn to_format(w: u32, h: u32, px: &[[u8; 3]], fmt: &str, seed: u64) -> DynamicImage {
    let mut r = Rng::new(seed ^ 0xA1FA);
    let at = |x: u32, y: u32| px[(y * w + x) as usize];
    macro_rules! mk { ($f:expr) => { ImageBuffer::from_fn(w, h, $f) } }
    match fmt {
        "rgb8" => DynamicImage::ImageRgb8(mk!(|x, y| Rgb(at(x, y)))),
        "rgba8" => DynamicImage::ImageRgba8(mk!(|x, y| { let p = at(x, y); Rgba([p[0], p[1], p[2], *r.pick(&[0, 1, 127, 254, 255])]) })),
        "l8" => DynamicImage::ImageLuma8(mk!(|x, y| Luma([at(x, y)[0]]))),
        "la8" => DynamicImage::ImageLumaA8(mk!(|x, y| LumaA([at(x, y)[1], r.byte()]))),
        "rgb16" => DynamicImage::ImageRgb16(mk!(|x, y| { let p = at(x, y); Rgb(p.map(|v| (v as u16) << 8 | (r.byte() as u16))) })),
        "rgba16" => DynamicImage::ImageRgba16(mk!(|x, y| { let p = at(x, y).map(|v| (v as u16) * 257); Rgba([p[0], p[1], p[2], r.next() as u16]) })),
        "l16" => DynamicImage::ImageLuma16(mk!(|x, y| Luma([(at(x, y)[0] as u16) << 8 | r.byte() as u16]))),
        "la16" => DynamicImage::ImageLumaA16(mk!(|x, y| LumaA([(at(x, y)[2] as u16) * 257, r.next() as u16]))),
        "rgb32f" => DynamicImage::ImageRgb32F(mk!(|x, y| Rgb(at(x, y).map(|v| v as f32 / 255.0)))),
        "rgba32f" => DynamicImage::ImageRgba32F(mk!(|x, y| { let p = at(x, y).map(|v| v as f32 / 255.0); Rgba([p[0], p[1], p[2], r.f64() as f32]) })),
        f => panic!("unknown format {f}"),
    }
}

/// Small dimensions covering every combination up to m, then lines, powers of two +-1, primes
pub fn small_dims(m: u32) -> Vec<(u32, u32)> {
    let mut v = Vec::new();
    for w in 1..=m { for h in 1..=m { v.push((w, h)) } }
    v
}

pub fn odd_dims() -> Vec<(u32, u32)> {
    let mut v = vec![];
    for n in [11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513] { v.push((1, n)); v.push((n, 1)); v.push((2, n)); v.push((n, 3)) }
    for (a, b) in [(15, 16), (16, 15), (16, 16), (17, 16), (31, 33), (32, 32), (33, 31), (63, 65), (64, 64), (65, 63), (13, 97), (97, 13), (7, 101), (101, 7), (40, 25), (25, 40), (128, 5), (5, 128)] { v.push((a, b)) }
    v
}

/// Dimensions that do not fit in 16 bits, or whose product does not
pub fn wide_dims() -> Vec<(u32, u32)> { vec![(65535, 1), (65536, 1), (65537, 1), (1, 65536), (1, 65539), (65536, 2), (2, 65537), (3, 66000), (70001, 1), (131072, 1), (1, 131074), (256, 256), (257, 256), (256, 257), (32768, 2), (4, 16384), (511, 129)] }
