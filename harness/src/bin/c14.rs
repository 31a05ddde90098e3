//! C14: Hilbert traversals visit every pixel exactly once, moving to a neighbour
use cniic_mon::*;

/// The trace checkers. Each judges a complete list of visited positions.
type Trace = Vec<(u32, u32)>;

fn each_once(what: &str, t: &Trace, w: u32, h: u32) -> R {
    let mut seen = vec![false; w as usize * h as usize];
    for (i, &(x, y)) in t.iter().enumerate() {
        ensure!(x < w && y < h, "outside", "{what}: step {i} is at ({x}, {y})");
        let s = &mut seen[(y as u64 * w as u64 + x as u64) as usize];
        ensure!(!*s, "twice", "{what}: ({x}, {y}) is visited again at step {i}");
        *s = true;
    }
    if let Some(i) = seen.iter().position(|s| !s) { viol!("missed", "{what}: ({}, {}) is never visited, {} pixels are", i as u32 % w, i as u32 / w, t.len()) }
    Ok(())
}

fn adjacent(what: &str, t: &Trace) -> R {
    for (i, p) in t.windows(2).enumerate() {
        let d = p[0].0.abs_diff(p[1].0) as u64 + p[0].1.abs_diff(p[1].1) as u64;
        ensure!(d == 1, "jump", "{what}: from {:?} at step {i} to {:?}", p[0], p[1]);
    }
    Ok(())
}

/// Independent definition of a Hilbert curve: every aligned power-of-two block is visited in one go
fn block_contiguous(what: &str, t: &Trace, side: u32) -> R {
    let mut b = 2;
    while b < side {
        let n = b as usize * b as usize;
        for (k, c) in t.chunks(n).enumerate() {
            let f = (c[0].0 / b, c[0].1 / b);
            ensure!(c.iter().all(|p| (p.0 / b, p.1 / b) == f), "blocks", "{what}: the {b}x{b} block {f:?} entered at step {} is left before it is complete", k * n);
        }
        b *= 2;
    }
    Ok(())
}

fn pow2_at_least(n: u32) -> u32 { let mut p = 1; while p < n { p *= 2 } p }
fn pow2_at_most(n: u32) -> u32 { let mut p = 1; while p * 2 <= n { p *= 2 } p }

#[cfg(feature = "direct")]
mod direct {
    use super::*;
    use cniic::verif::hilbert;
    use image::{GenericImageView, Rgb, Pixel};

    /// An image whose pixels tell where they are, without storing them. A position outside
    /// of the image is not refused: it is judged with the rest of the trace.
    pub struct Pos(pub u32, pub u32);
    impl GenericImageView for Pos {
        type Pixel = Rgb<u32>;
        fn dimensions(&self) -> (u32, u32) { (self.0, self.1) }
        fn bounds(&self) -> (u32, u32, u32, u32) { (0, 0, self.0, self.1) }
        fn get_pixel(&self, x: u32, y: u32) -> Rgb<u32> {
            Rgb([x, y, 77])
        }
    }
    fn trace(what: &str, limit: u64, it: impl Iterator<Item = Rgb<u32>>) -> Result<Trace, Viol> {
        let mut v = vec![];
        for p in it {
            let c = p.channels();
            v.push((c[0], c[1]));
            if v.len() as u64 > limit { viol!("twice", "{what}: the traversal is longer than the image") }
        }
        Ok(v)
    }

    pub fn one(w: u32, h: u32, which: &str, obs: &mut Obs) -> R {
        let n = w as u64 * h as u64;
        let img = Pos(w, h);
        if which.contains('r') {
            let what = format!("rectangle traversal of {w}x{h}");
            let t = run::guard(&what, || trace(&what, n, hilbert::linearize_rect(&img)))??;
            each_once(&what, &t, w, h)?;
            ensure!(t[0] == (0, 0), "start", "{what} starts at {:?}", t[0]);
            adjacent(&what, &t)?;
            let pos: Trace = run::guard(&what, || hilbert::iter(w as usize, h as usize).take(n as usize + 1).map(|p| (p.0 as u32, p.1 as u32)).collect())?;
            ensure!(pos == t, "iter", "{what}: the positions and the pixels come in different orders");
            if w == h && w.is_power_of_two() { block_contiguous(&what, &t, w)?; obs.count("power_of_two_squares", 1); }
            // What the program uses for all but the hilbert dumps
            let t2 = run::guard(&what, || trace(&what, n, hilbert::linearize(&img)))??;
            ensure!(t2 == t, "iter", "{what}: linearize differs from linearize_rect");
            obs.count("rect_steps", t.len() as u64);
            obs.eval(n > 2, format!("r{w}x{h}").as_bytes());
        }
        if which.contains('l') {
            let what = format!("large-square traversal of {w}x{h}");
            let t = run::guard(&what, || trace(&what, n, hilbert::linearize_large(&img)))??;
            each_once(&what, &t, w, h)?;
            let side = pow2_at_least(w.max(h));
            let full: Trace = run::guard(&what, || hilbert::iter(side as usize, side as usize).map(|p| (p.0 as u32, p.1 as u32)).collect())?;
            each_once(&what, &full, side, side)?;
            block_contiguous(&what, &full, side)?;
            let want: Trace = full.into_iter().filter(|p| p.0 < w && p.1 < h).collect();
            if let Some(i) = (0..t.len()).find(|i| t[*i] != want[*i]) { viol!("large-order", "{what}: step {i} is at {:?}, the curve of the {side}x{side} square has {:?} there", t[i], want[i]) }
            obs.count("large_steps", t.len() as u64);
            obs.eval(n > 2, format!("l{w}x{h}").as_bytes());
        }
        if which.contains('s') {
            let what = format!("small-square traversal of {w}x{h}");
            let t = run::guard(&what, || trace(&what, n, hilbert::linearize_small(&img)))??;
            let side = pow2_at_most(w.min(h));
            each_once(&format!("{what} (square of {side})"), &t, side, side)?;
            adjacent(&what, &t)?;
            ensure!(t[0] == (0, 0), "start", "{what} starts at {:?}", t[0]);
            block_contiguous(&what, &t, side)?;
            obs.count("small_steps", t.len() as u64);
            obs.eval(n > 2, format!("s{w}x{h}").as_bytes());
        }
        obs.max("largest_image", n as f64);
        Ok(())
    }
    pub fn run(case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let (w, h0, h1): (u32, u32, u32) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        for h in h0..=h1 { one(w, h, f[0], obs)? }
        obs.sample(format!("{case}: widths {w}, heights {h0} to {h1}"));
        Ok(())
    }
}

#[cfg(not(feature = "direct"))]
mod direct {
    use super::*;
    use cniic_mon::codecs::*;
    /// The order in which hilbert(rle) stores a position-coded image
    pub fn run(case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let (w, h0, h1): (u32, u32, u32) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        let c = codec("hilbert(rle)")?;
        obs.evals(1);
        for h in h0..=h1 {
            if !f[0].contains('r') || w > 4095 || h > 4095 { continue }
            let what = format!("rectangle traversal of {w}x{h}");
            let img = image::DynamicImage::ImageRgb8(image::ImageBuffer::from_fn(w, h, |x, y| image::Rgb([x as u8, y as u8, (x >> 8 | (y >> 8) << 4) as u8])));
            let b = encode(&c, &img)?;
            let (_, _, runs) = match refs::parse_runs(&b) { Ok(x) => x, Err(e) => viol!("stream", "{what}: {e}") };
            let t: Trace = runs.iter().map(|(_, c)| (c[0] as u32 | ((c[2] & 15) as u32) << 8, c[1] as u32 | ((c[2] >> 4) as u32) << 8)).collect();
            each_once(&what, &t, w, h)?;
            ensure!(t[0] == (0, 0), "start", "{what} starts at {:?}", t[0]);
            adjacent(&what, &t)?;
            obs.eval(w * h > 2, format!("r{w}x{h}").as_bytes());
        }
        let _ = (block_contiguous, pow2_at_least, pow2_at_most);
        Ok(())
    }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C14" }
    fn rule(&self) -> String {
        "A case is a range of dimensions; the traversals run over an image whose pixels are their own positions, and each complete visit list is judged: inside the image, each pixel once, first pixel, unit steps, and, for power-of-two squares, every aligned block visited in one go (an independent definition of the curve). The large-square visit list is compared with the curve of the enclosing square after that one has been judged the same way. Every width and height up to a bound is covered, then powers of two and their neighbours, lines, and random larger dimensions. An evaluation is one complete traversal; distinct ones are distinct (traversal, dimensions) with more than two pixels.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let (mr, ml) = (ctx.n(130, 400) as u32, ctx.n(66, 180) as u32);
        for w in 1..=mr { v.push(format!("rs|{w}|1|{mr}")) }
        for w in 1..=ml { v.push(format!("l|{w}|1|{ml}")) }
        // Powers of two and their neighbours, in all combinations
        let ks: Vec<u32> = (0..=ctx.n(9, 12)).flat_map(|k| { let p = 1u32 << k; [p - 1, p, p + 1] }).filter(|x| *x > 0).collect();
        for &w in &ks { for &h in &ks { if w as u64 * h as u64 <= 1 << ctx.n(18, 23) && (w > ml || h > ml) {
            let l = if w.max(h) as u64 * w.max(h) as u64 <= 1 << ctx.n(19, 24) { "rsl" } else { "rs" };
            v.push(format!("{l}|{w}|{h}|{h}"))
        } } }
        // Lines and strips
        for n in [1000u32, 4096, 32767, 32768, 65535, 65536, 65537, 100_000] { for m in 1..=ctx.n(3, 8) as u32 { v.push(format!("rs|{n}|{m}|{m}")); v.push(format!("rs|{m}|{n}|{n}")) } }
        let mut r = ctx.rng(14);
        for _ in 0..ctx.n(250, 3000) {
            let m = if r.chance(1, 3) { 1500 } else { 400 };
            let (w, h) = (r.range(1, m) as u32, r.range(1, m) as u32);
            v.push(format!("{}|{w}|{h}|{h}", if r.chance(1, 3) { "rsl" } else { "rs" }))
        }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R { direct::run(case, obs) }
}
fn main() { cniic_mon::run::main_for(&C) }
