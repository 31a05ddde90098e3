//! C10: approximate run-length coding keeps every pixel within the allowance
use cniic_mon::{codecs::*, imgs::*, *};

const ALLOW: [&str; 34] = ["0", "-0", "0.0", "0e0", "1e-300", "0.1", "0.5", "1", "1.0", "1.25", "1.4142135623730951", "1.5", "1.7320508075688772", "2", "2.5", "3", "4.75", "5", "8", "12", "17.3", "25", "50", "80.5", "100", "200", "255", "441.6", "441.7", "1e9", "inf", "nan", "-1", "-inf"];

fn near(d: f64) -> f64 { 1e-9 * d.abs().max(1.0) }
/// A number whose square and whose comparisons are exact in any sensible arithmetic
fn dyadic(d: f64) -> bool { d.is_finite() && d.abs() < 4096.0 && (d * 256.0).fract() == 0.0 }

#[derive(PartialEq, Clone, Copy, Debug)]
enum J { In, Out, Either }
/// Must a pixel join a run of k pixels with this sum?
fn joins(sum: [u64; 3], k: u64, p: [u8; 3], d: f64) -> J {
    if d.is_nan() { return J::Out }
    if d.is_infinite() { return if d > 0.0 { J::In } else { J::Out } }
    // k * distance, exactly
    let n2: u128 = (0..3).map(|c| { let x = (k * p[c] as u64) as i128 - sum[c] as i128; (x * x) as u128 }).sum();
    if n2 == 0 { return if d >= 0.0 { J::In } else { J::Out } }
    let dist = (n2 as f64).sqrt() / k as f64;
    if dist < d - near(d) { return J::In }
    if dist > d + near(d) { return J::Out }
    // Exactly at the allowance, with every intermediate value representable?
    if dyadic(d) && d >= 0.0 && (k.is_power_of_two() || sum.iter().all(|s| s % k == 0)) {
        let dd = (d * 256.0) as u128 * k as u128;
        let lhs = n2 * 65536;
        if lhs == dd * dd { return J::In }
    }
    J::Either
}

/// Pixels at, just inside and just outside of the allowance of the run so far
fn boundary(n: usize, d: f64, r: &mut Rng) -> Vec<[u8; 3]> {
    let mut v: Vec<[u8; 3]> = vec![];
    let (mut sum, mut k) = ([0u64; 3], 0u64);
    let rc = |r: &mut Rng| [r.byte(), r.byte(), r.byte()];
    let start = |v: &[[u8; 3]]| *v.last().unwrap();
    let stick = r.range(1, 6);
    while v.len() < n {
        if k == 0 { let p = if v.is_empty() || r.chance(1, 2) { rc(r) } else { start(&v) }; v.push(p); sum = p.map(|x| x as u64); k = 1; continue }
        let dir = match r.below(5) { 0 => [1.0, 0.0, 0.0], 1 => [0.0, 1.0, 0.0], 2 => [0.0, 0.0, 1.0], 3 => [0.6, 0.8, 0.0], _ => [1.0 / 3.0, 2.0 / 3.0, 2.0 / 3.0] };
        let sg = if r.chance(1, 2) { 1.0 } else { -1.0 };
        let dd = if d.is_finite() { d.clamp(0.0, 300.0) } else { 3.0 };
        let t = match r.below(8) { 0..=1 => dd, 2 => dd + 0.5, 3 => dd + 1.0, 4 => dd - 0.5, 5 => dd - 1.0, 6 => 0.0, _ => dd * r.f64() * 1.5 };
        let t = if r.chance(stick, 8) { t.min(dd * 0.7) } else { t };
        let mut p = [0u8; 3];
        for c in 0..3 { p[c] = (sum[c] as f64 / k as f64 + sg * dir[c] * t).round().clamp(0.0, 255.0) as u8 }
        if joins(sum, k, p, d) == J::Out || k == 255 { sum = p.map(|x| x as u64); k = 1 } else { for c in 0..3 { sum[c] += p[c] as u64 } k += 1 }
        v.push(p);
    }
    v
}

fn image(case: &str) -> Result<(String, image::DynamicImage), Viol> {
    let f: Vec<&str> = case.splitn(2, '|').collect();
    if let Some(b) = f[1].strip_prefix("boundary ") {
        let q: Vec<&str> = b.split_whitespace().collect();
        let (w, h) = q[0].split_once('x').unwrap();
        let (w, h): (u32, u32) = (w.parse().unwrap(), h.parse().unwrap());
        let d: f64 = f[0].parse().unwrap();
        let seq = boundary((w * h) as usize, d, &mut Rng::new(q[1].parse().unwrap()));
        let mut px = vec![[0; 3]; seq.len()];
        for (p, c) in refs::hilbert_order(w, h).into_iter().zip(seq) { px[(p.1 * w + p.0) as usize] = c }
        return Ok((f[0].into(), to_format(w, h, &px, "rgb8", 0)))
    }
    Ok((f[0].into(), Spec::parse(f[1]).build()))
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C10" }
    fn rule(&self) -> String {
        "A case is an allowance d and an image (20 patterns in 10 formats, and sequences of pixels placed at, just inside and just outside of the allowance of the run they follow). The runs of the encoded stream are replayed over the Hilbert order of the original: at every pixel, the exact distance to the exact mean of the run decides whether it had to join or to start a new run; a difference of 1e-9 between them leaves both open unless it is exactly 0 in representable numbers. Run colours must be the mean rounded to nearest (both neighbours at exact halves), the decoded image must be the one the runs describe; for d = 0 the stream must be byte for byte the one of hilbert(rle) and of the independent encoder. An evaluation is one image; decisions are counted in 'observed'; non-trivial if the image has several colours and more than one run.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(10);
        for d in ALLOW {
            for i in 0..ctx.n(60, 1200) {
                let m = [6, 20, 40, 70][i % 4];
                v.push(format!("{d}|boundary {}x{} {}", r.range(1, m), r.range(1, m), r.next() >> 12));
            }
            for (p, args) in PATTERNS { for a in args { for _ in 0..ctx.n(1, 12) {
                let (w, h) = (r.range(1, 50) as u32, r.range(1, 50) as u32);
                v.push(format!("{d}|{}", Spec::new(w, h, p, *a, r.next() >> 20, "rgb8").text()));
            } } }
            for f in FORMATS { let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32); v.push(format!("{d}|{}", Spec::random(&mut r, w, h).with_fmt(f).text())) }
            for (w, h) in odd_dims() { if ctx.quick() && !r.chance(1, 4) { continue } v.push(format!("{d}|{}", Spec::random(&mut r, w, h).text())) }
            for p in ["solid:3", "photo:1", "walk:1", "avgtie:1"] { v.push(format!("{d}|{}x{} {p} {} rgb8", r.range(100, 180), r.range(100, 180), r.next() >> 20)) }
        }
        for _ in 0..ctx.n(1500, 20000) {
            // Any allowance
            let d = match r.below(3) { 0 => format!("{}", r.f64() * 60.0), 1 => format!("{}", (r.below(64) as f64) / 8.0), _ => format!("{}", (r.below(300) as f64).sqrt()) };
            v.push(format!("{d}|boundary {}x{} {}", r.range(1, 40), r.range(1, 40), r.next() >> 12));
        }
        r.shuffle(&mut v);
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let (dt, img) = image(case)?;
        let d: f64 = dt.parse().unwrap();
        let c = format!("hilbert(rle({dt}))");
        let cd = codec(&c)?;
        let b = encode(&cd, &img)?;
        let f = flat(&img);
        let seq = refs::hilbert_px(f.w, f.h, &f.px);
        let (w, h, runs) = match refs::parse_runs(&b) { Ok(x) => x, Err(e) => viol!("stream", "{case}: {e}") };
        ensure!((w, h) == (f.w, f.h), "stream", "{case}: {}x{} became {w}x{h}", f.w, f.h);
        if d == 0.0 {
            let mut m = refs::header(w, h);
            for g in seq.chunk_by(|a, b| a == b) { for q in g.chunks(255) { m.push(q.len() as u8); m.extend(refs::rgb_bytes(q[0])) } }
            ensure!(b == m, "zero", "{case}: the stream is not the one of maximal runs of equal colours");
            ensure!(encode(&codec("hilbert(rle)")?, &img)? == b, "zero", "{case}: the stream is not the one of hilbert(rle)");
            obs.count("zero_allowance_streams", 1);
        }
        let mut i = 0usize;
        let (mut exact, mut either, mut ins, mut outs) = (0u64, 0u64, 0u64, 0u64);
        for (j, (n, col)) in runs.iter().enumerate() {
            let n = *n as usize;
            let mut sum = seq[i].map(|x| x as u64);
            for k in 1..n {
                let p = seq[i + k];
                match joins(sum, k as u64, p, d) {
                    J::Out => viol!("joined", "{case}: pixel {} ({p:?}) joined run {j} of {k} pixels with mean {:?}: its distance is more than {d}", i + k, sum.map(|s| s as f64 / k as f64)),
                    J::Either => either += 1,
                    J::In => ins += 1,
                }
                for c in 0..3 { sum[c] += p[c] as u64 }
            }
            let next = i + n;
            if next < seq.len() && n < 255 {
                match joins(sum, n as u64, seq[next], d) {
                    J::In => viol!("split", "{case}: pixel {next} ({:?}) started a new run although its distance to the mean {:?} of the {n} pixels before it is at most {d}", seq[next], sum.map(|s| s as f64 / n as f64)),
                    J::Either => either += 1,
                    J::Out => outs += 1,
                }
            } else if next < seq.len() { exact += 1 }
            for c in 0..3 {
                let (v, n) = (2 * n as u64 * col[c] as u64, n as u64);
                ensure!(v + n >= 2 * sum[c] && v <= 2 * sum[c] + n, "mean", "{case}: run {j} of {n} pixels from {i} has the colour {col:?}; the mean is {:?}", sum.map(|s| s as f64 / n as f64));
            }
            i += n;
        }
        let Some(dec) = decode(&cd, &b)? else { viol!("none", "{case}: the stream can't be decoded") };
        let g = flat(&dec);
        ensure!((g.w, g.h) == (w, h), "decoded", "{case}: wrong dimensions");
        let want: Vec<[u8; 3]> = runs.iter().flat_map(|(n, c)| std::iter::repeat(*c).take(*n as usize)).collect();
        if let Some(k) = refs::hilbert_px(w, h, &g.px).iter().zip(&want).position(|(a, b)| a != b) { viol!("decoded", "{case}: pixel {k} of the traversal is not decoded as the colour of its run") }
        obs.eval(runs.len() > 1 && f.px.iter().any(|p| *p != f.px[0]), case.as_bytes());
        obs.count("joins_required", ins);
        obs.count("splits_required", outs);
        obs.count("splits_at_255", exact);
        obs.count("undecided_at_the_allowance", either);
        obs.count("runs", runs.len() as u64);
        obs.max("longest_run", runs.iter().map(|r| r.0).max().unwrap() as f64);
        obs.sample(format!("{case}: {} runs over {} pixels", runs.len(), seq.len()));
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
