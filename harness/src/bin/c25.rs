//! C25: the work stays proportionate to the data
use cniic_mon::codecs::*;
use cniic_mon::imgs::Spec;
use cniic_mon::jobs::Job;
use cniic_mon::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    fn getrusage(who: i32, u: *mut [i64; 18]) -> i32;
}
/// CPU time of this thread, in nanoseconds: unlike the time of day, it doesn't depend on what else is running
fn cpu() -> u64 { let mut t = [0i64; 2]; unsafe { clock_gettime(3, &mut t) }; t[0] as u64 * 1_000_000_000 + t[1] as u64 }
/// CPU time of all processes this one has waited for
fn cpu_of_children() -> u64 { let mut u = [0i64; 18]; unsafe { getrusage(-1, &mut u) }; ((u[0] + u[2]) as u64 * 1_000_000 + (u[1] + u[3]) as u64) * 1000 }

/// What one hundredfold of work takes here, compared with the machine the limits are from
fn pace() -> f64 {
    static BITS: AtomicU64 = AtomicU64::new(0);
    let known = f64::from_bits(BITS.load(Relaxed));
    if known > 0.0 { return known }
    let mut best = u64::MAX;
    for k in 0..3u64 {
        let t = cpu();
        let mut m = std::collections::HashMap::new();
        let mut r = Rng::new(k);
        for _ in 0..150_000 { *m.entry(r.next() as u32 % 60_000).or_insert(0u64) += 1 }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by_key(|x| (x.1, x.0));
        std::hint::black_box(&v);
        best = best.min(cpu() - t);
    }
    let p = (best as f64 / REFERENCE_NS).clamp(1.0, 20.0);
    BITS.store(p.to_bits(), Relaxed);
    p
}
const REFERENCE_NS: f64 = 12e6;
/// For what a call costs in itself
const FIXED: f64 = 40e6;

fn parameter(c: &str) -> f64 { c.split(['(', ')']).nth(1).and_then(|x| x.parse().ok()).unwrap_or(1.0) }
/// Nanoseconds per pixel
fn enc_limit(c: &str, px: f64) -> f64 {
    let k = parameter(c).min(px);
    match c.split('(').next().unwrap() {
        "hufman" | "delta" => 25_000.0,
        "zip" if c == "zip(back)" => 800_000.0,
        "hilbert" if c != "hilbert(zip)" => 1_500.0,
        "zip" | "hilbert" => 60_000.0,
        "cluster-colors" => 25_000.0 + 1_000.0 * k,
        _ => 20_000.0 + 3_000.0 * k,
    }
}
fn dec_limit(c: &str, px: f64) -> f64 {
    let k = parameter(c).min(px);
    match c.split('(').next().unwrap() {
        "hufman" | "delta" => 15_000.0,
        "zip" if c == "zip(back)" => 1_500.0,
        "hilbert" if c != "hilbert(zip)" => 1_500.0,
        "zip" | "hilbert" => 15_000.0,
        "cluster-colors" => 4_000.0,
        _ => 1_000.0 + 50.0 * k,
    }
}
fn short(c: &str) -> &str { if c.starts_with("hilbert(rle") { "hilbert(rle)" } else if c.ends_with("p)") || c.starts_with("zip") { c } else { c.split('(').next().unwrap() } }

/// Does it again if it took too long: the least of a few times counts
fn timed<T>(limit: f64, clock: fn() -> u64, mut f: impl FnMut() -> Result<T, Viol>) -> Result<(T, f64), Viol> {
    let mut least = f64::INFINITY;
    for i in 0.. {
        let t = clock();
        let r = f()?;
        least = least.min((clock() - t) as f64);
        if least <= limit || i == 2 || least > 4.0 * limit { return Ok((r, least)) }
    }
    unreachable!()
}

fn image_case(c: &str, s: &Spec, obs: &mut Obs) -> R {
    let img = s.build();
    let px = (s.w * s.h) as f64;
    let cd = codec(c)?;
    let lim = pace() * (FIXED + px * enc_limit(c, px));
    let (b, t) = timed(lim, cpu, || encode(&cd, &img))?;
    obs.max(&format!("encode_share_of_limit:{}", short(c)), t / lim);
    ensure!(t <= lim, "encode-time", "{c} on {}: encoding took {:.3} s of CPU time, {:.0} ns per pixel; {:.3} s are the limit", s.text(), t / 1e9, t / px, lim / 1e9);
    let lim = pace() * (FIXED + px * dec_limit(c, px));
    let (d, t) = timed(lim, cpu, || decode(&cd, &b))?;
    obs.max(&format!("decode_share_of_limit:{}", short(c)), t / lim);
    ensure!(t <= lim, "decode-time", "{c} on {}: decoding {} bytes took {:.3} s of CPU time, {:.0} ns per pixel; {:.3} s are the limit", s.text(), b.len(), t / 1e9, t / px, lim / 1e9);
    ensure!(d.is_some(), "none", "{c} could not decode its own stream of {}", s.text());
    obs.max("pixels", px);
    obs.count("pixels_coded", px as u64);
    obs.evals(1);
    obs.eval(px > 1.0, format!("{c} {}", s.text()).as_bytes());
    Ok(())
}

/// Streams that were damaged, or that announce more than they have
fn damage_case(c: &str, kind: &str, s: &Spec, seed: u64, obs: &mut Obs) -> R {
    let px = (s.w * s.h) as f64;
    let cd = codec(c)?;
    let b = encode(&cd, &s.build())?;
    let head = if c.starts_with("zip") { if c == "zip(dict)" { 0 } else { 10 } } else { 8 };
    let mut r = Rng::new(seed);
    for _ in 0..30 {
        let d = match kind {
            "cut" => b[..r.us(b.len())].to_vec(),
            "flip" => { let mut d = b.clone(); for _ in 0..1 + r.us(4) { if d.len() > head { let k = head + r.us(d.len() - head); d[k] ^= 1 << r.below(8) } } d }
            "max" => { let mut d = b.clone(); let k = head + r.us((d.len() - head).clamp(1, 40)); for x in d.iter_mut().skip(k).take(*r.pick(&[1, 2, 4, 8])) { *x = 255 } d }
            // Small pieces, again and again
            "again" => { let (k, n) = (head + r.us(b.len().saturating_sub(head + 1).max(1)), r.range(1, 24) as usize); let p: Vec<u8> = b.iter().skip(k).take(n).copied().collect(); if p.is_empty() { b.clone() } else { let mut d = b[..k.min(b.len())].to_vec(); while d.len() < 300_000 { d.extend(&p) } d } }
            _ => { let n = *r.pick(&[20, 3000, 200_000]); let a = *r.pick(&[1, 2, 256]); let mut d = b[..head.min(b.len())].to_vec(); let lo = r.byte(); for _ in 0..n { d.push(lo.wrapping_add(r.below(a) as u8)) } d }
        };
        // The dimensions have to be those of before: other ones ask for other amounts
        if c == "zip(dict)" && !refs::dict_expand(&d[..d.len().min(16) / 4 * 4]).is_ok_and(|x| x.starts_with(&refs::header(s.w, s.h))) { obs.count("skipped_other_dimensions", 1); continue }
        if c == "zip(back)" && (d.len() < 10 || d[..10] != b[..10]) { obs.count("skipped_other_dimensions", 1); continue }
        let lim = pace() * (FIXED + 2.0 * px * dec_limit(c, px) + 4_000.0 * d.len() as f64);
        let (x, t) = timed(lim, cpu, || decode(&cd, &d))?;
        obs.max(&format!("damaged_share_of_limit:{}", short(c)), t / lim);
        ensure!(t <= lim, "damaged-time", "{c}, {kind} for {}: decoding {} bytes took {:.3} s of CPU time; {:.3} s are the limit (stream {}..)", s.text(), d.len(), t / 1e9, lim / 1e9, d.iter().take(60).map(|x| format!("{x:02x}")).collect::<String>());
        obs.count(if x.is_some() { "damaged_streams_decoded" } else { "damaged_streams_refused" }, 1);
        obs.eval(true, &[c.as_bytes(), &d].concat());
    }
    Ok(())
}

/// The program, on many images or on a large one
fn program_case(c: &str, kind: &str, n: usize, seed: u64, obs: &mut Obs) -> R {
    let j = Job::new("hufman", None, "", seed);
    let root = j.dir.path();
    let special = c == "special";
    let mut args: Vec<std::ffi::OsString> = vec![if special { "--special=hilbert".into() } else { format!("--codec={c}").into() }];
    let (limit, what) = if kind == "many" {
        for i in 0..n { let p = format!("in/{i}.png"); Spec::new(3, 2, "noise", 256, i as u64, "rgb8").build().save(root.join(&p)).expect("save"); args.push(p.into()) }
        (FIXED + match c { "special" => 3e6, "zip(dict)" => 1e6, _ => 4e5 } * n as f64, format!("{c} on {n} images of 3x2"))
    } else {
        // (a line, if the seed is odd)
        let (w, h) = if seed % 2 == 1 { (n as u32 * 3, 1) } else { (n as u32, n as u32) };
        Spec::new(w, h, kind, 256, seed, "rgb8").build().save(root.join("in/one.png")).expect("save");
        args.push("in/one.png".into());
        let px = (w * h) as f64;
        let square = (w.max(h).next_power_of_two() as f64).powi(2);
        (FIXED + if special { px * 15_000.0 + square * 500.0 } else { px * (2_000.0 + enc_limit(c, px) + dec_limit(c, px)) }, format!("{c} on an image of {w}x{h}"))
    };
    let limit = limit * pace();
    let ((), t) = timed(limit, cpu_of_children, || {
        let o = proc::run(root, &args, &[("RAYON_NUM_THREADS", "2".into())], 400);
        if let Some(h) = &o.hang { viol!("hang", "{what}: {h}") }
        ensure!(o.code == Some(0), "exit-status", "{what}: {}", o.how());
        Ok(())
    })?;
    obs.max(&format!("program_share_of_limit:{}:{}", short(c), if kind == "many" { "many" } else { "large" }), t / limit);
    ensure!(t <= limit, "program-time", "{what}: the program took {:.3} s of CPU time; {:.3} s are the limit", t / 1e9, limit / 1e9);
    obs.count("program_runs", 1);
    obs.eval(true, what.as_bytes());
    obs.sample(format!("{what}: {:.3} s of CPU time", t / 1e9));
    Ok(())
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C25" }
    fn rule(&self) -> String {
        "Each operation is watched with the clock that counts the CPU time of its thread (of all threads, for runs of the program): encoding and decoding of images up to a megapixel with what makes each codec work most (all colours distinct, constant, noise, fans, deep tries, lines of 200,000 pixels), decoding of damaged and repetitive streams, and the program on thousands of tiny images and on large ones. The limits are those of the property, ten to thirty times the usual amount per pixel, on the machine they were measured on; a reference workload of the harness makes them longer on a slower one. What takes too long is done three times, and the least time counts. An evaluation is one watched operation or run; distinct inputs are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(f64, String)> = vec![];
        let mut r = ctx.rng(25);
        let mut img = |c: &str, s: Spec, cost: f64| v.push(((s.w * s.h) as f64 * cost, format!("img|{c}|{}", s.text())));
        for (c, m, cost) in [("hufman", ctx.n(700, 2000), 2.0), ("delta", ctx.n(700, 2000), 2.0), ("zip(dict)", ctx.n(500, 1500), 4.0), ("hilbert(zip)", ctx.n(500, 1500), 4.0), ("hilbert(rle)", ctx.n(1000, 3000), 0.3), ("hilbert(rle(9))", ctx.n(1000, 3000), 0.3), ("zip(back)", ctx.n(140, 500), 80.0), ("cluster-colors(1)", ctx.n(400, 1500), 1.0), ("cluster-colors(16)", ctx.n(400, 1500), 3.0), ("cluster-colors(256)", ctx.n(130, 400), 20.0), ("voronoi(1)", ctx.n(400, 1500), 1.0), ("voronoi(9)", ctx.n(400, 1500), 6.0), ("voronoi(100)", ctx.n(140, 400), 20.0)] {
            let m = m as u32;
            for (p, a) in [("uniq", 1), ("uniq", 7919), ("solid", 0), ("noise", 256), ("noise", 2), ("skew", 28), ("photo", 20), ("zebra", 1), ("pal", 1000), ("blobs", 4)] {
                img(c, Spec::new(m, m, p, a, r.next() >> 40, "rgb8"), cost);
            }
            let l = (m * m).min(200_000);
            img(c, Spec::new(l, 1, "uniq", 1, 1, "rgb8"), cost);
            img(c, Spec::new(1, l, "noise", 256, 1, "rgb8"), cost);
            img(c, Spec::new(2, l / 2, "hruns", 600, 1, "rgb8"), cost);
            img(c, Spec::new(l / 3, 3, "photo", 8, 1, "rgb8"), cost);
            for _ in 0..ctx.n(10, 100) { let (w, h) = (r.range(1, m as u64 / 2) as u32, r.range(1, m as u64 / 2) as u32); img(c, Spec::random(&mut r, w, h), cost) }
        }
        // The window of zip(back) has to be full for a while
        for (p, a) in [("noise", 2), ("noise", 16), ("pal", 257), ("pal", 1000), ("rperiod", 1000), ("photo", 8)] { let m = ctx.n(380, 600) as u32; img("zip(back)", Spec::new(m, m, p, a, r.next() >> 40, "rgb8"), 30.0) }
        for c in ["cluster-colors", "voronoi"] { for n in ["3000", "4294967296"] { for (p, a) in [("noise", 256), ("solid", 0)] { img(&format!("{c}({n})"), Spec::new(40, 40, p, a, 1, "rgb8"), 300.0) } } }
        for c in ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "cluster-colors(6)", "voronoi(9)"] {
            for k in ["cut", "flip", "max", "again", "any"] { for _ in 0..ctx.n(4, 60) { let (w, h) = (r.range(1, 90) as u32, r.range(1, 90) as u32); let w = if r.chance(1, 4) { w * 10 } else { w }; let w = if c == "zip(back)" { w.min(60) } else { w }; v.push((300_000.0, format!("damage|{c}|{k}|{}|{}", r.next() >> 12, Spec::random(&mut r, w, h).text()))) } }
        }
        for (c, n) in [("hufman", 3000), ("hilbert(rle)", 12000), ("hilbert(rle(6))", 3000), ("special", 2000), ("zip(dict)", 1500)] { v.push((2e6, format!("prog|{c}|many|{}|{}", n * ctx.n(1, 5), r.next() >> 12))) }
        for (c, k, n) in [("special", "noise", 900), ("special", "solid", 1025), ("hilbert(rle)", "noise", 1200), ("hufman", "noise", 600), ("hilbert(rle(6))", "photo", 900)] { for line in 0..2 { v.push((3e6, format!("prog|{c}|{k}|{}|{}", n * ctx.n(1, 2), r.next() >> 40 << 1 | line))) } }
        // The long ones first
        v.sort_by(|a, b| b.0.total_cmp(&a.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        match f[0] {
            "img" => image_case(f[1], &Spec::parse(f[2]), obs),
            "damage" => damage_case(f[1], f[2], &Spec::parse(f[4]), f[3].parse().unwrap(), obs),
            _ => program_case(f[1], f[2], f[3].parse().unwrap(), f[4].parse().unwrap(), obs),
        }?;
        obs.max("pace", pace());
        Ok(())
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R {
        ensure!(t.c("pixels_coded") > 5_000_000 && t.c("damaged_streams_refused") > 500, "HARNESS", "too little was observed: {:?}", t.counts);
        Ok(())
    }
    fn cpu_limit(&self) -> u64 { 250 }
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 200 } else { 3000 } }
}
fn main() { cniic_mon::run::main_for(&C) }
