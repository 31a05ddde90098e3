//! C04: compressed sizes are those of the documented schemes
use cniic_mon::{bytesgen::*, codecs::*, imgs::*, *};

fn up(n: u64, d: u64) -> u64 { (n + d - 1) / d }
/// The most the look-back compressor may write for n bytes of any kind
fn back_bound(n: u64) -> u64 { n + 2 * up(n, 32767) }
/// ... and for n bytes that repeat with period m <= 65535
fn back_periodic_bound(n: u64, m: u64) -> u64 {
    let p = (2 * m + 64).min(n);
    back_bound(p) + 4 * (up(n - p, m.max(6).min(32767)) + 2) + 9
}

/// The smallest period of the data (KMP), if it repeats at all
fn period(d: &[u8]) -> usize {
    let mut f = vec![0usize; d.len()];
    for i in 1..d.len() { let mut k = f[i - 1]; while k > 0 && d[i] != d[k] { k = f[k - 1] } if d[i] == d[k] { k += 1 } f[i] = k }
    d.len() - f.last().copied().unwrap_or(0)
}

fn judge_back(what: &str, data: &[u8], size: u64, obs: &mut Obs) -> R {
    let n = data.len() as u64;
    ensure!(size <= back_bound(n), "expands:zip(back)", "zip(back) wrote {size} bytes for {n} bytes of {what}: more than {}", back_bound(n));
    // The dimensions at the start of an image are not part of the repetition
    let m = period(&data[(if what.contains(' ') { 8 } else { 0 }).min(data.len())..]) as u64;
    if n > 0 && m <= 65535 && n >= 3 * m + 200 {
        let b = back_periodic_bound(n, m);
        ensure!(size <= b, "periodic:zip(back)", "zip(back) wrote {size} bytes for {n} bytes of {what}, which repeats every {m} bytes: more than {b}");
        obs.count("periodic_inputs_bounded", 1);
        obs.max("longest_period_bounded", m as f64);
    }
    Ok(())
}

#[cfg(feature = "direct")]
fn bytes(c: &str, s: &str, obs: &mut Obs) -> R {
    use cniic::verif::zip::*;
    let data = BSpec::parse(s).build();
    let mut out = vec![];
    let r = run::guard(&format!("{c} of {s}"), || if c == "dict" { zip_dict_encode(data.iter().cloned(), &mut out) } else { zip_back_encode(data.iter().cloned(), &mut out) })?;
    ensure!(r.is_ok(), "encode-err", "{c} of {s}: {r:?}");
    if c == "dict" {
        let m = refs::dict_greedy(&data);
        ensure!(out.len() as u64 == 4 * m.pairs, "size:zip(dict)", "the dictionary compressor wrote {} bytes for {s}; greedy longest matches take {} pairs", out.len(), m.pairs);
        obs.max("dictionary_entries", m.symbols as f64);
        obs.max("longest_entry", m.longest as f64);
    }
    else { judge_back(s, &data, out.len() as u64, obs)? }
    obs.eval(data.len() > 1, format!("{c}{s}").as_bytes());
    obs.count(&format!("strings:{c}"), 1);
    obs.sample(format!("{c} of {s}: {} bytes", out.len()));
    Ok(())
}
#[cfg(not(feature = "direct"))]
fn bytes(_c: &str, _s: &str, obs: &mut Obs) -> R { let _ = BSpec::parse; obs.evals(1); Ok(()) }

fn image(c: &str, s: &str, obs: &mut Obs) -> R {
    let img = Spec::parse(s).build();
    let f = flat(&img);
    let cd = codec(c)?;
    let out = encode(&cd, &img)?;
    let size = out.len() as u64;
    let px = f.px.len() as u64;
    let want = match c {
        "hufman" => refs::hufman_size(&f.px),
        "delta" => refs::delta_size(f.w, f.h, &f.px),
        "hilbert(rle)" => {
            let mut n = 0u64;
            for g in refs::hilbert_px(f.w, f.h, &f.px).chunk_by(|a, b| a == b) { n += up(g.len() as u64, 255) }
            8 + 12 * n
        }
        "zip(dict)" => 4 * refs::dict_greedy(&refs::raster_stream(f.w, f.h, &f.px)).pairs,
        "hilbert(zip)" => 8 + 4 * refs::dict_greedy(&refs::hilbert_stream(f.w, f.h, &f.px)).pairs,
        "zip(back)" => { judge_back(s, &refs::raster_stream(f.w, f.h, &f.px), size, obs)?; size }
        _ if c.starts_with("voronoi") => { let k: u64 = c[8..c.len() - 1].parse().unwrap(); 16 + 19 * k.min(px) }
        _ => match decode(&cd, &out)? { Some(d) => refs::hufman_size(&flat(&d).px), None => viol!("none", "{c} could not decode its stream of {s}") },
    };
    ensure!(size == want, format!("size:{}", c.split('(').next().unwrap()), "{c} wrote {size} bytes for {s}; the scheme takes {want}");
    obs.eval(f.px.iter().any(|p| *p != f.px[0]), format!("{c}{s}").as_bytes());
    obs.count(&format!("images:{}", if c.contains("color") { "cluster-colors" } else if c.starts_with('v') { "voronoi" } else { c }), 1);
    obs.count("stream_bytes", size);
    obs.sample(format!("{c} of {s}: {size} bytes"));
    Ok(())
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C04" }
    fn rule(&self) -> String {
        "A case is an image (22 patterns, all small shapes, sizes up to dictionary saturation) or byte string (14 generators) compressed by one codec; the stream length is compared with an independent model: optimal prefix-code cost from symbol counts, maximal runs, greedy longest-match dictionary simulation, site count, hufman size of the decoded image, and for zip(back) the expansion bound and, for inputs whose smallest period (computed by KMP) fits the window, the periodic bound. Non-trivial: at least two colours / bytes; distinct by case.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(4);
        let all = ["hufman", "delta", "hilbert(rle)", "zip(dict)", "hilbert(zip)", "zip(back)", "cluster-colors(4)", "voronoi(5)"];
        let mut push = |c: &str, s: Spec| v.push((s.w as u64 * s.h as u64 * if c.len() > 12 { 5 } else { 1 }, format!("{c}|{}", s.text())));
        for (w, h) in small_dims(ctx.n(6, 16) as u32) { for c in all { push(c, Spec::random(&mut r, w, h)) } }
        for (w, h) in odd_dims() { for c in &all[..6] { push(c, Spec::random(&mut r, w, h)) } }
        for (p, args) in PATTERNS { for a in args { for c in all {
            for _ in 0..ctx.n(2, 8) {
                let (w, h) = (r.range(10, 80) as u32, r.range(10, 80) as u32);
                let c = match c { "voronoi(5)" => format!("voronoi({})", 1 + r.us(40)), "cluster-colors(4)" => format!("cluster-colors({})", 1 + r.us(30)), c => c.into() };
                push(&c, Spec::new(w, h, p, *a, r.next() >> 20, "rgb8"));
            }
        } } }
        for f in FORMATS { for c in all { let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32); push(c, Spec::random(&mut r, w, h).with_fmt(f)) } }
        for n in [1, 2, 3, 7, 100, 1000, 5000] { for (w, h) in [(1, 1), (3, 2), (9, 9), (31, 17)] {
            push(&format!("voronoi({n})"), Spec::random(&mut r, w, h));
            push(&format!("cluster-colors({n})"), Spec::random(&mut r, w, h));
        } }
        for (p, a) in [("noise", 256), ("photo", 3), ("solid", 3), ("hruns", 600), ("hexact", 255), ("hexact", 256), ("skew", 20), ("pal", 257), ("blockrep", 5900), ("uniq", 7919)] {
            for c in &all[..6] {
                for _ in 0..ctx.n(1, 5) {
                    let m = if *c == "zip(back)" { 150 } else { 330 };
                    push(c, Spec::new(r.range(m / 2, m) as u32, r.range(m * 3 / 4, m) as u32, p, a, r.next() >> 20, "rgb8"));
                }
            }
        }
        // Symbols that occur more often than 16 bits can count
        for (p, a) in [("skew", 24), ("skew", 27), ("skew", 29), ("domin", 12), ("domin", 40), ("equal", 3), ("pal", 3), ("noise", 2), ("sparse", 50), ("hruns", 600), ("solid", 3), ("edges", 4)] {
            for c in ["hufman", "delta", "hilbert(rle)", "zip(dict)", "cluster-colors(3)", "cluster-colors(11)"] {
                for _ in 0..ctx.n(1, 4) {
                    let m = if c == "zip(dict)" { 500 } else { 900 };
                    if c == "delta" && p == "noise" { continue }
                    push(c, Spec::new(r.range(m * 2 / 3, m) as u32, r.range(m * 2 / 3, m) as u32, p, a, r.next() >> 20, "rgb8"));
                }
            }
        }
        for c in ["dict", "back"] {
            let mut push = |s: BSpec| v.push((s.len as u64 / 4, format!("bytes:{c}|{}", s.text())));
            for (k, args) in KINDS { for a in args { for l in [r.us(60), r.us(900), r.us(9000), 20000 + r.us(30000)] { push(BSpec::new(k, l, *a, r.next() >> 20)) } } }
            push(BSpec::new("uniform", 700_000, 256, r.next() >> 20));
            push(BSpec::new("words", 500_000, 2000, r.next() >> 20));
            for m in [1, 2, 5, 6, 7, 16, 100, 1000, 2047, 2048, 2049, 16383, 16384, 16385, 20000, 32766, 32767, 32768, 32769, 32775, 40000, 50000, 65000, 65528, 65529, 65530, 65534, 65535] {
                push(BSpec::new("period", (3 * m + 300).max(70000), m as u64, r.next() >> 20));
                push(BSpec::new("period", 4 * m + 300 + r.us(100_000), m as u64, r.next() >> 20));
            }
            for k in ["period2", "period4"] { for m in [3000, 6000, 11_000, 20_000, 30_000, 45_000, 65_535] { for _ in 0..ctx.n(2, 6) { push(BSpec::new(k, 3 * m + 200 + 80_000 + r.us(200_000), (m - r.us(500)) as u64, r.next() >> 20)) } } }
            for _ in 0..ctx.n(30, 400) { let m = 1 + r.us(65535); push(BSpec::new("period", 3 * m + 200 + r.us(60_000), m as u64, r.next() >> 20)) }
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let (c, s) = case.split_once('|').unwrap();
        match c.strip_prefix("bytes:") { Some(c) => bytes(c, s, obs), None => image(c, s, obs) }
    }
}
fn main() { cniic_mon::run::main_for(&C) }
