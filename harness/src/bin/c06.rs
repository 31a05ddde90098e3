//! C06: a truncated stream is never decoded as an image
use cniic_mon::{codecs::*, imgs::*, *};

const ALL: [&str; 10] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "hilbert(rle(0.5))", "cluster-colors(6)", "voronoi(9)"];

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C06" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> String {
        "A case is one image encoded by one codec; the decoder is given strict prefixes of the stream: every one if the stream is at most 3000 (quick) or 12000 (thorough) bytes, otherwise the first 60, the last 200 and 150 sampled ones; each must give no image without a panic and without reading on for ever. An evaluation is one truncated decode; non-trivial if the cut is after the dimensions; distinct by (codec, image, cut).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(6);
        for c in ALL {
            let mut push = |s: Spec| v.push((s.w as u64 * s.h as u64, format!("{}|{c}|{}", ctx.n(3000, 12000), s.text())));
            for (w, h) in small_dims(ctx.n(4, 9) as u32) { for _ in 0..2 { push(Spec::random(&mut r, w, h)) } }
            for (p, args) in PATTERNS { for a in args { for _ in 0..ctx.n(1, 4) {
                push(Spec::new(r.range(1, 24) as u32, r.range(1, 24) as u32, p, *a, r.next() >> 20, "rgb8"));
            } } }
            for f in FORMATS { push(Spec::random(&mut r, 7, 9).with_fmt(f)) }
            for (p, a) in [("photo", 3), ("solid", 3), ("hruns", 600), ("blockrep", 1000), ("pal", 65), ("noise", 256)] {
                for m in [60, 120] { push(Spec::new(r.range(m / 2, m) as u32, r.range(m / 2, m) as u32, p, a, r.next() >> 20, "rgb8")) }
            }
            // The dictionary is full long before the end
            if c == "zip(dict)" || c == "hilbert(zip)" { push(Spec::new(300, 290, "noise", 256, r.next() >> 20, "rgb8")) }
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.splitn(3, '|').collect();
        let (full, c, s) = (f[0].parse::<usize>().unwrap(), f[1], f[2]);
        let img = Spec::parse(s).build();
        let cd = codec(c)?;
        let b = encode(&cd, &img)?;
        ensure!(decode(&cd, &b)?.is_some(), "none", "{c} cannot decode its complete stream of {s}");
        let mut r = Rng::new(rng::hash_bytes(case.as_bytes()));
        let cuts: Vec<usize> = if b.len() <= full { (0..b.len()).collect() } else {
            let n = b.len();
            let k = if n > 200_000 { 12 } else { 200 };
            let mut v: Vec<usize> = (0..60).chain(n - k..n).chain((0..k * 3 / 4).map(|_| r.us(n))).collect();
            v.sort(); v.dedup(); v
        };
        for k in &cuts {
            let d = match decode(&cd, &b[..*k]) { Ok(d) => d, Err(mut v) => { v.msg = format!("{c} on {s}, the first {k} of {} bytes: {}", b.len(), v.msg); return Err(v) } };
            if let Some(d) = d { viol!(format!("accepted:{}", c.split('(').next().unwrap()), "{c} on {s}: the first {k} of {} bytes were decoded as a {}x{} image", b.len(), d.width(), d.height()) }
            obs.evals(1);
            if *k >= 8 { obs.fp(rng::mix(rng::hash_bytes(case.as_bytes()) ^ *k as u64)) }
        }
        obs.count("truncated_decodes", cuts.len() as u64);
        obs.count(&format!("streams:{c}"), 1);
        if cuts.len() == b.len() { obs.count("streams_cut_at_every_byte", 1) }
        obs.max("longest_stream", b.len() as f64);
        obs.sample(format!("{c} on {s}: {} cuts of {} bytes all refused", cuts.len(), b.len()));
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
