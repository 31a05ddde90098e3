//! C01: lossless codecs reproduce every image exactly
use cniic_mon::{codecs::*, imgs::*, *};
use cniic::verif::codec::Codec;

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C01" }
    fn rule(&self) -> String {
        "Each case is one image (22 content patterns x 10 pixel formats x dimensions: all up to 9x9 (quick) or 20x20 (thorough), lines, powers of two +-1, widths, heights and areas around and beyond 65536, and images big enough to saturate the dictionary, wrap the look-back window several times and produce long codes) encoded and decoded by one of the six lossless codecs; the oracle compares dimensions and every pixel. An evaluation is non-trivial if the image has at least two colours and two pixels; distinct ones are counted by (codec, dimensions, colours).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(1);
        let mut push = |c: &str, s: Spec| v.push((s.w as u64 * s.h as u64, format!("{c}|{}", s.text())));
        // Every small shape, several contents each
        for (w, h) in small_dims(ctx.n(9, 20) as u32) {
            for c in LOSSLESS { for _ in 0..ctx.n(2, 4) { push(c, Spec::random(&mut r, w, h)) } }
        }
        for (w, h) in odd_dims() { for c in LOSSLESS { push(c, Spec::random(&mut r, w, h)) } }
        // Every pattern and argument on mid-size images
        for (p, args) in PATTERNS { for a in args { for c in LOSSLESS {
            for _ in 0..ctx.n(1, 4) {
                let (w, h) = (r.range(20, 90) as u32, r.range(20, 90) as u32);
                let seed = r.next() >> 20;
                push(c, Spec::new(w, h, p, *a, seed, "rgb8"));
            }
        } } }
        // Every pixel format
        for f in FORMATS { for c in LOSSLESS { for _ in 0..ctx.n(2, 10) {
            let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32);
            push(c, Spec::random(&mut r, w, h).with_fmt(f));
        } } }
        // Big ones: dictionary saturation, window wraps, long codes, runs over many rows
        for (p, a) in [("noise", 256), ("uniq", 7919), ("photo", 3), ("solid", 3), ("blockrep", 5957), ("blockrep", 6500), ("skew", 24), ("pal", 257), ("hruns", 600), ("walk", 5), ("rperiod", 1000), ("zebra", 1), ("sparse", 50), ("grad", 3), ("edges", 4), ("ext", 1)] {
            for c in LOSSLESS {
                for _ in 0..ctx.n(1, 4) {
                    // The look-back compressor is the slow one
                    let m = if c == "zip(back)" { 160 } else { 330 };
                    let (w, h) = (r.range(m * 3 / 4, m) as u32, r.range(m * 3 / 4, m) as u32);
                    let seed = r.next() >> 20;
                    push(c, Spec::new(w, h, p, a, seed, "rgb8"));
                }
            }
        }
        // Dimensions and areas beyond 16 bits
        for c in LOSSLESS { for (w, h) in wide_dims() { for _ in 0..ctx.n(1, 4) {
            let (p, a) = *r.pick(&[("photo", 3), ("pal", 5), ("solid", 3), ("hruns", 600), ("edges", 4), ("sparse", 50), ("rperiod", 1000)]);
            push(c, Spec::new(w, h, p, a, r.next() >> 20, "rgb8"));
        } } }
        for c in LOSSLESS { if c != "zip(back)" { for (p, a) in [("photo", 3), ("edges", 4), ("equal", 4), ("solid", 3)] {
            push(c, Spec::new(r.range(1000, 1100) as u32, r.range(1000, 1100) as u32, p, a, r.next() >> 20, "rgb8"));
        } } }
        if !ctx.quick() {
            for c in LOSSLESS { for (p, a) in [("photo", 3), ("noise", 256), ("solid", 1), ("uniq", 1), ("hruns", 600), ("skew", 24)] {
                let (w, h) = (r.range(700, 900) as u32, r.range(500, 700) as u32);
                push(c, Spec::new(w, h, p, a, r.next() >> 20, "rgb8"));
            } }
        }
        // Long cases first, so that no worker ends up alone with one
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let (c, s) = case.split_once('|').unwrap();
        let img = Spec::parse(s).build();
        let orig = flat(&img);
        let cd = codec(c)?;
        ensure!(cd.is_lossless(), "not-lossless", "{c} does not declare itself lossless");
        let bytes = encode(&cd, &img)?;
        let back = match decode(&cd, &bytes)? { Some(i) => i, None => viol!(format!("none:{c}"), "{c} could not decode its own stream ({} bytes) of {s}", bytes.len()) };
        if let Some(d) = diff(&orig, &flat(&back)) { viol!(format!("differs:{c}"), "{c} on {s}: {d}") }
        let mut key = Vec::with_capacity(orig.px.len() * 3 + 30);
        key.extend(c.bytes()); key.extend(orig.w.to_le_bytes()); key.extend(orig.h.to_le_bytes());
        for p in &orig.px { key.extend(p) }
        obs.eval(orig.px.iter().any(|p| *p != orig.px[0]), &key);
        obs.count("pixels_compared", orig.px.len() as u64);
        obs.count("stream_bytes", bytes.len() as u64);
        obs.count(&format!("images:{c}"), 1);
        if s.ends_with("rgb8") { } else { obs.count("images_not_rgb8", 1) }
        obs.max("largest_stream", bytes.len() as f64);
        obs.max("largest_image_pixels", orig.px.len() as f64);
        obs.sample(format!("{c} on {s}: {} bytes, {} pixels equal", bytes.len(), orig.px.len()));
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
