//! C05: streams follow the published layout and interoperate with other decoders
use cniic_mon::{codecs::*, imgs::*, *};

const ALL: [&str; 12] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(6))", "hilbert(rle(0))", "hilbert(rle(25.5))", "cluster-colors(5)", "voronoi(7)", "voronoi(60)"];

fn model(c: &str, b: &[u8]) -> refs::P<refs::Img> { refs::parse(if c.starts_with("cluster") { "hufman" } else { c }, b) }

fn compare(c: &str, what: &str, stream: &[u8], want: &Flat, got: &Flat) -> R {
    if c.starts_with("voronoi") {
        // Any of several equally close sites will do
        let (w, h, sites) = match refs::parse_sites(stream) { Ok(x) => x, Err(e) => viol!("layout:voronoi", "{c} {what}: {e}") };
        ensure!((got.w, got.h) == (w, h), "differs:voronoi", "{c} {what}: decoded as {}x{}", got.w, got.h);
        for y in 0..h { for x in 0..w {
            let p = got.px[(y * w + x) as usize];
            let (ok, d) = refs::nearest(&sites, x, y);
            ensure!(ok.contains(&p), "differs:voronoi", "{c} {what}: pixel ({x}, {y}) is {p:?}, the sites at distance {} have {ok:?}", (d as f64).sqrt());
        } }
        return Ok(())
    }
    match diff(want, got) { None => Ok(()), Some(d) => viol!(format!("differs:{}", c.split('(').next().unwrap()), "{c} {what}: {d}") }
}

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn golden_path() -> std::path::PathBuf { run::verif_dir().join("golden/streams.txt") }
fn golden() -> Vec<String> { std::fs::read_to_string(golden_path()).unwrap_or_default().lines().map(|l| l.to_string()).collect() }

/// A valid stream for f that is not the encoder's
fn alternative(c: &str, f: &Flat, r: &mut Rng) -> Vec<u8> {
    let mut v = refs::header(f.w, f.h);
    match c {
        "hufman" | "cluster-colors(5)" => {
            let mut syms: Vec<[u8; 3]> = f.px.clone(); syms.sort(); syms.dedup();
            for _ in 0..r.below(4) { let s = [r.byte(), r.byte(), r.byte()]; syms.push(s) }
            if r.chance(1, 3) { let s = *r.pick(&syms); syms.push(s) }
            let deg = r.chance(1, 3);
            v.extend(refs::huf_random(&f.px, syms, |s| refs::rgb_bytes(*s).to_vec(), r, deg))
        }
        "delta" => {
            let d = refs::deltas(f.w, f.h, &f.px);
            let mut syms = d.clone(); syms.sort(); syms.dedup();
            for _ in 0..r.below(4) { syms.push([r.byte() as i16 * 100, -5, 256]) }
            let deg = r.chance(1, 3);
            v.extend(refs::huf_random(&d, syms, |s| s.iter().flat_map(|x| x.to_le_bytes()).collect(), r, deg))
        }
        "zip(dict)" => v = refs::dict_random_parse(&refs::raster_stream(f.w, f.h, &f.px), r),
        "zip(back)" => v = refs::back_random_parse(&refs::raster_stream(f.w, f.h, &f.px), r),
        "hilbert(zip)" => v.extend(refs::dict_random_parse(&refs::hilbert_stream(f.w, f.h, &f.px), r)),
        c if c.starts_with("hilbert(rle") => {
            let mode = r.below(3);
            for g in refs::hilbert_px(f.w, f.h, &f.px).chunk_by(|a, b| a == b) {
                let mut n = g.len();
                while n > 0 { let l = match mode { 0 => 1, 1 => 1 + r.us(n.min(255)), _ => 1 + r.us(n.min(255)).min(r.us(9)) }; v.push(l as u8); v.extend(refs::rgb_bytes(g[0])); n -= l }
            }
        }
        _ => {
            // A few small images get more sites than 16 bits can count
            let k = if f.px.len() < 40 && r.chance(1, 12) { 65_530 + r.us(5000) } else { 1 + r.us(40) };
            v.extend((k as u64).to_le_bytes());
            for _ in 0..k {
                let (x, y) = match r.below(8) { 0 => (r.next() as u32, r.next() as u32), 1 => (f.w + r.us(5) as u32, r.us(f.h as usize) as u32), 2 => (u32::MAX, u32::MAX - r.us(3) as u32), _ => (r.us(f.w as usize) as u32, r.us(f.h as usize) as u32) };
                v.extend(x.to_le_bytes()); v.extend(y.to_le_bytes()); v.extend(refs::rgb_bytes([r.byte(), r.byte(), r.byte()]));
            }
        }
    }
    v
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C05" }
    fn rule(&self) -> String {
        "Encoder side: each codec's stream of a generated image is read by an independent implementation of the format, which must accept it entirely and reconstruct what cniic's own decoder does. Decoder side: valid streams the encoder would not write (random tries with unused or duplicate symbols and deep branches, random dictionary parses, arbitrary look-backs and literals, split runs, arbitrary sites) and the committed recorded streams are decoded by cniic and compared. Non-trivial: the image has at least two pixels; distinct by (direction, codec, stream).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(5);
        for i in 0..golden().len() { v.push((2000, format!("golden|{i}"))) }
        for (i, c) in ALL.iter().enumerate() {
            let slow = i >= 9;
            for dir in ["enc", "dec"] {
                let mut push = |s: Spec| v.push((s.w as u64 * s.h as u64, format!("{dir}|{c}|{}", s.text())));
                for (w, h) in small_dims(ctx.n(5, 12) as u32) { push(Spec::random(&mut r, w, h)) }
                for (p, args) in PATTERNS { for a in args { for _ in 0..ctx.n(1, 5) {
                    let m = if slow { 40 } else { 70 };
                    push(Spec::new(r.range(5, m) as u32, r.range(5, m) as u32, p, *a, r.next() >> 20, "rgb8"));
                } } }
                if dir == "enc" { for f in FORMATS { let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32); push(Spec::random(&mut r, w, h).with_fmt(f)) } }
                for (w, h) in odd_dims() { if w * h < 9000 { push(Spec::random(&mut r, w, h)) } }
                for (w, h) in wide_dims() {
                    let (p, a) = if *c == "zip(back)" { ("rperiod", 255) } else { *r.pick(&[("photo", 3), ("solid", 3), ("hruns", 600), ("edges", 4)]) };
                    if *c != "voronoi(60)" && !(*c == "zip(back)" && dir == "dec") { push(Spec::new(w, h, p, if slow { 4 } else { a }, r.next() >> 20, "rgb8")) }
                }
                if !slow { for (p, a) in [("noise", 256), ("photo", 3), ("blockrep", 5957), ("solid", 1), ("hruns", 600), ("skew", 20)] {
                    // Enough for 65k dictionary entries or a few windows
                    let m = if *c == "zip(back)" { 130 } else { 300 };
                    for _ in 0..ctx.n(1, 3) { push(Spec::new(r.range(m - 40, m) as u32, r.range(m - 40, m) as u32, p, a, r.next() >> 20, "rgb8")) }
                } }
            }
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        if let Some(i) = case.strip_prefix("golden|") {
            let g = golden();
            let f: Vec<&str> = g[i.parse::<usize>().unwrap()].split(' ').collect();
            let (c, stream) = (f[0], unhex(f[3]));
            let px: Vec<[u8; 3]> = unhex(f[4]).chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
            let want = Flat { w: f[1].parse().unwrap(), h: f[2].parse().unwrap(), px };
            match decode(&codec(c)?, &stream)? {
                None => viol!("golden", "{c} rejects recorded stream {i} ({} bytes, {}x{})", stream.len(), want.w, want.h),
                Some(d) => compare(c, &format!("recorded stream {i}"), &stream, &want, &flat(&d))?,
            }
            obs.eval(true, &stream);
            obs.count("recorded_streams_decoded", 1);
            return Ok(())
        }
        let f: Vec<&str> = case.splitn(3, '|').collect();
        let (dir, c, s) = (f[0], f[1], f[2]);
        let img = Spec::parse(s).build();
        let orig = flat(&img);
        let cd = codec(c)?;
        let fam = c.split('(').next().unwrap();
        let stream;
        if dir == "enc" {
            stream = encode(&cd, &img)?;
            let m = match model(c, &stream) { Ok(m) => m, Err(e) => viol!(format!("layout:{fam}"), "an independent decoder does not understand the {c} stream of {s}: {e}") };
            let m = Flat { w: m.w, h: m.h, px: m.px };
            ensure!((m.w, m.h) == (orig.w, orig.h), format!("layout:{fam}"), "{c} on {s}: the stream announces {}x{}", m.w, m.h);
            if LOSSLESS.contains(&c) { if let Some(d) = diff(&orig, &m) { viol!(format!("layout:{fam}"), "{c} on {s}, as read by an independent decoder: {d}") } }
            match decode(&cd, &stream)? { None => viol!(format!("none:{fam}"), "{c} cannot decode its own stream of {s}"), Some(d) => compare(c, s, &stream, &m, &flat(&d))? }
        }
        else {
            let mut r = Rng::new(rng::hash_bytes(case.as_bytes()));
            stream = alternative(c, &orig, &mut r);
            // The two sides of the reference must agree before cniic is judged
            let m = match model(c, &stream) { Ok(m) => Flat { w: m.w, h: m.h, px: m.px }, Err(e) => viol!("HARNESS", "reference encoder and decoder disagree on {case}: {e}") };
            if !c.starts_with("voronoi") { if let Some(d) = diff(&orig, &m) { viol!("HARNESS", "reference encoder and decoder disagree on {case}: {d}") } }
            match decode(&cd, &stream)? { None => viol!(format!("rejected:{fam}"), "{c} rejects a valid stream ({} bytes) for {s}", stream.len()), Some(d) => compare(c, &format!("alternative stream for {s}"), &stream, &m, &flat(&d))? }
        }
        obs.eval(orig.px.len() > 1, &[case.as_bytes(), &stream].concat());
        obs.count(&format!("{}:{c}", if dir == "enc" { "streams_read_independently" } else { "foreign_streams_decoded" }), 1);
        obs.count("stream_bytes", stream.len() as u64);
        obs.max("largest_stream", stream.len() as f64);
        obs.sample(format!("{case}: {} bytes", stream.len()));
        Ok(())
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R { ensure!(t.c("recorded_streams_decoded") > 30 || t.cases_done < t.cases_planned, "HARNESS", "the recorded streams are missing"); Ok(()) }
}

/// Records streams of the current build (done once, the result is committed)
fn make_golden() {
    let mut r = Rng::new(2024);
    for c in ALL { for (w, h, p, a) in [(1, 1, "pal", 2), (2, 3, "noise", 256), (7, 5, "pal", 5), (16, 16, "photo", 3), (13, 21, "hruns", 60), (33, 9, "skew", 9), (40, 1, "walk", 5), (24, 30, "edges", 1), (30, 30, "solid", 3)] {
        let s = Spec::new(w, h, p, a, r.next() >> 30, "rgb8");
        let img = s.build();
        let cd = codec(c).unwrap();
        let b = encode(&cd, &img).unwrap();
        let d = decode(&cd, &b).unwrap().unwrap();
        let px: Vec<u8> = flat(&d).px.concat();
        println!("\n{c} {w} {h} {} {}", hex(&b), hex(&px));
    } }
}
fn main() { if std::env::args().any(|a| a == "--make-golden") { make_golden() } else { cniic_mon::run::main_for(&C) } }
