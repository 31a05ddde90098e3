//! C11: cluster-colors(n) reduces the palette faithfully
use cniic_mon::{codecs::*, imgs::*, *};
use std::collections::{BTreeMap, BTreeSet};

fn d2(a: [u8; 3], b: [u8; 3]) -> i64 { (0..3).map(|c| { let x = a[c] as i64 - b[c] as i64; x * x }).sum() }

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C11" }
    fn rule(&self) -> String {
        "A case is an image and a number of colours n. The encoded and decoded image must have the same dimensions, at most n colours, one new colour per original colour, every new colour within 0.5 per channel of the mean of the original pixels that received it (exact integer arithmetic), and be the original if that has at most n colours; n = 1 must give the rounded mean. Each original colour is compared with all the new colours: the share that is not at the nearest one is bounded over the whole run and per image. An evaluation is one image; non-trivial if it has more than n colours and n > 1.".into()
    }
    fn assumptions(&self) -> Vec<String> { vec!["a small fraction means: at most 0.6% of the colours over the whole run (0.15% observed on the unchanged tree) and 15% in a single image with at least 40 colours (at most 6% observed in 30 000 images)".into()] }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(11);
        let mut push = |v: &mut Vec<(u64, String)>, k: u64, s: Spec| { let c = s.w as u64 * s.h as u64 * (k + 5); v.push((c, format!("{k}|{}", s.text()))) };
        for (w, h) in small_dims(ctx.n(5, 9) as u32) { for _ in 0..ctx.n(12, 30) { let s = Spec::random(&mut r, w, h); let k = 1 + r.below((w * h) as u64 + 2); push(&mut v, k, s) } }
        for (p, args) in PATTERNS { for a in args { for i in 0..ctx.n(40, 400) {
            let m = if i % 6 == 5 { 90 } else { 30 };
            let (w, h) = (r.range(1, m) as u32, r.range(1, m) as u32);
            let s = Spec::new(w, h, p, *a, r.next() >> 20, "rgb8");
            let n = flat(&s.build()).px.iter().collect::<BTreeSet<_>>().len() as u64;
            // Few colours, many, all but one, as many, more
            let k = match r.below(9) { 0 => 1, 1 => 2, 2..=4 => r.range(2, 40), 5 => n.saturating_sub(1).max(1), 6 => n, 7 => n + r.range(1, 3), _ => 1 + r.below(n) };
            push(&mut v, k.min(700), s)
        } } }
        for f in FORMATS { for _ in 0..ctx.n(4, 20) { let s = Spec::random(&mut r, 19, 13).with_fmt(f); let k = r.range(1, 60); push(&mut v, k, s) } }
        for i in 0..ctx.n(400, 4000) {
            // Photographs with many colours
            let m = [60, 100, 140][i % 3];
            let s = Spec::new(r.range(m / 2, m) as u32, r.range(m / 2, m) as u32, *r.pick(&["photo", "grad", "blobs", "noise", "edges"]), *r.pick(&[1, 3, 8, 256]), r.next() >> 20, "rgb8");
            let k = *r.pick(&[2, 4, 8, 16, 32, 64, 100, 256]);
            push(&mut v, k, s)
        }
        // Colours that occur more often than 16 bits can count
        for i in 0..ctx.n(40, 300) {
            let m = [280, 330, 420, 600][i % 4];
            let (p, a) = *r.pick(&[("skew", 24), ("skew", 27), ("skew", 20), ("sparse", 50), ("sparse", 500), ("pal", 3), ("pal", 5), ("domin", 40), ("domin", 12), ("domin", 300), ("blobs", 3), ("hdrlike", 1)]);
            let s = Spec::new(m as u32 - r.below(20) as u32, m as u32 - r.below(20) as u32, p, a, r.next() >> 20, "rgb8");
            let k = *r.pick(&[1, 1, 2, 2, 3, 4, 7, 12]);
            push(&mut v, k, s)
        }
        // More colours than 16 bits can count
        for i in 0..ctx.n(16, 120) {
            let m = [230, 270, 300, 450][i % 4];
            let s = Spec::new(m + r.below(20) as u32, m + r.below(20) as u32, *r.pick(&["noise", "photo", "blobs", "grad"]), *r.pick(&[256, 8, 3]), r.next() >> 20, "rgb8");
            let s = if i % 2 == 0 { Spec { pat: "noise".into(), arg: 256, ..s } } else { s };
            let k = *r.pick(&[1, 2, 3, 5, 9, 16]);
            push(&mut v, k, s)
        }
        for (w, h) in [(2300, 1900), (4200, 4100)] { push(&mut v, 1, Spec::new(w, h, "domin", 3, r.next() >> 20, "rgb8")); push(&mut v, 2, Spec::new(w, h, "domin", 12, r.next() >> 20, "rgb8")) }
        // A colour so frequent that even its channels' sums exceed 32 bits
        for (k, a) in [(1, 40), (2, 40), (3, 7)] { push(&mut v, k, Spec::new(4200, 4100, "bright", a, r.next() >> 20, "rgb8")) }
        for k in ["4294967296", "18446744073709551615"] { v.push((0, format!("{k}|9x7 pal:17 5 rgb8"))) }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let (k, s) = case.split_once('|').unwrap();
        let k: u64 = k.parse().unwrap();
        let img = Spec::parse(s).build();
        let o = flat(&img);
        let c = format!("cluster-colors({k})");
        let cd = codec(&c)?;
        let b = encode(&cd, &img)?;
        let Some(d) = decode(&cd, &b)? else { viol!("none", "{c} can't decode its stream of {s}") };
        let g = flat(&d);
        ensure!((g.w, g.h) == (o.w, o.h), "dimensions", "{c} on {s}: {}x{} became {}x{}", o.w, o.h, g.w, g.h);
        let mut map: BTreeMap<[u8; 3], [u8; 3]> = BTreeMap::new();
        let mut groups: BTreeMap<[u8; 3], ([u64; 3], u64)> = BTreeMap::new();
        for (i, (a, b)) in o.px.iter().zip(&g.px).enumerate() {
            let e = *map.entry(*a).or_insert(*b);
            ensure!(e == *b, "function", "{c} on {s}: the colour {a:?} became {e:?}, and {b:?} at ({}, {})", i as u32 % o.w, i as u32 / o.w);
            let q = groups.entry(*b).or_default();
            for c in 0..3 { q.0[c] += a[c] as u64 }
            q.1 += 1;
        }
        ensure!(groups.len() as u64 <= k, "too-many", "{c} on {s}: {} colours", groups.len());
        if map.len() as u64 <= k {
            if let Some(e) = diff(&o, &g) { viol!("few-colours", "{c} on {s}, which has {} colours: {e}", map.len()) }
            obs.count("images_with_few_colours_unchanged", 1);
        }
        for (col, (sum, n)) in &groups { for ch in 0..3 {
            let v = 2 * *n * col[ch] as u64;
            ensure!(v + n >= 2 * sum[ch] && v <= 2 * sum[ch] + n, "mean", "{c} on {s}: the {n} pixels that became {col:?} have the mean {:?}", sum.map(|x| x as f64 / *n as f64));
        } }
        let pal: Vec<[u8; 3]> = groups.keys().copied().collect();
        let mut bad = 0u64;
        for (a, b) in &map { let m = pal.iter().map(|p| d2(*p, *a)).min().unwrap(); if d2(*a, *b) > m { bad += 1 } }
        if map.len() as u64 > k && k > 1 {
            // (the largest images would outweigh all others)
            if map.len() < 30_000 {
                obs.count("colours_judged", map.len() as u64);
                obs.count("colours_not_at_the_nearest", bad);
            } else { obs.count("images_with_over_30000_colours", 1) }
            if map.len() >= 40 {
                obs.max("share_not_at_the_nearest_in_an_image", bad as f64 / map.len() as f64);
                ensure!(bad as f64 <= 0.15 * map.len() as f64, "nearest", "{c} on {s}: {bad} of {} colours did not become the nearest of the {} new colours", map.len(), groups.len());
            }
        }
        obs.eval(map.len() as u64 > k && k > 1, case.as_bytes());
        obs.max("distinct_colours", map.len() as f64);
        obs.sample(format!("{c} on {s}: {} colours became {}, {bad} not at the nearest", map.len(), groups.len()));
        Ok(())
    }
    fn finish(&self, _ctx: &Ctx, t: &Totals) -> R {
        let (n, bad) = (t.c("colours_judged"), t.c("colours_not_at_the_nearest"));
        ensure!(n > 100_000, "HARNESS", "only {n} colours were judged");
        ensure!(bad as f64 <= 0.006 * n as f64, "nearest", "{bad} of {n} colours did not become the nearest of the new colours: more than a small fraction");
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
