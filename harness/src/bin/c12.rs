//! C12: voronoi(n) stores representative sites and redraws them correctly
use cniic_mon::{codecs::*, imgs::*, *};
use std::collections::BTreeMap;

/// Instances on which a clustering once looped or gave up
const HARD: [&str; 8] = [
    "voronoi|60|33x9 skew:9 16532792277 rgb8", "voronoi|60|9x33 skew:9 16532792277 rgb8", "voronoi|2|2x1 ext:1 1 rgb8", "voronoi|100|15x15 solid:0 1 rgb8",
    "voronoi|99|10x10 noise:2 4 rgb8", "voronoi|198|20x10 zebra:1 4 rgb8", "voronoi|3|1x4 ext:1 3 rgb8", "voronoi|120|16x16 sparse:1 9 rgb8",
];

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C12" }
    fn rule(&self) -> String {
        "'voronoi' cases: an image and a number of sites n. The stream must list exactly min(n, pixels) sites inside of the image, with every channel within that channel's range; n = 1 must give the rounded mean; n >= pixels must reproduce the image; decoding must give every pixel the colour of one of the sites nearest to it (exact integer distances). Every site is compared with the mean of the pixels nearest to it in position and colour: the share of those that differ by more than 0.5 in some coordinate (ties in favour of the site) is bounded over the whole run and per image. 'decode' cases: arbitrary valid site lists, including coincident and far away sites. An evaluation is one image or list; non-trivial if 1 < n < pixels.".into()
    }
    fn assumptions(&self) -> Vec<String> { vec!["a small fraction means: at most 1% of the sites over the whole run (0.32% observed on the unchanged tree) and half of them in a single image with at least 40 judged sites (at most 23% observed in 70 000 images)".into()] }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(12);
        let push = |v: &mut Vec<(u64, String)>, k: u64, s: Spec| { let c = s.w as u64 * s.h as u64 * (k + 5); v.push((c, format!("voronoi|{k}|{}", s.text()))) };
        for (w, h) in small_dims(ctx.n(6, 9) as u32) { for _ in 0..ctx.n(8, 30) { let s = Spec::random(&mut r, w, h); let k = 1 + r.below((w * h) as u64 + 2); push(&mut v, k, s) } }
        for (p, args) in PATTERNS { for a in args { for i in 0..ctx.n(30, 300) {
            let m = if i % 6 == 5 { 60 } else { 24 };
            let (w, h) = (r.range(1, m) as u32, r.range(1, m) as u32);
            let n = (w * h) as u64;
            let s = Spec::new(w, h, p, *a, r.next() >> 20, "rgb8");
            let k = match r.below(9) { 0 => 1, 1 => 2, 2..=4 => r.range(2, 40), 5 => n.saturating_sub(1).max(1), 6 => n, 7 => n + r.range(1, 3), _ => 1 + r.below(n) };
            push(&mut v, k.min(500), s)
        } } }
        for f in FORMATS { for _ in 0..ctx.n(4, 20) { let s = Spec::random(&mut r, 19, 13).with_fmt(f); let k = r.range(1, 60); push(&mut v, k, s) } }
        for (w, h) in odd_dims() { let s = Spec::random(&mut r, w, h); push(&mut v, 1, s.clone()); push(&mut v, r.range(2, 30), s) }
        // Coordinates and counts beyond 16 bits
        for (w, h) in [(65535, 1), (65536, 1), (65537, 1), (1, 65537), (70001, 2), (3, 66000), (131100, 1), (1, 140000), (300, 290), (1000, 1100)] {
            for k in [1, 1, 2, 3] { let (p, a) = *r.pick(&[("grad", 1), ("photo", 1), ("edges", 3), ("pal", 5), ("noise", 256)]); push(&mut v, k, Spec::new(w, h, p, a, r.next() >> 20, "rgb8")) }
            for _ in 0..ctx.n(1, 8) { let s = Spec::random(&mut r, w, h); push(&mut v, r.range(2, 24), s) }
        }
        for i in 0..ctx.n(100, 1500) {
            let m = [40, 70, 100][i % 3];
            let s = Spec::new(r.range(m / 2, m) as u32, r.range(m / 2, m) as u32, *r.pick(&["photo", "grad", "blobs", "noise", "edges"]), *r.pick(&[1, 3, 8, 256]), r.next() >> 20, "rgb8");
            let k = *r.pick(&[2, 4, 8, 16, 32, 64, 100, 200]);
            push(&mut v, k, s)
        }
        for k in ["4294967296", "18446744073709551615"] { v.push((0, format!("voronoi|{k}|9x7 pal:17 5 rgb8"))) }
        for h in HARD { v.push((u64::MAX, h.to_string())) }
        for _ in 0..ctx.n(400, 4000) { v.push((2000, format!("decode|{}|{}x{} {}", *r.pick(&[1, 2, 3, 7, 30]), r.range(1, 40), r.range(1, 40), r.next() >> 12))) }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.splitn(3, '|').collect();
        let k: u64 = f[1].parse().unwrap();
        let s = f[2];
        if f[0] == "decode" { return decode_case(case, k, s, obs) }
        let img = Spec::parse(s).build();
        let o = flat(&img);
        let n = o.px.len() as u64;
        let c = format!("voronoi({k})");
        let cd = codec(&c)?;
        let b = encode(&cd, &img)?;
        let (w, h, sites) = match refs::parse_sites(&b) { Ok(x) => x, Err(e) => viol!("stream", "{c} on {s}: {e}") };
        ensure!((w, h) == (o.w, o.h), "dimensions", "{c} on {s}: {}x{} became {w}x{h}", o.w, o.h);
        ensure!(sites.len() as u64 == k.min(n), "site-count", "{c} on {s}: {} sites instead of {}", sites.len(), k.min(n));
        let mut lo = [255u8; 3]; let mut hi = [0u8; 3];
        for p in &o.px { for c in 0..3 { lo[c] = lo[c].min(p[c]); hi[c] = hi[c].max(p[c]) } }
        for q in &sites {
            ensure!(q.0 < w && q.1 < h, "outside", "{c} on {s}: site {q:?} is outside of the image");
            ensure!((0..3).all(|c| lo[c] <= q.2[c] && q.2[c] <= hi[c]), "channel-range", "{c} on {s}: site {q:?} has a colour out of the image's range {lo:?}..{hi:?}");
        }
        let p5 = |i: usize| -> [i64; 5] { let p = o.px[i]; [(i as u32 % w) as i64, (i as u32 / w) as i64, p[0] as i64, p[1] as i64, p[2] as i64] };
        let s5 = |q: &(u32, u32, [u8; 3])| -> [i64; 5] { [q.0 as i64, q.1 as i64, q.2[0] as i64, q.2[1] as i64, q.2[2] as i64] };
        if k == 1 {
            let q = s5(&sites[0]);
            for c in 0..5 {
                let sum: i64 = (0..n as usize).map(|i| p5(i)[c]).sum();
                let v = 2 * n as i64 * q[c];
                ensure!(v + n as i64 >= 2 * sum && v <= 2 * sum + n as i64, "mean", "{c} on {s}: coordinate {c} of the only site {q:?} is not the rounded mean {}", sum as f64 / n as f64);
            }
            obs.count("single_sites", 1);
        }
        let d = self.redraw(&c, &cd, s, &b, w, h, &sites)?;
        if k >= n {
            if let Some(e) = diff(&o, &d) { viol!("all-pixels", "{c} on {s} with {n} pixels: {e}") }
            obs.count("images_with_a_site_per_pixel_unchanged", 1);
        }
        if k > 1 && k < n {
            // Is every site the mean of what is nearest to it?
            let sv: Vec<[i64; 5]> = sites.iter().map(s5).collect();
            // sums of the pixels certainly nearest; tied pixels are extra
            let mut own = vec![([0i64; 5], 0i64); sv.len()];
            let mut ties: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for i in 0..n as usize {
                let p = p5(i);
                let mut best = i64::MAX;
                let mut at: Vec<usize> = vec![];
                for (j, q) in sv.iter().enumerate() {
                    let mut d = 0; for c in 0..5 { d += (p[c] - q[c]) * (p[c] - q[c]) }
                    if d < best { best = d; at.clear(); at.push(j) } else if d == best { at.push(j) }
                }
                if at.len() == 1 { let e = &mut own[at[0]]; for c in 0..5 { e.0[c] += p[c] } e.1 += 1 }
                else { for j in at { ties.entry(j).or_default().push(i) } }
            }
            let (mut bad, mut judged) = (0u64, 0u64);
            for (j, q) in sv.iter().enumerate() {
                if ties.contains_key(&j) { continue }
                judged += 1;
                let (sum, m) = own[j];
                if m == 0 || (0..5).any(|c| { let v = 2 * m * q[c]; v + m < 2 * sum[c] || v > 2 * sum[c] + m }) { bad += 1 }
            }
            obs.count("sites_judged", judged);
            obs.count("sites_not_the_mean_of_the_nearest", bad);
            obs.count("sites_with_tied_pixels", sv.len() as u64 - judged);
            if judged >= 40 {
                obs.max("share_not_the_mean_in_an_image", bad as f64 / judged as f64);
                ensure!(2 * bad <= judged, "fixpoint", "{c} on {s}: {bad} of {judged} sites are not the mean of the pixels nearest to them");
            }
            if std::env::var_os("CAL").is_some() { eprintln!("CAL {} {bad} {judged} {case}", bad as f64 / judged as f64) }
        }
        obs.eval(k > 1 && k < n, case.as_bytes());
        obs.count("sites", sites.len() as u64);
        obs.sample(format!("{c} on {s}: {} sites", sites.len()));
        Ok(())
    }
    fn finish(&self, _ctx: &Ctx, t: &Totals) -> R {
        let (n, bad) = (t.c("sites_judged"), t.c("sites_not_the_mean_of_the_nearest"));
        ensure!(n > 20_000, "HARNESS", "only {n} sites were judged");
        ensure!(bad as f64 <= 0.01 * n as f64, "fixpoint", "{bad} of {n} sites are not the mean of the pixels nearest to them: more than a small fraction");
        Ok(())
    }
}
impl C {
    fn redraw(&self, c: &str, cd: &cniic::verif::codec::AnyCodec, s: &str, b: &[u8], w: u32, h: u32, sites: &[(u32, u32, [u8; 3])]) -> Result<Flat, Viol> {
        let Some(d) = decode(cd, b)? else { viol!("none", "{c} can't decode its stream of {s}") };
        let d = flat(&d);
        ensure!((d.w, d.h) == (w, h), "dimensions", "{c} on {s}: {w}x{h} was decoded as {}x{}", d.w, d.h);
        for y in 0..h { for x in 0..w {
            let (cols, m) = refs::nearest(sites, x, y);
            let got = d.px[(y * w + x) as usize];
            ensure!(cols.contains(&got), "nearest-site", "{c} on {s}: pixel ({x}, {y}) was decoded as {got:?}, but the sites at the minimum squared distance {m} have {cols:?}");
        } }
        Ok(d)
    }
}
fn decode_case(case: &str, k: u64, s: &str, obs: &mut Obs) -> R {
    let f: Vec<&str> = s.split(' ').collect();
    let (w, h) = f[0].split_once('x').unwrap();
    let (w, h): (u32, u32) = (w.parse().unwrap(), h.parse().unwrap());
    let mut r = Rng::new(f[1].parse().unwrap());
    let far = r.chance(1, 4);
    let mut sites: Vec<(u32, u32, [u8; 3])> = vec![];
    for _ in 0..k {
        let c = [r.byte(), r.byte(), r.byte()];
        let (x, y) = if far && r.chance(1, 2) { (*r.pick(&[u32::MAX, 1 << 31, 70000, 65535, 65536, (1 << 31) - 1, 46341]), r.below(h as u64) as u32) } else { (r.below(w as u64) as u32, r.below(h as u64) as u32) };
        let (x, y) = if far && r.chance(1, 4) { (y, x) } else { (x, y) };
        sites.push((x, y, c));
        // Another one at the same place, or mirrored
        if r.chance(1, 10) { sites.push((x, y, [r.byte(), r.byte(), r.byte()])) }
    }
    let mut b = refs::header(w, h);
    b.extend((sites.len() as u64).to_le_bytes());
    for q in &sites { b.extend(q.0.to_le_bytes()); b.extend(q.1.to_le_bytes()); b.extend(refs::rgb_bytes(q.2)) }
    let cd = codec(&format!("voronoi({k})"))?;
    C.redraw(&format!("voronoi({k})"), &cd, case, &b, w, h, &sites)?;
    obs.eval(sites.len() > 1, case.as_bytes());
    obs.count("arbitrary_site_lists", 1);
    Ok(())
}
fn main() { cniic_mon::run::main_for(&C) }
