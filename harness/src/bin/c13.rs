//! C13: the k-means engine returns a complete, consistent clustering and stops
use cniic_mon::*;

/// Kinds of point sets
const SETS: [&str; 14] = ["uniform", "grid", "line", "line-equal-gaps", "blobs", "two-scales", "geometric", "simplex", "corner", "lattice", "sphere", "fibonacci", "sorted-blobs", "collinear-pairs"];

fn positions(kind: &str, n: usize, dim: usize, r: &mut Rng) -> Vec<Vec<f64>> {
    let mut out: Vec<Vec<f64>> = vec![];
    let mut seen = std::collections::HashSet::new();
    let centers: Vec<Vec<f64>> = (0..1 + r.us(12)).map(|_| (0..dim).map(|_| r.f64() * 1000.0).collect()).collect();
    let side = ((n as f64).powf(1.0 / dim as f64).ceil() as usize).max(2);
    let mut tries = 0;
    while out.len() < n {
        let i = out.len() + tries;
        let mut p: Vec<f64> = match kind {
            "uniform" => (0..dim).map(|_| r.f64() * 255.0).collect(),
            "grid" => { let mut k = i; (0..dim).map(|_| { let v = (k % side) as f64; k /= side; v }).collect() }
            "line" => (0..dim).map(|d| if d == 0 { r.f64() * 1e4 } else { 7.0 }).collect(),
            "line-equal-gaps" => (0..dim).map(|d| if d == 0 { i as f64 } else { 0.0 }).collect(),
            "blobs" | "sorted-blobs" => { let c = if kind == "blobs" { r.us(centers.len()) } else { i * centers.len() / (n + tries) % centers.len() }; centers[c].iter().map(|x| x + r.f64()).collect() }
            "two-scales" => (0..dim).map(|_| if r.chance(1, 20) { r.f64() * 1e6 } else { r.f64() }).collect(),
            "geometric" => (0..dim).map(|d| if d == 0 { 1.5f64.powi((i % 60) as i32) + (i / 60) as f64 * 0.01 } else { 0.0 }).collect(),
            "simplex" => (0..dim).map(|d| if d == i % dim { 100.0 * (1 + i / dim) as f64 } else { 0.0 }).collect(),
            "corner" => (0..dim).map(|_| if r.chance(1, 2) { 0.0 } else { 255.0 }).collect(),
            "lattice" => (0..dim).map(|_| r.below(256) as f64).collect(),
            "sphere" => { let v: Vec<f64> = (0..dim).map(|_| r.f64() - 0.5).collect(); let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3); v.iter().map(|x| 100.0 * x / l).collect() }
            "fibonacci" => (0..dim).map(|d| ((i + d) as f64 * 0.618033988749895).fract() * 500.0).collect(),
            "collinear-pairs" => (0..dim).map(|d| if d == 0 { (i / 2) as f64 * 10.0 + (i % 2) as f64 } else { (i / 2) as f64 }).collect(),
            k => panic!("unknown set {k}"),
        };
        // The points have to be distinct
        if !seen.insert(p.iter().map(|x| x.to_bits()).collect::<Vec<_>>()) {
            tries += 1;
            if tries % 3 == 0 { p[0] += 0.25 * tries as f64; if !seen.insert(p.iter().map(|x| x.to_bits()).collect::<Vec<_>>()) { continue } } else { continue }
        }
        out.push(p);
    }
    out
}

#[cfg(feature = "direct")]
mod direct {
    use super::*;
    use cniic::verif::{geom::Distance, kmeans};
    use std::cell::RefCell;

    #[derive(Default)]
    pub struct Log { pub dists: u64, pub means: u64, pub empty_means: u64, pub limit: u64, pub round: bool, pub single: u64 }
    thread_local! { pub static LOG: RefCell<Log> = RefCell::new(Log::default()); }
    struct TooMuch;

    /// A point that watches what is done with it
    pub struct P { pub id: Option<u32>, pub w: f64, pub pos: Vec<f64> }
    pub fn d(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt() }
    pub fn mean(ps: &[P], round: bool) -> Option<P> {
        if ps.is_empty() { return None }
        if ps.len() == 1 { return Some(P { id: None, w: 1.0, pos: ps[0].pos.clone() }) }
        let w: f64 = ps.iter().map(|p| p.w).sum();
        let pos = (0..ps[0].pos.len()).map(|c| { let v = ps.iter().map(|p| p.pos[c] * p.w).sum::<f64>() / w; if round { v.round() } else { v } }).collect();
        Some(P { id: None, w: 1.0, pos })
    }
    impl Distance for P {
        fn dist(&self, o: &Self) -> f64 {
            LOG.with(|l| { let mut l = l.borrow_mut(); l.dists += 1; if l.dists > l.limit { drop(l); std::panic::panic_any(TooMuch) } });
            d(&self.pos, &o.pos)
        }
    }
    impl kmeans::Point for P {
        fn mean(ps: &[Self]) -> Option<Self> {
            let round = LOG.with(|l| { let mut l = l.borrow_mut(); l.means += 1; if ps.is_empty() { l.empty_means += 1 } if ps.len() == 1 { l.single += 1 } l.round });
            mean(ps, round)
        }
    }

    pub fn run(case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let (n, k, dim): (usize, usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        let (round, weighted) = (f[4].contains('r'), f[4].contains('w'));
        let mut r = Rng::new(f[5].parse().unwrap());
        let mut pts = positions(f[0], n, dim, &mut r);
        if round { let mut s = std::collections::HashSet::new(); for p in pts.iter_mut() { for x in p.iter_mut() { *x = x.round() } } pts.retain(|p| s.insert(p.iter().map(|x| x.to_bits()).collect::<Vec<_>>())) }
        if f[4].contains('s') { r.shuffle(&mut pts) }
        let n = pts.len();
        let m = k.min(n);
        let mk = |r: &mut Rng| -> Vec<P> { pts.iter().enumerate().map(|(i, p)| P { id: Some(i as u32), w: if weighted { r.range(1, 50) as f64 } else { 1.0 }, pos: p.clone() }).collect() };
        let limit = 4000 * (n as u64 * m as u64 + m as u64 * m as u64) + 1_000_000;
        LOG.with(|l| *l.borrow_mut() = Log { limit, round, ..Default::default() });
        let input = mk(&mut r);
        let weights: Vec<f64> = input.iter().map(|p| p.w).collect();
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| kmeans::cluster(input, k)));
        let cl: Vec<(P, Vec<P>)> = match res {
            Ok(c) => c.into_iter().collect(),
            Err(e) if e.is::<TooMuch>() => viol!("endless", "{case}: {n} points and {m} clusters took more than {limit} distance evaluations"),
            Err(_) => return Err(cniic_mon::run::panic_viol(case)),
        };
        let (dists, means, empties) = LOG.with(|l| { let l = l.borrow(); (l.dists, l.means, l.empty_means) });
        ensure!(cl.len() == m, "cluster-count", "{case}: {} clusters for {n} points and {k} requested", cl.len());
        let mut seen = vec![0u32; n];
        for (_, ms) in &cl { for p in ms {
            let Some(id) = p.id else { viol!("invented-point", "{case}: a member at {:?} is not one of the input points", p.pos) };
            seen[id as usize] += 1;
            ensure!(p.pos == pts[id as usize] && p.w == weights[id as usize], "changed-point", "{case}: point {id} was changed");
        } }
        if let Some(i) = seen.iter().position(|c| *c != 1) { viol!("partition", "{case}: point {i} at {:?} is in {} clusters; {} points are in none, {} in several", pts[i], seen[i], seen.iter().filter(|c| **c == 0).count(), seen.iter().filter(|c| **c > 1).count()) }
        let active = cl.iter().filter(|c| !c.1.is_empty()).count();
        ensure!(active >= (0.99 * m as f64).floor() as usize && active > 0, "active", "{case}: only {active} of {m} clusters have points");
        for (j, (c, ms)) in cl.iter().enumerate() {
            match mean(ms, round) {
                Some(want) => {
                    let scale = ms.iter().flat_map(|p| p.pos.iter()).fold(1.0f64, |a, x| a.max(x.abs()));
                    ensure!(c.pos.iter().zip(&want.pos).all(|(x, y)| (x - y).abs() <= 1e-9 * scale), "centroid", "{case}: the centroid of cluster {j} is {:?}, the mean of its {} members is {:?}", c.pos, ms.len(), want.pos);
                }
                None => ensure!(pts.iter().any(|p| *p == c.pos), "empty-centroid", "{case}: the centroid {:?} of the empty cluster {j} is not the position of an input point", c.pos),
            }
        }
        let mut bad = 0u64;
        for (c, ms) in &cl { for p in ms {
            let own = d(&c.pos, &p.pos);
            // Empty clusters' centroids may have been placed last
            let best = cl.iter().filter(|c| !c.1.is_empty()).map(|c| d(&c.0.pos, &p.pos)).fold(f64::INFINITY, f64::min);
            if own > best * (1.0 + 1e-9) + 1e-9 { bad += 1 }
        } }
        if m > 1 && m < n {
            obs.count("points_judged", n as u64);
            obs.count("points_not_with_the_nearest_centroid", bad);
            obs.count(&format!("judged:{}", f[0]), n as u64);
            obs.count(&format!("not_nearest:{}", f[0]), bad);
            if n >= 200 {
                obs.max("share_not_with_the_nearest", bad as f64 / n as f64);
                ensure!(bad as f64 <= 0.5 * n as f64, "nearest", "{case}: {bad} of {n} points are not in the cluster of their nearest centroid");
            }
            if std::env::var_os("CAL").is_some() { eprintln!("CAL {} {bad} {n} {case}", bad as f64 / n as f64) }
        }
        obs.eval(m > 1 && m < n, case.as_bytes());
        obs.count("distance_evaluations_watched", dists);
        obs.count("means_watched", means);
        obs.count("empty_clusters_met", empties);
        obs.count("empty_clusters_returned", (m - active) as u64);
        obs.max("evaluations_relative_to_the_limit", dists as f64 / limit as f64);
        obs.max("distances_per_point_and_cluster", dists as f64 / (n * m) as f64);
        obs.sample(format!("{case}: {n} points in {active} of {m} clusters after {dists} distance evaluations, {bad} not with their nearest centroid"));
        Ok(())
    }
}

#[cfg(not(feature = "direct"))]
mod direct {
    use super::*;
    use cniic_mon::{codecs::*, imgs::Spec};
    /// Through the codecs: one site per cluster, a colour for every colour
    pub fn run(case: &str, obs: &mut Obs) -> R {
        let mut r = Rng::new(rng::hash_bytes(case.as_bytes()));
        let (w, h) = (r.range(1, 30) as u32, r.range(1, 30) as u32);
        let s = Spec::random(&mut r, w, h);
        let img = s.build();
        let k = 1 + r.below((w * h) as u64 + 2);
        let b = encode(&codec(&format!("voronoi({k})"))?, &img)?;
        let (_, _, sites) = match refs::parse_sites(&b) { Ok(x) => x, Err(e) => viol!("stream", "voronoi({k}) on {}: {e}", s.text()) };
        ensure!(sites.len() as u64 == k.min((w * h) as u64), "cluster-count", "voronoi({k}) on {}: {} sites", s.text(), sites.len());
        let c = codec(&format!("cluster-colors({k})"))?;
        let b = encode(&c, &img)?;
        let Some(d) = decode(&c, &b)? else { viol!("none", "cluster-colors({k}) on {}", s.text()) };
        let n = flat(&d).px.iter().collect::<std::collections::HashSet<_>>().len() as u64;
        ensure!(n <= k, "cluster-count", "cluster-colors({k}) on {}: {n} colours", s.text());
        obs.eval(true, case.as_bytes());
        obs.count("fallback_images", 1);
        let _ = positions;
        Ok(())
    }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C13" }
    fn rule(&self) -> String {
        "A case is a set of distinct points (14 kinds, 1 to 5 dimensions, with real or rounded means, with or without weights), and a number of clusters. The point type logs every distance and mean computed by the engine (the logical clock of the termination bound: 4000 (n k + k^2) + 10^6 distances) and carries an identity; the result is checked for the number of clusters, each identity exactly once, unchanged points, at least floor(0.99 k) non-empty clusters, centroids equal to the recomputed means (1e-9), empty clusters placed on an input point, and the share of points whose cluster is not the nearest. An evaluation is one clustering; non-trivial if 1 < k < n.".into()
    }
    fn assumptions(&self) -> Vec<String> { vec!["a small fraction means: at most 0.2% of the points over the whole run and 50% in a single set of at least 200 points".into()] }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(13);
        let mut push = |k: &str, n: u64, c: u64, d: u64, o: &str, s: u64| v.push((n * c.min(n), format!("{k}|{n}|{c}|{d}|{o}|{s}")));
        for k in SETS { for o in ["", "s", "r", "rs", "w", "ws", "rws"] {
            for n in 1..=8u64 { for c in 1..=n + 1 { for _ in 0..ctx.n(1, 3) { push(k, n, c, r.range(1, 5), o, r.next() >> 12) } } }
            for _ in 0..ctx.n(60, 900) {
                let n = *r.pick(&[12, 30, 100, 101, 200, 300, 500, 800]);
                let c = match r.below(8) { 0 => 2, 1 => n - 1, 2 => n, 3 => n + 5, 4 => r.range(2, 20), 5 => n / 2, 6 => r.range(90, 210), _ => 1 + r.below(n) };
                push(k, n, c.min(400), r.range(1, 5), o, r.next() >> 12)
            }
            for _ in 0..ctx.n(2, 30) { push(k, r.range(1500, 4000), *r.pick(&[2, 7, 30, 100, 300]), r.range(1, 5), o, r.next() >> 12) }
        } }
        push("uniform", 10, u64::MAX, 2, "", 1);
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R { direct::run(case, obs) }
    fn finish(&self, _ctx: &Ctx, t: &Totals) -> R {
        if t.c("fallback_images") > 0 { return Ok(()) }
        let (n, bad) = (t.c("points_judged"), t.c("points_not_with_the_nearest_centroid"));
        ensure!(n > 100_000, "HARNESS", "only {n} points were judged");
        ensure!(bad as f64 <= 0.002 * n as f64, "nearest", "{bad} of {n} points are not in the cluster of their nearest centroid: more than a small fraction");
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
