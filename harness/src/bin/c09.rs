//! C09: codecs are pure: independent of history, of threads and of reuse
//!
//! Other modes of this program:
//!   --oneshot CODEC SPEC        one encode and decode in a fresh process, results on file descriptor 3's stand-in (a file)
//!   --stress SEED ROUNDS        a multi-threaded workload that checks itself, run under the sanitizers
#![cfg_attr(cniic_san, feature(internal_output_capture))]
use cniic_mon::{codecs::*, imgs::*, io_faults::*, *};
use cniic::verif::codec::{AnyCodec, Codec};
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

const EXACT: [&str; 7] = ["zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "hilbert(rle(0.5))", "hilbert(rle(70))"];
const ALL: [&str; 11] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "hilbert(rle(0.5))", "hilbert(rle(70))", "cluster-colors(4)", "voronoi(5)"];

#[derive(Clone, PartialEq)]
struct Ref { bytes: Vec<u8>, w: u32, h: u32, px: Vec<[u8; 3]>, bad: Vec<u64> }

const BAD: u64 = 5;
/// The jth damaged version of a stream, always with the same dimensions
fn damaged(c: &str, b: &[u8], w: u32, h: u32, j: u64) -> Vec<u8> {
    let mut r = Rng::new(rng::hash_bytes(b) ^ j << 7);
    let code = |v: u64| (v as u16).to_le_bytes();
    // What was never there is referred to, for the channels of a few pixels
    if j < 2 && c.contains("zip") {
        let (w, h) = if c == "zip(back)" { (w.min(3), h.min(2)) } else { (1, 1) };
        let dims: Vec<u8> = w.to_le_bytes().into_iter().chain(h.to_le_bytes()).collect();
        let three = 3u64.to_le_bytes();
        let mut v: Vec<u8> = match c { "zip(back)" => [vec![8, 0], dims].concat(), "zip(dict)" => dims.iter().flat_map(|b| code(*b as u64)).collect(), _ => dims };
        let m = *r.pick(&[300, 600, 3000, 65534]);
        for k in 0..(w * h) as u64 {
            if c == "zip(back)" { v.extend([8, 0]); v.extend(three); v.extend([3, 0x80]); v.extend(code(r.range(20 + 11 * k, m.max(400)))) }
            else { v.extend(three.iter().flat_map(|b| code(*b as u64))); for _ in 0..4 { v.extend(code(r.range(270, m))) } }
        }
        return v
    }
    // The first bytes may be the dimensions, in some form
    let keep = if c.starts_with("zip") { 24 } else { 8 };
    let mut v = b.to_vec();
    if v.len() <= keep { return v }
    for _ in 0..r.range(1, 3) {
        let k = keep + r.us(v.len() - keep);
        match r.below(4) { 0 => v[k] ^= 1 << r.below(8), 1 => v[k] = r.byte(), 2 => { v.insert(k, r.byte()) } _ => { let l = v.len(); for x in &mut v[k..(k + 4).min(l)] { *x = r.byte() } } }
    }
    if r.chance(1, 4) { let k = keep + r.us(v.len() - keep); v.truncate(k) }
    v
}
fn digest(d: Option<image::DynamicImage>) -> u64 {
    d.map_or(0, |d| { let f = flat(&d); let mut b: Vec<u8> = f.px.into_iter().flatten().collect(); b.extend(f.w.to_le_bytes()); b.extend(f.h.to_le_bytes()); rng::hash_bytes(&b) | 1 })
}

fn compute(c: &str, img: &image::DynamicImage) -> Result<Ref, Viol> {
    let cd = codec(c)?;
    let bytes = encode(&cd, img)?;
    let Some(d) = decode(&cd, &bytes)? else { viol!(format!("none:{c}"), "{c}: its own stream can't be decoded") };
    let f = flat(&d);
    let mut bad = vec![];
    for j in 0..BAD { bad.push(digest(decode(&cd, &damaged(c, &bytes, f.w, f.h, j))?)) }
    Ok(Ref { bytes, w: f.w, h: f.h, px: f.px, bad })
}

/// The result of a process that does nothing else
fn pristine(c: &str, s: &str, dir: &std::path::Path) -> Result<Ref, Viol> {
    let out = dir.join("oneshot");
    let p = Command::new(std::env::current_exe().expect("exe")).args(["--oneshot", c, s]).arg(&out)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().map_err(|e| Viol::new("HARNESS", format!("{e}")))?;
    if !p.status.success() { viol!("oneshot", "{c} on {s} in a fresh process: {:?} {}", p.status, String::from_utf8_lossy(&p.stderr)) }
    let b = std::fs::read(&out).map_err(|e| Viol::new("HARNESS", format!("{e}")))?;
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    let d = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let e = b.len() - 8 * BAD as usize;
    let bad = b[e..].chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    Ok(Ref { bad, bytes: b[16..16 + n].to_vec(), w: d(8), h: d(12), px: b[16 + n..e].chunks(3).map(|c| [c[0], c[1], c[2]]).collect() })
}

/// One codec and one image with what is known about them
struct Item { c: String, s: String, img: image::DynamicImage, orig: Flat, rf: Ref, other: Ref }

struct Pool { codecs: HashMap<String, AnyCodec>, items: Vec<Item> }

impl Pool {
    fn new(codecs: &[&str], specs: &[Spec], mut reference: impl FnMut(&str, &Spec) -> Result<Ref, Viol>) -> Result<Pool, Viol> {
        let mut p = Pool { codecs: HashMap::new(), items: vec![] };
        for c in codecs {
            p.codecs.insert(c.to_string(), codec(c)?);
            for s in specs {
                let img = s.build();
                let (rf, other) = (reference(c, s)?, reference(c, s)?);
                let orig = flat(&img);
                // Two fresh processes agree in everything that is not random
                if EXACT.contains(c) { ensure!(rf == other, format!("nondeterministic:{c}"), "{c} on {}: two fresh processes gave different results", s.text()) }
                if *c == "hufman" || *c == "delta" { ensure!(rf.px == other.px && rf.bytes.len() == other.bytes.len(), format!("nondeterministic:{c}"), "{c} on {}: two fresh processes gave different images or sizes", s.text()) }
                p.items.push(Item { c: c.to_string(), s: s.text(), img, orig, rf, other });
            }
        }
        Ok(p)
    }

    /// One operation; returns what it was
    fn op(&self, i: usize, kind: u64, r: &mut Rng) -> Result<&'static str, Viol> {
        let it = &self.items[i];
        let cd = &self.codecs[&it.c];
        let same = |d: image::DynamicImage, rf: &Ref, what: &str| -> R {
            let f = flat(&d);
            if f.w != rf.w || f.h != rf.h || f.px != rf.px {
                let n = f.px.iter().zip(&rf.px).filter(|(a, b)| a != b).count();
                viol!(format!("{what}:{}", it.c), "{} on {}: {what} of a recorded stream gave a {}x{} image instead of {}x{} with {n} different pixels", it.c, it.s, f.w, f.h, rf.w, rf.h)
            }
            Ok(())
        };
        Ok(match kind {
            0..=2 => {
                let b = encode(cd, &it.img)?;
                self.judge_stream(it, cd, &b)?;
                "encode"
            }
            3..=5 => {
                let rf = if r.chance(1, 2) { &it.rf } else { &it.other };
                match decode(cd, &rf.bytes)? { Some(d) => same(d, rf, "decode")?, None => viol!(format!("decode:{}", it.c), "{} on {}: a recorded stream is no longer decoded", it.c, it.s) }
                "decode"
            }
            6 => {
                // An output that fails somewhere
                let mut w = Full { got: vec![], limit: r.us(it.rf.bytes.len()), failed: false };
                if r.chance(1, 3) { w.limit = it.rf.bytes.len() - 1 }
                let res = encode_to(cd, &it.img, &mut w)?;
                ensure!(!w.failed || res.is_err(), "swallowed", "{} on {}: the failure of the output was not reported", it.c, it.s);
                "failed encode"
            }
            7 => {
                let k = if r.chance(1, 3) { it.rf.bytes.len() - 1 } else { r.us(it.rf.bytes.len()) };
                ensure!(decode(cd, &it.rf.bytes[..k])?.is_none(), "accepted", "{} on {}: a truncated stream was decoded", it.c, it.s);
                "truncated decode"
            }
            8 => {
                let j = if r.chance(1, 3) { 0 } else { r.below(BAD) };
                let b = damaged(&it.c, &it.rf.bytes, it.rf.w, it.rf.h, j);
                let d = digest(decode(cd, &b)?);
                let what = |d: u64| if d == 0 { "no image" } else { "an image" };
                ensure!(d == it.rf.bad[j as usize], format!("damaged:{}", it.c), "{} on {}: damaged stream number {j} is decoded to {} unlike in a fresh process ({})", it.c, it.s, what(d), what(it.rf.bad[j as usize]));
                "damaged decode"
            }
            _ => {
                // A reader that is abandoned
                let k = r.us(it.rf.bytes.len());
                let mut src = it.rf.bytes[..k].iter().copied();
                let _ = run::guard("decode", || cd.decode(&mut src))?;
                "abandoned decode"
            }
        })
    }

    fn judge_stream(&self, it: &Item, cd: &AnyCodec, b: &[u8]) -> R {
        let c = &it.c[..];
        if EXACT.contains(&c) {
            if b != &it.rf.bytes[..] {
                let i = b.iter().zip(&it.rf.bytes).position(|(x, y)| x != y).unwrap_or(b.len().min(it.rf.bytes.len()));
                viol!(format!("bytes:{c}"), "{c} on {}: {} bytes differ from the {} bytes of a fresh process at byte {i}", it.s, b.len(), it.rf.bytes.len())
            }
            return Ok(())
        }
        if c == "hufman" || c == "delta" { ensure!(b.len() == it.rf.bytes.len(), format!("size:{c}"), "{c} on {}: {} bytes instead of the {} of a fresh process", it.s, b.len(), it.rf.bytes.len()) }
        let Some(d) = decode(cd, b)? else { viol!(format!("none:{c}"), "{c} on {}: its stream can't be decoded", it.s) };
        let f = flat(&d);
        if c == "hufman" || c == "delta" { if let Some(e) = diff(&it.orig, &f) { viol!(format!("image:{c}"), "{c} on {}: {e}", it.s) } }
        else { ensure!((f.w, f.h) == (it.orig.w, it.orig.h), format!("image:{c}"), "{c} on {}: wrong dimensions", it.s) }
        Ok(())
    }
}

/// Images that are easy to mistake for one another: same dimensions, same colours, same beginning
fn family(r: &mut Rng, m: u64) -> Vec<Spec> {
    let (w, h) = (r.range(2, m) as u32, r.range(2, m) as u32);
    let base = Spec::random(r, w, h);
    let mut v = vec![base.clone()];
    let mut s = base.clone(); s.seed += 1; v.push(s);
    v.push(Spec { w: h, h: w, ..base.clone() });
    v.push(Spec { h: h + 1, ..base.clone() });
    v.push(Spec::random(r, w, h));
    v.push(Spec::random(r, 1, 1));
    let (w, h) = (r.range(1, 2 * m) as u32, r.range(1, 2 * m) as u32);
    v.push(Spec::random(r, w, h));
    v
}

/// Images whose dimensions are easy to mistake for those of another
fn lookalikes(r: &mut Rng) -> Vec<Spec> {
    let (a, b) = (1 + r.below(9) as u32, 1 + r.below(9) as u32);
    let dims: Vec<(u32, u32)> = match r.below(7) {
        0 => vec![(1, 65537), (1, 1), (3, 1), (1, 65539), (65537, 1)],
        1 => vec![(a, b), (a, b + 256), (a + 1, b), (a + 256, b), (b, a), (a, b + 255)],
        2 => vec![(a, 2 * b), (2 * a, b), (1, 2 * a * b), (2 * a * b, 1), (2 * b, a), (b, 2 * a)],
        3 => vec![(a, b + 4), (a + 1, b + 3), (a + 2, b + 2), (a + 4, b), (a, b + 4)],
        4 => vec![(a + 8, b + 8), (a + 7, b + 8), (a + 8, b + 7), (a + 8, b + 9), (a + 9, b + 8)],
        5 => vec![(2, 2), (1, 1), (4, 4), (3, 3), (8, 8), (1, 2)],
        _ => vec![(1 + a % 2, 32768 + b), (1 + a % 2, b), (2 + a % 2, 1), (1 + a % 2, 16384 + b), (1, 1)],
    };
    let pat = Spec::random(r, 1, 1);
    let one = r.chance(1, 2);
    dims.into_iter().map(|(w, h)| if one { Spec { w, h, ..pat.clone() } } else { Spec::random(r, w, h) }).collect()
}

/// Images that only differ in few pixels
fn near(r: &mut Rng, m: u64) -> Vec<Spec> {
    let (w, h) = (r.range(1, m) as u32, r.range(1, m) as u32);
    let s = Spec::random(r, w, h);
    let n = w as u64 * h as u64;
    let mut v = vec![s.clone()];
    for k in [0, n - 1, n / 2, r.below(n), r.below(n)] { v.push(s.clone().with_fmt(&format!("rgb8~{k}"))) }
    v
}

/// Every unusual path of the codecs once
fn dense(r: &mut Rng) -> Vec<Spec> {
    [("solid", 3, 31), ("noise", 256, 23), ("photo", 3, 20), ("hruns", 300, 40), ("rperiod", 64, 24), ("blobs", 4, 16), ("skew", 16, 40), ("avgtie", 1, 20)].map(|(p, a, m)| Spec::new(m + r.below(5) as u32, m + r.below(5) as u32, p, a, r.next() >> 20, "rgb8")).to_vec()
}

/// What is printed would pass through a lock, which orders the threads
#[cfg(cniic_san)]
fn no_printing() { std::io::set_output_capture(Some(Default::default())); }
#[cfg(not(cniic_san))]
fn no_printing() {}

struct Stats { ops: AtomicU64, overlaps: AtomicU64, max: AtomicU64, pairs: Mutex<std::collections::HashSet<(String, String)>> }

/// Threads that use the same codec values; each operation is judged on its own
fn threads(pool: &Arc<Pool>, nthreads: usize, per: usize, seed: u64, st: &Arc<Stats>) -> R {
    let inflight: Arc<Vec<AtomicUsize>> = Arc::new((0..nthreads).map(|_| AtomicUsize::new(0)).collect());
    let barrier = Arc::new(std::sync::Barrier::new(nthreads));
    let hs: Vec<_> = (0..nthreads).map(|t| {
        let (pool, inflight, barrier, st) = (pool.clone(), inflight.clone(), barrier.clone(), st.clone());
        std::thread::spawn(move || -> R {
            let mut r = Rng::new(seed ^ (t as u64) << 40);
            no_printing();
            barrier.wait();
            for k in 0..per {
                let i = r.us(pool.items.len());
                let kind = r.below(10);
                inflight[t].store(1 + i * 10 + kind as usize, Ordering::SeqCst);
                let mut n = 0;
                for (u, f) in inflight.iter().enumerate() {
                    let v = f.load(Ordering::SeqCst);
                    if u != t && v != 0 {
                        n += 1;
                        let j = (v - 1) / 10;
                        if k % 4 == 0 { st.pairs.lock().unwrap().insert((format!("{}{}", pool.items[i].c, kind), format!("{}{}", pool.items[j].c, (v - 1) % 10))); }
                    }
                }
                st.overlaps.fetch_add(n, Ordering::Relaxed);
                st.max.fetch_max(n + 1, Ordering::Relaxed);
                let res = pool.op(i, kind, &mut r);
                inflight[t].store(0, Ordering::SeqCst);
                st.ops.fetch_add(1, Ordering::Relaxed);
                res.map_err(|mut v| { v.msg = format!("with {nthreads} threads, thread {t} operation {k}: {}", v.msg); v })?;
                match r.below(6) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(std::time::Duration::from_micros(r.below(200))), _ => {} }
            }
            Ok(())
        })
    }).collect();
    let mut res = Ok(());
    for h in hs { match h.join() { Ok(Ok(())) => {} Ok(e) => res = e, Err(_) => res = Err(run::panic_viol("a thread")) } }
    res
}
fn stats() -> Arc<Stats> { Arc::new(Stats { ops: AtomicU64::new(0), overlaps: AtomicU64::new(0), max: AtomicU64::new(0), pairs: Mutex::new(Default::default()) }) }

/// The workload of the sanitizer builds: no subprocesses, references from the first use
fn stress(seed: u64, rounds: usize, nthreads: usize, size: u64) -> i32 {
    let mut r = Rng::new(seed);
    let st = stats();
    for round in 0..rounds {
        let specs = if round % 4 == 2 { dense(&mut r) } else { let mut v = family(&mut r, size); v.truncate(5); v };
        // No warm-up: the first use of everything may happen on several threads at once
        let res = if round % 2 == 0 {
            let imgs: Vec<_> = specs.iter().map(|s| s.build()).collect();
            let cds: Arc<Vec<AnyCodec>> = Arc::new(ALL.iter().filter_map(|c| codec(c).ok()).collect());
            let imgs = Arc::new(imgs);
            let b = Arc::new(std::sync::Barrier::new(nthreads));
            let hs: Vec<_> = (0..nthreads).map(|t| { let (cds, imgs, b, st) = (cds.clone(), imgs.clone(), b.clone(), st.clone()); std::thread::spawn(move || -> R {
                let mut k = 0;
                no_printing();
                for (i, c) in cds.iter().enumerate().flat_map(|x| std::iter::repeat(x).take(if imgs.len() > 5 { imgs.len() } else { 1 })) {
                    if k % imgs.len() == 0 { b.wait(); no_printing() }
                    let img = &imgs[(t + i + k) % imgs.len()];
                    k += 1;
                    let by = encode(c, img)?;
                    ensure!(decode(c, &by)?.is_some(), "none", "{} can't decode its own stream", c.name());
                    // Accepted and rejected texts: the parser of the alternatives has unsafe code
                    let mut tr = Rng::new(seed ^ (t as u64) << 32 ^ k as u64);
                    for j in 0..6 {
                        let x: String = if j == 0 { ALL[i].into() } else { (0..tr.us(6)).map(|_| *tr.pick(&["hilbert", "zip", "(", ")", "rle", "dict", "7", ",", "voronoi", "ccol", "é", "hufman", "delta", ""])).collect() };
                        match x.parse::<AnyCodec>() { Ok(c) => { c.name(); } Err(e) => { format!("{e:?}"); } }
                    }
                    st.ops.fetch_add(1, Ordering::Relaxed);
                }
                Ok(())
            }) }).collect();
            let mut res = Ok(());
            for h in hs { match h.join() { Ok(Ok(())) => {} Ok(e) => res = e, Err(_) => res = Err(Viol::new("panic", "a thread panicked")) } }
            res
        } else {
            Pool::new(&ALL, &specs, |c, s| compute(c, &s.build())).and_then(|p| threads(&Arc::new(p), nthreads, 40, r.next(), &st))
        };
        if let Err(v) = res { eprintln!("STRESS-VIOLATION {}: {}", v.sig, v.msg); return 3 }
    }
    eprintln!("STRESS ops={} overlaps={} pairs={}", st.ops.load(Ordering::Relaxed), st.overlaps.load(Ordering::Relaxed), st.pairs.lock().unwrap().len());
    0
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C09" }
    fn rule(&self) -> String {
        "The reference results of every (codec, image) pair come from processes that do nothing else (two of them, which must agree). 'seq' cases use the same codec values for a long random sequence of encodes, decodes, failed encodes, truncated, damaged and abandoned decodes on one thread, over images that are easily mistaken for one another ('dims': dimensions with the same area, sum or low bits; 'near': images that differ in one pixel); 'thr' cases do so on 2 to 16 threads at once. Every result is compared with the reference: bytes for zip and hilbert, images and sizes for hufman and delta, decoded images for all, the results of damaged streams included. 'tsan' and 'asan' cases run such a workload, and the benchmark program on generated files, built with ThreadSanitizer and AddressSanitizer (std included); any report is a violation. Distinct by (sequence of operations) for seq and by overlapping pair of operations for thr.".into()
    }
    fn assumptions(&self) -> Vec<String> { vec!["schedules are those the kernel chose, with random yields and sleeps between operations".into(), "sanitizer reports inside of crossbeam (memory fences, which ThreadSanitizer does not model) are suppressed".into()] }
    fn mem_limit(&self) -> u64 { 0 }
    fn cpu_limit(&self) -> u64 { 900 }
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 150 } else { 3000 } }
    fn workers(&self) -> usize { 4 }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(9);
        for k in ["tsan", "asan"] {
            if san_bin(k, "c09").is_some() {
                for i in 0..ctx.n(3, 40) { v.push(format!("{k}|{}|{}|{}", r.next() >> 12, ctx.n(4, 8), [4, 2, 8][i % 3])) }
            } else { v.push(format!("{k}|unavailable")) }
            if san_bin(k, "cniic_cli").is_some() { for i in 0..ctx.n(3, 30) { v.push(format!("{k}-cli|{}|{}", r.next() >> 12, [4, 8, 2][i % 3])) } }
        }
        for i in 0..ctx.n(24, 400) {
            v.push(format!("dims|{}|0|{}", r.next() >> 12, ctx.n(120, 300)));
            v.push(format!("near|{}|{}|{}", r.next() >> 12, [4, 12, 30][i % 3], ctx.n(200, 500)));
            let m = [6, 16, 40, 9][i % 4];
            v.push(format!("seq|{}|{m}|{}", r.next() >> 12, ctx.n(400, 800)));
            v.push(format!("thr|{}|{m}|{}|{}", r.next() >> 12, [2, 3, 8, 16, 4][i % 5], ctx.n(60, 150)));
        }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let n = |i: usize| f[i].parse::<u64>().unwrap();
        if f[0] == "tsan" || f[0] == "asan" {
            if f[1] == "unavailable" { obs.count(&format!("{}_unavailable", f[0]), 1); obs.evals(1); return Ok(()) }
            let sc = proc::Scratch::new("c09");
            let o = proc::run_with(&san_bin(f[0], "c09").unwrap(), sc.path(), &["--stress".into(), f[1].into(), f[2].into(), f[3].into()], &san_env(), 700);
            judge_san(f[0], case, &o, &[0])?;
            let ops: u64 = o.stderr.lines().find_map(|l| l.strip_prefix("STRESS ops=")).and_then(|l| l.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
            ensure!(ops > 0, "HARNESS", "no operations under {}: {}", f[0], o.how());
            obs.count(&format!("{}_operations", f[0]), ops);
            obs.eval(true, case.as_bytes());
            obs.sample(format!("{case}: {ops} operations, no report"));
            return Ok(())
        }
        if f[0].ends_with("-cli") {
            let k = &f[0][..4];
            let mut r = Rng::new(n(1));
            let c = *r.pick(&ALL);
            let sc = proc::Scratch::new("c09");
            std::fs::create_dir_all(sc.path().join("output")).unwrap();
            let mut args = vec![format!("--codec={c}").into()];
            for i in 0..10 {
                let (w, h) = (r.range(1, 24) as u32, r.range(1, 24) as u32);
                let name = format!("i{i}.png");
                if i == 3 { std::fs::write(sc.path().join(&name), b"not an image").unwrap() } else { Spec::random(&mut r, w, h).build().save(sc.path().join(&name)).map_err(|e| Viol::new("HARNESS", format!("{e}")))? }
                args.push(name.into());
            }
            args.push("missing.png".into());
            let mut env = san_env();
            env.push(("RAYON_NUM_THREADS", f[2].into()));
            let o = proc::run_with(&san_bin(k, "cniic_cli").unwrap(), sc.path(), &args, &env, 700);
            judge_san(k, case, &o, &[0])?;
            let rows = std::fs::read_dir(sc.path().join("output")).map(|d| d.count()).unwrap_or(0);
            obs.count(&format!("{k}_program_runs"), 1);
            obs.eval(rows > 0, case.as_bytes());
            obs.sample(format!("{case}: {c}, exit 0, no report"));
            return Ok(())
        }
        let mut r = Rng::new(n(1));
        let m = n(2);
        let specs = match f[0] { "dims" => lookalikes(&mut r), "near" => near(&mut r, m), _ => family(&mut r, m) };
        let mut cs: Vec<&str> = ALL.to_vec();
        r.shuffle(&mut cs);
        cs.truncate(5);
        if f[0] == "thr" && r.chance(1, 2) { cs.truncate(1) }
        let sc = proc::Scratch::new("c09");
        let pool = Pool::new(&cs, &specs, |c, s| pristine(c, &s.text(), sc.path()))?;
        obs.count("fresh_process_references", 2 * pool.items.len() as u64);
        match f[0] {
            "seq" | "dims" | "near" => {
                let mut trace: Vec<String> = vec![];
                for k in 0..n(3) {
                    let i = r.us(pool.items.len());
                    // Often stay with the previous pair of images
                    let kind = r.below(10);
                    match pool.op(i, kind, &mut r) {
                        Ok(what) => { obs.count(&format!("ops:{what}"), 1); trace.push(format!("{what} {} {}", pool.items[i].c, pool.items[i].s)) }
                        Err(mut v) => { v.msg = format!("operation {k}: {} (before it: {})", v.msg, trace.iter().rev().take(5).cloned().collect::<Vec<_>>().join(" <- ")); return Err(v) }
                    }
                    if trace.len() >= 2 { let l = trace.len(); obs.fp(rng::hash_bytes(format!("{}|{}", trace[l - 2], trace[l - 1]).as_bytes())) }
                }
                obs.evals(n(3));
                obs.sample(format!("{case}: {} operations ending with {}", trace.len(), trace.last().unwrap()));
            }
            _ => {
                let st = stats();
                threads(&Arc::new(pool), n(3) as usize, n(4) as usize, n(1), &st)?;
                let ops = st.ops.load(Ordering::Relaxed);
                obs.evals(ops);
                obs.count("concurrent_operations", ops);
                obs.count("overlapping_operations_observed", st.overlaps.load(Ordering::Relaxed));
                obs.max("operations_in_flight", st.max.load(Ordering::Relaxed) as f64);
                for p in st.pairs.lock().unwrap().iter() { obs.fp(rng::hash_bytes(format!("{}||{}", p.0, p.1).as_bytes())) }
                obs.sample(format!("{case}: {ops} operations on {} threads, {} overlaps", f[3], st.overlaps.load(Ordering::Relaxed)));
            }
        }
        Ok(())
    }
    fn finish(&self, _ctx: &Ctx, t: &Totals) -> R {
        ensure!(t.c("concurrent_operations") == 0 || t.c("overlapping_operations_observed") > 0, "HARNESS", "no two operations ever overlapped");
        Ok(())
    }
}

fn san_bin(kind: &str, bin: &str) -> Option<PathBuf> {
    let p = PathBuf::from(std::env::var_os("C09_SAN_DIR")?).join(kind).join("x86_64-unknown-linux-gnu/debug").join(bin);
    p.exists().then_some(p)
}
fn san_env() -> Vec<(&'static str, String)> {
    vec![("TSAN_OPTIONS", format!("exitcode=66 halt_on_error=1 suppressions={}", run::verif_dir().join("tools/tsan.supp").display())),
        ("ASAN_OPTIONS", "exitcode=67 halt_on_error=1 detect_leaks=1 detect_stack_use_after_return=0".into())]
}
fn judge_san(kind: &str, case: &str, o: &proc::Out, ok: &[i32]) -> R {
    let rep = o.stderr.find("ERROR: AddressSanitizer").or_else(|| o.stderr.find("WARNING: ThreadSanitizer")).or_else(|| o.stderr.find("ERROR: LeakSanitizer"));
    if o.stderr.contains("FATAL: ThreadSanitizer") || o.stderr.contains("Shadow memory range interleaves") || o.stderr.contains("ReserveShadowMemoryRange failed") { viol!("HARNESS", "{kind} could not start: {}", o.how()) }
    if let Some(i) = rep { viol!(format!("{kind}-report"), "{case}: {}", o.stderr[i..].chars().take(2500).collect::<String>()) }
    if let Some(l) = o.stderr.lines().find_map(|l| l.strip_prefix("STRESS-VIOLATION ")) { viol!("stress", "{case}: {l}") }
    if let Some(h) = &o.hang { viol!("hang", "{case}: {h}") }
    if !o.code.map(|c| ok.contains(&c)).unwrap_or(false) { viol!("crash", "{case}: {}", o.how()) }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("--oneshot") => {
            match compute(&a[2], &Spec::parse(&a[3]).build()) {
                Ok(r) => {
                    let mut b = (r.bytes.len() as u64).to_le_bytes().to_vec();
                    b.extend(r.w.to_le_bytes()); b.extend(r.h.to_le_bytes()); b.extend(&r.bytes);
                    for p in r.px { b.extend(p) }
                    for x in r.bad { b.extend(x.to_le_bytes()) }
                    std::fs::write(&a[4], b).expect("write");
                }
                Err(v) => { eprintln!("{}: {}", v.sig, v.msg); std::process::exit(3) }
            }
        }
        Some("--stress") => std::process::exit(stress(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(5).and_then(|s| s.parse().ok()).unwrap_or(12))),
        _ => run::main_for(&C),
    }
}
