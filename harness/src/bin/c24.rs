//! C24: memory use stays proportionate to the data
use cniic_mon::codecs::*;
use cniic_mon::imgs::Spec;
use cniic_mon::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

/// The heap of this process, with every byte counted
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
fn more(n: usize) { let l = LIVE.fetch_add(n, Relaxed) + n; PEAK.fetch_max(l, Relaxed); CALLS.fetch_add(1, Relaxed); LARGEST.fetch_max(n, Relaxed); }
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { more(l.size()) } else { LARGEST.fetch_max(l.size(), Relaxed); } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { more(l.size()) } else { LARGEST.fetch_max(l.size(), Relaxed); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static HEAP: Count = Count;

struct Use { peak: usize, live_before: usize, calls: usize, largest: usize }
fn watch<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let (b, c) = (LIVE.load(Relaxed), CALLS.load(Relaxed));
    PEAK.store(b, Relaxed);
    LARGEST.store(0, Relaxed);
    let r = f();
    (r, Use { peak: PEAK.load(Relaxed).saturating_sub(b), live_before: b, calls: CALLS.load(Relaxed) - c, largest: LARGEST.load(Relaxed) })
}

const FIXED: usize = 16 << 20;
const PER_CLUSTER: usize = 24 << 10;
fn parameter(c: &str) -> usize { c.split(['(', ')']).nth(1).and_then(|x| x.parse::<u64>().ok()).map_or(0, |x| x.min(1 << 40) as usize) }
/// What encoding may take, besides the stream
fn enc_limit(c: &str, px: usize) -> usize {
    let k = c.split('(').next().unwrap();
    FIXED + match k {
        "hufman" | "delta" => 600 * px,
        "zip" if c == "zip(back)" => 64 * px,
        "hilbert" if c != "hilbert(zip)" => 64 * px,
        "zip" | "hilbert" => 3000 * px,
        _ => 800 * px + PER_CLUSTER * parameter(c).min(px),
    }
}
/// What decoding may take, the image included
fn dec_limit(c: &str, px: usize, stream: usize) -> usize {
    FIXED + 4 * stream + match c.split('(').next().unwrap() {
        "hufman" | "delta" | "cluster-colors" => 150 * px,
        "zip" if c == "zip(back)" => 32 * px,
        "hilbert" if c != "hilbert(zip)" => 32 * px,
        "zip" | "hilbert" => 300 * px,
        _ => 32 * px,
    }
}
fn short(c: &str) -> &str { if c.starts_with("hilbert(rle") { "hilbert(rle)" } else if c.ends_with("p)") || c.starts_with("zip") { c } else { c.split('(').next().unwrap() } }

fn measured_decode(c: &str, cd: &cniic::verif::codec::AnyCodec, b: &[u8], px: usize, what: &str, obs: &mut Obs) -> Result<bool, Viol> {
    let (r, u) = watch(|| decode(cd, b));
    let lim = dec_limit(c, px, b.len());
    let ok = match &r { Ok(d) => d.is_some(), Err(_) => false };
    obs.max(&format!("decode_share_of_limit:{}", short(c)), u.peak as f64 / lim as f64);
    obs.count("allocations", u.calls as u64);
    let heads = b.iter().take(60).map(|x| format!("{x:02x}")).collect::<String>();
    ensure!(u.peak <= lim && u.largest <= lim, "decode-memory", "{what}: decoding {} bytes for {px} pixels took {} bytes of memory ({} at once); {lim} are the limit (stream {heads}..)", b.len(), u.peak, u.largest);
    drop(r?);
    Ok(ok)
}

fn image_case(c: &str, s: &Spec, obs: &mut Obs) -> R {
    let img = s.build();
    let px = (s.w * s.h) as usize;
    let cd = codec(c)?;
    let mut out: Vec<u8> = Vec::with_capacity(px * 20 + (1 << 16));
    let (r, u) = watch(|| encode_to(&cd, &img, &mut out));
    if let Err(e) = r? { viol!("encode-err", "{c}: {e:?}") }
    let lim = enc_limit(c, px);
    obs.max(&format!("encode_share_of_limit:{}", short(c)), u.peak as f64 / lim as f64);
    obs.max("pixels", px as f64);
    obs.count("allocations", u.calls as u64);
    ensure!(u.peak <= lim && u.largest <= lim, "encode-memory", "{c} on {}: encoding took {} bytes of memory ({} at once) for {px} pixels; {lim} are the limit", s.text(), u.peak, u.largest);
    let left = LIVE.load(Relaxed) as i64 - u.live_before as i64;
    obs.eval(px > 1, format!("{c} {}", s.text()).as_bytes());
    let peak = u.peak;
    let ok = measured_decode(c, &cd, &out, px, &format!("{c} on {}", s.text()), obs)?;
    ensure!(ok, "none", "{c} could not decode its own stream of {}", s.text());
    obs.evals(1);
    obs.sample(format!("{c} on {}: at most {peak} bytes allocated, {left} left, stream of {} bytes", s.text(), out.len()));
    Ok(())
}

/// Streams that announce or unfold into more than the image has
fn hostile_case(c: &str, kind: &str, s: &Spec, seed: u64, obs: &mut Obs) -> R {
    let px = (s.w * s.h) as usize;
    let cd = codec(c)?;
    let b = encode(&cd, &s.build())?;
    let head = refs::header(s.w, s.h);
    let mut r = Rng::new(seed);
    let zip = c.starts_with("zip");
    for i in 0..40u64 {
        let d: Vec<u8> = match kind {
            // Lengths and counts, anywhere
            "lengths" => {
                let mut d = b.clone();
                for _ in 0..1 + r.us(3) {
                    let k = if zip { 16.min(d.len()) } else { 8 } + r.us(d.len().saturating_sub(16).max(1));
                    let v: u64 = match r.below(6) { 0 => u64::MAX, 1 => 1 << (20 + r.below(43)), 2 => u32::MAX as u64, 3 => 100_000_000 + r.below(1 << 30), 4 => isize::MAX as u64, _ => 1 << 40 };
                    let v = v.to_le_bytes();
                    let n = *r.pick(&[2usize, 4, 8]);
                    // In place of what is there, at a place where a count is likely
                    let k = if r.chance(1, 2) { 8 + 11 * r.us(3) } else if r.chance(1, 3) { 8 } else { k };
                    for j in 0..n { if k + j < d.len() { d[k + j] = v[8 - n..][j] } }
                }
                if !zip { d[..8].copy_from_slice(&head) }
                d
            }
            // A count and hardly anything else
            "counts" => { let v = [u64::MAX, 1 << 32, 1 << 40, u32::MAX as u64, 50_000_000, 1 << 63, (1 << 63) - 1, 1 << 27][i as usize % 8]; let tail: Vec<u8> = (0..r.us(60)).map(|_| r.byte()).collect(); if zip { b[..b.len().min(8 + r.us(40))].to_vec() } else { [&head[..], &v.to_le_bytes(), &tail].concat() } }
            // Dictionary entries that double in length: 2^n bytes after n of them
            "bomb" => {
                if c == "zip(dict)" { refs::dict_bomb(&head, &[], i % 2 == 0, &mut r) } else { refs::dict_bomb(&[], &head, i % 2 == 0, &mut r) }
            }
            // An entry of each length up to that of the image: their sum is quadratic
            "chain" => { let fl = flat(&s.build()); let p = if c == "zip(dict)" { refs::raster_stream(fl.w, fl.h, &fl.px) } else { refs::hilbert_stream(fl.w, fl.h, &fl.px) }; let d = refs::dict_random_parse(&p, &mut r); if c == "zip(dict)" { d } else { [head.clone(), d].concat() } }
            // Any bytes
            _ => { let n = *r.pick(&[10, 200, 5000, 100_000]); let a = *r.pick(&[2, 3, 256]); let body: Vec<u8> = (0..n).map(|_| r.below(a) as u8).collect(); if c == "zip(dict)" { [head.iter().flat_map(|b| [*b, 0]).collect(), body].concat() } else if c == "zip(back)" { [vec![8, 0], head.clone(), body].concat() } else { [head.clone(), body].concat() } }
        };
        // Other dimensions ask for other amounts
        if zip && kind == "lengths" {
            let intact = match c { "zip(dict)" => refs::dict_expand(&d[..16.min(d.len()) / 4 * 4]).is_ok_and(|x| x.starts_with(&head)), _ => d.len() > 10 && d[2..10] == head[..] && d[0] >= 8 && d[1] < 0x80 };
            if !intact { obs.count("skipped_other_dimensions", 1); continue }
        }
        if zip && kind == "counts" && !(c == "zip(back)" && d.len() > 10 && d[2..10] == head[..]) && d.len() < 32 { continue }
        let ok = measured_decode(c, &cd, &d, px, &format!("{c}, {kind} for {}", s.text()), obs)?;
        obs.eval(true, &[c.as_bytes(), &d].concat());
        obs.count(if ok { "hostile_streams_decoded" } else { "hostile_streams_refused" }, 1);
    }
    Ok(())
}

/// The same calls again and again: nothing may remain
fn leak_case(c: &str, s: &Spec, obs: &mut Obs) -> R {
    let img = s.build();
    let cd = codec(c)?;
    let mut lives = vec![0usize; 60];
    for i in 0..lives.len() {
        let b = encode(&cd, &img)?;
        drop(decode(&cd, &b)?);
        drop(decode(&cd, &b[..b.len() * (i % 7) / 7])?);
        let mut d = b.clone();
        if d.len() > 24 { let k = 17 + (i * 31) % (d.len() - 20); d[k] ^= 0x41 }
        if !c.starts_with("zip") { drop(decode(&cd, &d)?) }
        let mut w = io_faults::Full { got: vec![], limit: b.len() * (i % 5) / 5, failed: false };
        let _ = encode_to(&cd, &img, &mut w)?;
        drop((b, d, w));
        lives[i] = LIVE.load(Relaxed);
    }
    let grown = lives[59] as i64 - lives[9] as i64;
    obs.eval(true, format!("leak {c} {}", s.text()).as_bytes());
    obs.max("bytes_left_by_50_rounds", grown as f64);
    obs.count("rounds_for_leaks", 60);
    // (a lazily grown table of the runtime is no leak: one that grows with every round is)
    ensure!(grown < 2000, "leak", "{c} on {}: 50 rounds of encoding and decoding left {grown} bytes allocated", s.text());
    Ok(())
}

extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
/// Runs the program; returns its exit status, its errors and the most memory it ever had (KiB)
fn run_program(dir: &Path, args: &[std::ffi::OsString], threads: usize, files: Option<u64>) -> Result<(Option<i32>, String, u64), Viol> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(proc::cli());
    let se = dir.join(".stderr");
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::from(std::fs::File::create(&se).expect("file")))
        .env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", threads.to_string()).env("MALLOC_ARENA_MAX", "2");
    if let Some(k) = files { unsafe { c.pre_exec(move || if setrlimit(7, &[k, k]) == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }); } }
    let mut ch = c.spawn().expect("spawn");
    let (mut hwm, mut t0, mut last) = (0, Instant::now(), 0);
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() { break s }
        let s = std::fs::read_to_string(format!("/proc/{}/status", ch.id())).unwrap_or_default();
        if let Some(k) = s.lines().find_map(|l| l.strip_prefix("VmHWM:")).and_then(|x| x.trim().split(' ').next()?.parse::<u64>().ok()) { hwm = hwm.max(k) }
        let t = run::cpu_ticks(ch.id());
        if t != last || run::busy(ch.id()) { last = t; t0 = Instant::now() }
        if t / 100 > 300 || t0.elapsed() > Duration::from_secs(60) { let _ = ch.kill(); let _ = ch.wait(); viol!("hang", "the program does not end") }
        std::thread::sleep(Duration::from_millis(2));
    };
    let err = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&se);
    Ok((st.code(), err, hwm))
}

/// A long list of images: as long as the list is, only those in work take memory and open files
fn program_case(c: &str, kind: &str, n: usize, seed: u64, obs: &mut Obs) -> R {
    let j = jobs::Job::new(c, Some(2), "", seed);
    let root = j.dir.path();
    let special = c == "special";
    let arg = if special { "--special=hilbert".to_string() } else { format!("--codec={c}") };
    let count = |what: &str, n: usize| -> R {
        if special { for i in 0..n { for k in ["rect", "small", "large"] { let p = root.join(format!("output/{i}.{k}.hilbert.csv")); ensure!(p.exists(), "lost", "{what}: {p:?} is missing") } } return Ok(()) }
        let name = { use cniic::verif::codec::Codec; codec(c)?.name() };
        let b = std::fs::read(root.join(format!("output/{name}.csv"))).unwrap_or_default();
        let t = if b.is_empty() { vec![] } else { match jobs::parse_csv(&b) { Ok(t) => t, Err(e) => viol!("csv-syntax", "{what}: {e}") } };
        ensure!(t.len() == n + 1, "lost", "{what}: {} lines for {n} images", t.len());
        Ok(())
    };
    if kind == "files" {
        // Far fewer open files than images
        for i in 0..n { Spec::new(5, 4, "noise", 256, i as u64, "rgb8").build().save(root.join(format!("in/{i}.png"))).expect("save") }
        let args: Vec<std::ffi::OsString> = std::iter::once(arg.into()).chain((0..n).map(|i| format!("in/{i}.png").into())).collect();
        let what = format!("{c} on {n} images with at most 24 open files");
        let (code, err, _) = run_program(root, &args, 2, Some(24))?;
        ensure!(code == Some(0), "open-files", "{what}: exit status {code:?}: {}", err.chars().take(300).collect::<String>());
        count(&what, n)?;
        obs.count("images_with_few_files", n as u64);
        obs.eval(true, what.as_bytes());
    } else {
        let s = Spec::new(500, 500, kind, 256, seed, "rgb8");
        s.build().save(root.join("in/one.png")).expect("save");
        for i in 0..n { std::fs::hard_link(root.join("in/one.png"), root.join(format!("in/{i}.png"))).expect("link") }
        let few = 6;
        let args = |n: usize| -> Vec<std::ffi::OsString> { std::iter::once(arg.clone().into()).chain((0..n).map(|i| format!("in/{i}.png").into())).collect() };
        let (code, err, a) = run_program(root, &args(few), 2, None)?;
        ensure!(code == Some(0), "exit-status", "{c} on {few} images: {code:?} {}", err.chars().take(300).collect::<String>());
        let (code, err, b) = run_program(root, &args(n), 2, None)?;
        ensure!(code == Some(0), "exit-status", "{c} on {n} images: {code:?} {}", err.chars().take(300).collect::<String>());
        let what = format!("{c} on 500x500 {kind}: {a} KiB for {few} images, {b} KiB for {n}");
        count(&what, n)?;
        // 732 KiB for the pixels of each image
        ensure!(b <= a + a / 2 + 24 * 1024, "grows", "{what}");
        obs.max(&format!("program_kib:{}", short(c)), b as f64);
        obs.max("growth_of_the_program", b as f64 / a as f64);
        obs.eval(true, format!("{c} {kind} {n}").as_bytes());
        obs.sample(what);
    }
    obs.count("program_runs", 1);
    Ok(())
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C24" }
    fn rule(&self) -> String {
        "The heap of the harness counts every byte: each encoding and decoding is watched for the most memory it ever has (besides the input image and the written stream), for its largest single request, and for what remains after 60 rounds of the same operations (successful, failing and on damaged streams). Images are those that make each codec's tables largest (all colours distinct, constant, noise, fans) up to a million pixels, cluster counts far above the number of pixels; streams are those that announce most (counts, lengths, doubling dictionary entries). The limits are those of the property: a fixed amount plus so much per pixel, per cluster and per byte of the stream. The program is run on lists of hundreds of images with a watch on its peak memory, compared with a short list, and with fewer open files allowed than images listed. An evaluation is one watched operation or run; distinct inputs are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(24);
        let l = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(5))", "hilbert(rle(1000))"];
        for c in l {
            // (zip(back) looks for repetitions in quadratic time)
            let m = match c { "zip(back)" => ctx.n(200, 500), "zip(dict)" | "hilbert(zip)" => ctx.n(600, 1000), "hufman" | "delta" => ctx.n(600, 1500), _ => ctx.n(1000, 1800) } as u32;
            for (p, a) in [("uniq", 1), ("solid", 0), ("noise", 256), ("skew", 28), ("photo", 20), ("zebra", 1)] {
                v.push(format!("img|{c}|{}", Spec::new(m, m, p, a, 1, "rgb8").text()));
            }
            v.push(format!("img|{c}|{}", Spec::new(m * m / 4, 1, "uniq", 1, 1, "rgb8").text()));
            v.push(format!("img|{c}|{}", Spec::new(1, m * m / 4, "noise", 2, 1, "rgb8").text()));
            for _ in 0..ctx.n(16, 200) { let (w, h) = (r.range(1, 260) as u32, r.range(1, 260) as u32); v.push(format!("img|{c}|{}", Spec::random(&mut r, w, h).text())) }
        }
        for c in ["cluster-colors", "voronoi"] {
            for n in ["1", "2", "9"] { for (p, a) in [("uniq", 1), ("solid", 0), ("noise", 256)] { let m = ctx.n(150, 400); v.push(format!("img|{c}({n})|{}", Spec::new(m as u32, m as u32, p, a, 1, "rgb8").text())) } }
            for n in ["100", "700"] { v.push(format!("img|{c}({n})|{}", Spec::new(50, 50, "noise", 256, 1, "rgb8").text())) }
            // Far more clusters than there is anything to put into them
            for n in ["5000", "1000000", "4294967295", "4294967296", "1000000000000000000", "18446744073709551615"] { for (w, h) in [(1, 1), (3, 2), (12, 9)] { v.push(format!("img|{c}({n})|{}", Spec::new(w, h, "noise", 256, 1, "rgb8").text())) } }
            for _ in 0..ctx.n(10, 100) { let (w, h, n) = (r.range(1, 60) as u32, r.range(1, 60) as u32, r.range(1, 60)); v.push(format!("img|{c}({n})|{}", Spec::random(&mut r, w, h).text())) }
        }
        let all = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "cluster-colors(6)", "voronoi(9)"];
        for c in all {
            for k in ["lengths", "counts", "any"] { for _ in 0..ctx.n(6, 80) { let (w, h) = (r.range(1, 60) as u32, r.range(1, 60) as u32); v.push(format!("hostile|{c}|{k}|{}|{}", r.next() >> 12, Spec::random(&mut r, w, h).text())) } }
            for _ in 0..ctx.n(4, 30) { let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32); v.push(format!("leak|{c}|{}", Spec::random(&mut r, w, h).text())) }
        }
        for c in ["zip(dict)", "hilbert(zip)"] {
            for _ in 0..ctx.n(6, 60) { let (w, h) = (r.range(1, 200) as u32, r.range(1, 200) as u32); v.push(format!("hostile|{c}|bomb|{}|{}", r.next() >> 12, Spec::new(w, h, "solid", 0, 1, "rgb8").text())) }
            for _ in 0..ctx.n(2, 20) { let (w, h) = (r.range(1, 60) as u32, r.range(1, 60) as u32); v.push(format!("hostile|{c}|chain|{}|{}", r.next() >> 12, Spec::random(&mut r, w, h).text())) }
        }
        for c in ["hufman", "delta", "hilbert(rle)", "hilbert(rle(6))", "cluster-colors(2)", "voronoi(2)", "special", "zip(dict)", "zip(back)", "hilbert(zip)"] { v.push(format!("prog|{c}|files|{}|{}", ctx.n(120, 600), r.next() >> 12)) }
        for (c, q, t) in [("hilbert(rle)", 150, 600), ("hilbert(rle(6))", 90, 600), ("delta", 90, 600), ("hufman", 150, 600), ("special", 70, 400), ("voronoi(1)", 90, 400), ("zip(dict)", 0, 200), ("hilbert(zip)", 0, 200), ("cluster-colors(1)", 0, 300)] {
            // (how much memory the allocator keeps back is smallest with few large tables)
            let k = if matches!(c, "hufman" | "delta" | "zip(dict)" | "hilbert(zip)") { "solid" } else { "noise" };
            if ctx.n(q, t) > 0 { v.push(format!("prog|{c}|{k}|{}|{}", ctx.n(q, t), r.next() >> 40)) }
        }
        // The long ones first
        v.sort_by_key(|x| (!x.starts_with("prog"), !x.starts_with("img")));
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        match f[0] {
            "img" => image_case(f[1], &Spec::parse(f[2]), obs),
            "hostile" => hostile_case(f[1], f[2], &Spec::parse(f[4]), f[3].parse().unwrap(), obs),
            "leak" => leak_case(f[1], &Spec::parse(f[2]), obs),
            _ => program_case(f[1], f[2], f[3].parse().unwrap(), f[4].parse().unwrap(), obs),
        }
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R {
        ensure!(t.c("allocations") > 10_000 && t.c("hostile_streams_refused") > 100, "HARNESS", "too little was observed: {:?}", t.counts);
        Ok(())
    }
    fn cpu_limit(&self) -> u64 { 400 }
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 200 } else { 3000 } }
}
fn main() { cniic_mon::run::main_for(&C) }
