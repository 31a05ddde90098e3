//! C21: stack use stays bounded however large or repetitive the input is
use cniic_mon::codecs::*;
use cniic_mon::imgs::Spec;
use cniic_mon::*;
use std::ffi::c_void;

const STACK: usize = 1 << 20;

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> i32;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    fn pthread_attr_init(a: *mut c_void) -> i32;
    fn pthread_attr_setstack(a: *mut c_void, s: *mut c_void, n: usize) -> i32;
    fn pthread_create(t: *mut usize, a: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, x: *mut c_void) -> i32;
    fn pthread_join(t: usize, r: *mut *mut c_void) -> i32;
}

/// Runs f on a thread whose 1 MiB stack lies in watched memory, above an inaccessible page;
/// returns how much of it was ever used.
fn on_small_stack<T, F: FnOnce() -> T>(f: F) -> (T, usize) {
    struct Arg<T, F> { f: Option<F>, r: Option<std::thread::Result<T>> }
    extern "C" fn go<T, F: FnOnce() -> T>(p: *mut c_void) -> *mut c_void {
        let a = unsafe { &mut *(p as *mut Arg<T, F>) };
        let f = a.f.take().expect("once");
        a.r = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        std::ptr::null_mut()
    }
    const GUARD: usize = 64 << 10;
    unsafe {
        let base = mmap(std::ptr::null_mut(), STACK + GUARD, 3, 0x22, -1, 0);
        assert!(base as isize != -1, "mmap");
        assert_eq!(mprotect(base, GUARD, 0), 0);
        let stack = (base as *mut u8).add(GUARD);
        std::ptr::write_bytes(stack, 0xA5, STACK);
        let mut attr = [0u64; 16];
        assert_eq!(pthread_attr_init(attr.as_mut_ptr() as *mut c_void), 0);
        assert_eq!(pthread_attr_setstack(attr.as_mut_ptr() as *mut c_void, stack as *mut c_void, STACK), 0);
        let mut arg = Arg { f: Some(f), r: None };
        let mut t = 0;
        assert_eq!(pthread_create(&mut t, attr.as_ptr() as *const c_void, go::<T, F>, &mut arg as *mut _ as *mut c_void), 0);
        assert_eq!(pthread_join(t, std::ptr::null_mut()), 0);
        let mem = std::slice::from_raw_parts(stack, STACK);
        let untouched = mem.iter().position(|b| *b != 0xA5).unwrap_or(STACK);
        munmap(base, STACK + GUARD);
        match arg.r.expect("the thread ran") { Ok(r) => (r, STACK - untouched), Err(e) => std::panic::resume_unwind(e) }
    }
}

fn used(obs: &mut Obs, what: &str, n: usize) { obs.max(&format!("stack_bytes:{what}"), n as f64); obs.max("stack_bytes_used", n as f64); }

fn image_case(c: &str, s: &Spec, obs: &mut Obs) -> R {
    let img = s.build();
    let cd = codec(c)?;
    let (r, n) = on_small_stack(|| encode(&cd, &img));
    let b = r?;
    used(obs, &format!("{} encode", c.split('(').next().unwrap_or(c)), n);
    let (r, n) = on_small_stack(|| decode(&cd, &b).map(|d| d.map(|d| (d.width(), d.height()))));
    let Some(d) = r? else { viol!("none", "{c} could not decode its own stream of {}", s.text()) };
    used(obs, &format!("{} decode", c.split('(').next().unwrap_or(c)), n);
    ensure!(d == (s.w, s.h), "dimensions", "{c} on {}: {d:?}", s.text());
    // Only a part of it, and then the end of the stream
    let (r, n) = on_small_stack(|| decode(&cd, &b[..b.len() - b.len() / 3 - 1]).map(|d| d.is_some()));
    r?;
    used(obs, "cut stream", n);
    obs.eval(true, format!("{c} {}", s.text()).as_bytes());
    obs.max("largest_stream", b.len() as f64);
    obs.sample(format!("{c} on {}: {} bytes, within {n} bytes of stack", s.text(), b.len()));
    Ok(())
}

/// The dimensions, as zip(dict) writes them: one symbol per byte
fn dict_header(w: u32, h: u32) -> Vec<u8> { refs::header(w, h).iter().flat_map(|b| [*b, 0]).collect() }

/// Streams made to nest as deeply as possible
fn hostile_case(kind: &str, n: usize, obs: &mut Obs) -> R {
    let (c, body) = match kind {
        // A trie that branches n times to the left, for both codecs that have one
        "left-hufman" | "left-delta" => (&kind[5..], vec![1u8; n]),
        "left0-hufman" => ("hufman", vec![0u8; n]),
        "left2-delta" => ("delta", [1u8, 0].repeat(n / 2)),
        // A trie that branches to the right
        "right-hufman" => ("hufman", (0..n / 12).flat_map(|i| { let mut v = vec![1u8, 0]; v.extend(refs::rgb_bytes([i as u8, (i >> 8) as u8, 0])); v }).collect()),
        "right1-hufman" => ("hufman", (0..n / 12).flat_map(|i| { let mut v = vec![0u8, 1]; v.extend(refs::rgb_bytes([i as u8, (i >> 8) as u8, 0])); v }).collect()),
        // Every dictionary entry contains the previous one, twice or with one more byte
        // (not for ever: a decompression bomb would be no matter of the stack)
        "nested-dict" => ("zip(dict)", { let mut v = dict_header(1000, 800); for i in 0..(n as u32 / 4).min(20) { let k = if i == 0 { 3 } else { 259 + i as u16 }; v.extend(k.to_le_bytes()); v.extend(k.to_le_bytes()) } v }),
        "chain-dict" => ("zip(dict)", { let mut v = dict_header(1000, 800); for i in 0..(n as u32 / 4).min(8000) { let k = if i == 0 { 3 } else { 259 + i as u16 }; v.extend(k.to_le_bytes()); v.extend(0u16.to_le_bytes()) } v }),
        // The same, of nothing but whole colours: each entry is the previous one and the empty
        // sequence that stands for the end, on either side (65,000 levels of the same 22 bytes),
        // or the previous one and one more pair of colours
        "left-dict" | "right-dict" | "grow-left-dict" | "grow-right-dict" => ("zip(dict)", {
            let grow = kind.starts_with("grow");
            let mut v = dict_header(1000, 800);
            let col = refs::rgb_bytes([1, 2, 3]);
            let mut push = |a: u16, b: u16| { v.extend(a.to_le_bytes()); v.extend(b.to_le_bytes()) };
            // (four entries are the dimensions' own; then 11 of two bytes, and 10 that join them)
            let two = [col, col].concat();
            for p in two.chunks(2) { push(p[0] as u16, p[1] as u16) }
            let mut k = 260 + 11;
            push(260, 261);
            for i in 2..11 { push(k, 260 + i); k += 1 }
            let base = k;
            for _ in 0..n.min(if grow { 1800 } else { 65_000 }) {
                let x = if grow { base } else { 0xFFFF };
                if kind.contains("left") { push(k, x) } else { push(x, k) }
                k += 1;
            }
            v
        }),
        k => panic!("unknown stream {k}"),
    };
    let b = if c == "zip(dict)" { assert!(refs::dict_bomb_size(&body) < 100 << 20); body } else { [refs::header(64, 64), body].concat() };
    let cd = codec(c)?;
    let (r, u) = on_small_stack(|| decode(&cd, &b).map(|d| d.is_some()));
    r?;
    used(obs, "hostile streams", u);
    obs.eval(true, &b[..b.len().min(100_000)]);
    obs.count("hostile_streams", 1);
    Ok(())
}

/// A dictionary whose entries each contain the previous one, decoded as bytes
#[cfg(feature = "direct")]
fn chain_case(kind: &str, n: u16, obs: &mut Obs) -> R {
    use cniic::verif::zip::*;
    let mut s = vec![];
    for i in 0..n {
        let prev = if i == 0 { 7 } else { 255 + i };
        let (a, b) = match kind { "left" => (prev, i % 251), "right" => (i % 251, prev), "eof-left" => (prev, 0xFFFF), _ => (0xFFFF, prev) };
        s.extend(a.to_le_bytes());
        s.extend(b.to_le_bytes());
    }
    let (r, u) = on_small_stack(|| run::guard("a chain of entries", || zip_dict_decode(s.iter().cloned()).map(|_| 1u64).sum::<u64>()));
    obs.max("longest_string", r? as f64);
    used(obs, "chains of dictionary entries", u);
    obs.max("deepest_chain", n as f64);
    obs.eval(true, &s);
    Ok(())
}
#[cfg(not(feature = "direct"))]
fn chain_case(_: &str, _: u16, _: &mut Obs) -> R { Ok(()) }

#[cfg(feature = "direct")]
fn bytes_case(c: &str, s: &bytesgen::BSpec, obs: &mut Obs) -> R {
    use cniic::verif::zip::*;
    let data = s.build();
    let what = format!("{c} on {}", s.text());
    let (r, n) = on_small_stack(|| { let mut out = vec![]; run::guard(&what, || if c == "dict" { zip_dict_encode(data.iter().cloned(), &mut out) } else { zip_back_encode(data.iter().cloned(), &mut out) }).map(|r| r.map(|_| out)) });
    let out = match r? { Ok(o) => o, Err(e) => viol!("encode-err", "{what}: {e:?}") };
    used(obs, &format!("{c} bytes encode"), n);
    let (r, n) = on_small_stack(|| run::guard(&what, || { let mut it = out.iter().cloned(); if c == "dict" { zip_dict_decode(&mut it).zip(&data).filter(|(a, b)| a == *b).count() } else { zip_back_decode(&mut it).zip(&data).filter(|(a, b)| a == *b).count() } }));
    ensure!(r? == data.len(), "differs", "{what}: the decoded bytes differ");
    used(obs, &format!("{c} bytes decode"), n);
    // The encoder gives up half-way: its dictionary goes away all the same
    let (r, n) = on_small_stack(|| run::guard(&what, || { let mut w = io_faults::Full { got: vec![], limit: out.len() / 2, failed: false }; if c == "dict" { zip_dict_encode(data.iter().cloned(), &mut w).is_ok() } else { zip_back_encode(data.iter().cloned(), &mut w).is_ok() } }));
    r?;
    used(obs, &format!("{c} failing encode"), n);
    obs.eval(data.len() > 1000, format!("{c}{}", s.text()).as_bytes());
    obs.max("longest_string", data.len() as f64);
    obs.sample(format!("{what}: {} -> {} bytes", data.len(), out.len()));
    Ok(())
}
#[cfg(not(feature = "direct"))]
fn bytes_case(c: &str, s: &bytesgen::BSpec, obs: &mut Obs) -> R {
    // As an image one pixel high
    let w = (s.len / 11).clamp(1, 200_000) as u32;
    image_case(if c == "dict" { "zip(dict)" } else { "zip(back)" }, &Spec::new(w, 1, "solid", s.arg % 4, 1, "rgb8"), obs)
}

/// The program, with worker threads of 1 MiB
fn program_case(c: &str, s: &Spec, obs: &mut Obs) -> R {
    let mut j = jobs::Job::new(c, Some(2), "", 1);
    let mut r = Rng::new(1);
    for _ in 0..2 { j.add_image(s, "png", &mut r) }
    let mut args: Vec<std::ffi::OsString> = vec![format!("--codec={c}").into()];
    args.extend(j.files.iter().map(|f| std::ffi::OsString::from(&f.arg)));
    let o = proc::run(j.dir.path(), &args, &[("RUST_MIN_STACK", STACK.to_string()), ("RAYON_NUM_THREADS", "2".into())], 200);
    if let Some(h) = o.hang { viol!("hang", "{c}: {h}") }
    ensure!(o.code == Some(0), "program", "{c} on {} with worker threads of 1 MiB: {}", s.text(), o.how());
    obs.eval(true, format!("program {c} {}", s.text()).as_bytes());
    obs.count("program_runs", 1);
    Ok(())
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C21" }
    fn rule(&self) -> String {
        "Each operation (encoding and decoding an image or byte string, decoding a cut or hostile stream, an encoder that fails half-way, including the destruction of all its data) runs on a thread with a 1 MiB stack in memory watched by the harness, above inaccessible pages: overflowing it kills the worker, which is attributed to the case; the high-water mark of the stack is measured. Inputs are those that make structures deepest or longest: constant and short-period data (dictionary entries of up to half a megabyte), images of a million equal, distinct or skewed pixels, deeply nested tries, and dictionaries whose entries contain each other up to 65,000 levels deep (streams that decode to whole images, too). The program itself is run with worker stacks of 1 MiB. Part of the inputs, smaller ones, are repeated with an unoptimised build. An evaluation is one input; distinct ones are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(21);
        let big = ctx.n(1000, 2200) as u32;
        for c in LOSSLESS.iter().chain(&["hilbert(rle(5))", "hilbert(rle(600))", "voronoi(1)", "voronoi(3)", "cluster-colors(1)", "cluster-colors(4)"]) {
            // (zip(back) looks for repetitions in quadratic time)
            let big = if *c == "zip(back)" { big / 3 } else { big };
            v.push(format!("img|{c}|{}", Spec::new(big, big, "solid", 0, 1, "rgb8").text()));
            v.push(format!("img|{c}|{}", Spec::new(big * big / 4, 1, "solid", 3, 1, "rgb8").text()));
            v.push(format!("img|{c}|{}", Spec::new(1, big * big / 4, "rperiod", 7, 1, "rgb8").text()));
            v.push(format!("img|{c}|{}", Spec::new(700, 700, "skew", 28, 2, "rgb8").text()));
            if *c != "voronoi(3)" && *c != "cluster-colors(4)" {
                v.push(format!("img|{c}|{}", Spec::new(if *c == "zip(back)" { 200 } else { 600 }, 500, "uniq", 1, 1, "rgb8").text()));
                v.push(format!("img|{c}|{}", Spec::new(400, 400, "noise", 256, 1, "rgb8").text()));
            }
            for _ in 0..ctx.n(6, 80) { let (w, h) = (r.range(1, 300) as u32, r.range(1, 300) as u32); v.push(format!("img|{c}|{}", Spec::random(&mut r, w, h).text())) }
        }
        for c in ["voronoi", "cluster-colors"] { v.push(format!("img|{c}(1500)|{}", Spec::new(60, 60, "noise", 256, 1, "rgb8").text())) }
        for (k, a) in [("const", 0), ("const", 255), ("period", 2), ("period", 3), ("period", 7), ("period", 256), ("morse", 2), ("fibword", 1), ("fan", 1), ("uniform", 256), ("uniform", 2), ("runs", 40000)] {
            v.push(format!("bytes|dict|{}", bytesgen::BSpec::new(k, ctx.n(2_000_000, 8_000_000), a, 1).text()));
            v.push(format!("bytes|back|{}", bytesgen::BSpec::new(k, ctx.n(150_000, 400_000), a, 1).text()));
        }
        for k in ["lchain", "rchain"] { v.push(format!("bytes|dict|{}", bytesgen::BSpec::new(k, ctx.n(8_000_000, 40_000_000), 251, 1).text())) }
        for (k, n) in [("left", 16_000), ("right", 16_000), ("eof-left", 65_000), ("eof-right", 65_000), ("left", 300)] { v.push(format!("chain|{k}|{n}")) }
        for k in ["left-hufman", "left-delta", "left0-hufman", "left2-delta", "right-hufman", "right1-hufman", "nested-dict", "chain-dict", "left-dict", "right-dict", "grow-left-dict", "grow-right-dict"] { for n in [100, 3000, 1_000_000] { v.push(format!("hostile|{k}|{n}")) } }
        // As users build it, on less data: unoptimised, it takes fifty times as long
        for c in LOSSLESS.iter().chain(&["hilbert(rle(5))", "voronoi(1)", "voronoi(3)", "cluster-colors(4)"]) {
            let k = match *c { "zip(back)" => 1, "voronoi(3)" | "cluster-colors(4)" => 2, _ => 4 } * ctx.n(1, 3) as u32;
            for s in [Spec::new(60 * k, 60, "solid", 0, 1, "rgb8"), Spec::new(1, 3000 * k, "rperiod", 7, 1, "rgb8"), Spec::new(60, 60 * k, "skew", 18, 2, "rgb8"), Spec::new(70, 30 * k, "uniq", 1, 1, "rgb8")] {
                if s.pat == "uniq" && (*c == "voronoi(3)" || *c == "cluster-colors(4)") { continue }
                v.push(format!("unopt|img|{c}|{}", s.text()))
            }
        }
        for (k, n, a) in [("const", 300_000, 0), ("period", 300_000, 3), ("lchain", 500_000, 251), ("rchain", 500_000, 251), ("fan", 100_000, 1), ("uniform", 300_000, 256)] {
            v.push(format!("unopt|bytes|dict|{}", bytesgen::BSpec::new(k, n, a, 1).text()));
            v.push(format!("unopt|bytes|back|{}", bytesgen::BSpec::new(k, n / 20, a, 1).text()));
        }
        for k in ["left", "right", "eof-left", "eof-right"] { v.push(format!("unopt|chain|{k}|{}", if k.len() > 5 { 65_000 } else { 4000 })) }
        for k in ["left-hufman", "left-delta", "left0-hufman", "left2-delta", "right-hufman", "right1-hufman", "nested-dict", "chain-dict", "left-dict", "right-dict"] { v.push(format!("unopt|hostile|{k}|300000")) }
        for c in ["zip(dict)", "hilbert(zip)", "hufman", "delta", "hilbert(rle)", "voronoi(2)"] {
            v.push(format!("program|{c}|{}", Spec::new(900, 700, "solid", 1, 1, "rgb8").text()));
            v.push(format!("program|{c}|{}", Spec::new(300, 300, "uniq", 1, 1, "rgb8").text()));
        }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        if let Some(c) = case.strip_prefix("unopt|") { return proc::unoptimised(c, obs) }
        let f: Vec<&str> = case.split('|').collect();
        match f[0] {
            "img" => image_case(f[1], &Spec::parse(f[2]), obs),
            "bytes" => bytes_case(f[1], &bytesgen::BSpec::parse(f[2]), obs),
            "chain" => chain_case(f[1], f[2].parse().unwrap(), obs),
            "hostile" => hostile_case(f[1], f[2].parse().unwrap(), obs),
            _ => program_case(f[1], &Spec::parse(f[2]), obs),
        }
    }
    fn cpu_limit(&self) -> u64 { 400 }
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 200 } else { 3000 } }
}
fn main() { cniic_mon::run::main_for(&C) }
