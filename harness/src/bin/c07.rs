//! C07: a damaged stream body never crashes the decoder
use cniic_mon::{codecs::*, imgs::*, *};

const ALL: [&str; 9] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "cluster-colors(6)", "voronoi(9)"];
const KINDS: [&str; 12] = ["bits", "bytes", "multi", "insert", "remove", "reorder", "arbitrary", "inner", "splice", "extremes", "bombs", "again"];
const BOMB: u64 = 48 << 20;

/// The first 8 bytes of what a zip(back) stream expands to
fn back_head(b: &[u8]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut r = refs::Rd::new(b);
    while out.len() < 8 {
        let l = r.u16().ok()?;
        let n = (l & 0x7FFF) as usize;
        if l & 0x8000 == 0 { out.extend(r.take(n.min(r.left())).ok()?); if r.left() == 0 && out.len() < 8 { return None } }
        else { let k = r.u16().ok()? as usize; if k > out.len() { return None } let s = out.len() - k; for i in 0..n.min(k) { out.push(out[s + i]) } if n == 0 && r.left() == 0 { return None } }
    }
    out.truncate(8);
    Some(out)
}
fn dict_head(b: &[u8]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut e: Vec<Vec<u8>> = (0..=255).map(|x| vec![x]).collect();
    for p in b.chunks_exact(4) {
        let mut seq = vec![];
        for s in [u16::from_le_bytes([p[0], p[1]]), u16::from_le_bytes([p[2], p[3]])] {
            if s != 0xFFFF { seq.extend(e.get(s as usize)?.clone()) }
        }
        out.extend(&seq);
        if out.len() >= 8 { out.truncate(8); return Some(out) }
        e.push(seq);
    }
    None
}

struct C;
impl C {
    /// Decode a damaged stream whose announced dimensions are (w, h)
    fn one(&self, c: &str, cd: &cniic::verif::codec::AnyCodec, b: &[u8], w: u32, h: u32, what: &str, obs: &mut Obs) -> R {
        let head = refs::header(w, h);
        let intact = match c { "zip(back)" => back_head(b).map(|x| x == head), "zip(dict)" => dict_head(b).map(|x| x == head), _ => Some(b.len() >= 8 && b[..8] == head[..]) };
        // Without dimensions there is nothing to announce; other dimensions are not this property's
        if intact == Some(false) { obs.count("skipped_other_dimensions", 1); return Ok(()) }
        let bomb = match c { "zip(dict)" => refs::dict_bomb_size(b), "hilbert(zip)" => refs::dict_bomb_size(&b[8..]), _ => 0 };
        if bomb > BOMB { obs.count("decompression_bombs", 1) }
        let d = match decode(cd, b) {
            Ok(d) => d,
            Err(mut v) => { v.msg = format!("{c}, {what}: {} (stream {})", v.msg, b.iter().take(400).map(|x| format!("{x:02x}")).collect::<String>()); return Err(v) }
        };
        match d {
            None => obs.count("refused", 1),
            Some(d) => {
                ensure!((d.width(), d.height()) == (w, h), "dimensions", "{c}, {what}: {w}x{h} was announced but the image is {}x{}", d.width(), d.height());
                obs.count("decoded_as_an_image", 1)
            }
        }
        obs.eval(true, &[c.as_bytes(), b].concat());
        Ok(())
    }
}

fn extreme(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        0 => vec![0xFF; 1 + r.us(40)],
        1 => vec![0; 1 + r.us(40)],
        2 => { let n = if r.chance(1, 30) { 400_000 } else { 1 + r.us(6000) }; vec![r.below(2) as u8; n] }
        3 => u64::MAX.to_le_bytes().to_vec(),
        4 => (1u64 << r.below(64)).to_le_bytes().to_vec(),
        5 => [0u8, 1].repeat(if r.chance(1, 30) { 200_000 } else { 1 + r.us(300) }),
        _ => (0x7FFFu16 | (r.below(2) as u16) << 15).to_le_bytes().to_vec(),
    }
}

impl Check for C {
    fn id(&self) -> &'static str { "C07" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> String {
        "A case is one encoded image and one kind of damage to the bytes after its dimensions: every bit flip and 7 byte replacements at every position (streams of at most 700 bytes), several changes at once, insertions, removals, reordering, splicing with another stream, arbitrary bodies, extreme lengths/counters, dictionary entries that double in length, short records repeated up to a million times (these also with an unoptimised build, on a thread with 2 MiB of stack), and damage inside a correctly compressed zip payload. The decoder must end with no image or one of the announced dimensions; panics, deaths of the process, endless reading and hangs are violations. An evaluation is one damaged decode, distinct by (codec, bytes). Streams whose payload would expand to more than 48 MB are counted: only as much of it as the image needs may be expanded.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(7);
        for c in ALL { for k in KINDS {
            if k == "bombs" && c != "zip(dict)" && c != "hilbert(zip)" { continue }
            if k == "again" {
                // (also as users build it)
                for i in 0..ctx.n(10, 60) { let s = Spec::random(&mut r, 1 + i as u32 % 9, 5).text(); v.push(format!("again|{c}|{s}")); v.push(format!("unopt|again|{c}|{s}")) }
                continue
            }
            for i in 0..ctx.n(12, 150) {
                let small = k == "bits" || k == "bytes";
                let m = if small { 6 } else if i % 4 == 0 { 60 } else { 14 };
                let (w, h) = (r.range(1, m) as u32, r.range(1, m) as u32);
                let s = Spec::random(&mut r, w, h);
                v.push(format!("{k}|{c}|{}", s.text()));
            }
        } }
        for c in ALL { for _ in 0..ctx.n(2, 20) {
            // Deep tries, long histories
            let s = Spec::new(r.range(60, 110) as u32, r.range(60, 110) as u32, *r.pick(&["photo", "skew", "blockrep", "noise", "solid"]), 20, r.next() >> 20, "rgb8");
            for k in ["multi", "splice", "inner", "extremes"] { v.push(format!("{k}|{c}|{}", s.text())) }
        } }
        r.shuffle(&mut v);
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        if let Some(c) = case.strip_prefix("unopt|") { return proc::unoptimised(c, obs) }
        let f: Vec<&str> = case.splitn(3, '|').collect();
        let (kind, c, s) = (f[0], f[1], f[2]);
        let sp = Spec::parse(s);
        let img = sp.build();
        let cd = codec(c)?;
        let b = encode(&cd, &img)?;
        let mut r = Rng::new(rng::hash_bytes(case.as_bytes()));
        let zip = c == "zip(back)" || c == "zip(dict)";
        let start = if zip { 0 } else { 8 };
        let n = if b.len() > 5000 { 25 } else { 120 };
        let mut go = |d: Vec<u8>, what: String, obs: &mut Obs| self.one(c, &cd, &d, sp.w, sp.h, &format!("{kind} of {s}: {what}"), obs);
        match kind {
            "bits" => {
                let all = (b.len() - start) * 8;
                for k in 0..all.min(5600) {
                    let k = if all <= 5600 { k } else { r.us(all) };
                    let mut d = b.clone(); d[start + k / 8] ^= 1 << (k % 8);
                    go(d, format!("bit {k}"), obs)?;
                }
            }
            "bytes" => for i in start..b.len().min(start + 700) { for x in [0, 1, 2, 0x7F, 0x80, 0xFF, r.byte()] {
                if b[i] == x { continue }
                let mut d = b.clone(); d[i] = x;
                go(d, format!("byte {i} := {x}"), obs)?;
            } },
            "multi" => for _ in 0..n {
                let mut d = b.clone();
                let k = 1 + r.us(12);
                for _ in 0..k { if d.len() > start { let i = start + r.us(d.len() - start); d[i] = if r.chance(1, 3) { *r.pick(&[0, 1, 255]) } else { r.byte() } } }
                go(d, format!("{k} bytes"), obs)?;
            },
            "insert" => for _ in 0..n {
                let i = start + r.us(b.len() - start + 1);
                let ins: Vec<u8> = if r.chance(1, 2) { (0..1 + r.us(20)).map(|_| r.byte()).collect() } else { let j = r.us(b.len()); b[j..(j + 1 + r.us(60)).min(b.len())].to_vec() };
                go([&b[..i], &ins, &b[i..]].concat(), format!("{ins:02x?} at {i}"), obs)?;
            },
            "remove" => for _ in 0..n {
                if b.len() <= start { break }
                let i = start + r.us(b.len() - start);
                let l = (1 + if r.chance(1, 2) { r.us(4) } else { r.us(b.len() - i) }).min(b.len() - i);
                go([&b[..i], &b[i + l..]].concat(), format!("{l} at {i}"), obs)?;
            },
            "reorder" => for _ in 0..n {
                let mut d = b.clone();
                let unit = *r.pick(&[1, 2, 4, 12, 19]);
                for _ in 0..1 + r.us(6) {
                    let m = (d.len() - start) / unit;
                    if m < 2 { break }
                    let (i, j) = (start + unit * r.us(m), start + unit * r.us(m));
                    for k in 0..unit { d.swap(i + k, j + k) }
                }
                go(d, format!("units of {unit}"), obs)?;
            },
            "arbitrary" => for _ in 0..n {
                let l = *r.pick(&[0, 1, 2, 5, 19, 40, 300, 3000]);
                let a = *r.pick(&[2, 3, 16, 256]);
                let body: Vec<u8> = (0..l).map(|_| r.below(a) as u8).collect();
                let d = if c == "zip(dict)" { [refs::dict_random_parse(&refs::header(sp.w, sp.h), &mut r), body].concat() }
                    else if c == "zip(back)" { [refs::back_random_parse(&refs::header(sp.w, sp.h), &mut r), body].concat() }
                    else { [refs::header(sp.w, sp.h), body].concat() };
                go(d, "body".into(), obs)?;
            },
            "inner" => {
                // Damage the payload and compress it correctly, or structure of the other formats
                let fl = flat(&img);
                for _ in 0..n.min(40) {
                    let mut p = match c { "zip(dict)" | "zip(back)" => refs::raster_stream(fl.w, fl.h, &fl.px), "hilbert(zip)" => refs::hilbert_stream(fl.w, fl.h, &fl.px), _ => b.clone() };
                    let o = if c == "hilbert(zip)" { 0 } else { 8 };
                    for _ in 0..1 + r.us(3) {
                        if p.len() <= o { break }
                        let i = o + r.us(p.len() - o);
                        match r.below(5) {
                            0 => { p[i] = r.byte() }
                            1 => { p.remove(i); }
                            2 => { p.insert(i, r.byte()) }
                            3 => { p.truncate(i) }
                            // A channel count
                            _ => { let k = o + (i - o) / 11 * 11; if k + 8 <= p.len() { let v = *r.pick(&[0u64, 1, 2, 4, 255, 1 << 32, u64::MAX, 1 << 63]); p[k..k + 8].copy_from_slice(&v.to_le_bytes()) } }
                        }
                    }
                    let d = match c {
                        "zip(dict)" => if p.len() > 20000 { refs::dict_greedy(&p).out } else { refs::dict_random_parse(&p, &mut r) },
                        "zip(back)" => refs::back_random_parse(&p, &mut r),
                        "hilbert(zip)" => [refs::header(fl.w, fl.h), refs::dict_greedy(&p).out].concat(),
                        _ => p,
                    };
                    go(d, "payload".into(), obs)?;
                }
            }
            "again" => for i in 0..4 {
                // Something small, changed or not, hundreds of thousands of times
                let unit = match c { "zip(dict)" | "hilbert(zip)" => 4, "zip(back)" => *r.pick(&[2, 4, 6, 11]), "voronoi(9)" => 19, x if x.starts_with("hilbert") => 12, _ => 1 + r.us(24) };
                let from = start.max(8) + r.us(b.len().saturating_sub(start.max(8) + unit).max(1)) / unit * unit;
                let mut rec: Vec<u8> = b[from.min(b.len())..(from + unit).min(b.len())].to_vec();
                rec.resize(unit, 0);
                match (c, i) {
                    ("zip(dict)" | "hilbert(zip)", 0) => rec = vec![0xFF; 4],
                    ("zip(back)", 0) => rec = vec![0, 0],
                    ("zip(back)", 1) => rec = vec![0, 0x80, 1, 0],
                    (_, 0) => rec[0] = 0,
                    (_, 1) => {}
                    _ => for _ in 0..1 + r.us(2) { let k = r.us(unit); rec[k] = *r.pick(&[0, 1, 2, 255]) },
                }
                let mut d = match c { "zip(dict)" => refs::dict_random_parse(&refs::header(sp.w, sp.h), &mut r), "zip(back)" => refs::back_random_parse(&refs::header(sp.w, sp.h), &mut r), _ => refs::header(sp.w, sp.h).to_vec() };
                if c == "voronoi(9)" { d.extend(r.pick(&[2_000_000u64, u64::MAX]).to_le_bytes()) }
                if i == 3 { d = b[..from.min(b.len())].to_vec() }
                let times = if c == "zip(dict)" || c == "hilbert(zip)" { *r.pick(&[300, 100_000]) } else { *r.pick(&[20_000, 400_000, 1_000_000]) };
                d.extend(rec.repeat((times as usize).min(12_000_000 / rec.len())));
                let what = format!("{rec:02x?} up to {times} times at the end");
                // As in the program, on a thread with the usual 2 MiB of stack
                std::thread::scope(|t| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(t, || go(d, what, obs)).expect("thread").join()).unwrap_or_else(|_| Err(run::panic_viol(case)))?;
            }
            "bombs" => for i in 0..n {
                let head = refs::header(sp.w, sp.h);
                let d = if zip { refs::dict_bomb(&head, &[], i % 2 == 0, &mut r) } else { refs::dict_bomb(&[], &head, i % 2 == 0, &mut r) };
                go(d, "doubling entries".into(), obs)?;
            },
            "splice" => for _ in 0..n.min(40) {
                let mut o = Spec::random(&mut r, sp.w, sp.h);
                if sp.w * sp.h > 900 { o.pat = "pal".into(); o.arg = 60 }
                let b2 = encode(&cd, &o.build())?;
                let (i, j) = (start + r.us(b.len() - start + 1), r.us(b2.len() + 1));
                go([&b[..i], &b2[j..]].concat(), format!("{i} bytes, then {} from byte {j}", o.text()), obs)?;
            },
            _ => for _ in 0..n {
                let e = extreme(&mut r);
                let i = start + r.us(b.len() - start + 1);
                let j = if r.chance(1, 2) { (i + e.len()).min(b.len()) } else { i };
                go([&b[..i], &e, &b[j..]].concat(), format!("{} bytes {:02x}.. at {i}", e.len(), e[0]), obs)?;
            },
        }
        obs.count(&format!("cases:{kind}"), 1);
        obs.sample(format!("{case}: {} bytes", b.len()));
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
