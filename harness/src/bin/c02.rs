//! C02: the byte-stream compressors are inverses on every byte string
use cniic_mon::{bytesgen::*, *};

#[cfg(feature = "direct")]
fn check(c: &str, data: &[u8], what: &str, obs: &mut Obs) -> R {
    use cniic::verif::zip::*;
    use cniic_mon::run::guard;
    let mut out = Vec::new();
    let r = guard(&format!("{c} encode of {what}"), || if c == "dict" { zip_dict_encode(data.iter().cloned(), &mut out) } else { zip_back_encode(data.iter().cloned(), &mut out) })?;
    if let Err(e) = r { viol!(format!("encode:{c}"), "{c} failed to encode {what}: {e:?}") }
    let (got, more) = guard(&format!("{c} decode of {what}"), || {
        let mut m = codecs::Meter::new(&out);
        let lim = data.len() + 1;
        let mut v = Vec::with_capacity(lim);
        macro_rules! pull { ($d:expr) => {{ let mut d = $d; while v.len() < lim { match d.next() { Some(b) => v.push(b), None => break } } let more = d.next(); (v, more) }} }
        if c == "dict" { pull!(zip_dict_decode(&mut m)) } else { pull!(zip_back_decode(&mut m)) }
    })?;
    if got != data {
        let i = got.iter().zip(data).position(|(a, b)| a != b).unwrap_or(got.len().min(data.len()));
        viol!(format!("differs:{c}"), "{c} on {what}: {} bytes became {}{}, first difference at byte {i}", data.len(), got.len(), if got.len() > data.len() { " or more" } else { "" })
    }
    ensure!(more.is_none(), format!("noend:{c}"), "{c} on {what}: the decoder went on after its end");
    obs.eval(data.len() > 1 && data.iter().any(|b| *b != data[0]), &[c.as_bytes(), data].concat());
    obs.count("bytes_compared", data.len() as u64);
    obs.count(&format!("strings:{c}"), 1);
    obs.max("longest_string", data.len() as f64);
    if c == "dict" { if out.len() / 4 > 65279 { obs.count("strings_saturating_the_dictionary", 1) } }
    else {
        if data.len() > 65535 { obs.count("strings_longer_than_the_window", 1) }
        if let Ok((_, syms)) = refs::back_expand(&out) {
            for s in syms { match s {
                refs::BackSym::Explicit(n) => { obs.max("longest_explicit", n as f64); obs.count("explicit_symbols", 1) }
                refs::BackSym::Look { len, back } => { obs.max("longest_lookback", len as f64); obs.max("farthest_lookback", back as f64); obs.count("lookback_symbols", 1) }
            } }
        }
    }
    obs.sample(format!("{c} on {what}: {} bytes -> {} -> equal", data.len(), out.len()));
    Ok(())
}
#[cfg(not(feature = "direct"))]
fn check(c: &str, data: &[u8], _what: &str, obs: &mut Obs) -> R { if data.len() % 64 == 0 { codecs::fallback(&format!("{c}{data:?}"), obs)?; } else { obs.evals(1) } Ok(()) }

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C02" }
    fn rule(&self) -> String {
        "A case is a byte string (18 generators: uniform, periodic, broken periods, words, runs, repeats at exact distances around the 65535-byte window, wide trie nodes, Thue-Morse, counters, repetitions around the minimum length, ...; lengths 0 to 1.2 MB) or all strings of one length over a small alphabet; it is compressed, decompressed, compared byte for byte, and the decoder must then end. Non-trivial: at least two different bytes; distinct by (compressor, content).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(usize, String)> = vec![];
        let mut r = ctx.rng(2);
        for c in ["dict", "back"] {
            let mut push = |s: BSpec| v.push((s.len, format!("{c}|{}", s.text())));
            for (k, args) in KINDS { for a in args {
                for l in [r.us(40), r.us(400), r.us(4000), 20000 + r.us(20000)] { push(BSpec::new(k, l, *a, r.next() >> 20)) }
                if *a != 0 { for _ in 0..ctx.n(0, 6) { push(BSpec::new(k, 10000 + r.us(90000), *a, r.next() >> 20)) } }
            } }
            for (k, a) in [("uniform", 256), ("gap", 65530), ("gap", 65535), ("gap", 65536), ("period", 1000), ("words", 2000), ("fan", 2), ("brokenperiod", 700), ("alternate", 500), ("runs", 40000)] {
                for _ in 0..ctx.n(1, 6) { push(BSpec::new(k, 190_000 + r.us(20_000), a, r.next() >> 20)) }
            }
            for k in [("uniform", 256), ("counter", 4), ("words", 2000), ("alternate", 500), ("fan", 1)] {
                push(BSpec::new(k.0, ctx.n(700_000, 1_200_000), k.1, r.next() >> 20))
            }
            // Few letters and long, sometimes broken, periods: long partial matches, given back and read again
            for k in ["period2", "period4", "broken2", "broken4"] {
                for a in [40, 300, 1000, 3000] { for l in [30_000, ctx.n(120_000, 500_000)] { push(BSpec::new(k, l + r.us(1000), a + r.below(a), r.next() >> 20)) } }
            }
            // Around the limits of the formats
            for l in [32766, 32767, 32768, 65534, 65535, 65536, 65537, 98302, 131070, 131071] {
                push(BSpec::new("uniform", l, 256, r.next() >> 20));
                push(BSpec::new("period", l, 9000, r.next() >> 20));
                push(BSpec::new("const", l.min(ctx.n(70000, 140000)), 7, 0));
            }
            for _ in 0..ctx.n(1500, 20000) { let l = [r.us(8), r.us(64), r.us(1500)][r.us(3)]; push(BSpec::random(&mut r, l)) }
            for (alpha, len) in [(2, 14), (3, 8), (4, 6), (256, 1), (256, 0)] {
                let len = if len > 1 && !ctx.quick() { len + 2 } else { len };
                for l in 0..=len { v.push((300, format!("{c}|enum:{l}:{alpha}"))) }
            }
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let (c, s) = case.split_once('|').unwrap();
        if let Some(e) = s.strip_prefix("enum:") {
            let (l, a) = e.split_once(':').unwrap();
            let (l, a): (usize, u64) = (l.parse().unwrap(), a.parse().unwrap());
            for k in 0..a.pow(l as u32) {
                let mut x = k;
                let d: Vec<u8> = (0..l).map(|_| { let b = x % a; x /= a; b as u8 }).collect();
                check(c, &d, &format!("{d:?}"), obs)?;
            }
            obs.count("enumerated_groups", 1);
            return Ok(())
        }
        check(c, &BSpec::parse(s).build(), s, obs)
    }
    fn finish(&self, _ctx: &Ctx, t: &Totals) -> R {
        if cfg!(feature = "direct") && t.cases_done == t.cases_planned {
            ensure!(t.c("strings_saturating_the_dictionary") > 0 && t.c("strings_longer_than_the_window") > 0, "HARNESS", "the workload did not reach saturation");
        }
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
