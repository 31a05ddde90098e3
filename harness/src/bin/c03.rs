//! C03: the Huffman coder reproduces every symbol sequence in order
use cniic_mon::{run::guard, *};

/// Symbol sequences: "dist:len:alphabet:seed"
fn sequence(s: &str) -> Vec<u32> {
    let f: Vec<&str> = s.split(':').collect();
    let (n, k, mut r) = (f[1].parse::<usize>().unwrap(), f[2].parse::<usize>().unwrap(), Rng::new(f[3].parse().unwrap()));
    let mut v: Vec<u32> = Vec::with_capacity(n);
    match f[0] {
        "uniform" => while v.len() < n { v.push(r.us(k) as u32) },
        "single" => v = vec![r.us(256) as u32; n],
        "geom" => while v.len() < n { let mut i = 0; while i + 1 < k && r.chance(1, 2) { i += 1 } v.push(i as u32) },
        // As deep as n symbols can make it; length is as needed if n is 0
        "fib" => {
            let (mut a, mut b) = (1u64, 1u64);
            for i in 0..k { for _ in 0..a { v.push(i as u32) } let c = a + b; a = b; b = c; }
            if n > 0 { r.shuffle(&mut v) }
        }
        "pow" => { for i in 0..k { for _ in 0..(1u64 << i.min(20)) { if v.len() < n { v.push(i as u32) } } } r.shuffle(&mut v) }
        "markov" => { let mut c = 0; while v.len() < n { if r.chance(1, 9) { c = r.us(k) } else { c = (c + r.us(3)) % k } v.push(c as u32) } }
        "each" => { v = (0..k as u32).collect(); r.shuffle(&mut v); while v.len() < n { let x = v[r.us(k)]; v.push(x) } }
        d => panic!("unknown distribution {d}"),
    }
    if v.is_empty() { v.push(0) }
    v
}

#[cfg(feature = "direct")]
mod direct {
    use super::*;
    use cniic::verif::{bit::*, huf, ser::*};
    use std::hash::Hash;

    pub fn coder<T: Serialize + Deserialize + Eq + Hash + Clone + std::fmt::Debug>(case: &str, seq: &[T], key: u64, sym_size: Option<usize>, obs: &mut Obs) -> R {
        let mut out = Vec::new();
        let r = guard(&format!("encode {case}"), || huf::encode_all(|| seq.iter().cloned(), &mut out))?;
        if let Err(e) = r { viol!("encode-err", "{case}: encoding failed: {e:?}") }
        let distinct: std::collections::HashSet<&T> = seq.iter().collect();
        let bad = guard(&format!("decode {case}"), || {
            let mut m = codecs::Meter::new(&out);
            let mut it = match huf::decode_all::<_, T>(&mut m) { Some(i) => i, None => return Some("the decoder rejected the stream".to_string()) };
            for (i, x) in seq.iter().enumerate() {
                match it.next() {
                    Some(y) if y == *x => {}
                    Some(y) => return Some(format!("symbol {i} of {} was {x:?} and became {y:?}", seq.len())),
                    None => return Some(format!("only {i} of {} symbols came back", seq.len())),
                }
            }
            None
        })?;
        if let Some(b) = bad { viol!("differs", "{case}: {b}") }
        if let Some(n) = sym_size {
            // The same bits, read by the independent reader, which also checks the padding
            let mut rd = refs::Rd::new(&out);
            let t = refs::read_trie(&mut rd, |r| Ok(r.take(n)?.to_vec())).and_then(|t| refs::read_codes(&mut rd, &t, seq.len()).map(|c| (t, c)));
            let (t, (ix, bits)) = match t { Ok(t) => t, Err(e) => viol!("layout", "{case}: {e}") };
            if let Err(e) = rd.at_end() { viol!("layout", "{case}: {e}") }
            for (i, (x, j)) in seq.iter().zip(&ix).enumerate() {
                let mut b = vec![];
                x.serialize(&mut b).map_err(|e| Viol::new("encode-err", format!("{e:?}")))?;
                ensure!(b == t.syms[*j], "layout", "{case}: symbol {i} is {x:?} but its code means {:?}", t.syms[*j]);
            }
            obs.max("longest_code_bits", t.max_depth as f64);
            obs.count("code_bits", bits);
        }
        obs.evals(1);
        if distinct.len() > 1 { obs.fp(key) } else { obs.count("single_symbol_sequences", 1) }
        obs.count("symbols_compared", seq.len() as u64);
        obs.max("most_distinct_symbols", distinct.len() as f64);
        obs.sample(format!("{case}: {} symbols, {} distinct, {} bytes", seq.len(), distinct.len(), out.len()));
        Ok(())
    }

    pub fn typed(case: &str, ty: &str, seq: &[u32], obs: &mut Obs) -> R {
        let key = rng::hash_bytes(case.as_bytes());
        let h = |x: u32, i: u64| (rng::mix(x as u64 * 31 + i) >> 7) as u8;
        macro_rules! go { ($t:ty, $n:expr, $f:expr) => { coder::<$t>(case, &seq.iter().map($f).collect::<Vec<_>>(), key, $n, obs) } }
        match ty {
            "u8" => go!(u8, Some(1), |x| *x as u8),
            "u16" => go!(u16, Some(2), |x| *x as u16),
            "i16" => go!(i16, Some(2), |x| (*x as i16).wrapping_sub(300)),
            "u32" => go!(u32, Some(4), |x| x.wrapping_mul(0x9E3779B1)),
            "u64" => go!(u64, Some(8), |x| rng::mix(*x as u64)),
            "usize" => go!(usize, Some(8), |x| rng::mix(*x as u64) as usize),
            "char" => go!(char, Some(1), |x| (*x as u8) as char),
            "pair" => go!((u8, u16), Some(3), |x| (*x as u8, (*x >> 3) as u16)),
            "diff" => go!([i16; 3], Some(6), |x| [*x as i16, -(*x as i16), (*x % 7) as i16 - 3]),
            "rgb" => go!(image_rgb::Rgb<u8>, Some(11), |x| image_rgb::Rgb([*x as u8, h(*x, 1), (*x >> 8) as u8])),
            "nested" => go!(((u8, [u8; 2]), char), Some(4), |x| ((*x as u8, [(*x >> 8) as u8, 9]), 'x')),
            "vec" => go!(V, None, |x| V((0..*x % 5).map(|i| h(*x, i as u64)).chain(x.to_le_bytes()).collect())),
            t => panic!("unknown type {t}"),
        }
    }
    use image as image_rgb;
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    pub struct V(Vec<u8>);
    impl Serialize for V { fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { (&self.0[..]).serialize(w) } }
    impl Deserialize for V { fn deserialize<I: Iterator<Item = u8>>(s: &mut I) -> Option<Self> { Vec::deserialize(s).map(V) } }

    /// Random interleavings of bit-level writes against a list of bools
    pub fn bits(seed: u64, obs: &mut Obs) -> R {
        let mut r = Rng::new(seed);
        let mk = |b: bool| if b { Bit::One } else { Bit::Zero };
        for _ in 0..200 {
            let mut out: Vec<u8> = vec![];
            let mut model: Vec<bool> = vec![];
            let mut script = String::new();
            let nops = r.us(60);
            let profile = r.below(4);
            let res = guard("bit writes", || -> std::io::Result<()> {
                let mut w = IoBitWriter::new(&mut out, BitOrder::MsbFirst);
                for _ in 0..nops {
                    match (profile + r.below(3)) % 5 {
                        0 | 4 => { let b = r.chance(1, 2); script.push(if b { '1' } else { '0' }); w.write(mk(b))?; model.push(b) }
                        1 => { let n = r.byte(); script.push_str(&format!("<{n:02x}>")); w.write_byte(n)?; for i in 0..8 { model.push(n >> (7 - i) & 1 == 1) } }
                        2 => {
                            let l = match r.below(4) { 0 => r.us(9), 1 => 8 * r.us(5), 2 => r.us(70), _ => 7 + r.us(4) };
                            let bs: Vec<bool> = (0..l).map(|_| r.chance(1, 2)).collect();
                            let a = BitArray::from_slice(&bs.iter().map(|b| mk(*b)).collect::<Vec<_>>(), BitOrder::MsbFirst);
                            if a.len() != l { return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("a bit array of {l} bits has length {}", a.len()))) }
                            script.push_str(&format!("[{}]", bs.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()));
                            w.write_arr(&a)?;
                            model.extend(bs)
                        }
                        _ => if r.chance(1, 8) { script.push('|'); w.pad_and_flush()?; while model.len() % 8 != 0 { model.push(false) } },
                    }
                }
                script.push('.');
                w.pad_and_flush()
            })?;
            if let Err(e) = res { viol!("bits", "writing {script}: {e}") }
            while model.len() % 8 != 0 { model.push(false) }
            let want: Vec<u8> = model.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
            ensure!(out == want, "bits", "writing {script} gave {out:02x?} instead of {want:02x?}");
            let back: Vec<bool> = guard("bit reader", || bit_reader(out.iter().cloned(), BitOrder::MsbFirst).map(|b| b == Bit::One).collect())?;
            ensure!(back == model, "bits", "reading back {script}: {back:?}");
            obs.eval(model.len() > 8, script.as_bytes());
            obs.count("bit_scripts", 1);
            obs.count("bits_compared", model.len() as u64);
            obs.sample(format!("bit script {script}"));
        }
        Ok(())
    }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> String {
        "A case is a symbol sequence (7 distributions incl. a single symbol, uniform over up to 70000 symbols, and Fibonacci frequencies, which force the longest codes; 12 symbol types) encoded, decoded and compared in order, and re-read by an independent trie and bit reader that also checks the zero padding; or 200 random interleavings of bit, byte, bit-array and flush operations compared with a list of booleans. Non-trivial: at least two distinct symbols, or more than 8 bits.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut r = ctx.rng(3);
        let mut v = vec![];
        // The long ones first
        v.push(format!("u8|fib:0:{}:1", ctx.n(34, 38)));
        if !ctx.quick() { v.push("char|fib:0:33:2".into()); v.push("diff|fib:1:30:2".into()) }
        for (k, t) in [(30, "u8"), (28, "rgb"), (27, "diff"), (26, "vec"), (25, "u16"), (24, "char")] { v.push(format!("{t}|fib:1:{k}:{}", r.next() >> 30)) }
        v.push("u32|uniform:300000:70000:5".into());
        v.push("rgb|each:80000:65536:6".into());
        v.push("u16|each:70000:65536:7".into());
        for _ in 0..ctx.n(60, 1500) { v.push(format!("bits|{}", r.next() >> 20)) }
        for t in ["u8", "u16", "i16", "u32", "u64", "usize", "char", "pair", "diff", "rgb", "nested", "vec"] {
            for d in ["uniform", "geom", "fib", "pow", "markov", "each", "single"] {
                for i in 0..ctx.n(14, 120) {
                    let k = match i % 7 { 0 => 1, 1 => 2, 2 => 3, 3 => 2 + r.us(20), 4 => 250 + r.us(10), 5 => 2 + r.us(300), _ => 2 + r.us(60) };
                    let k = if d == "fib" { 1 + k % 20 } else { k };
                    let n = match i % 5 { 0 => 1 + r.us(10), 1 => 1 + r.us(100), 2 => 1 + r.us(3000), _ => 1 + r.us(300) };
                    v.push(format!("{t}|{d}:{n}:{k}:{}", r.next() >> 20));
                }
            }
        }
        // All the short sequences over three symbols
        for n in 1..=ctx.n(8, 11) { v.push(format!("all|{n}")) }
        v
    }
    fn cpu_limit(&self) -> u64 { 600 }
    fn mem_limit(&self) -> u64 { 12 << 30 }
    #[cfg(feature = "direct")]
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let (t, s) = case.split_once('|').unwrap();
        match t {
            "bits" => direct::bits(s.parse().unwrap(), obs),
            "all" => {
                let n: u32 = s.parse().unwrap();
                for mut k in 0..3u32.pow(n) {
                    let q: Vec<u32> = (0..n).map(|_| { let x = k % 3; k /= 3; x * 100 }).collect();
                    direct::typed(&format!("u8|{q:?}"), "u8", &q, obs)?;
                }
                Ok(())
            }
            _ => direct::typed(case, t, &sequence(s), obs),
        }
    }
    #[cfg(not(feature = "direct"))]
    fn run(&self, case: &str, obs: &mut Obs) -> R { let _ = (sequence("single:1:1:1"), guard("", || ())); if rng::hash_bytes(case.as_bytes()) % 8 == 0 { codecs::fallback(case, obs) } else { obs.evals(1); Ok(()) } }
}
fn main() { cniic_mon::run::main_for(&C) }
