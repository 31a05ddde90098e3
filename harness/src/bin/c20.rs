//! C20: serialized primitives round-trip and use exactly their own bytes
use cniic_mon::*;

#[cfg(feature = "direct")]
mod direct {
    use super::*;
    use cniic::verif::ser::{deser_stream, Deserialize, SerStream, Serialize};
    use cniic_mon::io_faults::Picky;
    use image::Rgb;
    use std::fmt::Debug;
    use std::io;

    /// A value that can be made up, and that knows its own bytes
    pub trait V: Serialize + Deserialize + PartialEq + Clone + Debug {
        fn make(r: &mut Rng, depth: u32) -> Self;
        fn model(&self, out: &mut Vec<u8>);
    }
    macro_rules! int { ($($t:ty, $w:ty);*) => { $(impl V for $t {
        fn make(r: &mut Rng, _: u32) -> Self { match r.below(5) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => (r.below(300)) as $t, 3 => (1 as $t).wrapping_shl(r.below(64) as u32), _ => r.next() as $t } }
        fn model(&self, out: &mut Vec<u8>) { let mut v = *self as $w; for _ in 0..std::mem::size_of::<$w>() { out.push(v as u8); v = v.wrapping_shr(8) } }
    })* } }
    int!(u8, u8; u16, u16; i16, i16; u32, u32; u64, u64; usize, u64);
    impl V for char {
        fn make(r: &mut Rng, _: u32) -> Self { r.below(128) as u8 as char }
        fn model(&self, out: &mut Vec<u8>) { out.push(*self as u32 as u8) }
    }
    impl<A: V, B: V> V for (A, B) {
        fn make(r: &mut Rng, d: u32) -> Self { (A::make(r, d), B::make(r, d)) }
        fn model(&self, out: &mut Vec<u8>) { self.0.model(out); self.1.model(out) }
    }
    impl<A: V, const N: usize> V for [A; N] {
        fn make(r: &mut Rng, d: u32) -> Self { std::array::from_fn(|_| A::make(r, d)) }
        fn model(&self, out: &mut Vec<u8>) { for x in self { x.model(out) } }
    }
    impl<A: V> V for Rgb<A> where A: Copy {
        fn make(r: &mut Rng, d: u32) -> Self { Rgb([A::make(r, d), A::make(r, d), A::make(r, d)]) }
        fn model(&self, out: &mut Vec<u8>) { 3u64.model(out); for x in &self.0 { x.model(out) } }
    }
    /// A sequence: written as a slice, read as a vector
    #[derive(PartialEq, Clone, Debug)]
    pub struct Seq<A>(pub Vec<A>);
    impl<A: Serialize> Serialize for Seq<A> { fn serialize<W: io::Write>(&self, w: &mut W) -> io::Result<()> { (&self.0[..]).serialize(w) } }
    impl<A: Deserialize> Deserialize for Seq<A> { fn deserialize<I: Iterator<Item = u8>>(s: &mut I) -> Option<Self> { Vec::deserialize(s).map(Seq) } }
    impl<A: V> V for Seq<A> {
        fn make(r: &mut Rng, d: u32) -> Self { let n = match r.below(6) { 0 => 0, 1 => 1, 2 if d == 0 => r.below(700), _ => r.below(9) }; Seq((0..n).map(|_| A::make(r, d + 1)).collect()) }
        fn model(&self, out: &mut Vec<u8>) { (self.0.len() as u64).model(out); for x in &self.0 { x.model(out) } }
    }

    /// A value that is written without any byte, now and then
    #[derive(PartialEq, Clone, Debug)]
    pub struct Some0(pub Option<u16>);
    impl Serialize for Some0 { fn serialize<W: io::Write>(&self, w: &mut W) -> io::Result<()> { match &self.0 { Some(v) => v.serialize(w), None => Ok(()) } } }
    /// Streams with values that have no bytes: only the bytes can be judged
    pub fn gaps(seed: u64, obs: &mut Obs) -> R {
        let mut r = Rng::new(seed);
        for _ in 0..200 {
            let p = r.below(10);
            let vs: Vec<Some0> = (0..r.below(40)).map(|_| Some0(if r.chance(p, 10) { None } else { Some(r.next() as u16) })).collect();
            let want: Vec<u8> = vs.iter().filter_map(|v| v.0).flat_map(|v| v.to_le_bytes()).collect();
            let what = format!("a stream of {}", short(&vs));
            let mut s = SerStream::from_iter(vs.iter().cloned());
            let got: Vec<u8> = run::guard(&what, || (&mut s).collect())?;
            ensure!(got == want, "gaps", "{what} becomes {}, expected {}", head(&got), head(&want));
            ensure!(run::guard(&what, || s.next())?.is_none(), "end", "{what} goes on after its end");
            // Empty arrays, and a vector of them
            let n = r.us(30);
            let got: Vec<u8> = run::guard("a stream of [u8; 0]", || SerStream::from_iter((0..n).map(|_| [0u8; 0])).collect())?;
            ensure!(got.is_empty(), "gaps", "a stream of {n} x [u8; 0] becomes {}", head(&got));
            let mut i = 0;
            let got: Vec<u8> = run::guard("a stream of slices", || SerStream::from_iter(std::iter::from_fn(|| { i += 1; (i <= n).then(|| Seq(vec![[0u8; 0]; i % 3])) })).collect())?;
            ensure!(got.len() == 8 * n, "gaps", "a stream of {n} sequences of empty arrays becomes {} bytes", got.len());
            obs.eval(!vs.is_empty(), &[b"gaps", &want[..]].concat());
            obs.count("streams_with_empty_values", 1);
        }
        Ok(())
    }

    /// Counts what is taken from it
    struct Tap<'a> { b: &'a [u8], taken: usize }
    impl Iterator for Tap<'_> { type Item = u8; fn next(&mut self) -> Option<u8> { self.taken += 1; self.b.get(self.taken - 1).copied() } }

    fn head(b: &[u8]) -> String { let s: Vec<String> = b.iter().take(24).map(|x| format!("{x:02x}")).collect(); format!("{}{} ({} bytes)", s.join(" "), if b.len() > 24 { " ..." } else { "" }, b.len()) }
    fn short<T: Debug>(v: &T) -> String { format!("{v:?}").chars().take(160).collect() }

    pub fn value<T: V>(ty: &str, v: &T, r: &mut Rng, obs: &mut Obs) -> R {
        let mut want = vec![];
        v.model(&mut want);
        let what = format!("{ty} {}", short(v));
        let mut got = vec![];
        let res = run::guard(&what, || v.serialize(&mut got))?;
        ensure!(res.is_ok(), "ser-err", "{what}: {res:?}");
        ensure!(got == want, "bytes", "{what} is written as {}, expected {}", head(&got), head(&want));
        // Through an output that accepts little at a time
        let mut p = Picky { got: vec![], rng: Rng::new(r.next()), interrupts: 0, shorts: 0 };
        let res = run::guard(&what, || v.serialize(&mut p))?;
        ensure!(res.is_ok() && p.got == want, "short-writes", "{what}: {res:?}, written as {} to an output accepting little at a time", head(&p.got));
        let via: Vec<u8> = run::guard(&what, || SerStream::from_value(v.clone()).collect())?;
        ensure!(via == want, "stream-of-one", "{what} becomes the byte stream {}", head(&via));
        // With other data behind it
        let mut b = want.clone();
        for _ in 0..r.below(12) { b.push(r.byte()) }
        let mut t = Tap { b: &b, taken: 0 };
        let back = run::guard(&what, || T::deserialize(&mut t))?;
        ensure!(back.as_ref() == Some(v), "round-trip", "{what} is read back as {}", short(&back));
        ensure!(t.taken == want.len(), "consumed", "{what}: {} bytes were taken of {} written", t.taken, want.len());
        // Ending early
        let n = want.len();
        let cuts: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..24).map(|i| if i < 10 { i } else if i < 14 { n - 1 - (i - 10) } else { r.us(n) }).collect() };
        for c in cuts {
            let mut t = Tap { b: &want[..c], taken: 0 };
            let back = run::guard(&what, || T::deserialize(&mut t))?;
            ensure!(back.is_none(), "early-end", "{what}: {c} of its {n} bytes are read as {}", short(&back));
            obs.count("early_ends", 1);
        }
        obs.eval(n > 0, &[ty.as_bytes(), &want[..]].concat());
        obs.count("bytes", n as u64);
        Ok(())
    }

    pub fn stream<T: V>(ty: &str, r: &mut Rng, obs: &mut Obs) -> R {
        let n = match r.below(4) { 0 => 0, 1 => 1, _ => r.us(60) };
        let vs: Vec<T> = (0..n).map(|_| T::make(r, 1)).collect();
        let what = format!("a stream of {n} x {ty}");
        let mut want = vec![];
        let mut ends = vec![0];
        for v in &vs { v.model(&mut want); ends.push(want.len()) }
        let got: Vec<u8> = run::guard(&what, || SerStream::from_iter(vs.iter().cloned()).collect())?;
        ensure!(got == want, "stream", "{what} becomes {}, expected {}", head(&got), head(&want));
        // Values without bytes cannot be told apart from the end of the stream
        let mut one = vec![];
        T::make(r, 1).model(&mut one);
        if one.is_empty() { return Ok(()) }
        let back: Vec<T> = run::guard(&what, || deser_stream::<_, T>(&mut got.iter().copied()).take(n + 1).collect())?;
        ensure!(back == vs, "stream-back", "{what}: {} values come back", back.len());
        // Both at once, without anything in between
        let back: Vec<T> = run::guard(&what, || deser_stream::<_, T>(&mut SerStream::from_iter(vs.iter().cloned())).take(n + 1).collect())?;
        ensure!(back == vs, "stream-back", "{what}: {} values come back from the direct stream", back.len());
        let c = r.us(want.len() + 1);
        let whole = ends.iter().filter(|e| **e <= c).count() - 1;
        let back: Vec<T> = run::guard(&what, || deser_stream::<_, T>(&mut want[..c].iter().copied()).take(n + 1).collect())?;
        ensure!(back == vs[..whole], "stream-early-end", "{what} cut after {c} of {} bytes: {} values come back instead of {whole}", want.len(), back.len());
        obs.eval(n > 0, &[ty.as_bytes(), b"*", &want[..]].concat());
        obs.count("streams", 1);
        Ok(())
    }

    /// Sequences whose stream ends long before as many values as announced
    pub fn announced<T: V>(ty: &str, r: &mut Rng, obs: &mut Obs) -> R {
        let mut one = vec![];
        T::make(r, 1).model(&mut one);
        if one.is_empty() { return Ok(()) }
        let n = r.us(20);
        let len: u64 = match r.below(7) { 0 => n as u64 + 1, 1 => 1 << r.range(8, 63), 2 => u64::MAX, 3 => u64::MAX / 2 + 1, 4 => r.next(), 5 => u64::MAX / (1 + r.below(16)), _ => n as u64 + r.range(1, 1 << 20) }.max(n as u64 + 1);
        let mut b = vec![];
        len.model(&mut b);
        for _ in 0..n { T::make(r, 1).model(&mut b) }
        let what = format!("a sequence of {len} x {ty}, of which {n} are there");
        let back = run::guard(&what, || <Vec<T>>::deserialize(&mut b.iter().copied()))?;
        ensure!(back.is_none(), "announced", "{what}, is read as {}", short(&back));
        obs.eval(true, &[ty.as_bytes(), b"#", &b[..]].concat());
        obs.count("announced_too_many", 1);
        Ok(())
    }

    macro_rules! types { ($($t:ty),* $(,)?) => {
        pub const TYPES: &[&str] = &[$(stringify!($t)),*];
        pub fn run(case: &str, obs: &mut Obs) -> R {
            let f: Vec<&str> = case.split('|').collect();
            let mut r = Rng::new(f[2].parse().unwrap());
            let n: usize = f[1].parse().unwrap();
            $(if f[0] == stringify!($t) {
                for i in 0..n {
                    let v = <$t as V>::make(&mut r, 0);
                    value(f[0], &v, &mut r, obs)?;
                    announced::<$t>(f[0], &mut r, obs)?;
                    if i % 2 == 0 { stream::<$t>(f[0], &mut r, obs)? }
                    if i == 0 { obs.sample(format!("{} {}", f[0], short(&v))) }
                }
            })*
            // All values of the small types
            if let Some(t) = f[0].strip_prefix("all ") {
                let k = n as u32 * 4096;
                match t {
                    "u8" => for v in 0..=255u8 { value("u8", &v, &mut r, obs)? },
                    "char" => for v in 0..=127u8 { value("char", &(v as char), &mut r, obs)? },
                    "u16" => for v in k..k + 4096 { value("u16", &(v as u16), &mut r, obs)? },
                    _ => for v in k..k + 4096 { value("i16", &(v as u16 as i16), &mut r, obs)? },
                }
            }
            if f[0] == "gaps" { gaps(f[2].parse().unwrap(), obs)? }
            // Long sequences
            if f[0] == "long" {
                let v: Seq<u16> = Seq((0..n).map(|_| r.next() as u16).collect());
                value("long sequence", &v, &mut r, obs)?;
                let v: Seq<(Rgb<u8>, u32)> = Seq((0..n / 4).map(|_| V::make(&mut r, 3)).collect());
                value("long sequence of pairs", &v, &mut r, obs)?;
            }
            Ok(())
        }
    } }
    types!(u8, u16, i16, u32, u64, usize, char, (u8, u16), (u32, u32), (char, usize), ((u8, i16), (u64, char)), (u8, (u16, (u32, u64))), [u8; 1], [u8; 3], [i16; 3], [u16; 7], [u32; 0], [u64; 2],
        [[u8; 2]; 3], [(u8, u16); 5], [char; 11], Rgb<u8>, Rgb<u16>, Rgb<u32>, (Rgb<u8>, Rgb<u8>), [Rgb<u8>; 4], Seq<u8>, Seq<u16>, Seq<u64>, Seq<char>, Seq<(char, u32)>, Seq<Rgb<u8>>, Seq<Seq<u8>>, Seq<Seq<Seq<i16>>>,
        (Seq<u8>, Seq<u8>), (Seq<char>, u64), [Seq<u8>; 3], Seq<[u16; 2]>, Seq<[u8; 0]>, (Rgb<u8>, (u32, u32)), Seq<(Seq<char>, (usize, [i16; 2]))>, [u8; 300], [[i16; 20]; 20]);
}

#[cfg(not(feature = "direct"))]
mod direct {
    use super::*;
    pub const TYPES: &[&str] = &["u8"];
    pub fn run(case: &str, obs: &mut Obs) -> R { codecs::fallback(case, obs) }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C20" }
    fn rule(&self) -> String {
        "A case is a type (43 of them: primitives, pairs, arrays, sequences, colours, nested up to four levels) and a number of random values including extremes, or all values of a small type, or long sequences. The monitor compares the bytes written (also through an output that accepts little at a time, and through SerStream) with its own little-endian model, counts every byte the deserializer takes from a stream with other data behind, reads every early end (every cut of up to 40 bytes, 24 cuts of longer values), announces sequences far longer than their stream, and does the same for streams of values. An evaluation is one value or stream; distinct (type, bytes) with at least one byte are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(20);
        for t in direct::TYPES { for _ in 0..ctx.n(16, 160) { v.push(format!("{t}|{}|{}", ctx.n(200, 600), r.next() >> 12)) } }
        for _ in 0..ctx.n(20, 200) { v.push(format!("gaps|0|{}", r.next() >> 12)) }
        v.push("all u8|0|1".into());
        v.push("all char|0|1".into());
        for i in 0..16 { v.push(format!("all u16|{i}|1")); v.push(format!("all i16|{i}|1")) }
        for n in [255, 256, 257, 65535, 65536, 65537, 300_000] { v.push(format!("long|{n}|{}", r.next() >> 12)) }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R { direct::run(case, obs) }
}
fn main() { cniic_mon::run::main_for(&C) }
