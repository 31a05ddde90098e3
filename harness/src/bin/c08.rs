//! C08: every output failure is reported, and what was written is a correct prefix
use cniic_mon::{codecs::*, imgs::*, io_faults::*, *};
use std::io::ErrorKind;

const ALL: [&str; 10] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "hilbert(rle(0.5))", "cluster-colors(5)", "voronoi(7)"];
const KINDS: [ErrorKind; 7] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::OutOfMemory];

/// What every stream of this codec for this image must look like
enum Model { Exact(Vec<u8>), Huf { seq: Vec<Vec<u8>>, classes: bool, max: usize }, Sites(u64) }

struct St { w: u32, h: u32, m: Model, size: Option<usize>, f: Flat }
impl St {
    fn new(c: &str, img: &image::DynamicImage, reference: Vec<u8>) -> St {
        let f = flat(img);
        let distinct = |s: &Vec<Vec<u8>>| s.iter().collect::<std::collections::HashSet<_>>().len();
        let (m, size) = match c {
            "hufman" => { let seq: Vec<Vec<u8>> = f.px.iter().map(|p| refs::rgb_bytes(*p).to_vec()).collect(); let d = distinct(&seq); (Model::Huf { seq, classes: false, max: d }, Some(reference.len())) }
            "delta" => {
                let seq: Vec<Vec<u8>> = refs::deltas(f.w, f.h, &f.px).iter().map(|d| d.iter().flat_map(|x| x.to_le_bytes()).collect()).collect();
                let d = distinct(&seq);
                (Model::Huf { seq, classes: false, max: d }, Some(reference.len()))
            }
            "cluster-colors(5)" => (Model::Huf { seq: f.px.iter().map(|p| refs::rgb_bytes(*p).to_vec()).collect(), classes: true, max: 5 }, None),
            "voronoi(7)" => (Model::Sites(7.min(f.w as u64 * f.h as u64)), Some(reference.len())),
            _ => { let n = reference.len(); (Model::Exact(reference), Some(n)) }
        };
        St { w: f.w, h: f.h, m, size, f }
    }
    fn prefix(&self, b: &[u8]) -> Result<(), String> {
        match &self.m {
            Model::Exact(r) => if r.starts_with(b) { Ok(()) } else {
                let i = r.iter().zip(b).position(|(x, y)| x != y).unwrap_or(r.len().min(b.len()));
                Err(format!("{} bytes written, they differ from the fault-free stream of {} bytes at byte {i}", b.len(), r.len()))
            },
            Model::Huf { seq, classes, max } => refs::huf_prefix(b, self.w, self.h, seq, *classes, *max),
            Model::Sites(n) => refs::sites_prefix(b, self.w, self.h, *n),
        }
    }
    /// A complete stream
    fn full(&self, c: &str, cd: &cniic::verif::codec::AnyCodec, b: &[u8]) -> R {
        if let Err(e) = self.prefix(b) { viol!(format!("stream:{c}"), "{c}: {e}") }
        if let Some(n) = self.size { ensure!(b.len() == n, format!("stream:{c}"), "{c}: {} bytes instead of {n}", b.len()) }
        let Some(d) = decode(cd, b)? else { viol!(format!("stream:{c}"), "{c}: the stream of {} bytes can't be decoded", b.len()) };
        ensure!((d.width(), d.height()) == (self.w, self.h), format!("stream:{c}"), "{c}: wrong dimensions");
        if cniic::verif::codec::Codec::is_lossless(cd) { if let Some(e) = diff(&self.f, &flat(&d)) { viol!(format!("stream:{c}"), "{c}: {e}") } }
        Ok(())
    }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C08" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> String {
        "A case is one image encoded by one codec into outputs that fail: at each write operation (permanently with a given error kind, by accepting nothing, after a short write, or once only), once each number of bytes has been accepted (a full disk), when flushed; and into outputs that accept few bytes at a time and report interruptions. Every operation/byte of streams with up to 700 (quick) or 2500 (thorough) operations, otherwise the first and last 40 and 120 sampled ones. An encoding during which a failure happened must return an error; the bytes accepted before it must be a prefix of a valid stream (of the fault-free stream for deterministic codecs; of a stream with the image's dictionary and codes for hufman and delta; structurally for cluster-colors and voronoi). An evaluation is one faulty encoding, distinct by (case, fault, position).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(8);
        let full = ctx.n(700, 2500);
        for c in ALL {
            let mut push = |s: Spec| v.push((s.w as u64 * s.h as u64, format!("{full}|{c}|{}", s.text())));
            for (w, h) in small_dims(ctx.n(3, 6) as u32) { push(Spec::random(&mut r, w, h)) }
            for (p, args) in PATTERNS { for a in args { for _ in 0..ctx.n(1, 3) {
                push(Spec::new(r.range(1, 13) as u32, r.range(1, 13) as u32, p, *a, r.next() >> 20, "rgb8"));
            } } }
            for (p, a) in [("photo", 3), ("solid", 3), ("hruns", 600), ("blockrep", 1000), ("pal", 65)] {
                push(Spec::new(r.range(20, 50) as u32, r.range(20, 50) as u32, p, a, r.next() >> 20, "rgb8"))
            }
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.splitn(3, '|').collect();
        let (full, c, s) = (f[0].parse::<u64>().unwrap(), f[1], f[2]);
        let img = Spec::parse(s).build();
        let cd = codec(c)?;
        let mut r = Rng::new(rng::hash_bytes(case.as_bytes()));
        // Fault-free
        let mut w0 = FailAt::new(u64::MAX, Mode::Zero);
        if let Err(e) = encode_to(&cd, &img, &mut w0)? { viol!("encode-err", "{c} on {s}: encoding failed without any fault: {e:?}") }
        let ops = w0.ops;
        let len0 = w0.got.len();
        let st = St::new(c, &img, w0.got);
        let total = st.size.unwrap_or(len0);
        let slow = c.starts_with("cluster") || c.starts_with("voronoi");
        let full = if slow { full.min(120) } else { full };
        let pick = |n: u64, r: &mut Rng| -> Vec<u64> {
            if n <= full { (0..n).collect() } else {
                let k = if slow { 10 } else { 40 };
                let mut v: Vec<u64> = (0..k).chain(n - k..n).chain((0..3 * k).map(|_| r.below(n))).collect();
                v.sort(); v.dedup(); v
            }
        };
        let judge = |what: &str, pos: u64, failed: bool, res: std::io::Result<()>, got: &[u8], obs: &mut Obs| -> R {
            match (failed, &res) {
                (true, Ok(())) => viol!(format!("swallowed:{}", c.split('(').next().unwrap()), "{c} on {s}: the output failed ({what} at {pos}) but encoding returned success"),
                (false, Err(e)) => viol!("spurious-error", "{c} on {s}: the output never failed ({what} at {pos}) but encoding returned {e:?}"),
                _ => {}
            }
            if let Err(e) = st.prefix(got) { viol!(format!("prefix:{}", c.split('(').next().unwrap()), "{c} on {s}, {what} at {pos}: not a prefix of a valid stream: {e}") }
            if failed { obs.eval(true, format!("{c}{s}{what}{pos}").as_bytes()); obs.count(&format!("failures:{what}"), 1) } else { obs.evals(1); obs.count("faults_not_reached", 1) }
            Ok(())
        };
        let tag = |e: Viol, what: String| Viol { msg: format!("{c} on {s}, {what}: {}", e.msg), ..e };
        for k in pick(ops, &mut r) {
            for m in [Mode::Err(*r.pick(&KINDS)), Mode::Zero, Mode::ShortThenErr] {
                let mut w = FailAt::new(k, m);
                let res = encode_to(&cd, &img, &mut w).map_err(|e| tag(e, format!("{m:?} at write {k}")))?;
                judge(match m { Mode::Err(_) => "error", Mode::Zero => "accepts-nothing", _ => "short-then-error" }, k, w.failed, res, &w.got, obs)?;
            }
            let mut w = Once::new(k, *r.pick(&KINDS));
            let res = encode_to(&cd, &img, &mut w).map_err(|e| tag(e, format!("one error at write {k}")))?;
            let n = w.at_failure.unwrap_or(w.got.len());
            judge("one-error", k, w.at_failure.is_some(), res, &w.got[..n], obs)?;
        }
        for k in pick(total as u64, &mut r) {
            let mut w = Full { got: vec![], limit: k as usize, failed: false };
            let res = encode_to(&cd, &img, &mut w).map_err(|e| tag(e, format!("full after {k} bytes")))?;
            if st.size.is_some() { ensure!(w.failed, "stream-size", "{c} on {s}: fewer than {k} of {total} bytes were written") }
            judge("full", k, w.failed, res, &w.got, obs)?;
        }
        let mut w = FailFlush { got: vec![], flushed: 0 };
        let res = encode_to(&cd, &img, &mut w).map_err(|e| tag(e, "failing flush".into()))?;
        if w.flushed > 0 { obs.count("flushes_that_failed", 1) }
        judge("flush", 0, w.flushed > 0, res, &w.got, obs)?;
        for i in 0..6 {
            let mut w = Picky { got: vec![], rng: Rng::new(r.next()), interrupts: 0, shorts: 0 };
            let res = encode_to(&cd, &img, &mut w).map_err(|e| tag(e, "picky output".into()))?;
            if let Err(e) = res { viol!("picky", "{c} on {s}: an output that only accepts few bytes at a time or is interrupted made encoding fail: {e:?}") }
            st.full(c, &cd, &w.got).map_err(|e| tag(e, "output that accepts few bytes at a time".into()))?;
            obs.count("interruptions", w.interrupts);
            obs.count("short_writes", w.shorts);
            obs.eval(w.interrupts + w.shorts > 0, format!("{case}p{i}").as_bytes());
        }
        obs.count(&format!("images:{c}"), 1);
        obs.max("most_write_operations", ops as f64);
        obs.sample(format!("{c} on {s}: {ops} write operations, {total} bytes, every injected failure reported"));
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
