//! Independent models of the stream formats and of the schemes (no code shared with cniic;
//! the Hilbert order comes straight from the zhang_hilbert crate, which C14 validates).
use crate::rng::Rng;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap};

pub fn hilbert_order(w: u32, h: u32) -> Vec<(u32, u32)> {
    zhang_hilbert::ArbHilbertScan32::new([w, h]).map(|a| (a[0], a[1])).collect()
}

pub fn rgb_bytes(c: [u8; 3]) -> [u8; 11] { [3, 0, 0, 0, 0, 0, 0, 0, c[0], c[1], c[2]] }
pub fn header(w: u32, h: u32) -> Vec<u8> { let mut v = w.to_le_bytes().to_vec(); v.extend(h.to_le_bytes()); v }

pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
pub type P<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> P<&'a [u8]> {
        if self.b.len() - self.p < n { return Err(format!("stream ends at byte {} where {} more bytes are needed", self.b.len(), n)) }
        self.p += n; Ok(&self.b[self.p - n..self.p])
    }
    pub fn u8(&mut self) -> P<u8> { Ok(self.take(1)?[0]) }
    pub fn u16(&mut self) -> P<u16> { Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap())) }
    pub fn u32(&mut self) -> P<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> P<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
    pub fn rgb(&mut self) -> P<[u8; 3]> {
        let n = self.u64()?;
        if n != 3 { return Err(format!("a colour announces {n} channels at byte {}", self.p - 8)) }
        Ok(self.take(3)?.try_into().unwrap())
    }
    pub fn left(&self) -> usize { self.b.len() - self.p }
    pub fn dims(&mut self) -> P<(u32, u32)> { Ok((self.u32()?, self.u32()?)) }
    pub fn at_end(&self) -> P<()> { if self.left() == 0 { Ok(()) } else { Err(format!("{} bytes too many at the end", self.left())) } }
}

/* ------------------------------------------------------------ Huffman */

/// A trie as a flat preorder list: Some(symbol index) for a leaf, None for a branch
pub struct Trie { pub nodes: Vec<Option<usize>>, pub kids: Vec<[usize; 2]>, pub syms: Vec<Vec<u8>>, pub max_depth: usize }

pub fn read_trie(r: &mut Rd, mut sym: impl FnMut(&mut Rd) -> P<Vec<u8>>) -> P<Trie> {
    let mut t = Trie { nodes: vec![], kids: vec![], syms: vec![], max_depth: 0 };
    // Branches waiting for a child: (node, next child)
    let mut stack: Vec<(usize, usize)> = vec![];
    loop {
        let id = t.nodes.len();
        match r.u8()? {
            0 => { t.nodes.push(Some(t.syms.len())); t.kids.push([0; 2]); let s = sym(r)?; t.syms.push(s); }
            1 => { t.nodes.push(None); t.kids.push([0; 2]); }
            x => return Err(format!("node kind {x} in the trie")),
        }
        if let Some(top) = stack.last_mut() { t.kids[top.0][top.1] = id; top.1 += 1; }
        if t.nodes[id].is_none() { stack.push((id, 0)); }
        t.max_depth = t.max_depth.max(stack.len());
        while stack.last().map(|s| s.1 == 2).unwrap_or(false) { stack.pop(); }
        if stack.is_empty() { return Ok(t) }
    }
}

/// Decode n symbols; returns symbol indices and the number of code bits
pub fn read_codes(r: &mut Rd, t: &Trie, n: usize) -> P<(Vec<usize>, u64)> {
    let mut out = Vec::with_capacity(n);
    let mut bits = 0u64;
    let base = r.p;
    for _ in 0..n {
        let mut node = 0;
        while t.nodes[node].is_none() {
            let byte = base + (bits / 8) as usize;
            if byte >= r.b.len() { return Err(format!("codes end after {} of {n} symbols", out.len())) }
            let b = r.b[byte] >> (7 - bits % 8) & 1;
            node = t.kids[node][b as usize];
            bits += 1;
        }
        out.push(t.nodes[node].unwrap());
    }
    let used = ((bits + 7) / 8) as usize;
    if bits % 8 != 0 {
        let pad = r.b[base + used - 1] & ((1u16 << (8 - bits % 8)) - 1) as u8;
        if pad != 0 { return Err(format!("padding bits are not zero: {pad:#b}")) }
    }
    r.p += used;
    Ok((out, bits))
}

/// Minimum total number of bits of a prefix code for these frequencies (0 for one symbol)
pub fn optimal_bits(freqs: impl Iterator<Item = u64>) -> u64 {
    let mut h: BinaryHeap<Reverse<u64>> = freqs.map(Reverse).collect();
    let mut tot = 0;
    while h.len() > 1 {
        let s = h.pop().unwrap().0 + h.pop().unwrap().0;
        tot += s;
        h.push(Reverse(s));
    }
    tot
}

pub fn counts<T: Ord>(it: impl Iterator<Item = T>) -> BTreeMap<T, u64> {
    let mut m = BTreeMap::new();
    for x in it { *m.entry(x).or_insert(0) += 1 }
    m
}

pub fn hufman_size(px: &[[u8; 3]]) -> u64 {
    let c = counts(px.iter());
    let k = c.len() as u64;
    8 + 12 * k + (k - 1) + (optimal_bits(c.values().copied()) + 7) / 8
}

pub fn deltas(w: u32, h: u32, px: &[[u8; 3]]) -> Vec<[i16; 3]> {
    let mut last = [0i16; 3];
    hilbert_order(w, h).into_iter().map(|(x, y)| {
        let p = px[(y * w + x) as usize].map(|v| v as i16);
        let d = [p[0] - last[0], p[1] - last[1], p[2] - last[2]];
        last = p;
        d
    }).collect()
}

pub fn delta_size(w: u32, h: u32, px: &[[u8; 3]]) -> u64 {
    let c = counts(deltas(w, h, px).into_iter());
    let k = c.len() as u64;
    8 + 7 * k + (k - 1) + (optimal_bits(c.values().copied()) + 7) / 8
}

/* ------------------------------------------------------------ zip dict */

/// Expand symbol pairs. Every entry is a range of the output itself: the pair that created it.
pub fn dict_expand(b: &[u8]) -> P<Vec<u8>> {
    if b.len() % 4 != 0 { return Err(format!("{} bytes are not whole symbol pairs", b.len())) }
    let mut out: Vec<u8> = vec![];
    let mut entries: Vec<(usize, usize)> = vec![];
    let n = b.len() / 4;
    for (i, p) in b.chunks(4).enumerate() {
        let s = [u16::from_le_bytes([p[0], p[1]]), u16::from_le_bytes([p[2], p[3]])];
        let start = out.len();
        for (j, s) in s.into_iter().enumerate() {
            if s < 256 { out.push(s as u8) }
            else if s == 0xFFFF {
                if !(j == 1 && i == n - 1) { return Err(format!("end filler in pair {i} of {n}")) }
            }
            else {
                let Some(&(o, l)) = entries.get(s as usize - 256) else { return Err(format!("symbol {s:#x} is used in pair {i} before it is defined")) };
                out.extend_from_within(o..o + l);
            }
        }
        if entries.len() < 0xFFFF - 256 { entries.push((start, out.len() - start)) }
    }
    Ok(out)
}

/// Expanded size of an arbitrary (possibly damaged) symbol stream, saturating
pub fn dict_bomb_size(b: &[u8]) -> u64 {
    let mut sizes: Vec<u64> = vec![1; 256];
    let mut tot = 0u64;
    for p in b.chunks_exact(4) {
        let sz = |s: u16| if s == 0xFFFF { Some(0) } else { sizes.get(s as usize).copied() };
        let (Some(x), Some(y)) = (sz(u16::from_le_bytes([p[0], p[1]])), sz(u16::from_le_bytes([p[2], p[3]]))) else { break };
        let s = x.saturating_add(y);
        tot = tot.saturating_add(s);
        if sizes.len() < 0xFFFF { sizes.push(s) }
    }
    tot
}

/// A small stream of symbols that expands to 2^20 times 22 bytes or far more: some colours, then
/// dictionary entries that double in length. `whole` ones hold nothing but valid colours, the
/// others run out of step with the colours, so that they hold senseless lengths, too.
pub fn dict_bomb(in_stream: &[u8], raw_head: &[u8], whole: bool, r: &mut Rng) -> Vec<u8> {
    let mut d = raw_head.to_vec();
    let mut k = 256u32;
    for p in in_stream.chunks_exact(2) { d.extend([p[0], 0, p[1], 0]); k += 1 }
    let col = rgb_bytes([r.byte(), 2, 3]);
    let two = [col, col].concat();
    for _ in 0..r.us(30) { for p in two.chunks(2) { d.extend([p[0], 0, p[1], 0]); k += 1 } }
    let mut last = k;
    if whole {
        // Two colours as one entry, by joining ever longer parts of them: each round is two whole colours
        let mut parts: Vec<u32> = vec![];
        for p in two.chunks(2) { d.extend([p[0], 0, p[1], 0]); parts.push(k); k += 1 }
        while parts.len() > 1 {
            let mut next = vec![];
            for p in parts.chunks(2) {
                d.extend((p[0] as u16).to_le_bytes());
                d.extend(p.get(1).map_or(0xFFFF, |x| *x as u16).to_le_bytes());
                next.push(k);
                k += 1;
            }
            parts = next;
        }
        last = parts[0];
    } else {
        // An entry that grows byte by byte
        d.extend([two[0], 0, two[1], 0]);
        k += 1;
        for j in 2..3 + r.us(25) { d.extend((last as u16).to_le_bytes()); d.extend([two[j % 22], 0]); last = k; k += 1 }
    }
    for _ in 0..20 + r.us(45) { let s = (last as u16).to_le_bytes(); d.extend(s); d.extend(s); last = k; k += 1 }
    d
}

pub struct DictModel { pub pairs: u64, pub symbols: u64, pub longest: usize, pub out: Vec<u8> }

/// The documented greedy scheme
pub fn dict_greedy(data: &[u8]) -> DictModel {
    let mut next: HashMap<(u32, u8), u32> = HashMap::new();
    let mut val: Vec<Option<u16>> = vec![None];
    let mut code = 256u32;
    for b in 0..=255u8 { let id = val.len() as u32; val.push(Some(b as u16)); next.insert((0, b), id); }
    let mut p = 0;
    let mut m = DictModel { pairs: 0, symbols: 256, longest: 1, out: vec![] };
    let find = |next: &HashMap<(u32, u8), u32>, val: &Vec<Option<u16>>, p: usize| -> Option<(u16, usize)> {
        let mut node = 0;
        let mut best = None;
        let mut q = p;
        while q < data.len() {
            match next.get(&(node, data[q])) { Some(n) => node = *n, None => break }
            q += 1;
            if let Some(v) = val[node as usize] { best = Some((v, q - p)) }
        }
        best
    };
    while p < data.len() {
        let (s1, l1) = find(&next, &val, p).unwrap();
        m.out.extend(s1.to_le_bytes());
        m.pairs += 1;
        let start = p;
        p += l1;
        match find(&next, &val, p) {
            None => m.out.extend([0xFF, 0xFF]),
            Some((s2, l2)) => {
                m.out.extend(s2.to_le_bytes());
                p += l2;
                if code < 0xFFFF {
                    let mut node = 0;
                    for b in &data[start..p] {
                        node = match next.get(&(node, *b)) { Some(n) => *n, None => { let id = val.len() as u32; val.push(None); next.insert((node, *b), id); id } };
                    }
                    val[node as usize] = Some(code as u16);
                    code += 1;
                    m.longest = m.longest.max(l1 + l2);
                }
            }
        }
    }
    m.symbols = code as u64;
    m
}

/// A valid symbol stream for data that the greedy encoder would not choose
pub fn dict_random_parse(data: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    let mut by_seq: HashMap<Vec<u8>, Vec<u16>> = HashMap::new();
    for b in 0..=255u8 { by_seq.insert(vec![b], vec![b as u16]); }
    let mut maxl = 1;
    let mut code = 256u32;
    let mut p = 0;
    while p < data.len() {
        let start = p;
        for j in 0..2 {
            if p == data.len() { out.extend([0xFF, 0xFF]); continue }
            let cands: Vec<(usize, &Vec<u16>)> = (1..=maxl.min(data.len() - p)).filter_map(|l| by_seq.get(&data[p..p + l]).map(|c| (l, c))).collect();
            let (l, codes) = cands[r.us(cands.len())];
            // A sequence may have several codes here
            out.extend(codes[r.us(codes.len())].to_le_bytes());
            p += l;
            let _ = j;
        }
        if code < 0xFFFF {
            if p - start <= 64 { by_seq.entry(data[start..p].to_vec()).or_default().push(code as u16); maxl = maxl.max(p - start); }
            code += 1;
        }
    }
    out
}

/* ------------------------------------------------------------ zip back */

pub const WINDOW: usize = 65535;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BackSym { Explicit(usize), Look { len: usize, back: usize } }

pub fn back_expand(b: &[u8]) -> P<(Vec<u8>, Vec<BackSym>)> {
    let mut r = Rd::new(b);
    let mut out: Vec<u8> = vec![];
    let mut syms = vec![];
    while r.left() > 0 {
        let l = r.u16()?;
        let len = (l & 0x7FFF) as usize;
        if len == 0 { return Err(format!("empty symbol before byte {}", r.p)) }
        if l & 0x8000 == 0 { out.extend_from_slice(r.take(len)?); syms.push(BackSym::Explicit(len)) }
        else {
            let back = r.u16()? as usize;
            if back == 0 || back > out.len() { return Err(format!("looks back {back} bytes after {} bytes", out.len())) }
            if len > back { return Err(format!("copies {len} bytes from {back} bytes back: more than there is")) }
            let s = out.len() - back;
            out.extend_from_within(s..s + len);
            syms.push(BackSym::Look { len, back });
        }
    }
    Ok((out, syms))
}

/// A valid stream for data with arbitrary explicit lengths and arbitrary valid references
pub fn back_random_parse(data: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    let mut p = 0;
    while p < data.len() {
        let left = data.len() - p;
        // Try some look-backs, favouring the extremes of the window
        let mut found = None;
        for _ in 0..6 {
            let maxb = p.min(WINDOW);
            if maxb == 0 { break }
            let back = match r.below(4) { 0 => maxb, 1 => 1 + r.us(maxb.min(40)), 2 => (maxb - r.us(maxb.min(20))).max(1), _ => 1 + r.us(maxb) };
            let lim = back.min(left).min(32767);
            let l = (0..lim).take_while(|i| data[p - back + i] == data[p + i]).count();
            if l > 0 { found = Some((if r.chance(1, 3) { 1 + r.us(l) } else { l }, back)); if l > 3 { break } }
        }
        match found {
            Some((l, back)) if r.chance(3, 4) => { out.extend((l as u16 | 0x8000).to_le_bytes()); out.extend((back as u16).to_le_bytes()); p += l }
            _ => {
                let l = (match r.below(5) { 0 => 1, 1 => 32767, 2 => 1 + r.us(10), 3 => 1 + r.us(300), _ => 1 + r.us(3000) }).min(left);
                out.extend((l as u16).to_le_bytes()); out.extend_from_slice(&data[p..p + l]); p += l
            }
        }
    }
    out
}

/* ------------------------------------------------------------ pixel streams */

pub fn raster_stream(w: u32, h: u32, px: &[[u8; 3]]) -> Vec<u8> {
    let mut v = header(w, h);
    for p in px { v.extend(rgb_bytes(*p)) }
    v
}
pub fn hilbert_px(w: u32, h: u32, px: &[[u8; 3]]) -> Vec<[u8; 3]> { hilbert_order(w, h).into_iter().map(|(x, y)| px[(y * w + x) as usize]).collect() }
pub fn hilbert_stream(w: u32, h: u32, px: &[[u8; 3]]) -> Vec<u8> { hilbert_px(w, h, px).into_iter().flat_map(rgb_bytes).collect() }

pub struct Img { pub w: u32, pub h: u32, pub px: Vec<[u8; 3]> }

fn place(w: u32, h: u32, it: impl Iterator<Item = [u8; 3]>) -> Vec<[u8; 3]> {
    let mut px = vec![[0; 3]; w as usize * h as usize];
    for ((x, y), c) in hilbert_order(w, h).into_iter().zip(it) { px[(y * w + x) as usize] = c }
    px
}

fn parse_raster(b: &[u8]) -> P<Img> {
    let mut r = Rd::new(b);
    let (w, h) = r.dims()?;
    let px = (0..w as usize * h as usize).map(|_| r.rgb()).collect::<P<Vec<_>>>()?;
    r.at_end()?;
    Ok(Img { w, h, px })
}

pub fn parse_runs(b: &[u8]) -> P<(u32, u32, Vec<(u8, [u8; 3])>)> {
    let mut r = Rd::new(b);
    let (w, h) = r.dims()?;
    let mut runs = vec![];
    while r.left() > 0 {
        let n = r.u8()?;
        if n == 0 { return Err("a run of 0 pixels".into()) }
        runs.push((n, r.rgb()?));
    }
    let tot: u64 = runs.iter().map(|x| x.0 as u64).sum();
    if tot != w as u64 * h as u64 { return Err(format!("the runs cover {tot} pixels of {w}x{h}")) }
    Ok((w, h, runs))
}

pub fn parse_sites(b: &[u8]) -> P<(u32, u32, Vec<(u32, u32, [u8; 3])>)> {
    let mut r = Rd::new(b);
    let (w, h) = r.dims()?;
    let n = r.u64()?;
    if n > (b.len() as u64) { return Err(format!("{n} sites announced in {} bytes", b.len())) }
    let s = (0..n).map(|_| Ok((r.u32()?, r.u32()?, r.rgb()?))).collect::<P<Vec<_>>>()?;
    r.at_end()?;
    Ok((w, h, s))
}

pub struct HufInfo { pub distinct: usize, pub max_depth: usize, pub bits: u64 }

pub fn parse_hufman(b: &[u8]) -> P<(Img, HufInfo)> {
    let mut r = Rd::new(b);
    let (w, h) = r.dims()?;
    let t = read_trie(&mut r, |r| r.rgb().map(|c| c.to_vec()))?;
    let (ix, bits) = read_codes(&mut r, &t, w as usize * h as usize)?;
    r.at_end()?;
    let px = ix.into_iter().map(|i| [t.syms[i][0], t.syms[i][1], t.syms[i][2]]).collect();
    Ok((Img { w, h, px }, HufInfo { distinct: t.syms.len(), max_depth: t.max_depth, bits }))
}

pub fn parse_delta(b: &[u8]) -> P<(Img, HufInfo)> {
    let mut r = Rd::new(b);
    let (w, h) = r.dims()?;
    let t = read_trie(&mut r, |r| Ok(r.take(6)?.to_vec()))?;
    let (ix, bits) = read_codes(&mut r, &t, w as usize * h as usize)?;
    r.at_end()?;
    let mut last = [0i32; 3];
    let mut seq = Vec::with_capacity(ix.len());
    for i in ix {
        let s = &t.syms[i];
        for c in 0..3 { last[c] += i16::from_le_bytes([s[2 * c], s[2 * c + 1]]) as i32 }
        if last.iter().any(|v| !(0..256).contains(v)) { return Err(format!("colour {last:?} out of range")) }
        seq.push(last.map(|v| v as u8));
    }
    Ok((Img { w, h, px: place(w, h, seq.into_iter()) }, HufInfo { distinct: t.syms.len(), max_depth: t.max_depth, bits }))
}

/// Decode a stream of any deterministic format independently of cniic
pub fn parse(codec: &str, b: &[u8]) -> P<Img> {
    match codec {
        "hufman" => parse_hufman(b).map(|x| x.0),
        "delta" => parse_delta(b).map(|x| x.0),
        "zip(dict)" => parse_raster(&dict_expand(b)?),
        "zip(back)" => parse_raster(&back_expand(b)?.0),
        "hilbert(zip)" => {
            let mut r = Rd::new(b);
            let (w, h) = r.dims()?;
            let bytes = dict_expand(&b[8..])?;
            let mut q = Rd::new(&bytes);
            let v = (0..w as usize * h as usize).map(|_| q.rgb()).collect::<P<Vec<_>>>()?;
            q.at_end()?;
            Ok(Img { w, h, px: place(w, h, v.into_iter()) })
        }
        c if c.starts_with("hilbert(rle") => {
            let (w, h, runs) = parse_runs(b)?;
            Ok(Img { w, h, px: place(w, h, runs.iter().flat_map(|(n, c)| std::iter::repeat(*c).take(*n as usize))) })
        }
        c if c.starts_with("voronoi") => {
            let (w, h, s) = parse_sites(b)?;
            if s.is_empty() { return Err("no sites".into()) }
            let mut px = Vec::with_capacity(w as usize * h as usize);
            for y in 0..h { for x in 0..w { px.push(nearest(&s, x, y).0[0]) } }
            Ok(Img { w, h, px })
        }
        c => Err(format!("no model for {c}")),
    }
}

/// Colours of all the sites at minimum distance, and that squared distance
pub fn nearest(s: &[(u32, u32, [u8; 3])], x: u32, y: u32) -> (Vec<[u8; 3]>, u128) {
    let d = |s: &(u32, u32, [u8; 3])| { let (a, b) = ((s.0 as i64 - x as i64) as i128, (s.1 as i64 - y as i64) as i128); (a * a + b * b) as u128 };
    let m = s.iter().map(d).min().unwrap_or(0);
    (s.iter().filter(|q| d(q) == m).map(|q| q.2).collect(), m)
}

/// A Huffman stream with a random, not optimal, trie over the given symbols (plus unused ones)
pub fn huf_random<T: Clone + PartialEq>(seq: &[T], mut syms: Vec<T>, ser: impl Fn(&T) -> Vec<u8>, r: &mut Rng, degenerate: bool) -> Vec<u8> {
    r.shuffle(&mut syms);
    // Random binary tree by splitting
    enum N { L(usize), B(Box<N>, Box<N>) }
    fn build(lo: usize, hi: usize, r: &mut Rng, deg: bool, depth: usize) -> N {
        if hi - lo == 1 { return N::L(lo) }
        let m = if deg && depth < 90 { lo + 1 } else if hi - lo > 24 { (lo + hi) / 2 } else { lo + 1 + r.us(hi - lo - 1) };
        N::B(Box::new(build(lo, m, r, deg, depth + 1)), Box::new(build(m, hi, r, deg, depth + 1)))
    }
    let t = build(0, syms.len(), r, degenerate, 0);
    let mut out = vec![];
    let mut codes: Vec<Vec<u8>> = vec![vec![]; syms.len()];
    fn walk(n: &N, path: &mut Vec<u8>, out: &mut Vec<u8>, codes: &mut Vec<Vec<u8>>, ser: &dyn Fn(usize) -> Vec<u8>) {
        match n {
            N::L(i) => { out.push(0); out.extend(ser(*i)); codes[*i] = path.clone() }
            N::B(a, b) => { out.push(1); path.push(0); walk(a, path, out, codes, ser); path.pop(); path.push(1); walk(b, path, out, codes, ser); path.pop(); }
        }
    }
    walk(&t, &mut vec![], &mut out, &mut codes, &|i| ser(&syms[i]));
    let mut bits = vec![];
    for s in seq {
        // Equal symbols may appear several times in the trie: use any of them
        let ix: Vec<usize> = syms.iter().enumerate().filter(|x| x.1 == s).map(|x| x.0).collect();
        bits.extend_from_slice(&codes[ix[r.us(ix.len())]]);
    }
    for c in bits.chunks(8) { let mut v = 0u8; for (i, b) in c.iter().enumerate() { v |= b << (7 - i) } out.push(v) }
    out
}

/* ------------------------------------------------------------ prefixes */

/// Is b a prefix of a valid Huffman-coded stream? `seq` are the serialized symbols to come
/// (or, if `classes`, only which of them are equal is known), all of the same length.
pub fn huf_prefix(b: &[u8], w: u32, h: u32, seq: &[Vec<u8>], classes: bool, max_syms: usize) -> P<()> {
    let head = header(w, h);
    let k = b.len().min(8);
    if b[..k] != head[..k] { return Err("the dimensions differ".into()) }
    if b.len() <= 8 { return Ok(()) }
    let slen = seq[0].len();
    let known: std::collections::HashSet<&[u8]> = seq.iter().map(|s| &s[..]).collect();
    // The trie, as far as it goes
    let mut p = 8;
    let mut open = 1i64;
    let mut syms: Vec<&[u8]> = vec![];
    while open > 0 {
        if p == b.len() { return Ok(()) }
        match b[p] {
            1 => { open += 1; p += 1 }
            0 => {
                open -= 1; p += 1;
                let end = (p + slen).min(b.len());
                let s = &b[p..end];
                if s.len() < slen {
                    if !classes && !known.iter().any(|k| k.starts_with(s)) { return Err(format!("unknown partial symbol {s:?} at byte {p}")) }
                    return Ok(())
                }
                if !classes && !known.contains(s) { return Err(format!("unknown symbol {s:?} at byte {p}")) }
                if syms.contains(&s) && !classes { return Err(format!("symbol {s:?} twice")) }
                syms.push(s);
                p = end;
            }
            x => return Err(format!("node kind {x} at byte {p}")),
        }
        if open as usize + syms.len() > max_syms { return Err(format!("more than {max_syms} symbols in the trie")) }
    }
    let mut r = Rd::new(b);
    r.p = 8;
    let t = read_trie(&mut r, |r| Ok(r.take(slen)?.to_vec()))?;
    if !classes && syms.len() != known.len() { return Err(format!("{} symbols in the trie for {} distinct ones", syms.len(), known.len())) }
    let base = r.p;
    let mut bit = 0usize;
    let mut class: HashMap<&[u8], usize> = HashMap::new();
    for (i, s) in seq.iter().enumerate() {
        let mut node = 0;
        while t.nodes[node].is_none() {
            let at = base + bit / 8;
            if at >= b.len() { return Ok(()) }
            node = t.kids[node][(b[at] >> (7 - bit % 8) & 1) as usize];
            bit += 1;
        }
        let sym = t.nodes[node].unwrap();
        if classes { if *class.entry(&s[..]).or_insert(sym) != sym { return Err(format!("symbol {i} differs from an earlier one of the same original colour")) } }
        else if t.syms[sym] != *s { return Err(format!("code {i} stands for {:?} instead of {s:?}", t.syms[sym])) }
    }
    if bit % 8 != 0 && b[base + bit / 8] & ((1u16 << (8 - bit % 8)) - 1) as u8 != 0 { return Err("padding is not zero".into()) }
    let end = base + (bit + 7) / 8;
    if b.len() > end { return Err(format!("{} bytes too many", b.len() - end)) }
    Ok(())
}

/// Is b a prefix of a list of n sites inside the image?
pub fn sites_prefix(b: &[u8], w: u32, h: u32, n: u64) -> P<()> {
    let mut head = header(w, h);
    head.extend(n.to_le_bytes());
    let k = b.len().min(16);
    if b[..k] != head[..k] { return Err("the header differs".into()) }
    if b.len() <= 16 { return Ok(()) }
    if b.len() as u64 > 16 + 19 * n { return Err("too many bytes".into()) }
    for s in b[16..].chunks(19) {
        let mut q = Rd::new(s);
        if s.len() >= 4 && q.u32()? >= w { return Err("site outside".into()) }
        if s.len() >= 8 && q.u32()? >= h { return Err("site outside".into()) }
        let l = &s[s.len().min(8)..s.len().min(16)];
        if l != &3u64.to_le_bytes()[..l.len()] { return Err("channel count".into()) }
    }
    Ok(())
}
