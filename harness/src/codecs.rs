//! The codec interface as used by the monitors
use crate::run::{guard, Viol};
use cniic::verif::codec::{AnyCodec, Codec};
use image::{DynamicImage, GenericImageView, Pixel};
use std::io;
use std::str::FromStr;

pub const LOSSLESS: [&str; 6] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)"];

pub fn codec(s: &str) -> Result<AnyCodec, Viol> {
    guard(&format!("parsing {s:?}"), || AnyCodec::from_str(s))?
        .map_err(|e| Viol::new("codec-rejected", format!("the codec argument {s:?} was rejected: {e:?}")))
}

pub fn encode(c: &AnyCodec, img: &DynamicImage) -> Result<Vec<u8>, Viol> {
    let mut v = Vec::new();
    match guard(&format!("{} encode", c.name()), || c.encode(img, &mut v))? {
        Ok(()) => Ok(v),
        Err(e) => Err(Viol::new("encode-err", format!("{}: encode into memory failed: {e:?}", c.name()))),
    }
}

pub fn encode_to<W: io::Write>(c: &AnyCodec, img: &DynamicImage, w: &mut W) -> Result<io::Result<()>, Viol> {
    guard(&format!("{} encode", c.name()), || c.encode(img, w))
}

/// An iterator over bytes that notices how the decoder uses it: it is a logical clock,
/// the decoder may ask for each byte once, and only so often after the end.
pub struct Meter<'a> { pub data: &'a [u8], pub pos: usize, pub after_end: u64, pub limit: u64 }
impl<'a> Meter<'a> {
    pub fn new(data: &'a [u8]) -> Self { Meter { data, pos: 0, after_end: 0, limit: 50_000_000 } }
}
impl<'a> Iterator for Meter<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.pos < self.data.len() { self.pos += 1; Some(self.data[self.pos - 1]) }
        else {
            self.after_end += 1;
            if self.after_end > self.limit { std::panic::panic_any(EndlessRead) }
            None
        }
    }
}
pub struct EndlessRead;

pub fn decode(c: &AnyCodec, data: &[u8]) -> Result<Option<DynamicImage>, Viol> {
    let mut m = Meter::new(data);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.decode(&mut m)));
    match r {
        Ok(r) => Ok(r),
        Err(e) if e.is::<EndlessRead>() => Err(Viol::new("endless-read", format!("{}: the decoder asked {} times for more bytes after the end of the stream", c.name(), m.after_end))),
        Err(_) => Err(crate::run::panic_viol(&format!("{} decode", c.name()))),
    }
}

/// The colours of an image as the codecs see them: row-major 8-bit RGB, without alpha
pub fn rgb_of(img: &DynamicImage) -> Vec<[u8; 3]> {
    match img {
        DynamicImage::ImageRgb8(b) => b.pixels().map(|p| p.0).collect(),
        _ => {
            let (w, h) = img.dimensions();
            let mut v = Vec::with_capacity((w * h) as usize);
            for y in 0..h { for x in 0..w { v.push(img.get_pixel(x, y).to_rgb().0) } }
            v
        }
    }
}

pub struct Flat { pub w: u32, pub h: u32, pub px: Vec<[u8; 3]> }
pub fn flat(img: &DynamicImage) -> Flat { let (w, h) = img.dimensions(); Flat { w, h, px: rgb_of(img) } }

/// None if equal, otherwise a description of the first difference
pub fn diff(a: &Flat, b: &Flat) -> Option<String> {
    if (a.w, a.h) != (b.w, b.h) { return Some(format!("dimensions {}x{} became {}x{}", a.w, a.h, b.w, b.h)) }
    let n = a.px.iter().zip(&b.px).filter(|(x, y)| x != y).count();
    if n == 0 { return None }
    let i = a.px.iter().zip(&b.px).position(|(x, y)| x != y).unwrap();
    Some(format!("{} of {} pixels differ, first at ({}, {}): {:?} became {:?}", n, a.px.len(), i as u32 % a.w, i as u32 / a.w, a.px[i], b.px[i]))
}

/// One lossless round trip over a random image: what remains of a check when the functions it
/// drives cannot be reached
pub fn fallback(case: &str, obs: &mut crate::Obs) -> crate::R {
    let mut r = crate::Rng::new(crate::rng::hash_bytes(case.as_bytes()));
    for c in LOSSLESS {
        let (w, h) = (r.range(1, 60) as u32, r.range(1, 60) as u32);
        let s = crate::imgs::Spec::random(&mut r, w, h);
        let img = s.build();
        let cd = codec(c)?;
        let b = encode(&cd, &img)?;
        let Some(d) = decode(&cd, &b)? else { crate::viol!(format!("none:{c}"), "{c} could not decode its own stream of {}", s.text()) };
        if let Some(d) = diff(&flat(&img), &flat(&d)) { crate::viol!(format!("differs:{c}"), "{c} on {}: {d}", s.text()) }
        obs.eval(true, s.text().as_bytes());
        obs.count("fallback_images", 1);
    }
    obs.sample(format!("fallback for {case}"));
    Ok(())
}
