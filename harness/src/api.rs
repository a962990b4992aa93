//! The boundary to the code under test: only its public API is used.

use crate::refqr::{Level, Matrix};
use crate::rng::hash_bytes;
use crate::run::Case;
pub use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
pub use bardecoder::detect::{Detect, LineScan, Location};
pub use bardecoder::extract::{Extract, QRExtractor};
pub use bardecoder::prepare::{BlockedMean, Prepare};
pub use bardecoder::util::qr::{QRData, QRError, QRInfo, QRLocation};
pub use bardecoder::util::{Chomp, Delta, Point};
pub use bardecoder::{Decoder, DecoderBuilder, ECLevel};
pub use image::{DynamicImage, GrayImage, Luma, Rgba, RgbaImage};

pub fn qrdata(m: &Matrix, version: u32) -> QRData {
    QRData::new(m.m.iter().map(|&b| if b == 1 { 0 } else { 255 }).collect(), version)
}
pub fn decode(m: &Matrix, version: u32) -> Result<String, QRError> {
    QRDecoder::new().decode(Ok(qrdata(m, version)))
}
pub fn decode_info(m: &Matrix, version: u32) -> Result<(String, QRInfo), QRError> {
    QRDecoderWithInfo::new().decode(Ok(qrdata(m, version)))
}
pub fn level_of(l: &ECLevel) -> Level {
    match l {
        ECLevel::LOW => Level::L,
        ECLevel::MEDIUM => Level::M,
        ECLevel::QUARTILE => Level::Q,
        ECLevel::HIGH => Level::H,
    }
}
pub fn fp_matrix(m: &Matrix) -> u64 {
    hash_bytes(&m.m)
}
pub fn fp_image(g: &GrayImage) -> u64 {
    hash_bytes(g) ^ crate::rng::mix(u64::from(g.width()) << 32 | u64::from(g.height()))
}
pub fn fp_rgba(g: &RgbaImage) -> u64 {
    hash_bytes(g) ^ crate::rng::mix(u64::from(g.width()) << 32 | u64::from(g.height()))
}
pub fn pbm(m: &Matrix) -> Vec<u8> {
    let mut s = format!("P1\n{} {}\n", m.side, m.side);
    for r in m.m.chunks(m.side) {
        for b in r {
            s.push(if *b == 1 { '1' } else { '0' });
        }
        s.push('\n');
    }
    s.into_bytes()
}
pub fn png(img: &DynamicImage) -> Vec<u8> {
    let mut b = std::io::Cursor::new(vec![]);
    let _ = img.write_to(&mut b, image::ImageOutputFormat::Png);
    b.into_inner()
}
pub fn keep_matrix(c: &mut Case, m: &Matrix) {
    c.artefact("pbm", pbm(m));
}
pub fn keep_image(c: &mut Case, g: &RgbaImage) {
    c.artefact("png", png(&DynamicImage::ImageRgba8(g.clone())));
}
pub fn short(s: &str) -> String {
    if s.chars().count() > 60 {
        format!("{:?}.. ({} chars)", s.chars().take(60).collect::<String>(), s.chars().count())
    } else {
        format!("{:?}", s)
    }
}
pub fn show<T: std::fmt::Debug>(r: &Result<T, QRError>) -> String {
    match r {
        Ok(t) => short(&format!("Ok({:?})", t)),
        Err(e) => format!("Err({})", short(&e.msg)),
    }
}
