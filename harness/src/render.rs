//! Rendering of module matrices into pictures (the workload side of the image-level monitors).

use crate::refqr::Matrix;
use crate::rng::Rng;
use image::{GrayImage, Luma, Rgba, RgbaImage};

/// Projective map from module coordinates to pixel coordinates.
#[derive(Clone, Copy, Debug)]
pub struct Homo(pub [f64; 9]);

impl Homo {
    pub fn affine(a: f64, b: f64, c: f64, d: f64, tx: f64, ty: f64) -> Homo {
        Homo([a, b, tx, c, d, ty, 0.0, 0.0, 1.0])
    }
    pub fn map(&self, x: f64, y: f64) -> (f64, f64) {
        let h = &self.0;
        let w = h[6] * x + h[7] * y + h[8];
        ((h[0] * x + h[1] * y + h[2]) / w, (h[3] * x + h[4] * y + h[5]) / w)
    }
    pub fn inverse(&self) -> Homo {
        let h = &self.0;
        let c = |i: usize, j: usize, k: usize, l: usize| h[i] * h[l] - h[j] * h[k];
        Homo([
            c(4, 5, 7, 8),
            -c(1, 2, 7, 8),
            c(1, 2, 4, 5),
            -c(3, 5, 6, 8),
            c(0, 2, 6, 8),
            -c(0, 2, 3, 5),
            c(3, 4, 6, 7),
            -c(0, 1, 6, 7),
            c(0, 1, 3, 4),
        ])
    }
    /// Similarity: module size `s`, rotation `deg`, module (0,0) corner of the symbol at (tx,ty).
    pub fn similar(s: f64, deg: f64, tx: f64, ty: f64) -> Homo {
        let (sin, cos) = deg.to_radians().sin_cos();
        Homo::affine(s * cos, -s * sin, s * sin, s * cos, tx, ty)
    }
    /// Map the square (0,0)-(n,n) onto four corners (tl, tr, br, bl).
    pub fn square(n: f64, q: [(f64, f64); 4]) -> Homo {
        let [(x0, y0), (x1, y1), (x2, y2), (x3, y3)] = q;
        let dx1 = x1 - x2;
        let dx2 = x3 - x2;
        let sx = x0 - x1 + x2 - x3;
        let dy1 = y1 - y2;
        let dy2 = y3 - y2;
        let sy = y0 - y1 + y2 - y3;
        let den = dx1 * dy2 - dx2 * dy1;
        let g = (sx * dy2 - dx2 * sy) / den;
        let h = (dx1 * sy - sx * dy1) / den;
        let a = x1 - x0 + g * x1;
        let b = x3 - x0 + h * x3;
        let d = y1 - y0 + g * y1;
        let e = y3 - y0 + h * y3;
        Homo([a / n, b / n, x0, d / n, e / n, y0, g / n, h / n, 1.0])
    }
}

/// Canvas of darkness values 0.0 (white) .. 1.0 (dark).
pub struct Canvas {
    pub w: u32,
    pub h: u32,
    pub d: Vec<f32>,
}

impl Canvas {
    pub fn new(w: u32, h: u32) -> Canvas {
        Canvas { w, h, d: vec![0.0; (w * h) as usize] }
    }
    /// Draw a symbol, `ss` x `ss` samples per pixel.
    pub fn draw(&mut self, m: &Matrix, hm: &Homo, ss: u32) {
        let n = m.side as f64;
        let (mut x0, mut y0, mut x1, mut y1) = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
        for (a, b) in [(0.0, 0.0), (n, 0.0), (0.0, n), (n, n)] {
            let (x, y) = hm.map(a, b);
            x0 = x0.min(x);
            x1 = x1.max(x);
            y0 = y0.min(y);
            y1 = y1.max(y);
        }
        let inv = hm.inverse();
        let xs = (x0.floor().max(0.0)) as u32;
        let xe = (x1.ceil().max(0.0) as u32).min(self.w);
        let ys = (y0.floor().max(0.0)) as u32;
        let ye = (y1.ceil().max(0.0) as u32).min(self.h);
        for y in ys..ye {
            for x in xs..xe {
                let mut dark = 0u32;
                for i in 0..ss {
                    for j in 0..ss {
                        let px = f64::from(x) + (f64::from(i) + 0.5) / f64::from(ss);
                        let py = f64::from(y) + (f64::from(j) + 0.5) / f64::from(ss);
                        let (u, v) = inv.map(px, py);
                        if u >= 0.0 && v >= 0.0 && u < n && v < n {
                            dark += u32::from(m.get(u as usize, v as usize));
                        }
                    }
                }
                if dark > 0 {
                    self.d[(y * self.w + x) as usize] = dark as f32 / (ss * ss) as f32;
                }
            }
        }
    }
    pub fn blur(&mut self) {
        let (w, h) = (self.w as i64, self.h as i64);
        let s = self.d.clone();
        for y in 0..h {
            for x in 0..w {
                let mut t = 0.0;
                let mut k = 0.0;
                for dy in -1..=1i64 {
                    for dx in -1..=1i64 {
                        let (a, b) = (x + dx, y + dy);
                        if a >= 0 && b >= 0 && a < w && b < h {
                            let c = if dx == 0 && dy == 0 { 4.0 } else if dx == 0 || dy == 0 { 2.0 } else { 1.0 };
                            t += c * s[(b * w + a) as usize];
                            k += c;
                        }
                    }
                }
                self.d[(y * w + x) as usize] = t / k;
            }
        }
    }
    /// Darkness to luma with a function of (x, y, darkness).
    pub fn luma(&self, mut f: impl FnMut(u32, u32, f32) -> f64) -> GrayImage {
        GrayImage::from_fn(self.w, self.h, |x, y| {
            Luma([f(x, y, self.d[(y * self.w + x) as usize]).round().clamp(0.0, 255.0) as u8])
        })
    }
    pub fn black_white(&self) -> GrayImage {
        self.luma(|_, _, d| 255.0 * f64::from(1.0 - d))
    }
}

pub fn rgba(g: &GrayImage) -> RgbaImage {
    RgbaImage::from_fn(g.width(), g.height(), |x, y| {
        let v = g.get_pixel(x, y)[0];
        Rgba([v, v, v, 255])
    })
}

/// Axis-aligned rendering: `s` pixels per module, quiet zone and extra margins in pixels.
pub fn plain(m: &Matrix, s: u32, left: u32, top: u32, right: u32, bottom: u32) -> GrayImage {
    let n = m.side as u32 * s;
    GrayImage::from_fn(left + n + right, top + n + bottom, |x, y| {
        let inside = x >= left && y >= top && x < left + n && y < top + n;
        Luma([if inside && m.get(((x - left) / s) as usize, ((y - top) / s) as usize) == 1 { 0 } else { 255 }])
    })
}

pub fn rot90(g: &GrayImage, k: usize) -> GrayImage {
    match k % 4 {
        0 => g.clone(),
        1 => image::imageops::rotate90(g),
        2 => image::imageops::rotate180(g),
        _ => image::imageops::rotate270(g),
    }
}

pub fn gauss(r: &mut Rng) -> f64 {
    (0..12).map(|_| r.f()).sum::<f64>() - 6.0
}
