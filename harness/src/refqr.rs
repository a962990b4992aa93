//! Reference model of ISO/IEC 18004 QR symbols, written independently of the code under test:
//! an encoder (text -> module matrix) and a bounded-distance decoder (module matrix -> verdict).
//! It is the oracle of the symbol-level monitors.

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Level {
    L,
    M,
    Q,
    H,
}
pub const LEVELS: [Level; 4] = [Level::L, Level::M, Level::Q, Level::H];

impl Level {
    pub fn idx(self) -> usize {
        self as usize
    }
    /// Two-bit indicator in the format information.
    pub fn bits(self) -> u16 {
        [1, 0, 3, 2][self as usize]
    }
    pub fn from_bits(b: u16) -> Level {
        [Level::M, Level::L, Level::H, Level::Q][b as usize]
    }
}

const ECC: [[u8; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];
const NBLOCKS: [[u8; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

pub fn side(version: u32) -> usize {
    17 + 4 * version as usize
}

fn raw_modules(version: u32) -> usize {
    let v = version as usize;
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let n = v / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r
}

/// Shape of one error correction block.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Block {
    pub total: usize,
    pub data: usize,
    /// Codewords that can be corrected.
    pub t: usize,
}

pub fn layout(version: u32, level: Level) -> Vec<Block> {
    let i = version as usize - 1;
    let ecc = ECC[level.idx()][i] as usize;
    let n = NBLOCKS[level.idx()][i] as usize;
    let raw = raw_modules(version) / 8;
    let short = raw / n;
    let nlong = raw % n;
    // Codewords the standard reserves against misdecoding.
    let p = match (version, level) {
        (1, Level::L) => 3,
        (1, Level::M) => 2,
        (2, Level::L) => 2,
        (1, Level::Q) | (1, Level::H) | (3, Level::L) => 1,
        _ => 0,
    };
    (0..n)
        .map(|b| {
            let total = short + usize::from(b >= n - nlong);
            Block { total, data: total - ecc, t: (ecc - p) / 2 }
        })
        .collect()
}

pub fn data_codewords(version: u32, level: Level) -> usize {
    layout(version, level).iter().map(|b| b.data).sum()
}

// ---------------------------------------------------------------- GF(256)

pub fn gmul(a: u8, b: u8) -> u8 {
    let t = tables();
    if a == 0 || b == 0 {
        0
    } else {
        t.exp[t.log[a as usize] as usize + t.log[b as usize] as usize]
    }
}
pub fn ginv(a: u8) -> u8 {
    assert!(a != 0);
    let t = tables();
    t.exp[255 - t.log[a as usize] as usize]
}
pub fn alpha(i: usize) -> u8 {
    tables().exp[i % 255]
}
struct Tables {
    exp: [u8; 512],
    log: [u8; 256],
}
fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables { exp: [0; 512], log: [0; 256] };
        let mut x: u16 = 1;
        for i in 0..255 {
            t.exp[i] = x as u8;
            t.exp[i + 255] = x as u8;
            t.log[x as usize] = i as u8;
            x <<= 1;
            if x & 0x100 != 0 {
                x ^= 0x11D;
            }
        }
        t
    })
}

/// Error correction codewords for `data`.
pub fn rs_ecc(data: &[u8], n: usize) -> Vec<u8> {
    // generator polynomial, highest degree coefficient (1) left out
    let mut g = vec![0u8; n];
    g[n - 1] = 1;
    let mut root = 1u8;
    for _ in 0..n {
        for j in 0..n {
            g[j] = gmul(g[j], root);
            if j + 1 < n {
                g[j] ^= g[j + 1];
            }
        }
        root = gmul(root, 2);
    }
    let mut r = vec![0u8; n];
    for &d in data {
        let f = d ^ r[0];
        r.rotate_left(1);
        r[n - 1] = 0;
        for j in 0..n {
            r[j] ^= gmul(g[j], f);
        }
    }
    r
}

pub fn syndromes(cw: &[u8], n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let a = alpha(i);
            cw.iter().fold(0u8, |s, &c| gmul(s, a) ^ c)
        })
        .collect()
}

/// The unique codeword within `t` codeword errors of `cw`, if there is one (Berlekamp-Massey,
/// Chien search, Gaussian elimination for the magnitudes, and a final check of every syndrome).
pub fn rs_decode(cw: &[u8], ecc: usize, t: usize) -> Option<Vec<u8>> {
    let s = syndromes(cw, ecc);
    if s.iter().all(|&x| x == 0) {
        return Some(cw.to_vec());
    }
    // Berlekamp-Massey over all the syndromes
    let mut c = vec![1u8];
    let mut b = vec![1u8];
    let (mut l, mut m, mut bb) = (0usize, 1usize, 1u8);
    for n in 0..ecc {
        let mut d = s[n];
        for i in 1..=l {
            if i < c.len() {
                d ^= gmul(c[i], s[n - i]);
            }
        }
        if d == 0 {
            m += 1;
            continue;
        }
        let f = gmul(d, ginv(bb));
        let old = c.clone();
        if c.len() < b.len() + m {
            c.resize(b.len() + m, 0);
        }
        for i in 0..b.len() {
            c[i + m] ^= gmul(f, b[i]);
        }
        if 2 * l <= n {
            l = n + 1 - l;
            b = old;
            bb = d;
            m = 1;
        } else {
            m += 1;
        }
    }
    if l > t {
        return None;
    }
    let len = cw.len();
    let mut pos = vec![];
    for i in 0..len {
        let xi = alpha(255 - (i % 255)); // inverse of alpha^i
        let mut v = 0u8;
        for k in (0..c.len()).rev() {
            v = gmul(v, xi) ^ c[k];
        }
        if v == 0 {
            pos.push(i);
        }
    }
    if pos.len() != l {
        return None;
    }
    // magnitudes: sum_j e_j alpha^(i*pos_j) = s_i for i < l
    let mut a: Vec<Vec<u8>> = (0..l)
        .map(|i| {
            let mut r: Vec<u8> = pos.iter().map(|&p| alpha(i * p)).collect();
            r.push(s[i]);
            r
        })
        .collect();
    for i in 0..l {
        let p = (i..l).find(|&r| a[r][i] != 0)?;
        a.swap(i, p);
        let inv = ginv(a[i][i]);
        for k in 0..=l {
            a[i][k] = gmul(a[i][k], inv);
        }
        for r in 0..l {
            if r != i && a[r][i] != 0 {
                let f = a[r][i];
                for k in 0..=l {
                    let x = gmul(f, a[i][k]);
                    a[r][k] ^= x;
                }
            }
        }
    }
    let mut out = cw.to_vec();
    for i in 0..l {
        out[len - 1 - pos[i]] ^= a[i][l];
    }
    if syndromes(&out, ecc).iter().all(|&x| x == 0) {
        Some(out)
    } else {
        None
    }
}

// ---------------------------------------------------------------- payload

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

#[derive(Clone, Debug)]
pub enum Seg {
    Num(String),
    Alnum(String),
    Byte(Vec<u8>),
}

#[derive(Clone, Default)]
pub struct Bits(pub Vec<u8>);
impl Bits {
    pub fn push(&mut self, v: u32, n: usize) {
        for i in (0..n).rev() {
            self.0.push(((v >> i) & 1) as u8);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0
            .chunks(8)
            .map(|c| {
                let mut b = 0;
                for i in 0..8 {
                    b = b << 1 | c.get(i).copied().unwrap_or(0);
                }
                b
            })
            .collect()
    }
}

pub fn count_bits(mode: u32, version: u32) -> usize {
    let k = match version {
        1..=9 => 0,
        10..=26 => 1,
        _ => 2,
    };
    match mode {
        1 => [10, 12, 14][k],
        2 => [9, 11, 13][k],
        4 => [8, 16, 16][k],
        8 => [8, 10, 12][k],
        _ => unreachable!(),
    }
}

impl Seg {
    pub fn mode(&self) -> u32 {
        match self {
            Seg::Num(_) => 1,
            Seg::Alnum(_) => 2,
            Seg::Byte(_) => 4,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Seg::Num(s) | Seg::Alnum(s) => s.len(),
            Seg::Byte(b) => b.len(),
        }
    }
    pub fn payload_bits(&self) -> usize {
        let n = self.count();
        match self {
            Seg::Num(_) => n / 3 * 10 + [0, 4, 7][n % 3],
            Seg::Alnum(_) => n / 2 * 11 + n % 2 * 6,
            Seg::Byte(_) => n * 8,
        }
    }
    pub fn bits(&self, version: u32) -> usize {
        4 + count_bits(self.mode(), version) + self.payload_bits()
    }
    pub fn write(&self, version: u32, b: &mut Bits) {
        b.push(self.mode(), 4);
        b.push(self.count() as u32, count_bits(self.mode(), version));
        match self {
            Seg::Num(s) => {
                for c in s.as_bytes().chunks(3) {
                    let v = c.iter().fold(0, |a, x| a * 10 + u32::from(x - b'0'));
                    b.push(v, [0, 4, 7, 10][c.len()]);
                }
            }
            Seg::Alnum(s) => {
                let ix = |c: u8| ALNUM.iter().position(|x| *x == c).unwrap() as u32;
                for c in s.as_bytes().chunks(2) {
                    if c.len() == 2 {
                        b.push(ix(c[0]) * 45 + ix(c[1]), 11);
                    } else {
                        b.push(ix(c[0]), 6);
                    }
                }
            }
            Seg::Byte(v) => {
                for x in v {
                    b.push(u32::from(*x), 8);
                }
            }
        }
    }
    /// The text a reader must give for this segment; None if it must be refused.
    pub fn text(&self) -> Option<String> {
        match self {
            Seg::Num(s) | Seg::Alnum(s) => Some(s.clone()),
            Seg::Byte(b) => byte_text(b),
        }
    }
}

pub fn byte_text(b: &[u8]) -> Option<String> {
    if b.contains(&0xC3) {
        std::str::from_utf8(b).ok().map(String::from)
    } else {
        Some(b.iter().map(|&x| x as char).collect())
    }
}

pub fn segs_text(segs: &[Seg]) -> Option<String> {
    let mut s = String::new();
    for g in segs {
        s.push_str(&g.text()?);
    }
    Some(s)
}

/// Terminate and pad a bit stream to the data capacity of the symbol.
pub fn pad(mut b: Bits, version: u32, level: Level) -> Vec<u8> {
    let cap = data_codewords(version, level) * 8;
    assert!(b.0.len() <= cap);
    let term = 4.min(cap - b.0.len());
    b.push(0, term);
    while b.0.len() % 8 != 0 {
        b.0.push(0);
    }
    let mut v = b.bytes();
    let mut p = 0xEC;
    while v.len() < cap / 8 {
        v.push(p);
        p ^= 0xEC ^ 0x11;
    }
    v
}

pub fn data_for(segs: &[Seg], version: u32, level: Level) -> Vec<u8> {
    let mut b = Bits::default();
    for s in segs {
        s.write(version, &mut b);
    }
    pad(b, version, level)
}

struct Reader<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> Reader<'a> {
    fn left(&self) -> usize {
        self.d.len() * 8 - self.p
    }
    fn take(&mut self, n: usize) -> Option<u32> {
        if n > self.left() {
            return None;
        }
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | u32::from(self.d[self.p / 8] >> (7 - self.p % 8) & 1);
            self.p += 1;
        }
        Some(v)
    }
}

/// What a reader must make of the data codewords: the text, or a refusal (with the reason).
pub fn parse(data: &[u8], version: u32) -> Result<String, &'static str> {
    let mut r = Reader { d: data, p: 0 };
    let mut out = String::new();
    while let Some(mode) = r.take(4) {
        match mode {
            0 => break,
            1 => {
                let mut n = r.take(count_bits(1, version)).ok_or("num-count")?;
                while n > 0 {
                    let k = n.min(3) as usize;
                    let v = r.take([0, 4, 7, 10][k]).ok_or("num-trunc")?;
                    if v >= [1, 10, 100, 1000][k] {
                        return Err("num-range");
                    }
                    out.push_str(&format!("{:0w$}", v, w = k));
                    n -= k as u32;
                }
            }
            2 => {
                let mut n = r.take(count_bits(2, version)).ok_or("alnum-count")?;
                while n > 0 {
                    if n >= 2 {
                        let v = r.take(11).ok_or("alnum-trunc")?;
                        if v >= 2025 {
                            return Err("alnum-range");
                        }
                        out.push(ALNUM[v as usize / 45] as char);
                        out.push(ALNUM[v as usize % 45] as char);
                        n -= 2;
                    } else {
                        let v = r.take(6).ok_or("alnum-trunc")?;
                        if v >= 45 {
                            return Err("alnum-range");
                        }
                        out.push(ALNUM[v as usize] as char);
                        n -= 1;
                    }
                }
            }
            4 => {
                let n = r.take(count_bits(4, version)).ok_or("byte-count")?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(r.take(8).ok_or("byte-trunc")? as u8);
                }
                out.push_str(&byte_text(&v).ok_or("byte-utf8")?);
            }
            _ => return Err("mode"),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- matrix

/// Module matrix, row major, 1 = dark.
#[derive(Clone, PartialEq, Eq)]
pub struct Matrix {
    pub side: usize,
    pub m: Vec<u8>,
}
impl Matrix {
    pub fn new(side: usize) -> Matrix {
        Matrix { side, m: vec![0; side * side] }
    }
    pub fn get(&self, x: usize, y: usize) -> u8 {
        self.m[y * self.side + x]
    }
    pub fn set(&mut self, x: usize, y: usize, v: u8) {
        self.m[y * self.side + x] = v;
    }
    pub fn flip(&mut self, x: usize, y: usize) {
        self.m[y * self.side + x] ^= 1;
    }
}

pub fn alignment_centers(version: u32) -> Vec<usize> {
    if version == 1 {
        return vec![];
    }
    let v = version as usize;
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut r = vec![];
    let mut p = side(version) - 7;
    for _ in 0..n - 1 {
        r.push(p);
        p = p.saturating_sub(step);
    }
    r.push(6);
    r.reverse();
    r
}

pub const FMT_MASK: u16 = 0b101010000010010;

/// The 15 format bits (before masking): 5 information bits and the BCH remainder.
pub fn format_code(five: u16) -> u16 {
    let mut r = five << 10;
    for i in (10..15).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x537 << (i - 10);
        }
    }
    five << 10 | r
}

/// Module positions of the format bits, most significant first, for both copies.
pub fn format_positions(version: u32) -> [Vec<(usize, usize)>; 2] {
    let n = side(version);
    let mut a = vec![];
    for x in [0, 1, 2, 3, 4, 5, 7, 8] {
        a.push((x, 8));
    }
    for y in [7, 5, 4, 3, 2, 1, 0] {
        a.push((8, y));
    }
    let mut b = vec![];
    for i in 0..7 {
        b.push((8, n - 1 - i));
    }
    for i in 0..8 {
        b.push((n - 8 + i, 8));
    }
    [a, b]
}

fn version_code(v: u32) -> u32 {
    let mut r = v << 12;
    for i in (12..18).rev() {
        if r >> i & 1 == 1 {
            r ^= 0x1F25 << (i - 12);
        }
    }
    v << 12 | r
}

/// Function patterns of a version (format bits left 0), and which modules they take.
pub fn skeleton(version: u32) -> (Matrix, Vec<bool>) {
    let n = side(version);
    let mut m = Matrix::new(n);
    let mut f = vec![false; n * n];
    let mut put = |x: i64, y: i64, v: u8, m: &mut Matrix| {
        if x >= 0 && y >= 0 && (x as usize) < n && (y as usize) < n {
            m.set(x as usize, y as usize, v);
            f[y as usize * n + x as usize] = true;
        }
    };
    for i in 0..n as i64 {
        put(i, 6, u8::from(i % 2 == 0), &mut m);
        put(6, i, u8::from(i % 2 == 0), &mut m);
    }
    for (cx, cy) in [(3i64, 3i64), (n as i64 - 4, 3), (3, n as i64 - 4)] {
        for dy in -4i64..=4 {
            for dx in -4i64..=4 {
                let d = dx.abs().max(dy.abs());
                put(cx + dx, cy + dy, u8::from(d != 2 && d != 4), &mut m);
            }
        }
    }
    let al = alignment_centers(version);
    let k = al.len();
    for i in 0..k {
        for j in 0..k {
            if (i == 0 && j == 0) || (i == 0 && j == k - 1) || (i == k - 1 && j == 0) {
                continue;
            }
            for dy in -2i64..=2 {
                for dx in -2i64..=2 {
                    let d = dx.abs().max(dy.abs());
                    put(al[i] as i64 + dx, al[j] as i64 + dy, u8::from(d != 1), &mut m);
                }
            }
        }
    }
    for p in format_positions(version) {
        for (x, y) in p {
            put(x as i64, y as i64, 0, &mut m);
        }
    }
    put(8, n as i64 - 8, 1, &mut m); // dark module
    if version >= 7 {
        let c = version_code(version);
        for i in 0..18 {
            let b = (c >> i & 1) as u8;
            let (p, q) = ((n - 11 + i % 3) as i64, (i / 3) as i64);
            put(p, q, b, &mut m);
            put(q, p, b, &mut m);
        }
    }
    (m, f)
}

/// Data module positions in reading order.
pub fn data_positions(version: u32) -> Vec<(usize, usize)> {
    static C: std::sync::OnceLock<Vec<std::sync::OnceLock<Vec<(usize, usize)>>>> = std::sync::OnceLock::new();
    let c = C.get_or_init(|| (0..41).map(|_| Default::default()).collect());
    c[version as usize]
        .get_or_init(|| {
            let n = side(version);
            let (_, f) = skeleton(version);
            let mut v = vec![];
            let mut right = n as i64 - 1;
            let mut up = true;
            while right >= 1 {
                if right == 6 {
                    right = 5;
                }
                for k in 0..n {
                    let y = if up { n - 1 - k } else { k };
                    for x in [right as usize, right as usize - 1] {
                        if !f[y * n + x] {
                            v.push((x, y));
                        }
                    }
                }
                up = !up;
                right -= 2;
            }
            v
        })
        .clone()
}

pub fn mask_bit(mask: u16, x: usize, y: usize) -> u8 {
    let (i, j) = (y, x);
    u8::from(match mask {
        0 => (i + j) % 2 == 0,
        1 => i % 2 == 0,
        2 => j % 3 == 0,
        3 => (i + j) % 3 == 0,
        4 => (i / 2 + j / 3) % 2 == 0,
        5 => i * j % 2 + i * j % 3 == 0,
        6 => (i * j % 2 + i * j % 3) % 2 == 0,
        _ => ((i + j) % 2 + i * j % 3) % 2 == 0,
    })
}

/// For each position of the interleaved codeword stream: (block, index in block).
pub fn interleave(lay: &[Block]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let maxd = lay.iter().map(|b| b.data).max().unwrap();
    for i in 0..maxd {
        for (b, l) in lay.iter().enumerate() {
            if i < l.data {
                v.push((b, i));
            }
        }
    }
    let ecc = lay[0].total - lay[0].data;
    for i in 0..ecc {
        for (b, l) in lay.iter().enumerate() {
            v.push((b, l.data + i));
        }
    }
    v
}

#[derive(Clone)]
pub struct Symbol {
    pub version: u32,
    pub level: Level,
    pub mask: u16,
    pub blocks: Vec<Vec<u8>>,
}

pub fn blocks_for(data: &[u8], version: u32, level: Level) -> Vec<Vec<u8>> {
    let mut p = 0;
    layout(version, level)
        .iter()
        .map(|b| {
            let mut d = data[p..p + b.data].to_vec();
            p += b.data;
            let e = rs_ecc(&d, b.total - b.data);
            d.extend(e);
            d
        })
        .collect()
}

impl Symbol {
    pub fn new(data: &[u8], version: u32, level: Level, mask: u16) -> Symbol {
        Symbol { version, level, mask, blocks: blocks_for(data, version, level) }
    }
    /// Matrix of the (possibly damaged) blocks. `rem` supplies the remainder bits.
    pub fn matrix(&self) -> Matrix {
        let (mut m, _) = skeleton(self.version);
        let code = format_code(self.level.bits() << 3 | self.mask) ^ FMT_MASK;
        for p in format_positions(self.version) {
            for (i, (x, y)) in p.iter().enumerate() {
                m.set(*x, *y, (code >> (14 - i) & 1) as u8);
            }
        }
        let lay = layout(self.version, self.level);
        let il = interleave(&lay);
        for (k, (x, y)) in data_positions(self.version).into_iter().enumerate() {
            let bit = match il.get(k / 8) {
                Some((b, i)) => self.blocks[*b][*i] >> (7 - k % 8) & 1,
                None => 0,
            };
            m.set(x, y, bit ^ mask_bit(self.mask, x, y));
        }
        m
    }
}

/// Standard mask choice (lowest penalty), as an ordinary generator makes it.
pub fn penalty(m: &Matrix) -> u64 {
    let n = m.side;
    let mut p = 0u64;
    for t in 0..2 {
        for a in 0..n {
            let g = |b: usize| if t == 0 { m.get(b, a) } else { m.get(a, b) };
            let mut run = 1;
            for b in 1..=n {
                if b < n && g(b) == g(b - 1) {
                    run += 1;
                } else {
                    if run >= 5 {
                        p += run - 2;
                    }
                    run = 1;
                }
            }
            for b in 0..n.saturating_sub(10) {
                let s: Vec<u8> = (0..11).map(|k| g(b + k)).collect();
                if s == [1, 0, 1, 1, 1, 0, 1, 0, 0, 0, 0] || s == [0, 0, 0, 0, 1, 0, 1, 1, 1, 0, 1] {
                    p += 40;
                }
            }
        }
    }
    for y in 0..n - 1 {
        for x in 0..n - 1 {
            let c = m.get(x, y);
            if m.get(x + 1, y) == c && m.get(x, y + 1) == c && m.get(x + 1, y + 1) == c {
                p += 3;
            }
        }
    }
    let dark: usize = m.m.iter().map(|&b| b as usize).sum();
    let total = n * n;
    let k = ((dark as i64 * 20 - total as i64 * 10).abs() + total as i64 - 1) / total as i64 - 1;
    p + k.max(0) as u64 * 10
}

pub fn best_mask(data: &[u8], version: u32, level: Level) -> u16 {
    let mut s = Symbol::new(data, version, level, 0);
    (0..8u16)
        .min_by_key(|&k| {
            s.mask = k;
            penalty(&s.matrix())
        })
        .unwrap()
}

// ---------------------------------------------------------------- reference reader

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    /// Must decode to exactly this.
    Text { text: String, level: Level, data_bits: u32, flipped_bits: u32 },
    /// Must be refused.
    Refuse(&'static str),
}

/// Nearest format codeword within 3 bits of `raw` (already unmasked).
pub fn format_nearest(raw: u16) -> Option<u16> {
    (0..32).find(|&c| (format_code(c) ^ raw).count_ones() <= 3)
}

pub fn read_format_raw(m: &Matrix, version: u32, copy: usize) -> u16 {
    let p = &format_positions(version)[copy];
    let mut r = 0;
    for (x, y) in p {
        r = r << 1 | u16::from(m.get(*x, *y));
    }
    r ^ FMT_MASK
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Reading {
    pub text: String,
    pub level: Level,
    pub data_bits: u32,
    pub flipped_bits: u32,
}

/// Reading under the given (five-bit) format. Every block is corrected to the codeword within its
/// capacity or, if `lenient`, within half the number of its check codewords.
pub fn read_with(m: &Matrix, version: u32, five: u16, lenient: bool) -> Result<Reading, &'static str> {
    let level = Level::from_bits(five >> 3);
    let mask = five & 7;
    let lay = layout(version, level);
    let mut blocks: Vec<Vec<u8>> = lay.iter().map(|b| vec![0; b.total]).collect();
    let il = interleave(&lay);
    for (k, (x, y)) in data_positions(version).into_iter().enumerate() {
        if let Some((b, i)) = il.get(k / 8) {
            blocks[*b][*i] = blocks[*b][*i] << 1 | (m.get(x, y) ^ mask_bit(mask, x, y));
        }
    }
    let mut data = vec![];
    let mut flipped = 0;
    for (b, l) in blocks.iter().zip(&lay) {
        let ecc = l.total - l.data;
        let c = rs_decode(b, ecc, if lenient { ecc / 2 } else { l.t }).ok_or("block")?;
        flipped += c.iter().zip(b).map(|(p, q)| (p ^ q).count_ones()).sum::<u32>();
        data.extend_from_slice(&c[..l.data]);
    }
    let text = parse(&data, version)?;
    Ok(Reading { text, level, data_bits: data.len() as u32 * 8, flipped_bits: flipped })
}
pub fn read_as(m: &Matrix, version: u32, five: u16, lenient: bool) -> Option<Reading> {
    read_with(m, version, five, lenient).ok()
}

pub fn read(m: &Matrix, version: u32) -> Verdict {
    let five = match format_nearest(read_format_raw(m, version, 0)) {
        Some(f) => f,
        None => match format_nearest(read_format_raw(m, version, 1)) {
            Some(f) => f,
            None => return Verdict::Refuse("format"),
        },
    };
    match read_with(m, version, five, false) {
        Ok(r) => Verdict::Text { text: r.text, level: r.level, data_bits: r.data_bits, flipped_bits: r.flipped_bits },
        Err(e) => Verdict::Refuse(e),
    }
}

// ---------------------------------------------------------------- generators

pub fn rand_level(r: &mut Rng) -> Level {
    LEVELS[r.below(4)]
}

/// A random segment of about `bits` payload bits (possibly empty).
pub fn rand_seg(r: &mut Rng, version: u32, max_bits: usize) -> Option<Seg> {
    let mode = [1u32, 2, 4][r.below(3)];
    let head = 4 + count_bits(mode, version);
    if head > max_bits {
        return None;
    }
    let room = max_bits - head;
    let cap = (1usize << count_bits(mode, version)) - 1;
    let maxn = match mode {
        1 => room / 10 * 3 + match room % 10 { 0..=3 => 0, 4..=6 => 1, _ => 2 },
        2 => room / 11 * 2 + usize::from(room % 11 >= 6),
        _ => room / 8,
    }
    .min(cap);
    let n = match r.below(6) {
        0 => maxn,
        1 => maxn.saturating_sub(r.below(4)),
        2 => r.below(8).min(maxn),
        _ => r.below(maxn + 1),
    };
    Some(match mode {
        1 => Seg::Num(rand_digits(r, n)),
        2 => Seg::Alnum((0..n).map(|_| *r.pick(ALNUM) as char).collect()),
        _ => Seg::Byte(rand_bytes(r, n)),
    })
}

pub fn rand_digits(r: &mut Rng, n: usize) -> String {
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => '0',
            1 => '9',
            _ => (b'0' + r.below(10) as u8) as char,
        })
        .collect()
}

/// Byte payloads a reader has to return verbatim: ASCII, Latin-1 without 0xC3, UTF-8 with an 0xC3 lead.
pub fn rand_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 | 1 => (0..n).map(|_| r.range(0x20, 0x7e) as u8).collect(),
        2 => (0..n)
            .map(|_| loop {
                let b = r.byte();
                if b != 0xC3 {
                    break b;
                }
            })
            .collect(),
        3 => (0..n).map(|_| [0u8, 0x20, 0x7f, 0xff, 0xec, 0x11][r.below(6)]).collect(),
        _ => {
            // UTF-8 with at least one 0xC3 lead byte if it fits
            let mut v = vec![];
            if n >= 5 && r.chance(0.2) {
                v.extend("\u{feff}".as_bytes());
            }
            if n >= 2 {
                v.extend("é".as_bytes());
            }
            let pool = [
                "a", "Z", " ", "é", "Ü", "ñ", "ÿ", "À", "Ω", "ж", "€", "漢", "😀", "\u{80}", "\u{7ff}", "\u{ffff}", "\u{10ffff}", "\u{feff}", "\r\n",
                "\t", "\0", "e\u{301}", "\u{200d}", "\u{202e}", "\u{a0}", "\u{ad}", "\u{2028}", "\u{fffd}", "\\",
            ];
            let mut stuck = 0;
            while v.len() < n && stuck < 20 {
                let s = pool[r.below(pool.len())].as_bytes();
                if v.len() + s.len() <= n {
                    v.extend(s);
                } else {
                    stuck += 1;
                }
            }
            while v.len() < n {
                v.push(b'x');
            }
            v
        }
    }
}

/// Random segments that fit the symbol.
pub fn rand_segs(r: &mut Rng, version: u32, level: Level) -> Vec<Seg> {
    let cap = data_codewords(version, level) * 8;
    let mut left = cap;
    let mut v = vec![];
    let k = [1, 1, 1, 2, 3, 4, 7][r.below(7)];
    for i in 0..k {
        let share = if i + 1 == k { left } else { left / (k - i) + r.below(left / 4 + 1) };
        if let Some(s) = rand_seg(r, version, share.min(left)) {
            left -= s.bits(version);
            v.push(s);
        }
    }
    v
}

pub fn show_segs(s: &[Seg]) -> String {
    s.iter()
        .map(|s| match s {
            Seg::Num(x) => format!("num[{}]", x.len()),
            Seg::Alnum(x) => format!("alnum[{}]", x.len()),
            Seg::Byte(x) => format!("byte[{}]", x.len()),
        })
        .collect::<Vec<_>>()
        .join("+")
}
