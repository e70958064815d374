//! Building FITS files byte by byte, and the deterministic random source of the driver.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub type CardBuf = [u8; 80];

/// An 80 byte record starting with the given text, padded with blanks
pub fn rec(text: &[u8]) -> CardBuf {
    let mut b = [b' '; 80];
    let n = text.len().min(80);
    b[..n].copy_from_slice(&text[..n]);
    b
}

/// `KEY     = value`
pub fn kv(name: &str, value: &str) -> CardBuf {
    rec(format!("{name:<8}= {value}").as_bytes())
}
pub fn kvi(name: &str, value: i128) -> CardBuf {
    kv(name, &format!("{value:>20}"))
}
pub fn kvs(name: &str, value: &str) -> CardBuf {
    kv(name, &format!("'{:<8}'", value.replace('\'', "''")))
}

pub const BLOCK: usize = 2880;

pub fn pad_to_block(v: &mut Vec<u8>, fill: u8) {
    while v.len() % BLOCK != 0 {
        v.push(fill);
    }
}

/// The cards (END is added) as a header unit
pub fn header(cards: &[CardBuf]) -> Vec<u8> {
    let mut v: Vec<u8> = cards.iter().flatten().copied().collect();
    v.extend_from_slice(&rec(b"END"));
    pad_to_block(&mut v, b' ');
    v
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub cards: Vec<CardBuf>,
    pub data: Vec<u8>,
}

impl Unit {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = header(&self.cards);
        v.extend_from_slice(&self.data);
        pad_to_block(&mut v, 0);
        v
    }
    pub fn header_len(&self) -> usize {
        ((self.cards.len() + 1) * 80).div_ceil(BLOCK) * BLOCK
    }
}

pub fn file(units: &[Unit]) -> Vec<u8> {
    units.iter().flat_map(|u| u.bytes()).collect()
}

pub fn bitpix_size(bitpix: i64) -> usize {
    (bitpix.unsigned_abs() / 8) as usize
}

pub const BITPIX: [i64; 6] = [8, 16, 32, 64, -32, -64];

/// Mandatory cards of an image
pub fn image_cards(primary: bool, bitpix: i64, axes: &[u64]) -> Vec<CardBuf> {
    let mut c = vec![if primary {
        kv("SIMPLE", "                   T / conforming")
    } else {
        kvs("XTENSION", "IMAGE")
    }];
    c.push(kvi("BITPIX", bitpix as i128));
    c.push(kvi("NAXIS", axes.len() as i128));
    for (i, a) in axes.iter().enumerate() {
        c.push(kvi(&format!("NAXIS{}", i + 1), *a as i128));
    }
    if !primary {
        c.push(kvi("PCOUNT", 0));
        c.push(kvi("GCOUNT", 1));
    }
    c
}

pub fn image(rng: &mut Rng, primary: bool, bitpix: i64, axes: &[u64]) -> Unit {
    let n: u64 = if axes.is_empty() { 0 } else { axes.iter().product() };
    Unit {
        cards: image_cards(primary, bitpix, axes),
        data: rng.bytes(n as usize * bitpix_size(bitpix)),
    }
}

pub fn empty_primary() -> Unit {
    Unit { cards: image_cards(true, 8, &[]), data: vec![] }
}

pub fn ascii_cards(naxis1: u64, naxis2: u64, fields: &[(u64, String)]) -> Vec<CardBuf> {
    let mut c = vec![
        kvs("XTENSION", "TABLE"),
        kvi("BITPIX", 8),
        kvi("NAXIS", 2),
        kvi("NAXIS1", naxis1 as i128),
        kvi("NAXIS2", naxis2 as i128),
        kvi("PCOUNT", 0),
        kvi("GCOUNT", 1),
        kvi("TFIELDS", fields.len() as i128),
    ];
    for (i, (b, f)) in fields.iter().enumerate() {
        c.push(kvi(&format!("TBCOL{}", i + 1), *b as i128));
        c.push(kvs(&format!("TFORM{}", i + 1), f));
    }
    c
}

pub fn ascii(rng: &mut Rng, rows: u64) -> Unit {
    let fields = vec![(1, "A8".to_string()), (10, "I6".to_string()), (17, "F8.3".to_string())];
    let cards = ascii_cards(24, rows, &fields);
    let data = (0..24 * rows).map(|_| b' ' + rng.below(95) as u8).collect();
    Unit { cards, data }
}

/// A column of a binary table
#[derive(Clone, Debug)]
pub struct Col {
    /// type letter, among LXBIJKAEDCM, or P and Q for arrays stored in the heap
    pub ty: u8,
    pub repeat: usize,
    /// type of the elements stored in the heap
    pub elem: u8,
    pub name: Option<String>,
}

pub const TYPES: &[u8] = b"LXBIJKAEDCM";

/// Bytes of one element
pub fn elem_size(ty: u8) -> usize {
    match ty {
        b'L' | b'X' | b'B' | b'A' => 1,
        b'I' => 2,
        b'J' | b'E' => 4,
        b'K' | b'D' | b'C' | b'P' => 8,
        b'M' | b'Q' => 16,
        _ => unreachable!(),
    }
}

impl Col {
    pub fn fixed(ty: u8, repeat: usize) -> Col {
        Col { ty, repeat, elem: 0, name: None }
    }
    pub fn var(ty: u8, elem: u8) -> Col {
        Col { ty, repeat: 1, elem, name: None }
    }
    pub fn named(mut self, n: &str) -> Col {
        self.name = Some(n.to_string());
        self
    }
    /// Number of bytes in a row
    pub fn width(&self) -> usize {
        match self.ty {
            b'X' => self.repeat.div_ceil(8),
            b'P' => 8,
            b'Q' => 16,
            t => self.repeat * elem_size(t),
        }
    }
    /// Number of values a fixed column gives per row (bits are given byte by byte)
    pub fn values(&self) -> usize {
        match self.ty {
            b'X' => self.repeat.div_ceil(8),
            _ => self.repeat,
        }
    }
    pub fn tform(&self, variant: usize) -> String {
        match self.ty {
            b'P' | b'Q' => match variant % 3 {
                0 => format!("1{}{}(99)", self.ty as char, self.elem as char),
                1 => format!("{}{}", self.ty as char, self.elem as char),
                _ => format!("1{}{}", self.ty as char, self.elem as char),
            },
            // an array descriptor that is not there
            t if self.repeat == 0 && variant % 2 == 1 => format!("0{}{}(9)", if t > b'E' { 'P' } else { 'Q' }, t as char),
            t if self.repeat == 1 && variant % 2 == 1 => format!("{}", t as char),
            t => format!("{}{}", self.repeat, t as char),
        }
    }
}

pub fn row_width(cols: &[Col]) -> usize {
    cols.iter().map(|c| c.width()).sum()
}

pub fn bintable_cards(cols: &[Col], rows: usize, pcount: usize, theap: Option<usize>) -> Vec<CardBuf> {
    let mut c = vec![
        kvs("XTENSION", "BINTABLE"),
        kvi("BITPIX", 8),
        kvi("NAXIS", 2),
        kvi("NAXIS1", row_width(cols) as i128),
        kvi("NAXIS2", rows as i128),
        kvi("PCOUNT", pcount as i128),
        kvi("GCOUNT", 1),
        kvi("TFIELDS", cols.len() as i128),
    ];
    for (i, col) in cols.iter().enumerate() {
        c.push(kvs(&format!("TFORM{}", i + 1), &col.tform(i)));
        if let Some(n) = &col.name {
            c.push(kvs(&format!("TTYPE{}", i + 1), n));
        }
    }
    if let Some(t) = theap {
        c.push(kvi("THEAP", t as i128));
    }
    c
}

/// The whole bytes of a binary table with only fixed columns
pub fn bintable(rng: &mut Rng, cols: &[Col], rows: usize) -> Unit {
    Unit {
        cards: bintable_cards(cols, rows, 0, None),
        data: rng.bytes(row_width(cols) * rows),
    }
}

/// At any level, with or without the optional parts of the gzip header
pub fn gzip_as(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut b = flate2::GzBuilder::new();
    if rng.chance(1, 2) {
        b = b.filename("a.fits");
    }
    if rng.chance(1, 3) {
        b = b.comment("a comment");
    }
    if rng.chance(1, 3) {
        let n = rng.below(300);
        b = b.extra(rng.bytes(n));
    }
    if rng.chance(1, 2) {
        b = b.mtime(rng.next() as u32);
    }
    let mut e = b.write(Vec::new(), flate2::Compression::new(*rng.pick(&[0, 1, 6, 9])));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn gzip(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
