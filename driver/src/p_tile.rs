//! C14 to C16: tile compressed images
use crate::ctx::Ctx;
use crate::fg::*;
use crate::rd::Short;
use crate::{ensure, same};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels;
use fitsrs::{Fits, HDU};
use std::io::{BufReader, Cursor};

// ------------------------------------------------------------------ RICE (FITS standard, 10.4.1)

struct Bits {
    out: Vec<u8>,
    n: usize,
}
impl Bits {
    fn put(&mut self, v: u64, bits: u32) {
        for i in (0..bits).rev() {
            if self.n % 8 == 0 {
                self.out.push(0);
            }
            if (v >> i) & 1 == 1 {
                *self.out.last_mut().unwrap() |= 0x80 >> (self.n % 8);
            }
            self.n += 1;
        }
    }
}

/// `pick`: the split level wanted for a block among 0 (all equal, if possible), 1..=25, 26 (not coded)
pub fn rice_encode(pix: &[i32], block: usize, mut pick: impl FnMut(usize) -> u32) -> Vec<u8> {
    let mut b = Bits { out: vec![], n: 0 };
    b.put(pix[0] as u32 as u64, 32);
    let mut last = pix[0];
    for (k, blk) in pix.chunks(block).enumerate() {
        let map: Vec<u32> = blk
            .iter()
            .map(|&p| {
                let d = p.wrapping_sub(last);
                last = p;
                // signed differences to unsigned: 0, -1, 1, -2, ...
                ((d << 1) ^ (d >> 31)) as u32
            })
            .collect();
        let mut f = pick(k);
        if f == 0 && map.iter().any(|m| *m != 0) {
            f = 1;
        }
        // limit the length of the codes
        if f < 26 && map.iter().any(|m| *m >> f.saturating_sub(1) > 300) {
            f = 26;
        }
        b.put(f as u64, 5);
        match f {
            0 => {}
            26 => map.iter().for_each(|m| b.put(*m as u64, 32)),
            f => {
                for m in map {
                    let fs = f - 1;
                    for _ in 0..(m >> fs) {
                        b.put(0, 1);
                    }
                    b.put(1, 1);
                    b.put(m as u64 & ((1 << fs) - 1), fs);
                }
            }
        }
    }
    b.out
}

// ------------------------------------------------------------------ tile compressed images

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cmp {
    Gzip1,
    Gzip2,
    Rice(usize),
}

/// Sizes of the tiles in the order they are stored
pub fn tile_sizes(axes: &[u64], tile: &[u64]) -> Vec<u64> {
    let n: Vec<u64> = axes.iter().zip(tile).map(|(a, t)| a.div_ceil(*t)).collect();
    let total: u64 = n.iter().product();
    (0..total)
        .map(|k| {
            let mut k = k;
            let mut size = 1;
            for i in 0..axes.len() {
                let j = k % n[i];
                k /= n[i];
                size *= ((j + 1) * tile[i]).min(axes[i]) - j * tile[i];
            }
            size
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Quant {
    pub scale: Vec<f64>,
    pub zero: Vec<f64>,
    pub double: bool,
    pub method: Option<&'static str>,
    /// value of undefined pixels: in the header, or in a field
    pub blank: Option<i32>,
    pub blank_field: bool,
}

pub fn compress(rng: &mut Rng, cmp: Cmp, pix: &[i32]) -> Vec<u8> {
    match cmp {
        Cmp::Gzip1 => gzip(&pix.iter().flat_map(|p| p.to_be_bytes()).collect::<Vec<u8>>()),
        Cmp::Gzip2 => {
            let b: Vec<[u8; 4]> = pix.iter().map(|p| p.to_be_bytes()).collect();
            gzip(&(0..4).flat_map(|k| b.iter().map(move |x| x[k]).collect::<Vec<u8>>()).collect::<Vec<u8>>())
        }
        Cmp::Rice(block) => rice_encode(pix, block, |_| match rng.below(4) {
            0 => 0,
            1 => 26,
            2 => rng.range(1, 10) as u32,
            _ => rng.range(1, 25) as u32,
        }),
    }
}

/// The HDU of an image compressed by tiles: pixel values by tile
pub fn compressed(rng: &mut Rng, cmp: Cmp, bitpix: i64, axes: &[u64], tile: &[u64], tiles: &[Vec<i32>], q: Option<&Quant>, keep_default: bool) -> Unit {
    let d = if q.is_some_and(|q| q.double) { b'D' } else { b'E' };
    let mut cols = vec![];
    if rng.chance(1, 3) {
        cols.push(Col::fixed(*rng.pick(TYPES), rng.range(1, 9)).named("OTHER"));
    }
    let data_col = Col::var(*rng.pick(b"PQ"), b'B').named(if matches!(cmp, Cmp::Rice(_)) || rng.chance(1, 2) { "COMPRESSED_DATA" } else { "GZIP_COMPRESSED_DATA" });
    let both = data_col.name.as_deref() == Some("COMPRESSED_DATA") && rng.chance(1, 4);
    let mut rest = vec![data_col];
    if let Some(q) = q {
        rest.push(Col::fixed(d, 1).named("ZSCALE"));
        rest.push(Col::fixed(d, 1).named("ZZERO"));
        if q.blank_field {
            let t: &[u8] = if q.blank == Some(7) || q.blank == Some(0) { b"BIJK" } else { b"JK" };
            rest.push(Col::fixed(*rng.pick(t), 1).named("ZBLANK"));
        }
        if rng.chance(1, 3) {
            let k = rng.below(rest.len());
            rest.swap(0, k);
        }
    }
    if both {
        // for the tiles that could not be quantized: none here
        let k = rng.below(rest.len() + 1);
        rest.insert(k, Col::var(*rng.pick(b"PQ"), b'B').named("GZIP_COMPRESSED_DATA"));
    }
    if rng.chance(1, 3) {
        rest.push(Col::fixed(*rng.pick(TYPES), rng.range(1, 3)).named("MORE"));
    }
    cols.extend(rest);
    let w = row_width(&cols);
    let rows = tiles.len();
    let gap = if rng.chance(1, 3) { rng.range(1, 30) } else { 0 };
    let mut data = rng.bytes(w * rows + gap);
    let mut heap = rng.bytes(3);
    // tiles stored in any order
    let mut order: Vec<usize> = (0..rows).collect();
    if rng.chance(1, 3) {
        order.reverse();
    }
    for &r in &order {
        let z = compress(rng, cmp, &tiles[r]);
        let off = heap.len();
        let n = z.len();
        heap.extend(z);
        let mut o = r * w;
        for c in &cols {
            match (c.ty, c.name.as_deref().unwrap_or("")) {
                (b'P' | b'Q', "GZIP_COMPRESSED_DATA") if both => data[o..o + c.width()].fill(0),
                (b'P', _) => {
                    data[o..o + 4].copy_from_slice(&(n as u32).to_be_bytes());
                    data[o + 4..o + 8].copy_from_slice(&(off as u32).to_be_bytes());
                }
                (b'Q', _) => {
                    data[o..o + 8].copy_from_slice(&(n as u64).to_be_bytes());
                    data[o + 8..o + 16].copy_from_slice(&(off as u64).to_be_bytes());
                }
                (t, "ZSCALE") | (t, "ZZERO") => {
                    let q = q.unwrap();
                    let v = if c.name.as_deref() == Some("ZSCALE") { q.scale[r] } else { q.zero[r] };
                    if t == b'D' {
                        data[o..o + 8].copy_from_slice(&v.to_be_bytes());
                    } else {
                        data[o..o + 4].copy_from_slice(&(v as f32).to_be_bytes());
                    }
                }
                (_, "ZBLANK") => {
                    let b = (q.unwrap().blank.unwrap() as i64).to_be_bytes();
                    data[o..o + c.width()].copy_from_slice(&b[8 - c.width()..]);
                }
                _ => {}
            }
            o += c.width();
        }
    }
    data.extend(heap);
    let mut cards = bintable_cards(&cols, rows, data.len() - w * rows, Some(w * rows + gap));
    cards.push(kv("ZIMAGE", "                   T"));
    cards.push(kvs("ZCMPTYPE", match cmp {
        Cmp::Gzip1 => "GZIP_1",
        Cmp::Gzip2 => "GZIP_2",
        Cmp::Rice(_) => *rng.pick(&["RICE_1", "RICE_ONE"]),
    }));
    cards.push(kvi("ZBITPIX", bitpix as i128));
    cards.push(kvi("ZNAXIS", axes.len() as i128));
    for (i, a) in axes.iter().enumerate() {
        cards.push(kvi(&format!("ZNAXIS{}", i + 1), *a as i128));
    }
    if !keep_default {
        for (i, a) in tile.iter().enumerate() {
            cards.push(kvi(&format!("ZTILE{}", i + 1), *a as i128));
        }
    }
    if let Cmp::Rice(b) = cmp {
        if b != 32 || rng.chance(1, 2) {
            let mut k: Vec<usize> = if rng.chance(1, 2) { (1..=3).collect() } else { (1..=12).collect() };
            let mut param = |cards: &mut Vec<CardBuf>, rng: &mut Rng, name: &str, v: i128| {
                let n = k.remove(rng.below(k.len()));
                let (a, b) = (kvs(&format!("ZNAME{n}"), name), kvi(&format!("ZVAL{n}"), v));
                cards.extend(if rng.chance(1, 4) { [b, a] } else { [a, b] });
            };
            let before = rng.chance(1, 2);
            if before && rng.chance(1, 2) {
                param(&mut cards, rng, "BYTEPIX", 4);
            }
            param(&mut cards, rng, "BLOCKSIZE", b as i128);
            if !before && rng.chance(1, 2) {
                param(&mut cards, rng, "BYTEPIX", 4);
            }
        }
    }
    if let Some(q) = q {
        if let Some(m) = q.method {
            cards.push(kvs("ZQUANTIZ", m));
            cards.push(kvi("ZDITHER0", if rng.chance(1, 3) { rng.range(9990, 10000) } else { rng.range(1, 10000) } as i128));
        }
        if let (Some(b), false) = (q.blank, q.blank_field) {
            cards.push(kvi("ZBLANK", b as i128));
        }
    }
    Unit { cards, data }
}

/// All the pixels of the second HDU of the file, as i64 (integers) or bits of f32
macro_rules! read_pixels {
    ($reader:expr) => {{
        let mut fits = Fits::from_reader($reader);
        fits.next();
        let hdu = match fits.next() {
            Some(Ok(HDU::XBinaryTable(h))) => h,
            o => return Err(format!("the compressed image is not read: {o:?}")),
        };
        let (kind, v): (i64, Vec<i64>) = match fits.get_data(&hdu) {
            BinaryTableData::TileCompressed(Pixels::U8(p)) => (8, p.map(|v| v as i64).collect()),
            BinaryTableData::TileCompressed(Pixels::I16(p)) => (16, p.map(|v| v as i64).collect()),
            BinaryTableData::TileCompressed(Pixels::I32(p)) => (32, p.map(|v| v as i64).collect()),
            BinaryTableData::TileCompressed(Pixels::F32(p)) => (-32, p.map(|v| v.to_bits() as i64).collect()),
            BinaryTableData::TileCompressed(Pixels::F64(p)) => (-64, p.map(|v| v.to_bits() as i64).collect()),
            BinaryTableData::Table(_) => return Err("the HDU is read as a plain table".into()),
        };
        (kind, v)
    }};
}

fn geometry(rng: &mut Rng, max: u64) -> (Vec<u64>, Vec<u64>, bool) {
    let n = rng.range(1, 3);
    let axes: Vec<u64> = (0..n).map(|_| 1 + rng.below(max as usize) as u64).collect();
    if rng.chance(1, 4) {
        // default tiles
        let tile = axes.iter().enumerate().map(|(i, a)| if i == 0 { *a } else { 1 }).collect();
        return (axes, tile, true);
    }
    let tile = axes.iter().map(|a| 1 + rng.below(*a as usize + 1) as u64).collect();
    (axes, tile, false)
}

fn pixels(rng: &mut Rng, bitpix: i64, n: usize) -> Vec<i32> {
    let style = rng.below(5);
    let mut last = 0i32;
    (0..n)
        .map(|i| {
            let v = match style {
                0 => rng.next() as i32,
                1 => last,
                2 => last.wrapping_add(rng.below(9) as i32 - 4),
                3 => *rng.pick(&[i32::MIN, i32::MAX, 0, -1, 1, 255, -32768, 32767]),
                _ => {
                    if (i / 7) % 2 == 0 {
                        last
                    } else {
                        last.wrapping_add(rng.below(2000) as i32 - 1000)
                    }
                }
            };
            let v = match bitpix {
                8 => v & 0xff,
                16 => v as i16 as i32,
                _ => v,
            };
            last = v;
            v
        })
        .collect()
}

fn integers(c: &mut Ctx, rng: &mut Rng, label: &str, cmp: Cmp, bitpix: i64, axes: &[u64], tile: &[u64], default: bool) {
    let sizes = tile_sizes(axes, tile);
    let tiles: Vec<Vec<i32>> = sizes.iter().map(|n| pixels(rng, bitpix, *n as usize)).collect();
    let u = compressed(rng, cmp, bitpix, axes, tile, &tiles, None, default);
    // the file may end with the last byte of the last tile
    let whole = !rng.chance(1, 4);
    let len = empty_primary().bytes().len() + header(&u.cards).len() + u.data.len();
    let mut bytes = file(&[empty_primary(), u, image(rng, false, 8, &[3])]);
    if !whole {
        bytes.truncate(len);
    }
    let want: Vec<i64> = tiles.concat().iter().map(|v| *v as i64).collect();
    let which = rng.below(2);
    c.case(label, &bytes, format!("{cmp:?}, ZBITPIX {bitpix}, image {axes:?}, tiles {tile:?}{}", if default { " by default" } else { "" }), || {
        let (kind, got) = if which == 0 {
            read_pixels!(Cursor::new(&bytes[..]))
        } else {
            read_pixels!(BufReader::with_capacity(100, Short::new(&bytes, 60)))
        };
        same!(kind, bitpix, "type of the pixels");
        same!(got.len(), want.len(), "number of pixels");
        if let Some(i) = (0..want.len()).find(|&i| got[i] != want[i]) {
            return Err(format!("pixel {i} of {}: expected {}, got {}", want.len(), want[i], got[i]));
        }
        let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
        let n = fits.by_ref().filter(|h| h.is_ok()).count();
        same!(n, if whole { 3 } else { 2 }, "number of HDUs");
        Ok(want.len())
    });
}

pub fn c14(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for block in [1usize, 2, 7, 16, 31, 32, 33, 64, 128, 129, 200, 255] {
        for n in [1u64, 2, 31, 32, 33, 63, 64, 65, 100, 150, 260, 700] {
            integers(c, &mut rng, "blocks", Cmp::Rice(block), 32, &[n], &[n], false);
        }
    }
    for _ in 0..c.iters(2500) {
        let block = if rng.chance(1, 2) { 32 } else { rng.range(1, 80) };
        let n = rng.range(1, 150) as u64;
        let bitpix = *rng.pick(&[8, 16, 32, 32]);
        integers(c, &mut rng, "tile", Cmp::Rice(block), bitpix, &[n], &[n], false);
    }
    for _ in 0..c.iters(400) {
        let (axes, tile, default) = geometry(&mut rng, 12);
        let block = *rng.pick(&[8, 16, 32]);
        integers(c, &mut rng, "tiles", Cmp::Rice(block), 32, &axes, &tile, default);
    }
    // blocks of more pixels than 8 bits can tell
    for block in [256u32, 300, 1000, 4096, 65535] {
        let n = rng.range(1, 3000) as u64;
        let bitpix = *rng.pick(&[8, 16, 32]);
        integers(c, &mut rng, "blocks", Cmp::Rice(block as _), bitpix, &[n], &[n], false);
    }
    "tiles of 1 to 700 (and images of up to 1728) 8, 16 and 32 bit pixels (constant, smooth, random, extreme values) encoded by an independent RICE encoder with block sizes 1 to 255 (and some of up to 65535) and any split level, all-equal and uncoded blocks included, then decoded through the library. Non-trivial: every pixel compared with the one encoded"
}

pub fn c15(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(2000) {
        let (axes, tile, default) = geometry(&mut rng, 9);
        let cmp = *rng.pick(&[Cmp::Gzip1, Cmp::Gzip2, Cmp::Rice(32)]);
        let bitpix = match cmp {
            Cmp::Gzip2 => *rng.pick(&[16, 32]),
            _ => *rng.pick(&[8, 16, 32]),
        };
        integers(c, &mut rng, "image", cmp, bitpix, &axes, &tile, default);
    }
    // tiles of more than 2^16 pixels, and more tiles than that
    for bitpix in [8, 16, 32] {
        for cmp in [Cmp::Gzip1, Cmp::Rice(32)] {
            integers(c, &mut rng, "large tiles", cmp, bitpix, &[70000], &[66000], false);
            integers(c, &mut rng, "large tiles", cmp, bitpix, &[300, 300], &[280, 270], false);
        }
    }
    integers(c, &mut rng, "many tiles", Cmp::Gzip1, 16, &[66000, 2], &[1, 1], false);
    crate::p_large::tiles(c);
    "compressed images with 1 to 3 axes of 1 to 9 pixels, tiles of any size (larger than the image, not dividing it, by default; up to 75600 pixels; up to 132000 tiles), GZIP_1, GZIP_2 and RICE_1, tiles stored in any order after a gap or not, other fields around, 32 and 64 bit descriptors; tiles placed anywhere in heaps of up to 2^50 bytes (the file is not stored). Non-trivial: number, order and value of all the pixels compared with the tiles"
}

/// The sequence of the FITS standard (appendix I)
fn sequence() -> Vec<f32> {
    let (a, m) = (16807.0f64, 2147483647.0f64);
    let mut seed = 1.0f64;
    let v: Vec<f32> = (0..10000)
        .map(|_| {
            let t = a * seed;
            seed = t - m * (t / m).trunc();
            (seed / m) as f32
        })
        .collect();
    // the value given by the standard to check the sequence
    assert_eq!(seed as i64, 1043618065);
    v
}

/// Places in the sequence of the random values of the pixels of a tile (appendix I of the standard)
fn places(rand: &[f32], first: usize, n: usize) -> Vec<usize> {
    let mut i0 = first % 10000;
    let mut i1 = (rand[i0] * 500.0) as usize;
    (0..n)
        .map(|_| {
            let p = i1;
            i1 += 1;
            if i1 == 10000 {
                i0 = (i0 + 1) % 10000;
                i1 = (rand[i0] * 500.0) as usize;
            }
            p
        })
        .collect()
}

pub fn c16(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    let rand = sequence();
    for k in 0..c.iters(2000) {
        let (axes, tile, default) = if k < 4 { (vec![70000], vec![66000 + k as u64], false) } else { geometry(&mut rng, 8) };
        let sizes = tile_sizes(&axes, &tile);
        let cmp = *rng.pick(&[Cmp::Gzip1, Cmp::Gzip2, Cmp::Rice(32)]);
        let bitpix = if k < 4 { [-32, -64][k % 2] } else { *rng.pick(&[-32, -64]) };
        let methods: &[Option<&str>] = &[None, Some("NO_DITHER"), Some("SUBTRACTIVE_DITHER_1"), Some("SUBTRACTIVE_DITHER_2"), Some("UNKNOWN")];
        let method = if k < 4 { methods[2 + k / 2] } else { *rng.pick(methods) };
        let blank = if rng.chance(1, 2) { Some(*rng.pick(&[-2147483648, -2147483647, 0, 7])) } else { None };
        let q = Quant {
            scale: sizes.iter().map(|_| *rng.pick(&[1.0, 0.5, 0.01, 3.25, -2.0, 1e-6, 1e5])).collect(),
            zero: sizes.iter().map(|_| *rng.pick(&[0.0, -1.0, 12.5, 1e4])).collect(),
            double: rng.chance(1, 2),
            method,
            blank,
            blank_field: blank.is_some() && rng.chance(1, 2),
        };
        let tiles: Vec<Vec<i32>> = sizes
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| match rng.below(8) {
                        0 => blank.unwrap_or(7),
                        1 => -2147483647,
                        _ => rng.below(200000) as i32 - 100000,
                    })
                    .collect()
            })
            .collect();
        let u = compressed(&mut rng, cmp, bitpix, &axes, &tile, &tiles, Some(&q), default);
        let bytes = file(&[empty_primary(), u]);
        let rand = &rand;
        c.case("image", &bytes, format!("{cmp:?}, ZBITPIX {bitpix}, image {axes:?}, tiles {tile:?}, {method:?}, blank {blank:?}, iteration {k}"), || {
            let (kind, got) = read_pixels!(Cursor::new(&bytes[..]));
            same!(kind, bitpix, "type of the pixels");
            let got: Vec<f32> = got.iter().map(|b| f32::from_bits(*b as u32)).collect();
            same!(got.len(), tiles.iter().map(|t| t.len()).sum::<usize>(), "number of pixels");
            let mut p = 0;
            for (t, pix) in tiles.iter().enumerate() {
                let (s, z) = (q.scale[t] as f32, q.zero[t] as f32);
                let g = &got[p..p + pix.len()];
                p += pix.len();
                let dither = matches!(method, Some("SUBTRACTIVE_DITHER_1") | Some("SUBTRACTIVE_DITHER_2"));
                for (i, (&v, &g)) in pix.iter().zip(g).enumerate() {
                    if blank == Some(v) {
                        ensure!(g.is_nan(), "tile {t}, pixel {i}: undefined pixel read as {g}");
                    } else if method == Some("SUBTRACTIVE_DITHER_2") && v == -2147483647 {
                        ensure!(g == 0.0, "tile {t}, pixel {i}: exact zero read as {g}");
                    } else {
                        let exact = v as f64 * s as f64 + z as f64;
                        let round = (exact.abs() + (v as f64 * s as f64).abs() + z.abs() as f64) * 1e-6;
                        let step = if dither { s.abs() as f64 * 0.5 } else { 0.0 };
                        ensure!((g as f64 - exact).abs() <= step + round, "tile {t}, pixel {i}: integer {v}, scale {s}, zero {z} read as {g}");
                    }
                }
                if dither {
                    // the place in the sequence is given by the row and the seed
                    let at = bytes.windows(9).position(|w| w == b"ZDITHER0=").unwrap();
                    let seed: usize = String::from_utf8_lossy(&bytes[at + 10..at + 80]).split('/').next().unwrap().trim().parse().unwrap();
                    let follows = |places: &[usize]| {
                        pix.iter().zip(g).zip(places).all(|((&v, &g), &p)| {
                            let w = (v as f64 - rand[p] as f64 + 0.5) * s as f64 + z as f64;
                            let round = (w.abs() + (v as f64 * s as f64).abs() + z.abs() as f64) * 1e-6 + s.abs() as f64 * 0.02;
                            g.is_nan() || (v == -2147483647 && method == Some("SUBTRACTIVE_DITHER_2")) || (g as f64 - w).abs() <= round
                        })
                    };
                    let places = places(rand, t + seed - 1, pix.len());
                    // (known finding dither-wrap, below)
                    let plain: Vec<usize> = (0..pix.len()).map(|i| (places[0] + i) % 10000).collect();
                    let fits = follows(&places) || follows(&plain);
                    ensure!(fits, "tile {t}: the pixels do not follow the dithering sequence");
                }
            }
            Ok(got.len())
        });
    }
    // the end of the sequence
    let mut r2 = Rng::new(5);
    let pix: Vec<i32> = (0..12000).map(|i| i % 50).collect();
    let q = Quant { scale: vec![1.0], zero: vec![0.0], double: false, method: Some("SUBTRACTIVE_DITHER_1"), blank: None, blank_field: false };
    let mut u = compressed(&mut r2, Cmp::Gzip1, -32, &[12000], &[12000], &[pix.clone()], Some(&q), false);
    u.cards.retain(|c| &c[..8] != b"ZDITHER0");
    u.cards.push(kvi("ZDITHER0", 1));
    let bytes = file(&[empty_primary(), u]);
    c.known("dither-wrap", "image", &bytes, "a tile of 12000 pixels, ZDITHER0 = 1", || {
        let (_, got) = read_pixels!(Cursor::new(&bytes[..]));
        for (i, (g, p)) in got.iter().zip(places(&rand, 0, 12000)).enumerate() {
            let (g, w) = (f32::from_bits(*g as u32), (i % 50) as f32 - rand[p] + 0.5);
            ensure!((g - w).abs() < 0.01, "pixel {i}: expected {w}, got {g}");
        }
        Ok(12000)
    });
    "compressed floating point images with 1 to 3 axes, three compressions, no dithering and both dithering methods, scale and offset by tile in single or double precision, undefined pixels given by keyword or field. Non-trivial: every pixel compared with integer x scale + offset (within half a step when dithered, following the sequence of the standard), NaN and exact zeros where due"
}
