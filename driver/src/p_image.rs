//! C07 to C09: pixels in order, pixels at random, raw bytes
use crate::ctx::Ctx;
use crate::fg::*;
use crate::p_hdu::{any_unit, Kind};
use crate::rd::Short;
use crate::{ensure, same};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::{Fits, Pixels, HDU};
use std::io::{BufReader, Cursor, Read};

/// Brings the reader to the HDU number `$at` and gives its pixels to `$body`
macro_rules! with_pixels {
    ($reader:expr, $at:expr, |$it:ident, $t:ident| $body:expr) => {{
        let mut fits = Fits::from_reader($reader);
        let mut hdu = None;
        for _ in 0..=$at {
            hdu = Some(match fits.next() {
                Some(Ok(h)) => h,
                o => return Err(format!("HDU not read: {o:?}")),
            });
        }
        let (HDU::Primary(h) | HDU::XImage(h)) = hdu.as_ref().unwrap() else {
            return Err("not an image".into());
        };
        match fits.get_data(h).pixels() {
            Pixels::U8($it) => {
                type $t = u8;
                $body
            }
            Pixels::I16($it) => {
                type $t = i16;
                $body
            }
            Pixels::I32($it) => {
                type $t = i32;
                $body
            }
            Pixels::I64($it) => {
                type $t = i64;
                $body
            }
            Pixels::F32($it) => {
                type $t = f32;
                $body
            }
            Pixels::F64($it) => {
                type $t = f64;
                $body
            }
        }
    }};
}

fn an_image(rng: &mut Rng, max: usize) -> (Vec<u8>, usize, Unit, i64) {
    let b = *rng.pick(&BITPIX);
    let n = rng.range(0, 4);
    let axes: Vec<u64> = (0..n).map(|_| if rng.chance(1, 15) { 0 } else { rng.range(1, max) as u64 }).collect();
    let at = rng.below(3);
    let mut units = vec![];
    for i in 0..at {
        units.push(any_unit(rng, i == 0).0);
    }
    let u = image(rng, at == 0, b, &axes);
    units.push(u.clone());
    (file(&units), at, u, b)
}

pub fn c07(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for k in 0..c.iters(2500) {
        let (mut bytes, at, u, b) = an_image(&mut rng, 9);
        let start = bytes.len() - u.data.len().div_ceil(2880) * 2880;
        let mut data = u.data.clone();
        if rng.chance(1, 3) {
            // the file stops in the data unit
            let keep = rng.below(data.len() + 1);
            bytes.truncate(start + keep);
            data.truncate(keep);
        } else if rng.chance(1, 2) {
            bytes.extend(image(&mut rng, false, 8, &[100]).bytes());
        }
        let which = k % 4;
        let n_all = u.data.len() / bitpix_size(b);
        macro_rules! run {
            ($r:expr) => {
                with_pixels!($r, at, |it, T| {
                    let s = std::mem::size_of::<T>();
                    same!(s, bitpix_size(b), "bytes of a pixel");
                    let want: Vec<[u8; std::mem::size_of::<T>()]> = data.chunks_exact(s).map(|x| x.try_into().unwrap()).collect();
                    let got: Vec<[u8; std::mem::size_of::<T>()]> = it.map(|v: T| v.to_be_bytes()).collect();
                    ensure!(got.len() <= n_all, "{} pixels, the header gives {n_all}", got.len());
                    same!(got, want, "bytes of the pixels");
                    Ok(want.len() + 1)
                })
            };
        }
        let what = format!("BITPIX {b}, image in HDU {at}, {} of {} data bytes present, reader {which}", data.len(), u.data.len());
        c.case("pixels", &bytes, what, || match which {
            0 => run!(Cursor::new(&bytes[..])),
            1 => run!(Cursor::new(bytes.clone())),
            2 => run!(Short::new(&bytes, 9)),
            _ => run!(BufReader::with_capacity(50, Short::new(&bytes, 400))),
        });
    }
    "images of the six pixel types with 0 to 4 axes, first or later in the file, complete or cut anywhere, followed by other HDUs or not, random bit patterns (NaN payloads included), four readers with short reads and interruptions. Non-trivial: every pixel's bytes and their number compared with the file"
}

pub fn c08(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for k in 0..c.iters(2500) {
        let (bytes, at, u, b) = an_image(&mut rng, 7);
        let n = u.data.len() / bitpix_size(b);
        // None: the next value; Some(i): the value at i
        let ops: Vec<Option<usize>> = (0..rng.range(1, 30))
            .map(|_| match rng.below(6) {
                0 => Some(rng.below(n + 3)),
                1 => Some(*rng.pick(&[0, n.saturating_sub(1), n, n + 1, usize::MAX, usize::MAX / 2, usize::MAX / 8 + 1, 1 << 63])),
                2 => Some(n.saturating_sub(rng.range(1, 3))),
                3 => Some(rng.below(3)),
                _ => None,
            })
            .collect();
        let which = k % 3;
        macro_rules! run {
            ($r:expr) => {
                with_pixels!($r, at, |it, T| {
                    let mut it = it;
                    let s = std::mem::size_of::<T>();
                    let at = |i: usize| -> Option<Vec<u8>> { u.data.get(i * s..i * s + s).map(|x| x.to_vec()) };
                    let mut next = 0;
                    for (j, op) in ops.iter().enumerate() {
                        match op {
                            None => {
                                let g = it.next().map(|v: T| v.to_be_bytes().to_vec());
                                let w = if next < n { at(next) } else { None };
                                same!(g, w, "operation {j}: next value, index {next}");
                                if next < n {
                                    next += 1;
                                }
                            }
                            Some(i) => {
                                let g = it.read_value(*i).ok().map(|v: T| v.to_be_bytes().to_vec());
                                let w = if *i < n { at(*i) } else { None };
                                same!(g, w, "operation {j}: value {i} of {n}");
                                if *i < n {
                                    next = i + 1;
                                }
                            }
                        }
                    }
                    Ok(ops.len())
                })
            };
        }
        c.case("history", &bytes, format!("BITPIX {b}, {n} pixels, image in HDU {at}; next or index: {ops:?}"), || match which {
            0 => run!(Cursor::new(&bytes[..])),
            1 => run!(Short::new(&bytes, 9)),
            _ => run!(BufReader::with_capacity(64, Short::new(&bytes, 100))),
        });
    }
    crate::p_large::values(c);
    "histories of up to 30 operations (next value, value at an index inside, at the limits of and far outside the image) on images of the six pixel types, of up to 2^50 bytes for some. Non-trivial: every returned value or refusal compared with the bytes of the file"
}

pub fn c09(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(1500) {
        let n = rng.range(1, 4);
        let units: Vec<(Unit, Kind)> = (0..n).map(|i| any_unit(&mut rng, i == 0)).collect();
        let mut bytes: Vec<u8> = units.iter().flat_map(|u| u.0.bytes()).collect();
        let last = units[n - 1].0.data.len();
        let mut present = last;
        if rng.chance(1, 3) {
            present = rng.below(last + 1);
            let cut = last.div_ceil(2880) * 2880 - present;
            bytes.truncate(bytes.len() - cut);
        }
        let plan: Vec<usize> = (0..n).map(|_| rng.below(4)).collect();
        c.case("raw", &bytes, format!("what is read first: {plan:?}; {present} of {last} bytes of the last data unit present"), || {
            let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
            let mut facts = 0;
            for (i, (u, _)) in units.iter().enumerate() {
                let want = if i + 1 == n { &u.data[..present] } else { &u.data[..] };
                let hdu = match fits.next() {
                    Some(Ok(h)) => h,
                    o => return Err(format!("HDU {i} not read: {o:?}")),
                };
                match hdu {
                    HDU::Primary(h) | HDU::XImage(h) => {
                        same!(fits.get_data(&h).raw_bytes(), want, "raw bytes of image {i}");
                    }
                    HDU::XASCIITable(h) => {
                        let mut v = vec![];
                        fits.get_data(&h).read_to_end(&mut v).map_err(|e| e.to_string())?;
                        same!(&v[..], want, "text of table {i}");
                    }
                    HDU::XBinaryTable(h) => {
                        let x = h.get_header();
                        let main = x.get_parsed::<usize>("NAXIS1").unwrap() * x.get_parsed::<usize>("NAXIS2").unwrap();
                        let BinaryTableData::Table(mut t) = fits.get_data(&h) else { return Err("not a table".into()) };
                        match plan[i] {
                            0 => {
                                same!(t.raw_bytes(), want, "raw bytes of table {i}");
                                let mut v = vec![];
                                t.bytes().read_to_end(&mut v).map_err(|e| e.to_string())?;
                                same!(&v[..], &want[..main.min(want.len())], "bytes of the main table {i}");
                            }
                            1 => {
                                t.by_ref().take(5).count();
                                same!(t.raw_bytes(), want, "raw bytes of table {i} after reading 5 values");
                            }
                            2 => {
                                let _ = t.seek_to_row(1);
                                same!(t.raw_bytes(), want, "raw bytes of table {i} after going to a row");
                            }
                            _ => {
                                let r = t.row_iter();
                                let td = r.table_data();
                                same!(td.raw_bytes(), want, "raw bytes of table {i} through its rows");
                            }
                        }
                    }
                }
                facts += 1;
            }
            Ok(facts)
        });
    }
    "files of 1 to 4 HDUs of all kinds in memory, the last data unit possibly cut, raw bytes asked for at once or after reading some values. Non-trivial: the raw bytes of each data unit compared with the file"
}
