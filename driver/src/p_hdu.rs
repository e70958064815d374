//! C05 and C06: walking over the HDUs of a file, mandatory keywords and sizes
use crate::ctx::Ctx;
use crate::fg::*;
use crate::rd::Short;
use crate::refcard as spec;
use crate::{ensure, same};
use fitsrs::card::{Card, Value};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::{Fits, Pixels, HDU};
use std::io::{BufReader, Cursor, Read};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Image,
    Ascii,
    Bin,
}

/// What the user does with a data unit before asking for the next HDU
#[derive(Clone, Copy, Debug)]
pub enum Use {
    Nothing,
    /// k values in order
    Read(usize),
    /// the value of this index
    Jump(usize),
    /// everything
    All,
    /// tables: go to a row, read k values
    Row(usize, usize),
    /// tables: only the last field
    Select(usize),
    /// bytes taken from the underlying reader
    Raw(usize),
}

pub fn any_unit(rng: &mut Rng, primary: bool) -> (Unit, Kind) {
    let kind = if primary { Kind::Image } else { *rng.pick(&[Kind::Image, Kind::Ascii, Kind::Bin]) };
    let mut u = match kind {
        Kind::Image => {
            let axes: Vec<u64> = match rng.below(8) {
                0 => vec![],
                1 => vec![0],
                2 => vec![5, 0, 3],
                3 => vec![2880],
                4 => vec![1440, 2],
                _ => (0..rng.range(1, 4)).map(|_| rng.range(1, 12) as u64).collect(),
            };
            let b = *rng.pick(&BITPIX);
            image(rng, primary, b, &axes)
        }
        Kind::Ascii => {
            let rows = *rng.pick(&[0, 1, 2, 7, 120, 121]);
            ascii(rng, rows)
        }
        Kind::Bin => {
            let n = rng.range(1, 4);
            let mut cols = vec![];
            for _ in 0..n {
                let (t, r) = (*rng.pick(TYPES), rng.range(1, 4));
                cols.push(Col::fixed(t, r));
            }
            if rng.chance(1, 3) {
                cols.push(Col::var(*rng.pick(b"PQ"), *rng.pick(TYPES)));
            }
            let rows = *rng.pick(&[0usize, 1, 2, 5, 40]);
            let w = row_width(&cols);
            let heap = if cols.last().unwrap().elem != 0 { rng.range(16, 200) } else { rng.below(2) * rng.below(50) };
            let mut data = rng.bytes(w * rows + heap);
            if let Some(c) = cols.last().filter(|c| c.elem != 0) {
                for r in 0..rows {
                    let o = (r + 1) * w - c.width();
                    if c.ty == b'P' {
                        data[o..o + 4].copy_from_slice(&1u32.to_be_bytes());
                        data[o + 4..o + 8].copy_from_slice(&(rng.below(heap - 15) as u32).to_be_bytes());
                    } else {
                        data[o..o + 8].copy_from_slice(&1u64.to_be_bytes());
                        data[o + 8..o + 16].copy_from_slice(&(rng.below(heap - 15) as u64).to_be_bytes());
                    }
                }
            }
            Unit { cards: bintable_cards(&cols, rows, heap, None), data }
        }
    };
    let extra = match rng.below(5) {
        0 => 0,
        // the END record fills the block, or starts a new one
        1 => 36usize.wrapping_sub(u.cards.len() + 1) % 36,
        2 => (36usize.wrapping_sub(u.cards.len() + 1) % 36) + 1,
        _ => rng.below(90),
    };
    for i in 0..extra {
        u.cards.push(match rng.below(4) {
            0 => rec(b"COMMENT END of nothing"),
            1 => rec(format!("HISTORY {i}").as_bytes()),
            2 => rec(b""),
            _ => kvi(&format!("K{}", i % 20), i as i128),
        });
    }
    (u, kind)
}

fn any_use(rng: &mut Rng) -> Use {
    match rng.below(9) {
        0 | 1 => Use::Nothing,
        2 => Use::Read(1),
        3 => Use::Read(rng.below(40)),
        4 => Use::Jump(rng.below(50)),
        5 => Use::All,
        6 => Use::Row(rng.below(6), rng.below(9)),
        7 => Use::Select(rng.below(7)),
        _ => Use::Raw(rng.below(4000)),
    }
}

macro_rules! take {
    ($it:expr, $u:expr, $data:expr, $t:ty) => {{
        let mut it = $it;
        let s = std::mem::size_of::<$t>();
        let at = |i: usize| $data.get(i * s..(i + 1) * s).map(|b| <$t>::from_be_bytes(b.try_into().unwrap()));
        let n = $data.len() / s;
        match $u {
            Use::Read(k) => {
                for i in 0..k {
                    let w = at(i);
                    let g = it.next();
                    ensure!(g.map(|v| v.to_be_bytes()) == w.map(|v| v.to_be_bytes()), "value {i}: expected {w:?}, got {g:?}");
                }
            }
            Use::Jump(i) if i < n => {
                let w = at(i);
                let g = it.read_value(i).ok();
                ensure!(g.map(|v| v.to_be_bytes()) == w.map(|v| v.to_be_bytes()), "value {i}: expected {w:?}, got {g:?}");
            }
            Use::All | Use::Row(..) | Use::Select(..) => {
                same!(it.count(), n, "number of values");
            }
            _ => {}
        }
    }};
}

macro_rules! use_table {
    ($d:expr, $u:expr) => {
        match $d {
            BinaryTableData::Table(mut t) => match $u {
                Use::Read(k) => {
                    t.by_ref().take(k).count();
                }
                Use::Jump(i) => {
                    let _ = t.seek_to_row(i);
                }
                Use::All => {
                    t.row_iter().count();
                }
                Use::Row(i, k) => {
                    let _ = t.seek_to_row(i);
                    t.by_ref().take(k).count();
                }
                Use::Select(k) => {
                    t.select_fields(&[ColumnId::Index(k), ColumnId::Index(0)]);
                    t.by_ref().take(3 + k).count();
                }
                _ => {}
            },
            BinaryTableData::TileCompressed(_) => return Err("not a compressed image".into()),
        }
    };
}

/// Walks over a file with a script of uses, checking the HDUs against the units the file is made of.
/// `end`: whether an error is expected after the HDUs
macro_rules! walk {
    ($reader:expr, $units:expr, $script:expr, $err_at_end:expr) => {{
        let mut fits = Fits::from_reader($reader);
        let mut pos = 0u64;
        let mut facts = 0usize;
        for (i, ((u, kind), how)) in $units.iter().zip($script.iter()).enumerate() {
            let hdu = match fits.next() {
                Some(Ok(h)) => h,
                o => return Err(format!("HDU {i} ({kind:?}) is not read: {o:?}")),
            };
            let k = match &hdu {
                HDU::Primary(_) if i == 0 => Kind::Image,
                HDU::XImage(_) if i > 0 => Kind::Image,
                HDU::XASCIITable(_) => Kind::Ascii,
                HDU::XBinaryTable(_) => Kind::Bin,
                _ => return Err(format!("HDU {i}: wrong kind")),
            };
            same!(k, *kind, "kind of HDU {i}");
            pos += u.header_len() as u64;
            same!(hdu.get_data_unit_byte_offset(), pos, "offset of the data unit {i}");
            same!(fits.get_position_data_unit() as u64, pos, "position of the data unit {i}");
            same!(hdu.get_data_unit_byte_size(), u.data.len() as u64, "size of the data unit {i}");
            let mut want: Vec<Card> = u.cards.iter().map(spec::card_in_header).collect();
            want.push(Card::End);
            let got: Vec<Card> = match &hdu {
                HDU::Primary(h) | HDU::XImage(h) => h.get_header().cards().cloned().collect(),
                HDU::XASCIITable(h) => h.get_header().cards().cloned().collect(),
                HDU::XBinaryTable(h) => h.get_header().cards().cloned().collect(),
            };
            same!(got, want, "records of HDU {i}");
            facts += 5;
            let data = &u.data;
            match how {
                Use::Nothing => {}
                Use::Raw(n) => {
                    let mut b = vec![0; (*n).min(data.len())];
                    fits.read_exact(&mut b).map_err(|e| format!("raw bytes of data unit {i}: {e}"))?;
                    same!(&b[..], &data[..b.len()], "raw bytes of data unit {i}");
                }
                how => match &hdu {
                    HDU::Primary(h) | HDU::XImage(h) => {
                        match fits.get_data(h).pixels() {
                            Pixels::U8(it) => take!(it, *how, data, u8),
                            Pixels::I16(it) => take!(it, *how, data, i16),
                            Pixels::I32(it) => take!(it, *how, data, i32),
                            Pixels::I64(it) => take!(it, *how, data, i64),
                            Pixels::F32(it) => take!(it, *how, data, f32),
                            Pixels::F64(it) => take!(it, *how, data, f64),
                        };
                    }
                    HDU::XASCIITable(h) => {
                        let mut d = fits.get_data(h);
                        let n = match how {
                            Use::Read(n) => *n,
                            _ => data.len(),
                        };
                        let mut b = vec![0; n.min(data.len())];
                        d.read_exact(&mut b).map_err(|e| format!("text of HDU {i}: {e}"))?;
                        same!(&b[..], &data[..b.len()], "text of HDU {i}");
                    }
                    HDU::XBinaryTable(h) => use_table!(fits.get_data(h), *how),
                },
            }
            pos += (u.data.len() as u64).div_ceil(2880) * 2880;
        }
        if $err_at_end {
            match fits.next() {
                Some(Err(_)) => {}
                o => return Err(format!("an error is expected after the last HDU, got {o:?}")),
            }
        }
        for _ in 0..3 {
            match fits.next() {
                None => {}
                o => return Err(format!("nothing is expected after the end, got {o:?}")),
            }
        }
        Ok(facts + 1)
    }};
}

pub fn c05(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(1200) {
        let n = rng.range(1, 5);
        let units: Vec<(Unit, Kind)> = (0..n).map(|i| any_unit(&mut rng, i == 0)).collect();
        let script: Vec<Use> = (0..n).map(|_| any_use(&mut rng)).collect();
        let mut bytes: Vec<u8> = units.iter().flat_map(|u| u.0.bytes()).collect();
        // the end of the file
        let last = &units[n - 1].0;
        let pad = last.data.len().div_ceil(2880) * 2880 - last.data.len();
        let mut err = false;
        let tail = rng.below(10);
        match tail {
            8 | 9 => {
                // a header that is refused, in one of many ways, before one that is not
                let mut cards = image_cards(false, 8, &[]);
                match rng.below(6) {
                    0 => cards[1] = kvi("BITPIX", 7),
                    1 => cards[1] = kvs("BITPIX", "8"),
                    2 => cards[2] = kvi("NAXIS", -1),
                    3 => drop(cards.remove(1)),
                    4 => cards[0] = kvs("XTENSION", "BINTABLE"),
                    _ => cards[2] = kv("NAXIS", ""),
                }
                bytes.extend(header(&cards));
                bytes.extend(header(&image_cards(false, 8, &[])));
                err = true;
            }
            0 => bytes.truncate(bytes.len() - pad),
            1 => bytes.truncate(bytes.len() - pad / 2),
            2 => bytes.extend(rng.bytes(40)),
            3 => {
                bytes.extend(vec![0u8; 2880]);
                err = true;
            }
            4 => {
                // header cut after some records
                bytes.extend(kvs("XTENSION", "IMAGE"));
                bytes.extend(kvi("BITPIX", 8));
                err = true;
            }
            5 => {
                bytes.extend(header(&[kvs("XTENSION", "UNKNOWN"), kvi("BITPIX", 8), kvi("NAXIS", 0)]));
                err = true;
            }
            6 => {
                // END record, but the block is not complete
                let h = header(&image_cards(false, 8, &[]));
                bytes.extend(&h[..80 * 7]);
                err = true;
            }
            _ => {}
        }
        let which = rng.below(4);
        let ops = format!("end of file {tail}; reader {which}; {script:?}");
        c.case("walk", &bytes, ops, || match which {
            0 => walk!(Cursor::new(bytes.clone()), units, script, err),
            1 => walk!(Cursor::new(&bytes[..]), units, script, err),
            2 => walk!(Short::new(&bytes, 700), units, script, err),
            _ => walk!(BufReader::with_capacity(1000, Short::new(&bytes, 3000)), units, script, err),
        });
    }
    // the last data unit is cut: its HDU is there, then the end
    for _ in 0..c.iters(150) {
        let (p, k) = any_unit(&mut rng, true);
        let (u, kind) = any_unit(&mut rng, false);
        let units = [(p, k), (u, kind)];
        let mut bytes: Vec<u8> = units.iter().flat_map(|u| u.0.bytes()).collect();
        let data = units[1].0.data.len();
        let cut = rng.below(data.div_ceil(2880) * 2880 + 1);
        bytes.truncate(bytes.len() - cut);
        let script = [any_use(&mut rng), Use::Nothing];
        c.case("cut", &bytes, format!("last {cut} bytes missing; {script:?}"), || walk!(Cursor::new(&bytes[..]), units, script, false));
    }
    crate::p_large::walk(c);
    "files of 1 to 5 HDUs of all kinds, of up to 2^50 bytes for some (sizes around multiples of 2880, headers filling their last block exactly or not), each data unit used in one of nine ways (not at all, some values, jumps, rows, selected fields, raw bytes, everything) before the next HDU is asked for, through four readers; the file ends properly, without padding, with a few bytes, or with a broken header. Non-trivial: kind, offset, size and records of every HDU and the end of the iteration were compared with the units the file is made of"
}

// ---------------------------------------------------------------------------------------------- C06

struct Want {
    size: u64,
    naxis: Option<Vec<u64>>,
    bitpix: i64,
}

fn int(v: &[(String, Value)], k: &str) -> Option<i64> {
    v.iter().find(|(n, _)| n == k).and_then(|(_, v)| if let Value::Integer { value, .. } = v { Some(*value) } else { None })
}
fn int_of(u: &Unit, k: &str) -> i64 {
    let cards: Vec<Card> = u.cards.iter().map(spec::card_in_header).chain([Card::End]).collect();
    int(&spec::values(&cards), k).unwrap_or(0)
}
fn uint(v: &[(String, Value)], k: &str) -> Option<u64> {
    int(v, k).and_then(|i| u64::try_from(i).ok())
}
fn text(v: &[(String, Value)], k: &str) -> Option<String> {
    v.iter().find(|(n, _)| n == k).and_then(|(_, v)| if let Value::String { value, .. } = v { Some(value.clone()) } else { None })
}

/// Width of a field of a binary table; None when the format is not valid (the field does not count)
pub fn tform_width(t: &str) -> Option<u128> {
    let digits = t.len() - t.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    let (n, rest) = t.split_at(digits);
    let n: u128 = if n.is_empty() { 1 } else { n.parse::<u64>().map_or(1, |x| x as u128) };
    let mut ch = rest.chars();
    let ty = ch.next()?;
    Some(match ty {
        'L' | 'B' | 'A' => n,
        'X' => n.div_ceil(8),
        'I' => 2 * n,
        'J' | 'E' => 4 * n,
        'K' | 'D' | 'C' => 8 * n,
        'M' => 16 * n,
        'P' | 'Q' if n == 0 => 0,
        'P' | 'Q' => {
            ch.next().filter(|e| "LXBIJKAEDCM".contains(*e))?;
            if ty == 'P' {
                8
            } else {
                16
            }
        }
        _ => return None,
    })
}

fn accepted(kind: Kind, v: &[(String, Value)]) -> Option<Want> {
    let bitpix = int(v, "BITPIX").filter(|b| BITPIX.contains(b))?;
    let naxis = uint(v, "NAXIS")?;
    if kind == Kind::Image {
        let mut axes = vec![];
        for i in 1..=naxis {
            axes.push(uint(v, &format!("NAXIS{i}"))?);
        }
        let zero = axes.is_empty() || axes.contains(&0);
        let n = if zero { Some(0) } else { axes.iter().try_fold(1u64, |a, b| a.checked_mul(*b)) };
        let size = n.and_then(|n| n.checked_mul(bitpix_size(bitpix) as u64))?;
        return Some(Want { size, naxis: Some(axes), bitpix });
    }
    let (n1, n2) = (uint(v, "NAXIS1")?, uint(v, "NAXIS2")?);
    let (p, g) = (uint(v, "PCOUNT")?, uint(v, "GCOUNT")?);
    let tfields = uint(v, "TFIELDS")?;
    if bitpix != 8 || naxis != 2 || g != 1 || tfields > 999 {
        return None;
    }
    let size = n1.checked_mul(n2)?.checked_add(p)?;
    if kind == Kind::Ascii {
        if p != 0 {
            return None;
        }
    } else {
        if size > i64::MAX as u64 {
            return None;
        }
        let w: u128 = (1..=tfields).filter_map(|i| text(v, &format!("TFORM{i}")).and_then(|t| tform_width(&t))).sum();
        if w != n1 as u128 {
            return None;
        }
    }
    Some(Want { size, naxis: None, bitpix })
}

pub fn c06(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for n in 0..c.iters(12000) {
        let ext = rng.chance(3, 4);
        let (mut u, kind) = any_unit(&mut rng, !ext);
        u.cards.truncate(40);
        // change a mandatory record, or none
        const NAMES: &[&str] = &["BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "PCOUNT", "GCOUNT", "TFIELDS", "TFORM1", "TFORM2"];
        // what has no say in the size of the data unit
        const OTHERS: &[&str] = &["THEAP", "BLANK", "BSCALE", "BZERO", "EXTEND", "GROUPS", "TSCAL1", "TDIM1", "TNULL1", "ZBITPIX", "ZNAXIS", "ZNAXIS1", "EXTVER", "BLOCKED", "TBCOL1"];
        for _ in 0..rng.below(3) {
            let name = *rng.pick(OTHERS);
            let v = match rng.below(4) {
                0 => (int_of(&u, "NAXIS1") * int_of(&u, "NAXIS2") + rng.below(400) as i64).to_string(),
                1 => "T".into(),
                2 => "'(2,2)'".into(),
                _ => rng.below(5000).to_string(),
            };
            let at = rng.range(1, u.cards.len());
            u.cards.insert(at, kv(name, &v));
        }
        for _ in 0..rng.below(3) {
            let name = *rng.pick(NAMES);
            let v = match rng.below(14) {
                0 => "0".into(),
                1 => "1".into(),
                2 => "2".into(),
                3 => "3".into(),
                4 => "-1".into(),
                5 => "9223372036854775807".into(),
                6 => "4294967296".into(),
                7 => "'2'".into(),
                8 => "2.0".into(),
                9 => "T".into(),
                10 => "".into(),
                11 => format!("{}", *rng.pick(&[8, 16, 32, 64, -32, -64, 24, -8, 128, 999, 1000, 264, 2147483648u64 as i64])),
                12 => format!("'{}'", *rng.pick(&["1J", "3X", "9X", "0D", "0PJ(3)", "0QB", "0P", "PB", "1QM(5)", "P", "Z", "", "99999999999999999999J", "18446744073709551615M", "2305843009213693952K"])),
                _ => format!("{}", rng.below(40)),
            };
            let card = kv(name, &v);
            match rng.below(3) {
                // in place of the first one
                0 | 1 => {
                    if let Some(x) = u.cards.iter_mut().find(|x| x[..8] == card[..8]) {
                        *x = card;
                    } else {
                        u.cards.push(card);
                    }
                }
                // as well (the last one counts)
                _ => u.cards.push(card),
            }
        }
        let mut first_ok = true;
        match rng.below(20) {
            0 => {
                let i = rng.range(1, u.cards.len() - 1);
                u.cards.remove(i);
            }
            1 => {
                let i = rng.range(1, u.cards.len() - 1);
                u.cards.swap(0, i);
                first_ok = false;
            }
            2 => {
                u.cards[0] = if ext {
                    *rng.pick(&[kvs("XTENSION", "FOREIGN"), kv("SIMPLE", "T"), rec(b"XTENSION"), kvi("XTENSION", 3), kvs("xtension", "IMAGE")])
                } else {
                    *rng.pick(&[kv("SIMPLE", "F"), kv("SIMPLE", "'T'"), kvi("SIMPLE", 1), rec(b"SIMPLE"), kv("SAMPLE", "T"), kvs("XTENSION", "IMAGE")])
                };
                first_ok = false;
            }
            _ => {}
        }
        let mut cards: Vec<Card> = u.cards.iter().map(spec::card_in_header).collect();
        cards.push(Card::End);
        let want = if first_ok { accepted(kind, &spec::values(&cards)) } else { None };
        let mut bytes = if ext { empty_primary().bytes() } else { vec![] };
        bytes.extend(header(&u.cards));
        if n % 3 == 0 {
            bytes.extend(vec![0; 2880]);
        }
        c.case("header", &bytes, format!("{kind:?}"), || {
            let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
            if ext {
                ensure!(matches!(fits.next(), Some(Ok(HDU::Primary(_)))), "the primary HDU is not read");
            }
            let got = fits.next();
            match (&got, &want) {
                (Some(Ok(h)), Some(w)) => {
                    same!(h.get_data_unit_byte_size(), w.size, "size of the data unit");
                    match h {
                        HDU::Primary(h) | HDU::XImage(h) => {
                            let x = h.get_header().get_xtension();
                            same!(Some(x.get_naxis().to_vec()), w.naxis, "axes");
                            same!(x.get_bitpix() as i8 as i64, w.bitpix, "BITPIX");
                            same!(x.get_bitpix().byte_size(), bitpix_size(w.bitpix), "bytes per pixel");
                            same!(x.get_num_pixels(), w.size / bitpix_size(w.bitpix) as u64, "number of pixels");
                        }
                        HDU::XASCIITable(h) => {
                            let x = h.get_header().get_xtension();
                            same!(x.get_naxis1() * x.get_naxis2(), w.size, "rows and columns");
                        }
                        HDU::XBinaryTable(_) => {}
                    }
                    // the next HDU, wherever it is, is looked for without failure
                    let _ = fits.next();
                    same!(fits.next().is_none(), true, "end of the file");
                }
                (Some(Err(_)), None) => {
                    ensure!(fits.next().is_none(), "the iteration goes on after an error");
                }
                _ => return Err(format!("{} expected, got {got:?}", if want.is_some() { "a valid HDU" } else { "an error" })),
            }
            Ok(3)
        });
    }
    "headers of all kinds with up to two mandatory keywords changed (sizes around every limit, products that overflow, wrong types, repeated, missing), the first record changed or moved. Non-trivial: acceptance, data unit size, axes and pixel count compared with the reference formulas"
}
