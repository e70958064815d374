//! Data units of more than 2 and 4 GB, on a file that is not stored: C05, C08, C11, C12, C15 and C17
use crate::ctx::Ctx;
use crate::fg::*;
use crate::p_table::{val, value_of, Val};
use crate::rd::{AsyncSparse, Sparse};
use crate::{ensure, same};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::{Fits, Pixels, HDU};
use std::io::Read;

/// Around a power of two, or any size up to 2^50
fn size(rng: &mut Rng) -> u64 {
    let p = 1u64 << *rng.pick(&[20, 30, 31, 32, 33, 34, 40, 45, 50]);
    match rng.below(4) {
        0 => p + rng.below(6000) as u64,
        1 => p - rng.below(6000) as u64,
        2 => p / 2880 * 2880,
        _ => p + rng.next() % p,
    }
}

/// A header and the size of its data unit: size is that of a field (8 bytes) times a number
fn unit(rng: &mut Rng, primary: bool) -> (Vec<u8>, u64, usize) {
    let n = size(rng);
    let k = if primary { 0 } else { rng.below(3) };
    match k {
        0 => {
            let b = *rng.pick(&BITPIX);
            let n = n / bitpix_size(b) as u64;
            let axes = if rng.chance(1, 2) { vec![n] } else { vec![1 + n / 1000, 1000] };
            (header(&image_cards(primary, b, &axes)), axes.iter().product::<u64>() * bitpix_size(b) as u64, 0)
        }
        1 => {
            let fields = vec![(1, "A8".to_string()), (10, "I6".to_string())];
            (header(&ascii_cards(17, n / 17, &fields)), n / 17 * 17, 1)
        }
        _ => {
            let cols = vec![Col::fixed(b'J', 1), Col::fixed(b'A', 7)];
            let heap = if rng.chance(1, 2) { size(rng) } else { rng.below(100) as u64 };
            (header(&bintable_cards(&cols, (n / 11) as usize, heap as usize, None)), n / 11 * 11 + heap, 2)
        }
    }
}

pub fn walk(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(300) {
        let n = rng.range(2, 4);
        let mut f = Sparse::new();
        let mut want = vec![];
        let mut headers = vec![];
        for i in 0..n {
            let (h, size, kind) = unit(&mut rng, i == 0);
            headers.extend_from_slice(&h);
            f.push(&h);
            want.push((f.len, size, kind));
            f.skip(size.div_ceil(2880) * 2880);
        }
        let uses: Vec<(usize, u64)> = want.iter().map(|w| (rng.below(4), rng.next() % w.1)).collect();
        c.case("large", &headers, format!("sizes and uses of the data units: {want:?} {uses:?}"), || {
            let mut fits = Fits::from_reader(f.clone());
            for (i, (pos, size, kind)) in want.iter().enumerate() {
                let hdu = match fits.next() {
                    Some(Ok(h)) => h,
                    o => return Err(format!("HDU {i} is not read: {o:?}")),
                };
                let k = match &hdu {
                    HDU::Primary(_) | HDU::XImage(_) => 0,
                    HDU::XASCIITable(_) => 1,
                    HDU::XBinaryTable(_) => 2,
                };
                same!(k, *kind, "kind of HDU {i}");
                same!(hdu.get_data_unit_byte_offset(), *pos, "offset of the data unit {i}");
                same!(hdu.get_data_unit_byte_size(), *size, "size of the data unit {i}");
                same!(fits.get_position_data_unit() as u64, *pos, "position of the data unit {i}");
                match uses[i] {
                    (0, _) => {
                        let mut b = [0u8; 20];
                        let _ = fits.read(&mut b);
                    }
                    (1, at) => {
                        if let HDU::XBinaryTable(h) = &hdu {
                            if let BinaryTableData::Table(mut t) = fits.get_data(h) {
                                let _ = t.seek_to_row((at / 11) as usize);
                                t.by_ref().take(5).count();
                            }
                        }
                    }
                    _ => {}
                }
            }
            ensure!(fits.next().is_none(), "an HDU after the last one");
            Ok(n)
        });
    }
}

/// Read asynchronously: the HDUs after data units of up to 2^36 bytes
pub fn walk_async(c: &mut Ctx) {
    use fitsrs::{AsyncFits, AsyncHDU};
    use futures::{executor::block_on, StreamExt};
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(80) {
        let n = rng.range(2, 4);
        let mut f = Sparse::new();
        let mut want = vec![];
        let mut headers = vec![];
        for i in 0..n {
            let (mut h, mut size, mut kind) = unit(&mut rng, i == 0);
            while size > 1 << 36 {
                (h, size, kind) = unit(&mut rng, i == 0);
            }
            headers.extend_from_slice(&h);
            f.push(&h);
            want.push((size, kind, rng.below(40)));
            f.skip(size.div_ceil(2880) * 2880);
        }
        c.case("large", &headers, format!("sizes and kinds of the data units, values read: {want:?}"), || {
            let mut fits = AsyncFits::from_reader(futures::io::BufReader::with_capacity(1 << 24, AsyncSparse(f.clone())));
            for (i, (size, kind, polls)) in want.iter().enumerate() {
                let hdu = match block_on(fits.next()) {
                    Some(Ok(h)) => h,
                    o => return Err(format!("HDU {i} is not read: {o:?}")),
                };
                let mut given = 0;
                let k = match &hdu {
                    AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => {
                        if let fitsrs::hdu::data::stream::DataStream::U8(mut st) = fits.get_data(h) {
                            for _ in 0..*polls {
                                given += block_on(st.next()).is_some_and(|v| v.is_ok()) as usize;
                            }
                        } else {
                            given = *polls;
                        }
                        0
                    }
                    AsyncHDU::XASCIITable(h) => {
                        let mut st = fits.get_data(h);
                        for _ in 0..*polls {
                            given += block_on(st.next()).is_some_and(|v| v.is_ok()) as usize;
                        }
                        1
                    }
                    AsyncHDU::XBinaryTable(h) => {
                        let mut st = fits.get_data(h);
                        for _ in 0..*polls {
                            given += block_on(st.next()).is_some_and(|v| v.is_ok()) as usize;
                        }
                        2
                    }
                };
                same!(k, *kind, "kind of HDU {i}");
                same!(given, *polls, "bytes given of the data unit {i} of {size} bytes");
            }
            ensure!(block_on(fits.next()).is_none(), "an HDU after the last one");
            Ok(n)
        });
    }
}

pub fn values(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(300) {
        let b = *rng.pick(&BITPIX);
        let s = bitpix_size(b);
        let n = (size(&mut rng) / s as u64).max(1);
        let h = header(&image_cards(true, b, &[n]));
        let mut f = Sparse::new();
        f.push(&h);
        let pos = f.len;
        f.skip((n * s as u64).div_ceil(2880) * 2880);
        let ops: Vec<Option<u64>> = (0..rng.range(1, 12))
            .map(|_| match rng.below(4) {
                0 => Some(rng.next() % n),
                1 => Some(n - 1 - rng.below(2).min(n as usize - 1) as u64),
                2 => Some(rng.below(5) as u64 % n),
                _ => None,
            })
            .collect();
        macro_rules! run {
            ($it:expr) => {{
                let mut it = $it;
                let mut next = 0u64;
                for (j, op) in ops.iter().enumerate() {
                    let g = match op {
                        None => it.next(),
                        Some(i) => {
                            next = *i;
                            it.read_value(*i as usize).ok()
                        }
                    };
                    let w = if next < n { Some(f.part(pos + next * s as u64, s)) } else { None };
                    same!(g.map(|v| v.to_be_bytes().to_vec()), w, "operation {j}: value {next} of {n}");
                    next = (next + 1).min(n);
                }
            }};
        }
        c.case("large", &h, format!("BITPIX {b}, {n} pixels; next or index: {ops:?}"), || {
            let mut fits = Fits::from_reader(f.clone());
            let Some(Ok(HDU::Primary(hdu))) = fits.next() else { return Err("the image is not read".into()) };
            match fits.get_data(&hdu).pixels() {
                Pixels::U8(it) => run!(it),
                Pixels::I16(it) => run!(it),
                Pixels::I32(it) => run!(it),
                Pixels::I64(it) => run!(it),
                Pixels::F32(it) => run!(it),
                Pixels::F64(it) => run!(it),
            }
            Ok(ops.len())
        });
    }
}

/// Rows, selected fields, and arrays stored in the heap when `var`
pub fn tables(c: &mut Ctx, var: bool) {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(300) {
        let nc = rng.range(1, 3);
        let mut cols: Vec<Col> = (0..nc)
            .map(|_| {
                let (t, r) = (*rng.pick(TYPES), *rng.pick(&[1usize, 2, 3, 7, 9, 1000, 1 << 20]));
                Col::fixed(t, r)
            })
            .collect();
        if var {
            for _ in 0..rng.range(1, 2) {
                let at = rng.below(cols.len() + 1);
                cols.insert(at, Col::var(*rng.pick(b"PQ"), *rng.pick(TYPES)));
            }
        }
        let w = row_width(&cols) as u64;
        let rows = (size(&mut rng) / w).max(1);
        let gap = if var && rng.chance(1, 2) { size(&mut rng) } else { 0 };
        let heap = if var { size(&mut rng) } else { 0 };
        let theap = if gap > 0 { Some((rows * w + gap) as usize) } else { None };
        let h = header(&bintable_cards(&cols, rows as usize, (gap + heap) as usize, theap));
        let mut f = Sparse::new();
        f.push(&empty_primary().bytes());
        f.push(&h);
        let pos = f.len;
        let heap_pos = pos + rows * w + gap;
        f.skip((rows * w + gap + heap).div_ceil(2880) * 2880);
        // (row to go to, fields, number of values to read)
        let ops: Vec<(u64, Vec<usize>, usize)> = (0..rng.range(1, 4))
            .map(|_| {
                let row = match rng.below(4) {
                    0 => rows - 1,
                    1 => rng.below(3) as u64 % rows,
                    _ => rng.next() % rows,
                };
                let mut sel: Vec<usize> = (0..cols.len()).filter(|_| rng.chance(1, 2)).collect();
                if sel.is_empty() {
                    sel.push(rng.below(cols.len()));
                }
                (row, sel, rng.range(1, 12))
            })
            .collect();
        // the descriptors of the rows that can be met
        for (row, _, k) in &ops {
            for r in *row..(*row + *k as u64 + 1).min(rows) {
                for (i, col) in cols.iter().enumerate().filter(|x| x.1.elem != 0) {
                    let o = pos + r * w + row_width(&cols[..i]) as u64;
                    let n = rng.range(1, 3) as u64;
                    let room = heap - 64;
                    let off = if rng.chance(1, 3) { room } else { rng.next() % room };
                    let d = if col.ty == b'P' {
                        let off = (off % (1 << 32)) as u32;
                        [(n as u32).to_be_bytes(), off.to_be_bytes()].concat()
                    } else {
                        [n.to_be_bytes(), off.to_be_bytes()].concat()
                    };
                    f.parts.push((o, d));
                }
            }
        }
        // the last operation reads whole rows
        let by_row = rng.chance(1, 2) && w < 4000;
        let what = format!("{:?}; {rows} rows, gap {gap}, heap of {heap} bytes; row, fields, values: {ops:?}{}", cols.iter().enumerate().map(|(i, c)| c.tform(i)).collect::<Vec<_>>(), if by_row { " (the last one: rows)" } else { "" });
        c.case("large", &h, what, || {
            let mut fits = Fits::from_reader(f.clone());
            fits.next();
            let hdu = match fits.next() {
                Some(Ok(HDU::XBinaryTable(h))) => h,
                o => return Err(format!("the table is not read: {o:?}")),
            };
            let BinaryTableData::Table(mut t) = fits.get_data(&hdu) else { return Err("not a plain table".into()) };
            for (j, (row, sel, k)) in ops.iter().enumerate() {
                let ids: Vec<ColumnId> = sel.iter().map(|i| ColumnId::Index(*i)).collect();
                t.select_fields(&ids);
                t.seek_to_row(*row as usize).map_err(|e| format!("row {row} is refused: {e}"))?;
                let rows_now = by_row && j + 1 == ops.len();
                let full = if rows_now { usize::MAX } else { *k };
                let mut want: Vec<Val> = vec![];
                let mut ends = vec![];
                let mut r = *row;
                while r < rows && (if rows_now { ends.len() } else { want.len() }) < *k {
                    for (i, col) in cols.iter().enumerate().filter(|x| sel.contains(&x.0)) {
                        let o = pos + r * w + row_width(&cols[..i]) as u64;
                        let (ty, n, base) = match col.ty {
                            b'P' => {
                                let d = f.part(o, 8);
                                (col.elem, u32::from_be_bytes(d[..4].try_into().unwrap()) as u64, heap_pos + u32::from_be_bytes(d[4..].try_into().unwrap()) as u64)
                            }
                            b'Q' => {
                                let d = f.part(o, 16);
                                (col.elem, u64::from_be_bytes(d[..8].try_into().unwrap()), heap_pos + u64::from_be_bytes(d[8..].try_into().unwrap()))
                            }
                            t => (t, col.repeat as u64, o),
                        };
                        let n = if ty == b'X' { n.div_ceil(8) } else { n };
                        let s = elem_size(ty);
                        for x in 0..n.min(full as u64) {
                            want.push(value_of(ty, i, x as usize, &f.part(base + x * s as u64, s)));
                        }
                    }
                    r += 1;
                    ends.push(want.len());
                }
                if rows_now {
                    let got: Vec<Vec<Val>> = t.row_iter().take(*k).map(|r| r.iter().map(val).collect()).collect();
                    let want: Vec<Vec<Val>> = ends.iter().enumerate().map(|(i, e)| want[if i == 0 { 0 } else { ends[i - 1] }..*e].to_vec()).collect();
                    same!(got, want, "operation {j}: {k} rows from row {row} of {rows}");
                    break;
                }
                want.truncate(*k);
                // when the rows are exhausted the iterator ends
                let got: Vec<Val> = t.by_ref().take(*k).map(|v| val(&v)).collect();
                same!(got, want, "operation {j}: {k} values from row {row} of {rows}");
            }
            Ok(ops.len())
        });
    }
}

/// Tiles anywhere in a large heap
pub fn tiles(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(200) {
        let n = rng.range(1, 5);
        let wide = rng.range(1, 7);
        let tiles: Vec<Vec<u8>> = (0..n).map(|_| rng.bytes(wide)).collect();
        let heap = size(&mut rng).max(1 << 20);
        let gap = if rng.chance(1, 2) { size(&mut rng) } else { 0 };
        let cols = vec![Col { name: Some("COMPRESSED_DATA".into()), ..Col::var(b'Q', b'B') }];
        let mut cards = bintable_cards(&cols, n, (gap + heap) as usize, if gap > 0 { Some(16 * n + gap as usize) } else { None });
        cards.extend([
            kv("ZIMAGE", "T"),
            kvs("ZCMPTYPE", "GZIP_1"),
            kvi("ZBITPIX", 8),
            kvi("ZNAXIS", 2),
            kvi("ZNAXIS1", wide as i128),
            kvi("ZNAXIS2", n as i128),
        ]);
        let h = header(&cards);
        let mut f = Sparse::new();
        f.push(&empty_primary().bytes());
        f.push(&h);
        let pos = f.len;
        f.skip((16 * n as u64 + gap + heap).div_ceil(2880) * 2880);
        let heap_pos = pos + 16 * n as u64 + gap;
        let places: Vec<u64> = (0..n as u64).map(|k| heap / n as u64 * k + rng.next() % (heap / n as u64 - 1000)).collect();
        for (r, t) in tiles.iter().enumerate() {
            let z = crate::p_tile::compress(&mut rng, crate::p_tile::Cmp::Gzip1, &t.iter().map(|p| *p as i32).collect::<Vec<_>>());
            f.parts.push((pos + 16 * r as u64, [(z.len() as u64).to_be_bytes(), places[r].to_be_bytes()].concat()));
            f.parts.push((heap_pos + places[r], z));
        }
        c.case("large", &h, format!("{n} tiles of {wide} pixels, gap {gap}, heap of {heap} bytes, tiles at {places:?}"), || {
            let mut fits = Fits::from_reader(f.clone());
            fits.next();
            let hdu = match fits.next() {
                Some(Ok(HDU::XBinaryTable(h))) => h,
                o => return Err(format!("the compressed image is not read: {o:?}")),
            };
            let BinaryTableData::TileCompressed(fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels::U8(p)) = fits.get_data(&hdu) else { return Err("not an image of 8 bit pixels".into()) };
            same!(p.collect::<Vec<u8>>(), tiles.concat(), "pixels");
            Ok(n * wide)
        });
    }
}
