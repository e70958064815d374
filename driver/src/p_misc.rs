//! C17 to C20: asynchronous reading, gzip files, robustness, the decoder of the image crate
use crate::ctx::Ctx;
use crate::fg::*;
use crate::p_hdu::{any_unit, Kind};
use crate::p_table::a_table;
use crate::p_tile::{compressed, tile_sizes, Cmp, Quant};
use crate::rd::{Chunks, Short};
use crate::refcard as spec;
use crate::{ensure, same};
use fitsrs::card::{Card, Value};
use fitsrs::gz::GzReader;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as TcPixels;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::data::stream::DataStream;
use fitsrs::{AsyncFits, AsyncHDU, FITSFile, Fits, Pixels, HDU};
use futures::executor::block_on;
use futures::StreamExt;
use std::io::{Cursor, Read};

// ---------------------------------------------------------------------------------------------- C17

fn chunks(data: &[u8], max: usize, pending: bool) -> Chunks {
    Chunks { data: data.to_vec(), pos: 0, max, pending, flip: false }
}

/// Reads the file asynchronously, `take[i]` values of the data unit i, and compares with the units
fn walk_async(bytes: &[u8], units: &[(Unit, Kind)], take: &[usize], cap: usize, max: usize, pending: bool) -> Result<usize, String> {
    let mut fits = AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, chunks(bytes, max, pending)));
    let mut facts = 0;
    for (i, ((u, kind), n)) in units.iter().zip(take).enumerate() {
        let hdu = match block_on(fits.next()) {
            Some(Ok(h)) => h,
            o => return Err(format!("HDU {i} ({kind:?}) is not read: {o:?}")),
        };
        let mut want: Vec<Card> = u.cards.iter().map(spec::card_in_header).collect();
        want.push(Card::End);
        macro_rules! bytes {
            ($st:expr, $n:expr) => {{
                let mut st = $st;
                let mut v: Vec<u8> = vec![];
                let mut over = 0;
                block_on(async {
                    for _ in 0..$n {
                        match st.next().await {
                            Some(Ok([x])) => v.extend(x.to_be_bytes()),
                            Some(Err(e)) => return Err(format!("data unit {i}: {e}")),
                            None => over += 1,
                        }
                    }
                    Ok(())
                })?;
                (v, over)
            }};
        }
        let (got, got_data, size, over) = match &hdu {
            AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => {
                ensure!(*kind == Kind::Image && matches!(&hdu, AsyncHDU::Primary(_)) == (i == 0), "wrong kind of HDU {i}");
                let c: Vec<Card> = h.get_header().cards().cloned().collect();
                let s = h.get_header().get_xtension().get_bitpix().byte_size();
                let (d, over) = match fits.get_data(h) {
                    DataStream::U8(st) => bytes!(st, *n),
                    DataStream::I16(st) => bytes!(st, *n),
                    DataStream::I32(st) => bytes!(st, *n),
                    DataStream::I64(st) => bytes!(st, *n),
                    DataStream::F32(st) => bytes!(st, *n),
                    DataStream::F64(st) => bytes!(st, *n),
                };
                (c, d, s, over)
            }
            AsyncHDU::XASCIITable(h) => {
                same!(*kind, Kind::Ascii, "kind of HDU {i}");
                let c = h.get_header().cards().cloned().collect();
                let (d, over) = bytes!(fits.get_data(h), *n);
                (c, d, 1, over)
            }
            AsyncHDU::XBinaryTable(h) => {
                same!(*kind, Kind::Bin, "kind of HDU {i}");
                let c = h.get_header().cards().cloned().collect();
                let (d, over) = bytes!(fits.get_data(h), *n);
                (c, d, 1, over)
            }
        };
        same!(got, want, "records of HDU {i}");
        let w = (n * size).min(u.data.len());
        same!(&got_data[..], &u.data[..w], "values of data unit {i}");
        same!(over, n - w / size, "values after the end of data unit {i}");
        facts += 3;
    }
    for _ in 0..2 {
        match block_on(fits.next()) {
            None => {}
            o => return Err(format!("nothing is expected after the last HDU, got {o:?}")),
        }
    }
    Ok(facts)
}

pub fn c17(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(1500) {
        let n = rng.range(1, 5);
        let units: Vec<(Unit, Kind)> = (0..n).map(|i| any_unit(&mut rng, i == 0)).collect();
        let bytes: Vec<u8> = units.iter().flat_map(|u| u.0.bytes()).collect();
        let take: Vec<usize> = (0..n)
            .map(|i| match rng.below(4) {
                0 => 0,
                1 => rng.below(30),
                2 => units[i].0.data.len() + rng.below(3),
                _ => rng.below(units[i].0.data.len() + 1),
            })
            .collect();
        let (cap, max) = (*rng.pick(&[1, 7, 80, 512, 2880, 8192]), *rng.pick(&[1, 79, 81, 1000, 100000]));
        c.case("walk", &bytes, format!("values read by data unit {take:?}; buffer of {cap}, reads of at most {max} bytes"), || {
            walk_async(&bytes, &units, &take, cap, max, false)
        });
    }
    // headers that are refused are refused in both ways
    for _ in 0..c.iters(1500) {
        let (mut u, _) = any_unit(&mut rng, true);
        u.cards.truncate(30);
        match rng.below(6) {
            0 => u.cards[0] = *rng.pick(&[kv("SIMPLE", "F"), kv("SAMPLE", "T"), kvs("XTENSION", "IMAGE"), kvi("SIMPLE", 1)]),
            1 => {
                let i = rng.below(u.cards.len());
                u.cards.remove(i);
            }
            2 => u.cards.push(kv("BITPIX", rng.pick::<&str>(&["7", "'8'", "8.5", ""]))),
            3 => u.cards.push(kv("NAXIS", rng.pick::<&str>(&["-1", "9", "'1'", "9223372036854775807"]))),
            4 => u.cards.push(kvi("NAXIS1", -4)),
            _ => {}
        }
        // records of all sorts, some of which cannot be parsed
        for _ in 0..rng.below(4) {
            let mut r = match rng.below(4) {
                0 => rec(&rng.bytes(80)),
                1 => kv("BROKEN", rng.pick::<&str>(&["'not closed", "1.2.3", "TRUE?", "(1, 2)", "/"])),
                2 => rec(*rng.pick(&[&b"HIERARCH ESO NOTHING"[..], b"HIERARCH A B = 'x", b"CONTINUE  'text&'", b"COMMENT some text", b"", b"=", b"HISTORY\xff\xfe", b"lower = 3"])),
                _ => kvs("LONGSTR", "first&"),
            };
            if rng.chance(1, 4) {
                r[rng.below(80)] = rng.below(256) as u8;
            }
            if r.starts_with(b"END     ") {
                continue;
            }
            let at = rng.range(1, u.cards.len().max(1)).min(u.cards.len());
            u.cards.insert(at, r);
        }
        let bytes = u.bytes();
        c.case("refused", &bytes, "first HDU both ways", || {
            let sync = Fits::from_reader(Cursor::new(&bytes[..])).next();
            let mut f = AsyncFits::from_reader(futures::io::BufReader::new(chunks(&bytes, 500, false)));
            let first = block_on(f.next());
            match (&sync, &first) {
                (Some(Ok(HDU::Primary(a))), Some(Ok(AsyncHDU::Primary(b)))) => {
                    ensure!(a.get_header() == b.get_header(), "the headers differ");
                }
                (Some(Err(_)), Some(Err(_))) => {
                    ensure!(block_on(f.next()).is_none(), "the iteration goes on after an error");
                }
                _ => return Err(format!("read synchronously: {sync:?}; asynchronously: {first:?}")),
            }
            Ok(1)
        });
    }
    // a reader that is not always ready
    let mut r2 = Rng::new(7);
    let units: Vec<(Unit, Kind)> = (0..2).map(|i| (image(&mut r2, i == 0, 16, &[10]), Kind::Image)).collect();
    let bytes: Vec<u8> = units.iter().flat_map(|u| u.0.bytes()).collect();
    c.known("async-pending", "not ready", &bytes, "two images, the reader is not ready every other time, 100 bytes at a time", || {
        walk_async(&bytes, &units, &[3, 3], 100, 100, true)
    });
    crate::p_large::walk_async(c);
    "files of 1 to 5 HDUs of all kinds (and data units of up to 2^36 bytes, not stored) read asynchronously with buffers of 1 to 8192 bytes over reads of 1 byte and more, any number of values of each data unit, and headers that are refused or hold records that cannot be parsed. Non-trivial: kind, records, values and end of every HDU compared with the units of the file, and refusals with the synchronous reader"
}

// ---------------------------------------------------------------------------------------------- C18

/// What the library gives for a whole file
macro_rules! digest {
    ($fits:expr) => {{
        let mut fits = $fits;
        let mut out: Vec<String> = vec![];
        while let Some(h) = fits.next() {
            let Ok(h) = h else {
                out.push("error".into());
                continue;
            };
            out.push(format!("{} {}", h.get_data_unit_byte_offset(), h.get_data_unit_byte_size()));
            match &h {
                HDU::Primary(x) | HDU::XImage(x) => {
                    out.push(format!("{:?}", x.get_header()));
                    out.push(match fits.get_data(x).pixels() {
                        Pixels::U8(i) => format!("{:?}", i.collect::<Vec<_>>()),
                        Pixels::I16(mut i) => format!("{:?} {:?}", i.read_value(1).ok(), i.collect::<Vec<_>>()),
                        Pixels::I32(i) => format!("{:?}", i.collect::<Vec<_>>()),
                        Pixels::I64(i) => format!("{:?}", i.collect::<Vec<_>>()),
                        Pixels::F32(i) => format!("{:?}", i.map(|f| f.to_bits()).collect::<Vec<_>>()),
                        Pixels::F64(i) => format!("{:?}", i.map(|f| f.to_bits()).collect::<Vec<_>>()),
                    });
                }
                HDU::XASCIITable(x) => {
                    out.push(format!("{:?}", x.get_header()));
                    let mut v = vec![];
                    let _ = fits.get_data(x).read_to_end(&mut v);
                    out.push(format!("{v:?}"));
                }
                HDU::XBinaryTable(x) => {
                    out.push(format!("{:?}", x.get_header()));
                    out.push(match fits.get_data(x) {
                        BinaryTableData::Table(t) => format!("{:?}", t.row_iter().map(|r| r.iter().map(crate::p_table::val).collect::<Vec<_>>()).collect::<Vec<_>>()),
                        BinaryTableData::TileCompressed(TcPixels::I32(p)) => format!("{:?}", p.collect::<Vec<_>>()),
                        BinaryTableData::TileCompressed(_) => "image".into(),
                    });
                }
            }
        }
        out
    }};
}

pub fn c18(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    let dir = std::env::temp_dir().join(format!("fits-driver-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for k in 0..c.iters(500) {
        let n = rng.range(1, 4);
        let mut bytes: Vec<u8> = (0..n).flat_map(|i| any_unit(&mut rng, i == 0).0.bytes()).collect();
        if rng.chance(1, 3) {
            let u = compressed(&mut rng, Cmp::Gzip1, 32, &[4, 4], &[4, 1], &vec![vec![1, 2, 3, 4]; 4], None, true);
            bytes.extend(u.bytes());
        }
        // an array that lies after the end of the file, in a table that goes on
        if rng.chance(1, 4) {
            let mut t = crate::p_table::a_table(&mut rng, true, 6);
            let (w, far) = (row_width(&t.cols), rng.range(100_000, 1_000_000) as u64);
            let at: Vec<usize> = (0..t.cols.len()).filter(|&i| t.cols[i].elem != 0).collect();
            let (i, r) = (*rng.pick(&at), rng.below(t.rows.max(1)));
            let o = r * w + row_width(&t.cols[..i]);
            if t.rows > 0 {
                if t.cols[i].ty == b'P' {
                    t.unit.data[o..o + 8].copy_from_slice(&((3u64 << 32) | far).to_be_bytes());
                } else {
                    t.unit.data[o..o + 16].copy_from_slice(&((3u128 << 64) | far as u128).to_be_bytes());
                }
            }
            bytes.extend(t.unit.bytes());
        }
        if rng.chance(1, 6) {
            let n = rng.below(bytes.len());
            bytes.truncate(n);
        }
        // descriptors and sizes that lead outside the file
        if rng.chance(1, 4) {
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(bytes.len());
                bytes[i] ^= 1 << rng.below(8);
            }
        }
        let zipped = gzip_as(&mut rng, &bytes);
        let dir = &dir;
        let max = *rng.pick(&[1, 7, 100, 4000, 100000]);
        c.case("file", &bytes, format!("{} bytes compressed to {}", bytes.len(), zipped.len()), || {
            let want = digest!(Fits::from_reader(Cursor::new(&bytes[..])));
            let r = GzReader::new(Cursor::new(&zipped[..])).map_err(|e| format!("compressed: {e}"))?;
            same!(digest!(Fits::from_reader(r)), want, "compressed");
            let r = GzReader::new(Cursor::new(&bytes[..])).map_err(|e| format!("not compressed: {e}"))?;
            same!(digest!(Fits::from_reader(r)), want, "not compressed");
            for b in [&bytes, &zipped] {
                let r = GzReader::new(Short::new(b, max)).map_err(|e| format!("at most {max} bytes at a time: {e}"))?;
                same!(digest!(Fits::from_reader(r)), want, "at most {max} bytes at a time");
            }
            if k % 4 == 0 {
                for (name, b) in [("a.fits", &bytes), ("a.fits.gz", &zipped)] {
                    let p = dir.join(name);
                    std::fs::write(&p, b).unwrap();
                    let f = FITSFile::open(&p).map_err(|e| format!("opening {name}: {e}"))?;
                    same!(digest!(f), want, "{name}");
                }
            }
            Ok(want.len())
        });
        // the reader itself, moved about
        c.case("reader", &bytes, "reads and seeks", || {
            use std::io::{Seek, SeekFrom};
            let mut a = Cursor::new(&bytes[..]);
            let mut b = GzReader::new(Cursor::new(&zipped[..])).map_err(|e| format!("compressed: {e}"))?;
            for k in 0..12 {
                let n = bytes.len() as i64;
                let at = a.position() as i64;
                let to = match rng.below(4) {
                    0 => Some(SeekFrom::Start(rng.below(bytes.len() * 2) as u64)),
                    1 => Some(SeekFrom::End(rng.below(bytes.len() * 2) as i64 - n)),
                    2 => Some(SeekFrom::Current(rng.below(bytes.len() * 2) as i64 - at)),
                    _ => None,
                };
                if let Some(to) = to {
                    same!(b.seek(to).ok(), a.seek(to).ok(), "seek {k} {to:?} from {at}");
                }
                let mut x = vec![0; rng.below(3000)];
                let mut y = x.clone();
                let ok = a.read_exact(&mut x).is_ok();
                same!(b.read_exact(&mut y).is_ok(), ok, "end of read {k} from {}", a.position());
                if ok {
                    same!(y, x, "read {k}");
                } else {
                    // (where a failed read leaves a reader is not said)
                    a.set_position(0);
                    same!(b.seek(SeekFrom::Start(0)).ok(), Some(0), "seek {k}");
                }
            }
            Ok(12)
        });
        // a damaged compressed file is refused, or read as the original
        let mut bad = gzip(&bytes);
        if rng.chance(1, 2) {
            bad.truncate(rng.range(10, bad.len() - 1));
        } else {
            let i = rng.range(10, bad.len() - 1);
            bad[i] ^= 1 << rng.below(8);
        }
        c.case("damaged", &bad, "a bit changed or the end missing", || {
            if let Ok(r) = GzReader::new(Cursor::new(&bad[..])) {
                let want = digest!(Fits::from_reader(Cursor::new(&bytes[..])));
                same!(digest!(Fits::from_reader(r)), want, "damaged file that is not refused");
            }
            Ok(1)
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
    // larger than usual buffers and limits
    let n = 70_000_000 + rng.below(10_000);
    let mut big = image(&mut rng, true, 16, &[]);
    big.cards = image_cards(true, 16, &[n as u64 / 2]);
    big.data = (0..n / 2 * 2).map(|i| (i >> 13) as u8).collect();
    let last = image(&mut rng, false, 32, &[50]);
    let (bytes, tail) = (file(&[big, last]), 2880 * 2);
    let zipped = gzip(&bytes);
    c.case("large", &zipped, format!("an image of {n} bytes and one of 200"), || {
        let r = GzReader::new(Cursor::new(&zipped[..])).map_err(|e| format!("compressed: {e}"))?;
        let mut fits = Fits::from_reader(r);
        ensure!(matches!(fits.next(), Some(Ok(HDU::Primary(_)))), "the first image is not read");
        let h = match fits.next() {
            Some(Ok(HDU::XImage(h))) => h,
            o => return Err(format!("the second image is not read: {o:?}")),
        };
        let Pixels::I32(it) = fits.get_data(&h).pixels() else {
            return Err("pixels of another type".into());
        };
        let got: Vec<u8> = it.flat_map(|v| v.to_be_bytes()).collect();
        same!(&got[..], &bytes[bytes.len() - tail + 2880..][..200], "the second image");
        let mut r = GzReader::new(Cursor::new(&zipped[..])).map_err(|e| format!("compressed: {e}"))?;
        let mut all = vec![];
        r.read_to_end(&mut all).map_err(|e| e.to_string())?;
        ensure!(all == bytes, "the bytes differ ({} instead of {})", all.len(), bytes.len());
        Ok(1)
    });
    let mut r2 = Rng::new(3);
    let bytes = file(&[image(&mut r2, true, 8, &[10]), image(&mut r2, false, 8, &[10])]);
    let mut two = gzip(&bytes[..4000]);
    two.extend(gzip(&bytes[4000..]));
    c.known("gzip-members", "members", &two, "two gzip members, cut at byte 4000", || {
        let want = digest!(Fits::from_reader(Cursor::new(&bytes[..])));
        let r = GzReader::new(Cursor::new(&two[..])).map_err(|e| e.to_string())?;
        same!(digest!(Fits::from_reader(r)), want, "two members");
        Ok(1)
    });
    "files of 1 to 5 HDUs of all kinds (tile compressed images included, complete, cut anywhere or with bits changed) compressed (at any level, with and without the optional parts of the gzip header) and not, in memory, read in pieces, and on disk, one of 70 MB; compressed files with a bit changed or cut. Non-trivial: every header, offset and value compared with those of the uncompressed file"
}

// ---------------------------------------------------------------------------------------------- C19

/// Uses everything the library offers on these bytes: nothing to compare, it must come back
fn exercise(bytes: &[u8], plan: u64) -> Result<usize, String> {
    let mut rng = Rng::new(plan);
    let mut facts = 0;
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    let lim = 3000;
    let mut hdus = 0;
    while let Some(h) = fits.next() {
        hdus += 1;
        if hdus > 40 {
            break;
        }
        let Ok(h) = h else {
            facts += 1;
            continue;
        };
        facts += 1;
        let (_, _) = (h.get_data_unit_byte_size(), h.get_data_unit_byte_offset());
        match &h {
            HDU::Primary(x) | HDU::XImage(x) => {
                let hd = x.get_header();
                let _ = (hd.get_parsed::<f64>("BZERO"), hd.get_parsed::<Option<i16>>("NAXIS1"), hd.get_parsed::<String>("OBJECT"));
                let _: Vec<_> = hd.cards().map(|c| format!("{c:?}").len()).collect();
                let _ = hd.get_keyword(&Value::Undefined);
                let _: Vec<_> = hd.iter().map(|(_, v)| v.unit().map(|u| u.len())).collect();
                if rng.chance(1, 3) {
                    let _ = fits.get_data(x).raw_bytes().len();
                } else {
                    macro_rules! go {
                        ($i:expr) => {{
                            let mut i = $i;
                            for _ in 0..20 {
                                let _ = i.read_value(rng.next() as usize >> rng.below(64));
                                let _ = i.next();
                            }
                            i.take(lim).count()
                        }};
                    }
                    match fits.get_data(x).pixels() {
                        Pixels::U8(i) => go!(i),
                        Pixels::I16(i) => go!(i),
                        Pixels::I32(i) => go!(i),
                        Pixels::I64(i) => go!(i),
                        Pixels::F32(i) => go!(i),
                        Pixels::F64(i) => go!(i),
                    };
                }
            }
            HDU::XASCIITable(x) => {
                let t = x.get_header().get_xtension();
                let _ = (t.get_tbcols().len(), t.get_tforms().len(), t.get_num_rows());
                let mut v = vec![];
                let _ = fits.get_data(x).read_to_end(&mut v);
            }
            HDU::XBinaryTable(x) => {
                let _ = x.get_header().get_xtension().find_field_by_ttype("A");
                let d = fits.get_data(x);
                match rng.below(3) {
                    0 => {
                        d.row_iter().take(200).count();
                    }
                    1 => {
                        let mut t = d.table_data();
                        let _ = t.raw_bytes().len();
                        for _ in 0..15 {
                            match rng.below(3) {
                                0 => {
                                    let _ = t.seek_to_row(rng.next() as usize >> rng.below(64));
                                }
                                1 => {
                                    let s: Vec<ColumnId> = (0..rng.below(4)).map(|_| ColumnId::Index(rng.below(6))).collect();
                                    t.select_fields(&s);
                                }
                                _ => {
                                    t.by_ref().take(rng.below(40)).count();
                                }
                            }
                        }
                    }
                    _ => match d {
                        BinaryTableData::Table(t) => {
                            t.take(lim).count();
                        }
                        BinaryTableData::TileCompressed(p) => {
                            macro_rules! go {
                                ($i:expr) => {{
                                    let mut i = $i;
                                    i.by_ref().take(lim).count();
                                    for _ in 0..5 {
                                        let _ = i.next();
                                    }
                                }};
                            }
                            match p {
                                TcPixels::U8(i) => go!(i),
                                TcPixels::I16(i) => go!(i),
                                TcPixels::I32(i) => go!(i),
                                TcPixels::F32(i) => go!(i),
                                TcPixels::F64(i) => go!(i),
                            }
                        }
                    },
                }
            }
        }
    }
    ensure!(hdus <= 40 || bytes.len() > 40 * 2880, "{hdus} HDUs in {} bytes", bytes.len());
    if plan % 4 == 0 {
        let mut f = AsyncFits::from_reader(futures::io::BufReader::new(chunks(bytes, 1000, false)));
        let mut n = 0;
        while let Some(Ok(h)) = block_on(f.next()) {
            n += 1;
            if n > 40 {
                break;
            }
            match h {
                AsyncHDU::Primary(x) | AsyncHDU::XImage(x) => {
                    macro_rules! go {
                        ($s:expr) => {{
                            let mut s = $s;
                            block_on(async {
                                for _ in 0..lim {
                                    match s.next().await {
                                        Some(Ok(_)) => {}
                                        _ => break,
                                    }
                                }
                            });
                        }};
                    }
                    match f.get_data(&x) {
                        DataStream::U8(s) => go!(s),
                        DataStream::I16(s) => go!(s),
                        DataStream::I32(s) => go!(s),
                        DataStream::I64(s) => go!(s),
                        DataStream::F32(s) => go!(s),
                        DataStream::F64(s) => go!(s),
                    }
                }
                AsyncHDU::XASCIITable(x) => {
                    let mut s = f.get_data(&x);
                    for _ in 0..100 {
                        let _ = block_on(s.next());
                    }
                }
                AsyncHDU::XBinaryTable(x) => {
                    let mut s = f.get_data(&x);
                    for _ in 0..100 {
                        let _ = block_on(s.next());
                    }
                }
            }
        }
        facts += 1;
    }
    if plan % 4 == 1 {
        if let Ok(r) = GzReader::new(Cursor::new(bytes)) {
            Iterator::take(Fits::from_reader(r), 50).count();
        }
        facts += 1;
    }
    if plan % 4 == 2 {
        decode(bytes).map(|_| ()).unwrap_or(());
        facts += 1;
    }
    Ok(facts)
}

fn some_file(rng: &mut Rng) -> Vec<u8> {
    let mut units = vec![any_unit(rng, true).0];
    for _ in 0..rng.below(3) {
        units.push(match rng.below(6) {
            0 => any_unit(rng, false).0,
            1 => a_table(rng, true, 5).unit,
            2 => a_table(rng, false, 5).unit,
            k => {
                let axes = vec![rng.range(1, 8) as u64, rng.range(1, 5) as u64];
                let tile = vec![rng.range(1, 8) as u64, rng.range(1, 3) as u64];
                let sizes = tile_sizes(&axes, &tile);
                let tiles: Vec<Vec<i32>> = sizes.iter().map(|n| (0..*n).map(|_| rng.below(300) as i32).collect()).collect();
                let cmp = *rng.pick(&[Cmp::Gzip1, Cmp::Gzip2, Cmp::Rice(32), Cmp::Rice(8)]);
                if k == 3 {
                    let q = Quant {
                        scale: vec![0.5; tiles.len()],
                        zero: vec![1.0; tiles.len()],
                        double: rng.chance(1, 2),
                        method: *rng.pick(&[None, Some("SUBTRACTIVE_DITHER_1"), Some("SUBTRACTIVE_DITHER_2")]),
                        blank: Some(3),
                        blank_field: rng.chance(1, 2),
                    };
                    let bp = *rng.pick(&[-32, -64]);
                    compressed(rng, cmp, bp, &axes, &tile, &tiles, Some(&q), false)
                } else {
                    let bp = *rng.pick(&[8, 16, 32]);
                    compressed(rng, cmp, bp, &axes, &tile, &tiles, None, false)
                }
            }
        });
    }
    file(&units)
}

fn damage(rng: &mut Rng, bytes: &mut Vec<u8>) {
    const VALUES: &[&str] = &[
        "0", "1", "2", "-1", "8", "9223372036854775807", "4294967296", "2147483648", "1000", "999", "T", "'1J'", "'0A'", "'PB'", "'1QM'", "'9X'", "''",
        "'999999999999999999999J'", "1.5", "", "32", "-64", "64", "16", "4611686018427387904", "1024", "10000", "-9223372036854775808", "'PE'", "'1D'",
    ];
    for _ in 0..rng.range(1, 5) {
        if bytes.is_empty() {
            return;
        }
        match rng.below(9) {
            // a value in a header
            0..=4 => {
                let n = bytes.len() / 80;
                let recs: Vec<usize> = (0..n).filter(|i| bytes[i * 80 + 8..i * 80 + 10] == *b"= ").collect();
                if recs.is_empty() {
                    continue;
                }
                let r = *rng.pick(&recs);
                let v = *rng.pick(VALUES);
                let name = bytes[r * 80..r * 80 + 10].to_vec();
                let mut card = rec(&name);
                card[10..10 + v.len()].copy_from_slice(v.as_bytes());
                bytes[r * 80..r * 80 + 80].copy_from_slice(&card);
            }
            5 => {
                // a whole record
                let n = bytes.len() / 80;
                if n == 0 {
                    continue;
                }
                let r = rng.below(n);
                const RECS: &[&[u8]] = &[
                    b"END", b"THEAP   = 9223372036854775807", b"THEAP   = 0", b"ZIMAGE  = T", b"ZCMPTYPE= 'GZIP_1'", b"ZCMPTYPE= 'RICE_1'",
                    b"ZBITPIX = -32", b"ZNAXIS  = 1", b"ZNAXIS1 = 0", b"ZTILE1  = 0", b"ZTILE1  = 9223372036854775807", b"TTYPE1  = 'COMPRESSED_DATA'",
                    b"TTYPE1  = 'ZSCALE'", b"TTYPE2  = 'ZZERO'", b"ZVAL1   = 0", b"ZNAME1  = 'BLOCKSIZE'", b"ZDITHER0= -5", b"ZQUANTIZ= 'SUBTRACTIVE_DITHER_2'",
                    b"CONTINUE  'x&'", b"LONG    = 'a&'", b"KEY     = '", b"KEY     = /", b"HIERARCH", b"HIERARCH =", b"HIERARCH A = ' / ", b"XTENSION= ", b"XTENSION= '",
                    b"BZERO   = 1E400", b"BSCALE  = 'x'", b"COMMENT \xff\xfe", b"\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9= \xe9", b"KEY     = '\xe9'\xe9", b"KEY     = 1 / [\xe9",
                ];
                let card = rec(rng.pick(RECS));
                bytes[r * 80..r * 80 + 80].copy_from_slice(&card);
            }
            6 => {
                let i = rng.below(bytes.len());
                bytes[i] = rng.next() as u8;
            }
            7 => {
                let i = rng.below(bytes.len());
                let n = rng.range(1, 16).min(bytes.len() - i);
                let v = *rng.pick(&[0u8, 0xff, 0x7f, 0x80]);
                bytes[i..i + n].fill(v);
            }
            _ => {
                if rng.chance(1, 3) {
                    let n = rng.below(bytes.len());
                    bytes.truncate(n);
                }
            }
        }
    }
}

pub fn c19(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    fitsrs::image_integration::register_fits_decoding_hook();
    for k in 0..c.iters(9000) {
        let mut bytes = some_file(&mut rng);
        damage(&mut rng, &mut bytes);
        c.case("damaged", &bytes, format!("plan {k}"), || exercise(&bytes, k as u64));
    }
    for k in 0..c.iters(1500) {
        // any records
        let mut bytes = vec![];
        bytes.extend(kv("SIMPLE", "T"));
        bytes.extend(kvi("BITPIX", 8));
        bytes.extend(kvi("NAXIS", 0));
        for _ in 0..rng.below(40) {
            let n = rng.below(81);
            let mut r = rec(&rng.bytes(n));
            if rng.chance(2, 3) {
                for b in r.iter_mut() {
                    *b = *rng.pick(b"'/= &ABCDEHIKNOTU019.+-\xe9\xc3\xa9[]");
                }
                if rng.chance(1, 2) {
                    r[8] = b'=';
                    r[9] = b' ';
                }
                if rng.chance(1, 4) {
                    let k = *rng.pick(&[b"CONTINUE", b"HIERARCH", b"XTENSION", b"COMMENT "]);
                    r[..8].copy_from_slice(k);
                }
            }
            bytes.extend(r);
        }
        bytes.extend(rec(b"END"));
        pad_to_block(&mut bytes, b' ');
        c.case("records", &bytes, format!("plan {k}"), || exercise(&bytes, k as u64));
    }
    for k in 0..c.iters(300) {
        let n = rng.below(9000);
        let bytes = rng.bytes(n);
        c.case("noise", &bytes, format!("plan {k}"), || exercise(&bytes, k as u64));
    }
    "valid files of all kinds (tables with arrays, images compressed in all ways) with up to five changes to values, records, bytes or length, headers of random records, and noise; every part of the library used on them: iteration, lookups, pixels in order and at random, tables with selections and jumps, compressed pixels, asynchronous reading, gzip detection, the image decoder. Non-trivial: the calls came back without panic within the time limit"
}

// ---------------------------------------------------------------------------------------------- C20

fn decode(bytes: &[u8]) -> Result<image::DynamicImage, String> {
    image::ImageReader::new(Cursor::new(bytes))
        .with_guessed_format()
        .map_err(|e| e.to_string())?
        .decode()
        .map_err(|e| e.to_string())
}

fn compare_image(bytes: &[u8], bitpix: i64, axes: &[u64], scale: (f64, f64), at: impl Fn(usize) -> f64) -> Result<usize, String> {
    let img = decode(bytes)?;
    let (w, h) = (axes[0] as usize, axes[1] as usize);
    same!((img.width() as usize, img.height() as usize), (w, h), "dimensions");
    let rgb = axes.get(2) == Some(&3);
    let (bscale, bzero) = scale;
    let phys = |v: f64| v * bscale + bzero;
    let plain = bscale == 1.0 && bzero == 0.0;
    let mut facts = 0;
    for y in 0..h {
        for x in 0..w {
            for ch in 0..if rgb { 3 } else { 1 } {
                let v = at(ch * w * h + y * w + x);
                let (got, want, tol): (f64, f64, f64) = match (&img, bitpix) {
                    (image::DynamicImage::ImageLuma8(i), 8) if !rgb => (i.get_pixel(x as u32, y as u32).0[0] as f64, phys(v).round().clamp(0.0, 255.0), 0.0),
                    (image::DynamicImage::ImageRgb8(i), 8) if rgb => (i.get_pixel(x as u32, y as u32).0[ch] as f64, phys(v).round().clamp(0.0, 255.0), 0.0),
                    (image::DynamicImage::ImageLuma16(i), 16) if !rgb => (i.get_pixel(x as u32, y as u32).0[0] as f64, phys(v).round().clamp(0.0, 65535.0), 0.0),
                    (image::DynamicImage::ImageRgb16(i), 16) if rgb => (i.get_pixel(x as u32, y as u32).0[ch] as f64, phys(v).round().clamp(0.0, 65535.0), 0.0),
                    (image::DynamicImage::ImageRgb32F(i), b) if b != 8 && b != 16 => {
                        let p = i.get_pixel(x as u32, y as u32).0;
                        if !rgb {
                            ensure!(p.iter().all(|q| q.to_bits() == p[0].to_bits()), "pixel ({x}, {y}) is not grey: {p:?}");
                        }
                        let w = match b {
                            32 => phys(v) / i32::MAX as f64,
                            64 => phys(v) / i64::MAX as f64,
                            _ => v as f32 as f64,
                        };
                        (p[ch] as f64, w, w.abs() * 1e-6)
                    }
                    _ => return Err(format!("image decoded as {:?} for BITPIX {bitpix}", img.color())),
                };
                let _ = plain;
                ensure!((got - want).abs() <= tol || (got.is_nan() && want.is_nan()) || got == want, "pixel ({x}, {y}), channel {ch}: stored {v}, expected {want}, got {got}");
                facts += 1;
            }
        }
    }
    Ok(facts)
}

pub fn c20(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    fitsrs::image_integration::register_fits_decoding_hook();
    for _ in 0..c.iters(2500) {
        let bitpix = *rng.pick(&BITPIX);
        let mut axes = vec![rng.range(1, 8) as u64, rng.range(1, 8) as u64];
        if rng.chance(1, 20) {
            axes[rng.below(2)] = rng.range(9, 900) as u64;
        }
        match rng.below(5) {
            0 => axes.push(1),
            1 | 2 => axes.push(3),
            _ => {}
        }
        let scale = if bitpix > 0 && rng.chance(1, 2) { *rng.pick(&[(1.0, 0.0), (1.0, 32768.0), (2.0, -100.0), (0.5, 10.0), (-1.0, 255.0), (1.0, 0.5), (0.5, 0.0), (2.0, 0.0), (-1.0, 0.0), (1.0, -7.0)]) } else { (1.0, 0.0) };
        let tiled = bitpix != 64 && rng.chance(1, 3);
        let at = rng.below(3);
        let mut units = vec![];
        let mut extra = vec![];
        // images without data are passed over
        let blank: Vec<u64> = match rng.below(6) {
            0 => vec![0],
            1 => vec![5, 0],
            2 => vec![0, 4, 3],
            _ => vec![],
        };
        // (a keyword that is absent stands for no scaling, or no offset)
        if scale.0 != 1.0 || rng.chance(1, 3) {
            extra.push(kv("BSCALE", &format!("{:?}", scale.0)));
        }
        if scale.1 != 0.0 || rng.chance(1, 3) {
            if rng.chance(1, 2) || f64::fract(scale.1) != 0.0 {
                extra.push(kv("BZERO", &format!("{:?}", scale.1)));
            } else {
                extra.push(kvi("BZERO", scale.1 as i128));
            }
        }
        if rng.chance(1, 2) {
            extra.reverse();
        }
        if tiled {
            // tiles as wide as the image
            let mut tile: Vec<u64> = axes.iter().map(|_| 1).collect();
            tile[0] = axes[0];
            if rng.chance(1, 2) {
                tile[1] = 1 + rng.below(axes[1] as usize) as u64;
            }
            let sizes = tile_sizes(&axes, &tile);
            let tiles: Vec<Vec<i32>> = sizes
                .iter()
                .map(|n| {
                    (0..*n)
                        .map(|_| match bitpix {
                            8 => rng.below(256) as i32,
                            16 => rng.next() as i16 as i32,
                            32 => rng.next() as i32,
                            _ => rng.below(1000) as i32 - 500,
                        })
                        .collect()
                })
                .collect();
            let q = Quant { scale: vec![0.25; tiles.len()], zero: vec![3.0; tiles.len()], double: false, method: None, blank: None, blank_field: false };
            let cmp = *rng.pick(&[Cmp::Gzip1, Cmp::Rice(32)]);
            let mut u = compressed(&mut rng, cmp, bitpix, &axes, &tile, &tiles, if bitpix < 0 { Some(&q) } else { None }, false);
            u.cards.extend(extra);
            units.push(image(&mut rng, true, 16, &blank));
            if at == 1 {
                units.push(ascii(&mut rng, 2));
            }
            units.push(u);
            let bytes = file(&units);
            // rows of tiles: the pixels of the image in order
            let mut pix = vec![0i32; axes.iter().product::<u64>() as usize];
            let (w, h, t) = (axes[0] as usize, axes[1] as usize, tile[1] as usize);
            let mut it = tiles.concat().into_iter();
            for z in 0..*axes.get(2).unwrap_or(&1) as usize {
                for y0 in (0..h).step_by(t) {
                    for y in y0..(y0 + t).min(h) {
                        for x in 0..w {
                            pix[(z * h + y) * w + x] = it.next().unwrap();
                        }
                    }
                }
            }
            c.case("tiles", &bytes, format!("ZBITPIX {bitpix}, {axes:?}, tiles {tile:?}, scale {scale:?}"), || {
                compare_image(&bytes, bitpix, &axes, scale, |i| if bitpix < 0 { (pix[i] as f32 * 0.25 + 3.0) as f64 } else { pix[i] as f64 })
            });
        } else {
            if at > 0 {
                units.push(if rng.chance(1, 2) { empty_primary() } else { image(&mut rng, true, -32, &blank) });
            }
            if at > 1 {
                units.push(if rng.chance(1, 2) { a_table(&mut rng, false, 3).unit } else { image(&mut rng, false, 16, &blank) });
            }
            let mut u = image(&mut rng, at == 0, bitpix, &axes);
            if bitpix < 0 && rng.chance(1, 3) {
                // floats are given as they are
                extra = vec![kv("BSCALE", "2.5"), kv("BZERO", "10.0")];
            }
            u.cards.extend(extra);
            let data = u.data.clone();
            units.push(u);
            units.push(image(&mut rng, false, 8, &[2, 2]));
            let bytes = file(&units);
            let s = bitpix_size(bitpix);
            c.case("image", &bytes, format!("BITPIX {bitpix}, {axes:?}, scale {scale:?}, HDU {at}"), || {
                compare_image(&bytes, bitpix, &axes, scale, |i| {
                    let b = &data[i * s..(i + 1) * s];
                    match bitpix {
                        8 => b[0] as f64,
                        16 => i16::from_be_bytes(b.try_into().unwrap()) as f64,
                        32 => i32::from_be_bytes(b.try_into().unwrap()) as f64,
                        64 => i64::from_be_bytes(b.try_into().unwrap()) as f64,
                        -32 => f32::from_be_bytes(b.try_into().unwrap()) as f64,
                        _ => f64::from_be_bytes(b.try_into().unwrap()),
                    }
                })
            });
        }
    }
    // no image with two axes
    for axes in [
        vec![], vec![5], vec![3], vec![4, 4, 2], vec![4, 4, 4], vec![2, 2, 6], vec![2, 2, 3, 2], vec![2, 2, 3, 1], vec![2, 2, 1, 3], vec![2, 2, 1, 1],
        vec![2, 2, 1, 5], vec![3, 3, 3, 3], vec![2, 1, 3, 3], vec![1, 1, 3, 1, 1], vec![2, 2, 1, 1, 3],
    ] {
        let first = image(&mut rng, true, 8, &axes);
        // (the first image with data is the one selected)
        let bytes = if first.data.is_empty() || rng.chance(1, 2) { file(&[first]) } else { file(&[first, image(&mut rng, false, 8, &[3, 2])]) };
        c.case("refused", &bytes, format!("{axes:?}"), || {
            ensure!(decode(&bytes).is_err(), "an image with axes {axes:?} is decoded");
            Ok(1)
        });
    }
    // tiles narrower than the image
    let mut r2 = Rng::new(5);
    let tiles = vec![vec![1, 2, 5, 6], vec![3, 4, 7, 8]];
    let u = compressed(&mut r2, Cmp::Gzip1, 8, &[4, 2], &[2, 2], &tiles, None, false);
    let bytes = file(&[empty_primary(), u]);
    c.known("image-narrow-tiles", "narrow", &bytes, "4 x 2 image with tiles of 2 x 2", || compare_image(&bytes, 8, &[4, 2], (1.0, 0.0), |i| (i + 1) as f64));
    "images of the six pixel types and compressed images (tiles as wide as the image) of up to 8 x 8 pixels (or to 900 in one direction), grey or with three planes, with scaling keywords, in the first or later HDUs (after tables and images without data), decoded through the image crate. Non-trivial: size, kind and every sample compared with the stored values"
}
