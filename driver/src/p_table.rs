//! C10 to C13: tables
use crate::ctx::Ctx;
use crate::fg::*;
use crate::rd::Short;
use crate::{ensure, same};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::{ColumnId, DataValue};
use fitsrs::hdu::header::extension::asciitable::TFormAsciiTable;
use fitsrs::{Fits, HDU};
use std::io::{BufReader, Cursor, Read};

/// A value: type letter, field, index in the field, bytes
pub type Val = (char, usize, usize, Vec<u8>);

pub fn val(v: &DataValue) -> Val {
    let c = |c: &ColumnId| match c {
        ColumnId::Index(i) => *i,
        ColumnId::Name(_) => usize::MAX,
    };
    match v {
        DataValue::Logical { value, column, idx } => ('L', c(column), *idx, vec![*value as u8]),
        DataValue::Bit { byte, column, idx, .. } => ('X', c(column), *idx, vec![*byte]),
        DataValue::UnsignedByte { value, column, idx } => ('B', c(column), *idx, vec![*value]),
        DataValue::Short { value, column, idx } => ('I', c(column), *idx, value.to_be_bytes().to_vec()),
        DataValue::Integer { value, column, idx } => ('J', c(column), *idx, value.to_be_bytes().to_vec()),
        DataValue::Long { value, column, idx } => ('K', c(column), *idx, value.to_be_bytes().to_vec()),
        DataValue::Character { value, column, idx } => ('A', c(column), *idx, (*value as u32).to_be_bytes()[3..].to_vec()),
        DataValue::Float { value, column, idx } => ('E', c(column), *idx, value.to_be_bytes().to_vec()),
        DataValue::Double { value, column, idx } => ('D', c(column), *idx, value.to_be_bytes().to_vec()),
        DataValue::ComplexFloat { real, imag, column, idx } => {
            ('C', c(column), *idx, [real.to_be_bytes(), imag.to_be_bytes()].concat())
        }
        DataValue::ComplexDouble { real, imag, column, idx } => {
            ('M', c(column), *idx, [real.to_be_bytes(), imag.to_be_bytes()].concat())
        }
        DataValue::VariableLengthArray32 { num_elems, offset_byte } => ('P', *num_elems as usize, *offset_byte as usize, vec![]),
        DataValue::VariableLengthArray64 { num_elems, offset_byte } => ('Q', *num_elems as usize, *offset_byte as usize, vec![]),
    }
}

/// A binary table, and what reading it must give
#[derive(Clone, Debug)]
pub struct Tab {
    pub cols: Vec<Col>,
    pub rows: usize,
    pub theap: usize,
    pub unit: Unit,
}

pub fn value_of(ty: u8, col: usize, idx: usize, b: &[u8]) -> Val {
    let b = if ty == b'L' { vec![(b[0] == b'T') as u8] } else { b.to_vec() };
    (ty as char, col, idx, b)
}

impl Tab {
    /// The values of a row for the selected fields; None stands for an empty array
    pub fn row(&self, r: usize, sel: &[usize]) -> Vec<Option<Val>> {
        let w = row_width(&self.cols);
        let d = &self.unit.data;
        let mut v = vec![];
        for (i, c) in self.cols.iter().enumerate() {
            let o = r * w + row_width(&self.cols[..i]);
            if !sel.contains(&i) || c.width() == 0 {
                continue;
            }
            let (ty, n, base) = match c.ty {
                b'P' => (
                    c.elem,
                    u32::from_be_bytes(d[o..o + 4].try_into().unwrap()) as usize,
                    self.theap + u32::from_be_bytes(d[o + 4..o + 8].try_into().unwrap()) as usize,
                ),
                b'Q' => (
                    c.elem,
                    u64::from_be_bytes(d[o..o + 8].try_into().unwrap()) as usize,
                    self.theap + u64::from_be_bytes(d[o + 8..o + 16].try_into().unwrap()) as usize,
                ),
                t => (t, c.repeat, o),
            };
            let n = if ty == b'X' { n.div_ceil(8) } else { n };
            let s = elem_size(ty);
            for k in 0..n {
                v.push(Some(value_of(ty, i, k, &d[base + k * s..base + (k + 1) * s])));
            }
            if n == 0 {
                v.push(None);
            }
        }
        v
    }
    pub fn all(&self) -> Vec<usize> {
        (0..self.cols.len()).collect()
    }
}

/// Names of fields, some of which start or end as others do
const NAMES: [&str; 17] = ["FLUX ERR", " X", "F 1", "X.Y", "FLUX_ERR", "FLUX", "F", "X", "XY", "X_ERR", "F1", "F10", "ERR", "flux", "f", "Flux", "f1"];

pub fn a_table(rng: &mut Rng, var: bool, max_rows: usize) -> Tab {
    loop {
        let n = rng.range(1, 6);
        let (shift, step) = (rng.below(17), rng.range(1, 16));
        let mut cols: Vec<Col> = (0..n)
            .map(|i| {
                let mut c = if var && rng.chance(1, 2) {
                    Col::var(*rng.pick(b"PQ"), *rng.pick(TYPES))
                } else {
                    let r = *rng.pick(&[0, 1, 1, 1, 2, 3, 7, 8, 9, 17]);
                    Col::fixed(*rng.pick(TYPES), r)
                };
                if rng.chance(2, 3) {
                    c.name = Some(NAMES[(shift + i * step) % 17].to_string());
                }
                c
            })
            .collect();
        if var && !cols.iter().any(|c| c.elem != 0) {
            cols.push(Col::var(*rng.pick(b"PQ"), *rng.pick(TYPES)));
        }
        let w = row_width(&cols);
        if w == 0 {
            continue;
        }
        let least = if rng.chance(1, 10) { 0 } else { 1 };
        let rows = rng.range(least, max_rows);
        let gap = if var && rng.chance(1, 2) { rng.range(1, 40) } else { 0 };
        let theap = w * rows + gap;
        let mut data = rng.bytes(theap);
        let mut heap: Vec<u8> = rng.bytes(20);
        for r in 0..rows {
            for (i, c) in cols.iter().enumerate() {
                let o = r * w + row_width(&cols[..i]);
                if c.ty == b'L' {
                    for k in 0..c.repeat {
                        data[o + k] = *rng.pick(b"TFTF\0x");
                    }
                }
                if c.elem != 0 {
                    let n = *rng.pick(&[0usize, 0, 1, 2, 3, 5, 8, 9, 17]);
                    let nb = if c.elem == b'X' { n.div_ceil(8) } else { n * elem_size(c.elem) };
                    // in a new place, or sharing the bytes of others
                    let off = if heap.len() > nb && rng.chance(1, 4) { rng.below(heap.len() - nb) } else { heap.len() };
                    if off == heap.len() {
                        let b = if c.elem == b'L' { (0..nb).map(|_| *rng.pick(b"TF\0")).collect() } else { rng.bytes(nb) };
                        heap.extend(b);
                    }
                    if c.ty == b'P' {
                        data[o..o + 4].copy_from_slice(&(n as u32).to_be_bytes());
                        data[o + 4..o + 8].copy_from_slice(&(off as u32).to_be_bytes());
                    } else {
                        data[o..o + 8].copy_from_slice(&(n as u64).to_be_bytes());
                        data[o + 8..o + 16].copy_from_slice(&(off as u64).to_be_bytes());
                    }
                }
            }
        }
        let mut pcount = 0;
        if var {
            data.extend(heap);
            pcount = data.len() - w * rows;
        }
        let t = if gap > 0 || (var && rng.chance(1, 3)) { Some(theap) } else { None };
        let unit = Unit { cards: bintable_cards(&cols, rows, pcount, t), data };
        return Tab { cols, rows, theap, unit };
    }
}

pub fn in_file(rng: &mut Rng, u: &Unit) -> Vec<u8> {
    let mut units = vec![image(rng, true, 16, &[3, 5])];
    units.push(u.clone());
    if rng.chance(1, 3) {
        units.push(image(rng, false, 8, &[10]));
    }
    file(&units)
}

macro_rules! with_table {
    ($reader:expr, |$t:ident| $body:expr) => {{
        let mut fits = Fits::from_reader($reader);
        fits.next();
        let hdu = match fits.next() {
            Some(Ok(HDU::XBinaryTable(h))) => h,
            o => return Err(format!("the table is not read: {o:?}")),
        };
        let BinaryTableData::Table($t) = fits.get_data(&hdu) else { return Err("not a plain table".into()) };
        $body
    }};
}

/// Everything in order, value by value and row by row, then the next HDU
fn read_all(c: &mut Ctx, rng: &mut Rng, label: &str, tab: &Tab) {
    let bytes = in_file(rng, &tab.unit);
    let which = rng.below(3);
    let what = format!("{:?}; {} rows; reader {which}", tab.cols.iter().enumerate().map(|(i, c)| c.tform(i)).collect::<Vec<_>>(), tab.rows);
    let rows: Vec<Vec<Val>> = (0..tab.rows).map(|r| tab.row(r, &tab.all()).into_iter().flatten().collect()).collect();
    macro_rules! run {
        ($r:expr) => {{
            let flat: Vec<Val> = with_table!($r, |t| t.map(|v| val(&v)).collect());
            same!(flat, rows.concat(), "values");
            let by_row: Vec<Vec<Val>> = with_table!($r, |t| t.row_iter().map(|r| r.iter().map(val).collect()).collect());
            same!(by_row, rows, "rows");
            with_table!($r, |t| {
                let mut t = t;
                t.by_ref().count();
                ensure!(t.next().is_none() && t.next().is_none(), "a value after the end of the table");
                Ok(flat.len() + rows.len() + 1)
            })
        }};
    }
    c.case(label, &bytes, what, || match which {
        0 => run!(Cursor::new(&bytes[..])),
        1 => run!(Short::new(&bytes, 5)),
        _ => run!(BufReader::with_capacity(40, Short::new(&bytes, 60))),
    });
}

pub fn c10(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for ty in TYPES {
        for repeat in [1usize, 2, 7, 8, 9, 16, 33] {
            let cols = vec![Col::fixed(b'B', 1), Col::fixed(*ty, repeat), Col::fixed(b'I', 1)];
            let unit = bintable(&mut rng, &cols, 3);
            let tab = Tab { theap: 0, cols, rows: 3, unit };
            read_all(c, &mut rng, "type", &tab);
        }
    }
    for _ in 0..c.iters(2000) {
        let tab = a_table(&mut rng, false, 8);
        read_all(c, &mut rng, "table", &tab);
    }
    // description of the table, names of the fields
    for _ in 0..c.iters(400) {
        let tab = a_table(&mut rng, true, 5);
        let bytes = in_file(&mut rng, &tab.unit);
        c.case("description", &bytes, "", || {
            let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
            fits.next();
            let Some(Ok(HDU::XBinaryTable(h))) = fits.next() else { return Err("the table is not read".into()) };
            let x = h.get_header().get_xtension();
            same!(x.get_num_cols(), tab.cols.len(), "number of fields");
            same!(x.get_num_rows(), tab.rows, "number of rows");
            for (i, col) in tab.cols.iter().enumerate() {
                if let Some(n) = &col.name {
                    same!(x.find_field_by_ttype(n), Some(i), "index of field {n}");
                }
            }
            for n in NAMES.iter().filter(|n| !tab.cols.iter().any(|c| c.name.as_deref() == Some(**n))) {
                same!(x.find_field_by_ttype(n), None, "index of an absent field {n}");
            }
            Ok(3)
        });
    }
    crate::p_large::tables(c, false);
    "binary tables of 1 to 7 fields of the eleven fixed types with repeat counts 0 to 33, 0 to 8 rows of random bytes (some of up to 2^50 bytes), read value by value and row by row through three readers. Non-trivial: type, field, index and bytes of every value and the number of rows compared with the file"
}

#[derive(Clone, Debug)]
enum Op {
    Next(usize),
    Select(Vec<usize>, bool),
    Row(usize),
}

fn histories(c: &mut Ctx, rng: &mut Rng, label: &str, tab: &Tab) {
    let bytes = in_file(rng, &tab.unit);
    let ops: Vec<Op> = (0..rng.range(1, 12))
        .map(|_| match rng.below(5) {
            0 => {
                let sel = (0..rng.below(4)).map(|_| rng.below(tab.cols.len() + 1)).collect();
                Op::Select(sel, rng.chance(1, 3))
            }
            1 => Op::Row(rng.below(tab.rows + 1)),
            2 => Op::Next(rng.below(60)),
            _ => Op::Next(rng.below(5)),
        })
        .collect();
    let finish_by_row = rng.chance(1, 2);
    let which = rng.below(2);
    let what = format!(
        "{:?}; {} rows; {ops:?}; then {}; reader {which}",
        tab.cols.iter().enumerate().map(|(i, c)| c.tform(i)).collect::<Vec<_>>(),
        tab.rows,
        if finish_by_row { "row by row" } else { "value by value" }
    );
    macro_rules! run {
        ($r:expr) => {
            with_table!($r, |t| {
                let mut t = t;
                let mut sel = tab.all();
                let (mut row, mut pos) = (0usize, 0usize);
                let mut facts = 0;
                // what is left of the current row
                let advance = |sel: &[usize], row: &mut usize, pos: &mut usize| -> Option<Option<Val>> {
                    if *row >= tab.rows {
                        return None;
                    }
                    let vals = tab.row(*row, sel);
                    if vals.is_empty() {
                        return None;
                    }
                    let v = vals[*pos].clone();
                    *pos += 1;
                    if *pos == vals.len() {
                        *pos = 0;
                        *row += 1;
                    }
                    Some(v)
                };
                for (j, op) in ops.iter().enumerate() {
                    match op {
                        Op::Next(n) => {
                            for _ in 0..*n {
                                let want = loop {
                                    match advance(&sel, &mut row, &mut pos) {
                                        Some(Some(v)) => break Some(v),
                                        Some(None) => continue,
                                        None => break None,
                                    }
                                };
                                let got = t.next().map(|v| val(&v));
                                same!(got, want, "operation {j}, row {row}");
                                facts += 1;
                            }
                        }
                        Op::Select(s, by_name) => {
                            let ids: Vec<ColumnId> = s
                                .iter()
                                .map(|&i| {
                                    match tab.cols.get(i).and_then(|c| NAMES.iter().find(|n| c.name.as_deref() == Some(**n))) {
                                        Some(n) if *by_name => ColumnId::Name(n),
                                        _ => ColumnId::Index(i),
                                    }
                                })
                                .collect();
                            t.select_fields(&ids);
                            sel = s.iter().copied().filter(|i| *i < tab.cols.len()).collect();
                            pos = 0;
                        }
                        Op::Row(i) => {
                            let r = t.seek_to_row(*i);
                            same!(r.is_ok(), *i < tab.rows, "operation {j}: going to row {i} of {}", tab.rows);
                            if *i < tab.rows {
                                row = *i;
                                pos = 0;
                            }
                        }
                    }
                }
                let mut rest: Vec<Vec<Val>> = vec![];
                while row < tab.rows && !tab.row(row, &sel).is_empty() {
                    let r = row;
                    let mut v = vec![];
                    while row == r {
                        v.extend(advance(&sel, &mut row, &mut pos).unwrap());
                    }
                    rest.push(v);
                }
                if finish_by_row {
                    let got: Vec<Vec<Val>> = t.row_iter().map(|r| r.iter().map(val).collect()).collect();
                    same!(got, rest, "remaining rows");
                } else {
                    let got: Vec<Val> = t.map(|v| val(&v)).collect();
                    same!(got, rest.concat(), "remaining values");
                }
                Ok(facts + 1)
            })
        };
    }
    c.case(label, &bytes, what, || match which {
        0 => run!(Cursor::new(&bytes[..])),
        _ => run!(BufReader::with_capacity(64, Short::new(&bytes, 30))),
    });
}

pub fn c11(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(4000) {
        let var = rng.chance(1, 4);
        let tab = a_table(&mut rng, var, 5);
        histories(c, &mut rng, "history", &tab);
    }
    crate::p_large::tables(c, false);
    "histories of up to 12 operations (read k values, select fields by index or name, some out of range, repeated or unordered, go to a row) on tables of 1 to 7 fields (of up to 2^50 bytes for some), the rest then read value by value or row by row. Non-trivial: every value compared with a model that holds the selected fields, the row and the place in the row"
}

pub fn c12(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for ty in TYPES {
        for desc in *b"PQ" {
            for _ in 0..6 {
                let mut tab = a_table(&mut rng, true, 6);
                while !tab.cols.iter().any(|c| c.elem == *ty && c.ty == desc) {
                    tab = a_table(&mut rng, true, 6);
                }
                read_all(c, &mut rng, "array", &tab);
            }
        }
    }
    for _ in 0..c.iters(2500) {
        let tab = a_table(&mut rng, true, 8);
        read_all(c, &mut rng, "arrays", &tab);
    }
    for _ in 0..c.iters(1200) {
        let tab = a_table(&mut rng, true, 5);
        histories(c, &mut rng, "history", &tab);
    }
    crate::p_large::tables(c, true);
    "tables mixing fixed fields with 32 and 64 bit array descriptors of the eleven element types, arrays of 0 to 17 elements stored in any order, sharing bytes, with and without a gap before the heap, read value by value, row by row and through histories of selections and jumps. Non-trivial: every value and row compared with the descriptors and the heap in the file"
}

fn ascii_form(t: &str) -> Option<TFormAsciiTable> {
    let t = t.trim_end();
    let (k, rest) = (t.chars().next()?, t.get(1..)?);
    let num = |s: &str| if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) { s.parse::<usize>().ok() } else { None };
    let wd = || rest.split_once('.').and_then(|(w, d)| Some((num(w)?, num(d)?)));
    Some(match k {
        'A' => TFormAsciiTable::Character { w: num(rest)? },
        'I' => TFormAsciiTable::DecimalInteger { w: num(rest)? },
        'F' => {
            let (w, d) = wd()?;
            TFormAsciiTable::FloatingPointFixed { w, d }
        }
        'E' => {
            let (w, d) = wd()?;
            TFormAsciiTable::EFloatingPointExp { w, d }
        }
        'D' => {
            let (w, d) = wd()?;
            TFormAsciiTable::DFloatingPointExp { w, d }
        }
        _ => return None,
    })
}

pub fn c13(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(3000) {
        let n = *rng.pick(&[0usize, 1, 2, 3, 5, 12, 30]);
        let (w, rows) = (rng.range(0, 60) as u64, rng.below(9) as u64);
        let fields: Vec<(u64, String)> = (0..n)
            .map(|_| {
                let f = match rng.below(8) {
                    0 => format!("A{}", rng.below(30)),
                    1 => format!("I{}", rng.below(12)),
                    2 => format!("F{}.{}", rng.below(12), rng.below(9)),
                    3 => format!("E{}.{}", rng.below(12), rng.below(9)),
                    4 => format!("D{}.{}", rng.below(12), rng.below(9)),
                    5 => rng.pick(&["A", "I", "F8", "E8.", "D.3", "X5", "", "5A", "a8", "F8.3.2", "A 8", "I8.3", "A99999999999999999999", "é8"]).to_string(),
                    _ => format!("A{}", rng.range(1, 300)),
                };
                (rng.below(70) as u64, f)
            })
            .collect();
        let mut cards = ascii_cards(w, rows, &fields);
        let mut cols: Vec<Option<u64>> = fields.iter().map(|f| Some(f.0)).collect();
        let mut forms: Vec<Option<TFormAsciiTable>> = fields.iter().map(|f| ascii_form(&f.1)).collect();
        if n > 0 && rng.chance(1, 2) {
            let i = rng.below(n);
            match rng.below(4) {
                0 => {
                    cards.remove(8 + 2 * i);
                    cols[i] = None;
                }
                1 => {
                    cards.remove(9 + 2 * i);
                    forms[i] = None;
                }
                2 => {
                    cards[8 + 2 * i] = kv(&format!("TBCOL{}", i + 1), rng.pick::<&str>(&["-3", "'4'", "2.5", "T", ""]));
                    cols[i] = None;
                }
                _ => {
                    cards[9 + 2 * i] = kv(&format!("TFORM{}", i + 1), rng.pick::<&str>(&["8", "T", ""]));
                    forms[i] = None;
                }
            }
        }
        let data: Vec<u8> = (0..w * rows).map(|_| b' ' + rng.below(95) as u8).collect();
        let bytes = file(&[empty_primary(), Unit { cards, data: data.clone() }, image(&mut rng, false, 8, &[4])]);
        let part = rng.below(data.len() + 1);
        c.case("table", &bytes, format!("{fields:?}"), || {
            let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
            fits.next();
            let hdu = match fits.next() {
                Some(Ok(HDU::XASCIITable(h))) => h,
                o => return Err(format!("the table is not read: {o:?}")),
            };
            let x = hdu.get_header().get_xtension();
            let kept: Vec<(u64, TFormAsciiTable)> = cols.iter().zip(&forms).filter_map(|(c, f)| Some(((*c)?, (*f)?))).collect();
            same!(x.get_tbcols().to_vec(), kept.iter().map(|k| k.0).collect::<Vec<_>>(), "first columns of the fields");
            same!(x.get_tforms().to_vec(), kept.iter().map(|k| k.1).collect::<Vec<_>>(), "formats of the fields");
            same!((x.get_tfields(), x.get_num_cols()), (n, n), "number of fields");
            same!((x.get_naxis1(), x.get_naxis2(), x.get_num_rows()), (w, rows, rows as usize), "size");
            same!((x.get_pcount(), x.get_gcount()), (0, 1), "PCOUNT and GCOUNT");
            let mut v = vec![0; part];
            let mut r = fits.get_data(&hdu);
            r.read_exact(&mut v).map_err(|e| e.to_string())?;
            r.read_to_end(&mut v).map_err(|e| e.to_string())?;
            same!(v, data, "text");
            ensure!(matches!(fits.next(), Some(Ok(HDU::XImage(_)))), "the next HDU is not read");
            Ok(6)
        });
    }
    // mandatory keywords that do not describe an ASCII table, or are missing
    for _ in 0..c.iters(400) {
        let mut cards = ascii_cards(rng.range(1, 9) as u64, rng.range(1, 5) as u64, &[(1, "A1".to_string())]);
        let (k, v): (&str, String) = match rng.below(9) {
            0 => ("BITPIX", rng.pick(&["16", "-32", "64", "7", "-8", "'8'", "8.5"]).to_string()),
            1 => ("NAXIS", rng.pick(&["0", "1", "3", "-2", "'2'", "T"]).to_string()),
            2 => ("PCOUNT", rng.pick(&["1", "2", "3", "100", "-1", "4294967296", "'0'"]).to_string()),
            3 => ("GCOUNT", rng.pick(&["0", "2", "-1", "4294967297", "'1'"]).to_string()),
            4 => ("TFIELDS", rng.pick(&["-1", "'1'", "1.5", "T", ""]).to_string()),
            5 => ("NAXIS1", rng.pick(&["-1", "'1'", "1.5", "T", ""]).to_string()),
            6 => ("NAXIS2", rng.pick(&["-1", "'1'", "1.5", "T", ""]).to_string()),
            _ => (*rng.pick(&["BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "PCOUNT", "GCOUNT", "TFIELDS"]), String::new()),
        };
        let at = cards.iter().position(|c| &c[..8] == format!("{k:8}").as_bytes()).unwrap();
        if v.is_empty() {
            cards.remove(at);
        } else {
            cards[at] = kv(k, &v);
        }
        let bytes = file(&[empty_primary(), Unit { cards, data: vec![b' '; 50] }]);
        c.case("refused", &bytes, format!("{k} = {v}"), || {
            let mut fits = Fits::from_reader(Cursor::new(&bytes[..]));
            fits.next();
            match fits.next() {
                Some(Err(_)) => Ok(1),
                o => Err(format!("an error expected, got {o:?}")),
            }
        });
    }
    "ASCII tables of 0 to 30 fields with valid and invalid formats, a missing or invalid TBCOL or TFORM, 0 to 8 rows. Mandatory keywords missing or with other values. Non-trivial: refusal, kept fields with their first column and format, sizes and the text compared with the header and the file"
}
