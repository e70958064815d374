//! C01 to C04: records, values, long strings, header lookup
use crate::ctx::Ctx;
use crate::fg::*;
use crate::refcard as spec;
use crate::{ensure, same};
use fitsrs::card::{split_value_and_comment, Card, Value};
use fitsrs::hdu::header::extension::image::Image;
use fitsrs::hdu::header::Header;
use fitsrs::{Fits, HDU};
use serde::Deserialize;
use std::convert::TryFrom;
use std::io::Cursor;

fn check_card(b: &CardBuf) -> Result<usize, String> {
    let got = Card::try_from(b).ok();
    let want = spec::card(b);
    let same = match (&got, &want) {
        (Some(a), Some(b)) => spec::eq_card(a, b),
        (None, None) => true,
        _ => false,
    };
    ensure!(same, "record {:?}: expected {want:?}, got {got:?}", String::from_utf8_lossy(b));
    Ok(1)
}

/// The records as a primary header without data (SIMPLE, BITPIX and NAXIS are added), parsed by the library
fn with_header<T>(
    extra: &[CardBuf],
    f: impl FnOnce(&Header<Image>, &[CardBuf]) -> Result<T, String>,
) -> Result<T, String> {
    let mut cards = image_cards(true, 8, &[]);
    cards.extend_from_slice(extra);
    let bytes = header(&cards);
    cards.push(rec(b"END"));
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    match fits.next() {
        Some(Ok(HDU::Primary(hdu))) => f(hdu.get_header(), &cards),
        o => Err(format!("the header is not read: {o:?}")),
    }
}

const KEYWORDS: &[&[u8]] = &[
    b"        ", b"COMMENT ", b"HISTORY ", b"CONTINUE", b"XTENSION", b"HIERARCH", b"END     ", b"SIMPLE  ", b"NAXIS1  ",
    b"A       ", b"ABCDEFGH", b"DATE-OBS", b"X_Y-9   ", b"comment ", b" END    ", b"ENDX    ", b"COMMENTS", b"  A     ",
    b"\xff\xfe      ", b"a\tb     ", b"HIERARC ", b"CONTINU ", b"END\0    ", b"EXTEND  ", b"BLANK   ",
];
const SEP: &[&[u8]] = &[b"= ", b"= ", b"= ", b"= ", b"==", b"=x", b"  ", b" =", b"xx"];

fn field(rng: &mut Rng) -> Vec<u8> {
    const PIECES: &[&[u8]] = &[
        b"'", b"''", b"'''", b" ", b"  ", b"/", b" / ", b"T", b"F", b"1", b"42", b"-7", b"+3.5", b"1E5", b"2.5D-3", b".5",
        b"(1,2)", b"abc", b"'abc'", b"'it''s'", b"'a/b'", b"' '", b"'&'", b"&", b"\t", b"\x7f", b"\xc3\xa9", b"\xff", b"[m/s]",
        b"IMAGE", b"'IMAGE   '", b"'BINTABLE'", b"'TABLE'", b"'IUEIMAGE'", b"'FOO'", b"=", b"ESO DET ", b"~", b"9223372036854775808",
        b"-9223372036854775808", b"\n", b"\0",
    ];
    let mut v = vec![];
    match rng.below(6) {
        0 => {
            let n = rng.below(72);
            v = rng.bytes(n);
        }
        1 => {
            for _ in 0..rng.below(72) {
                v.push(*rng.pick(b"'/ aT1&"));
            }
        }
        _ => {
            for _ in 0..rng.below(9) {
                v.extend_from_slice(rng.pick(PIECES));
            }
        }
    }
    v
}

pub fn c01(c: &mut Ctx) -> &'static str {
    // every value field of up to 6 (7) characters over an alphabet that drives the splitting
    let alphabet = b"'/ a\t";
    let max = if c.thorough { 8 } else { 6 };
    for len in 0..=max {
        for k in 0..alphabet.len().pow(len as u32) {
            let mut k = k;
            let s: Vec<u8> = (0..len)
                .map(|_| {
                    let ch = alphabet[k % alphabet.len()];
                    k /= alphabet.len();
                    ch
                })
                .collect();
            c.case("split", &s, "value field", || {
                let got = split_value_and_comment(&s).ok();
                let want = spec::split(&s);
                same!(got, want, "value and comment of {:?}", String::from_utf8_lossy(&s));
                Ok(1)
            });
        }
    }
    // every keyword field with every separator and a set of values
    let mut rng = c.rng.clone();
    for kw in KEYWORDS {
        for sep in SEP {
            for _ in 0..40 {
                let mut b = kw.to_vec();
                b.extend_from_slice(sep);
                b.extend(field(&mut rng));
                let b = rec(&b);
                c.case("record", &b, "", || check_card(&b));
            }
        }
    }
    for _ in 0..c.iters(30000) {
        let mut b = if rng.chance(1, 8) { rng.bytes(8) } else { rng.pick(KEYWORDS).to_vec() };
        if rng.chance(1, 20) {
            let i = rng.below(b.len());
            b[i] = rng.next() as u8;
        }
        b.extend_from_slice(rng.pick(SEP));
        b.extend(field(&mut rng));
        let b = rec(&b);
        c.case("record", &b, "", || check_card(&b));
        // the same value field given to the splitting function on its own
        let f = field(&mut rng);
        c.case("split", &f, "value field", || {
            same!(split_value_and_comment(&f).ok(), spec::split(&f), "value and comment of {:?}", String::from_utf8_lossy(&f));
            Ok(1)
        });
    }
    // records of any kind in a header are all kept, in place
    for _ in 0..c.iters(400) {
        let n = rng.range(0, 80);
        let mut extra = vec![];
        for _ in 0..n {
            let mut b = rng.pick(KEYWORDS).to_vec();
            b.extend_from_slice(rng.pick(SEP));
            b.extend(field(&mut rng));
            let b = rec(&b);
            if spec::card(&b) == Some(Card::End) || matches!(&spec::card(&b), Some(Card::Value { name, .. }) if name == "SIMPLE" || name == "NAXIS1") {
                continue;
            }
            extra.push(b);
        }
        let bytes: Vec<u8> = extra.iter().flatten().copied().collect();
        c.case("header", &bytes, "records between the mandatory cards and END", || {
            with_header(&extra, |h, all| {
                let got: Vec<&Card> = h.cards().collect();
                same!(got.len(), all.len(), "number of records");
                for (i, (g, b)) in got.iter().zip(all).enumerate() {
                    let want = spec::card_in_header(b);
                    ensure!(spec::eq_card(g, &want), "record {i}: expected {want:?}, got {g:?}");
                }
                Ok(all.len())
            })
        });
    }
    "80 byte records: keyword field among 25 (reserved, ordinary, malformed) or random, separator among 9, value field from a grammar of FITS tokens or random bytes; all value fields up to 6 characters over {' / blank a TAB}; headers of up to 80 such records. Non-trivial: the classification, keyword, value and comment (or the refusal) were compared with the reference specification"
}

// ---------------------------------------------------------------------------------------------- C02

fn typed<T>(h: &Header<Image>, key: &str, want: Option<T>) -> Result<usize, String>
where
    T: for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug,
{
    let ty = std::any::type_name::<T>();
    let got = h.get_parsed::<T>(key).ok();
    ensure!(got == want, "{key} requested as {ty}: expected {want:?}, got {got:?}");
    let got = h.get_parsed::<Option<T>>(key).ok();
    let undefined = matches!(h.get(key), None | Some(Value::Undefined));
    let want = if undefined { Some(None) } else { want.map(Some) };
    ensure!(got == want, "{key} requested as Option<{ty}>: expected {want:?}, got {got:?}");
    Ok(2)
}

fn typed_all(h: &Header<Image>, key: &str, v: Option<&Value>) -> Result<usize, String> {
    let int = match v {
        Some(Value::Integer { value, .. }) => Some(*value),
        _ => None,
    };
    let mut n = 0;
    n += typed::<u8>(h, key, int.and_then(|i| u8::try_from(i).ok()))?;
    n += typed::<i8>(h, key, int.and_then(|i| i8::try_from(i).ok()))?;
    n += typed::<u16>(h, key, int.and_then(|i| u16::try_from(i).ok()))?;
    n += typed::<i16>(h, key, int.and_then(|i| i16::try_from(i).ok()))?;
    n += typed::<u32>(h, key, int.and_then(|i| u32::try_from(i).ok()))?;
    n += typed::<i32>(h, key, int.and_then(|i| i32::try_from(i).ok()))?;
    n += typed::<u64>(h, key, int.and_then(|i| u64::try_from(i).ok()))?;
    n += typed::<usize>(h, key, int.and_then(|i| usize::try_from(i).ok()))?;
    n += typed::<i64>(h, key, int)?;
    let float = match v {
        Some(Value::Float { value, .. }) => Some(*value),
        _ => None,
    };
    n += typed::<f64>(h, key, float.or(int.map(|i| i as f64)))?;
    n += typed::<f32>(h, key, float.map(|f| f as f32).or(int.map(|i| i as f32)))?;
    let logical = match v {
        Some(Value::Logical { value, .. }) => Some(*value),
        _ => None,
    };
    n += typed::<bool>(h, key, logical)?;
    let text = match v {
        Some(Value::String { value, .. }) | Some(Value::Invalid(value)) => Some(value.clone()),
        _ => None,
    };
    n += typed::<String>(h, key, text)?;
    Ok(n)
}

fn number_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    s.push_str(rng.pick::<&str>(&["", "", "", "-", "+"]));
    let digits = |rng: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect() };
    match rng.below(5) {
        0 => {
            let n = rng.range(1, 25);
            s.push_str(&digits(rng, n))
        }
        1 => s.push_str(rng.pick::<&str>(&[
            "0", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
            "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "9007199254740993",
            "00000000000000000000000000000000042", "129", "32769", "2147483649",
        ])),
        2 => {
            let (a, b) = (rng.range(0, 12), rng.range(0, 20));
            s.push_str(&format!("{}.{}", digits(rng, a), digits(rng, b)))
        }
        _ => {
            let (a, b, e) = (rng.range(1, 10), rng.range(0, 18), rng.range(1, 3));
            let x = *rng.pick(&["E", "D", "e", "E-", "D-", "E+", "D+"]);
            let dot = if rng.chance(1, 5) { "" } else { "." };
            let frac = if dot.is_empty() { String::new() } else { digits(rng, b) };
            s.push_str(&format!("{}{dot}{frac}{x}{}", digits(rng, a), digits(rng, e)))
        }
    }
    if rng.chance(1, 12) {
        let p = rng.range(1, s.len());
        s.insert(p, *rng.pick(&['x', ' ', '-', '.', '_', 'D']));
    }
    s
}

pub fn c02(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    let mut check = |c: &mut Ctx, label: &str, text: String| {
        let b = rec(format!("KEY     = {text}").as_bytes());
        let Some(want) = spec::card(&b) else {
            return;
        };
        c.case(label, &b, "typed lookups", || {
            check_card(&b)?;
            with_header(&[b], |h, _| {
                let Card::Value { value, .. } = &want else { return Ok(0) };
                let got = h.get("KEY").ok_or("KEY is lost")?;
                ensure!(spec::eq_value(got, value), "value of KEY: expected {value:?}, got {got:?}");
                let n = typed_all(h, "KEY", Some(value))?;
                // absent keyword
                let m = typed_all(h, "ABSENT", None)?;
                Ok(n + m)
            })
        });
    };
    for n in 0..c.iters(6000) {
        let text = number_text(&mut rng);
        let comment = if n % 3 == 0 { " / [m/s] speed" } else { "" };
        let pad = rng.below(12);
        check(c, "number", format!("{}{text}{comment}", " ".repeat(pad)));
    }
    for t in [
        "T", "F", "                   T / yes", "                   F / no", "TRUE", "FALSE", "T/", "'T'", "''", "' '", "'text'", "'  lead'",
        "'3'", "", " / only a comment", "nope", "t", "f", "'it''s'", "1 2", "0x10", "1_000", "--1", "1.2.3", "1E", "1D", "+", "-", ".", "&", "NaN", "inf",
        "'IMAGE' / [kind] x", "1 / [Jy]", "1 /[Jy]", "1 / Jy", "1 / [Jy", "1.5 / ] [Jy]", "T / [] none", "'a' /    [deg] angle", "1/[a[b]c]",
    ] {
        check(c, "value", t.to_string());
    }
    // units
    for _ in 0..c.iters(1500) {
        let unit: String = (0..rng.below(12)).map(|_| *rng.pick(&['m', 's', '/', '*', '2', ' ', '[', ']', '-', 'é', '\''])).collect();
        let lead = " ".repeat(rng.below(4));
        let val = *rng.pick(&["1", "2.5", "T", "'abc'"]);
        let kind = rng.below(6);
        let comment = match kind {
            4 => format!("{lead}[{unit}] range [0,1]"),
            5 => format!("{lead}[{unit}]]"),
            0 => format!("{lead}[{unit}] text"),
            1 => format!("{lead}{unit}"),
            2 => format!("{lead}[{unit}"),
            _ => format!("{lead}x[{unit}]"),
        };
        let b = rec(format!("KEY     = {val} /{comment}").as_bytes());
        c.case("unit", &b, "", || {
            let card = Card::try_from(&b).map_err(|e| format!("{e}"))?;
            let Card::Value { value, .. } = card else { return Err(format!("not a value: {card:?}")) };
            let (_, comment) = spec::split(&b[10..]).unwrap();
            let comment = comment.unwrap();
            let t = comment.trim_start();
            let want = t.strip_prefix('[').and_then(|t| t.split_once(']')).map(|(u, _)| u);
            same!(value.unit(), want, "unit of {comment:?}");
            Ok(1)
        });
    }
    "value fields: integers up to 25 digits around every type limit, decimals and E/D exponents (some malformed), logicals, strings, blank and illegal values, each requested as 13 types and as Option of them, present and absent; comments with and without a bracketed unit. Non-trivial: the value and all typed lookups were compared with the reference specification"
}

// ---------------------------------------------------------------------------------------------- C03

fn piece(rng: &mut Rng) -> String {
    let n = rng.below(20);
    (0..n).map(|_| *rng.pick(&["a", "b", " ", "&", "/", "''", "é", "Z"])).collect()
}

pub fn compare_values(h: &Header<Image>, all: &[CardBuf]) -> Result<usize, String> {
    let cards: Vec<Card> = all.iter().map(spec::card_in_header).collect();
    let want = spec::values(&cards);
    let got: Vec<(&str, &Value)> = h.iter().collect();
    same!(
        got.iter().map(|x| x.0).collect::<Vec<_>>(),
        want.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(),
        "keywords"
    );
    for ((k, g), (_, w)) in got.iter().zip(&want) {
        ensure!(spec::eq_value(g, w), "value of {k}: expected {w:?}, got {g:?}");
        let g = h.get(k).ok_or("lost keyword")?;
        ensure!(spec::eq_value(g, w), "looked up value of {k}: expected {w:?}, got {g:?}");
        if let Value::String { value, .. } = w {
            same!(h.get_parsed::<String>(k).ok(), Some(value.clone()), "string {k}");
        }
    }
    Ok(want.len())
}

pub fn c03(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(6000) {
        let mut extra = vec![];
        for _ in 0..rng.range(1, 3) {
            // a string, possibly continued
            let amp = if rng.chance(5, 6) { "&" } else { "" };
            let p = piece(&mut rng);
            let com = *rng.pick(&["", "", " / first", " /"]);
            let name = *rng.pick(&["LONG", "LONG", "OTHER"]);
            if rng.chance(1, 5) {
                extra.push(rec(format!("HIERARCH ESO {name} = '{p}{amp}'{com}").as_bytes()));
            } else {
                extra.push(rec(format!("{name:<8}= '{p}{amp}'{com}").as_bytes()));
            }
            for _ in 0..rng.below(5) {
                // something in between
                match rng.below(16) {
                    0 => extra.push(rec(b"COMMENT in between")),
                    1 => extra.push(rec(b"")),
                    2 => extra.push(rec(b"OTHER   = 'x&'")),
                    3 => extra.push(rec(b"NUM     =                    3")),
                    4 => extra.push(rec(b"HISTORY in between")),
                    5 => extra.push(rec(b"JUNK without structure")),
                    6 => extra.push(rec(b"BAD     = 'unterminated")),
                    _ => {}
                }
                let amp = if rng.chance(3, 4) { "&" } else { "" };
                let p = piece(&mut rng);
                let com = *rng.pick(&["", "", " / more", " /", " / [u] unit"]);
                match rng.below(10) {
                    0 => extra.push(rec(format!("CONTINUE  ''{com}").as_bytes())),
                    1 => extra.push(rec(format!("CONTINUE  '{amp}'{com}").as_bytes())),
                    2 => extra.push(rec(format!("CONTINUE  {com}").as_bytes())),
                    3 => extra.push(rec(format!("CONTINUE  {p}{com}").as_bytes())),
                    4 => extra.push(rec(format!("CONTINUE  '   '{com}").as_bytes())),
                    _ => extra.push(rec(format!("CONTINUE  '{p}{amp}'{com}").as_bytes())),
                }
            }
        }
        let bytes: Vec<u8> = extra.iter().flatten().copied().collect();
        c.case("chain", &bytes, "header with continued strings", || with_header(&extra, compare_values));
    }
    // splitting a string of any length over records gives it back
    for _ in 0..c.iters(3000) {
        let len = rng.below(400);
        let mut text: String = (0..len).map(|_| (b' ' + rng.below(95) as u8) as char).collect();
        while text.ends_with(' ') || text.ends_with('&') {
            text.pop();
        }
        let mut chars: Vec<char> = text.chars().collect();
        let mut extra = vec![];
        let mut first = true;
        let mut commented = 0;
        loop {
            let n = chars.len().min(rng.range(1, 30));
            let rest = chars.split_off(n);
            let s: String = chars.iter().collect::<String>().replace('\'', "''");
            // an ampersand follows the pieces before the last, which must not be lone blanks
            let more = !rest.is_empty();
            let amp = if more { "&" } else { "" };
            let com = if rng.chance(1, 6) {
                commented += 1;
                " / c"
            } else {
                ""
            };
            let head = if first { "LONG    = " } else { "CONTINUE  " };
            extra.push(rec(format!("{head}'{s}{amp}'{com}").as_bytes()));
            first = false;
            chars = rest;
            if !more {
                break;
            }
        }
        let bytes: Vec<u8> = extra.iter().flatten().copied().collect();
        let want = if text.is_empty() { String::new() } else { text.clone() };
        c.case("roundtrip", &bytes, format!("{} records", extra.len()), || {
            with_header(&extra, |h, _| {
                same!(h.get_parsed::<String>("LONG").ok(), Some(want.clone()), "the long string");
                if let Some(Value::String { comment, .. }) = h.get("LONG") {
                    let n = comment.as_ref().map_or(0, |c| c.split('\n').count());
                    same!(n, commented, "number of comment lines");
                }
                Ok(1)
            })
        });
    }
    // Card::append / splice
    for _ in 0..c.iters(2000) {
        let p = piece(&mut rng);
        let q = piece(&mut rng);
        let amp = *rng.pick(&["&", ""]);
        let a = rec(format!("K       = '{p}&' / one").as_bytes());
        let b = rec(format!("CONTINUE  '{q}{amp}' / two").as_bytes());
        let mut bytes = a.to_vec();
        bytes.extend_from_slice(&b);
        c.case("splice", &bytes, "", || {
            let (x, y) = (Card::try_from(&a).unwrap(), Card::try_from(&b).unwrap());
            let (mx, my) = (spec::card(&a).unwrap(), spec::card(&b).unwrap());
            let Card::Value { value: Value::String { value: s, .. }, .. } = &mx else { return Err("string expected".into()) };
            ensure!(x.continued() == s.ends_with('&'), "continued() of {x:?}");
            if !x.continued() {
                return Ok(1);
            }
            let got = x.splice(y);
            let want = spec::values(&[mx, my]);
            let Card::Value { value, .. } = &got else { return Err(format!("not a value: {got:?}")) };
            ensure!(spec::eq_value(value, &want[0].1), "spliced: expected {:?}, got {value:?}", want[0].1);
            Ok(1)
        });
    }
    "headers with 1 to 3 strings followed by up to 5 CONTINUE records (empty, blank, unquoted, with ampersand, commented) and unrelated records in between; strings up to 400 characters cut over records; pairs of records spliced. Non-trivial: every keyword's value and comment compared with the reference specification"
}

// ---------------------------------------------------------------------------------------------- C04

pub fn c04(c: &mut Ctx) -> &'static str {
    let mut rng = c.rng.clone();
    for _ in 0..c.iters(2500) {
        let mut extra = vec![];
        for _ in 0..rng.below(70) {
            let name = *rng.pick(&["A", "B", "C", "KEY1", "KEY2", "DATE-OBS", "ABCDEFGH"]);
            let v = rng.below(6);
            extra.push(match rng.below(16) {
                12 => rec(*rng.pick(&[&b"HISTORY"[..], b"HISTORY =", b"HISTORY        indented", b"COMMENT", b"COMMENT = 3"])),
                13 => rec(*rng.pick(&[&b"KEY1    = (1.0, 2.0)"[..], b"KEY2    = 'open", b"A       = 1\x07", b"XTENSION= 'NOTHING '", b"HIERARCH no value", b"\xff\xfe     = 1"])),
                14 => rec(format!("HISTORY {}", "x".repeat(rng.below(75))).as_bytes()),
                0 => rec(b"COMMENT some text"),
                1 => rec(format!("HISTORY step {v}").as_bytes()),
                2 => rec(b""),
                3 => rec(format!("        blank keyword {v}").as_bytes()),
                4 => rec(format!("HIERARCH ESO {name} = {v}").as_bytes()),
                5 => rec(format!("HIERARCH  {name}={v} / c").as_bytes()),
                6 => kv(name, &format!("'s{v}'")),
                7 => kv(name, ""),
                8 => rec(format!("{name} no value").as_bytes()),
                9 => kv(name, "T / logical"),
                10 => kv(name, &format!("'s{v}' / [u]")),
                _ => kv(name, &format!("{v}")),
            });
        }
        let bytes: Vec<u8> = extra.iter().flatten().copied().collect();
        c.case("header", &bytes, "lookups", || {
            with_header(&extra, |h, all| {
                let n = compare_values(h, all)?;
                let cards: Vec<Card> = all.iter().map(spec::card_in_header).collect();
                let got: Vec<Card> = h.cards().cloned().collect();
                same!(got, cards, "records in order");
                let hist: Vec<String> = cards
                    .iter()
                    .filter_map(|c| if let Card::History(s) = c { Some(s.clone()) } else { None })
                    .collect();
                same!(h.history().cloned().collect::<Vec<_>>(), hist, "history");
                let want = spec::values(&cards);
                same!(h.keywords().cloned().collect::<Vec<_>>(), want.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), "keywords()");
                for (_, v) in &want {
                    let first = want.iter().find(|(_, w)| w == v).map(|(k, _)| k.as_str());
                    same!(h.get_keyword(v), first, "get_keyword({v:?})");
                }
                for absent in ["ZZZ", "a", "END", "COMMENT", "HISTORY", ""] {
                    ensure!(h.get(absent).is_none(), "{absent:?} is not a keyword of the header");
                }
                Ok(n)
            })
        });
    }
    "headers of up to 70 records with repeated keywords, HIERARCH names, commentary, blank and malformed records. Non-trivial: record order, every lookup by keyword and by value, keyword order and history compared with the reference specification"
}
