//! Executable reference specification of header records, written from the FITS standard (4.1 to 4.4) and the
//! documentation of the library.
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::XtensionType;

const BAD: char = '\u{FFFD}';

fn printable(c: char) -> bool {
    (' '..='~').contains(&c)
}

fn trim(b: &[u8]) -> &[u8] {
    let ws = |c: &u8| matches!(c, b' ' | b'\t' | b'\n' | b'\x0C' | b'\r');
    let s = b.iter().position(|c| !ws(c)).unwrap_or(b.len());
    let e = b.iter().rposition(|c| !ws(c)).map_or(s, |e| e + 1);
    &b[s..e]
}

/// Value (quotes kept, doubled quotes inside a string folded into one) and comment; None: not a value
pub fn split(field: &[u8]) -> Option<(String, Option<String>)> {
    let text: Vec<char> = String::from_utf8_lossy(trim(field)).chars().collect();
    // where the reader is: outside of a string, inside, or after a quote that may close it
    #[derive(PartialEq)]
    enum At {
        Out,
        In,
        Quote,
    }
    let mut at = At::Out;
    let mut value = String::new();
    let mut comment = None;
    for (i, &c) in text.iter().enumerate() {
        match c {
            '\'' if at == At::Quote => at = At::In,
            '\'' => {
                value.push(c);
                at = if at == At::In { At::Quote } else { At::In };
            }
            '/' if at != At::In => {
                comment = Some(text[i + 1..].iter().map(|&c| if printable(c) { c } else { BAD }).collect::<String>());
                break;
            }
            c if printable(c) => {
                if c != '/' && at == At::Quote {
                    at = At::Out;
                }
                value.push(c);
            }
            _ if at == At::Out => return None,
            _ => value.push(BAD),
        }
    }
    Some((
        value.trim_matches(' ').to_string(),
        comment.map(|c| c.trim_end_matches(' ').to_string()),
    ))
}

/// The characters of a string value; None: quotes do not match
pub fn string(v: &str) -> Option<String> {
    let v: Vec<char> = v.chars().collect();
    let q = |c: Option<&char>| c == Some(&'\'');
    let inner = match (q(v.first()), v.len() > 1 && q(v.last())) {
        (true, true) => &v[1..v.len() - 1],
        (true, false) => return None,
        (false, _) if q(v.last()) => return None,
        (false, _) => &v[..],
    };
    if inner.is_empty() {
        return Some(String::new());
    }
    let s: String = inner.iter().collect();
    let t = s.trim_end_matches(' ');
    Some(if t.is_empty() { " ".into() } else { t.into() })
}

/// None: the record is not understood
pub fn value(field: &[u8]) -> Option<Value> {
    let (v, comment) = split(field)?;
    Some(match v.chars().next() {
        None => Value::Undefined,
        Some('\'') => Value::String { value: string(&v)?, comment },
        Some('T') => Value::Logical { value: true, comment },
        Some('F') => Value::Logical { value: false, comment },
        Some('(') => return None,
        Some('0'..='9' | '+' | '-' | '.') => number(&v, comment),
        _ => Value::Invalid(String::from_utf8_lossy(field).into_owned()),
    })
}

pub fn number(v: &str, comment: Option<String>) -> Value {
    if let Ok(value) = v.parse::<i64>() {
        return Value::Integer { value, comment };
    }
    let e = v.replace('D', "E");
    match v.parse::<f64>().or_else(|_| e.parse::<f64>()) {
        Ok(value) => Value::Float { value, comment },
        Err(_) => Value::Invalid(v.into()),
    }
}

fn text(b: &[u8]) -> String {
    let s: String = b.iter().map(|&b| if (0x20..0x7F).contains(&b) { b as char } else { BAD }).collect();
    s.trim_end_matches(' ').to_string()
}

/// None: the record is not understood
pub fn card(b: &[u8; 80]) -> Option<Card> {
    let kw = std::str::from_utf8(trim(&b[..8])).ok()?;
    Some(match kw {
        "" => {
            let t = text(&b[8..]);
            if t.is_empty() {
                Card::Space
            } else {
                Card::Comment(t)
            }
        }
        "COMMENT" => Card::Comment(text(&b[8..])),
        "HISTORY" => Card::History(text(&b[8..])),
        "END" => Card::End,
        "CONTINUE" => {
            let (v, comment) = split(&b[8..])?;
            Card::Continuation { string: Some(string(&v)?), comment }
        }
        "XTENSION" => {
            let (v, comment) = split(&b[10..])?;
            let v: Vec<char> = v.chars().collect();
            if v.len() < 2 || v[0] != '\'' || v[v.len() - 1] != '\'' {
                return None;
            }
            let inner: String = v[1..v.len() - 1].iter().collect();
            let x = match inner.trim_matches(' ') {
                "IMAGE" | "IUEIMAGE" => XtensionType::Image,
                "TABLE" => XtensionType::AsciiTable,
                "BINTABLE" => XtensionType::BinTable,
                _ => return None,
            };
            Card::Xtension { x, comment }
        }
        "HIERARCH" => {
            let eq = 9 + b[9..].iter().position(|&c| c == b'=')?;
            let words: Vec<String> = b[9..eq]
                .split(|c| c.is_ascii_whitespace())
                .filter(|w| !w.is_empty())
                .map(|w| String::from_utf8_lossy(w).into_owned())
                .collect();
            if words.is_empty() {
                return None;
            }
            Card::Hierarch { name: words.join("."), value: value(&b[eq + 1..])? }
        }
        _ if &b[8..10] == b"= " => Card::Value { name: kw.to_string(), value: value(&b[10..])? },
        _ => Card::Undefined(String::from_utf8_lossy(b).into_owned()),
    })
}

/// What a record gives in a header, where a record that is not understood is kept as it is
pub fn card_in_header(b: &[u8; 80]) -> Card {
    card(b).unwrap_or_else(|| Card::Undefined(String::from_utf8_lossy(b).into_owned()))
}

/// The keywords of a header with their values, in order of first appearance
pub fn values(cards: &[Card]) -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = vec![];
    // index in `out` of the string the next record may continue
    let mut open: Option<usize> = None;
    fn set(out: &mut Vec<(String, Value)>, name: &str, value: Value) -> usize {
        match out.iter().position(|(n, _)| n == name) {
            Some(i) => {
                out[i].1 = value;
                i
            }
            None => {
                out.push((name.to_string(), value));
                out.len() - 1
            }
        }
    }
    for c in cards {
        let now = open.take();
        match c {
            Card::Value { name, value } | Card::Hierarch { name, value } => {
                let i = set(&mut out, name, value.clone());
                if matches!(value, Value::String { value, .. } if value.ends_with('&')) {
                    open = Some(i);
                }
            }
            Card::Xtension { x, .. } => {
                let v = Value::String { value: x.as_str().to_string(), comment: None };
                set(&mut out, "XTENSION", v);
            }
            Card::Continuation { string, comment } => {
                if let Some(i) = now {
                    if let Value::String { value: s, comment: c } = &mut out[i].1 {
                        s.pop();
                        match string.as_deref() {
                            None | Some("") | Some(" ") => *s = s.trim_end().to_string(),
                            Some(t) => {
                                s.push_str(t);
                            }
                        }
                        match (c.as_mut(), comment) {
                            (Some(c), Some(d)) => {
                                c.push('\n');
                                c.push_str(d);
                            }
                            (None, d) => *c = d.clone(),
                            _ => {}
                        }
                        if s.ends_with('&') {
                            open = Some(i);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// Equality of values where floats are compared bit by bit
pub fn eq_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float { value: x, comment: c }, Value::Float { value: y, comment: d }) => x.to_bits() == y.to_bits() && c == d,
        _ => a == b,
    }
}
pub fn eq_card(a: &Card, b: &Card) -> bool {
    match (a, b) {
        (Card::Value { name: m, value: x }, Card::Value { name: n, value: y })
        | (Card::Hierarch { name: m, value: x }, Card::Hierarch { name: n, value: y }) => m == n && eq_value(x, y),
        _ => a == b,
    }
}
