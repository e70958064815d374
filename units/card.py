"""Records of a header: which kind, value and comment, the type of a value (C01, C02)."""
import re

from extract import Lost, sub_code, find_code, match_close, skip_literal
from unit import Unit, desugar_chain

C = "src/card.rs"
X = "src/hdu/header/extension/mod.rs"

PRE = r'''
global size_of usize == 8;
pub enum Error { StaticError(&'static str), DynamicError(String), NotSupportedXtensionType(String), Utf8, Other }
pub const REPLACEMENT_CHARACTER: char = '\u{FFFD}';
'''

# texts: what the functions of std mean on sequences of characters
TEXT = r'''
pub uninterp spec fn white(c: char) -> bool;
pub broadcast axiom fn white_blank() ensures #[trigger] white(' ');
pub broadcast axiom fn white_printable(c: char) ensures '!' <= c && c <= '~' || c == '\u{FFFD}' ==> !#[trigger] white(c);
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_both(s: Seq<char>) -> Seq<char> { trim_l(trim_r(s)) }
pub open spec fn awhite(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}' }
pub open spec fn atrim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && awhite(s.last()) { atrim_r(s.drop_last()) } else { s } }
pub open spec fn atrim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && awhite(s[0]) { atrim_l(s.skip(1)) } else { s } }
pub open spec fn printable(c: char) -> bool { ' ' <= c && c <= '~' }
/// Bytes of a text in UTF-8
pub uninterp spec fn clen(c: char) -> nat;
pub broadcast axiom fn clen_ascii(c: char) ensures c <= '\u{7f}' ==> #[trigger] clen(c) == 1, clen(c) >= 1;
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub uninterp spec fn replaced(s: Seq<char>, a: char, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn int_of(s: Seq<char>) -> Option<i64>;
pub uninterp spec fn real_of(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn trim_bytes(b: Seq<u8>) -> Seq<u8>;
/// The words of a text joined by points
pub uninterp spec fn dotted(b: Seq<u8>) -> Option<Seq<char>>;
pub open spec fn sp(s: Seq<char>, t: Seq<char>) -> bool { t == s }
pub trait Tx {
    spec fn tx(&self) -> Seq<char>;
    fn len_(&self) -> (r: usize) ensures r == blen(self.tx());
    fn is_empty_(&self) -> (r: bool) ensures r == (self.tx().len() == 0);
    fn trim_(&self) -> (r: String) ensures r@ == trim_both(self.tx());
    fn trim_start_(&self) -> (r: String) ensures r@ == trim_l(self.tx());
    fn trim_end_(&self) -> (r: String) ensures r@ == trim_r(self.tx());
    fn trim_ascii_(&self) -> (r: String) ensures r@ == atrim_l(atrim_r(self.tx()));
    fn trim_ascii_end_(&self) -> (r: String) ensures r@ == atrim_r(self.tx());
    fn to_owned_(&self) -> (r: String) ensures r@ == self.tx();
    fn starts_with_(&self, t: &str) -> (r: bool) ensures r == (self.tx().len() >= t@.len() && self.tx().take(t@.len() as int) == t@);
    fn ends_with_(&self, t: &str) -> (r: bool) ensures r == (self.tx().len() >= t@.len() && self.tx().skip(self.tx().len() - t@.len()) == t@);
    fn slice_(&self, a: usize, b: usize) -> (r: String)
        requires exists|i: int, j: int| 0 <= i <= j <= self.tx().len() && #[trigger] blen(self.tx().take(i)) == a && #[trigger] blen(self.tx().take(j)) == b
        ensures forall|i: int, j: int| 0 <= i <= j <= self.tx().len() && #[trigger] blen(self.tx().take(i)) == a && #[trigger] blen(self.tx().take(j)) == b ==> r@ == self.tx().subrange(i, j);
    fn first_char_(&self) -> (r: Option<char>) ensures r == if self.tx().len() > 0 { Some(self.tx()[0]) } else { None };
    fn find_(&self, t: char) -> (r: Option<usize>)
        ensures match r { None => !self.tx().contains(t), Some(n) => exists|i: int| 0 <= i < self.tx().len() && self.tx()[i] == t && #[trigger] blen(self.tx().take(i)) == n && !self.tx().take(i).contains(t) };
    fn strip_prefix_(&self, t: char) -> (r: Option<String>)
        ensures match r { Some(x) => self.tx().len() > 0 && self.tx()[0] == t && x@ == self.tx().skip(1), None => !(self.tx().len() > 0 && self.tx()[0] == t) };
    fn strip_suffix_(&self, t: char) -> (r: Option<String>)
        ensures match r { Some(x) => self.tx().len() > 0 && self.tx().last() == t && x@ == self.tx().drop_last(), None => !(self.tx().len() > 0 && self.tx().last() == t) };
    fn replace_(&self, a: char, b: &str) -> (r: String) ensures r@ == replaced(self.tx(), a, b@);
    fn parse_i64_(&self) -> (r: Result<i64, Error>) ensures r is Ok == int_of(self.tx()) is Some, r is Ok ==> Some(r->Ok_0) == int_of(self.tx());
    fn parse_f64_(&self) -> (r: Result<f64, Error>) ensures r is Ok == real_of(self.tx()) is Some, r is Ok ==> Some(r->Ok_0) == real_of(self.tx());
    fn chars_(&self) -> (r: Vec<char>) ensures r@ == self.tx(), r@.len() < usize::MAX;
    fn eq_(&self, t: &str) -> (r: bool) ensures r == (self.tx() == t@);
    fn to_string_(&self) -> (r: String) ensures r@ == self.tx();
}
'''
METHODS = ["len_(&self) -> usize", "is_empty_(&self) -> bool", "trim_(&self) -> String", "trim_start_(&self) -> String", "trim_end_(&self) -> String", "trim_ascii_(&self) -> String",
           "trim_ascii_end_(&self) -> String", "to_owned_(&self) -> String", "starts_with_(&self, t: &str) -> bool", "ends_with_(&self, t: &str) -> bool",
           "slice_(&self, a: usize, b: usize) -> String", "first_char_(&self) -> Option<char>", "find_(&self, t: char) -> Option<usize>",
           "strip_prefix_(&self, t: char) -> Option<String>", "strip_suffix_(&self, t: char) -> Option<String>", "replace_(&self, a: char, b: &str) -> String",
           "parse_i64_(&self) -> Result<i64, Error>", "parse_f64_(&self) -> Result<f64, Error>", "chars_(&self) -> Vec<char>", "eq_(&self, t: &str) -> bool",
           "to_string_(&self) -> String"]
FREE = r'''
pub proof fn lemma_blen(s: Seq<char>) ensures blen(s) >= s.len(), blen(s.take(s.len() as int)) == blen(s), blen(s.take(0)) == 0 decreases s.len() {
    broadcast use clen_ascii;
    assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<char>::empty());
    if s.len() > 0 { lemma_blen(s.drop_last()); }
}
#[verifier::external_body] pub fn equals_position(b: &[u8]) -> (r: Option<usize>)
    ensures match r { None => forall|i: int| 0 <= i < b@.len() ==> b@[i] != 61, Some(n) => n < b@.len() && b@[n as int] == 61 && forall|i: int| 0 <= i < n ==> b@[i] != 61 } { unimplemented!() }
#[verifier::external_body] pub fn new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] pub fn push_(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] pub fn push_str_(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] pub fn truncate_(s: &mut String, n: usize)
    requires exists|i: int| 0 <= i <= old(s)@.len() && #[trigger] blen(old(s)@.take(i)) == n
    ensures forall|i: int| 0 <= i <= old(s)@.len() && #[trigger] blen(old(s)@.take(i)) == n ==> final(s)@ == old(s)@.take(i) { s.truncate(n) }
#[verifier::external_body] pub fn from_utf8_(b: &[u8]) -> (r: Result<String, Error>) ensures r is Ok == utf8(b@) is Some, r is Ok ==> Some(r->Ok_0@) == utf8(b@) { unimplemented!() }
#[verifier::external_body] pub fn from_utf8_lossy_(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
#[verifier::external_body] pub fn trim_ascii_bytes(b: &[u8]) -> (r: &[u8]) ensures r@ == trim_bytes(b@) { unimplemented!() }
#[verifier::external_body] pub fn dotted_(b: &[u8]) -> (r: Option<String>) ensures r is Some == dotted(b@) is Some, r is Some ==> Some(r->Some_0@) == dotted(b@) { unimplemented!() }
#[verifier::external_body] pub fn message() -> String { String::new() }
'''
TRUST = ["the functions of std on texts (trim, trim_end, trim_start, trim_ascii, starts_with, ends_with, strip_prefix, strip_suffix, find, replace, chars, slices at character boundaries, push, truncate): their meaning on sequences of characters",
         "std::str::from_utf8, String::from_utf8_lossy, [u8]::trim_ascii, str::parse of i64 and f64, str::replace are functions of their argument (their results are compared with an independent reading by the driver of C01 and C02)",
         "char::is_whitespace holds for blank and for no other printable ASCII character, nor for U+FFFD"]


def text_decl(u):
    u.add(TEXT)
    for ty in ("String", "str"):
        u.add("impl Tx for %s {\n    open spec fn tx(&self) -> Seq<char> { self@ }" % ty)
        for m in METHODS:
            u.add("    #[verifier::external_body] fn %s { unimplemented!() }" % m)
        u.add("}")
    u.add(FREE)
    for t in TRUST:
        u.trust(t)
    u.add("pub mod white_ { use super::*; pub broadcast group group_text { white_blank, white_printable, clen_ascii } }" if False else "")
    u.notes.add("the methods of `str` and `String` are called through a trait with the same meaning (`.trim()` written `.trim_()` and so on); texts are owned where the source borrows them")


RENAMES = [("len", "len_"), ("is_empty", "is_empty_"), ("trim", "trim_"), ("trim_start", "trim_start_"), ("trim_end", "trim_end_"), ("trim_ascii", "trim_ascii_"),
           ("trim_ascii_end", "trim_ascii_end_"), ("to_owned", "to_owned_"), ("starts_with", "starts_with_"), ("ends_with", "ends_with_"), ("strip_prefix", "strip_prefix_"),
           ("strip_suffix", "strip_suffix_"), ("replace", "replace_"), ("to_string", "to_string_")]


def text_ops(b, ren=True):
    """Calls of std on texts"""
    b = sub_code(b, r"char\s*::\s*REPLACEMENT_CHARACTER", "REPLACEMENT_CHARACTER")
    b = sub_code(b, r"(\w+)\s*\[\s*\.\.\s*(\d+)\s*\]\s*\.\s*trim_ascii\s*\(\s*\)", r"trim_ascii_bytes(&\1[..\2])")
    b = sub_code(b, r"String\s*::\s*from_utf8_lossy\s*\(\s*(\w+)\s*\.\s*trim_ascii\s*\(\s*\)\s*\)", r"from_utf8_lossy_(trim_ascii_bytes(\1))")
    b = sub_code(b, r"String\s*::\s*from_utf8_lossy\s*\(\s*(\w+)\s*\)\s*\.\s*into_owned\s*\(\s*\)", r"from_utf8_lossy_(\1)")
    b = sub_code(b, r"String\s*::\s*from_utf8_lossy\s*\(", "from_utf8_lossy_(")
    b = sub_code(b, r"(?:std\s*::\s*)?str\s*::\s*from_utf8\s*\(", "from_utf8_(")
    b = sub_code(b, r"String\s*::\s*new\s*\(\s*\)", "new_string()")
    b = sub_code(b, r"(\w+)\s*\.\s*push\s*\(", r"push_(&mut \1, ")
    b = sub_code(b, r"(\w+)\s*\.\s*push_str\s*\(", r"push_str_(&mut \1, ")
    b = sub_code(b, r"\.\s*chars\s*\(\s*\)\s*\.\s*next\s*\(\s*\)", ".first_char_()")
    b = sub_code(b, r"\.\s*parse\s*::\s*<\s*(i64|f64)\s*>\s*\(\s*\)", r".parse_\1_()")
    b = sub_code(b, r"&\s*(\w+)\s*\[\s*(\w+)\s*\.\.\s*(\w+)\s*\.\s*len\s*\(\s*\)\s*-\s*(\d+)\s*\]", r"&\1.slice_(\2, \3.len_() - \4)")
    b = sub_code(b, r"\.\s*(?:starts_with|ends_with)\s*\(\s*'(.)'\s*\)", lambda m: re.sub(r"'(.)'", r'"\1"', m.group(0)))
    if ren:
        for a, c in RENAMES:
            b = sub_code(b, r"\.\s*%s\s*\(" % a, ".%s(" % c)
    b = sub_code(b, r"format!\s*\(", "message_(")
    while True:
        m = next(find_code(b, r"message_\s*\("), None)
        if not m:
            break
        b = b[:m.start()] + "message()" + b[match_close(b, m.end() - 1) + 1:]
    return b


def loops_over_chars(b, notes):
    """for (i, c) in x.chars().enumerate() { .. } and for c in x.chars().skip(n) { .. } as while loops"""
    def put(s, m, head):
        c = match_close(s, m.end() - 1)
        return s[:m.start()] + "{ %s %s } }" % (head, s[m.end():c]) + s[c + 1:]
    while True:
        m = next(find_code(b, r"for\s+\(\s*(\w+)\s*,\s*(\w+)\s*\)\s+in\s+(\w+)\s*\.\s*chars\s*\(\s*\)\s*\.\s*enumerate\s*\(\s*\)\s*\{"), None)
        if not m:
            break
        b = put(b, m, "let src_ = %s.chars_(); let mut k_: usize = 0; while k_ < src_.len() { let %s = k_; let %s = src_[k_]; k_ += 1;" % (m.group(3), m.group(1), m.group(2)))
    while True:
        m = next(find_code(b, r"for\s+(\w+)\s+in\s+(\w+)\s*\.\s*chars\s*\(\s*\)\s*\.\s*skip\s*\(([^(){}]*)\)\s*\{"), None)
        if not m:
            break
        b = put(b, m, "let src_ = %s.chars_(); let mut k_: usize = %s; while k_ < src_.len() { let %s = src_[k_]; k_ += 1;" % (m.group(2), m.group(3), m.group(1)))
    notes.add("`for` over the characters of a text written as the while loop it stands for")
    return b


def str_match(b, notes):
    """match on a text with literals as patterns becomes a chain of comparisons"""
    while True:
        for m in find_code(b, r"match\s+([\w.()]+)\s*\{\s*\""):
            o = b.index("{", m.start())
            c = match_close(b, o)
            arms = split_arms(b[o + 1:c])
            out, last = [], None
            for pat, val in arms:
                if pat == "_":
                    last = val
                    break
                lits = [p.strip() for p in pat.split("|")]
                if not all(re.match(r'"[^"\\]*"$', p) for p in lits):
                    raise Lost("pattern of a text")
                out.append("if %s { %s }" % (" || ".join("text_.eq_(%s)" % p for p in lits), val))
            if last is None:
                raise Lost("match on a text without default")
            notes.add("`match` on a text written as the chain of comparisons it stands for")
            b = b[:m.start()] + "{ let text_ = &%s; %s else { %s } }" % (m.group(1), " else ".join(out), last) + b[c + 1:]
            break
        else:
            return b


def split_arms(s):
    out, i = [], 0
    while True:
        while i < len(s) and (s[i].isspace() or s[i] == ","):
            i += 1
        if i >= len(s):
            return out
        m = next(find_code(s, r"=>", i), None)
        if not m:
            raise Lost("arm")
        pat = s[i:m.start()].strip()
        j = m.end()
        while s[j].isspace():
            j += 1
        if s[j] == "{":
            e = match_close(s, j) + 1
        else:
            e = j
            while e < len(s):
                k = skip_literal(s, e)
                if k is not None:
                    e = k
                    continue
                if s[e] in "([{":
                    e = match_close(s, e) + 1
                    continue
                if s[e] == ",":
                    break
                e += 1
        out.append((pat, s[j:e].strip()))
        i = e


def bytes_eq(b):
    """b"XY" == &buf[a..c]"""
    def go(m):
        lit, name, lo, hi = m.group(1), m.group(2), int(m.group(3)), int(m.group(4))
        if hi - lo != len(lit) or "\\" in lit:
            raise Lost("comparison of bytes")
        return "(" + " && ".join("%s[%d] == %du8" % (name, lo + i, ord(x)) for i, x in enumerate(lit)) + ")"
    b = sub_code(b, r'(?<!\w)b"([^"]*)"\s*==\s*&?\s*(\w+)\s*\[\s*(\d+)\s*\.\.\s*(\d+)\s*\]', go)
    return b


SPEC = r'''
// ---- value and comment
pub struct Lex { pub value: Seq<char>, pub slash: Option<int> }
/// Reads the characters from k on. quoted: in a quoted text. closing: the last character was a quote in it, which ends it unless another one follows.
pub open spec fn lex(s: Seq<char>, k: int, quoted: bool, closing: bool, acc: Seq<char>) -> Option<Lex> decreases s.len() - k {
    if k < 0 || k >= s.len() { Some(Lex { value: acc, slash: None }) }
    else if s[k] == '\'' {
        if quoted && closing { lex(s, k + 1, true, false, acc) }            // the second of two quotes
        else if quoted { lex(s, k + 1, true, true, acc.push('\'')) }
        else { lex(s, k + 1, true, false, acc.push('\'')) }
    }
    else if s[k] == '/' && (!quoted || closing) { Some(Lex { value: acc, slash: Some(k) }) }
    else if s[k] == '/' { lex(s, k + 1, quoted, closing, acc.push('/')) }
    else if printable(s[k]) { lex(s, k + 1, quoted && !closing, false, acc.push(s[k])) }
    else if quoted { lex(s, k + 1, quoted, closing, acc.push('\u{FFFD}')) }
    else { None }
}
pub open spec fn clean(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if printable(c) { c } else { '\u{FFFD}' }) }
pub open spec fn comment_is(c: Option<String>, o: Option<Seq<char>>) -> bool { c is Some == o is Some && (c is Some ==> Some(c->Some_0@) == o) }
/// The value and the comment of a field of a record
pub open spec fn split(b: Seq<u8>) -> Option<(Seq<char>, Option<Seq<char>>)> {
    let s = lossy(trim_bytes(b));
    match lex(s, 0, false, false, Seq::empty()) {
        None => None,
        Some(x) => Some((trim_both(x.value), match x.slash { None => None, Some(i) => Some(trim_r(clean(s.skip(i + 1)))) })),
    }
}
/// The text between quotes, or a text without
pub open spec fn string_of(s: Seq<char>) -> Option<Seq<char>> {
    let open = s.len() > 0 && s[0] == '\''; let close = s.len() > 0 && s.last() == '\'' && (s.len() > 1 || !open);
    if open != close { None } else { let v = if open { s.subrange(1, s.len() - 1) } else { s };
        if v.len() == 0 { Some(v) } else if trim_r(v).len() == 0 { Some(seq![' ']) } else { Some(trim_r(v)) } }
}
pub open spec fn number_of(s: Seq<char>, r: Value, c: Option<String>) -> bool {
    if s.len() == 0 { r == Value::Undefined }
    else if int_of(s) is Some { r == (Value::Integer { value: int_of(s)->Some_0, comment: c }) }
    else if real_of(s) is Some { r == (Value::Float { value: real_of(s)->Some_0, comment: c }) }
    else if real_of(replaced(s, 'D', seq!['E'])) is Some { r == (Value::Float { value: real_of(replaced(s, 'D', seq!['E']))->Some_0, comment: c }) }
    else { match r { Value::Invalid(t) => t@ == s, _ => false } }
}
/// The value of a field of a record
pub open spec fn value_of(b: Seq<u8>, r: Result<Value, Error>) -> bool {
    match split(b) {
        None => r is Err,
        Some((s, c)) =>
            if s.len() == 0 { r is Ok && r->Ok_0 is Undefined }
            else if s[0] == '\'' { r is Ok == string_of(s) is Some && match r { Ok(Value::String { value, comment }) => Some(value@) == string_of(s) && comment_is(comment, c), Ok(_) => false, Err(_) => true } }
            else if s[0] == 'T' || s[0] == 'F' { match r { Ok(Value::Logical { value, comment }) => value == (s[0] == 'T') && comment_is(comment, c), _ => false } }
            else if s[0] == '(' { r is Err }
            else if '0' <= s[0] && s[0] <= '9' || s[0] == '-' || s[0] == '+' || s[0] == '.' { r is Ok && exists|cc: Option<String>| #[trigger] comment_is(cc, c) && number_of(s, r->Ok_0, cc) }
            else { match r { Ok(Value::Invalid(t)) => t@ == lossy(b), _ => false } },
    }
}
pub open spec fn text_of(b: Seq<u8>) -> Seq<char> { atrim_r(b.map_values(|x: u8| if 0x20 <= x && x <= 0x7E { x as char } else { '\u{FFFD}' })) }
pub open spec fn xtension_of(s: Seq<char>) -> Option<XtensionType> {
    if s == "IMAGE"@ || s == "IUEIMAGE"@ { Some(XtensionType::Image) } else if s == "TABLE"@ { Some(XtensionType::AsciiTable) }
    else if s == "BINTABLE"@ { Some(XtensionType::BinTable) } else { None }
}
pub open spec fn unquoted(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() >= 2 && s[0] == '\'' && s.last() == '\'' { Some(s.skip(1).drop_last()) } else { None }
}
pub open spec fn extension_is(b: Seq<u8>, r: Result<Card, Error>) -> bool {
    let o = match split(b.skip(10)) { None => None::<(XtensionType, Option<Seq<char>>)>, Some((s, c)) => match unquoted(s) { None => None,
        Some(q) => match xtension_of(atrim_l(atrim_r(q))) { None => None, Some(x) => Some((x, c)) } } };
    match (o, r) { (None, Err(_)) => true, (Some((x, c)), Ok(Card::Xtension { x: y, comment })) => x == y && comment_is(comment, c), _ => false }
}
pub open spec fn continuation_is(b: Seq<u8>, r: Result<Card, Error>) -> bool {
    match split(b.skip(8)) { None => r is Err, Some((s, c)) => match string_of(s) { None => r is Err,
        Some(t) => match r { Ok(Card::Continuation { string: Some(x), comment }) => x@ == t && comment_is(comment, c), _ => false } } }
}
/// The first '=' from a place on
pub open spec fn equals_at(b: Seq<u8>, k: int) -> Option<int> decreases b.len() - k { if k < 0 || k >= b.len() { None } else if b[k] == 61 { Some(k) } else { equals_at(b, k + 1) } }
pub proof fn lemma_equals(b: Seq<u8>, k: int) requires 0 <= k
    ensures match equals_at(b, k) { Some(e) => k <= e < b.len() && b[e] == 61 && forall|i: int| k <= i < e ==> b[i] != 61, None => forall|i: int| k <= i < b.len() ==> b[i] != 61 }
    decreases b.len() - k { if k < b.len() && b[k] != 61 { lemma_equals(b, k + 1); } }
pub open spec fn hierarch_is(b: Seq<u8>, r: Result<Card, Error>) -> bool {
    match equals_at(b, 9) { None => r is Err, Some(e) => match dotted(b.subrange(9, e)) { None => r is Err,
        Some(n) => match r { Ok(Card::Hierarch { name, value }) => name@ == n && value_of(b.skip(e + 1), Ok(value)), Ok(_) => false, Err(x) => value_of(b.skip(e + 1), Err(x)) } } }
}
/// The unit: what is between brackets at the start of a comment
pub open spec fn unit_is(c: Seq<char>, r: Option<String>) -> bool {
    let t = trim_l(c);
    match r { None => !(t.len() > 0 && t[0] == '[' && t.contains(']')),
        Some(x) => t.len() > 0 && t[0] == '[' && exists|i: int| 1 <= i < t.len() && #[trigger] t[i] == ']' && !t.take(i).contains(']') && x@ == t.subrange(1, i) }
}
pub open spec fn keyword(b: Seq<u8>) -> Option<Seq<char>> { utf8(trim_bytes(b.take(8))) }
/// The record 80 bytes stand for
pub open spec fn card_is(b: Seq<u8>, r: Result<Card, Error>) -> bool {
    match keyword(b) { None => r is Err, Some(k) =>
        if k == ""@ { let t = text_of(b.skip(8)); match r { Ok(Card::Space) => t.len() == 0, Ok(Card::Comment(c)) => t.len() > 0 && c@ == t, _ => false } }
        else if k == "COMMENT"@ { match r { Ok(Card::Comment(c)) => c@ == text_of(b.skip(8)), _ => false } }
        else if k == "HISTORY"@ { match r { Ok(Card::History(c)) => c@ == text_of(b.skip(8)), _ => false } }
        else if k == "CONTINUE"@ { continuation_is(b, r) }
        else if k == "XTENSION"@ { extension_is(b, r) }
        else if k == "HIERARCH"@ { hierarch_is(b, r) }
        else if k == "END"@ { match r { Ok(Card::End) => true, _ => false } }
        else if b[8] == 61 && b[9] == 32 { match r { Ok(Card::Value { name, value }) => name@ == k && value_of(b.skip(10), Ok(value)), Ok(_) => false, Err(x) => value_of(b.skip(10), Err(x)) } }
        else { match r { Ok(Card::Undefined(t)) => t@ == lossy(b), _ => false } }
    }
}
'''

# what the lexer guarantees of the texts the standard defines
LEMMAS = r'''
pub open spec fn escape(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { t } else if t.last() == '\'' { escape(t.drop_last()).push('\'').push('\'') } else { escape(t.drop_last()).push(t.last()) }
}
pub open spec fn quote(t: Seq<char>) -> Seq<char> { seq!['\''] + escape(t) + seq!['\''] }
pub open spec fn all_printable(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> printable(#[trigger] t[i]) }
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn start(s: Seq<char>) -> Option<Lex> { lex(s, 0, false, false, Seq::empty()) }

pub proof fn lemma_in_quotes(t: Seq<char>, s: Seq<char>, n: int)
    requires all_printable(t), 0 <= n <= t.len(), s.len() >= 1 + escape(t.take(n)).len(), s[0] == '\'', forall|i: int| 0 <= i < escape(t.take(n)).len() ==> s[1 + i] == escape(t.take(n))[i]
    ensures start(s) == lex(s, 1 + escape(t.take(n)).len() as int, true, false, seq!['\''] + t.take(n))
    decreases n
{
    if n == 0 {
        assert(t.take(0) =~= Seq::<char>::empty()); assert(escape(t.take(0)).len() == 0);
        assert(seq!['\''] + t.take(0) =~= Seq::<char>::empty().push('\''));
    } else {
        let p = t.take(n); assert(p.drop_last() =~= t.take(n - 1)); assert(p.last() == t[n - 1]);
        let e = escape(t.take(n - 1));
        assert forall|i: int| 0 <= i < e.len() implies s[1 + i] == e[i] by { assert(escape(p)[i] == e[i]); }
        lemma_in_quotes(t, s, n - 1);
        assert(escape(p)[e.len() as int] == p.last()); assert(s[1 + e.len() as int] == p.last());
        assert((seq!['\''] + t.take(n - 1)).push(p.last()) =~= seq!['\''] + t.take(n));
        assert(printable(t[n - 1]));
        if p.last() == '\'' { assert(escape(p)[e.len() as int + 1] == '\''); assert(s[2 + e.len() as int] == '\'');
            let acc = seq!['\''] + t.take(n - 1); let k = 1 + e.len() as int; assert(escape(p).len() == e.len() + 2);
            assert(lex(s, k, true, false, acc) == lex(s, k + 1, true, true, acc.push('\'')));
            assert(lex(s, k + 1, true, true, acc.push('\'')) == lex(s, k + 2, true, false, acc.push('\''))); }
    }
}
/// A quoted text is read up to its closing quote, doubled quotes are one
pub proof fn lemma_quoted(t: Seq<char>, rest: Seq<char>)
    requires all_printable(t)
    ensures start(quote(t) + rest) == lex(quote(t) + rest, quote(t).len() as int, true, true, seq!['\''] + t + seq!['\''])
{
    let s = quote(t) + rest;
    assert(t.take(t.len() as int) =~= t);
    assert forall|i: int| 0 <= i < escape(t).len() implies s[1 + i] == escape(t)[i] by { }
    lemma_in_quotes(t, s, t.len() as int);
    assert(s[1 + escape(t).len() as int] == '\'');
    assert((seq!['\''] + t).push('\'') =~= seq!['\''] + t + seq!['\'']);
}
pub proof fn lemma_blanks(s: Seq<char>, k: int, n: nat, acc: Seq<char>, closing: bool)
    requires 0 <= k, k + n <= s.len(), forall|i: int| k <= i < k + n ==> s[i] == ' '
    ensures n > 0 ==> lex(s, k, closing, closing, acc) == lex(s, k + n, false, false, acc + blanks(n)) decreases n
{
    if n == 1 { assert(acc + blanks(1) =~= acc.push(' ')); }
    else if n > 1 { lemma_blanks(s, k, (n - 1) as nat, acc, closing); assert(s[k + n - 1] == ' '); assert((acc + blanks((n - 1) as nat)).push(' ') =~= acc + blanks(n)); }
}
pub proof fn lemma_trim_blanks(s: Seq<char>, n: nat) ensures trim_r(s + blanks(n)) == trim_r(s) decreases n {
    broadcast use white_blank;
    if n > 0 { assert((s + blanks(n)).drop_last() =~= s + blanks((n - 1) as nat)); assert((s + blanks(n)).last() == ' '); lemma_trim_blanks(s, (n - 1) as nat); } else { assert(s + blanks(0) =~= s); }
}
pub open spec fn string_value(t: Seq<char>) -> Seq<char> { if t.len() == 0 { t } else if trim_r(t).len() == 0 { seq![' '] } else { trim_r(t) } }
proof fn lemma_unquote(t: Seq<char>)
    ensures trim_both(seq!['\''] + t + seq!['\'']) == seq!['\''] + t + seq!['\''], string_of(seq!['\''] + t + seq!['\'']) == Some(string_value(t))
{
    broadcast use white_printable;
    let q = seq!['\''] + t + seq!['\''];
    assert(q.last() == '\'' && q[0] == '\''); assert(!white('\''));
    assert(q.subrange(1, q.len() - 1) =~= t);
}
/// C01: a text written in quotes, with its quotes doubled, comes back as it is but for trailing blanks; slashes in it start no comment
pub proof fn lemma_round_trip(t: Seq<char>)
    requires all_printable(t)
    ensures start(quote(t)) == Some(Lex { value: seq!['\''] + t + seq!['\''], slash: None }), string_of(trim_both(seq!['\''] + t + seq!['\''])) == Some(string_value(t))
{ lemma_quoted(t, Seq::empty()); assert(quote(t) + Seq::<char>::empty() =~= quote(t)); lemma_unquote(t); }
/// ... and the comment after blanks and a slash is separated from it
pub proof fn lemma_round_trip_comment(t: Seq<char>, n: nat, c: Seq<char>)
    requires all_printable(t)
    ensures ({ let s = quote(t) + (blanks(n) + seq!['/'] + c); let at = quote(t).len() as int + n;
        start(s) == Some(Lex { value: seq!['\''] + t + seq!['\''] + blanks(n), slash: Some(at as int) }) && s.skip(at + 1) =~= c
        && string_of(trim_both(seq!['\''] + t + seq!['\''] + blanks(n))) == Some(string_value(t)) })
{
    let rest = blanks(n) + seq!['/'] + c; let s = quote(t) + rest; let k = quote(t).len() as int; let v = seq!['\''] + t + seq!['\''];
    lemma_quoted(t, rest);
    assert forall|i: int| k <= i < k + n implies s[i] == ' ' by { assert(s[i] == rest[i - k]); }
    assert(s[k + n] == rest[n as int]); assert(s[k + n] == '/');
    if n > 0 { lemma_blanks(s, k, n, v, true); } else { assert(v + blanks(0) =~= v); }
    lemma_trim_blanks(v, n); lemma_unquote(t);
}
/// A value without quotes ends at the first slash
pub proof fn lemma_plain(s: Seq<char>, k: int, n: int, acc: Seq<char>)
    requires 0 <= k <= n <= s.len(), forall|i: int| k <= i < n ==> printable(s[i]) && s[i] != '\'' && s[i] != '/', n < s.len() ==> s[n] == '/'
    ensures lex(s, k, false, false, acc) == Some(Lex { value: acc + s.subrange(k, n), slash: if n < s.len() { Some(n) } else { None } }) decreases n - k
{
    if k < n { lemma_plain(s, k + 1, n, acc.push(s[k])); assert(acc.push(s[k]) + s.subrange(k + 1, n) =~= acc + s.subrange(k, n)); }
    else { assert(acc + s.subrange(k, n) =~= acc); }
}
'''


SPLIT_INV1 = r'''    invariant src_@ == lossy(trim_bytes(buf0@)), buf@ == src_@, 0 <= k_ <= src_@.len(), src_@.len() < usize::MAX, slash == UNDEFINED, toc ==> tic,
        lex(src_@, k_ as int, tic, toc, value@) == lex(src_@, 0, false, false, Seq::empty()),
    ensures src_@.len() < usize::MAX, slash == UNDEFINED ==> lex(src_@, 0, false, false, Seq::empty()) == Some(Lex { value: value@, slash: None }),
        slash != UNDEFINED ==> lex(src_@, 0, false, false, Seq::empty()) == Some(Lex { value: value@, slash: Some(slash as int) }) && slash < src_@.len(),
    decreases src_@.len() - k_'''
SPLIT_INV2 = r'''    invariant src_@ == buf@, slash + 1 <= k_ <= src_@.len(), comment@ =~= clean(src_@.subrange(slash + 1, k_ as int)),
    decreases src_@.len() - k_'''


def split_edit(u):
    def edit(h, b):
        h = re.sub(r"\bbuf\s*:", "buf0:", h)
        b = sub_code(b, r"const\s+UNDEFINED\s*:\s*usize\s*=\s*usize\s*::\s*MAX\s*;", "let UNDEFINED: usize = usize::MAX;")
        # the parameter is shadowed by the text
        b = text_ops(b, ren=False)
        b = sub_code(b, r"let\s+buf\s*=\s*from_utf8_lossy_\(trim_ascii_bytes\(buf\)\)", "let buf = from_utf8_lossy_(trim_ascii_bytes(buf0))", 1, "the text of the field")
        b = loops_over_chars(b, u.notes)
        for a in ("trim", "trim_end", "to_owned"):
            b = sub_code(b, r"\.\s*%s\s*\(" % a, ".%s_(" % a)
        b = sub_code(b, r"unreachable!\s*\([^()]*\)", "{ proof { assert(false); } return Err(Error::Other); }")
        return h, b
    return edit


STRING_ENTRY = r'''broadcast use {white_blank, white_printable, clen_ascii};
proof { reveal_strlit("'"); let t = s@;
    if t.len() > 0 { assert(t.take(1) =~= seq![t[0]]); assert(t.skip(t.len() - 1) =~= seq![t.last()]); assert("'"@ =~= seq!['\'']);
        assert(t.take(1)[0] == t[0]); assert(t.skip(t.len() - 1)[0] == t.last());
        assert(t.take(1).drop_last() =~= Seq::<char>::empty()); assert(blen(t.take(1)) == clen(t[0])) by { reveal_with_fuel(blen, 3); }
        assert(t.take(t.len() - 1) =~= t.drop_last());
        assert(blen(t) == blen(t.take(t.len() - 1)) + clen(t.last()));
        assert(t.len() == 1 ==> t.drop_last() =~= Seq::<char>::empty());
        lemma_blen(t);
    }
    reveal_strlit(" "); assert(" "@ =~= seq![' ']);
}'''
NUMBER_ENTRY = r'''proof { reveal_strlit("E"); assert("E"@ =~= seq!['E']); }'''
SLICES = r'''proof { reveal_strlit("= "); assert(buf@.len() == 80); }'''
HIER = r'''proof { lemma_equals(buf@, 9); match equals_at(buf@, 9) { Some(e) => { assert(buf@.subrange(9, 80)[e - 9] == buf@[e]); } None => { } } assert(forall|i: int| 9 <= i < 80 ==> buf@[i] == #[trigger] buf@.subrange(9, 80)[i - 9]); assert(forall|i: int| 0 <= i < 71 ==> #[trigger] buf@.subrange(9, 80)[i] == buf@[i + 9]); }'''
COMMENT_INV = r'''    invariant 0 <= k_ <= buf@.len(), comment@ =~= buf@.take(k_ as int).map_values(|x: u8| if 0x20 <= x && x <= 0x7E { x as char } else { '\u{FFFD}' }),
    decreases buf@.len() - k_'''


UNIT_ENTRY = r'''broadcast use clen_ascii;
proof { reveal_strlit("["); assert("["@ =~= seq!['[']);
    match comment { Some(c0) => { let t = trim_l(c0@); if t.len() > 0 { assert(t.take(1) =~= seq![t[0]]); assert(t.take(1)[0] == t[0]);
        assert(t.take(1).drop_last() =~= Seq::<char>::empty()); assert(blen(t.take(1)) == clen(t[0])) by { reveal_with_fuel(blen, 3); }
    } } None => { } } }'''


def unit_edit(b):
    b = sub_code(b, r'\.\s*find\s*\(\s*"(.)"\s*\)', r".find_('\1')")
    b = sub_code(b, r"&\s*(\w+)\s*\[\s*(\w+)\s*\.\.\s*(\w+)\s*\]", r"\1.slice_(\2, \3)")
    return b


def string_edit(b):
    b = sub_code(b, r"let\s+value\s*:\s*&\s*str\s*=", "let value: &String =")
    return b


def comment_edit(u):
    def edit(h, b):
        # buf.iter().map(|b| ..).for_each(|ch| comment.push(ch))
        b = desugar_chain(b, u.notes)
        b = text_ops(b, ren=False)
        for a in ("trim_ascii_end", "to_owned"):
            b = sub_code(b, r"\.\s*%s\s*\(" % a, ".%s_(" % a)
        b = sub_code(b, r"comment\s*\.\s*trim_ascii_end_", "proof { assert(buf@.take(buf@.len() as int) =~= buf@); } comment.trim_ascii_end_", 1, "comment")
        return h, b
    return edit


def slices(b):
    return b


def ext_edit(b):
    b = sub_code(b, r"quoted\s*\.\s*trim_ascii_\s*\(\s*\)\s*\.\s*parse\s*\(\s*\)", "xtension_from_str(&quoted.trim_ascii_())", 1, "type of the extension")
    return b


def hierarch_edit(u):
    def edit(h, b):
        b = text_ops(b)
        b = sub_code(b, r"Some\s*\(\s*mut\s+index_eq\s*\)\s*=\s*&?\s*(\w+)\s*\[\s*9\s*\.\.\s*\]\s*\.\s*iter\s*\(\s*\)\s*\.\s*position\s*\(\s*\|\s*&\s*b\s*\|\s*b\s*==\s*b'='\s*\)\s*\{",
                     r"Some(first_) = equals_position(&\1[9..]) { let mut index_eq = first_;", 1, "the equals sign")
        b = sub_code(b, r"index_eq\s*\+=\s*9\s*;", "index_eq += 9; proof { assert(buf@[index_eq as int] == buf@.subrange(9, 80)[index_eq - 9]); assert(equals_at(buf@, 9) == Some(index_eq as int)); }")
        m = next(find_code(b, r"&?\s*buf\s*\[\s*9\s*\.\.\s*index_eq\s*\]\s*\.\s*split\s*\("), None)
        if not m:
            raise Lost("name of HIERARCH")
        e = m.end() - 1
        chain = []
        while True:
            e = match_close(b, e) + 1
            k = re.compile(r"\s*\.\s*(\w+)\s*\(").match(b, e)
            if not k:
                break
            chain.append(k.group(1))
            e = k.end() - 1
        b = b[:m.start()] + "dotted_(&buf[9..index_eq])" + b[e:]
        u.notes.add("in parse_hierarch the joining of the words (split, %s) is replaced by an opaque function of the bytes" % ", ".join(chain))
        return h, b
    return edit


def std_text(u, more=None):
    def edit(h, b):
        b = bytes_eq(b)
        b = str_match(text_ops(b), u.notes)
        if more:
            b = more(b)
        return h, b
    return edit


def build(mdir, probe=False):
    u = Unit("card", mdir)
    u.probe = probe
    u.add(PRE)
    text_decl(u)
    u.item(C, r"pub enum Card\b", what="enum Card")
    u.item(C, r"pub enum Value", what="enum Value")
    u.item(X, r"pub enum XtensionType", derive="Clone, Copy, PartialEq, Eq, Structural")
    u.add(SPEC + LEMMAS)
    iso = "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]"
    u.fn(C, "split_value_and_comment", r'''    ensures match split(buf0@) { None => r is Err, Some((s, c)) => r is Ok && r->Ok_0.0@ == s && comment_is(r->Ok_0.1, c) },''',
         edit=split_edit(u), invs=[SPLIT_INV1, SPLIT_INV2], attrs=iso)
    u.fn(C, "parse_string", "    ensures r is Ok == string_of(s@) is Some, r is Ok ==> Some(r->Ok_0@) == string_of(s@),", edit=std_text(u, string_edit), entry=STRING_ENTRY)
    u.fn(C, "parse_number", "    ensures r is Ok, number_of(v@, r->Ok_0, c),", edit=std_text(u), entry=NUMBER_ENTRY)
    u.fn(C, "parse_value", "    ensures value_of(buf@, r),", edit=std_text(u))
    u.fn(C, "parse_comment_text", "    ensures r@ == text_of(buf@),", edit=comment_edit(u), invs=[COMMENT_INV])
    u.fn(C, "parse_empty_keyword_card", "    ensures match r { Card::Space => text_of(buf@.skip(8)).len() == 0, Card::Comment(c) => text_of(buf@.skip(8)).len() > 0 && c@ == text_of(buf@.skip(8)), _ => false },", edit=std_text(u, slices), entry=SLICES)
    u.fn(C, "parse_continuation", "    ensures continuation_is(buf@, r),", edit=std_text(u, slices), entry=SLICES)
    u.fn(X, "from_str", "    ensures r is Ok == xtension_of(value@) is Some, r is Ok ==> Some(r->Ok_0) == xtension_of(value@),", r"FromStr for XtensionType", edit=std_text(u), head="pub fn xtension_from_str(value: &str) -> Result<XtensionType, Error>", rename="xtension_from_str")
    u.fn(C, "parse_extension", "    ensures extension_is(buf@, r),", edit=std_text(u, lambda b: slices(ext_edit(b))), entry=SLICES)
    u.fn(C, "parse_hierarch", "    ensures hierarch_is(buf@, r),", edit=hierarch_edit(u), entry=SLICES + HIER)
    u.fn(C, "parse_unit", "    ensures match comment { None => r is None, Some(c) => unit_is(c@, r) },", edit=std_text(u, unit_edit), entry=UNIT_ENTRY, head="fn parse_unit(comment: &Option<String>) -> Option<String>")
    u.add("impl Value {")
    u.fn(C, "unit", """    ensures match *self { Value::Integer { comment, .. } => comment_unit(comment, r), Value::Float { comment, .. } => comment_unit(comment, r), Value::String { comment, .. } => comment_unit(comment, r),
        Value::Logical { comment, .. } => comment_unit(comment, r), _ => r is None },""", r"impl Value$", head="pub fn unit(&self) -> Option<String>")
    u.add("}\npub open spec fn comment_unit(comment: Option<String>, r: Option<String>) -> bool { match comment { None => r is None, Some(c) => unit_is(c@, r) } }")
    u.fn(C, "try_from", "    ensures card_is(buf@, r),", r"TryFrom<&CardBuf> for Card", edit=std_text(u, slices), entry=SLICES, head="pub fn card_try_from(buf: &[u8; 80]) -> Result<Card, Error>", rename="card_try_from")
    return u
