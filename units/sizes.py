"""Acceptance of the mandatory keywords and the size of the data unit (C06), the description of ASCII tables (C13)."""
import re

from extract import Lost, sub_code, find_code, match_close
from unit import Unit, desugar_for, statements, desugar_chain
from table import fields, consts, BITS
from common import DIV_CEIL, TRUST_DIV_CEIL

HD = "src/hdu/header/mod.rs"
XI = "src/hdu/header/extension/image.rs"
XB = "src/hdu/header/extension/bintable.rs"
XA = "src/hdu/header/extension/asciitable.rs"
C = "src/card.rs"

PRE = r'''
global size_of usize == 8;
pub enum Error { StaticError(&'static str), Other }
pub assume_specification [i8::unsigned_abs] (x: i8) -> (r: u8) ensures r == if x < 0 { -(x as int) } else { x as int };
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, b: T) -> (r: T) where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures r == match a { Ok(x) => x, Err(_) => b };
'''

# what a value of the header is as a value of a type: serde's conversions
PARSED = r'''
pub trait Parsed: Sized { spec fn of(v: Value) -> Option<Self>; }
impl Parsed for u64 { open spec fn of(v: Value) -> Option<u64> { match v { Value::Integer { value, .. } => if value >= 0 { Some(value as u64) } else { None }, _ => None } } }
impl Parsed for usize { open spec fn of(v: Value) -> Option<usize> { match v { Value::Integer { value, .. } => if value >= 0 { Some(value as usize) } else { None }, _ => None } } }
impl Parsed for Bitpix { open spec fn of(v: Value) -> Option<Bitpix> { match v { Value::Integer { value, .. } =>
    if value == 8 { Some(Bitpix::U8) } else if value == 16 { Some(Bitpix::I16) } else if value == 32 { Some(Bitpix::I32) } else if value == 64 { Some(Bitpix::I64) }
    else if value == -32 { Some(Bitpix::F32) } else if value == -64 { Some(Bitpix::F64) } else { None }, _ => None } } }
impl Parsed for String { uninterp spec fn of(v: Value) -> Option<String>; }
impl Parsed for TFormAsciiTable { uninterp spec fn of(v: Value) -> Option<TFormAsciiTable>; }

#[verifier::external_body]
pub struct ValueMap { p: () }
pub uninterp spec fn decimal(i: int) -> Seq<char>;
#[verifier::external_body]
pub fn indexed(kw: &'static str, i: usize) -> (r: &'static str) ensures r@ == kw@ + decimal(i as int) { unimplemented!() }
impl ValueMap {
    /// The value of a keyword, Undefined if there is none
    pub uninterp spec fn at(&self, key: Seq<char>) -> Value;
    pub open spec fn val<T: Parsed>(&self, key: &str) -> Option<T> { T::of(self.at(key@)) }
    pub open spec fn vali<T: Parsed>(&self, key: &str, i: int) -> Option<T> { T::of(self.at(key@ + decimal(i))) }
    #[verifier::external_body]
    pub fn get_parsed<T: Parsed>(&self, key: &str) -> (r: Result<T, Error>)
        ensures r is Ok == T::of(self.at(key@)) is Some, r is Ok ==> Some(r->Ok_0) == T::of(self.at(key@)) { unimplemented!() }
}
pub open spec fn is<T>(r: Result<T, Error>, o: Option<T>) -> bool { (r is Ok == o is Some) && (r is Ok ==> Some(r->Ok_0) == o) }
'''

SPEC = r'''
pub open spec fn pixel_size(b: Bitpix) -> int {
    match b { Bitpix::U8 => 1, Bitpix::I16 => 2, Bitpix::I32 => 4, Bitpix::I64 => 8, Bitpix::F32 => 4, Bitpix::F64 => 8 }
}
pub open spec fn product(s: Seq<u64>) -> int decreases s.len() { if s.len() == 0 { 1 } else { product(s.drop_last()) * s.last() } }
/// The number of pixels: the product of the axes, none without axes
pub open spec fn pixels(s: Seq<u64>) -> int { if s.len() == 0 { 0 } else { product(s) } }
#[verifier::external_body]
pub fn contains_(s: &Vec<u64>, x: &u64) -> (r: bool) ensures r == s@.contains(*x) { s.contains(x) }

/// The axes NAXIS1 .. NAXISn
pub open spec fn axes(v: ValueMap, n: int) -> Option<Seq<u64>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (axes(v, n - 1), v.vali::<u64>("NAXIS", n)) { (Some(s), Some(x)) => Some(s.push(x)), _ => None } }
}
/// What the header of an image has to say, and what it says
pub open spec fn image_of(v: ValueMap) -> Option<(Bitpix, Seq<u64>)> {
    match (v.val::<Bitpix>("BITPIX"), v.val::<u64>("NAXIS")) {
        (Some(b), Some(n)) => match axes(v, n as int) {
            Some(s) => if pixel_size(b) * pixels(s) <= u64::MAX { Some((b, s)) } else { None },
            None => None },
        _ => None,
    }
}
/// The mandatory keywords of a table: NAXIS1, NAXIS2, PCOUNT, TFIELDS
pub open spec fn table_of(v: ValueMap) -> Option<(u64, u64, u64, usize)> {
    match (v.val::<Bitpix>("BITPIX"), v.val::<u64>("NAXIS"), v.vali::<u64>("NAXIS", 1), v.vali::<u64>("NAXIS", 2), v.val::<u64>("PCOUNT"), v.val::<u64>("GCOUNT"), v.val::<usize>("TFIELDS")) {
        (Some(b), Some(n), Some(n1), Some(n2), Some(p), Some(g), Some(f)) => if b is U8 && n == 2 && g == 1 && f <= 999 { Some((n1, n2, p, f)) } else { None },
        _ => None,
    }
}
/// The fields of an ASCII table: those with a place and a format
pub open spec fn ascii_fields(v: ValueMap, n: int) -> (Seq<u64>, Seq<TFormAsciiTable>) decreases n {
    if n <= 0 { (Seq::empty(), Seq::empty()) } else {
        let (a, b) = ascii_fields(v, n - 1);
        match (v.vali::<u64>("TBCOL", n), v.vali::<TFormAsciiTable>("TFORM", n)) { (Some(c), Some(f)) => (a.push(c), b.push(f)), _ => (a, b) }
    }
}
pub open spec fn image_ok(i: Image) -> bool { pixel_size(i.bitpix) * pixels(i.naxisn@) <= u64::MAX }
pub open spec fn ascii_ok(a: AsciiTable) -> bool { a.naxis1 * a.naxis2 <= u64::MAX }
pub open spec fn table_ok(b: BinTable) -> bool { b.naxis1 * b.naxis2 + b.pcount <= i64::MAX }

pub proof fn lemma_zero(s: Seq<u64>) requires s.contains(0u64) ensures product(s) == 0 decreases s.len() {
    if s.len() > 0 { if s.last() != 0 {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == 0; assert(s.drop_last()[i] == 0); lemma_zero(s.drop_last()); } }
}
pub proof fn lemma_pos(s: Seq<u64>) requires !s.contains(0u64) ensures product(s) >= 1 decreases s.len() {
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] != 0 by { assert(s[i] != 0); }
        assert(!s.drop_last().contains(0u64)); lemma_pos(s.drop_last()); assert(s[s.len() - 1] != 0);
        assert(product(s.drop_last()) * s.last() >= 1) by (nonlinear_arith) requires product(s.drop_last()) >= 1, s.last() >= 1; }
}
/// The products of the first axes stay below that of all axes
pub proof fn lemma_prefix(s: Seq<u64>, k: int) requires !s.contains(0u64), 0 <= k <= s.len()
    ensures 1 <= product(s.take(k)) <= product(s), k < s.len() ==> product(s.take(k + 1)) == product(s.take(k)) * s[k] decreases s.len() - k {
    assert(!s.take(k).contains(0u64)) by { assert forall|i: int| 0 <= i < k implies s.take(k)[i] != 0 by { assert(s[i] != 0); } }
    lemma_pos(s.take(k));
    if k < s.len() { lemma_prefix(s, k + 1); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s[k] != 0);
        assert(product(s.take(k)) <= product(s.take(k)) * s[k]) by (nonlinear_arith) requires s[k] >= 1, product(s.take(k)) >= 1; }
    else { assert(s.take(k) =~= s); }
}
'''


def kw(h, b):
    """format!("NAXIS{i}") becomes a call of a function with that meaning"""
    b = sub_code(b, r'&\s*format!\s*\(\s*"([A-Z]+)\{(\w+)\}"\s*\)', r'indexed("\1", \2)')
    b = sub_code(b, r'format!\s*\(\s*"([A-Z]+)\{(\w+)\}"\s*\)', r'indexed("\1", \2)')
    return h, b


def contains(b):
    """v.contains(&x) of a slice"""
    return sub_code(b, r"([\w.]+)\s*\.\s*contains\s*\(", r"contains_(&\1, ")


NAXISN_INV = r'''    invariant 1 <= k_ <= naxis + 1, naxis <= i64::MAX, err_ is None ==> axes(*values, k_ - 1) == Some(out_@),
        err_ is Some ==> axes(*values, k_ - 1) is None,
    ensures err_ is None ==> axes(*values, naxis as int) == Some(out_@), err_ is Some ==> axes(*values, naxis as int) is None
    decreases naxis + 1 - k_'''
AXES_LEMMA = r'''
pub proof fn lemma_axes(v: ValueMap, m: int, n: int) requires 0 <= m <= n, axes(v, m) is None ensures axes(v, n) is None decreases n - m
    { if m < n { lemma_axes(v, m, n - 1); } }
pub proof fn lemma_axes_len(v: ValueMap, n: int) requires 0 <= n, axes(v, n) is Some ensures axes(v, n)->Some_0.len() == n decreases n
    { if n > 0 { lemma_axes_len(v, n - 1); } }
'''


def image_parse(u):
    def edit(h, b):
        b = desugar_chain(b, u.notes)
        b = desugar_chain(b, u.notes)
        b = sub_code(b, r"err_\s*=\s*Some\(e_\)\s*;\s*break\s*;", "err_ = Some(e_); proof { lemma_axes(*values, k_ - 1, naxis as int); } break;", 1, "collection with an error")
        b = sub_code(b, r"let\s+naxisn\s*=", "let naxisn: Vec<u64> =")
        b = contains(b)
        # where the lemmas are used
        m = list(find_code(b, r"while\s+k_[^{]*\{\s*let item_ = &naxisn\[k_\]; k_ \+= 1;"))
        if len(m) != 1:
            raise Lost("loop over the axes")
        b = b[:m[0].end()] + FOLD_PROOF + b[m[0].end():]
        b = sub_code(b, r"let mut out_ = Some\(", "let ghost bs = pixel_size(bitpix); proof { assert(naxisn@.take(0) =~= Seq::<u64>::empty()); assert(naxisn@.take(naxisn@.len() as int) =~= naxisn@); } let mut out_ = Some(", 1, "fold")
        b = sub_code(b, r"Ok\(\s*Image\b", "proof { if naxisn@.contains(0u64) { lemma_zero(naxisn@); } } Ok(Image", 1, "result")
        return h, b
    return edit


FOLD_INV = r'''    invariant 0 <= k_ <= naxisn@.len(), !naxisn@.contains(0u64), bs == pixel_size(bitpix),
        match out_ { Some(p) => p == bs * product(naxisn@.take(k_ as int)), None => bs * product(naxisn@) > u64::MAX }
    ensures match out_ { Some(p) => p == bs * product(naxisn@), None => bs * product(naxisn@) > u64::MAX }
    decreases naxisn@.len() - k_'''
FOLD_PROOF = r'''proof { lemma_prefix(naxisn@, k_ - 1); lemma_prefix(naxisn@, k_ as int);
    let t = product(naxisn@.take(k_ - 1));
    assert(bs * (t * naxisn@[k_ - 1]) == (bs * t) * naxisn@[k_ - 1]) by (nonlinear_arith);
    assert(bs * product(naxisn@.take(k_ as int)) <= bs * product(naxisn@)) by (nonlinear_arith) requires product(naxisn@.take(k_ as int)) <= product(naxisn@), bs >= 1;
    assert(naxisn@.take(naxisn@.len() as int) =~= naxisn@);
}'''


IMAGE_PARSE = '''    ensures r is Ok == image_of(*values) is Some,
        r is Ok ==> image_of(*values) == Some((r->Ok_0.bitpix, r->Ok_0.naxisn@)) && image_ok(r->Ok_0),'''
ASCII_PARSE = '''    ensures
        r is Ok == match table_of(*values) { Some((n1, n2, p, f)) => p == 0 && n1 * n2 <= u64::MAX, None => false },
        r is Ok ==> ascii_ok(r->Ok_0) && ({ let a = r->Ok_0;
            &&& table_of(*values) == Some((a.naxis1, a.naxis2, a.pcount, a.tfields)) && a.bitpix is U8 && a.pcount == 0 && a.gcount == 1
            &&& (a.tbcols@, a.tforms@) == ascii_fields(*values, a.tfields as int) }),'''
ASCII_INV = '''    invariant 1 <= k_ <= tfields + 1, tfields <= 999, (tbcols@, tforms@) == ascii_fields(*values, k_ - 1),
    decreases tfields + 1 - k_'''
PIXELS_INV = '''    invariant 0 <= k_ <= self.naxisn@.len(), out_ == product(self.naxisn@.take(k_ as int))
    decreases self.naxisn@.len() - k_'''


def num_pixels(u):
    def edit(h, b):
        b = desugar_chain(b, u.notes)
        b = contains(b)
        b = sub_code(b, r"let mut out_ = 1;", '''let mut out_: u64 = 1; proof { assert(self.naxisn@.take(0) =~= Seq::<u64>::empty()); assert(self.naxisn@.take(self.naxisn@.len() as int) =~= self.naxisn@); }''', 1, "product")
        b = sub_code(b, r"k_ \+= 1;", '''k_ += 1; proof { lemma_prefix(self.naxisn@, k_ - 1); lemma_prefix(self.naxisn@, k_ as int);
    assert(product(self.naxisn@) <= pixel_size(self.bitpix) * product(self.naxisn@)) by (nonlinear_arith) requires pixel_size(self.bitpix) >= 1, product(self.naxisn@) >= 1; }''', 1, "product")
        b = sub_code(b, r"return\s+0", "proof { if self.naxisn@.contains(0u64) { lemma_zero(self.naxisn@); } } return 0", 1, "no pixels")
        return h, b
    return edit


def ascii_parse(u):
    def edit(h, b):
        h, b = kw(h, desugar_for(b, u.notes))
        b = sub_code(b, r"let\s+mut\s+tbcols\s*=", "let mut tbcols: Vec<u64> =", 1, "tbcols")
        b = sub_code(b, r"let\s+mut\s+tforms\s*=", "let mut tforms: Vec<TFormAsciiTable> =", 1, "tforms")
        b = sub_code(b, r"k_ \+= 1;", "k_ += 1; reveal_with_fuel(ascii_fields, 2);", 1, "fields")
        return h, b
    return edit


BIN_SPEC = r'''
pub open spec fn elem(t: TFormType) -> int { match t {
    TFormType::L { .. } => 1, TFormType::X { .. } => 1, TFormType::B { .. } => 1, TFormType::A { .. } => 1, TFormType::I { .. } => 2, TFormType::J { .. } => 4, TFormType::E { .. } => 4,
    TFormType::K { .. } => 8, TFormType::D { .. } => 8, TFormType::C { .. } => 8, TFormType::M { .. } => 16, TFormType::P { .. } => 8, TFormType::Q { .. } => 16 } }
pub open spec fn count(t: TFormType) -> int { match t {
    TFormType::L { repeat_count } => repeat_count as int, TFormType::X { repeat_count } => (repeat_count + 7) / 8, TFormType::B { repeat_count } => repeat_count as int,
    TFormType::A { repeat_count } => repeat_count as int, TFormType::I { repeat_count } => repeat_count as int, TFormType::J { repeat_count } => repeat_count as int,
    TFormType::E { repeat_count } => repeat_count as int, TFormType::K { repeat_count } => repeat_count as int, TFormType::D { repeat_count } => repeat_count as int,
    TFormType::C { repeat_count } => repeat_count as int, TFormType::M { repeat_count } => repeat_count as int, TFormType::P { .. } => 1, TFormType::Q { .. } => 1 } }
/// Bytes of a field, in whole bytes for bits
pub open spec fn width(t: TFormType) -> int { elem(t) * count(t) }
pub open spec fn bits(t: TFormType) -> int { if t is X { t->X_repeat_count as int } else { 8 * width(t) } }
/// The width as it is computed: what cannot be represented is cut off
pub open spec fn width_cut(t: TFormType) -> int { ((if bits(t) <= usize::MAX { bits(t) } else { usize::MAX as int }) + 7) / 8 }
pub open spec fn row_width(ts: Seq<TFormType>) -> int decreases ts.len() { if ts.len() == 0 { 0 } else { row_width(ts.drop_last()) + width(ts.last()) } }
pub open spec fn row_cut(ts: Seq<TFormType>) -> int decreases ts.len() { if ts.len() == 0 { 0 } else { row_cut(ts.drop_last()) + width_cut(ts.last()) } }
/// Nothing is cut off from rows a table can have
pub proof fn lemma_cut(ts: Seq<TFormType>) requires row_cut(ts) < 0x2000_0000_0000_0000 ensures row_cut(ts) == row_width(ts) decreases ts.len() {
    if ts.len() > 0 { lemma_cut_pos(ts.drop_last()); lemma_cut_pos(ts); let t = ts.last(); assert(width_cut(t) >= 0) by { assert(bits(t) >= 0) by { lemma_bits(t); } }
        lemma_cut(ts.drop_last()); lemma_bits(t); assert(width_cut(t) == width(t)); }
}
pub proof fn lemma_bits(t: TFormType) ensures bits(t) >= 0, width(t) >= 0, t is X ==> width(t) == (bits(t) + 7) / 8, !(t is X) ==> bits(t) == 8 * width(t)
    { assert(elem(t) * count(t) >= 0) by (nonlinear_arith) requires elem(t) >= 0, count(t) >= 0; }
pub proof fn lemma_cut_pos(ts: Seq<TFormType>) ensures row_cut(ts) >= 0 decreases ts.len()
    { if ts.len() > 0 { lemma_cut_pos(ts.drop_last()); lemma_bits(ts.last()); } }
pub proof fn lemma_cut_prefix(ts: Seq<TFormType>, k: int) requires 0 <= k <= ts.len()
    ensures 0 <= row_cut(ts.take(k)) <= row_cut(ts), k < ts.len() ==> row_cut(ts.take(k + 1)) == row_cut(ts.take(k)) + width_cut(ts[k]) decreases ts.len() - k
    { lemma_cut_pos(ts.take(k)); if k < ts.len() { lemma_cut_prefix(ts, k + 1); assert(ts.take(k + 1).drop_last() =~= ts.take(k)); lemma_bits(ts[k]); } else { assert(ts.take(k) =~= ts); } }

// ---- TFORMn
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
/// How many digits a text starts with
pub open spec fn digits(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_digit(s[0]) { 0 } else { 1 + digits(s.skip(1)) } }
pub open spec fn number(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { number(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn repeat(s: Seq<char>) -> usize { let n = number(s.take(digits(s))); if digits(s) == 0 || n > usize::MAX { 1 } else { n as usize } }
pub open spec fn elem_of(c: char) -> Option<(u64, VariableArrayTy)> {
    if c == 'L' { Some((1, VariableArrayTy::L)) } else if c == 'X' { Some((1, VariableArrayTy::X)) } else if c == 'B' { Some((1, VariableArrayTy::B)) }
    else if c == 'I' { Some((2, VariableArrayTy::I)) } else if c == 'J' { Some((4, VariableArrayTy::J)) } else if c == 'K' { Some((8, VariableArrayTy::K)) }
    else if c == 'A' { Some((1, VariableArrayTy::A)) } else if c == 'E' { Some((4, VariableArrayTy::E)) } else if c == 'D' { Some((8, VariableArrayTy::D)) }
    else if c == 'C' { Some((8, VariableArrayTy::C)) } else if c == 'M' { Some((16, VariableArrayTy::M)) } else { None }
}
/// The type of a field: a repeat count, 1 if there is none, a letter, and for arrays that of the elements
pub open spec fn tform_of(s: Seq<char>) -> Option<TFormType> {
    let n = digits(s); let repeat_count = repeat(s);
    if n >= s.len() { None } else { let c = s[n];
        if c == 'L' { Some(TFormType::L { repeat_count }) } else if c == 'X' { Some(TFormType::X { repeat_count }) } else if c == 'B' { Some(TFormType::B { repeat_count }) }
        else if c == 'I' { Some(TFormType::I { repeat_count }) } else if c == 'J' { Some(TFormType::J { repeat_count }) } else if c == 'K' { Some(TFormType::K { repeat_count }) }
        else if c == 'A' { Some(TFormType::A { repeat_count }) } else if c == 'E' { Some(TFormType::E { repeat_count }) } else if c == 'D' { Some(TFormType::D { repeat_count }) }
        else if c == 'C' { Some(TFormType::C { repeat_count }) } else if c == 'M' { Some(TFormType::M { repeat_count }) }
        // FITS 7.3.5: a repeat count of 0 or 1
        else if (c == 'P' || c == 'Q') && repeat_count == 0 { Some(TFormType::B { repeat_count }) }
        else if c == 'P' && n + 1 < s.len() { match elem_of(s[n + 1]) { Some((t_byte_size, ty)) => Some(TFormType::P { t_byte_size, e_max: 999, ty }), None => None } }
        else if c == 'Q' && n + 1 < s.len() { match elem_of(s[n + 1]) { Some((t_byte_size, ty)) => Some(TFormType::Q { t_byte_size, e_max: 999, ty }), None => None } }
        else { None } }
}
pub open spec fn bin_field(v: ValueMap, i: int) -> Option<(TFormType, Option<String>)> {
    match v.vali::<String>("TFORM", i) { None => None, Some(s) => match tform_of(s@) { None => None, Some(t) => Some((t, v.vali::<String>("TTYPE", i))) } }
}
pub open spec fn bin_fields(v: ValueMap, n: int) -> (Seq<TFormType>, Seq<Option<String>>) decreases n {
    if n <= 0 { (Seq::empty(), Seq::empty()) } else { let (a, b) = bin_fields(v, n - 1);
        match bin_field(v, n) { Some((t, name)) => (a.push(t), b.push(name)), None => (a, b) } }
}
#[verifier::external_body]
pub struct TileCompressedImage { p: () }
pub uninterp spec fn tiles_of(v: ValueMap, ts: Seq<TFormType>, ns: Seq<Option<String>>) -> Option<TileCompressedImage>;
#[verifier::external_body]
pub fn tiles_of_(v: &ValueMap, ts: &Vec<TFormType>, ns: &Vec<Option<String>>) -> (r: Option<TileCompressedImage>) ensures r == tiles_of(*v, ts@, ns@) { unimplemented!() }
#[verifier::external_body]
pub fn leading_digits(s: &String) -> (r: String) ensures 0 <= digits(s@) <= s@.len(), r@ == s@.take(digits(s@)), digits(r@) == r@.len() { unimplemented!() }
#[verifier::external_body]
pub fn ascii_len(s: &String) -> (r: usize) requires digits(s@) == s@.len() ensures r == s@.len(), r < usize::MAX { s.len() }
#[verifier::external_body]
pub fn parse_usize(s: &String) -> (r: Result<usize, Error>) requires digits(s@) == s@.len()
    ensures r is Ok == (s@.len() > 0 && number(s@) <= usize::MAX), r is Ok ==> r->Ok_0 == number(s@) { unimplemented!() }
#[verifier::external_body]
pub fn char_at(s: &String, n: usize) -> (r: Option<char>) ensures r == if n < s@.len() { Some(s@[n as int]) } else { None } { unimplemented!() }
'''
BIN_TRUST = ["char::is_ascii_digit, usize::from_str on digits, str::chars().nth: what they mean on a text",
             "the tile description `z_image` of a binary table is a function of the header and of the fields (driver of C15); it does not end the reading of the header"]
BIN_PARSE = '''    ensures
        r is Ok == match table_of(*values) { Some((n1, n2, p, f)) => n1 * n2 + p <= i64::MAX && row_cut(bin_fields(*values, f as int).0) == n1, None => false },
        r is Ok ==> table_ok(r->Ok_0) && ({ let a = r->Ok_0;
            &&& table_of(*values) == Some((a.naxis1, a.naxis2, a.pcount, a.tfields)) && a.bitpix is U8 && a.gcount == 1
            &&& (a.tforms@, a.ttypes@) == bin_fields(*values, a.tfields as int)
            &&& a.naxis1 < 0x2000_0000_0000_0000 ==> row_width(a.tforms@) == a.naxis1
            &&& a.theap == match values.val::<usize>("THEAP") { Some(t) => t as int, None => a.naxis1 * a.naxis2 }
            &&& a.z_image == tiles_of(*values, a.tforms@, a.ttypes@) }),'''
FIELDS_INV = '''    invariant 1 <= k_ <= tfields + 1, tfields <= 999, (out_@, out2_@) == bin_fields(*values, k_ - 1),
    decreases tfields + 1 - k_'''
ROW_INV = '''    invariant 0 <= k_ <= tforms@.len(), out_ == if row_cut(tforms@.take(k_ as int)) <= u64::MAX { row_cut(tforms@.take(k_ as int)) } else { u64::MAX as int },
    decreases tforms@.len() - k_'''
FIELD = '''    ensures r == bin_field(*values, idx_field as int),'''
ARRAY = '''    requires num_count_digits < tform@.len(), num_count_digits < usize::MAX
    ensures match r { Some((n, ty)) => num_count_digits + 1 < tform@.len() && elem_of(tform@[num_count_digits + 1]) == Some((n as u64, ty)),
        None => num_count_digits + 1 < tform@.len() ==> elem_of(tform@[num_count_digits + 1]) is None },'''


BITS_CASES = '''proof { let t = *self; match t { TFormType::L { repeat_count } => { assert(elem(t) * count(t) == 1 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 1, count(t) == repeat_count as int; } TFormType::B { repeat_count } => { assert(elem(t) * count(t) == 1 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 1, count(t) == repeat_count as int; } TFormType::A { repeat_count } => { assert(elem(t) * count(t) == 1 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 1, count(t) == repeat_count as int; } TFormType::I { repeat_count } => { assert(elem(t) * count(t) == 2 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 2, count(t) == repeat_count as int; } TFormType::J { repeat_count } => { assert(elem(t) * count(t) == 4 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 4, count(t) == repeat_count as int; } TFormType::E { repeat_count } => { assert(elem(t) * count(t) == 4 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 4, count(t) == repeat_count as int; } TFormType::K { repeat_count } => { assert(elem(t) * count(t) == 8 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 8, count(t) == repeat_count as int; } TFormType::D { repeat_count } => { assert(elem(t) * count(t) == 8 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 8, count(t) == repeat_count as int; } TFormType::C { repeat_count } => { assert(elem(t) * count(t) == 8 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 8, count(t) == repeat_count as int; } TFormType::M { repeat_count } => { assert(elem(t) * count(t) == 16 * (repeat_count as int)) by (nonlinear_arith) requires elem(t) == 16, count(t) == repeat_count as int; } _ => { } } }'''


def find_closure(s, regex, what):
    '''(start of the closure, its body with braces, end)'''
    ms = list(find_code(s, regex))
    if len(ms) != 1:
        raise Lost(what)
    o = ms[0].end() - 1
    if s[o] != "{":
        raise Lost(what)
    c = match_close(s, o)
    return ms[0], s[o:c + 1], c + 1


def text_ops(b):
    b = sub_code(b, r"(\w+)\s*\.\s*chars\s*\(\s*\)\s*\.\s*take_while\s*\(\s*\|\s*c\s*\|\s*c\s*\.\s*is_ascii_digit\s*\(\s*\)\s*\)\s*\.\s*collect\s*::\s*<\s*String\s*>\s*\(\s*\)", r"leading_digits(&\1)")
    b = sub_code(b, r"(\w+)\s*\.\s*chars\s*\(\s*\)\s*\.\s*nth\s*\(", r"char_at(&\1, ")
    b = sub_code(b, r"count\s*\.\s*len\s*\(\s*\)", "ascii_len(&count)")
    b = sub_code(b, r"(\w+)\s*\.\s*parse\s*::\s*<\s*usize\s*>\s*\(\s*\)", r"parse_usize(&\1)")
    return b


def bin_parse(u):
    '''BinTable::parse: the closures with early exits become functions, the tile description is left out'''
    h, b = u.prepare(XB, "parse", r"Xtension for BinTable$", None, True)
    h, b = kw(h, b)
    m, field, e = find_closure(b, r"filter_map\s*\(\s*\|\s*idx_field\s*\|\s*\{", "fields")
    b = b[:m.start()] + "filter_map(|idx_field| field_of(values, idx_field)" + b[e:]
    m, arr, e = find_closure(field, r"let\s+compute_ty_array_desc\s*=\s*\|\|\s*\{", "elements")
    semi = re.compile(r"\s*;").match(field, e)
    if not semi:
        raise Lost("elements")
    field = field[:m.start()] + field[semi.end():]
    field = sub_code(field, r"compute_ty_array_desc\s*\(\s*\)", "compute_ty_array_desc(&tform, num_count_digits)")
    # the value of a block with `?`
    field, arr = text_ops(field), text_ops(arr)
    arr = sub_code(arr, r"char_at\(&tform", "char_at(tform")
    out, skipped = [], []
    for st in statements(b):
        n = re.match(r"\s*let\s+\(?\s*(z_\w+|data_compressed_idx)", st)
        if n:
            skipped.append(n.group(1))
            if n.group(1) == "z_image":
                out.append("let z_image = tiles_of_(values, &tforms, &ttypes);")
        else:
            out.append(st)
    if "z_image" not in skipped:
        raise Lost("z_image")
    b = "{" + "".join(out) + "}"
    b = sub_code(b, r"let\s+\(\s*tforms\s*,\s*ttypes\s*\)\s*:\s*\(\s*Vec<_>\s*,\s*Vec<_>\s*\)\s*=", "let (tforms, ttypes): (Vec<TFormType>, Vec<Option<String>>) =")
    b = desugar_chain(b, u.notes)
    b = desugar_chain(b, u.notes)
    ms = list(find_code(b, r"k_ \+= 1;"))
    if len(ms) != 2:
        raise Lost("loops of BinTable::parse")
    b = b[:ms[1].end()] + "proof { lemma_cut_prefix(tforms@, k_ - 1); lemma_cut_prefix(tforms@, k_ as int); lemma_bits(tforms@[k_ - 1]); assert(tforms@.take(tforms@.len() as int) =~= tforms@); }" + b[ms[1].end():]
    b = b[:ms[0].end()] + "reveal_with_fuel(bin_fields, 2);" + b[ms[0].end():]
    b = sub_code(b, r"let mut out_ = 0_u64;", "let mut out_ = 0_u64; proof { assert(tforms@.take(0) =~= Seq::<TFormType>::empty()); assert(tforms@.take(tforms@.len() as int) =~= tforms@); }", 1, "row width")
    b = sub_code(b, r"Ok\(\s*BinTable\b", "proof { if row_cut(tforms@) < 0x2000_0000_0000_0000 { lemma_cut(tforms@); } } Ok(BinTable", 1, "result")
    u.notes.add("in BinTable::parse the two closures with early exits are functions of what they capture, and the statements that compute `z_image` (%s) are replaced by an opaque function of the header and the fields" % ", ".join(skipped))
    return h, b, field, arr


def boxes(t):
    t = fields(t)
    t = re.sub(r"Box\s*<\s*\[\s*(\w+)\s*\]\s*>", r"Vec<\1>", t)
    return t


def build(mdir, probe=False):
    u = Unit("sizes", mdir)
    u.probe = probe
    u.add(PRE)
    u.item(C, r"pub enum Value", what="enum Value")
    u.item(HD, r"pub enum Bitpix", derive="Clone, Copy, PartialEq, Eq, Structural")
    u.item(XA, r"pub enum TFormAsciiTable")
    u.add(PARSED)
    u.trust("serde: a header value reads as u64 or usize exactly when it is a non-negative integer, as Bitpix when it is one of the six integers; the conversion is a function of the value (exercised by the driver of C02 and C06)")
    u.item(XI, r"pub struct Image\b", edit=boxes)
    u.item(XA, r"pub struct AsciiTable\b", edit=boxes)
    u.item(XB, r"pub\(crate\) enum TFormType")
    u.item(XB, r"pub\(crate\) enum VariableArrayTy", derive="Clone, Copy")
    u.item(XB, r"pub struct BinTable\b", edit=boxes)
    consts(u)
    u.add(DIV_CEIL)
    u.trust(TRUST_DIV_CEIL)
    u.add(BIN_SPEC)
    for t in BIN_TRUST:
        u.trust(t)
    u.add(SPEC + AXES_LEMMA)
    u.add("impl Bitpix {")
    u.fn(HD, "byte_size", "    ensures r == pixel_size(*self),", r"impl Bitpix$", entry="proof { assert(8usize >> 3 == 1 && 16usize >> 3 == 2 && 32usize >> 3 == 4 && 64usize >> 3 == 8) by (bit_vector); }")
    u.add("}\nimpl ValueMap {")
    for name, key, ty in (("bitpix", "BITPIX", "Bitpix"), ("naxis", "NAXIS", "u64"), ("gcount", "GCOUNT", "u64"), ("pcount", "PCOUNT", "u64")):
        u.fn(HD, "check_for_" + name, '    ensures is(r, self.val::<%s>("%s")),' % (ty, key), r"impl ValueMap$")
    u.fn(HD, "check_for_naxisi", '    ensures is(r, self.vali::<u64>("NAXIS", i as int)),', r"impl ValueMap$", edit=kw)
    u.fn(HD, "check_for_tfields", '    ensures is(r, match self.val::<usize>("TFIELDS") { Some(n) => if n <= 999 { Some(n) } else { None }, None => None }),', r"impl ValueMap$", edit=lambda h, b: (h, sub_code(b, r"let\s+tfields\s*=", "let tfields: usize =")))
    u.add("}\nimpl Image {")
    u.fn(XI, "get_num_pixels", "    requires image_ok(*self) ensures r == pixels(self.naxisn@),", r"impl Image$", edit=num_pixels(u), invs=[PIXELS_INV], attrs="#[verifier::loop_isolation(false)]")
    u.fn(XI, "get_num_bytes_data_block", "    requires image_ok(*self) ensures r == pixel_size(self.bitpix) * pixels(self.naxisn@),", r"Xtension for Image$")
    u.fn(XI, "parse", IMAGE_PARSE, r"Xtension for Image$", edit=image_parse(u), invs=[NAXISN_INV, FOLD_INV], attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]")
    u.fn(XI, "get_naxis", "    ensures r@ == self.naxisn@,", r"impl Image$")
    u.fn(XI, "get_bitpix", "    ensures r == self.bitpix,", r"impl Image$")
    u.add("}\nimpl AsciiTable {")
    for f in ("bitpix", "naxis1", "naxis2", "tfields", "pcount", "gcount"):
        u.fn(XA, "get_" + f, "    ensures r == self.%s," % f, r"impl AsciiTable$")
    for f in ("tbcols", "tforms"):
        u.fn(XA, "get_" + f, "    ensures r@ == self.%s@," % f, r"impl AsciiTable$")
    u.fn(XA, "get_num_cols", "    ensures r == self.tfields,", r"impl AsciiTable$")
    u.fn(XA, "get_num_rows", "    ensures r == self.naxis2,", r"impl AsciiTable$")
    u.fn(XA, "get_num_bytes_data_block", "    requires ascii_ok(*self) ensures r == self.naxis1 * self.naxis2,", r"Xtension for AsciiTable$")
    u.fn(XA, "parse", ASCII_PARSE, r"Xtension for AsciiTable$", edit=ascii_parse(u), invs=[ASCII_INV], attrs="#[verifier::loop_isolation(false)]")
    u.add("}\nimpl TFormType {")
    u.fn(XB, "num_bits_field", BITS, r"impl TFormType", entry=BITS_CASES)
    u.fn(XB, "num_bytes_field", "    ensures r == width_cut(*self),", r"impl TFormType", entry="proof { lemma_bits(*self); }")
    u.add("}")
    h, b, field, arr = bin_parse(u)
    u.text_fn("compute_ty_array_desc", "fn compute_ty_array_desc(tform: &String, num_count_digits: usize) -> (r: Option<(usize, VariableArrayTy)>)", arr, ARRAY, XB + ": closure of BinTable::parse")
    u.text_fn("field_of", "fn field_of(values: &ValueMap, idx_field: usize) -> (r: Option<(TFormType, Option<String>)>)", field, FIELD, XB + ": closure of BinTable::parse")
    u.add("impl BinTable {")
    u.fn(XB, "get_num_cols", "    ensures r == self.tfields,", r"impl BinTable$")
    u.fn(XB, "get_num_rows", "    ensures r == self.naxis2,", r"impl BinTable$")
    u.fn(XB, "get_z_image", "    ensures *r == self.z_image,", r"impl BinTable$")
    u.fn(XB, "get_num_bytes_data_block", "    requires table_ok(*self) ensures r == self.naxis1 * self.naxis2 + self.pcount,", r"Xtension for BinTable$", entry="proof { assert(self.naxis1 * self.naxis2 >= 0) by (nonlinear_arith); }")
    u.text_fn("parse", h.replace("->", "-> (r:") + ")", b, BIN_PARSE, XB + ": Xtension for BinTable :: parse", invs=[FIELDS_INV, ROW_INV], attrs="#[verifier::loop_isolation(false)]")
    u.add("}")
    return u
