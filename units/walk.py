"""Walking over the HDUs of a file (C05): headers, padding, where the next HDU starts, the end of the file."""
import re

from common import READER, TRUST_READER
from extract import Lost, sub_code, match_close, find_code
from unit import Unit
from table import fields

F = "src/fits.rs"
H = "src/hdu/mod.rs"
HD = "src/hdu/header/mod.rs"
C = "src/card.rs"
X = "src/hdu/header/extension/mod.rs"

ERRORS = r'''
global size_of usize == 8;
#[derive(Clone, Copy)]
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { UnexpectedEof, Other }
pub struct IoError { pub kind: ErrorKind }
impl IoError { pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind } }
pub enum Error { StaticError(&'static str), DynamicError(String), Io(ErrorKind), FailReadingNextBytes, Other }
impl std::convert::From<IoError> for Error {
    #[verifier::external_body]
    fn from(e: IoError) -> (r: Error) { Error::Io(e.kind) }
}
pub mod axioms { use super::*;
pub broadcast axiom fn io_error(e: IoError, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, IoError>(e, r) ==> r == Error::Io(e.kind);
}
broadcast use {axioms::io_error, lengths::lemma_vec_len};
'''

MORE = r'''
pub trait RdExact: Rd {
    /// On failure nothing is known of the buffer; a reliable reader only fails at the end of the stream
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), IoError>)
        ensures kept(old(self), final(self)), final(buf)@.len() == old(buf)@.len(),
            must(old(self), old(buf)@.len() as int) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), old(buf)@.len() as int)
                && final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()),
            r is Err && old(self).reliable() ==> r->Err_0.kind is UnexpectedEof;
}
'''

SPEC = r'''
// ---- what the other units and the driver are about: records and headers
pub uninterp spec fn card_of(b: Seq<u8>) -> Option<Card>;
pub uninterp spec fn lossy(b: Seq<u8>) -> String;
#[verifier::external_body]
pub fn card_try_from(b: &[u8; 80]) -> (r: Result<Card, Error>)
    ensures match r { Ok(c) => card_of(b@) == Some(c), Err(_) => card_of(b@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn utf8_lossy(b: &[u8; 80]) -> (r: String) ensures r == lossy(b@) { unimplemented!() }
#[verifier::external_body]
pub fn string_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn message() -> String { String::new() }

pub trait Xtension: Sized {
    /// The size of the data unit
    spec fn size(&self) -> u64;
    /// The description read from the records, if they are accepted
    spec fn accept(cards: Seq<Card>) -> Option<Self>;
    fn get_num_bytes_data_block(&self) -> (r: u64) ensures r == self.size();
}
#[verifier::external_body] pub struct Image { p: () }
#[verifier::external_body] pub struct BinTable { p: () }
#[verifier::external_body] pub struct AsciiTable { p: () }
impl Xtension for Image { uninterp spec fn size(&self) -> u64; uninterp spec fn accept(cards: Seq<Card>) -> Option<Self>;
    #[verifier::external_body] fn get_num_bytes_data_block(&self) -> (r: u64) { unimplemented!() } }
impl Xtension for BinTable { uninterp spec fn size(&self) -> u64; uninterp spec fn accept(cards: Seq<Card>) -> Option<Self>;
    #[verifier::external_body] fn get_num_bytes_data_block(&self) -> (r: u64) { unimplemented!() } }
impl Xtension for AsciiTable { uninterp spec fn size(&self) -> u64; uninterp spec fn accept(cards: Seq<Card>) -> Option<Self>;
    #[verifier::external_body] fn get_num_bytes_data_block(&self) -> (r: u64) { unimplemented!() } }
pub struct Header<X> { pub cards: Vec<Card>, pub xtension: X }
impl<X: Xtension> Header<X> {
    #[verifier::external_body]
    pub fn parse(cards: Vec<Card>) -> (r: Result<Self, Error>)
        ensures match r { Ok(h) => h.cards@ == cards@ && X::accept(cards@) == Some(h.xtension), Err(e) => X::accept(cards@) is None } { unimplemented!() }
}

// ---- the structure of a file
pub open spec fn rec(d: Seq<u8>, at: int) -> Seq<u8> { d.subrange(at, at + 80) }
pub open spec fn record(d: Seq<u8>, at: int) -> Card {
    match card_of(rec(d, at)) { Some(c) => c, None => Card::Undefined(lossy(rec(d, at))) }
}
/// The records from a place to the END record
pub open spec fn records(d: Seq<u8>, at: int) -> Option<Seq<Card>> decreases d.len() - at {
    if at < 0 || at + 80 > d.len() { None }
    else if record(d, at) is End { Some(seq![record(d, at)]) }
    else { match records(d, at + 80) { None => None, Some(s) => Some(seq![record(d, at)] + s) } }
}
/// Up to the next multiple of 2880 bytes
pub open spec fn blocks(n: int) -> int { (n + 2879) / 2880 * 2880 }
/// An HDU whose header starts at q
pub open spec fn unit_at<X: Xtension>(h: FitsHDU<X>, cs: Seq<Card>, q: int) -> bool {
    &&& h.header.cards@ == cs && X::accept(cs) == Some(h.header.xtension)
    &&& h.data_unit_byte_offset == q + blocks(80 * cs.len() as int)
}
pub open spec fn xtype(c: Card) -> Option<XtensionType> { match c { Card::Xtension { x, .. } => Some(x), _ => None } }
pub open spec fn extension_at(h: HDU, d: Seq<u8>, q: int) -> bool {
    match records(d, q) { None => false, Some(cs) => match h {
        HDU::Primary(_) => false,
        HDU::XImage(u) => xtype(cs[0]) == Some(XtensionType::Image) && unit_at(u, cs, q),
        HDU::XBinaryTable(u) => xtype(cs[0]) == Some(XtensionType::BinTable) && unit_at(u, cs, q),
        HDU::XASCIITable(u) => xtype(cs[0]) == Some(XtensionType::AsciiTable) && unit_at(u, cs, q),
    }}
}
pub open spec fn extension_accepted(cs: Seq<Card>) -> bool {
    match xtype(cs[0]) { None => false, Some(XtensionType::Image) => Image::accept(cs) is Some,
        Some(XtensionType::BinTable) => BinTable::accept(cs) is Some, Some(XtensionType::AsciiTable) => AsciiTable::accept(cs) is Some }
}
pub open spec fn simple(c: Card) -> bool {
    match c { Card::Value { name, value: Value::Logical { value, .. } } => value && name@ == "SIMPLE"@, _ => false }
}
pub open spec fn primary_at(h: HDU, d: Seq<u8>, q: int) -> bool {
    match records(d, q) { None => false, Some(cs) => match h { HDU::Primary(u) => simple(cs[0]) && unit_at(u, cs, q), _ => false } }
}
/// The header unit is complete
pub open spec fn complete(d: Seq<u8>, q: int) -> bool { records(d, q) is Some && q + blocks(80 * records(d, q)->Some_0.len() as int) <= d.len() }
pub open spec fn has_extension(d: Seq<u8>, q: int) -> bool { complete(d, q) && extension_accepted(records(d, q)->Some_0) }
pub open spec fn has_primary(d: Seq<u8>, q: int) -> bool {
    complete(d, q) && simple(records(d, q)->Some_0[0]) && Image::accept(records(d, q)->Some_0) is Some
}
pub open spec fn fine<R: Rd>(r: &R) -> bool { 0 <= r.pos() <= i64::MAX && r.data().len() <= i64::MAX - 2880 }

pub proof fn lemma_records(d: Seq<u8>, at: int)
    ensures match records(d, at) { None => true, Some(s) => s.len() >= 1 && at + 80 * s.len() <= d.len() && at >= 0 }
    decreases d.len() - at
{ if !(at < 0 || at + 80 > d.len() || record(d, at) is End) { lemma_records(d, at + 80); } }
pub proof fn lemma_blocks(n: int)
    requires n >= 0
    ensures blocks(n) == n + (if n % 2880 == 0 { 0 } else { 2880 - n % 2880 }), blocks(n) >= n
{}
'''

CARD = r'''    requires *old(bytes_read) <= usize::MAX - 80
    ensures kept(old(reader), final(reader)), must(old(reader), 80) ==> r is Ok,
        r is Ok ==> took(old(reader), final(reader), 80) && final(buf)@ == rec(old(reader).data(), old(reader).pos()) && *final(bytes_read) == *old(bytes_read) + 80,
        r is Err ==> *final(bytes_read) == *old(bytes_read) && (old(reader).reliable() ==> r->Err_0 == Error::Io(ErrorKind::UnexpectedEof)),
'''
CARDS = r'''    requires fine(old(reader)), *old(num_bytes_read) == 0
    ensures kept(old(reader), final(reader)),
        r is Ok ==> records(old(reader).data(), old(reader).pos()) == Some(r->Ok_0@) && *final(num_bytes_read) == 80 * r->Ok_0@.len()
            && final(reader).pos() == old(reader).pos() + 80 * r->Ok_0@.len() && r->Ok_0@.len() >= 1,
        old(reader).reliable() && records(old(reader).data(), old(reader).pos()) is Some ==> r is Ok,
        r is Err && old(reader).reliable() ==> r->Err_0 == Error::Io(ErrorKind::UnexpectedEof)
            && (*final(num_bytes_read) == 0 <==> old(reader).pos() + 80 > old(reader).data().len()),
        old(reader).pos() + 80 > old(reader).data().len() ==> r is Err && *final(num_bytes_read) == 0,
'''
CARDS_INV = r'''        invariant_except_break
            match records(r0.data(), reader.pos()) { Some(s) => records(r0.data(), r0.pos()) == Some(cards@ + s), None => records(r0.data(), r0.pos()) is None },
        invariant kept(&r0, reader), fine(&r0), 0 <= r0.pos(), reader.pos() == r0.pos() + 80 * cards@.len(), *num_bytes_read == 80 * cards@.len(),
            *num_bytes_read <= i64::MAX, r0.pos() + 80 * cards@.len() <= r0.data().len() || cards@.len() == 0,
        ensures records(r0.data(), r0.pos()) == Some(cards@), cards@.len() >= 1,
        decreases r0.data().len() + 80 - reader.pos()
'''
CARDS_ENTRY = r'''let ghost r0 = *reader; broadcast use vstd::seq_lib::group_seq_properties;
    proof { assert forall|s: Seq<Card>| Seq::<Card>::empty() + s == s by { assert(Seq::<Card>::empty() + s =~= s); }
        assert forall|a: Seq<Card>, c: Card, s: Seq<Card>| #[trigger] (a + (seq![c] + s)) == a.push(c) + s by { assert(a + (seq![c] + s) =~= a.push(c) + s); }
        assert forall|a: Seq<Card>, c: Card| #[trigger] (a + seq![c]) == a.push(c) by { assert(a + seq![c] =~= a.push(c)); } }'''
NEW = r'''    requires fine(old(reader)), 80 <= *old(num_bytes_read) <= i64::MAX - 2880, *old(num_bytes_read) == 80 * cards@.len(),
        // the records have been read
        *old(num_bytes_read) <= old(reader).pos()
    ensures kept(old(reader), final(reader)), *final(num_bytes_read) >= 80,
        r is Ok ==> unit_at(r->Ok_0, cards@, old(reader).pos() - 80 * cards@.len()) && final(reader).pos() == r->Ok_0.data_unit_byte_offset,
        old(reader).reliable() && X::accept(cards@) is Some && old(reader).pos() - 80 * cards@.len() + blocks(80 * cards@.len() as int) <= old(reader).data().len() ==> r is Ok,
'''
NEW_ENTRY = "proof { lemma_blocks(80 * cards@.len() as int); }"
XT = r'''    requires fine(old(reader)), *old(num_bytes_read) == 0
    ensures kept(old(reader), final(reader)),
        r is Ok ==> extension_at(r->Ok_0, old(reader).data(), old(reader).pos()),
        old(reader).reliable() && has_extension(old(reader).data(), old(reader).pos()) ==> r is Ok,
        // nothing more in the file
        old(reader).pos() + 80 > old(reader).data().len() ==> r is Err && *final(num_bytes_read) == 0,
        old(reader).reliable() && old(reader).pos() + 80 > old(reader).data().len() ==> r->Err_0 == Error::Io(ErrorKind::UnexpectedEof),
        old(reader).reliable() && old(reader).pos() + 80 <= old(reader).data().len() ==> *final(num_bytes_read) > 0,
'''
PR = r'''    requires fine(old(reader))
    ensures kept(old(reader), final(reader)),
        r is Ok ==> primary_at(r->Ok_0, old(reader).data(), old(reader).pos()),
        old(reader).reliable() && has_primary(old(reader).data(), old(reader).pos()) ==> r is Ok,
'''
PR_ENTRY = "proof { lemma_records(reader.data(), reader.pos()); if records(reader.data(), reader.pos()) is Some { lemma_blocks(80 * records(reader.data(), reader.pos())->Some_0.len() as int); } }"
SPECFITS = r'''
impl HDU {
    pub open spec fn offset(&self) -> u64 { match self { HDU::Primary(u) => u.data_unit_byte_offset, HDU::XImage(u) => u.data_unit_byte_offset,
        HDU::XBinaryTable(u) => u.data_unit_byte_offset, HDU::XASCIITable(u) => u.data_unit_byte_offset } }
    pub open spec fn size(&self) -> u64 { match self { HDU::Primary(u) => u.header.xtension.size(), HDU::XImage(u) => u.header.xtension.size(),
        HDU::XBinaryTable(u) => u.header.xtension.size(), HDU::XASCIITable(u) => u.header.xtension.size() } }
}
impl<R: RdExact> Fits<R> {
    /// Where the next HDU starts, from what is known of the current one, wherever the reader is
    pub open spec fn next_start(&self) -> int {
        if self.start { self.reader.pos() } else { self.pos_start_cur_du + blocks(self.num_bytes_in_cur_du as int) }
    }
    pub open spec fn small(&self) -> bool { self.pos_start_cur_du + self.num_bytes_in_cur_du <= i64::MAX - 2880 }
    pub open spec fn is_next(&self, h: HDU) -> bool {
        if self.start { primary_at(h, self.reader.data(), self.next_start()) } else { extension_at(h, self.reader.data(), self.next_start()) }
    }
    pub open spec fn has_next(&self) -> bool {
        if self.start { has_primary(self.reader.data(), self.next_start()) } else { has_extension(self.reader.data(), self.next_start()) }
    }
}
'''
CONSUME = r'''    requires fine(&old(self).reader), !old(self).start
    ensures kept(&old(self).reader, &final(self).reader), final(self).start == old(self).start, final(self).pos_start_cur_du == old(self).pos_start_cur_du,
        final(self).num_bytes_in_cur_du == old(self).num_bytes_in_cur_du, final(self).error_parsing_encountered == old(self).error_parsing_encountered,
        r is Ok ==> final(self).reader.pos() == old(self).next_start() && 0 <= final(self).reader.pos() <= i64::MAX,
        old(self).reader.reliable() && old(self).small() ==> r is Ok,
'''
CONSUME_ENTRY = "proof { lemma_blocks(self.num_bytes_in_cur_du as int); }"
NEXT = r'''    requires fine(&old(self).reader)
    ensures kept(&old(self).reader, &final(self).reader),
        // after an error the iteration is over
        old(self).error_parsing_encountered ==> r is None && final(self).error_parsing_encountered,
        r is Some && r->Some_0 is Err ==> final(self).error_parsing_encountered,
        // the HDU that is returned is the one that starts where the current one ends, and the iterator knows where its data unit is
        r is Some && r->Some_0 is Ok ==> {
            let h = r->Some_0->Ok_0;
            &&& old(self).is_next(h) && !final(self).start && !final(self).error_parsing_encountered
            &&& final(self).pos_start_cur_du == h.offset() && final(self).num_bytes_in_cur_du == h.size()
        },
        // no HDU is missed
        !old(self).error_parsing_encountered && old(self).reader.reliable() && (old(self).start || old(self).small()) && old(self).has_next() ==> r is Some && r->Some_0 is Ok,
        // the end of the file is the end of the iteration, for ever
        !old(self).error_parsing_encountered && old(self).reader.reliable() && !old(self).start && old(self).small() && old(self).next_start() + 80 > old(self).reader.data().len()
            ==> r is None && final(self).next_start() == old(self).next_start() && final(self).small() && !final(self).start,
        // a header that is not complete or not accepted is an error
        !old(self).error_parsing_encountered && old(self).reader.reliable() && old(self).next_start() + 80 <= old(self).reader.data().len() && r is None ==> false,
'''


def names(h, b):
    for s in (0, 1):
        t = (h, b)[s]
        t = sub_code(t, r"(?:crate\s*::\s*)?(?:async_)?fits\s*::\s*HDU\b", "FitsHDU")
        t = sub_code(t, r"(?:crate\s*::\s*)?hdu\s*::\s*HDU\b", "HDU")
        t = sub_code(t, r"std\s*::\s*io\s*::\s*ErrorKind", "ErrorKind")
        t = sub_code(t, r"(?<![:\w])Logical\s*\{", "Value::Logical {")
        t = sub_code(t, r"Card\s*::\s*try_from\s*\(", "card_try_from(")
        t = sub_code(t, r"String\s*::\s*from_utf8_lossy\s*\(([^()]*)\)\s*\.\s*into_owned\s*\(\s*\)", r"utf8_lossy(\1)")
        t = sub_code(t, r'(\w+)\s*==\s*("\w+")', r"string_is(\1, \2)")
        while True:
            m = next(find_code(t, r"format!\s*\("), None)
            if not m:
                break
            t = t[:m.start()] + "message()" + t[match_close(t, m.end() - 1) + 1:]
        # an inspection that only logs
        t = sub_code(t, r"\.\s*inspect_err\s*\(\s*\|\s*\w*\s*\|\s*\{\s*\}\s*\)", "")
        t = sub_code(t, r"\bif\s+Some\s*\(\s*&\s*Card\s*::\s*End\s*\)\s*==\s*([\w.]+\(\))", r"if (match \1 { Some(Card::End) => true, _ => false })")
        t = sub_code(t, r"CardBuf", "[u8; 80]")
        if s == 0:
            h = t
        else:
            b = t
    return h, b


def generics(h):
    h = re.sub(r"<'a, R>|<R>|<R: Read>", "<R: RdExact>", h)
    return h


def decl(u):
    """The types the HDUs are made of"""
    u.item(X, r"pub enum XtensionType", derive="Clone, Copy")
    u.item(C, r"pub enum Value")
    u.item(C, r"pub enum Card")
    u.item(F, r"pub struct HDU", edit=lambda t: re.sub(r"where[^{]*", "", fields(t)).replace("struct HDU", "struct FitsHDU"))
    u.item(H, r"pub enum HDU", edit=lambda t: names(t, "")[0])


def build(mdir, probe=False):
    u = Unit("walk", mdir)
    u.probe = probe
    u.add(ERRORS + READER + MORE)
    u.trust(TRUST_READER + "; read_exact of a reliable reader only fails with UnexpectedEof")
    u.trust("contracts assumed here and established elsewhere: Card::try_from is a function of the 80 bytes (units and driver of C01), Header::parse accepts or refuses "
            "a sequence of records, get_num_bytes_data_block is a function of the description (unit `sizes`, C06)")
    u.trust("`?` on std::io::Error gives Error::Io of its kind (quick_error)")
    u.notes.add("`fits::HDU` named `FitsHDU`; `Header` reduced to its records and description; the three descriptions opaque; bounds `R: FitsRead + Seek` written `R: RdExact`; "
                "`Some(&Card::End) == x` written as a match; `Card::try_from`, `from_utf8_lossy`, `format!` and the comparison of a String with a literal written as calls of functions with their contract; "
                "`inspect_err` with an empty body (logging) dropped")
    decl(u)
    u.add(SPEC)
    u.fn(HD, "consume_next_card", CARD, head=generics, edit=names)
    u.fn(H, "consume_cards", CARDS, head=generics, edit=names, invs=[CARDS_INV], entry=CARDS_ENTRY, attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]")
    u.add("impl<X: Xtension> FitsHDU<X> {")
    u.fn(F, "new", NEW, r"impl<X> HDU<X>", head=generics, edit=names, entry=NEW_ENTRY)
    u.fn(F, "get_header", "    ensures *r == self.header,", r"impl<X> HDU<X>")
    u.fn(F, "get_data_unit_byte_offset", "    ensures r == self.data_unit_byte_offset,", r"impl<X> HDU<X>")
    u.fn(F, "get_data_unit_byte_size", "    ensures r == self.header.xtension.size(),", r"impl<X> HDU<X>")
    u.add("}\nimpl<X> Header<X> {")
    u.fn(HD, "get_xtension", "    ensures *r == self.xtension,", r"impl<X> Header<X>")
    u.add("}")
    u.item(F, r"pub struct Fits<", edit=fields)
    u.add(SPECFITS)
    u.add("impl HDU {")
    u.fn(H, "new_xtension", XT, r"impl HDU$", head=generics, edit=names, entry=PR_ENTRY)
    u.fn(H, "new_primary", PR, r"impl HDU$", head=generics, edit=names, entry=PR_ENTRY)
    u.fn(H, "get_data_unit_byte_offset", "    ensures r == self.offset(),", r"impl HDU$", edit=names)
    u.fn(H, "get_data_unit_byte_size", "    ensures r == self.size(),", r"impl HDU$", edit=names)
    u.add("}\nimpl<R: RdExact> Fits<R> {")
    u.fn(F, "from_reader", "    ensures r.start && !r.error_parsing_encountered && r.reader == reader,", r"impl<R> Fits<R>")
    u.fn(F, "get_position_data_unit", "    ensures r == self.pos_start_cur_du,", r"impl<R> Fits<R>")
    u.fn(F, "consume_until_next_hdu", CONSUME, r"impl<'a, R> Fits<R>", entry=CONSUME_ENTRY)
    u.fn(F, "next", NEXT, r"Iterator for Fits<R>", head="pub fn next(&mut self) -> Option<Result<HDU, Error>>", edit=names)
    u.add("}")
    return u
