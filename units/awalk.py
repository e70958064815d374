"""The asynchronous reader (C17): the same HDUs as the synchronous one, the next HDU whatever was polled, the values of the data."""
import re

from common import READER, TRUST_READER
from extract import Lost, sub_code, find_code
from unit import Unit
from table import fields
import walk
from walk import ERRORS, MORE, SPEC, C, X, H, HD, names

A = "src/async_fits.rs"
D = "src/hdu/data/mod.rs"
S = "src/hdu/data/stream.rs"
I = "src/hdu/data/image.rs"
AT = "src/hdu/data/asciitable.rs"

ASYNC = r'''
pub enum Poll<T> { Ready(T), Pending }
/// futures::{AsyncRead, AsyncBufRead} with their extensions, once the futures are awaited
pub trait ARd: RdExact {
    /// What the last fill_buf showed and has not been consumed yet
    spec fn buffered(&self) -> int;
    fn fill_buf(&mut self) -> (r: Result<Vec<u8>, IoError>)
        ensures kept(old(self), final(self)), final(self).pos() == old(self).pos(), old(self).reliable() ==> r is Ok,
            r is Ok ==> {
                &&& final(self).buffered() == r->Ok_0@.len()
                &&& r->Ok_0@.len() == 0 <==> old(self).pos() >= old(self).data().len()
                &&& old(self).pos() < old(self).data().len() ==> old(self).pos() + r->Ok_0@.len() <= old(self).data().len()
            };
    fn consume_unpin(&mut self, amt: usize)
        requires amt <= old(self).buffered()
        ensures kept(old(self), final(self)), final(self).pos() == old(self).pos() + amt;
}
'''

CARD = r'''    requires *old(bytes_read) <= usize::MAX - 80
    ensures kept(old(reader), final(reader)), must(old(reader), 80) ==> r is Ok, *final(bytes_read) == *old(bytes_read) + 80,
        r is Ok ==> took(old(reader), final(reader), 80) && final(buf)@ == rec(old(reader).data(), old(reader).pos()),
'''
CARDS = r'''    requires fine(old(reader)), *old(num_bytes_read) == 0
    ensures kept(old(reader), final(reader)),
        r is Ok ==> records(old(reader).data(), old(reader).pos()) == Some(r->Ok_0@) && *final(num_bytes_read) == 80 * r->Ok_0@.len()
            && final(reader).pos() == old(reader).pos() + 80 * r->Ok_0@.len() && r->Ok_0@.len() >= 1,
        old(reader).reliable() && records(old(reader).data(), old(reader).pos()) is Some ==> r is Ok,
'''
NEW = r'''    requires fine(old(reader)), 80 <= *old(num_bytes_read) <= i64::MAX - 2880, *old(num_bytes_read) == 80 * cards@.len(),
        *old(num_bytes_read) <= old(reader).pos()
    ensures kept(old(reader), final(reader)),
        r is Ok ==> aunit_at(r->Ok_0, cards@) && final(reader).pos() == old(reader).pos() - 80 * cards@.len() + blocks(80 * cards@.len() as int),
        old(reader).reliable() && X::accept(cards@) is Some && old(reader).pos() - 80 * cards@.len() + blocks(80 * cards@.len() as int) <= old(reader).data().len() ==> r is Ok,
        X::accept(cards@) is None ==> r is Err,
'''
ASPEC = r'''
/// Description and records are those of the synchronous HDU (unit_at of the unit `walk`)
pub open spec fn aunit_at<X: Xtension>(h: FitsAsyncHDU<X>, cs: Seq<Card>) -> bool {
    h.header.cards@ == cs && X::accept(cs) == Some(h.header.xtension)
}
pub open spec fn aextension_at(h: AsyncHDU, d: Seq<u8>, q: int) -> bool {
    match records(d, q) { None => false, Some(cs) => match h {
        AsyncHDU::Primary(_) => false,
        AsyncHDU::XImage(u) => xtype(cs[0]) == Some(XtensionType::Image) && aunit_at(u, cs),
        AsyncHDU::XBinaryTable(u) => xtype(cs[0]) == Some(XtensionType::BinTable) && aunit_at(u, cs),
        AsyncHDU::XASCIITable(u) => xtype(cs[0]) == Some(XtensionType::AsciiTable) && aunit_at(u, cs),
    }}
}
pub open spec fn aprimary_at(h: AsyncHDU, d: Seq<u8>, q: int) -> bool {
    match records(d, q) { None => false, Some(cs) => match h { AsyncHDU::Primary(u) => simple(cs[0]) && aunit_at(u, cs), _ => false } }
}
/// Where the data unit of the HDU whose header starts at q is
pub open spec fn data_start(d: Seq<u8>, q: int) -> int { q + blocks(80 * records(d, q)->Some_0.len() as int) }
/// The HDU the synchronous reader would give (extension_at, primary_at of the unit `walk`)
pub open spec fn twin(h: AsyncHDU, s: HDU) -> bool {
    match (h, s) {
        (AsyncHDU::Primary(a), HDU::Primary(b)) => a.header.cards@ == b.header.cards@ && a.header.xtension == b.header.xtension,
        (AsyncHDU::XImage(a), HDU::XImage(b)) => a.header.cards@ == b.header.cards@ && a.header.xtension == b.header.xtension,
        (AsyncHDU::XBinaryTable(a), HDU::XBinaryTable(b)) => a.header.cards@ == b.header.cards@ && a.header.xtension == b.header.xtension,
        (AsyncHDU::XASCIITable(a), HDU::XASCIITable(b)) => a.header.cards@ == b.header.cards@ && a.header.xtension == b.header.xtension,
        _ => false,
    }
}
/// Both readers agree: an HDU at the same place is the same HDU
pub proof fn lemma_same(h: AsyncHDU, s: HDU, d: Seq<u8>, q: int)
    ensures aextension_at(h, d, q) && extension_at(s, d, q) ==> twin(h, s), aprimary_at(h, d, q) && primary_at(s, d, q) ==> twin(h, s)
{}
'''
XT = r'''    requires fine(old(reader))
    ensures kept(old(reader), final(reader)),
        r is Ok ==> aextension_at(r->Ok_0, old(reader).data(), old(reader).pos()) && final(reader).pos() == data_start(old(reader).data(), old(reader).pos()),
        old(reader).reliable() && has_extension(old(reader).data(), old(reader).pos()) ==> r is Ok,
'''
PR = r'''    requires fine(old(reader))
    ensures kept(old(reader), final(reader)),
        r is Ok ==> aprimary_at(r->Ok_0, old(reader).data(), old(reader).pos()) && final(reader).pos() == data_start(old(reader).data(), old(reader).pos()),
        old(reader).reliable() && has_primary(old(reader).data(), old(reader).pos()) ==> r is Ok,
'''
READN = r'''    requires 0 <= old(this).pos(), old(this).data().len() <= i64::MAX, num_bytes_to_read <= i64::MAX
    ensures kept(old(this), final(this)),
        r is Ok ==> final(this).pos() == old(this).pos() + num_bytes_to_read,
        must(old(this), num_bytes_to_read as int) ==> r is Ok,
'''
READN_INV = r'''        invariant kept(&r0, this), 0 <= r0.pos(), r0.data().len() <= i64::MAX, num_bytes_read <= num_bytes_to_read <= i64::MAX,
            this.pos() == r0.pos() + num_bytes_read, size_buf == this.buffered(), this.buffered() >= 0,
            is_eof <==> this.pos() >= this.data().len(), is_eof <==> size_buf == 0,
            !is_eof ==> this.pos() + size_buf <= this.data().len(),
        decreases num_bytes_to_read - num_bytes_read
'''
SPECFITS = r'''
impl AsyncHDU {
    pub open spec fn size(&self) -> u64 { match self { AsyncHDU::Primary(u) => u.header.xtension.size(), AsyncHDU::XImage(u) => u.header.xtension.size(),
        AsyncHDU::XBinaryTable(u) => u.header.xtension.size(), AsyncHDU::XASCIITable(u) => u.header.xtension.size() } }
}
impl<R: ARd> AsyncFits<R> {
    /// Where the data unit of the current HDU ends: what was polled is accounted for
    pub open spec fn data_end(&self) -> int { self.reader.pos() + self.num_remaining_bytes_in_cur_hdu }
    pub open spec fn next_start(&self) -> int {
        if self.start { self.reader.pos() } else { self.data_end() + blocks(self.num_bytes_in_cur_hdu as int) - self.num_bytes_in_cur_hdu }
    }
    pub open spec fn inv(&self) -> bool {
        fine(&self.reader) && self.num_remaining_bytes_in_cur_hdu <= self.num_bytes_in_cur_hdu <= i64::MAX - 2880 && self.data_end() <= i64::MAX - 2880
    }
    pub open spec fn is_next(&self, h: AsyncHDU) -> bool {
        if self.start { aprimary_at(h, self.reader.data(), self.next_start()) } else { aextension_at(h, self.reader.data(), self.next_start()) }
    }
    pub open spec fn has_next(&self) -> bool {
        if self.start { has_primary(self.reader.data(), self.next_start()) } else { has_extension(self.reader.data(), self.next_start()) }
    }
}
'''
CONSUME = r'''    requires old(self).inv(), !old(self).start
    ensures kept(&old(self).reader, &final(self).reader), final(self).start == old(self).start, final(self).error_parsing_encountered == old(self).error_parsing_encountered,
        final(self).num_bytes_in_cur_hdu == old(self).num_bytes_in_cur_hdu,
        // there is something at the start of the next HDU, the reader is there
        r is Ok && !r->Ok_0 ==> final(self).reader.pos() == old(self).next_start() && old(self).next_start() < old(self).reader.data().len(),
        // this is the end of the file
        old(self).reader.reliable() && r is Ok && r->Ok_0 ==> old(self).next_start() >= old(self).reader.data().len(),
        // the data of the current HDU are complete
        old(self).reader.reliable() && old(self).data_end() <= old(self).reader.data().len() ==> r is Ok,
'''
NEXT = r'''    requires old(self).inv()
    ensures kept(&old(self).reader, &final(self).reader), r is Ready,
        // after an error or the end the iteration is over
        old(self).error_parsing_encountered ==> r->Ready_0 is None && final(self).error_parsing_encountered,
        r->Ready_0 is None ==> final(self).error_parsing_encountered,
        r->Ready_0 is Some && r->Ready_0->Some_0 is Err ==> final(self).error_parsing_encountered,
        // the HDU that is returned is the one that starts where the current one ends, whatever was polled of its data, and the reader is at its data
        r->Ready_0 is Some && r->Ready_0->Some_0 is Ok ==> {
            let h = r->Ready_0->Some_0->Ok_0;
            &&& old(self).is_next(h) && !final(self).start && !final(self).error_parsing_encountered
            &&& final(self).num_bytes_in_cur_hdu == h.size() && final(self).num_remaining_bytes_in_cur_hdu == h.size()
            &&& final(self).reader.pos() == data_start(old(self).reader.data(), old(self).next_start())
        },
        // no HDU is missed
        !old(self).error_parsing_encountered && old(self).reader.reliable() && old(self).has_next() ==> r->Ready_0 is Some && r->Ready_0->Some_0 is Ok,
        // the end of a complete file is the end of the iteration
        !old(self).error_parsing_encountered && old(self).reader.reliable() && !old(self).start && old(self).data_end() <= old(self).reader.data().len() <= old(self).next_start()
            ==> r->Ready_0 is None,
        // a header that is not complete or not accepted is an error
        !old(self).error_parsing_encountered && old(self).reader.reliable() && !old(self).start && old(self).next_start() < old(self).reader.data().len() ==> r->Ready_0 is Some,
'''

# ---- the values of the data
STSPEC = r'''
pub uninterp spec fn of_bytes_i16(b: Seq<u8>) -> i16;
pub uninterp spec fn of_bytes_i32(b: Seq<u8>) -> i32;
pub uninterp spec fn of_bytes_i64(b: Seq<u8>) -> i64;
pub uninterp spec fn of_bytes_f32(b: Seq<u8>) -> f32;
pub uninterp spec fn of_bytes_f64(b: Seq<u8>) -> f64;
'''
STFN = r'''
#[verifier::external_body]
pub fn be_read_%(t)s(b: &[u8]) -> (r: %(t)s) requires b@.len() >= %(n)d ensures r == of_bytes_%(t)s(b@.subrange(0, %(n)d)), b@.len() == %(n)d ==> r == of_bytes_%(t)s(b@) { unimplemented!() }
'''
ST = r'''    requires *old(self).num_remaining_bytes_in_cur_hdu as int %% %(n)d == 0
    ensures r is Ready,
        // nothing after the last value, nothing moves
        *old(self).num_remaining_bytes_in_cur_hdu == 0 ==> r->Ready_0 is None && *final(self).reader == *old(self).reader && *final(self).num_remaining_bytes_in_cur_hdu == 0,
        // the next value; the end of the data does not move
        *old(self).num_remaining_bytes_in_cur_hdu > 0 && must(&*old(self).reader, %(n)d) ==> r->Ready_0 is Some && r->Ready_0->Some_0 is Ok,
        *old(self).num_remaining_bytes_in_cur_hdu > 0 ==> r->Ready_0 is Some,
        r->Ready_0 is Some && r->Ready_0->Some_0 is Ok ==> {
            &&& r->Ready_0->Some_0->Ok_0@[0] == %(v)s
            &&& took(&*old(self).reader, &*final(self).reader, %(n)d)
            &&& *final(self).num_remaining_bytes_in_cur_hdu == *old(self).num_remaining_bytes_in_cur_hdu - %(n)d
        },
        kept(&*old(self).reader, &*final(self).reader),
        // the stream still borrows from the same file
        *final(final(self).reader) == *final(old(self).reader), *final(final(self).num_remaining_bytes_in_cur_hdu) == *final(old(self).num_remaining_bytes_in_cur_hdu),
'''
# a stream over the data that borrows the reader and the count of bytes of the file
ON = "*{0}.reader == *old({1}reader) && *final({0}.reader) == *final({1}reader) && *{0}.num_remaining_bytes_in_cur_hdu == *old({1}num_remaining_bytes_in_cur_hdu) && *final({0}.num_remaining_bytes_in_cur_hdu) == *final({1}num_remaining_bytes_in_cur_hdu)"
BITPIX = ["U8", "I16", "I32", "I64", "F32", "F64"]
SELF = "*{0}.reader == old(self).reader && *final({0}.reader) == final(self).reader && *{0}.num_remaining_bytes_in_cur_hdu == old(self).num_remaining_bytes_in_cur_hdu && *final({0}.num_remaining_bytes_in_cur_hdu) == final(self).num_remaining_bytes_in_cur_hdu && rest(old(self), final(self))"


def on_image(spec, bitpix):
    return "    ensures match %s { %s }," % (bitpix, ", ".join("Bitpix::%s => r is %s && %s" % (b, b, spec.replace("{0}", "r->%s_0" % b)) for b in BITPIX))


REST = r'''
impl Image {
    pub uninterp spec fn bitpix(&self) -> Bitpix;
    #[verifier::external_body]
    pub fn get_bitpix(&self) -> (r: Bitpix) ensures r == self.bitpix() { unimplemented!() }
}
pub open spec fn rest<R: ARd>(a: &AsyncFits<R>, b: &AsyncFits<R>) -> bool {
    a.start == b.start && a.num_bytes_in_cur_hdu == b.num_bytes_in_cur_hdu && a.error_parsing_encountered == b.error_parsing_encountered
}
'''
CLIENT = r'''
/// What a caller gets from the contracts: polling values moves neither the end of the data nor the start of the next HDU
pub fn lemma_poll<R: ARd>(fits: &mut AsyncFits<R>, hdu: &FitsAsyncHDU<Image>)
    requires old(fits).inv(), !old(fits).start, hdu.header.xtension.bitpix() is I16, old(fits).num_remaining_bytes_in_cur_hdu % 2 == 0,
        must(&old(fits).reader, old(fits).num_remaining_bytes_in_cur_hdu as int)
    ensures final(fits).next_start() == old(fits).next_start(), kept(&old(fits).reader, &final(fits).reader), final(fits).inv(),
        final(fits).num_remaining_bytes_in_cur_hdu % 2 == 0, rest(old(fits), final(fits)),
{
    let st = fits.get_data_image(hdu);
    match st { DataStream::I16(s) => { let mut s = s; let _v = s.poll_next_i16(); }, _ => {} }
}
'''
B = "src/hdu/data/bintable/data.rs"
TYPES = {"u8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8}


def sync(h, b):
    """Drop the asynchrony: a future is its value once it has been awaited, a poll is ready"""
    h = re.sub(r"\basync\s+", "", h)
    b = sub_code(b, r"\.\s*await\b", "")
    b = sub_code(b, r"(?:std\s*::\s*)?(?:pin\s*::\s*)?pin!\s*\(\s*(\w+)\s*\)\s*\.\s*poll\s*\(\s*cx\s*\)", r"Poll::Ready(\1)")
    b = sub_code(b, r"Pin\s*::\s*new\s*\(\s*&\s*mut\s+(\w+)\s*\)\s*\.\s*poll\s*\(\s*cx\s*\)", r"Poll::Ready(\1)")
    b = sub_code(b, r"\bcrate\s*::\s*async_fits\b", "async_fits")
    out = []
    for t in (h, b):
        t = sub_code(t, r"\basync_fits\s*::\s*AsyncHDU\b", "FitsAsyncHDU")
        t = sub_code(t, r"\bhdu\s*::\s*AsyncHDU\b", "AsyncHDU")
        t = sub_code(t, r"<\s*R\s+as\s+AsyncDataBufRead\s*<[^<>]*>\s*>\s*::\s*read_n_bytes_exact\b", "read_n_bytes_exact")
        t = sub_code(t, r"byteorder\s*::\s*BigEndian\s*::\s*read_", "be_read_")
        t = sub_code(t, r"(?:std\s*::\s*)?mem\s*::\s*size_of\s*::\s*<\s*(\w+)\s*>\s*\(\s*\)", lambda m: str(TYPES.get(m.group(1), m.group(0))))
        out.append(t)
    h, b = names(*out)
    # an error of a given kind
    b = sub_code(b, r"Err\s*\(\s*ref\s+e\s*\)\s*if", "Err(e) if")
    return h, b


def this(h, b):
    h, b = sync(h, b)
    return h, sub_code(b, r"\bself\b", "this")


def generics(h):
    h = re.sub(r"\bpub\(crate\)\s*", "pub ", h)
    h = re.sub(r"\basync\s+", "", h)
    h = re.sub(r"<'a, R>|<R>|<R: AsyncRead \+ std::marker::Unpin>", "<R: ARd>", h)
    return re.sub(r"\bwhere\b[^{]*$", "", h)


def build(mdir, probe=False):
    u = Unit("awalk", mdir)
    u.probe = probe
    u.add(ERRORS + READER + MORE + ASYNC)
    u.trust(TRUST_READER + "; read_exact of a reliable reader only fails with UnexpectedEof")
    u.trust("the contract of futures::{AsyncReadExt::read_exact, AsyncBufReadExt::{fill_buf, consume_unpin}} written on the trait ARd, as of the synchronous reader")
    u.trust("every poll of the reader is ready: a reader that is not ready is the recorded finding async-pending")
    u.trust("contracts assumed here and established elsewhere: Card::try_from is a function of the 80 bytes, Header::parse accepts or refuses a sequence of records and is the same "
            "for both readers, get_num_bytes_data_block is a function of the description (unit `sizes`)")
    u.trust("byteorder::BigEndian::read_x gives the value the bytes stand for (uninterpreted)")
    u.notes.add("`async` and `.await` dropped: a future is the value it gives when it is awaited; `pin!(f).poll(cx)` and `Pin::new(&mut f).poll(cx)` written `Poll::Ready(f)`; "
                "`fill_buf` gives a copy of the bytes, not a borrow; the receiver `mut self: Pin<&mut Self>` written `&mut self`; `read_n_bytes_exact` of the trait written as a function; "
                "`async_fits::AsyncHDU` named `FitsAsyncHDU`; the rest as in the unit `walk`")
    walk.decl(u)
    u.item(A, r"pub struct AsyncHDU", edit=lambda t: re.sub(r"where[^{]*", "", fields(t)).replace("struct AsyncHDU", "struct FitsAsyncHDU"))
    u.item(H, r"pub enum AsyncHDU", edit=lambda t: sync("", t)[1])
    u.add(SPEC + ASPEC)
    u.fn(HD, "consume_next_card_async", CARD, head=generics, edit=sync)
    u.fn(H, "consume_cards_async", CARDS, head=generics, edit=sync, invs=[walk.CARDS_INV], entry=walk.CARDS_ENTRY, attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]")
    u.add("impl<X> Header<X> {")
    u.fn(HD, "get_xtension", "    ensures *r == self.xtension,", r"impl<X> Header<X>")
    u.add("}\nimpl<X: Xtension> FitsAsyncHDU<X> {")
    u.fn(A, "new", NEW, r"impl<X> AsyncHDU<X>", head=generics, edit=sync, entry=walk.NEW_ENTRY)
    u.fn(A, "get_header", "    ensures *r == self.header,", r"impl<X> AsyncHDU<X>")
    u.add("}\nimpl AsyncHDU {")
    u.fn(H, "new_xtension", XT, r"impl AsyncHDU$", head=generics, edit=sync, entry=walk.PR_ENTRY)
    u.fn(H, "new_primary", PR, r"impl AsyncHDU$", head=generics, edit=sync, entry=walk.PR_ENTRY)
    u.add("}")
    u.fn(D, "read_n_bytes_exact", READN, r"^trait AsyncDataBufRead", edit=this, invs=[READN_INV], entry="let ghost r0 = *this;", attrs="#[verifier::loop_isolation(false)]",
         head="pub fn read_n_bytes_exact<R: ARd>(this: &mut R, num_bytes_to_read: u64) -> Result<(), Error>")
    u.item(A, r"pub struct AsyncFits<", edit=fields)
    u.add(SPECFITS)
    u.add("impl<R: ARd> AsyncFits<R> {")
    u.fn(A, "from_reader", "    ensures r.start && !r.error_parsing_encountered && r.reader == reader && r.num_remaining_bytes_in_cur_hdu == 0 && r.num_bytes_in_cur_hdu == 0,", r"impl<R> AsyncFits<R>")
    u.fn(A, "consume_until_next_hdu", CONSUME, r"impl<'a, R> AsyncFits<R>", edit=sync, head=generics, entry="proof { lemma_blocks(self.num_bytes_in_cur_hdu as int); }")
    u.fn(A, "poll_next", NEXT, r"Stream for AsyncFits<R>", head="pub fn poll_next(&mut self) -> Poll<Option<Result<AsyncHDU, Error>>>", edit=sync)
    u.add("}")
    streams(u)
    return u


def streams(u):
    u.add("use std::marker::PhantomData;")
    u.add(STSPEC)
    u.item(S, r"pub struct St<", edit=lambda t: re.sub(r"where[^{]*", "", fields(t)).replace("std::marker::PhantomData", "PhantomData"))
    for t, n in TYPES.items():
        if t != "u8":
            u.add(STFN % {"t": t, "n": n})
        v = "old(self).reader.data()[old(self).reader.pos()]" if t == "u8" else "of_bytes_%s(old(self).reader.data().subrange(old(self).reader.pos(), old(self).reader.pos() + %d))" % (t, n)
        u.add("impl<'a, R: ARd> St<'a, R, %s> {" % t)
        u.fn(S, "poll_next", ST % {"n": n, "v": v}, r"Stream for St<'_, R, %s>" % t, rename="poll_next_" + t,
             head="pub fn poll_next(&mut self) -> Poll<Option<Result<[%s; 1], IoError>>>" % t, edit=sync)
        u.add("}")
    u.add("impl<'a, R: ARd, T> St<'a, R, T> {")
    u.fn(S, "new", "    ensures " + ON.replace("{0}", "r").replace("{1}", "") + ",", r"impl<'a, R, T> St<'a, R, T>", edit=lambda h, b: (h, b.replace("std::marker::PhantomData", "PhantomData")))
    u.add("}")
    u.item(S, r"pub enum DataStream", edit=lambda t: re.sub(r"where[^{]*", "", t))
    u.item(HD, r"pub enum Bitpix", derive="Clone, Copy", edit=lambda t: re.sub(r"\s*=\s*-?\d+", "", t))
    u.add(REST)
    head = "pub fn prepare_data_reading<'a, R: ARd>(ctx: &%s, num_remaining_bytes_in_cur_hdu: &'a mut usize, reader: &'a mut R) -> %s"
    st = lambda h, b: (h, sub_code(b, r"\bstream\s*::\s*St\b", "St"))
    u.fn(I, "prepare_data_reading", on_image(ON.replace("{1}", ""), "ctx.bitpix()"), r"AsyncDataBufRead<'a, Image> for", rename="prepare_image", edit=st, head=head % ("Image", "DataStream<'a, R>"))
    for rel, x, n in ((AT, "AsciiTable", "ascii"), (B, "BinTable", "bin")):
        u.fn(rel, "prepare_data_reading", "    ensures " + ON.replace("{0}", "r").replace("{1}", "") + ",", r"AsyncDataBufRead<'a, %s> for" % x, rename="prepare_" + n, edit=st,
             head=(head % (x, "St<'a, R, u8>")).replace("ctx", "_ctx"))
    u.add("impl<R: ARd> AsyncFits<R> {")
    for x, n, t, spec in (("Image", "image", "DataStream<'a, R>", on_image(SELF, "hdu.header.xtension.bitpix()")), ("AsciiTable", "ascii", "St<'a, R, u8>", "    ensures " + SELF.replace("{0}", "r") + ","),
                          ("BinTable", "bin", "St<'a, R, u8>", "    ensures " + SELF.replace("{0}", "r") + ",")):
        u.fn(A, "get_data", spec, r"impl<'a, R> AsyncFits<R>", rename="get_data_" + n, head="pub fn get_data<'a>(&'a mut self, hdu: &FitsAsyncHDU<%s>) -> %s" % (x, t),
             edit=lambda h, b, n=n: (h, sub_code(b, r"<\s*R\s+as\s+AsyncDataBufRead\s*<[^<>]*>\s*>\s*::\s*prepare_data_reading\b", "prepare_" + n)))
    u.add("}")
    u.add(CLIENT)
