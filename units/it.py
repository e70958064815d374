"""The iterator over the values of an image: It, ImageData and the dispatch on BITPIX (C07, C08)."""
import re

from common import ERRORS, READER, TRUST_READER
from extract import sub_code
from unit import Unit
from table import fields

IT = "src/hdu/data/iter.rs"
IM = "src/hdu/data/image.rs"
HD = "src/hdu/header/mod.rs"
XI = "src/hdu/header/extension/image.rs"

SIZES = r'''
use std::marker::PhantomData;
use vstd::layout::size_of;
// sizes of the floating point types (the integers are known to vstd)
pub broadcast axiom fn size_of_f32() ensures #[trigger] size_of::<f32>() == 4;
pub broadcast axiom fn size_of_f64() ensures #[trigger] size_of::<f64>() == 8;
pub fn size_of_<T>() -> (r: usize) ensures r == size_of::<T>() { std::mem::size_of::<T>() }
'''

TRAIT = r'''
/// `Value::read_be`: the value the bytes at the position of the reader stand for
pub trait Value: Sized {
    spec fn be(d: Seq<u8>, at: int) -> Self;
    proof fn sized() ensures 1 <= size_of::<Self>() <= 16;
    fn read_be<R: Rd>(reader: &mut R) -> (r: Result<Self, Error>)
        ensures kept(old(reader), final(reader)), must(old(reader), size_of::<Self>() as int) ==> r is Ok,
            r is Ok ==> took(old(reader), final(reader), size_of::<Self>() as int) && r->Ok_0 == Self::be(old(reader).data(), old(reader).pos());
}
'''

SPEC = r'''
impl<R: Rd, T: Value> It<R, T> {
    pub open spec fn size() -> int { size_of::<T>() as int }
    /// Where the first value is: the position of the reader accounts for the values read so far
    pub open spec fn first(&self) -> int { self.reader.pos() - self.cur_idx * Self::size() }
    /// Where a value is
    pub open spec fn at(&self, i: int) -> int { self.first() + i * Self::size() }
    pub open spec fn inv(&self) -> bool { self.cur_idx <= self.num_items && 0 <= self.first() }
    pub open spec fn value(&self, i: int) -> T { T::be(self.reader.data(), self.at(i)) }
    /// The bytes of a value are in the stream
    pub open spec fn present(&self, i: int) -> bool { self.reader.reliable() && self.reader.pos() <= i64::MAX && self.at(i) + Self::size() <= self.reader.data().len() <= i64::MAX }
}
'''

NEW = "    ensures r.reader == reader, r.cur_idx == 0, r.num_items == limit as int / size_of::<T>() as int,"
NEW_ENTRY = "proof { T::sized(); }"

NEXT = r'''    requires old(self).inv()
    ensures kept(&old(self).reader, &final(self).reader), final(self).num_items == old(self).num_items, final(self).cur_idx <= final(self).num_items,
        // no value after the last one, nothing moves
        old(self).cur_idx == old(self).num_items ==> r is None && final(self).cur_idx == old(self).cur_idx && final(self).reader == old(self).reader,
        // the next value, the place of all values is unchanged
        old(self).cur_idx < old(self).num_items && old(self).present(old(self).cur_idx as int) ==> {
            &&& r == Some(old(self).value(old(self).cur_idx as int))
            &&& final(self).cur_idx == old(self).cur_idx + 1
            &&& final(self).first() == old(self).first()
        },
        // a value that is returned is the next one
        r is Some ==> old(self).cur_idx < old(self).num_items && r == Some(old(self).value(old(self).cur_idx as int)),
'''
NEXT_ENTRY = r'''proof { T::sized();
    assert((self.cur_idx + 1) * size_of::<T>() == self.cur_idx * size_of::<T>() + size_of::<T>()) by (nonlinear_arith);
    assert(0 <= self.cur_idx * size_of::<T>()) by (nonlinear_arith);
    assert(self.at(self.cur_idx as int) == self.reader.pos());
}'''

READ = r'''    requires old(self).inv(), old(self).num_items * size_of::<T>() <= u64::MAX
    ensures kept(&old(self).reader, &final(self).reader), final(self).num_items == old(self).num_items, final(self).cur_idx <= final(self).num_items,
        // out of bounds: an error, nothing moves
        idx >= old(self).num_items ==> r is Err && final(self).cur_idx == old(self).cur_idx && final(self).reader == old(self).reader,
        // the value of this index, the iteration goes on after it
        idx < old(self).num_items && old(self).present(idx as int) ==> {
            &&& r == Ok::<T, Error>(old(self).value(idx as int))
            &&& final(self).cur_idx == idx + 1
            &&& final(self).first() == old(self).first()
        },
        r is Ok ==> idx < old(self).num_items && r->Ok_0 == old(self).value(idx as int),
'''
READ_ENTRY = r'''proof { T::sized();
    assert((idx + 1) * size_of::<T>() == idx * size_of::<T>() + size_of::<T>()) by (nonlinear_arith);
    assert(0 <= self.cur_idx * size_of::<T>()) by (nonlinear_arith);
    assert(0 <= idx * size_of::<T>()) by (nonlinear_arith);
    assert((idx - self.cur_idx) * size_of::<T>() == idx * size_of::<T>() - self.cur_idx * size_of::<T>()) by (nonlinear_arith);
    if idx < self.num_items {
        assert(idx * size_of::<T>() <= self.num_items * size_of::<T>()) by (nonlinear_arith) requires idx < self.num_items;
    }
    assert(self.cur_idx * size_of::<T>() <= self.num_items * size_of::<T>()) by (nonlinear_arith) requires self.cur_idx <= self.num_items;
}'''

CLIENT = r'''
/// What a caller gets from the contracts: all the values, in order, then nothing
pub fn lemma_collect<R: Rd, T: Value>(it: &mut It<R, T>) -> (v: Vec<T>)
    requires old(it).inv(), old(it).cur_idx == 0, forall|i: int| 0 <= i < old(it).num_items ==> old(it).present(i),
        old(it).first() + old(it).num_items * size_of::<T>() <= i64::MAX
    ensures v.len() == old(it).num_items, forall|i: int| 0 <= i < v.len() ==> v[i] == old(it).value(i),
{
    let mut v: Vec<T> = Vec::new();
    let ghost o = *it;
    loop
        invariant it.inv(), it.first() == o.first(), kept(&it.reader, &o.reader), it.num_items == o.num_items, v.len() == it.cur_idx, o.inv(), o.cur_idx == 0,
            forall|i: int| 0 <= i < v.len() ==> v[i] == o.value(i), forall|i: int| 0 <= i < o.num_items ==> o.present(i),
            o.first() + o.num_items * size_of::<T>() <= i64::MAX,
        ensures v.len() == o.num_items, forall|i: int| 0 <= i < v.len() ==> v[i] == o.value(i),
        decreases o.num_items - v.len()
    {
        proof { T::sized(); assert(it.cur_idx * size_of::<T>() <= o.num_items * size_of::<T>()) by (nonlinear_arith) requires it.cur_idx <= o.num_items;
            assert(o.reader.reliable() == it.reader.reliable()); if it.cur_idx < o.num_items { assert(o.present(it.cur_idx as int)); assert(it.present(it.cur_idx as int)); } }
        match it.next() { Some(x) => { v.push(x); }, None => { break; } }
    }
    v
}
'''

TYPES = {"u8": "d[at]", "i16": "be_i16(d, at)", "i32": "be_i32(d, at)", "i64": "be_i64(d, at)", "f32": "be_f32(d, at)", "f64": "be_f64(d, at)"}

# what BITPIX means
BITPIX = r'''
pub open spec fn pixel_size(b: Bitpix) -> int {
    match b { Bitpix::U8 => 1, Bitpix::I16 => 2, Bitpix::I32 => 4, Bitpix::I64 => 8, Bitpix::F32 => 4, Bitpix::F64 => 8 }
}
/// The reader, the number of values and the place of an iterator over pixels
pub open spec fn over<R: Rd, T: Value>(it: It<R, T>, reader: R, n: int) -> bool {
    it.reader == reader && it.cur_idx == 0 && it.num_items == n && it.first() == reader.pos()
}
'''
DATA_NEW = r'''    ensures r.start_pos == start_pos,
        // one pixel per |BITPIX| bits, of the type BITPIX gives, from the position of the reader on
        ({ let n = ctx.num_bytes as int / pixel_size(ctx.bitpix);
        match ctx.bitpix {
            Bitpix::U8 => r.pixels is U8 && over(r.pixels->U8_0, reader, n),
            Bitpix::I16 => r.pixels is I16 && over(r.pixels->I16_0, reader, n),
            Bitpix::I32 => r.pixels is I32 && over(r.pixels->I32_0, reader, n),
            Bitpix::I64 => r.pixels is I64 && over(r.pixels->I64_0, reader, n),
            Bitpix::F32 => r.pixels is F32 && over(r.pixels->F32_0, reader, n),
            Bitpix::F64 => r.pixels is F64 && over(r.pixels->F64_0, reader, n),
        }}),
        r.num_bytes_data_block == ctx.num_bytes,
'''


def endian(h, b):
    b = sub_code(b, r"\.\s*read_(i16|i32|i64|f32|f64|u32|u64)\s*::\s*<\s*BigEndian\s*>\s*\(", r".read_\1_be(")
    b = sub_code(b, r"\.\s*read_(i16|i32|i64|f32|f64|u32|u64)\s*::\s*<\s*LittleEndian\s*>\s*\(", r".read_\1_le(")
    return h, b


def sizes(h, b):
    b = sub_code(b, r"(?:std\s*::\s*)?(?:core\s*::\s*)?mem\s*::\s*size_of\s*::\s*<", "size_of_::<")
    b = sub_code(b, r"std\s*::\s*marker\s*::\s*PhantomData", "PhantomData")
    # a conversion that is checked
    b = sub_code(b, r"i64\s*::\s*try_from\s*\(", "i64_try_from(")
    return h, b


TRY = r'''
pub struct TryFromIntError {}
pub fn i64_try_from(v: i128) -> (r: Result<i64, TryFromIntError>)
    ensures match r { Ok(x) => x == v && i64::MIN <= v <= i64::MAX, Err(_) => !(i64::MIN <= v <= i64::MAX) }
{ if v < i64::MIN as i128 || v > i64::MAX as i128 { Err(TryFromIntError {}) } else { Ok(v as i64) } }
'''


def build(mdir, probe=False):
    u = Unit("it", mdir)
    u.probe = probe
    u.add(ERRORS + READER + SIZES + TRY + TRAIT)
    u.trust(TRUST_READER)
    u.trust("sizes of f32 and f64")
    u.notes.add("`read_x::<BigEndian>()` written `read_x_be()`, `std::mem::size_of::<T>()` written `size_of_::<T>()`, `i64::try_from(i128)` written as a verified function with its meaning; "
                "the bounds `R: Read + Seek` written `R: Rd`; derives dropped, private members made public")
    for t, be in TYPES.items():
        u.add("impl Value for %s {\n    open spec fn be(d: Seq<u8>, at: int) -> Self { %s }\n    proof fn sized() { broadcast use {vstd::layout::group_layout_axioms, size_of_f32, size_of_f64}; }" % (t, be))
        # the contract is that of the trait
        u.fn(IT, "read_be", "", r"impl Value for %s$" % t, edit=endian, ret=None, entry="broadcast use {vstd::layout::group_layout_axioms, size_of_f32, size_of_f64};",
             head="fn read_be<R: Rd>(reader: &mut R) -> (r: Result<Self, Error>)")
        u.add("}")
    u.item(IT, r"pub struct It", edit=lambda t: fields(t).replace("std::marker::PhantomData", "PhantomData"))
    u.add(SPEC)
    u.add("impl<R: Rd, T: Value> It<R, T> {")
    u.fn(IT, "new", NEW, r"impl<R, T> It<R, T>", edit=sizes, entry=NEW_ENTRY)
    u.fn(IT, "next", NEXT, r"Iterator for It<R, T>", edit=sizes, entry=NEXT_ENTRY, head="pub fn next(&mut self) -> Option<T>")
    u.fn(IT, "read_value", READ, r"impl<R, T> It<R, T>", edit=sizes, entry=READ_ENTRY)
    u.add("}")
    u.add(CLIENT)
    u.item(HD, r"pub enum Bitpix", derive="Clone, Copy", edit=lambda t: re.sub(r"\s*=\s*-?\d+", "", t))
    u.notes.add("the discriminants of `Bitpix` dropped (`Bitpix::byte_size` is not part of this unit); `Image` reduced to the result of its two accessors")
    u.add(BITPIX)
    u.item(IM, r"pub struct ImageData", edit=fields)
    u.item(IM, r"pub enum Pixels")
    u.add("""pub struct Image { pub bitpix: Bitpix, pub num_bytes: u64 }
impl Image {
    pub fn get_bitpix(&self) -> (r: Bitpix) ensures r == self.bitpix { self.bitpix }
    pub fn get_num_bytes_data_block(&self) -> (r: u64) ensures r == self.num_bytes { self.num_bytes }
}""")
    u.add("impl<R: Rd> ImageData<R> {")
    u.fn(IM, "new", DATA_NEW, r"impl<R> ImageData<R>", rename="new_data", entry="broadcast use {vstd::layout::group_layout_axioms, size_of_f32, size_of_f64};")
    u.fn(IM, "pixels", "    ensures r == self.pixels,", r"impl<R> ImageData<R>")
    u.add("}")
    return u
