"""The raw views of a data unit (C09): raw_bytes, get_ref and bytes of the data units, and how the data unit is handed over."""
import re

from extract import sub_code
from unit import Unit
from table import fields

IM = "src/hdu/data/image.rs"
IT = "src/hdu/data/iter.rs"
TB = "src/hdu/data/bintable/data.rs"
AT = "src/hdu/data/asciitable.rs"
F = "src/fits.rs"
HD = "src/hdu/header/mod.rs"

BASE = r'''
global size_of usize == 8;
use std::marker::PhantomData;
pub trait Min_: Sized { spec fn num(&self) -> int; fn min_(self, o: Self) -> (r: Self) ensures r == (if self.num() <= o.num() { self } else { o }); fn max_(self, o: Self) -> (r: Self) ensures r == (if self.num() <= o.num() { o } else { self }); }
impl Min_ for usize { open spec fn num(&self) -> int { *self as int } #[verifier::external_body] fn min_(self, o: usize) -> (r: usize) { self.min(o) } #[verifier::external_body] fn max_(self, o: usize) -> (r: usize) { self.max(o) } }
impl Min_ for u64 { open spec fn num(&self) -> int { *self as int } #[verifier::external_body] fn min_(self, o: u64) -> (r: u64) { self.min(o) } #[verifier::external_body] fn max_(self, o: u64) -> (r: u64) { self.max(o) } }
#[verifier::external_body]
pub fn slice_(b: &[u8], s: usize, e: usize) -> (r: &[u8]) requires s <= e <= b@.len() ensures r@ == b@.subrange(s as int, e as int) { &b[s..e] }
/// AsRef<[u8]>
pub trait Mem: Sized { spec fn bytes(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
/// std::io::Cursor
pub struct Cursor<R> { pub inner: R, pub pos: u64 }
impl<R> Cursor<R> { #[verifier::external_body] pub fn get_ref(&self) -> (r: &R) ensures *r == self.inner { &self.inner } }
/// std::io::{Take, BufReader}
pub struct Take<R> { pub inner: R, pub limit: u64 }
pub struct BufReader<R> { pub inner: R }
impl<R> BufReader<R> { #[verifier::external_body] pub fn new(inner: R) -> (r: Self) ensures r.inner == inner { BufReader { inner } } }
pub trait ReadTake: Sized { fn take(self, limit: u64) -> (r: Take<Self>) ensures r.inner == self, r.limit == limit; }
impl<T> ReadTake for T { fn take(self, limit: u64) -> (r: Take<T>) { Take { inner: self, limit } } }

#[verifier::external_body] pub struct BinTable { p: () }
#[verifier::external_body] pub struct AsciiTable { p: () }
#[verifier::external_body] pub struct Image { p: () }
pub trait Xtension: Sized {
    spec fn size(&self) -> u64;
    fn get_num_bytes_data_block(&self) -> (r: u64) ensures r == self.size();
}
impl Xtension for Image { uninterp spec fn size(&self) -> u64; #[verifier::external_body] fn get_num_bytes_data_block(&self) -> (r: u64) { unimplemented!() } }
impl Xtension for BinTable { uninterp spec fn size(&self) -> u64; #[verifier::external_body] fn get_num_bytes_data_block(&self) -> (r: u64) { unimplemented!() } }
impl Xtension for AsciiTable { uninterp spec fn size(&self) -> u64; #[verifier::external_body] fn get_num_bytes_data_block(&self) -> (r: u64) { unimplemented!() } }
impl Image { #[verifier::external_body] pub fn get_bitpix(&self) -> Bitpix { unimplemented!() } }
pub struct Header<X> { pub xtension: X }

pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
/// The bytes of the file from the start of the data unit over its size, cut where the file is cut
pub open spec fn unit_bytes(d: Seq<u8>, start: int, size: int) -> Seq<u8> { d.subrange(least(d.len() as int, start), least(d.len() as int, start + size)) }
'''

IT_NEW = r'''
impl<R, T> It<R, T> {
    /// Unit `it`
    #[verifier::external_body]
    pub fn new(reader: R, limit: u64) -> (r: Self) ensures r.reader == reader, final_same(reader, r.reader) { unimplemented!() }
}
pub open spec fn final_same<R>(a: R, b: R) -> bool { a == b }
impl<R> Pixels<R> {
    pub open spec fn reader(&self) -> R { match self { Pixels::U8(i) => i.reader, Pixels::I16(i) => i.reader, Pixels::I32(i) => i.reader, Pixels::I64(i) => i.reader, Pixels::F32(i) => i.reader, Pixels::F64(i) => i.reader } }
}
'''
RAW_IMAGE = "    ensures r@ == unit_bytes(self.pixels.reader().inner.bytes(), self.start_pos as int, self.num_bytes_data_block as int),"
RAW_TABLE = "    ensures r@ == unit_bytes(old(self.reader).inner.bytes(), self.start_pos as int, self.ctx.size() as int),"
DATA_NEW = "    ensures r.start_pos == start_pos, r.num_bytes_data_block == ctx.size(), r.pixels.reader() == reader,"

CLIENT = r'''
/// What a caller gets from the contracts: the bytes of the current data unit, wherever the reader is
pub fn lemma_raw_image<'a, R: Mem>(fits: &'a mut Fits<Cursor<R>>, hdu: &HDU<Image>) -> (r: &'a [u8])
    ensures r@ == unit_bytes(old(fits).reader.inner.bytes(), old(fits).pos_start_cur_du as int, hdu.header.xtension.size() as int)
{ fits.get_data_image(hdu).raw_bytes() }
'''


BT = r'''
/// The data of a binary table, as a table or as an image compressed in tiles (unit `tiles`)
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BinaryTableData<R> { p: PhantomData<R> }
impl<R> BinaryTableData<R> {
    pub uninterp spec fn reader(&self) -> R;
    pub uninterp spec fn start(&self) -> u64;
    pub uninterp spec fn ctx(&self) -> BinTable;
    #[verifier::external_body]
    pub fn new(reader: R, header: &Header<BinTable>, start_pos: u64) -> (r: Self) ensures r.reader() == reader, r.start() == start_pos, r.ctx() == header.xtension { unimplemented!() }
    #[verifier::external_body]
    pub fn table_data(self) -> (r: TableData<R>) ensures r.reader == self.reader(), r.start_pos == self.start(), r.ctx == self.ctx() { unimplemented!() }
}
'''
CLIENT_TABLE = r'''
pub fn lemma_raw_table<R: Mem>(fits: &mut Fits<Cursor<R>>, hdu: &HDU<BinTable>)
{
    let ghost (bytes, start) = (fits.reader.inner.bytes(), fits.pos_start_cur_du as int);
    let t = fits.get_data_table(hdu).table_data();
    let r = t.raw_bytes();
    assert(r@ == unit_bytes(bytes, start, hdu.header.xtension.size() as int));
}
'''


def edit(h, b):
    b = sub_code(b, r"\.\s*min\s*\(", ".min_(")
    b = sub_code(b, r"\.\s*max\s*\(", ".max_(")
    b = sub_code(b, r"\b(?:std\s*::\s*cmp\s*::\s*)min\s*\(\s*([\w.()]+)\s*,\s*", r"\1.min_(")
    b = sub_code(b, r"&\s*(\w+)\s*\[\s*(\w+)\s*\.\.\s*(\w+)\s*\]", r"slice_(\1, \2, \3)")
    b = sub_code(b, r"&\s*(\w+)\s*\[\s*(\w+)\s*\.\.\s*\]", r"slice_(\1, \2, \1.len())")
    b = sub_code(b, r"&\s*(\w+)\s*\[\s*\.\.\s*(\w+)\s*\]", r"slice_(\1, 0, \2)")
    return h, b


def reduce(t):
    """The table without the state of the heap"""
    t = fields(t)
    return re.sub(r"\n[^\n]*\bstate\s*:\s*DataReaderState\s*,", "\n", t)


def build(mdir, probe=False):
    u = Unit("raw", mdir)
    u.probe = probe
    u.add(BASE)
    u.trust("the contracts of std::io::{Cursor::get_ref, Read::take, BufReader::new}, AsRef<[u8]>, slicing and {usize}::{min, saturating_add}: `take(n)` ends after n bytes")
    u.trust("contracts established elsewhere: It::new keeps its reader (unit `it`), get_num_bytes_data_block is a function of the description (unit `sizes`), BinaryTableData::new and table_data keep the reader, the start of the unit and the description (unit `tiles`)")
    u.notes.add("`x.min(y)` and `&b[s..e]` written as calls of functions with their contract; the member `state` of `TableData` (position in the heap) dropped; descriptions opaque; `Header` reduced to its description")
    u.item(HD, r"pub enum Bitpix", derive="Clone, Copy", edit=lambda t: re.sub(r"\s*=\s*-?\d+", "", t))
    u.item(IT, r"pub struct It", edit=lambda t: re.sub(r"where[^{]*", "", fields(t)).replace("std::marker::PhantomData", "PhantomData"))
    u.item(IM, r"pub struct ImageData", edit=fields)
    u.item(IM, r"pub enum Pixels")
    u.add(IT_NEW)
    for ty, pat, spec in (("It<Cursor<R>, T>", r"impl<R, T> It<Cursor<R>, T>", "self.reader.inner"), ("It<&'_ Cursor<R>, T>", r"impl<R, T> It<&'_ Cursor<R>, T>", "self.reader.inner"),
                          ("It<&'_ mut Cursor<R>, T>", r"impl<R, T> It<&'_ mut Cursor<R>, T>", "old(self.reader).inner")):
        u.add("impl<R: Mem, T> %s {" % ty)
        u.fn(IT, "bytes", "    ensures r@ == %s.bytes()," % spec, pat, edit=edit)
        u.add("}")
    u.item(TB, r"pub struct TableData", edit=reduce)
    u.add("impl<X> Header<X> {")
    u.fn(HD, "get_xtension", "    ensures *r == self.xtension,", r"impl<X> Header<X>")
    u.add("}\nimpl<R> ImageData<R> {")
    u.fn(IM, "new", DATA_NEW, r"impl<R> ImageData<R>", edit=edit)
    u.add("}\nimpl<'a, R: Mem> ImageData<&'a mut Cursor<R>> {")
    u.fn(IM, "raw_bytes", RAW_IMAGE, r"impl<'a, R> ImageData<&'a mut Cursor<R>>", edit=edit)
    u.add("}\nimpl<'b, R: Mem> TableData<&'b mut Cursor<R>> {")
    u.fn(TB, "raw_bytes", RAW_TABLE, r"impl<R> TableData<&mut Cursor<R>> where R: AsRef", edit=edit)
    u.fn(TB, "get_ref", "    ensures *r == old(self.reader).inner,", r"impl<R> TableData<&mut Cursor<R>>", edit=edit, head="pub fn get_ref(&self) -> &R")
    u.add("}\nimpl<R> TableData<R> {")
    u.fn(TB, "bytes", "    ensures r.inner.limit == self.main_data_table_byte_size, r.inner.inner == self.reader,", r"impl<R> TableData<R> where R: Read,? \{?$|impl<R> TableData<R> where R: Read,?$", edit=edit)
    u.add("}")
    u.item(F, r"pub struct HDU", edit=lambda t: re.sub(r"where[^{]*", "", fields(t)))
    u.item(F, r"pub struct Fits<", edit=fields)
    u.fn(IM, "read_data_unit", "    ensures r.start_pos == start_pos, r.num_bytes_data_block == header.xtension.size(), *r.pixels.reader() == *old(this), *final(r.pixels.reader()) == *final(this),",
         r"FitsRead<'a, Image> for R", rename="read_image", head="pub fn read_data_unit<'a, R>(this: &'a mut R, header: &Header<Image>, start_pos: u64) -> ImageData<&'a mut R>",
         edit=lambda h, b: (h, sub_code(b, r"\bself\b", "this")))
    u.fn(AT, "read_data_unit", "    ensures r.inner.limit == header.xtension.size(), *r.inner.inner == *old(this), *final(r.inner.inner) == *final(this),",
         r"FitsRead<'a, AsciiTable> for R", rename="read_ascii", head="pub fn read_data_unit<'a, R>(this: &'a mut R, header: &Header<AsciiTable>, _start_pos: u64) -> BufReader<Take<&'a mut R>>",
         edit=lambda h, b: (h, sub_code(b, r"\bself\b", "this")))
    u.add(BT)
    u.fn(TB, "read_data_unit", "    ensures r.start() == start_pos, r.ctx() == header.xtension, *r.reader() == *old(this), *final(r.reader()) == *final(this),",
         r"FitsRead<'a, BinTable> for R", rename="read_table", head="pub fn read_data_unit<'a, R>(this: &'a mut R, header: &Header<BinTable>, start_pos: u64) -> BinaryTableData<&'a mut R>",
         edit=lambda h, b: (h, sub_code(b, r"\bself\b", "this")))
    u.add("impl<R> Fits<R> {")
    for x, n, t, spec in (("Image", "image", "ImageData<&'a mut R>", "    ensures r.start_pos == old(self).pos_start_cur_du, r.num_bytes_data_block == hdu.header.xtension.size(), *r.pixels.reader() == old(self).reader,"),
                          ("AsciiTable", "ascii", "BufReader<Take<&'a mut R>>", "    ensures r.inner.limit == hdu.header.xtension.size(), *r.inner.inner == old(self).reader,"),
                          ("BinTable", "table", "BinaryTableData<&'a mut R>", "    ensures r.start() == old(self).pos_start_cur_du, r.ctx() == hdu.header.xtension, *r.reader() == old(self).reader,")):
        u.fn(F, "get_data", spec, r"impl<'a, R> Fits<R>", rename="get_data_" + n, head="pub fn get_data<'a>(&'a mut self, hdu: &HDU<%s>) -> %s" % (x, t),
             edit=lambda h, b, n=n: (h, sub_code(b, r"\bself\s*\.\s*reader\s*\.\s*read_data_unit\s*\(", "read_%s(&mut self.reader, " % n)))
    u.add("}")
    u.add(CLIENT)
    u.add(CLIENT_TABLE)
    return u
