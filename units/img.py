"""The decoder of the image crate (C20): which image it takes, its dimensions and color type, where each pixel goes and how it is converted."""
import re

from extract import Lost, sub_code, find_code, match_close
from unit import Unit
from table import fields

I = "src/image_integration.rs"
HD = "src/hdu/header/mod.rs"

BASE = r'''
global size_of usize == 8;
pub enum Error { Any }
pub enum ImageError { Any }
pub type ImageResult<T> = Result<T, ImageError>;
#[verifier::external_body]
pub fn to_image_error(m: &str) -> ImageError { unimplemented!() }
pub trait MapTe<T>: Sized { spec fn inner(self) -> Option<T>; fn map_err_te(self) -> (r: Result<T, ImageError>) ensures match r { Ok(v) => self.inner() == Some(v), Err(_) => self.inner() is None }; }
impl<T> MapTe<T> for Result<T, Error> { open spec fn inner(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn map_err_te(self) -> (r: Result<T, ImageError>) { match self { Ok(v) => Ok(v), Err(_) => Err(ImageError::Any) } } }
pub fn transpose_<T, E>(x: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match x { None => Ok::<Option<T>, E>(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) })
{ match x { None => Ok(None), Some(Ok(v)) => Ok(Some(v)), Some(Err(e)) => Err(e) } }
pub trait OrElse<T> { fn unwrap_or_(self, d: T) -> T; }
impl<T> OrElse<T> for Result<T, Error> { fn unwrap_or_(self, d: T) -> (r: T) ensures r == (match self { Ok(v) => v, Err(_) => d }) { match self { Ok(v) => v, Err(_) => d } } }
pub fn u32_try_from(v: u64) -> (r: Result<u32, Error>) ensures match r { Ok(x) => x == v, Err(_) => v > u32::MAX } { if v <= u32::MAX as u64 { Ok(v as u32) } else { Err(Error::Any) } }
pub fn u16_try_from(v: i16) -> (r: Result<u16, Error>) ensures match r { Ok(x) => x == v && v >= 0, Err(_) => v < 0 } { if v >= 0 { Ok(v as u16) } else { Err(Error::Any) } }
#[verifier::external_body]
pub fn slice_from<'a>(s: &'a [u64], i: usize) -> (r: &'a [u64]) requires i <= s@.len() ensures r@ == s@.skip(i as int) { &s[i..] }
/// A short slice, for the patterns on slices
pub enum Short { A0, A1(u64), A2(u64, u64), More(u64, u64) }
pub fn short(s: &[u64]) -> (r: Short) ensures r == (if s@.len() == 0 { Short::A0 } else if s@.len() == 1 { Short::A1(s@[0]) } else if s@.len() == 2 { Short::A2(s@[0], s@[1]) } else { Short::More(s@[0], s@[1]) })
{ if s.len() == 0 { Short::A0 } else if s.len() == 1 { Short::A1(s[0]) } else if s.len() == 2 { Short::A2(s[0], s[1]) } else { Short::More(s[0], s[1]) } }

// ---- iterators: the values that are left
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vals<T> { p: Option<T> }
impl<T> Vals<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: Vals<B>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],))
        ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < self.rest().len() ==> f.ensures((self.rest()[i],), #[trigger] r.rest()[i]) { unimplemented!() }
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn lemma_skip<T>(s: Seq<T>)
    ensures s.skip(0) == s, s.skip(s.len() as int).len() == 0,
        forall|j: int| 0 <= j < s.len() ==> #[trigger] s.skip(j).len() > 0 && s.skip(j)[0] == s[j] && s.skip(j).skip(1) == s.skip(j + 1)
{
    assert(s.skip(0) =~= s);
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s.skip(j).len() > 0 && s.skip(j)[0] == s[j] && s.skip(j).skip(1) == s.skip(j + 1) by { assert(s.skip(j).skip(1) =~= s.skip(j + 1)); }
}

// ---- slices in cells of N values: slice::as_chunks_mut
pub uninterp spec fn cells<T, const N: usize>(s: Seq<T>) -> Seq<[T; N]>;
#[verifier::external_body]
pub fn as_cells<'a, T, const N: usize>(b: &'a mut [T]) -> (r: &'a mut [[T; N]])
    ensures r@ == cells::<T, N>(old(b)@), cells::<T, N>(final(b)@) == final(r)@, final(r)@.len() == r@.len() { unimplemented!() }
#[verifier::external_body]
pub fn repeat_<T: Copy, const N: usize>(v: T) -> (r: [T; N]) ensures forall|i: int| 0 <= i < N ==> r@[i] == v { [v; N] }
/// The pixels of a color image: three values of P bytes each
pub open spec fn rgb<const P: usize>(b: Seq<u8>) -> Seq<[[u8; P]; 3]> { cells::<[u8; P], 3>(cells::<u8, P>(b)) }
pub open spec fn luma<const P: usize>(b: Seq<u8>) -> Seq<[u8; P]> { cells::<u8, P>(b) }
/// Three planes, one after the other, interleaved
pub open spec fn planes<const P: usize>(b: Seq<u8>, old_: Seq<u8>, v: Seq<[u8; P]>) -> bool {
    let n = rgb::<P>(old_).len() as int;
    &&& rgb::<P>(b).len() == n
    &&& forall|k: int, c: int| 0 <= k < n && 0 <= c < 3 ==> #[trigger] rgb::<P>(b)[k][c] == (if c * n + k < v.len() { v[c * n + k] } else { rgb::<P>(old_)[k][c] })
}
/// One plane
pub open spec fn plane<const P: usize>(b: Seq<u8>, old_: Seq<u8>, v: Seq<[u8; P]>) -> bool {
    let n = luma::<P>(old_).len() as int;
    &&& luma::<P>(b).len() == n
    &&& forall|k: int| 0 <= k < n ==> #[trigger] luma::<P>(b)[k] == (if k < v.len() { v[k] } else { luma::<P>(old_)[k] })
}
/// One plane, the same in the three channels
pub open spec fn grey<const P: usize>(b: Seq<u8>, old_: Seq<u8>, v: Seq<[u8; P]>) -> bool {
    let n = rgb::<P>(old_).len() as int;
    &&& rgb::<P>(b).len() == n
    &&& forall|k: int, c: int| 0 <= k < n && 0 <= c < 3 ==> #[trigger] rgb::<P>(b)[k][c] == (if k < v.len() { v[k] } else { rgb::<P>(old_)[k][c] })
}

// ---- numbers: the operations on floats are those of the machine
pub uninterp spec fn f64_of_u8(v: u8) -> f64;
pub uninterp spec fn f64_of_i16(v: i16) -> f64;
pub uninterp spec fn f64_of_i32(v: i32) -> f64;
pub uninterp spec fn f64_of_i64(v: i64) -> f64;
pub uninterp spec fn s_round(v: f64) -> f64;
pub uninterp spec fn s_u8(v: f64) -> u8;
pub uninterp spec fn s_u16(v: f64) -> u16;
pub uninterp spec fn s_f32(v: f64) -> f32;
pub uninterp spec fn s_div(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fma(a: f64, b: f64, c: f64) -> f64;
pub uninterp spec fn s_eq(a: f64, b: f64) -> bool;
pub uninterp spec fn le_u16(v: u16) -> [u8; 2];
pub uninterp spec fn le_f32(v: f32) -> [u8; 4];
pub trait ToF64: Sized { spec fn to(self) -> f64; fn f64_(self) -> (r: f64) ensures r == self.to(); }
impl ToF64 for u8 { open spec fn to(self) -> f64 { f64_of_u8(self) } #[verifier::external_body] fn f64_(self) -> (r: f64) { self as f64 } }
impl ToF64 for i16 { open spec fn to(self) -> f64 { f64_of_i16(self) } #[verifier::external_body] fn f64_(self) -> (r: f64) { self as f64 } }
impl ToF64 for i32 { open spec fn to(self) -> f64 { f64_of_i32(self) } #[verifier::external_body] fn f64_(self) -> (r: f64) { self as f64 } }
impl ToF64 for i64 { open spec fn to(self) -> f64 { f64_of_i64(self) } #[verifier::external_body] fn f64_(self) -> (r: f64) { self as f64 } }
pub fn f64_from<T: ToF64>(v: T) -> (r: f64) ensures r == v.to() { v.f64_() }
pub trait OfF64 { fn u8_(self) -> u8; fn u16_(self) -> u16; fn f32_(self) -> f32; fn round_(self) -> f64; fn mul_add_(self, a: f64, b: f64) -> f64; }
impl OfF64 for f64 {
    #[verifier::external_body] fn u8_(self) -> (r: u8) ensures r == s_u8(self) { self as u8 }
    #[verifier::external_body] fn u16_(self) -> (r: u16) ensures r == s_u16(self) { self as u16 }
    #[verifier::external_body] fn f32_(self) -> (r: f32) ensures r == s_f32(self) { self as f32 }
    #[verifier::external_body] fn round_(self) -> (r: f64) ensures r == s_round(self) { self.round() }
    #[verifier::external_body] fn mul_add_(self, a: f64, b: f64) -> (r: f64) ensures r == s_fma(self, a, b) { self.mul_add(a, b) }
}
#[verifier::external_body] pub fn div_(a: f64, b: f64) -> (r: f64) ensures r == s_div(a, b) { a / b }
pub trait Le2 { fn to_le_bytes_(self) -> [u8; 2]; }
impl Le2 for u16 { #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 2]) ensures r == le_u16(self) { self.to_le_bytes() } }
pub trait Le4 { fn to_le_bytes_(self) -> [u8; 4]; }
impl Le4 for f32 { #[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 4]) ensures r == le_f32(self) { self.to_le_bytes() } }
'''

# the file as the decoder sees it
FILE = r'''
#[verifier::external_body] pub struct GenericReader { p: () }
pub struct FitsReader(pub GenericReader);
pub struct FitsImage { pub naxisn: Vec<u64>, pub bitpix: Bitpix }
impl FitsImage {
    #[verifier::external_body] pub fn get_naxis(&self) -> (r: &[u64]) ensures r@ == self.naxisn@ { &self.naxisn }
    #[verifier::external_body] pub fn get_bitpix(&self) -> (r: Bitpix) ensures r == self.bitpix { self.bitpix }
}
pub struct TileCompressedImage { pub z_naxisn: Vec<u64>, pub z_bitpix: Bitpix }
pub struct BinTable { pub z_image: Option<TileCompressedImage> }
impl BinTable { #[verifier::external_body] pub fn get_z_image(&self) -> (r: &Option<TileCompressedImage>) ensures *r == self.z_image { &self.z_image } }
#[verifier::external_body] pub struct AsciiTable { p: () }
pub struct Header<X> { pub xtension: X }
impl<X> Header<X> { #[verifier::external_body] pub fn get_xtension(&self) -> (r: &X) ensures *r == self.xtension { &self.xtension } }
pub struct FitsHDU<X> { pub header: Header<X>, pub size: u64 }
impl<X> FitsHDU<X> {
    #[verifier::external_body] pub fn get_header(&self) -> (r: &Header<X>) ensures *r == self.header { &self.header }
    #[verifier::external_body] pub fn get_data_unit_byte_size(&self) -> (r: u64) ensures r == self.size { self.size }
}
pub enum HDU { Primary(FitsHDU<FitsImage>), XImage(FitsHDU<FitsImage>), XBinaryTable(FitsHDU<BinTable>), XASCIITable(FitsHDU<AsciiTable>) }
/// The BSCALE and BZERO of a header (1 and 0 where they are absent), if they are numbers
pub uninterp spec fn scaling<X>(h: FitsHDU<X>) -> Option<Scale>;
#[verifier::external_body]
pub fn scale_of<X>(h: &FitsHDU<X>) -> (r: Result<Scale, Error>) ensures match r { Ok(s) => scaling(*h) == Some(s), Err(_) => scaling(*h) is None } { unimplemented!() }
/// The pixels of an image (units `it` and `tiles`)
pub uninterp spec fn pixels_of<X, T>(h: FitsHDU<X>) -> Seq<T>;
pub enum Pixels { U8(Vals<u8>), I16(Vals<i16>), I32(Vals<i32>), I64(Vals<i64>), F32(Vals<f32>), F64(Vals<f64>) }
pub enum TcPixels { U8(Vals<u8>), I16(Vals<i16>), I32(Vals<i32>), F32(Vals<f32>), F64(Vals<f32>) }
#[verifier::external_body] pub struct TableData { p: () }
pub enum BinaryTableData { Table(TableData), TileCompressed(TcPixels) }
#[verifier::external_body] pub struct ImageData { p: () }
impl ImageData {
    pub uninterp spec fn hdu(&self) -> FitsHDU<FitsImage>;
    #[verifier::external_body]
    pub fn pixels(self) -> (r: Pixels) ensures ({ let h = self.hdu(); match h.header.xtension.bitpix {
        Bitpix::U8 => r is U8 && r->U8_0.rest() == pixels_of::<FitsImage, u8>(h), Bitpix::I16 => r is I16 && r->I16_0.rest() == pixels_of::<FitsImage, i16>(h),
        Bitpix::I32 => r is I32 && r->I32_0.rest() == pixels_of::<FitsImage, i32>(h), Bitpix::I64 => r is I64 && r->I64_0.rest() == pixels_of::<FitsImage, i64>(h),
        Bitpix::F32 => r is F32 && r->F32_0.rest() == pixels_of::<FitsImage, f32>(h), Bitpix::F64 => r is F64 && r->F64_0.rest() == pixels_of::<FitsImage, f64>(h) }}) { unimplemented!() }
}
/// The HDUs of the file, as the iterator gives them (unit `walk`)
#[verifier::external_body] pub struct Fits { p: () }
impl Fits {
    pub uninterp spec fn list(&self) -> Seq<Result<HDU, Error>>;
    pub uninterp spec fn idx(&self) -> int;
    /// The last HDU that was given
    pub open spec fn current(&self) -> Option<HDU> { if 0 < self.idx() <= self.list().len() && self.list()[self.idx() - 1] is Ok { Some(self.list()[self.idx() - 1]->Ok_0) } else { None } }
    #[verifier::external_body]
    pub fn from_reader(r: FitsReader) -> (f: Fits) ensures f.idx() == 0, f.list() == hdus(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<HDU, Error>>)
        ensures final(self).list() == old(self).list(), 0 <= old(self).idx() < old(self).list().len() ==> r == Some(old(self).list()[old(self).idx()]) && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self).list().len() ==> r is None && final(self).idx() == old(self).idx() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_data_image(&mut self, h: &FitsHDU<FitsImage>) -> (r: ImageData) requires old(self).current() == Some(HDU::Primary(*h)) || old(self).current() == Some(HDU::XImage(*h)) ensures r.hdu() == *h { unimplemented!() }
    #[verifier::external_body]
    pub fn get_data_tiles(&mut self, h: &FitsHDU<BinTable>) -> (r: BinaryTableData) requires old(self).current() == Some(HDU::XBinaryTable(*h))
        ensures match h.header.xtension.z_image { None => r is Table, Some(z) => r is TileCompressed && ({ let t = r->TileCompressed_0; match z.z_bitpix {
            Bitpix::U8 => t is U8 && t->U8_0.rest() == pixels_of::<BinTable, u8>(*h), Bitpix::I16 => t is I16 && t->I16_0.rest() == pixels_of::<BinTable, i16>(*h),
            Bitpix::I32 => t is I32 && t->I32_0.rest() == pixels_of::<BinTable, i32>(*h),
            Bitpix::F32 => t is F32 && t->F32_0.rest() == pixels_of::<BinTable, f32>(*h), Bitpix::F64 => t is F64 && t->F64_0.rest() == pixels_of::<BinTable, f32>(*h), Bitpix::I64 => true }}) } { unimplemented!() }
}
pub uninterp spec fn hdus(r: FitsReader) -> Seq<Result<HDU, Error>>;
'''

SPEC = r'''
// ---- which image
pub open spec fn usable(h: HDU) -> Option<HduImageKind> {
    match h {
        HDU::Primary(u) => if u.size != 0 { Some(HduImageKind::Image(u)) } else { None },
        HDU::XImage(u) => if u.size != 0 { Some(HduImageKind::Image(u)) } else { None },
        HDU::XBinaryTable(u) => if u.header.xtension.z_image is Some { Some(HduImageKind::TileCompressed(u)) } else { None },
        _ => None,
    }
}
/// Where the first image is, from the HDU i on; None: there is none before the end or an HDU that cannot be read
pub open spec fn first(l: Seq<Result<HDU, Error>>, i: int) -> Option<int> decreases l.len() - i {
    if i < 0 || i >= l.len() { None } else { match l[i] { Err(_) => None, Ok(h) => if usable(h) is Some { Some(i) } else { first(l, i + 1) } } }
}
pub open spec fn axes(k: HduImageKind) -> Seq<u64> { match k { HduImageKind::Image(u) => u.header.xtension.naxisn@, HduImageKind::TileCompressed(u) => match u.header.xtension.z_image { Some(z) => z.z_naxisn@, None => Seq::empty() } } }
pub open spec fn kind_bitpix(k: HduImageKind) -> Option<Bitpix> { match k { HduImageKind::Image(u) => Some(u.header.xtension.bitpix), HduImageKind::TileCompressed(u) => match u.header.xtension.z_image { Some(z) => Some(z.z_bitpix), None => None } } }
/// Two axes, a third one of 1 (grey) or 3 (color)
pub open spec fn accepted(a: Seq<u64>) -> bool { (a.len() == 2 || (a.len() == 3 && (a[2] == 1 || a[2] == 3))) && a[0] <= u32::MAX && a[1] <= u32::MAX }
pub open spec fn colored(a: Seq<u64>) -> bool { a.len() == 3 && a[2] == 3 }

// ---- how a pixel is converted
pub open spec fn scaled(s: Scale) -> bool { !(s_eq(s.bzero, 0.0f64) && s_eq(s.bscale, 1.0f64)) }
pub open spec fn physical(s: Scale, v: f64) -> f64 { s_fma(v, s.bscale, s.bzero) }
pub open spec fn over(s: Scale, d: f64) -> Scale { Scale { bzero: s_div(s.bzero, d), bscale: s_div(s.bscale, d) } }
pub open spec fn conv_u8(s: Scale, v: u8) -> u8 { if scaled(s) { s_u8(s_round(physical(s, f64_of_u8(v)))) } else { v } }
pub open spec fn conv_i16(s: Scale, v: i16) -> [u8; 2] { le_u16(if scaled(s) { s_u16(s_round(physical(s, f64_of_i16(v)))) } else if v >= 0 { v as u16 } else { 0 }) }
pub open spec fn conv_i32(s: Scale, v: i32) -> [u8; 4] { le_f32(s_f32(physical(over(s, f64_of_i32(i32::MAX)), f64_of_i32(v)))) }
pub open spec fn conv_i64(s: Scale, v: i64) -> [u8; 4] { le_f32(s_f32(physical(over(s, f64_of_i64(i64::MAX)), f64_of_i64(v)))) }
pub open spec fn conv_f32(v: f32) -> [u8; 4] { le_f32(v) }
pub open spec fn conv_f64(v: f64) -> [u8; 4] { le_f32(s_f32(v)) }

// ---- what is written for a sequence of pixels
pub open spec fn bytes1(s: Scale, v: Seq<u8>, w: Seq<[u8; 1]>) -> bool { w.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i])[0] == conv_u8(s, v[i]) }
pub open spec fn is_u8(b: Seq<u8>, b0: Seq<u8>, s: Scale, v: Seq<u8>, color: bool) -> bool { exists|w: Seq<[u8; 1]>| #[trigger] bytes1(s, v, w) && (if color { planes::<1>(b, b0, w) } else { plane::<1>(b, b0, w) }) }
pub open spec fn of_i16(s: Scale, v: Seq<i16>) -> Seq<[u8; 2]> { v.map_values(|x: i16| conv_i16(s, x)) }
pub open spec fn is_i16(b: Seq<u8>, b0: Seq<u8>, s: Scale, v: Seq<i16>, color: bool) -> bool { if color { planes::<2>(b, b0, of_i16(s, v)) } else { plane::<2>(b, b0, of_i16(s, v)) } }
pub open spec fn is_wide(b: Seq<u8>, b0: Seq<u8>, w: Seq<[u8; 4]>, color: bool) -> bool { if color { planes::<4>(b, b0, w) } else { grey::<4>(b, b0, w) } }
pub open spec fn of_i32(s: Scale, v: Seq<i32>) -> Seq<[u8; 4]> { v.map_values(|x: i32| conv_i32(s, x)) }
pub open spec fn of_i64(s: Scale, v: Seq<i64>) -> Seq<[u8; 4]> { v.map_values(|x: i64| conv_i64(s, x)) }
pub open spec fn of_f32(v: Seq<f32>) -> Seq<[u8; 4]> { v.map_values(|x: f32| conv_f32(x)) }
pub open spec fn of_f64(v: Seq<f64>) -> Seq<[u8; 4]> { v.map_values(|x: f64| conv_f64(x)) }
'''

RGB_INV = r'''        invariant channel <= 3, pixels@.len() == n, n >= 0, b0.len() == n, iter.rest() == all.skip(least(channel * n, all.len() as int)), final(pixels)@ == final(p0)@,
            forall|k: int, c: int| 0 <= k < n && 0 <= c < 3 ==> #[trigger] pixels@[k][c] == (if c < channel && c * n + k < all.len() { all[c * n + k] } else { b0[k][c] }),
        decreases 3 - channel
'''
RGB_START = "proof { assert((channel + 1) * n == channel * n + n) by (nonlinear_arith); assert(channel * n >= 0) by (nonlinear_arith) requires n >= 0; }"
RGB_IN = r'''            invariant k_ <= n, pixels@.len() == n, channel < 3, channel * n >= 0, (channel + 1) * n == channel * n + n, b0.len() == n, iter.rest() == all.skip(least(channel * n + k_, all.len() as int)),
                final(pixels)@ == final(p0)@,
                forall|k: int, c: int| 0 <= k < n && 0 <= c < 3 ==> #[trigger] pixels@[k][c] == (if (c < channel || (c == channel && k < k_)) && c * n + k < all.len() { all[c * n + k] } else { b0[k][c] }),
            ensures channel * n + n >= all.len() ==> iter.rest() == all.skip(all.len() as int), k_ == n || channel * n + k_ >= all.len(),
            decreases n - k_
'''
GHOST = "let ghost p0 = %s; let ghost n = %s@.len() as int; let ghost b0 = %s@; let ghost all = iter.rest(); proof { lemma_skip(all); }"
ONE_INV = r'''            invariant k_ <= n, %(p)s@.len() == n, b0.len() == n, iter.rest() == all.skip(least(k_ as int, all.len() as int)), final(%(p)s)@ == final(p0)@,
                %(each)s
            ensures k_ == n || k_ >= all.len(),
            decreases n - k_
'''
LUMA_EACH = "forall|k: int| 0 <= k < n ==> #[trigger] cells_@[k] == (if k < k_ && k < all.len() { all[k] } else { b0[k] }),"
SPLAT_EACH = "forall|k: int, c: int| 0 <= k < n && 0 <= c < 3 ==> #[trigger] pixels@[k][c] == (if k < k_ && k < all.len() { all[k] } else { b0[k][c] }),"
LOOPS = "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]"

NEW = r'''    ensures ({ let l = hdus(FitsReader(reader)); match first(l, 0) {
            // a file without an image
            None => r is Err,
            Some(i) => { let k = usable(l[i]->Ok_0)->Some_0; let a = axes(k);
                &&& r is Ok <==> accepted(a)
                // the first image, its dimensions, its pixel type
                &&& r is Ok ==> r->Ok_0.hdu == k && r->Ok_0.width == a[0] && r->Ok_0.height == a[1] && r->Ok_0.is_rgb == colored(a) && Some(r->Ok_0.bitpix) == kind_bitpix(k) && r->Ok_0.inv() } }}),
'''
INV = r'''
impl FitsDecoder {
    /// The image it has chosen is the current HDU of the file
    pub open spec fn inv(&self) -> bool { self.fits.current() is Some && usable(self.fits.current()->Some_0) == Some(self.hdu) && Some(self.bitpix) == kind_bitpix(self.hdu) }
}
'''
COLOR = r'''    ensures r == (match self.bitpix { Bitpix::U8 => if self.is_rgb { ColorType::Rgb8 } else { ColorType::L8 }, Bitpix::I16 => if self.is_rgb { ColorType::Rgb16 } else { ColorType::L16 }, _ => ColorType::Rgb32F }),
'''
READ = r'''    requires self.inv()
    ensures match self.hdu {
        HduImageKind::Image(h) => match scaling(h) { None => r is Err, Some(s) => r is Ok && match self.bitpix {
            Bitpix::U8 => is_u8(final(buf)@, old(buf)@, s, pixels_of(h), self.is_rgb),
            Bitpix::I16 => is_i16(final(buf)@, old(buf)@, s, pixels_of(h), self.is_rgb),
            Bitpix::I32 => is_wide(final(buf)@, old(buf)@, of_i32(s, pixels_of(h)), self.is_rgb),
            Bitpix::I64 => is_wide(final(buf)@, old(buf)@, of_i64(s, pixels_of(h)), self.is_rgb),
            Bitpix::F32 => is_wide(final(buf)@, old(buf)@, of_f32(pixels_of(h)), self.is_rgb),
            Bitpix::F64 => is_wide(final(buf)@, old(buf)@, of_f64(pixels_of(h)), self.is_rgb) } },
        HduImageKind::TileCompressed(h) => match scaling(h) { None => r is Err, Some(s) => r is Ok && match self.bitpix {
            Bitpix::U8 => is_u8(final(buf)@, old(buf)@, s, pixels_of(h), self.is_rgb),
            Bitpix::I16 => is_i16(final(buf)@, old(buf)@, s, pixels_of(h), self.is_rgb),
            Bitpix::I32 => is_wide(final(buf)@, old(buf)@, of_i32(s, pixels_of(h)), self.is_rgb),
            Bitpix::F32 | Bitpix::F64 => is_wide(final(buf)@, old(buf)@, of_f32(pixels_of(h)), self.is_rgb),
            Bitpix::I64 => true } },
    },
'''


def zips(b):
    """`for (x, y) in cells.iter_mut().zip(iter)`: the loop it stands for, the cells first, as in Zip::next"""
    while True:
        m = next(find_code(b, r"for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s+"), None)
        if not m:
            return b
        o = m.end()
        while b[o] != "{":
            o = match_close(b, o) + 1 if b[o] in "([" else o + 1
        head, c = b[m.end():o].strip(), match_close(b, o)
        body = b[o + 1:c]
        z = re.match(r"(.*?)\s*\.\s*iter_mut\s*\(\s*\)\s*\.\s*zip\s*\(\s*(?:&\s*mut\s+)?iter\s*\)$", head, re.S)
        y = re.match(r"(?:\(\s*&\s*mut\s+iter\s*\)|iter(?:\s*\.\s*by_ref\s*\(\s*\))?)\s*\.\s*zip\s*\(\s*(.*?)\s*\.\s*iter_mut\s*\(\s*\)\s*\)$", head, re.S)
        if z:
            e, x, v = z.group(1), m.group(1), m.group(2)
            step = "while k_ < %(p)s.len() { match iter.next() { None => { break; }, Some(%(v)s) => { let %(x)s = &mut %(p)s[k_]; %(body)s } } k_ += 1; }"
        elif y:
            e, v, x = y.group(1), m.group(1), m.group(2)
            step = "while true { match iter.next() { None => { break; }, Some(%(v)s) => { if k_ >= %(p)s.len() { break; } let %(x)s = &mut %(p)s[k_]; %(body)s } } k_ += 1; }"
        else:
            raise Lost("a loop over " + head)
        p, pre = e, ""
        if not re.fullmatch(r"\w+", e):
            p, pre = "cells_", "let cells_ = %s; GHOST_ " % e
        b = b[:m.start()] + "{ " + pre + "let mut k_: usize = 0; " + step % {"p": p, "v": v, "x": x, "body": body} + " }" + b[c + 1:]


def ranges(b):
    return sub_loop(b)


def sub_loop(b):
    """`for x in a..b` as the while loop it stands for"""
    m = next(find_code(b, r"for\s+(\w+)\s+in\s+(\w+)\s*\.\.\s*(\w+)\s*\{"), None)
    if not m:
        return b
    c = match_close(b, m.end() - 1)
    x, lo, hi = m.groups()
    return b[:m.start()] + "{ let mut %s: usize = %s; while %s < %s { %s %s += 1; } }" % (x, lo, x, hi, b[m.end():c], x) + b[c + 1:]


def chunked(b):
    """as_chunks_mut::<N>().0, inside out"""
    for _ in range(3):
        b = sub_code(b, r"(\bbuf|as_cells::<[^()]*>\([^()]*\))\s*\.\s*as_chunks_mut\s*::\s*<\s*(\w+)\s*>\s*\(\s*\)\s*\.\s*0\b",
                     lambda m: "as_cells::<_, %s>(%s)" % (m.group(2), m.group(1)))
    return b


def writer(ghost):
    def edit(h, b):
        b = zips(sub_loop(chunked(b)))
        b = sub_code(b, r"\[\s*(\w+)\s*;\s*RGB_CHANNELS\s*\]", r"repeat_::<_, RGB_CHANNELS>(\1)")
        if "GHOST_" in b:
            b = b.replace("GHOST_", GHOST % (("cells_",) * 3))
        elif ghost:
            b = sub_code(b, r"let\s+pixels\s*=[^;]*;", lambda m: m.group(0) + " " + GHOST % (("pixels",) * 3), 1, "pixels")
        return h, b
    return edit


def numbers(b):
    b = sub_code(b, r"\s+as\s+(u8|u16|f32|f64)\b", r".\1_()")
    b = sub_code(b, r"\bf64\s*::\s*from\s*\(", "f64_from(")
    b = sub_code(b, r"\bu16\s*::\s*try_from\s*\(", "u16_try_from(")
    b = sub_code(b, r"\.\s*unwrap_or\s*\(", ".unwrap_or_(")
    b = sub_code(b, r"\bu32\s*::\s*try_from\s*\(", "u32_try_from(")
    b = sub_code(b, r"\.\s*(round|to_le_bytes|mul_add)\s*\(", r".\1_(")
    b = sub_code(b, r"\b(\w+)\s*!=\s*Scale\s*::\s*default\s*\(\s*\)", r"!same_scale(\1, Scale::default())")
    b = sub_code(b, r"\bscale\s*/=\s*([^;]*);", r"scale.div_assign(\1);")
    b = sub_code(b, r"\b(self\s*\.\s*\w+)\s*/=\s*(\w+)\s*;", r"\1 = div_(\1, \2);")
    return b


def conv(ty, out, spec, after=""):
    """The conversion of a pixel: its meaning is put on the closure"""
    def edit(h, b):
        b = numbers(b)
        ms = list(find_code(b, r"\biter\s*\.\s*map\s*\(\s*\|\s*(\w+)\s*\|"))
        if len(ms) != 1:
            raise Lost("the conversion of the pixels")
        m = ms[0]
        o = b.index("(", m.start())
        c = match_close(b, o)
        body = b[m.end():c].strip()
        body = body if body.startswith("{") else "{ %s }" % body
        b = b[:m.start()] + "iter.map(|%s: %s| -> (o_: %s) ensures %s %s)" % (m.group(1), ty, out, spec.replace("SRC", m.group(1)), body) + b[c + 1:]
        x = re.search(r"let\s+(?:mut\s+)?(\w+)\s*=\s*$", b[:m.start()])
        if after and x:
            e = match_close(b, b.index("(", m.start())) + 1
            e = b.index(";", e) + 1
            b = b[:e] + " proof { assert(%s); }" % after.replace("MAPPED", x.group(1) + ".rest()") + b[e:]
        return h, b
    return edit


def decoder(h, b):
    b = numbers(b)
    # the first expression that ends a loop with a value
    m = next(find_code(b, r"let\s+(\w+)\s*=\s*loop\s*\{"), None)
    if m:
        o = m.end() - 1
        c = match_close(b, o)
        body = sub_code(b[o:c + 1], r"\bbreak\s+([^;]+);", m.group(1) + r" = \1; break;")
        after = b[c + 1:]
        b = b[:m.start()] + "let %s: HduImageKind; loop " % m.group(1) + body + after
    b = sub_code(b, r"([\w.]+\(\))\s*\.\s*transpose\s*\(\s*\)", r"transpose_(\1)")
    b = sub_code(b, r"\.\s*map_err\s*\(\s*to_image_error\s*\)", ".map_err_te()")
    # a pattern on the axes
    m = next(find_code(b, r"let\s+&\s*\[\s*(\w+)\s*,\s*(\w+)\s*,\s*ref\s+(\w+)\s*@\s*\.\.\s*\]\s*=\s*(\w+)\s*else\s*\{"), None)
    if m:
        c = match_close(b, m.end() - 1)
        x, y, z, a = m.groups()
        b = b[:m.start()] + "if %s.len() < 2 {%s} let %s = %s[0]; let %s = %s[1]; let %s = slice_from(%s, 2)" % (a, b[m.end():c], x, a, y, a, z, a) + b[c + 1:]
    # an alternative whose two sides bind the same name
    b = alternatives(b)
    b = sub_code(b, r"Scale\s*::\s*deserialize\s*\(\s*(\w+)\s*\.\s*get_header\s*\(\s*\)\s*\.\s*into_deserializer\s*\(\s*\)\s*\)", r"scale_of(&\1)")
    m = list(find_code(b, r"\.\s*get_data\s*\(\s*&"))
    for k, x in reversed(list(enumerate(m))):
        n = "image" if re.match(r"[^;{]*\.\s*pixels\s*\(", b[x.end():]) else "tiles"
        b = b[:x.start()] + ".get_data_%s(&" % n + b[x.end():]
    return h, b


def alternatives(b):
    m = next(find_code(b, r"Some\s*\(\s*HDU\s*::\s*(\w+)\s*\(\s*(\w+)\s*\)\s*\)\s*\|\s*Some\s*\(\s*HDU\s*::\s*(\w+)\s*\(\s*(\w+)\s*\)\s*\)(\s*if[^{}]*?)?=>\s*\{"), None)
    if not m:
        return b
    c = match_close(b, m.end() - 1)
    arm = b[m.end() - 1:c + 1]
    g = m.group(5) or ""
    return b[:m.start()] + "Some(HDU::%s(%s)) %s => %s Some(HDU::%s(%s)) %s => %s" % (m.group(1), m.group(2), g, arm, m.group(3), m.group(4), g, arm) + b[c + 1:]


def slices(h, b):
    m = next(find_code(b, r"match\s+(\w+)\s*\{"), None)
    if not m:
        raise Lost("is_rgb")
    c = match_close(b, m.end() - 1)
    t = b[m.end():c]
    t = sub_code(t, r"\[\s*\](?=\s*(?:\||=>|if))", "Short::A0")
    t = sub_code(t, r"\[\s*([\w]+)\s*,\s*([\w]+)\s*\](?=\s*(?:\||=>|if))", r"Short::A2(\1, \2)")
    t = sub_code(t, r"\[\s*([\w]+)\s*,\s*\.\.\s*\](?=\s*(?:\||=>|if))", r"Short::A1(\1) | Short::A2(\1, _) | Short::More(\1, _)")
    t = sub_code(t, r"\[\s*\.\.\s*\](?=\s*(?:\||=>|if))", "_")
    t = sub_code(t, r"\[\s*([\w]+)\s*\](?=\s*(?:\||=>|if))", r"Short::A1(\1)")
    return h, b[:m.start()] + "match short(%s) {" % m.group(1) + t + b[c:]


def build(mdir, probe=False):
    u = Unit("img", mdir)
    u.probe = probe
    u.add(BASE)
    u.item(HD, r"pub enum Bitpix", derive="Clone, Copy", edit=lambda t: re.sub(r"\s*=\s*-?\d+", "", t))
    u.trust("the contract of slice::as_chunks_mut: consecutive cells of N values, a tail that does not fill one is left out; of Iterator::{next, map} on a finite iterator; of Option::transpose and the conversions u32/u16::try_from")
    u.trust("the machine operations on floats are uninterpreted: mul_add, division, rounding, casts, equality, to_le_bytes")
    u.trust("contracts established elsewhere: the HDUs of a file in order (unit `walk`), the pixels of the current HDU and their type (units `it`, `tiles`), the accessors of the descriptions; "
            "BSCALE and BZERO of a header by its Deserialize (driver of C20)")
    u.notes.add("`for (x, y) in cells.iter_mut().zip(iter)` written as the loop it stands for (cells first, as in Zip::next); `as_chunks_mut::<N>().0` written `as_cells`; `[x; N]` written `repeat_`; "
                "`let x = loop { .. break e; }` written with an assignment before the break; an or-pattern written as two arms; patterns on slices written with a helper; casts, rounding, mul_add and to_le_bytes "
                "written as calls of functions with their contract; iterators written `Vals`; the lifetime of the decoder dropped; a contract is put on the closure that converts a pixel")
    u.add("pub enum ColorType { L8, L16, Rgb8, Rgb16, Rgb32F }")
    u.item(I, r"struct Scale", derive="Clone, Copy", edit=fields)
    u.add(FILE)
    u.item(I, r"enum HduImageKind", edit=fields)
    u.item(I, r"pub struct FitsDecoder", edit=lambda t: fields(t).replace("<'a>", "").replace("Fits<FitsReader>", "Fits"))
    u.add(SPEC + INV)
    u.add("#[verifier::external_body]\npub fn same_scale(a: Scale, b: Scale) -> (r: bool) ensures r == (s_eq(a.bzero, b.bzero) && s_eq(a.bscale, b.bscale)) { unimplemented!() }")
    u.add("impl Scale {")
    num = lambda h, b: (h, numbers(b))
    u.fn(I, "default", "    ensures r.bzero == 0.0f64, r.bscale == 1.0f64,", r"Default for Scale", edit=num)
    u.fn(I, "div_assign", "    ensures *final(self) == over(*old(self), rhs),", r"DivAssign<f64> for Scale", edit=num)
    u.fn(I, "apply", "    ensures r == physical(self, value),", r"impl Scale$", edit=num)
    u.add("}")
    m = re.search(r"const\s+RGB_CHANNELS\s*:\s*usize\s*=\s*(\d+)\s*;", u.src(I).text)
    if not m:
        raise Lost("RGB_CHANNELS")
    u.add("pub const RGB_CHANNELS: usize = %s;" % m.group(1))
    head = "pub fn %s<const P: usize>(buf: &mut [u8], iter: Vals<[u8; P]>)"
    mut = "let mut iter = iter;"
    for n, spec, invs, ghost in (("write_rgb", "planes", [(RGB_INV, RGB_START, "", ""), RGB_IN], True),
                                 ("write_luma", "plane", [ONE_INV % {"p": "cells_", "each": LUMA_EACH}], False),
                                 ("write_splat", "grey", [ONE_INV % {"p": "pixels", "each": SPLAT_EACH}], True)):
        u.fn(I, n, "    ensures %s::<P>(final(buf)@, old(buf)@, iter.rest())," % spec, head=head % n, entry=mut, edit=writer(ghost), invs=invs, attrs=LOOPS, desugar=False)
    head = "pub fn %s(buf: &mut [u8], iter: Vals<%s>%s, is_rgb: bool)"
    mut = "let mut scale = scale;"
    for n, t, out, spec, con, e, after in (
            ("write_u8", "u8", "[u8; 1]", "o_[0] == conv_u8(scale, SRC)", "is_u8(final(buf)@, old(buf)@, scale, iter.rest(), is_rgb)", "", "bytes1(scale, iter.rest(), MAPPED)"),
            ("write_i16", "i16", "[u8; 2]", "o_ == conv_i16(scale, SRC)", "is_i16(final(buf)@, old(buf)@, scale, iter.rest(), is_rgb)", "", "MAPPED =~= of_i16(scale, iter.rest())"),
            ("write_i32", "i32", "[u8; 4]", "o_ == conv_i32(s0, SRC)", "is_wide(final(buf)@, old(buf)@, of_i32(scale, iter.rest()), is_rgb)", "let ghost s0 = scale; " + mut, "MAPPED =~= of_i32(s0, iter.rest())"),
            ("write_i64", "i64", "[u8; 4]", "o_ == conv_i64(s0, SRC)", "is_wide(final(buf)@, old(buf)@, of_i64(scale, iter.rest()), is_rgb)", "let ghost s0 = scale; " + mut, "MAPPED =~= of_i64(s0, iter.rest())"),
            ("write_f32", "f32", "[u8; 4]", "o_ == conv_f32(SRC)", "is_wide(final(buf)@, old(buf)@, of_f32(iter.rest()), is_rgb)", "", "MAPPED =~= of_f32(iter.rest())"),
            ("write_f64", "f64", "f32", "o_ == s_f32(SRC)", "is_wide(final(buf)@, old(buf)@, of_f64(iter.rest()), is_rgb)",
             "proof { assert forall|m_: Seq<f32>| m_.len() == iter.rest().len() && (forall|i: int| 0 <= i < m_.len() ==> #[trigger] m_[i] == s_f32(iter.rest()[i])) implies #[trigger] of_f32(m_) == of_f64(iter.rest()) by { assert(of_f32(m_) =~= of_f64(iter.rest())); } }", "")):
        u.fn(I, n, "    ensures %s," % con, head=head % (n, t, "" if t[0] == "f" else ", scale: Scale"), entry=e, edit=conv(t, out, spec, after), desugar=False)
    u.fn(I, "is_rgb", "    ensures match r { Ok(c) => (extra_axes@.len() == 0 || (extra_axes@.len() == 1 && (extra_axes@[0] == 1 || extra_axes@[0] == 3))) && c == (extra_axes@.len() == 1 && extra_axes@[0] == 3),\n        Err(_) => !(extra_axes@.len() == 0 || (extra_axes@.len() == 1 && (extra_axes@[0] == 1 || extra_axes@[0] == 3))) },", edit=slices)
    u.add("impl HduImageKind {")
    u.fn(I, "axes_and_bitpix", "    ensures match r { Ok((a, b)) => a@ == axes(*self) && Some(b) == kind_bitpix(*self), Err(_) => kind_bitpix(*self) is None },", r"impl HduImageKind$")
    u.add("}\nimpl FitsDecoder {")
    u.fn(I, "new", NEW, r"impl<'a> FitsDecoder<'a>$", head="pub fn new(reader: GenericReader) -> ImageResult<Self>", edit=decoder,
         invs=["        invariant_except_break first(fits.list(), 0) == first(fits.list(), fits.idx()), 0 <= fits.idx() <= fits.list().len(),\n        invariant fits.list() == hdus(FitsReader(reader)), 0 <= fits.idx() <= fits.list().len(),\n        ensures fits.current() is Some, usable(fits.current()->Some_0) == Some(found), first(fits.list(), 0) == Some(fits.idx() - 1),\n        decreases fits.list().len() - fits.idx()"], attrs=LOOPS)
    u.fn(I, "dimensions", "    ensures r == (self.width, self.height),", r"ImageDecoder for FitsDecoder")
    u.fn(I, "color_type", COLOR, r"ImageDecoder for FitsDecoder")
    u.fn(I, "read_image", READ, r"ImageDecoder for FitsDecoder", head="pub fn read_image(self, buf: &mut [u8]) -> ImageResult<()>", edit=lambda h, b: (h, sub_code(decoder(h, b)[1], r"\bself\b", "self_")), entry="let mut self_ = self;")
    u.add("}")
    return u
