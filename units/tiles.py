"""Tile-compressed images: geometry of the tiles, decoding of each from its row (C15), restoring of the floats (C16)."""
import re

from common import DIV_CEIL, ERRORS, READER, TRUST_DIV_CEIL, TRUST_READER
from extract import Lost, find_code, match_close, sub_code
from rice import INVERSE, RICE_SPEC, UNRICE
from sizes import boxes
from table import CELLS, TILE_ROW, TILE_ROW_SPEC
from unit import Unit, desugar_chain

P = "src/hdu/data/bintable/tile_compressed/pixels.rs"
T = "src/hdu/data/bintable/tile_compressed/mod.rs"
H = "src/hdu/header/extension/bintable.rs"
M = "src/hdu/data/bintable/mod.rs"
D = "src/hdu/data/bintable/data.rs"

SPEC = r'''
use vstd::std_specs::ops::*;
// ---- floats: the operations of the machine, as functions
pub broadcast axiom fn f_add(a: f32, b: f32) ensures #[trigger] a.add_req(b);
pub broadcast axiom fn f_sub(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
pub broadcast axiom fn f_mul(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
pub axiom fn f_obeys() ensures <f32 as AddSpec>::obeys_add_spec(), <f32 as SubSpec>::obeys_sub_spec(), <f32 as MulSpec>::obeys_mul_spec();
pub uninterp spec fn nan() -> f32;
#[verifier::external_body]
pub fn nan_() -> (r: f32) ensures r == nan() { f32::NAN }
pub uninterp spec fn i2f(v: i32) -> f32;
pub uninterp spec fn d2f(v: f64) -> f32;
pub trait ToF32: Sized { spec fn f(self) -> f32; fn to_f32_(self) -> (r: f32) ensures r == self.f(); }
impl ToF32 for i32 { open spec fn f(self) -> f32 { i2f(self) } #[verifier::external_body] fn to_f32_(self) -> (r: f32) { self as f32 } }
impl ToF32 for f64 { open spec fn f(self) -> f32 { d2f(self) } #[verifier::external_body] fn to_f32_(self) -> (r: f32) { self as f32 } }
/// The pseudo-random sequence of the standard (FITS 4.0, appendix I)
pub uninterp spec fn rand(i: int) -> f32;
pub uninterp spec fn rand_int(i: int) -> usize;
pub const N_RANDOM: usize = 10000;
#[verifier::external_body]
pub fn rand_(i: usize) -> (r: f32) requires i < 10000 ensures r == rand(i as int) { unimplemented!() }
#[verifier::external_body]
pub fn rand_start(i: usize) -> (r: usize) requires i < 10000 ensures r == rand_int(i as int), r < 500 { unimplemented!() }
pub trait Euclid: Sized { spec fn i(self) -> int; fn rem_euclid_(self, m: Self) -> (r: Self) requires m.i() > 0 ensures r.i() == self.i() % m.i(); }
impl Euclid for i64 { open spec fn i(self) -> int { self as int } #[verifier::external_body] fn rem_euclid_(self, m: i64) -> (r: i64) { self.rem_euclid(m) } }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }

// ---- bytes
pub open spec fn be16(h: u8, l: u8) -> i16 { (if h < 128 { h * 256 + l } else { h * 256 + l - 65536 }) as i16 }
pub open spec fn be32(a: u8, b: u8, c: u8, d: u8) -> i32 { (if a < 128 { a * 0x1000000 + b * 0x10000 + c * 256 + d } else { a * 0x1000000 + b * 0x10000 + c * 256 + d - 0x1_0000_0000 }) as i32 }
pub broadcast proof fn or16(l: u8, h: u8) ensures #[trigger] ((l as i16) | ((h as i16) << 8)) == be16(h, l)
{
    assert(h < 128 ==> ((l as i16) | ((h as i16) << 8)) as i64 == (h as i64) * 256i64 + (l as i64)) by (bit_vector);
    assert(h >= 128 ==> ((l as i16) | ((h as i16) << 8)) as i64 == (h as i64) * 256i64 + (l as i64) - 65536i64) by (bit_vector);
}
pub broadcast proof fn or32(a: u8, b: u8, c: u8, d: u8) ensures #[trigger] (((a as i32) << 24) | ((b as i32) << 16) | ((c as i32) << 8) | (d as i32)) == be32(a, b, c, d)
{
    assert(a < 128 ==> (((a as i32) << 24) | ((b as i32) << 16) | ((c as i32) << 8) | (d as i32)) as i64 == (a as i64) * 0x1000000i64 + (b as i64) * 0x10000i64 + (c as i64) * 256i64 + (d as i64)) by (bit_vector);
    assert(a >= 128 ==> (((a as i32) << 24) | ((b as i32) << 16) | ((c as i32) << 8) | (d as i32)) as i64 == (a as i64) * 0x1000000i64 + (b as i64) * 0x10000i64 + (c as i64) * 256i64 + (d as i64) - 0x1_0000_0000i64) by (bit_vector);
}
#[verifier::external_body]
pub fn from_be_bytes_(b: [u8; 4]) -> (r: i32) ensures r == be32(b[0], b[1], b[2], b[3]) { i32::from_be_bytes(b) }
#[verifier::external_body]
pub fn from_ne_bytes_(b: [u8; 4]) -> (r: i32) ensures r == be32(b[3], b[2], b[1], b[0]) { i32::from_ne_bytes(b) }

// ---- the decompressors
pub uninterp spec fn gunzips(d: Seq<u8>, at: int, n: int) -> bool;
pub uninterp spec fn gunzip(d: Seq<u8>, at: int, n: int) -> Seq<u8>;
#[verifier::external_body]
pub fn gunzip_exact<R: Rd>(reader: &mut R, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
    ensures kept(old(reader), final(reader)), final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> final(buf)@ == gunzip(old(reader).data(), old(reader).pos(), old(buf)@.len() as int),
        old(reader).reliable() && gunzips(old(reader).data(), old(reader).pos(), old(buf)@.len() as int) ==> r is Ok,
{ unimplemented!() }
// the Rice coding, as specified in the unit rice
pub mod rc {
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
RICESPEC
}
use rc::{unrice, unrices, unricable, written, coded, codes, ne};
/// proved in the unit rice of RICEDecoder
#[verifier::external_body]
pub fn unrice_exact<R: Rd>(reader: &mut R, nblock: i32, nx: i32, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
UNRICE
{ unimplemented!() }
/// proved in the unit rice
#[verifier::external_body]
pub proof fn theorem_inverse(d: Seq<u8>, at: int, v: Seq<i32>, nb: int, code: spec_fn(int) -> int)
INVERSE
{ }

// ---- the rows of the table
pub struct BinTable { pub naxis1: u64, pub naxis2: u64, pub theap: usize, pub tforms: Vec<TFormType>, pub ttypes: Vec<Option<String>>, pub z_image: Option<TileCompressedImage> }
/// ok: between two rows, all the fields read, the heap not (`core` in the unit table)
pub struct TableRowData<R> { pub reader: R, pub idx_row: usize, pub ctx: BinTable, pub start: Ghost<int>, pub ok: Ghost<bool> }
impl<R: Rd> TableRowData<R> {
    pub open spec fn same_table(&self, o: &Self) -> bool { self.ctx == o.ctx && self.start == o.start && kept(&o.reader, &self.reader) }
    ROWSPECS
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Vec<DataValue>>) ROWCONTRACT
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_reader(&mut self) -> (r: &mut R)
        ensures *r == old(self).reader, final(self).reader == *final(r), final(self).idx_row == old(self).idx_row, final(self).ctx == old(self).ctx, final(self).start == old(self).start, final(self).ok == old(self).ok,
    { &mut self.reader }
    #[verifier::external_body]
    pub fn table_data(self) -> (r: TableData<R>) ensures r.reader == self.reader, r.row_idx == self.idx_row, r.ctx == self.ctx, r.start == self.start, !r.heap { unimplemented!() }
    pub fn get_ctx(&self) -> (r: &BinTable) ensures *r == self.ctx { &self.ctx }
    pub fn get_row_idx(&self) -> (r: usize) ensures r == self.idx_row { self.idx_row }
}
pub open spec fn kind_of(t: TFormType) -> int {
    match t { TFormType::P { .. } => 1, TFormType::Q { .. } => 2, TFormType::E { .. } => 3, TFormType::D { .. } => 4, TFormType::B { .. } => 5, TFormType::I { .. } => 6, TFormType::J { .. } => 7, TFormType::K { .. } => 8, _ => 0 }
}
/// The kinds of the values of the first fields of a row
pub open spec fn kinds_of(ts: Seq<TFormType>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { kinds_of(ts, n - 1) + Seq::new(count(ts[n - 1]) as nat, |j: int| kind_of(ts[n - 1])) } }
/// The kinds of the values of a row, which depend on the description of the table only
pub open spec fn kinds(ctx: BinTable) -> Seq<int> { kinds_of(ctx.tforms@, ctx.tforms@.len() as int) }
/// Index of the first value of a field among the values of a row
pub open spec fn cells(ts: Seq<TFormType>, i: int) -> int { kinds_of(ts, i).len() as int }
pub proof fn lemma_cells(ts: Seq<TFormType>, i: int, n: int) requires 0 <= i <= n <= ts.len()
    ensures cells(ts, i) <= cells(ts, n), i < n && count(ts[i]) > 0 ==> cells(ts, i) < cells(ts, n) && kinds_of(ts, n)[cells(ts, i)] == kind_of(ts[i]) decreases n
{ if i < n { lemma_cells(ts, i, n - 1); } }
impl TFormType {
    #[verifier::external_body]
    pub fn num_bytes_field(&self) -> (r: usize) ensures *self is X ==> r == count(*self) { unimplemented!() }
}
pub open spec fn kind(v: DataValue) -> int {
    match v {
        DataValue::VariableLengthArray32 { .. } => 1, DataValue::VariableLengthArray64 { .. } => 2, DataValue::Float { .. } => 3, DataValue::Double { .. } => 4,
        DataValue::UnsignedByte { .. } => 5, DataValue::Short { .. } => 6, DataValue::Integer { .. } => 7, DataValue::Long { .. } => 8, _ => 0,
    }
}
pub open spec fn shaped(ctx: BinTable, v: Seq<DataValue>) -> bool { v.len() == kinds(ctx).len() && forall|i: int| 0 <= i < v.len() ==> kind(#[trigger] v[i]) == kinds(ctx)[i] }

pub proof fn lemma_shaped(ts: Seq<TFormType>, n: int, d: Seq<u8>, at: int)
    requires 0 <= n <= ts.len()
    ensures row_cells(ts, n, d, at).len() == kinds_of(ts, n).len(), forall|i: int| 0 <= i < kinds_of(ts, n).len() ==> kind(#[trigger] row_cells(ts, n, d, at)[i]) == kinds_of(ts, n)[i]
    decreases n
{
    if n > 0 {
        lemma_shaped(ts, n - 1, d, at);
        let t = ts[n - 1];
        assert forall|i: int| 0 <= i < kinds_of(ts, n).len() implies kind(#[trigger] row_cells(ts, n, d, at)[i]) == kinds_of(ts, n)[i] by {
            let m = kinds_of(ts, n - 1).len() as int;
            if i >= m { assert(row_cells(ts, n, d, at)[i] == cell(d, t, at + off(ts, n - 1) + (i - m) * elem(t), (n - 1) as usize, (i - m) as usize)); }
            else { assert(row_cells(ts, n, d, at)[i] == row_cells(ts, n - 1, d, at)[i]); }
        }
    }
}
/// A value of a field among those of the row
pub proof fn lemma_cell(ts: Seq<TFormType>, n: int, d: Seq<u8>, at: int, i: int, j: int)
    requires 0 <= i < n <= ts.len(), 0 <= j < count(ts[i])
    ensures cells(ts, i) + j < row_cells(ts, n, d, at).len(), row_cells(ts, n, d, at)[cells(ts, i) + j] == cell(d, ts[i], at + off(ts, i) + j * elem(ts[i]), i as usize, j as usize)
    decreases n
{
    lemma_shaped(ts, n - 1, d, at);
    if i < n - 1 { lemma_cell(ts, n - 1, d, at, i, j); }
}
pub proof fn lemma_row(i: int, a: u64, b: u64) requires 0 <= i <= a ensures 0 <= i * b <= a * b { assert(0 <= i * b <= a * b) by (nonlinear_arith) requires 0 <= i <= a, b >= 0; }
// ---- the geometry
pub open spec fn tprod(t: Seq<usize>, i: int) -> int decreases i { if i <= 0 { 1 } else { tprod(t, i - 1) * t[i - 1] } }
pub open spec fn along(n: u64, t: usize) -> int { (n + t - 1) / (t as int) }
/// What is left of the number of a tile after the first axes
pub open spec fn left(na: Seq<u64>, t: Seq<usize>, k: int, i: int) -> int decreases i { if i <= 0 { k } else { left(na, t, k, i - 1) / along(na[i - 1], t[i - 1]) } }
/// Place of a tile along an axis
pub open spec fn place(na: Seq<u64>, t: Seq<usize>, k: int, i: int) -> int { left(na, t, k, i) % along(na[i], t[i]) }
pub open spec fn extent(na: Seq<u64>, t: Seq<usize>, k: int, i: int) -> int { let rest = na[i] - place(na, t, k, i) * t[i]; if t[i] <= rest { t[i] as int } else { rest } }
pub open spec fn tile_px(na: Seq<u64>, t: Seq<usize>, k: int, i: int) -> int decreases i { if i <= 0 { 1 } else { tile_px(na, t, k, i - 1) * extent(na, t, k, i - 1) } }
pub open spec fn geometry(na: Seq<u64>, t: Seq<usize>) -> bool {
    na.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> t[i] >= 1 && #[trigger] na[i] >= 1 ) && tprod(t, t.len() as int) < 0x8000_0000
}
pub proof fn lemma_along(n: u64, t: usize, p: int) requires n >= 1, t >= 1 ensures along(n, t) >= 1, 0 <= p < along(n, t) ==> 0 <= p * t < n
{
    let a = along(n, t); let m = n + t - 1;
    assert(a >= 1) by (nonlinear_arith) requires a == m / (t as int), m >= t, t >= 1;
    if 0 <= p < a { assert(0 <= p * t && p * t <= (a - 1) * t && a * t <= m && (a - 1) * t == a * t - t) by (nonlinear_arith) requires a == m / (t as int), 0 <= p <= a - 1, t >= 1; }
}
pub proof fn lemma_extent(na: Seq<u64>, t: Seq<usize>, k: int, i: int) requires geometry(na, t), 0 <= i < t.len(), 0 <= k
    ensures 1 <= extent(na, t, k, i) <= t[i], left(na, t, k, i) >= 0, 0 <= place(na, t, k, i) < along(na[i], t[i]), 0 <= place(na, t, k, i) * t[i] < na[i], along(na[i], t[i]) >= 1
    decreases i
{
    if i > 0 { lemma_extent(na, t, k, i - 1); let l = left(na, t, k, i - 1); let a = along(na[i - 1], t[i - 1]); assert(l / a >= 0) by (nonlinear_arith) requires l >= 0, a >= 1; }
    lemma_along(na[i], t[i], place(na, t, k, i));
}
pub proof fn lemma_px(na: Seq<u64>, t: Seq<usize>, k: int, i: int) requires geometry(na, t), 0 <= i <= t.len(), 0 <= k ensures 1 <= tile_px(na, t, k, i) <= tprod(t, i) <= tprod(t, t.len() as int) decreases i
{
    lemma_tprod(t, i, t.len() as int, na);
    if i > 0 { lemma_px(na, t, k, i - 1); lemma_extent(na, t, k, i - 1);
        let a = tile_px(na, t, k, i - 1); let b = extent(na, t, k, i - 1); let c = tprod(t, i - 1); let d = t[i - 1] as int;
        assert(1 <= a * b <= c * d) by (nonlinear_arith) requires 1 <= a <= c, 1 <= b <= d; }
}
pub proof fn lemma_tprod(t: Seq<usize>, i: int, j: int, na: Seq<u64>) requires geometry(na, t), 0 <= i <= j <= t.len() ensures 1 <= tprod(t, i) <= tprod(t, j) decreases j
{
    if i < j { lemma_tprod(t, i, j - 1, na); assert(na[j - 1] >= 1); let a = tprod(t, j - 1); let b = t[j - 1] as int; assert(a <= a * b) by (nonlinear_arith) requires 1 <= a, 1 <= b; }
    else if j > 0 { lemma_tprod(t, 0, j - 1, na); assert(na[j - 1] >= 1); let a = tprod(t, j - 1); let b = t[j - 1] as int; assert(1 <= a * b) by (nonlinear_arith) requires 1 <= a, 1 <= b; }
}
// ---- all the tiles together are the image
pub open spec fn grid(na: Seq<u64>, t: Seq<usize>, i: int) -> int decreases i { if i <= 0 { 1 } else { grid(na, t, i - 1) * along(na[i - 1], t[i - 1]) } }
pub open spec fn image_px(na: Seq<u64>, i: int) -> int decreases i { if i <= 0 { 1 } else { image_px(na, i - 1) * na[i - 1] } }
/// Pixels of the n first tiles, over the i first axes
pub open spec fn sum_px(na: Seq<u64>, t: Seq<usize>, n: int, i: int) -> int decreases n { if n <= 0 { 0 } else { sum_px(na, t, n - 1, i) + tile_px(na, t, n - 1, i) } }
pub proof fn lemma_grid(na: Seq<u64>, t: Seq<usize>, i: int) requires geometry(na, t), 0 <= i <= t.len() ensures grid(na, t, i) >= 1 decreases i
{
    if i > 0 { lemma_grid(na, t, i - 1); lemma_extent(na, t, 0, i - 1); let g = grid(na, t, i - 1); let a = along(na[i - 1], t[i - 1]); assert(g * a >= 1) by (nonlinear_arith) requires g >= 1, a >= 1; }
}
/// Tiles that are a multiple of the grid of the first axes apart are alike along them
pub proof fn lemma_apart(na: Seq<u64>, t: Seq<usize>, k: int, q: int, i: int) requires geometry(na, t), 0 <= i <= t.len(), 0 <= k, 0 <= q
    ensures left(na, t, k + q * grid(na, t, i), i) == left(na, t, k, i) + q, tile_px(na, t, k + q * grid(na, t, i), i) == tile_px(na, t, k, i),
        forall|j: int| 0 <= j < i ==> place(na, t, k + q * grid(na, t, i), j) == #[trigger] place(na, t, k, j),
    decreases i
{
    if i > 0 {
        lemma_extent(na, t, k, i - 1);
        let (g, a) = (grid(na, t, i - 1), along(na[i - 1], t[i - 1]));
        assert(q * a >= 0) by (nonlinear_arith) requires q >= 0, a >= 1;
        assert(q * grid(na, t, i) == (q * a) * g) by (nonlinear_arith) requires grid(na, t, i) == g * a;
        lemma_apart(na, t, k, q * a, i - 1);
        let l = left(na, t, k, i - 1);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, a);
        let d = l / a;
        assert((d + q) * a == a * d + q * a) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l + q * a, a, d + q, l % a);
    } else { assert(q * 1 == q); }
}
pub proof fn lemma_below(na: Seq<u64>, t: Seq<usize>, k: int, m: int, i: int) requires geometry(na, t), 0 <= i <= t.len(), 0 <= k < m * grid(na, t, i) ensures 0 <= left(na, t, k, i) < m decreases i
{
    if i > 0 {
        lemma_extent(na, t, k, i - 1);
        let (g, a) = (grid(na, t, i - 1), along(na[i - 1], t[i - 1]));
        assert(m * grid(na, t, i) == (m * a) * g) by (nonlinear_arith) requires grid(na, t, i) == g * a;
        lemma_below(na, t, k, m * a, i - 1);
        let l = left(na, t, k, i - 1);
        assert(0 <= l / a < m) by (nonlinear_arith) requires 0 <= l < m * a, a >= 1;
    } else { assert(m * 1 == m); }
}
/// The n first tiles of the c-th layer along the last of the i axes
proof fn lemma_layer(na: Seq<u64>, t: Seq<usize>, c: int, n: int, i: int) requires geometry(na, t), 0 < i <= t.len(), 0 <= c < along(na[i - 1], t[i - 1]), 0 <= n <= grid(na, t, i - 1)
    ensures sum_px(na, t, c * grid(na, t, i - 1) + n, i) == sum_px(na, t, c * grid(na, t, i - 1), i) + sum_px(na, t, n, i - 1) * (if t[i - 1] <= na[i - 1] - c * t[i - 1] { t[i - 1] as int } else { na[i - 1] - c * t[i - 1] })
    decreases n
{
    let g = grid(na, t, i - 1);
    let e = if t[i - 1] <= na[i - 1] - c * t[i - 1] { t[i - 1] as int } else { na[i - 1] - c * t[i - 1] };
    assert(c * g >= 0) by (nonlinear_arith) requires c >= 0, g >= 0;
    if n > 0 {
        lemma_layer(na, t, c, n - 1, i);
        let k = c * g + n - 1;
        lemma_apart(na, t, n - 1, c, i - 1);
        assert(1 * g == g);
        lemma_below(na, t, n - 1, 1, i - 1);
        assert(k == n - 1 + c * g);
        let a = along(na[i - 1], t[i - 1]);
        assert(c % a == c) by (nonlinear_arith) requires 0 <= c < a;
        assert(place(na, t, k, i - 1) == c);
        assert(tile_px(na, t, k, i) == tile_px(na, t, n - 1, i - 1) * e);
        let (x, y) = (sum_px(na, t, n - 1, i - 1), tile_px(na, t, n - 1, i - 1));
        assert((x + y) * e == x * e + y * e) by (nonlinear_arith);
    } else { assert(0 * e == 0); }
}
proof fn lemma_layers(na: Seq<u64>, t: Seq<usize>, c: int, i: int) requires geometry(na, t), 0 < i <= t.len(), 0 <= c <= along(na[i - 1], t[i - 1])
    ensures sum_px(na, t, c * grid(na, t, i - 1), i) == image_px(na, i - 1) * (if c * t[i - 1] <= na[i - 1] { c * t[i - 1] } else { na[i - 1] as int })
    decreases i, 0int, c
{
    let g = grid(na, t, i - 1);
    let p = image_px(na, i - 1);
    let (n, b) = (na[i - 1] as int, t[i - 1] as int);
    lemma_grid(na, t, i - 1);
    if c > 0 {
        lemma_layers(na, t, c - 1, i);
        lemma_layer(na, t, c - 1, g, i);
        theorem_tiles(na, t, i - 1);
        assert((c - 1) * g + g == c * g && (c - 1) * b + b == c * b) by (nonlinear_arith);
        lemma_along(na[i - 1], t[i - 1], c - 1);
        let e = if b <= n - (c - 1) * b { b } else { n - (c - 1) * b };
        let f = (c - 1) * b;
        assert(p * f + p * e == p * (f + e)) by (nonlinear_arith);
    } else { assert(0 * g == 0 && 0 * b == 0 && p * 0 == 0); }
}
/// The tiles of an image have as many pixels as the image
pub proof fn theorem_tiles(na: Seq<u64>, t: Seq<usize>, i: int) requires geometry(na, t), 0 <= i <= t.len() ensures sum_px(na, t, grid(na, t, i), i) == image_px(na, i) decreases i, 1int, 0int
{
    if i > 0 {
        let (n, b) = (na[i - 1] as int, t[i - 1] as int);
        let a = along(na[i - 1], t[i - 1]);
        assert(na[i - 1] >= 1);
        lemma_along(na[i - 1], t[i - 1], 0);
        assert(a * b >= n) by (nonlinear_arith) requires a == (n + b - 1) / b, b >= 1;
        lemma_layers(na, t, a, i);
        assert(a * grid(na, t, i - 1) == grid(na, t, i)) by (nonlinear_arith) requires grid(na, t, i) == grid(na, t, i - 1) * a;
    } else { assert(sum_px(na, t, 1, 0) == sum_px(na, t, 0, 0) + tile_px(na, t, 0, 0)); }
}
/// Number of the tile at the places c
pub open spec fn number(na: Seq<u64>, t: Seq<usize>, c: Seq<int>, i: int) -> int decreases i { if i <= 0 { 0 } else { number(na, t, c, i - 1) + c[i - 1] * grid(na, t, i - 1) } }
proof fn lemma_number(na: Seq<u64>, t: Seq<usize>, c: Seq<int>, i: int) requires geometry(na, t), 0 <= i <= t.len(), c.len() == t.len(), forall|j: int| 0 <= j < t.len() ==> 0 <= #[trigger] c[j] < along(na[j], t[j])
    ensures 0 <= number(na, t, c, i) < grid(na, t, i), forall|j: int| 0 <= j < i ==> #[trigger] place(na, t, number(na, t, c, i), j) == c[j]
    decreases i
{
    if i > 0 {
        lemma_number(na, t, c, i - 1);
        let (g, a, q, k) = (grid(na, t, i - 1), along(na[i - 1], t[i - 1]), c[i - 1], number(na, t, c, i - 1));
        assert(0 <= q < a);
        assert(0 <= k + q * g < g * a) by (nonlinear_arith) requires 0 <= k < g, 0 <= q <= a - 1;
        lemma_apart(na, t, k, q, i - 1);
        assert(1 * g == g);
        lemma_below(na, t, k, 1, i - 1);
        assert(q % a == q) by (nonlinear_arith) requires 0 <= q < a;
        assert forall|j: int| 0 <= j < i implies #[trigger] place(na, t, k + q * g, j) == c[j] by { if j < i - 1 { assert(place(na, t, k, j) == c[j]); } }
    }
}
proof fn lemma_digits(na: Seq<u64>, t: Seq<usize>, c: Seq<int>, k: int, i: int) requires geometry(na, t), 0 <= i <= t.len(), c.len() == t.len(), 0 <= k, forall|j: int| 0 <= j < t.len() ==> place(na, t, k, j) == #[trigger] c[j]
    ensures k == number(na, t, c, i) + left(na, t, k, i) * grid(na, t, i)
    decreases i
{
    if i > 0 {
        lemma_digits(na, t, c, k, i - 1);
        lemma_extent(na, t, k, i - 1);
        let (g, a, l) = (grid(na, t, i - 1), along(na[i - 1], t[i - 1]), left(na, t, k, i - 1));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, a);
        let (d, m) = (l / a, l % a);
        assert(m == c[i - 1]);
        assert(l * g == m * g + d * (g * a)) by (nonlinear_arith) requires l == a * d + m;
    } else { assert(left(na, t, k, 0) * 1 == k); }
}
pub open spec fn stands(na: Seq<u64>, t: Seq<usize>, k: int, c: Seq<int>) -> bool { 0 <= k < grid(na, t, t.len() as int) && forall|j: int| 0 <= j < t.len() ==> #[trigger] place(na, t, k, j) == c[j] }
/// At every place of the grid there is one tile and only one
pub proof fn theorem_one_tile(na: Seq<u64>, t: Seq<usize>, c: Seq<int>) requires geometry(na, t), c.len() == t.len(), forall|j: int| 0 <= j < t.len() ==> 0 <= #[trigger] c[j] < along(na[j], t[j])
    ensures stands(na, t, number(na, t, c, t.len() as int), c), forall|k2: int| #[trigger] stands(na, t, k2, c) ==> k2 == number(na, t, c, t.len() as int)
{
    let n = t.len() as int;
    lemma_number(na, t, c, n);
    assert forall|k2: int| #[trigger] stands(na, t, k2, c) implies k2 == number(na, t, c, n) by {
        assert forall|j: int| 0 <= j < t.len() implies place(na, t, k2, j) == #[trigger] c[j] by {}
        lemma_digits(na, t, c, k2, n);
        assert(1 * grid(na, t, n) == grid(na, t, n));
        lemma_below(na, t, k2, 1, n);
        assert(0 * grid(na, t, n) == 0);
    }
}
pub struct TryFromIntError {}
pub fn i64_try_from(v: u64) -> (r: Result<i64, TryFromIntError>) ensures r is Ok == (v <= i64::MAX), r is Ok ==> r->Ok_0 == v { if v <= i64::MAX as u64 { Ok(v as i64) } else { Err(TryFromIntError {}) } }
pub trait Least: Sized { spec fn le(self, o: Self) -> bool; fn min_(self, o: Self) -> (r: Self) ensures r == (if self.le(o) { self } else { o }); }
impl Least for u64 { open spec fn le(self, o: u64) -> bool { self <= o } #[verifier::external_body] fn min_(self, o: u64) -> (r: u64) { self.min(o) } }

// ---- the iterator
pub struct ValueMap { p: () }
pub struct Header { pub values: ValueMap, pub xtension: BinTable }
/// The value of a keyword as an integer
pub uninterp spec fn header_int(v: ValueMap, key: Seq<char>) -> Option<i32>;
impl Header {
    #[verifier::external_body]
    pub fn get_parsed(&self, key: &str) -> (r: Result<i32, Error>) ensures r is Ok == header_int(self.values, key@) is Some, r is Ok ==> Some(r->Ok_0) == header_int(self.values, key@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_parsed_<T>(&self, key: &str) -> Result<T, Error> { unimplemented!() }
    pub fn get_xtension(&self) -> (r: &BinTable) ensures *r == self.xtension { &self.xtension }
}
#[verifier::external_body]
pub fn cloned_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub open spec fn named(tt: Seq<Option<String>>, i: int, name: Seq<char>) -> bool { tt[i] is Some && tt[i]->Some_0@ == name }
pub open spec fn first_named(tt: Seq<Option<String>>, i: int, name: Seq<char>) -> bool { 0 <= i < tt.len() && named(tt, i, name) && forall|j: int| 0 <= j < i ==> !named(tt, j, name) }
pub open spec fn column(tt: Seq<Option<String>>, name: Seq<char>) -> Option<int> { if exists|i: int| first_named(tt, i, name) { Some(choose|i: int| first_named(tt, i, name)) } else { None } }
/// The place of the first value of a field in a row
pub open spec fn value_idx(c: BinTable, name: Seq<char>) -> Option<int> { match column(c.ttypes@, name) { Some(i) => Some(cells(c.tforms@, i)), None => None } }
pub open spec fn idx_is(o: Option<usize>, e: Option<int>) -> bool { match o { Some(x) => e == Some(x as int), None => e is None } }
impl BinTable {
    /// What BinTable::parse makes sure of (units sizes and zimage)
    pub open spec fn wide(&self) -> bool { self.ttypes@.len() == self.tforms@.len() && cells(self.tforms@, self.tforms@.len() as int) <= usize::MAX }
    #[verifier::external_body]
    pub fn find_field_by_ttype(&self, ttype: &str) -> (r: Option<usize>) ensures idx_is(r, column(self.ttypes@, ttype@)), r is Some ==> r->0 < self.ttypes@.len() { unimplemented!() }
}
pub open spec fn real_number(t: TFormType) -> bool { match t { TFormType::E { repeat_count } => repeat_count == 1, TFormType::D { repeat_count } => repeat_count == 1, _ => false } }
pub open spec fn integer(t: TFormType) -> bool { match t { TFormType::B { repeat_count } => repeat_count == 1, TFormType::I { repeat_count } => repeat_count == 1, TFormType::J { repeat_count } => repeat_count == 1, TFormType::K { repeat_count } => repeat_count == 1, _ => false } }
pub open spec fn float_fields(c: BinTable) -> bool {
    let (ts, tt) = (c.tforms@, c.ttypes@);
    &&& c.wide()
    &&& column(tt, "ZSCALE"@) is Some && real_number(ts[column(tt, "ZSCALE"@)->0])
    &&& column(tt, "ZZERO"@) is Some && real_number(ts[column(tt, "ZZERO"@)->0])
    &&& column(tt, "ZBLANK"@) is Some ==> integer(ts[column(tt, "ZBLANK"@)->0])
}
pub trait Keywords: Sized {
    spec fn allowed(h: Header) -> bool;
    spec fn set_up(self, h: Header, c: TileCompressedImage) -> bool;
    fn new(header: &Header, config: &TileCompressedImage) -> (r: Self) requires Self::allowed(*header) ensures r.set_up(*header, *config);
}
pub struct TableData<R> { pub reader: R, pub row_idx: usize, pub ctx: BinTable, pub start: Ghost<int>, pub heap: bool, pub ok: Ghost<bool> }
impl<R: Rd> TableData<R> {
    #[verifier::external_body]
    pub fn read_the_heap(&mut self, b: bool) ensures *final(self) == (TableData::<R> { heap: b, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn row_iter(self) -> (r: TableRowData<R>) ensures r.reader == self.reader, r.idx_row == self.row_idx, r.ctx == self.ctx, r.start == self.start, r.ok@ == (self.ok@ && !self.heap) { unimplemented!() }
}
impl<R: Rd> TableData<R> {
    #[verifier::external_body]
    pub fn new(reader: R, header: &Header, start_pos: u64) -> (r: Self) ensures r.reader == reader, r.row_idx == 0, r.ctx == header.xtension, r.start@ == start_pos, r.heap, accepted(header.xtension, start_pos as int) && reader.pos() == start_pos && holds_values(header.xtension) ==> r.ok@ { unimplemented!() }
}
pub open spec fn at_start<R, K>(i: It<R, K>, data: TableData<R>, config: TileCompressedImage) -> bool {
    &&& i.desc.remaining_pixels == 0 && i.row_it.idx_row == 0 && (data.ok@ ==> i.row_it.ok@) && i.row_it.ctx == data.ctx && i.row_it.start == data.start && i.row_it.reader == data.reader
    &&& i.z_naxis@ == config.z_naxisn@ && i.z_tile@ == config.z_tilen@ && i.z_cmp_type == config.z_cmp_type && i.data_compressed_idx == cells(data.ctx.tforms@, config.data_compressed_idx as int)
}
/// What the unit zimage shows of a description of tiles, and the unit sizes of the table
pub open spec fn described(h: Header, c: TileCompressedImage, start: int) -> bool {
    let x = h.xtension;
    &&& x.wide() && geometry(c.z_naxisn@, c.z_tilen@) && 0 <= start && start + x.naxis2 * x.naxis1 <= i64::MAX && x.naxis2 <= i64::MAX
    &&& c.data_compressed_idx < x.tforms@.len() && (x.tforms@[c.data_compressed_idx as int] is P || x.tforms@[c.data_compressed_idx as int] is Q)
    &&& match c.z_cmp_type { ZCmpType::Rice { .. } => true, ZCmpType::Gzip1 => true, ZCmpType::Gzip2 => true, _ => false }
    &&& !(c.z_bitpix is I64) && (c.z_bitpix is F32 || c.z_bitpix is F64 ==> float_fields(x))
}
/// The pixels of the type ZBITPIX announces, none read
pub open spec fn pixels_of<R: Rd>(p: Pixels<R>, h: Header, data: TableData<R>, c: TileCompressedImage) -> bool {
    match p {
        Pixels::U8(i) => c.z_bitpix is U8 && i.base() && at_start(i, data, c),
        Pixels::I16(i) => c.z_bitpix is I16 && i.base() && at_start(i, data, c),
        Pixels::I32(i) => c.z_bitpix is I32 && i.base() && at_start(i, data, c),
        Pixels::F32(i) => c.z_bitpix is F32 && i.base() && at_start(i, data, c) && i.desc.keywords.set_up(h, c),
        Pixels::F64(i) => c.z_bitpix is F64 && i.base() && at_start(i, data, c) && i.desc.keywords.set_up(h, c),
    }
}
/// The rows under the pixels
pub open spec fn rows_under<R>(p: Pixels<R>) -> TableRowData<R> { match p { Pixels::U8(i) => i.row_it, Pixels::I16(i) => i.row_it, Pixels::I32(i) => i.row_it, Pixels::F32(i) => i.row_it, Pixels::F64(i) => i.row_it } }
impl<R: Rd, K> It<R, K> {
    pub open spec fn px(&self, k: int) -> int { tile_px(self.z_naxis@, self.z_tile@, k, self.z_tile@.len() as int) }
    pub open spec fn d(&self) -> Seq<u8> { self.row_it.reader.data() }
    /// Where the tile of a row is in the stream
    pub open spec fn heap_at(&self, row: Seq<DataValue>) -> int {
        match row[self.data_compressed_idx as int] { DataValue::VariableLengthArray32 { offset_byte, .. } => offset_byte as int, DataValue::VariableLengthArray64 { offset_byte, .. } => offset_byte as int, _ => 0 }
    }
    pub open spec fn tile_at(&self, k: int) -> int { self.row_it.start@ + self.row_it.ctx.theap + self.heap_at(self.row_it.row(k)) }
    /// The bytes of a tile, decompressed
    pub open spec fn bytes(&self, at: int, n: int) -> Seq<u8> {
        match self.z_cmp_type { ZCmpType::Rice { blocksize, .. } => unrice(self.d(), at, blocksize as int, n), _ => gunzip(self.d(), at, 4 * n) }
    }
    /// The bytes of a tile are known: a Rice coded one may hold codes no coder writes
    pub open spec fn sound(&self, at: int, n: int) -> bool {
        match self.z_cmp_type { ZCmpType::Rice { blocksize, .. } => unricable(self.d(), at, blocksize as int, n), _ => true }
    }
    pub open spec fn decodes(&self, at: int, n: int) -> bool {
        match self.z_cmp_type { ZCmpType::Rice { blocksize, .. } => unrices(self.d(), at, blocksize as int, n), _ => gunzips(self.d(), at, 4 * n) }
    }
    pub open spec fn base(&self) -> bool {
        &&& self.row_it.sized() && geometry(self.z_naxis@, self.z_tile@)
        &&& self.data_compressed_idx < kinds(self.row_it.ctx).len() && (kinds(self.row_it.ctx)[self.data_compressed_idx as int] == 1 || kinds(self.row_it.ctx)[self.data_compressed_idx as int] == 2)
        &&& match self.z_cmp_type { ZCmpType::Rice { .. } => true, ZCmpType::Gzip1 => true, ZCmpType::Gzip2 => true, _ => false }
        &&& self.desc.remaining_pixels <= self.desc.n_pixels < 0x8000_0000
        &&& self.desc.remaining_pixels > 0 ==> self.buf@.len() == 4 * self.desc.n_pixels
    }
    pub open spec fn same_image(&self, o: &Self) -> bool {
        self.row_it.same_table(&o.row_it) && self.z_tile == o.z_tile && self.z_naxis == o.z_naxis && self.z_cmp_type == o.z_cmp_type && self.data_compressed_idx == o.data_compressed_idx
    }
    /// All but the reader's place and the buffer
    pub open spec fn same_desc(&self, o: &Self) -> bool { self.desc == o.desc }
    /// The integer of the pixel i
    pub open spec fn int_at(&self, i: int) -> i32 {
        let b = self.buf@; let s = b.len() as int / 4;
        match self.z_cmp_type { ZCmpType::Gzip1 => be32(b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]), ZCmpType::Gzip2 => be32(b[i], b[i + s], b[i + 2 * s], b[i + 3 * s]),
            _ => be32(b[4 * i + 3], b[4 * i + 2], b[4 * i + 1], b[4 * i]) }
    }
    pub open spec fn short_at(&self, i: int) -> i16 {
        let b = self.buf@; let s = b.len() as int / 4;
        match self.z_cmp_type { ZCmpType::Gzip1 => be16(b[4 * i + 2], b[4 * i + 3]), ZCmpType::Gzip2 => be16(b[i + 2 * s], b[i + 3 * s]), _ => be16(b[4 * i + 1], b[4 * i]) }
    }
    pub open spec fn byte_at(&self, i: int) -> u8 { let b = self.buf@; match self.z_cmp_type { ZCmpType::Rice { .. } => b[4 * i], _ => b[4 * i + 3] } }
    /// Within a tile
    pub open spec fn inside(&self, o: &Self) -> bool {
        self.row_it == o.row_it && self.buf@ == o.buf@ && self.desc.n_pixels == o.desc.n_pixels && self.desc.remaining_pixels == o.desc.remaining_pixels - 1
    }
    /// At the first pixel of the tile of the next row of o
    pub open spec fn opened(&self, o: &Self) -> bool {
        let k = o.row_it.idx_row as int;
        &&& k < o.row_it.ctx.naxis2 && self.row_it.idx_row == k + 1 && self.row_it.placed()
        &&& self.desc.n_pixels == o.px(k) && self.desc.remaining_pixels == o.px(k) - 1
        &&& o.sound(o.tile_at(k), o.px(k)) ==> self.buf@ == o.bytes(o.tile_at(k), o.px(k))
    }
    /// The tile of the next row can be decoded
    pub open spec fn openable(&self) -> bool {
        let k = self.row_it.idx_row as int;
        k < self.row_it.ctx.naxis2 && must(&self.row_it.reader, self.row_it.ctx.naxis1 as int) && self.tile_at(k) <= i64::MAX && self.decodes(self.tile_at(k), self.px(k))
    }
    /// The tile of the next row is passed over
    pub open spec fn missed(&self, o: &Self) -> bool {
        let k = o.row_it.idx_row as int;
        &&& self.desc.remaining_pixels == 0
        &&& k >= o.row_it.ctx.naxis2 ==> self.row_it == o.row_it
        &&& k < o.row_it.ctx.naxis2 && must(&o.row_it.reader, o.row_it.ctx.naxis1 as int) && o.tile_at(k) <= i64::MAX ==> self.row_it.idx_row == k + 1 && self.row_it.placed()
    }
}
'''

THEOREMS = r'''
/// The tile k is where the descriptor in the row k of the field of the tiles says: this row starts at byte k * NAXIS1 of the table
pub proof fn tile_place<R: Rd, K>(it: It<R, K>, i: int, k: int)
    requires 0 <= i < it.row_it.ctx.tforms@.len(), it.data_compressed_idx == cells(it.row_it.ctx.tforms@, i)
    ensures ({
        let (x, d, start) = (it.row_it.ctx, it.d(), it.row_it.start@);
        let at = start + k * x.naxis1 + off(x.tforms@, i);
        &&& x.tforms@[i] is P ==> it.tile_at(k) == start + x.theap + be_u32(d, at + 4)
        &&& x.tforms@[i] is Q ==> it.tile_at(k) == start + x.theap + be_u64(d, at + 8)
    })
{
    let x = it.row_it.ctx;
    assert(0 * elem(x.tforms@[i]) == 0);
    if is_array(x.tforms@[i]) { lemma_cell(x.tforms@, x.tforms@.len() as int, it.d(), it.row_it.start@ + k * x.naxis1, i, 0); }
}
/// The pixels of a Rice coded tile are the values that were coded
pub proof fn rice_tile<R: Rd, K>(it: It<R, K>, at: int, v: Seq<i32>, code: spec_fn(int) -> int)
    requires it.z_cmp_type is Rice, it.z_cmp_type->Rice_blocksize >= 1, v.len() > 0, codes(v, it.z_cmp_type->Rice_blocksize as int, code), written(it.d(), 8 * at, coded(v, it.z_cmp_type->Rice_blocksize as int, code, v.len() as int)),
        it.buf@ == it.bytes(at, v.len() as int)
    ensures it.sound(at, v.len() as int), it.decodes(at, v.len() as int), forall|i: int| 0 <= i < v.len() ==> #[trigger] it.int_at(i) == v[i], forall|i: int| 0 <= i < v.len() && 0 <= v[i] < 256 ==> #[trigger] it.byte_at(i) == v[i],
        forall|i: int| 0 <= i < v.len() && -32768 <= v[i] < 32768 ==> #[trigger] it.short_at(i) == v[i],
{
    let nb = it.z_cmp_type->Rice_blocksize as int;
    theorem_inverse(it.d(), at, v, nb, code);
    let b = it.buf@;
    assert forall|i: int| 0 <= i < v.len() implies b[4 * i] == #[trigger] ne(v[i])[0] && b[4 * i + 1] == ne(v[i])[1] && b[4 * i + 2] == ne(v[i])[2] && b[4 * i + 3] == ne(v[i])[3] by {
        assert((4 * i) / 4 == i && (4 * i + 1) / 4 == i && (4 * i + 2) / 4 == i && (4 * i + 3) / 4 == i);
    }
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] it.int_at(i) == v[i] by { assert(b[4 * i] == ne(v[i])[0]); lemma_ne(v[i]); }
    assert forall|i: int| 0 <= i < v.len() && 0 <= v[i] < 256 implies #[trigger] it.byte_at(i) == v[i] by { assert(b[4 * i] == ne(v[i])[0]); lemma_ne(v[i]); }
    assert forall|i: int| 0 <= i < v.len() && -32768 <= v[i] < 32768 implies #[trigger] it.short_at(i) == v[i] by { assert(b[4 * i] == ne(v[i])[0]); lemma_ne(v[i]); }
}
pub proof fn lemma_ne(x: i32) ensures be32(ne(x)[3], ne(x)[2], ne(x)[1], ne(x)[0]) == x, 0 <= x < 256 ==> ne(x)[0] == x, -32768 <= x < 32768 ==> be16(ne(x)[1], ne(x)[0]) == x
{ reveal(ne); let u = rc::u32_of(x) as int;
  assert(u == u % 256 + 256 * (u / 256 % 256) + 0x1_0000 * (u / 0x1_0000 % 256) + 0x100_0000 * (u / 0x100_0000 % 256)) by (nonlinear_arith) requires 0 <= u < 0x1_0000_0000; }
'''

NUM = r'''
    requires self.base()
    ensures r == self.px(n as int), 1 <= r < 0x8000_0000,'''
NUM_INV = r'''    invariant
        geometry(self.z_naxis@, self.z_tile@), 0 <= k_ <= self.z_tile@.len(), n == left(self.z_naxis@, self.z_tile@, n0 as int, k_ as int), out_ == tile_px(self.z_naxis@, self.z_tile@, n0 as int, k_ as int),
    decreases self.z_tile@.len() - k_'''
NUM_BODY = "proof { lemma_px(self.z_naxis@, self.z_tile@, n0 as int, k_ as int); lemma_px(self.z_naxis@, self.z_tile@, n0 as int, k_ + 1); lemma_extent(self.z_naxis@, self.z_tile@, n0 as int, k_ as int); }"
OFFSET = r'''
    requires self.row_it.sized()
    ensures match r {
        Some(v) => v == self.row_it.ctx.theap + byte_offset - self.row_it.idx_row * self.row_it.ctx.naxis1,
        None => self.row_it.ctx.theap + byte_offset > i64::MAX },'''
OFFSET_ENTRY = "proof { let a = self.row_it.idx_row as int; let b = self.row_it.ctx.naxis2 as int; let c = self.row_it.ctx.naxis1 as int; assert(0 <= a * c <= b * c) by (nonlinear_arith) requires 0 <= a <= b, c >= 0; }"
FIRST = r"""
    requires field_idx <= self.tforms@.len(), self.wide()
    ensures r == cells(self.tforms@, field_idx as int), r <= cells(self.tforms@, self.tforms@.len() as int),
        field_idx < self.tforms@.len() && count(self.tforms@[field_idx as int]) > 0 ==> r < kinds(*self).len() && kinds(*self)[r as int] == kind_of(self.tforms@[field_idx as int]),"""
FIRST_INV = r"""    invariant 0 <= k_ <= field_idx <= self.tforms@.len(), self.wide(), out_ == cells(self.tforms@, k_ as int),
    decreases field_idx - k_"""
FIRST_BODY = "proof { lemma_cells(self.tforms@, k_ + 1, self.tforms@.len() as int); lemma_cells(self.tforms@, k_ as int, k_ + 1); }"
SET_UP = r"""
    open spec fn allowed(h: Header) -> bool { float_fields(h.xtension) }
    open spec fn set_up(self, h: Header, c: TileCompressedImage) -> bool {
        &&& self.fits(h.xtension) && Some(self.z_scale_idx as int) == value_idx(h.xtension, "ZSCALE"@) && Some(self.z_zero_idx as int) == value_idx(h.xtension, "ZZERO"@) && idx_is(self.z_blank_idx, value_idx(h.xtension, "ZBLANK"@))
        &&& self.z_blank_idx is None ==> self.z_blank == header_int(h.values, "ZBLANK"@)
        &&& self.z_quantiz == (match c.z_quantiz { Some(q) => q, None => ZQuantiz::NoDither }) && self.z_dither_0 == (match c.z_dither_0 { Some(d) => d, None => 0 })
    }"""
NEW = r"""
    requires K::allowed(*header), header.xtension == data.ctx, data.ctx.wide(), geometry(config.z_naxisn@, config.z_tilen@), 0 <= data.start@, data.start@ + data.ctx.naxis2 * data.ctx.naxis1 <= i64::MAX, data.ctx.naxis2 <= i64::MAX, data.row_idx == 0,
        config.data_compressed_idx < data.ctx.tforms@.len(), data.ctx.tforms@[config.data_compressed_idx as int] is P || data.ctx.tforms@[config.data_compressed_idx as int] is Q,
        match config.z_cmp_type { ZCmpType::Rice { .. } => true, ZCmpType::Gzip1 => true, ZCmpType::Gzip2 => true, _ => false },
    ensures r.base(), r.desc.remaining_pixels == 0, r.row_it.idx_row == 0, data.ok@ ==> r.row_it.ok@, r.row_it.ctx == data.ctx, r.row_it.start == data.start, r.row_it.reader == data.reader, r.desc.keywords.set_up(*header, *config),
        r.z_naxis@ == config.z_naxisn@, r.z_tile@ == config.z_tilen@, r.z_cmp_type == config.z_cmp_type, r.data_compressed_idx == cells(data.ctx.tforms@, config.data_compressed_idx as int),"""
PRODUCT_INV = r"""    invariant 0 <= k_ <= z_tilen@.len(), geometry(config.z_naxisn@, z_tilen@), out_ == tprod(z_tilen@, k_ as int), out_ < 0x8000_0000,
    decreases z_tilen@.len() - k_"""
FILL = r'''
    requires old(s).base(), 1 <= num_pixels < 0x8000_0000, 0 <= old(s).row_it.reader.pos()
    ensures final(s).same_image(old(s)), final(s).same_desc(old(s)), final(s).row_it.idx_row == old(s).row_it.idx_row, final(s).row_it.ok == old(s).row_it.ok, final(s).buf@.len() == 4 * num_pixels,
        r is Ok && old(s).sound(old(s).row_it.reader.pos(), num_pixels as int) ==> final(s).buf@ == old(s).bytes(old(s).row_it.reader.pos(), num_pixels as int),
        old(s).row_it.reader.reliable() && old(s).decodes(old(s).row_it.reader.pos(), num_pixels as int) ==> r is Ok,'''
JUMP = r'''
    requires old(self).base(), 1 <= num_pixels < 0x8000_0000, pos is Current, 0 <= old(self).row_it.reader.pos()
    ensures final(self).same_image(old(self)), final(self).same_desc(old(self)), final(self).row_it.idx_row == old(self).row_it.idx_row, final(self).row_it.ok == old(self).row_it.ok,
        r is Ok ==> final(self).row_it.reader.pos() == old(self).row_it.reader.pos() && final(self).buf@.len() == 4 * num_pixels && (old(self).sound(old(self).row_it.reader.pos() + pos->Current_0, num_pixels as int) ==> final(self).buf@ == old(self).bytes(old(self).row_it.reader.pos() + pos->Current_0, num_pixels as int)),
        old(self).row_it.reader.reliable() && old(self).row_it.reader.pos() <= i64::MAX && 0 <= old(self).row_it.reader.pos() + pos->Current_0 <= i64::MAX ==>
            final(self).row_it.reader.pos() == old(self).row_it.reader.pos() && (old(self).decodes(old(self).row_it.reader.pos() + pos->Current_0, num_pixels as int) ==> r is Ok),'''
NEXT = r'''
    requires old(self).base(), old(self).row_it.placed()%(req)s
    ensures final(self).same_image(old(self)), final(self).base()%(ens)s,
        old(self).desc.remaining_pixels > 0 ==> final(self).inside(old(self)) && r == Some(%(at)s(old(self).desc.n_pixels - old(self).desc.remaining_pixels)),
        old(self).desc.remaining_pixels == 0 ==> match r { Some(v) => final(self).opened(old(self)) && v == %(at)s(0), None => final(self).missed(old(self)) && !old(self).openable() },'''

# ---- floats
UNQ_SPEC = r'''
pub open spec fn restored(k: KEYS, v: i32) -> f32 {
    let x = i2f(v);
    if k.z_blank == Some(v) { nan() } else {
        match k.quantiz {
            Quantiz::NoDither => x.mul_spec(k.scale).add_spec(k.zero),
            Quantiz::SubtractiveDither1 { i1 } => x.sub_spec(rand(i1 as int)).add_spec(0.5f32).mul_spec(k.scale).add_spec(k.zero),
            Quantiz::SubtractiveDither2 { i1 } => if v == -2147483647 { 0.0f32 } else { x.sub_spec(rand(i1 as int)).add_spec(0.5f32).mul_spec(k.scale).add_spec(k.zero) },
        }
    }
}
impl KEYS {
    /// The keywords but the state of the dithering
    pub open spec fn same(&self, o: &Self) -> bool {
        self.z_scale_idx == o.z_scale_idx && self.z_zero_idx == o.z_zero_idx && self.z_blank_idx == o.z_blank_idx && self.z_dither_0 == o.z_dither_0 && self.z_quantiz == o.z_quantiz
    }
    pub open spec fn in_tile(&self, o: &Self) -> bool { self.same(o) && self.scale == o.scale && self.zero == o.zero && self.z_blank == o.z_blank }
    pub open spec fn fits(&self, c: BinTable) -> bool {
        &&& self.z_scale_idx < kinds(c).len() && (kinds(c)[self.z_scale_idx as int] == 3 || kinds(c)[self.z_scale_idx as int] == 4)
        &&& self.z_zero_idx < kinds(c).len() && (kinds(c)[self.z_zero_idx as int] == 3 || kinds(c)[self.z_zero_idx as int] == 4)
        &&& self.z_blank_idx is Some ==> self.z_blank_idx->0 < kinds(c).len() && 5 <= kinds(c)[self.z_blank_idx->0 as int] <= 8
        &&& rank(self.quantiz) < 10000
    }
    /// The values of the row of a tile
    pub open spec fn of_row(&self, row: Seq<DataValue>, k: int, blank: Option<i32>) -> bool {
        &&& self.scale == float_of(row[self.z_scale_idx as int]) && self.zero == float_of(row[self.z_zero_idx as int])
        &&& self.z_blank == (if self.z_blank_idx is Some { Some(int_of(row[self.z_blank_idx->0 as int])) } else { blank })
        &&& self.quantiz == first(self.z_quantiz, self.z_dither_0, k)
    }
}
'''
FLOATS = r'''
pub open spec fn rank(q: Quantiz) -> int { match q { Quantiz::NoDither => 0, Quantiz::SubtractiveDither1 { i1 } => i1 as int, Quantiz::SubtractiveDither2 { i1 } => i1 as int } }
pub open spec fn stepped(q: Quantiz) -> Quantiz {
    match q {
        Quantiz::NoDither => q,
        Quantiz::SubtractiveDither1 { i1 } => Quantiz::SubtractiveDither1 { i1: ((i1 + 1) % 10000) as usize },
        Quantiz::SubtractiveDither2 { i1 } => Quantiz::SubtractiveDither2 { i1: ((i1 + 1) % 10000) as usize },
    }
}
/// The dithering at the first pixel of the tile k
pub open spec fn first(z: ZQuantiz, seed: i64, k: int) -> Quantiz {
    let i1 = rand_int((k + seed as int % 10000 + 9999) % 10000);
    match z { ZQuantiz::NoDither => Quantiz::NoDither, ZQuantiz::SubtractiveDither1 => Quantiz::SubtractiveDither1 { i1 }, ZQuantiz::SubtractiveDither2 => Quantiz::SubtractiveDither2 { i1 } }
}
pub open spec fn float_of(v: DataValue) -> f32 { match v { DataValue::Float { value, .. } => value, DataValue::Double { value, .. } => d2f(value), _ => 0.0f32 } }
pub open spec fn int_of(v: DataValue) -> i32 {
    match v { DataValue::UnsignedByte { value, .. } => value as i32, DataValue::Short { value, .. } => value as i32, DataValue::Integer { value, .. } => value, DataValue::Long { value, .. } => value as i32, _ => 0 }
}
/// The random values follow the pixels
pub open spec fn steps(q: Quantiz, n: int) -> Quantiz decreases n { if n <= 0 { q } else { stepped(steps(q, n - 1)) } }
pub proof fn lemma_steps(q: Quantiz, n: int) requires 0 <= n, rank(q) < 10000 ensures !(q is NoDither) ==> rank(steps(q, n)) == (rank(q) + n) % 10000, steps(q, n) is SubtractiveDither1 == q is SubtractiveDither1, steps(q, n) is SubtractiveDither2 == q is SubtractiveDither2 decreases n
{ if n > 0 { lemma_steps(q, n - 1); } }
'''
UNQ = r'''
    requires rank(old(self).quantiz) < 10000
    ensures r == restored(*old(self), value), final(self).in_tile(old(self)), final(self).quantiz == stepped(old(self).quantiz),'''
NEXT_F = r'''
    requires old(self).base(), old(self).row_it.placed(), old(self).desc.keywords.fits(old(self).row_it.ctx)
    ensures final(self).same_image(old(self)), final(self).base(), final(self).desc.keywords.fits(old(self).row_it.ctx), final(self).desc.keywords.same(&old(self).desc.keywords),
        old(self).desc.remaining_pixels > 0 ==> final(self).inside(old(self)) && final(self).desc.keywords.in_tile(&old(self).desc.keywords) && final(self).desc.keywords.quantiz == stepped(old(self).desc.keywords.quantiz)
            && r == Some(restored(old(self).desc.keywords, old(self).int_at(old(self).desc.n_pixels - old(self).desc.remaining_pixels))),
        old(self).desc.remaining_pixels == 0 ==> match r {
            Some(v) => final(self).opened(old(self)) && exists|kw: KEYS| #[trigger] kw.of_row(old(self).row_it.row(old(self).row_it.idx_row as int), old(self).row_it.idx_row as int, old(self).desc.keywords.z_blank)
                && final(self).desc.keywords.in_tile(&kw) && final(self).desc.keywords.quantiz == stepped(kw.quantiz) && v == restored(kw, final(self).int_at(0)),
            None => final(self).missed(old(self)) && !old(self).openable() },'''


def edits(b):
    b = sub_code(b, r"\bstd\s*::\s*mem\s*::\s*size_of\s*::\s*<\s*u32\s*>\s*\(\s*\)", "4")
    b = sub_code(b, r"i32\s*::\s*from_(be|ne)_bytes\s*\(", r"from_\1_bytes_(")
    while True:
        m = next(find_code(b, r"\b(?:unreachable|panic)!\s*\("), None)
        if not m:
            return b
        b = b[:m.start()] + "unreached()" + b[match_close(b, m.end() - 1) + 1:]


def num(u):
    def edit(h, b):
        b = desugar_chain(b, u.notes)
        b = sub_code(b, r"\.\s*min\s*\(", ".min_(")
        b = sub_code(b, r"let\s+mut\s+n\s*=\s*n\s+as\s+u64\s*;", "let ghost n0 = n; let mut n: u64 = n as u64; proof { lemma_px(self.z_naxis@, self.z_tile@, n0 as int, self.z_tile@.len() as int); }", 1, "number of the tile")
        b = sub_code(b, r"let mut out_ = 1;", "let mut out_: u64 = 1;")
        return h, b
    return edit


def next_parts(u, K):
    """The body of `next` and the closure given to jump_to_location in it"""
    h, b = u.src(P).fn("next", r"Iterator for It<R, %sKeywords>" % K)
    b = edits(b)
    m = next(find_code(b, r"jump_to_location\s*\("), None)
    if not m:
        raise Lost("jump_to_location")
    o = m.end() - 1
    c = match_close(b, o)
    mm = re.match(r"\s*(?:move\s*)?\|\s*s\s*\|\s*\{", b[o + 1:c])
    if not mm:
        raise Lost("the closure of jump_to_location")
    s = o + 1 + mm.end() - 1
    e = match_close(b, s)
    fill = b[s:e + 1]
    b = b[:m.start()] + "jump_to_location_%s(num_pixels, " % K.lower() + b[e + 1:].lstrip().lstrip(",")
    fill = sub_code(fill, r"let\s+mut\s+(\w+)\s*=\s*GzDecoder\s*::\s*new\s*\(\s*(\w+)\s*\)\s*;\s*\1\s*\.\s*read_exact\s*\(\s*&mut\s+(\w+)\s*\[\s*\.\.\s*\]\s*\)", r"gunzip_exact(\2, \3)", 1, "gunzip")
    fill = sub_code(fill, r"let\s+mut\s+(\w+)\s*=\s*RICEDecoder\s*::\s*<\s*_\s*,\s*i32\s*>\s*::\s*new\s*\(([^;]*?),?\s*\)\s*;\s*\1\s*\.\s*read_exact\s*\(\s*&mut\s+(\w+)\s*\[\s*\.\.\s*\]\s*\)", r"unrice_exact(\2, \3)", 1, "unrice")
    b = sub_code(b, r"let\s+idx\s*=\s*\(self\s*\.\s*desc", "proof { assert(self.base()); }\n        let idx = (self.desc", 1, "index of the pixel")
    if K[0] == "F":
        b = floats(b)
        b = sub_code(b, r"proof \{ assert\(self\.base\(\)\); \}",
                     "let ghost kw_ = self.desc.keywords; proof { assert(self.base()); if old(self).desc.remaining_pixels == 0 { assert(kw_.of_row(old(self).row_it.row(old(self).row_it.idx_row as int), old(self).row_it.idx_row as int, old(self).desc.keywords.z_blank)); } }")
    return b, fill


def floats(b):
    b = sub_code(b, r"\(\s*RAND_VALUES\s*\[\s*(\w+)\s*\]\s*\*\s*500\.0\s*\)\s*\.\s*floor\s*\(\s*\)\s*as\s+usize", r"rand_start(\1)")
    b = sub_code(b, r"RAND_VALUES\s*\[\s*([^\[\]]+)\]", r"rand_(\1)")
    b = sub_code(b, r"\.\s*rem_euclid\s*\(", ".rem_euclid_(")
    b = sub_code(b, r"\bf32\s*::\s*NAN\b", "nan_()")
    return sub_code(b, r"\b(\w+)\s+as\s+f32\b", r"\1.to_f32_()")


def unq(u):
    def edit(h, b):
        b = floats(b)
        # an alternative that binds by mutable reference
        m = next(find_code(b, r"if\s+let\s+(Quantiz\s*::\s*\w+\s*\{\s*\w+\s*\})\s*\|\s*(Quantiz\s*::\s*\w+\s*\{\s*\w+\s*\})\s*=\s*(&mut\s+[\w.]+)\s*\{"), None)
        if m:
            e = match_close(b, m.end() - 1) + 1
            body = b[m.end() - 1:e]
            b = b[:m.start()] + "match %s { %s => %s %s => %s _ => {} }" % (m.group(3), m.group(1), body, m.group(2), body) + b[e:]
            u.notes.add("an or-pattern with bindings by mutable reference is written as one arm per alternative")
        return h, b
    return edit


def first_idx(u):
    def edit(h, b):
        b = desugar_chain(b, u.notes)
        return h, sub_code(b, r"let mut out_ = 0;", "let mut out_: usize = 0;")
    return edit


def clones(b):
    return sub_code(b, r"\b(z_\w+)\s*\.\s*clone\s*\(\s*\)", r"cloned_(\1)")


def it_new(u):
    def edit(h, b):
        b = desugar_chain(edits(clones(b)), u.notes)
        b = sub_code(b, r"let mut out_ = 1;", "let mut out_: usize = 1; proof { lemma_tprod(z_tilen@, 0, z_tilen@.len() as int, config.z_naxisn@); }")
        return h, b
    return edit


def offset(h, b):
    return h, sub_code(b, r"i64\s*::\s*try_from\s*\(", "i64_try_from(")


def jump(u, K):
    def edit(h, b):
        b = sub_code(b, r"\bf\s*\(\s*self\s*\)", "tile_fill_%s(self, num_pixels)" % K.lower(), 1, "the call of the closure")
        return "fn jump_to_location_%s(&mut self, num_pixels: u64, pos: SeekFrom) -> Result<(), Error>" % K.lower(), b
    return edit


def build(mdir, probe=False):
    u = Unit("tiles", mdir)
    u.probe = probe
    u.add(ERRORS + READER + DIV_CEIL)
    u.trust(TRUST_READER)
    u.trust(TRUST_DIV_CEIL)
    u.item(M, r"pub enum DataValue")
    u.item(M, r"pub enum ColumnId")
    u.item(H, r"pub\(crate\) enum ZCmpType", derive="Clone, Copy")
    u.item(H, r"pub\(crate\) enum ZQuantiz")
    u.item(H, r"pub\(crate\) enum TFormType")
    u.item(H, r"pub\(crate\) enum VariableArrayTy", derive="Clone, Copy")
    u.item("src/hdu/header/mod.rs", r"pub enum Bitpix", derive="Clone, Copy, PartialEq, Eq, Structural")
    u.item(H, r"pub struct TileCompressedImage\b", edit=boxes)
    u.item(T, r"enum Quantiz")
    u.item(T, r"struct TileDesc")
    vecs = lambda t: re.sub(r"Box<\[(\w+)\]>", r"Vec<\1>", re.sub(r"(?m)^(\s*)(?!pub\b)(\w+\s*:)", r"\1pub \2", re.sub(r"\s*where\s+K:\s*Keywords,", "", t)))
    for K in ("U8", "I16", "I32", "F32", "F64"):
        u.item(T, r"pub struct %sKeywords" % K, edit=vecs)
    u.item(P, r"pub struct It<", edit=vecs)
    u.item(P, r"pub enum Pixels<")
    u.item(D, r"pub enum BinaryTableData<")
    local = lambda t: t.replace("START", "self.start@").replace("CORE", "self.ok@")
    u.add(SPEC.replace("RICESPEC", RICE_SPEC).replace("UNRICE", UNRICE.replace("NBLOCK", "nblock").replace("NX", "nx").replace("BEFORE", "old(reader)").replace("AFTER", "final(reader)").replace("&old(reader)", "old(reader)").replace("&final(reader)", "final(reader)")).replace("INVERSE", INVERSE).replace("ROWSPECS", local(TILE_ROW_SPEC)).replace("ROWCONTRACT", local(TILE_ROW)))
    u.add(CELLS)
    u.add(THEOREMS)
    u.add(FLOATS)
    for K in ("F32", "F64"):
        u.add(UNQ_SPEC.replace("KEYS", K + "Keywords").replace("restored(", "restored_%s(" % K.lower()))
    u.add("impl BinTable {")
    u.fn(H, "first_value_idx", FIRST, r"impl BinTable", edit=first_idx(u), invs=[(FIRST_INV, FIRST_BODY, "", "")], entry="proof { lemma_cells(self.tforms@, field_idx as int, self.tforms@.len() as int); }")
    u.add("}")
    for K in ("U8", "I16", "I32"):
        u.add("impl Keywords for %sKeywords {\n    open spec fn allowed(h: Header) -> bool { true }\n    open spec fn set_up(self, h: Header, c: TileCompressedImage) -> bool { true }" % K)
        u.fn(T, "new", "", r"Keywords for %sKeywords$" % K, edit=lambda h, b: (h, sub_code(b, r"\.\s*get_parsed\s*::\s*<\s*Self\s*::\s*T\s*>\s*\(", ".get_parsed_::<%s>(" % K.lower())), head="fn new(header: &Header, config: &TileCompressedImage) -> Self", rename="new")
        u.add("}")
    for K in ("F32", "F64"):
        u.add("impl Keywords for %sKeywords {%s" % (K, SET_UP))
        u.fn(T, "new", "", r"Keywords for %sKeywords$" % K, edit=lambda h, b: (h, clones(b)), head="fn new(header: &Header, config: &TileCompressedImage) -> Self", entry='proof { reveal_strlit("ZSCALE"); }', rename="new")
        u.add("}")
    u.add("impl<K: Keywords> TileDesc<K> {")
    u.fn(T, "new", "    requires K::allowed(*header) ensures r.keywords.set_up(*header, *config), r.n_pixels == 0, r.remaining_pixels == 0,", r"impl<K> TileDesc<K>", head="fn new(header: &Header, config: &TileCompressedImage) -> Self")
    u.add("}\nimpl<R: Rd, K: Keywords> It<R, K> {")
    u.fn(P, "new", NEW, r"impl<R, K> It<R, K>", edit=it_new(u), head="pub fn new(header: &Header, mut data: TableData<R>, config: &TileCompressedImage) -> Self",
         invs=[(PRODUCT_INV, "proof { lemma_tprod(z_tilen@, k_ + 1, z_tilen@.len() as int, config.z_naxisn@); }", "", "")])
    u.add("}\nimpl<R: Rd> Pixels<R> {")
    u.fn(P, "new", "    requires described(*header, *config, data.start@), data.ctx == header.xtension, data.row_idx == 0 ensures pixels_of(r, *header, data, *config),", r"impl<R> Pixels<R>", edit=lambda h, b: (h, edits(b)),
         head="pub fn new(data: TableData<R>, header: &Header, config: &TileCompressedImage) -> Self")
    u.add("}\nimpl<R: Rd> BinaryTableData<R> {")
    u.fn(D, "new", r"""    requires header.xtension.z_image is Some ==> described(*header, header.xtension.z_image->0, start_pos as int)
    ensures match (header.xtension.z_image, r) {
        (Some(c), BinaryTableData::TileCompressed(p)) => exists|t: TableData<R>| #[trigger] pixels_of(p, *header, t, c) && t.reader == reader && t.ctx == header.xtension && t.start@ == start_pos
            && (accepted(header.xtension, start_pos as int) && reader.pos() == start_pos ==> rows_under(p).placed()),
        (None, BinaryTableData::Table(t)) => t.reader == reader && t.ctx == header.xtension && t.start@ == start_pos && t.row_idx == 0 && t.heap,
        _ => false },""", r"impl<R> BinaryTableData<R>", head="pub fn new(reader: R, header: &Header, start_pos: u64) -> Self")
    u.fn(D, "table_data", """    ensures match self { BinaryTableData::Table(t) => r == t, BinaryTableData::TileCompressed(p) => r.reader == rows_under(p).reader && r.row_idx == rows_under(p).idx_row && r.ctx == rows_under(p).ctx && r.start == rows_under(p).start && !r.heap },""",
         r"impl<R> BinaryTableData<R>")
    u.fn(D, "row_iter", """    ensures match self { BinaryTableData::TileCompressed(p) => r == rows_under(p), BinaryTableData::Table(t) => r.reader == t.reader && r.idx_row == t.row_idx && r.ctx == t.ctx && r.start == t.start },""", r"impl<R> BinaryTableData<R>")
    u.add("}\nimpl<R: Rd, K> It<R, K> {")
    u.fn(P, "num_pixels_in_tile", NUM, r"impl<R, K> It<R, K>", edit=num(u), attrs="", invs=[(NUM_INV, NUM_BODY, "", "")])
    u.fn(P, "tile_offset", OFFSET, r"impl<R, K> It<R, K>", edit=offset, entry=OFFSET_ENTRY)
    u.fn(P, "get_reader", "    ensures *r == old(self).row_it.reader, final(self).row_it.reader == *final(r), final(self).row_it.idx_row == old(self).row_it.idx_row, final(self).row_it.ctx == old(self).row_it.ctx, final(self).row_it.start == old(self).row_it.start, final(self).row_it.ok == old(self).row_it.ok,\n        final(self).buf == old(self).buf, final(self).desc == old(self).desc, final(self).z_tile == old(self).z_tile, final(self).z_naxis == old(self).z_naxis, final(self).z_cmp_type == old(self).z_cmp_type, final(self).data_compressed_idx == old(self).data_compressed_idx,", r"impl<R, K> It<R, K>")
    u.add("}")
    for K in ("F32", "F64"):
        u.add("impl %sKeywords {" % K)
        u.fn(T, "unquantize", UNQ.replace("restored(", "restored_%s(" % K.lower()), r"impl %sKeywords$" % K, edit=unq(u), entry="broadcast use {f_add, f_sub, f_mul}; proof { f_obeys(); }", rename="unquantize")
        u.add("}")
    for K, item, at in (("U8", "u8", "byte_at"), ("I16", "i16", "short_at"), ("I32", "i32", "int_at"), ("F32", "f32", ""), ("F64", "f32", "")):
        k = K.lower()
        b, fill = next_parts(u, K)
        u.text_fn("tile_fill_" + k, "pub fn tile_fill_%s<R: Rd>(s: &mut It<R, %sKeywords>, num_pixels: u64) -> (r: Result<(), Error>)" % (k, K), fill, FILL, "%s: the closure of It<R, %sKeywords>::next" % (P, K))
        u.add("impl<R: Rd> It<R, %sKeywords> {" % K)
        u.fn(P, "jump_to_location", JUMP, r"impl<R, K> It<R, K>", edit=jump(u, K), rename="jump_to_location_" + k)
        contract = NEXT_F.replace("KEYS", K + "Keywords").replace("restored(", "restored_%s(" % k) if K[0] == "F" else NEXT % {"req": "", "ens": "", "at": "final(self)." + at}
        u.text_fn("next_" + k, "#[verifier::truncate]\npub fn next_" + k + "(&mut self) -> (r: Option<%s>)" % item, b, contract, "%s: Iterator for It<R, %sKeywords> :: next" % (P, K), entry="broadcast use {or16, or32};\nproof { let t = self.row_it; lemma_shaped(t.ctx.tforms@, t.ctx.tforms@.len() as int, t.reader.data(), t.start@ + t.idx_row as int * t.ctx.naxis1); lemma_row(t.idx_row as int, t.ctx.naxis2, t.ctx.naxis1); if t.idx_row < t.ctx.naxis2 { lemma_row(t.idx_row + 1, t.ctx.naxis2, t.ctx.naxis1); } }")
        u.add("}")
    return u
