"""The Rice decoder: RICEDecoder::read on 32-bit integers (C14)."""
import re

from common import ERRORS, READER, TRUST_READER
from extract import Lost, sub_code, find_code, match_close
from unit import Unit

RC = "src/hdu/data/bintable/tile_compressed/rice.rs"

# The specification of the coding, for this unit and for those that use its contract
RICE_SPEC = r"""
// ---- a stream of bits
pub open spec fn bit(d: Seq<u8>, p: int) -> nat { if 0 <= p < 8 * d.len() { ((d[p / 8] / (pow2((7 - p % 8) as nat) as u8)) % 2) as nat } else { 0 } }
/// The number the n bits from p on stand for
pub open spec fn val(d: Seq<u8>, p: int, n: int) -> nat decreases n { if n <= 0 { 0 } else { 2 * val(d, p, n - 1) + bit(d, p + n - 1) } }
/// How many zero bits from p on
pub open spec fn zeros(d: Seq<u8>, p: int) -> int decreases 8 * d.len() - p { if p >= 8 * d.len() || bit(d, p) == 1 { 0 } else { 1 + zeros(d, p + 1) } }

// ---- the Rice coding of 32-bit integers (FITS 4.0, 10.4.1): the decoder of the standard
pub struct R3 { pub p: int, pub last: i32, pub fs: int }
pub open spec fn wrap(x: int) -> i32 { ((x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000) as i32 }
pub open spec fn unmap(m: nat) -> int { if m % 2 == 0 { (m / 2) as int } else { -(m / 2) - 1 } }
/// At the start of a block: its 5-bit code
pub open spec fn head(d: Seq<u8>, nb: int, s: R3, i: int) -> R3 { if i % nb == 0 { R3 { p: s.p + 5, last: s.last, fs: val(d, s.p, 5) - 1 } } else { s } }
/// The difference of a pixel as it is coded
pub open spec fn mapped(d: Seq<u8>, s: R3) -> nat {
    if s.fs < 0 { 0 } else if s.fs == 25 { val(d, s.p, 32) } else { zeros(d, s.p) as nat * pow2(s.fs as nat) + val(d, s.p + zeros(d, s.p) + 1, s.fs) }
}
pub open spec fn after(d: Seq<u8>, s: R3) -> int { if s.fs < 0 { s.p } else if s.fs == 25 { s.p + 32 } else { s.p + zeros(d, s.p) + 1 + s.fs } }
pub open spec fn one(d: Seq<u8>, s: R3) -> R3 { R3 { p: after(d, s), last: wrap(s.last + unmap(mapped(d, s))), fs: s.fs } }
/// After n pixels; the last one is `last`
pub open spec fn run(d: Seq<u8>, p0: int, nb: int, n: int) -> R3 decreases n {
    if n <= 0 { R3 { p: p0 + 32, last: wrap(val(d, p0, 32) as int), fs: 0 } } else { one(d, head(d, nb, run(d, p0, nb, n - 1), n - 1)) }
}
/// What a coder writes: codes up to 25, differences of 32 bits
#[verifier::opaque]
pub open spec fn lim(d: Seq<u8>, p0: int, nb: int, nx: int) -> bool {
    forall|i: int| 0 <= i < nx ==> { let s = head(d, nb, #[trigger] run(d, p0, nb, i), i); &&& (s.p <= 8 * d.len() ==> s.fs <= 25) &&& (after(d, s) <= 8 * d.len() ==> mapped(d, s) < 0x1_0000_0000) }
}
/// The stream holds all the pixels
pub open spec fn enough(d: Seq<u8>, p0: int, nb: int, nx: int) -> bool { run(d, p0, nb, nx).p <= 8 * d.len() }

// ---- the coder of the standard, with any choice of a code for each block
pub open spec fn bits_of(v: nat, n: int) -> Seq<bool> decreases n { if n <= 0 { Seq::empty() } else { bits_of(v / 2, n - 1).push(v % 2 == 1) } }
pub open spec fn unary(z: nat) -> Seq<bool> { Seq::new(z, |i: int| false).push(true) }
pub open spec fn map(x: int) -> nat { if x < 0 { (-2 * x - 1) as nat } else { (2 * x) as nat } }
pub open spec fn pixel_bits(fs: int, m: nat) -> Seq<bool> { if fs < 0 { Seq::empty() } else if fs == 25 { bits_of(m, 32) } else { unary(m / pow2(fs as nat)) + bits_of(m % pow2(fs as nat), fs) } }
pub open spec fn u32_of(x: i32) -> nat { if x < 0 { (x + 0x1_0000_0000) as nat } else { x as nat } }
pub open spec fn prev(v: Seq<i32>, i: int) -> i32 { if i <= 0 { v[0] } else { v[i - 1] } }
pub open spec fn diff(v: Seq<i32>, i: int) -> i32 { wrap(v[i] - prev(v, i)) }
pub open spec fn block_of(i: int, nb: int) -> int { i - i % nb }
pub open spec fn block_bits(i: int, nb: int, code: spec_fn(int) -> int) -> Seq<bool> { if i % nb == 0 { bits_of((code(block_of(i, nb)) + 1) as nat, 5) } else { Seq::empty() } }
/// The first n pixels, coded
pub open spec fn coded(v: Seq<i32>, nb: int, code: spec_fn(int) -> int, n: int) -> Seq<bool> decreases n {
    if n <= 0 { bits_of(u32_of(v[0]), 32) } else { coded(v, nb, code, n - 1) + block_bits(n - 1, nb, code) + pixel_bits(code(block_of(n - 1, nb)), map(diff(v, n - 1) as int)) }
}
/// A code for each block: -1 only where all pixels are equal, 25 at most
pub open spec fn codes(v: Seq<i32>, nb: int, code: spec_fn(int) -> int) -> bool { forall|i: int| 0 <= i < v.len() ==> -1 <= code(#[trigger] block_of(i, nb)) <= 25 && (code(block_of(i, nb)) < 0 ==> diff(v, i) == 0) }
pub open spec fn written(d: Seq<u8>, p: int, e: Seq<bool>) -> bool { 0 <= p && p + e.len() <= 8 * d.len() && forall|q: int| 0 <= q < e.len() ==> (bit(d, p + q) == 1) == #[trigger] e[q] }

/// The bytes of an i32 in memory (of a little endian machine)
#[verifier::opaque]
pub open spec fn ne(x: i32) -> Seq<u8> { let u = u32_of(x); seq![(u % 256) as u8, (u / 256 % 256) as u8, (u / 0x1_0000 % 256) as u8, (u / 0x100_0000 % 256) as u8] }
/// The bytes of the pixels of a stream from the byte `at` on
pub open spec fn unrice(d: Seq<u8>, at: int, nblock: int, nx: int) -> Seq<u8> { Seq::new((4 * nx) as nat, |q: int| ne(run(d, 8 * at, nblock, q / 4 + 1).last)[q % 4]) }
/// Such a stream holds codes a coder may write, and all the pixels
pub open spec fn unricable(d: Seq<u8>, at: int, nblock: int, nx: int) -> bool { nblock >= 1 && lim(d, 8 * at, nblock, nx) }
pub open spec fn unrices(d: Seq<u8>, at: int, nblock: int, nx: int) -> bool { nblock >= 1 && lim(d, 8 * at, nblock, nx) && enough(d, 8 * at, nblock, nx) }
"""
# The contract of decoding a tile: proved here of `RICEDecoder::new` and `read_exact`, and used by the unit tiles
UNRICE = r"""    requires NBLOCK >= 0, NX >= 1, old(buf)@.len() == 4 * NX, 0 <= BEFORE.pos()
    ensures kept(&BEFORE, &AFTER), final(buf)@.len() == old(buf)@.len(),
        r is Ok && unricable(BEFORE.data(), BEFORE.pos(), NBLOCK as int, NX as int) ==> final(buf)@ == unrice(BEFORE.data(), BEFORE.pos(), NBLOCK as int, NX as int),
        BEFORE.reliable() && unrices(BEFORE.data(), BEFORE.pos(), NBLOCK as int, NX as int) ==> r is Ok,"""
# The theorem C14 states of it
INVERSE = r"""    requires nb > 0, v.len() > 0, codes(v, nb, code), written(d, 8 * at, coded(v, nb, code, v.len() as int))
    ensures unricable(d, at, nb, v.len() as int), unrices(d, at, nb, v.len() as int), unrice(d, at, nb, v.len() as int) == Seq::new((4 * v.len()) as nat, |q: int| ne(v[q / 4])[q % 4])"""

BITS = r'''
use vstd::arithmetic::power2::*;
use vstd::bits::*;
// ---- the operations on bits, as arithmetic
pub broadcast proof fn b_shr(a: u32, n: i32) requires 0 <= n < 32 ensures #[trigger] (a >> n) == (a as nat) / pow2(n as nat)
    { lemma_u32_shr_is_div(a, n as u32); }
pub broadcast proof fn b_shl(a: u32, n: i32) requires 0 <= n < 32, a * pow2(n as nat) <= u32::MAX ensures #[trigger] (a << n) == a * pow2(n as nat)
    { lemma_u32_shl_is_mul(a, n as u32); }
pub broadcast proof fn b_shl64(a: u64, n: i32) requires 0 <= n < 64, a * pow2(n as nat) <= u64::MAX ensures #[trigger] (a << n) == a * pow2(n as nat)
    { lemma_u64_shl_is_mul(a, n as u64); }
pub broadcast proof fn b_one(n: i32) requires 0 <= n < 32 ensures #[trigger] (1u32 << n) == pow2(n as nat)
    { lemma_pow2_strictly_increases_(n as nat); lemma_u32_shl_is_mul(1, n as u32); }
pub broadcast proof fn b_mask(a: u32, m: u32) ensures forall|n: nat| n < 32 && m + 1 == #[trigger] pow2(n) ==> #[trigger] (a & m) == a as nat % pow2(n), (a & m) <= a, (a & m) <= m
{
    assert forall|n: nat| n < 32 && m + 1 == #[trigger] pow2(n) implies (a & m) == a as nat % pow2(n) by { lemma_u32_low_bits_mask_is_mod(a, n); lemma_low_bits_mask_(n); assert(low_bits_mask(n) as u32 == m); lemma_pow2_strictly_increases_(n); assert(pow2(n) as u32 == pow2(n)); assert((a & m) == a % (pow2(n) as u32)); }
    assert((a & m) <= a && (a & m) <= m) by (bit_vector);
}
pub broadcast proof fn b_odd(a: u32) ensures #[trigger] (a & 1) == a % 2 { assert((a & 1) == a % 2) by (bit_vector); }
pub broadcast proof fn b_not(a: u32) ensures #[trigger] (!a) == 0xffff_ffff - a { assert(!a == sub(0xffff_ffffu32, a)) by (bit_vector); }
pub broadcast proof fn b_cast(a: u32) ensures #[trigger] (a as i32) == (if a < 0x8000_0000 { a as int } else { a - 0x1_0000_0000 })
{
    assert(a < 0x8000_0000 ==> (a as i32) as i64 == a as i64) by (bit_vector);
    assert(a >= 0x8000_0000 ==> (a as i32) as i64 == sub(a as i64, 0x1_0000_0000i64)) by (bit_vector);
}
pub broadcast proof fn b_xor(a: u32, m: u32) ensures forall|n: nat| n < 31 && m == #[trigger] pow2(n) && m <= a < 2 * m ==> #[trigger] (a ^ m) == a - m
{
    assert forall|n: nat| n < 31 && m == #[trigger] pow2(n) && m <= a < 2 * m implies (a ^ m) == a - m by {
        let k = n as u32; lemma_pow2_strictly_increases_(n); lemma_u32_shl_is_mul(1, k);
        assert(m == 1u32 << k);
        assert(k < 31 && m == 1u32 << k && m <= a && (a as u64) < mul(2u64, m as u64) ==> (a ^ m) as u64 == sub(a as u64, m as u64)) by (bit_vector);
    }
}
pub broadcast proof fn b_or(a: u32, b: u32) ensures forall|n: nat| n <= 32 && a as nat % #[trigger] pow2(n) == 0 && b < pow2(n) ==> #[trigger] (a | b) == a + b
{
    assert forall|n: nat| n <= 32 && a as nat % #[trigger] pow2(n) == 0 && b < pow2(n) implies (a | b) == a + b by {
        lemma_p32();
        if n == 32 { assert(a == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, pow2(32)); } assert((0u32 | b) == b) by (bit_vector); }
        else {
            let k = n as u32; lemma_pow2_strictly_increases_(n); lemma_u32_shl_is_mul(1, k);
            let m = 1u32 << k;
            assert(m == pow2(n)); assert(a % m == 0);
            assert(k < 32 && m == 1u32 << k && a % m == 0 && b < m ==> (a | b) as u64 == add(a as u64, b as u64)) by (bit_vector);
        }
    }
}
pub proof fn lemma_p32() ensures pow2(0) == 1, pow2(1) == 2, pow2(2) == 4, pow2(3) == 8, pow2(4) == 16, pow2(5) == 32, pow2(6) == 64, pow2(7) == 128, pow2(8) == 256, pow2(32) == 0x1_0000_0000, pow2(31) == 0x8000_0000 { lemma2_to64(); }
pub proof fn lemma_pow2_strictly_increases_(n: nat) requires n < 32 ensures 1 <= pow2(n) <= 0x8000_0000, pow2(n) * 2 <= 0x1_0000_0000
    { lemma2_to64(); lemma_pow2_pos(n); if n < 31 { lemma_pow2_strictly_increases(n, 31); } }
pub proof fn lemma_low_bits_mask_(n: nat) ensures low_bits_mask(n) == pow2(n) - 1 { reveal(low_bits_mask); lemma_pow2_pos(n); }

pub proof fn lemma_bound(d: Seq<u8>, p: int, n: int) requires 0 <= n ensures val(d, p, n) < pow2(n as nat) decreases n
    { lemma_p32(); if n > 0 { lemma_bound(d, p, n - 1); lemma_pow2_unfold(n as nat); } }
pub proof fn lemma_split(d: Seq<u8>, p: int, a: int, b: int) requires 0 <= a, 0 <= b ensures val(d, p, a + b) == val(d, p, a) * pow2(b as nat) + val(d, p + a, b) decreases b
{
    lemma_p32();
    if b > 0 { lemma_split(d, p, a, b - 1); lemma_pow2_unfold(b as nat); let v = val(d, p, a); let w = pow2((b - 1) as nat); assert(2 * (v * w) == v * (2 * w)) by (nonlinear_arith);
        assert(p + (a + b) - 1 == p + a + b - 1); }
    else { assert(val(d, p, a) * 1 == val(d, p, a)); }
}
pub proof fn lemma_byte(d: Seq<u8>, q: int) requires 0 <= q < d.len() ensures val(d, 8 * q, 8) == d[q]
{
    lemma_p32();
    let x = d[q];
    lemma_one_more(d, q, 0); lemma_one_more(d, q, 1); lemma_one_more(d, q, 2); lemma_one_more(d, q, 3); lemma_one_more(d, q, 4); lemma_one_more(d, q, 5); lemma_one_more(d, q, 6); lemma_one_more(d, q, 7);
    assert(val(d, 8 * q, 0) == 0);
    assert(val(d, 8 * q, 1) == x / 128); assert(val(d, 8 * q, 2) == x / 64); assert(val(d, 8 * q, 3) == x / 32); assert(val(d, 8 * q, 4) == x / 16);
    assert(val(d, 8 * q, 5) == x / 8); assert(val(d, 8 * q, 6) == x / 4); assert(val(d, 8 * q, 7) == x / 2);
    assert(pow2((7 - 7) as nat) as u8 == 1); assert(x / 1u8 == x); assert(val(d, 8 * q, 8) == 2 * (x / 2) + x % 2);
}
pub proof fn lemma_one_more(d: Seq<u8>, q: int, k: int) requires 0 <= q < d.len(), 0 <= k < 8 ensures val(d, 8 * q, k + 1) == 2 * val(d, 8 * q, k) + ((d[q] / (pow2((7 - k) as nat) as u8)) % 2) as nat
    { assert((8 * q + k) / 8 == q && (8 * q + k) % 8 == k); }
/// One byte more
pub proof fn lemma_more(d: Seq<u8>, p: int, n: int, q: int) requires 0 <= n, p + n == 8 * q, 0 <= q < d.len() ensures val(d, p, n + 8) == val(d, p, n) * 256 + d[q]
    { lemma_p32(); lemma_split(d, p, n, 8); lemma_byte(d, q); }
/// The first bits and the others
pub proof fn lemma_cut(d: Seq<u8>, p: int, a: int, b: int) requires 0 <= a, 0 <= b
    ensures val(d, p, a + b) / pow2(b as nat) == val(d, p, a), val(d, p, a + b) % pow2(b as nat) == val(d, p + a, b)
{
    lemma_split(d, p, a, b); lemma_bound(d, p + a, b); lemma_pow2_pos(b as nat);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(val(d, p, a + b) as int, pow2(b as nat) as int, val(d, p, a) as int, val(d, p + a, b) as int);
}
pub proof fn lemma_first(d: Seq<u8>, p: int, n: int) requires n > 0 ensures val(d, p, n) == bit(d, p) * pow2((n - 1) as nat) + val(d, p + 1, n - 1)
    { lemma_split(d, p, 1, n - 1); reveal_with_fuel(val, 2); assert(val(d, p, 1) == bit(d, p)); }
/// Where the first one bit is
pub proof fn lemma_zeros(d: Seq<u8>, p: int, n: int)
    requires 0 <= p, 0 <= n, p + n <= 8 * d.len(), val(d, p, n) > 0
    ensures 0 <= zeros(d, p) < n, pow2((n - zeros(d, p) - 1) as nat) <= val(d, p, n) < pow2((n - zeros(d, p)) as nat),
        val(d, p + zeros(d, p) + 1, n - zeros(d, p) - 1) == val(d, p, n) - pow2((n - zeros(d, p) - 1) as nat)
    decreases n
{
    lemma_first(d, p, n); lemma_bound(d, p, n); lemma_bound(d, p + 1, n - 1);
    if bit(d, p) == 1 { assert(zeros(d, p) == 0); }
    else { assert(bit(d, p) == 0); assert(0 * pow2((n - 1) as nat) == 0); lemma_zeros(d, p + 1, n - 1); }
}
pub proof fn lemma_no_one(d: Seq<u8>, p: int, n: int) requires 0 <= p, 0 <= n, p + n <= 8 * d.len(), val(d, p, n) == 0 ensures zeros(d, p) >= n decreases n
    { lemma_zeros_pos(d, p); if n > 0 { lemma_first(d, p, n); lemma_pow2_pos((n - 1) as nat); assert(bit(d, p) == 0 || bit(d, p) == 1); if bit(d, p) == 1 { assert(bit(d, p) * pow2((n - 1) as nat) > 0) by (nonlinear_arith) requires bit(d, p) == 1, pow2((n - 1) as nat) > 0; } else { assert(bit(d, p) * pow2((n - 1) as nat) == 0) by (nonlinear_arith) requires bit(d, p) == 0; } lemma_no_one(d, p + 1, n - 1); } }
pub proof fn lemma_zeros_pos(d: Seq<u8>, p: int) ensures zeros(d, p) >= 0 decreases 8 * d.len() - p { if !(p >= 8 * d.len() || bit(d, p) == 1) { lemma_zeros_pos(d, p + 1); } }
/// The length of a number in bits
pub open spec fn long_(x: int, c: int) -> bool { 0 <= c <= 8 && x < pow2(c as nat) && (c > 0 ==> pow2((c - 1) as nat) <= x) && (c == 0 ==> x == 0) }
pub proof fn lemma_long(x: int, c: int, e: int) requires long_(x, c), x > 0, e >= 1, pow2((e - 1) as nat) <= x < pow2(e as nat) ensures c == e
    { if c < e { if c < e - 1 { lemma_pow2_strictly_increases(c as nat, (e - 1) as nat); } } if e < c { if e < c - 1 { lemma_pow2_strictly_increases(e as nat, (c - 1) as nat); } } }
'''


SPEC = r"""
pub proof fn lemma_mono(d: Seq<u8>, p0: int, nb: int, a: int, b: int)
    requires nb > 0, 0 <= a <= b ensures run(d, p0, nb, a).p <= run(d, p0, nb, b).p,
        a < b ==> run(d, p0, nb, a).p <= head(d, nb, run(d, p0, nb, a), a).p <= run(d, p0, nb, a + 1).p <= run(d, p0, nb, b).p, -1 <= run(d, p0, nb, a).fs, -1 <= head(d, nb, run(d, p0, nb, a), a).fs
    decreases b
{
    if a < b { lemma_mono(d, p0, nb, a, b - 1); if a < b - 1 { } lemma_mono_one(d, p0, nb, b - 1); lemma_mono_one(d, p0, nb, a); } else { lemma_fs(d, p0, nb, a); }
}
pub proof fn lemma_zero(d: Seq<u8>, p0: int, nb: int) ensures run(d, p0, nb, 0) == (R3 { p: p0 + 32, last: wrap(val(d, p0, 32) as int), fs: 0 }) { }
pub proof fn lemma_fs(d: Seq<u8>, p0: int, nb: int, a: int) requires nb > 0, 0 <= a ensures -1 <= run(d, p0, nb, a).fs, -1 <= head(d, nb, run(d, p0, nb, a), a).fs decreases a
    { if a > 0 { lemma_fs(d, p0, nb, a - 1); } }
pub proof fn lemma_mono_one(d: Seq<u8>, p0: int, nb: int, a: int) requires nb > 0, 0 <= a
    ensures run(d, p0, nb, a).p <= head(d, nb, run(d, p0, nb, a), a).p <= run(d, p0, nb, a + 1).p, -1 <= run(d, p0, nb, a).fs, -1 <= head(d, nb, run(d, p0, nb, a), a).fs
    { lemma_fs(d, p0, nb, a); let s = head(d, nb, run(d, p0, nb, a), a); lemma_zeros_pos(d, s.p); assert(run(d, p0, nb, a + 1) == one(d, s)); }

pub proof fn lemma_lim(d: Seq<u8>, p0: int, nb: int, nx: int, i: int) requires lim(d, p0, nb, nx), 0 <= i < nx
    ensures ({ let s = head(d, nb, run(d, p0, nb, i), i); &&& (s.p <= 8 * d.len() ==> s.fs <= 25) &&& (after(d, s) <= 8 * d.len() ==> mapped(d, s) < 0x1_0000_0000) }) { reveal(lim); assert(run(d, p0, nb, i) == run(d, p0, nb, i)); }
pub open spec fn px(b: Seq<u8>, k: int) -> Seq<u8> { seq![b[4 * k], b[4 * k + 1], b[4 * k + 2], b[4 * k + 3]] }
#[verifier::external_body] pub fn put_ne(b: &mut [u8], a: usize, e: usize, x: i32, n: usize)
    requires a <= e <= old(b)@.len(), e - a == n, n == 4
    ensures final(b)@.len() == old(b)@.len(), px(final(b)@.subrange(a as int, e as int), 0) == ne(x), forall|q: int| 0 <= q < old(b)@.len() && !(a <= q < e) ==> #[trigger] final(b)@[q] == old(b)@[q]
    { b[a..e].copy_from_slice(&x.to_ne_bytes()[..n]) }
pub trait Min_: Sized { spec fn num(&self) -> int; fn min_(self, o: Self) -> (r: Self) ensures r.num() == (if self.num() <= o.num() { self.num() } else { o.num() }); }
impl Min_ for i32 { open spec fn num(&self) -> int { *self as int } #[verifier::external_body] fn min_(self, o: i32) -> (r: i32) { self.min(o) } }
pub fn size_of_i32() -> (r: usize) ensures r == 4 { std::mem::size_of::<i32>() }
pub broadcast axiom fn b_be_i32(d: Seq<u8>, at: int) requires 0 <= at, at + 4 <= d.len() ensures #[trigger] be_i32(d, at) == wrap(val(d, 8 * at, 32) as int);
#[verifier::opaque]
pub open spec fn filled(b: Seq<u8>, d: Seq<u8>, p0: int, nb: int, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] px(b, k) == ne(run(d, p0, nb, k + 1).last) }
pub proof fn lemma_filled(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>, p0: int, nb: int, n: int)
    requires filled(a, d, p0, nb, n), 0 <= n, a.len() == b.len(), 4 * n + 4 <= a.len(), px(b.subrange(4 * n, 4 * n + 4), 0) == ne(run(d, p0, nb, n + 1).last),
        forall|q: int| 0 <= q < a.len() && !(4 * n <= q < 4 * n + 4) ==> #[trigger] b[q] == a[q]
    ensures filled(b, d, p0, nb, n + 1)
{
    reveal(filled); assert(px(b, n) =~= px(b.subrange(4 * n, 4 * n + 4), 0));
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] px(b, k) == ne(run(d, p0, nb, k + 1).last) by {
        if k < n { assert(px(a, k) == ne(run(d, p0, nb, k + 1).last)); assert(b[4 * k] == a[4 * k]); assert(b[4 * k + 1] == a[4 * k + 1]); assert(b[4 * k + 2] == a[4 * k + 2]); assert(b[4 * k + 3] == a[4 * k + 3]); } }
}
/// The bits of the stream kept for later
pub open spec fn kept_bits(d: Seq<u8>, pos: int, p: int, b: u32, nbits: int) -> bool { 0 <= nbits && 8 * pos - nbits == p && b == val(d, p, nbits) }
/// Up to the end of the block
pub open spec fn window(i: int, imax: int, nb: int, nx: int) -> bool { i <= imax <= nx && win(i, imax, nb, nx) }
#[verifier::opaque]
pub open spec fn win(i: int, imax: int, nb: int, nx: int) -> bool { nb > 0 ==> (imax == nx || imax % nb == 0) && forall|q: int| i < q < imax ==> #[trigger] (q % nb) != 0 }
pub open spec fn count(s: RICEState) -> int { match s { RICEState::Start => 0, RICEState::FS { i, .. } => i as int, RICEState::LowEntropyDecoding { i, .. } => i as int, RICEState::HighEntropyDecoding { i, .. } => i as int, RICEState::RICEDecoding { i, .. } => i as int } }
/// At a block: it has pixels unless the block size is 0
pub open spec fn begun(i: int, imax: int, nb: int) -> bool { if nb > 0 { i < imax } else { i == imax } }
/// The bits read from the stream and not used
pub open spec fn bits_in(s: RICEState) -> int { match s { RICEState::Start => 0, RICEState::FS { nbits, .. } => nbits as int, RICEState::LowEntropyDecoding { nbits, .. } => nbits as int, RICEState::HighEntropyDecoding { nbits, .. } => nbits as int, RICEState::RICEDecoding { nbits, .. } => nbits as int } }
/// The bits that are left in the stream
pub open spec fn bits_left(s: RICEState, d: Seq<u8>, pos: int) -> int { if pos <= d.len() { 8 * (d.len() - pos) + bits_in(s) } else { 0 } }
pub open spec fn rank(s: RICEState) -> int { match s { RICEState::Start => 0, RICEState::FS { .. } => 1, _ => 2 } }
/// For any stream
pub open spec fn safe(s: RICEState, nb: int, nx: int) -> bool {
    match s {
        RICEState::Start => true,
        RICEState::FS { b, i, nbits, .. } => 0 <= i < nx && (nb > 0 ==> (i as int) % nb == 0) && 0 <= nbits <= 8 && b < pow2(nbits as nat),
        RICEState::LowEntropyDecoding { b, i, imax, nbits, .. } => 0 <= i < nx && begun(i as int, imax as int, nb) && 0 <= nbits < 8 && b < pow2(nbits as nat) && window(i as int, imax as int, nb, nx),
        RICEState::HighEntropyDecoding { b, i, imax, nbits, .. } => 0 <= i < nx && begun(i as int, imax as int, nb) && 0 <= nbits < 8 && b < pow2(nbits as nat) && window(i as int, imax as int, nb, nx),
        RICEState::RICEDecoding { b, i, imax, nbits, fs, .. } => 0 <= i < nx && begun(i as int, imax as int, nb) && 0 <= nbits < 8 && 0 <= fs < 31 && b < pow2(nbits as nat) && window(i as int, imax as int, nb, nx),
    }
}
/// For a stream a coder wrote
pub open spec fn right(s: RICEState, d: Seq<u8>, p0: int, nb: int, pos: int) -> bool {
    let r = run(d, p0, nb, count(s)); let h = head(d, nb, r, count(s));
    match s {
        RICEState::Start => 8 * pos == p0,
        RICEState::FS { b, lastpix, nbits, .. } => lastpix == r.last && kept_bits(d, pos, r.p, b, nbits as int),
        RICEState::LowEntropyDecoding { b, lastpix, nbits, .. } => lastpix == r.last && kept_bits(d, pos, h.p, b, nbits as int) && h.fs < 0,
        RICEState::HighEntropyDecoding { b, lastpix, nbits, .. } => lastpix == r.last && kept_bits(d, pos, h.p, b, nbits as int) && h.fs == 25,
        RICEState::RICEDecoding { b, lastpix, nbits, fs, .. } => lastpix == r.last && kept_bits(d, pos, h.p, b, nbits as int) && h.fs == fs && 0 <= fs < 25,
    }
}
/// Before pixel i of a block that ends at imax
pub open spec fn cur(d: Seq<u8>, p0: int, nb: int, i: int, imax: int) -> R3 { let r = run(d, p0, nb, i); if i < imax { head(d, nb, r, i) } else { r } }
pub proof fn lemma_cur(d: Seq<u8>, p0: int, nb: int, nx: int, i: int, imax: int) requires nb > 0, 0 <= i < imax, window(i, imax, nb, nx)
    ensures cur(d, p0, nb, i + 1, imax) == one(d, cur(d, p0, nb, i, imax)), run(d, p0, nb, i + 1) == one(d, cur(d, p0, nb, i, imax)), window(i + 1, imax, nb, nx)
    { reveal(win); assert(run(d, p0, nb, i + 1) == one(d, head(d, nb, run(d, p0, nb, i), i))); if i + 1 < imax { assert((i + 1) % nb != 0); } }
pub proof fn lemma_no_window(i: int, nx: int) requires 0 <= i < nx ensures window(i, i, 0, nx) { reveal(win); }
pub proof fn lemma_window(i: int, nb: int, nx: int) requires nb > 0, 0 <= i < nx, i % nb == 0 ensures window(i, if i + nb < nx { i + nb } else { nx }, nb, nx)
{
    reveal(win); let imax = if i + nb < nx { i + nb } else { nx };
    assert((i + nb) % nb == 0) by { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i, nb); }
    assert forall|q: int| i < q < imax implies #[trigger] (q % nb) != 0 by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, nb); assert(nb * (i / nb) == (i / nb) * nb) by (nonlinear_arith); assert(q == (i / nb) * nb + (q - i));
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(q, nb, i / nb, q - i);
    }
}
pub proof fn lemma_more_bits(d: Seq<u8>, p: int, n: int, q: int, b: u32) requires 0 <= n <= 24, p + n == 8 * q, b == val(d, p, n)
    ensures b < pow2(24), b * 256 <= u32::MAX - 255, 0 <= q < d.len() ==> val(d, p, n + 8) == b * 256 + d[q], (b * 256) % 256 == 0, pow2(8) == 256
{
    lemma_bound(d, p, n); if n < 24 { lemma_pow2_strictly_increases(n as nat, 24); } lemma2_to64(); if 0 <= q < d.len() { lemma_more(d, p, n, q); }
}
pub proof fn lemma_none(b: Seq<u8>, d: Seq<u8>, p0: int, nb: int) ensures filled(b, d, p0, nb, 0) { reveal(filled); }
pub proof fn lemma_block_end(i: int, nb: int, nx: int) ensures win(i, i, nb, nx) ==> nb <= 0 || i == nx || i % nb == 0 { reveal(win); }
pub proof fn lemma_wrap(m: u32, last: i32) ensures wrap(last + unmap(m as nat)) == (if m % 2 == 0 { add32(last, (m / 2) as int) } else { add32(last, -(m / 2) - 1) }) { }
pub open spec fn add32(a: i32, x: int) -> i32 { wrap(a + x) }
"""

READ = r"""    requires old(self).state is Start, old(self).nblock >= 0, old(self).nx >= 1, old(buf)@.len() == 4 * old(self).nx, 0 <= old(self).reader.pos()
    ensures kept(&old(self).reader, &final(self).reader), final(buf)@.len() == old(buf)@.len(), r is Ok ==> r->Ok_0 == old(buf)@.len(),
        ({
        let d = old(self).reader.data(); let p0 = 8 * old(self).reader.pos(); let nb = old(self).nblock as int; let nx = old(self).nx as int;
        nb >= 1 && lim(d, p0, nb, nx) ==> {
            // all the pixels, in order
            &&& (r is Ok ==> r->Ok_0 == 4 * nx && final(buf)@.len() == 4 * nx && filled(final(buf)@, d, p0, nb, nx))
            // a stream that is too short is an error, and only that is
            &&& (r is Ok ==> enough(d, p0, nb, nx))
            &&& (enough(d, p0, nb, nx) && old(self).reader.reliable() ==> r is Ok)
        } }),"""

USE = "broadcast use {b_shr, b_shl, b_shl64, b_one, b_mask, b_odd, b_not, b_cast, b_xor, b_or, b_be_i32};"
ENTRY = "hide(val); hide(zeros); hide(bit); hide(run); " + USE + r"""let ghost d = self.reader.data(); let ghost p0 = 8 * self.reader.pos(); let ghost nb = self.nblock as int; let ghost nx = self.nx as int; let ghost rel = self.reader.reliable();
let ghost wf = nb >= 1 && lim(d, p0, nb, nx); let ghost fine = wf && rel && enough(d, p0, nb, nx);
proof { lemma_p32(); if nb > 0 { lemma_mono(d, p0, nb, 0, nx); } lemma_none(buf@, d, p0, nb); lemma_zero(d, p0, nb); }"""

SELF = "d == old(self).reader.data(), p0 == 8 * old(self).reader.pos(), nb == old(self).nblock, nx == old(self).nx, rel == old(self).reader.reliable(), old(buf)@.len() == 4 * nx, 0 <= p0, 0 <= nb, 1 <= nx, wf == (nb >= 1 && lim(d, p0, nb, nx)), fine == (wf && rel && enough(d, p0, nb, nx)), self.reader.data() == d, self.reader.reliable() == rel, self.nblock == nb, self.nx == nx, 0 <= self.reader.pos() <= d.len(), buf@.len() == 4 * nx,"

OUTER = ("    invariant " + SELF.replace("self.reader.pos() <= d.len()", "self.reader.pos(), self.state is Start || self.reader.pos() <= d.len()") + r"""
        safe(self.state, nb, nx), count(self.state) < nx, j == 4 * count(self.state), wf ==> right(self.state, d, p0, nb, self.reader.pos()) && filled(buf@, d, p0, nb, count(self.state)),
    decreases nx - count(self.state), bits_left(self.state, d, self.reader.pos()), rank(self.state)""",
    USE + r"""let ghost st0 = self.state; let ghost pos0 = self.reader.pos(); proof { lemma_p32(); if self.state is Start { lemma_zero(d, p0, nb); if nb > 0 { lemma_mono(d, p0, nb, 0, nx); } lemma_none(buf@, d, p0, nb); if nb > 0 { vstd::arithmetic::div_mod::lemma_small_mod(0, nb as nat); } if self.reader.pos() + 4 < d.len() { lemma_byte(d, self.reader.pos() + 4); } } else if nb > 0 { lemma_mono(d, p0, nb, count(self.state), nx); let ghost hd = head(d, nb, run(d, p0, nb, count(self.state)), count(self.state)); lemma_zeros_pos(d, hd.p); } }""", "", "")
FS = ("    invariant " + SELF + r""" self.state == st0, 0 <= i < nx, fine ==> run(d, p0, nb, i as int).p + 5 <= 8 * d.len(), -5 <= nbits <= 7, nb > 0 ==> i as int % nb == 0, pos0 <= self.reader.pos(), 8 * self.reader.pos() - nbits == 8 * pos0 - bits_in(st0) + 5, b < pow2((nbits + 5) as nat),
        wf ==> kept_bits(d, self.reader.pos(), run(d, p0, nb, i as int).p, b, nbits + 5),
    decreases if nbits < 0 { -nbits } else { 0 }""",
    USE + r"""proof { lemma_p32(); if wf { lemma_more_bits(d, run(d, p0, nb, i as int).p, nbits + 5, self.reader.pos(), b); } lemma_small(b, (nbits + 5) as nat); }""",
    "", r"""proof { lemma_fs_end(b, nbits as nat); if wf { lemma_cut(d, run(d, p0, nb, i as int).p, 5, nbits as int); } if nb > 0 { lemma_window(i as int, nb, nx); } else { lemma_no_window(i as int, nx); } if wf { lemma_lim(d, p0, nb, nx, i as int); } }""")
BLOCK = r""" fine ==> run(d, p0, nb, nx).p <= 8 * d.len(), 0 <= i <= imax, nb == 0 ==> i == imax, i == imax ==> nb == 0 || i > count(st0), i < nx || nb > 0, window(i as int, imax as int, nb, nx), j == 4 * i, i >= count(st0), i == count(st0) ==> self.reader.pos() == pos0 && nbits == bits_in(st0), 0 <= nbits < 8, b < pow2(nbits as nat),
        wf ==> filled(buf@, d, p0, nb, i as int) && lastpix == cur(d, p0, nb, i as int, imax as int).last && kept_bits(d, self.reader.pos(), cur(d, p0, nb, i as int, imax as int).p, b, nbits as int),
        self.state == st0,"""
START = USE + r"""let ghost buf0 = buf@; let ghost i0 = i as int; let ghost s = cur(d, p0, nb, i as int, imax as int);
    proof { lemma_cur(d, p0, nb, nx, i0, imax as int); lemma_p32(); lemma_mono(d, p0, nb, i0, nx); lemma_mono(d, p0, nb, 0, i0); lemma_zero(d, p0, nb); if wf { lemma_lim(d, p0, nb, nx, i0); } }"""
END = r"""proof { if wf { lemma_filled(buf0, buf@, d, p0, nb, i0); } }"""
LOW = ("    invariant " + SELF + BLOCK + r"""
        wf && i < imax ==> cur(d, p0, nb, i as int, imax as int).fs < 0,
    decreases imax - i""", START, END, r"""proof { lemma_block_end(i as int, nb, nx); }""")
HIGH = ("    invariant " + SELF + BLOCK + r"""
        wf && i < imax ==> cur(d, p0, nb, i as int, imax as int).fs == 25,
    decreases imax - i""", START + "proof { lemma_top(b, nbits as int); lemma_pow2_strictly_increases_(nbits as nat); }", END, r"""proof { lemma_block_end(i as int, nb, nx); }""")
KLOOP = ("    invariant " + SELF + r""" s.fs == 25 || !wf, fine ==> s.p + 32 <= 8 * d.len(), 0 <= nbits < 8, self.state == st0, -8 <= k <= 24, (k + nbits) % 8 == 0, wf ==> s.p + 32 - (k + 8) == 8 * self.reader.pos() && diff == val(d, s.p, 32 - (k + 8)) * pow2((k + 8) as nat),
    decreases k + 8""", USE + r"""proof { if wf && self.reader.pos() < d.len() { lemma_high(d, s.p, k as int, self.reader.pos(), diff); } }""", "", r"""proof { if wf { lemma_high_end(d, s.p, nbits as int, self.reader.pos(), diff); } }""")
RICE_ = ("    invariant " + SELF + BLOCK + r"""
        wf && i < imax ==> cur(d, p0, nb, i as int, imax as int).fs == fs, 0 <= fs < 31, wf ==> fs < 25,
    decreases imax - i""", START + " let ghost z = zeros(d, s.p); let ghost mut zn: int = 0; proof { lemma_zeros_pos(d, s.p); }", END, r"""proof { lemma_block_end(i as int, nb, nx); }""")
ZLOOP = ("    invariant " + SELF + r""" 0 <= fs < 31, z == zeros(d, s.p), fine ==> s.p + z + 1 + fs <= 8 * d.len(), wf ==> 0 <= s.p && fs < 25, self.state == st0, b < 256, 0 <= nbits <= 8, b < pow2(nbits as nat),
        wf ==> 0 <= zn <= z && z == zn + zeros(d, s.p + zn) && nzero == zn % 0x1_0000_0000 && kept_bits(d, self.reader.pos(), s.p + zn, b, nbits as int),
    decreases d.len() - self.reader.pos()""", USE + r"""proof { lemma_p32(); if wf { lemma_no_one(d, s.p + zn, nbits as int); lemma_skip(d, s.p + zn, nbits as int); lemma_zeros_pos(d, s.p + zn + nbits); zn = zn + nbits; if self.reader.pos() < d.len() { lemma_byte(d, self.reader.pos()); } } }""", "",
    r"""proof { lemma_p32(); lemma_rice(b, nbits as int); if wf { lemma_lead(d, s.p + zn, nbits as int, b); } }""")
TLOOP = ("    invariant " + SELF + r""" 0 <= fs < 31, fine ==> s.p + z + 1 + fs <= 8 * d.len(), wf ==> fs < 25, self.state == st0, -31 <= nbits <= 7, wf ==> z >= 0 && nzero == z % 0x1_0000_0000 && kept_bits(d, self.reader.pos(), s.p + z + 1, b, nbits + fs),
    decreases if nbits < 0 { -nbits } else { 0 }""", USE + r"""proof { if wf { lemma_more_bits(d, s.p + z + 1, nbits + fs, self.reader.pos(), b); } }""", "",
    r"""proof { lemma_pow2_strictly_increases_(nbits as nat); lemma_pow2_pos(fs as nat); if wf { lemma_cut(d, s.p + z + 1, fs as int, nbits as int); lemma_bound(d, s.p + z + 1, fs as int); lemma_multiple(z as nat, fs as nat); let w = pow2(fs as nat) as int; assert(z <= z * w) by (nonlinear_arith) requires z >= 0, w >= 1;
        assert(s.fs == fs); assert(after(d, s) <= 8 * d.len()); assert(mapped(d, s) == z * w + val(d, s.p + z + 1, fs as int)); assert(nzero == z); assert((nzero << fs) == z * w); assert((b >> nbits) == val(d, s.p + z + 1, fs as int)); assert(((nzero << fs) | (b >> nbits)) == mapped(d, s)); } }""")

LEMMAS = r"""
pub proof fn lemma_small(b: u32, e: nat) requires b < pow2(e), e <= 4 ensures b < 16, b * 256 + 255 < pow2(e + 8), b * 256 < 4096, (b * 256) % 256 == 0 { lemma2_to64(); lemma_pow2_adds(e, 8); if e < 4 { lemma_pow2_strictly_increases(e, 4); } assert(b * 256 + 256 <= pow2(e) * 256) by (nonlinear_arith) requires b + 1 <= pow2(e); }
pub proof fn lemma_fs_end(b: u32, n: nat) requires n <= 7, b < pow2(n + 5) ensures b as nat / pow2(n) < 32, 1 <= pow2(n) <= 128, b as nat % pow2(n) < pow2(n)
{
    lemma2_to64(); lemma_pow2_adds(n, 5); if n < 7 { lemma_pow2_strictly_increases(n, 7); } lemma_pow2_pos(n);
    vstd::arithmetic::div_mod::lemma_div_by_multiple_is_strongly_ordered(b as int, (32 * pow2(n)) as int, 32, pow2(n) as int);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(32, pow2(n) as int);
}
pub proof fn lemma_nbits(n: nat) ensures 256 <= pow2(n + 8) { lemma2_to64(); if n > 0 { lemma_pow2_strictly_increases(8, n + 8); } }
/// The leading one bit
pub proof fn lemma_rice(b: u32, n: int) requires 0 < b < 256, 0 <= n, b < pow2(n as nat)
    ensures forall|c: int| #[trigger] long_(b as int, c) ==> 1 <= c <= n && c <= 8 && pow2((c - 1) as nat) <= b < 2 * pow2((c - 1) as nat)
{
    lemma_p32();
    assert forall|c: int| #[trigger] long_(b as int, c) implies 1 <= c <= n && c <= 8 && pow2((c - 1) as nat) <= b < 2 * pow2((c - 1) as nat) by {
        assert(c >= 1); lemma_pow2_unfold(c as nat); if n < c { if n < c - 1 { lemma_pow2_strictly_increases(n as nat, (c - 1) as nat); } }
    }
}
pub proof fn lemma_lead(d: Seq<u8>, p: int, n: int, b: u32) requires 0 <= p, 0 < b < 256, 0 <= n, p + n <= 8 * d.len(), b == val(d, p, n)
    ensures forall|c: int| #[trigger] long_(b as int, c) ==> c == n - zeros(d, p), 0 <= zeros(d, p) < n, val(d, p + zeros(d, p) + 1, n - zeros(d, p) - 1) == b - pow2((n - zeros(d, p) - 1) as nat)
{
    lemma_zeros(d, p, n);
    assert forall|c: int| #[trigger] long_(b as int, c) implies c == n - zeros(d, p) by { lemma_long(b as int, c, n - zeros(d, p)); }
}
/// Bits that are all zero
pub proof fn lemma_skip(d: Seq<u8>, p: int, n: int) requires 0 <= p, 0 <= n, p + n <= 8 * d.len(), zeros(d, p) >= n ensures zeros(d, p) == n + zeros(d, p + n) decreases n
    { if n > 0 { lemma_zeros_pos(d, p + 1); lemma_skip(d, p + 1, n - 1); } }
pub proof fn lemma_multiple(z: nat, f: nat) ensures (z * pow2(f)) % pow2(f) == 0 { lemma_pow2_pos(f); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(z as int, pow2(f) as int); }
pub proof fn lemma_top(b: u32, n: int) requires 0 <= n < 8, b < pow2(n as nat) ensures b * pow2((32 - n) as nat) < 0x1_0000_0000
    { lemma2_to64(); lemma_pow2_adds(n as nat, (32 - n) as nat); lemma_pow2_pos((32 - n) as nat); assert(b * pow2((32 - n) as nat) < pow2(n as nat) * pow2((32 - n) as nat)) by (nonlinear_arith) requires b < pow2(n as nat), pow2((32 - n) as nat) > 0; }
pub proof fn lemma_high(d: Seq<u8>, p: int, k: int, q: int, diff: u32)
    requires 0 <= k <= 24, p + 24 - k == 8 * q, 0 <= q < d.len(), diff == val(d, p, 24 - k) * pow2((k + 8) as nat)
    ensures d[q] * pow2(k as nat) <= u32::MAX, d[q] * pow2(k as nat) < pow2((k + 8) as nat), diff as nat % pow2((k + 8) as nat) == 0, val(d, p, 32 - k) * pow2(k as nat) == diff + d[q] * pow2(k as nat), k + 8 <= 32
{
    lemma2_to64(); lemma_more(d, p, 24 - k, q); lemma_pow2_adds(k as nat, 8); lemma_multiple(val(d, p, 24 - k), (k + 8) as nat); lemma_pow2_pos(k as nat);
    let y = d[q] as nat; let w = pow2(k as nat); let v = val(d, p, 24 - k);
    assert(y * w < 256 * w) by (nonlinear_arith) requires y < 256, w > 0;
    assert((v * 256 + y) * w == v * (w * 256) + y * w) by (nonlinear_arith);
    if k < 24 { lemma_pow2_strictly_increases(k as nat + 8, 32); }
}
pub proof fn lemma_high_end(d: Seq<u8>, p: int, nbits: int, q: int, diff: u32)
    requires 0 <= nbits < 8, nbits > 0 ==> p + 24 + nbits == 8 * q && diff == val(d, p, 24 + nbits) * pow2((8 - nbits) as nat), nbits == 0 ==> diff == val(d, p, 32) * pow2(0), 0 <= q
    ensures nbits == 0 ==> diff == val(d, p, 32) && val(d, p + 32, 0) == 0,
        nbits > 0 && q < d.len() ==> (d[q] as nat) / pow2(nbits as nat) < pow2((8 - nbits) as nat) && diff as nat % pow2((8 - nbits) as nat) == 0
            && diff + (d[q] as nat) / pow2(nbits as nat) == val(d, p, 32) && (d[q] as nat) % pow2(nbits as nat) == val(d, p + 32, nbits)
{
    lemma2_to64();
    if nbits > 0 && q < d.len() {
        lemma_byte(d, q); lemma_cut(d, 8 * q, 8 - nbits, nbits); lemma_bound(d, 8 * q, 8 - nbits); lemma_split(d, p, 24 + nbits, 8 - nbits); lemma_multiple(val(d, p, 24 + nbits), (8 - nbits) as nat);
        assert(8 * q + (8 - nbits) == p + 32);
    }
}
"""


CODER = r"""
pub proof fn lemma_written(d: Seq<u8>, p: int, a: Seq<bool>, b: Seq<bool>) requires written(d, p, a + b) ensures written(d, p, a), written(d, p + a.len(), b)
{
    assert forall|q: int| 0 <= q < a.len() implies (bit(d, p + q) == 1) == #[trigger] a[q] by { assert((a + b)[q] == a[q]); }
    assert forall|q: int| 0 <= q < b.len() implies (bit(d, p + a.len() + q) == 1) == #[trigger] b[q] by { assert((a + b)[a.len() + q] == b[q]); }
}
pub proof fn lemma_bits(d: Seq<u8>, p: int, v: nat, n: int) requires 0 <= n, written(d, p, bits_of(v, n)), v < pow2(n as nat) ensures val(d, p, n) == v, bits_of(v, n).len() == n decreases n
{
    lemma_p32();
    if n > 0 { lemma_pow2_unfold(n as nat); lemma_bits_len(v / 2, n - 1);
        let e = bits_of(v, n); let f = bits_of(v / 2, n - 1);
        assert(e =~= f + seq![v % 2 == 1]); lemma_written(d, p, f, seq![v % 2 == 1]); lemma_bits(d, p, v / 2, n - 1);
        assert(e[n - 1] == (v % 2 == 1)); assert(bit(d, p + (n - 1)) <= 1); }
}
pub proof fn lemma_bits_len(v: nat, n: int) requires 0 <= n ensures bits_of(v, n).len() == n decreases n { if n > 0 { lemma_bits_len(v / 2, n - 1); } }
pub proof fn lemma_unary(d: Seq<u8>, p: int, z: nat) requires written(d, p, unary(z)) ensures zeros(d, p) == z decreases z
{
    let e = unary(z);
    if z == 0 { assert(e[0]); assert(bit(d, p + 0) == 1); }
    else {
        assert(!e[0]); assert(bit(d, p + 0) != 1);
        assert(e =~= seq![false] + unary((z - 1) as nat)); lemma_written(d, p, seq![false], unary((z - 1) as nat)); lemma_unary(d, p + 1, (z - 1) as nat);
    }
}
pub proof fn lemma_map(x: i32) ensures map(x as int) < 0x1_0000_0000, unmap(map(x as int)) == x { }
pub proof fn lemma_back(a: i32, b: i32) ensures wrap(a + wrap(b - a)) == b { }
pub proof fn lemma_u32(x: i32) ensures wrap(u32_of(x) as int) == x, u32_of(x) < 0x1_0000_0000 { }
pub proof fn lemma_block(i: int, nb: int) requires nb > 0, i > 0, i % nb != 0 ensures block_of(i, nb) == block_of(i - 1, nb)
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, nb); let r = i % nb; vstd::arithmetic::div_mod::lemma_mod_bound(i, nb);
    assert(i - 1 == (i / nb) * nb + (r - 1)) by { assert(nb * (i / nb) == (i / nb) * nb) by (nonlinear_arith); }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i - 1, nb, i / nb, r - 1);
}
pub proof fn lemma_prefix(d: Seq<u8>, p0: int, v: Seq<i32>, nb: int, code: spec_fn(int) -> int, a: int, b: int) requires 0 <= a <= b, written(d, p0, coded(v, nb, code, b)) ensures written(d, p0, coded(v, nb, code, a)) decreases b
{
    if a < b {
        let x = coded(v, nb, code, b - 1); let y = block_bits(b - 1, nb, code); let z = pixel_bits(code(block_of(b - 1, nb)), map(diff(v, b - 1) as int));
        lemma_written(d, p0, x + y, z); lemma_written(d, p0, x, y); lemma_prefix(d, p0, v, nb, code, a, b - 1);
    }
}
/// After n pixels the decoder has these n pixels
pub proof fn lemma_decode(d: Seq<u8>, p0: int, v: Seq<i32>, nb: int, code: spec_fn(int) -> int, n: int)
    requires nb > 0, 0 <= n <= v.len(), v.len() > 0, codes(v, nb, code), written(d, p0, coded(v, nb, code, n))
    ensures ({ let r = run(d, p0, nb, n); r.p == p0 + coded(v, nb, code, n).len() && r.last == prev(v, n) && (n > 0 ==> r.fs == code(block_of(n - 1, nb))
        && head(d, nb, run(d, p0, nb, n - 1), n - 1).fs <= 25 && mapped(d, head(d, nb, run(d, p0, nb, n - 1), n - 1)) < 0x1_0000_0000) })
    decreases n
{
    lemma_p32();
    if n == 0 { lemma_u32(v[0]); lemma_bits(d, p0, u32_of(v[0]), 32); }
    else {
        let i = n - 1; let x = coded(v, nb, code, i); let y = block_bits(i, nb, code); let fs = code(block_of(i, nb)); let m = map(diff(v, i) as int); let z = pixel_bits(fs, m);
        lemma_written(d, p0, x + y, z); lemma_written(d, p0, x, y);
        lemma_decode(d, p0, v, nb, code, i);
        let r = run(d, p0, nb, i); let h = head(d, nb, r, i);
        assert(-1 <= fs <= 25);
        if i % nb == 0 { lemma_bits(d, r.p, (fs + 1) as nat, 5); } else { if i > 0 { lemma_block(i, nb); } else { vstd::arithmetic::div_mod::lemma_small_mod(0, nb as nat); } }
        assert(h.fs == fs); assert(h.p == p0 + (x + y).len());
        lemma_map(diff(v, i)); lemma_back(prev(v, i), v[i]);
        if fs < 0 { assert(diff(v, i) == 0); }
        else if fs == 25 { lemma_bits(d, h.p, m, 32); }
        else {
            let w = pow2(fs as nat); lemma_pow2_pos(fs as nat); let q = m / w; let t = m % w;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, w as int); assert(w * q == q * w) by (nonlinear_arith);
            lemma_written(d, h.p, unary(q), bits_of(t, fs)); lemma_unary(d, h.p, q); lemma_bits(d, h.p + q + 1, t, fs);
            assert(unary(q).len() == q + 1);
        }
        assert(mapped(d, h) == m);
        assert(run(d, p0, nb, n) == one(d, h));
        assert(prev(v, n) == v[i]);
    }
}
/// C14: what RICEDecoder::read gives (its contract) is what was coded
pub proof fn lemma_inverse(d: Seq<u8>, p0: int, v: Seq<i32>, nb: int, code: spec_fn(int) -> int)
    requires nb > 0, v.len() > 0, codes(v, nb, code), written(d, p0, coded(v, nb, code, v.len() as int))
    ensures lim(d, p0, nb, v.len() as int), enough(d, p0, nb, v.len() as int), forall|k: int| 0 <= k < v.len() ==> #[trigger] run(d, p0, nb, k + 1).last == v[k]
{
    reveal(lim); let nx = v.len() as int;
    lemma_decode(d, p0, v, nb, code, nx);
    assert forall|k: int| 0 <= k < v.len() implies #[trigger] run(d, p0, nb, k + 1).last == v[k] by { lemma_prefix(d, p0, v, nb, code, k + 1, nx); lemma_decode(d, p0, v, nb, code, k + 1); }
    assert forall|i: int| 0 <= i < nx implies ({ let s = head(d, nb, #[trigger] run(d, p0, nb, i), i); &&& (s.p <= 8 * d.len() ==> s.fs <= 25) &&& (after(d, s) <= 8 * d.len() ==> mapped(d, s) < 0x1_0000_0000) }) by {
        lemma_prefix(d, p0, v, nb, code, i + 1, nx); lemma_decode(d, p0, v, nb, code, i + 1); }
}
pub proof fn lemma_read(b: Seq<u8>, d: Seq<u8>, p0: int, v: Seq<i32>, nb: int, code: spec_fn(int) -> int)
    requires nb > 0, v.len() > 0, codes(v, nb, code), written(d, p0, coded(v, nb, code, v.len() as int)), filled(b, d, p0, nb, v.len() as int)
    ensures forall|k: int| 0 <= k < v.len() ==> #[trigger] px(b, k) == ne(v[k])
    { reveal(filled); lemma_inverse(d, p0, v, nb, code); assert forall|k: int| 0 <= k < v.len() implies #[trigger] px(b, k) == ne(v[k]) by { assert(run(d, p0, nb, k + 1).last == v[k]); } }
"""


EXACT = r"""
pub proof fn lemma_unrice(b: Seq<u8>, d: Seq<u8>, at: int, nb: int, nx: int) requires nx >= 0, b.len() == 4 * nx, filled(b, d, 8 * at, nb, nx) ensures b == unrice(d, at, nb, nx)
{
    reveal(filled);
    assert forall|q: int| 0 <= q < 4 * nx implies b[q] == unrice(d, at, nb, nx)[q] by { let k = q / 4; assert(px(b, k) == ne(run(d, 8 * at, nb, k + 1).last)); assert(px(b, k)[q % 4] == b[4 * k + q % 4]); }
    assert(b =~= unrice(d, at, nb, nx));
}
/// C14: what is decoded is what was coded
pub proof fn theorem_inverse(d: Seq<u8>, at: int, v: Seq<i32>, nb: int, code: spec_fn(int) -> int)
INVERSE
{
    lemma_inverse(d, 8 * at, v, nb, code);
    assert forall|q: int| 0 <= q < 4 * v.len() implies unrice(d, at, nb, v.len() as int)[q] == ne(v[q / 4])[q % 4] by { let k = q / 4; assert(run(d, 8 * at, nb, k + 1).last == v[k]); }
    assert(unrice(d, at, nb, v.len() as int) =~= Seq::new((4 * v.len()) as nat, |q: int| ne(v[q / 4])[q % 4]));
}
/// Read::read_exact of the standard library reads until the buffer is full: one read does it here
pub fn read_exact<R: Rd>(rice: &mut RICEDecoder<R>, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
    requires old(rice).state is Start, CONTRACT
{
    match rice.read(buf) { Ok(n) => { assert(n == buf@.len()); proof { let o = old(rice); if o.nblock >= 1 && lim(o.reader.data(), 8 * o.reader.pos(), o.nblock as int, o.nx as int) { lemma_unrice(buf@, o.reader.data(), o.reader.pos(), o.nblock as int, o.nx as int); } } Ok(()) }, Err(e) => Err(e) }
}
"""


def i32_only(u):
    def edit(h, b):
        h = h.replace("std::io::Result<usize>", "Result<usize, IoError>")
        b = sub_code(b, r"T\s*::\s*from_be_bytes\s*\(\s*&mut\s+self\s*\.\s*reader\s*\)\s*\?\s*\.\s*into\s*\(\s*\)", "self.reader.read_i32_be()?")
        b = sub_code(b, r"T\s*::\s*size_of\s*\(\s*\)", "size_of_i32()")
        b = sub_code(b, r"T\s*::\s*(FSBITS|FSMAX|BBITS)\b", r"\1")
        b = sub_code(b, r"buf\s*\[\s*([^\[\]]*?)\.\.\(?([^\[\]]*?)\)?\s*\]\s*\.\s*copy_from_slice\s*\(\s*&(\w+)\s*\.\s*to_ne_bytes\s*\(\s*\)\s*\[\s*\.\.\s*(size_of_i32\(\))\s*\]\s*\)", r"put_ne(buf, \1, \2, \3, \4)")
        b = sub_code(b, r"\.\s*min\s*\(", ".min_(")
        if re.search(r"\bT\s*::", b):
            raise Lost("T::")
        return h, b
    return edit


def build(mdir, probe=False):
    u = Unit("rice", mdir)
    u.probe = probe
    u.add(ERRORS + READER)
    u.trust(TRUST_READER)
    u.add(RICE_SPEC + BITS)
    u.item(RC, r"enum RICEState", derive="Clone, Copy")
    u.add("pub struct RICEDecoder<R> { pub reader: R, pub state: RICEState, pub nblock: i32, pub nx: i32 }")
    t = u.src(RC).item(r"impl RICE for i32", "impl RICE for i32")
    c = {}
    for name in ("FSBITS", "FSMAX"):
        m = re.search(r"const\s+%s\s*:\s*i32\s*=\s*([^;]+);" % name, t)
        if not m:
            raise Lost(name)
        u.add("pub const %s: i32 = %s;" % (name, m.group(1)))
    m = re.search(r"const\s+BBITS\s*:\s*i32\s*=\s*([^;]+);", u.src(RC).item(r"trait RICE\b", "trait RICE"))
    if not m:
        raise Lost("BBITS")
    u.add("pub exec const BBITS: i32 ensures BBITS == 32 { assert(1i32 << 5u32 == 32) by (bit_vector); %s }" % m.group(1).replace("Self::", ""))
    m = re.search(r"const\s+NONZERO_COUNT\s*:\s*\[i32;\s*256\]\s*=\s*(\[[^\]]*\])\s*;", u.src(RC).text)
    if not m:
        raise Lost("NONZERO_COUNT")
    vals = [v.strip() for v in m.group(1)[1:-1].split(",") if v.strip()]
    u.add("pub exec const NONZERO_COUNT: [i32; 256] ensures forall|q: int| 0 <= q < 256 ==> long_(q, #[trigger] NONZERO_COUNT@[q] as int) { let t: [i32; 256] = %s;\nproof { lemma_p32(); assert forall|q: int| 0 <= q < 256 implies long_(q, #[trigger] t@[q] as int) by { %s } }\nt }" % (
        m.group(1), ""))
    u.add(SPEC + LEMMAS + CODER)
    u.notes.add("RICEDecoder is taken at T = i32, the only type the library decodes: T::FSBITS, T::FSMAX and T::BBITS are the constants of the source for i32, the marker field is dropped")
    u.notes.add("the casts truncate as in the source (`#[verifier::truncate]`); `buf[a..b].copy_from_slice(&x.to_ne_bytes()[..n])` is a function with that contract")
    u.trust("byteorder: read_i32::<BigEndian> is the big endian two's complement value of the four bytes; i32::to_ne_bytes and copy_from_slice put the four bytes of a value in place; i32::min")
    u.add("impl<R: Rd> RICEDecoder<R> {")
    u.fn(RC, "new", "    ensures r.reader == reader, r.state is Start, r.nblock == nblock, r.nx == nx,", r"RICEDecoder<R, T>$", edit=lambda h, b: (h, sub_code(b, r"_t\s*:\s*PhantomData\s*,?", "")))
    u.fn(RC, "read", READ, r"Read for RICEDecoder", edit=i32_only(u), entry=ENTRY, invs=[OUTER, FS, LOW, HIGH, KLOOP, RICE_, ZLOOP, TLOOP],
         attrs="#[verifier::truncate]")
    u.add("}")
    u.add(EXACT.replace("INVERSE", INVERSE).replace("CONTRACT", UNRICE.replace("requires", "").replace("NBLOCK", "old(rice).nblock").replace("NX", "old(rice).nx").replace("BEFORE", "old(rice).reader").replace("AFTER", "final(rice).reader")))
    u.notes.add("`read_exact` of the standard library is one call of `read`: the contract of `read` says that it fills the buffer")
    return u
