"""Binary tables: TableData (value iterator, jumps to rows, heap) and the rows."""
import re

from extract import Lost, find_code, match_close, sub_code
from unit import Unit
from common import DIV_CEIL, ERRORS, READER, TRUST_READER, TRUST_DIV_CEIL

D = "src/hdu/data/bintable/data.rs"
H = "src/hdu/header/extension/bintable.rs"
M = "src/hdu/data/bintable/mod.rs"
ROW = "src/hdu/data/bintable/row.rs"
IMPL = r"TableData<R>"

CELLS = r'''
/// Bytes of one value of a field (FITS 4.0, table 18)
pub open spec fn elem(t: TFormType) -> int {
    match t {
        TFormType::L { .. } => 1, TFormType::X { .. } => 1, TFormType::B { .. } => 1, TFormType::A { .. } => 1,
        TFormType::I { .. } => 2, TFormType::J { .. } => 4, TFormType::E { .. } => 4,
        TFormType::K { .. } => 8, TFormType::D { .. } => 8, TFormType::C { .. } => 8,
        TFormType::M { .. } => 16, TFormType::P { .. } => 8, TFormType::Q { .. } => 16,
    }
}
/// Number of values in a field: bits are given byte by byte
pub open spec fn count(t: TFormType) -> int {
    match t {
        TFormType::L { repeat_count } => repeat_count as int, TFormType::B { repeat_count } => repeat_count as int,
        TFormType::X { repeat_count } => (repeat_count as int + 7) / 8,
        TFormType::A { repeat_count } => repeat_count as int, TFormType::I { repeat_count } => repeat_count as int,
        TFormType::J { repeat_count } => repeat_count as int, TFormType::E { repeat_count } => repeat_count as int,
        TFormType::K { repeat_count } => repeat_count as int, TFormType::D { repeat_count } => repeat_count as int,
        TFormType::C { repeat_count } => repeat_count as int, TFormType::M { repeat_count } => repeat_count as int,
        TFormType::P { .. } => 1, TFormType::Q { .. } => 1,
    }
}
pub open spec fn width(t: TFormType) -> int { elem(t) * count(t) }
/// Bits of a field
pub open spec fn bits(t: TFormType) -> int { if t is X { t->X_repeat_count as int } else { 8 * width(t) } }
/// Byte of a row where a field starts
pub open spec fn off(ts: Seq<TFormType>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { off(ts, i - 1) + width(ts[i - 1]) }
}
pub open spec fn asize(ty: VariableArrayTy) -> int {
    match ty {
        VariableArrayTy::L => 1, VariableArrayTy::X => 1, VariableArrayTy::B => 1, VariableArrayTy::A => 1,
        VariableArrayTy::I => 2, VariableArrayTy::J => 4, VariableArrayTy::E => 4,
        VariableArrayTy::K => 8, VariableArrayTy::D => 8, VariableArrayTy::C => 8, VariableArrayTy::M => 16,
    }
}
pub open spec fn is_array(t: TFormType) -> bool { t is P || t is Q }
pub open spec fn array_ty(t: TFormType) -> VariableArrayTy {
    match t { TFormType::P { ty, .. } => ty, TFormType::Q { ty, .. } => ty, _ => VariableArrayTy::L }
}
/// Elements and place in the heap of an array, from its descriptor at the byte `at` of the stream
pub open spec fn array_len(d: Seq<u8>, t: TFormType, at: int) -> int {
    if t is P { be_u32(d, at) as int } else { be_u64(d, at) as int }
}
pub open spec fn array_off(d: Seq<u8>, t: TFormType, at: int) -> int {
    if t is P { be_u32(d, at + 4) as int } else { be_u64(d, at + 8) as int }
}
/// Values of an array: bits are given byte by byte
pub open spec fn array_values(d: Seq<u8>, t: TFormType, at: int) -> int {
    let n = array_len(d, t, at);
    if array_ty(t) is X { (n + 7) / 8 } else { n }
}
/// A value of a field of the main table
pub open spec fn cell(d: Seq<u8>, t: TFormType, at: int, col: usize, idx: usize) -> DataValue {
    let column = ColumnId::Index(col);
    match t {
        TFormType::L { .. } => DataValue::Logical { value: d[at] == 84, column, idx },
        TFormType::X { .. } => DataValue::Bit { byte: d[at], bit_idx: 0, column, idx },
        TFormType::B { .. } => DataValue::UnsignedByte { value: d[at], column, idx },
        TFormType::A { .. } => DataValue::Character { value: d[at] as char, column, idx },
        TFormType::I { .. } => DataValue::Short { value: be_i16(d, at), column, idx },
        TFormType::J { .. } => DataValue::Integer { value: be_i32(d, at), column, idx },
        TFormType::K { .. } => DataValue::Long { value: be_i64(d, at), column, idx },
        TFormType::E { .. } => DataValue::Float { value: be_f32(d, at), column, idx },
        TFormType::D { .. } => DataValue::Double { value: be_f64(d, at), column, idx },
        TFormType::C { .. } => DataValue::ComplexFloat { real_: be_f32(d, at), imag: be_f32(d, at + 4), column, idx },
        TFormType::M { .. } => DataValue::ComplexDouble { real_: be_f64(d, at), imag: be_f64(d, at + 8), column, idx },
        TFormType::P { .. } => DataValue::VariableLengthArray32 { num_elems: be_u32(d, at), offset_byte: be_u32(d, at + 4) },
        TFormType::Q { .. } => DataValue::VariableLengthArray64 { num_elems: be_u64(d, at), offset_byte: be_u64(d, at + 8) },
    }
}
/// The values of the first n fields of a row that starts at the byte `at` of the stream
pub open spec fn row_cells(ts: Seq<TFormType>, n: int, d: Seq<u8>, at: int) -> Seq<DataValue> decreases n {
    if n <= 0 { Seq::empty() } else { row_cells(ts, n - 1, d, at) + Seq::new(count(ts[n - 1]) as nat, |j: int| cell(d, ts[n - 1], at + off(ts, n - 1) + j * elem(ts[n - 1]), (n - 1) as usize, j as usize)) }
}
/// Some field holds values
pub open spec fn holds_values(x: BinTable) -> bool { exists|i: int| 0 <= i < x.tforms@.len() && count(#[trigger] x.tforms@[i]) > 0 }
/// What an accepted header guarantees (the repeat counts are such that the number of bits of a field is representable)
pub open spec fn accepted(x: BinTable, start: int) -> bool {
    &&& x.naxis1 <= i64::MAX && x.naxis2 <= i64::MAX && x.naxis1 * x.naxis2 <= i64::MAX
    &&& start + x.naxis1 * x.naxis2 <= i64::MAX
    &&& off(x.tforms@, x.tforms@.len() as int) == x.naxis1
    &&& x.ttypes@.len() == x.tforms@.len()
    &&& forall|i: int| 0 <= i < x.tforms@.len() ==> bits(#[trigger] x.tforms@[i]) <= usize::MAX
    &&& forall|i: int| 0 <= i < x.tforms@.len() && (#[trigger] x.tforms@[i]) is P ==> x.tforms@[i]->P_t_byte_size == asize(array_ty(x.tforms@[i]))
    &&& forall|i: int| 0 <= i < x.tforms@.len() && (#[trigger] x.tforms@[i]) is Q ==> x.tforms@[i]->Q_t_byte_size == asize(array_ty(x.tforms@[i]))
}
'''

SPEC = r'''
pub struct BinTable { pub naxis1: u64, pub naxis2: u64, pub theap: usize, pub tforms: Vec<TFormType>, pub ttypes: Vec<Option<String>> }
impl BinTable {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub struct Header<X> { pub xtension: X }
/// Equality of strings
#[verifier::external_body]
pub fn str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }
/// `sort_unstable` and `dedup` on indices
#[verifier::external_body]
pub fn sort_indices(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j],
        forall|x: usize| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x),
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
{ v.sort_unstable(); }
#[verifier::external_body]
pub fn dedup_indices(v: &mut Vec<usize>)
    ensures (forall|i: int, j: int| 0 <= i <= j < old(v)@.len() ==> old(v)@[i] <= old(v)@[j]) ==>
            forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> final(v)@[i] < final(v)@[j],
        forall|x: usize| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x),
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]),
{ v.dedup(); }

/// A value of an array of the heap
pub open spec fn array_cell(d: Seq<u8>, ty: VariableArrayTy, at: int, col: usize, idx: usize) -> DataValue {
    let column = ColumnId::Index(col);
    match ty {
        VariableArrayTy::L => DataValue::Logical { value: d[at] == 84, column, idx },
        VariableArrayTy::X => DataValue::Bit { byte: d[at], bit_idx: 0, column, idx },
        VariableArrayTy::B => DataValue::UnsignedByte { value: d[at], column, idx },
        VariableArrayTy::A => DataValue::Character { value: d[at] as char, column, idx },
        VariableArrayTy::I => DataValue::Short { value: be_i16(d, at), column, idx },
        VariableArrayTy::J => DataValue::Integer { value: be_i32(d, at), column, idx },
        VariableArrayTy::K => DataValue::Long { value: be_i64(d, at), column, idx },
        VariableArrayTy::E => DataValue::Float { value: be_f32(d, at), column, idx },
        VariableArrayTy::D => DataValue::Double { value: be_f64(d, at), column, idx },
        VariableArrayTy::C => DataValue::ComplexFloat { real_: be_f32(d, at), imag: be_f32(d, at + 4), column, idx },
        VariableArrayTy::M => DataValue::ComplexDouble { real_: be_f64(d, at), imag: be_f64(d, at + 8), column, idx },
    }
}

/// Where the iterator is: row, rank of the field among the selected ones, value of the field, value of the array
pub struct Cur { pub row: int, pub col: int, pub item: int, pub heap: int, pub inside: bool }

impl<R: Rd> TableData<R> {
    pub open spec fn ts(&self) -> Seq<TFormType> { self.ctx.tforms@ }
    pub open spec fn n1(&self) -> int { self.ctx.naxis1 as int }
    pub open spec fn rows(&self) -> int { self.ctx.naxis2 as int }
    pub open spec fn start(&self) -> int { self.start_pos as int }
    pub open spec fn field(&self, k: int) -> TFormType { self.ts()[self.cols_idx@[k] as int] }
    /// Byte of the main table where a selected field of a row starts
    pub open spec fn field_at(&self, row: int, k: int) -> int { row * self.n1() + off(self.ts(), self.cols_idx@[k] as int) }

    /// The description of the table, which no operation changes
    pub open spec fn described(&self) -> bool {
        &&& self.n1() <= i64::MAX && self.rows() <= i64::MAX && self.n1() * self.rows() <= i64::MAX
        &&& self.main_data_table_byte_size == self.n1() * self.rows()
        &&& self.start() + self.n1() * self.rows() <= i64::MAX
        &&& off(self.ts(), self.ts().len() as int) == self.n1()
        &&& self.col_byte_offsets@.len() == self.ts().len()
        &&& self.ctx.ttypes@.len() == self.ts().len()
        &&& forall|i: int| 0 <= i < self.ts().len() ==> #[trigger] self.col_byte_offsets@[i] == off(self.ts(), i)
        &&& forall|i: int| 0 <= i < self.ts().len() && (#[trigger] self.ts()[i]) is P ==> self.ts()[i]->P_t_byte_size == asize(array_ty(self.ts()[i]))
        &&& forall|i: int| 0 <= i < self.ts().len() && (#[trigger] self.ts()[i]) is Q ==> self.ts()[i]->Q_t_byte_size == asize(array_ty(self.ts()[i]))
    }
    /// The selected fields: some of those that hold values, in order
    pub open spec fn selected(&self) -> bool {
        &&& forall|k: int| 0 <= k < self.cols_idx@.len() ==> (#[trigger] self.cols_idx@[k]) < self.ts().len() && count(self.field(k)) > 0
        &&& forall|j: int, k: int| 0 <= j < k < self.cols_idx@.len() ==> self.cols_idx@[j] < self.cols_idx@[k]
    }
    /// The reader is at the byte of the main table that is accounted for, or it will be brought back there
    pub open spec fn placed(&self) -> bool {
        match self.state {
            DataReaderState::MainTable => self.reader.pos() == self.start() + self.byte_offset,
            DataReaderState::HEAP { main_table_pos, .. } => main_table_pos == SeekFrom::Start((self.start() + self.byte_offset) as u64)
        }
    }
    pub open spec fn moving(&self) -> bool { !self.seek_to_first_col && self.row_idx < self.ctx.naxis2 && self.cols_idx@.len() > 0 }
    pub open spec fn ended(&self) -> bool { !self.seek_to_first_col && self.row_idx >= self.ctx.naxis2 && self.cols_idx@.len() > 0 }
    /// In the middle of a row, the reader is at the next value
    pub open spec fn located(&self) -> bool {
        let k = self.col_idx as int;
        let t = self.field(k);
        &&& k < self.cols_idx@.len()
        &&& match self.state {
            DataReaderState::MainTable => {
                &&& self.item_idx < count(t)
                &&& self.byte_offset == self.field_at(self.row_idx as int, k) + self.item_idx * elem(t)
            },
            DataReaderState::HEAP { main_table_pos, ty, num_bytes_to_read, n_elems, t_byte_size } => {
                let at = self.start() + self.field_at(self.row_idx as int, k);
                &&& is_array(t) && ty == array_ty(t) && t_byte_size == asize(ty)
                &&& self.item_idx == 0
                &&& self.byte_offset == self.field_at(self.row_idx as int, k) + elem(t)
                &&& n_elems == array_values(self.reader.data(), t, at)
                &&& 0 < num_bytes_to_read <= n_elems * t_byte_size <= u64::MAX
                &&& num_bytes_to_read as int % t_byte_size as int == 0
                &&& self.reader.pos() == self.start() + self.ctx.theap + array_off(self.reader.data(), t, at) + n_elems * t_byte_size - num_bytes_to_read
            }
        }
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.described() && self.selected() && self.placed()
        &&& self.byte_offset <= self.main_data_table_byte_size
        &&& self.row_idx <= self.ctx.naxis2
        &&& self.moving() ==> self.located()
        &&& self.ended() ==> self.state is MainTable && self.byte_offset == self.main_data_table_byte_size
    }
    pub open spec fn cur(&self) -> Cur {
        if self.seek_to_first_col || !(self.state is HEAP) {
            Cur { row: self.row_idx as int, col: if self.seek_to_first_col { 0 } else { self.col_idx as int },
                  item: if self.seek_to_first_col { 0 } else { self.item_idx as int }, heap: 0, inside: false }
        } else {
            Cur { row: self.row_idx as int, col: self.col_idx as int, item: 0, inside: true,
                  heap: self.state->n_elems as int - self.state->num_bytes_to_read as int / self.state->t_byte_size as int }
        }
    }
    /// At the first value of a row, or after the last row
    pub open spec fn next_row_is(&self, row: int) -> bool { self.row_idx == row && !self.seek_to_first_col && (row < self.rows() ==> self.cur() == (Cur { row, col: 0, item: 0, heap: 0, inside: false })) }
    pub open spec fn in_main(&self) -> bool { self.seek_to_first_col || !(self.state is HEAP) }
    pub open spec fn at_end(&self) -> bool { self.cols_idx@.len() == 0 || self.row_idx >= self.ctx.naxis2 }
    /// Where the next field starts
    pub open spec fn next_field(&self, c: Cur) -> Cur {
        if c.col + 1 < self.cols_idx@.len() { Cur { row: c.row, col: c.col + 1, item: 0, heap: 0, inside: false } }
        else { Cur { row: c.row + 1, col: 0, item: 0, heap: 0, inside: false } }
    }
    pub open spec fn same_place(&self, c: Cur) -> bool {
        // after the last row the field does not matter
        !self.seek_to_first_col && if c.row >= self.rows() { self.row_idx == c.row && self.row_idx >= self.ctx.naxis2 } else { self.cur() == c }
    }
    /// Nothing but the position has changed
    pub open spec fn same_table(&self, o: &Self) -> bool {
        &&& self.ctx == o.ctx && self.cols_idx == o.cols_idx && self.col_byte_offsets == o.col_byte_offsets
        &&& self.start_pos == o.start_pos && self.heap == o.heap && self.main_data_table_byte_size == o.main_data_table_byte_size
        &&& kept(&self.reader, &o.reader)
    }
    // ---- what the next value is
    pub open spec fn cell_at(&self, c: Cur) -> int { self.start() + self.field_at(c.row, c.col) + c.item * elem(self.field(c.col)) }
    pub open spec fn empty_array(&self, c: Cur) -> bool {
        self.heap && !c.inside && is_array(self.field(c.col)) && array_len(self.reader.data(), self.field(c.col), self.cell_at(c)) == 0
    }
    pub open spec fn elem_at(&self, c: Cur) -> int {
        let t = self.field(c.col);
        self.start() + self.ctx.theap + array_off(self.reader.data(), t, self.cell_at(c)) + c.heap * asize(array_ty(t))
    }
    pub open spec fn from_heap(&self, c: Cur) -> bool { c.inside || (self.heap && is_array(self.field(c.col))) }
    pub open spec fn value(&self, c: Cur) -> DataValue {
        let t = self.field(c.col);
        if self.from_heap(c) {
            array_cell(self.reader.data(), array_ty(t), self.elem_at(c), self.cols_idx@[c.col], c.heap as usize)
        } else {
            cell(self.reader.data(), t, self.cell_at(c), self.cols_idx@[c.col], c.item as usize)
        }
    }
    pub open spec fn after(&self, c: Cur) -> Cur {
        let t = self.field(c.col);
        if self.from_heap(c) {
            if c.heap + 1 < array_values(self.reader.data(), t, self.cell_at(c)) { Cur { row: c.row, col: c.col, item: 0, heap: c.heap + 1, inside: true } }
            else { self.next_field(c) }
        } else if c.item + 1 < count(t) { Cur { row: c.row, col: c.col, item: c.item + 1, heap: 0, inside: false } }
        else { self.next_field(c) }
    }
    /// The first place from c on that is not an empty array
    pub open spec fn skip(&self, c: Cur) -> Cur decreases self.rows() - c.row, self.cols_idx@.len() - c.col {
        if c.row < self.rows() && 0 <= c.col < self.cols_idx@.len() && self.empty_array(c) { self.skip(self.next_field(c)) } else { c }
    }
    pub open spec fn all_present(&self, c: Cur) -> bool decreases self.rows() - c.row, self.cols_idx@.len() - c.col {
        c.row < self.rows() && 0 <= c.col < self.cols_idx@.len() ==> self.present(c) && (self.empty_array(c) ==> self.all_present(self.next_field(c)))
    }
    /// The bytes of the next value, and those of its descriptor, are in the stream
    pub open spec fn present(&self, c: Cur) -> bool {
        let t = self.field(c.col);
        let d = self.reader.data();
        &&& self.cell_at(c) + elem(t) <= d.len()
        &&& self.from_heap(c) ==> {
            &&& self.elem_at(c) + asize(array_ty(t)) <= d.len() <= i64::MAX
            &&& self.ctx.theap + array_off(d, t, self.cell_at(c)) <= i64::MAX
            &&& array_values(d, t, self.cell_at(c)) * asize(array_ty(t)) <= u64::MAX
        }
    }
}

pub proof fn lemma_off(ts: Seq<TFormType>, i: int, j: int)
    requires 0 <= i < j <= ts.len(), forall|k: int| 0 <= k < ts.len() ==> count(#[trigger] ts[k]) >= 0
    ensures 0 <= off(ts, i), off(ts, i) + width(ts[i]) <= off(ts, j)
    decreases j
{
    assert(width(ts[j - 1]) >= 0) by (nonlinear_arith) requires elem(ts[j - 1]) >= 0, count(ts[j - 1]) >= 0, width(ts[j - 1]) == elem(ts[j - 1]) * count(ts[j - 1]);
    lemma_off_pos(ts, i);
    if j > i + 1 { lemma_off(ts, i, j - 1); }
}
pub proof fn lemma_off_pos(ts: Seq<TFormType>, i: int)
    requires 0 <= i <= ts.len()
    ensures 0 <= off(ts, i)
    decreases i
{
    if i > 0 {
        lemma_off_pos(ts, i - 1);
        assert(width(ts[i - 1]) >= 0) by (nonlinear_arith) requires elem(ts[i - 1]) >= 0, count(ts[i - 1]) >= 0, width(ts[i - 1]) == elem(ts[i - 1]) * count(ts[i - 1]);
    }
}
pub proof fn lemma_off_zero(ts: Seq<TFormType>, i: int)
    requires 0 <= i <= ts.len(), forall|j: int| 0 <= j < i ==> count(#[trigger] ts[j]) == 0
    ensures off(ts, i) == 0
    decreases i
{
    if i > 0 { lemma_off_zero(ts, i - 1); assert(width(ts[i - 1]) == 0) by (nonlinear_arith) requires count(ts[i - 1]) == 0, width(ts[i - 1]) == elem(ts[i - 1]) * count(ts[i - 1]); }
}
/// A field of a row lies in this row
pub proof fn lemma_row<R: Rd>(s: &TableData<R>, row: int, k: int)
    requires s.described(), s.selected(), 0 <= row < s.rows(), 0 <= k < s.cols_idx@.len()
    ensures 0 <= off(s.ts(), s.cols_idx@[k] as int), 0 < width(s.field(k)), off(s.ts(), s.cols_idx@[k] as int) + width(s.field(k)) <= s.n1(),
        0 <= row * s.n1(), row * s.n1() + s.n1() <= s.main_data_table_byte_size, (row + 1) * s.n1() == row * s.n1() + s.n1(),
        s.col_byte_offsets@[s.cols_idx@[k] as int] == off(s.ts(), s.cols_idx@[k] as int),
        elem(s.field(k)) <= width(s.field(k)),
        k + 1 < s.cols_idx@.len() ==> off(s.ts(), s.cols_idx@[k] as int) + width(s.field(k)) <= off(s.ts(), s.cols_idx@[k + 1] as int),
{
    let i = s.cols_idx@[k] as int;
    lemma_off(s.ts(), i, s.ts().len() as int);
    if k + 1 < s.cols_idx@.len() { lemma_off(s.ts(), i, s.cols_idx@[k + 1] as int); }
    let t = s.field(k);
    assert(0 < width(t) && elem(t) <= width(t)) by (nonlinear_arith) requires elem(t) >= 1, count(t) >= 1, width(t) == elem(t) * count(t);
    assert(0 <= row * s.n1() && row * s.n1() + s.n1() <= s.n1() * s.rows() && (row + 1) * s.n1() == row * s.n1() + s.n1()) by (nonlinear_arith)
        requires 0 <= row < s.rows(), s.n1() >= 0;
}
pub proof fn lemma_item(t: TFormType, item: int)
    requires 0 <= item < count(t)
    ensures 0 <= item * elem(t), item * elem(t) + elem(t) <= width(t), (item + 1) * elem(t) == item * elem(t) + elem(t),
        item + 1 == count(t) ==> item * elem(t) + elem(t) == width(t),
{
    assert(0 <= item * elem(t) && item * elem(t) + elem(t) <= width(t) && (item + 1) * elem(t) == item * elem(t) + elem(t)
        && (item + 1 == count(t) ==> item * elem(t) + elem(t) == width(t))) by (nonlinear_arith)
        requires 0 <= item < count(t), elem(t) >= 1, width(t) == elem(t) * count(t);
}
pub proof fn lemma_mod(row: int, n1: int, e: int, x: int)
    requires 0 <= row, 0 < e <= n1, x == row * n1 + e
    ensures e < n1 ==> x % n1 == e, e == n1 ==> x % n1 == 0
{
    if e < n1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(row * n1 + e, n1, row, e); }
    else { assert((row + 1) * n1 == row * n1 + n1) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(row * n1 + e, n1, row + 1, 0); }
}
/// The values of an array that are left
pub proof fn lemma_left(n: int, t: int, left: int)
    requires 0 < left <= n * t, t >= 1, n >= 0, left % t == 0
    ensures left >= t, (n - left / t) * t == n * t - left, 0 <= n - left / t < n, (left - t) % t == 0, (left - t) / t == left / t - 1,
        (left - t == 0) <==> (n - left / t + 1 == n), left / t >= 1, left / t <= n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(left, t);
    let q = left / t;
    assert(left == t * q);
    assert(q >= 1 && q <= n) by (nonlinear_arith) requires left == t * q, 0 < left <= n * t, t >= 1;
    assert(left >= t && (n - q) * t == n * t - left && left - t == t * (q - 1)) by (nonlinear_arith) requires left == t * q, q >= 1, t >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(left - t, t, q - 1, 0);
    assert((left - t == 0) <==> (q == 1)) by (nonlinear_arith) requires left == t * q, q >= 1, t >= 1;
}
pub proof fn lemma_skip<R: Rd>(s: &TableData<R>, c: Cur)
    requires c.row < s.rows(), 0 <= c.col < s.cols_idx@.len(), s.empty_array(c)
    ensures s.skip(c) == s.skip(s.next_field(c)), s.next_field(c).row >= s.rows() ==> s.skip(c).row >= s.rows()
{
    reveal_with_fuel(TableData::skip, 3);
}
pub broadcast proof fn skip_same<R: Rd>(a: &TableData<R>, b: &TableData<R>, c: Cur)
    requires #[trigger] a.same_table(b)
    ensures (#[trigger] a.skip(c)) == b.skip(c)
    decreases a.rows() - c.row, a.cols_idx@.len() - c.col
{
    if c.row < a.rows() && 0 <= c.col < a.cols_idx@.len() && a.empty_array(c) { skip_same(a, b, a.next_field(c)); }
}
/// An array just entered
pub proof fn lemma_entered(n: int, t: int)
    requires n >= 1, t >= 1
    ensures (n * t) % t == 0, (n * t) / t == n, n * t >= 1
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * t, t, n, 0);
    assert(n * t >= 1) by (nonlinear_arith) requires n >= 1, t >= 1;
}
'''

ROWSPEC = r'''
/// The field with a name: the first one
pub open spec fn named(tt: Seq<Option<String>>, i: int, name: Seq<char>) -> bool { tt[i] is Some && tt[i]->Some_0@ == name }
pub open spec fn first_named(tt: Seq<Option<String>>, i: int, name: Seq<char>) -> bool {
    0 <= i < tt.len() && named(tt, i, name) && forall|j: int| 0 <= j < i ==> !named(tt, j, name)
}
/// The field a caller means
pub open spec fn means(ctx: &BinTable, c: ColumnId, i: int) -> bool {
    &&& 0 <= i < ctx.tforms@.len()
    &&& match c { ColumnId::Index(k) => k == i, ColumnId::Name(s) => first_named(ctx.ttypes@, i, s@) }
}
pub open spec fn chosen(ctx: &BinTable, cols: Seq<ColumnId>, n: int, i: usize) -> bool {
    i < ctx.tforms@.len() && count(ctx.tforms@[i as int]) > 0 && exists|k: int| 0 <= k < n && means(ctx, #[trigger] cols[k], i as int)
}
impl<R: Rd> TableData<R> {
    /// Values left in a field, or in an array
    pub open spec fn left(&self, c: Cur) -> int {
        let t = self.field(c.col);
        if self.from_heap(c) { array_values(self.reader.data(), t, self.cell_at(c)) - c.heap } else { count(t) - c.item }
    }
    /// The values of the row from a place on
    pub open spec fn rest(&self, c: Cur) -> Seq<DataValue> decreases self.cols_idx@.len() - c.col, self.left(c) {
        if !(0 <= c.col < self.cols_idx@.len()) { seq![] }
        else if self.empty_array(c) { if self.next_field(c).row == c.row { self.rest(self.next_field(c)) } else { seq![] } }
        else if self.left(c) <= 0 || (self.from_heap(c) && c.item != 0) { seq![] }
        else { seq![self.value(c)] + if self.after(c).row == c.row { self.rest(self.after(c)) } else { seq![] } }
    }
    /// The bytes of these values are in the stream
    pub open spec fn rest_present(&self, c: Cur) -> bool decreases self.cols_idx@.len() - c.col, self.left(c) {
        if !(0 <= c.col < self.cols_idx@.len()) { true }
        else if self.empty_array(c) { self.present(c) && (self.next_field(c).row == c.row ==> self.rest_present(self.next_field(c))) }
        else if self.left(c) <= 0 || (self.from_heap(c) && c.item != 0) { true }
        else { self.present(c) && (self.after(c).row == c.row ==> self.rest_present(self.after(c))) }
    }
}
/// The place of an iterator is that of a value or of an empty array
pub broadcast proof fn lemma_cur<R: Rd>(s: &TableData<R>)
    requires #[trigger] s.inv(), !s.at_end()
    ensures 0 <= (#[trigger] s.cur()).col < s.cols_idx@.len(), s.from_heap(s.cur()) ==> s.cur().item == 0,
        s.empty_array(s.cur()) || s.left(s.cur()) > 0, s.cur().row == s.row_idx
{
    let c = s.cur();
    assert(s.cols_idx@[c.col] < s.ts().len() && count(s.field(c.col)) > 0);
    if s.state is HEAP && !s.seek_to_first_col {
        lemma_left(s.state->n_elems as int, s.state->t_byte_size as int, s.state->num_bytes_to_read as int);
        assert(0 * elem(s.field(c.col)) == 0);
    }
}
'''

# ---- what the tiles (unit tiles) need of the rows: one text for the contract proved here and the one assumed there
TILE_ROW = r'''
        requires old(self).sized(), old(self).placed()
        ensures final(self).same_table(old(self)), final(self).sized(),
            match r {
                Some(v) => {
                    &&& old(self).idx_row < old(self).ctx.naxis2 && final(self).idx_row == old(self).idx_row + 1
                    &&& v@ =~= old(self).row(old(self).idx_row as int)
                    &&& final(self).placed()
                },
                None => {
                    &&& final(self).idx_row == old(self).idx_row
                    &&& old(self).idx_row >= old(self).ctx.naxis2 ==> *final(self) == *old(self)
                    &&& old(self).idx_row >= old(self).ctx.naxis2 || !must(&old(self).reader, old(self).ctx.naxis1 as int)
                },
            },
'''
TILE_ROW_SPEC = r'''
    /// The values of a row, all the fields
    pub open spec fn row(&self, k: int) -> Seq<DataValue> { row_cells(self.ctx.tforms@, self.ctx.tforms@.len() as int, self.reader.data(), START + k * self.ctx.naxis1) }
    pub open spec fn placed(&self) -> bool { CORE && self.reader.pos() == START + self.idx_row * self.ctx.naxis1 }
    pub open spec fn sized(&self) -> bool { 0 <= START && START + self.ctx.naxis2 * self.ctx.naxis1 <= i64::MAX && self.ctx.naxis2 <= i64::MAX && self.idx_row <= self.ctx.naxis2 }
'''


def of_table(t):
    return re.sub(r"\.(reader|ctx)\b", r".data.\1", t).replace("START", "self.data.start()").replace("CORE", "self.core()")


WHOLE = r'''
impl<R: Rd> TableData<R> {
    /// All the fields that hold values are selected, there are some
    pub open spec fn whole(&self) -> bool {
        &&& self.cols_idx@.len() > 0
        &&& forall|i: usize| #[trigger] self.cols_idx@.contains(i) <==> i < self.ts().len() && count(self.ts()[i as int]) > 0
    }
}
/// The values of a row from a value of a field on
pub open spec fn cells_from(ts: Seq<TFormType>, d: Seq<u8>, at: int, i: int, item: int) -> Seq<DataValue> decreases ts.len() - i, count(ts[i]) - item {
    if !(0 <= i < ts.len()) { Seq::empty() }
    else if item >= count(ts[i]) { cells_from(ts, d, at, i + 1, 0) }
    else { seq![cell(d, ts[i], at + off(ts, i) + item * elem(ts[i]), i as usize, item as usize)] + cells_from(ts, d, at, i, item + 1) }
}
pub proof fn lemma_field_cells(ts: Seq<TFormType>, d: Seq<u8>, at: int, i: int, item: int)
    requires 0 <= i < ts.len(), 0 <= item <= count(ts[i])
    ensures cells_from(ts, d, at, i, item) =~= Seq::new((count(ts[i]) - item) as nat, |j: int| cell(d, ts[i], at + off(ts, i) + (item + j) * elem(ts[i]), i as usize, (item + j) as usize)) + cells_from(ts, d, at, i + 1, 0)
    decreases count(ts[i]) - item
{
    if item < count(ts[i]) { lemma_field_cells(ts, d, at, i, item + 1); }
}
pub proof fn lemma_row_cells(ts: Seq<TFormType>, d: Seq<u8>, at: int, i: int)
    requires 0 <= i <= ts.len()
    ensures row_cells(ts, i, d, at) + cells_from(ts, d, at, i, 0) =~= row_cells(ts, ts.len() as int, d, at)
    decreases ts.len() - i
{
    if i < ts.len() {
        lemma_row_cells(ts, d, at, i + 1);
        lemma_field_cells(ts, d, at, i, 0);
        let a = Seq::new((count(ts[i]) - 0) as nat, |j: int| cell(d, ts[i], at + off(ts, i) + (0 + j) * elem(ts[i]), i as usize, (0 + j) as usize));
        let b = Seq::new(count(ts[i]) as nat, |j: int| cell(d, ts[i], at + off(ts, i) + j * elem(ts[i]), i as usize, j as usize));
        assert(a =~= b);
        assert(row_cells(ts, i + 1, d, at) == row_cells(ts, i, d, at) + b);
        assert((row_cells(ts, i, d, at) + b) + cells_from(ts, d, at, i + 1, 0) =~= row_cells(ts, i, d, at) + (b + cells_from(ts, d, at, i + 1, 0)));
    }
}
/// Fields without values hold none
pub proof fn lemma_no_cells(ts: Seq<TFormType>, d: Seq<u8>, at: int, i: int, j: int)
    requires 0 <= i <= j <= ts.len(), forall|k: int| i <= k < j ==> count(#[trigger] ts[k]) == 0
    ensures cells_from(ts, d, at, i, 0) == cells_from(ts, d, at, j, 0)
    decreases j - i
{
    if i < j { assert(count(ts[i]) == 0); lemma_no_cells(ts, d, at, i + 1, j); }
}
/// No field with values is passed over
pub proof fn lemma_between<R: Rd>(s: &TableData<R>, i: int, k: int)
    requires s.described(), s.selected(), s.whole(), 0 <= i < s.ts().len(), -1 <= k < s.cols_idx@.len(), k >= 0 ==> s.cols_idx@[k] < i, k + 1 < s.cols_idx@.len() ==> i < s.cols_idx@[k + 1]
    ensures count(s.ts()[i]) == 0
{
    if count(s.ts()[i]) > 0 {
        assert(s.ctx.tforms@.len() == s.ctx.tforms.len());
        assert(s.cols_idx@.contains(i as usize));
        let j = choose|j: int| 0 <= j < s.cols_idx@.len() && s.cols_idx@[j] == i as usize;
        assert(s.cols_idx@[j] == i);
    }
}
/// The values left in a row are those of all the fields, and their bytes lie in the row
pub proof fn lemma_rest<R: Rd>(s: &TableData<R>, c: Cur)
    requires s.described(), s.selected(), s.whole(), !s.heap, 0 <= c.row < s.rows(), 0 <= c.col < s.cols_idx@.len(), 0 <= c.item < count(s.field(c.col)), !c.inside, c.heap == 0
    ensures s.rest(c) =~= cells_from(s.ts(), s.reader.data(), s.start() + c.row * s.n1(), s.cols_idx@[c.col] as int, c.item),
        s.start() + c.row * s.n1() + s.n1() <= s.reader.data().len() ==> s.rest_present(c)
    decreases s.cols_idx@.len() - c.col, count(s.field(c.col)) - c.item
{
    let (ts, d, at, i) = (s.ts(), s.reader.data(), s.start() + c.row * s.n1(), s.cols_idx@[c.col] as int);
    lemma_row(s, c.row, c.col);
    lemma_item(s.field(c.col), c.item);
    assert(s.left(c) > 0 && !s.empty_array(c) && !s.from_heap(c));
    let n = s.after(c);
    if c.item + 1 < count(s.field(c.col)) { lemma_rest(s, n); }
    else {
        assert(cells_from(ts, d, at, i, c.item + 1) == cells_from(ts, d, at, i + 1, 0));
        let e = if c.col + 1 < s.cols_idx@.len() { s.cols_idx@[c.col + 1] as int } else { ts.len() as int };
        assert forall|k: int| i + 1 <= k < e implies count(#[trigger] ts[k]) == 0 by { lemma_between(s, k, c.col); }
        lemma_no_cells(ts, d, at, i + 1, e);
        if c.col + 1 < s.cols_idx@.len() { assert(n.row == c.row && n.col == c.col + 1); assert(count(s.field(n.col)) > 0); lemma_rest(s, n); }
    }
}
/// The first field with values is at the start of the row
pub proof fn lemma_first<R: Rd>(s: &TableData<R>)
    requires s.described(), s.selected(), s.whole()
    ensures off(s.ts(), s.cols_idx@[0] as int) == 0, cells_from(s.ts(), s.reader.data(), 0, 0, 0) == cells_from(s.ts(), s.reader.data(), 0, 0, 0),
        forall|at: int| #[trigger] cells_from(s.ts(), s.reader.data(), at, 0, 0) == cells_from(s.ts(), s.reader.data(), at, s.cols_idx@[0] as int, 0)
{
    let i = s.cols_idx@[0] as int;
    assert(i < s.ts().len());
    assert forall|k: int| 0 <= k < i implies count(#[trigger] s.ts()[k]) == 0 by { lemma_between(s, k, -1); }
    lemma_off_zero(s.ts(), i);
    assert forall|at: int| #[trigger] cells_from(s.ts(), s.reader.data(), at, 0, 0) == cells_from(s.ts(), s.reader.data(), at, i, 0) by { lemma_no_cells(s.ts(), s.reader.data(), at, 0, i); }
}
impl<R: Rd> TableRowData<R> {
    /// Between two rows of a table read as such, wherever the reader has been moved
    pub open spec fn core(&self) -> bool {
        let s = self.data;
        &&& s.described() && s.selected() && s.whole() && !s.heap && !s.seek_to_first_col && s.state is MainTable
        &&& self.idx_row == s.row_idx && s.row_idx <= s.ctx.naxis2 && s.byte_offset == s.row_idx * s.n1()
        &&& s.row_idx < s.rows() ==> s.col_idx == 0 && s.item_idx == 0
    }
    pub open spec fn same_table(&self, o: &Self) -> bool { self.data.ctx == o.data.ctx && self.data.start_pos == o.data.start_pos && kept(&o.data.reader, &self.data.reader) }
    ROWSPECS
    pub fn next_whole(&mut self) -> (r: Option<Vec<DataValue>>) ROWCONTRACT
    {
        proof {
            let s = self.data; let row = s.row_idx as int;
            lemma_first(&s);
            assert(row * s.n1() <= s.rows() * s.n1()) by (nonlinear_arith) requires 0 <= row <= s.rows(), s.n1() >= 0;
            assert(row == s.rows() ==> row * s.n1() == s.n1() * s.rows()) by (nonlinear_arith);
            if row < s.rows() {
                lemma_row(&s, row, 0); lemma_item(s.field(0), 0);
                assert(0 * elem(s.field(0)) == 0);
                assert(s.inv());
                lemma_rest(&s, s.cur());
                lemma_row_cells(s.ts(), s.reader.data(), s.start() + row * s.n1(), 0);
                assert(row_cells(s.ts(), 0, s.reader.data(), s.start() + row * s.n1()) =~= Seq::empty());
                assert(s.cur() == (Cur { row, col: 0, item: 0, heap: 0, inside: false }));
                assert(s.rest(s.cur()) =~= self.row(row));
            }
            assert(s.inv());
        }
        let r = self.next_row();
        proof {
            if r is Some {
                let s = self.data; let row = s.row_idx as int;
                assert(s.whole());
                lemma_first(&s);
                assert(row == s.rows() ==> row * s.n1() == s.n1() * s.rows()) by (nonlinear_arith);
                assert(0 * elem(s.field(0)) == 0);
                assert(s.byte_offset == row * s.n1());
                assert(self.core());
            }
        }
        r
    }
}
/// The rows of a table just opened
pub fn whole_rows<R: Rd>(reader: R, header: &Header<BinTable>, start_pos: u64) -> (r: TableRowData<R>)
    requires accepted(header.xtension, start_pos as int), reader.pos() == start_pos, holds_values(header.xtension)
    ensures r.placed(), r.idx_row == 0, r.data.ctx == header.xtension, r.data.start() == start_pos, r.data.reader == reader
{
    let mut data = TableData::new(reader, header, start_pos);
    data.read_the_heap(false);
    proof { let i = choose|i: int| 0 <= i < data.ts().len() && count(#[trigger] data.ts()[i]) > 0; assert(data.ctx.tforms@.len() == data.ctx.tforms.len()); assert(data.cols_idx@.contains(i as usize)); lemma_first(&data); assert(0 * data.n1() == 0); assert(0 * elem(data.field(0)) == 0);  assert(data.cols_idx@.len() > 0); assert(data.whole()); }
    data.row_iter()
}
'''

BITS = r'''
    ensures r == if bits(*self) <= usize::MAX { bits(*self) } else { usize::MAX as int },
'''
BITS_ENTRY = r'''proof {
    assert(width(*self) == elem(*self) * count(*self));
    assert forall|a: int, b: int, c: int| #[trigger] (a * (b * c)) == (a * b) * c by { assert(a * (b * c) == (a * b) * c) by (nonlinear_arith); }
}'''
BYTES = r'''
    ensures bits(*self) <= usize::MAX ==> r == width(*self), r > 0 <==> count(*self) > 0,
'''
BYTES_ENTRY = r'''proof {
    let t = *self;
    assert(count(t) > 0 ==> width(t) >= 1) by (nonlinear_arith) requires width(t) == elem(t) * count(t), elem(t) >= 1;
    assert(count(t) == 0 ==> width(t) == 0) by (nonlinear_arith) requires width(t) == elem(t) * count(t);
    assert(count(t) >= 0);
}'''
FIND = r'''
    ensures match r {
        Some(i) => first_named(ttypes@, i as int, ttype@),
        None => forall|j: int| 0 <= j < ttypes@.len() ==> !named(ttypes@, j, ttype@),
    },
'''
FIND_INV = r'''
    invariant_except_break out_ is None, forall|j: int| 0 <= j < k_ ==> !named(ttypes@, j, ttype@),
    invariant k_ <= ttypes@.len(),
    ensures match out_ { Some(i) => first_named(ttypes@, i as int, ttype@), None => forall|j: int| 0 <= j < ttypes@.len() ==> !named(ttypes@, j, ttype@) },
    decreases ttypes@.len() - k_,
'''
FIND_M = r'''
    ensures match r {
        Some(i) => first_named(self.ttypes@, i as int, ttype@),
        None => forall|j: int| 0 <= j < self.ttypes@.len() ==> !named(self.ttypes@, j, ttype@),
    },
'''
SELECT = r'''
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).seek_to_first_col, final(self).row_idx == old(self).row_idx,
        final(self).ctx == old(self).ctx, final(self).heap == old(self).heap, final(self).start_pos == old(self).start_pos,
        kept(&final(self).reader, &old(self).reader),
        forall|i: usize| #[trigger] final(self).cols_idx@.contains(i) <==> chosen(&old(self).ctx, cols@, cols@.len() as int, i),
'''
SELECT_INV = r'''
    invariant
        *self == *old(self), k_ <= cols@.len(),
        forall|i: usize| #[trigger] out_@.contains(i) <==> chosen(&self.ctx, cols@, k_ as int, i),
    decreases cols@.len() - k_,
'''
NEW = r'''
    requires accepted(header.xtension, start_pos as int), reader.pos() == start_pos,
    ensures
        r.inv(), !r.seek_to_first_col, r.state is MainTable, r.row_idx == 0, r.byte_offset == 0, r.col_idx == 0, r.item_idx == 0, r.ctx == header.xtension, r.start_pos == start_pos, r.reader == reader, r.heap,
        r.rows() > 0 && r.cols_idx@.len() > 0 ==> r.cur() == (Cur { row: 0, col: 0, item: 0, heap: 0, inside: false }) && !r.at_end(),
        forall|i: usize| #[trigger] r.cols_idx@.contains(i) <==> i < r.ts().len() && count(r.ts()[i as int]) > 0,
'''
NEW_INV = [r'''
    invariant
        k_ <= ctx.tforms@.len(), *ctx == header.xtension, accepted(*ctx, start_pos as int),
        out_@.len() == k_, cumul_num_bytes == off(ctx.tforms@, k_ as int),
        forall|i: int| 0 <= i < k_ ==> #[trigger] out_@[i] == off(ctx.tforms@, i),
    decreases ctx.tforms@.len() - k_,
''', r'''
    invariant
        k_ <= ctx.tforms@.len(), *ctx == header.xtension, accepted(*ctx, start_pos as int),
        forall|i: usize| #[trigger] out_@.contains(i) <==> i < k_ && count(ctx.tforms@[i as int]) > 0,
        out_@.len() == 0 ==> forall|j: int| 0 <= j < k_ ==> count(#[trigger] ctx.tforms@[j]) == 0,
        out_@.len() > 0 ==> forall|j: int| 0 <= j < out_@[0] ==> count(#[trigger] ctx.tforms@[j]) == 0,
        forall|j: int| 0 <= j < out_@.len() ==> #[trigger] out_@[j] < k_ && count(ctx.tforms@[out_@[j] as int]) > 0,
        forall|i: int, j: int| 0 <= i < j < out_@.len() ==> out_@[i] < out_@[j],
    decreases ctx.tforms@.len() - k_,
''']
NEW_ENTRY = r'''broadcast use vstd::seq_lib::group_seq_properties;
proof {
    let ts = header.xtension.tforms@;
    assert forall|i: int| 0 <= i < ts.len() implies 0 <= #[trigger] off(ts, i) && off(ts, i) + width(ts[i]) <= header.xtension.naxis1 by { lemma_off(ts, i, ts.len() as int); }
    assert forall|i: int| 0 <= i <= ts.len() implies 0 <= #[trigger] off(ts, i) by { lemma_off_pos(ts, i); }
    assert forall|i: int| 0 <= i <= ts.len() && (forall|j: int| 0 <= j < i ==> count(#[trigger] ts[j]) == 0) implies #[trigger] off(ts, i) == 0 by { lemma_off_zero(ts, i); }
    assert(header.xtension.naxis1 * header.xtension.naxis2 >= 0) by (nonlinear_arith) requires header.xtension.naxis1 >= 0, header.xtension.naxis2 >= 0;
}'''
ROW_NEXT = r'''
    requires old(self).data.inv(), old(self).idx_row == old(self).data.row_idx,
    ensures
        final(self).data.same_table(&old(self).data),
        match r {
            Some(v) => {
                &&& !old(self).data.at_end() && v@ =~= old(self).data.rest(old(self).data.cur())
                &&& final(self).data.inv() && final(self).idx_row == old(self).idx_row + 1 && final(self).data.row_idx == final(self).idx_row
                &&& final(self).data.next_row_is(final(self).idx_row as int)
            },
            None => {
                &&& final(self).idx_row == old(self).idx_row && (old(self).data.at_end() ==> *final(self) == *old(self))
                &&& old(self).data.at_end() || !old(self).data.reader.reliable() || !old(self).data.rest_present(old(self).data.cur())
            },
        },
'''
ROW_INV = r'''
    invariant
        self.data.inv(), self.data.same_table(&old(self).data), self.idx_row == old(self).idx_row, old(self).data.inv(), old(self).data.row_idx == self.idx_row,
        self.data.row_idx == self.idx_row || (self.data.row_idx == self.idx_row + 1 && !old(self).data.at_end()),
        old(self).data.at_end() ==> *self == *old(self),
        self.data.row_idx == self.idx_row + 1 ==> self.data.next_row_is(self.idx_row + 1),
        self.data.row_idx == self.idx_row && !old(self).data.at_end() ==> {
            &&& old(self).data.rest(old(self).data.cur()) =~= row_data@ + old(self).data.rest(self.data.cur())
            &&& old(self).data.rest_present(old(self).data.cur()) ==> old(self).data.rest_present(self.data.cur())
        },
        self.data.row_idx == self.idx_row + 1 ==> old(self).data.rest(old(self).data.cur()) =~= row_data@,
    decreases self.data.rows() - self.data.row_idx, self.data.cols_idx@.len() - self.data.cur().col, self.data.left(self.data.cur()),
'''
NEXT_COL = r'''
    requires
        old(self).described(), old(self).selected(), old(self).placed(), old(self).state is MainTable, old(self).moving(),
        old(self).col_idx < old(self).cols_idx@.len(),
        old(self).byte_offset == old(self).field_at(old(self).row_idx as int, old(self).col_idx as int) + width(old(self).field(old(self).col_idx as int)),
    ensures
        final(self).same_table(old(self)),
        old(self).reader.reliable() ==> r is Ok,
        r is Ok ==> {
            &&& final(self).inv() && final(self).state is MainTable && !final(self).seek_to_first_col
            &&& final(self).same_place(old(self).next_field(Cur { row: old(self).row_idx as int, col: old(self).col_idx as int, item: 0, heap: 0, inside: false }))
        },
'''
NEXT_COL_ENTRY = r'''proof {
    let k = self.col_idx as int;
    let row = self.row_idx as int;
    lemma_row(self, row, k);
    lemma_row(self, row, 0);
    if k + 1 < self.cols_idx@.len() { lemma_row(self, row, k + 1); lemma_item(self.field(k + 1), 0); }
    lemma_item(self.field(0), 0);
    if row + 1 < self.rows() { lemma_row(self, row + 1, 0); }
    lemma_mod(row, self.n1(), off(self.ts(), self.cols_idx@[k] as int) + width(self.field(k)), self.byte_offset as int);
    if k + 1 < self.cols_idx@.len() { vstd::arithmetic::div_mod::lemma_small_mod((k + 1) as nat, self.cols_idx@.len()); }
    else { vstd::arithmetic::div_mod::lemma_mod_self_0(self.cols_idx@.len() as int); }
    if k + 1 == self.cols_idx@.len() { assert(off(self.ts(), self.cols_idx@[0] as int) <= off(self.ts(), self.cols_idx@[k] as int)) by {
        if k > 0 { lemma_off(self.ts(), self.cols_idx@[0] as int, self.cols_idx@[k] as int); lemma_row(self, row, 0); } } }
}'''

SEEK_ROW = r'''
    requires old(self).inv(),
    ensures
        final(self).same_table(old(self)),
        r is Err && idx >= old(self).rows() ==> *final(self) == *old(self),
        idx >= old(self).rows() ==> r is Err,
        idx < old(self).rows() && old(self).reader.reliable() ==> r is Ok,
        r is Ok ==> {
            &&& final(self).inv() && final(self).state is MainTable
            &&& !final(self).seek_to_first_col
            &&& final(self).row_idx == idx && final(self).col_idx == 0 && final(self).item_idx == 0
        },
'''
SEEK_ROW_ENTRY = r'''proof {
    if idx < self.rows() {
        if self.cols_idx@.len() > 0 { lemma_row(self, idx as int, 0); lemma_item(self.field(0), 0); }
        else { assert(0 <= idx * self.n1() <= self.main_data_table_byte_size) by (nonlinear_arith)
            requires 0 <= idx < self.rows(), self.n1() >= 0, self.main_data_table_byte_size == self.n1() * self.rows(); }
    }
}'''

JUMP = r'''
    requires
        old(self).described(), old(self).selected(), old(self).placed(), old(self).moving(), old(self).state is MainTable,
        old(self).reader.pos() >= 0, old(self).byte_offset <= old(self).main_data_table_byte_size,
        t_byte_size == asize(ty), n_elems >= 1,
    ensures
        final(self).same_table(old(self)),
        final(self).row_idx == old(self).row_idx, final(self).col_idx == old(self).col_idx, final(self).item_idx == old(self).item_idx,
        final(self).byte_offset == old(self).byte_offset, final(self).seek_to_first_col == old(self).seek_to_first_col,
        ({
            let n = if ty is X { (n_elems + 7) / 8 } else { n_elems as int };
            &&& (old(self).reader.reliable() && old(self).ctx.theap + byte_offset <= i64::MAX && n * t_byte_size <= u64::MAX
                && old(self).start() + old(self).ctx.theap + byte_offset <= i64::MAX) ==> r is Ok
            &&& r is Ok ==> {
                &&& final(self).state is HEAP
                &&& final(self).state->ty == ty && final(self).state->t_byte_size == t_byte_size
                &&& final(self).state->n_elems == n
                &&& final(self).state->num_bytes_to_read == n * t_byte_size
                &&& final(self).state->main_table_pos == SeekFrom::Start((old(self).start() + old(self).byte_offset) as u64)
                &&& final(self).reader.pos() == old(self).start() + old(self).ctx.theap + byte_offset
            }
        }),
'''
JUMP_MAIN = r'''
    requires old(self).placed(), 0 <= old(self).start() + old(self).byte_offset <= i64::MAX,
    ensures
        final(self).same_table(old(self)), final(self).row_idx == old(self).row_idx, final(self).col_idx == old(self).col_idx,
        final(self).item_idx == old(self).item_idx, final(self).byte_offset == old(self).byte_offset, final(self).seek_to_first_col == old(self).seek_to_first_col,
        old(self).reader.reliable() ==> r is Ok,
        r is Ok ==> final(self).state is MainTable && final(self).placed(),
'''

NEXT_VALUE = r'''
    requires old(self).inv(),
    ensures
        final(self).same_table(old(self)),
        match r {
            Some(Some(v)) => {
                &&& !old(self).at_end() && final(self).inv()
                &&& !old(self).empty_array(old(self).cur())
                &&& v == old(self).value(old(self).cur())
                &&& final(self).same_place(old(self).after(old(self).cur()))
            },
            Some(None) => {
                &&& !old(self).at_end() && final(self).inv() && !final(self).seek_to_first_col && !(final(self).state is HEAP)
                &&& old(self).empty_array(old(self).cur())
                &&& final(self).same_place(old(self).next_field(old(self).cur()))
                &&& old(self).skip(old(self).cur()) == old(self).skip(old(self).next_field(old(self).cur()))
                &&& final(self).at_end() ==> old(self).skip(old(self).cur()).row >= old(self).rows()
            },
            None => (old(self).at_end() ==> *final(self) == *old(self)) && (old(self).at_end() || !old(self).reader.reliable() || !old(self).present(old(self).cur())),
        },
    decreases (if old(self).state is HEAP && !old(self).seek_to_first_col { 0int } else { 3 }),
'''
NEXT_VALUE_ENTRY = r'''proof {
    if !self.at_end() {
        let c = self.cur();
        lemma_row(self, c.row, c.col);
        let t = self.field(c.col);
        lemma_item(t, c.item);
        if self.empty_array(c) { lemma_skip(self, c); }
        if self.state is HEAP && !self.seek_to_first_col {
            lemma_left(self.state->n_elems as int, self.state->t_byte_size as int, self.state->num_bytes_to_read as int);
        }
        if is_array(t) {
            let n = array_values(self.reader.data(), t, self.cell_at(c));
            if n >= 1 { lemma_entered(n, asize(array_ty(t))); }
        }
    }
}'''


NEXT = r"""
    requires old(self).inv(),
    ensures
        final(self).same_table(old(self)),
        ({
            let c = old(self).skip(old(self).cur());
            match r {
                Some(v) => {
                    &&& final(self).inv()
                    &&& c.row < old(self).rows() && old(self).cols_idx@.len() > 0
                    &&& v == old(self).value(c)
                    &&& final(self).same_place(old(self).after(c))
                },
                None => old(self).at_end() || c.row >= old(self).rows() || !old(self).reader.reliable() || !old(self).all_present(old(self).cur()),
            }
        }),
    decreases (if old(self).state is HEAP && !old(self).seek_to_first_col { 2int } else { 5 }),
"""
NEXT_INV = r"""
    invariant
        self.inv(), self.same_table(old(self)), old(self).inv(),
        (self.state is HEAP && !self.seek_to_first_col) || (old(self).state is HEAP && !old(self).seek_to_first_col) ==> *self == *old(self),
        old(self).at_end() ==> self.at_end(),
        self.at_end() && !old(self).at_end() ==> old(self).skip(old(self).cur()).row >= old(self).rows(),
        !self.at_end() ==> !old(self).at_end() && old(self).skip(self.cur()) == old(self).skip(old(self).cur())
            && (old(self).all_present(old(self).cur()) ==> old(self).all_present(self.cur())),
    decreases self.rows() - self.row_idx, self.cols_idx@.len() - self.cur().col,
"""


def consts(u):
    """The sizes of the fields, with the values they have in the source"""
    h = u.src(H)
    m = re.search(r"const\s+BYTES_SIZE\s*:\s*usize\s*=\s*Self::BITS_SIZE\.div_ceil\(8\)\s*;", h.text)
    if not m:
        raise Lost("BYTES_SIZE")
    n = 0
    for m in find_code(h.text, r"impl\s+TForm\s+for\s+(\w+)\s*\{"):
        b = h.text[m.end() - 1:match_close(h.text, m.end() - 1) + 1]
        v = re.search(r"const\s+BITS_SIZE\s*:\s*usize\s*=\s*(\d+)\s*;", b)
        if not v:
            raise Lost("BITS_SIZE")
        if "BYTES_SIZE" in b:
            raise Lost("BYTES_SIZE overridden")
        bits = int(v.group(1))
        u.add("pub struct %s;\nimpl %s { pub const BITS_SIZE: usize = %d; pub const BYTES_SIZE: usize = %d; }" % (m.group(1), m.group(1), bits, -(-bits // 8)))
        n += 1
    if n != 13:
        raise Lost("13 types of fields expected, found %d" % n)
    u.notes.add("the associated constants BITS_SIZE and BYTES_SIZE of the 13 field types replaced by inherent constants with the values in the source")


def endian(h, b):
    b = sub_code(b, r"(read_\w+)\s*::\s*<\s*BigEndian\s*>\s*\(", r"\1_be(")
    b = sub_code(b, r"(read_\w+)\s*::\s*<\s*LittleEndian\s*>\s*\(", r"\1_le(")
    return h, b


def row(h, b):
    b = sub_code(b, r"vec!\s*\[\s*\]", "Vec::new()")
    return h, sub_code(b, r"\.\s*into_boxed_slice\s*\(\s*\)", "")


def select(u):
    def edit(h, b):
        h, b = u.chains(1)(h, b)
        h = re.sub(r"->.*$", "", h)
        b = re.sub(r"\bself\s*\}\s*$", "}", b)
        b = sub_code(b, r"([\w.]+)\s*\.\s*sort_unstable\s*\(\s*\)", r"sort_indices(&mut \1)")
        b = sub_code(b, r"([\w.]+)\s*\.\s*dedup\s*\(\s*\)", r"dedup_indices(&mut \1)")
        return h, b
    return edit


def fields(t):
    return re.sub(r"(?m)^(\s+)(?!pub\b)(\w+\s*:)", r"\1pub \2", t)


def types(u):
    u.item(M, r"pub enum DataValue")
    u.item(M, r"pub enum ColumnId")
    u.item(H, r"pub\(crate\) enum TFormType")
    u.item(H, r"pub\(crate\) enum VariableArrayTy", derive="Clone, Copy")
    u.item(D, r"enum DataReaderState")
    t = u.item(D, r"pub struct TableData", edit=fields)
    consts(u)


MAIN = "L X B A I J K E D C M P Q".split()
HEAP = "L X B A I J K E D C M".split()


def cases(u):
    """next_value is verified once per type of field: the same text under preconditions that cover all cases"""
    def one(name, cond):
        contract = NEXT_VALUE.replace("requires old(self).inv(),", "requires old(self).inv(), !old(self).at_end(), %s," % cond)
        u.fn(D, "next_value", contract, IMPL, entry=NEXT_VALUE_ENTRY, edit=endian, rename=name, attrs="#[verifier::spinoff_prover]\n#[verifier::rlimit(40)]")
    for t in MAIN:
        one("next_value_main_" + t, "old(self).in_main(), old(self).field(old(self).cur().col) is %s" % t)
    for t in HEAP:
        one("next_value_heap_" + t, "!old(self).in_main(), old(self).state->ty is %s" % t)
    up = NEXT_VALUE.replace("{ 0int } else { 3 }", "{ 1int } else { 4 }")
    u.add("pub fn next_value(&mut self) -> (r: Option<Option<DataValue>>)\n" + up + """{
    if self.cols_idx.is_empty() || self.row_idx >= self.ctx.naxis2 as usize { return None; }
    if !self.seek_to_first_col {
        match &self.state {
            DataReaderState::HEAP { ty, .. } => { return match ty { %s }; }
            _ => {}
        }
    }
    let k = if self.seek_to_first_col { 0 } else { self.col_idx };
    match &self.ctx.tforms[self.cols_idx[k]] { %s }
}""" % (" ".join("VariableArrayTy::%s => self.next_value_heap_%s()," % (t, t) for t in HEAP),
        " ".join("TFormType::%s { .. } => self.next_value_main_%s()," % (t, t) for t in MAIN)))
    u.notes.add("`next_value` verified as 24 copies of its text, one per type of field (13) or array (11), each with the precondition that selects "
                "the case; a dispatcher, itself verified, shows that the cases cover the contract used by the callers")


def build(mdir, probe=False):
    u = Unit("table", mdir)
    u.probe = probe
    u.add(ERRORS + READER + DIV_CEIL)
    types(u)
    u.add(SPEC)
    u.add(CELLS)
    u.trust(TRUST_READER)
    u.trust(TRUST_DIV_CEIL)
    u.notes.add("`BinTable` reduced to the members used (naxis1, naxis2, theap, tforms); private members made public; derives dropped")
    u.notes.add("`read_x::<BigEndian>()` written `read_x_be()` (and LittleEndian `_le`)")
    u.add(ROWSPEC)
    u.item(ROW, r"pub struct TableRowData", edit=fields)
    u.notes.add("`Header` reduced to the member `xtension`; `select_fields` returns nothing instead of `&mut Self`; a row is given as Vec instead of Box<[DataValue]>")
    u.trust("contracts of str equality, [usize]::sort_unstable, Vec<usize>::dedup and the derived Clone of BinTable, {usize}::saturating_mul")
    u.add("impl TFormType {")
    u.fn(H, "num_bits_field", BITS, r"impl TFormType", entry=BITS_ENTRY)
    u.fn(H, "num_bytes_field", BYTES, r"impl TFormType", entry=BYTES_ENTRY)
    u.add("}")

    def find(h, b):
        b = sub_code(b, r"(\w+)\s*==\s*(\w+)", r"str_eq(\1, \2)", 1, "comparison of names")
        return u.chains(1)(h, b)
    u.fn(H, "find_field_by_ttype", FIND, free=True, edit=find, invs=[FIND_INV])
    u.add("impl BinTable {")
    u.fn(H, "find_field_by_ttype", FIND_M, r"impl BinTable")
    u.add("}\nimpl<X> Header<X> {")
    u.fn("src/hdu/header/mod.rs", "get_xtension", "    ensures *r == self.xtension,", r"Header<X>")
    u.add("}")
    u.add("impl<R: Rd> TableData<R> {")
    u.fn(D, "seek_to_next_col", NEXT_COL, IMPL, entry=NEXT_COL_ENTRY, attrs="#[verifier::spinoff_prover]")
    u.fn(D, "seek_to_row", SEEK_ROW, IMPL, entry=SEEK_ROW_ENTRY, attrs="#[verifier::spinoff_prover]")
    u.fn(D, "jump_to_heap", JUMP, IMPL, attrs="#[verifier::spinoff_prover]")
    u.fn(D, "jump_to_main_table", JUMP_MAIN, IMPL)
    u.fn(D, "new", NEW, r"impl<R> TableData<R>", edit=u.chains(2), invs=NEW_INV, entry=NEW_ENTRY, attrs="#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]")
    u.fn(D, "select_fields", SELECT, IMPL, edit=select(u), invs=[SELECT_INV], entry="broadcast use vstd::seq_lib::group_seq_properties;", attrs="#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]")
    cases(u)
    u.fn(D, "next", NEXT, r"Iterator for TableData<R>", invs=[NEXT_INV], head="pub fn next(&mut self) -> Option<DataValue>", entry="broadcast use skip_same;", attrs="#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]")
    u.fn(D, "read_the_heap", "    ensures *final(self) == (TableData { heap, ..*old(self) }),", r"impl<R> TableData<R>")
    u.fn(D, "get_ctx", "    ensures *r == self.ctx,", r"impl<R> TableData<R>")
    u.fn(D, "get_reader", "    ensures *r == old(self).reader, *final(self) == (TableData { reader: *final(r), ..*old(self) }),", r"impl<R> TableData<R>")
    u.fn(D, "row_iter", "    ensures r.data == self, r.idx_row == self.row_idx,", r"impl<R> TableData<R>", edit=lambda h, b: (h, sub_code(b, r"TableRowData\s*::\s*new\s*\(", "TableRowData::new_rows(")))
    u.add("}\nimpl<R: Rd> TableRowData<R> {")
    u.fn(ROW, "get_ctx", "    ensures *r == self.data.ctx,", r"impl<R> TableRowData<R>")
    u.fn(ROW, "get_row_idx", "    ensures r == self.idx_row,", r"impl<R> TableRowData<R>")
    u.fn(ROW, "get_reader", "    ensures *r == old(self).data.reader, final(self).data == (TableData { reader: *final(r), ..old(self).data }), final(self).idx_row == old(self).idx_row,", r"impl<R> TableRowData<R>")
    u.fn(ROW, "table_data", "    ensures r == self.data,", r"impl<R> TableRowData<R>")
    u.fn(ROW, "next", ROW_NEXT, r"Iterator for TableRowData<R>", invs=[ROW_INV], rename="next_row", edit=row, head="pub fn next(&mut self) -> Option<Vec<DataValue>>", entry="broadcast use lemma_cur;", attrs="#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]")
    u.fn(ROW, "new", "    ensures r.data == data, r.idx_row == data.row_idx,", r"impl<R> TableRowData<R>", rename="new_rows")
    u.add("}")
    u.add(WHOLE.replace("ROWSPECS", of_table(TILE_ROW_SPEC)).replace("ROWCONTRACT", of_table(TILE_ROW)))
    return u
