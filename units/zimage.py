"""The description of a tile-compressed image in the header of its table (C15, C16): BinTable::parse, the part that computes `z_image`."""
import re

from card import str_match
from common import DIV_CEIL, TRUST_DIV_CEIL
from extract import Lost, find_code, match_close, sub_code
from sizes import PARSED, PRE, boxes, kw
from unit import Unit, desugar_chain, desugar_for, desugar_options, statements
import table

XB = "src/hdu/header/extension/bintable.rs"
HD = "src/hdu/header/mod.rs"
XA = "src/hdu/header/extension/asciitable.rs"
C = "src/card.rs"

SPEC = r'''
impl Parsed for i64 { open spec fn of(v: Value) -> Option<i64> { match v { Value::Integer { value, .. } => Some(value), _ => None } } }
impl Parsed for ZQuantiz { uninterp spec fn of(v: Value) -> Option<ZQuantiz>; }
impl<T: Parsed> Parsed for Option<T> { open spec fn of(v: Value) -> Option<Option<T>> { match v { Value::Undefined => Some(None), _ => match T::of(v) { Some(x) => Some(Some(x)), None => None } } } }
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: std::marker::Destruct ensures r == if a is Some { a } else { b };
pub axiom fn undefined() ensures u64::of(Value::Undefined) is None, ZQuantiz::of(Value::Undefined) is None;
pub uninterp spec fn without_spaces(t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct Text<'a> { t: &'a str }
impl<'a> Text<'a> {
    pub uninterp spec fn tx(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn eq_(&self, t: &str) -> (r: bool) ensures r == (self.tx() == t@) { unimplemented!() }
}
#[verifier::external_body]
pub fn trim_end_<'a>(t: &'a String) -> (r: Text<'a>) ensures r.tx() == without_spaces(t@) { unimplemented!() }
impl Parsed for u8 { open spec fn of(v: Value) -> Option<u8> { match v { Value::Integer { value, .. } => if 0 <= value < 256 { Some(value as u8) } else { None }, _ => None } } }
impl Parsed for u16 { open spec fn of(v: Value) -> Option<u16> { match v { Value::Integer { value, .. } => if 0 <= value < 65536 { Some(value as u16) } else { None }, _ => None } } }
pub uninterp spec fn replaced(t: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn replace_(t: &String, a: &str, b: &str) -> (r: String) ensures r@ == replaced(t@, a@, b@) { t.replace(a, b) }
#[verifier::external_body]
pub fn starts_with_(t: &String, a: &str) -> (r: bool) ensures r == (t@.len() >= a@.len() && t@.take(a@.len() as int) == a@) { t.starts_with(a) }
/// The value a keyword gives to the block size: that of ZVALn if it is ZNAMEn = 'BLOCKSIZE'
pub open spec fn names_blocksize(v: ValueMap, k: (String, Value)) -> Option<u16> {
    match k.1 { Value::String { value, .. } =>
        if value@ == "BLOCKSIZE"@ && k.0@.len() >= "ZNAME"@.len() && k.0@.take("ZNAME"@.len() as int) == "ZNAME"@ { u16::of(v.at(replaced(k.0@, "NAME"@, "VAL"@))) } else { None }, _ => None }
}
pub open spec fn blocksize_from(v: ValueMap, i: int) -> Option<u16> decreases v.entries().len() - i {
    if !(0 <= i < v.entries().len()) { None } else { match names_blocksize(v, v.entries()[i]) { Some(b) => Some(b), None => blocksize_from(v, i + 1) } }
}
/// The first one in the header, 32 if there is none
pub open spec fn blocksize(v: ValueMap) -> u16 { match blocksize_from(v, 0) { Some(b) => b, None => 32 } }
impl ValueMap {
    /// The keywords in the order of the header, with their values
    pub uninterp spec fn entries(&self) -> Seq<(String, Value)>;
    #[verifier::external_body]
    pub fn count_(&self) -> (r: usize) ensures r == self.entries().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_(&self, i: usize) -> (r: (&String, &Value)) requires i < self.entries().len() ensures *r.0 == self.entries()[i as int].0, *r.1 == self.entries()[i as int].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, key: &str) -> (r: Option<&Value>) ensures match r { Some(x) => *x == self.at(key@), None => self.at(key@) is Undefined } { unimplemented!() }
}
pub open spec fn is_rice(t: Seq<char>) -> bool { t == "RICE_1"@ || t == "RICE_ONE"@ }
pub open spec fn algorithm(v: ValueMap) -> Option<ZCmpType> {
    match v.at("ZCMPTYPE"@) {
        Value::String { value, .. } => { let t = without_spaces(value@);
            if t == "GZIP_1"@ { Some(ZCmpType::Gzip1) } else if t == "GZIP_2"@ { Some(ZCmpType::Gzip2) } else if is_rice(t) { Some(ZCmpType::Rice { blocksize: blocksize(v), bytepix: 4 }) }
            else if t == "PLI0_1"@ { Some(ZCmpType::PLI0_1) } else if t == "HCOMPRESS_1"@ { Some(ZCmpType::Hcompress1) } else { None } },
        _ => None,
    }
}
/// The axes and the tiles: by default a tile is a row of the image
pub open spec fn tile(v: ValueMap, i: int) -> usize { match v.vali::<u64>("ZTILE", i) { Some(t) => t as usize, None => if i == 1 { v.vali::<u64>("ZNAXIS", 1)->Some_0 as usize } else { 1 } } }
pub open spec fn shape(v: ValueMap, n: int) -> Option<(Seq<u64>, Seq<usize>)> decreases n {
    if n <= 0 { Some((Seq::empty(), Seq::empty())) } else { match (shape(v, n - 1), v.vali::<u64>("ZNAXIS", n)) { (Some((a, t)), Some(x)) => Some((a.push(x), t.push(tile(v, n)))), _ => None } }
}
pub proof fn lemma_shape(v: ValueMap, m: int, n: int) requires 0 <= m <= n, shape(v, m) is None ensures shape(v, n) is None decreases n - m { if m < n { lemma_shape(v, m, n - 1); } }
pub proof fn lemma_shape_len(v: ValueMap, n: int) requires 0 <= n, shape(v, n) is Some ensures shape(v, n)->Some_0.0.len() == n, shape(v, n)->Some_0.1.len() == n decreases n { if n > 0 { lemma_shape_len(v, n - 1); } }
pub open spec fn named(tt: Seq<Option<String>>, i: int, name: Seq<char>) -> bool { tt[i] is Some && tt[i]->Some_0@ == name }
pub open spec fn first_named(tt: Seq<Option<String>>, i: int, name: Seq<char>) -> bool { 0 <= i < tt.len() && named(tt, i, name) && forall|j: int| 0 <= j < i ==> !named(tt, j, name) }
pub open spec fn column(tt: Seq<Option<String>>, name: Seq<char>) -> Option<int> { if exists|i: int| first_named(tt, i, name) { Some(choose|i: int| first_named(tt, i, name)) } else { None } }
pub proof fn lemma_column(tt: Seq<Option<String>>, name: Seq<char>) ensures
    forall|i: int| #[trigger] first_named(tt, i, name) ==> column(tt, name) == Some(i),
    (forall|j: int| 0 <= j < tt.len() ==> !named(tt, j, name)) ==> column(tt, name) is None,
{
    assert forall|i: int, j: int| first_named(tt, i, name) && first_named(tt, j, name) implies i == j by { if i < j { assert(!named(tt, i, name)); } if j < i { assert(!named(tt, j, name)); } }
}
pub open spec fn data_column(tt: Seq<Option<String>>) -> Option<int> { match column(tt, "COMPRESSED_DATA"@) { Some(i) => Some(i), None => column(tt, "GZIP_COMPRESSED_DATA"@) } }
pub open spec fn real_number(t: TFormType) -> bool { match t { TFormType::E { repeat_count } => repeat_count == 1, TFormType::D { repeat_count } => repeat_count == 1, _ => false } }
pub open spec fn integer(t: TFormType) -> bool { match t { TFormType::B { repeat_count } => repeat_count == 1, TFormType::I { repeat_count } => repeat_count == 1, TFormType::J { repeat_count } => repeat_count == 1, TFormType::K { repeat_count } => repeat_count == 1, _ => false } }
pub open spec fn is_one(ts: Seq<TFormType>, c: Option<int>, f: spec_fn(TFormType) -> bool) -> bool { c is Some && f(ts[c->0]) }
/// The fields of the tiles: the data in the heap; for floats, a scale and a zero point, and a blank value if there is a field for it
pub open spec fn fields_ok(ts: Seq<TFormType>, tt: Seq<Option<String>>, b: Bitpix) -> bool {
    &&& data_column(tt) is Some && (ts[data_column(tt)->0] is P || ts[data_column(tt)->0] is Q)
    &&& b is F32 || b is F64 ==> {
        &&& column(tt, "ZSCALE"@) is Some && real_number(ts[column(tt, "ZSCALE"@)->0])
        &&& column(tt, "ZZERO"@) is Some && real_number(ts[column(tt, "ZZERO"@)->0])
        &&& column(tt, "ZBLANK"@) is Some ==> integer(ts[column(tt, "ZBLANK"@)->0])
    }
}
pub open spec fn tprod(t: Seq<usize>, i: int) -> int decreases i { if i <= 0 { 1 } else { tprod(t, i - 1) * t[i - 1] } }
/// Tiles that hold pixels, and not too many
pub open spec fn tiles_ok(a: Seq<u64>, t: Seq<usize>) -> bool { a.len() == t.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] >= 1 && t[i] >= 1) && tprod(t, t.len() as int) <= i32::MAX }
pub proof fn lemma_tprod(t: Seq<usize>, i: int, j: int) requires 0 <= i <= j <= t.len(), forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] >= 1 ensures 1 <= tprod(t, i) <= tprod(t, j) decreases j
{
    if i < j { lemma_tprod(t, i, j - 1); let a = tprod(t, j - 1); let b = t[j - 1] as int; assert(a <= a * b) by (nonlinear_arith) requires 1 <= a, 1 <= b; }
    else if j > 0 { lemma_tprod(t, 0, j - 1); let a = tprod(t, j - 1); let b = t[j - 1] as int; assert(1 <= a * b) by (nonlinear_arith) requires 1 <= a, 1 <= b; }
}
pub open spec fn described(v: ValueMap) -> Option<(Seq<u64>, Seq<usize>)> { match v.val::<usize>("ZNAXIS") { Some(n) => shape(v, n as int), None => None } }
pub open spec fn is_tiled(v: ValueMap, ts: Seq<TFormType>, tt: Seq<Option<String>>) -> bool {
    match (algorithm(v), v.val::<Bitpix>("ZBITPIX"), described(v)) {
        (Some(c), Some(b), Some((a, t))) => !(c is PLI0_1) && !(c is Hcompress1) && !(b is I64) && fields_ok(ts, tt, b) && tiles_ok(a, t),
        _ => false,
    }
}
'''
CONTRACT = r'''
    requires tforms@.len() == ttypes@.len()
    ensures r is Some == is_tiled(*values, tforms@, ttypes@),
        r is Some ==> ({ let z = r->Some_0;
            &&& Some(z.z_cmp_type) == algorithm(*values) && Some(z.z_bitpix) == values.val::<Bitpix>("ZBITPIX") && described(*values) == Some((z.z_naxisn@, z.z_tilen@))
            &&& z.z_quantiz == values.val::<ZQuantiz>("ZQUANTIZ") && z.z_dither_0 == values.val::<i64>("ZDITHER0") && Some(z.data_compressed_idx as int) == data_column(ttypes@) }),'''
ENTRY = r'''
proof { undefined();
    lemma_column(ttypes@, "COMPRESSED_DATA"@); lemma_column(ttypes@, "GZIP_COMPRESSED_DATA"@); lemma_column(ttypes@, "ZSCALE"@); lemma_column(ttypes@, "ZZERO"@); lemma_column(ttypes@, "ZBLANK"@); }'''
SIZE_INV = r'''    invariant 0 <= at_ <= values.entries().len(), found_ is None ==> blocksize_from(*values, 0) == blocksize_from(*values, at_ as int), found_ is Some ==> blocksize_from(*values, 0) == found_,
    decreases values.entries().len() - at_'''
AXES_INV = r'''    invariant 1 <= k_ <= z_naxis + 1, z_naxis <= i64::MAX, z_naxisn@.len() == z_tilen@.len() == k_ - 1, shape(*values, k_ - 1) == Some((z_naxisn@, z_tilen@)),
    ensures z_naxisn@.len() == z_naxis ==> shape(*values, z_naxis as int) == Some((z_naxisn@, z_tilen@)), z_naxisn@.len() != z_naxis ==> shape(*values, z_naxis as int) is None, z_naxisn@.len() <= z_naxis
    decreases z_naxis + 1 - k_'''
ALL_INV = r'''    invariant_except_break out_, forall|i: int| 0 <= i < k_ ==> #[trigger] tile_compressed.z_naxisn@[i] > 0 && tile_compressed.z_tilen@[i] > 0,
    invariant 0 <= k_ <= tile_compressed.z_naxisn@.len(), tile_compressed.z_naxisn@.len() == tile_compressed.z_tilen@.len(),
    ensures out_ == (forall|i: int| 0 <= i < tile_compressed.z_naxisn@.len() ==> #[trigger] tile_compressed.z_naxisn@[i] > 0 && tile_compressed.z_tilen@[i] > 0)
    decreases tile_compressed.z_naxisn@.len() - k_'''
FOLD_INV = r'''    invariant 0 <= k_ <= tile_compressed.z_tilen@.len(), forall|i: int| 0 <= i < tile_compressed.z_tilen@.len() ==> #[trigger] tile_compressed.z_tilen@[i] > 0,
        match out_ { Some(n) => n == tprod(tile_compressed.z_tilen@, k_ as int), None => tprod(tile_compressed.z_tilen@, tile_compressed.z_tilen@.len() as int) > i32::MAX },
    ensures match out_ { Some(n) => n == tprod(tile_compressed.z_tilen@, tile_compressed.z_tilen@.len() as int), None => tprod(tile_compressed.z_tilen@, tile_compressed.z_tilen@.len() as int) > i32::MAX },
    decreases tile_compressed.z_tilen@.len() - k_'''


def array_all(b, notes):
    """[A, B].iter().all(|x| ..) is a conjunction"""
    m = next(find_code(b, r"\[\s*(\"[A-Z]+\"(?:\s*,\s*\"[A-Z]+\")*)\s*\]\s*\.\s*iter\s*\(\s*\)\s*\.\s*all\s*\(\s*\|\s*(\w+)\s*\|"), None)
    if not m:
        return b
    o = b.rindex("(", 0, m.end())
    e = match_close(b, o)
    body = b[m.end():e]
    notes.add("`[a, b].iter().all(closure)` written as the conjunction it stands for")
    return b[:m.start()] + "(" + " && ".join("{ let %s = %s; %s }" % (m.group(2), x.strip(), body) for x in m.group(1).split(",")) + ")" + b[e + 1:]


def z_image(u):
    h, b = u.prepare(XB, "parse", r"Xtension for BinTable$", None, False)
    h, b = kw(h, b)
    out, names = [], []
    for st in statements(b):
        n = re.match(r"\s*let\s+\(?\s*(z_\w+|data_compressed_idx)", st)
        if n:
            names.append(n.group(1))
            out.append(st)
    if names[-1:] != ["z_image"] or len(names) != 8:
        raise Lost("z_image")
    b = "{" + "".join(out) + "\n z_image }"
    b = sub_code(b, r"value\s*:\s*ref\s+z_cmp_type", "value: z_cmp_type", 1, "ZCMPTYPE")
    b = sub_code(b, r"z_cmp_type\s*\.\s*trim_ascii_end\s*\(\s*\)", "trim_end_(z_cmp_type)", 1, "ZCMPTYPE")
    # the block size
    m = next(find_code(b, r"let\s+blocksize\s*=\s*values\s*\.\s*iter\s*\(\s*\)\s*\.\s*find_map\s*\("), None)
    if not m:
        raise Lost("BLOCKSIZE")
    e = match_close(b, m.end() - 1) + 1
    t = re.compile(r"\s*\.\s*unwrap_or\s*\(\s*32\s*\)").match(b, e)
    if not t:
        raise Lost("BLOCKSIZE")
    c = re.compile(r"\s*\|\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*\|\s*\{").match(b, m.end())
    if not c:
        raise Lost("BLOCKSIZE")
    f = b[c.end() - 1:match_close(b, c.end() - 1) + 1]
    if b[match_close(b, c.end() - 1) + 1:e - 1].strip().strip(","):
        raise Lost("BLOCKSIZE")
    f = sub_code(f, r"\b(\w+)\s*==\s*(\"[A-Z]+\")", r"str_eq(\1, \2)")
    f = sub_code(f, r"\b(\w+)\s*\.\s*(starts_with|replace)\s*\(", r"\2_(\1, ")
    u.text_fn("blocksize_at", "pub fn blocksize_at(values: &ValueMap, %s: &String, %s: &Value) -> (r: Option<u16>)" % c.groups(), desugar_options(f, u.notes), "    ensures r == names_blocksize(*values, (*%s, *%s))," % c.groups(),
              XB + ": Xtension for BinTable :: parse (BLOCKSIZE)")
    u.notes.add("`values.iter().find_map(closure)` is a loop over the keywords in their order")
    b = b[:m.start()] + """let blocksize = { let mut found_: Option<u16> = None; let mut at_: usize = 0; while at_ < values.count_() && found_.is_none() { let (n_, v_) = values.entry_(at_); found_ = blocksize_at(values, n_, v_); at_ = at_ + 1; } match found_ { Some(x) => x, None => 32 } }""" + b[t.end():]
    b = str_match(b, u.notes)
    b = sub_code(b, r"\.\s*unwrap_or_else\s*\(\s*\|\s*\w+\s*\|\s*\{\s*None\s*\}\s*\)", ".unwrap_or(None)")
    for name, ty in (("z_bitpix", "Option<Bitpix>"), ("z_naxis", "Option<usize>"), ("z_quantiz", "Option<ZQuantiz>"), ("z_dither_0", "Option<i64>"), ("znaxisn", "u64"), ("tilen", "u64")):
        b = sub_code(b, r"let\s+%s\s*=" % name, "let %s: %s =" % (name, ty), 1, name)
    b = sub_code(b, r"let\s+mut\s+z_naxisn\s*=", "proof { if shape(*values, z_naxis as int) is Some { lemma_shape_len(*values, z_naxis as int); } } let mut z_naxisn: Vec<u64> =", 1, "z_naxisn")
    b = sub_code(b, r"let\s+mut\s+z_tilen\s*=", "let mut z_tilen: Vec<usize> =", 1, "z_tilen")
    b = sub_code(b, r"\.\s*into_boxed_slice\s*\(\s*\)", "")
    b = desugar_for(b, u.notes)
    b = sub_code(b, r"\bbreak\s*;", "proof { lemma_shape(*values, k_ - 1, z_naxis as int); } break;", 1, "the end of the axes")
    b = array_all(b, u.notes)
    b = desugar_chain(b, u.notes)
    b = desugar_chain(b, u.notes)
    b = desugar_options(b, u.notes)
    b = sub_code(b, r"let mut out_ = Some\(1_usize\);", "let mut out_ = Some(1_usize); proof { assert forall|i: int| 0 <= i < tile_compressed.z_tilen@.len() implies #[trigger] tile_compressed.z_tilen@[i] > 0 by { assert(tile_compressed.z_naxisn@[i] > 0); } }", 1, "the size of the tiles")
    m = list(find_code(b, r"let item_ = &tile_compressed\.z_tilen\[k_\]; k_ \+= 1;"))
    if len(m) != 1:
        raise Lost("the size of the tiles")
    b = b[:m[0].end()] + " proof { lemma_tprod(tile_compressed.z_tilen@, k_ as int, tile_compressed.z_tilen@.len() as int); lemma_tprod(tile_compressed.z_tilen@, k_ - 1, tile_compressed.z_tilen@.len() as int); } " + b[m[0].end():]
    b = sub_code(b, r"find_field_by_ttype\s*\(\s*&\s*ttypes", "find_field_by_ttype(ttypes")
    return b


def build(mdir, probe=False):
    u = Unit("zimage", mdir)
    u.probe = probe
    u.add(PRE)
    u.item(C, r"pub enum Value", what="enum Value")
    u.item(HD, r"pub enum Bitpix", derive="Clone, Copy, PartialEq, Eq, Structural")
    u.item(XA, r"pub enum TFormAsciiTable")
    u.add(PARSED)
    u.trust("serde: a header value reads as u64, usize or i64 exactly when it is an integer of the range, as Bitpix when it is one of the six integers; as Option it is None when undefined")
    u.trust("str::trim_ascii_end, str::starts_with, str::replace, Option::or, the comparison of texts; the iteration over the keywords in the order of the header (indexmap)")
    u.item(XB, r"pub\(crate\) enum TFormType")
    u.item(XB, r"pub\(crate\) enum VariableArrayTy", derive="Clone, Copy")
    u.item(XB, r"pub\(crate\) enum ZCmpType", derive="Clone, Copy")
    u.item(XB, r"pub\(crate\) enum ZQuantiz")
    u.item(XB, r"pub struct TileCompressedImage\b", edit=boxes)
    u.add(SPEC)
    u.add(r"""#[verifier::external_body]
pub fn str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }""")

    def find(h, b):
        b = sub_code(b, r"(\w+)\s*==\s*(\w+)", r"str_eq(\1, \2)", 1, "comparison of names")
        return u.chains(1)(h, b)
    u.fn(XB, "find_field_by_ttype", table.FIND, free=True, edit=find, invs=[table.FIND_INV])
    u.notes.add("`z_image` is taken as the function of (values, tforms, ttypes) whose body is the statements of BinTable::parse that compute it, in their order; Box<[T]> is Vec<T>; the closure that looks for BLOCKSIZE is a function of what it captures")
    u.text_fn("z_image_of", "pub fn z_image_of(values: &ValueMap, tforms: &Vec<TFormType>, ttypes: &Vec<Option<String>>) -> (r: Option<TileCompressedImage>)", z_image(u), CONTRACT,
              XB + ": Xtension for BinTable :: parse (z_image)", invs=[SIZE_INV, AXES_INV, ALL_INV, FOLD_INV], entry=ENTRY, attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]")
    return u
