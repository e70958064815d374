"""The records of a header as a map of values, long strings (C03, C04)."""
import re

from extract import Lost, sub_code, find_code, match_close
from unit import Unit, desugar_chain
from table import fields
from card import PRE, text_decl, text_ops

C = "src/card.rs"
X = "src/hdu/header/extension/mod.rs"
HD = "src/hdu/header/mod.rs"

SPEC = r'''
// ---- values by what they say
pub enum SV { Text(Seq<char>, Option<Seq<char>>), Other(Value) }
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sv(v: Value) -> SV { match v { Value::String { value, comment } => SV::Text(value@, ov(comment)), _ => SV::Other(v) } }
/// Ends with an ampersand
pub open spec fn goes_on(s: Seq<char>) -> bool { s.len() > 0 && s.last() == '&' }
pub open spec fn continued_(v: SV) -> bool { match v { SV::Text(s, _) => goes_on(s), _ => false } }
/// A text without its ampersand, and the next piece; an empty piece takes the blanks before the ampersand with it
pub open spec fn longer(s: Seq<char>, piece: Option<Seq<char>>) -> Seq<char> {
    let t = s.drop_last();
    match piece { Some(p) => if p.len() == 0 || p == seq![' '] { trim_r(t) } else { t + p }, None => trim_r(t) }
}
pub open spec fn comments(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> {
    match (a, b) { (Some(x), Some(y)) => Some(x.push('\n') + y), (Some(x), None) => Some(x), (None, y) => y }
}
pub open spec fn appended(v: SV, piece: Option<Seq<char>>, comment: Option<Seq<char>>) -> SV {
    match v { SV::Text(s, c) => SV::Text(longer(s, piece), comments(c, comment)), o => o }
}

// ---- the map of values, in the order of the first appearances
pub type Entries = Seq<(Seq<char>, SV)>;
pub open spec fn has(m: Entries, k: Seq<char>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn place(m: Entries, k: Seq<char>) -> int { choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn look(m: Entries, k: Seq<char>) -> Option<SV> { if has(m, k) { Some(m[place(m, k)].1) } else { None } }
pub open spec fn put(m: Entries, k: Seq<char>, v: SV) -> Entries { if has(m, k) { m.update(place(m, k), (k, v)) } else { m.push((k, v)) } }
pub open spec fn unique(m: Entries) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && (#[trigger] m[i]).0 == (#[trigger] m[j]).0 ==> i == j }

#[verifier::external_body] pub struct IndexMap { p: () }
impl IndexMap {
    pub uninterp spec fn all(&self) -> Entries;
    #[verifier::external_body] pub fn new() -> (r: IndexMap) ensures r.all() == Seq::<(Seq<char>, SV)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>)
        requires unique(old(self).all()) ensures final(self).all() == put(old(self).all(), k@, sv(v)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>)
        requires unique(self.all()) ensures match r { Some(v) => look(self.all(), k@) == Some(sv(*v)), None => look(self.all(), k@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut Value>)
        requires unique(old(self).all())
        ensures match r { Some(v) => look(old(self).all(), k@) == Some(sv(*v)) && final(self).all() == put(old(self).all(), k@, sv(*final(v))),
            None => look(old(self).all(), k@) is None && final(self).all() == old(self).all() } { unimplemented!() }
}

// ---- going through the map
#[verifier::external_body] pub struct MapIter<'a> { p: core::marker::PhantomData<&'a ()> }
impl<'a> MapIter<'a> {
    pub uninterp spec fn rest(&self) -> Entries;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a String, &'a Value)>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && final(self).rest() == old(self).rest().skip(1) && (r->Some_0.0@, sv(*r->Some_0.1)) == old(self).rest()[0] { unimplemented!() }
    #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r == (self.rest().len() as usize, Some(self.rest().len() as usize)), self.rest().len() <= usize::MAX { unimplemented!() }
}
impl IndexMap { #[verifier::external_body] pub fn iter<'a>(&'a self) -> (r: MapIter<'a>) ensures r.rest() == self.all() { unimplemented!() } }
/// The derived equality of values
pub uninterp spec fn same(a: SV, b: SV) -> bool;
impl Value { #[verifier::external_body] pub fn eq_(&self, o: &Value) -> (r: bool) ensures r == same(sv(*self), sv(*o)) { unimplemented!() } }

// ---- reading the records
pub struct St { pub m: Entries, pub kw: Option<Seq<char>> }
pub open spec fn xname(x: XtensionType) -> Seq<char> { match x { XtensionType::Image => "IMAGE"@, XtensionType::BinTable => "BINTABLE"@, XtensionType::AsciiTable => "TABLE"@ } }
pub open spec fn step(s: St, c: Card) -> St {
    match c {
        Card::Value { name, value } => St { m: put(s.m, name@, sv(value)), kw: if continued_(sv(value)) { Some(name@) } else { None } },
        Card::Hierarch { name, value } => St { m: put(s.m, name@, sv(value)), kw: if continued_(sv(value)) { Some(name@) } else { None } },
        Card::Continuation { string, comment } => match s.kw {
            None => s,
            Some(k) => { let v = appended(look(s.m, k)->Some_0, ov(string), ov(comment)); St { m: put(s.m, k, v), kw: if continued_(v) { Some(k) } else { None } } } },
        Card::Xtension { x, .. } => St { m: put(s.m, "XTENSION"@, SV::Text(xname(x), None)), kw: None },
        Card::End => s,
        _ => St { m: s.m, kw: None },
    }
}
pub open spec fn steps(cs: Seq<Card>, n: int) -> St decreases n { if n <= 0 { St { m: Seq::empty(), kw: None } } else { step(steps(cs, n - 1), cs[n - 1]) } }
/// The values of a header
pub open spec fn values_of(cs: Seq<Card>) -> Entries { steps(cs, cs.len() as int).m }
/// Records as they are read: END is the last one, if any
pub open spec fn read_ok(cs: Seq<Card>) -> bool { forall|i: int| 0 <= i < cs.len() - 1 ==> !(#[trigger] cs[i] is End) }
/// What the loop keeps: keys once, and the continued keyword is a text that goes on
pub open spec fn good(s: St) -> bool { unique(s.m) && match s.kw { Some(k) => look(s.m, k) is Some && continued_(look(s.m, k)->Some_0), None => true } }

pub proof fn lemma_put(m: Entries, k: Seq<char>, v: SV)
    requires unique(m)
    ensures unique(put(m, k, v)), look(put(m, k, v), k) == Some(v), forall|o: Seq<char>| o != k ==> #[trigger] look(put(m, k, v), o) == look(m, o),
        forall|o: Seq<char>| #[trigger] has(put(m, k, v), o) == (has(m, o) || o == k)
{
    let p = put(m, k, v);
    if has(m, k) { let i = place(m, k); assert(p[i].0 == k); assert forall|j: int| 0 <= j < m.len() implies p[j].0 == m[j].0 by { }
        assert forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() && (#[trigger] p[a]).0 == (#[trigger] p[b]).0 implies a == b by { assert(m[a].0 == m[b].0); }
        assert forall|o: Seq<char>| #[trigger] has(p, o) == (has(m, o) || o == k) by {
            if has(m, o) { let j = place(m, o); assert(p[j].0 == o); } if has(p, o) { let j = place(p, o); assert(m[j].0 == o); } }
        assert forall|o: Seq<char>| o != k implies #[trigger] look(p, o) == look(m, o) by { if has(m, o) { let j = place(m, o); assert(p[j].0 == o); assert(p[place(p, o)].0 == o); } }
        assert(p[place(p, k)].0 == p[i].0);
    } else {
        assert(p[m.len() as int].0 == k);
        assert forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() && (#[trigger] p[a]).0 == (#[trigger] p[b]).0 implies a == b by {
            if a < m.len() { assert(m[a].0 == p[a].0); } if b < m.len() { assert(m[b].0 == p[b].0); } if a < m.len() && b < m.len() { assert(m[a].0 == m[b].0); } }
        assert forall|o: Seq<char>| #[trigger] has(p, o) == (has(m, o) || o == k) by {
            if has(m, o) { let j = place(m, o); assert(p[j].0 == o); } if has(p, o) { let j = place(p, o); if j < m.len() { assert(m[j].0 == o); } } }
        assert forall|o: Seq<char>| o != k implies #[trigger] look(p, o) == look(m, o) by { if has(m, o) { let j = place(m, o); assert(p[j].0 == o); assert(p[place(p, o)].0 == o); } }
        assert(p[place(p, k)].0 == p[m.len() as int].0);
    }
}
pub proof fn lemma_step(s: St, c: Card) requires good(s) ensures good(step(s, c)) {
    match c {
        Card::Value { name, value } => { lemma_put(s.m, name@, sv(value)); }
        Card::Hierarch { name, value } => { lemma_put(s.m, name@, sv(value)); }
        Card::Xtension { x, .. } => { lemma_put(s.m, "XTENSION"@, SV::Text(xname(x), None)); }
        Card::Continuation { string, comment } => { match s.kw { Some(k) => { lemma_put(s.m, k, appended(look(s.m, k)->Some_0, ov(string), ov(comment))); } None => { } } }
        _ => { }
    }
}
pub proof fn lemma_steps(cs: Seq<Card>, n: int) requires 0 <= n <= cs.len() ensures good(steps(cs, n)) decreases n
    { if n > 0 { lemma_steps(cs, n - 1); lemma_step(steps(cs, n - 1), cs[n - 1]); } else { assert(unique(Seq::<(Seq<char>, SV)>::empty())); } }

pub open spec fn key(c: Card) -> Option<Seq<char>> { match c { Card::Value { name, .. } => Some(name@), Card::Hierarch { name, .. } => Some(name@), Card::Xtension { .. } => Some("XTENSION"@), _ => None } }
pub open spec fn val(c: Card) -> SV { match c { Card::Value { value, .. } => sv(value), Card::Hierarch { value, .. } => sv(value), Card::Xtension { x, .. } => SV::Text(xname(x), None), _ => arbitrary() } }
/// C04: a keyword has the value of the last record with it (when it is not continued)
pub proof fn lemma_last(cs: Seq<Card>, i: int, n: int)
    requires 0 <= i < n <= cs.len(), key(cs[i]) is Some, !continued_(val(cs[i])), forall|j: int| i < j < n ==> key(#[trigger] cs[j]) != key(cs[i])
    ensures look(steps(cs, n).m, key(cs[i])->Some_0) == Some(val(cs[i])), steps(cs, n).kw != key(cs[i])
    decreases n
{
    let k = key(cs[i])->Some_0; let s = steps(cs, n - 1); lemma_steps(cs, n - 1); let c = cs[n - 1];
    if n == i + 1 { lemma_put(s.m, k, val(cs[i]));
    } else { lemma_last(cs, i, n - 1);
        match c { Card::Continuation { string, comment } => { match s.kw { Some(o) => { lemma_put(s.m, o, appended(look(s.m, o)->Some_0, ov(string), ov(comment))); } None => { } } }
            _ => { if key(c) is Some { lemma_put(s.m, key(c)->Some_0, val(c)); } } }
    }
}
/// C04: a keyword without record has no value
pub proof fn lemma_absent(cs: Seq<Card>, n: int, k: Seq<char>)
    requires 0 <= n <= cs.len(), forall|j: int| 0 <= j < n ==> key(#[trigger] cs[j]) != Some(k)
    ensures look(steps(cs, n).m, k) is None, steps(cs, n).kw != Some(k) decreases n
{
    if n > 0 { lemma_absent(cs, n - 1, k); lemma_steps(cs, n - 1); let s = steps(cs, n - 1); let c = cs[n - 1];
        match c { Card::Continuation { string, comment } => { match s.kw { Some(o) => { lemma_put(s.m, o, appended(look(s.m, o)->Some_0, ov(string), ov(comment))); } None => { } } }
            _ => { if key(c) is Some { lemma_put(s.m, key(c)->Some_0, val(c)); } } }
    }
}
/// The pieces of the CONTINUE records from i on
pub open spec fn pieces(cs: Seq<Card>, i: int, n: int, v: SV) -> SV decreases n - i {
    if i >= n { v } else { match cs[i] { Card::Continuation { string, comment } => pieces(cs, i + 1, n, appended(v, ov(string), ov(comment))), _ => v } }
}
pub open spec fn pieces_ok(cs: Seq<Card>, i: int, n: int, v: SV) -> bool decreases n - i {
    i >= n || (continued_(v) && match cs[i] { Card::Continuation { string, comment } => pieces_ok(cs, i + 1, n, appended(v, ov(string), ov(comment))), _ => false })
}
/// C03: a text that goes on, and the CONTINUE records right after it: the pieces in order
pub proof fn lemma_long(cs: Seq<Card>, i: int, j: int, n: int, k: Seq<char>, v: SV)
    requires 0 <= i <= j <= n <= cs.len(), look(steps(cs, j).m, k) == Some(v), continued_(v) ==> steps(cs, j).kw == Some(k), pieces_ok(cs, j, n, v)
    ensures look(steps(cs, n).m, k) == Some(pieces(cs, j, n, v)) decreases n - j
{
    if j < n { lemma_steps(cs, j); let s = steps(cs, j);
        match cs[j] { Card::Continuation { string, comment } => { let w = appended(v, ov(string), ov(comment)); lemma_put(s.m, k, w); lemma_long(cs, i, j + 1, n, k, w); } _ => { } } }
}
pub open spec fn histories(cs: Seq<Card>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { match cs[n - 1] { Card::History(s) => histories(cs, n - 1).push(s@), _ => histories(cs, n - 1) } }
}
pub open spec fn views(v: Seq<&String>) -> Seq<Seq<char>> { v.map_values(|s: &String| s@) }

pub trait Xtension: Sized {
    spec fn accept(values: Entries) -> Option<Self>;
    fn parse(values: &ValueMap) -> (r: Result<Self, Error>) requires unique(values.values.all())
        ensures r is Ok == Self::accept(values.values.all()) is Some, r is Ok ==> Some(r->Ok_0) == Self::accept(values.values.all());
}
impl Value { #[verifier::external_body] pub fn to_owned_(&self) -> (r: Value) ensures sv(r) == sv(*self) { unimplemented!() } }
impl XtensionType { #[verifier::external_body] pub fn to_string_(&self) -> (r: String) ensures r@ == xname(*self) { unimplemented!() } }
#[verifier::external_body] pub fn clone_text(o: &Option<String>) -> (r: Option<String>) ensures ov(r) == ov(*o) { o.clone() }
'''

LOOP_INV = r'''    invariant 0 <= k_ <= cards@.len(), read_ok(cards@), steps(cards@, k_ as int) == (St { m: values.all(), kw: ov(kw) }), good(steps(cards@, k_ as int)),
        forall|q: int| 0 <= q < k_ ==> !(#[trigger] cards@[q] is End),
    decreases cards@.len() - k_'''


def owned(b):
    """to_owned, to_string, and the texts"""
    b = text_ops(b)
    b = sub_code(b, r"IndexMap\s*::\s*new\s*\(", "IndexMap::new(")
    return b


def unreach(b):
    while True:
        m = next(find_code(b, r"unreachable!\s*\("), None)
        if not m:
            break
        b = b[:m.start()] + "{ proof { assert(false); } }" + b[match_close(b, m.end() - 1) + 1:]
    while True:
        m = next(find_code(b, r"panic!\s*\("), None)
        if not m:
            break
        b = b[:m.start()] + "{ proof { assert(false); } }" + b[match_close(b, m.end() - 1) + 1:]
    return b


def process(u):
    def edit(h, b):
        b = unreach(owned(b))
        b = sub_code(b, r"Some\s*\(\s*ref\s+(\w+)\s*\)\s*=\s*(\w+)\s*\{", r"Some(\1) = &\2 {")
        m = next(find_code(b, r"for\s+\(\s*(\w+)\s*,\s*(\w+)\s*\)\s+in\s+(\w+)\s*\.\s*iter\s*\(\s*\)\s*\.\s*enumerate\s*\(\s*\)\s*\{"), None)
        if not m:
            raise Lost("loop over the records")
        b = b[:m.start()] + "proof { reveal_strlit(\"&\"); assert(unique(Seq::<(Seq<char>, SV)>::empty())); } let mut k_: usize = 0; while k_ < %s.len() { let %s = k_; let %s = &%s[k_]; k_ += 1; proof { lemma_step(steps(cards@, k_ - 1), cards@[k_ - 1]); lemma_strings(); }" % (
            m.group(3), m.group(1), m.group(2), m.group(3)) + b[m.end():]
        # the number of records
        b = sub_code(b, r"cards\s*\.\s*len_\s*\(", "cards.len(")
        u.notes.add("`for` over the records written as the while loop it stands for; `Some(ref x) = y` written `Some(x) = &y`; panic! and unreachable! become obligations")
        return h, b
    return edit


def no_result(b, h):
    h = re.sub(r"->.*$", "", h)
    b = re.sub(r"\bself\s*\}\s*$", "}", b)
    return h, b


def append(u):
    def edit(h, b):
        h, b = no_result(unreach(owned(b)), h)
        b = sub_code(b, r"(\w+)\s*\.\s*clone\s*\(\s*\)", r"clone_text(\1)")
        u.notes.add("`append` returns nothing instead of `&mut Self`")
        return h, b
    return edit


def append_string(h, b):
    b = owned(b)
    b = sub_code(b, r"push_str_\(&mut (value|comment)", r"push_str_(\1")
    b = sub_code(b, r"push_\(&mut (value|comment)", r"push_(\1")
    b = sub_code(b, r"(\w+)\s*\.\s*truncate\s*\(", r"truncate_(\1, ")
    b = sub_code(b, r'(\w+)\s*==\s*(" ")', r"\1.eq_(\2)")
    return h, b


def assert_req(h, b):
    """assert!(c, ..) of the callers' duty"""
    m = next(find_code(b, r"assert!\s*\(\s*self\s*\.\s*continued\s*\(\s*\)"), None)
    if not m:
        raise Lost("assert")
    o = b.index("(", m.start())
    e = match_close(b, o) + 1
    b = b[:m.start()] + "{ let c_ = self.continued(); assert(c_); }" + b[e:]
    return h, b


def or_arms(u, b):
    """match arms `A { value, .. } | B { value, .. } => {..}` over a mutable reference, one arm each"""
    while True:
        m = next(find_code(b, r"((?:Self|Card)\s*::\s*\w+\s*\{[^{}|]*\})\s*\|\s*((?:Self|Card)\s*::[^=]*?)\s*=>\s*\{"), None)
        if not m:
            return b
        e = match_close(b, m.end() - 1) + 1
        body = b[m.end() - 1:e]
        b = b[:m.start()] + m.group(1) + " => " + body + "\n" + m.group(2) + " => " + body + b[e:]
        u.notes.add("an or-pattern with bindings by mutable reference is written as one arm per alternative")


def card_append(u):
    def edit(h, b):
        h, b = assert_req(h, b)
        return no_result(or_arms(u, unreach(b)), h)
    return edit


def history(u):
    def edit(h, b):
        b = b.strip()[1:-1].strip() + ".collect::<Vec<_>>()"
        b = "{" + desugar_chain(b, u.notes) + "}"
        u.notes.add("`history` gives the vector of the items of its iterator")
        b = sub_code(b, r"let mut out_ = Vec::new\(\);", "let mut out_: Vec<&String> = Vec::new(); proof { assert(views(out_@) =~= Seq::<Seq<char>>::empty()); }")
        b = sub_code(b, r"out_\.push\(([^;]*)\);", r"let ghost o_ = out_@; out_.push(\1); proof { assert(views(out_@) =~= views(o_).push(out_@.last()@)); }")
        return h, b
    return edit


NEXT = r'''    ensures old(self).inner.rest().len() == 0 ==> r is None && final(self).inner.rest() == old(self).inner.rest(),
        old(self).inner.rest().len() > 0 ==> r is Some && final(self).inner.rest() == old(self).inner.rest().skip(1) && (r->Some_0.0@, sv(*r->Some_0.1)) == old(self).inner.rest()[0],'''
FIRST = r'''    ensures match r { None => forall|i: int| 0 <= i < self.values.all().len() ==> !same((#[trigger] self.values.all()[i]).1, sv(*val)),
        Some(k) => exists|i: int| 0 <= i < self.values.all().len() && same((#[trigger] self.values.all()[i]).1, sv(*val)) && self.values.all()[i].0 == k@ && forall|j: int| 0 <= j < i ==> !same((#[trigger] self.values.all()[j]).1, sv(*val)) },'''
FIRST_INV = r'''    invariant 0 <= n_ <= self.values.all().len(), it_.inner.rest() == self.values.all().skip(n_ as int), forall|j: int| 0 <= j < n_ ==> !same((#[trigger] self.values.all()[j]).1, sv(*val)),
    decreases self.values.all().len() - n_'''


def find_map(u):
    def edit(h, b):
        m = next(find_code(b, r"self\s*\.\s*iter\s*\(\s*\)\s*\.\s*find_map\s*\("), None)
        if not m:
            raise Lost("find_map")
        e = match_close(b, m.end() - 1)
        c = re.match(r"\s*\|(.*?)\|\s*(.*)$", b[m.end():e], re.S)
        if not c:
            raise Lost("closure of find_map")
        body = c.group(2).strip()
        t = re.match(r"^\((.*)\)\s*\.\s*then_some\s*\((.*)\)$", body, re.S)
        if t:
            body = "if %s { Some(%s) } else { None }" % (t.group(1), t.group(2))
        body = sub_code(body, r"\b(\w+)\s*==\s*(\w+)\b", r"\1.eq_(\2)")
        u.notes.add("`find_map` on the iterator of the values written as the loop it stands for")
        return h, (b[:m.start()] + "{ let mut it_ = self.iter(); let ghost mut n_: nat = 0; loop { match it_.next() { None => { return None; } Some(%s) => { let x_ = %s; if let Some(y_) = x_ { return Some(y_); } proof { n_ = n_ + 1; } } } } }" % (c.group(1), body) + b[e + 1:])
    return edit


def all_cards(u):
    def edit(h, b):
        if not re.fullmatch(r"\{\s*self\s*\.\s*cards\s*\.\s*iter\s*\(\s*\)\s*\}", b.strip()):
            raise Lost("cards")
        u.notes.add("`cards` gives the vector its iterator goes through")
        return h, "{ &self.cards }"
    return edit


def spliced(call):
    return lambda h, b: (re.sub(r"\bmut self\b", "self", h), "{ let mut self_ = self; " + re.sub(r"\bself\b", "self_", b.strip()[1:]))


CARD_CONT = r'''    ensures r == match *self { Card::Value { value, .. } => continued_(sv(value)), Card::Hierarch { value, .. } => continued_(sv(value)),
        Card::Continuation { string: Some(s), .. } => goes_on(s@), _ => false },'''
CARD_APPEND = r'''    requires r is Continuation, (match *old(self) { Card::Value { value, .. } => continued_(sv(value)), Card::Hierarch { value, .. } => continued_(sv(value)), _ => false })
    ensures match *old(self) {
        Card::Value { name, value } => (match *final(self) { Card::Value { name: n, value: v } => n == name && sv(v) == appended(sv(value), ov(r->string), ov(r->Continuation_comment)), _ => false }),
        Card::Hierarch { name, value } => (match *final(self) { Card::Hierarch { name: n, value: v } => n == name && sv(v) == appended(sv(value), ov(r->string), ov(r->Continuation_comment)), _ => false }),
        _ => true },'''
CARD_SPLICE = CARD_APPEND.replace("*old(self)", "self").replace("*final(self)", "res")
AMP = r'''broadcast use clen_ascii; proof { lemma_strings(); let t = value@; lemma_blen(t); if t.len() > 0 { assert(t.skip(t.len() - 1) =~= seq![t.last()]); assert(t.skip(t.len() - 1)[0] == t.last()); assert(t.take(t.len() - 1) =~= t.drop_last()); assert(clen(t.last()) == 1); assert(blen(t.take(t.len() - 1)) == blen(t) - 1); } }'''
STRINGS = r'''
pub proof fn lemma_strings() ensures "&"@ == seq!['&'], " "@ == seq![' '], forall|t: Seq<char>| t.len() > 0 ==> (#[trigger] t.skip(t.len() - 1) == seq!['&']) == (t.last() == '&')
{ reveal_strlit("&"); reveal_strlit(" "); assert("&"@ =~= seq!['&']); assert(" "@ =~= seq![' ']);
  assert forall|t: Seq<char>| t.len() > 0 implies (#[trigger] t.skip(t.len() - 1) == seq!['&']) == (t.last() == '&') by { assert(t.skip(t.len() - 1) =~= seq![t.last()]); assert(t.skip(t.len() - 1)[0] == t.last()); } }
'''


def build(mdir, probe=False):
    u = Unit("header", mdir)
    u.probe = probe
    u.add(PRE)
    text_decl(u)
    u.item(C, r"pub enum Card\b", what="enum Card")
    u.item(C, r"pub enum Value", what="enum Value")
    u.item(X, r"pub enum XtensionType", derive="Clone, Copy, PartialEq, Eq, Structural")
    u.add("pub struct ValueMap { pub values: IndexMap }\npub struct Header<X> { pub cards: Vec<Card>, pub values: ValueMap, pub xtension: X }")
    u.notes.add("`IndexMap<String, Value>` is a type with the contracts of indexmap")
    u.trust("indexmap: insert replaces the value of a key in its place or adds the key at the end, get and get_mut find the value of a key")
    u.trust("Xtension::parse decides from the values (unit `sizes`); derived Clone; Display of XtensionType is as_str")
    u.add(SPEC + STRINGS)
    u.fn(C, "append_string", "    requires goes_on(old(value)@) ensures final(value)@ == longer(old(value)@, ov(*v)),", edit=append_string, entry=AMP)
    u.fn(C, "append_comment", "    ensures Some(final(comment)@) == comments(Some(old(comment)@), ov(*c)),", edit=append_string)
    u.add("impl Value {")
    u.fn(C, "continued", "    ensures r == continued_(sv(*self)),", r"impl Value$", edit=lambda h, b: (h, owned(b)), entry="proof { lemma_strings(); }")
    u.fn(C, "append", "    requires continued_(sv(*old(self))) ensures sv(*final(self)) == appended(sv(*old(self)), ov(*v), ov(*c)),", r"impl Value$", edit=append(u))
    u.fn(C, "splice", "    requires continued_(sv(self)) ensures sv(r) == appended(sv(self), ov(v), ov(c)),", r"impl Value$", edit=spliced("append"))
    u.add("}\nimpl Card {")
    u.fn(C, "continued", CARD_CONT, r"impl Card$", edit=lambda h, b: (h, owned(b)), entry="proof { lemma_strings(); }", rename="continued")
    u.fn(C, "append", CARD_APPEND, r"impl Card$", edit=card_append(u))
    u.fn(C, "splice", CARD_SPLICE, r"impl Card$", edit=spliced("append"), ret="res")
    u.add("}")
    u.fn(HD, "process_cards", r'''    requires read_ok(cards@)
    ensures r is Ok == (cards@.len() > 0 && cards@.last() is End), r is Ok ==> r->Ok_0.values.all() == values_of(cards@) && unique(r->Ok_0.values.all()),''',
         edit=process(u), invs=[LOOP_INV], attrs="#[verifier::loop_isolation(false)]")
    u.add("impl ValueMap {")
    u.fn(HD, "get", "    requires unique(self.values.all()) ensures match r { Some(v) => look(self.values.all(), key@) == Some(sv(*v)), None => look(self.values.all(), key@) is None },", r"impl ValueMap$")
    u.fn(HD, "iter", "    ensures r.inner.rest() == self.values.all(),", r"impl ValueMap$")
    u.fn(HD, "get_keyword", FIRST, r"impl ValueMap$", edit=find_map(u), invs=[FIRST_INV], attrs="#[verifier::loop_isolation(false)]")
    u.add("}\npub struct ValueMapIter<'map> { pub inner: MapIter<'map> }\nimpl<'map> ValueMapIter<'map> {")
    u.fn(HD, "next", NEXT, r"Iterator for ValueMapIter", head="pub fn next(&mut self) -> Option<(&'map str, &'map Value)>")
    u.fn(HD, "size_hint", "    ensures r == (self.inner.rest().len() as usize, Some(self.inner.rest().len() as usize)),", r"Iterator for ValueMapIter")
    u.add("}\nimpl<X> Header<X> {")
    u.fn(HD, "deref", "    ensures *r == self.values,", r"Deref for Header", head="pub fn deref(&self) -> &ValueMap")
    u.fn(HD, "cards", "    ensures r@ == self.cards@,", r"impl<X> Header<X>", head="pub fn cards(&self) -> &Vec<Card>", edit=all_cards(u))
    u.add("}\nimpl<X: Xtension> Header<X> {")
    u.fn(HD, "parse", r'''    requires read_ok(cards@)
    ensures r is Ok == (cards@.len() > 0 && cards@.last() is End && X::accept(values_of(cards@)) is Some),
        r is Ok ==> r->Ok_0.cards@ == cards@ && r->Ok_0.values.values.all() == values_of(cards@) && unique(r->Ok_0.values.values.all()) && Some(r->Ok_0.xtension) == X::accept(values_of(cards@)),''',
         r"impl<X> Header<X>", edit=lambda h, b: (h, sub_code(b, r"let\s+xtension\s*:\s*X\s*=\s*Xtension\s*::\s*parse", "let xtension: X = X::parse")))
    u.fn(HD, "history", "    ensures views(r@) == histories(self.cards@, self.cards@.len() as int),", r"impl<X> Header<X>", edit=history(u), head="pub fn history(&self) -> Vec<&String>",
         invs=["    invariant 0 <= k_ <= self.cards@.len(), views(out_@) == histories(self.cards@, k_ as int),\n    decreases self.cards@.len() - k_"], attrs="#[verifier::loop_isolation(false)]")
    u.add("}")
    return u
