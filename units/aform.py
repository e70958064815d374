"""The format of a field of an ASCII table (C13), and the names of the extensions."""
import re

from extract import Lost, sub_code, find_code, match_close
from unit import Unit
from card import PRE, text_decl, text_ops

XA = "src/hdu/header/extension/asciitable.rs"
X = "src/hdu/header/extension/mod.rs"

SPEC = r'''
/// str::parse::<usize>
pub uninterp spec fn size_of_text(s: Seq<char>) -> Option<usize>;
pub open spec fn point(s: Seq<char>) -> int { choose|i: int| 0 <= i < s.len() && s[i] == '.' && !(#[trigger] s.take(i)).contains('.') }
/// What stands before and after the first point
pub open spec fn halves(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if s.contains('.') { Some((s.take(point(s)), s.skip(point(s) + 1))) } else { None } }
pub open spec fn two(s: Seq<char>) -> Option<(usize, usize)> {
    match halves(s) { None => None, Some((a, b)) => match (size_of_text(a), size_of_text(b)) { (Some(w), Some(d)) => Some((w, d)), _ => None } }
}
/// C13: a letter, the width, and for the letters of the real numbers the number of decimals after a point
pub open spec fn format_of(v: Seq<char>) -> Option<TFormAsciiTable> {
    let t = trim_r(v); let rest = t.skip(1);
    if t.len() == 0 { None }
    else if t[0] == 'A' { match size_of_text(rest) { Some(w) => Some(TFormAsciiTable::Character { w }), None => None } }
    else if t[0] == 'I' { match size_of_text(rest) { Some(w) => Some(TFormAsciiTable::DecimalInteger { w }), None => None } }
    else if t[0] == 'F' { match two(rest) { Some((w, d)) => Some(TFormAsciiTable::FloatingPointFixed { w, d }), None => None } }
    else if t[0] == 'E' { match two(rest) { Some((w, d)) => Some(TFormAsciiTable::EFloatingPointExp { w, d }), None => None } }
    else if t[0] == 'D' { match two(rest) { Some((w, d)) => Some(TFormAsciiTable::DFloatingPointExp { w, d }), None => None } }
    else { None }
}
pub open spec fn is<T>(r: Result<T, Error>, o: Option<T>) -> bool { (r is Ok) == (o is Some) && (r is Ok ==> Some(r->Ok_0) == o) }
#[verifier::external_body] pub struct Chars { p: () }
impl Chars {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: String) ensures r@ == self.rest() { unimplemented!() }
}
#[verifier::external_body] pub fn chars_of(s: &String) -> (r: Chars) ensures r.rest() == s@ { unimplemented!() }
#[verifier::external_body] pub fn error_() -> Error { unimplemented!() }
pub trait Words {
    spec fn w(&self) -> Seq<char>;
    fn parse_size_(&self) -> (r: Result<usize, Error>) ensures is(r, size_of_text(self.w()));
    fn split_once_(&self, c: char) -> (r: Option<(String, String)>)
        ensures c == '.' ==> match r { None => halves(self.w()) is None, Some((a, b)) => halves(self.w()) == Some((a@, b@)) };
}
impl Words for String {
    open spec fn w(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn parse_size_(&self) -> (r: Result<usize, Error>) { unimplemented!() }
    #[verifier::external_body] fn split_once_(&self, c: char) -> (r: Option<(String, String)>) { unimplemented!() }
}
pub open spec fn name_of(x: XtensionType) -> Seq<char> { match x { XtensionType::Image => "IMAGE"@, XtensionType::BinTable => "BINTABLE"@, XtensionType::AsciiTable => "TABLE"@ } }
'''


def errors(b):
    """E::custom(..) is an error"""
    while True:
        m = next(find_code(b, r"E\s*::\s*custom\s*\("), None)
        if not m:
            return b
        b = b[:m.start()] + "error_()" + b[match_close(b, m.end() - 1) + 1:]


def take_closure(b, name):
    """(text without the statement, parameters, body) of `let name = |..| {..};`"""
    m = next(find_code(b, r"let\s+%s\s*=\s*\|([^|]*)\|\s*\{" % name), None)
    if not m:
        raise Lost("closure %s" % name)
    e = match_close(b, m.end() - 1)
    s = re.match(r"\s*;", b[e + 1:])
    if not s:
        raise Lost("end of the closure %s" % name)
    return b[:m.start()] + b[e + 1 + s.end():], m.group(1).strip(), b[m.end() - 1:e + 1]


def build(mdir, probe=False):
    u = Unit("aform", mdir)
    u.probe = probe
    u.add(PRE)
    text_decl(u)
    u.item(XA, r"pub enum TFormAsciiTable")
    u.item(X, r"pub enum XtensionType", derive="Clone, Copy, PartialEq, Eq, Structural")
    u.add(SPEC)
    u.trust("str::parse::<usize>, str::split_once, Chars::{next, as_str}: what they mean on a text (which texts are numbers is compared with an independent reading by the driver of C13)")
    u.notes.add("the closures `parse` and `parse_split` of `visit_str` are functions of what they capture; `E::custom(..)` is an error without its message; texts are owned")

    def words(b):
        b = errors(b)
        b = sub_code(b, r"\.\s*map_err\s*\(\s*\|\s*\w+\s*\|\s*\{?\s*error_\(\)\s*\}?\s*\)", "")
        b = sub_code(b, r"\.\s*ok_or\s*\(", ".ok_or(")
        b = sub_code(b, r"\.\s*parse\s*(?:::\s*<\s*usize\s*>\s*)?\(\s*\)", ".parse_size_()")
        b = sub_code(b, r"\.\s*split_once\s*\(", ".split_once_(")
        b = sub_code(b, r"Ok\s*::\s*<\s*_\s*,\s*E\s*>", "Ok")
        b = sub_code(b, r"\bparse\s*\(\s*(\w+)\s*\)", r"parse_(&\1)")
        b = sub_code(b, r"\bparse_split\s*\(\s*\)", "parse_split_(&rest)")
        b = sub_code(b, r"(\w+)\s*\.\s*trim_end\s*\(\s*\)\s*\.\s*chars\s*\(\s*\)", r"chars_of(&\1.trim_end_())")
        return b
    h, b = u.prepare(XA, "visit_str", r"Visitor<'_> for Visitor", None, False)
    b, ps, pb = take_closure(b, "parse")
    b, ss, sb = take_closure(b, "parse_split")
    m = re.fullmatch(r"(\w+)\s*:\s*&\s*str", ps)
    if not m or ss:
        raise Lost("parameters of the closures")
    u.text_fn("parse_", "fn parse_(%s: &String) -> (r: Result<usize, Error>)" % m.group(1), words(pb), "    ensures is(r, size_of_text(%s@))," % m.group(1), XA + ": closure `parse` of Visitor::visit_str")
    u.text_fn("parse_split_", "fn parse_split_(rest: &String) -> (r: Result<(usize, usize), Error>)", words(sb), "    ensures is(r, two(rest@)),", XA + ": closure `parse_split` of Visitor::visit_str")
    u.text_fn("visit_str", "fn visit_str(v: &str) -> (r: Result<TFormAsciiTable, Error>)", words(b), "    ensures is(r, format_of(v@)),", XA + ": Visitor of TFormAsciiTable :: visit_str")
    u.add("impl XtensionType {")
    u.fn(X, "as_str", "    ensures r@ == name_of(*self),", r"impl XtensionType$")
    u.add("}")
    return u
