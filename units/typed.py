"""A header value read with a type: the Deserializer of Value (C02)."""
import re

from extract import Lost, sub_code, find_code, match_close
from unit import Unit
from card import PRE

C = "src/card.rs"
HD = "src/hdu/header/mod.rs"

SPEC = r'''
pub open spec fn res<T>(r: Result<T, Error>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
// ---- serde::de::Visitor: what a visitor makes of a value is a relation between the value and the result (None: an error)
pub trait Visitor: Sized {
    type Value;
    spec fn on_i64(self, v: i64, r: Option<Self::Value>) -> bool;
    spec fn on_f64(self, v: f64, r: Option<Self::Value>) -> bool;
    spec fn on_bool(self, v: bool, r: Option<Self::Value>) -> bool;
    spec fn on_str(self, v: Seq<char>, r: Option<Self::Value>) -> bool;
    spec fn on_unit(self, r: Option<Self::Value>) -> bool;
    spec fn on_none(self, r: Option<Self::Value>) -> bool;
    spec fn on_some(self, v: Value, r: Option<Self::Value>) -> bool;
    spec fn on_enum(self, v: Seq<char>, r: Option<Self::Value>) -> bool;
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) ensures self.on_i64(v, res(r));
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) ensures self.on_f64(v, res(r));
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) ensures self.on_bool(v, res(r));
    fn visit_borrowed_str(self, v: &str) -> (r: Result<Self::Value, Error>) ensures self.on_str(v@, res(r));
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) ensures self.on_unit(res(r));
    fn visit_none(self) -> (r: Result<Self::Value, Error>) ensures self.on_none(res(r));
    fn visit_some(self, v: &Value) -> (r: Result<Self::Value, Error>) ensures self.on_some(*v, res(r));
    fn visit_enum(self, v: StrDeserializer) -> (r: Result<Self::Value, Error>) ensures self.on_enum(v.text(), res(r));
}
#[verifier::external_body] pub struct StrDeserializer { p: () }
impl StrDeserializer { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body] pub fn str_deserializer(s: &str) -> (r: StrDeserializer) ensures r.text() == s@ { unimplemented!() }

/// A value given to a visitor: the method of its own type, and its content
pub open spec fn given<V: Visitor>(v: Value, vis: V, r: Option<V::Value>) -> bool {
    match v {
        Value::Integer { value, .. } => vis.on_i64(value, r),
        Value::Float { value, .. } => vis.on_f64(value, r),
        Value::Logical { value, .. } => vis.on_bool(value, r),
        Value::String { value, .. } => vis.on_str(value@, r),
        Value::Undefined => vis.on_unit(r),
        Value::Invalid(s) => vis.on_str(s@, r),
    }
}
impl Value { #[verifier::external_body] pub fn same_(&self, o: &Value) -> (r: bool) ensures *o is Undefined ==> r == (*self is Undefined) { unimplemented!() } }

// ---- serde::Deserialize
pub trait Deserialize: Sized {
    /// What reading the value with this type gives (None: an error)
    spec fn of(v: Value, r: Option<Self>) -> bool;
    fn deserialize(v: &Value) -> (r: Result<Self, Error>) ensures Self::of(*v, res(r));
}
#[verifier::external_body] pub struct IndexMap { p: () }
pub struct ValueMap { pub values: IndexMap }
pub uninterp spec fn look(m: IndexMap, k: Seq<char>) -> Option<Value>;
pub open spec fn or_undefined(v: Option<Value>) -> Value { match v { Some(x) => x, None => Value::Undefined } }
impl IndexMap { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>)
    ensures match r { Some(v) => look(*self, k@) == Some(*v), None => look(*self, k@) is None } { unimplemented!() } }
#[verifier::external_body] pub fn undefined_() -> (r: &'static Value) ensures *r is Undefined { &Value::Undefined }
'''

# the visitors of serde for the primitive types
PRIMS = r'''
pub uninterp spec fn f_of_i64(v: i64) -> f64;
pub uninterp spec fn f32_of_i64(v: i64) -> f32;
pub uninterp spec fn f32_of_f64(v: f64) -> f32;
'''
VISITOR = r'''
pub struct V_%(n)s;
impl Visitor for V_%(n)s {
    type Value = %(t)s;
    open spec fn on_i64(self, v: i64, r: Option<%(t)s>) -> bool { %(i)s }
    open spec fn on_f64(self, v: f64, r: Option<%(t)s>) -> bool { %(f)s }
    open spec fn on_bool(self, v: bool, r: Option<%(t)s>) -> bool { %(b)s }
    open spec fn on_str(self, v: Seq<char>, r: Option<%(t)s>) -> bool { %(s)s }
    open spec fn on_unit(self, r: Option<%(t)s>) -> bool { r is None }
    open spec fn on_none(self, r: Option<%(t)s>) -> bool { r is None }
    open spec fn on_some(self, v: Value, r: Option<%(t)s>) -> bool { r is None }
    open spec fn on_enum(self, v: Seq<char>, r: Option<%(t)s>) -> bool { r is None }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_borrowed_str(self, v: &str) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_some(self, v: &Value) -> Result<%(t)s, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_enum(self, v: StrDeserializer) -> Result<%(t)s, Error> { unimplemented!() }
}
impl Deserialize for %(t)s {
    /// C02: reading with the type %(t)s
    open spec fn of(v: Value, r: Option<%(t)s>) -> bool { %(of)s }
    fn deserialize(v: &Value) -> (r: Result<%(t)s, Error>) { v.deserialize_%(m)s(V_%(n)s) }
}
'''
NONE = "r is None"
INTS = [("i8", -128, 127), ("i16", -32768, 32767), ("i32", -2**31, 2**31 - 1), ("u8", 0, 255), ("u16", 0, 65535), ("u32", 0, 2**32 - 1)]


def prims():
    out = [PRIMS]

    def one(t, i, f, b, s, of, m=None, n=None):
        out.append(VISITOR % {"t": t, "n": n or t, "i": i, "f": f, "b": b, "s": s, "of": of, "m": m or t})
    for t, lo, hi in INTS:
        c = "r == (if %d <= v <= %d { Some(v as %s) } else { None })" % (lo, hi, t)
        of = "r == match v { Value::Integer { value, .. } => if %d <= value <= %d { Some(value as %s) } else { None }, _ => None }" % (lo, hi, t)
        one(t, c, NONE, NONE, NONE, of)
    one("i64", "r == Some(v)", NONE, NONE, NONE, "r == match v { Value::Integer { value, .. } => Some(value), _ => None }")
    one("u64", "r == (if v >= 0 { Some(v as u64) } else { None })", NONE, NONE, NONE,
        "r == match v { Value::Integer { value, .. } => if value >= 0 { Some(value as u64) } else { None }, _ => None }")
    one("f64", "r == Some(f_of_i64(v))", "r == Some(v)", NONE, NONE,
        "r == match v { Value::Integer { value, .. } => Some(f_of_i64(value)), Value::Float { value, .. } => Some(value), _ => None }")
    one("f32", "r == Some(f32_of_i64(v))", "r == Some(f32_of_f64(v))", NONE, NONE,
        "r == match v { Value::Integer { value, .. } => Some(f32_of_i64(value)), Value::Float { value, .. } => Some(f32_of_f64(value)), _ => None }")
    one("bool", NONE, NONE, "r == Some(v)", NONE, "r == match v { Value::Logical { value, .. } => Some(value), _ => None }")
    one("String", NONE, NONE, NONE, "r is Some && r->Some_0@ == v",
        "match v { Value::String { value, .. } => r is Some && r->Some_0@ == value@, Value::Invalid(s) => r is Some && r->Some_0@ == s@, _ => r is None }", m="string")
    # Option<T>
    out.append(r'''
pub struct V_Option<T> { pub t: core::marker::PhantomData<T> }
impl<T: Deserialize> Visitor for V_Option<T> {
    type Value = Option<T>;
    open spec fn on_i64(self, v: i64, r: Option<Option<T>>) -> bool { r is None }
    open spec fn on_f64(self, v: f64, r: Option<Option<T>>) -> bool { r is None }
    open spec fn on_bool(self, v: bool, r: Option<Option<T>>) -> bool { r is None }
    open spec fn on_str(self, v: Seq<char>, r: Option<Option<T>>) -> bool { r is None }
    open spec fn on_unit(self, r: Option<Option<T>>) -> bool { r == Some(None::<T>) }
    open spec fn on_none(self, r: Option<Option<T>>) -> bool { r == Some(None::<T>) }
    open spec fn on_some(self, v: Value, r: Option<Option<T>>) -> bool { match r { None => T::of(v, None), Some(None) => false, Some(Some(x)) => T::of(v, Some(x)) } }
    open spec fn on_enum(self, v: Seq<char>, r: Option<Option<T>>) -> bool { r is None }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_borrowed_str(self, v: &str) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_some(self, v: &Value) -> Result<Option<T>, Error> { unimplemented!() }
    #[verifier::external_body] fn visit_enum(self, v: StrDeserializer) -> Result<Option<T>, Error> { unimplemented!() }
}
impl<T: Deserialize> Deserialize for Option<T> {
    /// C02: an undefined value is none, any other is read with the type
    open spec fn of(v: Value, r: Option<Option<T>>) -> bool {
        if v is Undefined { r == Some(None::<T>) } else { match r { None => T::of(v, None), Some(None) => false, Some(Some(x)) => T::of(v, Some(x)) } }
    }
    fn deserialize(v: &Value) -> (r: Result<Option<T>, Error>) { v.deserialize_option(V_Option::<T> { t: core::marker::PhantomData }) }
}
/// C02: an absent or undefined keyword is none for an optional type and an error for the others
pub proof fn lemma_absent(m: IndexMap, k: Seq<char>, i: Option<i64>, u: Option<u64>, f: Option<f64>, b: Option<bool>, s: Option<String>, o: Option<Option<i64>>)
    requires look(m, k) is None || look(m, k) == Some(Value::Undefined), i64::of(or_undefined(look(m, k)), i), u64::of(or_undefined(look(m, k)), u), f64::of(or_undefined(look(m, k)), f),
        bool::of(or_undefined(look(m, k)), b), String::of(or_undefined(look(m, k)), s), Option::<i64>::of(or_undefined(look(m, k)), o)
    ensures i is None, u is None, f is None, b is None, s is None, o == Some(None::<i64>)
{ }
''')
    return "".join(out)


def head(name, extra=""):
    return "pub fn %s<V: Visitor>(&self, %svisitor: V) -> Result<V::Value, Error>" % (name, extra)


def value_ops(h, b):
    b = sub_code(b, r"self\s*==\s*&\s*Value\s*::\s*Undefined", "self.same_(&Value::Undefined)")
    b = sub_code(b, r"self\s*!=\s*&\s*Value\s*::\s*Undefined", "!self.same_(&Value::Undefined)")
    b = sub_code(b, r"(\w+)\s*\.\s*as_str\s*\(\s*\)\s*\.\s*into_deserializer\s*\(\s*\)", r"str_deserializer(\1.as_str())")
    return h, b


def build(mdir, probe=False):
    u = Unit("typed", mdir)
    u.probe = probe
    u.add(PRE)
    u.item(C, r"pub enum Value", what="enum Value")
    u.add(SPEC)
    u.trust("serde: the visitors of the primitive types, of String and of Option accept what serde documents (an integer visitor an i64 in its range, a float visitor both numbers, `Option` none, unit and some); "
            "`forward_to_deserialize_any!` forwards the types listed in the source")
    u.trust("indexmap: get finds the value of a key; the derived equality of Value with Value::Undefined")
    u.notes.add("`impl Deserializer for &Value` written as methods of Value with the receiver &self; `self == &Value::Undefined` and `as_str().into_deserializer()` written as calls with their contract")
    D = r"Deserializer<'de> for &'de Value"
    u.add("impl Value {")
    u.fn(C, "deserialize_any", "    ensures given(*self, visitor, res(r)),", D, edit=value_ops, head=head("deserialize_any"))
    u.fn(C, "deserialize_option", "    ensures if *self is Undefined { visitor.on_none(res(r)) } else { visitor.on_some(*self, res(r)) },", D, edit=value_ops, head=head("deserialize_option"))
    u.fn(C, "deserialize_enum", "    ensures match *self { Value::String { value, .. } => visitor.on_enum(value@, res(r)), v => given(v, visitor, res(r)) },", D, edit=value_ops,
         head=head("deserialize_enum", "_name: &'static str, _variants: &'static [&'static str], "))
    src = u.src(C).text
    m = next(find_code(src, r"forward_to_deserialize_any!\s*\{"), None)
    if not m:
        raise Lost("forward_to_deserialize_any")
    listed = src[m.end():match_close(src, m.end() - 1)].split()
    for t in listed:
        if t in ("bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "string", "str"):
            u.add("    pub fn deserialize_%s<V: Visitor>(&self, visitor: V) -> (r: Result<V::Value, Error>) ensures given(*self, visitor, res(r)) { self.deserialize_any(visitor) }" % t)
    u.add("}")
    u.add(prims())
    u.add("impl ValueMap {")
    u.fn(HD, "get", "    ensures match r { Some(v) => look(self.values, key@) == Some(*v), None => look(self.values, key@) is None },", r"impl ValueMap$")
    u.fn(HD, "get_parsed", "    ensures T::of(or_undefined(look(self.values, key@)), res(r)),", r"impl ValueMap$", head="pub fn get_parsed<T: Deserialize>(&self, key: &str) -> Result<T, Error>",
         edit=lambda h, b: (h, sub_code(b, r"&\s*Value\s*::\s*Undefined", "undefined_()")))
    u.add("}")
    return u
