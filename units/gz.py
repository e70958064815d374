"""The transparent gzip reader (C18): a gzipped file reads like the file it holds, another one as it is."""
import re

from common import ERRORS
from extract import sub_code
from unit import Unit
from table import fields

G = "src/gz.rs"
FI = "src/file.rs"

BASE = r'''
/// A reader: its bytes and a position
pub trait Src: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn reliable(&self) -> bool;
    /// Any number of bytes, at the position: 0 only at the end or for an empty buffer
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures read_at(old(self).data(), old(self).pos(), final(self).data(), final(self).pos(), old(buf)@, final(buf)@, r),
            final(self).reliable() == old(self).reliable(), old(self).reliable() ==> r is Ok;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoError>)
        ensures seek_at(old(self).data(), old(self).pos(), final(self).data(), final(self).pos(), to, r),
            final(self).reliable() == old(self).reliable(), old(self).reliable() && to is Start && to->Start_0 <= i64::MAX ==> r is Ok;
}
pub open spec fn read_at(d: Seq<u8>, p: int, d2: Seq<u8>, p2: int, b: Seq<u8>, b2: Seq<u8>, r: Result<usize, IoError>) -> bool {
    d2 == d && b2.len() == b.len() && (r is Ok ==> {
        let n = r->Ok_0;
        &&& n <= b.len() && p2 == p + n
        &&& n > 0 ==> 0 <= p && p + n <= d.len() && b2.subrange(0, n as int) == d.subrange(p, p + n)
        &&& n == 0 ==> b.len() == 0 || p >= d.len()
    })
}
pub open spec fn seek_at(d: Seq<u8>, p: int, d2: Seq<u8>, p2: int, to: SeekFrom, r: Result<u64, IoError>) -> bool {
    d2 == d && (r is Ok ==> p2 == r->Ok_0 && p2 >= 0 && match to {
        SeekFrom::Start(n) => p2 == n, SeekFrom::Current(n) => p2 == p + n, SeekFrom::End(n) => p2 == d.len() + n })
}
/// std::io::Cursor over bytes in memory
#[verifier::external_body]
pub struct Cursor { c: () }
impl Cursor {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn new(b: Vec<u8>) -> (r: Self) ensures r.data() == b@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures read_at(old(self).data(), old(self).pos(), final(self).data(), final(self).pos(), old(buf)@, final(buf)@, r), r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoError>)
        ensures seek_at(old(self).data(), old(self).pos(), final(self).data(), final(self).pos(), to, r), to is Start ==> r is Ok { unimplemented!() }
}

// ---- flate2::read::GzDecoder
/// The bytes from the position on begin with the header of a gzip member
pub uninterp spec fn gzipped(b: Seq<u8>) -> bool;
/// What the (first) member holds, when it is complete
pub uninterp spec fn unzipped(b: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn from(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, d.len() as int) }
pub struct GzHeader {}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct GzDecoder<R> { r: R }
impl<R: Src> GzDecoder<R> {
    /// The bytes it was made over
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn start(&self) -> int;
    pub uninterp spec fn reliable(&self) -> bool;
    /// Nothing decoded so far
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body]
    pub fn new(r: R) -> (g: Self) ensures g.data() == r.data(), g.start() == r.pos(), g.reliable() == r.reliable(), g.fresh() { unimplemented!() }
    #[verifier::external_body]
    pub fn header(&self) -> (h: Option<&GzHeader>) ensures self.reliable() ==> (h is Some <==> gzipped(from(self.data(), self.start()))) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures final(self).data() == old(self).data(),
            old(self).fresh() && r is Ok ==> unzipped(from(old(self).data(), old(self).start())) is Some
                && final(buf)@ == old(buf)@ + unzipped(from(old(self).data(), old(self).start()))->Some_0,
            old(self).fresh() && old(self).reliable() && unzipped(from(old(self).data(), old(self).start())) is Some ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: R) ensures r.data() == self.data(), r.reliable() == self.reliable() { unimplemented!() }
}
'''

SPEC = r'''
impl<R: Src> GzReader<R> {
    /// The bytes it stands for
    pub open spec fn bytes(&self) -> Seq<u8> { match self { GzReader::GzReader(c) => c.data(), GzReader::Reader(r) => r.data() } }
    pub open spec fn at(&self) -> int { match self { GzReader::GzReader(c) => c.pos(), GzReader::Reader(r) => r.pos() } }
}
'''
NEW = r'''    requires reader.pos() == 0
    ensures
        r is Ok ==> r->Ok_0.at() == 0,
        // a gzipped file: what it holds
        reader.reliable() && gzipped(reader.data()) && unzipped(reader.data()) is Some ==> r is Ok && r->Ok_0.bytes() == unzipped(reader.data())->Some_0,
        reader.reliable() && gzipped(reader.data()) && unzipped(reader.data()) is None ==> r is Err,
        // another one: as it is, from its start
        reader.reliable() && !gzipped(reader.data()) ==> r is Ok && r->Ok_0 is Reader && r->Ok_0.bytes() == reader.data(),
'''
READ = "    ensures read_at(old(self).bytes(), old(self).at(), final(self).bytes(), final(self).at(), old(buf)@, final(buf)@, r), (*final(self) is Reader) == (*old(self) is Reader),\n        *old(self) is Reader && !(*old(self))->Reader_0.reliable() || r is Ok,"
SEEK = "    ensures seek_at(old(self).bytes(), old(self).at(), final(self).bytes(), final(self).at(), pos, r), (*final(self) is Reader) == (*old(self) is Reader),\n        pos is Start && pos->Start_0 <= i64::MAX ==> *old(self) is Reader && !(*old(self))->Reader_0.reliable() || r is Ok,"
ENTRY = "broadcast use vstd::seq_lib::group_seq_properties; proof { assert(from(reader.data(), 0) =~= reader.data()); assert(forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) =~= s); }"


def edit(h, b):
    h = re.sub(r"std\s*::\s*io\s*::\s*Result<(\w+)>", r"Result<\1, IoError>", h)
    b = sub_code(b, r"\.\s*into_boxed_slice\s*\(\s*\)", "")
    return h, b


def build(mdir, probe=False):
    u = Unit("gz", mdir)
    u.probe = probe
    u.add(ERRORS + BASE)
    u.trust("the contract of flate2::read::GzDecoder: header() is Some exactly when the stream begins with a gzip header, read_to_end gives what the first member holds or fails, "
            "into_inner gives the reader back; what gzip means is uninterpreted (the driver of C18 compares with real gzip files)")
    u.trust("the contracts of std::io::{Read, Seek} and of std::io::Cursor over bytes in memory: any number of bytes per read")
    u.notes.add("`Cursor<Box<[u8]>>` written `Cursor` (over a Vec<u8>, `into_boxed_slice` dropped); the bounds `R: Read + Seek` written `R: Src`; `std::io::Result<T>` written `Result<T, IoError>`")
    u.item(G, r"pub enum GzReader", edit=lambda t: re.sub(r"Cursor<Box<\[u8\]>>", "Cursor", t))
    u.add(SPEC)
    u.add("impl<R: Src> GzReader<R> {")
    u.fn(G, "new", NEW, r"^impl<R> GzReader<R>", edit=edit, entry=ENTRY)
    u.fn(G, "read", READ, r"Read for GzReader<R>", edit=edit)
    u.fn(G, "seek", SEEK, r"Seek for GzReader<R>", edit=edit)
    u.add("}")
    return u
