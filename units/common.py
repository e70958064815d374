"""Contracts assumed of the standard library and of byteorder, and the reader they are about."""

ERRORS = r'''
global size_of usize == 8;
#[derive(Clone, Copy)]
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub struct IoError {}
pub enum Error { StaticError(&'static str), Io(IoError), Other }
impl std::convert::From<IoError> for Error {
    #[verifier::external_body]
    fn from(e: IoError) -> Error { Error::Io(e) }
}
'''

READER = r'''
// what the bytes of a stream stand for, in big and little endian order (byteorder)
pub uninterp spec fn be_i16(d: Seq<u8>, at: int) -> i16;
pub uninterp spec fn be_i32(d: Seq<u8>, at: int) -> i32;
pub uninterp spec fn be_i64(d: Seq<u8>, at: int) -> i64;
pub uninterp spec fn be_u32(d: Seq<u8>, at: int) -> u32;
pub uninterp spec fn be_u64(d: Seq<u8>, at: int) -> u64;
pub uninterp spec fn be_f32(d: Seq<u8>, at: int) -> f32;
pub uninterp spec fn be_f64(d: Seq<u8>, at: int) -> f64;

pub trait Stream: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn reliable(&self) -> bool;
}
pub open spec fn took<R: Stream>(a: &R, b: &R, n: int) -> bool {
    0 <= a.pos() && a.pos() + n <= a.data().len() && b.pos() == a.pos() + n
}
pub open spec fn must<R: Stream>(a: &R, n: int) -> bool {
    a.reliable() && 0 <= a.pos() && a.pos() + n <= a.data().len()
}
pub open spec fn kept<R: Stream>(a: &R, b: &R) -> bool {
    a.data() == b.data() && a.reliable() == b.reliable()
}
/// A stream of bytes with a position. Nothing is known of the position after a failure.
/// reliable(): no I/O error, a read only fails at the end of the stream.
pub trait Rd: Stream {
    fn read_u8(&mut self) -> (r: Result<u8, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 1) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 1) && r->Ok_0 == old(self).data()[old(self).pos()];
    fn read_i16_be(&mut self) -> (r: Result<i16, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 2) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 2) && r->Ok_0 == be_i16(old(self).data(), old(self).pos());
    fn read_i32_be(&mut self) -> (r: Result<i32, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 4) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 4) && r->Ok_0 == be_i32(old(self).data(), old(self).pos());
    fn read_i64_be(&mut self) -> (r: Result<i64, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 8) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 8) && r->Ok_0 == be_i64(old(self).data(), old(self).pos());
    fn read_u32_be(&mut self) -> (r: Result<u32, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 4) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 4) && r->Ok_0 == be_u32(old(self).data(), old(self).pos());
    fn read_u64_be(&mut self) -> (r: Result<u64, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 8) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 8) && r->Ok_0 == be_u64(old(self).data(), old(self).pos());
    fn read_f32_be(&mut self) -> (r: Result<f32, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 4) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 4) && r->Ok_0 == be_f32(old(self).data(), old(self).pos());
    fn read_f64_be(&mut self) -> (r: Result<f64, IoError>)
        ensures kept(old(self), final(self)), must(old(self), 8) ==> r is Ok,
            r is Ok ==> took(old(self), final(self), 8) && r->Ok_0 == be_f64(old(self).data(), old(self).pos());
    fn seek_relative(&mut self, off: i64) -> (r: Result<(), IoError>)
        ensures kept(old(self), final(self)),
            old(self).reliable() && 0 <= old(self).pos() + off <= i64::MAX ==> r is Ok,
            r is Ok ==> final(self).pos() == old(self).pos() + off && final(self).pos() >= 0;
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoError>)
        ensures kept(old(self), final(self)),
            old(self).reliable() && to is Start && to->Start_0 <= i64::MAX ==> r is Ok,
            old(self).reliable() && to is Current && 0 <= old(self).pos() + to->Current_0 <= i64::MAX ==> r is Ok,
            r is Ok && to is Start ==> final(self).pos() == to->Start_0 && r->Ok_0 == to->Start_0,
            r is Ok && to is Current ==> final(self).pos() == old(self).pos() + to->Current_0 && final(self).pos() >= 0;
    fn stream_position(&mut self) -> (r: Result<u64, IoError>)
        ensures kept(old(self), final(self)), final(self).pos() == old(self).pos(),
            old(self).reliable() && 0 <= old(self).pos() <= i64::MAX ==> r is Ok,
            r is Ok ==> r->Ok_0 == old(self).pos();
}
'''

TRUST_READER = ("the contract of std::io::{Read, Seek} and byteorder::ReadBytesExt written on the trait Rd: a read that succeeds takes the "
                "bytes at the position and moves it by their number, a seek that succeeds moves the position, a reliable reader only "
                "fails past the end of the stream")

DIV_CEIL = r"""
pub assume_specification [ u64::div_ceil ] (a: u64, b: u64) -> (r: u64)
    requires b > 0 ensures r == (a + b - 1) / (b as int);
pub assume_specification [ usize::div_ceil ] (a: usize, b: usize) -> (r: usize)
    requires b > 0 ensures r == (a + b - 1) / (b as int);
"""
TRUST_DIV_CEIL = "the contract of {u64, usize}::div_ceil of the standard library"
