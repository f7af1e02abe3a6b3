%% crateattrs
#![feature(allocator_api)]
#![feature(sized_hierarchy)]

%% use core::num::NonZero => pub use core::num::NonZero
%% use core::cell::RefCell => use crate::vx::RefCell


%% remove error::Ext4Error::as_io

%% item error::BoxedError
pub type BoxedError = crate::vx::BoxedError;

%% attr path::PathError
#[derive(Debug)]
%% attr dir_entry::DirEntryNameError
#[derive(Debug)]

%% fn checksum::Checksum::with_seed
@props C05 C15
@ret r
@spec
    ensures r.wf(), r.seed() == seed, r.data() == Seq::<u8>::empty()
@replace const CRC32C: crc::Crc<u32> = ==> let CRC32C: crc::Crc<u32> =

%% item reader::Ext4Read
/// The storage. `content` is fixed for the life of the reader.
pub trait Ext4Read {
    spec fn content(&self) -> Seq<u8>;
    fn read(&mut self, start_byte: u64, dst: &mut [u8]) -> (r: Result<(), BoxedError>)
        ensures
            final(self).content() == old(self).content(),
            final(dst)@.len() == old(dst)@.len(),
            r is Ok ==> start_byte + old(dst)@.len() <= old(self).content().len()
                && final(dst)@ == old(self).content().subrange(start_byte as int, start_byte + old(dst)@.len());
}

%% module reader
impl From<Box<crate::vx::io::Error>> for BoxedError {
    #[verifier::external_body]
    fn from(b: Box<crate::vx::io::Error>) -> BoxedError { unimplemented!() }
}
impl From<Box<MemIoError>> for BoxedError {
    #[verifier::external_body]
    fn from(b: Box<MemIoError>) -> BoxedError { unimplemented!() }
}

%% use core::iter::Skip => use crate::iters::file_blocks::VxSkip as Skip

%% use core::num::Wrapping => use crate::vx::Wrapping

%% item path::Path::ROOT
