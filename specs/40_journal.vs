%% module journal::block_header
pub open spec fn is_journal_block(b: Seq<u8>) -> bool { be32(b, 0) == 0xc03b3998u32 }
%% fn journal::block_header::JournalBlockHeader::read_bytes
@props C01 C15
@ret r
@spec
    requires bytes@.len() >= 12
    ensures
        r is Some == is_journal_block(bytes@),
        r matches Some(h) ==> h.block_type.0 == be32(bytes@, 4) && h.sequence == be32(bytes@, 8),
%% module journal::commit_block
/// The checksum of a commit block: the UUID and the block with its checksum field zero.
pub open spec fn commit_csum(uuid: Seq<u8>, b: Seq<u8>) -> u32 {
    crc32c(0xffff_ffff, uuid + b.take(16) + Seq::new(4, |i: int| 0u8) + b.skip(20))
}
%% fn journal::commit_block::validate_commit_block_checksum
@props C01 C15
@ret r
@spec
    requires block@.len() >= 20
    ensures
        r is Ok == (commit_csum(superblock.uuid.0@, block@) == be32(block@, 16)),
        r matches Err(e) ==> e == crate::error::corrupt(CorruptKind::JournalCommitBlockChecksum),
@before ^if checksum.finalize() == expected_checksum {
    proof {
        let b = block@;
        let u = superblock.uuid.0@;
        assert(checksum.data() =~= u + b.take(16) + Seq::new(4, |i: int| 0u8) + b.skip(20));
    }
%% module journal::descriptor_block
/// The checksum of a descriptor or revocation block: the UUID and the block with its last four bytes zero.
pub open spec fn tail_csum(uuid: Seq<u8>, b: Seq<u8>) -> u32 {
    crc32c(0xffff_ffff, uuid + b.take(b.len() - 4) + be_bytes32(0))
}
pub open spec fn tail_csum_ok(uuid: Seq<u8>, b: Seq<u8>) -> bool { tail_csum(uuid, b) == be32(b, b.len() - 4) }
pub open spec fn tag_flags(b: Seq<u8>) -> u32 { be32(b, 4) }
/// A tag is followed by a UUID unless its flags say otherwise.
pub open spec fn tag_size(b: Seq<u8>) -> int { if tag_flags(b) & 2 == 2 { 16 } else { 32 } }
pub open spec fn tag_fits(b: Seq<u8>) -> bool { b.len() >= 16 && b.len() >= tag_size(b) }
pub open spec fn tag_block(b: Seq<u8>) -> u64 { hilo64(be32(b, 8), be32(b, 0)) }
pub open spec fn tag_csum(b: Seq<u8>) -> u32 { be32(b, 12) }
%% fn journal::descriptor_block::validate_descriptor_block_checksum
@props C01 C15
@ret r
@spec
    requires block@.len() >= 4
    ensures
        r is Ok == tail_csum_ok(superblock.uuid.0@, block@),
        r matches Err(e) ==> e == crate::error::corrupt(CorruptKind::JournalDescriptorBlockChecksum),
@before ^if checksum.finalize() == expected_checksum {
    proof { assert(checksum.data() =~= superblock.uuid.0@ + block@.take(block@.len() - 4) + be_bytes32(0)); }
%% fn journal::descriptor_block::DescriptorBlockTag::encoded_size
@props C01 C15
@ret r
@spec
    ensures r == (if self.flags.0 & 2 == 2 { 16 } else { 32int })
%% fn journal::descriptor_block::DescriptorBlockTag::read_bytes
@props C01 C15
@ret r
@spec
    ensures
        r is Some == tag_fits(bytes@),
        r matches Some(t) ==> t.block_index == tag_block(bytes@) && t.checksum == tag_csum(bytes@) && t.flags.0 == tag_flags(bytes@),
%% fn journal::descriptor_block::DescriptorBlockTagIter::new
@props C15
@ret r
@spec
    ensures r.bytes@ == bytes@, !r.is_done
%% fn journal::descriptor_block::DescriptorBlockTagIter<'_>@Iterator::next
@props C01 C02 C15 C17
@ret r
@spec
    ensures
        old(self).is_done ==> r is None && *final(self) == *old(self),
        !old(self).is_done ==> {
            let b = old(self).bytes@;
            if !tag_fits(b) { final(self).is_done && r == Some(Result::<DescriptorBlockTag, Ext4Error>::Err(crate::error::corrupt(CorruptKind::JournalDescriptorBlockTruncated))) }
            else if tag_flags(b) & 1 == 1 { final(self).is_done && r == Some(Result::<DescriptorBlockTag, Ext4Error>::Err(crate::error::incompat(IncompatibleKind::JournalBlockEscaped))) }
            else {
                &&& r matches Some(Ok(t)) && t.block_index == tag_block(b) && t.checksum == tag_csum(b)
                &&& final(self).is_done == (tag_flags(b) & 8 == 8)
                &&& !final(self).is_done ==> final(self).bytes@ == b.skip(tag_size(b))
            }
        },
%% module journal::revocation_block
use crate::journal::descriptor_block::{tail_csum, tail_csum_ok};
/// Size in bytes of the table, as this library reads it (see known finding journal-revoke-extra).
pub open spec fn table_size(b: Seq<u8>) -> int { be32(b, 12) as int }
pub open spec fn table_ok(b: Seq<u8>) -> bool { table_size(b) % 8 == 0 && table_size(b) <= b.len() - 20 }
pub open spec fn revoked(b: Seq<u8>) -> Seq<u64> { Seq::new((table_size(b) / 8) as nat, |i: int| be64(b, 16 + 8 * i)) }
%% fn journal::revocation_block::validate_revocation_block_checksum
@props C01 C15
@ret r
@spec
    requires block@.len() >= 4
    ensures
        r is Ok == tail_csum_ok(superblock.uuid.0@, block@),
        r matches Err(e) ==> e == crate::error::corrupt(CorruptKind::JournalRevocationBlockChecksum),
@before ^if checksum.finalize() == expected_checksum {
    proof { assert(checksum.data() =~= superblock.uuid.0@ + block@.take(block@.len() - 4) + be_bytes32(0)); }
%% fn journal::revocation_block::read_revocation_block_table
@props C01 C02 C15
@ret r
@spec
    requires block@.len() >= 20
    ensures
        r is Ok == table_ok(block@),
        r is Ok ==> final(table)@ == old(table)@ + revoked(block@),
        r matches Err(e) ==> e is Corrupt && final(table)@ == old(table)@,
@loopbefore 0
    let ghost mut n: int = 0;
    let ghost t0 = table@;
@loop 0
    invariant
        block@.len() >= 20, table_ok(block@),
        0 <= n <= table_size(block@) / 8,
        data@.len() == table_size(block@) - 8 * n,
        forall|k: int| 0 <= k < data@.len() ==> #[trigger] data@[k] == block@[16 + 8 * n + k],
        table@ == t0 + revoked(block@).take(n),
    decreases data@.len()
@loopend 0
    proof {
        let v = revoked(block@);
        assert(v.take(n + 1) =~= v.take(n).push(v[n]));
        n = n + 1;
    }
@tail
    proof { assert(revoked(block@).take(n) =~= revoked(block@)); }
%% module journal::superblock
pub open spec fn js_required() -> u32 { 0x12u32 }
pub open spec fn js_allowed() -> u32 { 0x13u32 }
pub open spec fn js_csum_bad(b: Seq<u8>) -> bool {
    be32(b, 0xfc) != crc32c(0xffff_ffff, b.take(0xfc) + le_bytes32(0) + b.subrange(0x100, 0x400))
}
/// A journal superblock that can be used.
pub open spec fn js_ok(b: Seq<u8>) -> bool {
    &&& crate::journal::block_header::is_journal_block(b)
    &&& be32(b, 4) == 4
    &&& be32(b, 0x28) & js_required() == js_required()
    &&& be32(b, 0x28) & !js_allowed() == 0
    &&& b[0x50] == 4
    &&& !js_csum_bad(b)
}
pub open spec fn js_is(s: &JournalSuperblock, b: Seq<u8>) -> bool {
    &&& s.block_size == be32(b, 0xc)
    &&& s.sequence == be32(b, 0x18)
    &&& s.start_block == be32(b, 0x1c)
    &&& s.uuid.0@ == b.subrange(0x30, 0x40)
}
/// Why a journal superblock is refused.
pub open spec fn js_err(b: Seq<u8>, e: Ext4Error) -> bool {
    match e {
        Ext4Error::Corrupt(crate::error::Corrupt(k)) => match k {
            CorruptKind::JournalMagic => !crate::journal::block_header::is_journal_block(b),
            CorruptKind::JournalSuperblockChecksum => js_csum_bad(b),
            _ => false,
        },
        Ext4Error::Incompatible(crate::error::Incompatible(k)) => match k {
            IncompatibleKind::JournalSuperblockType(t) => t == be32(b, 4) && t != 4,
            IncompatibleKind::MissingRequiredJournalFeatures(f) => f == js_required() & !be32(b, 0x28) && f != 0,
            IncompatibleKind::UnsupportedJournalFeatures(f) => f == be32(b, 0x28) & !js_allowed() && f != 0,
            IncompatibleKind::JournalChecksumType(t) => t == b[0x50] && t != 4,
            _ => false,
        },
        _ => false,
    }
}
%% fn journal::superblock::check_incompat_features
@props C15 C17
@ret r
@spec
    ensures
        r is Ok == (s_feature_incompat & js_required() == js_required() && s_feature_incompat & !js_allowed() == 0),
        r matches Err(k) ==> match k {
            IncompatibleKind::MissingRequiredJournalFeatures(f) => f == js_required() & !s_feature_incompat && f != 0,
            IncompatibleKind::UnsupportedJournalFeatures(f) => f == s_feature_incompat & !js_allowed() && f != 0,
            _ => false,
        },
@start
    proof {
        assert(REQUIRED_FEATURES.0 == 0x12) by (compute);
        assert(REQUIRED_FEATURES.0 | ALLOWED_FEATURES.0 == 0x13) by (compute);
        let f = s_feature_incompat;
        assert(f & 0x12 != 0x12 ==> 0x12u32 & !f != 0) by (bit_vector);
    }
%% fn journal::superblock::JournalSuperblock::read_bytes
@props C01 C04 C15 C17
@ret r
@spec
    requires bytes@.len() == 1024
    ensures
        r is Ok == js_ok(bytes@),
        r matches Ok(s) ==> js_is(&s, bytes@),
        r matches Err(e) ==> js_err(bytes@, e),
@before ^if checksum.finalize() != s_checksum {
    proof { assert(checksum.data() =~= bytes@.take(0xfc) + le_bytes32(0) + bytes@.subrange(0x100, 0x400)); }
%% fn journal::superblock::JournalSuperblock::load
@props C01 C15 C17
@ret r
@spec
    requires fs.wf(), journal_inode.wf(fs)
    ensures
        r matches Ok(s) ==> js_loaded(fs, journal_inode, &s),
        r matches Err(e) ==> js_load_err(fs, journal_inode, e),
%% module journal::superblock
use crate::iters::file_blocks::{inode_at, inode_end, layout_ok};
/// The first 1024 bytes of the journal.
pub open spec fn js_bytes(fs: &Ext4, inode: &Inode) -> Seq<u8> { fs.block(inode_at(fs, inode, 0)).subrange(0, 1024) }
pub open spec fn js_loaded(fs: &Ext4, inode: &Inode, s: &JournalSuperblock) -> bool {
    &&& inode_end(fs, inode) > 0
    &&& js_ok(js_bytes(fs, inode))
    &&& js_is(s, js_bytes(fs, inode))
    &&& s.block_size as int == fs.bs()
}
pub open spec fn js_load_err(fs: &Ext4, inode: &Inode, e: Ext4Error) -> bool {
    ||| e is Io
    ||| e is Corrupt && !layout_ok(fs, inode)
    ||| e == crate::error::corrupt(CorruptKind::JournalSize) && inode_end(fs, inode) <= 0
    ||| e is Corrupt && !fs.readable(inode_at(fs, inode, 0), 0, 1024)
    ||| js_err(js_bytes(fs, inode), e)
    ||| e == crate::error::corrupt(CorruptKind::JournalBlockSize) && be32(js_bytes(fs, inode), 0xc) != fs.bs()
}
