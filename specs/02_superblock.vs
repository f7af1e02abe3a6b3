%% module superblock
pub open spec fn sb_known() -> u32 { 0x1f7dfu32 }
pub open spec fn sb_bad() -> u32 { 0xd519u32 }
/// Features this library can read: all known, directory entries carry the file type, none excluded.
pub open spec fn incompat_ok(f: u32) -> bool { f & sb_known() == f && f & 2 == 2 && f & sb_bad() == 0 }
pub proof fn lemma_feature_consts()
    ensures
        IncompatibleFeatures::vx_all() == sb_known(),
        (((((((IncompatibleFeatures::COMPRESSION.0 | IncompatibleFeatures::SEPARATE_JOURNAL_DEVICE.0) | IncompatibleFeatures::META_BLOCK_GROUPS.0) | IncompatibleFeatures::MULTIPLE_MOUNT_PROTECTION.0) | IncompatibleFeatures::LARGE_EXTENDED_ATTRIBUTES_IN_INODES.0) | IncompatibleFeatures::DATA_IN_DIR_ENTRY.0) | IncompatibleFeatures::LARGE_DIRECTORIES.0) | IncompatibleFeatures::DATA_IN_INODE.0) == sb_bad(),
        IncompatibleFeatures::FILE_TYPE_IN_DIR_ENTRY.0 == 2,
        IncompatibleFeatures::RECOVERY.0 == 4,
        IncompatibleFeatures::SEPARATE_JOURNAL_DEVICE.0 == 8,
        IncompatibleFeatures::EXTENTS.0 == 0x40,
        IncompatibleFeatures::IS_64BIT.0 == 0x80,
        IncompatibleFeatures::CHECKSUM_SEED_IN_SUPERBLOCK.0 == 0x2000,
        ReadOnlyCompatibleFeatures::METADATA_CHECKSUMS.0 == 0x400,
        CompatibleFeatures::HAS_JOURNAL.0 == 4,
{
    assert(IncompatibleFeatures::vx_all() == sb_known()) by (compute);
    assert((((((((IncompatibleFeatures::COMPRESSION.0 | IncompatibleFeatures::SEPARATE_JOURNAL_DEVICE.0) | IncompatibleFeatures::META_BLOCK_GROUPS.0) | IncompatibleFeatures::MULTIPLE_MOUNT_PROTECTION.0) | IncompatibleFeatures::LARGE_EXTENDED_ATTRIBUTES_IN_INODES.0) | IncompatibleFeatures::DATA_IN_DIR_ENTRY.0) | IncompatibleFeatures::LARGE_DIRECTORIES.0) | IncompatibleFeatures::DATA_IN_INODE.0) == sb_bad()) by (compute);
}
pub open spec fn is_block_size(b: int) -> bool {
    b == 1024 || b == 2048 || b == 4096 || b == 8192 || b == 16384 || b == 32768 || b == 65536
}
impl Superblock {
    /// What the rest of the library relies on.
    pub open spec fn wf(&self) -> bool {
        &&& is_block_size(self.block_size.v())
        &&& self.inode_size <= self.block_size.v()
        &&& incompat_ok(self.incompatible_features.0)
    }
    pub open spec fn has_csum(&self) -> bool { self.read_only_compatible_features.0 & 0x400 == 0x400 }
    pub open spec fn is_64bit(&self) -> bool { self.incompatible_features.0 & 0x80 == 0x80 }
}
/// Byte-level reading of the superblock.
pub open spec fn sb_blocks(b: Seq<u8>) -> u64 { hilo64(le32(b, 0x150), le32(b, 4)) }
pub open spec fn sb_groups(b: Seq<u8>) -> int
{
    (sb_blocks(b) - le32(b, 0x14) + le32(b, 0x20) - 1) / le32(b, 0x20) as int
}
pub open spec fn sb_bs(b: Seq<u8>) -> int { vstd::arithmetic::power::pow(2, (10 + le32(b, 0x18)) as nat) }
pub open spec fn sb_has_csum(b: Seq<u8>) -> bool { le32(b, 0x64) & 0x400 == 0x400 }
pub open spec fn sb_needs_journal(b: Seq<u8>) -> bool { le32(b, 0x5c) & 4 == 4 && le32(b, 0x60) & 4 == 4 }
pub open spec fn sb_csum_bad(b: Seq<u8>) -> bool {
    sb_has_csum(b) && le32(b, 0x3fc) != crc32c(0xffff_ffff, b.take(0x3fc))
}
pub open spec fn sb_ok(b: Seq<u8>) -> bool {
    &&& le16(b, 0x38) == 0xef53
    &&& le32(b, 0x18) <= 6
    &&& incompat_ok(le32(b, 0x60))
    &&& sb_blocks(b) >= le32(b, 0x14)
    &&& le32(b, 0x20) != 0
    &&& sb_groups(b) <= 0xffff_ffff
    &&& le32(b, 0x28) != 0
    &&& le16(b, 0x58) <= sb_bs(b)
    &&& (sb_needs_journal(b) ==> le32(b, 0xe0) != 0)
    &&& !sb_csum_bad(b)
}
/// Why a superblock is refused: the error names a defect that is there.
pub open spec fn sb_err(b: Seq<u8>, e: Ext4Error) -> bool {
    match e {
        Ext4Error::Corrupt(crate::error::Corrupt(k)) => match k {
            CorruptKind::SuperblockMagic => le16(b, 0x38) != 0xef53,
            CorruptKind::InvalidBlockSize => le32(b, 0x18) > 6,
            CorruptKind::FirstDataBlock(x) => x == le32(b, 0x14) && sb_blocks(b) < le32(b, 0x14),
            CorruptKind::BlocksPerGroup => le32(b, 0x20) == 0,
            CorruptKind::TooManyBlockGroups => le32(b, 0x20) != 0 && sb_groups(b) > 0xffff_ffff,
            CorruptKind::InodesPerBlockGroup => le32(b, 0x28) == 0,
            CorruptKind::InodeSize => le32(b, 0x18) <= 6 && le16(b, 0x58) > sb_bs(b),
            CorruptKind::JournalInode => sb_needs_journal(b) && le32(b, 0xe0) == 0,
            CorruptKind::SuperblockChecksum => sb_csum_bad(b),
            _ => false,
        },
        Ext4Error::Incompatible(crate::error::Incompatible(k)) => match k {
            IncompatibleKind::UnsupportedFeatures(f) => f.0 != 0
                && f.0 == (if le32(b, 0x60) & sb_known() != le32(b, 0x60) { le32(b, 0x60) & !(le32(b, 0x60) & sb_known()) } else { le32(b, 0x60) & sb_bad() }),
            IncompatibleKind::MissingRequiredFeatures(f) => f.0 == 2 && le32(b, 0x60) & 2 == 0,
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn sb_is(s: &Superblock, b: Seq<u8>) -> bool {
    &&& s.block_size.v() == sb_bs(b)
    &&& s.blocks_count == sb_blocks(b)
    &&& s.inode_size == le16(b, 0x58)
    &&& s.inodes_per_block_group@ == le32(b, 0x28)
    &&& s.block_group_descriptor_size == (if le32(b, 0x60) & 0x80 == 0x80 { le16(b, 0xfe) } else { 32 })
    &&& s.num_block_groups == sb_groups(b)
    &&& s.incompatible_features.0 == le32(b, 0x60)
    &&& s.read_only_compatible_features.0 == le32(b, 0x64)
    &&& s.checksum_seed == (if le32(b, 0x60) & 0x2000 == 0x2000 { le32(b, 0x270) } else { crc32c(0xffff_ffff, b.subrange(0x68, 0x78)) })
    &&& s.htree_hash_seed@ == seq![le32(b, 0xec), le32(b, 0xf0), le32(b, 0xf4), le32(b, 0xf8)]
    &&& (s.journal_inode is Some == sb_needs_journal(b))
    &&& (s.journal_inode matches Some(i) ==> i@ == le32(b, 0xe0))
    &&& s.label.0@ == b.subrange(0x78, 0x88)
    &&& s.uuid.0@ == b.subrange(0x68, 0x78)
}
%% fn superblock::Superblock::from_bytes
@props C01 C04 C05 C17 C18
@ret r
@spec
    requires bytes@.len() >= 1024
    ensures
        r is Ok == sb_ok(bytes@),
        r matches Ok(s) ==> sb_is(&s, bytes@) && s.wf(),
        r matches Err(e) ==> sb_err(bytes@, e),
@start
    proof {
        lemma_feature_consts();
        lemma_bs_values(le32(bytes@, 0x18));
    }
@closure 0 |block_size: &BlockSize| -> (b: bool) ensures b == (block_size.v() <= 65536)
@before let compatible_features =
    proof {
        let f = incompatible_features.0;
        assert(f & 8 != 8) by (bit_vector) requires f & 0xd519 == 0;
    }
@before ^let checksum_seed
    proof {
        assert(bytes@.subrange(0, 0x3fc) =~= bytes@.take(0x3fc));
        assert(Seq::<u8>::empty() + bytes@.take(0x3fc) =~= bytes@.take(0x3fc));
        assert(Seq::<u8>::empty() + bytes@.subrange(0x68, 0x78) =~= bytes@.subrange(0x68, 0x78));
    }
@after checksum.update(&bytes[..S_CHECKSUM_OFFSET]);
    proof {
        assert(bytes@.subrange(0, 0x3fc) =~= bytes@.take(0x3fc));
        assert(Seq::<u8>::empty() + bytes@.take(0x3fc) =~= bytes@.take(0x3fc));
    }
@before ^Ok(Self
    proof {
        assert(s_hash_seed@ =~= seq![le32(bytes@, 0xec), le32(bytes@, 0xf0), le32(bytes@, 0xf4), le32(bytes@, 0xf8)]);
    }
%% fn superblock::check_incompat_features
@props C04 C17
@ret r
@spec
    ensures
        r is Ok == incompat_ok(s_feature_incompat),
        r matches Ok(f) ==> f.0 == s_feature_incompat,
        r matches Err(k) ==> match k {
            IncompatibleKind::UnsupportedFeatures(f) => f.0 != 0
                && f.0 == (if s_feature_incompat & sb_known() != s_feature_incompat { s_feature_incompat & !(s_feature_incompat & sb_known()) } else { s_feature_incompat & sb_bad() }),
            IncompatibleKind::MissingRequiredFeatures(f) => f.0 == 2 && s_feature_incompat & 2 == 0,
            _ => false,
        }
@start
    proof {
        lemma_feature_consts();
        let f = s_feature_incompat;
        assert(f & 0x1f7dfu32 != f ==> f & !(f & 0x1f7dfu32) != 0) by (bit_vector);
        assert(f & 2 != 2 ==> 2u32 & !(f & 2) == 2 && f & 2 == 0) by (bit_vector);
        assert((2u32 & !f == 0) == (f & 2 == 2) && (2u32 & !f == 0 || 2u32 & !f == 2)) by (bit_vector);
        assert(f & !0x1f7dfu32 == f & !(f & 0x1f7dfu32) && (f & !0x1f7dfu32 == 0) == (f & 0x1f7dfu32 == f)) by (bit_vector);
    }
%% module superblock
pub proof fn lemma_bs_values(l: u32)
    ensures
        l <= 6 ==> is_block_size(vstd::arithmetic::power::pow(2, (10 + l) as nat)),
        l >= 7 && l < 22 ==> vstd::arithmetic::power::pow(2, (10 + l) as nat) > 65536,
{
    use vstd::arithmetic::power::*;
    assert(pow(2, 10) == 1024 && pow(2, 11) == 2048 && pow(2, 12) == 4096 && pow(2, 13) == 8192 && pow(2, 14) == 16384
        && pow(2, 15) == 32768 && pow(2, 16) == 65536 && pow(2, 17) == 131072) by { reveal_with_fuel(pow, 18); }
    if l >= 7 { lemma_pow_increases(2, 17, (10 + l) as nat); }
}
