%% module block_group
/// Byte position of descriptor `i`.
pub open spec fn bgd_off(sb: &Superblock, i: int) -> int {
    let bs = sb.block_size.v();
    let d = sb.block_group_descriptor_size as int;
    ((if bs == 1024 { 2int } else { 1int }) + i / (bs / d)) * bs + (i % (bs / d)) * d
}
pub open spec fn bgd_bytes(sb: &Superblock, disk: Seq<u8>, i: int) -> Seq<u8> {
    disk.subrange(bgd_off(sb, i), bgd_off(sb, i) + sb.block_group_descriptor_size)
}
pub open spec fn bgd_csum_bad(sb: &Superblock, b: Seq<u8>, i: int) -> bool {
    sb.has_csum() && le16(b, 0x1e) != (crc32c(sb.checksum_seed,
        le_bytes32(i as u32) + b.take(0x1e) + le_bytes16(0) + b.skip(0x20)) & 0xffff) as u16
}
pub open spec fn bgd_table(sb: &Superblock, b: Seq<u8>) -> u64 {
    hilo64(if sb.is_64bit() { le32(b, 0x28) } else { 0 }, le32(b, 8))
}
/// Descriptor `i` was read from its place, verified and decoded.
pub open spec fn bgd_is(sb: &Superblock, disk: Seq<u8>, i: int, g: &BlockGroupDescriptor) -> bool {
    let b = bgd_bytes(sb, disk, i);
    &&& sb.block_group_descriptor_size >= (if sb.is_64bit() { 64int } else { 32int })
    &&& bgd_off(sb, i) + sb.block_group_descriptor_size <= disk.len()
    &&& !bgd_csum_bad(sb, b, i)
    &&& g.inode_table_first_block == bgd_table(sb, b)
    &&& g.checksum == le16(b, 0x1e)
}
%% fn block_group::BlockGroupDescriptor::from_bytes
@props C01 C06
@ret r
@spec
    requires bytes@.len() >= 32, superblock.is_64bit() ==> bytes@.len() >= 64
    ensures r.inode_table_first_block == bgd_table(superblock, bytes@), r.checksum == le16(bytes@, 0x1e)
%% fn block_group::BlockGroupDescriptor::get_start_byte
@props C01 C06
@ret r
@spec
    requires sb.wf()
    ensures r matches Some(x) ==> x == bgd_off(sb, bgd_index as int),
        r is None ==> sb.block_group_descriptor_size == 0 || sb.block_group_descriptor_size > sb.block_size.v() || bgd_index >= 0xffff_fffe,
@start
    proof {
        let bs = sb.block_size.v();
        let d = sb.block_group_descriptor_size as int;
        if 0 < d <= bs {
            let p = bs / d;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(bs, d);
            assert(p >= 1) by (nonlinear_arith) requires bs == d * p + bs % d, bs >= d, d > 0, 0 <= bs % d < d, p == bs / d;
            assert(0 <= bgd_index as int % p < p);
            assert((bgd_index as int % p) * d <= p * d) by (nonlinear_arith) requires 0 <= bgd_index as int % p < p, d > 0;
            assert(p * d == d * p) by (nonlinear_arith);
            assert(bgd_index as int / p <= bgd_index) by (nonlinear_arith) requires p >= 1, bgd_index >= 0;
        }
    }
%% fn block_group::BlockGroupDescriptor::read
@props C01 C05 C06 C16 C17
@ret r
@spec
    requires sb.wf()
    ensures
        final(reader).content() == old(reader).content(),
        r matches Ok(g) ==> bgd_is(sb, old(reader).content(), bgd_index as int, &g),
        r matches Err(e) ==> bgd_read_err(sb, old(reader).content(), bgd_index, e),
@start
    proof { crate::superblock::lemma_feature_consts(); }
@before let checksum = u16::try_from
    proof {
        assert(data@.subrange(0, 0x1e) =~= data@.take(0x1e));
        assert(data@.subrange(0x20, data@.len() as int) =~= data@.skip(0x20));
        assert(checksum.data() =~= le_bytes32(bgd_index) + data@.take(0x1e) + le_bytes16(0) + data@.skip(0x20));
        assert(forall|x: u32| #![trigger x & 0xffff] x & 0xffff <= 0xffff) by (bit_vector);
    }
%% fn block_group::BlockGroupDescriptor::read_all
@props C01 C02 C05 C06 C16
@ret r
@spec
    requires sb.wf()
    ensures
        final(reader).content() == old(reader).content(),
        r matches Ok(v) ==> bgds_ok(sb, old(reader).content(), v@),
        r matches Err(e) ==> bgd_err(sb, old(reader).content(), e),
@loop 0
    invariant
        sb.wf(),
        reader.content() == old(reader).content(),
        block_group_descriptors@.len() == bgd_index,
        forall|i: int| 0 <= i < bgd_index ==> bgd_is(sb, reader.content(), i, #[trigger] &block_group_descriptors@[i]),
%% module block_group
pub open spec fn bgds_ok(sb: &Superblock, disk: Seq<u8>, v: Seq<BlockGroupDescriptor>) -> bool {
    &&& v.len() == sb.num_block_groups
    &&& forall|i: int| 0 <= i < v.len() ==> bgd_is(sb, disk, i, #[trigger] &v[i])
}

/// Why descriptor `i` is refused.
pub open spec fn bgd_read_err(sb: &Superblock, disk: Seq<u8>, i: u32, e: Ext4Error) -> bool {
    ||| e is Io
    ||| e == crate::error::corrupt(CorruptKind::BlockGroupDescriptor(i)) && (sb.block_group_descriptor_size < (if sb.is_64bit() { 64int } else { 32int })
            || sb.block_group_descriptor_size > sb.block_size.v() || i >= 0xffff_fffe)
    ||| e == crate::error::corrupt(CorruptKind::BlockGroupDescriptorChecksum(i)) && bgd_csum_bad(sb, bgd_bytes(sb, disk, i as int), i as int)
}
pub open spec fn bgd_err(sb: &Superblock, disk: Seq<u8>, e: Ext4Error) -> bool {
    exists|i: u32| i < sb.num_block_groups && #[trigger] bgd_read_err(sb, disk, i, e)
}
