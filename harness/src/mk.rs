//! A small mkfs: builds valid images of every layout the library reads.
use crate::base::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Super,
    Bgd(u32),
    Inode(u32),
    /// Extent tree node outside of the inode.
    Ext(u32),
    Indirect,
    DirLeaf(u32),
    DirRoot(u32),
    DirInner(u32),
    Data,
    JSuper,
    JDesc,
    JRevoke,
    JCommit,
    JData,
}

#[derive(Clone, Debug)]
pub struct Region {
    pub off: u64,
    pub len: usize,
    pub kind: K,
}

#[derive(Clone, Debug)]
pub struct Params {
    pub log_bs: u32,
    pub isize: u16,
    pub csum: bool,
    pub is64: bool,
    pub desc_size: u16,
    pub csum_seed: Option<u32>,
    pub ipg: u32,
    pub ngroups: u32,
    pub uuid: [u8; 16],
    pub label: [u8; 16],
    pub hash_seed: [u32; 4],
    pub extra_incompat: u32,
    pub extra_ro: u32,
    /// Spread blocks far apart (block numbers beyond 2^32 when possible).
    pub huge: bool,
    /// Add a file of more than 4 GiB, almost all of it holes, as `/BIG`.
    pub big: bool,
    pub total_blocks: u64,
    /// Blocks in the journal; 0 for none.
    pub jblocks: u64,
}

impl Params {
    pub fn random(r: &mut Rng) -> Params {
        let csum = r.chance(1, 2);
        let is64 = r.chance(1, 2);
        let log_bs = if r.chance(1, 25) { *r.pick(&[3, 4, 5, 6, 6, 6]) } else { *r.pick(&[0, 0, 0, 1, 2, 2]) };
        let bs = 1024u64 << log_bs;
        let mut label = [0u8; 16];
        let n = r.below(17) as usize;
        let lb = r.odd_bytes(n);
        label[..n].copy_from_slice(&lb);
        let mut uuid = [0; 16];
        uuid.copy_from_slice(&r.odd_bytes(16));
        Params {
            log_bs,
            isize: *r.pick(if csum { &[256u16, 256, 256, 512, 128] } else { &[128u16, 256, 512] }),
            csum,
            is64,
            desc_size: if is64 { *r.pick(&[64u16, 64, 128]) } else { *r.pick(&[0u16, 32, 64]) },
            csum_seed: if r.chance(1, 3) { Some(r.odd_u32()) } else { None },
            ipg: *r.pick(&[16u32, 32, 24, 64]),
            ngroups: r.range(1, 9) as u32,
            uuid,
            label,
            hash_seed: if r.chance(1, 6) {
                [0; 4]
            } else if r.chance(1, 3) {
                // Some words are zero.
                let k = r.below(15) + 1;
                [0, 1, 2, 3].map(|i| if k >> i & 1 == 1 { r.odd_u32() } else { 0 })
            } else {
                [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32]
            },
            extra_incompat: if r.chance(1, 2) { 0x200 } else { 0 } | if r.chance(1, 4) { 0x1_0000 } else { 0 },
            extra_ro: *r.pick(&[0u32, 0x1, 0x3, 0x6b, 0x10]),
            huge: is64 && r.chance(1, 4),
            jblocks: 0,
            big: false,
            total_blocks: 1200 + r.below(500) + if bs == 1024 { 400 } else { 0 },
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ino {
    pub mode: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub flags: u32,
    pub gen: u32,
    pub block: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Run {
    Data(Vec<u8>),
    Unwritten(Vec<u8>),
}

/// Contents of a file: runs of blocks at given positions, and a size.
#[derive(Clone, Debug)]
pub struct Layout {
    pub size: u64,
    pub runs: Vec<(u32, Run)>,
}

pub struct Mk {
    pub p: Params,
    pub img: Img,
    pub bs: usize,
    pub regions: Vec<Region>,
    pub itable: Vec<u64>,
    pub next_block: u64,
    pub next_ino: u32,
    pub r: Rng,
    pub seed: u32,
    pub blocks_count: u64,
    pub inodes: std::collections::BTreeMap<u32, Ino>,
    pub journal_ino: u32,
    pub recover: bool,
    pub exhausted: bool,
    /// Physical blocks of the journal, in order.
    pub jphys: Vec<u64>,
    last_low: Option<u64>,
    /// Taken beyond 2^32.
    twins: Vec<(u64, u64)>,
}

impl Mk {
    pub fn new(p: Params, r: Rng) -> Mk {
        let bs = 1024usize << p.log_bs;
        let mut r = r;
        let mut p = p;
        if p.huge {
            // Blocks per group is a 32-bit field.
            p.ngroups = p.ngroups.max(4);
            // Inode tables of more than 4 GiB.
            if r.chance(1, 5) {
                p.ipg = (1 << 26) + r.below(3 << 27) as u32;
            }
        }
        let seed = match p.csum_seed {
            Some(s) => s,
            None => crc(!0, &p.uuid),
        };
        let first = if bs == 1024 { 1 } else { 0 };
        let dsz = if p.is64 { u64::from(p.desc_size) } else { 32 };
        let bgd_blocks = u64::from(p.ngroups).div_ceil(bs as u64 / dsz);
        let mut m = Mk {
            bs,
            regions: vec![],
            itable: vec![],
            next_block: first + 1 + bgd_blocks,
            next_ino: 11,
            seed,
            blocks_count: if p.huge { (1 << 33) + 77 } else { p.total_blocks },
            inodes: Default::default(),
            journal_ino: 0,
            recover: false,
            img: Img::new(),
            exhausted: false,
            jphys: vec![],
            last_low: None,
            twins: vec![],
            r: r.clone(),
            p,
        };
        let n = (u64::from(m.p.ipg) * u64::from(m.p.isize)).div_ceil(bs as u64);
        let mut gs: Vec<u32> = (0..m.p.ngroups).collect();
        r.shuffle(&mut gs);
        m.itable = vec![0; m.p.ngroups as usize];
        for g in gs {
            if m.wide_tables() {
                m.itable[g as usize] = m.next_block;
                m.next_block += n + r.below(1000);
            } else {
                m.itable[g as usize] = m.alloc(n, true);
            }
        }
        m.r = r;
        m
    }

    /// Allocate `n` consecutive blocks. `hi`: may be beyond 2^32.
    pub fn alloc(&mut self, n: u64, hi: bool) -> u64 {
        if self.p.huge {
            // At times, the same position as an earlier allocation in the low 32 bits.
            if let Some(low) = self.last_low.filter(|_| hi && self.r.chance(1, 3)) {
                let b = (1u64 << 32) + low;
                if self.twins.iter().all(|&(s, e)| b + n <= s || e <= b) && b + n <= self.blocks_count {
                    self.twins.push((b, b + n));
                    return b;
                }
            }
            let base = if hi && self.r.chance(1, 2) { (1u64 << 32) + self.r.below(1 << 32) } else { 100_000 };
            let b = base + self.next_block;
            self.next_block += n + self.r.below(40);
            if b + n <= self.blocks_count && self.twins.iter().all(|&(s, e)| b + n <= s || e <= b) {
                if b < 1 << 32 {
                    self.last_low = Some(b);
                } else {
                    self.twins.push((b, b + n));
                }
                return b;
            }
            return 200_000 + self.next_block;
        }
        self.next_block += if self.r.chance(1, 3) { self.r.below(3) } else { 0 };
        let b = self.next_block;
        self.next_block += n;
        if self.next_block > self.blocks_count {
            self.exhausted = true;
        }
        b
    }
    pub fn room(&self) -> bool {
        self.p.huge || self.next_block + 150 < self.blocks_count
    }
    pub fn new_ino(&mut self) -> u32 {
        let left = self.max_ino() - self.next_ino;
        if self.wide_tables() && left > 1000 && self.r.chance(1, 6) {
            self.next_ino += self.r.below(u64::from(left / 3)) as u32;
        }
        let n = self.next_ino;
        self.next_ino += 1 + if self.r.chance(1, 4) { self.r.below(4) as u32 } else { 0 };
        n
    }
    fn wide_tables(&self) -> bool {
        self.p.ipg >= 1 << 26
    }
    pub fn max_ino(&self) -> u32 {
        self.p.ipg * self.p.ngroups
    }
    pub fn wblock(&mut self, b: u64, data: &[u8], kind: K) {
        let off = b * self.bs as u64;
        self.img.write(off, data);
        self.regions.push(Region { off, len: data.len(), kind });
    }

    pub fn inode_base(&self, n: u32, gen: u32) -> u32 {
        crc(crc(self.seed, &n.to_le_bytes()), &gen.to_le_bytes())
    }

    /// New inode of the given type with random attributes.
    pub fn attrs(&mut self, kind: u16) -> Ino {
        let wide = self.r.chance(1, 2);
        Ino {
            mode: kind | (self.r.next() as u16 & 0xfff),
            uid: if wide { self.r.odd_u32() } else { self.r.below(65536) as u32 },
            gid: if wide { self.r.odd_u32() } else { self.r.below(65536) as u32 },
            size: 0,
            flags: 0,
            gen: self.r.odd_u32(),
            block: vec![0; 60],
        }
    }

    /// Lay `runs` out on disk and point the inode at them.
    pub fn layout(&mut self, n: u32, ino: &mut Ino, l: &Layout, extents: bool, depth: u16) {
        ino.size = l.size;
        let mut pieces: Vec<(u32, u64, u64, bool)> = vec![]; // (lblk, phys, count, unwritten)
        for (lb, run) in &l.runs {
            let (d, unw) = match run {
                Run::Data(d) => (d, false),
                Run::Unwritten(d) => (d, true),
            };
            let cnt = d.len().div_ceil(self.bs) as u64;
            if cnt == 0 {
                continue;
            }
            let phys = self.alloc(cnt, extents);
            for i in 0..cnt {
                let a = i as usize * self.bs;
                let z = (a + self.bs).min(d.len());
                let mut blk = d[a..z].to_vec();
                // The rest of the last block is not zero on purpose.
                blk.resize(self.bs, 0xa5);
                self.wblock(phys + i, &blk, K::Data);
            }
            pieces.push((*lb, phys, cnt, unw));
        }
        if extents {
            self.extents(n, ino, &pieces, depth);
        } else {
            pieces.retain(|p| !p.3);
            self.blockmap(ino, &pieces);
        }
    }

    pub fn extents(&mut self, n: u32, ino: &mut Ino, pieces: &[(u32, u64, u64, bool)], depth: u16) {
        ino.flags |= 0x8_0000;
        let mut level: Vec<(u32, Vec<u8>)> = pieces
            .iter()
            .map(|(l, p, c, u)| {
                let mut e = vec![0; 12];
                p32(&mut e, 0, *l);
                p16(&mut e, 4, *c as u16 + if *u { 32768 } else { 0 });
                p16(&mut e, 6, (*p >> 32) as u16);
                p32(&mut e, 8, *p as u32);
                (*l, e)
            })
            .collect();
        let max = (self.bs - 12 - if self.p.csum { 4 } else { 0 }) / 12;
        let mut d = 0u16;
        while d < depth || level.len() > 4 {
            let mut next = vec![];
            let mut i = 0;
            while i < level.len() || (i == 0 && level.is_empty()) {
                let per = if self.r.chance(1, 4) { max } else { self.r.range(2, 6) as usize };
                let g = &level[i..(i + per).min(level.len())];
                let mut node = self.r.bytes(self.bs);
                p16(&mut node, 0, 0xf30a);
                p16(&mut node, 2, g.len() as u16);
                let mx = if self.r.chance(1, 3) { self.r.range(g.len() as u64, max as u64) as u16 } else { max as u16 };
                p16(&mut node, 4, mx);
                p16(&mut node, 6, d);
                for (j, (_, e)) in g.iter().enumerate() {
                    node[12 + j * 12..24 + j * 12].copy_from_slice(e);
                }
                if self.p.csum {
                    let o = 12 + usize::from(mx) * 12;
                    let c = crc(self.inode_base(n, ino.gen), &node[..o]);
                    p32(&mut node, o, c);
                }
                let first = g.first().map_or(0, |x| x.0);
                let b = self.alloc(1, true);
                self.wblock(b, &node, K::Ext(n));
                let mut e = vec![0; 12];
                p32(&mut e, 0, first);
                p32(&mut e, 4, b as u32);
                p16(&mut e, 8, (b >> 32) as u16);
                p16(&mut e, 10, self.r.next() as u16);
                next.push((first, e));
                i += per;
                if level.is_empty() {
                    break;
                }
            }
            level = next;
            d += 1;
            if d == 5 && level.len() > 4 {
                panic!("tree too deep");
            }
        }
        let mut root = self.r.bytes(60);
        p16(&mut root, 0, 0xf30a);
        p16(&mut root, 2, level.len() as u16);
        p16(&mut root, 4, 4);
        p16(&mut root, 6, d);
        for (j, (_, e)) in level.iter().enumerate() {
            root[12 + j * 12..24 + j * 12].copy_from_slice(e);
        }
        ino.block = root;
    }

    pub fn blockmap(&mut self, ino: &mut Ino, pieces: &[(u32, u64, u64, bool)]) {
        let mut map = std::collections::BTreeMap::new();
        for (l, p, c, _) in pieces {
            for i in 0..*c {
                map.insert(u64::from(*l) + i, (*p + i) as u32);
            }
        }
        let n = self.bs as u64 / 4;
        let mut blk = vec![0; 60];
        let mut base = 0u64;
        for i in 0..15usize {
            let lvl = if i < 12 { 0 } else { i as u32 - 11 };
            let span = n.pow(lvl);
            let v = self.map_level(&map, base, lvl, n);
            p32(&mut blk, i * 4, v);
            base += span;
        }
        ino.block = blk;
    }

    fn map_level(&mut self, map: &std::collections::BTreeMap<u64, u32>, base: u64, lvl: u32, n: u64) -> u32 {
        if lvl == 0 {
            return *map.get(&base).unwrap_or(&0);
        }
        let span = n.pow(lvl);
        if map.range(base..base + span).next().is_none() {
            return 0;
        }
        let mut node = vec![0; self.bs];
        for i in 0..n {
            let v = self.map_level(map, base + i * n.pow(lvl - 1), lvl - 1, n);
            p32(&mut node, i as usize * 4, v);
        }
        let b = self.alloc(1, false);
        self.wblock(b, &node, K::Indirect);
        b as u32
    }

    pub fn put_inode(&mut self, n: u32, ino: &Ino) {
        self.inodes.insert(n, ino.clone());
        let sz = usize::from(self.p.isize);
        let mut d = self.r.bytes(sz);
        if sz > 128 {
            // The extra size; the upper half of the checksum needs 4 bytes of it.
            let x = *self.r.pick(&[32u16, 32, 32, 28, 4, 5, 3, 2, 0, sz as u16 - 128]);
            p16(&mut d, 0x80, x);
        }
        p16(&mut d, 0, ino.mode);
        p16(&mut d, 2, ino.uid as u16);
        p32(&mut d, 4, ino.size as u32);
        p16(&mut d, 0x18, ino.gid as u16);
        p32(&mut d, 0x20, ino.flags);
        d[0x28..0x64].copy_from_slice(&ino.block);
        p32(&mut d, 0x64, ino.gen);
        p32(&mut d, 0x6c, (ino.size >> 32) as u32);
        p16(&mut d, 0x78, (ino.uid >> 16) as u16);
        p16(&mut d, 0x7a, (ino.gid >> 16) as u16);
        let g = ((n - 1) / self.p.ipg) as usize;
        let off = self.itable[g] * self.bs as u64 + u64::from((n - 1) % self.p.ipg) * sz as u64;
        self.img.write(off, &d);
        let rg = Region { off, len: sz, kind: K::Inode(n) };
        self.fix(&rg);
        self.regions.push(rg);
    }

    /// Create the journal inode (number 8) with `n` blocks.
    pub fn journal(&mut self, n: u64) {
        let mut ino = self.attrs(0x8000);
        let ext = self.p.huge || self.r.chance(1, 2);
        let mut pieces = vec![];
        let mut l = 0;
        while l < n {
            let c = self.r.range(1, 40).min(n - l);
            let b = self.alloc(c, ext);
            for i in 0..c {
                self.jphys.push(b + i);
            }
            pieces.push((l as u32, b, c, false));
            l += c;
        }
        ino.size = n * self.bs as u64;
        if ext {
            self.extents(8, &mut ino, &pieces, 0);
        } else {
            self.blockmap(&mut ino, &pieces);
        }
        self.put_inode(8, &ino);
        self.journal_ino = 8;
        self.recover = true;
    }

    /// Write superblock and group descriptors.
    pub fn finish(&mut self) {
        let p = self.p.clone();
        let bs = self.bs as u64;
        let mut sb = self.r.bytes(1024);
        let first = if bs == 1024 { 1u32 } else { 0 };
        let bpg = (self.blocks_count - u64::from(first)).div_ceil(u64::from(p.ngroups));
        // Not always an exact multiple.
        let bpg = if p.ngroups == 1 && self.r.chance(1, 2) { bpg + self.r.below(5000) } else { bpg };
        p32(&mut sb, 4, self.blocks_count as u32);
        p32(&mut sb, 0x150, (self.blocks_count >> 32) as u32);
        p32(&mut sb, 0x14, first);
        p32(&mut sb, 0x18, p.log_bs);
        p32(&mut sb, 0x20, bpg as u32);
        p32(&mut sb, 0x28, p.ipg);
        p16(&mut sb, 0x38, 0xef53);
        p16(&mut sb, 0x58, p.isize);
        p32(&mut sb, 0x5c, 0x38 | if self.journal_ino != 0 { 4 } else { 0 });
        let mut inc = 2 | 0x40 | p.extra_incompat;
        if p.is64 {
            inc |= 0x80;
        }
        if p.csum_seed.is_some() {
            inc |= 0x2000;
        }
        if self.recover {
            inc |= 4;
        }
        p32(&mut sb, 0x60, inc);
        p32(&mut sb, 0x64, p.extra_ro | if p.csum { 0x400 } else { 0 });
        sb[0x68..0x78].copy_from_slice(&p.uuid);
        sb[0x78..0x88].copy_from_slice(&p.label);
        p32(&mut sb, 0xe0, self.journal_ino);
        for i in 0..4 {
            p32(&mut sb, 0xec + i * 4, p.hash_seed[i]);
        }
        p16(&mut sb, 0xfe, p.desc_size);
        p32(&mut sb, 0x270, p.csum_seed.unwrap_or(0x1234_5678));
        self.img.write(1024, &sb);
        if bs > 1024 && self.r.chance(1, 2) {
            // A boot area that looks like a directory block.
            let mut d = vec![0u8; 16];
            p32(&mut d, 0, 2);
            p16(&mut d, 4, bs as u16);
            d[6] = 4;
            d[7] = 2;
            d[8..12].copy_from_slice(b"boot");
            self.img.write(0, &d);
        }
        let rg = Region { off: 1024, len: 1024, kind: K::Super };
        self.fix(&rg);
        self.regions.push(rg);
        let dsz = if p.is64 { u64::from(p.desc_size) } else { 32 };
        let per = bs / dsz;
        for g in 0..u64::from(p.ngroups) {
            let mut d = self.r.bytes(dsz as usize);
            p32(&mut d, 8, self.itable[g as usize] as u32);
            if p.is64 {
                p32(&mut d, 0x28, (self.itable[g as usize] >> 32) as u32);
            }
            let off = (u64::from(first) + 1 + g / per) * bs + (g % per) * dsz;
            self.img.write(off, &d);
            let rg = Region { off, len: dsz as usize, kind: K::Bgd(g as u32) };
            self.fix(&rg);
            self.regions.push(rg);
        }
        if self.p.huge {
            self.img.len = self.blocks_count * bs;
        } else {
            self.img.len = self.img.len.max(self.blocks_count * bs);
            self.img.len = self.blocks_count * bs;
        }
    }

    /// Recompute the checksum of a region from its current contents.
    pub fn fix(&mut self, rg: &Region) {
        let csum = self.p.csum;
        let seed = self.seed;
        let juuid = JUUID;
        let mut d = self.img.get(rg.off, rg.len);
        let n = d.len();
        let base = |m: &Mk, i: u32| {
            let g = m.inodes.get(&i).map_or(0, |x| x.gen);
            m.inode_base(i, g)
        };
        match rg.kind {
            K::Super if csum => {
                let c = crc(!0, &d[..0x3fc]);
                p32(&mut d, 0x3fc, c);
            }
            K::Bgd(g) if csum => {
                p16(&mut d, 0x1e, 0);
                let c = crc(crc(seed, &g.to_le_bytes()), &d);
                p16(&mut d, 0x1e, c as u16);
            }
            K::Inode(i) if csum => {
                let hi = n > 128 && le16(&d, 0x80) >= 4;
                p16(&mut d, 0x7c, 0);
                if hi {
                    p16(&mut d, 0x82, 0);
                }
                let b = crc(crc(seed, &i.to_le_bytes()), &d[0x64..0x68]);
                let c = crc(b, &d);
                p16(&mut d, 0x7c, c as u16);
                if hi {
                    p16(&mut d, 0x82, (c >> 16) as u16);
                }
            }
            K::Ext(i) if csum => {
                let o = 12 + usize::from(le16(&d, 4)) * 12;
                if o + 4 <= n {
                    let c = crc(base(self, i), &d[..o]);
                    p32(&mut d, o, c);
                }
            }
            K::DirLeaf(i) if csum => {
                let c = crc(base(self, i), &d[..n - 12]);
                p32(&mut d, n - 4, c);
            }
            K::DirRoot(i) | K::DirInner(i) if csum => {
                let lo = if matches!(rg.kind, K::DirRoot(_)) { 0x20 } else { 8 };
                let cov = lo + usize::from(le16(&d, lo + 2)) * 8;
                if cov <= n {
                    let c = crc(base(self, i), &d[..cov]);
                    let c = crc(crc(c, &d[n - 8..n - 4]), &[0; 4]);
                    p32(&mut d, n - 4, c);
                }
            }
            K::JSuper => {
                d[0xfc..0x100].fill(0);
                let c = crc(!0, &d[..1024]);
                pb32(&mut d, 0xfc, c);
            }
            K::JDesc | K::JRevoke => {
                pb32(&mut d, n - 4, 0);
                let c = crc(crc(!0, &juuid), &d);
                pb32(&mut d, n - 4, c);
            }
            K::JCommit => {
                pb32(&mut d, 16, 0);
                let c = crc(crc(!0, &juuid), &d);
                pb32(&mut d, 16, c);
            }
            _ => return,
        }
        self.img.write(rg.off, &d);
    }
}

pub const JUUID: [u8; 16] = [7, 1, 2, 3, 4, 250, 6, 7, 8, 9, 10, 211, 12, 13, 14, 15];

#[derive(Clone, Debug)]
pub struct Ent {
    pub ino: u32,
    pub name: Vec<u8>,
    pub ftype: u8,
}

pub fn put_ent(b: &mut [u8], o: usize, e: &Ent, rl: usize) {
    p32(b, o, e.ino);
    p16(b, o + 4, if rl == 65536 { 0xffff } else { rl as u16 });
    b[o + 6] = e.name.len() as u8;
    b[o + 7] = e.ftype;
    b[o + 8..o + 8 + e.name.len()].copy_from_slice(&e.name);
}
fn need(e: &Ent) -> usize {
    8 + e.name.len().div_ceil(4) * 4
}

impl Mk {
    /// Fill one leaf block with as many of `ents` as fit; returns how many.
    pub fn leaf(&mut self, ents: &[Ent], sparse: bool) -> (Vec<u8>, usize) {
        let mut b = self.r.bytes(self.bs);
        let end = self.bs - if self.p.csum { 12 } else { 0 };
        let mut o = 0;
        let mut k = 0;
        let mut last: Option<usize> = None;
        while k < ents.len() {
            let nd = need(&ents[k]);
            if o + nd > end {
                break;
            }
            // Sometimes an unused record comes first.
            if sparse && self.r.chance(1, 6) && o + nd + 12 <= end {
                let un = Ent { ino: 0, name: vec![], ftype: self.r.below(9) as u8 };
                let len = 12;
                put_ent(&mut b, o, &un, len);
                b[o + 6] = self.r.next() as u8;
                last = Some(o);
                o += len;
                if o + nd > end {
                    break;
                }
            }
            let mut rl = nd;
            if sparse && self.r.chance(1, 4) {
                rl += self.r.below(6) as usize * 4;
            }
            if o + rl > end {
                rl = nd;
            }
            put_ent(&mut b, o, &ents[k], rl);
            last = Some(o);
            o += rl;
            k += 1;
            if sparse && self.r.chance(1, 12) {
                break;
            }
        }
        match last {
            Some(l) => {
                let rl = end - l;
                p16(&mut b, l + 4, if rl == 65536 { 0xffff } else { rl as u16 });
            }
            None => put_ent(&mut b, 0, &Ent { ino: 0, name: vec![], ftype: 0 }, end),
        }
        if self.p.csum {
            b[end..].fill(0);
            p16(&mut b, end + 4, 12);
            b[end + 7] = 0xde;
        }
        (b, k)
    }

    /// Write the blocks of a directory and its inode. `ents` starts with the
    /// dot entries. `ht`: None for linear, or (hash version, levels).
    pub fn dir(&mut self, n: u32, mut ino: Ino, ents: &[Ent], ht: Option<(u8, u8)>, extents: bool, sparse: bool) {
        let mut blocks: Vec<(Vec<u8>, K)> = vec![];
        self.inodes.insert(n, ino.clone());
        match ht {
            None => {
                let mut i = 0;
                while i < ents.len() || blocks.is_empty() {
                    let (b, k) = self.leaf(&ents[i..], sparse);
                    i += k;
                    blocks.push((b, K::DirLeaf(n)));
                    if sparse && self.r.chance(1, 8) && blocks.len() < 20 {
                        let (b, _) = self.leaf(&[], sparse);
                        blocks.push((b, K::DirLeaf(n)));
                    }
                }
            }
            Some((alg, levels)) => {
                ino.flags |= 0x1000;
                let seed = self.p.hash_seed;
                let mut v: Vec<(u32, Ent)> =
                    ents[2..].iter().map(|e| (dirhash(alg, &e.name, &seed), e.clone())).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                // Leaves, never splitting names with the same hash.
                let mut leaves: Vec<(u32, Vec<u8>)> = vec![];
                let mut i = 0;
                while i < v.len() || leaves.is_empty() {
                    let mut take = self.r.range(1, 14) as usize;
                    loop {
                        take = take.min(v.len() - i);
                        while take > 0 && i + take < v.len() && v[i + take - 1].0 == v[i + take].0 {
                            take -= 1;
                        }
                        if take == 0 && i < v.len() {
                            // A run of equal hashes must stay together.
                            take = 1;
                            while i + take < v.len() && v[i].0 == v[i + take].0 {
                                take += 1;
                            }
                        }
                        let mut es: Vec<Ent> = v[i..i + take].iter().map(|x| x.1.clone()).collect();
                        self.r.shuffle(&mut es);
                        let (b, k) = self.leaf(&es, false);
                        if k == es.len() {
                            let h = if leaves.is_empty() {
                                0
                            } else if self.r.chance(1, 2) {
                                v[i].0
                            } else {
                                // Any value in the gap is a legal boundary.
                                let lo = v[i - 1].0 + 1;
                                lo + self.r.below(u64::from(v[i].0 - lo) + 1) as u32
                            };
                            leaves.push((h, b));
                            i += take;
                            break;
                        }
                        take = k.max(1);
                    }
                }
                // Placement of the tree blocks inside the directory file.
                let bsz = self.bs;
                let mut slots: Vec<(u32, usize)> = vec![];
                let mut out: Vec<(Vec<u8>, K)> = vec![(vec![], K::DirRoot(n))];
                let mut idx: Vec<usize> = (0..leaves.len()).collect();
                self.r.shuffle(&mut idx);
                let mut pos = vec![0; leaves.len()];
                for l in idx {
                    pos[l] = out.len();
                    out.push((leaves[l].1.clone(), K::DirLeaf(n)));
                }
                for (l, (h, _)) in leaves.iter().enumerate() {
                    slots.push((*h, pos[l]));
                }
                let tail = if self.p.csum { 8 } else { 0 };
                for _ in 0..levels {
                    let mut up = vec![];
                    let mut i = 0;
                    while i < slots.len() {
                        let per = self.r.range(1, 5) as usize;
                        let g = &slots[i..(i + per).min(slots.len())];
                        let mut b = self.r.bytes(bsz);
                        p32(&mut b, 0, 0);
                        p16(&mut b, 4, if bsz == 65536 { 0xffff } else { bsz as u16 });
                        b[6] = 0;
                        b[7] = 0;
                        let lim = (bsz - 8 - tail) / 8;
                        for (j, (h, p)) in g.iter().enumerate() {
                            p32(&mut b, 8 + j * 8, *h);
                            p32(&mut b, 8 + j * 8 + 4, *p as u32);
                        }
                        p16(&mut b, 8, lim as u16);
                        p16(&mut b, 10, g.len() as u16);
                        up.push((g[0].0, out.len()));
                        out.push((b, K::DirInner(n)));
                        i += per;
                    }
                    slots = up;
                }
                let mut b = self.r.bytes(bsz);
                put_ent(&mut b, 0, &ents[0], 12);
                let rl = bsz - 12;
                put_ent(&mut b, 12, &ents[1], rl);
                p32(&mut b, 0x18, 0);
                b[0x1c] = alg;
                b[0x1d] = 8;
                b[0x1e] = levels;
                b[0x1f] = 0;
                let lim = (bsz - 0x20 - tail) / 8;
                assert!(slots.len() <= lim);
                for (j, (h, p)) in slots.iter().enumerate() {
                    p32(&mut b, 0x20 + j * 8, *h);
                    p32(&mut b, 0x20 + j * 8 + 4, *p as u32);
                }
                p16(&mut b, 0x20, lim as u16);
                p16(&mut b, 0x22, slots.len() as u16);
                out[0].0 = b;
                blocks = out;
            }
        }
        // Place the blocks.
        let mut pieces: Vec<(u32, u64, u64, bool)> = vec![];
        let mut i = 0;
        while i < blocks.len() {
            let c = if extents { self.r.range(1, 6) as usize } else { 1 }.min(blocks.len() - i);
            let phys = self.alloc(c as u64, extents);
            for j in 0..c {
                let (d, k) = blocks[i + j].clone();
                self.wblock(phys + j as u64, &d, k);
                let rg = self.regions.last().unwrap().clone();
                self.fix(&rg);
            }
            pieces.push((i as u32, phys, c as u64, false));
            i += c;
        }
        ino.size = (blocks.len() * self.bs) as u64;
        if extents {
            let dp = if self.r.chance(1, 4) { self.r.below(3) as u16 } else { 0 };
            self.extents(n, &mut ino, &pieces, dp);
        } else {
            self.blockmap(&mut ino, &pieces);
        }
        self.put_inode(n, &ino);
    }

    pub fn symlink(&mut self, n: u32, target: &[u8]) {
        let mut ino = self.attrs(0xa000);
        if target.len() <= 59 {
            ino.size = target.len() as u64;
            ino.block = self.r.bytes(60);
            ino.block[..target.len()].copy_from_slice(target);
            ino.block[target.len()..].fill(0);
        } else {
            let ext = self.p.huge || self.r.chance(1, 2);
            let l = Layout { size: target.len() as u64, runs: vec![(0, Run::Data(target.to_vec()))] };
            self.layout(n, &mut ino, &l, ext, 0);
        }
        self.put_inode(n, &ino);
    }
}
