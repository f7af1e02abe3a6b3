//! Reference reader: an independent, direct transcription of the ext4 format
//! rules the properties name. It shares no code with the library.
use crate::base::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum E {
    Io,
    Corrupt,
    Incompat,
    NotFound,
    NotDir,
    IsDir,
    Special,
    NotSymlink,
    Malformed,
    NotAbs,
    TooManySym,
    TooLong,
    NotUtf8,
    Encrypted,
    TooLarge,
}
pub type R<T> = Result<T, E>;

pub struct RFs<'a> {
    pub img: &'a Img,
    pub bs: u64,
    pub blocks: u64,
    pub isize: u64,
    pub ipg: u32,
    pub csum: bool,
    pub seed: u32,
    pub hash_seed: [u32; 4],
    pub label: [u8; 16],
    pub uuid: [u8; 16],
    pub itable: Vec<u64>,
    pub jmap: BTreeMap<u64, u64>,
    /// Set when an answer would need a very large file to be read.
    pub big: std::cell::Cell<bool>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RIno {
    pub ino: u32,
    pub mode: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub flags: u32,
    pub block: Vec<u8>,
    pub base: u32,
    pub nblocks: u32,
}
impl RIno {
    pub fn kind(&self) -> u16 {
        self.mode & 0xf000
    }
    pub fn is_dir(&self) -> bool {
        self.kind() == 0x4000
    }
    pub fn is_link(&self) -> bool {
        self.kind() == 0xa000
    }
    pub fn is_reg(&self) -> bool {
        self.kind() == 0x8000
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct REnt {
    pub ino: u32,
    pub name: Vec<u8>,
    pub ftype: u8,
}

pub fn path_ok(p: &[u8]) -> bool {
    !p.contains(&0) && p.split(|b| *b == b'/').all(|c| c.len() <= 255)
}
pub fn name_ok(n: &[u8]) -> bool {
    !n.is_empty() && n.len() <= 255 && !n.contains(&0) && !n.contains(&b'/')
}
pub fn dedup(p: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::new();
    for b in p {
        if *b == b'/' && o.last() == Some(&b'/') {
            continue;
        }
        o.push(*b);
    }
    o
}

pub const INCOMPAT_KNOWN: u32 = 0x2 | 0x4 | 0x40 | 0x80 | 0x200 | 0x2000 | 0x1_0000;

impl<'a> RFs<'a> {
    pub fn load(img: &'a Img) -> R<RFs<'a>> {
        let mut sb = vec![0; 1024];
        if !img.read(1024, &mut sb) {
            return Err(E::Io);
        }
        let log = le32(&sb, 0x18);
        if log > 6 {
            return Err(E::Corrupt);
        }
        let bs = 1024u64 << log;
        if le16(&sb, 0x38) != 0xef53 {
            return Err(E::Corrupt);
        }
        let incompat = le32(&sb, 0x60);
        let ro = le32(&sb, 0x64);
        let compat = le32(&sb, 0x5c);
        if incompat & !INCOMPAT_KNOWN != 0 || incompat & 2 == 0 {
            return Err(E::Incompat);
        }
        let is64 = incompat & 0x80 != 0;
        let csum = ro & 0x400 != 0;
        let blocks = u64::from(le32(&sb, 4)) | (u64::from(le32(&sb, 0x150)) << 32);
        let first = u64::from(le32(&sb, 0x14));
        let bpg = u64::from(le32(&sb, 0x20));
        let ipg = le32(&sb, 0x28);
        let isize = u64::from(le16(&sb, 0x58));
        if first > blocks || bpg == 0 || ipg == 0 || isize > bs {
            return Err(E::Corrupt);
        }
        let groups = u128::from(blocks - first).div_ceil(u128::from(bpg));
        if groups > u128::from(u32::MAX) {
            return Err(E::Corrupt);
        }
        if groups > 1 << 20 && img.len > 1 << 36 {
            // Too slow to be useful here.
            return Err(E::TooLarge);
        }
        let jino = le32(&sb, 0xe0);
        let has_j = compat & 4 != 0 && incompat & 4 != 0;
        if has_j && jino == 0 {
            return Err(E::Corrupt);
        }
        if csum && crc(!0, &sb[..0x3fc]) != le32(&sb, 0x3fc) {
            return Err(E::Corrupt);
        }
        let seed = if incompat & 0x2000 != 0 { le32(&sb, 0x270) } else { crc(!0, &sb[0x68..0x78]) };
        let dsz = if is64 { u64::from(le16(&sb, 0xfe)) } else { 32 };
        let mut itable = Vec::new();
        for g in 0..groups as u64 {
            if dsz < if is64 { 64 } else { 32 } {
                return Err(E::Corrupt);
            }
            let per = bs / dsz;
            if per == 0 {
                return Err(E::Corrupt);
            }
            let blk = if bs == 1024 { 2 } else { 1 } + g / per;
            if blk > u64::from(u32::MAX) {
                return Err(E::Corrupt);
            }
            let mut d = vec![0; dsz as usize];
            if !img.read(blk * bs + (g % per) * dsz, &mut d) {
                return Err(E::Io);
            }
            if csum {
                let want = le16(&d, 0x1e);
                let mut z = d.clone();
                p16(&mut z, 0x1e, 0);
                let c = crc(crc(seed, &(g as u32).to_le_bytes()), &z);
                if (c & 0xffff) as u16 != want {
                    return Err(E::Corrupt);
                }
            }
            let hi = if is64 { u64::from(le32(&d, 0x28)) } else { 0 };
            itable.push(u64::from(le32(&d, 8)) | (hi << 32));
        }
        let mut fs = RFs {
            img,
            bs,
            blocks,
            isize,
            ipg,
            csum,
            seed,
            hash_seed: [le32(&sb, 0xec), le32(&sb, 0xf0), le32(&sb, 0xf4), le32(&sb, 0xf8)],
            label: sb[0x78..0x88].try_into().unwrap(),
            uuid: sb[0x68..0x78].try_into().unwrap(),
            itable,
            jmap: BTreeMap::new(),
            big: std::cell::Cell::new(false),
        };
        if has_j {
            fs.jmap = fs.journal(jino)?;
        }
        Ok(fs)
    }

    pub fn rd(&self, b: u64, off: u64, len: usize) -> R<Vec<u8>> {
        let b = *self.jmap.get(&b).unwrap_or(&b);
        if (b == 0 && off < 1024) || b >= self.blocks || off >= self.bs || off + len as u64 > self.bs {
            return Err(E::Corrupt);
        }
        let mut v = vec![0; len];
        let pos = u128::from(b) * u128::from(self.bs) + u128::from(off);
        if pos > u128::from(u64::MAX) {
            return Err(E::Corrupt);
        }
        if !self.img.read(pos as u64, &mut v) {
            return Err(E::Io);
        }
        Ok(v)
    }

    pub fn inode(&self, n: u32) -> R<RIno> {
        assert!(n != 0);
        let g = (n - 1) / self.ipg;
        let i = (n - 1) % self.ipg;
        let t = *self.itable.get(g as usize).ok_or(E::Corrupt)?;
        let pos = u128::from(t) * u128::from(self.bs) + u128::from(i) * u128::from(self.isize);
        if u128::from(t) * u128::from(self.bs) > u128::from(u64::MAX) || pos > u128::from(u64::MAX) {
            return Err(E::Corrupt);
        }
        let pos = pos as u64;
        let d = self.rd(pos / self.bs, pos % self.bs, self.isize as usize)?;
        if d.len() < 128 {
            return Err(E::Corrupt);
        }
        let size = u64::from(le32(&d, 4)) | (u64::from(le32(&d, 0x6c)) << 32);
        let nb = size.div_ceil(self.bs);
        if nb > u64::from(u32::MAX) {
            return Err(E::Corrupt);
        }
        let mode = le16(&d, 0);
        if ![0x1000, 0x2000, 0x4000, 0x6000, 0x8000, 0xa000, 0xc000].contains(&(mode & 0xf000)) {
            return Err(E::Corrupt);
        }
        let base = crc(crc(self.seed, &n.to_le_bytes()), &d[0x64..0x68]);
        if self.csum {
            // The upper half is stored where the inode has room for it.
            let hi = d.len() >= 0x84 && le16(&d, 0x80) >= 4;
            let mut want = u32::from(le16(&d, 0x7c));
            let mut z = d.clone();
            p16(&mut z, 0x7c, 0);
            if hi {
                want |= u32::from(le16(&d, 0x82)) << 16;
                p16(&mut z, 0x82, 0);
            }
            let mut have = crc(base, &z);
            if !hi {
                have &= 0xffff;
            }
            if have != want {
                return Err(E::Corrupt);
            }
        }
        Ok(RIno {
            ino: n,
            mode,
            uid: u32::from(le16(&d, 2)) | (u32::from(le16(&d, 0x78)) << 16),
            gid: u32::from(le16(&d, 0x18)) | (u32::from(le16(&d, 0x7a)) << 16),
            size,
            flags: le32(&d, 0x20),
            block: d[0x28..0x64].to_vec(),
            base,
            nblocks: nb as u32,
        })
    }

    /// Blocks of a file in order (0 is a hole), up to `cap`, and the error
    /// that follows them, if any. The outer error is one found on opening.
    pub fn blocks(&self, ino: &RIno, cap: u64) -> R<(Vec<u64>, Option<E>)> {
        let total = u64::from(ino.nblocks).min(cap);
        let mut out = Vec::new();
        if ino.flags & 0x8_0000 != 0 {
            let root = self.ext_node(&ino.block, ino)?;
            let e = self.ext_walk(ino, &root.1, root.0, total, &mut out).err();
            if e.is_none() {
                while (out.len() as u64) < total {
                    out.push(0);
                }
            }
            Ok((out, e))
        } else {
            let mut e = None;
            for i in 0..15usize {
                if out.len() as u64 >= total {
                    break;
                }
                let p = le32(&ino.block, i * 4);
                let lvl = if i < 12 { 0 } else { i - 11 };
                if let Err(x) = self.map_walk(p, lvl, total, &mut out) {
                    e = Some(x);
                    break;
                }
            }
            Ok((out, e))
        }
    }

    fn map_walk(&self, p: u32, lvl: usize, total: u64, out: &mut Vec<u64>) -> R<()> {
        if out.len() as u64 >= total {
            return Ok(());
        }
        if lvl == 0 {
            out.push(u64::from(p));
            return Ok(());
        }
        if p == 0 {
            let n = (self.bs / 4).pow(lvl as u32);
            for _ in 0..n {
                if out.len() as u64 >= total {
                    break;
                }
                out.push(0);
            }
            return Ok(());
        }
        let d = self.rd(u64::from(p), 0, self.bs as usize)?;
        for i in 0..(self.bs / 4) as usize {
            self.map_walk(le32(&d, i * 4), lvl - 1, total, out)?;
        }
        Ok(())
    }

    fn ext_node(&self, d: &[u8], _ino: &RIno) -> R<(u16, Vec<u8>)> {
        if le16(d, 0) != 0xf30a || le16(d, 6) > 5 {
            return Err(E::Corrupt);
        }
        let n = usize::from(le16(d, 2));
        if d.len() < 12 + n * 12 {
            return Err(E::Corrupt);
        }
        Ok((le16(d, 6), d[12..12 + n * 12].to_vec()))
    }

    /// Child node: its bytes and its number of entries.
    fn ext_child(&self, ino: &RIno, c: u64, depth: u16) -> R<(Vec<u8>, usize)> {
        let h = self.rd(c, 0, 12)?;
        if le16(&h, 0) != 0xf30a || le16(&h, 6) > 5 || le16(&h, 6) + 1 != depth {
            return Err(E::Corrupt);
        }
        let body = 12 + usize::from(le16(&h, 4)) * 12;
        let size = body + if self.csum { 4 } else { 0 };
        let d = self.rd(c, 0, size)?;
        if self.csum && crc(ino.base, &d[..body]) != le32(&d, body) {
            return Err(E::Corrupt);
        }
        let n = usize::from(le16(&d, 2));
        if size < 12 + n * 12 {
            return Err(E::Corrupt);
        }
        Ok((d, n))
    }

    fn ext_walk(&self, ino: &RIno, ents: &[u8], depth: u16, total: u64, out: &mut Vec<u64>) -> R<()> {
        for e in ents.chunks(12) {
            if out.len() as u64 >= total {
                return Ok(());
            }
            if depth == 0 {
                let l = u64::from(le32(e, 0));
                let n = le16(e, 4);
                if n > 32768 {
                    continue;
                }
                let s = u64::from(le32(e, 8)) | (u64::from(le16(e, 6)) << 32);
                if l < out.len() as u64 {
                    return Err(E::Corrupt);
                }
                while (out.len() as u64) < l.min(total) {
                    out.push(0);
                }
                for i in 0..u64::from(n) {
                    if out.len() as u64 >= total {
                        return Ok(());
                    }
                    out.push(s + i);
                }
            } else {
                let c = u64::from(le32(e, 4)) | (u64::from(le16(e, 8)) << 32);
                let (d, n) = self.ext_child(ino, c, depth)?;
                self.ext_walk(ino, &d[12..12 + n * 12], depth - 1, total, out)?;
            }
        }
        Ok(())
    }

    pub fn read_file(&self, ino: &RIno) -> R<Vec<u8>> {
        if ino.size > 1 << 27 | 1 << 20 {
            self.big.set(true);
            return Err(E::TooLarge);
        }
        let (v, e) = self.blocks(ino, u64::MAX)?;
        let mut out = Vec::new();
        for i in 0..u64::from(ino.nblocks) as usize {
            let n = (ino.size - out.len() as u64).min(self.bs) as usize;
            match v.get(i) {
                Some(0) => out.resize(out.len() + n, 0),
                Some(b) => out.extend(self.rd(*b, 0, n)?),
                None => return Err(e.unwrap_or(E::Corrupt)),
            }
        }
        Ok(out)
    }

    fn dir_block(&self, ino: &RIno, b: u64, first: bool) -> R<Vec<u8>> {
        let d = self.rd(b, 0, self.bs as usize)?;
        if self.csum {
            let n = d.len();
            let ht = ino.flags & 0x1000 != 0;
            let ok = if ht && (first || self.rec_len(le16(&d, 4)) == n) {
                let lo = if first { 0x20 } else { 8 };
                let cov = lo + usize::from(le16(&d, lo + 2)) * 8;
                if cov > n {
                    return Err(E::Corrupt);
                }
                let c = crc(ino.base, &d[..cov]);
                let c = crc(crc(c, &d[n - 8..n - 4]), &[0; 4]);
                c == le32(&d, n - 4)
            } else {
                crc(ino.base, &d[..n - 12]) == le32(&d, n - 4)
            };
            if !ok {
                return Err(E::Corrupt);
            }
        }
        Ok(d)
    }

    fn rec_len(&self, r: u16) -> usize {
        if self.bs == 65536 {
            if r == 0xffff || r == 0 {
                return 65536;
            }
            return usize::from(r & !3) | (usize::from(r & 3) << 16);
        }
        usize::from(r)
    }

    /// Entry at the start of `d`: (live entry, record length).
    fn entry(&self, d: &[u8]) -> R<(Option<REnt>, usize)> {
        if d.len() < 8 {
            return Err(E::Corrupt);
        }
        let rl = self.rec_len(le16(d, 4));
        if rl < 8 {
            return Err(E::Corrupt);
        }
        let ino = le32(d, 0);
        if ino == 0 {
            return Ok((None, rl));
        }
        let nl = usize::from(d[6]);
        if 8 + nl > d.len() || d[7] == 0 || d[7] > 7 || !name_ok(&d[8..8 + nl]) {
            return Err(E::Corrupt);
        }
        Ok((Some(REnt { ino, name: d[8..8 + nl].to_vec(), ftype: d[7] }), rl))
    }

    fn entries(&self, d: &[u8], out: &mut Vec<REnt>) -> R<()> {
        let mut o = 0;
        while o < d.len() {
            let (e, n) = self.entry(&d[o..])?;
            out.extend(e);
            o += n;
        }
        Ok(())
    }

    /// All entries, and the error that ends the listing, if any.
    pub fn list(&self, ino: &RIno) -> R<(Vec<REnt>, Option<E>)> {
        if ino.flags & 0x800 != 0 {
            return Err(E::Encrypted);
        }
        let (v, e) = self.blocks(ino, 1 << 17)?;
        let mut out = Vec::new();
        for (i, b) in v.iter().enumerate() {
            let d = match self.dir_block(ino, *b, i == 0) {
                Ok(d) => d,
                Err(e) => return Ok((out, Some(e))),
            };
            if let Err(e) = self.entries(&d, &mut out) {
                return Ok((out, Some(e)));
            }
        }
        Ok((out, e))
    }

    pub fn lookup(&self, ino: &RIno, name: &[u8]) -> R<RIno> {
        if ino.flags & 0x800 != 0 {
            return Err(E::Encrypted);
        }
        if ino.flags & 0x1000 != 0 {
            return self.htree(ino, name);
        }
        let (v, e) = self.blocks(ino, 1 << 17)?;
        for (i, b) in v.iter().enumerate() {
            let d = self.dir_block(ino, *b, i == 0)?;
            let mut o = 0;
            while o < d.len() {
                let (e, n) = self.entry(&d[o..])?;
                if let Some(e) = e {
                    if e.name == name {
                        return self.inode(e.ino);
                    }
                }
                o += n;
            }
        }
        Err(e.unwrap_or(E::NotFound))
    }

    fn htree(&self, ino: &RIno, name: &[u8]) -> R<RIno> {
        // Only the blocks that are needed may produce an error.
        let (v0, e0) = self.blocks(ino, 1)?;
        let root = match v0.first() {
            Some(b) => self.dir_block(ino, *b, true)?,
            None => return Err(e0.unwrap_or(E::Corrupt)),
        };
        if name == b"." || name == b".." {
            let (e, _) = self.entry(&root[if name == b"." { 0 } else { 12 }..])?;
            return match e {
                Some(e) if e.name == name => self.inode(e.ino),
                _ => Err(E::Corrupt),
            };
        }
        let alg = root[0x1c];
        if alg != 1 && alg != 2 {
            return Err(E::Incompat);
        }
        let h = dirhash(alg, name, &self.hash_seed);
        let depth = usize::from(root[0x1e]);
        let pick = |n: &[u8]| -> R<u32> {
            let cnt = usize::from(le16(n, 2));
            if cnt * 8 > n.len() || cnt == 0 {
                return Err(E::Corrupt);
            }
            let mut best = le32(n, 4);
            if (2..cnt).any(|i| le32(n, i * 8) < le32(n, (i - 1) * 8)) {
                // Nothing is promised for an unsorted index.
                self.big.set(true);
                return Err(E::Corrupt);
            }
            for i in 1..cnt {
                if le32(n, i * 8) <= h {
                    best = le32(n, i * 8 + 4);
                } else {
                    break;
                }
            }
            Ok(best)
        };
        let mut child = pick(&root[0x20..])?;
        let mut d = root;
        for l in 0..=depth {
            let b = self.dir_file_block(ino, child)?;
            d = self.dir_block(ino, b, false)?;
            if l != depth {
                child = pick(&d[8..])?;
            }
        }
        let mut o = 0;
        while o < d.len() {
            let (e, n) = self.entry(&d[o..])?;
            if let Some(e) = e {
                if e.name == name {
                    return self.inode(e.ino);
                }
            }
            o += n;
        }
        Err(E::NotFound)
    }

    /// Extents in tree order until `f` returns true.
    fn ext_each(&self, ino: &RIno, ents: &[u8], depth: u16, f: &mut dyn FnMut(u64, u64, u64) -> bool) -> R<bool> {
        for e in ents.chunks(12) {
            if depth == 0 {
                let n = le16(e, 4);
                if n <= 32768 {
                    let s = u64::from(le32(e, 8)) | (u64::from(le16(e, 6)) << 32);
                    if u64::from(le32(e, 0)) + u64::from(n) > u64::from(u32::MAX) {
                        return Err(E::Corrupt);
                    }
                    if f(u64::from(le32(e, 0)), u64::from(n), s) {
                        return Ok(true);
                    }
                }
            } else {
                let c = u64::from(le32(e, 4)) | (u64::from(le16(e, 8)) << 32);
                let (d, n) = self.ext_child(ino, c, depth)?;
                if self.ext_each(ino, &d[12..12 + n * 12], depth - 1, f)? {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }

    fn dir_file_block(&self, ino: &RIno, rel: u32) -> R<u64> {
        if ino.flags & 0x8_0000 != 0 {
            let root = self.ext_node(&ino.block, ino)?;
            let rel = u64::from(rel);
            let mut found = None;
            self.ext_each(ino, &root.1, root.0, &mut |l, n, s| {
                if l <= rel && rel < l + n {
                    found = Some(s + rel - l);
                }
                found.is_some()
            })?;
            found.ok_or(E::Corrupt)
        } else {
            let (v, e) = self.blocks(ino, u64::from(rel) + 1)?;
            match v.get(rel as usize) {
                Some(b) => Ok(*b),
                None => Err(e.unwrap_or(E::Corrupt)),
            }
        }
    }

    pub fn link_target(&self, ino: &RIno) -> R<Vec<u8>> {
        if !ino.is_link() {
            return Err(E::NotSymlink);
        }
        if ino.size == 0 {
            return Err(E::Corrupt);
        }
        let t = if ino.size <= 59 { ino.block[..ino.size as usize].to_vec() } else { self.read_file(ino)? };
        if path_ok(&t) { Ok(t) } else { Err(E::Corrupt) }
    }

    pub fn resolve(&self, path: &[u8], follow: bool) -> R<(RIno, Vec<u8>)> {
        if !path_ok(path) {
            return Err(E::Malformed);
        }
        if path.first() != Some(&b'/') {
            return Err(E::NotAbs);
        }
        if path.len() > 4096 {
            return Err(E::TooLong);
        }
        let mut cur = self.inode(2)?;
        let mut stack: Vec<Vec<u8>> = Vec::new();
        let mut rest = dedup(path)[1..].to_vec();
        let mut nsym = 0;
        let mut ends_sep = true;
        while !rest.is_empty() {
            let sep = rest.iter().position(|b| *b == b'/');
            let comp = rest[..sep.unwrap_or(rest.len())].to_vec();
            let tail = rest[comp.len()..].to_vec();
            let after = if tail.is_empty() { vec![] } else { tail[1..].to_vec() };
            if !cur.is_dir() {
                return Err(E::NotDir);
            }
            let child = self.lookup(&cur, &comp)?;
            if comp == b"." {
                rest = after;
            } else if comp == b".." {
                stack.pop();
                cur = child;
                rest = after;
                ends_sep = true;
            } else if child.is_link() && (follow || !after.is_empty()) {
                nsym += 1;
                if nsym > 40 {
                    return Err(E::TooManySym);
                }
                let mut t = self.link_target(&child)?;
                let mut plen = 1 + stack.iter().map(|c| c.len() + 1).sum::<usize>();
                let abs = t[0] == b'/';
                if abs {
                    cur = self.inode(2)?;
                    stack.clear();
                    plen = 0;
                }
                t.extend_from_slice(&tail);
                if plen + t.len() > 4096 {
                    return Err(E::TooLong);
                }
                rest = dedup(&t);
                if abs {
                    rest.remove(0);
                }
                ends_sep = true;
            } else {
                stack.push(comp);
                ends_sep = sep.is_some();
                cur = child;
                rest = after;
            }
        }
        if !stack.is_empty() && ends_sep && !cur.is_dir() {
            return Err(E::NotDir);
        }
        let mut out = Vec::new();
        for c in &stack {
            out.push(b'/');
            out.extend_from_slice(c);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        Ok((cur, out))
    }

    fn journal(&self, jino: u32) -> R<BTreeMap<u64, u64>> {
        let ino = self.inode(jino)?;
        let (v, e) = self.blocks(&ino, 1 << 17)?;
        let first = match v.first() {
            Some(b) => *b,
            None => return Err(e.unwrap_or(E::Corrupt)),
        };
        let sb = self.rd(first, 0, 1024)?;
        if be32(&sb, 0) != 0xc03b_3998 {
            return Err(E::Corrupt);
        }
        if be32(&sb, 4) != 4 {
            return Err(E::Incompat);
        }
        let inc = be32(&sb, 0x28);
        if inc & 0x12 != 0x12 || inc & !0x13 != 0 || sb[0x50] != 4 {
            return Err(E::Incompat);
        }
        let mut z = sb.clone();
        z[0xfc..0x100].fill(0);
        if crc(!0, &z) != be32(&sb, 0xfc) || u64::from(be32(&sb, 0xc)) != self.bs {
            return Err(E::Corrupt);
        }
        let useed = crc(!0, &sb[0x30..0x40]);
        let mut seq = be32(&sb, 0x18);
        let start = be32(&sb, 0x1c) as usize;
        let mut map = BTreeMap::new();
        if start == 0 {
            return Ok(map);
        }
        let mut pend: BTreeMap<u64, u64> = BTreeMap::new();
        let mut revoked: Vec<u64> = Vec::new();
        let mut i = start;
        let bs = self.bs as usize;
        // A corrupt record ends the replay; other errors are reported.
        let r: R<()> = (|| {
            loop {
                let b = match v.get(i) {
                    Some(b) => *b,
                    None => match e {
                        // Errors of the journal's own block map are reported.
                        Some(_) => return Err(E::TooLarge),
                        None => return Ok(()),
                    },
                };
                i += 1;
                let d = self.rd(b, 0, bs)?;
                if be32(&d, 0) != 0xc03b_3998 || be32(&d, 8) != seq {
                    return Ok(());
                }
                let tail_ok = |d: &[u8]| crc(crc(useed, &d[..bs - 4]), &[0; 4]) == be32(d, bs - 4);
                match be32(&d, 4) {
                    1 => {
                        if !tail_ok(&d) {
                            return Ok(());
                        }
                        let mut o = 12;
                        loop {
                            if o + 16 > bs {
                                return Ok(());
                            }
                            let fl = be32(&d, o + 4);
                            let sz = if fl & 2 != 0 { 16 } else { 32 };
                            if o + sz > bs {
                                return Ok(());
                            }
                            if fl & 1 != 0 {
                                return Err(E::Incompat);
                            }
                            let blk = u64::from(be32(&d, o)) | (u64::from(be32(&d, o + 8)) << 32);
                            let jb = match v.get(i) {
                                Some(b) => *b,
                                None => return Ok(()),
                            };
                            i += 1;
                            let data = self.rd(jb, 0, bs)?;
                            if crc(crc(useed, &seq.to_be_bytes()), &data) != be32(&d, o + 12) {
                                return Ok(());
                            }
                            pend.insert(blk, jb);
                            if fl & 8 != 0 {
                                break;
                            }
                            o += sz;
                        }
                    }
                    2 => {
                        let mut z = d.clone();
                        z[16..20].fill(0);
                        if crc(useed, &z) != be32(&d, 16) {
                            return Ok(());
                        }
                        for r in revoked.drain(..) {
                            pend.remove(&r);
                            map.remove(&r);
                        }
                        map.append(&mut pend);
                        seq = seq.wrapping_add(1);
                    }
                    5 => {
                        if !tail_ok(&d) {
                            return Ok(());
                        }
                        let n = be32(&d, 12) as usize;
                        if n % 8 != 0 || 16 + n > bs - 4 {
                            return Ok(());
                        }
                        for c in d[16..16 + n].chunks(8) {
                            revoked.push(u64::from_be_bytes(c.try_into().unwrap()));
                        }
                    }
                    _ => return Err(E::Incompat),
                }
            }
        })();
        match r {
            Ok(()) | Err(E::Corrupt) => Ok(map),
            Err(E::TooLarge) => Err(e.unwrap()),
            Err(x) => Err(x),
        }
    }
}
