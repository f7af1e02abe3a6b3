//! Builds journals whose replay must give the finished image.
use crate::base::*;
use crate::gen::*;
use crate::mk::*;
use std::collections::{BTreeMap, BTreeSet};

const MAGIC: u32 = 0xc03b_3998;

pub struct W<'a> {
    pub c: &'a mut Case,
    pub pos: usize,
    pub seq: u32,
    pub first_tag: bool,
    /// Continue at the first log block after the last.
    pub wrap: bool,
}
impl W<'_> {
    fn room(&self, n: usize) -> bool {
        self.pos + n < self.c.mk.jphys.len()
    }
    fn put(&mut self, d: &[u8], k: K) -> Region {
        if self.wrap && self.pos >= self.c.mk.jphys.len() {
            self.pos = 1;
        }
        let b = self.c.mk.jphys[self.pos];
        self.pos += 1;
        self.c.mk.wblock(b, d, k);
        self.c.mk.regions.last().unwrap().clone()
    }
    fn head(&mut self, t: u32) -> Vec<u8> {
        let bs = self.c.mk.bs;
        let mut d = if self.c.mk.r.chance(1, 2) { vec![0; bs] } else { self.c.mk.r.bytes(bs) };
        pb32(&mut d, 0, MAGIC);
        pb32(&mut d, 4, t);
        pb32(&mut d, 8, self.seq);
        d
    }
    /// One descriptor block and its data blocks.
    pub fn desc(&mut self, ws: &[(u64, Vec<u8>)]) {
        let mut d = self.head(1);
        let mut o = 12;
        for (i, (b, data)) in ws.iter().enumerate() {
            let same = !self.first_tag;
            self.first_tag = false;
            let last = i + 1 == ws.len();
            let fl = if same { 2 } else { 0 } | if last { 8 } else { 0 };
            pb32(&mut d, o, *b as u32);
            pb32(&mut d, o + 4, fl);
            pb32(&mut d, o + 8, (*b >> 32) as u32);
            let c = crc(crc(crc(!0, &JUUID), &self.seq.to_be_bytes()), data);
            pb32(&mut d, o + 12, c);
            o += 16;
            if !same {
                d[o..o + 16].copy_from_slice(&JUUID);
                o += 16;
            }
        }
        let rg = self.put(&d, K::JDesc);
        self.c.mk.fix(&rg);
        for (_, data) in ws {
            self.put(data, K::JData);
        }
        self.first_tag = true;
    }
    pub fn revoke(&mut self, bs: &[u64]) {
        let mut d = self.head(5);
        // `r_count` includes the 16 byte header.
        pb32(&mut d, 12, 16 + 8 * bs.len() as u32);
        for (i, b) in bs.iter().enumerate() {
            d[16 + i * 8..24 + i * 8].copy_from_slice(&b.to_be_bytes());
        }
        let e = (32 + 8 * bs.len()).min(d.len());
        d[16 + 8 * bs.len()..e].fill(0);
        let rg = self.put(&d, K::JRevoke);
        self.c.mk.fix(&rg);
    }
    pub fn commit(&mut self) {
        let d = self.head(2);
        let rg = self.put(&d, K::JCommit);
        self.c.mk.fix(&rg);
    }
}

/// Rewrite a case made with `jblocks > 0` so that its journal holds part of
/// the final state. Returns a description.
pub fn build(c: &mut Case, r: &mut Rng) -> String {
    let bs = c.mk.bs;
    let bsz = bs as u64;
    // Blocks that are read without the journal.
    let mut avoid: BTreeSet<u64> = c.mk.jphys.iter().copied().collect();
    let mut all: BTreeSet<u64> = BTreeSet::new();
    for rg in &c.mk.regions {
        let b = rg.off / bsz;
        match rg.kind {
            K::Super | K::Bgd(_) | K::Inode(8) | K::Ext(8) => {
                avoid.insert(b);
            }
            _ => {
                all.insert(b);
            }
        }
    }
    // Indirect blocks of the journal: their regions carry no owner, so avoid
    // every indirect block that points into the journal.
    let j: BTreeSet<u64> = avoid.clone();
    for rg in c.mk.regions.clone() {
        if rg.kind == K::Indirect {
            let d = c.mk.img.get(rg.off, bs);
            if d.chunks(4).any(|x| j.contains(&u64::from(le32(x, 0)))) {
                avoid.insert(rg.off / bsz);
            }
        }
    }
    let j: BTreeSet<u64> = avoid.clone();
    for rg in c.mk.regions.clone() {
        if rg.kind == K::Indirect {
            let d = c.mk.img.get(rg.off, bs);
            if d.chunks(4).any(|x| j.contains(&u64::from(le32(x, 0)))) {
                avoid.insert(rg.off / bsz);
            }
        }
    }
    let fin: BTreeMap<u64, Vec<u8>> = all
        .difference(&avoid)
        .filter(|b| **b > 1)
        .map(|b| (*b, c.mk.img.get(b * bsz, bs)))
        .filter(|(_, d)| be32(d, 0) != MAGIC)
        .collect();
    let mut cand: Vec<u64> = fin.keys().copied().collect();
    r.shuffle(&mut cand);
    cand.truncate(r.range(1, 60) as usize);
    // Blocks outside the filesystem's use, to have something harmless.
    let ntrans = r.range(0, 7) as usize;
    let start = r.range(1, 5) as usize;
    let seq0 = match r.below(8) {
        0 => r.range(1, 0xffff_fff0) as u32,
        // Transaction numbers wrap around.
        1 => r.range(0xffff_fff9, 0xffff_ffff) as u32,
        _ => r.range(1, 1000) as u32,
    };
    // Plan: per transaction, the blocks written and the blocks revoked.
    let mut plan: Vec<(Vec<u64>, Vec<u64>)> = vec![];
    let mut budget = c.mk.jphys.len() as i64 - 40;
    let mut nt = 0;
    for _ in 0..ntrans {
        let mut w = vec![];
        let mut rv = vec![];
        for b in &cand {
            match r.below(8) {
                0..=2 => w.push(*b),
                3 => rv.push(*b),
                _ => {}
            }
        }
        rv.truncate(if bs >= 2048 { 100 } else { 60 });
        w.truncate(25);
        budget -= w.len() as i64 + 12;
        if budget < 0 {
            break;
        }
        plan.push((w, rv));
        nt += 1;
    }
    // What replay must keep: block -> transaction of its effective write.
    let mut eff: BTreeMap<u64, usize> = BTreeMap::new();
    for (t, (w, rv)) in plan.iter().enumerate() {
        for b in w {
            eff.insert(*b, t);
        }
        for b in rv {
            eff.remove(b);
        }
    }
    let tail = r.below(9);
    let mut w = W { pos: start, seq: seq0, first_tag: true, wrap: false, c };
    for (t, (ws, rv)) in plan.iter().enumerate() {
        let mut items: Vec<(u64, Vec<u8>)> = vec![];
        for b in ws {
            let d = if eff.get(b) == Some(&t) { fin[b].clone() } else { junk(r, bs) };
            // Earlier copies in the same transaction do not count.
            if r.chance(1, 10) {
                items.insert(0, (*b, junk(r, bs)));
            }
            items.push((*b, d));
        }
        // Revocations go before or after the writes.
        let before = r.chance(1, 2);
        if before && !rv.is_empty() {
            revokes(&mut w, r, rv);
        }
        let mut i = 0;
        while i < items.len() {
            let n = (r.range(1, 20) as usize).min(items.len() - i);
            w.desc(&items[i..i + n].to_vec());
            i += n;
        }
        if !before && !rv.is_empty() {
            revokes(&mut w, r, rv);
        }
        w.commit();
        w.seq = w.seq.wrapping_add(1);
    }
    // The tail: none of it may have an effect.
    let junked: Vec<(u64, Vec<u8>)> = cand.iter().take(8).map(|b| (*b, junk(r, bs))).collect();
    if w.room(30) {
        match tail {
            0 => {}
            1 => w.desc(&junked),
            2 => {
                w.desc(&junked);
                revokes(&mut w, r, &cand.iter().copied().take(20).collect::<Vec<_>>());
            }
            3 => {
                // Commit block with a wrong checksum.
                w.desc(&junked);
                w.commit();
                flip(&mut w, r);
            }
            4 => {
                // Old transactions left over from an earlier lap.
                w.seq = w.seq.wrapping_sub(r.range(1, 5) as u32);
                w.desc(&junked);
                w.commit();
            }
            5 => {
                // A data block that does not match its tag.
                w.desc(&junked);
                flip(&mut w, r);
                w.commit();
            }
            6 => {
                // A descriptor with a wrong checksum, then a good commit.
                let p = w.pos;
                w.desc(&junked);
                let q = w.pos;
                w.pos = p + 1;
                flip(&mut w, r);
                w.pos = q;
                w.commit();
            }
            7 => {
                // A revocation block with a wrong checksum.
                revokes(&mut w, r, &cand.iter().copied().take(20).collect::<Vec<_>>());
                flip(&mut w, r);
                w.commit();
            }
            _ => {
                // A skipped transaction number.
                w.seq = w.seq.wrapping_add(1);
                w.desc(&junked);
                w.commit();
            }
        }
    }
    // On-disk state.
    for b in &cand {
        if eff.contains_key(b) {
            let d = junk(r, bs);
            w.c.mk.img.write(b * bsz, &d);
        }
    }
    superblock(w.c, seq0, start as u32, r.chance(1, 2));
    format!("journal: {nt} transactions from block {start} sequence {seq0}, {} blocks, {} effective, tail {tail}", cand.len(), eff.len())
}

pub fn junk(r: &mut Rng, bs: usize) -> Vec<u8> {
    let mut d = r.bytes(bs);
    d[0] = 1;
    d
}
fn revokes(w: &mut W, r: &mut Rng, rv: &[u64]) {
    let mut i = 0;
    while i < rv.len() {
        let n = (r.range(1, 60) as usize).min(rv.len() - i);
        w.revoke(&rv[i..i + n]);
        i += n;
    }
}
/// Change one byte of the last written block.
fn flip(w: &mut W, r: &mut Rng) {
    let b = w.c.mk.jphys[w.pos - 1];
    let off = b * w.c.mk.bs as u64 + r.range(12, w.c.mk.bs as u64 - 1);
    let d = w.c.mk.img.get(off, 1);
    w.c.mk.img.write(off, &[d[0] ^ (1 << r.below(8))]);
}

pub fn superblock(c: &mut Case, seq0: u32, start: u32, revoke: bool) {
    let bs = c.mk.bs;
    let mk = &mut c.mk;
    let mut sb = mk.r.bytes(bs.max(1024));
    pb32(&mut sb, 0, MAGIC);
    pb32(&mut sb, 4, 4);
    pb32(&mut sb, 8, 0);
    pb32(&mut sb, 0xc, bs as u32);
    let n = mk.jphys.len() as u32;
    pb32(&mut sb, 0x10, n);
    pb32(&mut sb, 0x14, 1);
    pb32(&mut sb, 0x18, seq0);
    pb32(&mut sb, 0x1c, start);
    pb32(&mut sb, 0x24, 0);
    pb32(&mut sb, 0x28, 0x12 | u32::from(revoke));
    pb32(&mut sb, 0x2c, 0);
    sb[0x30..0x40].copy_from_slice(&JUUID);
    sb[0x50] = 4;
    let b = mk.jphys[0];
    mk.wblock(b, &sb, K::JSuper);
    let rg = mk.regions.last().unwrap().clone();
    mk.fix(&rg);
}
