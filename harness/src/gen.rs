//! Random filesystem cases.
use crate::base::*;
use crate::mk::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Profile {
    General,
    Extents,
    Maps,
    Dirs,
    Htree,
    Links,
    Modes,
}

pub struct Case {
    pub mk: Mk,
    /// (path, inode, kind nibble)
    pub objs: Vec<(Vec<u8>, u32, u16)>,
    pub contents: Vec<(Vec<u8>, Vec<u8>)>,
}

fn name(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => r.range(200, 255),
        1 => 255,
        2 => *r.pick(&[15u64, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 96, 128]),
        3 | 4 => r.range(1, 70),
        _ => r.range(1, 12),
    } as usize;
    let ascii = r.chance(1, 2);
    (0..n)
        .map(|_| loop {
            let b = if ascii { *r.pick(b"abcdefgXYZ019-_. ") } else { r.next() as u8 };
            if b != 0 && b != b'/' {
                break b;
            }
        })
        .collect()
}

/// Random layout: runs of data, holes and unwritten space.
pub fn layout(r: &mut Rng, bs: usize, extents: bool, span: u64) -> Layout {
    let mut runs = vec![];
    let mut l = if r.chance(1, 3) { r.below(6) } else { 0 };
    let nruns = r.below(if extents { 14 } else { 8 });
    let mut spent = 0;
    for _ in 0..nruns {
        if l >= span || spent > 60 {
            break;
        }
        let cnt = if r.chance(1, 8) { r.range(1, 20) } else { r.range(1, 3) };
        spent += cnt;
        let d = r.bytes(cnt as usize * bs);
        runs.push((l as u32, if extents && r.chance(1, 5) { Run::Unwritten(d) } else { Run::Data(d) }));
        l += cnt;
        if r.chance(1, 2) {
            l += match r.below(8) {
                0 => r.range(1, span),
                1 => r.range(200, 300),
                _ => r.range(1, 5),
            };
        }
    }
    if !extents && r.chance(1, 2) {
        // Around the borders of the indirect ranges.
        let n = bs as u64 / 4;
        for b in [12, 12 + n, 12 + n + n, 12 + n + n * n, 12 + n + 2 * n * n] {
            let at = (b + r.below(3)).saturating_sub(1);
            if at < span && runs.last().map_or(true, |(x, d)| match d {
                Run::Data(v) | Run::Unwritten(v) => u64::from(*x) + (v.len() / bs) as u64 <= at,
            }) {
                let c = r.range(1, 3) as usize;
                runs.push((at as u32, Run::Data(r.bytes(c * bs))));
            }
        }
    }
    let end = runs.last().map_or(0, |(x, d)| match d {
        Run::Data(v) | Run::Unwritten(v) => u64::from(*x) + (v.len() / bs) as u64,
    });
    // The size may end inside the last block, past it, or before it.
    let bsz = bs as u64;
    let size = match r.below(6) {
        0 => end * bsz,
        1 => end * bsz + r.below(3 * bsz),
        2 => (end * bsz).saturating_sub(r.below(3 * bsz)),
        3 => r.below(end * bsz + 1),
        _ => (end * bsz).saturating_sub(r.below(bsz)),
    };
    Layout { size, runs }
}


/// The bytes the layout stands for.
pub fn bytes_of(l: &Layout, bs: usize) -> Vec<u8> {
    let mut v = vec![0; l.size as usize];
    for (at, run) in &l.runs {
        if let Run::Data(d) = run {
            let o = *at as usize * bs;
            if o < v.len() {
                let n = d.len().min(v.len() - o);
                v[o..o + n].copy_from_slice(&d[..n]);
            }
        }
    }
    v
}

pub fn make(r: &mut Rng, prof: Profile) -> Case {
    let mut p = Params::random(r);
    if prof == Profile::Maps {
        p.huge = false;
        if r.chance(2, 3) {
            p.log_bs = 0;
        }
    }
    if matches!(prof, Profile::Htree | Profile::Dirs | Profile::Modes) || prof == Profile::Links && r.chance(1, 3) {
        p.total_blocks += 2000;
        p.ipg = 512;
        p.ngroups = r.range(1, 3) as u32 + if p.huge { 3 } else { 0 };
    }
    make_with(r, prof, p)
}

pub fn make_with(r: &mut Rng, prof: Profile, p: Params) -> Case {
    let huge = p.huge;
    let r2 = Rng::new(r.next());
    let mut m = Mk::new(p, r2);
    let bs = m.bs;
    struct D {
        ino: u32,
        parent: u32,
        path: Vec<u8>,
        ents: Vec<Ent>,
    }
    let mut dirs = vec![D { ino: 2, parent: 2, path: vec![], ents: vec![] }];
    let mut objs = vec![(b"/".to_vec(), 2, 0x4000)];
    let mut contents = vec![];
    let mut used = std::collections::BTreeSet::new();
    let nobj = match prof {
        Profile::General => r.range(5, 30),
        Profile::Extents | Profile::Maps => r.range(3, 10),
        Profile::Dirs => r.range(5, 200),
        Profile::Htree => r.range(20, 300),
        Profile::Links => r.range(10, 40),
        Profile::Modes => 120,
    };
    for _ in 0..nobj {
        if !m.room() || m.next_ino + 6 > m.max_ino() {
            break;
        }
        let di = if prof == Profile::Htree && r.chance(4, 5) {
            0
        } else {
            r.below(dirs.len() as u64) as usize
        };
        let mut nm = name(r);
        if prof == Profile::Links && r.chance(3, 4) {
            nm = vec![*r.pick(b"abcd")];
        }
        let mut path = dirs[di].path.clone();
        path.push(b'/');
        path.extend(&nm);
        if nm == b"." || nm == b".." || !used.insert(path.clone()) || path.len() > 3000 {
            continue;
        }
        let kind: u16 = match prof {
            Profile::General => *r.pick(&[0x4000u16, 0x4000, 0x8000, 0x8000, 0x8000, 0xa000, 0x1000, 0x2000, 0x6000, 0xc000]),
            Profile::Extents | Profile::Maps => *r.pick(&[0x8000u16, 0x8000, 0x8000, 0x8000, 0xa000]),
            Profile::Dirs => *r.pick(&[0x4000u16, 0x8000, 0x8000, 0x1000, 0x2000, 0x6000, 0xc000, 0xa000]),
            Profile::Htree => *r.pick(&[0x8000u16, 0x8000, 0x8000, 0x8000, 0x8000, 0x8000, 0x8000, 0x4000, 0xa000]),
            Profile::Links => *r.pick(&[0x4000u16, 0x4000, 0xa000, 0xa000, 0xa000, 0x8000]),
            Profile::Modes => *r.pick(&[0x4000u16, 0x8000, 0xa000, 0x1000, 0x2000, 0x6000, 0xc000]),
        };
        let ino = m.new_ino();
        let ftype = match kind {
            0x8000 => 1,
            0x4000 => 2,
            0x2000 => 3,
            0x6000 => 4,
            0x1000 => 5,
            0xc000 => 6,
            _ => 7,
        };
        match kind {
            0x4000 => dirs.push(D { ino, parent: dirs[di].ino, path: path.clone(), ents: vec![] }),
            0x8000 => {
                let mut a = m.attrs(kind);
                let ext = huge
                    || match prof {
                        Profile::Extents => true,
                        Profile::Maps => false,
                        _ => r.chance(2, 3),
                    };
                let span = if prof == Profile::Maps && bs == 1024 && r.chance(1, 6) {
                    if r.chance(1, 5) { 131_700 } else { 66_500 }
                } else if r.chance(1, 10) {
                    1500
                } else {
                    300
                };
                let mut l = if matches!(prof, Profile::Htree | Profile::Dirs | Profile::Modes) {
                    let n = r.below(40) as usize;
                    Layout { size: n as u64, runs: vec![(0, Run::Data(r.bytes(n)))] }
                } else {
                    layout(r, bs, ext, span)
                };
                if r.chance(1, 8) && prof == Profile::General {
                    // Valid UTF-8 text.
                    l = Layout { size: 12, runs: vec![(0, Run::Data("h\u{e9}llo w\u{fc}r\n".as_bytes().to_vec()))] };
                }
                let dp = if prof == Profile::Extents { r.below(5) as u16 } else if r.chance(1, 4) { r.below(3) as u16 } else { 0 };
                m.layout(ino, &mut a, &l, ext, dp);
                m.put_inode(ino, &a);
                contents.push((path.clone(), bytes_of(&l, bs)));
            }
            0xa000 => {
                let mut t: Vec<u8> = match r.below(9) {
                    0 => name(r),
                    1 => r.pick(&objs).0.clone(),
                    2 => {
                        let mut t = b"..//".to_vec();
                        t.extend(r.pick(&objs).0.iter());
                        t
                    }
                    3 => {
                        let mut t = r.pick(&objs).0.clone();
                        t.push(b'/');
                        t
                    }
                    4 => b".".to_vec(),
                    5 => b"../a/./b".to_vec(),
                    6 => nm.clone(),
                    7 => {
                        // Pad with dots to move around the inline limit.
                        let mut t = b"./".repeat(r.range(20, 40) as usize);
                        t.extend(name(r).iter().take(4));
                        t
                    }
                    _ => vec![*r.pick(b"abcd"), b'/', *r.pick(b"abcd")],
                };
                if t.is_empty() || t.contains(&0) {
                    t = b"x".to_vec();
                }
                t.truncate(bs - 1);
                m.symlink(ino, &t);
            }
            _ => {
                let mut a = m.attrs(kind);
                a.block = r.bytes(60);
                m.put_inode(ino, &a);
            }
        }
        dirs[di].ents.push(Ent { ino, name: nm, ftype });
        objs.push((path, ino, kind));
    }
    // Links that lead to each other for ever.
    if prof == Profile::Links && r.chance(1, 3) && m.next_ino + 12 < m.max_ino() && m.room() {
        let n = r.range(1, 4);
        for i in 0..n {
            let nm = format!("o{i}").into_bytes();
            let mut path = b"/".to_vec();
            path.extend(&nm);
            if !used.insert(path.clone()) {
                continue;
            }
            let ino = m.new_ino();
            let mut t = if r.chance(1, 2) { b"/".to_vec() } else { vec![] };
            t.extend(format!("o{}", (i + 1) % n).bytes());
            if r.chance(1, 4) {
                t.extend(b"/");
            }
            m.symlink(ino, &t);
            dirs[0].ents.push(Ent { ino, name: nm, ftype: 7 });
            objs.push((path, ino, 0xa000));
        }
    }
    // A chain of links around the limit of 40, and long link texts.
    if prof == Profile::Links && r.chance(1, 3) && m.next_ino + 60 < m.max_ino() && m.room() {
        let file = objs.iter().find(|o| o.2 == 0x8000).map(|o| o.0.clone()).unwrap_or(b"/".to_vec());
        for i in 0..r.range(39, 44) {
            if m.next_ino + 6 > m.max_ino() {
                break;
            }
            let ino = m.new_ino();
            let nm = format!("k{i}").into_bytes();
            let mut path = b"/".to_vec();
            path.extend(&nm);
            if !used.insert(path.clone()) {
                continue;
            }
            let mut t = if i == 0 { file.clone() } else { format!("k{}", i - 1).into_bytes() };
            if r.chance(1, 8) {
                t.insert(0, b'/');
            } else if r.chance(1, 8) {
                t.splice(0..0, *b"./");
            } else if r.chance(1, 8) && i > 0 {
                t.splice(0..0, *b"../..//");
            }
            t.truncate(bs - 1);
            m.symlink(ino, &t);
            dirs[0].ents.push(Ent { ino, name: nm, ftype: 7 });
            objs.push((path, ino, 0xa000));
        }
        for i in 0..4 {
            if m.next_ino + 6 > m.max_ino() {
                break;
            }
            let ino = m.new_ino();
            let nm = format!("long{i}").into_bytes();
            let mut path = b"/".to_vec();
            path.extend(&nm);
            if !used.insert(path.clone()) {
                continue;
            }
            let n = r.range(1, (bs as u64 - 3).min(4093) / 2) * 2;
            let n = if bs > 4096 || r.chance(1, 2) { (bs as u64 - 4).min(4090) } else { n };
            let mut t = b"./".repeat(n as usize / 2);
            if r.chance(1, 2) {
                t = vec![b'/'; n as usize];
            }
            t.extend(format!("k{}", i).bytes());
            t.truncate(bs - 1);
            m.symlink(ino, &t);
            dirs[0].ents.push(Ent { ino, name: nm, ftype: 7 });
            objs.push((path, ino, 0xa000));
        }
    }
    if m.p.big && used.insert(b"/BIG".to_vec()) {
        let ino = m.new_ino();
        let mut a = m.attrs(0x8000);
        let four = (1u64 << 32) / bs as u64;
        let size = (1u64 << 32) * if bs == 65536 { r.range(1, 2) } else { 1 } + r.below(6 * bs as u64);
        let end = size.div_ceil(bs as u64);
        let mut at: Vec<u64> = vec![0, r.range(2, 6), four / 2 - r.below(2), four - r.range(2, 3), four + r.below(2), end - 1, end + 3];
        at.retain(|_| r.chance(2, 3));
        at.sort();
        at.dedup();
        let mut runs: Vec<(u32, Run)> = vec![];
        let mut last = 0;
        for x in at {
            if x < last {
                continue;
            }
            let n = r.range(1, 2);
            last = x + n;
            runs.push((x as u32, Run::Data(r.bytes(n as usize * bs))));
        }
        let dp = r.below(3) as u16;
        m.layout(ino, &mut a, &Layout { size, runs }, true, dp);
        m.put_inode(ino, &a);
        dirs[0].ents.push(Ent { ino, name: b"BIG".to_vec(), ftype: 1 });
    }
    if m.p.big && huge && used.insert(b"/LONG".to_vec()) {
        // Extents as long as they can be, in the far part of the filesystem.
        let ino = m.new_ino();
        let mut a = m.attrs(0x8000);
        let mut pieces = vec![];
        let mut lb = 0u64;
        for _ in 0..r.range(1, 3) {
            let unw = r.chance(1, 4);
            let n = if unw { 32767 } else { *r.pick(&[32768u64, 32768, 32767, 32766]) };
            let b = *r.pick(&[1u64 << 32, 1 << 32, 1 << 31]) + r.below(1 << 30);
            for k in [0, 1, n / 2, n - 2, n - 1] {
                let d = r.bytes(bs);
                m.wblock(b + k, &d, K::Data);
            }
            pieces.push((lb as u32, b, n, unw));
            lb += n + *r.pick(&[0u64, 0, 1, 5]);
        }
        a.size = (lb * bs as u64).saturating_sub(r.below(3 * bs as u64));
        let dp = r.below(2) as u16;
        m.extents(ino, &mut a, &pieces, dp);
        m.put_inode(ino, &a);
        dirs[0].ents.push(Ent { ino, name: b"LONG".to_vec(), ftype: 1 });
    }
    let all: Vec<u32> = dirs.iter().map(|d| d.ino).collect();
    for (i, d) in dirs.iter_mut().enumerate() {
        // Where `..` leads is for the directory to say, the root's too.
        if prof == Profile::Links && r.chance(1, 10) {
            d.parent = *r.pick(&all);
        }
        let a = m.attrs(0x4000);
        let mut ents = vec![
            Ent { ino: d.ino, name: b".".to_vec(), ftype: 2 },
            Ent { ino: d.parent, name: b"..".to_vec(), ftype: 2 },
        ];
        ents.extend(d.ents.clone());
        let ext = huge || r.chance(1, 2);
        let big = d.ents.len();
        let ht = if (prof == Profile::Htree && i == 0) || r.chance(1, 6) {
            let lv = if big < 3 { 0 } else { *r.pick(&[0u8, 0, 1, 1, 2]) };
            Some((*r.pick(&[1u8, 2]), lv))
        } else {
            None
        };
        // A root index block cannot hold more leaves than this.
        let ht = ht.map(|(a, l)| if big > 90 && l == 0 { (a, 1) } else { (a, l) });
        let sparse = r.chance(2, 3);
        m.dir(d.ino, a, &ents, ht, ext, sparse);
    }
    if m.p.jblocks > 0 {
        let n = m.p.jblocks;
        m.journal(n);
    }
    m.finish();
    Case { mk: m, objs, contents }
}
