//! The specific inputs of the recorded findings. Exit status 1 when the
//! library still gets the input wrong, 0 when it gets it right.
use crate::base::*;
use crate::cmp::*;
use crate::gen::*;
use crate::jr;
use crate::mk::*;
use crate::scn::open_lib;
use std::rc::Rc;

fn params(r: &mut Rng) -> Params {
    let mut p = Params::random(r);
    p.log_bs = 0;
    p.huge = false;
    p.csum = false;
    p.isize = 256;
    p.ngroups = 2;
    p.ipg = 512;
    p.total_blocks = 3000;
    p.extra_incompat = 0;
    p
}

/// A file whose first block is mapped, with the block's position.
fn target(c: &Case) -> (Vec<u8>, Vec<u8>, u64) {
    let bs = c.mk.bs as u64;
    for (p, b) in &c.contents {
        if b.len() < 16 || p.len() > 200 || b.iter().all(|x| *x == 0) {
            continue;
        }
        let n = b.len().min(bs as usize);
        for rg in &c.mk.regions {
            if rg.kind == K::Data && c.mk.img.get(rg.off / bs * bs, n) == b[..n] {
                return (p.clone(), b.clone(), rg.off / bs);
            }
        }
    }
    panic!("no target");
}

fn verdict(img: &Img, path: &[u8], want: &[u8]) -> bool {
    let img = Rc::new(img.clone());
    let (_s, l) = open_lib(&img);
    match l {
        Ok(Ok(fs)) => match guard(|| lib(&fs, &Op::Read(path.to_vec()))) {
            Ok(Ok(Val::Bytes(b))) => {
                println!("{} bytes read, right: {}", b.len(), b == want);
                b == want
            }
            x => {
                println!("{:?}", x.map(|o| show_out(&o)));
                false
            }
        },
        x => {
            println!("load: {:?}", x.map(|y| y.map(|_| ())));
            false
        }
    }
}

fn journal(kind: &str) -> bool {
    let mut r = Rng::new(4242);
    let mut p = params(&mut r);
    p.jblocks = 64;
    let mut c = make_with(&mut r, Profile::General, p);
    assert!(!c.mk.exhausted);
    let (path, want, b) = target(&c);
    let bs = c.mk.bs;
    let good = c.mk.img.get(b * bs as u64, bs);
    let bad = jr::junk(&mut r, bs);
    let n = c.mk.jphys.len();
    let (start, disk) = match kind {
        "journal-wrap" => (n - 2, bad.clone()),
        _ => (1, bad.clone()),
    };
    let mut w = jr::W { pos: start, seq: 9, first_tag: true, wrap: true, c: &mut c };
    match kind {
        // Descriptor and data at the end of the log, commit at its start.
        "journal-wrap" => {
            w.desc(&[(b, good)]);
            w.commit();
        }
        // A revocation block filled to its end next to a write.
        "journal-revoke-full" => {
            w.desc(&[(b, good)]);
            let many: Vec<u64> = (0..(bs as u64 - 20) / 8).map(|i| 2_000_000 + i).collect();
            w.revoke(&many);
            w.commit();
        }
        // Control: nothing special, must be right.
        "journal-control" => {
            w.desc(&[(b, good)]);
            w.commit();
        }
        // The bytes after the last entry look like two further entries.
        _ => {
            w.desc(&[(b, good)]);
            w.revoke(&[2_000_000]);
            let at = w.c.mk.jphys[w.pos - 1] * bs as u64 + 24;
            w.c.mk.img.write(at, &b.to_be_bytes());
            let rg = w.c.mk.regions.last().unwrap().clone();
            w.c.mk.fix(&rg);
            w.commit();
        }
    }
    c.mk.img.write(b * bs as u64, &disk);
    jr::superblock(&mut c, 9, start as u32, true);
    verdict(&c.mk.img, &path, &want)
}

fn htree(kind: &str) -> bool {
    let mut r = Rng::new(99);
    let p = params(&mut r);
    let seed = p.hash_seed;
    let mut m = Mk::new(p, Rng::new(5));
    let bs = m.bs;
    let body = b"contents".to_vec();
    let file = |m: &mut Mk| {
        let ino = m.new_ino();
        let mut a = m.attrs(0x8000);
        let l = Layout { size: body.len() as u64, runs: vec![(0, Run::Data(body.clone()))] };
        m.layout(ino, &mut a, &l, true, 0);
        m.put_inode(ino, &a);
        ino
    };
    let look: Vec<u8>;
    let dots = [Ent { ino: 2, name: b".".to_vec(), ftype: 2 }, Ent { ino: 2, name: b"..".to_vec(), ftype: 2 }];
    if kind == "htree-unsigned" {
        UNSIGNED.with(|u| u.set(true));
        let mut ents = dots.to_vec();
        for i in 0..60u8 {
            let ino = file(&mut m);
            ents.push(Ent { ino, name: vec![b'n', 0xe0 | (i & 15), 0x80 + i, b'0' + i % 10], ftype: 1 });
        }
        look = ents[20].name.clone();
        let a = m.attrs(0x4000);
        m.dir(2, a, &ents, Some((1, 1)), true, false);
        UNSIGNED.with(|u| u.set(false));
    } else {
        // Two names with one hash, in two leaves.
        let mut seen = std::collections::HashMap::new();
        let mut i = 0u32;
        let (x, y, h) = loop {
            let n = format!("f{i}").into_bytes();
            let h = dirhash(1, &n, &seed);
            if let Some(o) = seen.insert(h, n.clone()) {
                break (o, n, h);
            }
            i += 1;
        };
        let (i1, i2) = (file(&mut m), file(&mut m));
        let (l1, _) = m.leaf(&[Ent { ino: i1, name: x, ftype: 1 }], false);
        let (l2, _) = m.leaf(&[Ent { ino: i2, name: y.clone(), ftype: 1 }], false);
        let mut b = vec![0; bs];
        put_ent(&mut b, 0, &dots[0], 12);
        put_ent(&mut b, 12, &dots[1], bs - 12);
        b[0x1c] = 1;
        b[0x1d] = 8;
        p16(&mut b, 0x20, ((bs - 0x20) / 8) as u16);
        p16(&mut b, 0x22, 2);
        p32(&mut b, 0x24, 1);
        p32(&mut b, 0x28, if kind == "htree-control" { h } else { h | 1 });
        p32(&mut b, 0x2c, 2);
        let phys = m.alloc(3, true);
        m.wblock(phys, &b, K::DirRoot(2));
        m.wblock(phys + 1, &l1, K::DirLeaf(2));
        m.wblock(phys + 2, &l2, K::DirLeaf(2));
        let mut a = m.attrs(0x4000);
        a.flags |= 0x1000;
        a.size = 3 * bs as u64;
        m.extents(2, &mut a, &[(0, phys, 3, false)], 0);
        m.put_inode(2, &a);
        look = y;
    }
    m.finish();
    if kind == "htree-unsigned" {
        let f = m.img.get(1024 + 0x160, 4);
        m.img.write(1024 + 0x160, &[(f[0] & !3) | 2, f[1], f[2], f[3]]);
    }
    let mut path = b"/".to_vec();
    path.extend(&look);
    verdict(&m.img, &path, &body)
}

pub fn run(id: &str) {
    let ok = match id {
        "journal-wrap" | "journal-revoke-full" | "journal-revoke-extra" | "journal-control" => journal(id),
        "htree-collision" | "htree-unsigned" | "htree-control" => htree(id),
        _ => panic!("unknown finding"),
    };
    std::process::exit(if ok { 0 } else { 1 });
}
