//! Scenarios: each draws a case from a seed and compares.
use crate::base::*;
use crate::cmp::*;
use crate::gen::*;
use crate::jr;
use crate::mk::*;
use crate::pure;
use crate::refr::*;
use crate::Ctx;
use ext4_view::Ext4;
use std::rc::Rc;

pub type F = fn(&mut Rng, &mut Ctx);

pub fn by_name(n: &str) -> Option<F> {
    Some(match n {
        "general" => |r, c| tree(r, c, Profile::General),
        "extents" => |r, c| tree(r, c, Profile::Extents),
        "maps" => |r, c| tree(r, c, Profile::Maps),
        "dirs" => |r, c| tree(r, c, Profile::Dirs),
        "htree" => |r, c| tree(r, c, Profile::Htree),
        "links" => |r, c| tree(r, c, Profile::Links),
        "modes" => |r, c| tree(r, c, Profile::Modes),
        "mut_general" => |r, c| mutate(r, c, Profile::General, &|_| true),
        "mut_super" => |r, c| mutate(r, c, Profile::General, &|k| matches!(k, K::Super)),
        "mut_group" => |r, c| mutate(r, c, Profile::General, &|k| matches!(k, K::Bgd(_))),
        "mut_inode" => |r, c| mutate(r, c, Profile::General, &|k| matches!(k, K::Inode(_))),
        "mut_extents" => |r, c| mutate(r, c, Profile::Extents, &|k| matches!(k, K::Ext(_) | K::Inode(_))),
        "mut_maps" => |r, c| mutate(r, c, Profile::Maps, &|k| matches!(k, K::Indirect | K::Inode(_))),
        "mut_dirs" => |r, c| mutate(r, c, Profile::Dirs, &|k| matches!(k, K::DirLeaf(_))),
        "mut_htree" => |r, c| mutate(r, c, Profile::Htree, &|k| matches!(k, K::DirRoot(_) | K::DirInner(_) | K::DirLeaf(_))),
        "mut_links" => |r, c| mutate(r, c, Profile::Links, &|k| matches!(k, K::Inode(_) | K::Data)),
        "csum" => |r, c| csum(r, c),
        "journal" => |r, c| journal(r, c, false),
        "mut_journal" => |r, c| journal(r, c, true),
        "interleave" => interleave,
        "fault" => fault,
        "hash" => hash,
        "paths" => pure::paths,
        "display" => pure::display,
        "reader" => pure::reader,
        "file" => file,
        "large" => large,
        _ => return None,
    })
}

pub fn plan(id: &str) -> Vec<(&'static str, u64)> {
    match id {
        "C01" => vec![
            ("mut_general", 4),
            ("mut_super", 2),
            ("mut_group", 1),
            ("mut_inode", 2),
            ("mut_extents", 3),
            ("mut_maps", 2),
            ("mut_dirs", 2),
            ("mut_htree", 3),
            ("mut_links", 2),
            ("mut_journal", 4),
            ("general", 1),
            ("links", 1),
            ("paths", 1),
            ("display", 1),
            ("fault", 1),
            ("reader", 1),
        ],
        "C02" => vec![("mut_extents", 3), ("mut_dirs", 3), ("mut_htree", 3), ("mut_links", 2), ("links", 2), ("mut_journal", 3), ("mut_general", 2), ("mut_super", 1), ("mut_maps", 1), ("fault", 2)],
        "C03" => vec![("interleave", 4), ("extents", 1), ("maps", 1), ("general", 2), ("fault", 1), ("mut_inode", 2)],
        "C04" => vec![("mut_super", 8), ("general", 1), ("mut_group", 1)],
        "C05" => vec![("csum", 8), ("mut_journal", 2), ("general", 1)],
        "C06" => vec![("modes", 4), ("mut_inode", 4), ("mut_group", 2), ("general", 2)],
        "C07" => vec![("extents", 5), ("large", 1), ("mut_extents", 4), ("general", 1)],
        "C08" => vec![("maps", 5), ("mut_maps", 2), ("general", 1)],
        "C09" => vec![("extents", 2), ("large", 1), ("maps", 2), ("general", 3), ("fault", 1), ("interleave", 1)],
        "C10" => vec![("dirs", 3), ("mut_dirs", 4), ("htree", 1), ("mut_htree", 1)],
        "C11" => vec![("htree", 5), ("mut_htree", 3), ("dirs", 2), ("mut_dirs", 1), ("hash", 1)],
        "C12" => vec![("hash", 5), ("htree", 3), ("mut_htree", 2)],
        "C13" => vec![("links", 6), ("general", 2), ("mut_links", 2), ("htree", 1)],
        "C14" => vec![("paths", 5), ("dirs", 1)],
        "C15" => vec![("journal", 4), ("mut_journal", 4)],
        "C16" => vec![("fault", 5), ("reader", 2), ("file", 2), ("general", 1)],
        "C17" => vec![("general", 3), ("modes", 2), ("links", 2), ("mut_inode", 1)],
        "C18" => vec![("display", 2), ("modes", 3), ("mut_inode", 2), ("general", 1)],
        _ => vec![
            ("general", 1), ("extents", 1), ("maps", 1), ("dirs", 1), ("htree", 1), ("links", 1), ("modes", 1),
            ("mut_general", 1), ("mut_super", 1), ("mut_group", 1), ("mut_inode", 1), ("mut_extents", 1), ("mut_maps", 1),
            ("mut_dirs", 1), ("mut_htree", 1), ("mut_links", 1), ("csum", 1), ("journal", 1), ("mut_journal", 1),
            ("interleave", 1), ("fault", 1), ("hash", 1), ("paths", 1), ("display", 1), ("reader", 1), ("file", 1), ("large", 1),
        ],
    }
}

fn now(c: &Ctx, s: String) {
    if let Some(n) = &c.now {
        *n.lock().unwrap() = s;
    }
}

pub fn open_lib(img: &Rc<Img>) -> (Rc<Shared>, Result<Result<Ext4, E>, String>) {
    let sh = Rc::new(Shared::default());
    let rd = Rd { img: img.clone(), sh: sh.clone() };
    let x = guard(|| Ext4::load(Box::new(rd)).map_err(|e| class(&e)));
    (sh, x)
}

fn is_short(img: &Img, rfs: Option<&RFs>) -> bool {
    rfs.map_or(false, |f| u128::from(f.blocks) * u128::from(f.bs) > u128::from(img.len))
}

/// Tags from the object the path names: how its blocks are found, etc.
fn obj_tags(case: &Case, p: &[u8]) -> Vec<&'static str> {
    let mut t = vec![];
    for (path, ino, kind) in &case.objs {
        if path == p {
            if let Some(i) = case.mk.inodes.get(ino) {
                if *kind == 0x8000 || *kind == 0x4000 {
                    t.push(if i.flags & 0x8_0000 != 0 { "C07" } else { "C08" });
                }
                if i.flags & 0x1000 != 0 {
                    t.push("C11");
                }
            }
        }
    }
    t
}

fn junk_path(r: &mut Rng, case: &Case) -> Vec<u8> {
    let mut p: Vec<u8> = vec![];
    let n = r.range(1, 4);
    for _ in 0..n {
        let o = r.pick(&case.objs).0.clone();
        match r.below(14) {
            0 => p.extend(b"/."),
            1 => p.extend(b"/.."),
            2 => p.extend(b"//"),
            3 => p.extend(b"/"),
            4 => p.extend(b"/nope"),
            5 => {
                p.push(b'/');
                p.push(*r.pick(b"abcd"));
            }
            6 => {
                p.extend(o);
                p.extend(b"/..");
            }
            7 => {
                p.extend(o);
                p.extend(b"/.");
            }
            _ => p.extend(o),
        }
    }
    match r.below(40) {
        0 => {
            p.remove(0);
        }
        1 => {
            let k = r.below(p.len() as u64) as usize;
            p[k] = 0;
        }
        2 => p.extend([b'/'].iter().chain(vec![b'z'; 256].iter())),
        3 => p.extend([b'/'].iter().chain(vec![b'z'; 255].iter())),
        4 => {
            let n = r.range(4080, 4110) as usize;
            p.extend(b"/.".repeat(3000));
            p.truncate(n);
        }
        5 => p = vec![],
        6 => {
            p.extend(b"/.".repeat(2040));
            p.truncate(4096);
        }
        _ => {}
    }
    p
}

fn some_op(r: &mut Rng, p: Vec<u8>) -> Op {
    match r.below(12) {
        0 | 1 => Op::Stat(p),
        2 => Op::LStat(p),
        3 | 4 => Op::Read(p),
        5 => Op::ReadStr(p),
        6 => Op::Link(p),
        7 => Op::Exists(p),
        8 => Op::Canon(p),
        9 => Op::List(p),
        _ => Op::Open(p, r.next()),
    }
}

/// The same filesystem as a file opened by its path, and as a vector.
fn file(r: &mut Rng, c: &mut Ctx) {
    let p = std::env::temp_dir().join(format!("vxh-{}-{:x}", std::process::id(), r.next()));
    now(c, "a path that names nothing".into());
    match guard(|| Ext4::load_from_path(&p).map(|_| ()).map_err(|e| class(&e))) {
        Err(m) => c.fail(&["C01", "C16"], format!("loading from a path that names nothing panics: {m}")),
        Ok(Err(E::Io)) => c.seen("no such file"),
        Ok(x) => c.fail(&["C16", "C17"], format!("loading from a path that names nothing gives {x:?}, expected Err(Io)")),
    }
    let mut case = make(r, Profile::General);
    if case.mk.exhausted || case.mk.img.size() > 8 << 20 {
        return;
    }
    let what = format!("{} as a file", label(&case, Profile::General));
    if r.chance(1, 4) {
        case.mk.img.len = r.below(case.mk.img.len + 1);
    }
    let img = Rc::new(case.mk.img.clone());
    let rfs = RFs::load(&img);
    if matches!(rfs, Err(E::TooLarge)) || !img.sparse_file(&p) {
        let _ = std::fs::remove_file(&p);
        return;
    }
    now(c, what.clone());
    let l = guard(|| Ext4::load_from_path(&p).map_err(|e| class(&e)));
    let mut ops = all_ops(r, &case, 60);
    for _ in 0..10 {
        let p = junk_path(r, &case);
        ops.push(some_op(r, p));
    }
    compare_fs(c, &case, &ops, &["C16"], &what, true, &img, rfs, l);
    let _ = std::fs::remove_file(&p);
    if img.len <= 16 << 20 {
        let what = what.replace("as a file", "as a vector");
        let l = guard(|| Ext4::load(Box::new(img.get(0, img.len as usize))).map_err(|e| class(&e)));
        compare_fs(c, &case, &ops, &["C16"], &what, true, &img, RFs::load(&img), l);
    }
}

/// The natural operations for every object.
fn all_ops(r: &mut Rng, case: &Case, per: u64) -> Vec<Op> {
    let mut v = vec![];
    for (p, _, k) in &case.objs {
        if !r.chance(per, 100) {
            continue;
        }
        v.push(Op::LStat(p.clone()));
        match k {
            0x4000 => v.push(Op::List(p.clone())),
            0x8000 => {
                v.push(Op::Read(p.clone()));
                v.push(Op::Open(p.clone(), r.next()));
            }
            0xa000 => {
                v.push(Op::Link(p.clone()));
                v.push(Op::Canon(p.clone()));
                v.push(Op::Stat(p.clone()));
            }
            _ => {}
        }
        if r.chance(1, 3) {
            v.push(some_op(r, p.clone()));
        }
    }
    v
}

fn compare(c: &mut Ctx, case: &Case, ops: &[Op], tags: &[&'static str], what: &str, mutated: bool) {
    let img = Rc::new(case.mk.img.clone());
    now(c, format!("{what}: loading"));
    let rfs = RFs::load(&img);
    if matches!(rfs, Err(E::TooLarge)) {
        return;
    }
    let (_sh, l) = open_lib(&img);
    compare_fs(c, case, ops, tags, what, mutated, &img, rfs, l);
}

#[allow(clippy::too_many_arguments)]
fn compare_fs(
    c: &mut Ctx,
    case: &Case,
    ops: &[Op],
    tags: &[&'static str],
    what: &str,
    mutated: bool,
    img: &Img,
    rfs: Result<RFs, E>,
    l: Result<Result<Ext4, E>, String>,
) {
    let with = |x: &[&'static str]| -> Vec<&'static str> { tags.iter().chain(x).copied().collect() };
    let fs = match (l, &rfs) {
        (Err(p), _) => {
            c.fail(&with(&["C01"]), format!("{what}: loading panics: {p}"));
            return;
        }
        (Ok(Ok(fs)), Ok(_)) => fs,
        (Ok(Err(x)), Err(y)) if x == *y => {
            c.seen(&format!("{what}: load refused with {x:?}"));
            return;
        }
        (Ok(x), y) => {
            c.fail(
                &with(&["C04"]),
                format!("{what}: load gives {:?}, expected {:?}", x.map(|_| "a filesystem"), y.as_ref().map(|_| "a filesystem").map_err(|e| *e)),
            );
            return;
        }
    };
    let rfs = rfs.unwrap();
    let short = is_short(img, Some(&rfs));
    if fs.label().as_bytes() != &rfs.label || fs.uuid().as_bytes() != &rfs.uuid {
        c.fail(&with(&["C18", "C04"]), format!("{what}: label or uuid is wrong"));
    }
    for op in ops {
        now(c, format!("{what}: {op:?}"));
        rfs.big.set(false);
        let mut t = with(op_tags(op));
        t.extend(obj_tags(case, op_path(op)));
        if !mutated {
            t.push("C05");
        }
        if let Op::Open(p, seed) = op {
            let x = guard(|| run_open(&fs, &rfs, p, *seed, short));
            match x {
                Err(m) => {
                    t.push("C01");
                    c.fail(&t, format!("{what}: opening and reading {} panics: {m}", show(p)));
                }
                Ok(Some(m)) => c.fail(&t, format!("{what}: {}: {m}", show(p))),
                Ok(None) => c.seen(&format!("{what} open {}", show(p))),
            }
            continue;
        }
        let want = rf(&rfs, op);
        if rfs.big.get() {
            continue;
        }
        let got = guard(|| lib(&fs, op));
        match got {
            Err(m) => {
                t.push("C01");
                c.fail(&t, format!("{what}: {op:?} panics: {m}"));
            }
            Ok(g) => {
                let io = short && has_io(&g);
                if g != want && !io {
                    // Which property a listing breaks depends on what differs.
                    if let (Ok(Val::List(..)), _) | (_, Ok(Val::List(..))) = (&g, &want) {
                        t.push("C06");
                    }
                    if let Ok(Val::Bytes(a)) = &g {
                        if let Ok(Val::Bytes(b)) = &want {
                            let at = a.iter().zip(b).position(|(x, y)| x != y);
                            c.fail(&t, format!("{what}: {} differs: lengths {} and {} (expected), first difference at {at:?}: {} / {} (expected)", show_op(op), a.len(), b.len(), show(a), show(b)));
                            continue;
                        }
                    }
                    c.fail(&t, format!("{what}: {} gives {}, expected {}", show_op(op), show_out(&g), show_out(&want)));
                } else {
                    c.seen(&format!("{what} {} -> {}", show_op(op), show_out(&want)));
                }
            }
        }
        if c.fails.len() > 3 {
            return;
        }
    }
}

fn show_op(op: &Op) -> String {
    let n = format!("{op:?}");
    format!("{} {}", n.split('(').next().unwrap_or(""), show(op_path(op)))
}

fn has_io(o: &Out) -> bool {
    match o {
        Err(E::Io) => true,
        Ok(Val::List(v, e)) => *e == Some(E::Io) || v.iter().any(|x| x.3 == Err(E::Io)),
        _ => false,
    }
}

/// The reference must agree with what was put into the image.
fn check_model(c: &mut Ctx, case: &Case, what: &str, tags: &[&'static str]) {
    let img = Rc::new(case.mk.img.clone());
    let (_s, l) = open_lib(&img);
    let fs = match l {
        Ok(Ok(f)) => f,
        x => {
            let mut t = vec!["C04", "C05"];
            t.extend(tags);
            if x.is_err() {
                t.push("C01");
            }
            c.fail(&t, format!("{what}: a valid image is refused: {:?}", x.map(|y| y.map(|_| ()))));
            return;
        }
    };
    for (p, b) in &case.contents {
        if p.len() > 4096 {
            continue;
        }
        let mut t = vec!["C09", "C03", "C17"];
        t.extend(tags);
        t.extend(obj_tags(case, p));
        match guard(|| lib(&fs, &Op::Read(p.clone()))) {
            Ok(Ok(Val::Bytes(g))) if g == *b => {}
            Ok(x) => {
                let at = if let Ok(Val::Bytes(g)) = &x { g.iter().zip(b).position(|(x, y)| x != y) } else { None };
                c.fail(&t, format!("{what}: contents of {} are wrong ({} bytes expected; first difference {at:?}): {}", show(p), b.len(), show_out(&x)))
            }
            Err(m) => {
                t.push("C01");
                c.fail(&t, format!("{what}: reading {} panics: {m}", show(p)));
            }
        }
    }
    // Every object is reachable with the attributes it was given.
    for (p, ino, k) in &case.objs {
        if p.len() > 4096 {
            continue;
        }
        let i = &case.mk.inodes[ino];
        let want = Ok(Val::Meta { kind: *k, mode: i.mode & 0xfff, uid: i.uid, gid: i.gid, len: i.size, dir: *k == 0x4000, link: *k == 0xa000 });
        let mut t = vec!["C06", "C11", "C12", "C18", "C13", "C17"];
        t.extend(tags);
        match guard(|| lib(&fs, &Op::LStat(p.clone()))) {
            Ok(g) if g == want => {}
            Ok(g) => c.fail(&t, format!("{what}: metadata of {} is {}, expected {}", show(p), show_out(&g), show_out(&want))),
            Err(m) => {
                t.push("C01");
                c.fail(&t, format!("{what}: metadata of {} panics: {m}", show(p)));
            }
        }
        if c.fails.len() > 3 {
            return;
        }
    }
}

fn label(case: &Case, prof: Profile) -> String {
    let p = &case.mk.p;
    format!(
        "{prof:?} image (block {} inode {} csum {} 64bit {} desc {} groups {} huge {})",
        case.mk.bs, p.isize, p.csum, p.is64, p.desc_size, p.ngroups, p.huge
    )
}

fn tree(r: &mut Rng, c: &mut Ctx, prof: Profile) {
    let case = make(r, prof);
    if case.mk.exhausted {
        return;
    }
    let what = label(&case, prof);
    now(c, what.clone());
    let tags: &[&'static str] = match prof {
        Profile::Extents => &["C07"],
        Profile::Maps => &["C08"],
        Profile::Dirs => &["C10", "C11"],
        Profile::Htree => &["C10", "C11", "C12"],
        Profile::Links => &["C13"],
        _ => &[],
    };
    check_model(c, &case, &what, tags);
    if !c.fails.is_empty() {
        return;
    }
    let mut ops = all_ops(r, &case, 100);
    for _ in 0..60 {
        let p = junk_path(r, &case);
        ops.push(some_op(r, p));
    }
    if prof == Profile::Links || r.chance(1, 3) {
        for _ in 0..60 {
            let p = junk_path(r, &case);
            ops.push(match r.below(3) {
                0 => Op::Stat(p),
                1 => Op::LStat(p),
                _ => Op::Canon(p),
            });
        }
    }
    if prof == Profile::Links {
        // Paths around the length limit.
        let long: Vec<_> = case.objs.iter().filter(|o| o.0.len() < 2000).cloned().collect();
        for _ in 0..8 {
            let o = r.pick(&long).0.clone();
            let n = (4096 + r.below(7) as i64 - 4) as usize;
            let mut p = vec![];
            let pad = n - o.len();
            match r.below(4) {
                0 => p.extend(vec![b'/'; pad]),
                1 => p.extend(b"/.".repeat(pad / 2)),
                2 => p.extend(b"/..".repeat(pad / 3)),
                _ => p.extend(b"/.//./..".repeat(pad / 8)),
            }
            p.extend(&o);
            while p.len() < n {
                p.push(*r.pick(b"/."));
            }
            ops.push(some_op(r, p));
        }
        // A link followed by a rest that makes the spliced path long.
        let links: Vec<_> = case.objs.iter().filter(|o| o.2 == 0xa000 && o.0.len() < 300).cloned().collect();
        for _ in 0..5 {
            if links.is_empty() {
                break;
            }
            let o = r.pick(&links).0.clone();
            let mut p = o.clone();
            p.push(b'/');
            let n = r.range(1, 4090) as usize;
            let rest = if r.chance(1, 2) { b"./".repeat(n / 2) } else { b"../".repeat(n / 3) };
            p.extend(rest);
            if r.chance(1, 2) {
                // Close to the limit after the splice.
                let d = r.below(8) as usize;
                while p.len() + d < 4096 {
                    p.push(b'/');
                    if p.len() + d < 4096 {
                        p.push(b'.');
                    }
                }
            }
            ops.push(some_op(r, p));
        }
    }
    if matches!(prof, Profile::Htree | Profile::Dirs) {
        // Names that are not there, near the ones that are.
        for _ in 0..30 {
            let mut p = r.pick(&case.objs).0.clone();
            match r.below(3) {
                0 => p.push(*r.pick(b"ab.")),
                1 if p.len() > 2 => {
                    p.pop();
                }
                _ => {
                    let k = p.len() - 1;
                    p[k] = p[k].wrapping_add(1);
                }
            }
            ops.push(Op::Exists(p));
        }
    }
    compare(c, &case, &ops, tags, &what, false);
}

const IV: &[u64] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 15, 16, 31, 32, 59, 60, 61, 63, 64, 127, 128, 255, 256, 340, 341, 1023, 1024, 4096, 0x7fff, 0x8000, 0x8001, 0xffff, 0x1_0000, 0x7fff_ffff,
    0x8000_0000, 0xffff_fff0, 0xffff_fffe, 0xffff_ffff,
];

/// Interesting fields of a region: (offset, width, big endian).
fn fields(k: K, len: usize, d: &[u8]) -> Vec<(usize, usize, bool)> {
    let mut f = vec![];
    match k {
        K::Super => {
            for o in [0usize, 4, 0x14, 0x18, 0x20, 0x28, 0x5c, 0x60, 0x64, 0x150, 0xe0, 0xec, 0x270, 0x3fc] {
                f.push((o, 4, false));
            }
            for o in [0x38usize, 0x58, 0xfe] {
                f.push((o, 2, false));
            }
        }
        K::Bgd(_) => {
            f.push((8, 4, false));
            f.push((0x1e, 2, false));
            if len >= 64 {
                f.push((0x28, 4, false));
            }
        }
        K::Inode(_) => {
            for o in [4usize, 4, 0x20, 0x64, 0x6c] {
                f.push((o, 4, false));
            }
            for o in [0usize, 0, 2, 0x18, 0x78, 0x7a, 0x7c, 0x80, 0x82] {
                if o + 2 <= len {
                    f.push((o, 2, false));
                }
            }
            if d[0x20 + 2] & 8 != 0 {
                ext_fields(0x28, &d[0x28..0x64], &mut f);
            } else {
                for i in 0..15 {
                    f.push((0x28 + i * 4, 4, false));
                }
            }
        }
        K::Ext(_) => ext_fields(0, d, &mut f),
        K::Indirect => {
            for i in 0..len / 4 {
                f.push((i * 4, 4, false));
            }
        }
        K::DirLeaf(_) => {
            let mut o = 0;
            while o + 8 <= len {
                f.extend([(o, 4, false), (o + 4, 2, false), (o + 4, 2, false), (o + 6, 1, false), (o + 6, 1, false), (o + 7, 1, false), (o + 8, 1, false), (o + 8, 1, false)]);
                let rl = usize::from(le16(d, o + 4));
                if rl < 8 {
                    break;
                }
                o += rl;
            }
        }
        K::DirRoot(_) => {
            f.extend([(0, 4, false), (4, 2, false), (6, 1, false), (8, 1, false), (12, 4, false), (16, 2, false), (18, 1, false), (20, 2, false)]);
            f.extend([(0x1c, 1, false), (0x1c, 1, false), (0x1d, 1, false), (0x1e, 1, false), (0x1e, 1, false), (0x20, 2, false), (0x22, 2, false), (0x22, 2, false), (0x24, 4, false)]);
            for i in 1..usize::from(le16(d, 0x22)).min(20) {
                f.push((0x20 + i * 8, 4, false));
                f.push((0x24 + i * 8, 4, false));
            }
        }
        K::DirInner(_) => {
            f.extend([(0, 4, false), (4, 2, false), (6, 1, false), (8, 2, false), (10, 2, false), (10, 2, false), (12, 4, false)]);
            for i in 1..usize::from(le16(d, 10)).min(20) {
                f.push((8 + i * 8, 4, false));
                f.push((12 + i * 8, 4, false));
            }
        }
        K::Data | K::JData => f.push((0, 1, false)),
        K::JSuper => {
            for o in [0usize, 4, 8, 0xc, 0x10, 0x14, 0x18, 0x1c, 0x1c, 0x28, 0x28, 0x24, 0xfc] {
                f.push((o, 4, true));
            }
            f.push((0x50, 1, false));
        }
        K::JDesc => {
            for o in [0usize, 4, 8] {
                f.push((o, 4, true));
            }
            let mut o = 12;
            while o + 16 <= len {
                f.extend([(o, 4, true), (o + 4, 4, true), (o + 4, 4, true), (o + 8, 4, true), (o + 12, 4, true)]);
                let fl = be32(d, o + 4);
                if fl & 8 != 0 {
                    break;
                }
                o += if fl & 2 != 0 { 16 } else { 32 };
            }
        }
        K::JRevoke => {
            for o in [0usize, 4, 8, 12, 12, 12, 16, 20] {
                f.push((o, 4, true));
            }
        }
        K::JCommit => {
            for o in [0usize, 4, 8, 12, 16] {
                f.push((o, 4, true));
            }
        }
    }
    f
}

fn ext_fields(at: usize, d: &[u8], f: &mut Vec<(usize, usize, bool)>) {
    for o in [0usize, 2, 2, 4, 6, 6] {
        f.push((at + o, 2, false));
    }
    let n = usize::from(le16(d, 2));
    for i in 0..n {
        let o = 12 + i * 12;
        if o + 12 > d.len() {
            break;
        }
        if le16(d, 6) == 0 {
            f.extend([(at + o, 4, false), (at + o + 4, 2, false), (at + o + 6, 2, false), (at + o + 8, 4, false)]);
        } else {
            f.extend([(at + o, 4, false), (at + o + 4, 4, false), (at + o + 8, 2, false)]);
        }
    }
}

fn get(d: &[u8], o: usize, w: usize, be: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..w {
        v = (v << 8) | u64::from(d[if be { o + i } else { o + w - 1 - i }]);
    }
    v
}
fn put(d: &mut [u8], o: usize, w: usize, be: bool, v: u64) {
    for i in 0..w {
        d[if be { o + w - 1 - i } else { o + i }] = (v >> (8 * i)) as u8;
    }
}

/// Change one field; describes the change.
fn mutate_region(r: &mut Rng, mk: &mut Mk, rg: &Region) -> String {
    let mut d = mk.img.get(rg.off, rg.len);
    if r.chance(1, 12) {
        let k = r.below(rg.len as u64) as usize;
        d[k] ^= 1 << r.below(8);
        mk.img.write(rg.off, &d);
        return format!("bit flipped at {k:#x} of {:?}", rg.kind);
    }
    if r.chance(1, 40) {
        let x = r.bytes(rg.len);
        mk.img.write(rg.off, &x);
        return format!("{:?} replaced by noise", rg.kind);
    }
    if matches!(rg.kind, K::Inode(_)) && le16(&d, 0) & 0xf000 == 0x4000 && r.chance(1, 2) {
        // A directory with a hole, or whose block is somewhere else.
        let used = (le32(&d, 4) as usize / mk.bs).clamp(1, 12);
        if le32(&d, 0x20) & 0x80000 == 0 {
            let k = r.below(used as u64) as usize;
            let to = if r.chance(2, 3) { 0 } else { r.below(mk.blocks_count) as u32 };
            d[0x28 + 4 * k..0x2c + 4 * k].copy_from_slice(&to.to_le_bytes());
            mk.img.write(rg.off, &d);
            return format!("{:?}: directory block {k} moved to {to}", rg.kind);
        }
        let n = u64::from(le16(&d, 0x2a)).min(4);
        if le16(&d, 0x2e) == 0 && n > 0 {
            let at = 0x34 + 12 * r.below(n) as usize;
            let what = match r.below(4) {
                0 => {
                    // The blocks this extent covers start one later.
                    let b = le32(&d, at).wrapping_add(1);
                    d[at..at + 4].copy_from_slice(&b.to_le_bytes());
                    "starts one block later"
                }
                1 => {
                    // It covers one block fewer.
                    let l = le16(&d, at + 4).wrapping_sub(1);
                    d[at + 4..at + 6].copy_from_slice(&l.to_le_bytes());
                    "is one block shorter"
                }
                2 => {
                    let l = le16(&d, at + 4).wrapping_add(0x8000);
                    d[at + 4..at + 6].copy_from_slice(&l.to_le_bytes());
                    "is unwritten"
                }
                _ => {
                    let to = if r.chance(2, 3) { 0 } else { r.below(mk.blocks_count) as u32 };
                    d[at + 6..at + 8].copy_from_slice(&[0; 2]);
                    d[at + 8..at + 12].copy_from_slice(&to.to_le_bytes());
                    "is somewhere else"
                }
            };
            mk.img.write(rg.off, &d);
            return format!("{:?}: directory extent {what}", rg.kind);
        }
    }
    if matches!(rg.kind, K::DirRoot(_)) && rg.len > 0x20 && r.chance(1, 4) {
        d[0x1c] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7]);
        mk.img.write(rg.off, &d);
        return format!("{:?}: hash version {}", rg.kind, d[0x1c]);
    }
    if matches!(rg.kind, K::DirLeaf(_)) && r.chance(1, 4) {
        // A record cut in two at an odd place.
        let mut at = vec![];
        let mut o = 0;
        while o + 8 <= rg.len {
            let rl = usize::from(le16(&d, o + 4));
            if rl < 8 || o + rl > rg.len {
                break;
            }
            at.push((o, rl));
            o += rl;
        }
        if !at.is_empty() {
            let (o, rl) = *r.pick(&at);
            let cut = (*r.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16])).min(rl);
            if r.chance(2, 3) {
                d[o..o + 4].fill(0);
            }
            d[o + 4..o + 6].copy_from_slice(&(cut as u16).to_le_bytes());
            if r.chance(1, 2) {
                d[o + 6] = r.below(cut as u64 + 1) as u8;
            }
            if o + cut + 8 <= rg.len {
                d[o + cut + 4..o + cut + 6].copy_from_slice(&((rl - cut) as u16).to_le_bytes());
                d[o + cut + 6] = r.below(4) as u8;
                d[o + cut + 7] = r.below(9) as u8;
                if cut >= 8 && r.chance(1, 2) {
                    d[o + cut..o + cut + 4].fill(0);
                }
            }
            mk.img.write(rg.off, &d);
            return format!("{:?}: record at {o:#x} cut after {cut} bytes", rg.kind);
        }
    }
    let f = fields(rg.kind, rg.len, &d);
    let (o, w, be) = *r.pick(&f);
    let old = get(&d, o, w, be);
    let mask = if w == 4 { 0xffff_ffff } else { (1u64 << (8 * w)) - 1 };
    let new = match r.below(10) {
        0 | 1 => old.wrapping_add(1),
        2 => old.wrapping_sub(1),
        3 | 4 | 5 => *r.pick(IV),
        6 => old ^ (1 << r.below(8 * w as u64)),
        7 => old.wrapping_add(*r.pick(&[2u64, 4, 8, 12, 16, 0x100])),
        8 => {
            // Another field's value.
            let (o2, w2, b2) = *r.pick(&f);
            get(&d, o2, w2, b2)
        }
        _ => r.next() >> r.below(64),
    } & mask;
    put(&mut d, o, w, be, new);
    mk.img.write(rg.off, &d);
    format!("{:?} field at {o:#x} ({w} bytes) changed from {old:#x} to {new:#x}", rg.kind)
}

fn kind_tags(k: K) -> &'static [&'static str] {
    match k {
        K::Super => &["C04"],
        K::Bgd(_) => &["C06", "C05"],
        K::Inode(_) => &["C06", "C18"],
        K::Ext(_) => &["C07"],
        K::Indirect => &["C08"],
        K::DirLeaf(_) => &["C10", "C11"],
        K::DirRoot(_) | K::DirInner(_) => &["C11"],
        K::Data => &["C09", "C13"],
        K::JSuper | K::JDesc | K::JRevoke | K::JCommit | K::JData => &["C15"],
    }
}

fn pick_region(r: &mut Rng, case: &Case, want: &dyn Fn(K) -> bool) -> Option<Region> {
    let v: Vec<&Region> = case.mk.regions.iter().filter(|x| want(x.kind)).collect();
    if v.is_empty() {
        return None;
    }
    // Prefer small kinds so that rare structures get their share.
    if r.chance(1, 2) {
        let mut ks: Vec<std::mem::Discriminant<K>> = vec![];
        for x in &v {
            let d = std::mem::discriminant(&x.kind);
            if !ks.contains(&d) {
                ks.push(d);
            }
        }
        let d = *r.pick(&ks);
        let w: Vec<&&Region> = v.iter().filter(|x| std::mem::discriminant(&x.kind) == d).collect();
        return Some((**r.pick(&w)).clone());
    }
    Some((*r.pick(&v)).clone())
}

fn owner(k: K) -> Option<u32> {
    match k {
        K::Inode(n) | K::Ext(n) | K::DirLeaf(n) | K::DirRoot(n) | K::DirInner(n) => Some(n),
        _ => None,
    }
}

fn mutate(r: &mut Rng, c: &mut Ctx, prof: Profile, want: &dyn Fn(K) -> bool) {
    let mut case = make(r, prof);
    if case.mk.exhausted {
        return;
    }
    let base = case.mk.img.clone();
    let what = label(&case, prof);
    for _ in 0..6 {
        case.mk.img = base.clone();
        let mut desc = what.clone();
        let mut tags: Vec<&'static str> = vec![];
        let mut owners = vec![];
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            // Directories change as much by their inodes as by their blocks.
            let of_dir = matches!(prof, Profile::Dirs | Profile::Htree) && r.chance(1, 5);
            let rg = if of_dir {
                let mut of = case.mk.regions.clone();
                of.retain(|x| matches!(x.kind, K::Inode(_)) && le16(&case.mk.img.get(x.off, 2), 0) & 0xf000 == 0x4000);
                (!of.is_empty()).then(|| r.pick(&of).clone())
            } else {
                pick_region(r, &case, want)
            };
            let Some(rg) = rg else { return };
            let m = mutate_region(r, &mut case.mk, &rg);
            let fix = r.chance(7, 10);
            if fix {
                if let K::Inode(n) = rg.kind {
                    // The generation may have changed.
                    let g = case.mk.img.le32(rg.off + 0x64);
                    if let Some(i) = case.mk.inodes.get_mut(&n) {
                        i.gen = g;
                    }
                }
                case.mk.fix(&rg);
            } else if case.mk.p.csum {
                tags.push("C05");
            }
            desc = format!("{desc}, {m}{}", if fix { "" } else { " (checksum left)" });
            tags.extend(kind_tags(rg.kind));
            if m.contains(": hash version ") {
                tags.push("C12");
            }
            if let Some(n) = owner(rg.kind) {
                owners.push(n);
            }
        }
        if case.mk.p.huge {
            case.mk.img.len = base.len;
        }
        let mut ops = vec![];
        for (p, ino, k) in &case.objs {
            if owners.contains(ino) {
                ops.push(Op::Stat(p.clone()));
                ops.push(Op::Read(p.clone()));
                ops.push(Op::Open(p.clone(), r.next()));
                ops.push(Op::List(p.clone()));
                ops.push(Op::Link(p.clone()));
                if *k == 0x4000 {
                    let pre = |x: &Vec<u8>| x.len() > p.len() && x.starts_with(p) && (p == b"/" || x[p.len()] == b'/');
                    let kids: Vec<_> = case.objs.iter().filter(|x| pre(&x.0)).collect();
                    for _ in 0..kids.len().min(40) {
                        ops.push(Op::LStat(r.pick(&kids).0.clone()));
                    }
                    let mut q = p.clone();
                    q.extend(b"/no-such-name");
                    ops.push(Op::Exists(q));
                    let mut q = p.clone();
                    q.extend(b"/..");
                    ops.push(Op::Canon(q));
                }
            }
        }
        ops.extend(all_ops(r, &case, 15));
        for _ in 0..6 {
            let p = junk_path(r, &case);
            ops.push(some_op(r, p));
        }
        compare(c, &case, &ops, &tags, &desc, true);
        for n in owners {
            if let Some(rg) = case.mk.regions.iter().find(|x| x.kind == K::Inode(n)) {
                let mut b = [0; 4];
                base.read(rg.off + 0x64, &mut b);
                if let Some(i) = case.mk.inodes.get_mut(&n) {
                    i.gen = u32::from_le_bytes(b);
                }
            }
        }
        if !c.fails.is_empty() {
            return;
        }
    }
}

/// Every covered byte of every checksummed structure: a changed byte must
/// make the structure unusable.
fn csum(r: &mut Rng, c: &mut Ctx) {
    let prof = *r.pick(&[Profile::General, Profile::Extents, Profile::Htree, Profile::Dirs]);
    let mut p = Params::random(r);
    p.csum = true;
    if matches!(prof, Profile::Htree | Profile::Dirs) {
        p.total_blocks += 2000;
        p.ipg = 512;
    }
    let mut case = make_with(r, prof, p);
    if case.mk.exhausted {
        return;
    }
    let what = label(&case, prof);
    check_model(c, &case, &what, &["C05"]);
    if !c.fails.is_empty() {
        return;
    }
    let base = case.mk.img.clone();
    let bs = case.mk.bs;
    for _ in 0..30 {
        let Some(rg) = pick_region(r, &case, &|k| !matches!(k, K::Data | K::Indirect)) else { return };
        case.mk.img = base.clone();
        let d = base.get(rg.off, rg.len);
        // Bytes the checksum covers (its own field included).
        let covered: Vec<(usize, usize)> = match rg.kind {
            K::Super => vec![(0, 1024)],
            K::Bgd(_) => vec![(0, rg.len)],
            K::Inode(_) => vec![(0, rg.len)],
            K::Ext(_) => vec![(0, 16 + usize::from(le16(&d, 4)) * 12)],
            // The last 12 bytes hold the checksum record.
            K::DirLeaf(_) => vec![(0, bs - 12), (bs - 4, bs)],
            K::DirRoot(_) => vec![(0, 0x20 + usize::from(le16(&d, 0x22)) * 8), (bs - 8, bs)],
            K::DirInner(_) => vec![(0, 8 + usize::from(le16(&d, 10)) * 8), (bs - 8, bs)],
            _ => continue,
        };
        let (a, z) = *r.pick(&covered);
        let k = a + r.below((z - a) as u64) as usize;
        let mut x = d.clone();
        let mut how = format!("bit flipped at {k:#x}");
        if r.chance(1, 4) {
            // The checksum field itself, as something that never had one.
            let (at, n) = match rg.kind {
                K::Super => (0x3fc, 4),
                K::Bgd(_) => (0x1e, 2),
                K::Inode(_) => (if rg.len > 128 { *r.pick(&[0x7c, 0x82]) } else { 0x7c }, 2),
                K::Ext(_) => (12 + usize::from(le16(&d, 4)) * 12, 4),
                _ => (bs - 4, 4),
            };
            let v = *r.pick(&[0, 0xff]);
            x[at..at + n].fill(v);
            if x == d {
                continue;
            }
            how = format!("checksum at {at:#x} set to {v:#x}");
        } else {
            x[k] ^= 1 << r.below(8);
        }
        if rg.kind == K::Super && x[0x65] & 4 == 0 {
            // The bit that turns checksums on.
            continue;
        }
        case.mk.img.write(rg.off, &x);
        let desc = format!("{what}, {how} of {:?}", rg.kind);
        let img = Rc::new(case.mk.img.clone());
        now(c, desc.clone());
        let (_s, l) = open_lib(&img);
        let fs = match (l, rg.kind) {
            (Err(m), _) => {
                c.fail(&["C01", "C05"], format!("{desc}: loading panics: {m}"));
                return;
            }
            (Ok(Err(_)), K::Super | K::Bgd(_)) => {
                c.seen(&format!("{desc}: load refused"));
                continue;
            }
            (Ok(Ok(_)), K::Super | K::Bgd(_)) => {
                c.fail(&["C05"], format!("{desc}: load accepts it"));
                return;
            }
            (Ok(Err(e)), _) => {
                c.fail(&["C05", "C04"], format!("{desc}: load fails with {e:?}"));
                return;
            }
            (Ok(Ok(f)), _) => f,
        };
        // The object must not be usable.
        let n = owner(rg.kind).unwrap();
        let Some((p, _, kind)) = case.objs.iter().find(|o| o.1 == n) else { continue };
        if p.len() > 4000 {
            continue;
        }
        let op = match (rg.kind, kind) {
            (K::Inode(_), _) => Op::LStat(p.clone()),
            (_, 0x4000) => Op::List(p.clone()),
            (_, 0xa000) => Op::Link(p.clone()),
            _ => Op::Read(p.clone()),
        };
        // A directory entry type or node outside of the file's blocks is not
        // read at all; a checksum of 16 bits may match by chance.
        let used = match rg.kind {
            K::Ext(_) | K::Inode(_) => {
                let rfs = RFs::load(&img);
                match rfs {
                    Ok(f) => rf(&f, &op).is_err(),
                    Err(_) => true,
                }
            }
            _ => true,
        };
        if !used {
            continue;
        }
        match guard(|| lib(&fs, &op)) {
            Err(m) => c.fail(&["C01", "C05"], format!("{desc}: {op:?} panics: {m}")),
            Ok(Ok(Val::List(_, Some(_)))) | Ok(Err(E::Corrupt)) => c.seen(&desc),
            // A changed path to the object (its parent is itself) may hide it.
            Ok(g) => c.fail(&["C05"], format!("{desc}: {} gives {}", show_op(&op), show_out(&g))),
        }
        if !c.fails.is_empty() {
            return;
        }
    }
}

fn journal(r: &mut Rng, c: &mut Ctx, mutated: bool) {
    let prof = *r.pick(&[Profile::General, Profile::Extents, Profile::Maps, Profile::Dirs, Profile::Htree, Profile::Links]);
    let mut p = Params::random(r);
    p.huge &= r.chance(1, 2);
    p.jblocks = r.range(60, 260);
    p.total_blocks += 800;
    if matches!(prof, Profile::Htree | Profile::Dirs) {
        p.total_blocks += 2000;
        p.ipg = 512;
    }
    let mut case = make_with(r, prof, p);
    if case.mk.exhausted {
        return;
    }
    let jd = jr::build(&mut case, r);
    let what = format!("{}, {jd}", label(&case, prof));
    now(c, what.clone());
    if !mutated {
        check_model(c, &case, &what, &["C15"]);
        if !c.fails.is_empty() {
            return;
        }
        let ops = all_ops(r, &case, 60);
        compare(c, &case, &ops, &["C15"], &what, false);
        return;
    }
    let base = case.mk.img.clone();
    for _ in 0..6 {
        case.mk.img = base.clone();
        let isj = |k: K| matches!(k, K::JSuper | K::JDesc | K::JRevoke | K::JCommit | K::JData | K::Inode(8));
        let mut desc = what.clone();
        let mut tags = vec!["C15"];
        for _ in 0..*r.pick(&[1, 1, 1, 2]) {
            let Some(rg) = pick_region(r, &case, &isj) else { return };
            let m = mutate_region(r, &mut case.mk, &rg);
            let fix = r.chance(7, 10);
            if !fix && r.chance(1, 4) {
                let (at, n) = match rg.kind {
                    K::JSuper => (0xfc, 4),
                    K::JCommit => (16, 4),
                    _ => (rg.len - 4, 4),
                };
                case.mk.img.write(rg.off + at as u64, &vec![0; n]);
            }
            if fix {
                case.mk.fix(&rg);
            } else {
                tags.push("C05");
            }
            desc = format!("{desc}, {m}{}", if fix { "" } else { " (checksum left)" });
        }
        let ops = all_ops(r, &case, 40);
        compare(c, &case, &ops, &tags, &desc, true);
        if !c.fails.is_empty() {
            return;
        }
    }
}

/// Many files and directories read in turns.
fn interleave(r: &mut Rng, c: &mut Ctx) {
    use std::io::{Read, Seek, SeekFrom};
    let prof = *r.pick(&[Profile::General, Profile::Extents, Profile::Maps]);
    let case = make(r, prof);
    if case.mk.exhausted {
        return;
    }
    let what = label(&case, prof);
    now(c, what.clone());
    let img = Rc::new(case.mk.img.clone());
    let (_s, l) = open_lib(&img);
    let Ok(Ok(fs)) = l else {
        c.fail(&["C03", "C04"], format!("{what}: a valid image is refused"));
        return;
    };
    let files: Vec<&(Vec<u8>, Vec<u8>)> = case.contents.iter().filter(|x| x.0.len() <= 4096).collect();
    if files.is_empty() {
        return;
    }
    let x = guard(|| {
        let mut open = vec![];
        for _ in 0..r.range(2, 12) {
            let f = *r.pick(&files);
            match fs.open(f.0.as_slice()) {
                Ok(h) => open.push((h, f, 0usize)),
                Err(e) => return Some(format!("opening {} fails: {e}", show(&f.0))),
            }
        }
        let bs = case.mk.bs;
        for _ in 0..150 {
            match r.below(12) {
                0 => {
                    let (p, _, k) = r.pick(&case.objs);
                    if p.len() <= 4096 {
                        let op = if *k == 0x4000 { Op::List(p.clone()) } else { Op::LStat(p.clone()) };
                        if let Err(e) = lib(&fs, &op) {
                            return Some(format!("{op:?} fails: {e:?}"));
                        }
                    }
                }
                1 => {
                    let f = *r.pick(&files);
                    if lib(&fs, &Op::Read(f.0.clone())) != Ok(Val::Bytes(f.1.clone())) {
                        return Some(format!("contents of {} are wrong", show(&f.0)));
                    }
                }
                _ => {
                    let k = r.below(open.len() as u64) as usize;
                    let (h, f, pos) = &mut open[k];
                    if r.chance(1, 2) {
                        let t = r.below(f.1.len() as u64 + bs as u64);
                        if h.seek(SeekFrom::Start(t)).is_err() {
                            return Some(format!("seek to {t} in {} fails", show(&f.0)));
                        }
                        *pos = t as usize;
                    }
                    let n = r.below(bs as u64 * 2 + 1) as usize;
                    let mut b = vec![0x77; n];
                    let full = r.chance(1, 4) && *pos + n <= f.1.len();
                    let got = if full { h.read_exact(&mut b).map(|()| n) } else { h.read(&mut b) };
                    let end = f.1.len().max(*pos);
                    match got {
                        Err(e) => return Some(format!("reading {} at {pos} fails: {e}", show(&f.0))),
                        Ok(k) => {
                            if k > end - *pos || (k == 0 && n > 0 && *pos < f.1.len()) {
                                return Some(format!("reading {n} bytes of {} at {pos} returned {k}", show(&f.0)));
                            }
                            if k > 0 && b[..k] != f.1[*pos..*pos + k] {
                                return Some(format!("wrong bytes of {} at {pos}", show(&f.0)));
                            }
                            *pos += k;
                        }
                    }
                }
            }
        }
        None
    });
    match x {
        Err(m) => c.fail(&["C01", "C03"], format!("{what}: panic: {m}")),
        Ok(Some(m)) => c.fail(&["C03", "C09"], format!("{what}: {m}")),
        Ok(None) => c.seen(&format!("{what}: interleaved reads of {} files", files.len())),
    }
}

/// Storage failures at chosen reads.
/// A sparse file of more than 4 GiB.
fn large(r: &mut Rng, c: &mut Ctx) {
    let mut p = Params::random(r);
    p.log_bs = *r.pick(&[5, 6]);
    p.big = true;
    p.huge |= p.is64 && r.chance(1, 3);
    p.ngroups = p.ngroups.min(3);
    let case = make_with(r, Profile::Links, p);
    if case.mk.exhausted {
        return;
    }
    let what = label(&case, Profile::Links);
    now(c, what.clone());
    let mut ops = vec![Op::LStat(b"/BIG".to_vec())];
    for _ in 0..4 {
        ops.push(Op::Open(b"/BIG".to_vec(), r.next()));
    }
    if case.mk.p.huge {
        ops.push(Op::LStat(b"/LONG".to_vec()));
        for _ in 0..3 {
            ops.push(Op::Open(b"/LONG".to_vec(), r.next()));
        }
    }
    compare(c, &case, &ops, &["C07", "C09"], &format!("{what}, a file of more than 4 GiB"), false);
}

fn fault(r: &mut Rng, c: &mut Ctx) {
    let prof = *r.pick(&[Profile::General, Profile::Extents, Profile::Maps, Profile::Dirs, Profile::Htree, Profile::Links]);
    let mut case = if r.chance(1, 5) {
        let mut p = Params::random(r);
        p.jblocks = r.range(60, 120);
        p.total_blocks += 800;
        let mut k = make_with(r, prof, p);
        if !k.mk.exhausted {
            jr::build(&mut k, r);
        }
        k
    } else {
        make(r, prof)
    };
    if case.mk.exhausted {
        return;
    }
    case.objs.retain(|x| x.0.len() < 4000);
    let what = label(&case, prof);
    now(c, what.clone());
    let img = Rc::new(case.mk.img.clone());
    let load = |fail: u64, n: u64| {
        let sh = Rc::new(Shared::default());
        sh.fail_from.set(fail);
        sh.fail_to.set(fail.saturating_add(n));
        let rd = Rd { img: img.clone(), sh: sh.clone() };
        let x = guard(|| Ext4::load(Box::new(rd)).map_err(|e| class(&e)));
        (sh, x)
    };
    let (sh, x) = load(u64::MAX, 0);
    let Ok(Ok(fs)) = x else {
        c.fail(&["C16", "C04"], format!("{what}: a valid image is refused"));
        return;
    };
    let nload = sh.count.get();
    // Loading with a failing read.
    for _ in 0..4 {
        let k = r.below(nload);
        let (s2, x) = load(k, if r.chance(1, 2) { 1 } else { 1 << 40 });
        match x {
            Err(m) => c.fail(&["C01", "C16"], format!("{what}: load panics when read {k} fails: {m}")),
            Ok(x) => {
                if s2.failed.get() && x.as_ref().err() != Some(&E::Io) {
                    c.fail(&["C16"], format!("{what}: load gives {:?} although read {k} failed", x.map(|_| "a filesystem")));
                } else {
                    c.seen(&format!("{what}: load fails at read {k}"));
                }
            }
        }
    }
    // Operations with a failing read.
    let mut ops = all_ops(r, &case, 30);
    ops.retain(|o| !matches!(o, Op::Open(..)));
    r.shuffle(&mut ops);
    ops.truncate(6);
    for op in &ops {
        now(c, format!("{what}: {op:?} with failing reads"));
        let before = sh.count.get();
        let want = match guard(|| lib(&fs, op)) {
            Ok(w) => w,
            Err(m) => {
                c.fail(&["C01"], format!("{what}: {op:?} panics: {m}"));
                return;
            }
        };
        let n = sh.count.get() - before;
        for _ in 0..6 {
            // A fresh filesystem (cold cache), or the same one.
            let fresh = load(u64::MAX, 0);
            let (s2, f2) = (fresh.0, fresh.1.unwrap().unwrap());
            let k = s2.count.get() + r.below(n + 2);
            s2.fail_from.set(k);
            s2.fail_to.set(if r.chance(1, 2) { k + 1 } else { u64::MAX });
            match guard(|| lib(&f2, op)) {
                Err(m) => c.fail(&["C01", "C16"], format!("{what}: {op:?} panics when a read fails: {m}")),
                Ok(g) => {
                    if s2.failed.get() {
                        if g == Ok(Val::Bytes(CONTINUED.to_vec())) {
                            c.fail(&["C02", "C10", "C16", "C17"], format!("{what}: {} goes on after a failed read ended it", show_op(op)));
                        } else if !has_io(&g) {
                            c.fail(&["C16", "C17"], format!("{what}: {} gives {} although a read failed", show_op(op), show_out(&g)));
                        }
                    } else if g != want {
                        c.fail(&["C16", "C03"], format!("{what}: {} gives {} then {}", show_op(op), show_out(&want), show_out(&g)));
                    }
                }
            }
            // Afterwards everything works again.
            s2.fail_from.set(u64::MAX);
            s2.fail_to.set(0);
            match guard(|| lib(&f2, op)) {
                Ok(g) if g == want => c.seen(&format!("{what}: {} with read {k} failing", show_op(op))),
                Ok(g) => c.fail(&["C16", "C03"], format!("{what}: after a failed read {} gives {}, expected {}", show_op(op), show_out(&g), show_out(&want))),
                Err(m) => c.fail(&["C01", "C16"], format!("{what}: {op:?} panics after a failed read: {m}")),
            }
            if !c.fails.is_empty() {
                return;
            }
        }
    }
    // A File whose reads fail now and then.
    let files: Vec<&(Vec<u8>, Vec<u8>)> = case.contents.iter().filter(|x| x.0.len() < 4000 && !x.1.is_empty()).collect();
    if !files.is_empty() {
        for _ in 0..4 {
            let f = *r.pick(&files);
            let bs = case.mk.bs as u64;
            let x = guard(|| {
                let Ok(mut h) = fs.open(f.0.as_slice()) else { return Some("open fails".to_string()) };
                let mut pos = 0usize;
                let mut broken = false;
                for _ in 0..30 {
                    let n = r.range(1, 2 * bs) as usize;
                    let mut b = vec![0; n];
                    let failing = r.chance(1, 3);
                    sh.failed.set(false);
                    if failing {
                        sh.fail_from.set(sh.count.get());
                        sh.fail_to.set(u64::MAX);
                    }
                    let got = h.read_bytes(&mut b).map_err(|e| class(&e));
                    let hit = sh.failed.get();
                    sh.fail_from.set(u64::MAX);
                    sh.fail_to.set(0);
                    match got {
                        // The same read again: the right bytes or another error.
                        Err(e) if (hit && e == E::Io) && r.chance(1, 2) => broken = true,
                        Err(e) if broken || (hit && e == E::Io) => {
                            let _ = e;
                            broken = false;
                            let t = r.below(f.1.len() as u64 + 1);
                            if h.seek_to(t).is_err() {
                                return Some(format!("seek to {t} after a failed read fails"));
                            }
                            pos = t as usize;
                        }
                        Err(e) => return Some(format!("read fails with {e:?}")),
                        Ok(_) if hit => return Some("read succeeds although the storage failed".into()),
                        Ok(k) => {
                            if k > n || pos + k > f.1.len() || (k == 0 && pos < f.1.len()) || b[..k] != f.1[pos..pos + k] {
                                return Some(format!("wrong bytes at {pos} after a storage failure"));
                            }
                            pos += k;
                            if k == 0 {
                                let _ = h.seek_to(0);
                                pos = 0;
                            }
                        }
                    }
                }
                None
            });
            sh.fail_from.set(u64::MAX);
            sh.fail_to.set(0);
            match x {
                Err(m) => c.fail(&["C01", "C16"], format!("{what}: {}: panic: {m}", show(&f.0))),
                Ok(Some(m)) => c.fail(&["C16", "C09", "C03"], format!("{what}: {}: {m}", show(&f.0))),
                Ok(None) => c.seen(&format!("{what}: reads of {} with failures", show(&f.0))),
            }
        }
    }
    // No read leaves the storage.
    for (o, n) in sh.log.borrow().iter() {
        if o.saturating_add(*n as u64) > img.len {
            c.fail(&["C16"], format!("{what}: reads {n} bytes at {o}, past the end at {}", img.len));
            break;
        }
    }
}

/// Names whose raw hash is the end-of-directory value under the default seed.
pub fn edge_names() -> Vec<(u8, Vec<u8>)> {
    pure::EDGE_NAMES.iter().map(|(a, n)| (*a, n.to_vec())).collect()
}

/// One name per leaf, with leaf boundaries exactly at the hashes.
fn hash(r: &mut Rng, c: &mut Ctx) {
    let mut p = Params::random(r);
    p.total_blocks += 1500;
    p.ipg = 512;
    p.huge = false;
    let edge = r.chance(1, 4);
    if edge {
        p.hash_seed = [0; 4];
    }
    let seed = p.hash_seed;
    let r2 = Rng::new(r.next());
    let mut m = Mk::new(p, r2);
    let alg = *r.pick(&[1u8, 2]);
    let bs = m.bs;
    let ino = m.new_ino();
    let mut a = m.attrs(0x8000);
    m.layout(ino, &mut a, &Layout { size: 0, runs: vec![] }, true, 0);
    m.put_inode(ino, &a);
    let mut names: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(20, 80) {
        let n = if r.chance(1, 2) { r.range(1, 40) } else { r.range(1, 255) } as usize;
        let hi = r.chance(1, 2);
        let nm: Vec<u8> = (0..n)
            .map(|_| loop {
                let b = if hi { r.next() as u8 | 0x80 } else { r.next() as u8 };
                if b != 0 && b != b'/' {
                    break b;
                }
            })
            .collect();
        if nm != b"." && nm != b".." && !names.contains(&nm) {
            names.push(nm);
        }
    }
    if edge {
        for (al, n) in edge_names() {
            if al == alg {
                names.push(n);
            }
        }
    }
    let mut v: Vec<(u32, Vec<u8>)> = names.iter().map(|n| (dirhash(alg, n, &seed), n.clone())).collect();
    v.sort();
    v.dedup_by_key(|x| x.0);
    // Leaf list: an empty leaf at 0, then for each name a leaf starting at its
    // hash and an empty one just after it.
    let mut leaves: Vec<(u32, Option<Vec<u8>>)> = vec![(0, None)];
    for (h, n) in &v {
        if *h == 0 {
            leaves[0].1 = Some(n.clone());
        } else {
            if leaves.last().unwrap().0 == *h {
                leaves.pop();
            }
            leaves.push((*h, Some(n.clone())));
        }
        leaves.push((h + 1, None));
    }
    let lim = (bs - 0x20 - 8) / 8;
    leaves.truncate(lim);
    // Build the directory by hand.
    m.inodes.insert(2, Ino { mode: 0x41ed, uid: 0, gid: 0, size: 0, flags: 0x1000, gen: 7, block: vec![0; 60] });
    let end = bs - if m.p.csum { 12 } else { 0 };
    let mut blocks: Vec<(Vec<u8>, K)> = vec![];
    let mut b = vec![0; bs];
    let dot = |b: &mut [u8], o: usize, rl: usize, n: &[u8]| {
        p32(b, o, 2);
        p16(b, o + 4, rl as u16);
        b[o + 6] = n.len() as u8;
        b[o + 7] = 2;
        b[o + 8..o + 8 + n.len()].copy_from_slice(n);
    };
    dot(&mut b, 0, 12, b".");
    dot(&mut b, 12, bs - 12, b"..");
    b[0x1c] = alg;
    b[0x1d] = 8;
    for (i, (h, _)) in leaves.iter().enumerate() {
        p32(&mut b, 0x20 + i * 8, *h);
        p32(&mut b, 0x24 + i * 8, i as u32 + 1);
    }
    p16(&mut b, 0x20, lim as u16);
    p16(&mut b, 0x22, leaves.len() as u16);
    blocks.push((b, K::DirRoot(2)));
    for (_, n) in &leaves {
        let mut b = vec![0; bs];
        p16(&mut b, 4, end as u16);
        if let Some(n) = n {
            p32(&mut b, 0, ino);
            b[6] = n.len() as u8;
            b[7] = 1;
            b[8..8 + n.len()].copy_from_slice(n);
        }
        if m.p.csum {
            p16(&mut b, end + 4, 12);
            b[end + 7] = 0xde;
        }
        blocks.push((b, K::DirLeaf(2)));
    }
    let phys = m.alloc(blocks.len() as u64, true);
    for (i, (d, k)) in blocks.iter().enumerate() {
        m.wblock(phys + i as u64, d, *k);
        let rg = m.regions.last().unwrap().clone();
        m.fix(&rg);
    }
    let mut i2 = m.inodes[&2].clone();
    i2.size = (blocks.len() * bs) as u64;
    m.extents(2, &mut i2, &[(0, phys, blocks.len() as u64, false)], 0);
    m.put_inode(2, &i2);
    m.finish();
    if m.exhausted {
        return;
    }
    let what = format!("hash image (algorithm {alg}, seed {seed:x?}, block {bs})");
    now(c, what.clone());
    let img = Rc::new(m.img.clone());
    let (_s, l) = open_lib(&img);
    let Ok(Ok(fs)) = l else {
        c.fail(&["C12", "C04"], format!("{what}: a valid image is refused"));
        return;
    };
    for (h, n) in leaves.iter().filter_map(|(h, n)| n.as_ref().map(|n| (h, n))) {
        let mut p = b"/".to_vec();
        p.extend(n);
        match guard(|| lib(&fs, &Op::Exists(p.clone()))) {
            Ok(Ok(Val::Bool(true))) => c.seen(&format!("hash {alg} {h:x} {}", show(n))),
            Ok(x) => {
                c.fail(&["C12", "C11"], format!("{what}: name {} with hash {h:#x} is not found: {}", show(n), show_out(&x)));
                return;
            }
            Err(m) => {
                c.fail(&["C12", "C11", "C01"], format!("{what}: looking up {} panics: {m}", show(n)));
                return;
            }
        }
    }
}
