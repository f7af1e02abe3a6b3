//! Value types: paths, names, labels, uuids, readers, errors.
use crate::base::*;
use crate::cmp::*;
use crate::refr::*;
use crate::Ctx;
use ext4_view::{Component, DirEntryName, Ext4Error, Ext4Read, Label, Path, PathBuf, Uuid};

/// (algorithm, name) pairs whose hash under the default seed would be the
/// end-of-directory value before adjustment, or one step from it.
pub const EDGE_NAMES: &[(u8, &[u8])] =
    &[(1, b"n1500be65"), (1, b"nb37835bc"), (1, b"n10a0e7322"), (2, b"n124a9d0fd"), (2, b"n1c11aa623"), (2, b"n2b34023fe")];

fn text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(250, 260),
        2 => r.range(500, 520),
        _ => r.range(1, 24),
    } as usize;
    let style = r.below(5);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => *r.pick(b"a/.b/"),
            1 => *r.pick(b"abc./"),
            2 => r.next() as u8,
            4 => *r.pick(b"'\"\\\n\t \x7f\x80\xff\x1b~.a\xc3\xa9"),
            _ => b'a',
        })
        .collect();
    if style == 2 && r.chance(1, 2) {
        v = r.odd_bytes(n);
    }
    if style == 3 && n > 3 && r.chance(1, 2) {
        let k = r.below(n as u64) as usize;
        v[k] = b'/';
    }
    if style != 2 && r.chance(1, 10) && n > 0 {
        let k = r.below(n as u64) as usize;
        v[k] = 0;
    }
    v
}

#[derive(Debug, PartialEq)]
enum C {
    Root,
    Cur,
    Parent,
    Name(Vec<u8>),
}
fn comps(p: &[u8]) -> Vec<C> {
    let mut v = vec![];
    if p.first() == Some(&b'/') {
        v.push(C::Root);
    }
    for s in p.split(|b| *b == b'/') {
        match s {
            b"" => {}
            b"." => v.push(C::Cur),
            b".." => v.push(C::Parent),
            n => v.push(C::Name(n.to_vec())),
        }
    }
    v
}
fn lcomps(p: Path<'_>) -> Vec<C> {
    p.components()
        .map(|c| match c {
            Component::RootDir => C::Root,
            Component::CurDir => C::Cur,
            Component::ParentDir => C::Parent,
            Component::Normal(n) => C::Name(n.as_ref().to_vec()),
        })
        .collect()
}

pub fn paths(r: &mut Rng, c: &mut Ctx) {
    for _ in 0..200 {
        let a = text(r);
        let b = text(r);
        let x = guard(|| -> Option<String> {
            let ok = path_ok(&a);
            let p = Path::try_from(a.as_slice());
            if p.is_ok() != ok {
                return Some(format!("Path::try_from({}) is {:?}", show(&a), p.is_ok()));
            }
            if PathBuf::try_from(a.as_slice()).is_ok() != ok || PathBuf::try_from(a.clone()).is_ok() != ok {
                return Some(format!("PathBuf::try_from({}) disagrees with Path", show(&a)));
            }
            if let Ok(s) = std::str::from_utf8(&a) {
                if Path::try_from(s).is_ok() != ok || PathBuf::try_from(s).is_ok() != ok || PathBuf::try_from(s.to_string()).is_ok() != ok {
                    return Some(format!("string constructors disagree on {s:?}"));
                }
            }
            {
                use std::os::unix::ffi::{OsStrExt, OsStringExt};
                let o = std::ffi::OsStr::from_bytes(&a);
                if Path::try_from(o).is_ok() != ok
                    || Path::try_from(std::path::Path::new(o)).is_ok() != ok
                    || PathBuf::try_from(std::ffi::OsString::from_vec(a.clone())).is_ok() != ok
                    || PathBuf::try_from(std::path::PathBuf::from(o)).is_ok() != ok
                {
                    return Some(format!("OS string constructors disagree on {}", show(&a)));
                }
            }
            let nok = name_ok(&a);
            if DirEntryName::try_from(a.as_slice()).is_ok() != nok {
                return Some(format!("DirEntryName::try_from({}) should be {nok}", show(&a)));
            }
            if let Ok(n) = DirEntryName::try_from(a.as_slice()) {
                if n.as_ref() != &a[..] || n.as_str().is_ok() != std::str::from_utf8(&a).is_ok() || n.display().to_string() != String::from_utf8_lossy(&a) {
                    return Some(format!("DirEntryName {} does not round-trip", show(&a)));
                }
            }
            if let Ok(k) = Component::normal(&a) {
                if !nok || a == b"." || a == b".." && k != b"..".as_slice() {
                    // `normal` takes any legal name.
                    if !nok {
                        return Some(format!("Component::normal({}) is accepted", show(&a)));
                    }
                }
            } else if nok {
                return Some(format!("Component::normal({}) is refused", show(&a)));
            }
            let Ok(p) = p else { return None };
            let pb = PathBuf::try_from(a.as_slice()).unwrap();
            if p.as_ref() != &a[..] || pb.as_ref() != &a[..] || pb.as_path() != p || PathBuf::from(p) != pb {
                return Some(format!("path {} changes its bytes", show(&a)));
            }
            if p.is_absolute() != (a.first() == Some(&b'/')) || pb.is_absolute() != p.is_absolute() {
                return Some(format!("is_absolute of {} is wrong", show(&a)));
            }
            {
                // Every other way to make, print or convert a path.
                use std::os::unix::ffi::OsStrExt;
                let arr4: Option<&[u8; 4]> = a.get(..4).and_then(|x| x.try_into().ok());
                if let Some(x) = arr4 {
                    let w = path_ok(&x[..]);
                    let g = Path::try_from(x);
                    let h = PathBuf::try_from(x);
                    if g.is_ok() != w || h.is_ok() != w || g.map_or(false, |g| g.as_ref() != &x[..]) || h.map_or(false, |h| h.as_ref() != &x[..]) {
                        return Some(format!("paths from the array {x:?} are wrong"));
                    }
                    let g = DirEntryName::try_from(x);
                    if g.is_ok() != name_ok(&x[..]) || g.map_or(false, |g| g.as_ref() != &x[..]) {
                        return Some(format!("a name from the array {x:?} is wrong"));
                    }
                }
                if let Ok(t) = String::from_utf8(a.clone()) {
                    let g = Path::try_from(&t);
                    let h = PathBuf::try_from(&t);
                    if g.map_or(true, |g| g.as_ref() != &a[..]) || h.map_or(true, |h| h.as_ref() != &a[..]) {
                        return Some(format!("paths from the string {t:?} are wrong"));
                    }
                    let g = DirEntryName::try_from(t.as_str());
                    if g.is_ok() != nok || g.map_or(false, |g| g.as_ref() != &a[..]) {
                        return Some(format!("a name from the string {t:?} is wrong"));
                    }
                }
                if Path::new(&a).as_ref() != &a[..] || PathBuf::new(&a).as_ref() != &a[..] || Path::try_from(&pb).map_or(true, |g| g.as_ref() != &a[..]) {
                    return Some(format!("Path::new of {} changes its bytes", show(&a)));
                }
                if <&std::path::Path>::from(p).as_os_str().as_bytes() != &a[..] || std::path::PathBuf::from(pb.clone()).as_os_str().as_bytes() != &a[..] {
                    return Some(format!("{} changes when converted to a standard path", show(&a)));
                }
                if pb.display().to_string() != String::from_utf8_lossy(&a) || pb.to_str().ok().map(str::as_bytes) != std::str::from_utf8(&a).ok().map(str::as_bytes) {
                    return Some(format!("PathBuf {} prints as {}", show(&a), pb.display()));
                }
                for (g, w) in pb.components().zip(comps(&a)) {
                    let (w, d): (Vec<u8>, String) = match w {
                        C::Root => (b"/".to_vec(), "RootDir".into()),
                        C::Cur => (b".".to_vec(), "CurDir".into()),
                        C::Parent => (b"..".to_vec(), "ParentDir".into()),
                        C::Name(n) => (n.clone(), format!("Normal({})", debug_str(&n))),
                    };
                    if g != w || g == b"/..".to_vec() || (w != b"." && g == b".") || format!("{g:?}") != d {
                        return Some(format!("component {} of {} is {g:?}", show(&w), show(&a)));
                    }
                }
                if pb.components().count() != comps(&a).len() {
                    return Some(format!("number of components of {} is wrong", show(&a)));
                }
                if p == b.as_slice() && a != b || pb == b && a != b || p != a || pb != a {
                    return Some(format!("comparing {} and {} is wrong", show(&a), show(&b)));
                }
            }
            if lcomps(p) != comps(&a) || lcomps(pb.as_path()) != comps(&a) {
                return Some(format!("components of {} are {:?}", show(&a), lcomps(p)));
            }
            if p.to_str().ok().map(str::as_bytes) != std::str::from_utf8(&a).ok().map(str::as_bytes) {
                return Some(format!("to_str of {} is wrong", show(&a)));
            }
            if p.display().to_string() != String::from_utf8_lossy(&a) {
                return Some(format!("display of {} is wrong", show(&a)));
            }
            if !path_ok(&b) {
                return None;
            }
            let want = join(&a, &b);
            let mut q = pb.clone();
            q.push(b.as_slice());
            for (n, g) in [("Path::join", p.join(b.as_slice())), ("PathBuf::join", pb.join(b.as_slice())), ("PathBuf::push", q)] {
                if g.as_ref() != &want[..] {
                    return Some(format!("{n} of {} and {} is {}", show(&a), show(&b), show(g.as_ref())));
                }
                if !path_ok(g.as_ref()) {
                    return Some(format!("{n} of {} and {} is not a valid path", show(&a), show(&b)));
                }
            }
            None
        });
        match x {
            Err(m) => c.fail(&["C01", "C14"], format!("path functions panic on {} and {}: {m}", show(&a), show(&b))),
            Ok(Some(m)) => c.fail(&["C14"], m),
            Ok(None) => c.seen(&format!("paths {} {}", show(&a), show(&b))),
        }
        if !c.fails.is_empty() {
            return;
        }
    }
}

fn debug_str(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("\"{}\"", s.escape_debug()),
        Err(_) => {
            let mut o = String::from("\"");
            for x in b {
                match x {
                    b'\t' => o.push_str("\\t"),
                    b'\n' => o.push_str("\\n"),
                    b'\r' => o.push_str("\\r"),
                    b'\\' | b'\'' | b'"' => {
                        o.push('\\');
                        o.push(char::from(*x));
                    }
                    0x20..=0x7e => o.push(char::from(*x)),
                    _ => o.push_str(&format!("\\x{x:02x}")),
                }
            }
            o.push('"');
            o
        }
    }
}

pub fn display(r: &mut Rng, c: &mut Ctx) {
    for _ in 0..300 {
        let b16 = r.odd_bytes(16);
        let mut l: [u8; 16] = b16.clone().try_into().unwrap();
        if r.chance(2, 3) {
            let ascii = r.chance(1, 2);
            for x in &mut l {
                if ascii {
                    *x = *r.pick(b"abcXYZ\n\"\\'0 ");
                }
            }
            if r.chance(1, 3) {
                let s = "\u{e9}\u{1f600}a\u{301}".as_bytes();
                l[..s.len()].copy_from_slice(s);
            }
            if r.chance(2, 3) {
                l[r.below(16) as usize] = 0;
            }
        }
        let x = guard(|| -> Option<String> {
            let t = Label::new(l);
            let n = l.iter().position(|b| *b == 0).unwrap_or(16);
            if t.as_bytes() != &l || t.to_str().ok().map(str::as_bytes) != std::str::from_utf8(&l[..n]).ok().map(str::as_bytes) {
                return Some(format!("label {l:x?} decodes to {:?}", t.to_str()));
            }
            if t.display().to_string() != String::from_utf8_lossy(&l[..n]) || format!("{t:?}") != debug_str(&l[..n]) {
                return Some(format!("label {l:x?} prints as {} / {t:?}", t.display()));
            }
            let u = Uuid::new(b16.clone().try_into().unwrap());
            let mut w = String::new();
            for (i, b) in b16.iter().enumerate() {
                if [4, 6, 8, 10].contains(&i) {
                    w.push('-');
                }
                w.push(char::from_digit(u32::from(b >> 4), 16).unwrap());
                w.push(char::from_digit(u32::from(b & 15), 16).unwrap());
            }
            if u.to_string() != w || format!("{u:?}") != w || u.as_bytes() != &b16[..] {
                return Some(format!("uuid {b16:x?} prints as {u} / {u:?}"));
            }
            let mut s = text(r);
            if r.chance(1, 3) {
                s = "x\u{e9}\u{1f600}\t'\"\\".as_bytes().to_vec();
            }
            if path_ok(&s) {
                let p = Path::try_from(s.as_slice()).unwrap();
                if format!("{p:?}") != debug_str(&s) || format!("{:?}", PathBuf::from(p)) != debug_str(&s) {
                    return Some(format!("path {} prints as {p:?}", show(&s)));
                }
            }
            if name_ok(&s) {
                let p = DirEntryName::try_from(s.as_slice()).unwrap();
                if format!("{p:?}") != debug_str(&s) || p.display().to_string() != String::from_utf8_lossy(&s) {
                    return Some(format!("name {} prints as {p:?}", show(&s)));
                }
            }
            None
        });
        match x {
            Err(m) => c.fail(&["C01", "C18"], format!("display functions panic: {m}")),
            Ok(Some(m)) => c.fail(&["C18"], m),
            Ok(None) => c.seen(&format!("display {l:x?}")),
        }
        if !c.fails.is_empty() {
            return;
        }
    }
}

pub fn reader(r: &mut Rng, c: &mut Ctx) {
    // The in-memory reader.
    for _ in 0..300 {
        let n = *r.pick(&[0u64, 1, 2, 10, 64, 100]);
        let data = r.bytes(n as usize);
        let off = match r.below(5) {
            0 => n,
            1 => n + 1,
            2 => u64::MAX - r.below(12),
            _ => r.below(n + 3),
        };
        let len = match r.below(4) {
            0 => n,
            1 => n + 1,
            _ => r.below(n + 3),
        } as usize;
        let mut v = data.clone();
        let mut b = vec![0x9a; len];
        let x = guard(|| v.read(off, &mut b).is_ok());
        let fits = u128::from(off) + len as u128 <= u128::from(n);
        match x {
            Err(m) => c.fail(&["C01", "C16"], format!("reading {len} bytes at {off} of a {n} byte vector panics: {m}")),
            Ok(ok) => {
                if ok != fits || (ok && b[..] != data[off as usize..off as usize + len]) {
                    c.fail(&["C16"], format!("reading {len} bytes at {off} of a {n} byte vector: {ok}"));
                } else {
                    c.seen(&format!("vec {n} {off} {len}"));
                }
            }
        }
    }
    // A file.
    let dir = std::env::temp_dir().join(format!("vxh-{}-{:x}", std::process::id(), r.next()));
    let n = r.below(300);
    let data = r.bytes(n as usize);
    if std::fs::write(&dir, &data).is_ok() {
        if let Ok(mut f) = std::fs::File::open(&dir) {
            for _ in 0..40 {
                let off = match r.below(5) {
                    0 => n,
                    1 => i64::MAX as u64 - r.below(40),
                    2 => u64::MAX - r.below(5),
                    _ => r.below(n + 3),
                };
                let len = r.below(n + 3) as usize;
                let mut b = vec![0; len];
                let fits = u128::from(off) + len as u128 <= u128::from(n);
                match guard(|| Ext4Read::read(&mut f, off, &mut b).is_ok()) {
                    Err(m) => c.fail(&["C01", "C16"], format!("reading {len} bytes at {off} of a {n} byte file panics: {m}")),
                    Ok(ok) => {
                        let free = len == 0 && !fits;
                        if !free && (ok != fits || (ok && b[..] != data[off as usize..off as usize + len])) {
                            c.fail(&["C16"], format!("reading {len} bytes at {off} of a {n} byte file: {ok}"));
                        } else {
                            c.seen(&format!("file {n} {off} {len}"));
                        }
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_file(&dir);
    // Error conversion.
    use std::io::ErrorKind as K;
    let all: Vec<(Ext4Error, K)> = vec![
        (Ext4Error::NotAbsolute, K::InvalidInput),
        (Ext4Error::NotASymlink, K::InvalidInput),
        (Ext4Error::NotFound, K::NotFound),
        (Ext4Error::IsADirectory, K::IsADirectory),
        (Ext4Error::NotADirectory, K::NotADirectory),
        (Ext4Error::IsASpecialFile, K::InvalidInput),
        (Ext4Error::FileTooLarge, K::FileTooLarge),
        (Ext4Error::NotUtf8, K::InvalidData),
        (Ext4Error::MalformedPath, K::InvalidInput),
        (Ext4Error::PathTooLong, K::Other),
        (Ext4Error::TooManySymlinks, K::Other),
        (Ext4Error::Encrypted, K::PermissionDenied),
        (Ext4Error::Io(Box::new(RdErr)), K::Other),
    ];
    for (e, k) in all {
        let s = format!("{e:?}");
        let io = matches!(e, Ext4Error::Io(_));
        if e.as_io().is_some() != io {
            c.fail(&["C16"], format!("as_io of {s} is wrong"));
        }
        let x: std::io::Error = e.into();
        if x.kind() != k {
            c.fail(&["C16", "C17"], format!("{s} converts to kind {:?}", x.kind()));
        }
        if io && x.get_ref().map(|i| i.to_string()) != Some("storage failure".into()) {
            c.fail(&["C16"], "the storage error is lost in the conversion".into());
        }
    }
}
