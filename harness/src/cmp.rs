//! Running the library and comparing it with the reference reader.
use crate::base::*;
use crate::refr::*;
use ext4_view::{Ext4, Ext4Error, Ext4Read, FileType, Metadata};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Default)]
pub struct Shared {
    /// Fail the reads numbered in this half-open range.
    pub fail_from: Cell<u64>,
    pub fail_to: Cell<u64>,
    pub count: Cell<u64>,
    pub failed: Cell<bool>,
    pub log: RefCell<Vec<(u64, usize)>>,
}

pub struct Rd {
    pub img: Rc<Img>,
    pub sh: Rc<Shared>,
}
#[derive(Debug)]
pub struct RdErr;
impl std::fmt::Display for RdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "storage failure")
    }
}
impl std::error::Error for RdErr {}
impl Ext4Read for Rd {
    fn read(&mut self, off: u64, dst: &mut [u8]) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        let n = self.sh.count.get();
        self.sh.count.set(n + 1);
        if self.sh.log.borrow().len() < 100_000 {
            self.sh.log.borrow_mut().push((off, dst.len()));
        }
        if n >= self.sh.fail_from.get() && n < self.sh.fail_to.get() {
            self.sh.failed.set(true);
            // A failing read may leave anything in the buffer.
            dst.fill(0x5e);
            return Err(Box::new(RdErr));
        }
        if self.img.read(off, dst) { Ok(()) } else { Err(Box::new(RdErr)) }
    }
}

pub fn class(e: &Ext4Error) -> E {
    // Printing must not panic either.
    std::hint::black_box(format!("{e} {e:?}"));
    match e {
        Ext4Error::NotAbsolute => E::NotAbs,
        Ext4Error::NotASymlink => E::NotSymlink,
        Ext4Error::NotFound => E::NotFound,
        Ext4Error::IsADirectory => E::IsDir,
        Ext4Error::NotADirectory => E::NotDir,
        Ext4Error::IsASpecialFile => E::Special,
        Ext4Error::FileTooLarge => E::TooLarge,
        Ext4Error::NotUtf8 => E::NotUtf8,
        Ext4Error::MalformedPath => E::Malformed,
        Ext4Error::PathTooLong => E::TooLong,
        Ext4Error::TooManySymlinks => E::TooManySym,
        Ext4Error::Encrypted => E::Encrypted,
        Ext4Error::Io(_) => E::Io,
        Ext4Error::Incompatible(_) => E::Incompat,
        _ => E::Corrupt,
    }
}

pub fn ft_bits(t: FileType) -> u16 {
    let v = [
        (t.is_fifo(), 0x1000),
        (t.is_char_dev(), 0x2000),
        (t.is_dir(), 0x4000),
        (t.is_block_dev(), 0x6000),
        (t.is_regular_file(), 0x8000),
        (t.is_symlink(), 0xa000),
        (t.is_socket(), 0xc000u16),
    ];
    let mut out = 0;
    for (b, k) in v {
        if b {
            out = if out == 0 { k } else { 0xffff };
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Meta { kind: u16, mode: u16, uid: u32, gid: u32, len: u64, dir: bool, link: bool },
    Bytes(Vec<u8>),
    Bool(bool),
    /// name, type, path, metadata of each entry; then the error if any.
    List(Vec<(Vec<u8>, u16, Vec<u8>, R<(u16, u16, u64)>)>, Option<E>),
}
pub type Out = Result<Val, E>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Stat(Vec<u8>),
    LStat(Vec<u8>),
    Read(Vec<u8>),
    ReadStr(Vec<u8>),
    List(Vec<u8>),
    Link(Vec<u8>),
    Exists(Vec<u8>),
    Canon(Vec<u8>),
    /// Open, then a random sequence of reads and seeks from the given seed.
    Open(Vec<u8>, u64),
}

fn lmeta(m: &Metadata) -> Val {
    Val::Meta {
        kind: ft_bits(m.file_type()),
        mode: m.mode(),
        uid: m.uid(),
        gid: m.gid(),
        len: m.len(),
        dir: m.is_dir(),
        link: m.is_symlink(),
    }
}

pub fn lib(fs: &Ext4, op: &Op) -> Out {
    let c = |e: Ext4Error| class(&e);
    match op {
        Op::Stat(p) => fs.metadata(p.as_slice()).map(|m| lmeta(&m)).map_err(c),
        Op::LStat(p) => fs.symlink_metadata(p.as_slice()).map(|m| lmeta(&m)).map_err(c),
        Op::Read(p) => fs.read(p.as_slice()).map(Val::Bytes).map_err(c),
        Op::ReadStr(p) => fs.read_to_string(p.as_slice()).map(|s| Val::Bytes(s.into_bytes())).map_err(c),
        Op::Link(p) => fs.read_link(p.as_slice()).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(c),
        Op::Exists(p) => fs.exists(p.as_slice()).map(Val::Bool).map_err(c),
        Op::Canon(p) => fs.canonicalize(p.as_slice()).map(|p| Val::Bytes(p.as_ref().to_vec())).map_err(c),
        Op::List(p) => {
            let it = fs.read_dir(p.as_slice()).map_err(c)?;
            let mut v = vec![];
            let mut err = None;
            let mut it = it;
            loop {
                match it.next() {
                    None => break,
                    Some(Ok(e)) => v.push((
                        e.file_name().as_ref().to_vec(),
                        ft_bits(e.file_type().unwrap()),
                        e.path().as_ref().to_vec(),
                        e.metadata()
                            .map(|m| (ft_bits(m.file_type()), m.mode(), m.len()))
                            .map_err(|e| class(&e)),
                    )),
                    Some(Err(e)) => {
                        err = Some(class(&e));
                        break;
                    }
                }
            }
            // The iterator has ended and must stay ended.
            for _ in 0..2 {
                if it.next().is_some() {
                    return Ok(Val::Bytes(CONTINUED.to_vec()));
                }
            }
            Ok(Val::List(v, err))
        }
        Op::Open(..) => unreachable!(),
    }
}

fn dtype(t: u8) -> u16 {
    [0, 0x8000, 0x4000, 0x2000, 0x6000, 0x1000, 0xc000, 0xa000][usize::from(t)]
}

fn rmeta(i: &RIno) -> Val {
    Val::Meta { kind: i.kind(), mode: i.mode & 0xfff, uid: i.uid, gid: i.gid, len: i.size, dir: i.is_dir(), link: i.is_link() }
}

pub fn join(a: &[u8], b: &[u8]) -> Vec<u8> {
    if b.first() == Some(&b'/') {
        return b.to_vec();
    }
    let mut o = a.to_vec();
    if !o.is_empty() && o.last() != Some(&b'/') {
        o.push(b'/');
    }
    o.extend_from_slice(b);
    o
}

pub fn rf(fs: &RFs, op: &Op) -> Out {
    let reg = |i: &RIno| -> R<()> {
        if i.is_dir() {
            Err(E::IsDir)
        } else if !i.is_reg() {
            Err(E::Special)
        } else {
            Ok(())
        }
    };
    match op {
        Op::Stat(p) => fs.resolve(p, true).map(|x| rmeta(&x.0)),
        Op::LStat(p) => fs.resolve(p, false).map(|x| rmeta(&x.0)),
        Op::Read(p) => {
            let (i, _) = fs.resolve(p, true)?;
            reg(&i)?;
            fs.read_file(&i).map(Val::Bytes)
        }
        Op::ReadStr(p) => {
            let (i, _) = fs.resolve(p, true)?;
            reg(&i)?;
            let b = fs.read_file(&i)?;
            if std::str::from_utf8(&b).is_ok() { Ok(Val::Bytes(b)) } else { Err(E::NotUtf8) }
        }
        Op::Link(p) => {
            let (i, _) = fs.resolve(p, false)?;
            fs.link_target(&i).map(Val::Bytes)
        }
        Op::Exists(p) => match fs.resolve(p, true) {
            Ok(_) => Ok(Val::Bool(true)),
            Err(E::NotFound) => Ok(Val::Bool(false)),
            Err(e) => Err(e),
        },
        Op::Canon(p) => fs.resolve(p, true).map(|x| Val::Bytes(x.1)),
        Op::List(p) => {
            let (i, _) = fs.resolve(p, true)?;
            if !i.is_dir() {
                return Err(E::NotDir);
            }
            let (v, e) = fs.list(&i)?;
            Ok(Val::List(
                v.iter()
                    .map(|x| {
                        (
                            x.name.clone(),
                            dtype(x.ftype),
                            join(p, &x.name),
                            fs.inode(x.ino).map(|i| (i.kind(), i.mode & 0xfff, i.size)),
                        )
                    })
                    .collect(),
                e,
            ))
        }
        Op::Open(..) => unreachable!(),
    }
}

/// What a listing that goes on after its end is reported as.
pub const CONTINUED: &[u8] = b"listing continued after its end";

/// Open a file and run reads and seeks; returns a description of the first
/// disagreement.
pub fn run_open(fs: &Ext4, rfs: &RFs, p: &[u8], seed: u64, short: bool) -> Option<String> {
    use std::io::{Read, Seek, SeekFrom};
    let want = rfs.resolve(p, true).and_then(|(i, _)| {
        if i.is_dir() {
            Err(E::IsDir)
        } else if !i.is_reg() {
            Err(E::Special)
        } else {
            Ok(i)
        }
    });
    if rfs.big.get() {
        return None;
    }
    let cap = 140_000u64;
    let want = want.and_then(|i| rfs.blocks(&i, cap).map(|b| (i, b)));
    let got = fs.open(p);
    let (mut f, ino, v, e) = match (got, want) {
        (Ok(f), Ok((i, (v, e)))) => (f, i, v, e),
        (Err(x), Err(y)) if class(&x) == y => return None,
        (Err(x), _) if short && class(&x) == E::Io => return None,
        (x, y) => {
            return Some(format!("open gives {:?}, expected {:?}", x.map(|_| "a file").map_err(|e| class(&e)), y.map(|_| "a file")));
        }
    };
    if f.metadata().len() != ino.size || f.metadata().mode() != ino.mode & 0xfff {
        return Some("File::metadata is wrong".into());
    }
    let mut r = Rng::new(seed);
    let bs = rfs.bs;
    let mut pos = 0u64;
    // After a failed read the position is only known again after a seek.
    let mut bad = false;
    let edges: Vec<u64> = {
        let mut x = vec![0, 12, 12 + bs / 4, 12 + bs / 4 + bs * bs / 16, 12 + bs / 4 + bs * bs / 8];
        for i in 1..v.len() {
            if (v[i] == 0) != (v[i - 1] == 0) || (v[i] != 0 && v[i] != v[i - 1] + 1) {
                x.push(i as u64);
            }
            if x.len() > 40 {
                break;
            }
        }
        x.push(v.len() as u64);
        x
    };
    let lim = cap * bs;
    for step in 0..40 {
        if ino.size < lim && r.chance(1, 10) {
            // Positions and offsets at the ends of their ranges.
            let m = i64::MAX as u64;
            let base = *r.pick(&[m, m - 1, m + 1, u64::MAX, u64::MAX - 1, pos, ino.size]);
            let d = *r.pick(&[i64::MAX, i64::MIN, 1, -1, i64::MAX - ino.size as i64, i64::MAX - pos as i64, 1 << 62]);
            let (from, res) = match r.below(3) {
                0 => (0, f.seek(SeekFrom::Start(base)).map(|x| (x, base as i128))),
                1 => (ino.size, f.seek(SeekFrom::End(d)).map(|x| (x, ino.size as i128 + d as i128))),
                _ => match f.seek_to(base) {
                    Ok(()) => (base, f.seek(SeekFrom::Current(d)).map(|x| (x, base as i128 + d as i128))),
                    Err(_) => (0, Ok((base, base as i128))),
                },
            };
            if let Ok((x, w)) = res {
                if x as i128 != w {
                    return Some(format!("seek from {from} by {d} (or to {base}) reports {x}"));
                }
                if x >= ino.size && !short && e.is_none() && !matches!(f.read_bytes(&mut [0; 10]), Ok(0)) {
                    return Some(format!("read at {x}, past the end, does not return 0"));
                }
            }
            bad = true;
        }
        if (step > 0 && r.chance(1, 2)) || bad {
            let to = match r.below(if ino.size > 1 << 32 { 13 } else { 10 }) {
                // A whole number of 4 GiB (or 2 GiB) before the end, or from the start.
                10 => (ino.size % (1 << 32)) + r.below(9),
                11 => ((ino.size % (1 << 32)) + r.below(9)).saturating_sub(4),
                12 => (*r.pick(&[1u64 << 31, 1 << 32]) + r.below(9)).saturating_sub(4),
                // The same position, or one near it.
                8 => pos,
                9 => (pos + r.below(9)).saturating_sub(4),
                0 => ino.size.saturating_sub(r.below(2 * bs)),
                1 => ino.size + r.below(2 * bs),
                2 => r.below(ino.size + 1),
                3 => 0,
                _ => (r.pick(&edges) * bs + r.below(2 * bs)).saturating_sub(bs / 2),
            };
            if to >= lim {
                continue;
            }
            let mode = if bad { r.range(2, 4) } else { r.below(5) };
            // The position wanted, and whether seeking there is legal.
            let (res, target): (Result<(), E>, Option<u64>) = match mode {
                0 => {
                    let d = to as i64 - pos as i64;
                    let d = if r.chance(1, 10) { -(pos as i64) - 1 } else { d };
                    let t = pos as i64 + d;
                    (
                        f.seek(SeekFrom::Current(d)).map(|_| ()).map_err(|e| if e.kind() == std::io::ErrorKind::InvalidInput { E::Malformed } else { E::Io }),
                        if t < 0 { None } else { Some(t as u64) },
                    )
                }
                1 if ino.size < 1 << 40 => {
                    let d = to as i64 - ino.size as i64;
                    let d = if r.chance(1, 10) { -(ino.size as i64) - 1 } else { d };
                    let t = ino.size as i64 + d;
                    (
                        f.seek(SeekFrom::End(d)).map(|_| ()).map_err(|e| if e.kind() == std::io::ErrorKind::InvalidInput { E::Malformed } else { E::Io }),
                        if t < 0 { None } else { Some(t as u64) },
                    )
                }
                2 => match f.seek(SeekFrom::Start(to)) {
                    Ok(x) if x != to => return Some(format!("seek to {to} reports {x}")),
                    x => (x.map(|_| ()).map_err(|_| E::Io), Some(to)),
                },
                _ => (f.seek_to(to).map_err(|e| class(&e)), Some(to)),
            };
            match (res, target) {
                (Ok(()), Some(t)) => {
                    pos = t;
                    bad = false;
                    if f.position() != pos {
                        return Some(format!("position is {} after seeking to {pos}", f.position()));
                    }
                }
                (Ok(()), None) => return Some("seek before the start succeeded".into()),
                (Err(E::Malformed), None) => {}
                (Err(x), t) => {
                    let legal = t.map_or(false, |t| t.min(ino.size) / bs >= v.len() as u64 && e.is_some());
                    if !legal && !short && !bad {
                        return Some(format!("seek to {t:?} fails with {x:?} (size {}, position {pos})", ino.size));
                    }
                    continue;
                }
            }
        }
        if bad {
            let _ = f.read_bytes(&mut [0; 10]);
            continue;
        }
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => bs as usize,
            3 => (bs * 3) as usize,
            _ => r.below(bs * 2) as usize,
        };
        let mut buf = vec![0xcc; n];
        let got = if r.chance(1, 3) { f.read(&mut buf).map_err(|_| E::Io) } else { f.read_bytes(&mut buf).map_err(|e| class(&e)) };
        let bi = pos / bs;
        if bi >= cap {
            bad = true;
            continue;
        }
        let must = n > 0 && pos < ino.size;
        match got {
            Ok(k) => {
                if k > n || (k as u64) > ino.size.saturating_sub(pos) || (k == 0) == must {
                    return Some(format!("read of {n} at {pos} (size {}) returned {k}", ino.size));
                }
                if f.position() != pos + k as u64 {
                    return Some(format!("position {} after reading {k} at {pos}", f.position()));
                }
                let mut at = 0;
                while at < k {
                    let q = pos + at as u64;
                    let m = ((bs - q % bs) as usize).min(k - at);
                    let exp = match v.get((q / bs) as usize) {
                        Some(0) => vec![0; m],
                        Some(b) => match rfs.rd(*b, q % bs, m) {
                            Ok(d) => d,
                            Err(e) => return Some(format!("read at {q} succeeded, expected {e:?}")),
                        },
                        None => return Some(format!("read at {q} succeeded, expected {:?}", e.unwrap_or(E::Corrupt))),
                    };
                    if buf[at..at + m] != exp[..] {
                        return Some(format!("wrong bytes at file offset {q} (block {}, physical {:?})", q / bs, v.get((q / bs) as usize)));
                    }
                    at += m;
                }
                if buf[k..].iter().any(|b| *b != 0xcc) {
                    return Some(format!("read of {n} at {pos} returned {k} but wrote past it"));
                }
                pos += k as u64;
            }
            Err(x) => {
                let ok = must
                    && match v.get(bi as usize) {
                        Some(0) => false,
                        Some(b) => rfs.rd(*b, pos % bs, 1).is_err(),
                        None => true,
                    };
                if !ok && !(short && x == E::Io) && !(must && short) {
                    return Some(format!("read of {n} at {pos} (size {}) fails with {x:?}", ino.size));
                }
                if f.position() != pos {
                    return Some(format!("a failed read moved the position from {pos} to {}", f.position()));
                }
                bad = true;
            }
        }
    }
    None
}

thread_local! {
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        if std::env::var("HVERBOSE").is_ok() { eprintln!("{s}"); }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
}
/// Run `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn show(b: &[u8]) -> String {
    let s: String = b.escape_ascii().to_string();
    if s.len() > 120 { format!("{}...({} bytes)", &s[..120.min(s.len())], b.len()) } else { s }
}
pub fn show_out(o: &Out) -> String {
    match o {
        Ok(Val::Bytes(b)) => format!("Ok({})", show(b)),
        Ok(Val::List(v, e)) => format!(
            "Ok({} entries [{}], then {e:?})",
            v.len(),
            v.iter().take(6).map(|x| format!("{}:{:x}", show(&x.0), x.1)).collect::<Vec<_>>().join(", ")
        ),
        x => format!("{x:?}"),
    }
}
pub fn op_tags(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Stat(_) => &["C06", "C13", "C17", "C18", "C11"],
        Op::LStat(_) => &["C06", "C13", "C17", "C18", "C11"],
        Op::Read(_) => &["C09", "C17", "C03", "C13"],
        Op::ReadStr(_) => &["C09", "C17"],
        Op::List(_) => &["C10", "C17"],
        Op::Link(_) => &["C13", "C17"],
        Op::Exists(_) => &["C17", "C13", "C11"],
        Op::Canon(_) => &["C13"],
        Op::Open(..) => &["C09", "C17", "C03"],
    }
}
pub fn op_path(op: &Op) -> &[u8] {
    match op {
        Op::Stat(p) | Op::LStat(p) | Op::Read(p) | Op::ReadStr(p) | Op::List(p) | Op::Link(p) | Op::Exists(p) | Op::Canon(p) | Op::Open(p, _) => p,
    }
}
