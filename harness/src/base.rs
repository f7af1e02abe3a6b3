//! Random numbers, CRC32C, directory hashes, and the sparse disk image.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// Inclusive range.
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// Bytes with runs of equal ones, of zeros, or of 0xff.
    pub fn odd_bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.bytes(n);
        while n > 0 && self.chance(1, 2) {
            let a = self.below(n as u64) as usize;
            let z = if self.chance(1, 3) { n } else { self.range(a as u64, n as u64) as usize };
            let x = *self.pick(&[0, 0, 0xff, 0x80, 0x7f, 1, v[a]]);
            v[a..z].fill(x);
        }
        v
    }
    /// A number that is often at the border of something.
    pub fn odd_u32(&mut self) -> u32 {
        let x = self.next() as u32;
        match self.below(8) {
            0 => 0,
            1 => u32::MAX,
            2 => 1 << self.below(32),
            3 => (1u32 << self.below(32)).wrapping_sub(1),
            4 => x & 0xffff,
            5 => x & 0xffff_0000,
            _ => x,
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// CRC32C without final inversion, as ext4 uses it.
pub fn crc(seed: u32, data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = seed;
    for b in data {
        c = t[((c ^ u32::from(*b)) & 0xff) as usize] ^ (c >> 8);
    }
    c
}

thread_local! {
    /// Hash names as unsigned characters (only for the known-finding probe).
    pub static UNSIGNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn str2hashbuf(msg: &[u8], num: usize) -> Vec<u32> {
    let len = msg.len();
    let mut pad = (len as u32) | ((len as u32) << 8);
    pad |= pad << 16;
    let mut out = Vec::new();
    let mut val = pad;
    let n = len.min(num * 4);
    for (i, b) in msg[..n].iter().enumerate() {
        let c = if UNSIGNED.with(|u| u.get()) { u32::from(*b) } else { *b as i8 as i32 as u32 };
        val = c.wrapping_add(val << 8);
        if i % 4 == 3 {
            out.push(val);
            val = pad;
        }
    }
    if out.len() < num {
        out.push(val);
    }
    while out.len() < num {
        out.push(pad);
    }
    out
}

fn half_md4(buf: &mut [u32; 4], x: &[u32]) {
    let f = |x: u32, y: u32, z: u32| z ^ (x & (y ^ z));
    let g = |x: u32, y: u32, z: u32| (x & y).wrapping_add((x ^ y) & z);
    let h = |x: u32, y: u32, z: u32| x ^ y ^ z;
    let [mut a, mut b, mut c, mut d] = *buf;
    macro_rules! r {
        ($f:ident, $a:ident, $b:ident, $c:ident, $d:ident, $i:expr, $k:expr, $s:expr) => {
            $a = $a.wrapping_add($f($b, $c, $d)).wrapping_add(x[$i]).wrapping_add($k).rotate_left($s)
        };
    }
    let (k1, k2, k3) = (0u32, 0o13240474631u32, 0o15666365641u32);
    r!(f, a, b, c, d, 0, k1, 3);
    r!(f, d, a, b, c, 1, k1, 7);
    r!(f, c, d, a, b, 2, k1, 11);
    r!(f, b, c, d, a, 3, k1, 19);
    r!(f, a, b, c, d, 4, k1, 3);
    r!(f, d, a, b, c, 5, k1, 7);
    r!(f, c, d, a, b, 6, k1, 11);
    r!(f, b, c, d, a, 7, k1, 19);
    r!(g, a, b, c, d, 1, k2, 3);
    r!(g, d, a, b, c, 3, k2, 5);
    r!(g, c, d, a, b, 5, k2, 9);
    r!(g, b, c, d, a, 7, k2, 13);
    r!(g, a, b, c, d, 0, k2, 3);
    r!(g, d, a, b, c, 2, k2, 5);
    r!(g, c, d, a, b, 4, k2, 9);
    r!(g, b, c, d, a, 6, k2, 13);
    r!(h, a, b, c, d, 3, k3, 3);
    r!(h, d, a, b, c, 7, k3, 9);
    r!(h, c, d, a, b, 2, k3, 11);
    r!(h, b, c, d, a, 6, k3, 15);
    r!(h, a, b, c, d, 1, k3, 3);
    r!(h, d, a, b, c, 5, k3, 9);
    r!(h, c, d, a, b, 0, k3, 11);
    r!(h, b, c, d, a, 4, k3, 15);
    buf[0] = buf[0].wrapping_add(a);
    buf[1] = buf[1].wrapping_add(b);
    buf[2] = buf[2].wrapping_add(c);
    buf[3] = buf[3].wrapping_add(d);
}

fn tea(buf: &mut [u32; 4], x: &[u32]) {
    let (mut sum, mut b0, mut b1) = (0u32, buf[0], buf[1]);
    for _ in 0..16 {
        sum = sum.wrapping_add(0x9e37_79b9);
        b0 = b0.wrapping_add(
            ((b1 << 4).wrapping_add(x[0])) ^ (b1.wrapping_add(sum)) ^ ((b1 >> 5).wrapping_add(x[1])),
        );
        b1 = b1.wrapping_add(
            ((b0 << 4).wrapping_add(x[2])) ^ (b0.wrapping_add(sum)) ^ ((b0 >> 5).wrapping_add(x[3])),
        );
    }
    buf[0] = buf[0].wrapping_add(b0);
    buf[1] = buf[1].wrapping_add(b1);
}

/// Directory hash for `alg` 1 (half MD4) or 2 (TEA).
pub fn dirhash(alg: u8, name: &[u8], seed: &[u32; 4]) -> u32 {
    let mut buf = [0x6745_2301u32, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476];
    if *seed != [0; 4] {
        buf = *seed;
    }
    let step = if alg == 1 { 32 } else { 16 };
    let mut p = name;
    while !p.is_empty() {
        let w = str2hashbuf(p, step / 4);
        if alg == 1 {
            half_md4(&mut buf, &w);
        } else {
            tea(&mut buf, &w);
        }
        p = &p[step.min(p.len())..];
    }
    let h = (if alg == 1 { buf[1] } else { buf[0] }) & !1;
    if h == 0xffff_fffe { 0xffff_fffc } else { h }
}

/// Sparse image. Anything not written reads as zeros, up to `len`.
#[derive(Clone)]
pub struct Img {
    pub len: u64,
    pub chunks: BTreeMap<u64, Vec<u8>>,
}
pub const CHUNK: u64 = 1024;
impl Img {
    pub fn new() -> Self {
        Img { len: 0, chunks: BTreeMap::new() }
    }
    pub fn write(&mut self, off: u64, data: &[u8]) {
        let mut i = 0usize;
        while i < data.len() {
            let p = off + i as u64;
            let c = p / CHUNK;
            let o = (p % CHUNK) as usize;
            let n = (CHUNK as usize - o).min(data.len() - i);
            let ch = self.chunks.entry(c).or_insert_with(|| vec![0; CHUNK as usize]);
            ch[o..o + n].copy_from_slice(&data[i..i + n]);
            i += n;
        }
        self.len = self.len.max(off + data.len() as u64);
    }
    pub fn read(&self, off: u64, dst: &mut [u8]) -> bool {
        match off.checked_add(dst.len() as u64) {
            Some(e) if e <= self.len => {}
            _ => return false,
        }
        let mut i = 0usize;
        while i < dst.len() {
            let p = off + i as u64;
            let c = p / CHUNK;
            let o = (p % CHUNK) as usize;
            let n = (CHUNK as usize - o).min(dst.len() - i);
            match self.chunks.get(&c) {
                Some(ch) => dst[i..i + n].copy_from_slice(&ch[o..o + n]),
                None => dst[i..i + n].fill(0),
            }
            i += n;
        }
        true
    }
    pub fn get(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        self.read(off, &mut v);
        v
    }
    pub fn le32(&self, off: u64) -> u32 {
        let b = self.get(off, 4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    /// How many bytes are not known to be zero.
    pub fn size(&self) -> u64 {
        self.chunks.len() as u64 * CHUNK
    }
    pub fn sparse_file(&self, p: &std::path::Path) -> bool {
        use std::os::unix::fs::FileExt;
        let Ok(f) = std::fs::File::create(p) else { return false };
        for (c, d) in &self.chunks {
            let at = c * CHUNK;
            let n = CHUNK.min(self.len.saturating_sub(at)) as usize;
            if f.write_all_at(&d[..n], at).is_err() {
                return false;
            }
        }
        f.set_len(self.len).is_ok()
    }
}

pub fn le16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn le32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn p16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn p32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn pb32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
