//! Independent zlib/inflate decoder (after the public description of the
//! format in RFC 1950/1951), used only as an oracle.
pub struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    buf: u32,
    cnt: u32,
}
type R<T> = Result<T, ()>;

impl Bits<'_> {
    fn bits(&mut self, n: u32) -> R<u32> {
        while self.cnt < n {
            let b = *self.d.get(self.pos).ok_or(())?;
            self.pos += 1;
            self.buf |= (b as u32) << self.cnt;
            self.cnt += 8;
        }
        let v = self.buf & ((1u32 << n) - 1);
        self.buf >>= n;
        self.cnt -= n;
        Ok(v)
    }
}

struct Huff {
    count: [u16; 16],
    symbol: Vec<u16>,
}

impl Huff {
    /// Err for over-subscribed sets; returns the left-over space otherwise
    fn new(len: &[u8]) -> R<(Huff, i32)> {
        let mut count = [0u16; 16];
        for &l in len {
            count[l as usize] += 1;
        }
        let mut left = 1i32;
        for &c in &count[1..] {
            left = (left << 1) - c as i32;
            if left < 0 {
                return Err(());
            }
        }
        let mut offs = [0u16; 16];
        for i in 1..15 {
            offs[i + 1] = offs[i] + count[i];
        }
        let mut symbol = vec![0u16; len.len()];
        for (s, &l) in len.iter().enumerate() {
            if l != 0 {
                symbol[offs[l as usize] as usize] = s as u16;
                offs[l as usize] += 1;
            }
        }
        Ok((Huff { count, symbol }, left))
    }
    fn decode(&self, b: &mut Bits<'_>) -> R<u16> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16 {
            code |= b.bits(1)? as i32;
            let c = self.count[l] as i32;
            if code - c < first {
                return Ok(self.symbol[(index + code - first) as usize]);
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err(())
    }
}

const LBASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEXT: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
const DEXT: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

fn codes(b: &mut Bits<'_>, out: &mut Vec<u8>, max: usize, l: &Huff, d: &Huff) -> R<()> {
    loop {
        let sym = l.decode(b)?;
        if sym < 256 {
            out.push(sym as u8);
        } else if sym == 256 {
            return Ok(());
        } else {
            let i = sym as usize - 257;
            if i >= 29 {
                return Err(());
            }
            let len = LBASE[i] as usize + b.bits(LEXT[i] as u32)? as usize;
            let s = d.decode(b)? as usize;
            if s >= 30 {
                return Err(());
            }
            let dist = DBASE[s] as usize + b.bits(DEXT[s] as u32)? as usize;
            if dist > out.len() {
                return Err(());
            }
            for _ in 0..len {
                let x = out[out.len() - dist];
                out.push(x);
            }
        }
        if out.len() > max {
            return Err(());
        }
    }
}

fn fixed() -> (Huff, Huff) {
    let mut l = [8u8; 288];
    l[144..256].fill(9);
    l[256..280].fill(7);
    (Huff::new(&l).unwrap().0, Huff::new(&[5u8; 30]).unwrap().0)
}

fn dynamic(b: &mut Bits<'_>, lenient: bool) -> R<(Huff, Huff)> {
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let nlen = b.bits(5)? as usize + 257;
    let ndist = b.bits(5)? as usize + 1;
    let ncode = b.bits(4)? as usize + 4;
    if !lenient && (nlen > 286 || ndist > 30) {
        return Err(());
    }
    let mut lengths = [0u8; 320];
    for &o in ORDER.iter().take(ncode) {
        lengths[o] = b.bits(3)? as u8;
    }
    let (lc, left) = Huff::new(&lengths[..19])?;
    if left != 0 && !lenient {
        return Err(());
    }
    let mut lengths = [0u8; 320];
    let mut i = 0;
    while i < nlen + ndist {
        let sym = lc.decode(b)?;
        if sym < 16 {
            lengths[i] = sym as u8;
            i += 1;
        } else {
            let (v, rep) = match sym {
                16 => {
                    if i == 0 {
                        return Err(());
                    }
                    (lengths[i - 1], 3 + b.bits(2)?)
                }
                17 => (0, 3 + b.bits(3)?),
                _ => (0, 11 + b.bits(7)?),
            };
            if i + rep as usize > nlen + ndist {
                return Err(());
            }
            for _ in 0..rep {
                lengths[i] = v;
                i += 1;
            }
        }
    }
    if lengths[256] == 0 && !lenient {
        return Err(());
    }
    let (l, left) = Huff::new(&lengths[..nlen])?;
    if !lenient && left != 0 && nlen - l.count[0] as usize != 1 {
        return Err(());
    }
    let (d, left) = Huff::new(&lengths[nlen..nlen + ndist])?;
    if !lenient && left != 0 && ndist - d.count[0] as usize > 1 {
        return Err(());
    }
    Ok((l, d))
}

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16) | a
}

/// Decode a zlib stream at the start of `d`, producing at most `max` bytes.
pub fn zlib(d: &[u8], max: usize) -> R<Vec<u8>> {
    decode(d, max, false)
}
/// As `zlib`, but also accepting streams whose validity decoders disagree on
/// (oversized window or code counts, incomplete codes).
pub fn zlib_lenient(d: &[u8], max: usize) -> R<Vec<u8>> {
    decode(d, max, true)
}
fn decode(d: &[u8], max: usize, lenient: bool) -> R<Vec<u8>> {
    if d.len() < 2 {
        return Err(());
    }
    let (cmf, flg) = (d[0] as u32, d[1] as u32);
    if cmf & 15 != 8 || (!lenient && cmf >> 4 > 7) || (cmf * 256 + flg) % 31 != 0 || flg & 0x20 != 0 {
        return Err(());
    }
    let mut b = Bits { d, pos: 2, buf: 0, cnt: 0 };
    let mut out = Vec::new();
    loop {
        let last = b.bits(1)?;
        match b.bits(2)? {
            0 => {
                b.buf = 0;
                b.cnt = 0;
                let h = b.d.get(b.pos..b.pos + 4).ok_or(())?;
                let len = u16::from_le_bytes([h[0], h[1]]);
                if len != !u16::from_le_bytes([h[2], h[3]]) {
                    return Err(());
                }
                b.pos += 4;
                out.extend_from_slice(b.d.get(b.pos..b.pos + len as usize).ok_or(())?);
                b.pos += len as usize;
            }
            1 => {
                let (l, dd) = fixed();
                codes(&mut b, &mut out, max, &l, &dd)?;
            }
            2 => {
                let (l, dd) = dynamic(&mut b, lenient)?;
                codes(&mut b, &mut out, max, &l, &dd)?;
            }
            _ => return Err(()),
        }
        if out.len() > max {
            return Err(());
        }
        if last == 1 {
            break;
        }
    }
    let t = b.d.get(b.pos..b.pos + 4).ok_or(())?;
    if u32::from_be_bytes([t[0], t[1], t[2], t[3]]) != adler32(&out) {
        return Err(());
    }
    Ok(out)
}
