//! Random and hostile workload generation. Everything is a pure function of
//! the generator state, so a case is identified by (seed, index).
use crate::doc::*;
use crate::rng::Rng;
use flate2::{Compress, Compression, FlushCompress};

#[derive(Clone, Copy)]
pub struct Cfg {
    /// fixed colour depth, or any of the three
    pub depth: Option<u16>,
    pub max_frames: usize,
    pub max_layers: usize,
    pub max_canvas: usize,
    pub max_cel: usize,
    /// tilemap and unknown layers in between
    pub odd_layers: bool,
    /// images stored on odd layers and groups
    pub odd_images: bool,
    pub links: bool,
    pub dup_cels: bool,
    /// user data after objects (0..=4 quarters)
    pub user: usize,
    pub props: bool,
    /// other chunk kinds: masks, profiles, tilesets, ...
    pub misc: bool,
    /// chunks that only the raw and file views accept (tilemap / unknown cels)
    pub raw_cels: bool,
    pub zindex: bool,
    pub hsl: bool,
    pub tags: bool,
    pub slices: bool,
    /// palette chunk variety
    pub palettes: bool,
    /// layer flags other than visible, random blend modes etc. for reporting
    pub wild: bool,
    /// header flag "layer opacity valid" random
    pub opacity_flag: bool,
    /// how cels overlap the canvas: true = far positions included
    pub far: bool,
    /// now and then many layers, many frames or larger pictures
    pub burst: bool,
}

pub const BASE: Cfg = Cfg {
    depth: None,
    max_frames: 4,
    max_layers: 6,
    max_canvas: 20,
    max_cel: 14,
    odd_layers: false,
    odd_images: false,
    links: true,
    dup_cels: false,
    user: 1,
    props: false,
    misc: true,
    raw_cels: false,
    zindex: true,
    hsl: true,
    tags: true,
    slices: true,
    palettes: false,
    wild: false,
    opacity_flag: true,
    far: false,
    burst: true,
};

/// zlib encoding with varying level / block structure
pub fn zlib(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    match r.below(10) {
        0 => stored(r, data),
        1 => multi(r, data),
        _ => {
            let lvl = *r.pick(&[0, 1, 1, 3, 6, 6, 9]);
            deflate(data, lvl)
        }
    }
}
pub fn deflate(data: &[u8], lvl: u32) -> Vec<u8> {
    let mut c = Compress::new(Compression::new(lvl), true);
    let mut out = Vec::with_capacity(data.len() + data.len() / 8 + 256);
    loop {
        let at = c.total_in() as usize;
        let st = c.compress_vec(&data[at..], &mut out, FlushCompress::Finish).expect("compress");
        if st == flate2::Status::StreamEnd {
            return out;
        }
        out.reserve(256 + data.len() / 2);
    }
}
/// stored blocks of random sizes, built by hand
pub fn stored(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut rest = data;
    loop {
        let k = if r.chance(1, 2) { rest.len().min(65535) } else { r.below(rest.len().min(65535) + 1) };
        let (a, b) = rest.split_at(k);
        rest = b;
        let last = rest.is_empty();
        o.push(last as u8);
        o.p16(k as u16);
        o.p16(!(k as u16));
        o.extend_from_slice(a);
        if last {
            break;
        }
    }
    o.extend_from_slice(&crate::inflate::adler32(data).to_be_bytes());
    o
}
/// several flushed deflate blocks of different levels' worth of data
pub fn multi(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut c = Compress::new(Compression::new(*r.pick(&[1, 6, 9])), true);
    let mut out = Vec::with_capacity(data.len() * 2 + 1024);
    let cuts = r.below(4);
    let mut at = 0;
    for _ in 0..cuts {
        let end = at + r.below(data.len() - at + 1);
        while at < end {
            let before = c.total_in();
            out.reserve(1024);
            let _ = c.compress_vec(&data[at..end], &mut out, FlushCompress::None).expect("c");
            at += (c.total_in() - before) as usize;
        }
        out.reserve(1024);
        let _ = c.compress_vec(&[], &mut out, *r.pick(&[FlushCompress::Sync, FlushCompress::Full])).expect("c");
    }
    loop {
        let before = c.total_in();
        out.reserve(1024 + data.len());
        let st = c.compress_vec(&data[at..], &mut out, FlushCompress::Finish).expect("c");
        at += (c.total_in() - before) as usize;
        if st == flate2::Status::StreamEnd {
            return out;
        }
    }
}

/// Characters of every encoded length and some awkward ones.
const CHARS: [&str; 18] = ["a", "Z", " ", "\t", "\r\n", "\0", "\u{7f}", "ü", "\u{80}", "\u{7ff}", "\u{800}", "像", "\u{feff}", "\u{ffff}", "e\u{301}", "🎨", "\u{10000}", "\u{10ffff}"];
pub fn name(r: &mut Rng) -> Str {
    match r.below(24) {
        0..=2 => vec![],
        3 | 4 => "Ünïcødé 像素 🎨".as_bytes().to_vec(),
        5 | 6 => {
            let k = r.below(300);
            (0..k).map(|_| b'a' + r.below(26) as u8).collect()
        }
        7 => b"a\0b".to_vec(),
        8 | 9 => {
            // a mixture, its length around a power of two
            let k = *r.pick(&[3usize, 8, 16, 31, 64, 127, 128, 255, 256]) + r.below(5);
            let mut s = Vec::new();
            while s.len() < k {
                s.extend_from_slice(r.pick(&CHARS).as_bytes());
            }
            s
        }
        10 => {
            // one character over and over, shifted
            let k = *r.pick(&[1usize, 5, 20, 63, 64, 65, 86, 128]);
            let mut s = vec![b'x'; r.below(4)];
            let c = *r.pick(&CHARS);
            (0..k).for_each(|_| s.extend_from_slice(c.as_bytes()));
            s
        }
        11 => {
            let mut s = r.pick(&["", " ", "\u{feff}", "\0", "\n", "/", "Group/", "\"", "-"]).as_bytes().to_vec();
            s.push(b'A' + r.below(3) as u8);
            s.extend_from_slice(r.pick(&["", " ", "\0", "\r\n", "\t", "\u{feff}", "\u{a0}", "."]).as_bytes());
            s
        }
        12 if r.chance(1, 40) => {
            // about as long as a length field can say
            let k = *r.pick(&[32767usize, 32768, 65534, 65535, 40000, 4096]);
            let c = *r.pick(&["a", "ü", "像", "🎨"]);
            let mut s = c.repeat(k / c.len()).into_bytes();
            s.resize(k, b'.');
            s
        }
        _ => {
            let k = 1 + r.below(6);
            (0..k).map(|_| b'A' + r.below(4) as u8).collect()
        }
    }
}
pub fn small_name(r: &mut Rng) -> Str {
    let k = r.below(5);
    (0..k).map(|_| b'A' + r.below(3) as u8).collect()
}

pub fn scalar(r: &mut Rng, ty: u16) -> PV {
    match ty {
        1 => PV::Bool(*r.pick(&[0, 1, 1, 2, 255])),
        2 => PV::I8(r.b() as i8),
        3 => PV::U8(r.b()),
        4 => PV::I16(r.w() as i16),
        5 => PV::U16(r.w()),
        6 => PV::I32(r.d() as i32),
        7 => PV::U32(r.d()),
        8 => PV::I64(r.u64() as i64),
        9 => PV::U64(r.u64()),
        10 => PV::Fixed(r.d()),
        11 => PV::F32(if r.chance(1, 3) { *r.pick(&[0x7fc00001u32, 0x7f800000, 0xff800000, 0x80000000, 1]) } else { r.u32() }),
        12 => PV::F64(if r.chance(1, 3) { *r.pick(&[0x7ff8000000000001u64, 0x7ff0000000000000, 1 << 63, 1]) } else { r.u64() }),
        13 => PV::Str(name(r)),
        14 => PV::Point([r.d() as i32, r.d() as i32]),
        15 => PV::Size([r.d() as i32, r.d() as i32]),
        16 => PV::Rect([r.d() as i32, r.d() as i32, r.d() as i32, r.d() as i32]),
        _ => {
            let mut u = [0; 16];
            u.iter_mut().for_each(|x| *x = r.u8());
            PV::Uuid(u)
        }
    }
}
const SCALARS: [u16; 17] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19];
pub fn value(r: &mut Rng, depth: usize) -> PV {
    if depth > 0 && r.chance(2, 5) {
        match r.below(3) {
            0 => PV::Map(props_map(r, depth - 1)),
            1 => {
                let k = r.below(4);
                PV::Mixed((0..k).map(|_| value(r, depth - 1)).collect())
            }
            _ => vector(r, depth - 1),
        }
    } else {
        let ty = *r.pick(&SCALARS);
        scalar(r, ty)
    }
}
/// homogeneous vector
pub fn vector(r: &mut Rng, depth: usize) -> PV {
    let ty = if depth > 0 && r.chance(1, 3) { 17 + r.below(2) as u16 } else { *r.pick(&SCALARS) };
    let k = *r.pick(&[0usize, 1, 2, 3, 7]);
    let k = if ty < 17 && r.chance(1, 150) { *r.pick(&[255usize, 256, 257, 1000]) } else { k };
    let v = (0..k)
        .map(|_| match ty {
            17 => {
                if r.chance(1, 4) {
                    let k = r.below(3);
                    PV::Mixed((0..k).map(|_| value(r, depth - 1)).collect())
                } else {
                    vector(r, depth - 1)
                }
            }
            18 => PV::Map(props_map(r, depth - 1)),
            t => scalar(r, t),
        })
        .collect();
    PV::Vec(ty, v)
}
pub fn props_map(r: &mut Rng, depth: usize) -> Vec<(Str, PV)> {
    let k = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
    (0..k).map(|_| (name(r), value(r, depth))).collect()
}
pub fn props(r: &mut Rng) -> PropsD {
    let k = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
    let depth = r.below(5);
    let mut p = PropsD { maps: (0..k).map(|_| (r.d(), props_map(r, depth))).collect(), ..PropsD::none() };
    if r.chance(1, 8) {
        p.pad = r.bytes(3);
    }
    if r.chance(1, 300) {
        // many maps, or many entries
        let n = *r.pick(&[256usize, 257, 300, 700]);
        if r.chance(1, 2) {
            p.maps.extend((0..n).map(|i| (i as u32, vec![(format!("{i}").into_bytes(), PV::U16(i as u16))])));
        } else {
            p.maps.push((7, (0..n).map(|i| (format!("{i}").into_bytes(), scalar(r, 2 + (i % 12) as u16))).collect()));
        }
    }
    if r.chance(1, 12) {
        // deep but legal nesting
        let mut v = PV::U8(7);
        for _ in 0..r.below(60) {
            v = if r.chance(1, 2) { PV::Map(vec![(b"k".to_vec(), v)]) } else { PV::Mixed(vec![v]) };
        }
        p.maps.push((3, vec![(b"deep".to_vec(), v)]));
    }
    p
}
pub fn user(r: &mut Rng, with_props: bool) -> ChunkD {
    let mut flags = r.below(4) as u32;
    if with_props && r.chance(2, 3) {
        flags |= 4;
    }
    Body::User { flags, text: name(r), color: [r.b(), r.b(), r.b(), r.b()], props: if with_props { props(r) } else { PropsD::none() } }.into()
}

pub fn tags(r: &mut Rng, n: usize) -> Vec<TagD> {
    (0..n)
        .map(|_| {
            let (a, b) = (r.w(), r.w());
            TagD {
                from: a.min(b),
                to: a.max(b),
                dir: r.below(4) as u8,
                repeat: *r.pick(&[0u16, 0, 1, 2, 3, 255, 256, 512, 0x8000, 0xff00, 0xffff]),
                fut: [0; 6],
                color: [r.u8(), r.u8(), r.u8()],
                extra: r.u8(),
                name: name(r),
            }
        })
        .collect()
}
pub fn slice(r: &mut Rng) -> Body {
    let k = r.below(4);
    Body::Slice {
        count: None,
        flags: r.below(4) as u32,
        res: r.d(),
        name: name(r),
        keys: (0..k)
            .map(|_| KeyD {
                frame: r.d(),
                x: r.d() as i32,
                y: r.d() as i32,
                w: r.d(),
                h: r.d(),
                nine: (r.d() as i32, r.d() as i32, r.d(), r.d()),
                pivot: (r.d() as i32, r.d() as i32),
            })
            .collect(),
    }
}
pub fn arr<const N: usize>(r: &mut Rng) -> [u8; N] {
    let mut a = [0; N];
    if r.chance(1, 2) {
        a.iter_mut().for_each(|x| *x = r.u8());
    }
    a
}
pub fn misc(r: &mut Rng) -> Body {
    match r.below(7) {
        0 => Body::Profile { ty: r.below(3) as u16, flags: r.below(2) as u16, gamma: r.d(), res: arr(r), icc: { let k = r.below(40); r.bytes(k) } },
        1 => {
            let k = r.below(4);
            Body::Ext { count: None, res: arr(r), e: (0..k).map(|_| (r.d(), r.below(3) as u8, arr(r), name(r))).collect() }
        }
        2 => Body::Mask { x: r.w() as i16, y: r.w() as i16, w: r.w(), h: r.w(), fut: arr(r), name: name(r), data: { let k = r.below(30); r.bytes(k) } },
        3 => Body::Path({ let k = r.below(20); r.bytes(k) }),
        4 | 5 => Body::Tileset {
            id: r.d(),
            flags: r.below(64) as u32,
            ntiles: r.d(),
            w: r.w(),
            h: r.w(),
            base: r.w() as i16,
            res: arr(r),
            name: name(r),
            ext: (r.d(), r.d()),
            data: { let k = r.below(60); r.bytes(k) },
        },
        _ => Body::Profile { ty: 1, flags: 0, gamma: 0, res: [0; 8], icc: vec![] },
    }
}
pub fn cel_extra(r: &mut Rng) -> Body {
    Body::CelExtra { flags: r.below(2) as u32, v: [r.d(), r.d(), r.d(), r.d()], fut: { let k = *r.pick(&[0usize, 16, 16, 3]); r.bytes(k) } }
}

/// stored pixel bytes for an area
pub fn pixels(r: &mut Rng, depth: u16, n: usize, avoid: Option<u8>) -> Vec<u8> {
    let bpp = depth as usize / 8;
    let mut d = match r.below(4) {
        // flat runs
        0 => {
            let mut v = Vec::with_capacity(n * bpp);
            while v.len() < n * bpp {
                let k = 1 + r.below(9);
                let px: Vec<u8> = (0..bpp).map(|_| r.b()).collect();
                for _ in 0..k {
                    v.extend_from_slice(&px);
                }
            }
            v.truncate(n * bpp);
            v
        }
        _ => (0..n * bpp).map(|_| r.b()).collect(),
    };
    match depth {
        32 => {
            if r.chance(1, 2) {
                d.chunks_mut(4).for_each(|p| {
                    if r.chance(2, 3) {
                        p[3] = *r.pick(&[0u8, 255, 255, 255, 128])
                    }
                });
            }
        }
        8 => {
            if let Some(t) = avoid {
                d.iter_mut().filter(|x| **x == t).for_each(|x| *x = t.wrapping_add(1));
            }
        }
        _ => {}
    }
    d
}

pub fn image_body(r: &mut Rng, depth: u16, w: u16, h: u16, avoid: Option<u8>) -> CelBody {
    let px = pixels(r, depth, w as usize * h as usize, avoid);
    if r.chance(1, 4) {
        CelBody::Raw { w, h, data: px }
    } else {
        let mut data = zlib(r, &px);
        if r.chance(1, 10) {
            let k = r.below(6);
            let extra = r.bytes(k);
            data.extend_from_slice(&extra); // bytes after the stream's end
        }
        CelBody::Zip { w, h, data }
    }
}

pub fn palette_chunks(r: &mut Rng) -> Vec<ChunkD> {
    let k = 1 + r.below(4);
    (0..k)
        .map(|_| match r.below(5) {
            0 | 1 => new_pal(r),
            2 | 3 => old_pal(r, 0x0004),
            _ => old_pal(r, 0x0011),
        })
        .collect()
}
pub fn new_pal(r: &mut Rng) -> ChunkD {
    let first = r.b();
    let last = if r.chance(1, 4) { 255 } else { first.saturating_add(r.below(20) as u8) };
    let n = last as u32 - first as u32 + 1;
    Body::Pal {
        size: *r.pick(&[n, n, last as u32 + 1, 256, 0, n.wrapping_sub(1)]),
        first: first as u32,
        last: last as u32,
        fut: arr(r),
        e: (0..n).map(|_| { let f = r.chance(1, 6) as u16; (f, [r.u8(), r.u8(), r.u8(), r.b()], small_name(r)) }).collect(),
    }
    .into()
}
pub fn old_pal(r: &mut Rng, ty: u16) -> ChunkD {
    let top = if ty == 0x11 { 64 } else { 256 };
    let mut at = 0usize;
    let mut p = Vec::new();
    let col = |r: &mut Rng| [r.below(top) as u8, r.below(top) as u8, r.below(top) as u8];
    if r.chance(1, 5) {
        p.push((0, (0..256).map(|_| col(r)).collect()));
    } else {
        for _ in 0..r.below(5) + 1 {
            let skip = r.below((256 - at).min(60).min(255)) as u8;
            if at + skip as usize >= 256 {
                break;
            }
            at += skip as usize;
            let n = (1 + r.below(40)).min(256 - at).min(255);
            at += n;
            p.push((skip, (0..n).map(|_| col(r)).collect()));
            if at >= 256 {
                break;
            }
        }
    }
    Body::OldPal(ty, None, p).into()
}

pub fn header(r: &mut Rng, c: &Cfg) -> Hdr {
    let depth = c.depth.unwrap_or(*r.pick(&[32, 32, 16, 8]));
    let dim = |r: &mut Rng| match r.below(30) {
        0 => 0,
        1 | 2 => 1,
        _ => 1 + r.below(c.max_canvas) as u16,
    };
    Hdr {
        w: dim(r),
        h: dim(r),
        depth,
        flags: if c.opacity_flag && r.chance(1, 5) { 0 } else { 1 },
        speed: r.w(),
        transparent: r.b(),
        ignore: arr(r),
        ncolors: r.w(),
        pw: r.b(),
        ph: r.b(),
        gx: r.w() as i16,
        gy: r.w() as i16,
        gw: r.w(),
        gh: r.w(),
        future: if r.chance(1, 2) { r.bytes(84) } else { vec![0; 84] },
        ..Default::default()
    }
}

fn pos(r: &mut Rng, canvas: u16, cel: u16, far: bool) -> i16 {
    if far && r.chance(1, 3) {
        return *r.pick(&[i16::MIN, i16::MIN + 1, -256, -255, 255, 256, i16::MAX, i16::MAX - 1, -1, 0, 1]);
    }
    let lo = -(cel as i64) - 1;
    let hi = canvas as i64 + 1;
    r.range(lo, hi).clamp(i16::MIN as i64, i16::MAX as i64) as i16
}

pub struct LayerPlan {
    pub ty: u16,
    pub flags: u16,
    pub level: u16,
}

/// A well-formed layer tree: levels rise by one only below a group.
pub fn layer_tree(r: &mut Rng, c: &Cfg) -> Vec<LayerPlan> {
    let n = match r.below(30) {
        0..=2 => 1,
        3 => 0,
        4..=6 => c.max_layers,
        _ => 1 + r.below(c.max_layers),
    };
    let mut v: Vec<LayerPlan> = Vec::new();
    let p_hidden = *r.pick(&[0usize, 1, 3]);
    // mostly groups, each inside the one before
    let chain = if r.chance(1, 40) { Some(r.below(5)) } else { None };
    let n = match chain {
        Some(0) => n + 60 + r.below(240),
        Some(1) => n + r.below(60),
        Some(_) => n.max(2) + r.below(12),
        None => n,
    };
    let p_hidden = if chain.is_some() && n > 12 { 0 } else { p_hidden };
    // in a long chain one group somewhere is hidden, or none
    let hidden_at = if chain.is_some() { r.below(n * 2) } else { usize::MAX };
    for i in 0..n {
        let top = match v.last() {
            None => 0,
            Some(l) => l.level + (l.ty == 1) as u16,
        };
        let level = if r.chance(if chain.is_some() { 60 } else { 2 }, if chain.is_some() { 61 } else { 3 }) { top } else { r.below(top as usize + 1) as u16 };
        let ty = match r.below(12) {
            3.. if chain.is_some() && r.chance(9, 10) => 1,
            0..=2 => 1,
            3 if c.odd_layers => 2,
            4 if c.odd_layers => *r.pick(&[3u16, 4, 255, 0x100, 0xffff]),
            _ => 0,
        };
        let mut flags = if r.chance(p_hidden, 8) || i == hidden_at { 0 } else { 1 };
        if c.wild {
            flags |= (r.u16() & 0x77 & !1) as u16;
        } else {
            flags |= 2;
        }
        if i == 0 && ty == 0 && r.chance(1, 4) {
            flags |= 8; // background layer
        }
        v.push(LayerPlan { ty, flags, level });
    }
    v
}

/// A well-formed file that the sprite loader accepts (unless `raw_cels`).
pub fn doc(r: &mut Rng, c: &Cfg) -> Doc {
    let mut big = *c;
    if c.burst {
        match r.below(120) {
            0..=2 => {
                big.max_layers = *r.pick(&[24, 24, 40, 40, 70, 300]).max(&c.max_layers);
                big.max_frames = c.max_frames.min(3);
                big.max_cel = c.max_cel.min(8);
            }
            3 | 4 => {
                big.max_frames = *r.pick(&[16, 30, 30, 60, 60, 300]).max(&c.max_frames);
                big.max_layers = c.max_layers.min(4);
                big.max_cel = c.max_cel.min(8);
            }
            5 => {
                big.max_canvas = 300.max(c.max_canvas);
                big.max_cel = (*r.pick(&[20, 80, 300])).max(c.max_cel);
                big.max_layers = c.max_layers.min(3);
                big.max_frames = c.max_frames.min(2);
            }
            _ => {}
        }
    }
    let c = &big;
    let hdr = header(r, c);
    let nf = 1 + if r.chance(1, 8) { c.max_frames - 1 } else { r.below(c.max_frames) };
    let plan = layer_tree(r, c);
    let mut frames: Vec<FrameD> = (0..nf)
        .map(|_| FrameD {
            duration: r.w(),
            future: arr(r),
            // which of the two chunk counts carries the number
            ..Default::default()
        })
        .collect();
    let wild_mode = |r: &mut Rng| -> u16 {
        if c.hsl {
            r.below(19) as u16
        } else {
            *r.pick(&[0u16, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 17, 18])
        }
    };
    // preamble of the first frame
    let mut pre: Vec<ChunkD> = Vec::new();
    if c.misc && r.chance(1, 2) {
        pre.push(Body::Profile { ty: 1, flags: 0, gamma: 0, res: [0; 8], icc: vec![] }.into());
    }
    if hdr.depth == 8 || r.chance(1, 2) {
        if c.palettes {
            pre.extend(palette_chunks(r));
        } else {
            pre.push(full_palette(r));
        }
        if c.user > 0 && r.chance(c.user, 4) {
            pre.push(user(r, c.props));
        }
    }
    // tags before or after the layers
    let mut tag_at = if c.tags && r.chance(1, 2) { Some(r.below(2)) } else { None };
    if tag_at == Some(0) {
        push_tags(r, c, &mut pre);
        tag_at = None;
    }
    for p in &plan {
        pre.push(
            Body::Layer {
                flags: p.flags,
                ty: p.ty,
                level: p.level,
                dw: r.w(),
                dh: r.w(),
                blend: if p.ty == 1 && !c.wild { 0 } else { wild_mode(r) },
                opacity: r.b(),
                fut: arr(r),
                name: if r.chance(1, 3) { name(r) } else { small_name(r) },
                tileset: r.d(),
            }
            .into(),
        );
        if r.chance(c.user, 4) {
            pre.push(user(r, c.props));
        }
        if c.user > 0 && r.chance(1, 12) {
            pre.push(user(r, c.props)); // in excess
        }
        if c.misc && r.chance(1, 10) {
            pre.push(misc(r).into());
        }
    }
    if tag_at == Some(1) {
        push_tags(r, c, &mut pre);
    }
    // layers may also arrive in a later frame
    frames[0].chunks = pre;

    // cels: which (frame, layer) hold images
    let mut img: Vec<Vec<bool>> = vec![vec![false; plan.len()]; nf];
    let density = 1 + r.below(4);
    let mut kind: Vec<Vec<u8>> = vec![vec![0; plan.len()]; nf]; // 0 none 1 image 2 link
    for f in 0..nf {
        for (l, p) in plan.iter().enumerate() {
            let normal = p.ty == 0;
            if r.chance(density, 4) && (normal || c.odd_images) {
                kind[f][l] = 1;
                img[f][l] = true;
            }
        }
    }
    if c.links && nf > 1 {
        for f in 0..nf {
            for l in 0..plan.len() {
                if kind[f][l] != 0 && r.chance(1, 2) {
                    // becomes a link if another frame still has an image there
                    let cand: Vec<usize> = (0..nf).filter(|&g| g != f && kind[g][l] == 1).collect();
                    // other links must keep their targets: only turn images
                    // into links while some image stays
                    if !cand.is_empty() {
                        kind[f][l] = 2;
                        img[f][l] = false;
                    }
                }
            }
        }
    }
    // pictures already stored: sizes and whole contents come back
    let mut stored: Vec<CelBody> = Vec::new();
    let full = (hdr.w as usize * hdr.h as usize) <= 1 << 17;
    for f in 0..nf {
        let mut order: Vec<usize> = (0..plan.len()).filter(|&l| kind[f][l] != 0).collect();
        if r.chance(1, 3) {
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        for l in order {
            let avoid = if hdr.depth == 8 && plan[l].flags & 8 != 0 { Some(hdr.transparent) } else { None };
            let body = if kind[f][l] == 2 {
                let cand: Vec<usize> = (0..nf).filter(|&g| img[g][l]).collect();
                CelBody::Link(*r.pick(&cand) as u16)
            } else {
                if c.dup_cels && r.chance(1, 6) {
                    // an earlier cel for the same place: the last one counts
                    let b = image_body(r, hdr.depth, 2, 2, avoid);
                    frames[f].chunks.push(cel(l as u16, r.w() as i16, r.w() as i16, r.b(), 0, b));
                }
                let (mut w, mut h) = cel_size(r, c);
                if full && r.chance(1, 7) {
                    (w, h) = (hdr.w, hdr.h);
                }
                let old = if stored.is_empty() || !r.chance(1, 5) { None } else { Some(r.pick(&stored).clone()) };
                match old {
                    Some(b) if avoid.is_none() && r.chance(1, 2) => b,
                    Some(CelBody::Raw { w, h, .. } | CelBody::Zip { w, h, .. }) => image_body(r, hdr.depth, w, h, avoid),
                    _ => image_body(r, hdr.depth, w, h, avoid),
                }
            };
            if stored.len() < 6 && !matches!(body, CelBody::Link(_)) {
                stored.push(body.clone());
            }
            let (cw, ch) = match &body {
                CelBody::Raw { w, h, .. } | CelBody::Zip { w, h, .. } => (*w, *h),
                _ => (c.max_cel as u16, c.max_cel as u16),
            };
            let z = if c.zindex && r.chance(1, 3) { r.range(-3, 3) as i16 } else { 0 };
            let z = if c.zindex && r.chance(1, 40) { *r.pick(&[i16::MIN, i16::MAX]) } else { z };
            let op = if r.chance(1, 2) { 255 } else { r.b() };
            let (x, y) = if r.chance(if (cw, ch) == (hdr.w, hdr.h) { 3 } else { 1 }, 5) { (0, 0) } else { (pos(r, hdr.w, cw, c.far), pos(r, hdr.h, ch, c.far)) };
            let mut ch: ChunkD = cel(l as u16, x, y, op, z, body);
            if let Body::Cel { fut, .. } = &mut ch.body {
                *fut = arr(r);
            }
            frames[f].chunks.push(ch);
            if c.misc && r.chance(1, 6) {
                frames[f].chunks.push(cel_extra(r).into());
            }
            if r.chance(c.user, 4) {
                frames[f].chunks.push(user(r, c.props));
                if r.chance(1, 8) {
                    frames[f].chunks.push(user(r, c.props));
                }
            }
            if c.misc && r.chance(1, 12) {
                frames[f].chunks.push(misc(r).into());
            }
        }
        if c.slices && r.chance(1, 3) {
            for _ in 0..1 + r.below(2) {
                frames[f].chunks.push(slice(r).into());
                if r.chance(c.user, 4) {
                    frames[f].chunks.push(user(r, c.props));
                }
            }
        }
        if c.tags && f > 0 && r.chance(1, 8) {
            push_tags(r, c, &mut frames[f].chunks);
        }
        if c.raw_cels && !plan.is_empty() && r.chance(1, 2) {
            let l = r.below(plan.len()) as u16;
            let b = if r.chance(3, 4) {
                CelBody::Tilemap { w: r.w(), h: r.w(), bpt: r.w(), id: r.d(), x: r.d(), y: r.d(), d: r.d(), res: arr(r), data: { let k = r.below(40); r.bytes(k) } }
            } else {
                CelBody::Unknown(4 + r.below(9) as u16, { let k = r.below(40); r.bytes(k) })
            };
            frames[f].chunks.push(cel(l, r.w() as i16, r.w() as i16, r.b(), r.w() as i16, b));
        }
        if c.palettes && f > 0 && r.chance(1, 3) {
            let more = palette_chunks(r);
            frames[f].chunks.extend(more);
            if r.chance(1, 3) && c.user > 0 {
                frames[f].chunks.push(user(r, c.props));
            }
        }
    }
    for f in &mut frames {
        counts(r, f);
    }
    Doc { hdr, frames, tail: vec![] }
}

/// choose how the chunk count is encoded
pub fn counts(r: &mut Rng, f: &mut FrameD) {
    let n = f.chunks.len();
    match r.below(4) {
        0 => f.new_count = Some(0),
        1 => {
            f.old_count = Some(r.u16());
            if n == 0 {
                f.old_count = Some(0);
            }
        }
        2 => f.old_count = Some(if n == 0 { 0 } else { 0xffff }),
        _ => {}
    }
}

pub fn cel_size(r: &mut Rng, c: &Cfg) -> (u16, u16) {
    match r.below(12) {
        0 => (1, 1),
        1 => (0, r.below(3) as u16),
        2 => (1 + r.below(c.max_cel * 3) as u16, 1),
        _ => (1 + r.below(c.max_cel) as u16, 1 + r.below(c.max_cel) as u16),
    }
}

fn push_tags(r: &mut Rng, c: &Cfg, v: &mut Vec<ChunkD>) {
    let k = r.below(4);
    v.push(Body::Tags { count: None, fut: arr(r), tags: tags(r, k) }.into());
    if c.user > 0 {
        let u = r.below(k + 2);
        for _ in 0..u {
            v.push(user(r, c.props));
        }
    }
}

pub fn full_palette(r: &mut Rng) -> ChunkD {
    let cols: Vec<[u8; 4]> = (0..256).map(|_| [r.u8(), r.u8(), r.u8(), if r.chance(1, 4) { r.b() } else { 255 }]).collect();
    palette(0, &cols)
}

/// An unknown chunk type code.
pub fn unknown_chunk(r: &mut Rng) -> ChunkD {
    let known = [0x0004, 0x0011, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023];
    loop {
        let t = match r.below(4) {
            0 => *r.pick(&[0u16, 1, 3, 5, 0x10, 0x12, 0x2003, 0x2009, 0x2015, 0x201a, 0x201f, 0x2021, 0x2024, 0x2025, 0xffff, 0x0420, 0x2104]),
            1 => 0x2000 + r.below(0x80) as u16,
            _ => r.u16(),
        };
        if !known.contains(&t) {
            let k = *r.pick(&[0usize, 1, 4, 16, 60]);
            return Body::Raw(t, r.bytes(k)).into();
        }
    }
}

// ---------------------------------------------------------------- hostile

/// Byte-level damage, keeping the input mostly parseable.
pub fn mutate(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    let n = 1 + r.below(4);
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        match r.below(12) {
            0 => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0u8, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff]);
            }
            2 | 3 => {
                // 16/32 bit overwrite with interesting values
                let w = if r.chance(1, 2) { 2 } else { 4 };
                if b.len() >= w {
                    let i = r.below(b.len() - w + 1);
                    let v = r.d().to_le_bytes();
                    b[i..i + w].copy_from_slice(&v[..w]);
                }
            }
            4 => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
            }
            5 => {
                let i = r.below(b.len() + 1);
                let k = 1 + r.below(12);
                let ins = r.bytes(k);
                b.splice(i..i, ins);
            }
            6 => {
                let i = r.below(b.len());
                let k = (1 + r.below(12)).min(b.len() - i);
                b.drain(i..i + k);
            }
            7 => {
                // copy a range elsewhere
                let i = r.below(b.len());
                let k = (1 + r.below(64)).min(b.len() - i);
                let piece = b[i..i + k].to_vec();
                let j = r.below(b.len() + 1);
                b.splice(j..j, piece);
            }
            _ => structured(r, &mut b),
        }
    }
    b
}

/// Offsets of frames and chunks found by walking the framing.
pub struct Walk {
    pub frames: Vec<(usize, usize)>,
    /// offset, size, type
    pub chunks: Vec<(usize, usize, u16)>,
}
pub fn walk(b: &[u8]) -> Walk {
    let mut w = Walk { frames: vec![], chunks: vec![] };
    let g32 = |o: usize| b.get(o..o + 4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize);
    let mut o = 128;
    while let Some(sz) = g32(o) {
        if sz < 16 || o + sz > b.len() {
            break;
        }
        w.frames.push((o, sz));
        let mut p = o + 16;
        while p + 6 <= o + sz {
            let Some(cs) = g32(p) else { break };
            if cs < 6 || p + cs > o + sz {
                break;
            }
            w.chunks.push((p, cs, u16::from_le_bytes([b[p + 4], b[p + 5]])));
            p += cs;
        }
        o += sz;
    }
    w
}

/// Damage aimed at the framing and at well-known fields.
fn structured(r: &mut Rng, b: &mut Vec<u8>) {
    let w = walk(b);
    let put = |b: &mut Vec<u8>, o: usize, v: &[u8]| {
        for (i, x) in v.iter().enumerate() {
            if let Some(y) = b.get_mut(o + i) {
                *y = *x;
            }
        }
    };
    match r.below(10) {
        0 if !w.frames.is_empty() => {
            let (o, sz) = *r.pick(&w.frames);
            let v = *r.pick(&[0u32, 1, 2, 3, 4, 5, 15, 16, sz as u32 - 1, sz as u32 + 1, 0xffff_ffff, 0x8000_0000]);
            put(b, o, &v.to_le_bytes());
        }
        1 | 2 if !w.chunks.is_empty() => {
            let (o, sz, _) = *r.pick(&w.chunks);
            let v = *r.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, sz as u32 - 1, sz as u32 + 1, sz as u32 + 6, 0xffff_ffff, 0x7fff_ffff]);
            put(b, o, &v.to_le_bytes());
        }
        3 if !w.frames.is_empty() => {
            let (o, _) = *r.pick(&w.frames);
            put(b, o + 6, &r.w().to_le_bytes());
            let v = r.d();
            put(b, o + 12, &v.to_le_bytes());
        }
        4 | 5 if !w.chunks.is_empty() => {
            // first payload fields: counts, indices, sizes live here
            let (o, sz, _) = *r.pick(&w.chunks);
            let at = o + 6 + r.below((sz - 6).min(28) + 1);
            let v = r.d().to_le_bytes();
            let k = *r.pick(&[1usize, 2, 4]);
            put(b, at, &v[..k]);
        }
        6 if !w.chunks.is_empty() => {
            let (o, _, _) = *r.pick(&w.chunks);
            let t = *r.pick(&[0x0004u16, 0x0011, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023, 0x9999]);
            put(b, o + 4, &t.to_le_bytes());
        }
        7 if w.chunks.len() > 1 => {
            // duplicate or move a chunk, fixing the frame size
            let (o, sz, _) = *r.pick(&w.chunks);
            let c = b[o..o + sz].to_vec();
            let (p, _, _) = *r.pick(&w.chunks);
            b.splice(p..p, c);
            if let Some((f, fs)) = w.frames.iter().rev().find(|(f, _)| *f < p) {
                put(b, *f, &((fs + sz) as u32).to_le_bytes());
                let n = w.chunks.iter().filter(|(x, _, _)| *x > *f && *x < f + fs).count() as u32 + 1;
                put(b, f + 6, &(n as u16).to_le_bytes());
                put(b, f + 12, &n.to_le_bytes());
            }
        }
        8 => {
            // header fields
            let (o, k) = *r.pick(&[(4usize, 2usize), (6, 2), (8, 2), (10, 2), (12, 2), (14, 4), (18, 2), (20, 4), (24, 4), (28, 1), (32, 2)]);
            let v = r.d().to_le_bytes();
            put(b, o, &v[..k]);
        }
        _ => {
            let k = r.below(9);
            let t = r.bytes(k);
            b.extend_from_slice(&t);
        }
    }
}

/// Custom-property payloads meant to hurt: nesting, counts, sizes.
pub fn props_bomb(r: &mut Rng, max_depth: usize) -> Vec<u8> {
    let depth = match r.below(4) {
        0 => r.below(200),
        1 => r.below(3000.min(max_depth) + 1),
        _ => r.below(max_depth + 1),
    };
    let style = r.below(6);
    let mut o = Vec::new();
    o.p32(0); // extension
    o.p32(1); // one property
    o.pstr(b"k");
    match style {
        0 => {
            // vector of vector of ...
            o.p16(17);
            for _ in 0..depth {
                o.p32(1);
                o.p16(17);
            }
            o.p32(0);
            o.p16(1);
        }
        1 => {
            // mixed vectors
            o.p16(17);
            for _ in 0..depth {
                o.p32(1);
                o.p16(0);
                o.p16(17);
            }
            o.p32(0);
            o.p16(0);
        }
        2 => {
            // maps
            o.p16(18);
            for _ in 0..depth {
                o.p32(1);
                o.pstr(b"");
                o.p16(18);
            }
            o.p32(0);
        }
        3 => {
            // vectors of maps
            o.p16(17);
            for _ in 0..depth {
                o.p32(1);
                o.p16(18);
                o.p32(1);
                o.pstr(b"");
                o.p16(17);
            }
            o.p32(0);
            o.p16(3);
        }
        4 => {
            // nesting with huge counts
            o.p16(17);
            for _ in 0..depth {
                o.p32(0xffff_ffff);
                o.p16(17);
            }
        }
        _ => {
            // maps with an extension id each, as some writers do
            o.p16(18);
            for _ in 0..depth {
                o.p32(0);
                o.p32(1);
                o.pstr(b"");
                o.p16(18);
            }
            o.p32(0);
            o.p32(0);
        }
    }
    o
}

/// Files whose declared counts and nesting are out of proportion.
pub fn hostile(r: &mut Rng, max_depth: usize) -> Vec<u8> {
    let c = Cfg { props: true, user: 2, odd_layers: true, palettes: true, raw_cels: true, wild: true, ..BASE };
    match r.below(12) {
        0..=4 => {
            let d = doc(r, &c).encode();
            mutate(r, d)
        }
        5 => {
            // nested properties
            let mut d = doc(r, &Cfg { max_frames: 1, max_layers: 2, ..c });
            let raw = props_bomb(r, max_depth);
            let p = PropsD { raw: Some(raw), count: Some(*r.pick(&[1, 1, 2, 0xffff_ffff])), ..PropsD::none() };
            d.frames[0].chunks.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: p }.into());
            d.encode()
        }
        6 => {
            // property block with odd declared size
            let mut d = doc(r, &Cfg { max_frames: 1, max_layers: 2, ..c });
            let mut p = props(r);
            p.size = Some(*r.pick(&[0u32, 1, 4, 7, 8, 9, 12, 0xffff_ffff, 0x7fff_ffff]));
            p.count = Some(r.d());
            d.frames[0].chunks.push(Body::User { flags: 4 + r.below(4) as u32, text: b"t".to_vec(), color: [1; 4], props: p }.into());
            d.encode()
        }
        7 => {
            // counts far beyond the data
            let mut d = doc(r, &Cfg { max_frames: 2, max_layers: 2, ..c });
            let big = *r.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x1000_0000, 0x10000, 300]);
            let ch: ChunkD = match r.below(6) {
                0 => Body::Ext { count: Some(big), res: [0; 8], e: vec![] }.into(),
                1 => Body::Slice { count: Some(big), flags: r.below(4) as u32, res: 0, name: vec![], keys: vec![] }.into(),
                2 => Body::Tags { count: Some(big as u16), fut: [0; 8], tags: vec![] }.into(),
                3 => Body::OldPal(4, Some(big as u16), vec![(0, vec![[0; 3]; 3])]).into(),
                4 => {
                    let mut x = new_pal(r);
                    if let Body::Pal { size, first, last, .. } = &mut x.body {
                        *size = big;
                        *first = r.below(256) as u32;
                        *last = *r.pick(&[255, 256, big]);
                    }
                    x
                }
                _ => {
                    let mut raw = Vec::new();
                    raw.p32(1);
                    raw.p32(1);
                    raw.pstr(b"v");
                    raw.p16(17);
                    raw.p32(big);
                    raw.p16(r.below(20) as u16);
                    Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { raw: Some(raw), count: Some(1), ..PropsD::none() } }.into()
                }
            };
            let f = r.below(d.frames.len());
            let at = r.below(d.frames[f].chunks.len() + 1);
            d.frames[f].chunks.insert(at, ch);
            if r.chance(1, 4) {
                d.frames[f].new_count = Some(big);
            }
            d.encode()
        }
        8 => {
            // many tiny things
            let n = 1 + r.below(3000);
            let mut f = FrameD::default();
            for _ in 0..n {
                f.chunks.push(match r.below(4) {
                    0 => Body::Path(vec![]).into(),
                    1 => layer("", 1, 0, 0, 0, 255),
                    2 => unknown_chunk(r),
                    _ => Body::User { flags: 0, text: vec![], color: [0; 4], props: PropsD::none() }.into(),
                });
            }
            Doc { hdr: Hdr::default(), frames: vec![f], tail: vec![] }.encode()
        }
        9 => {
            // many empty frames
            let n = 1 + r.below(3000);
            Doc { hdr: Hdr::default(), frames: vec![FrameD::default(); n], tail: vec![] }.encode()
        }
        10 => {
            // cel layer indices around the layer count
            let mut d = doc(r, &Cfg { depth: Some(32), ..c });
            let nl = d.frames.iter().flat_map(|f| &f.chunks).filter(|c| matches!(c.body, Body::Layer { .. })).count();
            let li = *r.pick(&[nl as u16, nl as u16 + 1, nl.saturating_sub(1) as u16, 0xffff, 0x8000]);
            let f = r.below(d.frames.len());
            d.frames[f].chunks.push(cel(li, 0, 0, 255, 0, CelBody::Raw { w: 1, h: 1, data: vec![1, 2, 3, 4] }));
            if r.chance(1, 3) {
                d.hdr.frames = Some(r.w());
            }
            d.encode()
        }
        _ => {
            let k = r.below(400);
            let mut b = r.bytes(k);
            if r.chance(3, 4) && b.len() >= 6 {
                b[4] = 0xE0;
                b[5] = 0xA5;
                if b.len() >= 28 {
                    b[20..28].fill(0);
                }
                if b.len() > 150 {
                    let rest = (b.len() - 128) as u32;
                    b[128..132].copy_from_slice(&rest.to_le_bytes());
                    b[132] = 0xFA;
                    b[133] = 0xF1;
                    b[140..144].fill(0);
                    b[134] = r.below(4) as u8;
                    b[135] = 0;
                }
            }
            b
        }
    }
}

// ------------------------------------------------------------------ sweeps

pub const CUTS: u8 = 1;
pub const VALUES: u8 = 2;
pub const CHUNKS: u8 = 4;
/// A rich file small enough for each of its variants to be tried.
pub fn small_file(r: &mut Rng, c: &Cfg) -> Vec<u8> {
    let mut best: Option<Vec<u8>> = None;
    for _ in 0..30 {
        let b = doc(r, c).encode();
        let good = (400..1400).contains(&b.len());
        if best.as_ref().map_or(true, |x| good || b.len() < x.len()) {
            best = Some(b);
        }
        if good {
            break;
        }
    }
    best.unwrap()
}
fn put32(b: &mut [u8], o: usize, v: usize) {
    b[o..o + 4].copy_from_slice(&(v as u32).to_le_bytes());
}
/// Replace a chunk by `with`, keeping the framing right.
fn splice_chunk(b: &[u8], w: &Walk, (p, size, _): (usize, usize, u16), with: &[u8], count: i32) -> Vec<u8> {
    let mut v = b.to_vec();
    v.splice(p..p + size, with.iter().copied());
    if let Some((f, fs)) = w.frames.iter().rev().find(|(f, _)| *f < p) {
        put32(&mut v, *f, fs + with.len() - size);
        let g = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
        let (old, new) = (g(f + 4) >> 16, g(f + 12));
        if count != 0 {
            let o = (old as i32 + count) as u16;
            v[f + 6..f + 8].copy_from_slice(&o.to_le_bytes());
            if new != 0 {
                put32(&mut v, f + 12, (new as i32 + count).max(0) as usize);
            }
        }
    }
    v
}
/// Every variant of a file of the chosen classes: cut anywhere, every chunk's
/// contents cut or extended anywhere with the framing kept right; every byte
/// and field set to telling values; every chunk dropped, doubled, swapped and
/// retyped.
pub fn variants<E>(b: &[u8], what: u8, mut f: impl FnMut(Vec<u8>, String) -> Result<(), E>) -> Result<(), E> {
    let w = walk(b);
    if what & CUTS != 0 {
        for k in 0..b.len() {
            f(b[..k].to_vec(), format!("cut after {k} bytes"))?;
        }
        for c in &w.chunks {
            for k in 6..c.1 {
                let mut x = b[c.0..c.0 + k].to_vec();
                put32(&mut x, 0, k);
                f(splice_chunk(b, &w, *c, &x, 0), format!("chunk {:#x} at {} cut to {k} of {} bytes", c.2, c.0, c.1))?;
            }
            for k in [1, 4] {
                let mut x = b[c.0..c.0 + c.1].to_vec();
                x.extend(vec![0x11; k]);
                put32(&mut x, 0, c.1 + k);
                f(splice_chunk(b, &w, *c, &x, 0), format!("chunk {:#x} at {} with {k} bytes added", c.2, c.0))?;
            }
        }
    }
    if what & VALUES != 0 {
        for i in 0..b.len() {
            let old = b[i];
            let mut vals = vec![0, 1, 2, 3, 0x7f, 0x80, 0xff, old.wrapping_add(1), old.wrapping_sub(1), old ^ 0x80, old ^ 8, old ^ 16];
            vals.sort_unstable();
            vals.dedup();
            for v in vals {
                if v != old {
                    let mut x = b.to_vec();
                    x[i] = v;
                    f(x, format!("byte {i} set to {v:#x} (was {old:#x})"))?;
                }
            }
            for v in [&[0xff, 0xff][..], &[0, 0x80], &[0xff, 0x7f], &[0xff; 4], &[0, 0, 0, 0x80], &[0xff, 0xff, 0xff, 0x7f], &[0xff; 8]] {
                if i + v.len() <= b.len() {
                    let mut x = b.to_vec();
                    x[i..i + v.len()].copy_from_slice(v);
                    f(x, format!("bytes at {i} set to {v:x?}"))?;
                }
            }
        }
    }
    if what & CHUNKS != 0 {
        let n = w.chunks.len();
        for (i, c) in w.chunks.iter().enumerate() {
            let me = &b[c.0..c.0 + c.1];
            f(splice_chunk(b, &w, *c, &[], -1), format!("chunk {i} ({:#x}) dropped", c.2))?;
            f(splice_chunk(b, &w, *c, &[me, me].concat(), 1), format!("chunk {i} ({:#x}) doubled", c.2))?;
            for j in i + 1..n {
                // exchange the two, the later one first
                let d = w.chunks[j];
                let other = &b[d.0..d.0 + d.1];
                let mid = splice_chunk(b, &w, d, me, 0);
                let w2 = walk(&mid);
                if w2.chunks.len() == n {
                    f(splice_chunk(&mid, &w2, w2.chunks[i], other, 0), format!("chunks {i} ({:#x}) and {j} ({:#x}) exchanged", c.2, d.2))?;
                }
            }
            for t in [0u16, 4, 0x11, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2021, 0x2022, 0x2023, 0x2024, 0xffff] {
                let mut x = b.to_vec();
                x[c.0 + 4..c.0 + 6].copy_from_slice(&t.to_le_bytes());
                f(x, format!("chunk {i} ({:#x}) turned into {t:#x}", c.2))?;
            }
        }
    }
    Ok(())
}
