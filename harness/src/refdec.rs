//! Independent reference decoder: bytes -> expected value tree, written from
//! the file format specification (not from the code under test).
use crate::val::{b, n, s, Span, V};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// data ends early / magic mismatch / trailing bytes
    Short,
    Magic,
    Trailing,
    FrameSize(u32),
    ChunkSize(u32),
    Utf8,
    PalFirst,
    PalLast,
    PalOrder,
    PalMissing,
    PalEmpty,
    PalIndex,
    TagRange(u16, u16),
    LayerIndex,
    PropBlock(u32),
    // sprite level
    Link,
    CelKind,
}
type R<T> = Result<T, Fault>;

#[derive(Clone, Copy)]
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub at: usize,
}

impl<'a> Rd<'a> {
    fn take(&mut self, k: usize) -> R<Rd<'a>> {
        if self.b.len() < k {
            return Err(Fault::Short);
        }
        let r = Rd { b: &self.b[..k], at: self.at };
        self.b = &self.b[k..];
        self.at += k;
        Ok(r)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?.b[0])
    }
    fn u16(&mut self) -> R<u16> {
        let t = self.take(2)?;
        Ok(t.b[0] as u16 | (t.b[1] as u16) << 8)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(self.u16()? as u32 | (self.u16()? as u32) << 16)
    }
    fn u64(&mut self) -> R<u64> {
        Ok(self.u32()? as u64 | (self.u32()? as u64) << 32)
    }
    fn i16(&mut self) -> R<i16> {
        Ok(self.u16()? as i16)
    }
    fn i32(&mut self) -> R<i32> {
        Ok(self.u32()? as i32)
    }
    fn span(&self) -> Span {
        Span { off: Some(self.at), data: self.b.to_vec() }
    }
    fn v(&self) -> V {
        s(self.at, self.b)
    }
    fn str(&mut self) -> R<Rd<'a>> {
        let k = self.u16()? as usize;
        let t = self.take(k)?;
        if std::str::from_utf8(t.b).is_err() {
            return Err(Fault::Utf8);
        }
        Ok(t)
    }
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub w: u16,
    pub h: u16,
    pub depth: u16,
    pub flags: u32,
    pub transparent: u8,
    pub v: V,
}
#[derive(Clone, Debug)]
pub struct Frame {
    pub duration: u16,
    pub chunks: Vec<Chunk>,
}
#[derive(Clone, Debug)]
pub struct Layer {
    pub flags: u16,
    pub ty: u16,
    pub level: u16,
    pub blend: u16,
    pub opacity: u8,
    pub name: Span,
    pub v: V,
}
#[derive(Clone, Debug)]
pub struct Image {
    pub w: u16,
    pub h: u16,
    pub data: Span,
    pub zip: bool,
}
#[derive(Clone, Debug)]
pub enum CelKind {
    Image(Image),
    Link(u16),
    Other,
}
#[derive(Clone, Debug)]
pub struct Cel {
    pub layer: u16,
    pub x: i16,
    pub y: i16,
    pub opacity: u8,
    pub z: i16,
    pub kind: CelKind,
    pub v: V,
}
#[derive(Clone, Debug)]
pub struct Tag {
    pub from: u16,
    pub to: u16,
    pub dir: u8,
    pub repeat: u16,
    pub name: Span,
    pub v: V,
}
#[derive(Clone, Debug)]
pub enum Chunk {
    OldPal(bool, Vec<(u8, Vec<[u8; 3]>)>),
    Pal(u8, u8, Vec<[u8; 4]>, V),
    Layer(Layer),
    Cel(Cel),
    Tags(Vec<Tag>),
    Slice(V),
    User(V),
    Extra(V),
    /// everything else: only its tree matters
    Other(V),
    Unsupported(u16),
}
#[derive(Clone, Debug)]
pub struct Raw {
    pub hdr: Hdr,
    pub frames: Vec<Frame>,
}

pub fn blend_v(x: u16) -> V {
    const N: [&str; 19] = [
        "Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight", "SoftLight", "Difference",
        "Exclusion", "Hue", "Saturation", "Color", "Luminosity", "Addition", "Subtract", "Divide",
    ];
    N.get(x as usize).map_or(V::U(x as i128), |t| V::T(t))
}
pub fn layer_ty_v(x: u16) -> V {
    match x {
        0 => V::T("Normal"),
        1 => V::T("Group"),
        2 => V::T("Tilemap"),
        _ => V::U(x as i128),
    }
}
pub fn dir_v(x: u8) -> V {
    match x {
        0 => V::T("Forward"),
        1 => V::T("Reverse"),
        2 => V::T("PingPong"),
        3 => V::T("PingPongReverse"),
        _ => V::U(x as i128),
    }
}
fn fixed_v(x: u32) -> V {
    // 16.16: high half is the integral part
    V::L(vec![n((x >> 16) as i64), n((x & 0xffff) as i64)])
}
fn color_v(c: [u8; 4]) -> V {
    V::L(c.iter().map(|x| n(*x)).collect())
}

fn header(rd: &mut Rd<'_>) -> R<Hdr> {
    let mut h = rd.take(128)?;
    let size = h.u32()?;
    if h.u16()? != 0xA5E0 {
        return Err(Fault::Magic);
    }
    let frames = h.u16()?;
    let w = h.u16()?;
    let hh = h.u16()?;
    let depth = h.u16()?;
    let flags = h.u32()?;
    let speed = h.u16()?;
    if h.u32()? != 0 || h.u32()? != 0 {
        return Err(Fault::Magic);
    }
    let transparent = h.u8()?;
    h.take(3)?;
    let nc = h.u16()?;
    let pw = h.u8()?;
    let ph = h.u8()?;
    let gx = h.i16()?;
    let gy = h.i16()?;
    let gw = h.u16()?;
    let gh = h.u16()?;
    let depth_v = match depth {
        32 => V::T("Rgba"),
        16 => V::T("Grayscale"),
        8 => V::T("Indexed"),
        x => V::U(x as i128),
    };
    let v = V::M(vec![
        ("file_size", n(size)),
        ("frames", n(frames)),
        ("width", n(w)),
        ("height", n(hh)),
        ("color_depth", depth_v),
        ("bpp", n(depth)),
        ("pixel_size", match depth {
            32 => n(4),
            16 => n(2),
            8 => n(1),
            _ => V::None,
        }),
        ("flags", n(flags)),
        ("speed", n(speed)),
        ("transparent_index", n(transparent)),
        ("color_count", n(nc)),
        ("pixel_width", n(pw)),
        ("pixel_height", n(ph)),
        ("grid_x", n(gx)),
        ("grid_y", n(gy)),
        ("grid_width", n(gw)),
        ("grid_height", n(gh)),
    ]);
    Ok(Hdr { w, h: hh, depth, flags, transparent, v })
}

/// nesting beyond this depth is outside what the properties specify
pub const MAX_NEST: u32 = 64;

struct Bad;
type PR<T> = Result<T, Bad>;
impl From<Fault> for Bad {
    fn from(_: Fault) -> Self {
        Bad
    }
}

struct Props {
    too_deep: bool,
}

impl Props {
    fn map_body(&mut self, rd: &mut Rd<'_>, id: u32, depth: u32) -> PR<V> {
        if depth > MAX_NEST {
            self.too_deep = true;
            return Err(Bad);
        }
        let k = rd.u32()?;
        let mut l = Vec::new();
        for _ in 0..k {
            let name = rd.str()?;
            let ty = rd.u16()?;
            let v = self.value(ty, rd, depth)?;
            l.push(V::M(vec![("name", name.v()), ("value", v)]));
        }
        Ok(V::M(vec![("extension", n(id)), ("properties", V::L(l))]))
    }
    fn scalar(ty: u16, rd: &mut Rd<'_>) -> PR<V> {
        Ok(match ty {
            1 => b(rd.u8()? != 0),
            2 => n(rd.u8()? as i8),
            3 => n(rd.u8()?),
            4 => n(rd.i16()?),
            5 => n(rd.u16()?),
            6 => n(rd.i32()?),
            7 => n(rd.u32()?),
            8 => n(rd.u64()? as i64),
            9 => n(rd.u64()?),
            10 => fixed_v(rd.u32()?),
            11 => n(rd.u32()?),
            12 => n(rd.u64()?),
            13 => rd.str()?.v(),
            14 | 15 => V::L(vec![n(rd.i32()?), n(rd.i32()?)]),
            16 => V::L(vec![n(rd.i32()?), n(rd.i32()?), n(rd.i32()?), n(rd.i32()?)]),
            19 => {
                let t = rd.take(16)?;
                let mut x = [0u8; 16];
                x.copy_from_slice(t.b);
                V::N(u128::from_le_bytes(x) as i128)
            }
            _ => return Err(Bad),
        })
    }
    fn value(&mut self, ty: u16, rd: &mut Rd<'_>, depth: u32) -> PR<V> {
        let v = match ty {
            17 => self.vector(rd, depth + 1)?,
            18 => self.map_body(rd, 0, depth + 1)?,
            _ => Self::scalar(ty, rd)?,
        };
        Ok(V::M(vec![("type", V::T(type_name(ty))), ("v", v)]))
    }
    fn vector(&mut self, rd: &mut Rd<'_>, depth: u32) -> PR<V> {
        if depth > MAX_NEST {
            self.too_deep = true;
            return Err(Bad);
        }
        let k = rd.u32()?;
        let ty = rd.u16()?;
        if ty > 19 {
            return Err(Bad);
        }
        let mut l = Vec::new();
        for _ in 0..k {
            let v = match ty {
                0 => {
                    let t = rd.u16()?;
                    self.value(t, rd, depth)?
                }
                17 => self.vector(rd, depth + 1)?,
                18 => self.map_body(rd, 0, depth + 1)?,
                _ => Self::scalar(ty, rd)?,
            };
            l.push(v);
        }
        Ok(V::M(vec![("elem", V::T(if ty == 0 { "Mixed" } else { type_name(ty) })), ("items", V::L(l))]))
    }
}

pub fn type_name(t: u16) -> &'static str {
    const N: [&str; 20] = [
        "?", "Bool", "Int8", "Uint8", "Int16", "Uint16", "Int32", "Uint32", "Int64", "Uint64", "Fixed", "Float", "Double", "String", "Point",
        "Size", "Rect", "Vector", "PropertiesMap", "Uuid",
    ];
    N.get(t as usize).copied().unwrap_or("?")
}

fn user_data(rd: &mut Rd<'_>) -> R<V> {
    let flags = rd.u32()?;
    let text = if flags & 1 != 0 { rd.str()?.v() } else { V::None };
    let color = if flags & 2 != 0 {
        color_v([rd.u8()?, rd.u8()?, rd.u8()?, rd.u8()?])
    } else {
        V::None
    };
    let props = if flags & 4 != 0 {
        let size = rd.u32()?;
        let count = rd.u32()?;
        if size < 8 {
            return Err(Fault::PropBlock(size));
        }
        let mut blk = rd.take(size as usize - 8)?;
        let mut p = Props { too_deep: false };
        let mut l = Vec::new();
        let mut bad = false;
        for _ in 0..count {
            let r = (|| {
                let id = blk.u32()?;
                p.map_body(&mut blk, id, 0)
            })();
            match r {
                Ok(v) => l.push(v),
                Err(Bad) => {
                    bad = true;
                    break;
                }
            }
        }
        if p.too_deep {
            V::Any
        } else if bad {
            V::Bad
        } else {
            V::L(l)
        }
    } else {
        V::None
    };
    Ok(V::M(vec![("text", text), ("color", color), ("properties", props)]))
}

fn layer(rd: &mut Rd<'_>) -> R<Layer> {
    let flags = rd.u16()?;
    let ty = rd.u16()?;
    let level = rd.u16()?;
    rd.u16()?;
    rd.u16()?;
    let blend = rd.u16()?;
    let opacity = rd.u8()?;
    rd.take(3)?;
    let name = rd.str()?;
    let tileset = if ty == 2 { n(rd.u32()?) } else { V::None };
    let f = |m: u16| b(flags & m == m);
    let v = V::M(vec![
        ("flags", n(flags & 0x7f)),
        (
            "flag_names",
            V::M(vec![
                ("visible", f(1)),
                ("editable", f(2)),
                ("lock_movement", f(4)),
                ("background", f(8)),
                ("prefer_linked_cels", f(16)),
                ("collapsed", f(32)),
                ("reference", f(64)),
            ]),
        ),
        ("layer_type", layer_ty_v(ty)),
        ("child_level", n(level)),
        ("blend_mode", blend_v(blend)),
        ("opacity", n(opacity)),
        ("name", name.v()),
        ("tileset_index", tileset),
        ("user_data", V::None),
    ]);
    Ok(Layer { flags, ty, level, blend, opacity, name: name.span(), v })
}

fn cel(rd: &mut Rd<'_>) -> R<Cel> {
    let layer = rd.u16()?;
    let x = rd.i16()?;
    let y = rd.i16()?;
    let opacity = rd.u8()?;
    let ty = rd.u16()?;
    let z = rd.i16()?;
    rd.take(5)?;
    let (kind, c) = match ty {
        0 | 2 => {
            let w = rd.u16()?;
            let h = rd.u16()?;
            let im = Image { w, h, data: rd.span(), zip: ty == 2 };
            let v = V::M(vec![("kind", V::T("Image")), ("width", n(w)), ("height", n(h)), ("compressed", b(im.zip)), ("data", rd.v())]);
            (CelKind::Image(im), v)
        }
        1 => {
            let f = rd.u16()?;
            (CelKind::Link(f), V::M(vec![("kind", V::T("Link")), ("frame", n(f))]))
        }
        3 => {
            let w = rd.u16()?;
            let h = rd.u16()?;
            let bpt = rd.u16()?;
            let id = rd.u32()?;
            let xf = rd.u32()?;
            let yf = rd.u32()?;
            let df = rd.u32()?;
            rd.take(10)?;
            let v = V::M(vec![
                ("kind", V::T("Tilemap")),
                ("width", n(w)),
                ("height", n(h)),
                ("bits_per_tile", n(bpt)),
                ("mask_tile_id", n(id)),
                ("mask_x_flip", n(xf)),
                ("mask_y_flip", n(yf)),
                ("mask_diagonal_flip", n(df)),
                ("data", rd.v()),
            ]);
            (CelKind::Other, v)
        }
        t => (CelKind::Other, V::M(vec![("kind", V::U(t as i128)), ("data", rd.v())])),
    };
    let v = V::M(vec![
        ("layer_index", n(layer)),
        ("x", n(x)),
        ("y", n(y)),
        ("opacity", n(opacity)),
        ("z_index", n(z)),
        ("content", c),
        ("user_data", V::None),
    ]);
    Ok(Cel { layer, x, y, opacity, z, kind, v })
}

fn tags(rd: &mut Rd<'_>) -> R<Vec<Tag>> {
    let k = rd.u16()?;
    rd.take(8)?;
    let mut l = Vec::new();
    for _ in 0..k {
        let from = rd.u16()?;
        let to = rd.u16()?;
        if from > to {
            return Err(Fault::TagRange(from, to));
        }
        let dir = rd.u8()?;
        let repeat = rd.u16()?;
        rd.take(6)?;
        let c = [rd.u8()?, rd.u8()?, rd.u8()?];
        rd.u8()?;
        let name = rd.str()?;
        let v = V::M(vec![
            ("from", n(from)),
            ("to", n(to)),
            ("direction", dir_v(dir)),
            ("repeat", n(repeat)),
            ("color", V::L(c.iter().map(|x| n(*x)).collect())),
            ("name", name.v()),
            ("user_data", V::None),
        ]);
        l.push(Tag { from, to, dir, repeat, name: name.span(), v });
    }
    Ok(l)
}

fn slice(rd: &mut Rd<'_>) -> R<V> {
    let k = rd.u32()?;
    let flags = rd.u32()?;
    rd.u32()?;
    let name = rd.str()?;
    let mut l = Vec::new();
    for _ in 0..k {
        let frame = rd.u32()?;
        let (x, y, w, h) = (rd.i32()?, rd.i32()?, rd.u32()?, rd.u32()?);
        let nine = if flags & 1 != 0 {
            V::L(vec![n(rd.i32()?), n(rd.i32()?), n(rd.u32()?), n(rd.u32()?)])
        } else {
            V::None
        };
        let pivot = if flags & 2 != 0 { V::L(vec![n(rd.i32()?), n(rd.i32()?)]) } else { V::None };
        l.push(V::M(vec![
            ("frame", n(frame)),
            ("x", n(x)),
            ("y", n(y)),
            ("width", n(w)),
            ("height", n(h)),
            ("nine_patch", nine),
            ("pivot", pivot),
        ]));
    }
    Ok(V::M(vec![
        ("name", name.v()),
        ("nine_patch_flag", b(flags & 1 != 0)),
        ("pivot_flag", b(flags & 2 != 0)),
        ("keys", V::L(l)),
        ("user_data", V::None),
    ]))
}

fn palette(rd: &mut Rd<'_>) -> R<Chunk> {
    rd.u32()?;
    let first = rd.u32()?;
    if first > 255 {
        return Err(Fault::PalFirst);
    }
    let last = rd.u32()?;
    if last > 255 {
        return Err(Fault::PalLast);
    }
    if first > last {
        return Err(Fault::PalOrder);
    }
    rd.take(8)?;
    let mut l = Vec::new();
    let mut c = Vec::new();
    for _ in first..=last {
        let f = rd.u16()?;
        let col = [rd.u8()?, rd.u8()?, rd.u8()?, rd.u8()?];
        let name = if f & 1 != 0 { rd.str()?.v() } else { V::None };
        c.push(col);
        l.push(V::M(vec![("color", color_v(col)), ("name", name)]));
    }
    let v = V::M(vec![("first", n(first)), ("last", n(last)), ("entries", V::L(l))]);
    Ok(Chunk::Pal(first as u8, last as u8, c, v))
}

fn chunk(rd: &mut Rd<'_>) -> R<Chunk> {
    let size = rd.u32()?;
    if size < 4 {
        return Err(Fault::ChunkSize(size));
    }
    let mut c = rd.take(size as usize - 4)?;
    let ty = c.u16()?;
    let rd = &mut c;
    Ok(match ty {
        0x0004 | 0x0011 => {
            let k = rd.u16()?;
            let mut p = Vec::new();
            for _ in 0..k {
                let skip = rd.u8()?;
                let m = rd.u8()?;
                let m = if m == 0 { 256 } else { m as usize };
                let mut cols = Vec::new();
                for _ in 0..m {
                    cols.push([rd.u8()?, rd.u8()?, rd.u8()?]);
                }
                p.push((skip, cols));
            }
            Chunk::OldPal(ty == 0x11, p)
        }
        0x2004 => Chunk::Layer(layer(rd)?),
        0x2005 => Chunk::Cel(cel(rd)?),
        0x2006 => {
            let flags = rd.u32()?;
            let v: Vec<V> = [rd.u32()?, rd.u32()?, rd.u32()?, rd.u32()?].iter().map(|x| fixed_v(*x)).collect();
            let mut it = v.into_iter();
            let mut nx = || it.next().unwrap_or(V::None);
            Chunk::Extra(V::M(vec![
                ("precise_bounds", b(flags & 1 != 0)),
                ("x", nx()),
                ("y", nx()),
                ("width", nx()),
                ("height", nx()),
                ("future", rd.v()),
            ]))
        }
        0x2007 => {
            let ty = rd.u16()?;
            let flags = rd.u16()?;
            let g = rd.u32()?;
            rd.take(8)?;
            let p = match ty {
                0 => V::T("None"),
                1 => V::T("Srgb"),
                2 => {
                    let k = rd.u32()?;
                    V::M(vec![("icc", rd.take(k as usize)?.v())])
                }
                t => V::U(t as i128),
            };
            Chunk::Other(V::M(vec![
                ("kind", V::T("ColorProfile")),
                ("gamma", if flags & 1 != 0 { fixed_v(g) } else { V::None }),
                ("profile", p),
            ]))
        }
        0x2008 => {
            let k = rd.u32()?;
            rd.take(8)?;
            let mut l = Vec::new();
            for _ in 0..k {
                let id = rd.u32()?;
                let t = rd.u8()?;
                rd.take(7)?;
                let name = rd.str()?;
                let t = match t {
                    0 => V::T("Palette"),
                    1 => V::T("Tileset"),
                    2 => V::T("ExtensionProperties"),
                    t => V::U(t as i128),
                };
                l.push(V::M(vec![("id", n(id)), ("type", t), ("name", name.v())]));
            }
            Chunk::Other(V::M(vec![("kind", V::T("ExternalFiles")), ("files", V::L(l))]))
        }
        0x2016 => {
            let (x, y, w, h) = (rd.i16()?, rd.i16()?, rd.u16()?, rd.u16()?);
            rd.take(8)?;
            let name = rd.str()?;
            Chunk::Other(V::M(vec![
                ("kind", V::T("Mask")),
                ("x", n(x)),
                ("y", n(y)),
                ("width", n(w)),
                ("height", n(h)),
                ("name", name.v()),
                ("data", rd.v()),
            ]))
        }
        0x2017 => Chunk::Other(V::M(vec![("kind", V::T("Path"))])),
        0x2018 => Chunk::Tags(tags(rd)?),
        0x2019 => palette(rd)?,
        0x2020 => Chunk::User(user_data(rd)?),
        0x2022 => Chunk::Slice(slice(rd)?),
        0x2023 => {
            let id = rd.u32()?;
            let flags = rd.u32()?;
            let nt = rd.u32()?;
            let (w, h, base) = (rd.u16()?, rd.u16()?, rd.i16()?);
            rd.take(14)?;
            let name = rd.str()?;
            let ext = if flags & 1 != 0 {
                V::L(vec![n(rd.u32()?), n(rd.u32()?)])
            } else {
                V::None
            };
            let tiles = if flags & 2 != 0 {
                let k = rd.u32()?;
                rd.take(k as usize)?.v()
            } else {
                V::None
            };
            Chunk::Other(V::M(vec![
                ("kind", V::T("Tileset")),
                ("id", n(id)),
                ("flags", n(flags & 0x3f)),
                (
                    "flag_names",
                    V::L((0..6).map(|i| b(flags >> i & 1 != 0)).collect()),
                ),
                ("tiles_count", n(nt)),
                ("width", n(w)),
                ("height", n(h)),
                ("base_index", n(base)),
                ("name", name.v()),
                ("external", ext),
                ("tiles", tiles),
            ]))
        }
        t => Chunk::Unsupported(t),
    })
}

fn frame(rd: &mut Rd<'_>) -> R<Frame> {
    let size = rd.u32()?;
    if size < 4 {
        return Err(Fault::FrameSize(size));
    }
    let mut f = rd.take(size as usize - 4)?;
    if f.u16()? != 0xF1FA {
        return Err(Fault::Magic);
    }
    let old = f.u16()?;
    let duration = f.u16()?;
    f.take(2)?;
    let new = f.u32()?;
    let k = if new == 0 { old as u32 } else { new };
    let mut chunks = Vec::new();
    for _ in 0..k {
        chunks.push(chunk(&mut f)?);
    }
    Ok(Frame { duration, chunks })
}

pub fn raw(bytes: &[u8]) -> R<Raw> {
    let mut rd = Rd { b: bytes, at: 0 };
    let hdr = header(&mut rd)?;
    let mut frames = Vec::new();
    while frames.is_empty() || !rd.b.is_empty() {
        frames.push(frame(&mut rd)?);
    }
    Ok(Raw { hdr, frames })
}

pub fn chunk_v(c: &Chunk) -> V {
    match c {
        Chunk::OldPal(new, p) => V::M(vec![
            ("kind", V::T(if *new { "Palette0011" } else { "Palette0004" })),
            (
                "packets",
                V::L(p
                    .iter()
                    .map(|(s, c)| {
                        V::M(vec![
                            ("skip", n(*s)),
                            (
                                "colors",
                                V::L(c.iter().map(|c| V::L(c.iter().map(|x| n(*x)).collect())).collect()),
                            ),
                        ])
                    })
                    .collect()),
            ),
        ]),
        Chunk::Pal(_, _, _, v) => V::M(vec![("kind", V::T("Palette")), ("v", v.clone())]),
        Chunk::Layer(l) => V::M(vec![("kind", V::T("Layer")), ("v", l.v.clone())]),
        Chunk::Cel(l) => V::M(vec![("kind", V::T("Cel")), ("v", l.v.clone())]),
        Chunk::Tags(l) => V::M(vec![("kind", V::T("Tags")), ("v", V::L(l.iter().map(|t| t.v.clone()).collect()))]),
        Chunk::Slice(v) => V::M(vec![("kind", V::T("Slice")), ("v", v.clone())]),
        Chunk::User(v) => V::M(vec![("kind", V::T("UserData")), ("v", v.clone())]),
        Chunk::Extra(v) => V::M(vec![("kind", V::T("CelExtra")), ("v", v.clone())]),
        Chunk::Other(v) => v.clone(),
        Chunk::Unsupported(t) => V::M(vec![("kind", V::T("Unsupported")), ("code", n(*t))]),
    }
}

pub fn raw_v(r: &Raw) -> V {
    V::M(vec![
        ("header", r.hdr.v.clone()),
        (
            "frames",
            V::L(r
                .frames
                .iter()
                .map(|f| {
                    V::M(vec![
                        ("duration", n(f.duration)),
                        ("chunks", V::L(f.chunks.iter().map(chunk_v).collect())),
                    ])
                })
                .collect()),
        ),
    ])
}
