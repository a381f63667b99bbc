//! Structured description of an aseprite file and its independent encoder
//! (written from the public file format specification).

#[derive(Clone, Debug)]
pub struct Hdr {
    pub file_size: Option<u32>,
    pub magic: u16,
    pub frames: Option<u16>,
    pub w: u16,
    pub h: u16,
    pub depth: u16,
    pub flags: u32,
    pub speed: u16,
    pub zero1: u32,
    pub zero2: u32,
    pub transparent: u8,
    pub ignore: [u8; 3],
    pub ncolors: u16,
    pub pw: u8,
    pub ph: u8,
    pub gx: i16,
    pub gy: i16,
    pub gw: u16,
    pub gh: u16,
    pub future: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct FrameD {
    pub size: Option<u32>,
    pub magic: u16,
    pub old_count: Option<u16>,
    pub duration: u16,
    pub future: [u8; 2],
    pub new_count: Option<u32>,
    pub chunks: Vec<ChunkD>,
    pub pad: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct ChunkD {
    pub size: Option<u32>,
    pub ty: Option<u16>,
    pub body: Body,
    pub pad: Vec<u8>,
}

impl From<Body> for ChunkD {
    fn from(body: Body) -> Self {
        ChunkD { size: None, ty: None, body, pad: vec![] }
    }
}

pub type Str = Vec<u8>;

#[derive(Clone, Debug)]
pub enum CelBody {
    Raw { w: u16, h: u16, data: Vec<u8> },
    Link(u16),
    Zip { w: u16, h: u16, data: Vec<u8> },
    Tilemap { w: u16, h: u16, bpt: u16, id: u32, x: u32, y: u32, d: u32, res: [u8; 10], data: Vec<u8> },
    Unknown(u16, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct TagD {
    pub from: u16,
    pub to: u16,
    pub dir: u8,
    pub repeat: u16,
    pub fut: [u8; 6],
    pub color: [u8; 3],
    pub extra: u8,
    pub name: Str,
}

#[derive(Clone, Debug)]
pub struct KeyD {
    pub frame: u32,
    pub x: i32,
    pub y: i32,
    pub w: u32,
    pub h: u32,
    pub nine: (i32, i32, u32, u32),
    pub pivot: (i32, i32),
}

#[derive(Clone, Debug)]
pub enum PV {
    Bool(u8),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Fixed(u32),
    F32(u32),
    F64(u64),
    Str(Str),
    Point([i32; 2]),
    Size([i32; 2]),
    Rect([i32; 4]),
    /// element type, elements (all of that type)
    Vec(u16, Vec<PV>),
    Mixed(Vec<PV>),
    Map(Vec<(Str, PV)>),
    Uuid([u8; 16]),
}

pub type MapD = (u32, Vec<(Str, PV)>);

#[derive(Clone, Debug)]
pub struct PropsD {
    pub size: Option<u32>,
    pub count: Option<u32>,
    pub maps: Vec<MapD>,
    /// raw replacement for the encoded maps
    pub raw: Option<Vec<u8>>,
    pub pad: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Body {
    Raw(u16, Vec<u8>),
    /// kind 0x0004 / 0x0011, packets (skip, count byte, colours)
    OldPal(u16, Option<u16>, Vec<(u8, Vec<[u8; 3]>)>),
    Layer { flags: u16, ty: u16, level: u16, dw: u16, dh: u16, blend: u16, opacity: u8, fut: [u8; 3], name: Str, tileset: u32 },
    Cel { layer: u16, x: i16, y: i16, opacity: u8, z: i16, fut: [u8; 5], body: CelBody },
    CelExtra { flags: u32, v: [u32; 4], fut: Vec<u8> },
    Profile { ty: u16, flags: u16, gamma: u32, res: [u8; 8], icc: Vec<u8> },
    Ext { count: Option<u32>, res: [u8; 8], e: Vec<(u32, u8, [u8; 7], Str)> },
    Mask { x: i16, y: i16, w: u16, h: u16, fut: [u8; 8], name: Str, data: Vec<u8> },
    Path(Vec<u8>),
    Tags { count: Option<u16>, fut: [u8; 8], tags: Vec<TagD> },
    Pal { size: u32, first: u32, last: u32, fut: [u8; 8], e: Vec<(u16, [u8; 4], Str)> },
    User { flags: u32, text: Str, color: [u8; 4], props: PropsD },
    Slice { count: Option<u32>, flags: u32, res: u32, name: Str, keys: Vec<KeyD> },
    Tileset { id: u32, flags: u32, ntiles: u32, w: u16, h: u16, base: i16, res: [u8; 14], name: Str, ext: (u32, u32), data: Vec<u8> },
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub hdr: Hdr,
    pub frames: Vec<FrameD>,
    pub tail: Vec<u8>,
}

pub trait Put {
    fn p8(&mut self, x: u8);
    fn p16(&mut self, x: u16);
    fn p32(&mut self, x: u32);
    fn pstr(&mut self, s: &[u8]);
    fn put(&mut self, s: &[u8]);
}
impl Put for Vec<u8> {
    fn p8(&mut self, x: u8) {
        self.push(x)
    }
    fn p16(&mut self, x: u16) {
        self.extend_from_slice(&x.to_le_bytes())
    }
    fn p32(&mut self, x: u32) {
        self.extend_from_slice(&x.to_le_bytes())
    }
    fn pstr(&mut self, s: &[u8]) {
        self.p16(s.len() as u16);
        self.extend_from_slice(s);
    }
    fn put(&mut self, s: &[u8]) {
        self.extend_from_slice(s)
    }
}

impl PV {
    pub fn ty(&self) -> u16 {
        match self {
            PV::Bool(_) => 1,
            PV::I8(_) => 2,
            PV::U8(_) => 3,
            PV::I16(_) => 4,
            PV::U16(_) => 5,
            PV::I32(_) => 6,
            PV::U32(_) => 7,
            PV::I64(_) => 8,
            PV::U64(_) => 9,
            PV::Fixed(_) => 10,
            PV::F32(_) => 11,
            PV::F64(_) => 12,
            PV::Str(_) => 13,
            PV::Point(_) => 14,
            PV::Size(_) => 15,
            PV::Rect(_) => 16,
            PV::Vec(..) | PV::Mixed(_) => 17,
            PV::Map(_) => 18,
            PV::Uuid(_) => 19,
        }
    }
    pub fn enc(&self, o: &mut Vec<u8>) {
        match self {
            PV::Bool(x) | PV::U8(x) => o.p8(*x),
            PV::I8(x) => o.p8(*x as u8),
            PV::I16(x) => o.p16(*x as u16),
            PV::U16(x) => o.p16(*x),
            PV::I32(x) => o.p32(*x as u32),
            PV::U32(x) | PV::Fixed(x) | PV::F32(x) => o.p32(*x),
            PV::I64(x) => o.put(&x.to_le_bytes()),
            PV::U64(x) | PV::F64(x) => o.put(&x.to_le_bytes()),
            PV::Str(s) => o.pstr(s),
            PV::Point(p) | PV::Size(p) => p.iter().for_each(|x| o.p32(*x as u32)),
            PV::Rect(p) => p.iter().for_each(|x| o.p32(*x as u32)),
            PV::Vec(ty, v) => {
                o.p32(v.len() as u32);
                o.p16(*ty);
                v.iter().for_each(|x| x.enc(o));
            }
            PV::Mixed(v) => {
                o.p32(v.len() as u32);
                o.p16(0);
                for x in v {
                    o.p16(x.ty());
                    x.enc(o);
                }
            }
            // nested maps carry no extension id
            PV::Map(m) => enc_props(m, o),
            PV::Uuid(u) => o.put(u),
        }
    }
}

fn enc_props(m: &[(Str, PV)], o: &mut Vec<u8>) {
    o.p32(m.len() as u32);
    for (k, v) in m {
        o.pstr(k);
        o.p16(v.ty());
        v.enc(o);
    }
}

impl PropsD {
    pub fn enc(&self, o: &mut Vec<u8>) {
        let mut m = Vec::new();
        match &self.raw {
            Some(r) => m.put(r),
            None => {
                for (id, p) in &self.maps {
                    m.p32(*id);
                    enc_props(p, &mut m);
                }
            }
        }
        m.put(&self.pad);
        o.p32(self.size.unwrap_or(m.len() as u32 + 8));
        o.p32(self.count.unwrap_or(self.maps.len() as u32));
        o.put(&m);
    }
}

impl Body {
    pub fn ty(&self) -> u16 {
        match self {
            Body::Raw(t, _) => *t,
            Body::OldPal(t, ..) => *t,
            Body::Layer { .. } => 0x2004,
            Body::Cel { .. } => 0x2005,
            Body::CelExtra { .. } => 0x2006,
            Body::Profile { .. } => 0x2007,
            Body::Ext { .. } => 0x2008,
            Body::Mask { .. } => 0x2016,
            Body::Path(_) => 0x2017,
            Body::Tags { .. } => 0x2018,
            Body::Pal { .. } => 0x2019,
            Body::User { .. } => 0x2020,
            Body::Slice { .. } => 0x2022,
            Body::Tileset { .. } => 0x2023,
        }
    }
    /// bytes after the known fields are not payload
    pub fn paddable(&self) -> bool {
        match self {
            Body::Cel { body, .. } => matches!(body, CelBody::Link(_)),
            Body::CelExtra { .. } | Body::Mask { .. } => false,
            _ => true,
        }
    }
    pub fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Body::Raw(_, d) | Body::Path(d) => o.put(d),
            Body::OldPal(_, n, p) => {
                o.p16(n.unwrap_or(p.len() as u16));
                for (skip, c) in p {
                    o.p8(*skip);
                    o.p8(c.len() as u8); // 256 -> 0
                    c.iter().for_each(|x| o.put(x));
                }
            }
            Body::Layer { flags, ty, level, dw, dh, blend, opacity, fut, name, tileset } => {
                for x in [flags, ty, level, dw, dh, blend] {
                    o.p16(*x);
                }
                o.p8(*opacity);
                o.put(fut);
                o.pstr(name);
                if *ty == 2 {
                    o.p32(*tileset);
                }
            }
            Body::Cel { layer, x, y, opacity, z, fut, body } => {
                o.p16(*layer);
                o.p16(*x as u16);
                o.p16(*y as u16);
                o.p8(*opacity);
                o.p16(match body {
                    CelBody::Raw { .. } => 0,
                    CelBody::Link(_) => 1,
                    CelBody::Zip { .. } => 2,
                    CelBody::Tilemap { .. } => 3,
                    CelBody::Unknown(t, _) => *t,
                });
                o.p16(*z as u16);
                o.put(fut);
                match body {
                    CelBody::Raw { w, h, data } | CelBody::Zip { w, h, data } => {
                        o.p16(*w);
                        o.p16(*h);
                        o.put(data);
                    }
                    CelBody::Link(f) => o.p16(*f),
                    CelBody::Tilemap { w, h, bpt, id, x, y, d, res, data } => {
                        o.p16(*w);
                        o.p16(*h);
                        o.p16(*bpt);
                        for m in [id, x, y, d] {
                            o.p32(*m);
                        }
                        o.put(res);
                        o.put(data);
                    }
                    CelBody::Unknown(_, d) => o.put(d),
                }
            }
            Body::CelExtra { flags, v, fut } => {
                o.p32(*flags);
                v.iter().for_each(|x| o.p32(*x));
                o.put(fut);
            }
            Body::Profile { ty, flags, gamma, res, icc } => {
                o.p16(*ty);
                o.p16(*flags);
                o.p32(*gamma);
                o.put(res);
                if *ty == 2 {
                    o.p32(icc.len() as u32);
                    o.put(icc);
                }
            }
            Body::Ext { count, res, e } => {
                o.p32(count.unwrap_or(e.len() as u32));
                o.put(res);
                for (id, t, r, s) in e {
                    o.p32(*id);
                    o.p8(*t);
                    o.put(r);
                    o.pstr(s);
                }
            }
            Body::Mask { x, y, w, h, fut, name, data } => {
                o.p16(*x as u16);
                o.p16(*y as u16);
                o.p16(*w);
                o.p16(*h);
                o.put(fut);
                o.pstr(name);
                o.put(data);
            }
            Body::Tags { count, fut, tags } => {
                o.p16(count.unwrap_or(tags.len() as u16));
                o.put(fut);
                for t in tags {
                    o.p16(t.from);
                    o.p16(t.to);
                    o.p8(t.dir);
                    o.p16(t.repeat);
                    o.put(&t.fut);
                    o.put(&t.color);
                    o.p8(t.extra);
                    o.pstr(&t.name);
                }
            }
            Body::Pal { size, first, last, fut, e } => {
                o.p32(*size);
                o.p32(*first);
                o.p32(*last);
                o.put(fut);
                for (f, c, s) in e {
                    o.p16(*f);
                    o.put(c);
                    if f & 1 != 0 {
                        o.pstr(s);
                    }
                }
            }
            Body::User { flags, text, color, props } => {
                o.p32(*flags);
                if flags & 1 != 0 {
                    o.pstr(text);
                }
                if flags & 2 != 0 {
                    o.put(color);
                }
                if flags & 4 != 0 {
                    props.enc(o);
                }
            }
            Body::Slice { count, flags, res, name, keys } => {
                o.p32(count.unwrap_or(keys.len() as u32));
                o.p32(*flags);
                o.p32(*res);
                o.pstr(name);
                for k in keys {
                    o.p32(k.frame);
                    o.p32(k.x as u32);
                    o.p32(k.y as u32);
                    o.p32(k.w);
                    o.p32(k.h);
                    if flags & 1 != 0 {
                        o.p32(k.nine.0 as u32);
                        o.p32(k.nine.1 as u32);
                        o.p32(k.nine.2);
                        o.p32(k.nine.3);
                    }
                    if flags & 2 != 0 {
                        o.p32(k.pivot.0 as u32);
                        o.p32(k.pivot.1 as u32);
                    }
                }
            }
            Body::Tileset { id, flags, ntiles, w, h, base, res, name, ext, data } => {
                o.p32(*id);
                o.p32(*flags);
                o.p32(*ntiles);
                o.p16(*w);
                o.p16(*h);
                o.p16(*base as u16);
                o.put(res);
                o.pstr(name);
                if flags & 1 != 0 {
                    o.p32(ext.0);
                    o.p32(ext.1);
                }
                if flags & 2 != 0 {
                    o.p32(data.len() as u32);
                    o.put(data);
                }
            }
        }
    }
}

impl ChunkD {
    pub fn enc(&self, o: &mut Vec<u8>) {
        let mut b = Vec::new();
        self.body.enc(&mut b);
        b.put(&self.pad);
        o.p32(self.size.unwrap_or(b.len() as u32 + 6));
        o.p16(self.ty.unwrap_or(self.body.ty()));
        o.put(&b);
    }
}

impl FrameD {
    pub fn enc(&self, o: &mut Vec<u8>) {
        let mut b = Vec::new();
        let n = self.chunks.len();
        b.p16(self.magic);
        b.p16(self.old_count.unwrap_or(n.min(0xffff) as u16));
        b.p16(self.duration);
        b.put(&self.future);
        b.p32(self.new_count.unwrap_or(n as u32));
        for c in &self.chunks {
            c.enc(&mut b);
        }
        b.put(&self.pad);
        o.p32(self.size.unwrap_or(b.len() as u32 + 4));
        o.put(&b);
    }
}

impl Doc {
    /// Encode; also returns the offset at which each frame starts.
    pub fn encode_at(&self) -> (Vec<u8>, Vec<usize>) {
        let h = &self.hdr;
        let mut o = Vec::new();
        o.p32(h.file_size.unwrap_or(0));
        o.p16(h.magic);
        o.p16(h.frames.unwrap_or(self.frames.len() as u16));
        o.p16(h.w);
        o.p16(h.h);
        o.p16(h.depth);
        o.p32(h.flags);
        o.p16(h.speed);
        o.p32(h.zero1);
        o.p32(h.zero2);
        o.p8(h.transparent);
        o.put(&h.ignore);
        o.p16(h.ncolors);
        o.p8(h.pw);
        o.p8(h.ph);
        o.p16(h.gx as u16);
        o.p16(h.gy as u16);
        o.p16(h.gw);
        o.p16(h.gh);
        let mut f = h.future.clone();
        f.resize(84, 0);
        o.put(&f);
        let mut at = Vec::new();
        for fr in &self.frames {
            at.push(o.len());
            fr.enc(&mut o);
        }
        o.put(&self.tail);
        if h.file_size.is_none() {
            let n = o.len() as u32;
            o[..4].copy_from_slice(&n.to_le_bytes());
        }
        (o, at)
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_at().0
    }
}

impl Default for Hdr {
    fn default() -> Self {
        Hdr {
            file_size: None,
            magic: 0xA5E0,
            frames: None,
            w: 8,
            h: 8,
            depth: 32,
            flags: 1,
            speed: 100,
            zero1: 0,
            zero2: 0,
            transparent: 0,
            ignore: [0; 3],
            ncolors: 256,
            pw: 1,
            ph: 1,
            gx: 0,
            gy: 0,
            gw: 16,
            gh: 16,
            future: vec![0; 84],
        }
    }
}

impl Default for FrameD {
    fn default() -> Self {
        FrameD {
            size: None,
            magic: 0xF1FA,
            old_count: None,
            duration: 100,
            future: [0; 2],
            new_count: None,
            chunks: vec![],
            pad: vec![],
        }
    }
}

impl PropsD {
    pub fn none() -> Self {
        PropsD { size: None, count: None, maps: vec![], raw: None, pad: vec![] }
    }
}

pub fn layer(name: &str, flags: u16, ty: u16, level: u16, blend: u16, opacity: u8) -> ChunkD {
    Body::Layer { flags, ty, level, dw: 0, dh: 0, blend, opacity, fut: [0; 3], name: name.as_bytes().to_vec(), tileset: 0 }.into()
}
pub fn cel(layer: u16, x: i16, y: i16, opacity: u8, z: i16, body: CelBody) -> ChunkD {
    Body::Cel { layer, x, y, opacity, z, fut: [0; 5], body }.into()
}
pub fn palette(first: u32, colors: &[[u8; 4]]) -> ChunkD {
    Body::Pal {
        size: colors.len() as u32,
        first,
        last: first + colors.len() as u32 - 1,
        fut: [0; 8],
        e: colors.iter().map(|c| (0, *c, vec![])).collect(),
    }
    .into()
}
pub fn text(t: &str) -> ChunkD {
    Body::User { flags: 1, text: t.as_bytes().to_vec(), color: [0; 4], props: PropsD::none() }.into()
}
