//! Reference file view and sprite view, derived from the reference raw view.
use crate::refdec::*;
use crate::val::{n, V};

pub struct FileRef {
    pub palette: Option<Box<[[u8; 4]; 256]>>,
    /// palette before the transparent index was cleared
    pub full_palette: Option<Box<[[u8; 4]; 256]>>,
    pub layers: Vec<(Layer, V)>,
    /// per frame: duration, dense table over layers
    pub frames: Vec<(u16, Vec<Option<(Cel, V)>>)>,
    pub tags: Vec<(Tag, V)>,
    pub slices: Vec<V>,
    pub user: V,
}

fn merge_palette(raw: &Raw) -> Result<Box<[[u8; 4]; 256]>, Fault> {
    let all: Vec<&Chunk> = raw.frames.iter().flat_map(|f| &f.chunks).collect();
    let mut pal = Box::new([[0u8; 4]; 256]);
    if all.iter().any(|c| matches!(c, Chunk::Pal(..))) {
        for c in &all {
            if let Chunk::Pal(first, _, cols, _) = c {
                for (i, c) in cols.iter().enumerate() {
                    pal[*first as usize + i] = *c;
                }
            }
        }
        return Ok(pal);
    }
    for six in [false, true] {
        let mut seen = false;
        let mut any = false;
        for c in &all {
            if let Chunk::OldPal(s, packets) = c {
                if *s != six {
                    continue;
                }
                seen = true;
                let mut at = 0usize;
                for (skip, cols) in packets {
                    at += *skip as usize;
                    if at + cols.len() > 256 {
                        return Err(Fault::PalIndex);
                    }
                    for c in cols {
                        let f = |x: u8| if six { (x << 2) | (x >> 4) } else { x };
                        pal[at] = [f(c[0]), f(c[1]), f(c[2]), 255];
                        at += 1;
                        any = true;
                    }
                }
            }
        }
        if seen {
            return if any { Ok(pal) } else { Err(Fault::PalEmpty) };
        }
    }
    Err(Fault::PalMissing)
}

fn set_user(v: &mut V, u: V) {
    if let V::M(m) = v {
        for (k, x) in m.iter_mut() {
            if *k == "user_data" {
                *x = u;
                return;
            }
        }
    }
}

pub fn file(raw: &Raw) -> Result<FileRef, Fault> {
    let full_palette = if raw.hdr.depth == 8 { Some(merge_palette(raw)?) } else { None };
    let palette = full_palette.clone().map(|mut p| {
        p[raw.hdr.transparent as usize][3] = 0;
        p
    });
    let mut layers = Vec::new();
    let mut tags = Vec::new();
    let mut slices = Vec::new();
    let mut cels: Vec<(u16, Vec<(Cel, V)>)> = Vec::new();
    let mut user = V::None;
    for (fi, f) in raw.frames.iter().enumerate() {
        let ch = &f.chunks;
        let user_at = |i: usize| match ch.get(i) {
            Some(Chunk::User(v)) => Some(v.clone()),
            _ => None,
        };
        let mut fc = Vec::new();
        let mut i = 0;
        while i < ch.len() {
            match &ch[i] {
                Chunk::OldPal(..) | Chunk::Pal(..) => {
                    if fi == 0 && matches!(user, V::None) {
                        if let Some(u) = user_at(i + 1) {
                            user = u;
                        }
                    }
                }
                Chunk::Layer(l) => {
                    let mut v = l.v.clone();
                    set_user(&mut v, user_at(i + 1).unwrap_or(V::None));
                    layers.push((l.clone(), v));
                }
                Chunk::Cel(c) => {
                    let mut v = c.v.clone();
                    let u = match ch.get(i + 1) {
                        Some(Chunk::User(u)) => u.clone(),
                        Some(Chunk::Extra(_)) => match ch.get(i + 2) {
                            Some(Chunk::User(u)) => u.clone(),
                            // several extras in a row: not specified
                            Some(Chunk::Extra(_)) => V::Any,
                            _ => V::None,
                        },
                        _ => V::None,
                    };
                    set_user(&mut v, u);
                    fc.push((c.clone(), v));
                }
                Chunk::Tags(ts) => {
                    let mut j = i + 1;
                    for t in ts {
                        let mut v = t.v.clone();
                        if let Some(u) = user_at(j) {
                            set_user(&mut v, u);
                            j += 1;
                        }
                        tags.push((t.clone(), v));
                    }
                }
                Chunk::Slice(s) => {
                    let mut v = s.clone();
                    set_user(&mut v, user_at(i + 1).unwrap_or(V::None));
                    slices.push(v);
                }
                _ => {}
            }
            i += 1;
        }
        cels.push((f.duration, fc));
    }
    let mut frames = Vec::new();
    for (d, fc) in cels {
        let mut table: Vec<Option<(Cel, V)>> = (0..layers.len()).map(|_| None).collect();
        for c in fc {
            let i = c.0.layer as usize;
            if i >= layers.len() {
                return Err(Fault::LayerIndex);
            }
            table[i] = Some(c);
        }
        frames.push((d, table));
    }
    Ok(FileRef { palette, full_palette, layers, frames, tags, slices, user })
}

pub fn palette_v(p: &Option<Box<[[u8; 4]; 256]>>) -> V {
    match p {
        None => V::None,
        Some(p) => V::L(p.iter().map(|c| V::L(c.iter().map(|x| n(*x)).collect())).collect()),
    }
}

pub fn file_v(raw: &Raw, f: &FileRef) -> V {
    V::M(vec![
        ("header", raw.hdr.v.clone()),
        ("palette", palette_v(&f.palette)),
        ("layers", V::L(f.layers.iter().map(|l| l.1.clone()).collect())),
        (
            "frames",
            V::L(f
                .frames
                .iter()
                .map(|(d, t)| {
                    V::M(vec![
                        ("duration", n(*d)),
                        ("cels", V::L(t.iter().map(|c| c.as_ref().map_or(V::None, |c| c.1.clone())).collect())),
                    ])
                })
                .collect()),
        ),
        ("tags", V::L(f.tags.iter().map(|t| t.1.clone()).collect())),
        ("slices", V::L(f.slices.clone())),
        ("user_data", f.user.clone()),
    ])
}

#[derive(Clone)]
pub struct SCel {
    /// index into SpriteRef.layers
    pub layer: usize,
    pub x: i16,
    pub y: i16,
    pub opacity: u8,
    pub z: i16,
    pub image: Image,
    /// frame that stores the image
    pub home: usize,
}
#[derive(Clone)]
pub struct SLayer {
    pub ty: u16,
    pub own_visible: bool,
    /// visible together with all enclosing groups
    pub shown: bool,
    pub nested: bool,
    pub background: bool,
    pub blend: u16,
    pub opacity: u8,
    pub name: Vec<u8>,
    /// index in the file's layer list
    pub file_index: usize,
}
pub struct SpriteRef {
    pub w: u16,
    pub h: u16,
    pub depth: u16,
    pub layers: Vec<SLayer>,
    pub frames: Vec<(u16, Vec<SCel>)>,
    /// every image a supported layer shows: (frame, file layer, image, only linked)
    pub images: Vec<Image>,
    /// stored images that may or may not be listed (overwritten cels and
    /// images of left-out layers)
    pub optional: Vec<Image>,
    pub palette: Option<Box<[[u8; 4]; 256]>>,
    pub full_palette: Option<Box<[[u8; 4]; 256]>>,
    pub transparent: u8,
    pub tags: Vec<V>,
    pub nslices: usize,
    /// false when the layer tree is not well formed (visibility unspecified)
    pub tree_ok: bool,
}

pub fn sprite(raw: &Raw, f: &FileRef) -> Result<SpriteRef, Fault> {
    // layers
    let mut layers = Vec::new();
    let mut index = vec![None; f.layers.len()];
    let mut stack: Vec<(u16, bool)> = Vec::new(); // (level, shown) of open groups
    let mut tree_ok = true;
    for (i, (l, _)) in f.layers.iter().enumerate() {
        while stack.last().map_or(false, |g| g.0 >= l.level) {
            stack.pop();
        }
        let want = stack.last().map_or(0, |g| g.0 + 1);
        if l.level != want {
            tree_ok = false;
        }
        let own = l.flags & 1 != 0;
        let outer = stack.last().map_or(true, |g| g.1);
        if l.ty == 1 {
            stack.push((l.level, own && outer));
        }
        if l.ty <= 1 {
            index[i] = Some(layers.len());
            layers.push(SLayer {
                ty: l.ty,
                own_visible: own,
                shown: own && outer,
                nested: l.level > 0,
                background: l.flags & 8 != 0,
                blend: l.blend,
                opacity: if raw.hdr.flags & 1 != 0 { l.opacity } else { 255 },
                name: l.name.data.clone(),
                file_index: i,
            });
        }
    }
    let mut images = Vec::new();
    let mut optional = Vec::new();
    let mut frames = Vec::new();
    for (fi, (d, table)) in f.frames.iter().enumerate() {
        let mut cels = Vec::new();
        for (li, slot) in table.iter().enumerate() {
            let Some((c, _)) = slot else { continue };
            let (image, home) = match &c.kind {
                CelKind::Image(im) => (im.clone(), fi),
                CelKind::Link(t) => {
                    let target = f.frames.get(*t as usize).and_then(|x| x.1[li].as_ref());
                    match target {
                        Some((Cel { kind: CelKind::Image(im), .. }, _)) => (im.clone(), *t as usize),
                        _ => return Err(Fault::Link),
                    }
                }
                CelKind::Other => return Err(Fault::CelKind),
            };
            if let CelKind::Image(im) = &c.kind {
                if index[li].is_some() {
                    images.push(im.clone());
                } else {
                    optional.push(im.clone());
                }
            }
            if let Some(layer) = index[li] {
                cels.push(SCel { layer, x: c.x, y: c.y, opacity: c.opacity, z: c.z, image, home });
            }
        }
        frames.push((*d, cels));
    }
    // overwritten cels' images
    for (fi, fr) in raw.frames.iter().enumerate() {
        for c in &fr.chunks {
            if let Chunk::Cel(Cel { layer, kind: CelKind::Image(im), .. }) = c {
                let kept = match &f.frames[fi].1[*layer as usize] {
                    Some((Cel { kind: CelKind::Image(k), .. }, _)) => k.data.off == im.data.off,
                    _ => false,
                };
                if !kept {
                    optional.push(im.clone());
                }
            }
        }
    }
    let tags = f
        .tags
        .iter()
        .map(|(t, _)| {
            V::M(vec![
                ("name", V::S(t.name.clone())),
                ("from", n(t.from)),
                ("to", n(t.to)),
                ("direction", dir_v(t.dir)),
                ("repeat", if t.repeat == 0 { V::None } else { n(t.repeat) }),
            ])
        })
        .collect();
    Ok(SpriteRef {
        w: raw.hdr.w,
        h: raw.hdr.h,
        depth: raw.hdr.depth,
        layers,
        frames,
        images,
        optional,
        palette: f.palette.clone(),
        full_palette: f.full_palette.clone(),
        transparent: raw.hdr.transparent,
        tags,
        nslices: f.slices.len(),
        tree_ok,
    })
}

fn image_v(im: &Image) -> V {
    V::M(vec![("width", n(im.w)), ("height", n(im.h)), ("compressed", crate::val::b(im.zip)), ("data", V::S(im.data.clone()))])
}

/// Order-insensitive key used to compare image lists.
pub fn image_key(v: &V) -> (i128, i128, i128, usize, Vec<u8>) {
    let V::S(s) = v.get("data") else { return (0, 0, 0, 0, vec![]) };
    (v.get("width").n(), v.get("height").n(), v.get("compressed").n(), s.data.len(), s.data.clone())
}

pub fn sprite_v(s: &SpriteRef) -> V {
    V::M(vec![
        ("size", V::L(vec![n(s.w), n(s.h)])),
        (
            "layers",
            V::L(s
                .layers
                .iter()
                .map(|l| {
                    V::M(vec![
                        ("name", V::S(crate::val::Span { off: None, data: l.name.clone() })),
                        ("opacity", n(l.opacity)),
                        ("blend_mode", blend_v(l.blend)),
                        // a hidden group may or may not be folded into this
                        (
                            "visible",
                            if l.own_visible != l.shown || !s.tree_ok { V::Any } else { crate::val::b(l.own_visible) },
                        ),
                        ("layer_type", layer_ty_v(l.ty)),
                    ])
                })
                .collect()),
        ),
        (
            "frames",
            V::L(s
                .frames
                .iter()
                .map(|(d, c)| {
                    V::M(vec![
                        ("duration", n(*d)),
                        (
                            "cels",
                            V::L(c
                                .iter()
                                .map(|c| {
                                    V::M(vec![
                                        ("layer", n(c.layer as i64)),
                                        ("x", n(c.x)),
                                        ("y", n(c.y)),
                                        ("width", n(c.image.w)),
                                        ("height", n(c.image.h)),
                                        ("opacity", n(c.opacity)),
                                        ("image", image_v(&c.image)),
                                    ])
                                })
                                .collect()),
                        ),
                    ])
                })
                .collect()),
        ),
        ("tags", V::L(s.tags.clone())),
        ("slices", n(s.nslices as i64)),
    ])
}

/// Everything at once: accept/refuse and the views.
pub struct Full {
    pub raw: Raw,
    pub file: FileRef,
    pub sprite: Result<SpriteRef, Fault>,
}
pub fn full(b: &[u8]) -> Result<Full, Fault> {
    let raw = raw(b)?;
    let file = file(&raw)?;
    let sprite = sprite(&raw, &file);
    Ok(Full { raw, file, sprite })
}
