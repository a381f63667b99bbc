//! C26 (errors name their cause), C27 (the views agree), C28 (equivalent
//! storage gives equal pictures).
use crate::common::*;
use crate::doc::*;
use crate::gen::{self, Cfg, BASE};
use crate::inflate;
use crate::monitor::guard;
use crate::p_parse::{anything, fixture, fix_counts, soup, sweep, sweep_gen, RICH, SWEEP};
use crate::p_pix::{c02_gen, c13_gen, damage_stream, dims, hurt, img_chunks, loads_small};
use crate::reffile;
use crate::rng::{hash_bytes, mix, Rng};
use aseprite_loader::binary::blend_mode::BlendMode;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::cel::{CelChunk, CelContent};
use aseprite_loader::binary::chunks::layer::{LayerChunk, LayerType};
use aseprite_loader::binary::chunks::slice::SliceChunk;
use aseprite_loader::binary::chunks::tags::Tag;
use aseprite_loader::binary::chunks::user_data::UserDataChunk;
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::image::Image;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::{decompress, AsepriteFile, LayerSelection, LoadImageError, LoadSpriteError};
use std::collections::HashMap;

fn aux_of(r: &mut Rng) -> Vec<u8> {
    r.u64().to_le_bytes().to_vec()
}
fn rng_of(c: &Case) -> Rng {
    let mut a = [0; 8];
    a[..c.aux.len().min(8)].copy_from_slice(&c.aux[..c.aux.len().min(8)]);
    Rng::new(u64::from_le_bytes(a) ^ hash_bytes(&c.bytes))
}

// ------------------------------------------------------------------ C26
/// kind 0: a file; kind 1: a stream for `decompress`, aux = target length
pub fn c26_gen(r: &mut Rng, idx: u64, t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 12) {
        return Case { aux: aux_of(r), ..c };
    }
    match idx % 8 {
        0 => return c13_gen(r, 1000, t), // streams
        1 | 2 => {
            let c = c13_gen(r, 1001, t);
            return Case { kind: 0, aux: aux_of(r), bytes: c.bytes };
        }
        3 => {
            let c = c02_gen(r, 9000, t);
            return Case { kind: 0, aux: aux_of(r), bytes: c.bytes };
        }
        _ => {}
    }
    let mut d = gdoc!(r, Cfg { max_frames: 3, max_layers: 6, hsl: false, far: true, odd_layers: true, ..BASE });
    fix_counts(&mut d);
    let what = 1 + r.below(15);
    if what & 1 != 0 {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Layer { blend, .. } = &mut c.body {
                if r.chance(1, 3) {
                    *blend = if r.chance(1, 2) { 19 + r.below(20) as u16 } else { 19 + r.below(65_517) as u16 };
                }
            }
        }
    }
    if what & 2 != 0 {
        for b in img_chunks(&mut d) {
            if r.chance(1, 3) {
                match b {
                    CelBody::Zip { data, .. } => *data = damage_stream(r, std::mem::take(data)),
                    CelBody::Raw { data, .. } => {
                        let n = data.len();
                        data.resize(*r.pick(&[n + 1, n.saturating_sub(1), n / 2, n * 2 + 1, 0]), 7);
                    }
                    _ => {}
                }
            }
        }
    }
    if what & 4 != 0 {
        hurt(r, &mut d);
    }
    if what & 8 != 0 && r.chance(1, 2) {
        d.hdr.depth = *r.pick(&[0u16, 1, 4, 7, 9, 24, 31, 33, 64, 0x0800, 0x2000, 0x0820, 0xffff]);
    }
    Case { kind: 0, aux: aux_of(r), bytes: d.encode() }
}
/// What is wrong with something.
#[derive(Default, Debug)]
struct Faults {
    small: bool,
    depth: bool,
    /// the stream is damaged or cut off
    stream: bool,
    /// the amount of pixel data is wrong
    length: bool,
    /// as `length`, and an inflater may stop before it finds out
    long: bool,
    modes: Vec<u16>,
    /// nothing can be said
    open: bool,
}
impl Faults {
    fn explains(&self, e: &LoadImageError) -> bool {
        use LoadImageError::*;
        self.open
            || match e {
                TargetBufferTooSmall => self.small,
                UnsupportedColorDepth => self.depth,
                UnsupportedBlendMode(BlendMode::Unknown(n)) => self.modes.contains(n),
                UnsupportedBlendMode(_) => false,
                DecompressError => self.stream || self.long,
                InvalidImageData => self.length || self.long,
                // indexed sprites without palette do not load
                MissingPalette => false,
            }
    }
    fn stream(&mut self, data: &[u8], n: usize) {
        match inflate::zlib(data, n * 8 + (1 << 20)) {
            Ok(v) if v.len() == n => {}
            Ok(v) if v.len() > n => self.long = true,
            Ok(_) => self.length = true,
            Err(()) => match inflate::zlib_lenient(data, n * 8 + (1 << 20)) {
                // decoders may disagree
                Ok(_) => self.open = true,
                Err(()) => self.stream = true,
            },
        }
    }
    fn image(&mut self, depth: u16, im: &Image<'_>) {
        let bpp = match depth {
            32 => 4,
            16 => 2,
            8 => 1,
            _ => {
                self.depth = true;
                return;
            }
        };
        let n = im.width as usize * im.height as usize * bpp;
        if im.compressed {
            self.stream(im.data, n);
        } else if im.data.len() != n {
            self.length = true;
        }
    }
}
fn name(e: &LoadImageError) -> String {
    format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect()
}
pub fn c26_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c26_check);
    }
    let b = &c.bytes;
    if c.kind == 1 {
        let len = u32::from_le_bytes([c.aux[0], c.aux[1], c.aux[2], c.aux[3]]) as usize;
        let mut t = vec![0xA5; len];
        let out = guard(|| decompress(b, &mut t)).map_err(|_| Out::Skip("decompress panicked (C02)"))?;
        let Err(e) = out else { return Err(Out::Skip("nothing fails")) };
        let mut f = Faults::default();
        f.stream(b, len);
        if !f.explains(&e) {
            return Err(Bad(format!("decompress of {} bytes into {len} reports {}, but is wrong is {f:?}", b.len(), name(&e))));
        }
        ctx.add(&format!("decompress: {}", name(&e)), 1);
        ctx.outcomes.insert(mix(hash_bytes(b), len as u64));
        ctx.nontriv(|| format!("decompress {} bytes into {len}: {}", b.len(), name(&e)));
        return Ok(());
    }
    let a = match guard(|| AsepriteFile::load(b)).map_err(|_| Out::Skip("load panicked (C01)"))? {
        Ok(a) => a,
        Err(LoadSpriteError::Parse { message }) => {
            if message.is_empty() {
                return Err(Bad("loading fails without any message".into()));
            }
            ctx.add("load: Parse", 1);
            return Ok(());
        }
        Err(e) => return Err(Bad(format!("loading looks nothing up, but reports {e:?}"))),
    };
    if too_big(&a) {
        return Err(Out::Skip("too large"));
    }
    let depth = u16::from_le_bytes([b[12], b[13]]);
    let mut r = rng_of(c);
    let mut per_image: HashMap<usize, Faults> = HashMap::new();
    let mut seen = 0;
    let mut note = |e: &LoadImageError, ctx: &mut Ctx, what: &str| {
        ctx.add(&format!("{what}: {}", name(e)), 1);
        ctx.fold(hash_bytes(name(e).as_bytes()));
        seen += 1;
    };
    for i in some(&mut r, a.images.len(), 8) {
        let mut f = Faults::default();
        f.image(depth, &a.images[i]);
        let n = dims(&a, i) * 4;
        for len in [n, n.saturating_sub(1), n + 5] {
            f.small = len < n;
            let mut buf = vec![0; len];
            let out = dec(&a, i, &mut buf).map_err(|_| Out::Skip("decode panicked (C02)"))?;
            if let Err(e) = out {
                if !f.explains(&e) {
                    return Err(Bad(format!("load_image({i}) into {len} of {n} bytes reports {}, but is wrong is {f:?}", name(&e))));
                }
                note(&e, ctx, "load_image");
            }
        }
        f.small = false;
        let _ = per_image.insert(i, f);
    }
    let (w, h) = a.size();
    let n = w as usize * h as usize * 4;
    let nl = a.layers().len();
    let mask: Vec<bool> = (0..nl).map(|_| r.chance(1, 2)).collect();
    for fr in some(&mut r, a.frames().len(), 4) {
        for sel in [LayerSelection::Visible, LayerSelection::All, LayerSelection::Mask(mask.clone())] {
            let mut f = Faults::default();
            for cel in &a.frames()[fr].cels {
                let (Some(l), Some(im)) = (a.layers().get(cel.layer_index), a.images.get(cel.image_index)) else {
                    return Err(Out::Skip("bad reference in the loaded sprite (C16)"));
                };
                let on = match &sel {
                    LayerSelection::Visible => l.visible,
                    LayerSelection::All => true,
                    LayerSelection::Mask(m) => m[cel.layer_index],
                };
                if l.layer_type == LayerType::Group || !on {
                    continue;
                }
                if let BlendMode::Unknown(n) = l.blend_mode {
                    f.modes.push(n);
                }
                f.image(depth, im);
            }
            for len in [n, n.saturating_sub(1 + r.below(4))] {
                f.small = len < n;
                let mut buf = vec![0; len];
                let out = guard(|| a.render_frame(fr, &mut buf, &sel)).map_err(|_| Out::Skip("rendering panicked (C02)"))?;
                if let Err(e) = out {
                    if !f.explains(&e) {
                        return Err(Bad(format!("render_frame({fr}, {sel:?}) into {len} of {n} bytes reports {e:?}, but is wrong is {f:?}")));
                    }
                    note(&e, ctx, "render_frame");
                }
                if sel == LayerSelection::Visible {
                    let mut buf = vec![0; len];
                    #[allow(deprecated)]
                    let out = guard(|| a.combined_frame_image(fr, &mut buf)).map_err(|_| Out::Skip("rendering panicked (C02)"))?;
                    if let Err(e) = out {
                        if !f.explains(&e) {
                            return Err(Bad(format!("combined_frame_image({fr}) into {len} of {n} bytes reports {e:?}, but is wrong is {f:?}")));
                        }
                        note(&e, ctx, "combined_frame_image");
                    }
                }
            }
        }
    }
    ctx.outcomes.insert(hash_bytes(b));
    if seen > 0 {
        ctx.nontriv(|| format!("{seen} failures; {}", describe(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C27
pub fn c27_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    if let Some(c) = fixture(idx) {
        return c;
    }
    let bytes = match r.below(10) {
        0..=2 => gdoc!(r, Cfg { raw_cels: r.chance(1, 5), user: 2, ..RICH }).encode(),
        3 | 4 => soup(r).encode(),
        5 => anything(r),
        6 => gen::hostile(r, 6000),
        _ => {
            let b = gdoc!(r, Cfg { max_frames: 3, user: 2, burst: false, ..RICH }).encode();
            gen::mutate(r, b)
        }
    };
    Case { kind: 0, aux: vec![], bytes }
}
type Place<'a> = (usize, usize, &'a str);
fn at(s: &str) -> Place<'_> {
    (s.as_ptr() as usize, s.len(), s)
}
fn layer_str(l: &LayerChunk<'_>) -> String {
    format!("{:?}", (&l.flags, l.layer_type, l.child_level, l.blend_mode, l.opacity, at(l.name), l.tileset_index))
}
fn cel_str(c: &CelChunk<'_>) -> String {
    let content = match &c.content {
        CelContent::Image(i) => image_str(i),
        c => format!("{c:?}"),
    };
    format!("{:?}", (c.layer_index, c.x, c.y, c.opacity, c.z_index, content))
}
fn image_str(i: &Image<'_>) -> String {
    format!("{:?}", (i.width, i.height, i.compressed, i.data.as_ptr() as usize, i.data.len()))
}
#[allow(deprecated)]
fn tag_str(t: &Tag<'_>) -> String {
    format!("{:?}", (&t.frames, t.animation_direction, t.animation_repeat, t.color, at(t.name)))
}
fn slice_str(s: &SliceChunk<'_>) -> String {
    format!("{:?}", (at(s.name), s.flags, &s.slice_keys))
}
fn user_str(u: &UserDataChunk<'_>) -> String {
    format!("{:?}", (u.text.map(at), u))
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> Res<()> {
    if a == b {
        return Ok(());
    }
    let cut = |s: String| s.chars().take(160).collect::<String>();
    Err(Bad(format!("{what}: {} and {}", cut(format!("{a:?}")), cut(format!("{b:?}")))))
}
pub fn c27_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| b.len() >= 128, c27_check);
    }
    let b = &c.bytes;
    if b.len() > 1 << 18 {
        return Err(Out::Skip("too large"));
    }
    let panicked = |_| Out::Skip("parser panicked (C01)");
    let raw = guard(|| parse_raw_file(b)).map_err(panicked)?;
    let file = guard(|| parse_file(b)).map_err(panicked)?;
    let sprite = guard(|| AsepriteFile::load(b)).map_err(panicked)?;
    ctx.add("inputs seen through all views", 1);
    let (raw, file, sprite) = match (raw, file, sprite) {
        (Err(_), Err(_), Err(_)) => {
            ctx.add("refused by all", 1);
            return Ok(());
        }
        (Err(_), ..) => return Err(Bad("refused by the raw parser, but accepted as a file or sprite".into())),
        (_, Err(_), Ok(_)) => return Err(Bad("refused by the file parser, but loads".into())),
        (Ok(_), Err(_), _) => {
            ctx.add("accepted by the raw parser only", 1);
            return Ok(());
        }
        (Ok(r), Ok(f), s) => (r, f, s.ok()),
    };
    same("the headers differ", raw.header, file.header)?;
    same("the numbers of frames differ", raw.frames.len(), file.frames.len())?;
    // user data are chunks of the file, none of them used twice
    let mut users: HashMap<String, usize> = HashMap::new();
    let (mut layers, mut tags, mut slices) = (vec![], vec![], vec![]);
    for ch in raw.frames.iter().flat_map(|f| &f.chunks) {
        match ch {
            Chunk::Layer(l) => layers.push(layer_str(l)),
            Chunk::Tags(t) => tags.extend(t.tags.iter().map(tag_str)),
            Chunk::Slice(s) => slices.push(slice_str(s)),
            Chunk::UserData(u) => *users.entry(user_str(u)).or_default() += 1,
            _ => {}
        }
    }
    same("layers of the raw view and the file", layers, file.layers.iter().map(layer_str).collect())?;
    same("tags of the raw view and the file", tags, file.tags.iter().map(tag_str).collect())?;
    same("slices of the raw view and the file", slices, file.slices.iter().map(slice_str).collect())?;
    let attached = file
        .layers
        .iter()
        .filter_map(|x| x.user_data.as_ref())
        .chain(file.tags.iter().filter_map(|x| x.user_data.as_ref()))
        .chain(file.slices.iter().filter_map(|x| x.user_data.as_ref()))
        .chain(file.frames.iter().flat_map(|f| &f.cels).flatten().filter_map(|x| x.user_data.as_ref()))
        .chain(&file.user_data);
    let mut n_users = 0;
    for u in attached {
        match users.get_mut(&user_str(u)) {
            Some(n) if *n > 0 => *n -= 1,
            _ => return Err(Bad(format!("user data {:?} of the file view is no user data chunk of the file, or one used twice", u.text))),
        }
        n_users += 1;
    }
    ctx.add("user data matched", n_users);
    let nl = file.layers.len();
    for (i, (rf, ff)) in raw.frames.iter().zip(&file.frames).enumerate() {
        same("frame durations", rf.duration, ff.duration)?;
        same("slots for cels", nl, ff.cels.len())?;
        let mut want: Vec<Option<String>> = vec![None; nl];
        let mut listed = 0;
        for ch in &rf.chunks {
            if let Chunk::Cel(c) = ch {
                listed += 1;
                match want.get_mut(usize::from(c.layer_index)) {
                    Some(x) => *x = Some(cel_str(c)),
                    None => return Err(Bad(format!("accepted although a cel is on layer {} of {nl}", c.layer_index))),
                }
            }
        }
        same("cels() of a raw frame", listed, rf.cels().count())?;
        same(&format!("cels of frame {i} of the raw view and the file"), want, ff.cels.iter().map(|c| c.as_ref().map(cel_str)).collect())?;
        ctx.add("frames compared", 1);
    }
    ctx.outcomes.insert(hash_bytes(b));
    ctx.fold(mix(nl as u64, file.tags.len() as u64));
    let Some(s) = sprite else {
        ctx.add("accepted by the raw and file parsers", 1);
        ctx.nontriv(|| format!("raw and file; {}", describe(b)));
        return Ok(());
    };
    // the sprite and its file
    same("the sprite's file and the parsed file", format!("{:?}", s.file), format!("{file:?}"))?;
    same("canvas sizes", s.size(), (file.header.width, file.header.height))?;
    same("image counts", s.image_count(), s.images.len())?;
    same("layers and layers()", s.layers.len(), s.layers().len())?;
    same("slices", s.slices().iter().map(slice_str).collect::<Vec<_>>(), file.slices.iter().map(slice_str).collect())?;
    let kept: Vec<usize> = (0..nl).filter(|&i| matches!(file.layers[i].layer_type, LayerType::Normal | LayerType::Group)).collect();
    let opaque = file.header.flags & 1 == 0;
    same(
        "layers of the file and the sprite",
        kept.iter().map(|&i| &file.layers[i]).map(|l| format!("{:?}", (l.name, if opaque { 255 } else { l.opacity }, l.blend_mode, l.layer_type))).collect::<Vec<_>>(),
        s.layers().iter().map(|l| format!("{:?}", (&l.name, l.opacity, l.blend_mode, l.layer_type))).collect(),
    )?;
    same(
        "tags of the file and the sprite",
        file.tags.iter().map(|t| format!("{:?}", (t.name, &t.frames, t.animation_direction, Some(t.animation_repeat).filter(|n| *n > 0)))).collect::<Vec<_>>(),
        s.tags().iter().map(|t| format!("{:?}", (&t.name, &t.range, t.direction, t.repeat))).collect(),
    )?;
    same("frames of the file and the sprite", file.frames.len(), s.frames().len())?;
    for (i, (ff, sf)) in file.frames.iter().zip(s.frames()).enumerate() {
        same("frame durations of the file and the sprite", ff.duration, sf.duration)?;
        same(&format!("number of cels of frame {i}"), kept.iter().filter(|&&l| ff.cels[l].is_some()).count(), sf.cels.len())?;
        for cel in &sf.cels {
            let fc = kept.get(cel.layer_index).and_then(|&l| ff.cels[l].as_ref().map(|c| (l, c)));
            let Some((l, fc)) = fc else {
                return Err(Bad(format!("frame {i} of the sprite has a cel on layer {}, the file has none", cel.layer_index)));
            };
            same("cel origins", (fc.x, fc.y), cel.origin)?;
            same("cel opacities", fc.opacity, cel.opacity)?;
            let im = match &fc.content {
                CelContent::Image(im) => Some(im),
                CelContent::LinkedCel { frame_position } => match file.frames.get(usize::from(*frame_position)).and_then(|f| f.cels[l].as_ref()).map(|c| &c.content) {
                    Some(CelContent::Image(im)) => Some(im),
                    _ => None,
                },
                _ => None,
            };
            let (Some(im), Some(got)) = (im, s.images.get(cel.image_index)) else {
                return Err(Bad(format!("frame {i} of the sprite shows an image where the file has none")));
            };
            same("the image of a cel", image_str(im), image_str(got))?;
            same("the size of a cel and its image", (im.width, im.height), cel.size)?;
            ctx.add("sprite cels traced to the file", 1);
        }
    }
    ctx.nontriv(|| format!("all three views; {}", describe(b)));
    Ok(())
}

// ------------------------------------------------------------------ C28
/// aux = seed of the rewriting, then the rewritten file; the order of its
/// frames is stored in front of it
pub fn c28_gen(r: &mut Rng, _idx: u64, _t: bool) -> Case {
    let depth = *r.pick(&[32u16, 32, 16, 8, 8]);
    let mut d = gdoc!(r, Cfg { depth: Some(depth), max_frames: 5, max_layers: 6, max_cel: 10, max_canvas: 14, hsl: r.chance(1, 4), far: r.chance(1, 4), palettes: true, odd_layers: r.chance(1, 3), ..BASE });
    fix_counts(&mut d);
    let x = d.encode();
    let mut how = vec![];
    let (e, order) = rewrite(r, d, &x, &mut how);
    let mut aux = vec![how.len() as u8];
    for h in &how {
        aux.push(h.len() as u8);
        aux.extend_from_slice(h.as_bytes());
    }
    put16(&mut aux, order.len() as u16);
    order.iter().for_each(|o| put16(&mut aux, *o as u16));
    aux.extend(e.encode());
    Case { kind: 0, aux, bytes: x }
}
fn stored_px(b: &CelBody, bpp: usize) -> Option<(u16, u16, Vec<u8>)> {
    match b {
        CelBody::Raw { w, h, data } => Some((*w, *h, data.clone())),
        CelBody::Zip { w, h, data } => inflate::zlib(data, *w as usize * *h as usize * bpp).ok().map(|v| (*w, *h, v)),
        _ => None,
    }
}
fn store(r: &mut Rng, w: u16, h: u16, px: Vec<u8>) -> CelBody {
    if r.chance(1, 3) {
        CelBody::Raw { w, h, data: px }
    } else {
        CelBody::Zip { w, h, data: gen::zlib(r, &px) }
    }
}
/// The same pictures, stored in another way. Gives the frame order, too:
/// frame i of the result is frame `order[i]` of the original.
fn rewrite(r: &mut Rng, mut d: Doc, x: &[u8], how: &mut Vec<&'static str>) -> (Doc, Vec<usize>) {
    let mut order: Vec<usize> = (0..d.frames.len()).collect();
    let what = r.u32();
    let on = |k: u32| what >> (2 * k) & 3 == 0;
    let bpp = d.hdr.depth as usize / 8;
    // links become copies
    let copies = on(0) || on(5) || on(6);
    if copies {
        how.push("links copied");
        let old = d.clone();
        for f in &mut d.frames {
            for c in &mut f.chunks {
                if let Body::Cel { layer, body, .. } = &mut c.body {
                    if let CelBody::Link(to) = *body {
                        let found = old.frames.get(to as usize).and_then(|f| {
                            f.chunks.iter().rev().find_map(|c| match &c.body {
                                Body::Cel { layer: l, body, .. } if l == layer => Some(body.clone()),
                                _ => None,
                            })
                        });
                        if let Some(b) = found {
                            *body = b;
                        }
                    }
                }
            }
        }
    }
    // other encoding of the pixels
    if on(1) {
        how.push("pixels stored anew");
        for b in img_chunks(&mut d) {
            if let Some((w, h, px)) = stored_px(b, bpp) {
                *b = store(r, w, h, px);
            }
        }
    }
    // palette
    if on(2) && d.hdr.depth == 8 {
        let pal = reffile::full(x).ok().and_then(|f| f.sprite.ok()).and_then(|s| s.full_palette);
        if let Some(p) = pal {
            let k = 1 + r.below(4);
            let mut cuts: Vec<usize> = (0..k).map(|_| r.below(257)).collect();
            cuts.extend([0, 256]);
            cuts.sort();
            cuts.dedup();
            let mut new: Vec<ChunkD> = cuts
                .windows(2)
                .map(|w| Body::Pal { size: 256, first: w[0] as u32, last: w[1] as u32 - 1, fut: [0; 8], e: (w[0]..w[1]).map(|i| (0, p[i], vec![])).collect() }.into())
                .collect();
            for f in &mut d.frames {
                f.chunks.retain(|c| !matches!(c.body, Body::Pal { .. } | Body::OldPal(..)));
            }
            while let Some(c) = if new.is_empty() { None } else { Some(new.swap_remove(r.below(new.len()))) } {
                let f = r.below(d.frames.len());
                let at = r.below(d.frames[f].chunks.len() + 1);
                d.frames[f].chunks.insert(at, c);
            }
            how.push("palette split");
        }
    }
    // header fields that say nothing about pixels
    if on(3) {
        how.push("header");
        let h = &mut d.hdr;
        (h.speed, h.ncolors, h.pw, h.ph) = (r.u16(), r.u16(), r.u8(), r.u8());
        (h.gx, h.gy, h.gw, h.gh) = (r.u16() as i16, r.u16() as i16, r.u16(), r.u16());
        h.file_size = Some(r.u32());
        h.frames = Some(r.u16());
        for f in &mut d.frames {
            f.duration = r.u16();
        }
    }
    // opacities that are not valid mean opaque layers
    if on(4) && d.hdr.flags & 1 == 0 {
        how.push("opacity flag");
        d.hdr.flags |= 1;
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Layer { opacity, .. } = &mut c.body {
                *opacity = 255;
            }
        }
    }
    // cut off what is outside of the canvas
    if on(5) {
        how.push("cels cropped");
        let (cw, ch) = (d.hdr.w as i32, d.hdr.h as i32);
        for f in &mut d.frames {
            for c in &mut f.chunks {
                let Body::Cel { x, y, body, .. } = &mut c.body else { continue };
                let Some((w, h, px)) = stored_px(body, bpp) else { continue };
                if px.len() != w as usize * h as usize * bpp {
                    continue;
                }
                let (x0, y0) = ((*x as i32).max(0), (*y as i32).max(0));
                let (x1, y1) = ((*x as i32 + w as i32).min(cw), (*y as i32 + h as i32).min(ch));
                if x1 <= x0 || y1 <= y0 {
                    *body = store(r, 0, 0, vec![]);
                    continue;
                }
                let mut new = vec![];
                for yy in y0..y1 {
                    let at = ((yy - *y as i32) as usize * w as usize + (x0 - *x as i32) as usize) * bpp;
                    new.extend_from_slice(&px[at..at + (x1 - x0) as usize * bpp]);
                }
                (*x, *y) = (x0 as i16, y0 as i16);
                *body = store(r, (x1 - x0) as u16, (y1 - y0) as u16, new);
            }
        }
    }
    // all that is no cel goes into the first frame, frames and cels change places
    if on(6) {
        how.push("frames and cels reordered");
        let mut front = vec![];
        for f in &mut d.frames {
            let (cels, rest): (Vec<ChunkD>, Vec<ChunkD>) = std::mem::take(&mut f.chunks).into_iter().partition(|c| matches!(c.body, Body::Cel { .. }));
            front.extend(rest);
            f.chunks = cels;
        }
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i + 1));
        }
        let old = std::mem::take(&mut d.frames);
        d.frames = order.iter().map(|&i| old[i].clone()).collect();
        for f in &mut d.frames {
            for i in (1..f.chunks.len()).rev() {
                let j = r.below(i + 1);
                f.chunks.swap(i, j);
            }
        }
        match r.below(4) {
            0 | 1 => {
                front.extend(std::mem::take(&mut d.frames[0].chunks));
                d.frames[0].chunks = front;
            }
            2 => {
                // layers may come later than their cels
                let f = r.below(d.frames.len());
                d.frames[f].chunks.extend(front);
            }
            _ => {
                let mut f = 0;
                for c in front {
                    if r.chance(1, 3) {
                        f = (f + r.below(2)).min(d.frames.len() - 1);
                    }
                    d.frames[f].chunks.push(c);
                }
            }
        }
    }
    // the same order of drawing by other z-indices
    if on(12) {
        how.push("z-indices respaced");
        for f in &mut d.frames {
            let mut cels: Vec<(i32, i32, i32, &mut i16)> = f
                .chunks
                .iter_mut()
                .filter_map(|c| match &mut c.body {
                    Body::Cel { layer, z, .. } => Some((i32::from(*layer) + i32::from(*z), i32::from(*z), i32::from(*layer), z)),
                    _ => None,
                })
                .collect();
            cels.sort_by_key(|c| (c.0, c.1));
            let step = *r.pick(&[1usize, 2, 9, 300]);
            let mut at = -(r.below(1 + step * cels.len()) as i32);
            let mut new = vec![];
            for i in 0..cels.len() {
                // cels of one layer replace each other, they stay together
                let (o, z0, layer) = (cels[i].0, cels[i].1, cels[i].2);
                if i > 0 && !(cels[i - 1].0 == o && cels[i - 1].1 == z0) {
                    at += 1 + r.below(step) as i32;
                }
                new.push(i16::try_from(at - layer));
            }
            if new.iter().all(|z| z.is_ok()) {
                cels.iter_mut().zip(new).for_each(|(c, z)| *c.3 = z.unwrap_or(0));
            }
        }
    }
    // one more visible group around everything
    if on(7) && !d.frames.iter().flat_map(|f| &f.chunks).any(|c| matches!(c.body, Body::Cel { layer: 0xffff, .. })) {
        let first = d.frames.iter().enumerate().find_map(|(f, fr)| fr.chunks.iter().position(|c| matches!(c.body, Body::Layer { .. })).map(|c| (f, c)));
        if let Some((f, at)) = first {
            how.push("all in one group");
            for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
                match &mut c.body {
                    Body::Layer { level, .. } => *level += 1,
                    Body::Cel { layer, .. } => *layer += 1,
                    _ => {}
                }
            }
            let g = Body::Layer { flags: 1, ty: 1, level: 0, dw: 0, dh: 0, blend: 0, opacity: 255, fut: [0; 3], name: b"all".to_vec(), tileset: 0 };
            d.frames[f].chunks.insert(at, g.into());
        }
    }
    // layers without cels at the top
    if on(8) {
        how.push("empty layers");
        for _ in 0..1 + r.below(3) {
            let l = Body::Layer { flags: r.below(2) as u16, ty: r.below(4) as u16, level: 0, dw: 0, dh: 0, blend: r.below(30) as u16, opacity: r.u8(), fut: [0; 3], name: gen::name(r), tileset: 0 };
            d.frames.last_mut().expect("a frame").chunks.push(l.into());
        }
    }
    // other chunks in between
    if on(9) {
        how.push("other chunks");
        for f in &mut d.frames {
            for _ in 0..r.below(4) {
                let c: ChunkD = match r.below(6) {
                    0 => {
                        let k = r.below(20);
                        Body::Raw(*r.pick(&[1u16, 0x2003, 0x2015, 0x2024, 0x7777, 0xffff]), r.bytes(k)).into()
                    }
                    1 => gen::user(r, true),
                    2 => gen::slice(r).into(),
                    3 => gen::cel_extra(r).into(),
                    _ => gen::misc(r).into(),
                };
                let at = r.below(f.chunks.len() + 1);
                f.chunks.insert(at, c);
            }
        }
    }
    // pixels of another format
    if on(10) && d.hdr.depth != 32 {
        let pal = reffile::full(x).ok().and_then(|f| f.sprite.ok()).and_then(|s| s.palette);
        let background = d.frames.iter().flat_map(|f| &f.chunks).any(|c| matches!(c.body, Body::Layer { flags, .. } if flags & 8 != 0));
        let pal = if d.hdr.depth == 16 { Some(Box::new([[0; 4]; 256])) } else { pal };
        if let (Some(p), false) = (pal, background && d.hdr.depth == 8) {
            how.push("other colour depth");
            for b in img_chunks(&mut d) {
                if let Some((w, h, px)) = stored_px(b, bpp) {
                    let px = if bpp == 2 { px.chunks(2).flat_map(|p| [p[0], p[0], p[0], p[1]]).collect() } else { px.iter().flat_map(|i| p[*i as usize]).collect() };
                    *b = store(r, w, h, px);
                }
            }
            d.hdr.depth = 32;
        }
    }
    // the other field for the number of chunks, bytes behind the last one
    for f in &mut d.frames {
        let n = f.chunks.len();
        (f.old_count, f.new_count) = match r.below(3) {
            0 if n < 0xffff && n > 0 => (Some(n as u16), Some(0)),
            1 => (Some(0xffff), Some(n as u32)),
            _ => (None, None),
        };
        if f.old_count == Some(0xffff) && n == 0 {
            (f.old_count, f.new_count) = (None, None);
        }
        f.pad = if on(11) { let k = r.below(9); r.bytes(k) } else { vec![] };
    }
    (d, order)
}
/// All frames, once with the visible and once with all layers.
fn pictures(a: &AsepriteFile<'_>, frames: &[usize]) -> Res<Vec<Option<Vec<u8>>>> {
    let (w, h) = a.size();
    let n = w as usize * h as usize;
    let mut v = vec![];
    for &f in frames {
        for sel in [LayerSelection::Visible, LayerSelection::All] {
            let mut r = Rng::new(n as u64);
            let mut buf = flat(&back_px(&mut r, n));
            let out = guard(|| a.render_frame(f, &mut buf, &sel)).map_err(|_| Out::Skip("rendering panicked (C02)"))?;
            v.push(out.ok().map(|_| buf));
        }
    }
    Ok(v)
}
pub fn c28_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let b = &c.bytes;
    let mut p = 1;
    let mut how = vec![];
    for _ in 0..c.aux[0] {
        let n = c.aux[p] as usize;
        how.push(String::from_utf8_lossy(&c.aux[p + 1..p + 1 + n]).into_owned());
        p += 1 + n;
    }
    let get = |p: usize| u16::from_le_bytes([c.aux[p], c.aux[p + 1]]) as usize;
    let order: Vec<usize> = (0..get(p)).map(|i| get(p + 2 + 2 * i)).collect();
    let other = &c.aux[p + 2 + 2 * order.len()..];
    let what = how.join(", ");
    let load = |b| guard(|| AsepriteFile::load(b)).map_err(|_| Out::Skip("load panicked (C01)"));
    let (x, y) = (load(b)?, load(other)?);
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Err(_)) => return Err(Out::Skip("neither form loads")),
        (x, y) => return Err(Bad(format!("the same sprite loads in one form only ({what}): {} / {}", x.is_ok(), y.err().map_or(String::new(), |e| e.to_string())))),
    };
    if too_big(&x) || too_big(&y) {
        return Err(Out::Skip("too large"));
    }
    same("canvas sizes of the two forms", x.size(), y.size())?;
    same("number of frames of the two forms", x.frames().len(), y.frames().len())?;
    let mut r = rng_of(c);
    let pick = some(&mut r, order.len(), 12);
    let px = pictures(&x, &pick.iter().map(|&i| order[i]).collect::<Vec<_>>())?;
    let py = pictures(&y, &pick)?;
    for (k, (p, q)) in px.iter().zip(&py).enumerate() {
        if p != q {
            let diff = match (p, q) {
                (Some(p), Some(q)) => {
                    let i = p.iter().zip(q).position(|(a, b)| a != b).unwrap_or(0) / 4;
                    format!("pixel {i} is {:?} and {:?}", &p[i * 4..i * 4 + 4], &q[i * 4..i * 4 + 4])
                }
                _ => "one of them cannot be rendered".into(),
            };
            return Err(Bad(format!("the same sprite stored in another way ({what}): frame {} ({}) differs, {diff}", order[pick[k / 2]], if k % 2 == 0 { "visible layers" } else { "all layers" })));
        }
        ctx.fold(p.as_ref().map_or(1, |p| hash_bytes(p)));
        ctx.outcomes.insert(p.as_ref().map_or(1, |p| hash_bytes(p)));
    }
    for h in &how {
        ctx.add(&format!("rewritten: {h}"), 1);
    }
    ctx.add("pictures compared", px.len() as u64);
    if !how.is_empty() && x.frames().iter().any(|f| !f.cels.is_empty()) {
        ctx.nontriv(|| format!("{what}; {}", describe(b)));
    }
    Ok(())
}
