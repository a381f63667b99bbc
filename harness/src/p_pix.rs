//! Properties about sprites, pixels and rendering: C02, C12..C21, C23, C24.
use crate::common::*;
use crate::doc::*;
use crate::gen::{self, Cfg, BASE};
use crate::inflate;
use crate::monitor::guard;
use crate::observe::Obs;
use crate::p_parse::{anything, case, fix_counts, fixture, kase, soup, sweep, sweep_gen, RICH, SWEEP};
use crate::refblend::{self, Px};
use crate::refdec;
use crate::reffile::{self, SpriteRef};
use crate::refrender::{self, Expect, ImgErr, Sel};
use crate::rng::{hash_bytes, mix, Rng};
use crate::val::V;
use aseprite_loader::loader::{decompress, AsepriteFile, LayerSelection, LoadImageError};

fn seed_aux(r: &mut Rng) -> Vec<u8> {
    r.u64().to_le_bytes().to_vec()
}
fn aux_rng(c: &Case) -> Rng {
    let mut a = [0; 8];
    for (x, y) in a.iter_mut().zip(&c.aux) {
        *x = *y;
    }
    Rng::new(u64::from_le_bytes(a))
}
pub fn dims(a: &AsepriteFile<'_>, i: usize) -> usize {
    a.images[i].width as usize * a.images[i].height as usize
}
pub fn img_chunks(d: &mut Doc) -> Vec<&mut CelBody> {
    d.frames
        .iter_mut()
        .flat_map(|f| &mut f.chunks)
        .filter_map(|c| match &mut c.body {
            Body::Cel { body: b @ (CelBody::Raw { .. } | CelBody::Zip { .. }), .. } => Some(b),
            _ => None,
        })
        .collect()
}

// ------------------------------------------------------------------ C02
pub fn c02_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(mut c) = fixture(idx) {
        c.aux = aux;
        return c;
    }
    if let Some(bytes) = crate::p_parse::scaled(idx) {
        return Case { kind: 0, aux, bytes };
    }
    if let Some(c) = sweep_gen(r, idx, 24) {
        return Case { aux, ..c };
    }
    let bytes = match r.below(16) {
        0 => gen::hostile(r, 200),
        1 => {
            let b = gen::doc(r, &RICH).encode();
            gen::mutate(r, b)
        }
        4 | 5 => anything(r),
        6 => c23_gen(r, 50, false).bytes,
        7 => c15_gen(r, 50, false).bytes,
        8 => c20_gen(r, 50, false).bytes,
        9 => c19_gen(r, 50, false).bytes,
        2 => {
            let f = r.pick(&FIXTURES).1.to_vec();
            if f.len() < 1 << 16 {
                gen::mutate(r, f)
            } else {
                f
            }
        }
        3 => {
            // a small placement or geometry extreme
            let c = c18_gen(r, 99, false);
            c.bytes
        }
        _ => {
            let mut d = gdoc!(r, Cfg { far: true, ..RICH });
            fix_counts(&mut d);
            if r.chance(1, 12) {
                let depth = d.hdr.depth;
                let mut b = img_chunks(&mut d);
                if !b.is_empty() {
                    let i = r.below(b.len());
                    *b[i] = large_body(r, depth);
                    if let (true, CelBody::Raw { data, .. }) = (r.chance(1, 2), &mut *b[i]) {
                        let n = data.len();
                        data.resize(*r.pick(&[n + 1, n - 1, n * 2, n / 2, n + 2, n - 2, n + 4, n - 4]), 9);
                    }
                }
            }
            for _ in 0..1 + r.below(3) {
                hurt(r, &mut d);
            }
            d.encode()
        }
    };
    Case { kind: 0, aux, bytes }
}
fn large_body(r: &mut Rng, depth: u16) -> CelBody {
    let (w, h) = *r.pick(&[(3000u16, 1u16), (1, 700), (40, 40), (90, 33), (300, 5), (128, 64), (256, 257), (70, 1000)]);
    gen::image_body(r, depth, w, h, None)
}
/// damage that leaves the file loadable
pub fn hurt(r: &mut Rng, d: &mut Doc) {
    match r.below(9) {
        0 | 1 => {
            for b in img_chunks(d) {
                if r.chance(1, 2) {
                    if let CelBody::Zip { data, .. } | CelBody::Raw { data, .. } = b {
                        *data = gen::mutate(r, std::mem::take(data));
                    }
                }
            }
        }
        2 => {
            for b in img_chunks(d) {
                if r.chance(1, 3) {
                    if let CelBody::Zip { w, h, .. } | CelBody::Raw { w, h, .. } = b {
                        *w = *r.pick(&[*w, 0, 1, w.wrapping_add(1), w.wrapping_sub(1), 300, 0xffff]);
                        *h = *r.pick(&[*h, 0, 1, h.wrapping_add(1), h.wrapping_sub(1), 300, 0xffff]);
                        if *w as usize * *h as usize > 1 << 20 {
                            *h = 1;
                        }
                    }
                }
            }
        }
        3 => {
            // raw where zip was and vice versa
            for b in img_chunks(d) {
                if r.chance(1, 3) {
                    *b = match std::mem::replace(b, CelBody::Link(0)) {
                        CelBody::Zip { w, h, data } => CelBody::Raw { w, h, data },
                        CelBody::Raw { w, h, data } => CelBody::Zip { w, h, data },
                        x => x,
                    };
                }
            }
        }
        4 | 5 => {
            for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
                if let Body::Layer { blend, opacity, .. } = &mut c.body {
                    if r.chance(1, 3) {
                        *blend = *r.pick(&[19u16, 20, 255, 256, 0x8000, 0xffff]);
                    }
                    if r.chance(1, 4) {
                        *opacity = 0;
                    }
                }
            }
        }
        6 => d.hdr.depth = *r.pick(&[8u16, 16, 32, 0, 1, 24, 64, 0xffff]),
        7 => {
            d.hdr.w = *r.pick(&[0u16, 1, 255, 256, 257, 1000]);
            d.hdr.h = *r.pick(&[0u16, 1, 255, 256, 257, 1000]);
        }
        _ => {
            for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
                if let Body::Cel { x, y, z, .. } = &mut c.body {
                    if r.chance(1, 2) {
                        *x = *r.pick(&[i16::MIN, -1, 0, i16::MAX, *x]);
                        *y = *r.pick(&[i16::MIN, -1, 0, i16::MAX, *y]);
                        *z = *r.pick(&[i16::MIN, -1, 0, i16::MAX, *z]);
                    }
                }
            }
        }
    }
}
pub fn c02_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |_| true, c02_check);
    }
    let b = &c.bytes;
    let a = match guard(|| AsepriteFile::load(b)) {
        Ok(Ok(a)) => a,
        Ok(Err(_)) => return Err(Out::Skip("does not load")),
        Err(_) => return Err(Out::Skip("load panicked (C01)")),
    };
    if too_big(&a) {
        return Err(Out::Skip("declares images or a canvas too large to render here"));
    }
    let mut r = aux_rng(c);
    let (w, h) = a.size();
    let n = w as usize * h as usize * 4;
    let mut sig = 0u64;
    let nl = a.layers().len();
    for f in some(&mut r, a.frames().len(), 6) {
        for k in 0..3 {
            let sel = match k {
                0 => LayerSelection::Visible,
                1 => LayerSelection::All,
                _ => to_sel(&any_sel(&mut r, nl)),
            };
            let len = if r.chance(2, 3) { n } else { *r.pick(&[0, n.saturating_sub(1), n + 1, n + 7, n / 2]) };
            let mut buf = r.bytes(len.min(64));
            buf.resize(len, 0x5a);
            let out = guard(|| a.render_frame(f, &mut buf, &sel)).map_err(|p| Bad(format!("render_frame({f}, {sel:?}) with a {len}-byte buffer ({n} needed): {p}")))?;
            ctx.add(if out.is_ok() { "render_frame ok" } else { "render_frame error" }, 1);
            sig = mix(sig, out.map_or_else(|e| hash_bytes(e.to_string().as_bytes()), |_| 1));
        }
        let mut buf = vec![0; n];
        #[allow(deprecated)]
        let out = guard(|| a.combined_frame_image(f, &mut buf)).map_err(|p| Bad(format!("combined_frame_image({f}): {p}")))?;
        ctx.add(if out.is_ok() { "frame hash ok" } else { "frame hash error" }, 1);
    }
    for i in some(&mut r, a.images.len(), 16) {
        let n = dims(&a, i) * 4;
        for k in 0..2 {
            let len = if k == 0 { n } else { *r.pick(&[0, n.saturating_sub(1), n + 3, n / 2, n + 4]) };
            let mut buf = vec![1; len];
            let out = guard(|| a.load_image(i, &mut buf)).map_err(|p| {
                Bad(format!("load_image({i}) of {}x{} with a {len}-byte buffer: {p}", a.images[i].width, a.images[i].height))
            })?;
            ctx.add(if out.is_ok() { "load_image ok" } else { "load_image error" }, 1);
            sig = mix(sig, out.map_or_else(|e| hash_bytes(e.to_string().as_bytes()), |_| 1));
        }
        let len = *r.pick(&[0, 1, n, n / 4, 100]);
        let mut t = vec![0; len.min(1 << 20)];
        let out = guard(|| decompress(a.images[i].data, &mut t)).map_err(|p| Bad(format!("decompress into {len} bytes: {p}")))?;
        ctx.add(if out.is_ok() { "decompress ok" } else { "decompress error" }, 1);
    }
    let names: Vec<String> = a.layers().iter().map(|l| l.name.clone()).collect();
    let some: Vec<&str> = names.iter().filter(|_| r.chance(1, 2)).map(|s| s.as_str()).chain(["nope", ""]).collect();
    guard(|| (a.select_layers_by_name(&some), a.select_layers(|l| l.opacity > 9), a.image_count(), a.tags().len(), a.slices().len()))
        .map_err(|p| Bad(format!("layer selection: {p}")))?;
    if b.len() < 2500 {
        guard(|| format!("{a:?}").len()).map_err(|p| Bad(format!("debug formatting of the sprite: {p}")))?;
    }
    ctx.outcomes.insert(sig);
    if !a.images.is_empty() {
        ctx.nontriv(|| format!("{} frames, {} images, {} layers exercised; {}", a.frames().len(), a.images.len(), nl, describe(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ sweeps
fn small(f: &reffile::Full) -> bool {
    f.sprite.as_ref().is_ok_and(|s| area(s) <= 4096)
        && f.raw.frames.iter().flat_map(|x| &x.chunks).all(|c| match c {
            refdec::Chunk::Cel(refdec::Cel { kind: refdec::CelKind::Image(i), .. }) => i.w as usize * i.h as usize <= 1 << 14,
            _ => true,
        })
}
pub fn loads_small(b: &[u8]) -> bool {
    reffile::full(b).is_ok_and(|f| small(&f))
}
fn sound_small(b: &[u8]) -> bool {
    reffile::full(b).is_ok_and(|f| small(&f) && f.sprite.is_ok_and(|s| s.frames.iter().all(|x| x.1.iter().all(|c| refrender::decode(&s, &c.image, s.layers[c.layer].background).is_ok()))))
}

// ------------------------------------------------------------------ C12
/// kind 0 sound file; aux: the same file with the other storage; kind 9: the
/// listed finding's input
pub fn c12_gen(r: &mut Rng, idx: u64, t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 12) {
        return c;
    }
    if let Some(c) = fixture(idx) {
        return c;
    }
    if idx == 8 {
        return Case { kind: 9, aux: vec![], bytes: bg_transparent() };
    }
    let mut depth = *r.pick(&[32u16, 16, 8]);
    let big = r.chance(1, if t { 6 } else { 12 });
    let d = if (100..106).contains(&idx) {
        // megabytes of pixels which do not compress
        depth = [32u16, 16, 8][idx as usize % 3];
        let (w, h) = *r.pick(&[(900u16, 800u16), (1500, 700), (65535, 17), (1024, 1025)]);
        let (w, h) = if idx < 103 { (w, h) } else { (w, h * 2) };
        let data = r.bytes(w as usize * h as usize * depth as usize / 8);
        let data = gen::zlib(r, &data);
        let mut d = Doc { hdr: Hdr { depth, w: 4, h: 4, transparent: r.b(), ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
        d.frames[0].chunks = vec![gen::full_palette(r), layer("big", 1, 0, 0, 0, 255), cel(0, 0, 0, 255, 0, CelBody::Zip { w, h, data })];
        d
    } else if big {
        let (w, h) = *r.pick(&[(65535u16, 1u16), (1, 65535), (300, 300), (256, 256), (257, 255), (1, 1), (511, 129), (4096, 17), (65535, 2), (21846, 3)]);
        let mut d = Doc { hdr: Hdr { depth, w: 4, h: 4, transparent: r.b(), ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
        if depth == 8 {
            d.frames[0].chunks.push(gen::full_palette(r));
        }
        d.frames[0].chunks.push(layer("big", 1, 0, 0, 0, 255));
        let b = gen::image_body(r, depth, w, h, None);
        d.frames[0].chunks.push(cel(0, 0, 0, 255, 0, b));
        d
    } else {
        gdoc!(r, Cfg { depth: Some(depth), max_frames: 3, max_layers: 4, max_cel: 40, palettes: r.chance(1, 2), hsl: false, ..BASE })
    };
    // twin: raw <-> zip
    let mut e = d.clone();
    for b in img_chunks(&mut e) {
        *b = match std::mem::replace(b, CelBody::Link(0)) {
            CelBody::Raw { w, h, data } => CelBody::Zip { w, h, data: gen::zlib(r, &data) },
            CelBody::Zip { w, h, data } => {
                let n = w as usize * h as usize * depth as usize / 8;
                CelBody::Raw { w, h, data: inflate::zlib(&data, n).expect("own stream") }
            }
            x => x,
        };
    }
    Case { kind: 0, aux: e.encode(), bytes: d.encode() }
}
/// One background layer whose only pixel is the transparent index.
pub fn bg_transparent() -> Vec<u8> {
    let mut f = FrameD::default();
    f.chunks = vec![
        palette(0, &[[10, 20, 30, 255], [1, 2, 3, 255]]),
        layer("Background", 1 | 8, 0, 0, 0, 255),
        cel(0, 0, 0, 255, 0, CelBody::Raw { w: 2, h: 1, data: vec![0, 1] }),
    ];
    Doc { hdr: Hdr { w: 2, h: 1, depth: 8, transparent: 0, ..Default::default() }, frames: vec![f], tail: vec![] }.encode()
}
pub fn c12_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, sound_small, c12_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let s = ref_sprite(&full);
    let a = want_load(b)?;
    let twin = if c.aux.is_empty() { None } else { Some(want_load(&c.aux)?) };
    if c.kind == 9 {
        let mut buf = vec![0; 8];
        let out = dec(&a, 0, &mut buf)?;
        return match out {
            Ok(()) if buf == [10, 20, 30, 255, 1, 2, 3, 255] => Ok(()),
            Ok(()) if buf == [10, 20, 30, 0, 1, 2, 3, 255] => Err(Out::Known("bg-transparent")),
            other => Err(Bad(format!("background pixel with the transparent index decodes to {buf:?} ({other:?})"))),
        };
    }
    let mut seen = 0;
    for (f, (_, cels)) in s.frames.iter().enumerate() {
        for sc in cels {
            let Some(fc) = a.frames().get(f).and_then(|x| x.cels.iter().find(|c| c.layer_index == sc.layer)) else {
                return Err(Out::Skip("cel not found in the loaded sprite (C16)"));
            };
            if fc.image_index >= a.images.len() || dims(&a, fc.image_index) != sc.image.w as usize * sc.image.h as usize {
                return Err(Out::Skip("image not found in the loaded sprite (C16)"));
            }
            let i = fc.image_index;
            let n = dims(&a, i) * 4;
            let mut buf = vec![0xEE; n];
            let out = dec(&a, i, &mut buf)?;
            let exp = match refrender::decode(s, &sc.image, s.layers[sc.layer].background) {
                Ok(p) => flat(&p),
                Err(e) => panic!("harness: image of a sound file does not decode: {e:?}"),
            };
            if let Err(e) = out {
                return Err(Bad(format!("image {i} ({}x{}) cannot be decoded: {e}", sc.image.w, sc.image.h)));
            }
            if let Some(k) = (0..n).find(|&k| buf[k] != exp[k]) {
                let p = k / 4;
                let bg = s.layers[sc.layer].background;
                if refrender::finding(s, &sc.image, bg) && refrender::decode(s, &sc.image, false).is_ok_and(|p| flat(&p) == buf) {
                    return Err(Out::Skip("recorded finding: transparent index on a background layer"));
                }
                return Err(Bad(format!(
                    "image {i} ({}x{}, depth {}, {}): pixel ({}, {}) decodes to {:?}, expected {:?}",
                    sc.image.w,
                    sc.image.h,
                    s.depth,
                    if sc.image.zip { "compressed" } else { "raw" },
                    p % sc.image.w as usize,
                    p / sc.image.w as usize,
                    &buf[p * 4..p * 4 + 4],
                    &exp[p * 4..p * 4 + 4]
                )));
            }
            if let Some(t) = &twin {
                let Some(tc) = t.frames().get(f).and_then(|x| x.cels.iter().find(|c| c.layer_index == sc.layer)) else {
                    return Err(Out::Skip("cel not found in the loaded sprite (C16)"));
                };
                let mut o = vec![0x11; n];
                match dec(t, tc.image_index, &mut o)? {
                    Ok(()) if o == buf => {}
                    Ok(()) => return Err(Bad(format!("image {i}: raw and compressed storage of the same pixels decode differently"))),
                    Err(e) => return Err(Bad(format!("image {i}: stored the other way it cannot be decoded: {e}"))),
                }
                ctx.add("raw/compressed twins compared", 1);
            }
            ctx.add(&format!("images decoded, depth {}{}", s.depth, if sc.image.zip { " compressed" } else { " raw" }), 1);
            ctx.add("pixels compared", n as u64 / 4);
            ctx.outcomes.insert(hash_bytes(&buf));
            seen += n;
        }
    }
    if seen > 0 {
        ctx.nontriv(|| describe(b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
/// kind 0: files with damaged pixel data; kind 1: decompress(aux = length)
/// Images of a megabyte and more, cut at the end, in the middle, with a wrong
/// checksum or too short or long by little.
fn c13_large(r: &mut Rng, idx: u64) -> Case {
    let depth = [32u16, 16, 8][idx as usize % 3];
    let bytes = 300_000 + r.below(2_000_000);
    let w = *r.pick(&[1000u16, 700, 2048, 257, 65535]);
    let h = (bytes / (w as usize * depth as usize / 8) + 1) as u16;
    let n = w as usize * h as usize * depth as usize / 8;
    let short = match idx % 8 {
        0 => n - 1 - r.below(3),
        1 => n + 1 + r.below(70_000),
        2 => n - 1 - r.below(n / 2),
        _ => n,
    };
    let px = if r.chance(1, 2) { r.bytes(short) } else { vec![r.b(); short] };
    let mut z = gen::zlib(r, &px);
    let k = z.len();
    match idx % 8 {
        3 => z.truncate(k - 1 - r.below(4)),
        4 => z.truncate(k - 5 - r.below(k / 3)),
        5 => z[k - 1 - r.below(4)] ^= 1 << r.below(8),
        6 => {
            let i = k / 2 + r.below(k / 3);
            z[i] ^= 1 << r.below(8)
        }
        _ => {}
    }
    if idx % 2 == 0 && idx % 16 < 8 {
        return Case { kind: 1, aux: (n as u32).to_le_bytes().to_vec(), bytes: z };
    }
    let mut d = Doc { hdr: Hdr { depth, w: 3, h: 3, ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
    d.frames[0].chunks = vec![gen::full_palette(r), layer("l", 1, 0, 0, 0, 255), cel(0, 0, 0, 255, 0, CelBody::Zip { w, h, data: z })];
    kase(0, d.encode())
}
pub fn c13_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 12) {
        return c;
    }
    if (100..130).contains(&idx) {
        // all damage to one stream
        let n = *r.pick(&[1usize, 2, 5, 16, 60, 200]);
        let data = gen::pixels(r, 8, n, None);
        let z = match idx % 4 {
            0 => gen::stored(r, &data),
            1 => gen::multi(r, &data),
            _ => gen::zlib(r, &data),
        };
        return Case { kind: STREAM, aux: (n as u32).to_le_bytes().to_vec(), bytes: z };
    }
    if (200..232).contains(&idx) {
        return c13_large(r, idx);
    }
    if idx % 2 == 0 {
        let n = *r.pick(&[0usize, 1, 2, 7, 64, 255, 256, 1000, 4000]);
        let n = if r.chance(1, 2) { n } else { r.below(600) };
        let data = gen::pixels(r, 8, n, None);
        let z = gen::zlib(r, &data);
        let z = damage_stream(r, z);
        let len = match r.below(4) {
            0 | 1 => n,
            2 => *r.pick(&[n + 1, n.saturating_sub(1), n * 2, n + 1000, 0, n / 2]),
            _ => r.below(n * 2 + 2),
        };
        return Case { kind: 1, aux: (len as u32).to_le_bytes().to_vec(), bytes: z };
    }
    let depth = *r.pick(&[32u16, 16, 8]);
    let mut d = gdoc!(r, Cfg { depth: Some(depth), max_frames: 2, max_layers: 4, hsl: false, links: true, ..BASE });
    fix_counts(&mut d);
    let bg = false;
    let _ = bg;
    match r.below(6) {
        0 => d.hdr.depth = *r.pick(&[0u16, 1, 4, 24, 33, 64, 0x0820, 0xffff]),
        k => {
            let mut b = img_chunks(&mut d);
            if !b.is_empty() {
                let i = r.below(b.len());
                if r.chance(1, 12) {
                    *b[i] = large_body(r, depth);
                }
                match &mut *b[i] {
                    CelBody::Zip { data, w, h } => match k {
                        1 => {
                            // a sound stream of the wrong length
                            let n = *w as usize * *h as usize * depth as usize / 8;
                            let k = *r.pick(&[n + 1, n.saturating_sub(1), n / 2, n * 2, n + 100, 0, n + depth as usize / 8]);
                            let px = gen::pixels(r, 8, k, None);
                            *data = gen::zlib(r, &px);
                        }
                        _ => *data = damage_stream(r, std::mem::take(data)),
                    },
                    CelBody::Raw { data, .. } => {
                        let n = data.len();
                        let k = *r.pick(&[n + 1, n.saturating_sub(1), n / 2, n * 2, n + 100, 0, n + depth as usize / 8, n.saturating_sub(depth as usize / 8)]);
                        data.resize(k, 77);
                    }
                    _ => {}
                }
            }
        }
    }
    kase(0, d.encode())
}
pub fn damage_stream(r: &mut Rng, mut z: Vec<u8>) -> Vec<u8> {
    match r.below(12) {
        0 => {}
        1 => {
            let k = r.below(z.len() + 1);
            z.truncate(k);
        }
        2 => {
            // checksum
            let n = z.len();
            if n >= 4 {
                let i = n - 1 - r.below(4);
                z[i] ^= 1 << r.below(8);
            }
        }
        3 => {
            let n = z.len();
            z.truncate(n.saturating_sub(1 + r.below(5)));
        }
        4 => {
            // header
            if !z.is_empty() {
                z[0] = *r.pick(&[0x79, 0x08, 0x88, 0x77, 0x00, 0xff]);
            }
        }
        5 => {
            if z.len() > 1 {
                z[1] ^= 1 << r.below(8);
            }
        }
        6 => {
            let k = r.below(9);
            z.extend(r.bytes(k));
        }
        7 => z.clear(),
        8 => {
            let k = r.below(60);
            z = r.bytes(k);
        }
        9 => {
            let k = r.below(60);
            z.truncate(2);
            z.extend(r.bytes(k));
        }
        _ => {
            for _ in 0..1 + r.below(3) {
                if !z.is_empty() {
                    let i = r.below(z.len());
                    z[i] ^= 1 << r.below(8);
                }
            }
        }
    }
    z
}
/// Every bit of a stream flipped, every prefix, for several target lengths.
const STREAM: u8 = 201;
fn c13_streams(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let n = u32::from_le_bytes([c.aux[0], c.aux[1], c.aux[2], c.aux[3]]);
    let mut one = |bytes: Vec<u8>, len: u32, how: String| {
        ctx.add("stream variants", 1);
        match c13_check(&Case { kind: 1, aux: len.to_le_bytes().to_vec(), bytes }, ctx) {
            Err(Bad(m)) => Err(Bad(format!("variant `{how}`: {m}"))),
            _ => Ok(()),
        }
    };
    let b = &c.bytes;
    for len in [n, n + 1, n - 1, 0, n * 2] {
        for k in 0..=b.len() {
            one(b[..k].to_vec(), len, format!("cut after {k} of {}", b.len()))?;
        }
        for i in 0..b.len() * 8 {
            let mut x = b.to_vec();
            x[i / 8] ^= 1 << (i % 8);
            one(x, len, format!("bit {i} flipped"))?;
        }
        for i in 0..b.len() {
            let mut x = b.to_vec();
            x.remove(i);
            one(x, len, format!("byte {i} left out"))?;
        }
        for k in 1..6 {
            let mut x = b.to_vec();
            x.extend(vec![0; k]);
            one(x, len, format!("{k} bytes added"))?;
        }
    }
    Ok(())
}
pub fn c13_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == STREAM {
        return c13_streams(c, ctx);
    }
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c13_check);
    }
    let b = &c.bytes;
    if c.kind == 1 {
        let len = u32::from_le_bytes([c.aux[0], c.aux[1], c.aux[2], c.aux[3]]) as usize;
        let mut t = vec![0xA5; len];
        let out = guard(|| decompress(b, &mut t)).map_err(|_| Out::Skip("decompress panicked (C02)"))?;
        let strict = inflate::zlib(b, len);
        let class = match (&strict, &out) {
            (Ok(v), Ok(())) if v.len() == len => {
                if *v != t {
                    return Err(Bad(format!("decompress of {} bytes into {len}: wrong output", b.len())));
                }
                "streams accepted"
            }
            (Ok(v), Err(e)) if v.len() == len => {
                return Err(Bad(format!("decompress refuses a valid stream of exactly {len} bytes: {e}")));
            }
            (Ok(v), Ok(())) => {
                return Err(Bad(format!("decompress accepts a stream of {} bytes for a target of {len}", v.len())));
            }
            (Err(()), Ok(())) => {
                if inflate::zlib_lenient(b, len).map_or(false, |v| v.len() == len) {
                    return Err(Out::Skip("decoders disagree on this stream"));
                }
                return Err(Bad(format!("decompress accepts {} bytes that are no complete zlib stream of at most {len} bytes", b.len())));
            }
            (Ok(_), Err(_)) => "wrong-length streams refused",
            (Err(()), Err(_)) => "damaged streams refused",
        };
        ctx.add(class, 1);
        ctx.outcomes.insert(mix(hash_bytes(b), len as u64));
        ctx.nontriv(|| format!("decompress {} bytes into {len}: {class}", b.len()));
        return Ok(());
    }
    let full = reference(b);
    let s = ref_sprite(&full);
    let a = want_load(b)?;
    let mut hit = 0;
    for (f, (_, cels)) in s.frames.iter().enumerate() {
        for sc in cels {
            let Some(fc) = a.frames().get(f).and_then(|x| x.cels.iter().find(|c| c.layer_index == sc.layer)) else {
                return Err(Out::Skip("cel not found in the loaded sprite (C16)"));
            };
            let i = fc.image_index;
            if i >= a.images.len() || dims(&a, i) != sc.image.w as usize * sc.image.h as usize {
                return Err(Out::Skip("image not found in the loaded sprite (C16)"));
            }
            let mut buf = vec![0; dims(&a, i) * 4];
            let out = dec(&a, i, &mut buf).map_err(|_| Out::Skip("decode panicked (C02)"))?;
            match (refrender::decode(s, &sc.image, false), out) {
                (Ok(p), Ok(())) => {
                    if s.depth != 8 && flat(&p) != buf {
                        return Err(Bad(format!("image {i} decodes into wrong pixels")));
                    }
                    ctx.add("images decoded", 1);
                }
                (Ok(_), Err(e)) => return Err(Bad(format!("image {i} is sound but cannot be decoded: {e}"))),
                (Err(e), Ok(())) => {
                    if sc.image.zip && e == ImgErr::Data && inflate::zlib_lenient(&sc.image.data.data, 1 << 22).is_ok_and(|v| v.len() == dims(&a, i) * s.depth as usize / 8) {
                        return Err(Out::Skip("decoders disagree on this stream"));
                    }
                    return Err(Bad(format!("image {i} ({}x{}) decodes although {e:?} is wrong with it", sc.image.w, sc.image.h)));
                }
                (Err(ImgErr::Depth), Err(e)) => {
                    if !matches!(e, LoadImageError::UnsupportedColorDepth) {
                        return Err(Bad(format!("unknown colour depth {} is reported as `{e}`", s.depth)));
                    }
                    ctx.add("unknown depths reported", 1);
                    hit += 1;
                }
                (Err(ImgErr::Data), Err(_)) => {
                    ctx.add("damaged images reported", 1);
                    hit += 1;
                }
            }
        }
    }
    // rendering: an error exactly where a shown cel is damaged
    if area(s) <= 1 << 16 {
        for f in 0..s.frames.len() {
            let back = vec![[1, 2, 3, 255]; area(s)];
            let mut buf = flat(&back);
            let out = guard(|| a.render_frame(f, &mut buf, &LayerSelection::All)).map_err(|_| Out::Skip("rendering panicked (C02)"))?;
            match (refrender::render(s, f, &Sel::All, &back), out) {
                (Expect::Error, Ok(())) => return Err(Bad(format!("frame {f} renders although a shown cel cannot be decoded"))),
                (Expect::Error, Err(_)) => ctx.add("frames with damaged cels refused", 1),
                (Expect::Pixels(..), Err(e)) => return Err(Bad(format!("frame {f} has only sound cels but rendering fails: {e}"))),
                _ => {}
            }
        }
    }
    ctx.outcomes.insert(hash_bytes(b));
    if hit > 0 {
        ctx.nontriv(|| format!("{hit} damaged images; {}", describe(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
pub fn c14_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(c) = sweep_gen(r, idx, 8) {
        return Case { aux, ..c };
    }
    if let Some(mut c) = fixture(idx) {
        c.aux = aux;
        return c;
    }
    let mut d = gdoc!(r, Cfg { max_frames: 2, max_layers: 4, max_cel: 20, hsl: false, far: true, ..BASE });
    if r.chance(1, 3) {
        fix_counts(&mut d);
        // half of these have damaged pixel data: short buffers still come first
        if r.chance(1, 2) {
            hurt(r, &mut d);
        }
        for b in img_chunks(&mut d) {
            if r.chance(1, 4) {
                if let CelBody::Zip { data, .. } = b {
                    *data = damage_stream(r, std::mem::take(data));
                }
            }
        }
    }
    // canvases and images too large for any real buffer, up to where their
    // size in bytes leaves 32 bits
    if r.chance(1, 6) {
        let giant = |r: &mut Rng| *r.pick(&[(32768u16, 32768u16), (65535, 65535), (65535, 16385), (16384, 65535), (16384, 16384), (46341, 46341), (23171, 23171), (32768, 16384), (65535, 4097), (65535, 1), (1, 65535), (4096, 4096), (57344, 32768)]);
        if r.chance(1, 2) {
            (d.hdr.w, d.hdr.h) = giant(r);
        }
        for b in img_chunks(&mut d) {
            if r.chance(1, 2) {
                if let CelBody::Raw { w, h, .. } | CelBody::Zip { w, h, .. } = b {
                    (*w, *h) = giant(r);
                }
            }
        }
    }
    Case { kind: 0, aux, bytes: d.encode() }
}
fn sizes(r: &mut Rng, n: usize) -> Vec<usize> {
    if n > 1 << 23 {
        // only buffers that are too short, among them what is left of the size
        // in narrower arithmetic
        let mut v = vec![0, 1, 4, 64, 4096];
        for k in [16, 24, 28, 30, 31, 32] {
            let m = n & ((1 << k) - 1);
            v.extend([m, m / 4].into_iter().filter(|m| *m < 1 << 20));
        }
        return v;
    }
    let mut v = vec![n, n + 1, n + 4, n + 64];
    v.push(n + r.below(1000));
    if n > 0 {
        v.extend([0, n - 1, n / 2, r.below(n), n.saturating_sub(4), n / 4]);
    }
    v
}
pub fn c14_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c14_check);
    }
    let b = &c.bytes;
    let a = match guard(|| AsepriteFile::load(b)) {
        Ok(Ok(a)) => a,
        _ => return Err(Out::Skip("does not load")),
    };
    let mut r = aux_rng(c);
    let judge = |what: String, n: usize, len: usize, before: &[u8], after: &[u8], out: &Result<(), LoadImageError>, ctx: &mut Ctx| -> Res<()> {
        if len < n {
            if !matches!(out, Err(LoadImageError::TargetBufferTooSmall)) {
                return Err(Bad(format!("{what} into {len} of {n} bytes: {}", match out {
                    Ok(()) => "succeeded".to_string(),
                    Err(e) => format!("reported `{e}` instead of a too small buffer"),
                })));
            }
            if before != after {
                return Err(Bad(format!("{what} into {len} of {n} bytes was refused but changed the buffer")));
            }
            ctx.add("short buffers refused untouched", 1);
        } else {
            if matches!(out, Err(LoadImageError::TargetBufferTooSmall)) {
                return Err(Bad(format!("{what} refuses a buffer of {len} bytes although {n} suffice")));
            }
            if before[n..] != after[n..] {
                return Err(Bad(format!("{what} into {len} bytes changed bytes beyond {n}")));
            }
            ctx.add(if len == n { "exact buffers accepted" } else { "longer buffers, excess untouched" }, 1);
        }
        Ok(())
    };
    let mut work = 0;
    for i in some(&mut r, a.images.len(), 6) {
        let n = dims(&a, i) * 4;
        let mut first: Option<Vec<u8>> = None;
        for len in sizes(&mut r, n) {
            let before = r.bytes(len);
            let mut buf = before.clone();
            let out = dec(&a, i, &mut buf).map_err(|_| Out::Skip("decode panicked (C02)"))?;
            judge(format!("load_image({i})"), n, len, &before, &buf, &out, ctx)?;
            if out.is_ok() && len >= n {
                buf.truncate(n);
                match &first {
                    None => first = Some(buf),
                    Some(f) if *f == buf => ctx.add("decodes independent of former content", 1),
                    Some(_) => return Err(Bad(format!("load_image({i}): the result depends on what the buffer held before"))),
                }
            }
            work += n.min(1 << 23);
        }
    }
    let (w, h) = a.size();
    let n = w as usize * h as usize * 4;
    // rendering a giant cel needs as much memory as it claims (see C03)
    let render = a.images.iter().all(|i| i.width as usize * i.height as usize <= 1 << 21);
    for f in some(&mut r, a.frames().len(), 2) {
        for len in sizes(&mut r, n) {
            if len >= n && !render {
                continue;
            }
            let before = r.bytes(len);
            let mut buf = before.clone();
            let sel = if r.chance(1, 2) { LayerSelection::All } else { LayerSelection::Visible };
            let out = guard(|| a.render_frame(f, &mut buf, &sel)).map_err(|_| Out::Skip("rendering panicked (C02)"))?;
            judge(format!("render_frame({f}, {sel:?})"), n, len, &before, &buf, &out, ctx)?;
            let mut buf = before.clone();
            #[allow(deprecated)]
            let out = guard(|| a.combined_frame_image(f, &mut buf)).map_err(|_| Out::Skip("rendering panicked (C02)"))?.map(|_| ());
            judge(format!("combined_frame_image({f})"), n, len, &before, &buf, &out, ctx)?;
            work += n.min(1 << 23);
        }
    }
    ctx.outcomes.insert(hash_bytes(b));
    if work > 0 {
        ctx.nontriv(|| describe(b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
/// kind 0: sound links; kind 1: links that must be refused
pub fn c15_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 12) {
        return c;
    }
    if let Some(c) = fixture(idx) {
        return c;
    }
    let depth = *r.pick(&[32u16, 16, 8]);
    let (mut nf, mut nl) = (2 + r.below(8), 1 + r.below(4));
    match idx {
        8 => (nf, nl) = (65_535, 1),
        9 => (nf, nl) = (33_500, 2),
        10 => (nf, nl) = (3, 20_000),
        _ if r.chance(1, 500) => {
            (nf, nl) = *r.pick(&[(300usize, 1usize), (257, 2), (700, 3), (4000, 1), (3, 300), (2, 700), (129, 129)]);
        }
        _ => {}
    }
    let crowd = nf * nl > 200;
    let mut d = Doc { hdr: Hdr { depth, w: 5, h: 5, ..Default::default() }, frames: vec![FrameD::default(); nf], tail: vec![] };
    let mut pre = vec![];
    if depth == 8 {
        pre.push(gen::full_palette(r));
    }
    for _ in 0..nl {
        let mut l = layer("l", 1, if r.chance(1, 8) { 1 } else { 0 }, 0, 0, 255);
        if let (false, Body::Layer { name, .. }) = (crowd, &mut l.body) {
            *name = gen::name(r);
        }
        pre.push(l);
    }
    // which frames hold images of each layer
    let mut has = vec![vec![false; nl]; nf];
    for f in 0..nf {
        for l in 0..nl {
            has[f][l] = r.chance(1, 3);
        }
    }
    let mut bad = false;
    let want_bad = r.chance(1, 3);
    for f in 0..nf {
        for l in 0..nl {
            let pos = (r.w() as i16, r.w() as i16, r.b(), r.w() as i16);
            if has[f][l] {
                let (w, h) = (r.below(5) as u16, 1 + r.below(5) as u16);
                let b = gen::image_body(r, depth, w, h, None);
                d.frames[f].chunks.push(cel(l as u16, pos.0, pos.1, pos.2, pos.3, b));
            } else if r.chance(1, 2) {
                let homes: Vec<usize> = if crowd {
                    // a few tries instead of all frames
                    (0..8).map(|k| if k < 4 { r.below(nf) } else { (f + k).saturating_sub(6).min(nf - 1) }).filter(|&g| has[g][l]).collect()
                } else {
                    (0..nf).filter(|&g| has[g][l]).collect()
                };
                let t = if want_bad && !bad && r.chance(1, if crowd { 200 } else { 2 }) {
                    bad = true;
                    let none: Vec<usize> = (0..nf).filter(|&g| !has[g][l]).collect();
                    *r.pick(&[none[r.clone().below(none.len())], nf, 0xffff, nf + 1, none[0]])
                } else if let Some(&x) = homes.get(r.clone().below(homes.len())) {
                    x
                } else {
                    continue;
                };
                d.frames[f].chunks.push(cel(l as u16, pos.0, pos.1, pos.2, pos.3, CelBody::Link(t as u16)));
            }
        }
        if r.chance(1, 3) {
            d.frames[f].chunks.reverse();
        }
    }
    pre.append(&mut d.frames[0].chunks);
    d.frames[0].chunks = pre;
    kase(bad as u8, d.encode())
}
pub fn c15_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| reffile::full(b).is_ok(), c15_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let s = match &full.sprite {
        Err(e) => {
            if see_sprite(b)?.is_ok() {
                return Err(Bad(format!("the sprite loads although a linked cel has no image to show ({e:?})")));
            }
            ctx.add("unresolvable links refused", 1);
            ctx.outcomes.insert(hash_bytes(b));
            ctx.nontriv(|| describe(b));
            return Ok(());
        }
        Ok(s) => s,
    };
    let a = want_load(b)?;
    let file = reffile::file_v(&full.raw, &full.file);
    let got = guard(|| Obs::new(b).file(&a.file)).map_err(Bad)?;
    let o = Obs::new(b);
    let mut links = 0;
    for (f, (_, cels)) in s.frames.iter().enumerate() {
        for sc in cels {
            let find = |f: usize| a.frames().get(f).and_then(|x| x.cels.iter().find(|c| c.layer_index == sc.layer));
            if sc.home == f {
                continue;
            }
            links += 1;
            let (Some(c), Some(home)) = (find(f), find(sc.home)) else {
                return Err(Bad(format!("frame {f}: the linked cel of layer {} (or its target in frame {}) is missing", sc.layer, sc.home)));
            };
            let at = format!("linked cel in frame {f} layer {} (links to frame {})", sc.layer, sc.home);
            if c.image_index != home.image_index {
                return Err(Bad(format!("{at} shows image {} instead of image {}", c.image_index, home.image_index)));
            }
            let Some(im) = a.images.get(c.image_index) else {
                return Err(Bad(format!("{at} refers to image {} of {}", c.image_index, a.images.len())));
            };
            let iv = o.image(im);
            let same = matches!(iv.get("data"), V::S(d) if d.data == sc.image.data.data && (d.data.is_empty() || d.off == sc.image.data.off));
            if !same || c.size != (sc.image.w, sc.image.h) || (im.width, im.height) != c.size {
                return Err(Bad(format!("{at} does not share the image stored there: {}", iv.render())));
            }
            if c.origin != (sc.x, sc.y) {
                return Err(Bad(format!("{at} sits at {:?}, stored position is {:?}", c.origin, (sc.x, sc.y))));
            }
            if c.opacity != sc.opacity {
                return Err(Bad(format!("{at} has opacity {}, stored opacity is {}", c.opacity, sc.opacity)));
            }
            ctx.add(if sc.home < f { "links to earlier frames" } else { "links to later frames" }, 1);
        }
    }
    // own position, opacity and z-index in the file view
    for (f, (e, g)) in file.get("frames").list().iter().zip(got.get("frames").list()).enumerate() {
        for (l, (e, g)) in e.get("cels").list().iter().zip(g.get("cels").list()).enumerate() {
            if matches!(e.get("content").get("kind"), V::T("Link")) {
                for k in ["x", "y", "opacity", "z_index", "content"] {
                    cmp_key(&format!("linked cel in frame {f} layer {l}"), k, e, g, CONTENT)?;
                }
            }
        }
    }
    ctx.outcomes.insert(hash_bytes(b));
    if links > 0 {
        ctx.nontriv(|| format!("{links} links; {}", describe(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C16
pub fn c16_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 12) {
        return c;
    }
    if let Some(c) = fixture(idx) {
        return c;
    }
    if (9..12).contains(&idx) {
        // many layers, many frames, many images, some layers left out
        let (nl, nf) = [(700usize, 6usize), (5, 700), (3, 30_000)][idx as usize - 9];
        let mut d = Doc { hdr: Hdr { w: 3, h: 3, ..Default::default() }, frames: vec![FrameD::default(); nf], tail: vec![] };
        for i in 0..nl {
            let ty = if i % 5 == 3 { 2 } else if i % 11 == 7 { 1 } else { 0 };
            d.frames[0].chunks.push(layer(&format!("{i}"), 1, ty, 0, 0, 255));
        }
        for f in 0..nf {
            for l in 0..nl {
                if l % 5 == 3 {
                    continue;
                }
                let body = if f > 0 && (f + l) % 4 == 0 {
                    let t = (0..f).rev().take(4).find(|t| (t + l) % 4 != 0 || *t == 0).unwrap_or(0);
                    CelBody::Link(t as u16)
                } else {
                    let (a, b) = (1 + (f % 3) as u16, 1 + (l % 2) as u16);
                    CelBody::Raw { w: a, h: b, data: (0..a as usize * b as usize).flat_map(|k| [f as u8, (f >> 8) as u8, l as u8, k as u8]).collect() }
                };
                d.frames[f].chunks.push(cel(l as u16, f as i16, l as i16, 255, 0, body));
            }
        }
        return case(d.encode());
    }
    let max_layers = *r.pick(&[3, 6, 12]);
    let d = gdoc!(r, Cfg { max_layers, max_frames: 5, max_cel: 5, odd_layers: r.chance(2, 3), odd_images: r.chance(2, 3), dup_cels: true, user: 1, palettes: true, wild: r.chance(1, 3), ..BASE });
    case(d.encode())
}
pub fn c16_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c16_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let s = ref_sprite(&full);
    let a = want_load(b)?;
    for (f, fr) in a.frames().iter().enumerate() {
        let mut seen = vec![false; a.layers().len()];
        for c in &fr.cels {
            if c.layer_index >= a.layers().len() {
                return Err(Bad(format!("frame {f}: a cel refers to layer {} of {}", c.layer_index, a.layers().len())));
            }
            if std::mem::replace(&mut seen[c.layer_index], true) {
                return Err(Bad(format!("frame {f}: layer {} has two cels", c.layer_index)));
            }
            let Some(im) = a.images.get(c.image_index) else {
                return Err(Bad(format!("frame {f}: a cel refers to image {} of {}", c.image_index, a.images.len())));
            };
            if (im.width, im.height) != c.size {
                return Err(Bad(format!("frame {f} layer {}: cel size {:?} but its image is {}x{}", c.layer_index, c.size, im.width, im.height)));
            }
            ctx.add("cel references checked", 1);
        }
    }
    let (got, imgs) = want_sprite(b)?;
    let es = reffile::sprite_v(s);
    // frames with their cels and the images these show; durations aside
    let strip = |v: &V| V::L(v.get("frames").list().iter().map(|f| f.get("cels").clone()).collect());
    cmp("frames[].cels", &strip(&es), &strip(&got), CONTENT)?;
    if a.layers().len() != s.layers.len() {
        return Err(Bad(format!("{} layers of supported kinds stored, {} reported", s.layers.len(), a.layers().len())));
    }
    for (l, e) in a.layers().iter().zip(&s.layers) {
        if l.name.as_bytes() != &e.name[..] {
            return Err(Bad(format!("layer list: expected {:?} at the place of {:?}", String::from_utf8_lossy(&e.name), l.name)));
        }
    }
    // every stored image once
    let mut left = std::collections::BTreeMap::new();
    for i in &imgs {
        *left.entry(reffile::image_key(i)).or_insert(0usize) += 1;
    }
    if a.image_count() != imgs.len() {
        return Err(Bad(format!("image_count() is {} but {} images are listed", a.image_count(), imgs.len())));
    }
    let key = |im: &crate::refdec::Image| (im.w as i128, im.h as i128, im.zip as i128, im.data.data.len(), im.data.data.clone());
    for im in &s.images {
        match left.get_mut(&key(im)) {
            Some(n) if *n > 0 => *n -= 1,
            _ => return Err(Bad(format!("a stored {}x{} image is not in the image list", im.w, im.h))),
        }
    }
    for im in &s.optional {
        if let Some(n) = left.get_mut(&key(im)) {
            *n = n.saturating_sub(1);
        }
    }
    if let Some((k, _)) = left.iter().find(|x| *x.1 > 0) {
        return Err(Bad(format!("the image list holds a {}x{} image more often than the file stores it", k.0, k.1)));
    }
    ctx.add("images matched", s.images.len() as u64);
    ctx.add("layers left out", (full.file.layers.len() - s.layers.len()) as u64);
    ctx.outcomes.insert(digest_v(&es));
    if s.frames.iter().any(|f| !f.1.is_empty()) {
        ctx.nontriv(|| describe(b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
/// bytes: a sprite of 256x256 with one cel; aux: the backdrop (RGBA)
pub fn c17_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let mode = (idx % 19) as u16;
    let round = idx / 19;
    let mut op = 255u8;
    let mut back = Vec::with_capacity(1 << 18);
    let mut src = Vec::with_capacity(1 << 18);
    let style = if round == 0 { 0 } else { 1 + (round - 1) % 5 };
    let (ba, sa) = match round {
        0 => (255, 255),
        _ => (*r.pick(&[255u8, 255, 128, 1, 254, r.clone().u8()]), *r.pick(&[255u8, 255, 128, 1, 254, r.clone().u8()])),
    };
    match style {
        // all colour pairs at fixed alphas, each channel with its own pairing
        0 | 1 => {
            if style == 1 {
                op = *r.pick(&[255u8, 128, 1, 254, 77, 200]);
            }
            let k = r.u8();
            for y in 0..=255u8 {
                for x in 0..=255u8 {
                    back.push([x, y, x.wrapping_add(k), ba]);
                    src.push([y, x, y.wrapping_mul(3).wrapping_add(x), sa]);
                }
            }
        }
        // all alpha pairs
        2 => {
            op = *r.pick(&[255u8, 255, 128, 0, 1, 254]);
            let (p, q) = ([r.b(), r.b(), r.b()], [r.b(), r.b(), r.b()]);
            for y in 0..=255u8 {
                for x in 0..=255u8 {
                    let (p, q) = if r.chance(1, 2) { (p, q) } else { ([r.b(), r.b(), r.b()], [r.b(), r.b(), r.b()]) };
                    back.push([p[0], p[1], p[2], x]);
                    src.push([q[0], q[1], q[2], y]);
                }
            }
        }
        // anything
        3 => {
            op = r.u8();
            for _ in 0..65536 {
                let (a, b) = (r.u64().to_le_bytes(), r.u64());
                back.push([a[0], a[1], a[2], a[3]]);
                src.push([a[4], a[5], a[6], if b & 1 == 0 { a[7] } else { 255 }]);
            }
        }
        // colours with equal channels, greys, extremes, near ties
        4 => {
            op = *r.pick(&[255u8, 255, 255, 100]);
            let base = [0u8, 1, 2, 63, 64, 127, 128, 129, 191, 254, 255];
            for _ in 0..65536 {
                let c = |r: &mut Rng| {
                    let a = if r.chance(1, 2) { *r.pick(&base) } else { r.u8() };
                    let b = *r.pick(&[a, a, 0, 255, a.wrapping_add(1)]);
                    let c = *r.pick(&[a, b, b, 0, 255, 128]);
                    match r.below(3) {
                        0 => [a, b, c],
                        1 => [b, c, a],
                        _ => [c, a, b],
                    }
                };
                let (p, q) = (c(r), c(r));
                back.push([p[0], p[1], p[2], *r.pick(&[255, 255, 255, 0, ba])]);
                src.push([q[0], q[1], q[2], *r.pick(&[255, 255, 255, 0, sa])]);
            }
        }
        // transparent backdrops and sources, zero opacity
        _ => {
            op = *r.pick(&[0u8, 0, 1, 255, 255]);
            for i in 0..65536u32 {
                let (a, b) = (r.u64().to_le_bytes(), r.u64().to_le_bytes());
                back.push([a[0], a[1], a[2], if i & 1 == 0 { 0 } else { b[0] }]);
                src.push([a[4], a[5], a[6], if i & 2 == 0 { 0 } else { b[1] }]);
            }
        }
    }
    let mut f = FrameD::default();
    f.chunks = vec![layer("l", 1, 0, 0, mode, op), cel(0, 0, 0, 255, 0, CelBody::Raw { w: 256, h: 256, data: flat(&src) })];
    let d = Doc { hdr: Hdr { w: 256, h: 256, ..Default::default() }, frames: vec![f], tail: vec![] };
    Case { kind: mode as u8, aux: flat(&back), bytes: d.encode() }
}
pub fn c17_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let b = &c.bytes;
    let full = reference(b);
    let s = ref_sprite(&full);
    let a = want_load(b)?;
    let l = &s.layers[0];
    let src = refrender::decode(s, &s.frames[0].1[0].image, false).expect("raw image");
    let mut buf = c.aux.clone();
    let out = guard(|| a.render_frame(0, &mut buf, &LayerSelection::All)).map_err(Bad)?;
    if let Err(e) = out {
        return Err(Bad(format!("rendering mode {} fails: {e}", l.blend)));
    }
    let mut h = 0u64;
    for (i, s) in src.iter().enumerate() {
        let back: Px = [c.aux[i * 4], c.aux[i * 4 + 1], c.aux[i * 4 + 2], c.aux[i * 4 + 3]];
        let got: Px = [buf[i * 4], buf[i * 4 + 1], buf[i * 4 + 2], buf[i * 4 + 3]];
        let e = refblend::blend(l.blend, back, *s, l.opacity);
        if e != got {
            if refblend::blend_all(l.blend, back, *s, l.opacity).contains(&got) {
                ctx.add("pixels within floating-point noise of the formula", 1);
                continue;
            }
            return Err(Bad(format!(
                "blend mode {}: backdrop {back:?}, source {s:?}, opacity {}: {got:?}, expected {e:?}",
                crate::refdec::blend_v(l.blend).render(),
                l.opacity
            )));
        }
        h = h.wrapping_mul(31).wrapping_add(u32::from_le_bytes(got) as u64);
    }
    ctx.add(&format!("colour combinations, mode {:02} {}", l.blend, crate::refdec::blend_v(l.blend).render()), src.len() as u64);
    ctx.outcomes.insert(h);
    ctx.nontriv(|| format!("mode {} opacity {} over 65536 combinations", crate::refdec::blend_v(l.blend).render(), l.opacity));
    Ok(())
}

// ------------------------------------------------------------------ C18
pub fn c18_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(c) = sweep_gen(r, idx, 12) {
        return Case { aux, ..c };
    }
    let depth = *r.pick(&[32u16, 32, 16, 8]);
    let dim = |r: &mut Rng| match r.below(10) {
        0 => 1u16,
        1 => 0,
        2 => 255 + r.below(3) as u16,
        3 => 2,
        _ => 1 + r.below(24) as u16,
    };
    let (mut w, mut h) = (dim(r), dim(r));
    let mut cd = (dim(r), dim(r));
    match if idx == 99 { 9 } else { r.below(25) } {
        0 => (w, h) = *r.pick(&[(65535u16, 1u16), (1, 65535), (40000, 2), (33000, 3), (3, 33000), (300, 300)]),
        1 => cd = *r.pick(&[(65535u16, 1u16), (1, 65535), (40000, 2), (2, 40000), (300, 300)]),
        2 => {
            (w, h) = *r.pick(&[(65535u16, 1u16), (1, 65535), (40000, 1)]);
            cd = (w, h);
        }
        _ => {}
    }
    let n = 1 + r.below(3);
    let mut f = FrameD::default();
    if depth == 8 {
        f.chunks.push(gen::full_palette(r));
    }
    for i in 0..n {
        f.chunks.push(layer("l", 1, 0, 0, if r.chance(2, 3) { 0 } else { *r.pick(&[1u16, 2, 10, 16, 17]) }, 255));
        let axis = |r: &mut Rng, w: u16, c: u16| -> i16 {
            let (w, c) = (w as i64, c as i64);
            let v = match r.below(9) {
                0 => *r.pick(&[i16::MIN as i64, i16::MIN as i64 + 1, i16::MAX as i64, i16::MAX as i64 - 1]),
                1 => -c + r.range(-2, 2),
                2 => w + r.range(-2, 2),
                3 => w - c + r.range(-1, 1),
                4 => *r.pick(&[-256i64, -255, -257, 255, 256, -128, 128, -w, w, -65536 + w, c]),
                5 => *r.pick(&[32767i64, -32768, 0, -1, 1]),
                _ => r.range(-c - 1, w + 1),
            };
            v.clamp(i16::MIN as i64, i16::MAX as i64) as i16
        };
        let (x, y) = (axis(r, w, cd.0), axis(r, h, cd.1));
        let mut px = gen::pixels(r, depth, cd.0 as usize * cd.1 as usize, None);
        if depth == 32 && r.chance(2, 3) {
            px.chunks_mut(4).for_each(|p| p[3] = 255);
        }
        let body = if r.chance(1, 2) { CelBody::Raw { w: cd.0, h: cd.1, data: px } } else { CelBody::Zip { w: cd.0, h: cd.1, data: gen::deflate(&px, 3) } };
        f.chunks.push(cel(i as u16, x, y, 255, 0, body));
        cd = (dim(r), dim(r));
    }
    Case { kind: 0, aux, bytes: Doc { hdr: Hdr { w, h, depth, transparent: r.b(), ..Default::default() }, frames: vec![f], tail: vec![] }.encode() }
}
fn render_all(c: &Case, ctx: &mut Ctx, sels: &dyn Fn(&mut Rng, &SpriteRef, usize) -> Vec<Sel>, need: usize) -> Res<()> {
    let b = &c.bytes;
    let full = reference(b);
    let s = ref_sprite(&full);
    let a = want_load(b)?;
    let mut r = aux_rng(c);
    let mut hit = 0;
    for f in some(&mut r, s.frames.len(), 8) {
        for sel in sels(&mut r, s, f) {
            let back = back_px(&mut r, area(s));
            let seen = check_render(&a, s, f, &sel, &back, ctx)?;
            ctx.add("cels composed", seen.cels as u64);
            ctx.add("cels overlapping the canvas", seen.overlap as u64);
            ctx.add("renderings refused for a damaged cel", seen.error as u64);
            hit = hit.max(seen.overlap + seen.error as usize * need);
        }
    }
    ctx.outcomes.insert(hash_bytes(b));
    if hit >= need {
        ctx.nontriv(|| describe(b));
    }
    Ok(())
}
pub fn c18_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c18_check);
    }
    // positions as reported
    let full = reference(&c.bytes);
    let a = want_load(&c.bytes)?;
    for (f, ((_, cels), fr)) in ref_sprite(&full).frames.iter().zip(a.frames()).enumerate() {
        if fr.origin != (0, 0) {
            return Err(Bad(format!("frame {f} is reported at {:?}, not at the origin", fr.origin)));
        }
        for g in &fr.cels {
            if let Some(e) = cels.iter().find(|e| e.layer == g.layer_index) {
                if g.origin != (e.x, e.y) {
                    return Err(Bad(format!("frame {f}: the cel of layer {} is reported at {:?}, stored position is {:?}", e.layer, g.origin, (e.x, e.y))));
                }
            }
        }
    }
    render_all(c, ctx, &|_, _, _| vec![Sel::All], 1)
}

// ------------------------------------------------------------------ C19
pub fn c19_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(c) = sweep_gen(r, idx, 12) {
        return Case { aux, ..c };
    }
    if let Some(mut c) = fixture(idx) {
        c.aux = aux;
        return c;
    }
    if (100..104).contains(&idx) {
        // more layers than half of the layer numbers, cels all over them
        let n = *r.pick(&[33_000usize, 40_000, 65_535, 65_536]);
        let mut f = FrameD::default();
        for i in 0..n {
            f.chunks.push(layer(if i % 100 == 0 { "" } else { "l" }, 1, if i % 1000 == 7 { 2 } else { 0 }, 0, 0, 255));
        }
        let mut at: Vec<usize> = vec![0, 1, 127, 255, 256, 32_766, 32_767, 32_768, 32_769, n - 2, n - 1];
        at.extend((0..8).map(|_| r.below(n)));
        at.sort();
        at.dedup();
        for l in at {
            let z = *r.pick(&[0i16, 0, 0, 1, -1, 2, 300, -300, i16::MAX, i16::MIN]);
            let (x, y) = (r.range(-2, 2) as i16, r.range(-2, 2) as i16);
            let b = gen::image_body(r, 32, 4, 4, None);
            f.chunks.push(cel(l as u16, x, y, r.b(), z, b));
        }
        let d = Doc { hdr: Hdr { w: 5, h: 5, ..Default::default() }, frames: vec![f], tail: vec![] };
        return Case { kind: 0, aux, bytes: d.encode() };
    }
    let mut d = gdoc!(r, Cfg { max_frames: 3, max_layers: *r.pick(&[3, 5, 9, 9, 14]), max_canvas: 12, max_cel: 12, odd_layers: r.chance(1, 4), odd_images: r.chance(1, 4), dup_cels: r.chance(1, 4), user: 0, misc: false, ..BASE });
    // mostly on the canvas
    if r.chance(3, 4) {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Cel { x, y, .. } = &mut c.body {
                if r.chance(4, 5) {
                    (*x, *y) = (r.range(-3, 4) as i16, r.range(-3, 4) as i16);
                }
            }
        }
    }
    // strong z-index play in some
    if r.chance(1, 2) {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Cel { z, .. } = &mut c.body {
                *z = r.range(-4, 4) as i16;
            }
        }
    }
    Case { kind: 0, aux, bytes: d.encode() }
}
pub fn c19_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c19_check);
    }
    // the sprite lists the cels of a frame in the order they are drawn in
    let full = reference(&c.bytes);
    let s = ref_sprite(&full);
    let a = want_load(&c.bytes)?;
    for (f, ((_, cels), fr)) in s.frames.iter().zip(a.frames()).enumerate() {
        let mut last = (i32::MIN, i32::MIN);
        for g in &fr.cels {
            let Some(e) = cels.iter().find(|e| e.layer == g.layer_index) else { continue };
            let key = (s.layers[e.layer].file_index as i32 + e.z as i32, e.z as i32);
            if key < last {
                return Err(Bad(format!("frame {f}: the cel of layer {} is listed after a cel drawn above it", e.layer)));
            }
            last = key;
        }
        ctx.add("drawing orders checked", 1);
    }
    render_all(
        c,
        ctx,
        &|r, s, _| {
            let n = s.layers.len();
            vec![Sel::All, Sel::All, Sel::Mask((0..n).map(|_| r.chance(2, 3)).collect())]
        },
        2,
    )
}

// ------------------------------------------------------------------ C20
pub fn c20_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(c) = sweep_gen(r, idx, 12) {
        return Case { aux, ..c };
    }
    if let Some(mut c) = fixture(idx) {
        c.aux = aux;
        return c;
    }
    let odd = r.chance(1, 3);
    // names which only differ far behind the start, in case or at the end
    let base = *r.pick(&["", "", "A", "Layer ", "\u{e9}tage"]);
    let base = if r.chance(1, 4) { (if base.is_empty() { "x" } else { base }).repeat(1 << r.below(10)) } else { base.to_string() };
    let mut d = gdoc!(r, Cfg { max_frames: 2, max_layers: 9, max_canvas: 6, max_cel: 8, odd_layers: odd, odd_images: r.chance(1, 3), user: 0, misc: false, hsl: false, zindex: false, ..BASE });
    fix_counts(&mut d);
    // opaque-ish content so that showing or hiding makes a difference, more
    // hidden layers, names that repeat
    for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
        match &mut c.body {
            Body::Layer { flags, opacity, name, blend, .. } => {
                if r.chance(1, 3) {
                    *flags ^= 1;
                }
                if r.chance(2, 3) {
                    *opacity = 255;
                    *blend = 0;
                }
                let end = *r.pick(&["A", "B", "a", "Layer 1", "", "\u{dc}", "A ", "A\0", " A", "AA"]);
                *name = if r.chance(1, 3) { end.to_string() } else { format!("{base}{end}") }.into_bytes();
            }
            Body::Cel { x, y, opacity, .. } => {
                *x = r.range(-2, 2) as i16;
                *y = r.range(-2, 2) as i16;
                *opacity = 255;
            }
            _ => {}
        }
    }
    // some cels cannot be decoded: harmless while hidden
    if r.chance(1, 3) {
        for b in img_chunks(&mut d) {
            if r.chance(1, 4) {
                if let CelBody::Zip { data, .. } | CelBody::Raw { data, .. } = b {
                    data.clear();
                }
            }
        }
    }
    if r.chance(1, 6) {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Layer { blend, ty: 0, .. } = &mut c.body {
                if r.chance(1, 4) {
                    *blend = 77;
                }
            }
        }
    }
    Case { kind: 0, aux, bytes: d.encode() }
}
pub fn c20_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c20_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let s = ref_sprite(&full);
    let a = want_load(b)?;
    let n = s.layers.len();
    // selections by predicate and by name
    let mut r = aux_rng(c);
    let mut names: Vec<String> = ["A", "B", "a", "", "Layer 1", "\u{dc}", "zzz"].into_iter().filter(|_| r.chance(1, 2)).map(String::from).collect();
    // the names of layers and names that are nearly those of layers
    for _ in 0..r.below(4) {
        let Some(l) = (n > 0).then(|| &s.layers[r.below(n)]) else { break };
        let mut x = String::from_utf8_lossy(&l.name).into_owned();
        match r.below(8) {
            0 => x.push(*r.pick(&[' ', 'A', '\0', '\u{dc}', '\u{301}'])),
            1 => drop(x.pop()),
            2 => x.insert(0, *r.pick(&[' ', 'A'])),
            3 => x = x.to_uppercase(),
            4 => x = x.to_lowercase(),
            _ => {}
        }
        names.push(x);
    }
    if r.chance(1, 8) {
        names.extend((0..300).map(|i| format!("none {i}")));
        let k = r.below(names.len());
        names.rotate_left(k);
    }
    let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    let bits: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    let by_name = guard(|| a.select_layers_by_name(&names)).map_err(Bad)?;
    let exp: Vec<bool> = s.layers.iter().map(|l| names.iter().any(|x| x.as_bytes() == &l.name[..])).collect();
    if by_name != LayerSelection::Mask(exp.clone()) {
        return Err(Bad(format!("select_layers_by_name({names:?}) is {by_name:?}, expected {exp:?}")));
    }
    let k = std::cell::Cell::new(0usize);
    let pred = guard(|| {
        a.select_layers(|l| {
            // identify the layer by its place in the sprite
            let i = a.layers().iter().position(|x| std::ptr::eq(x, l)).unwrap_or(k.get());
            k.set(k.get() + 1);
            bits.get(i).copied().unwrap_or(false)
        })
    })
    .map_err(Bad)?;
    if pred != LayerSelection::Mask(bits.clone()) {
        return Err(Bad(format!("select_layers by predicate is {pred:?}, expected {bits:?}")));
    }
    let op = guard(|| a.select_layers(|l| l.opacity > 100)).map_err(Bad)?;
    let exp_op: Vec<bool> = s.layers.iter().map(|l| l.opacity > 100).collect();
    if op != LayerSelection::Mask(exp_op.clone()) {
        return Err(Bad(format!("select_layers(opacity > 100) is {op:?}, expected {exp_op:?}")));
    }
    ctx.add("selections compared", 3);
    let (tree, vis) = (s.tree_ok, s.layers.iter().any(|l| l.own_visible && !l.shown));
    if vis {
        ctx.add("sprites with layers hidden by a group", 1);
    }
    render_all(
        c,
        ctx,
        &|r, _, _| {
            let mut v = vec![Sel::All, Sel::Mask(bits.clone()), Sel::Mask(exp.clone()), any_sel(r, n)];
            if tree {
                v.push(Sel::Visible);
            } else {
                v.retain(|s| !matches!(s, Sel::Visible));
            }
            v
        },
        1,
    )
}

// ------------------------------------------------------------------ C21
pub fn c21_gen(r: &mut Rng, idx: u64, t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(mut c) = fixture(idx) {
        c.aux = aux;
        return c;
    }
    if (9..17).contains(&idx) || t && r.chance(1, 4000) {
        return history_gen(r, idx, aux);
    }
    if idx % 4 == 1 {
        return reuse_gen(r, aux);
    }
    let bytes = match r.below(8) {
        0 => {
            let b = gen::doc(r, &RICH).encode();
            gen::mutate(r, b)
        }
        5 => anything(r),
        6 => c23_gen(r, 50, t).bytes,
        7 => c15_gen(r, 50, t).bytes,
        1 => c02_gen(r, 9000, t).bytes,
        2 => soup(r).encode(),
        _ => gdoc!(r, Cfg { max_frames: 5, max_layers: 7, ..RICH }).encode(),
    };
    Case { kind: 0, aux, bytes }
}
/// kind 1: two files of equal length and layout, the second one in `aux`
fn reuse_gen(r: &mut Rng, mut aux: Vec<u8>) -> Case {
    let mut d = gdoc!(r, Cfg { max_frames: 3, max_layers: 4, user: 1, burst: false, hsl: false, ..BASE });
    let bpp = d.hdr.depth as usize / 8;
    if bpp == 0 {
        return Case { kind: 0, aux, bytes: d.encode() };
    }
    // every picture stored in a form whose length does not depend on content
    for b in img_chunks(&mut d) {
        if let CelBody::Zip { w, h, data } = b {
            let px = inflate::zlib(data, *w as usize * *h as usize * bpp).expect("own stream");
            *data = gen::deflate(&px, 0);
        }
    }
    let mut e = d.clone();
    let what = r.below(8);
    for c in e.frames.iter_mut().flat_map(|f| &mut f.chunks) {
        match &mut c.body {
            Body::Cel { body: CelBody::Raw { data, .. }, .. } if what != 0 => data.iter_mut().for_each(|x| *x = x.wrapping_add(1 + r.below(3) as u8)),
            Body::Cel { body: CelBody::Zip { w, h, data }, .. } if what != 0 => {
                let mut px = inflate::zlib(data, *w as usize * *h as usize * bpp).expect("own stream");
                px.iter_mut().for_each(|x| *x = x.wrapping_add(1 + r.below(3) as u8));
                let n = data.len();
                *data = gen::deflate(&px, 0);
                assert_eq!(n, data.len());
            }
            Body::Cel { x, y, opacity, .. } if what == 1 => {
                *x = x.wrapping_add(1);
                *y = y.wrapping_sub(1);
                *opacity = opacity.wrapping_add(100);
            }
            Body::Layer { name, opacity, .. } if what <= 2 => {
                name.iter_mut().filter(|c| c.is_ascii_alphanumeric()).for_each(|c| *c = b'z');
                *opacity = opacity.wrapping_add(77);
            }
            Body::Pal { e, .. } if what <= 4 => e.iter_mut().for_each(|e| e.1 = [e.1[1], e.1[2], e.1[0].wrapping_add(5), e.1[3]]),
            _ => {}
        }
    }
    // some of the files are damaged
    let mut hurt = r.chance(1, 2);
    if hurt {
        for b in img_chunks(&mut e) {
            if let CelBody::Zip { data, .. } = b {
                let n = data.len();
                if n > 0 && r.chance(2, 3) {
                    let at = if r.chance(1, 2) { r.below(n.min(7)) } else { n - 1 - r.below(n.min(6)) };
                    data[at] ^= 1 << r.below(8);
                    hurt = false;
                }
            }
        }
    }
    let (mut x, mut y) = (d.encode(), e.encode());
    assert_eq!(x.len(), y.len());
    if hurt {
        for _ in 0..1 + r.below(4) {
            let at = r.below(y.len());
            y[at] ^= 1 << r.below(8);
        }
    }
    if r.chance(1, 2) {
        std::mem::swap(&mut x, &mut y);
    }
    aux.extend(y);
    Case { kind: 1, aux, bytes: x }
}
/// kind 2: one tiny sprite, used very often. aux[8] = the operation most used
fn history_gen(r: &mut Rng, idx: u64, mut aux: Vec<u8>) -> Case {
    let depth = *r.pick(&[32u16, 16, 8]);
    let mut d = Doc { hdr: Hdr { depth, w: 2, h: 2, ..Default::default() }, frames: vec![FrameD::default(); 2], tail: vec![] };
    if depth == 8 {
        d.frames[0].chunks.push(palette(0, &[[1, 2, 3, 255], [4, 5, 6, 255], [7, 8, 9, 40]]));
    }
    for i in 0..2u16 {
        d.frames[0].chunks.push(layer(if i == 0 { "A" } else { "B" }, 1, 0, 0, i, 255));
        d.frames[0].chunks.push(Body::User { flags: 1, text: b"u".to_vec(), color: [0; 4], props: PropsD::none() }.into());
    }
    let bpp = depth as usize / 8;
    let px = |r: &mut Rng| -> Vec<u8> { (0..2 * bpp).map(|_| if depth == 8 { r.below(3) as u8 } else { r.b() }).collect() };
    let one = CelBody::Zip { w: 2, h: 1, data: gen::deflate(&px(r), 6) };
    d.frames[0].chunks.push(cel(0, 0, 0, 255, 0, one));
    d.frames[0].chunks.push(cel(1, 0, 1, 200, 0, CelBody::Raw { w: 1, h: 2, data: px(r) }));
    d.frames[1].chunks.push(cel(0, 0, 1, 255, 0, CelBody::Link(0)));
    if idx % 8 == 7 {
        // one image that cannot be decoded
        d.frames[1].chunks.push(cel(1, 0, 0, 255, 0, CelBody::Zip { w: 2, h: 2, data: vec![1, 2, 3] }));
    }
    aux.push((idx % 8) as u8);
    Case { kind: 2, aux, bytes: d.encode() }
}
/// Results of an operation never depend on how often anything was done before.
fn history_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let b = &c.bytes;
    let mut r = aux_rng(c);
    let main = c.aux.get(8).copied().unwrap_or(0) as usize;
    let broken = &b[..b.len() - 3];
    let a = want_load(b)?;
    let n = dims(&a, 0) * 4;
    let ops = |k: usize, a: &AsepriteFile<'_>| -> u64 {
        let mask = [true, false];
        match k {
            0 => match guard(|| AsepriteFile::load(b)) {
                Ok(Ok(x)) => mix(run_op(&x, Op::Frame(0, 0), &mask), (x.images.len() * 100 + x.layers().len() * 10 + x.frames().len()) as u64),
                Ok(Err(e)) => hash_bytes(e.to_string().as_bytes()),
                Err(_) => 3,
            },
            1 => run_op(a, Op::Frame(0, 0), &mask),
            2 => run_op(a, Op::Image(0), &mask),
            3 => run_op(a, Op::Hash(1), &mask),
            4 => match guard(|| AsepriteFile::load(broken).err().map(|e| e.to_string())) {
                Ok(Some(e)) => hash_bytes(e.as_bytes()),
                Ok(None) => 4,
                Err(_) => 3,
            },
            5 => run_op(a, Op::Frame(1, 2), &mask),
            6 => {
                let mut buf = vec![1; n + 9];
                match guard(|| (decompress(a.images[0].data, &mut buf).is_ok(), a.load_image(0, &mut [0; 3]).is_ok())) {
                    Ok((x, y)) => mix(x as u64 * 2 + y as u64, hash_bytes(&buf)),
                    Err(_) => 3,
                }
            }
            _ => run_op(a, Op::Frame(1, 1), &mask),
        }
    };
    let first: Vec<u64> = (0..8).map(|k| ops(k, &a)).collect();
    let rounds = 70_000u64;
    for i in 0..rounds {
        let k = if i % 16 == 15 { r.below(8) } else { main };
        if ops(k, &a) != first[k] {
            return Err(Bad(format!("operation {k} gives another result after {i} operations, mostly {main}, in one process")));
        }
    }
    // and everything once more
    for k in 0..8 {
        if ops(k, &a) != first[k] {
            return Err(Bad(format!("operation {k} gives another result after {rounds} operations, mostly {main}, in one process")));
        }
    }
    ctx.add("operations in long histories", rounds);
    first.iter().for_each(|x| ctx.fold(*x));
    ctx.outcomes.insert(ctx.digest);
    ctx.nontriv(|| format!("{rounds} operations in one history; {}", describe(b)));
    Ok(())
}
/// The same memory holds one file, then another: nothing of the first may
/// show in the second.
fn reuse_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let other = &c.aux[8..];
    let mut r = aux_rng(c);
    let sel = r.below(3);
    let mut quiet = Ctx::default();
    let alone = digest_all(other, &mut quiet, true);
    let alone_a = digest_all(&c.bytes, &mut quiet, true);
    // one buffer, and one loaded sprite living at one place
    let mut place = c.bytes.clone();
    for round in 0..3 {
        let (b, want) = if round % 2 == 0 { (&c.bytes[..], alone_a) } else { (other, alone) };
        place.copy_from_slice(b);
        if sel == 0 && round == 0 {
            let _ = guard(|| AsepriteFile::load(&place).is_ok());
        }
        if digest_all(&place, ctx, true) != want {
            return Err(Bad(format!("round {round}: the same bytes give different results in memory that held another file before")));
        }
        ctx.add("files read from memory used before", 1);
    }
    ctx.outcomes.insert(alone);
    ctx.fold(mix(alone, alone_a));
    if alone != alone_a {
        ctx.nontriv(|| format!("two different files in the same memory; {}", describe(&c.bytes)));
    }
    Ok(())
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Image(usize),
    Frame(usize, u8),
    Hash(usize),
}
fn run_op(a: &AsepriteFile<'_>, op: Op, mask: &[bool]) -> u64 {
    run_op_at(a, op, mask, 0)
}
/// The target starts `shift` bytes behind the start of an allocation.
fn run_op_at(a: &AsepriteFile<'_>, op: Op, mask: &[bool], shift: usize) -> u64 {
    let (w, h) = a.size();
    let out = match op {
        Op::Image(i) => {
            let mut b = vec![3; shift + dims(a, i) * 4];
            let b = &mut b[shift..];
            guard(|| a.load_image(i, b)).map(|x| x.map(|_| hash_bytes(b)))
        }
        Op::Frame(f, s) => {
            let mut b = vec![90; shift + w as usize * h as usize * 4];
            let b = &mut b[shift..];
            let sel = match s {
                0 => LayerSelection::Visible,
                1 => LayerSelection::All,
                _ => LayerSelection::Mask(mask.to_vec()),
            };
            guard(|| a.render_frame(f, b, &sel)).map(|x| x.map(|_| hash_bytes(b)))
        }
        Op::Hash(f) => {
            let mut b = vec![0; shift + w as usize * h as usize * 4];
            let b = &mut b[shift..];
            #[allow(deprecated)]
            guard(|| a.combined_frame_image(f, b)).map(|x| x.map(|h| mix(h, hash_bytes(b))))
        }
    };
    match out {
        Ok(Ok(h)) => mix(1, h),
        Ok(Err(e)) => mix(2, hash_bytes(e.to_string().as_bytes())),
        Err(_) => 3,
    }
}
pub fn c21_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == 1 {
        return reuse_check(c, ctx);
    }
    if c.kind == 2 {
        return history_check(c, ctx);
    }
    let b = &c.bytes;
    let mut r = aux_rng(c);
    // the same bytes at an address of another alignment
    let at = r.below(9);
    let shifted: Vec<u8> = vec![0xEE; at].into_iter().chain(b.iter().copied()).collect();
    let copy = &shifted[at..];
    let h = digest_all(b, ctx, true);
    ctx.fold(h);
    let one = (see_raw(b).map_err(|_| Out::Skip("parser panicked (C01)"))?, see_file(b).map_err(|_| Out::Skip("parser panicked (C01)"))?);
    let two = (see_raw(copy)?, see_file(copy)?);
    let same = |x: &Result<V, String>, y: &Result<V, String>| match (x, y) {
        (Ok(a), Ok(b)) => crate::val::diff(a, b, CONTENT),
        (Err(a), Err(b)) if a == b => None,
        _ => Some("accepted once and refused once".into()),
    };
    for (n, x, y) in [("raw", &one.0, &two.0), ("file", &one.1, &two.1)] {
        if let Some(d) = same(x, y) {
            return Err(Bad(format!("parsing the same bytes twice gives different {n} views: {d}")));
        }
    }
    ctx.outcomes.insert(one.1.as_ref().map_or(2, digest_v));
    let (Ok(Ok(a)), Ok(Ok(a2))) = (guard(|| AsepriteFile::load(b)), guard(|| AsepriteFile::load(copy))) else {
        return if guard(|| AsepriteFile::load(b).is_ok()) == guard(|| AsepriteFile::load(b).is_ok()) { Ok(()) } else { Err(Bad("loads once and not again".into())) };
    };
    if too_big(&a) {
        return Ok(());
    }
    let before = guard(|| (Obs::new(b).sprite(&a), Obs::new(b).file(&a.file))).map_err(Bad)?;
    let nl = a.layers().len();
    let mask: Vec<bool> = (0..nl).map(|_| r.chance(1, 2)).collect();
    let mut ops: Vec<Op> = some(&mut r, a.images.len(), 8).into_iter().map(Op::Image).collect();
    for f in some(&mut r, a.frames().len(), 4) {
        ops.extend([Op::Frame(f, 0), Op::Frame(f, 1), Op::Frame(f, 2), Op::Hash(f)]);
    }
    let first: Vec<u64> = ops.iter().map(|&o| run_op(&a, o, &mask)).collect();
    // again, in another order and mixed, on both instances
    let mut order: Vec<usize> = (0..ops.len()).chain(0..ops.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    for &i in &order {
        for (n, x) in [("the same", &a), ("a second", &a2)] {
            if run_op_at(x, ops[i], &mask, r.below(9)) != first[i] {
                return Err(Bad(format!("{:?} gives another result when repeated in another order on {n} sprite", ops[i])));
            }
        }
    }
    ctx.add("operations repeated in another order", order.len() as u64 * 2);
    // several threads at once
    let threads = 2 + r.below(3);
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let bad = std::sync::Mutex::new(None);
    let gate = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (a, ops, first, mask, bad, gate, seed) = (&a, &ops, &first, &mask, &bad, &gate, seeds[t]);
            s.spawn(move || {
                let mut r = Rng::new(seed);
                gate.wait();
                for _ in 0..ops.len().min(24) {
                    let i = r.below(ops.len());
                    if r.chance(1, 4) {
                        std::thread::yield_now();
                    }
                    if run_op(a, ops[i], mask) != first[i] {
                        *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{:?} gives another result while {threads} threads use the sprite", ops[i]));
                    }
                }
            });
        }
    });
    if let Some(m) = bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        return Err(Bad(m));
    }
    ctx.add("operations run concurrently", (threads * ops.len().min(24)) as u64);
    let after = guard(|| (Obs::new(b).sprite(&a), Obs::new(b).file(&a.file))).map_err(Bad)?;
    for (x, y) in [(&before.0, &after.0), (&before.1, &after.1)] {
        if let Some(d) = crate::val::diff(x, y, PLACE) {
            return Err(Bad(format!("queries changed the loaded sprite: {d}")));
        }
    }
    drop(a);
    if b != copy {
        return Err(Bad("the input bytes changed".into()));
    }
    for f in &first {
        ctx.outcomes.insert(*f);
    }
    if !ops.is_empty() {
        ctx.nontriv(|| format!("{} operations, {threads} threads; {}", ops.len(), describe(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C23
pub fn c23_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    let aux = seed_aux(r);
    if let Some(c) = sweep_gen(r, idx, 8) {
        return Case { aux, ..c };
    }
    if let Some(mut c) = fixture(idx) {
        c.aux = aux;
        return c;
    }
    // frames built from few images with single differences between frames
    let depth = *r.pick(&[32u16, 16, 8]);
    let nl = *r.pick(&[1, 2, 3, 4, 4, 6, 9, 20]);
    let nl = if r.chance(1, 250) { 40 + r.below(300) } else { nl };
    let nf = 2 + if r.chance(1, 400) { 260 } else { r.below(7) };
    let still = nl > 4;
    let mut d = Doc { hdr: Hdr { depth, w: 6, h: 6, ..Default::default() }, frames: vec![FrameD::default(); nf], tail: vec![] };
    let mut pre = vec![];
    if depth == 8 {
        pre.push(gen::full_palette(r));
    }
    for _ in 0..nl {
        let g = r.chance(1, 8);
        let op = *r.pick(&[255u8, 255, 128, 10, 0]);
        pre.push(layer("l", !r.chance(1, 6) as u16, g as u16, 0, if r.chance(1, 2) { 0 } else { r.below(19) as u16 }, op));
    }
    #[derive(Clone)]
    struct Spot(i16, i16, u8, i16, bool);
    let base: Vec<Spot> = (0..nl).map(|_| Spot(r.range(-2, 3) as i16, r.range(-2, 3) as i16, if r.chance(2, 3) { 255 } else { r.b() }, r.range(-1, 1) as i16, true)).collect();
    // two homes for images per layer: frame 0 and frame 1
    for l in 0..nl {
        for f in 0..nf {
            let mut s = base[l].clone();
            // with many layers single differences, mostly near the top
            let differ = if still { l + 3 >= nl && r.chance(1, 4) || r.below(nl * 2) == 0 } else { r.chance(1, 3) };
            if f > 1 && differ {
                match r.below(6) {
                    0 => s.0 += *r.pick(&[-1i16, 1, 2]),
                    1 => s.1 += *r.pick(&[-1i16, 1, 2]),
                    2 => s.2 = s.2.wrapping_sub(*r.pick(&[1u8, 100])),
                    3 => s.3 += *r.pick(&[-2i16, 1, 3]),
                    4 => s.4 = false,
                    _ => {}
                }
            }
            if !s.4 {
                continue;
            }
            let body = if f < 2 {
                let (w, h) = match r.below(10) {
                    0 => *r.pick(&[(0, 0), (0, 2), (2, 0)]),
                    _ => (1 + r.below(5) as u16, 1 + r.below(5) as u16),
                };
                gen::image_body(r, depth, w, h, None)
            } else {
                CelBody::Link(if still && !differ || r.chance(3, 4) { 0 } else { 1 })
            };
            d.frames[f].chunks.push(cel(l as u16, s.0, s.1, s.2, s.3, body));
        }
    }
    for f in &mut d.frames {
        if r.chance(1, 4) {
            f.chunks.reverse();
        }
        f.duration = r.u16();
    }
    pre.append(&mut d.frames[0].chunks);
    d.frames[0].chunks = pre;
    Case { kind: 0, aux, bytes: d.encode() }
}
pub fn c23_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads_small, c23_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let s = ref_sprite(&full);
    let (a, a2) = (want_load(b)?, want_load(b)?);
    let n = area(s);
    let mut r = aux_rng(c);
    let back = if r.chance(1, 2) { vec![[0; 4]; n] } else { back_px(&mut r, n) };
    let mut frames: Vec<(u64, Vec<u8>)> = vec![];
    for f in 0..s.frames.len() {
        let mut buf = flat(&back);
        let mut vis = flat(&back);
        #[allow(deprecated)]
        let h = guard(|| a.combined_frame_image(f, &mut buf)).map_err(Bad)?;
        let x = guard(|| a.render_frame(f, &mut vis, &LayerSelection::Visible)).map_err(Bad)?;
        match (&h, &x) {
            (Ok(_), Ok(())) => {
                if buf != vis {
                    return Err(Bad(format!("combined_frame_image({f}) differs from rendering the visible layers")));
                }
            }
            (Err(_), Err(_)) => return Err(Out::Skip("frame cannot be rendered")),
            _ => return Err(Bad(format!("combined_frame_image({f}) and rendering the visible layers disagree on success"))),
        }
        let Ok(h) = h else { continue };
        for (what, x, fill) in [("another call", &a, 0u8), ("another load", &a2, 200)] {
            let mut o = vec![fill; n * 4 + 3];
            #[allow(deprecated)]
            let g = guard(|| x.combined_frame_image(f, &mut o)).map_err(Bad)?;
            if g.ok() != Some(h) {
                return Err(Bad(format!("frame {f}: {what} returns another hash")));
            }
        }
        ctx.fold(h);
        ctx.outcomes.insert(h);
        ctx.add("frame hashes observed", 1);
        frames.push((h, buf));
    }
    // the cels of a frame in composition order
    let sig = |f: usize| {
        let mut c: Vec<_> = s.frames[f].1.iter().collect();
        c.sort_by_key(|c| (s.layers[c.layer].file_index as i32 + c.z as i32, c.z as i32));
        c.iter().map(|c| (c.layer, c.home, c.x, c.y, c.opacity, c.image.w, c.image.h)).collect::<Vec<_>>()
    };
    for i in 0..frames.len() {
        for j in 0..i {
            if sig(i) == sig(j) {
                ctx.add("frame pairs of the same cels", 1);
                if frames[i].0 != frames[j].0 {
                    return Err(Bad(format!("frames {j} and {i} consist of the same cels but their hashes differ")));
                }
            } else if frames[i].1 != frames[j].1 {
                ctx.add("frame pairs that render differently", 1);
                if frames[i].0 == frames[j].0 {
                    return Err(Bad(format!("frames {j} and {i} render differently but share the hash {:x}", frames[i].0)));
                }
            }
        }
    }
    if frames.len() > 1 {
        ctx.nontriv(|| describe(b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C24
pub fn c24_gen(r: &mut Rng, idx: u64, t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(bytes) = crate::p_parse::scaled(idx) {
        return case(bytes);
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    // more of everything than sixteen bits can count
    match idx {
        100..=103 => return case(c19_gen(r, idx, t).bytes),
        104..=106 => return case(crate::p_parse::c04_gen(r, idx - 104 + 9, t).bytes),
        107..=109 => return case(crate::p_parse::c05_gen(r, idx - 107 + 9, t).bytes),
        110..=112 => return case(c12_gen(r, idx - 10, t).bytes),
        _ => {}
    }
    let bytes = match r.below(11) {
        8 => anything(r),
        9 => c23_gen(r, 50, t).bytes,
        10 => c19_gen(r, 50, t).bytes,
        0 => gen::hostile(r, 100),
        1 => c02_gen(r, 9000, t).bytes,
        2 => c18_gen(r, 50, t).bytes,
        3 => c13_gen(r, 1, t).bytes,
        4 => {
            let b = gen::doc(r, &RICH).encode();
            gen::mutate(r, b)
        }
        5 => crate::p_parse::c09_gen(r, 9000, t).bytes,
        _ => gdoc!(r, Cfg { max_frames: 4, max_layers: 7, far: true, ..RICH }).encode(),
    };
    case(bytes)
}
pub fn c24_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |_| true, c24_check);
    }
    let h = digest_all(&c.bytes, ctx, true);
    ctx.fold(h);
    ctx.outcomes.insert(h);
    ctx.nontriv(|| describe(&c.bytes));
    Ok(())
}
