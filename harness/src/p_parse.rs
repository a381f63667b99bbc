//! Properties about parsing: C01, C03..C11, C22.
use crate::common::*;
use crate::doc::*;
use crate::gen::{self, Cfg, BASE};
use crate::monitor::{self, guard};
use crate::observe::{self, Obs};
use crate::refdec::{self, Fault};
use crate::reffile;
use crate::rng::{hash_bytes, mix, Rng};
use crate::val::{Cmp, V};
use aseprite_loader::binary::{self as bin, chunk::Chunk, file::parse_file, raw_file::parse_raw_file};
use aseprite_loader::loader::{AsepriteFile, LayerSelection};

pub fn case(bytes: Vec<u8>) -> Case {
    Case { kind: 0, aux: vec![], bytes }
}
pub fn kase(kind: u8, bytes: Vec<u8>) -> Case {
    Case { kind, aux: vec![], bytes }
}
/// the project's own sample files come first
pub fn fixture(idx: u64) -> Option<Case> {
    FIXTURES.get(idx as usize).map(|f| case(f.1.to_vec()))
}
/// Everything the generator can produce that all three views accept.
pub const RICH: Cfg = Cfg { user: 1, props: true, odd_layers: true, odd_images: true, dup_cels: true, palettes: true, wild: true, ..BASE };

// ------------------------------------------------------------------ sweeps
/// Cases of this kind stand for every variant of their file.
pub const SWEEP: u8 = 200;
pub const FIRST_SWEEP: u64 = 40;
/// After the fixtures and families: `n` cases of this kind.
pub fn sweep_gen(r: &mut Rng, idx: u64, n: u64) -> Option<Case> {
    if !(FIRST_SWEEP..FIRST_SWEEP + n).contains(&idx) {
        return None;
    }
    let c = Cfg { max_frames: 3, max_layers: 4, max_cel: 3, max_canvas: 6, burst: false, user: 2, raw_cels: idx % 4 == 3, ..RICH };
    let bytes = gen::small_file(r, &c);
    Some(Case { kind: SWEEP, aux: vec![], bytes })
}
/// Run a check on all variants that meet its precondition.
pub fn sweep(c: &Case, ctx: &mut Ctx, kind: u8, what: u8, pre: fn(&[u8]) -> bool, check: fn(&Case, &mut Ctx) -> Res<()>) -> Res<()> {
    let (mut n, mut met) = (0u64, 0u64);
    let r = gen::variants(&c.bytes, what, |bytes, how| {
        n += 1;
        if !pre(&bytes) {
            return Ok(());
        }
        met += 1;
        crate::run::tick();
        match check(&Case { kind, aux: c.aux.clone(), bytes }, ctx) {
            Err(Bad(m)) => Err(Bad(format!("variant `{how}`: {m}"))),
            _ => Ok(()),
        }
    });
    ctx.add("sweep variants", n);
    ctx.add("sweep variants checked", met);
    r
}
fn all(_: &[u8]) -> bool {
    true
}
fn loads(b: &[u8]) -> bool {
    reffile::full(b).is_ok_and(|f| f.sprite.is_ok())
}

// ------------------------------------------------------------------ C01
pub fn c01_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(b) = scaled(idx) {
        return case(b);
    }
    if let Some(c) = sweep_gen(r, idx, 32) {
        return c;
    }
    match r.below(20) {
        0..=8 => case(gen::hostile(r, 20000)),
        9 | 10 => {
            let f = r.pick(&FIXTURES).1;
            let f = if f.len() > 1 << 16 { &f[..1 << 16] } else { f };
            if r.chance(1, 2) {
                case(f[..r.below(f.len() + 1)].to_vec())
            } else {
                case(gen::mutate(r, f.to_vec()))
            }
        }
        11 => {
            let k = r.below(300);
            case(r.bytes(k))
        }
        12 => case(gmut!(r, soup(r).encode())),
        13 | 14 => case(anything(r)),
        _ => {
            // one parser on its own
            let which = r.below(PARSERS.len());
            let c = Cfg { max_frames: 1, raw_cels: true, ..RICH };
            let mut d = soup(r);
            if r.chance(1, 2) {
                d = gen::doc(r, &c);
            }
            let name = PARSERS[which].0;
            let pick: Vec<&ChunkD> = d.frames[0].chunks.iter().filter(|c| name.contains(kind_name(c))).collect();
            let mut o = Vec::new();
            if let Some(c) = pick.first() {
                if name == "chunk" {
                    c.enc(&mut o);
                } else {
                    c.body.enc(&mut o);
                }
            } else if name == "header" {
                o = d.encode();
                o.truncate(128 + r.below(8));
            } else if name == "frame" || name == "frames" {
                o = d.encode().split_off(128);
            } else if name.starts_with("prop") || name == "value" || name == "vector" {
                o = if r.chance(1, 2) {
                    gen::props_bomb(r, 20000)
                } else {
                    let mut v = vec![];
                    gen::props(r).enc(&mut v);
                    v
                };
                let cut = match name {
                    "properties" => 0,
                    "prop_map" => 0,
                    "property" => 8,
                    "value" => 11,
                    _ => 13,
                };
                if name == "properties" {
                    let mut v = vec![];
                    v.p32(*r.pick(&[o.len() as u32 + 8, 0, 7, 8, u32::MAX]));
                    v.p32(*r.pick(&[1, 1, 2, u32::MAX]));
                    v.extend_from_slice(&o);
                    o = v;
                }
                o.drain(..cut.min(o.len()));
            } else {
                let k = r.below(80);
                o = r.bytes(k);
            }
            for _ in 0..r.below(3) {
                o = gen::mutate(r, o);
            }
            Case { kind: 1, aux: vec![which as u8], bytes: o }
        }
    }
}
/// Something of every other generator, sound or faulty, sometimes with more
/// damage on top.
pub fn anything(r: &mut Rng) -> Vec<u8> {
    use crate::p_pix as q;
    let idx = 511 + r.below(400) as u64;
    let b = match r.below(16) {
        0..=3 => {
            let mut d = gen::doc(r, &Cfg { max_frames: 3, max_cel: 6, user: 2, ..RICH });
            if r.chance(1, 2) {
                // the single fault is not alone
                for _ in 0..r.below(3) {
                    let f = r.below(d.frames.len());
                    d.frames[f].chunks.push(any_chunk(r));
                }
            }
            fault(r, d)
        }
        4 => c05_gen(r, idx, false).bytes,
        5 => c07_gen(r, idx, false).bytes,
        6 | 7 => c08_gen(r, idx + 100, false).bytes,
        8 => c10_gen(r, idx, false).bytes,
        9 => c11_gen(r, idx, false).bytes,
        10 => q::c13_gen(r, idx | 1, false).bytes,
        11 => q::c15_gen(r, idx, false).bytes,
        12 => q::c16_gen(r, idx, false).bytes,
        13 => q::c20_gen(r, idx, false).bytes,
        14 => q::c23_gen(r, idx, false).bytes,
        _ => claims(r),
    };
    if r.chance(1, 4) {
        gen::mutate(r, b)
    } else {
        b
    }
}
fn kind_name(c: &ChunkD) -> &'static str {
    match &c.body {
        Body::OldPal(..) => "old_palette",
        Body::Layer { .. } => "layer",
        Body::Cel { .. } => "cel",
        Body::CelExtra { .. } => "celextra",
        Body::Profile { .. } => "profile",
        Body::Ext { .. } => "external",
        Body::Mask { .. } => "mask",
        Body::Tags { .. } => "tags",
        Body::Pal { .. } => "newpal",
        Body::User { .. } => "user",
        Body::Slice { .. } => "slice",
        Body::Tileset { .. } => "tileset",
        _ => "chunk",
    }
}
type P = fn(&[u8]) -> bool;
macro_rules! ps {
    ($($n:literal => $f:expr),* $(,)?) => { &[$(($n, (|b: &[u8]| { let r = $f(b); let ok = r.is_ok(); if let Err(e) = &r { let _ = e.to_string(); } drop(r); ok }) as P)),*] };
}
#[cfg(not(feature = "parsers"))]
pub const PARSERS: &[(&str, P)] = ps!["frames" => |b| parse_raw_file(b).map(|_| ())];
#[cfg(feature = "parsers")]
pub const PARSERS: &[(&str, P)] = ps![
    "header" => bin::header::parse_header,
    "frames" => bin::raw_frame::parse_frames,
    "frame" => bin::raw_frame::parse_rawframe,
    "chunk" => bin::chunk::parse_chunk,
    "chunk type" => bin::chunk_type::parse_chunk_type,
    "cel" => bin::chunks::cel::parse_cel_chunk,
    "celextra" => bin::chunks::cel_extra::parse_cel_extra_chunk,
    "profile" => bin::chunks::color_profile::parse_color_profile,
    "external" => bin::chunks::external_files::parse_external_files_chunk,
    "external 1" => bin::chunks::external_files::parse_external_file,
    "layer" => bin::chunks::layer::parse_layer_chunk,
    "mask" => bin::chunks::mask::parse_mask_chunk,
    "old_palette" => bin::chunks::old_palette::parse_old_palette_chunk,
    "old_palette packet" => bin::chunks::old_palette::parse_packet,
    "newpal" => bin::chunks::palette::parse_palette_chunk,
    "newpal entry" => bin::chunks::palette::parse_palette_entry,
    "slice" => bin::chunks::slice::parse_slice_chunk,
    "nine" => bin::chunks::slice::parse_nine_patch,
    "pivot" => bin::chunks::slice::parse_pivot,
    "tags" => bin::chunks::tags::parse_tags_chunk,
    "tags 1" => bin::chunks::tags::parse_tag,
    "tileset" => bin::chunks::tileset::parse_tileset_chunk,
    "tileset ext" => bin::chunks::tileset::parse_external_file,
    "tileset tiles" => bin::chunks::tileset::parse_tiles,
    "user" => bin::chunks::user_data::parse_user_data_chunk,
    "properties" => bin::chunks::user_data::parse_properties_maps,
    "prop_map" => bin::chunks::user_data::parse_properties_map,
    "property" => bin::chunks::user_data::parse_property,
    "value" => bin::chunks::user_data::parse_value,
    "vector" => bin::chunks::user_data::parse_vector,
    "color depth" => bin::color_depth::parse_color_depth,
    "blend mode" => bin::blend_mode::parse_blend_mode,
    "string" => bin::scalars::parse_string,
    "uuid" => bin::scalars::parse_uuid,
    "fixed" => bin::scalars::fixed,
    "rect" => bin::scalars::parse_rect,
    "color" => bin::scalars::parse_color,
    "rgb" => bin::scalars::parse_rgb,
    "dword" => bin::scalars::parse_dword_as_usize,
];

pub fn c01_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, all, c01_check);
    }
    let b = &c.bytes;
    if c.kind == 1 {
        let (name, f) = PARSERS[c.aux[0] as usize % PARSERS.len()];
        let ok = guard(|| f(b)).map_err(|p| Bad(format!("parser `{name}`: {p}")))?;
        ctx.add(&format!("single parser calls {}", if ok { "accepted" } else { "refused" }), 1);
        ctx.outcomes.insert(mix(1, (c.aux[0] as u64) << 1 | ok as u64));
        if !b.is_empty() {
            ctx.nontriv(|| format!("parser {name} on {} bytes", b.len()));
        }
        return Ok(());
    }
    let raw = guard(|| match parse_raw_file(b) {
        Ok(r) => format!("ok {}", r.frames.len().min(8)),
        Err(e) => observe::error_class(&e),
    })
    .map_err(|p| Bad(format!("parse_raw_file: {p}")))?;
    let file = guard(|| match parse_file(b) {
        Ok(r) => format!("ok {} {}", r.frames.len().min(8), r.layers.len().min(8)),
        Err(e) => {
            let _ = e.to_string();
            let _ = format!("{e:?}");
            observe::error_class(&e)
        }
    })
    .map_err(|p| Bad(format!("parse_file: {p}")))?;
    let load = guard(|| match AsepriteFile::load(b) {
        Ok(r) => format!("ok {} {}", r.frames.len().min(8), r.images.len().min(8)),
        Err(e) => {
            let _ = e.to_string();
            "refused".into()
        }
    })
    .map_err(|p| Bad(format!("AsepriteFile::load: {p}")))?;
    for (n, x) in [("raw", &raw), ("file", &file), ("sprite", &load)] {
        ctx.add(&format!("{n} view {}", if x.starts_with("ok") { "accepted" } else { "refused" }), 1);
    }
    if b.len() > 128 && b[4..6] == [0xE0, 0xA5] {
        ctx.nontriv(|| format!("{} bytes: raw {raw}, file {file}, sprite {load}", b.len()));
    }
    ctx.outcomes.insert(hash_bytes(format!("{raw}|{file}|{load}").as_bytes()));
    Ok(())
}

// ------------------------------------------------------------------ C03
/// (peak constant, per byte, per frame-layer slot)
const PEAK_K: usize = 16 << 20;
const PEAK_B: usize = 256;
const WORK_K: u64 = 10_000_000;
const WORK_B: u64 = 300;
const WORK_S: u64 = 400;

pub fn family(n: usize, which: usize, r: &mut Rng) -> Vec<u8> {
    let mut d = Doc { hdr: Hdr { w: 4, h: 4, ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
    let px = || CelBody::Raw { w: 1, h: 1, data: vec![1, 2, 3, 4] };
    let mut ch: Vec<ChunkD> = vec![layer("base", 1, 0, 0, 0, 255)];
    match which {
        0 => ch.extend((0..n).map(|i| layer(if i % 2 == 0 { "a" } else { "b" }, 1, 0, 0, 0, 255))),
        // deeply nested groups
        1 => ch.extend((0..n).map(|i| layer("g", 1, 1, i as u16, 0, 255))),
        2 => d.frames = vec![FrameD::default(); n],
        3 => ch.extend((0..n).map(|_| cel(0, 0, 0, 255, 0, px()))),
        4 => {
            // links, all to the first frame
            ch.push(cel(0, 0, 0, 255, 0, px()));
            for i in 1..n {
                d.frames.push(FrameD { chunks: vec![cel(0, i as i16, 0, 255, 0, CelBody::Link(0))], ..Default::default() });
            }
        }
        5 => ch.extend((0..n / 8).map(|_| Body::Tags { count: None, fut: [0; 8], tags: gen::tags(&mut Rng::new(3), 8) }.into())),
        6 => ch.extend((0..n).flat_map(|_| [gen::slice(&mut Rng::new(5)).into(), text("x")])),
        7 => ch.extend((0..n).map(|_| text("user"))),
        8 => {
            d.hdr.depth = 8;
            ch.push(palette(0, &[[1, 2, 3, 4]]));
            ch.extend((0..n).map(|i| palette((i % 200) as u32, &[[1, 2, 3, 4], [5, 6, 7, 8]])));
        }
        9 => {
            d.hdr.depth = 8;
            ch.extend((0..n).map(|_| Body::OldPal(4, None, vec![(3, vec![[1, 2, 3]; 2])]).into()));
        }
        10 => ch.extend((0..n).map(|_| Body::Raw(0x7777, vec![0; 4]).into())),
        11 => {
            // one user data with many properties
            let m = (0..n).map(|i| (vec![b'a' + (i % 26) as u8], PV::U16(i as u16))).collect();
            ch.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { maps: vec![(1, m)], ..PropsD::none() } }.into());
        }
        12 => {
            // many property maps
            let m = (0..n).map(|i| (i as u32, vec![(b"k".to_vec(), PV::Bool(1))])).collect();
            ch.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { maps: m, ..PropsD::none() } }.into());
        }
        13 => {
            // nested vectors, legal depth, repeated
            let mut v = PV::U8(1);
            for _ in 0..30 {
                v = PV::Mixed(vec![v]);
            }
            let m = (0..n / 30).map(|_| (b"k".to_vec(), v.clone())).collect();
            ch.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { maps: vec![(1, m)], ..PropsD::none() } }.into());
        }
        14 => {
            // tags with user data for each
            for _ in 0..n / 16 {
                ch.push(Body::Tags { count: None, fut: [0; 8], tags: gen::tags(&mut Rng::new(9), 16) }.into());
                ch.extend((0..16).map(|_| text("t")));
            }
        }
        15 => {
            // too deep nesting (refused or reported inside)
            let mut raw = Vec::new();
            raw.p32(0);
            raw.p32(1);
            raw.pstr(b"k");
            raw.p16(17);
            for _ in 0..n {
                raw.p32(1);
                raw.p16(17);
            }
            raw.p32(0);
            raw.p16(1);
            ch.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { raw: Some(raw), count: Some(1), ..PropsD::none() } }.into());
        }
        16 => ch.extend((0..n).flat_map(|_| [cel(0, 0, 0, 255, 0, px()), gen::cel_extra(&mut Rng::new(1)).into(), text("c")])),
        17 => ch.extend((0..n).map(|_| Body::Ext { count: None, res: [0; 8], e: vec![(1, 0, [0; 7], b"n".to_vec())] }.into())),
        18 => {
            // one slice with many keys
            let k = (0..n).map(|i| KeyD { frame: i as u32, x: 0, y: 0, w: 1, h: 1, nine: (0, 0, 1, 1), pivot: (0, 0) }).collect();
            ch.push(Body::Slice { count: None, flags: 3, res: 0, name: b"s".to_vec(), keys: k }.into());
        }
        19 => {
            // one tags chunk, many tags, and user data for all of them
            ch.push(Body::Tags { count: None, fut: [0; 8], tags: gen::tags(&mut Rng::new(4), n) }.into());
            ch.extend((0..n).map(|_| text("t")));
        }
        20 => {
            // one external files chunk with many entries
            let e = (0..n).map(|i| (i as u32, 0u8, [0u8; 7], b"name".to_vec())).collect();
            ch.push(Body::Ext { count: None, res: [0; 8], e }.into());
        }
        21 => {
            // many packets in an old palette
            d.hdr.depth = 8;
            ch.push(Body::OldPal(4, None, (0..n).map(|i| (0u8, if i < 250 { vec![[1u8, 2, 3]; 1] } else { vec![] })).take(250).collect()).into());
            ch.extend((0..n).map(|_| Body::OldPal(0x11, None, vec![(0, vec![[1, 2, 3]]); 20]).into()));
        }
        22 => {
            // cels of many layers in many frames, links included
            let k = (n as f64).sqrt() as usize;
            ch.extend((1..k).map(|_| layer("l", 1, 0, 0, 0, 255)));
            for f in 0..k {
                let cels = (0..k).map(|l| cel(l as u16, 0, 0, 255, 0, if f == 0 { px() } else { CelBody::Link(0) })).collect();
                if f == 0 {
                    d.frames[0].chunks = cels;
                } else {
                    d.frames.push(FrameD { chunks: cels, ..Default::default() });
                }
            }
        }
        23 => {
            // the images are in the last frame: forward links
            for i in 0..n {
                d.frames.push(FrameD { chunks: vec![cel(0, i as i16, 0, 255, 0, if i + 1 < n { CelBody::Link(n as u16) } else { px() })], ..Default::default() });
            }
        }
        24 => {
            // user data of every kind of object, each with properties
            for i in 0..n / 4 {
                let m = vec![(b"k".to_vec(), PV::U32(i as u32))];
                let u = || -> ChunkD { Body::User { flags: 7, text: b"t".to_vec(), color: [0; 4], props: PropsD { maps: vec![(1, m.clone())], ..PropsD::none() } }.into() };
                ch.extend([layer("l", 1, 0, 0, 0, 255), u(), cel(i as u16, 0, 0, 255, 0, px()), u(), gen::slice(&mut Rng::new(5)).into(), u()]);
            }
        }
        25 => {
            // long strings
            ch.extend((0..n / 50).map(|_| layer(&"n".repeat(600), 1, 0, 0, 0, 255)));
        }
        26 => {
            // one wide vector of each kind
            let v = |t: u16, x: PV| PV::Vec(t, vec![x; n / 4]);
            let m = vec![(b"a".to_vec(), v(2, PV::I8(1))), (b"b".to_vec(), v(13, PV::Str(b"s".to_vec()))), (b"c".to_vec(), PV::Mixed(vec![PV::U8(1); n / 4])), (b"d".to_vec(), v(17, PV::Vec(3, vec![])))];
            ch.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { maps: vec![(1, m)], ..PropsD::none() } }.into());
        }
        27 => {
            // groups that open and close
            ch.extend((0..n).map(|i| layer("g", 1, (i % 3 != 2) as u16, (i % 3) as u16, 0, 255)));
        }
        _ => {
            // many images over some layers
            let nl = 8;
            ch.extend((1..nl).map(|_| layer("l", 1, 0, 0, 0, 255)));
            for _ in 0..n / nl {
                d.frames.push(FrameD { chunks: (0..nl).map(|l| cel(l as u16, 0, 0, 255, 0, px())).collect(), ..Default::default() });
            }
        }
    }
    let _ = r;
    let mut rest = std::mem::take(&mut d.frames[0].chunks);
    ch.append(&mut rest);
    d.frames[0].chunks = ch;
    d.encode()
}
pub const FAMILIES: usize = 29;
/// After the fixtures: every family at a size where recursion, narrow
/// counters and repeated searches show.
pub fn scaled(idx: u64) -> Option<Vec<u8>> {
    let w = idx.checked_sub(FIXTURES.len() as u64)? as usize;
    let n = match w {
        1 => 60_000,
        22 => 40_000,
        _ => 20_000,
    };
    (w < FAMILIES).then(|| family(n, w, &mut Rng::new(1)))
}

pub fn c03_gen(r: &mut Rng, idx: u64, t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    let i = idx - 8;
    if (i as usize) < FAMILIES {
        let n = if t { 8000 } else { 2000 };
        let w = i as usize;
        return Case { kind: 1, aux: family(n, w, &mut Rng::new(1)), bytes: family(4 * n, w, &mut Rng::new(1)) };
    }
    if (i as usize) < 2 * FAMILIES {
        let n = if t { 20_000 } else { 8000 };
        let w = i as usize - FAMILIES;
        return Case { kind: 5, aux: family(n, w, &mut Rng::new(1)), bytes: family(4 * n, w, &mut Rng::new(1)) };
    }
    match r.below(8) {
        0 => kase(0, gdoc!(r, Cfg { max_frames: 12, max_layers: 20, ..RICH }).encode()),
        1 => {
            // hostile claims at random places of a sound file
            kase(0, gen::hostile(r, 4000))
        }
        2 if r.chance(1, 3) => kase(0, bomb(r)),
        2 => kase(0, claims(r)),
        3 => kase(2, many_cels(r)),
        4 => kase(3, gdoc!(r, Cfg { max_frames: 6, max_layers: 8, max_cel: 60, far: true, ..BASE }).encode()),
        5 => {
            // a large canvas with little on it
            let mut d = gdoc!(r, Cfg { max_frames: 3, max_layers: 5, max_cel: 20, far: true, user: 0, burst: false, ..BASE });
            d.hdr.w = 200 + r.below(1200) as u16;
            d.hdr.h = ((1usize << 21) / d.hdr.w as usize).min(300 + r.below(1200)) as u16;
            kase(4, d.encode())
        }
        6 => kase(0, anything(r)),
        _ => kase(0, gmut!(r, soup(r).encode())),
    }
}
/// Repeated out-of-proportion claims
fn claims(r: &mut Rng) -> Vec<u8> {
    let mut d = Doc { hdr: Hdr::default(), frames: vec![FrameD::default()], tail: vec![] };
    let big = *r.pick(&[0xffff_ffffu32, 0x0fff_ffff, 0x10_0000, 0x1_0000]);
    let n = 1 + r.below(60);
    for _ in 0..n {
        let mut raw = Vec::new();
        raw.p32(0);
        raw.p32(*r.pick(&[1, big]));
        raw.pstr(b"v");
        raw.p16(17);
        for _ in 0..r.below(60) {
            raw.p32(big);
            raw.p16(*r.pick(&[17u16, 17, 18, 0]));
        }
        raw.p32(big);
        raw.p16(r.below(20) as u16);
        d.frames[0]
            .chunks
            .push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { raw: Some(raw), count: Some(*r.pick(&[1, big])), ..PropsD::none() } }.into());
    }
    d.encode()
}
/// a small image of which the pixel data expands to very much more
fn bomb(r: &mut Rng) -> Vec<u8> {
    let depth = *r.pick(&[32u16, 16, 8]);
    let mut d = Doc { hdr: Hdr { w: 4, h: 4, depth, ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
    let ch = &mut d.frames[0].chunks;
    if depth == 8 {
        ch.push(gen::full_palette(r));
    }
    for i in 0..1 + r.below(3) as u16 {
        let (w, h) = (r.below(9) as u16, 1 + r.below(40) as u16);
        let n = *r.pick(&[3usize, 5, 8, 20]) << 20;
        let mut data = gen::deflate(&vec![*r.pick(&[0u8, 1, 255]); n], 9);
        if r.chance(1, 4) {
            data.truncate(data.len() - 1 - r.below(8));
        }
        ch.push(layer("l", 1, 0, 0, 0, 255));
        ch.push(cel(i, 0, 0, 255, 0, CelBody::Zip { w, h, data }));
    }
    d.encode()
}
/// a frame with many cels whose decoded sizes add up to much more than one
fn many_cels(r: &mut Rng) -> Vec<u8> {
    let depth = *r.pick(&[32u16, 16, 8]);
    let mut d = Doc { hdr: Hdr { w: 16, h: 16, depth, ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
    let n = 60 + r.below(200);
    let (w, h) = (24 + r.below(60) as u16, 24 + r.below(60) as u16);
    let zip = r.chance(2, 3);
    let ch = &mut d.frames[0].chunks;
    if depth == 8 {
        ch.push(gen::full_palette(r));
    }
    let px = gen::pixels(r, depth, w as usize * h as usize, None);
    let z = gen::deflate(&px, 6);
    ch.extend((0..n).map(|_| layer("l", 1, 0, 0, 0, 255)));
    ch.extend((0..n).map(|i| {
        let body = if zip { CelBody::Zip { w, h, data: z.clone() } } else { CelBody::Raw { w, h, data: px.clone() } };
        cel(i as u16, 0, 0, 255, 0, body)
    }));
    d.encode()
}
fn load_cost(b: &[u8], ctx: &mut Ctx) -> Res<(u64, usize)> {
    let w0 = monitor::work();
    let (got, m) = monitor::mem(|| guard(|| AsepriteFile::load(b)));
    let work = monitor::work() - w0;
    let a = got.map_err(|_| Out::Skip("load panicked (C01)"))?;
    let (frames, layers) = match reffile::full(b) {
        Ok(f) => (f.file.frames.len(), f.file.layers.len()),
        Err(_) => {
            // count what a lenient walk finds: an upper bound for the table
            let w = gen::walk(b);
            (w.frames.len(), w.chunks.iter().filter(|c| c.2 == 0x2004).count())
        }
    };
    let loaded = a.is_ok();
    let slots = frames * layers;
    let peak = PEAK_K + PEAK_B * b.len() + 256 * slots;
    if m.peak > peak {
        return Err(Bad(format!("loading {} bytes ({frames} frames, {layers} layers) took {} bytes of heap at its peak (allowed {peak})", b.len(), m.peak)));
    }
    if monitor::HAS_COV {
        let max = WORK_K + WORK_B * b.len() as u64 + WORK_S * slots as u64;
        if work > max {
            return Err(Bad(format!("loading {} bytes executed {work} counted steps (allowed {max})", b.len())));
        }
    }
    let live = monitor::live();
    drop(a);
    let kept = m.kept - (live as isize - monitor::live() as isize);
    if kept > 0 {
        return Err(Bad(format!("{kept} bytes stay allocated after the loaded sprite is dropped")));
    }
    ctx.add(if loaded { "loads measured" } else { "refusals measured" }, 1);
    ctx.max("peak heap bytes of a load", m.peak as u64);
    ctx.max("peak heap per input byte x100 (inputs over 4 KiB)", if b.len() > 4096 { m.peak as u64 * 100 / b.len() as u64 } else { 0 });
    ctx.max("steps per input byte (inputs over 4 KiB)", if b.len() > 4096 { work / b.len() as u64 } else { 0 });
    ctx.max("steps of a load", work);
    Ok((work, m.total))
}
fn reset(b: &[u8]) -> Res<()> {
    // run once so that one-time initialisation is not charged to a measurement
    guard(|| drop(AsepriteFile::load(b))).map_err(|_| Out::Skip("load panicked (C01)"))
}

/// What `asemon once` does: everything a user does with a file, once.
pub fn once(b: &[u8]) {
    let _ = guard(|| {
        let Ok(a) = AsepriteFile::load(b) else { return };
        let _ = a.select_layers_by_name(&["l", "t"]);
        if too_big(&a) {
            return;
        }
        let (w, h) = a.size();
        let mut t = vec![0; w as usize * h as usize * 4];
        for f in [0, a.frames().len() / 2, a.frames().len().saturating_sub(1)] {
            if f < a.frames().len() {
                let _ = a.render_frame(f, &mut t, &LayerSelection::All);
                #[allow(deprecated)]
                let _ = a.combined_frame_image(f, &mut t);
            }
        }
    });
}
/// Instructions executed by a process that uses the file once, standard
/// library and C library included, counted by valgrind. None: could not count.
fn instructions(b: &[u8]) -> Option<u64> {
    use std::process::{Command, Stdio};
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let base = std::env::temp_dir().join(format!("asemon-once-{}-{n}", std::process::id()));
    let (input, log) = (base.with_extension("ase"), base.with_extension("log"));
    std::fs::write(&input, b).ok()?;
    let child = Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg(format!("--log-file={}", log.display()))
        .arg(std::env::current_exe().ok()?)
        .arg("once")
        .arg(&input)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    let mut ok = false;
    if let Ok(mut p) = child {
        for _ in 0..2400 {
            match p.try_wait() {
                Ok(Some(s)) => {
                    ok = s.success();
                    break;
                }
                Ok(None) => std::thread::sleep(std::time::Duration::from_millis(100)),
                Err(_) => break,
            }
        }
        if !ok {
            let _ = p.kill();
            let _ = p.wait();
        }
    }
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&input);
    let _ = std::fs::remove_file(&log);
    if !ok {
        return None;
    }
    let i = text.find("I refs:")? + 7;
    text[i..].lines().next()?.replace(',', "").trim().parse().ok()
}
fn counted(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if !monitor::HAS_COV {
        return Err(Out::Skip("instructions are counted in the checked build only"));
    }
    let (Some(base), Some(s), Some(l)) = (instructions(b""), instructions(&c.aux), instructions(&c.bytes)) else {
        return Err(Out::Skip("instructions could not be counted"));
    };
    let (s, l) = (s.saturating_sub(base), l.saturating_sub(base));
    let ratio = (c.bytes.len() as f64 / c.aux.len() as f64).max(4.0);
    ctx.add("instruction counts compared", 1);
    ctx.max("instructions per input byte", l / c.bytes.len() as u64);
    ctx.max("growth of instructions over growth of the file x100", (l as f64 / (s + 500_000) as f64 / ratio * 100.0) as u64);
    if l as f64 > (s + 500_000) as f64 * ratio * 1.4 {
        return Err(Bad(format!("cost grows faster than the file: {} bytes took {s} instructions, {} bytes took {l}", c.aux.len(), c.bytes.len())));
    }
    ctx.nontriv(|| format!("{} bytes take {s}, {} bytes {l} instructions", c.aux.len(), c.bytes.len()));
    Ok(())
}

pub fn c03_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == 5 {
        return counted(c, ctx);
    }
    let b = &c.bytes;
    reset(b)?;
    let big = load_cost(b, ctx)?;
    ctx.outcomes.insert(mix(big.0, big.1 as u64));
    if b.len() > 300 {
        ctx.nontriv(|| format!("{} bytes loaded/refused with {} steps and {} bytes allocated in total", b.len(), big.0, big.1));
    }
    if c.kind == 1 {
        let small = load_cost(&c.aux, ctx)?;
        // four times the objects, whatever their names take
        let ratio = (b.len() as f64 / c.aux.len() as f64).max(4.0);
        for (what, s, l, slack) in [("counted steps", small.0, big.0, 20_000u64), ("allocated bytes", small.1 as u64, big.1 as u64, 200_000)] {
            ctx.add("scaling comparisons", 1);
            if l as f64 > (s + slack) as f64 * ratio * 1.3 {
                return Err(Bad(format!(
                    "cost grows faster than the file: {} bytes took {s} {what}, {} bytes took {l}",
                    c.aux.len(),
                    b.len()
                )));
            }
        }
        return Ok(());
    }
    // decoding and rendering
    let Ok(Ok(a)) = guard(|| AsepriteFile::load(b)) else { return Ok(()) };
    if too_big(&a) {
        return Ok(());
    }
    let dim = |i: usize| a.images[i].width as usize * a.images[i].height as usize;
    for i in 0..a.images.len().min(8) {
        let mut buf = vec![0; dim(i) * 4];
        let w0 = monitor::work();
        let (res, m) = monitor::mem(|| guard(|| a.load_image(i, &mut buf)));
        let work = monitor::work() - w0;
        if res.is_err() {
            return Err(Out::Skip("decode panicked (C02)"));
        }
        let cap = 16 * dim(i) + (1 << 20);
        if m.peak > cap {
            return Err(Bad(format!("decoding a {}-pixel image took {} bytes of scratch memory (allowed {cap})", dim(i), m.peak)));
        }
        let wcap = 4_000_000 + 4_000 * (a.images[i].data.len() as u64 + dim(i) as u64);
        if monitor::HAS_COV && work > wcap {
            return Err(Bad(format!("decoding a {}-pixel image executed {work} steps (allowed {wcap})", dim(i))));
        }
        if m.kept > 0 && matches!(res, Ok(Ok(()))) {
            return Err(Bad(format!("decoding keeps {} bytes allocated", m.kept)));
        }
        ctx.add("decodes measured", 1);
    }
    let (w, h) = a.size();
    for f in 0..a.frames().len().min(3) {
        let mut buf = vec![0; w as usize * h as usize * 4];
        let w0 = monitor::work();
        let (res, m) = monitor::mem(|| guard(|| a.render_frame(f, &mut buf, &aseprite_loader::loader::LayerSelection::All)));
        let work = monitor::work() - w0;
        if res.is_err() {
            return Err(Out::Skip("rendering panicked (C02)"));
        }
        let all: u64 = a.frames()[f].cels.iter().filter(|c| c.image_index < a.images.len()).map(|c| dim(c.image_index) as u64 + a.images[c.image_index].data.len() as u64).sum();
        let wcap = 4_000_000 + 4_000 * (all + a.layers().len() as u64) + 100 * (w as u64 * h as u64);
        if monitor::HAS_COV && work > wcap {
            return Err(Bad(format!("rendering frame {f} ({all} cel pixels and data bytes) executed {work} steps (allowed {wcap})")));
        }
        ctx.max("render steps", work);
        let area = a.frames()[f].cels.iter().filter(|c| c.image_index < a.images.len()).map(|c| dim(c.image_index)).max().unwrap_or(0);
        let cap = 16 * area + (1 << 20);
        if m.peak > cap {
            return Err(Bad(format!("rendering frame {f} (largest cel {area} pixels) took {} bytes of scratch memory (allowed {cap})", m.peak)));
        }
        if m.kept > 0 && matches!(res, Ok(Ok(()))) {
            return Err(Bad(format!("rendering keeps {} bytes allocated", m.kept)));
        }
        ctx.max("render scratch bytes", m.peak as u64);
        ctx.add("renderings measured", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ soup
/// Any chunks in any order; valid for the raw parser only.
pub fn soup(r: &mut Rng) -> Doc {
    let mut d = Doc { hdr: gen::header(r, &RICH), frames: vec![], tail: vec![] };
    for _ in 0..1 + r.below(3) {
        let mut f = FrameD { duration: r.w(), future: gen::arr(r), ..Default::default() };
        for _ in 0..r.below(14) {
            f.chunks.push(any_chunk(r));
        }
        gen::counts(r, &mut f);
        d.frames.push(f);
    }
    d
}
pub fn any_chunk(r: &mut Rng) -> ChunkD {
    match r.below(14) {
        0 => gen::new_pal(r),
        1 => gen::old_pal(r, 0x0004),
        2 => gen::old_pal(r, 0x0011),
        3 => Body::Layer {
            flags: r.u16(),
            ty: *r.pick(&[0u16, 1, 2, 3, 0xffff]),
            level: r.w(),
            dw: r.w(),
            dh: r.w(),
            blend: *r.pick(&[0u16, 5, 18, 19, 20, 255, 0xffff]),
            opacity: r.b(),
            fut: gen::arr(r),
            name: gen::name(r),
            tileset: r.d(),
        }
        .into(),
        4 | 5 => {
            let k = r.below(50);
            let data = r.bytes(k);
            let body = match r.below(5) {
                0 => CelBody::Raw { w: r.w(), h: r.w(), data },
                1 => CelBody::Link(r.w()),
                2 => CelBody::Zip { w: r.w(), h: r.w(), data },
                3 => CelBody::Tilemap { w: r.w(), h: r.w(), bpt: r.w(), id: r.d(), x: r.d(), y: r.d(), d: r.d(), res: gen::arr(r), data },
                _ => CelBody::Unknown(*r.pick(&[4u16, 5, 9, 255, 0xffff]), data),
            };
            let mut c = cel(r.w(), r.w() as i16, r.w() as i16, r.b(), r.w() as i16, body);
            if let Body::Cel { fut, .. } = &mut c.body {
                *fut = gen::arr(r);
            }
            c
        }
        6 => gen::cel_extra(r).into(),
        7 | 8 => gen::misc(r).into(),
        9 => {
            let k = r.below(5);
            let mut t = gen::tags(r, k);
            t.iter_mut().for_each(|t| {
                if r.chance(1, 5) {
                    t.dir = *r.pick(&[4, 5, 255])
                }
            });
            Body::Tags { count: None, fut: gen::arr(r), tags: t }.into()
        }
        10 | 11 => gen::user(r, true),
        12 => gen::slice(r).into(),
        _ => gen::unknown_chunk(r),
    }
}

fn shape_note(b: &[u8], ctx: &mut Ctx) {
    ctx.nontriv(|| describe(b));
}

// ------------------------------------------------------------------ C04
pub fn c04_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    if idx == 9 || idx == 10 {
        // more chunks than the old count can hold
        let n = if idx == 9 { 70_000 } else { 65_536 };
        let mut f = FrameD { duration: 77, ..Default::default() };
        f.chunks = (0..n).map(|_| Body::Path(vec![]).into()).collect();
        return case(Doc { hdr: Hdr::default(), frames: vec![f, FrameD { duration: 5, ..Default::default() }], tail: vec![] }.encode());
    }
    if idx == 11 {
        // more frames than a 16-bit number can count
        let mut d = Doc { hdr: Hdr::default(), frames: vec![FrameD::default(); 66_000], tail: vec![] };
        d.frames.iter_mut().enumerate().for_each(|(i, f)| f.duration = (i as u16).wrapping_mul(31));
        d.hdr.frames = Some(66_000u32 as u16);
        return case(d.encode());
    }
    let max_frames = *r.pick(&[1, 3, 6, 40]);
    let mut d = gdoc!(r, Cfg { max_frames, ..RICH });
    d.hdr.flags = r.d();
    d.hdr.w = r.w();
    d.hdr.h = r.w();
    if r.chance(1, 4) {
        d.hdr.file_size = Some(r.d());
    }
    if r.chance(1, 4) {
        d.hdr.frames = Some(r.w());
    }
    if d.hdr.depth == 32 && r.chance(1, 4) {
        d.hdr.depth = *r.pick(&[0u16, 1, 4, 7, 9, 15, 24, 31, 33, 64, 0xffff]);
    }
    if r.chance(1, 40) {
        d.frames = vec![FrameD { duration: 9, ..Default::default() }; 300];
        d.frames.iter_mut().enumerate().for_each(|(i, f)| f.duration = i as u16 * 7);
        d.hdr.depth = 16;
    }
    case(d.encode())
}
fn timing(v: &V, chunks: bool) -> V {
    V::L(v
        .get("frames")
        .list()
        .iter()
        .map(|f| {
            V::M(vec![
                ("duration", f.get("duration").clone()),
                ("chunks", if chunks { V::N(f.get("chunks").list().len() as i128) } else { V::None }),
            ])
        })
        .collect())
}
pub fn c04_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads, c04_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let er = refdec::raw_v(&full.raw);
    let raw = want_raw(b)?;
    cmp_key("raw", "header", &er, &raw, CONTENT)?;
    cmp("raw.frames", &timing(&er, true), &timing(&raw, true), CONTENT)?;
    let ef = reffile::file_v(&full.raw, &full.file);
    let file = want_file(b)?;
    cmp_key("file", "header", &ef, &file, CONTENT)?;
    cmp("file.frames", &timing(&ef, false), &timing(&file, false), CONTENT)?;
    let es = reffile::sprite_v(ref_sprite(&full));
    let (sp, _) = want_sprite(b)?;
    cmp_key("sprite", "size", &es, &sp, CONTENT)?;
    cmp("sprite.frames", &timing(&es, false), &timing(&sp, false), CONTENT)?;
    ctx.add("frames compared", full.raw.frames.len() as u64);
    ctx.add("header fields compared", 17 * 2);
    ctx.outcomes.insert(mix(digest_v(er.get("header")), digest_v(&timing(&er, true))));
    shape_note(b, ctx);
    Ok(())
}

// ------------------------------------------------------------------ C05
pub fn c05_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    if (9..12).contains(&idx) {
        // more than 16-bit numbers of each
        let n = 66_000u32;
        let mut f = FrameD::default();
        match idx {
            9 => f.chunks = (0..n).map(|i| layer(&format!("{i}"), (i % 7) as u16 & 3, 0, 0, (i % 19) as u16, i as u8)).collect(),
            10 => f.chunks = (0..n).map(|i| Body::Slice { count: None, flags: 0, res: 0, name: i.to_string().into_bytes(), keys: vec![] }.into()).collect(),
            _ => {
                for _ in 0..2 {
                    f.chunks.push(Body::Tags { count: None, fut: [0; 8], tags: gen::tags(r, 40_000) }.into());
                }
            }
        }
        return case(Doc { hdr: Hdr::default(), frames: vec![f], tail: vec![] }.encode());
    }
    let max_layers = *r.pick(&[2, 6, 12, 30]);
    let mut d = gdoc!(r, Cfg { max_layers, max_frames: 3, props: false, max_cel: 3, ..RICH });
    if r.chance(1, 200) {
        // many of each, many keys in a slice
        let n = *r.pick(&[255usize, 256, 257, 500]);
        let mut ch: Vec<ChunkD> = vec![Body::Tags { count: None, fut: [0; 8], tags: gen::tags(r, n) }.into()];
        for _ in 0..n {
            ch.push(gen::slice(r).into());
        }
        let mut many = gen::slice(r);
        if let Body::Slice { keys, .. } = &mut many {
            *keys = (0..n).map(|_| KeyD { frame: r.d(), x: r.d() as i32, y: r.d() as i32, w: r.d(), h: r.d(), nine: (r.d() as i32, r.d() as i32, r.d(), r.d()), pivot: (r.d() as i32, r.d() as i32) }).collect();
        }
        ch.push(many.into());
        let f = d.frames.len() - 1;
        d.frames[f].chunks.extend(ch);
        fix_counts(&mut d);
    }
    if r.chance(1, 3) {
        // layers, tags and slices scattered over all frames
        for f in 0..d.frames.len() {
            for _ in 0..r.below(4) {
                let ch = loop {
                    let c = any_chunk(r);
                    if matches!(c.body, Body::Tags { .. } | Body::Slice { .. }) || (matches!(c.body, Body::Layer { .. }) && f + 1 == d.frames.len()) {
                        break c;
                    }
                };
                d.frames[f].chunks.push(ch);
            }
            let fr = &mut d.frames[f];
            fr.old_count = None;
            fr.new_count = None;
        }
    }
    // random level / type combinations are as storable as sensible ones
    if r.chance(1, 6) {
        for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
            if let Body::Layer { level, .. } = &mut c.body {
                *level = r.w();
            }
        }
    }
    case(d.encode())
}
const NO_USER: Cmp<'static> = Cmp { skip: &["user_data"], content: true, place: false };
fn only(v: &V, kinds: &[&str]) -> V {
    V::L(v
        .get("frames")
        .list()
        .iter()
        .map(|f| V::L(f.get("chunks").list().iter().filter(|c| matches!(c.get("kind"), V::T(t) if kinds.contains(t))).cloned().collect()))
        .collect())
}
pub fn c05_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads, c05_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let kinds = ["Layer", "Tags", "Slice"];
    let er = only(&refdec::raw_v(&full.raw), &kinds);
    cmp("raw", &er, &only(&want_raw(b)?, &kinds), NO_USER)?;
    let ef = reffile::file_v(&full.raw, &full.file);
    let file = want_file(b)?;
    for k in ["layers", "tags", "slices"] {
        cmp_key("file", k, &ef, &file, NO_USER)?;
    }
    let s = ref_sprite(&full);
    let es = reffile::sprite_v(s);
    let a = want_load(b)?;
    let got = guard(|| Obs::new(b).sprite(&a)).map_err(Bad)?;
    for k in ["layers", "tags", "slices"] {
        cmp_key("sprite", k, &es, &got, NO_USER)?;
    }
    let o = Obs::new(b);
    let sl = V::L(a.slices().iter().map(|s| o.slice(s)).collect());
    cmp("sprite.slices()", ef.get("slices"), &sl, NO_USER)?;
    let (l, t, n) = (full.file.layers.len(), full.file.tags.len(), full.file.slices.len());
    ctx.add("layers compared", l as u64);
    ctx.add("tags compared", t as u64);
    ctx.add("slices compared", n as u64);
    ctx.outcomes.insert(digest_v(&es));
    if l + t + n > 0 {
        shape_note(b, ctx);
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
/// Every value of every stored code and flag word: 1024 of the 65536 per file.
fn codes(r: &mut Rng, part: u16) -> Doc {
    let mut f = FrameD::default();
    let known = [0x0004u16, 0x0011, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2016, 0x2017, 0x2018, 0x2019, 0x2020, 0x2022, 0x2023];
    let mut tags = vec![];
    let mut files = vec![];
    let mut colors = vec![];
    for i in 0..1024u16 {
        // spread over the range, so that each file has small and large values
        let c = i.wrapping_mul(64).wrapping_add(part);
        for what in 0..3 {
            let pick = |k, x: u16| if what == k { c } else { x };
            f.chunks.push(Body::Layer { flags: pick(0, 3), ty: pick(1, 0), level: 0, dw: 0, dh: 0, blend: pick(2, 0), opacity: r.b(), fut: [0; 3], name: vec![], tileset: 0 }.into());
        }
        f.chunks.push(Body::Profile { ty: c, flags: c.rotate_left(5), gamma: 0, res: [0; 8], icc: vec![] }.into());
        f.chunks.push(Body::CelExtra { flags: c as u32 | (r.w() as u32) << 16, v: [1, 2, 3, 4], fut: vec![] }.into());
        let data = r.bytes(6);
        if c > 3 {
            f.chunks.push(cel(c, 0, 0, 255, 0, CelBody::Unknown(c, data.clone())));
        }
        if !known.contains(&c) {
            f.chunks.push(Body::Raw(c, data).into());
        }
        let mut t = gen::tags(r, 1).remove(0);
        t.dir = c as u8;
        t.repeat = c;
        tags.push(t);
        files.push((c as u32, c as u8, [0; 7], gen::name(r)));
        colors.push((c, [c as u8, (c >> 8) as u8, 3, 4], gen::name(r)));
    }
    f.chunks.push(Body::Tags { count: None, fut: [0; 8], tags }.into());
    f.chunks.push(Body::Ext { count: None, res: [0; 8], e: files }.into());
    let n = 256;
    for e in colors.chunks(n) {
        f.chunks.push(Body::Pal { size: 256, first: 0, last: 255, fut: [0; 8], e: e.to_vec() }.into());
    }
    Doc { hdr: gen::header(r, &RICH), frames: vec![f], tail: vec![] }
}
/// Lists far longer than a sprite ever has.
fn long_lists(r: &mut Rng) -> Doc {
    let n = *r.pick(&[129usize, 201, 255, 256, 257, 600, 1025]);
    let mut f = FrameD::default();
    f.chunks.push(Body::Ext { count: None, res: [0; 8], e: (0..n).map(|i| (r.d(), i as u8, gen::arr(r), gen::name(r))).collect() }.into());
    f.chunks.push(Body::Tags { count: None, fut: [0; 8], tags: gen::tags(r, n) }.into());
    if let Body::Slice { mut keys, flags, res, name, .. } = gen::slice(r) {
        keys = (0..n).map(|_| keys.first().cloned().unwrap_or(KeyD { frame: 0, x: 0, y: 0, w: 0, h: 0, nine: (0, 0, 0, 0), pivot: (0, 0) })).collect();
        keys.iter_mut().for_each(|k| (k.frame, k.x, k.pivot.1) = (r.d(), r.d() as i32, r.d() as i32));
        f.chunks.push(Body::Slice { count: None, flags, res, name, keys }.into());
    }
    for c in 0..n % 7 {
        let data = r.bytes(n * 3);
        f.chunks.push(if c & 1 == 0 { Body::Path(data).into() } else { cel(0, 0, 0, 9, 0, CelBody::Zip { w: 1, h: 1, data }) });
    }
    Doc { hdr: gen::header(r, &RICH), frames: vec![f], tail: vec![] }
}
pub fn c06_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    if (100..164).contains(&idx) {
        return case(codes(r, (idx - 100) as u16).encode());
    }
    if r.chance(1, 100) {
        return case(long_lists(r).encode());
    }
    if r.chance(1, 3) {
        case(gdoc!(r, Cfg { raw_cels: true, user: 2, ..RICH }).encode())
    } else {
        case(soup(r).encode())
    }
}
const NO_PROPS: Cmp<'static> = Cmp { skip: &["properties"], content: true, place: false };
pub fn c06_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| refdec::raw(b).is_ok(), c06_check);
    }
    let b = &c.bytes;
    let raw = refdec::raw(b).unwrap_or_else(|e| panic!("harness: {e:?}"));
    let e = refdec::raw_v(&raw);
    let g = want_raw(b)?;
    cmp_key("raw", "frames", &e, &g, Cmp { skip: NO_PROPS.skip, ..NO_PROPS })?;
    // the cels of a frame are its cel chunks
    let bad = guard(|| {
        let r = parse_raw_file(b).ok()?;
        r.frames.iter().position(|f| {
            let cels = f.chunks.iter().filter_map(|c| if let Chunk::Cel(c) = c { Some(c as *const _) } else { None });
            !f.cels().map(|c| c as *const _).eq(cels)
        })
    })
    .map_err(Bad)?;
    if let Some(f) = bad {
        return Err(Bad(format!("frame {f}: RawFrame::cels() differs from the cel chunks of the frame")));
    }
    for f in e.get("frames").list() {
        for c in f.get("chunks").list() {
            if let V::T(t) = c.get("kind") {
                ctx.add(&format!("chunks compared: {t}"), 1);
                ctx.outcomes.insert(digest_v(c));
                ctx.nontrivial = true;
            }
        }
    }
    ctx.add("leaves compared", e.leaves() as u64);
    if ctx.nontrivial {
        ctx.nontriv(|| format!("{} bytes, {} leaves", b.len(), e.leaves()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
/// File-level sound sequences in which user data may follow anything.
pub fn user_soup(r: &mut Rng) -> Doc {
    let mut d = Doc { hdr: Hdr { depth: *r.pick(&[32, 16, 8]), w: 3, h: 3, ..Default::default() }, frames: vec![], tail: vec![] };
    let nf = 1 + r.below(3);
    let nl = 1 + r.below(4);
    let mut left = nl;
    for fi in 0..nf {
        let mut ch: Vec<ChunkD> = Vec::new();
        if fi == 0 && (d.hdr.depth == 8 || r.chance(1, 2)) {
            ch.push(gen::full_palette(r));
        }
        for _ in 0..r.below(16) {
            ch.push(match r.below(16) {
                0 | 1 if left > 0 => {
                    left -= 1;
                    layer("L", 1, r.below(2) as u16, 0, 0, 255)
                }
                2 | 3 => cel(r.below(nl) as u16, 0, 0, 255, 0, CelBody::Raw { w: 0, h: 0, data: vec![] }),
                4 => gen::cel_extra(r).into(),
                5 | 6 => {
                    let k = r.below(4);
                    Body::Tags { count: None, fut: [0; 8], tags: gen::tags(r, k) }.into()
                }
                7 => gen::slice(r).into(),
                8 => {
                    if r.chance(1, 2) {
                        let t = *r.pick(&[4u16, 0x11]);
                        gen::old_pal(r, t)
                    } else {
                        gen::new_pal(r)
                    }
                }
                9 => gen::misc(r).into(),
                10 => gen::unknown_chunk(r),
                _ => gen::user(r, true),
            });
        }
        d.frames.push(FrameD { chunks: ch, ..Default::default() });
    }
    // layers not yet defined
    let last = d.frames.len() - 1;
    for _ in 0..left {
        d.frames[last].chunks.push(layer("late", 1, 0, 0, 0, 255));
    }
    if r.chance(1, 3) {
        d.frames[last].chunks.push(gen::user(r, true));
    }
    d
}
/// Many objects of one kind with user data each (or missing here and there).
fn user_crowd(r: &mut Rng, n: usize) -> Doc {
    let mut d = Doc { hdr: Hdr { w: 3, h: 3, ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
    let gap = *r.pick(&[0usize, 0, 3, 100]);
    let note = |i: usize, ch: &mut Vec<ChunkD>| {
        if gap == 0 || i % gap != gap - 1 {
            ch.push(Body::User { flags: 3, text: i.to_string().into_bytes(), color: (i as u32).to_le_bytes(), props: PropsD::none() }.into());
        }
    };
    let kind = r.below(5);
    let ch = &mut d.frames[0].chunks;
    if r.chance(1, 2) {
        ch.push(gen::full_palette(r));
        note(n + 1, ch);
    }
    ch.push(layer("L", 1, 0, 0, 0, 255));
    match kind {
        0 => {
            // tags: their user data follows, in order
            let n = n.min(65535);
            ch.push(Body::Tags { count: None, fut: [0; 8], tags: gen::tags(r, n) }.into());
            let stop = if r.chance(1, 2) { n } else { r.below(n + 3) };
            for i in 0..stop {
                // all of them: a missing one would shift the rest
                ch.push(Body::User { flags: 1, text: i.to_string().into_bytes(), color: [0; 4], props: PropsD::none() }.into());
            }
        }
        1 => {
            for i in 0..n {
                ch.push(Body::Slice { count: None, flags: 0, res: 0, name: i.to_string().into_bytes(), keys: vec![] }.into());
                note(i, ch);
            }
        }
        2 => {
            for i in 0..n {
                ch.push(layer(&i.to_string(), 1, 0, 0, 0, 255));
                note(i, ch);
            }
        }
        3 => {
            let n = n.min(20_000);
            d.frames.resize(n, FrameD::default());
            for i in 0..n {
                let ch = &mut d.frames[i].chunks;
                ch.push(cel(0, 0, 0, 255, 0, CelBody::Raw { w: 0, h: 0, data: vec![] }));
                note(i, ch);
            }
        }
        _ => {
            let n = n.min(5_000);
            for _ in 1..n {
                ch.push(layer("L", 1, 0, 0, 0, 255));
            }
            let mut order: Vec<usize> = (0..n).collect();
            if r.chance(1, 2) {
                order.reverse();
            }
            for i in order {
                ch.push(cel(i as u16, 0, 0, 255, 0, CelBody::Raw { w: 0, h: 0, data: vec![] }));
                if r.chance(1, 4) {
                    ch.push(gen::cel_extra(r).into());
                }
                note(i, ch);
            }
        }
    }
    d
}
pub fn c07_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    if (8..16).contains(&idx) || r.chance(1, 400) {
        let n = if r.chance(1, 3) { 200 + r.below(800) } else { *r.pick(&[255usize, 256, 257, 600]) };
        return case(user_crowd(r, n).encode());
    }
    if idx == 16 || idx == 17 {
        return case(user_crowd(r, 70_000).encode());
    }
    if r.chance(1, 3) {
        case(gdoc!(r, Cfg { user: 3, raw_cels: true, ..RICH }).encode())
    } else {
        case(user_soup(r).encode())
    }
}
pub fn c07_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| reffile::full(b).is_ok(), c07_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let e = users(&reffile::file_v(&full.raw, &full.file));
    let g = users(&want_file(b)?);
    cmp("user data (sprite, layers, cels, tags, slices)", &e, &g, CONTENT)?;
    if full.sprite.is_ok() {
        let a = want_load(b)?;
        let g = guard(|| users(&Obs::new(b).file(&a.file))).map_err(Bad)?;
        cmp("user data of the loaded sprite", &e, &g, CONTENT)?;
    }
    let mut some = 0;
    for x in e.list() {
        if let V::M(m) = x {
            let has = !matches!(m[0].1, V::None);
            some += has as u64;
            ctx.add(&format!("{} objects {} user data", m[0].0, if has { "with" } else { "without" }), 1);
        }
    }
    ctx.outcomes.insert(digest_v(&e));
    if some > 0 {
        ctx.nontriv(|| format!("{some} of {} objects with user data; {}", e.list().len(), describe(b)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C08
pub fn c08_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    let mut d = gdoc!(r, Cfg { max_frames: 2, max_layers: 3, user: 3, max_cel: 3, ..RICH });
    // the first few: each value type on its own, alone and in a vector
    let i = idx - 8;
    if i < 80 {
        let ty = (i % 20) as u16;
        let one = |r: &mut Rng| match ty {
            0 => PV::Mixed((0..3).map(|_| gen::value(r, 1)).collect()),
            17 => gen::vector(r, 2),
            18 => PV::Map(gen::props_map(r, 2)),
            t => gen::scalar(r, t),
        };
        // single bytes: as long as one likes
        let n = if i >= 60 && ty != 0 && ty < 17 { *r.pick(&[256usize, 300, 65_536, 70_000]) / if ty == 13 { 64 } else { 1 } } else { 1 + r.below(5) };
        let v: Vec<PV> = (0..n).map(|_| one(r)).collect();
        let mut m: Vec<(Str, PV)> = v.iter().map(|v| (gen::small_name(r), v.clone())).collect();
        if ty != 0 {
            m.push((b"vec".to_vec(), PV::Vec(ty, v.clone())));
            m.push((b"vecvec".to_vec(), PV::Vec(17, vec![PV::Vec(ty, v.clone()), PV::Vec(ty, vec![]), PV::Mixed(v)])));
        }
        let p = PropsD { maps: vec![(r.d(), m)], ..PropsD::none() };
        d.frames[0].chunks.push(layer("p", 1, 0, 0, 0, 255));
        d.frames[0].chunks.push(Body::User { flags: 4 + r.below(4) as u32, text: gen::name(r), color: [1, 2, 3, 4], props: p }.into());
        fix_counts(&mut d);
        return kase(1, d.encode());
    }
    let mut kind = 0;
    let mut any = false;
    for c in d.frames.iter_mut().flat_map(|f| &mut f.chunks) {
        let Body::User { flags, props, .. } = &mut c.body else { continue };
        if r.chance(1, 3) {
            *flags |= 4;
        }
        if *flags & 4 == 0 || !r.chance(1, 3) {
            continue;
        }
        any = true;
        match r.below(10) {
            8 | 9 => {
                // the block ends early; what would complete it follows behind
                kind = 2;
                c.pad = cut_block(r, props);
            }
            0 => {
                let raw = gen::props_bomb(r, 60);
                *props = PropsD { raw: Some(raw), count: Some(1), ..PropsD::none() };
            }
            1 => {}
            _ => {
                kind = 2;
                damage_props(r, props);
            }
        }
    }
    if !any {
        d.frames[0].chunks.push(layer("p", 1, 0, 0, 0, 255));
        let mut p = gen::props(r);
        let mut pad = vec![];
        match r.below(4) {
            0 => {}
            1 => {
                kind = 2;
                pad = cut_block(r, &mut p);
            }
            _ => {
                kind = 2;
                damage_props(r, &mut p);
            }
        }
        let mut u: ChunkD = Body::User { flags: 7, text: gen::name(r), color: [9, 8, 7, 6], props: p }.into();
        u.pad = pad;
        d.frames[0].chunks.push(u);
        fix_counts(&mut d);
    }
    kase(kind, d.encode())
}
pub fn fix_counts(d: &mut Doc) {
    for f in &mut d.frames {
        f.old_count = None;
        f.new_count = None;
    }
}
/// Ends the block anywhere and returns the bytes that were behind the cut.
fn cut_block(r: &mut Rng, p: &mut PropsD) -> Vec<u8> {
    let mut ends = vec![0];
    let mut m = Vec::new();
    if p.maps.is_empty() || r.chance(1, 2) {
        p.maps.push((r.d(), gen::props_map(r, 1)));
    }
    p.raw = None;
    for x in std::mem::take(&mut p.maps) {
        let one = PropsD { maps: vec![x], ..PropsD::none() };
        let mut o = Vec::new();
        one.enc(&mut o);
        m.extend_from_slice(&o[8..]);
        ends.push(m.len());
    }
    // between two maps (one of them then lies behind) or anywhere
    let k = if r.chance(2, 3) { ends[r.below(ends.len() - 1)] } else { r.below(m.len()) };
    let mut rest = m.split_off(k);
    rest.extend(r.bytes(4));
    *p = PropsD { count: Some(ends.len() as u32 - 1), raw: Some(m), ..PropsD::none() };
    rest
}
/// malformed content inside a block whose declared size is right
fn damage_props(r: &mut Rng, p: &mut PropsD) {
    let n = p.maps.len() as u32;
    let mut o = Vec::new();
    p.enc(&mut o);
    let mut m = o.split_off(8);
    match r.below(6) {
        0 => {
            let k = r.below(m.len() + 1);
            m.truncate(k);
        }
        1 => {
            // one more map than there is
            *p = PropsD { count: Some(n + 1 + r.below(3) as u32), raw: Some(m), ..PropsD::none() };
            return;
        }
        2 => {
            // a property of unknown type at the end
            m.p32(0);
            m.p32(1);
            m.pstr(b"bad");
            m.p16(*r.pick(&[0u16, 20, 21, 255, 0x1100, 0xffff]));
            let k = r.below(20);
            m.extend(r.bytes(k));
            *p = PropsD { count: Some(n + 1), raw: Some(m), ..PropsD::none() };
            return;
        }
        3 => {
            // bad name
            m.p32(0);
            m.p32(1);
            m.pstr(&[0xff, 0xfe]);
            m.p16(1);
            m.p8(1);
            *p = PropsD { count: Some(n + 1), raw: Some(m), ..PropsD::none() };
            return;
        }
        4 => {
            // vector of unknown element type or of more elements than bytes
            m.p32(0);
            m.p32(1);
            m.pstr(b"v");
            m.p16(17);
            m.p32(*r.pick(&[1, 5, 0xffff_ffff]));
            m.p16(*r.pick(&[20u16, 0xffff, 3, 13, 17, 18, 0]));
            *p = PropsD { count: Some(n + 1), raw: Some(m), ..PropsD::none() };
            return;
        }
        _ => m = gen::mutate(r, m),
    }
    *p = PropsD { count: Some(n), raw: Some(m), ..PropsD::none() };
}
pub fn c08_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| reffile::full(b).is_ok(), c08_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let er = refdec::raw_v(&full.raw);
    cmp("raw", &er, &want_raw(b)?, CONTENT)?;
    let ef = reffile::file_v(&full.raw, &full.file);
    cmp("file", &ef, &want_file(b)?, CONTENT)?;
    if full.sprite.is_ok() {
        let a = want_load(b)?;
        let g = guard(|| Obs::new(b).file(&a.file)).map_err(Bad)?;
        cmp("sprite.file", &ef, &g, CONTENT)?;
    }
    let (mut good, mut bad) = (0, 0);
    for ch in er.get("frames").list().iter().flat_map(|f| f.get("chunks").list()) {
        match ch.get("v").get("properties") {
            V::L(l) => {
                good += 1;
                l.iter().for_each(|m| count_types(m, ctx));
                ctx.outcomes.insert(digest_v(ch));
            }
            V::Bad => bad += 1,
            _ => {}
        }
    }
    ctx.add("well-formed property sets", good);
    ctx.add("malformed property sets contained", bad);
    if good + bad > 0 {
        ctx.nontriv(|| format!("{good} good and {bad} malformed property sets; {}", describe(b)));
    }
    Ok(())
}
fn count_types(v: &V, ctx: &mut Ctx) {
    match v {
        V::M(m) => {
            for (k, x) in m {
                if let ("type" | "elem", V::T(t)) = (*k, x) {
                    ctx.add(&format!("{} {t}", if *k == "type" { "values" } else { "vectors of" }), 1);
                }
                count_types(x, ctx);
            }
        }
        V::L(l) => l.iter().for_each(|x| count_types(x, ctx)),
        _ => {}
    }
}

// ------------------------------------------------------------------ C09
/// kinds: 0 sound file, 1 single fault (class compared), 2 free damage
pub fn c09_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 32) {
        return c;
    }
    match r.below(10) {
        0 => kase(0, gen::doc(r, &RICH).encode()),
        1 | 2 => {
            // cut somewhere
            let b = if r.chance(1, 8) { r.pick(&FIXTURES[..2]).1.to_vec() } else { gdoc!(r, Cfg { max_frames: 2, max_cel: 6, ..RICH }).encode() };
            let k = match r.below(4) {
                0 => r.below(140.min(b.len() + 1)),
                1 => b.len() - r.below(40.min(b.len())),
                _ => r.below(b.len() + 1),
            };
            kase(1, b[..k].to_vec())
        }
        3..=6 => {
            let d = gdoc!(r, Cfg { max_frames: 3, max_cel: 6, user: 2, ..RICH });
            kase(1, fault(r, d))
        }
        7 => {
            let b = gmut!(r, soup(r).encode());
            kase(2, b)
        }
        _ => {
            let b = gdoc!(r, Cfg { max_frames: 3, max_cel: 6, user: 2, raw_cels: r.chance(1, 3), ..RICH }).encode();
            kase(2, gen::mutate(r, b))
        }
    }
}
fn fault(r: &mut Rng, mut d: Doc) -> Vec<u8> {
    fix_counts(&mut d);
    let nf = d.frames.len();
    let f = r.below(nf);
    let layers = d.frames.iter().flat_map(|f| &f.chunks).filter(|c| matches!(c.body, Body::Layer { .. })).count();
    let bad_name = |r: &mut Rng| -> Str {
        let mut s = gen::name(r);
        let i = r.below(s.len() + 1);
        let bad: &[u8] = r.pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xe2, 0x82], &[0xf5, 0x80, 0x80, 0x80]]);
        // keep characters whole so that exactly this piece is wrong
        let at = if s.is_ascii() { i } else { s.len() };
        s.splice(at..at, bad.iter().copied());
        s.push(b'z');
        s
    };
    let at = r.below(d.frames[f].chunks.len() + 1);
    let ins = |d: &mut Doc, c: ChunkD| {
        let at = at.min(d.frames[f].chunks.len());
        d.frames[f].chunks.insert(at, c)
    };
    match r.below(20) {
        0 => d.hdr.magic = *r.pick(&[0xE0A5u16, 0, 0xA5E1, 0xF1FA]),
        1 => d.frames[f].magic = *r.pick(&[0xFAF1u16, 0, 0xF1FB, 0xA5E0]),
        2 => {
            // frame size field
            let mut o = Vec::new();
            d.frames[f].enc(&mut o);
            let n = o.len() as u32;
            d.frames[f].size = Some(*r.pick(&[0, 1, 2, 3, 4, 9, 15, n + 1_000_000, u32::MAX, n - 1]));
            if f + 1 < nf {
                // keep it a single fault: nothing after
                let keep = f + 1;
                d.frames.truncate(keep);
            }
        }
        3 | 4 => {
            // chunk size field
            if !d.frames[f].chunks.is_empty() {
                let i = r.below(d.frames[f].chunks.len());
                d.frames[f].chunks[i].size = Some(*r.pick(&[0, 1, 2, 3, 4, 5, 0x7fff_ffff, u32::MAX, 100_000_000]));
            }
        }
        5 => d.frames[f].new_count = Some(d.frames[f].chunks.len() as u32 + 1 + r.below(70000) as u32),
        6 | 7 => {
            // body too short
            let c = any_chunk(r);
            let mut o = Vec::new();
            c.body.enc(&mut o);
            let need = match &c.body {
                Body::Raw(..) | Body::Path(_) => 0,
                Body::Cel { body, .. } => 16 + match body {
                    CelBody::Raw { .. } | CelBody::Zip { .. } => 4,
                    CelBody::Link(_) => 2,
                    CelBody::Tilemap { .. } => 32,
                    _ => 0,
                },
                Body::CelExtra { .. } => 20,
                Body::Mask { name, .. } => 18 + name.len(),
                _ => o.len(),
            };
            if need > 0 {
                o.truncate(r.below(need));
            }
            ins(&mut d, Body::Raw(c.body.ty(), o).into());
        }
        8..=10 => {
            // text that is not UTF-8
            let name = bad_name(r);
            let c: ChunkD = match r.below(8) {
                0 => Body::Layer { flags: 1, ty: 0, level: 0, dw: 0, dh: 0, blend: 0, opacity: 1, fut: [0; 3], name, tileset: 0 }.into(),
                1 => {
                    let mut t = gen::tags(r, 3);
                    let i = r.below(3);
                    t[i].name = name;
                    Body::Tags { count: None, fut: [0; 8], tags: t }.into()
                }
                2 => {
                    let mut c = gen::slice(r);
                    if let Body::Slice { name: n, .. } = &mut c {
                        *n = name
                    }
                    c.into()
                }
                3 => Body::User { flags: 1 + r.below(2) as u32 * 2, text: name, color: [0; 4], props: PropsD::none() }.into(),
                4 => Body::Mask { x: 0, y: 0, w: 1, h: 1, fut: [0; 8], name, data: vec![1] }.into(),
                5 => Body::Ext { count: None, res: [0; 8], e: vec![(1, 0, [0; 7], b"ok".to_vec()), (2, 1, [0; 7], name)] }.into(),
                6 => {
                    let mut c = gen::new_pal(r);
                    if let Body::Pal { e, .. } = &mut c.body {
                        let i = r.below(e.len());
                        e[i].0 = 1;
                        e[i].2 = name;
                    }
                    c
                }
                _ => Body::Tileset { id: 0, flags: 0, ntiles: 0, w: 1, h: 1, base: 1, res: [0; 14], name, ext: (0, 0), data: vec![] }.into(),
            };
            ins(&mut d, c);
        }
        11 | 12 => {
            let mut c = gen::new_pal(r);
            if let Body::Pal { first, last, e, .. } = &mut c.body {
                match r.below(3) {
                    0 => {
                        // the last index stays in range: one fault only
                        *first = *r.pick(&[256, 257, 0xffff, u32::MAX]);
                        *last = 255;
                    }
                    1 => {
                        *first = r.below(256) as u32;
                        *last = *r.pick(&[256, 257, 511, 0x10000, u32::MAX]);
                    }
                    _ => {
                        *first = 1 + r.below(255) as u32;
                        *last = r.below(*first as usize) as u32;
                    }
                }
                e.resize(300, (0, [1, 2, 3, 4], vec![]));
            }
            ins(&mut d, c);
        }
        13 | 14 => {
            let k = 1 + r.below(3);
            let mut t = gen::tags(r, k);
            let i = r.below(k);
            let a = r.w().max(1);
            t[i].from = a;
            t[i].to = r.below(a as usize) as u16;
            ins(&mut d, Body::Tags { count: None, fut: [0; 8], tags: t }.into());
        }
        15 => {
            let l = *r.pick(&[layers as u16, layers as u16 + 1, 0xffff, 0x8000, layers as u16 + 255]);
            ins(&mut d, cel(l, 0, 0, 255, 0, CelBody::Raw { w: 1, h: 1, data: vec![0; 4] }));
        }
        16 => {
            // indexed, but without usable palette
            d.hdr.depth = 8;
            for f in &mut d.frames {
                f.chunks.retain(|c| !matches!(c.body, Body::Pal { .. } | Body::OldPal(..)));
            }
            if r.chance(1, 3) {
                d.frames[f].chunks.push(Body::OldPal(*r.pick(&[4u16, 0x11]), None, vec![]).into());
            }
        }
        17 => {
            // an old palette that runs past 256 entries
            d.hdr.depth = 8;
            for f in &mut d.frames {
                f.chunks.retain(|c| !matches!(c.body, Body::Pal { .. } | Body::OldPal(..)));
            }
            let p = match r.below(5) {
                0 => vec![(1u8, vec![[1u8; 3]; 256])],
                1 => vec![(250, vec![[1; 3]; 7])],
                2 => vec![(200, vec![[1; 3]; 20]), (30, vec![[2; 3]; 7])],
                _ => {
                    // any packets, up to the one that crosses the end, and more
                    let (mut at, mut p, most) = (0, vec![], *r.pick(&[2, 20, 120]));
                    while at <= 256 || r.chance(1, 3) {
                        let (skip, n) = (if r.chance(1, 2) { r.u8() } else { r.below(60) as u8 }, 1 + r.below(most));
                        at += skip as usize + n;
                        p.push((skip, vec![[r.u8() & 63; 3]; n]));
                    }
                    p
                }
            };
            ins(&mut d, Body::OldPal(*r.pick(&[4u16, 0x11]), None, p).into());
        }
        18 => {
            // a link that leads nowhere
            let l = d.frames[f].chunks.iter().position(|c| matches!(c.body, Body::Cel { .. }));
            if let Some(i) = l {
                if let Body::Cel { body, .. } = &mut d.frames[f].chunks[i].body {
                    let any = r.below(nf) as u16;
                    *body = CelBody::Link(*r.pick(&[nf as u16, 0xffff, f as u16, any]));
                }
            }
        }
        _ => {
            let c = if r.chance(1, 2) {
                CelBody::Unknown(*r.pick(&[4u16, 5, 99, 0xffff]), vec![1, 2, 3])
            } else {
                CelBody::Tilemap { w: 1, h: 1, bpt: 32, id: 1, x: 2, y: 4, d: 8, res: [0; 10], data: vec![1] }
            };
            if layers > 0 {
                d.frames[f].chunks.push(cel(r.below(layers) as u16, 0, 0, 255, 0, c));
            }
        }
    }
    d.encode()
}
pub fn c09_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 2, gen::CUTS | gen::VALUES | gen::CHUNKS, all, c09_check);
    }
    let b = &c.bytes;
    let quiet = |x: Res<Result<V, String>>| x.map_err(|_| Out::Skip("panicked (C01)"));
    let raw = refdec::raw(b);
    if matches!(raw, Err(Fault::PropBlock(_))) {
        return Err(Out::Skip("property block with impossible size"));
    }
    let gr = quiet(see_raw(b))?;
    let gf = quiet(see_file(b))?;
    let gs = see_sprite(b).map_err(|_| Out::Skip("panicked (C01)"))?;
    let judge = |view: &str, exp: &Result<(), Fault>, got: Result<(), &String>| -> Res<()> {
        match (exp, got) {
            (Ok(()), Err(e)) => Err(Bad(format!("{view} refuses a well-formed file: {e}"))),
            (Err(f), Ok(())) => Err(Bad(format!("{view} accepts a file that must be refused ({f:?})"))),
            (Err(f), Err(e)) => {
                if c.kind == 1 && view != "sprite loader" {
                    if let Some(w) = fault_class(f) {
                        if w != *e {
                            return Err(Bad(format!("{view} reports `{e}` for {f:?}; the documented error is {w}")));
                        }
                    }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    };
    let note = |ctx: &mut Ctx, f: &Fault| {
        ctx.add(&format!("refused: {}", format!("{f:?}").split('(').next().unwrap_or("")), 1);
        ctx.outcomes.insert(mix(hash_bytes(format!("{f:?}").as_bytes()), hash_bytes(b) & 63));
    };
    let (er, file) = match &raw {
        Ok(w) => (Ok(()), reffile::file(w).map_err(|e| e)),
        Err(e) => (Err(e.clone()), Err(e.clone())),
    };
    judge("raw parser", &er, gr.as_ref().map(|_| ()))?;
    if raw.is_err() && gr.is_ok() {
        unreachable!();
    }
    let ef = match &file {
        Ok(_) => Ok(()),
        Err(e) => Err(e.clone()),
    };
    judge("file parser", &ef, gf.as_ref().map(|_| ()))?;
    let sp = match (&raw, &file) {
        (Ok(w), Ok(f)) => reffile::sprite(w, f).map(|s| reffile::sprite_v(&s)),
        (_, Err(e)) | (Err(e), _) => Err(e.clone()),
    };
    let es = match &sp {
        Ok(_) => Ok(()),
        Err(e) => Err(e.clone()),
    };
    judge("sprite loader", &es, gs.as_ref().map(|_| ()))?;
    match &sp {
        Ok(_) => ctx.add("accepted", 1),
        Err(f) => note(ctx, f),
    }
    ctx.nontriv(|| describe(b));
    Ok(())
}

// ------------------------------------------------------------------ C10
/// kinds: 0 base (aux) against the same file with neutral additions (bytes),
/// 1 unknown codes against the reference
pub fn c10_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    let mut d = gdoc!(r, Cfg { raw_cels: idx % 5 == 0, wild: idx % 3 == 0, max_cel: 6, user: 2, ..RICH });
    fix_counts(&mut d);
    if idx % 4 == 3 {
        unknown_codes(r, &mut d, idx / 4);
        return kase(1, d.encode());
    }
    let base = d.encode();
    let m = 1 + r.below(4);
    for _ in 0..m {
        match r.below(4) {
            0 => {
                for f in &mut d.frames {
                    for _ in 0..1 + r.below(3) {
                        let at = r.below(f.chunks.len() + 1);
                        if !matches!(f.chunks.get(at).map(|c| &c.body), Some(Body::User { .. } | Body::CelExtra { .. })) {
                            f.chunks.insert(at, gen::unknown_chunk(r));
                        }
                    }
                }
            }
            1 => {
                for f in &mut d.frames {
                    for c in &mut f.chunks {
                        if c.body.paddable() && r.chance(1, 2) {
                            let k = 1 + r.below(24);
                            c.pad = r.bytes(k);
                        }
                    }
                }
            }
            2 => {
                for f in &mut d.frames {
                    let k = r.below(40);
                    f.pad = r.bytes(k);
                }
            }
            _ => reserved(r, &mut d),
        }
    }
    if r.chance(1, 60) {
        // far more unknown content than any known chunk has
        let n = *r.pick(&[255usize, 256, 4097, 32_768, 65_525, 65_529, 65_530, 65_535, 65_536, 70_000, 131_072, 300_000]);
        let i = r.below(d.frames.len());
        let f = &mut d.frames[i];
        match r.below(3) {
            0 => f.pad = r.bytes(n),
            1 => f.chunks.insert(0, Body::Raw(*r.pick(&[0x2021u16, 0x3000, 0x0001, 0xfffe]), r.bytes(n)).into()),
            _ => {
                if let Some(c) = f.chunks.iter_mut().find(|c| c.body.paddable()) {
                    c.pad = r.bytes(n);
                }
            }
        }
    }
    Case { kind: 0, aux: base, bytes: d.encode() }
}
fn reserved(r: &mut Rng, d: &mut Doc) {
    d.hdr.ignore = [r.u8(), r.u8(), r.u8()];
    d.hdr.future = r.bytes(84);
    if r.chance(1, 2) {
        d.hdr.flags |= r.u32() << 3;
    }
    for f in &mut d.frames {
        f.future = [r.u8(), r.u8()];
        for c in &mut f.chunks {
            let hi = r.chance(1, 2);
            match &mut c.body {
                Body::Layer { flags, fut, dw, dh, .. } => {
                    if hi {
                        *flags |= r.u16() << 7;
                    }
                    *fut = [r.u8(), r.u8(), r.u8()];
                    *dw = r.u16();
                    *dh = r.u16();
                }
                Body::Cel { fut, body, .. } => {
                    r.bytes(5).iter().zip(fut).for_each(|(x, y)| *y = *x);
                    if let CelBody::Tilemap { res, .. } = body {
                        r.bytes(10).iter().zip(res).for_each(|(x, y)| *y = *x);
                    }
                }
                Body::CelExtra { flags, .. } if hi => *flags |= r.u32() << 1,
                Body::Profile { flags, res, .. } => {
                    if hi {
                        *flags |= r.u16() << 1;
                    }
                    r.bytes(8).iter().zip(res).for_each(|(x, y)| *y = *x);
                }
                Body::Ext { res, e, .. } => {
                    r.bytes(8).iter().zip(res).for_each(|(x, y)| *y = *x);
                    e.iter_mut().for_each(|e| r.bytes(7).iter().zip(&mut e.2).for_each(|(x, y)| *y = *x));
                }
                Body::Mask { fut, .. } => r.bytes(8).iter().zip(fut).for_each(|(x, y)| *y = *x),
                Body::Tags { fut, tags, .. } => {
                    r.bytes(8).iter().zip(fut).for_each(|(x, y)| *y = *x);
                    for t in tags {
                        r.bytes(6).iter().zip(&mut t.fut).for_each(|(x, y)| *y = *x);
                        t.extra = r.u8();
                    }
                }
                Body::Pal { fut, e, .. } => {
                    r.bytes(8).iter().zip(fut).for_each(|(x, y)| *y = *x);
                    if hi {
                        e.iter_mut().for_each(|e| e.0 |= r.u16() << 1);
                    }
                }
                Body::User { flags, .. } if hi => *flags |= r.u32() << 3,
                Body::Slice { flags, res, .. } => {
                    if hi {
                        *flags |= r.u32() << 2;
                    }
                    *res = r.u32();
                }
                Body::Tileset { flags, res, .. } => {
                    if hi {
                        *flags |= r.u32() << 6;
                    }
                    r.bytes(14).iter().zip(res).for_each(|(x, y)| *y = *x);
                }
                _ => {}
            }
        }
    }
}
/// `i` walks through the small codes so that each is certainly tried
fn unknown_codes(r: &mut Rng, d: &mut Doc, i: u64) {
    let w = |r: &mut Rng, first: u16, i: u64| -> u16 {
        if r.chance(1, 2) {
            first + (i % 40) as u16
        } else {
            first + r.below(65536 - first as usize) as u16
        }
    };
    let ch = &mut d.frames[0].chunks;
    let n = 1 + r.below(4);
    for _ in 0..n {
        ch.push(
            Body::Layer {
                flags: 1,
                ty: if r.chance(1, 2) { w(r, 3, i) } else { 0 },
                level: 0,
                dw: 0,
                dh: 0,
                blend: if r.chance(2, 3) { w(r, 19, i) } else { 0 },
                opacity: 9,
                fut: [0; 3],
                name: b"u".to_vec(),
                tileset: 0,
            }
            .into(),
        );
    }
    let mut t = gen::tags(r, 3);
    for (k, t) in t.iter_mut().enumerate() {
        t.dir = if k == 0 { 4 + (i % 252) as u8 } else { 4 + r.below(252) as u8 };
    }
    ch.push(Body::Tags { count: None, fut: [0; 8], tags: t }.into());
    ch.push(Body::Profile { ty: w(r, 3, i), flags: r.below(2) as u16, gamma: 1 << 16, res: [0; 8], icc: vec![] }.into());
    let e = (0..4).map(|k| (k, if k == 0 { 3 + (i % 253) as u8 } else { 3 + r.below(253) as u8 }, [0u8; 7], b"e".to_vec())).collect();
    ch.push(Body::Ext { count: None, res: [0; 8], e }.into());
    if r.chance(1, 2) {
        let t = w(r, 4, i);
        let k = r.below(9);
        ch.push(cel(0, 1, 2, 3, 4, CelBody::Unknown(t, r.bytes(k))));
    }
    if d.hdr.depth != 8 && r.chance(1, 2) {
        d.hdr.depth = loop {
            let x = w(r, 0, i);
            if ![8, 16, 32].contains(&x) {
                break x;
            }
        };
    }
}
pub fn c10_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 1, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| refdec::raw(b).is_ok(), c10_check);
    }
    let b = &c.bytes;
    if c.kind == 1 {
        let raw = refdec::raw(b).unwrap_or_else(|e| panic!("harness: {e:?}"));
        let er = refdec::raw_v(&raw);
        cmp("raw", &er, &want_raw(b)?, CONTENT)?;
        if let Ok(f) = reffile::file(&raw) {
            let ef = reffile::file_v(&raw, &f);
            cmp("file", &ef, &want_file(b)?, CONTENT)?;
            if let Ok(s) = reffile::sprite(&raw, &f) {
                let es = reffile::sprite_v(&s);
                let (g, _) = want_sprite(b)?;
                cmp_key("sprite", "layers", &es, &g, CONTENT)?;
                cmp_key("sprite", "tags", &es, &g, CONTENT)?;
            }
        }
        count_unknown(&er, ctx);
        ctx.nontriv(|| describe(b));
        return Ok(());
    }
    let a = &c.aux;
    let skip = Cmp { skip: &["flags", "file_size"], content: true, place: false };
    let skip_l = Cmp { skip: &["file_size"], content: true, place: false };
    let (ra, rb) = (want_raw(a)?, want_raw(b)?);
    cmp_key("raw (with additions)", "header", &ra, &rb, skip)?;
    cmp_key("raw (with additions)", "frames", &strip_unsupported(&ra), &strip_unsupported(&rb), skip_l)?;
    let (fa, fb) = (want_file(a)?, want_file(b)?);
    cmp_key("file (with additions)", "header", &fa, &fb, skip)?;
    for k in ["palette", "layers", "frames", "tags", "slices", "user_data"] {
        cmp_key("file (with additions)", k, &fa, &fb, skip_l)?;
    }
    let (sa, sb) = (see_sprite(a)?, see_sprite(b)?);
    match (&sa, &sb) {
        (Ok((va, ia)), Ok((vb, ib))) => {
            cmp("sprite (with additions)", va, vb, CONTENT)?;
            cmp("images (with additions)", &V::L(ia.clone()), &V::L(ib.clone()), CONTENT)?;
            let (la, lb) = (want_load(a)?, want_load(b)?);
            let n = { let (w, h) = la.size(); w as usize * h as usize * 4 };
            for f in 0..la.frames().len() {
                let (mut p, mut q) = (vec![7u8; n], vec![7u8; n]);
                let sel = aseprite_loader::loader::LayerSelection::All;
                let x = guard(|| la.render_frame(f, &mut p, &sel)).map_err(|_| Out::Skip("rendering panicked (C02)"))?;
                let y = guard(|| lb.render_frame(f, &mut q, &sel)).map_err(Bad)?;
                if x.is_ok() != y.is_ok() || (x.is_ok() && p != q) {
                    return Err(Bad(format!("frame {f} renders differently with additions that carry no meaning")));
                }
                ctx.add("renderings compared", 1);
            }
        }
        (Err(_), Err(_)) => {}
        _ => return Err(Bad("additions that carry no meaning change whether the file loads".to_string())),
    }
    let full = refdec::raw(b).unwrap_or_else(|e| panic!("harness: {e:?}"));
    let un = full.frames.iter().flat_map(|f| &f.chunks).filter(|c| matches!(c, refdec::Chunk::Unsupported(_))).count();
    ctx.add("unknown chunks inserted", un as u64);
    ctx.add("bytes added", (b.len() - a.len()) as u64);
    ctx.outcomes.insert(digest_v(&ra));
    ctx.nontriv(|| format!("{} -> {} bytes, {un} unknown chunks; {}", a.len(), b.len(), describe(b)));
    Ok(())
}
fn count_unknown(v: &V, ctx: &mut Ctx) {
    match v {
        V::M(m) => {
            for (k, x) in m {
                if let V::U(n) = x {
                    ctx.add(&format!("unknown codes: {k}"), 1);
                    ctx.outcomes.insert(mix(hash_bytes(k.as_bytes()), *n as u64));
                }
                count_unknown(x, ctx);
            }
        }
        V::L(l) => l.iter().for_each(|x| count_unknown(x, ctx)),
        _ => {}
    }
}

// ------------------------------------------------------------------ C11
pub fn c11_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    let depth = *r.pick(&[8u16, 8, 8, 8, 8, 32, 16]);
    let mut d = gdoc!(r, Cfg { depth: Some(depth), palettes: true, max_frames: 3, max_layers: 2, max_cel: 20, hsl: false, user: 1, ..BASE });
    if depth == 8 && r.chance(1, 2) {
        // rebuild the palette chunks from scratch: only old kinds, only one
        // kind, overlapping runs, ...
        for f in &mut d.frames {
            f.chunks.retain(|c| !matches!(c.body, Body::Pal { .. } | Body::OldPal(..)));
        }
        let kinds: &[u8] = *r.pick(&[&[0u8][..], &[1], &[2], &[1, 2], &[0, 1, 2], &[0, 2]]);
        let n = if r.chance(1, 80) { 255 + r.below(300) } else { 1 + r.below(5) };
        for i in 0..n {
            let f = if i == 0 { 0 } else { r.below(d.frames.len()) };
            let c = match *r.pick(kinds) {
                0 => gen::new_pal(r),
                1 => gen::old_pal(r, 4),
                _ => gen::old_pal(r, 0x11),
            };
            let at = r.below(d.frames[f].chunks.len() + 1);
            d.frames[f].chunks.insert(at, c);
        }
    }
    fix_counts(&mut d);
    case(d.encode())
}
pub fn c11_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, loads, c11_check);
    }
    let b = &c.bytes;
    let full = reference(b);
    let e = reffile::palette_v(&full.file.palette);
    let f = want_file(b)?;
    cmp("file.palette", &e, f.get("palette"), CONTENT)?;
    let a = want_load(b)?;
    cmp("sprite.file.palette", &e, &observe::palette(&a.file.palette), CONTENT)?;
    let indexed = full.file.palette.is_some();
    #[cfg(feature = "parsers")]
    if indexed {
        let raw = guard(|| parse_raw_file(b)).map_err(Bad)?.map_err(|e| Bad(format!("raw parser refuses a well-formed file: {e}")))?;
        let p = guard(|| aseprite_loader::binary::palette::create_palette(&raw.header, &raw.frames).ok()).map_err(Bad)?;
        cmp("create_palette", &e, &observe::palette(&p), CONTENT)?;
    }
    ctx.add(if indexed { "palettes compared" } else { "sprites without palette" }, 1);
    for ch in full.raw.frames.iter().flat_map(|f| &f.chunks) {
        match ch {
            refdec::Chunk::Pal(..) => ctx.add("new palette chunks merged", 1),
            refdec::Chunk::OldPal(false, _) => ctx.add("8-bit old palette chunks", 1),
            refdec::Chunk::OldPal(true, _) => ctx.add("6-bit old palette chunks", 1),
            _ => {}
        }
    }
    if indexed {
        ctx.outcomes.insert(digest_v(&e));
        ctx.nontriv(|| describe(b));
    }
    Ok(())
}

// ------------------------------------------------------------------ C22
/// kind 0: placement; kind 1: same structure (aux) with larger payloads
pub fn c22_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return c;
    }
    if let Some(c) = sweep_gen(r, idx, 16) {
        return c;
    }
    if idx % 4 == 0 {
        let seed = r.u64();
        let mk = |k: usize| payload(&mut Rng::new(seed), k);
        let k = 2000 + r.below(6000);
        return Case { kind: 1, aux: mk(1), bytes: mk(k) };
    }
    match r.below(3) {
        0 => case(gdoc!(r, Cfg { user: 2, ..RICH }).encode()),
        1 => case(gdoc!(r, Cfg { user: 2, raw_cels: true, ..RICH }).encode()),
        _ => case(soup(r).encode()),
    }
}
fn payload(r: &mut Rng, k: usize) -> Vec<u8> {
    let mut d = Doc { hdr: Hdr { depth: 16, ..Default::default() }, frames: vec![FrameD::default()], tail: vec![] };
    let nl = 3;
    let mut ch: Vec<ChunkD> = (0..nl).map(|_| layer("l", 1, 0, 0, 0, 255)).collect();
    let long = |k: usize| vec![b'x'; k.min(65000)];
    for l in 0..nl {
        match r.below(4) {
            0 => ch.push(cel(l, 0, 0, 255, 0, CelBody::Raw { w: k as u16, h: 1, data: vec![3; k * 2] })),
            1 => ch.push(cel(l, 0, 0, 255, 0, CelBody::Zip { w: k as u16, h: 1, data: vec![4; k] })),
            _ => ch.push(cel(l, 0, 0, 255, 0, CelBody::Raw { w: 10, h: 1, data: vec![5; k * 3] })),
        }
        if r.chance(1, 2) {
            ch.push(Body::User { flags: 1, text: long(k), color: [0; 4], props: PropsD::none() }.into());
        }
    }
    ch.push(Body::Mask { x: 0, y: 0, w: 1, h: 1, fut: [0; 8], name: long(k), data: vec![7; k] }.into());
    ch.push(Body::Profile { ty: 2, flags: 0, gamma: 0, res: [0; 8], icc: vec![1; k * 2] }.into());
    ch.push(Body::Tileset { id: 1, flags: 2, ntiles: 1, w: 1, h: 1, base: 1, res: [0; 14], name: long(k), ext: (0, 0), data: vec![9; k * 2] }.into());
    ch.push(Body::Ext { count: None, res: [0; 8], e: vec![(1, 0, [0; 7], long(k))] }.into());
    ch.push(Body::Raw(0x4444, vec![1; k * 4]).into());
    ch.push(Body::CelExtra { flags: 0, v: [0; 4], fut: vec![0; k] }.into());
    ch.push(Body::Slice { count: None, flags: 0, res: 0, name: long(k), keys: vec![] }.into());
    let m = vec![(long(k), PV::Str(long(k)))];
    ch.push(Body::User { flags: 4, text: vec![], color: [0; 4], props: PropsD { maps: vec![(0, m)], ..PropsD::none() } }.into());
    d.frames[0].chunks = ch;
    d.encode()
}
/// Where both trees hold bytes, they must sit at the same input offset. What
/// the trees hold otherwise is other properties' business.
fn place(what: &str, e: &V, g: &V, n: &mut (u64, u64)) -> Res<()> {
    match (e, g) {
        (V::S(a), V::S(b)) => {
            n.0 += 1;
            n.1 += b.data.len() as u64;
            if (a.data.is_empty() && b.data.is_empty()) || (b.off == a.off && a.data.len() == b.data.len()) {
                return Ok(());
            }
            Err(Bad(format!(
                "{what}: bytes stored at input offset {} (length {}) are reported from {} (length {})",
                a.off.unwrap_or(0),
                a.data.len(),
                b.off.map_or("memory outside the input".into(), |o| format!("input offset {o}")),
                b.data.len()
            )))
        }
        (V::L(a), V::L(b)) => a.iter().zip(b).try_for_each(|(x, y)| place(what, x, y, n)),
        (V::M(a), V::M(b)) => a.iter().zip(b).filter(|(x, y)| x.0 == y.0).try_for_each(|(x, y)| place(&format!("{what}.{}", x.0), &x.1, &y.1, n)),
        _ => Ok(()),
    }
}
pub fn c22_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    if c.kind == SWEEP {
        return sweep(c, ctx, 0, gen::CUTS | gen::VALUES | gen::CHUNKS, |b| refdec::raw(b).is_ok(), c22_check);
    }
    let b = &c.bytes;
    let raw = refdec::raw(b).unwrap_or_else(|e| panic!("harness: {e:?}"));
    if c.kind == 1 {
        let _ = reference(b);
        reset(b)?;
        type Probe = fn(&[u8]) -> bool;
        let probes: [(&str, Probe); 3] = [
            ("parse_raw_file", |b| parse_raw_file(b).is_ok()),
            ("parse_file", |b| parse_file(b).is_ok()),
            ("AsepriteFile::load", |b| AsepriteFile::load(b).is_ok()),
        ];
        for (what, f) in probes {
            let (x, small) = monitor::mem(|| guard(|| f(&c.aux)));
            let (y, big) = monitor::mem(|| guard(|| f(b)));
            if x != Ok(true) || y != Ok(true) {
                return Err(Bad(format!("{what} refuses a well-formed file")));
            }
            ctx.add("allocation comparisons", 1);
            ctx.max("extra bytes allocated for larger payload", big.total.saturating_sub(small.total) as u64);
            if big.total > small.total + 1500 {
                return Err(Bad(format!(
                    "{what}: with payloads {} bytes larger, {} more bytes are allocated",
                    b.len() - c.aux.len(),
                    big.total - small.total
                )));
            }
        }
        ctx.outcomes.insert(hash_bytes(b));
        ctx.nontriv(|| format!("same structure with {} and {} bytes", c.aux.len(), b.len()));
        return Ok(());
    }
    let er = refdec::raw_v(&raw);
    let mut n = (0, 0);
    place("raw view", &er, &want_raw(b)?, &mut n)?;
    if let Ok(f) = reffile::file(&raw) {
        place("file view", &reffile::file_v(&raw, &f), &want_file(b)?, &mut n)?;
        if let Ok(s) = reffile::sprite(&raw, &f) {
            let (g, im) = want_sprite(b)?;
            // names of the sprite view are owned; images must borrow
            place("sprite view", &frames_only(&reffile::sprite_v(&s)), &frames_only(&g), &mut n)?;
            for i in &im {
                if let V::S(s) = i.get("data") {
                    if s.off.is_none() && !s.data.is_empty() {
                        return Err(Bad("an image's data lies outside the input".to_string()));
                    }
                }
            }
        }
    }
    ctx.add("borrowed spans checked", n.0);
    ctx.add("borrowed bytes checked", n.1);
    ctx.outcomes.insert(digest_v(&er));
    if n.0 > 0 {
        ctx.nontriv(|| format!("{} spans, {} bytes; {}", n.0, n.1, describe(b)));
    }
    Ok(())
}
fn frames_only(v: &V) -> V {
    V::M(vec![("frames", v.get("frames").clone())])
}
