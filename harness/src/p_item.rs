//! C25: parsers of single items.
use crate::common::*;
use crate::doc::*;
use crate::gen::{self, Cfg};
use crate::monitor::guard;
use crate::p_parse::{any_chunk, fixture, soup, RICH};
use crate::refdec;
use crate::rng::{hash_bytes, mix, Rng};
use aseprite_loader::binary::{self as bin, raw_file::parse_raw_file};

/// where the rest starts, how long it is, what was read
type Got = Result<(usize, usize, String), ()>;
pub struct Item {
    name: &'static str,
    /// one well-formed item
    gen: fn(&mut Rng) -> Vec<u8>,
    parse: fn(&[u8]) -> Got,
    /// what a scalar's bytes mean
    value: Option<fn(&[u8]) -> String>,
    /// chunk type whose contents this parser reads
    ty: u16,
}
macro_rules! it {
    ($n:literal, $g:expr, $p:expr) => {
        it!($n, $g, $p, 0, None)
    };
    ($n:literal, $g:expr, $p:expr, $ty:expr) => {
        it!($n, $g, $p, $ty, None)
    };
    ($n:literal, $g:expr, $p:expr, $ty:expr, $v:expr) => {
        Item {
            name: $n,
            gen: $g,
            parse: |b| match $p(b) {
                Ok((rest, v)) => Ok((rest.as_ptr() as usize, rest.len(), format!("{v:?}"))),
                Err(_) => Err(()),
            },
            value: $v,
            ty: $ty,
        }
    };
}
fn le(b: &[u8]) -> u128 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u128)
}
fn i32at(b: &[u8], i: usize) -> i32 {
    le(&b[i * 4..i * 4 + 4]) as u32 as i32
}
fn enc(b: &Body) -> Vec<u8> {
    let mut o = vec![];
    b.enc(&mut o);
    o
}
fn chunk_of(r: &mut Rng, ty: u16) -> Vec<u8> {
    loop {
        let mut c = any_chunk(r);
        c.pad.clear();
        if c.ty.unwrap_or(c.body.ty()) == ty && c.body.ty() == ty && c.size.is_none() && !matches!(c.body, Body::Raw(..)) {
            return enc(&c.body);
        }
    }
}
fn text(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    o.pstr(&gen::name(r));
    o
}
fn prop_value(r: &mut Rng) -> Vec<u8> {
    let v = gen::value(r, 3);
    let mut o = vec![];
    o.p16(v.ty());
    v.enc(&mut o);
    o
}
fn map_bytes(r: &mut Rng) -> Vec<u8> {
    let p = PropsD { maps: vec![(r.d(), gen::props_map(r, 3))], ..PropsD::none() };
    let mut o = vec![];
    p.enc(&mut o);
    o.split_off(8)
}
fn slice_key(r: &mut Rng, flags: u32) -> Vec<u8> {
    let n = 20 + if flags & 1 != 0 { 16 } else { 0 } + if flags & 2 != 0 { 8 } else { 0 };
    r.bytes(n)
}

#[cfg(not(feature = "parsers"))]
pub const ITEMS: &[Item] = &[];
#[cfg(feature = "parsers")]
pub const ITEMS: &[Item] = {
    use bin::chunks as ch;
    use bin::scalars as sc;
    use ch::slice::SliceFlags;
    &[
        it!("byte", |r| r.bytes(1), sc::byte, 0, Some(|b| b[0].to_string())),
        it!("word", |r| r.bytes(2), sc::word, 0, Some(|b| le(b).to_string())),
        it!("short", |r| r.bytes(2), sc::short, 0, Some(|b| (le(b) as u16 as i16).to_string())),
        it!("dword", |r| r.bytes(4), sc::dword, 0, Some(|b| le(b).to_string())),
        it!("long", |r| r.bytes(4), sc::long, 0, Some(|b| i32at(b, 0).to_string())),
        it!("dword as usize", |r| r.bytes(4), sc::parse_dword_as_usize, 0, Some(|b| le(b).to_string())),
        it!("size field", |r| (4 + r.d() % (u32::MAX - 4)).to_le_bytes().to_vec(), |b| sc::dword_size(b, bin::errors::ParseError::InvalidFrameSize), 0, Some(|b| le(b).to_string())),
        it!("dword as byte", |r| vec![r.b(), 0, 0, 0], |b| sc::parse_dword_as_u8(b, bin::errors::ParseError::InvalidFrameSize(7)), 0, Some(|b| le(b).to_string())),
        it!(
            "three chunks",
            |r| {
                let mut b = vec![];
                (0..3).for_each(|_| any_chunk(r).enc(&mut b));
                b
            },
            |b| bin::chunk::parse_chunks(b, 3)
        ),
        it!("fixed", |r| r.bytes(4), |b| sc::fixed(b).map(|(i, f)| (i, (f.0 as u32) << 16 | f.1 as u32)), 0, Some(|b| le(b).to_string())),
        it!("point", |r| r.bytes(8), |b| sc::parse_point(b).map(|(i, p)| (i, [p.x, p.y])), 0, Some(|b| format!("{:?}", [i32at(b, 0), i32at(b, 1)]))),
        it!("size", |r| r.bytes(8), |b| sc::parse_size(b).map(|(i, p)| (i, [p.width, p.height])), 0, Some(|b| format!("{:?}", [i32at(b, 0), i32at(b, 1)]))),
        it!(
            "rect",
            |r| r.bytes(16),
            |b| sc::parse_rect(b).map(|(i, p)| (i, [p.point.x, p.point.y, p.size.width, p.size.height])),
            0,
            Some(|b| format!("{:?}", [i32at(b, 0), i32at(b, 1), i32at(b, 2), i32at(b, 3)]))
        ),
        it!("color", |r| r.bytes(4), |b| sc::parse_color(b).map(|(i, c)| (i, [c.red, c.green, c.blue, c.alpha])), 0, Some(|b| format!("{b:?}"))),
        it!("rgb", |r| r.bytes(3), |b| sc::parse_rgb(b).map(|(i, c)| (i, [c.red, c.green, c.blue])), 0, Some(|b| format!("{b:?}"))),
        it!("uuid", |r| r.bytes(16), sc::parse_uuid, 0, Some(|b| le(b).to_string())),
        it!("string", text, |b| sc::parse_string(b).map(|(i, s)| (i, s.as_bytes().to_vec())), 0, Some(|b| format!("{:?}", &b[2..]))),
        it!("color depth", |r| r.bytes(2), |b| bin::color_depth::parse_color_depth(b).map(|(i, d)| (i, d.bpp())), 0, Some(|b| le(b).to_string())),
        it!("blend mode", |r| vec![r.below(24) as u8, (r.below(9) / 8) as u8], bin::blend_mode::parse_blend_mode),
        it!("chunk type", |r| vec![r.b(), *r.pick(&[0, 0x20])], bin::chunk_type::parse_chunk_type),
        it!(
            "header",
            |r| {
                let mut d = soup(r);
                d.hdr.flags = r.d();
                let mut b = d.encode();
                b.truncate(128);
                b
            },
            bin::header::parse_header
        ),
        it!(
            "frame",
            |r| {
                let mut d = soup(r);
                if r.chance(1, 3) {
                    let k = r.below(60);
                    let pad = r.bytes(k);
                    d.frames.iter_mut().for_each(|f| f.pad = pad.clone());
                }
                let mut b = vec![];
                r.pick(&d.frames).enc(&mut b);
                b
            },
            bin::raw_frame::parse_rawframe
        ),
        it!(
            "chunk",
            |r| {
                let mut b = vec![];
                let mut c = any_chunk(r);
                if c.body.paddable() && r.chance(1, 3) {
                    let k = r.below(40);
                    c.pad = r.bytes(k);
                }
                c.enc(&mut b);
                b
            },
            bin::chunk::parse_chunk
        ),
        it!("layer", |r| chunk_of(r, 0x2004), ch::layer::parse_layer_chunk, 0x2004),
        it!("color profile", |r| chunk_of(r, 0x2007), ch::color_profile::parse_color_profile, 0x2007),
        it!("external files", |r| chunk_of(r, 0x2008), ch::external_files::parse_external_files_chunk, 0x2008),
        it!(
            "external file",
            |r| {
                let mut b = r.bytes(12);
                b[4] = r.below(5) as u8;
                b.extend(text(r));
                b
            },
            ch::external_files::parse_external_file
        ),
        it!("tags", |r| chunk_of(r, 0x2018), ch::tags::parse_tags_chunk, 0x2018),
        it!("tag", |r| {
            let t = gen::tags(r, 1);
            enc(&Body::Tags { count: None, fut: [0; 8], tags: t }).split_off(10)
        }, ch::tags::parse_tag),
        it!("palette", |r| enc(&gen::new_pal(r).body), ch::palette::parse_palette_chunk, 0x2019),
        it!(
            "palette entry",
            |r| {
                let mut b = r.bytes(6);
                if b[0] & 1 != 0 {
                    b.extend(text(r));
                }
                b
            },
            ch::palette::parse_palette_entry
        ),
        it!("old palette", |r| enc(&gen::old_pal(r, 4).body), ch::old_palette::parse_old_palette_chunk, 4),
        it!(
            "old palette packet",
            |r| {
                let n = *r.pick(&[1usize, 2, 3, 17, 255, 0]);
                let mut b = vec![r.b(), n as u8];
                b.extend(r.bytes(if n == 0 { 256 } else { n } * 3));
                b
            },
            ch::old_palette::parse_packet
        ),
        it!("user data", |r| enc(&gen::user(r, true).body), ch::user_data::parse_user_data_chunk, 0x2020),
        it!(
            "properties maps",
            |r| {
                let mut b = vec![];
                gen::props(r).enc(&mut b);
                b
            },
            ch::user_data::parse_properties_maps
        ),
        it!("properties map", map_bytes, ch::user_data::parse_properties_map),
        it!(
            "property",
            |r| {
                let mut b = text(r);
                b.extend(prop_value(r));
                b
            },
            ch::user_data::parse_property
        ),
        it!("property value", prop_value, ch::user_data::parse_value),
        it!(
            "property vector",
            |r| {
                let mut b = vec![];
                gen::vector(r, 3).enc(&mut b);
                b
            },
            ch::user_data::parse_vector
        ),
        it!("slice", |r| enc(&gen::slice(r)), ch::slice::parse_slice_chunk, 0x2022),
        it!("slice key", |r| slice_key(r, 0), |b| ch::slice::parse_slice_key(b, SliceFlags::empty())),
        it!("slice key with nine-patch", |r| slice_key(r, 1), |b| ch::slice::parse_slice_key(b, SliceFlags::from_bits_truncate(1))),
        it!("slice key with pivot", |r| slice_key(r, 2), |b| ch::slice::parse_slice_key(b, SliceFlags::from_bits_truncate(2))),
        it!("slice key with both", |r| slice_key(r, 3), |b| ch::slice::parse_slice_key(b, SliceFlags::from_bits_truncate(3))),
        it!(
            "nine-patch",
            |r| r.bytes(16),
            |b| ch::slice::parse_nine_patch(b).map(|(i, p)| (i, [p.x as i64, p.y as i64, p.width as i64, p.height as i64])),
            0,
            Some(|b| format!("{:?}", [i32at(b, 0) as i64, i32at(b, 1) as i64, i32at(b, 2) as u32 as i64, i32at(b, 3) as u32 as i64]))
        ),
        it!("pivot", |r| r.bytes(8), |b| ch::slice::parse_pivot(b).map(|(i, p)| (i, [p.x, p.y])), 0, Some(|b| format!("{:?}", [i32at(b, 0), i32at(b, 1)]))),
        it!("tileset", |r| chunk_of(r, 0x2023), ch::tileset::parse_tileset_chunk, 0x2023),
        it!(
            "tileset external file",
            |r| r.bytes(8),
            |b| ch::tileset::parse_external_file(b).map(|(i, e)| (i, [e.external_file_id, e.tileset_id])),
            0,
            Some(|b| format!("{:?}", [i32at(b, 0) as u32, i32at(b, 1) as u32]))
        ),
        it!(
            "tileset tiles",
            |r| {
                let k = r.below(40);
                let mut b = vec![];
                b.p32(k as u32);
                b.extend(r.bytes(k));
                b
            },
            |b| ch::tileset::parse_tiles(b).map(|(i, t)| (i, t.data.to_vec())),
            0,
            Some(|b| format!("{:?}", &b[4..]))
        ),
    ]
};
/// parsers whose last field takes all there is
#[cfg(not(feature = "parsers"))]
const GREEDY: &[Item] = &[];
#[cfg(feature = "parsers")]
const GREEDY: &[Item] = &[
    it!("cel", |r| chunk_of(r, 0x2005), bin::chunks::cel::parse_cel_chunk, 0x2005),
    it!("cel extra", |r| chunk_of(r, 0x2006), bin::chunks::cel_extra::parse_cel_extra_chunk, 0x2006),
    it!("mask", |r| chunk_of(r, 0x2016), bin::chunks::mask::parse_mask_chunk, 0x2016),
];

/// kinds: 0 items of one kind in a row (aux: which, lengths), 1 a file,
/// 2 arbitrary bytes for one parser (aux: which, other tail)
pub fn c25_gen(r: &mut Rng, idx: u64, _t: bool) -> Case {
    if let Some(c) = fixture(idx) {
        return Case { kind: 1, ..c };
    }
    let which = r.below(ITEMS.len().max(1));
    let kind = r.below(8);
    if kind == 0 || ITEMS.is_empty() {
        let b = if r.chance(1, 2) { soup(r).encode() } else { gdoc!(r, Cfg { raw_cels: true, max_cel: 8, user: 2, ..RICH }).encode() };
        return Case { kind: 1, aux: vec![], bytes: b };
    }
    let it = &ITEMS[which];
    if kind <= 2 {
        let mut b = (it.gen)(r);
        for _ in 0..1 + r.below(2) {
            b = gen::mutate(r, b);
        }
        let k = r.below(20);
        let mut aux = vec![which as u8];
        aux.extend(r.bytes(k));
        return Case { kind: 2, aux, bytes: b };
    }
    let mut aux = vec![which as u8];
    let mut bytes = vec![];
    for _ in 0..*r.pick(&[1, 1, 2, 3, 6]) {
        let b = (it.gen)(r);
        aux.p32(b.len() as u32);
        bytes.extend(b);
    }
    // what follows may look like more of the same
    match r.below(4) {
        0 => {}
        1 => {
            let mut b = (it.gen)(r);
            b.truncate(r.below(b.len().max(1)));
            bytes.extend(b);
        }
        2 => bytes.extend((ITEMS[r.below(ITEMS.len())].gen)(r)),
        _ => {
            let k = 1 + r.below(40);
            bytes.extend(r.bytes(k));
        }
    }
    Case { kind: 0, aux, bytes }
}
fn run(it: &Item, b: &[u8]) -> Res<Got> {
    guard(|| (it.parse)(b)).map_err(|p| Bad(format!("parser of `{}`: {p}", it.name)))
}
pub fn c25_check(c: &Case, ctx: &mut Ctx) -> Res<()> {
    let b = &c.bytes;
    if c.kind == 1 {
        return file(b, ctx);
    }
    let it = &ITEMS[c.aux[0] as usize % ITEMS.len()];
    let at = |o: usize| b.as_ptr() as usize + o;
    if c.kind == 2 {
        let got = guard(|| (it.parse)(b)).map_err(|_| Out::Skip("panicked (C01)"))?;
        let Ok((p, n, v)) = got else {
            ctx.add("damaged items refused", 1);
            return Ok(());
        };
        if n > b.len() || (n > 0 && p + n != at(b.len())) {
            return Err(Bad(format!("parser of `{}`: the rest ({n} bytes) is not the end of the input", it.name)));
        }
        // the same item in front of something else
        let mut x = b[..b.len() - n].to_vec();
        let used = x.len();
        x.extend_from_slice(&c.aux[1..]);
        match run(it, &x)? {
            Ok((_, m, w)) if w == v && m == x.len() - used => {}
            Ok((_, m, w)) => return Err(Bad(format!("parser of `{}`: {used} bytes read as {v} are read as {w} ({m} bytes left) when other bytes follow", it.name))),
            Err(()) => return Err(Bad(format!("parser of `{}`: {used} bytes are an item or not, depending on what follows", it.name))),
        }
        ctx.add("damaged items accepted and repeated", 1);
        ctx.outcomes.insert(mix(c.aux[0] as u64, hash_bytes(v.as_bytes())));
        ctx.nontriv(|| format!("{} in {used} of {} bytes", it.name, b.len()));
        return Ok(());
    }
    let mut o = 0;
    for (i, l) in c.aux[1..].chunks(4).enumerate() {
        let len = le(l) as usize;
        let me = &b[o..o + len];
        let Ok((_, left, alone)) = run(it, me)? else {
            return Err(Bad(format!("parser of `{}` refuses a well-formed item of {len} bytes", it.name)));
        };
        if left != 0 {
            return Err(Bad(format!("parser of `{}` leaves {left} of {len} bytes of an item", it.name)));
        }
        if let Some(f) = it.value {
            if alone != f(me) {
                return Err(Bad(format!("parser of `{}` reads {alone}, stored is {}", it.name, f(me))));
            }
        }
        match run(it, &b[o..])? {
            Err(()) => return Err(Bad(format!("parser of `{}` refuses item {i} when {} bytes follow it", it.name, b.len() - o - len))),
            Ok((p, n, v)) => {
                if n != b.len() - o - len || (n > 0 && p != at(o + len)) {
                    return Err(Bad(format!("parser of `{}`: item {i} has {len} bytes, {} bytes are left instead of {}", it.name, n, b.len() - o - len)));
                }
                if v != alone {
                    return Err(Bad(format!("parser of `{}` reads {alone} alone but {v} when {n} bytes follow", it.name)));
                }
            }
        }
        // nothing shorter is a whole item
        let step = 1 + len / 100;
        for k in (0..len).step_by(step).chain([len - 1]) {
            if let Ok((_, _, v)) = run(it, &me[..k])? {
                return Err(Bad(format!("parser of `{}` reads {v} from the first {k} of an item's {len} bytes", it.name)));
            }
        }
        ctx.add(&format!("items read: {}", it.name), 1);
        ctx.outcomes.insert(mix(c.aux[0] as u64, hash_bytes(alone.as_bytes())));
        o += len;
    }
    ctx.nontriv(|| format!("{} items `{}` in {} bytes", c.aux.len() / 4, it.name, b.len()));
    Ok(())
}
/// Every item of a file, read alone, is what the whole file's parser reports.
fn file(b: &[u8], ctx: &mut Ctx) -> Res<()> {
    if refdec::raw(b).is_err() {
        panic!("harness: file is not well formed");
    }
    let raw = guard(|| parse_raw_file(b)).map_err(Bad)?.map_err(|e| Bad(format!("raw parser refuses a well-formed file: {e}")))?;
    let w = gen::walk(b);
    let find = |n: &str| ITEMS.iter().find(|i| i.name == n);
    let one = |n: &str, o: usize, len: usize, exp: String| -> Res<()> {
        let Some(it) = find(n) else { return Ok(()) };
        match run(it, &b[o..])? {
            Err(()) => Err(Bad(format!("parser of `{n}` refuses what the file's parser accepts (offset {o})"))),
            Ok((p, left, v)) => {
                if left != b.len() - o - len || (left > 0 && p != b.as_ptr() as usize + o + len) {
                    return Err(Bad(format!("parser of `{n}` at offset {o} leaves {left} bytes instead of {}", b.len() - o - len)));
                }
                if v != exp {
                    return Err(Bad(format!("parser of `{n}` at offset {o} reads {v}, the file's parser {exp}")));
                }
                Ok(())
            }
        }
    };
    one("header", 0, 128, format!("{:?}", raw.header))?;
    if w.frames.len() != raw.frames.len() {
        return Err(Bad(format!("{} frames reported, {} stored", raw.frames.len(), w.frames.len())));
    }
    #[cfg(feature = "parsers")]
    {
        let all = |b: &[u8]| guard(|| bin::raw_frame::parse_frames(b).map(|(i, f)| (i.len(), format!("{f:?}"))).map_err(|_| ())).map_err(Bad);
        let exp = (0, format!("{:?}", raw.frames));
        if all(&b[128..])? != Ok(exp) {
            return Err(Bad("parser of all frames differs from the file's parser".to_string()));
        }
        if all(&b[128..b.len() - 1])?.is_ok() || all(&[&b[128..], &[7]].concat())?.is_ok() {
            return Err(Bad("parser of all frames accepts frames with a byte more or less".to_string()));
        }
        ctx.add("frame lists read alone", 1);
    }
    for ((o, size), f) in w.frames.iter().zip(&raw.frames) {
        one("frame", *o, *size, format!("{f:?}"))?;
        let mine = w.chunks.iter().filter(|c| c.0 > *o && c.0 < o + size);
        for ((co, cs, ty), c) in mine.zip(&f.chunks) {
            let exp = format!("{c:?}");
            one("chunk", *co, *cs, exp.clone())?;
            ctx.add("chunks of files read alone", 1);
            // the same contents with the parser for this kind
            let t = if *ty == 0x11 { 4 } else { *ty };
            if let Some(it) = ITEMS.iter().chain(GREEDY).find(|i| i.ty != 0 && i.ty == t) {
                match run(it, &b[co + 6..co + cs])? {
                    Ok((_, _, v)) if exp.contains(&v) => {}
                    Ok((_, _, v)) => return Err(Bad(format!("parser of `{}` reads {v}, the file's parser {exp}", it.name))),
                    Err(()) => return Err(Bad(format!("parser of `{}` refuses what the file's parser accepts", it.name))),
                }
                ctx.add("chunk contents read alone", 1);
            }
        }
        ctx.outcomes.insert(hash_bytes(&b[*o..o + size]));
    }
    ctx.nontriv(|| describe(b));
    Ok(())
}
