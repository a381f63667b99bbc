//! Pieces shared by the property checks.
use crate::doc::*;
use crate::monitor::guard;
use crate::observe::Obs;
use crate::refblend::Px;
use crate::refdec::Fault;
use crate::reffile::{self, Full, SpriteRef};
use crate::refrender::{self, Expect, Sel};
use crate::rng::{hash_bytes, mix, Rng};
use crate::val::{self, diff, Cmp, V};
use aseprite_loader::binary::file::parse_file;
use aseprite_loader::binary::raw_file::parse_raw_file;
use aseprite_loader::loader::{AsepriteFile, LayerSelection, LoadImageError};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
pub struct Case {
    pub kind: u8,
    pub aux: Vec<u8>,
    pub bytes: Vec<u8>,
}
pub enum Out {
    Ok,
    Violation(String),
    Skip(&'static str),
    Known(&'static str),
}
pub use Out::Violation as Bad;

pub type Res<T> = Result<T, Out>;

#[derive(Default)]
pub struct Ctx {
    pub stats: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    /// fingerprints of distinct observed outcomes
    pub outcomes: HashSet<u64>,
    pub nontrivial: bool,
    pub sample: String,
    pub samples: Vec<String>,
    pub digest: u64,
    pub maxima: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn add(&mut self, k: &str, n: u64) {
        match self.stats.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.stats.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn fold(&mut self, x: u64) {
        self.digest = mix(self.digest, x);
    }
    pub fn nontriv(&mut self, s: impl FnOnce() -> String) {
        self.nontrivial = true;
        if self.sample.is_empty() {
            self.sample = s();
        }
    }
}

pub const FIXTURES: [(&str, &[u8]); 8] = [
    ("combine", include_bytes!("../fixtures/combine.aseprite")),
    ("default", include_bytes!("../fixtures/default.aseprite")),
    ("indexed", include_bytes!("../fixtures/indexed.aseprite")),
    ("issue_4_1", include_bytes!("../fixtures/issue_4_1.aseprite")),
    ("issue_4_2", include_bytes!("../fixtures/issue_4_2.aseprite")),
    ("layers", include_bytes!("../fixtures/layers.aseprite")),
    ("tags", include_bytes!("../fixtures/tags.aseprite")),
    ("user_data", include_bytes!("../fixtures/user_data.aseprite")),
];

/// What the code under test made of an input.
pub struct Seen {
    pub raw: V,
    pub file: V,
    pub sprite: V,
    pub images: Vec<V>,
}

pub fn see_raw(b: &[u8]) -> Res<Result<V, String>> {
    guard(|| match parse_raw_file(b) {
        Ok(r) => Ok(Obs::new(b).raw(&r)),
        Err(e) => Err(crate::observe::error_class(&e)),
    })
    .map_err(Bad)
}
pub fn see_file(b: &[u8]) -> Res<Result<V, String>> {
    guard(|| match parse_file(b) {
        Ok(r) => Ok(Obs::new(b).file(&r)),
        Err(e) => Err(crate::observe::error_class(&e)),
    })
    .map_err(Bad)
}
pub fn see_sprite(b: &[u8]) -> Res<Result<(V, Vec<V>), String>> {
    guard(|| match AsepriteFile::load(b) {
        Ok(r) => {
            let o = Obs::new(b);
            Ok((o.sprite(&r), r.images.iter().map(|i| o.image(i)).collect()))
        }
        Err(e) => Err(e.to_string()),
    })
    .map_err(Bad)
}

pub fn want_raw(b: &[u8]) -> Res<V> {
    see_raw(b)?.map_err(|e| Bad(format!("raw parser refuses a well-formed file: {e}")))
}
pub fn want_file(b: &[u8]) -> Res<V> {
    see_file(b)?.map_err(|e| Bad(format!("file parser refuses a well-formed file: {e}")))
}
pub fn want_sprite(b: &[u8]) -> Res<(V, Vec<V>)> {
    see_sprite(b)?.map_err(|e| Bad(format!("loader refuses a well-formed file: {e}")))
}
pub fn want_load(b: &[u8]) -> Res<AsepriteFile<'_>> {
    guard(|| AsepriteFile::load(b)).map_err(Bad)?.map_err(|e| Bad(format!("loader refuses a well-formed file: {e}")))
}
/// Reference views of a file the generator claims to be well formed.
pub fn reference(b: &[u8]) -> Full {
    match reffile::full(b) {
        Ok(f) => f,
        Err(e) => panic!("harness: generated file is not well formed: {e:?}"),
    }
}
pub fn ref_sprite(f: &Full) -> &SpriteRef {
    match &f.sprite {
        Ok(s) => s,
        Err(e) => panic!("harness: generated sprite is not well formed: {e:?}"),
    }
}

pub fn cmp(what: &str, exp: &V, got: &V, c: Cmp<'_>) -> Res<()> {
    match diff(exp, got, c) {
        None => Ok(()),
        Some(d) => Err(Bad(format!("{what}: {d}"))),
    }
}
pub fn cmp_key(what: &str, key: &'static str, exp: &V, got: &V, c: Cmp<'_>) -> Res<()> {
    match diff(exp.get(key), got.get(key), c) {
        None => Ok(()),
        Some(d) => Err(Bad(format!("{what}.{key}: {d}"))),
    }
}

// ------------------------------------------------------------- rendering

pub fn to_sel(s: &Sel) -> LayerSelection {
    match s {
        Sel::Visible => LayerSelection::Visible,
        Sel::All => LayerSelection::All,
        Sel::Mask(m) => LayerSelection::Mask(m.clone()),
    }
}
pub fn any_sel(r: &mut Rng, n: usize) -> Sel {
    match r.below(5) {
        0 | 1 => Sel::Visible,
        2 => Sel::All,
        3 => Sel::Mask((0..n).map(|_| r.chance(1, 2)).collect()),
        _ => {
            let k = *r.pick(&[0, 1, n.saturating_sub(1), n + 1, n + 5]);
            Sel::Mask((0..k).map(|_| r.chance(1, 2)).collect())
        }
    }
}
pub fn back_px(r: &mut Rng, n: usize) -> Vec<Px> {
    match r.below(4) {
        0 => vec![[0; 4]; n],
        1 => {
            let p = [r.b(), r.b(), r.b(), *r.pick(&[0, 255, 128])];
            vec![p; n]
        }
        _ => (0..n).map(|_| [r.b(), r.b(), r.b(), *r.pick(&[0u8, 255, 255, 1, 128, 200])]).collect(),
    }
}
pub fn flat(p: &[Px]) -> Vec<u8> {
    p.iter().flatten().copied().collect()
}

#[derive(Default, Debug)]
pub struct RenderSeen {
    pub cels: usize,
    pub overlap: usize,
    pub error: bool,
}

/// Render through the code under test and judge against the reference.
pub fn check_render(
    a: &AsepriteFile<'_>,
    s: &SpriteRef,
    frame: usize,
    sel: &Sel,
    back: &[Px],
    ctx: &mut Ctx,
) -> Res<RenderSeen> {
    let mut buf = flat(back);
    let lsel = to_sel(sel);
    let r = guard(|| a.render_frame(frame, &mut buf, &lsel)).map_err(Bad)?;
    ctx.add("renderings", 1);
    let what = || format!("render_frame({frame}, {sel:?})");
    let seen = |c: &refrender::Composer, e| RenderSeen { cels: c.shown_cels, overlap: c.overlap, error: e };
    match (refrender::render(s, frame, sel, back), r) {
        (Expect::Error, Err(_)) => Ok(RenderSeen { cels: 0, overlap: 0, error: true }),
        (Expect::Error, Ok(())) => Err(Bad(format!("{} succeeded although a shown cel cannot be decoded or blended", what()))),
        (Expect::Either(_, c), Err(_)) => Ok(seen(&c, true)),
        (Expect::Pixels(..), Err(e)) => Err(Bad(format!("{} failed: {e}", what()))),
        (Expect::Pixels(p, c), Ok(())) | (Expect::Either(p, c), Ok(())) => {
            ctx.add("pixels_compared", p.len() as u64);
            for (i, e) in p.iter().enumerate() {
                let g = [buf[i * 4], buf[i * 4 + 1], buf[i * 4 + 2], buf[i * 4 + 3]];
                if g != *e && !c.allowed(i, back[i], g) {
                    if c.finding {
                        return Err(Out::Skip("recorded finding (C12)"));
                    }
                    let w = s.w as usize;
                    return Err(Bad(format!(
                        "{}: pixel ({}, {}) over {:?} is {:?}, expected {:?}",
                        what(),
                        i % w,
                        i / w,
                        back[i],
                        g,
                        e
                    )));
                }
            }
            Ok(seen(&c, false))
        }
    }
}

/// Up to `k` of `n` places: the first ones, the last one and some between.
pub fn some(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    if n <= k {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..k - 2).map(|i| if i < k / 2 { i } else { r.below(n) }).collect();
    v.extend([n - 1, n / 2 + r.below(n - n / 2)]);
    v.sort_unstable();
    v.dedup();
    v
}
pub fn area(s: &SpriteRef) -> usize {
    s.w as usize * s.h as usize
}
/// skip inputs whose declared canvas or cels are too large to render here
pub fn too_big(a: &AsepriteFile<'_>) -> bool {
    let (w, h) = a.size();
    w as usize * h as usize > 1 << 21 || a.images.iter().any(|i| i.width as usize * i.height as usize > 1 << 21)
}

pub fn dec(a: &AsepriteFile<'_>, i: usize, buf: &mut [u8]) -> Res<Result<(), LoadImageError>> {
    guard(|| a.load_image(i, buf)).map_err(Bad)
}

pub fn digest_v(v: &V) -> u64 {
    let mut h = 0;
    v.digest(&mut h);
    h
}

/// Everything observable about an input, as one number (used to compare
/// runs, threads, processes and builds). Buffers after errors are left out.
pub fn digest_all(b: &[u8], ctx: &mut Ctx, renders: bool) -> u64 {
    let mut h = 1u64;
    let out = |x: Res<Result<V, String>>| match x {
        Ok(Ok(v)) => digest_v(&v),
        Ok(Err(_)) => 2,
        Err(_) => 3,
    };
    h = mix(h, out(see_raw(b)));
    h = mix(h, out(see_file(b)));
    match see_sprite(b) {
        Ok(Ok((v, im))) => {
            h = mix(h, digest_v(&v));
            h = mix(h, digest_v(&V::L(im)));
            ctx.add("loads", 1);
        }
        Ok(Err(_)) => return mix(h, 2),
        Err(_) => return mix(h, 3),
    }
    if !renders {
        return h;
    }
    let Ok(Ok(a)) = guard(|| AsepriteFile::load(b)) else { return mix(h, 4) };
    if too_big(&a) {
        return mix(h, 5);
    }
    let (w, hh) = a.size();
    let n = w as usize * hh as usize;
    let mut r = Rng::new(hash_bytes(b));
    for f in some(&mut r, a.frames().len(), 6) {
        for k in 0..2 {
            let sel = if k == 0 { LayerSelection::Visible } else { LayerSelection::All };
            let mut buf = flat(&back_px(&mut r, n));
            h = mix(
                h,
                match guard(|| a.render_frame(f, &mut buf, &sel)) {
                    Ok(Ok(())) => hash_bytes(&buf),
                    Ok(Err(_)) => 6,
                    Err(_) => 7,
                },
            );
            ctx.add("renderings", 1);
        }
        let mut buf = vec![0; n * 4];
        #[allow(deprecated)]
        let hash = guard(|| a.combined_frame_image(f, &mut buf));
        h = mix(
            h,
            match hash {
                Ok(Ok(x)) => mix(x, hash_bytes(&buf)),
                Ok(Err(_)) => 6,
                Err(_) => 7,
            },
        );
    }
    for i in some(&mut r, a.images.len(), 12) {
        let mut buf = vec![9; a.images[i].width as usize * a.images[i].height as usize * 4];
        h = mix(
            h,
            match guard(|| a.load_image(i, &mut buf)) {
                Ok(Ok(())) => hash_bytes(&buf),
                Ok(Err(_)) => 6,
                Err(_) => 7,
            },
        );
        ctx.add("decodes", 1);
    }
    h
}

pub fn describe(b: &[u8]) -> String {
    match reffile::full(b) {
        Ok(f) => format!(
            "{} bytes, {}x{} depth {}, {} frames, {} layers, {} cels, {} tags, {} slices, sprite {}",
            b.len(),
            f.raw.hdr.w,
            f.raw.hdr.h,
            f.raw.hdr.depth,
            f.raw.frames.len(),
            f.file.layers.len(),
            f.file.frames.iter().map(|x| x.1.iter().flatten().count()).sum::<usize>(),
            f.file.tags.len(),
            f.file.slices.len(),
            match &f.sprite {
                Ok(_) => "loads".to_string(),
                Err(e) => format!("refused ({e:?})"),
            }
        ),
        Err(e) => format!("{} bytes, refused ({e:?}), starts {:02x?}", b.len(), &b[..b.len().min(12)]),
    }
}

pub fn fault_class(f: &Fault) -> Option<String> {
    Some(match f {
        Fault::FrameSize(x) => format!("InvalidFrameSize({x})"),
        Fault::ChunkSize(x) => format!("InvalidChunkSize({x})"),
        Fault::Utf8 => "Utf8Error".into(),
        Fault::PalFirst => "PaletteError::FirstColorIndexOutOfBounds".into(),
        Fault::PalLast => "PaletteError::LastColorIndexOutOfBounds".into(),
        Fault::PalOrder => "PaletteError::FirstColorIndexGreaterThanLastColorIndex".into(),
        Fault::PalMissing => "PaletteError::Missing".into(),
        Fault::PalEmpty => "PaletteError::Empty".into(),
        Fault::PalIndex => "PaletteError::IndexOutOfBounds".into(),
        Fault::TagRange(a, b) => format!("InvalidFrameRange({a},{b})"),
        Fault::LayerIndex => "LayerIndexOutOfBounds".into(),
        _ => return None,
    })
}

/// Drop unknown chunks from a raw tree.
pub fn strip_unsupported(v: &V) -> V {
    let frames = v
        .get("frames")
        .list()
        .iter()
        .map(|f| {
            V::M(vec![
                ("duration", f.get("duration").clone()),
                (
                    "chunks",
                    V::L(f.get("chunks").list().iter().filter(|c| !matches!(c.get("kind"), V::T("Unsupported"))).cloned().collect()),
                ),
            ])
        })
        .collect();
    V::M(vec![("header", v.get("header").clone()), ("frames", V::L(frames))])
}

/// All user data slots of a file tree, in a fixed order.
pub fn users(f: &V) -> V {
    let mut l = vec![V::M(vec![("sprite", f.get("user_data").clone())])];
    let mut each = |k: &'static str, items: &[V]| {
        for x in items {
            if !matches!(x, V::None) {
                l.push(V::M(vec![(k, x.get("user_data").clone())]));
            }
        }
    };
    each("layer", f.get("layers").list());
    for fr in f.get("frames").list() {
        each("cel", fr.get("cels").list());
    }
    each("tag", f.get("tags").list());
    each("slice", f.get("slices").list());
    V::L(l)
}

pub fn put16(o: &mut Vec<u8>, x: u16) {
    o.p16(x)
}
pub const PLACE: Cmp<'static> = Cmp { skip: &[], content: true, place: true };
pub use val::CONTENT;
