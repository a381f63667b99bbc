//! Observers: turn what the code under test returns into value trees.
use crate::refdec::type_name;
use crate::val::{b, n, Span, V};
use aseprite_loader::binary::blend_mode::BlendMode;
use aseprite_loader::binary::chunk::Chunk;
use aseprite_loader::binary::chunks::cel::{CelChunk, CelContent};
use aseprite_loader::binary::chunks::cel_extra::CelExtraFlags;
use aseprite_loader::binary::chunks::color_profile::ColorProfile;
use aseprite_loader::binary::chunks::external_files::ExternalFileType;
use aseprite_loader::binary::chunks::layer::{LayerChunk, LayerFlags, LayerType};
use aseprite_loader::binary::chunks::old_palette::OldPaletteChunk;
use aseprite_loader::binary::chunks::slice::{SliceChunk, SliceFlags};
use aseprite_loader::binary::chunks::tags::{AnimationDirection, Tag};
use aseprite_loader::binary::chunks::tileset::TilesetFlags;
use aseprite_loader::binary::chunks::user_data::{PropertiesMap, UserDataChunk, Value, Vector};
use aseprite_loader::binary::color_depth::ColorDepth;
use aseprite_loader::binary::errors::ParseError;
use aseprite_loader::binary::file::File;
use aseprite_loader::binary::header::Header;
use aseprite_loader::binary::palette::{Palette, PaletteError};
use aseprite_loader::binary::raw_file::RawFile;
use aseprite_loader::binary::scalars::{Color, Fixed};
use aseprite_loader::loader::AsepriteFile;

#[derive(Clone, Copy)]
pub struct Obs {
    base: usize,
    len: usize,
}

impl Obs {
    pub fn new(input: &[u8]) -> Obs {
        Obs { base: input.as_ptr() as usize, len: input.len() }
    }
    fn s(&self, d: &[u8]) -> V {
        let p = d.as_ptr() as usize;
        let off = if p >= self.base && p + d.len() <= self.base + self.len { Some(p - self.base) } else { None };
        V::S(Span { off, data: d.to_vec() })
    }

    pub fn header(&self, h: &Header) -> V {
        #[allow(deprecated)]
        let speed = h.speed;
        V::M(vec![
            ("file_size", n(h.file_size)),
            ("frames", n(h.frames)),
            ("width", n(h.width)),
            ("height", n(h.height)),
            (
                "color_depth",
                match h.color_depth {
                    ColorDepth::Rgba => V::T("Rgba"),
                    ColorDepth::Grayscale => V::T("Grayscale"),
                    ColorDepth::Indexed => V::T("Indexed"),
                    ColorDepth::Unknown(x) => V::U(x as i128),
                },
            ),
            ("bpp", n(h.color_depth.bpp())),
            ("pixel_size", h.color_depth.pixel_size().map_or(V::None, |x| n(x as i64))),
            ("flags", n(h.flags)),
            ("speed", n(speed)),
            ("transparent_index", n(h.transparent_index)),
            ("color_count", n(h.color_count)),
            ("pixel_width", n(h.pixel_width)),
            ("pixel_height", n(h.pixel_height)),
            ("grid_x", n(h.grid_x)),
            ("grid_y", n(h.grid_y)),
            ("grid_width", n(h.grid_width)),
            ("grid_height", n(h.grid_height)),
        ])
    }

    fn map(&self, m: &PropertiesMap<'_>, nested: bool) -> V {
        V::M(vec![
            ("extension", if nested { V::Any } else { n(m.extension_entry_id) }),
            (
                "properties",
                V::L(m
                    .properties
                    .iter()
                    .map(|p| V::M(vec![("name", self.s(p.name.as_bytes())), ("value", self.value(&p.value))]))
                    .collect()),
            ),
        ])
    }
    fn value(&self, v: &Value<'_>) -> V {
        let (t, x) = match v {
            Value::Bool(x) => (1, b(*x)),
            Value::Int8(x) => (2, n(*x)),
            Value::Uint8(x) => (3, n(*x)),
            Value::Int16(x) => (4, n(*x)),
            Value::Uint16(x) => (5, n(*x)),
            Value::Int32(x) => (6, n(*x)),
            Value::Uint32(x) => (7, n(*x)),
            Value::Int64(x) => (8, n(*x)),
            Value::Uint64(x) => (9, n(*x)),
            Value::Fixed(x) => (10, fx(*x)),
            Value::Float(x) => (11, n(x.to_bits())),
            Value::Double(x) => (12, n(x.to_bits())),
            Value::String(x) => (13, self.s(x.as_bytes())),
            Value::Point(p) => (14, V::L(vec![n(p.x), n(p.y)])),
            Value::Size(p) => (15, V::L(vec![n(p.width), n(p.height)])),
            Value::Rect(p) => (16, rect(p)),
            Value::Vector(v) => (17, self.vector(v)),
            // the same shape as Vector(Mixed(..))
            Value::MixedVector(v) => {
                (17, V::M(vec![("elem", V::T("Mixed")), ("items", V::L(v.iter().map(|x| self.value(x)).collect()))]))
            }
            Value::PropertiesMap(m) => (18, self.map(m, true)),
            Value::Uuid(x) => (19, V::N(*x as i128)),
        };
        V::M(vec![("type", V::T(type_name(t))), ("v", x)])
    }
    fn vector(&self, v: &Vector<'_>) -> V {
        fn l<T>(v: &[T], f: impl Fn(&T) -> V) -> V {
            V::L(v.iter().map(f).collect())
        }
        let (t, x) = match v {
            Vector::Mixed(v) => (0, l(v, |x| self.value(x))),
            Vector::Bool(v) => (1, l(v, |x| b(*x))),
            Vector::Int8(v) => (2, l(v, |x| n(*x))),
            Vector::Uint8(v) => (3, l(v, |x| n(*x))),
            Vector::Int16(v) => (4, l(v, |x| n(*x))),
            Vector::Uint16(v) => (5, l(v, |x| n(*x))),
            Vector::Int32(v) => (6, l(v, |x| n(*x))),
            Vector::Uint32(v) => (7, l(v, |x| n(*x))),
            Vector::Int64(v) => (8, l(v, |x| n(*x))),
            Vector::Uint64(v) => (9, l(v, |x| n(*x))),
            Vector::Fixed(v) => (10, l(v, |x| fx(*x))),
            Vector::Float(v) => (11, l(v, |x| n(x.to_bits()))),
            Vector::Double(v) => (12, l(v, |x| n(x.to_bits()))),
            Vector::String(v) => (13, l(v, |x| self.s(x.as_bytes()))),
            Vector::Point(v) => (14, l(v, |p| V::L(vec![n(p.x), n(p.y)]))),
            Vector::Size(v) => (15, l(v, |p| V::L(vec![n(p.width), n(p.height)]))),
            Vector::Rect(v) => (16, l(v, rect)),
            Vector::Vector(v) => (17, l(v, |x| self.vector(x))),
            Vector::PropertiesMap(v) => (18, l(v, |x| self.map(x, true))),
            Vector::Uuid(v) => (19, l(v, |x| V::N(*x as i128))),
        };
        V::M(vec![("elem", V::T(if t == 0 { "Mixed" } else { type_name(t) })), ("items", x)])
    }
    pub fn user(&self, u: &UserDataChunk<'_>) -> V {
        V::M(vec![
            ("text", u.text.map_or(V::None, |t| self.s(t.as_bytes()))),
            ("color", u.color.as_ref().map_or(V::None, color)),
            (
                "properties",
                match &u.properties_maps {
                    None => V::None,
                    Some(Err(_)) => V::Bad,
                    Some(Ok((_, m))) => V::L(m.iter().map(|m| self.map(m, false)).collect()),
                },
            ),
        ])
    }
    fn ou(&self, u: &Option<UserDataChunk<'_>>) -> V {
        u.as_ref().map_or(V::None, |u| self.user(u))
    }

    pub fn layer(&self, l: &LayerChunk<'_>) -> V {
        let f = |x: LayerFlags| b(l.flags.contains(x));
        V::M(vec![
            ("flags", n(l.flags.bits() & 0x7f)),
            (
                "flag_names",
                V::M(vec![
                    ("visible", f(LayerFlags::VISIBLE)),
                    ("editable", f(LayerFlags::EDITABLE)),
                    ("lock_movement", f(LayerFlags::LOCK_MOVEMENT)),
                    ("background", f(LayerFlags::BACKGROUND)),
                    ("prefer_linked_cels", f(LayerFlags::PREFER_LINKED_CELS)),
                    ("collapsed", f(LayerFlags::COLLAPSED)),
                    ("reference", f(LayerFlags::REFERENCE)),
                ]),
            ),
            ("layer_type", ltype(l.layer_type)),
            ("child_level", n(l.child_level)),
            ("blend_mode", bmode(l.blend_mode)),
            ("opacity", n(l.opacity)),
            ("name", self.s(l.name.as_bytes())),
            ("tileset_index", l.tileset_index.map_or(V::None, n)),
            ("user_data", self.ou(&l.user_data)),
        ])
    }
    pub fn cel(&self, c: &CelChunk<'_>) -> V {
        let content = match &c.content {
            CelContent::Image(im) => V::M(vec![
                ("kind", V::T("Image")),
                ("width", n(im.width)),
                ("height", n(im.height)),
                ("compressed", b(im.compressed)),
                ("data", self.s(im.data)),
            ]),
            CelContent::LinkedCel { frame_position } => V::M(vec![("kind", V::T("Link")), ("frame", n(*frame_position))]),
            CelContent::CompressedTilemap {
                width,
                height,
                bits_per_tile,
                bitmask_tile_id,
                bitmask_x_flip,
                bitmask_y_flip,
                bitmask_diagonal_flip,
                data,
                ..
            } => V::M(vec![
                ("kind", V::T("Tilemap")),
                ("width", n(*width)),
                ("height", n(*height)),
                ("bits_per_tile", n(*bits_per_tile)),
                ("mask_tile_id", n(*bitmask_tile_id)),
                ("mask_x_flip", n(*bitmask_x_flip)),
                ("mask_y_flip", n(*bitmask_y_flip)),
                ("mask_diagonal_flip", n(*bitmask_diagonal_flip)),
                ("data", self.s(data)),
            ]),
            CelContent::Unknown { cel_type, data } => V::M(vec![("kind", V::U(*cel_type as i128)), ("data", self.s(data))]),
        };
        V::M(vec![
            ("layer_index", n(c.layer_index)),
            ("x", n(c.x)),
            ("y", n(c.y)),
            ("opacity", n(c.opacity)),
            ("z_index", n(c.z_index)),
            ("content", content),
            ("user_data", self.ou(&c.user_data)),
        ])
    }
    pub fn tag(&self, t: &Tag<'_>) -> V {
        #[allow(deprecated)]
        let col = t.color;
        V::M(vec![
            ("from", n(*t.frames.start())),
            ("to", n(*t.frames.end())),
            ("direction", dir(t.animation_direction)),
            ("repeat", n(t.animation_repeat)),
            ("color", V::L(col.iter().map(|x| n(*x)).collect())),
            ("name", self.s(t.name.as_bytes())),
            ("user_data", self.ou(&t.user_data)),
        ])
    }
    pub fn slice(&self, s: &SliceChunk<'_>) -> V {
        V::M(vec![
            ("name", self.s(s.name.as_bytes())),
            ("nine_patch_flag", b(s.flags.contains(SliceFlags::NINE_PATCH))),
            ("pivot_flag", b(s.flags.contains(SliceFlags::PIVOT))),
            (
                "keys",
                V::L(s
                    .slice_keys
                    .iter()
                    .map(|k| {
                        V::M(vec![
                            ("frame", n(k.frame_number)),
                            ("x", n(k.x)),
                            ("y", n(k.y)),
                            ("width", n(k.width)),
                            ("height", n(k.height)),
                            (
                                "nine_patch",
                                k.nine_patch.map_or(V::None, |p| V::L(vec![n(p.x), n(p.y), n(p.width), n(p.height)])),
                            ),
                            ("pivot", k.pivot.map_or(V::None, |p| V::L(vec![n(p.x), n(p.y)]))),
                        ])
                    })
                    .collect()),
            ),
            ("user_data", self.ou(&s.user_data)),
        ])
    }
    fn old(&self, kind: &'static str, p: &OldPaletteChunk) -> V {
        V::M(vec![
            ("kind", V::T(kind)),
            (
                "packets",
                V::L(p
                    .packets
                    .iter()
                    .map(|p| {
                        V::M(vec![
                            ("skip", n(p.entries_to_skip)),
                            ("colors", V::L(p.colors.iter().map(|c| V::L(vec![n(c.red), n(c.green), n(c.blue)])).collect())),
                        ])
                    })
                    .collect()),
            ),
        ])
    }
    pub fn chunk(&self, c: &Chunk<'_>) -> V {
        let kv = |k: &'static str, v: V| V::M(vec![("kind", V::T(k)), ("v", v)]);
        match c {
            Chunk::Palette0004(p) => self.old("Palette0004", p),
            Chunk::Palette0011(p) => self.old("Palette0011", p),
            Chunk::Layer(l) => kv("Layer", self.layer(l)),
            Chunk::Cel(l) => kv("Cel", self.cel(l)),
            Chunk::CelExtra(x) => kv(
                "CelExtra",
                V::M(vec![
                    ("precise_bounds", b(x.flags.contains(CelExtraFlags::PRECISE_BOUNDS_ARE_SET))),
                    ("x", fx(x.precise_x_position)),
                    ("y", fx(x.precise_y_position)),
                    ("width", fx(x.width_of_the_cel)),
                    ("height", fx(x.height_of_the_cel)),
                    ("future", self.s(x.future)),
                ]),
            ),
            Chunk::ColorProfile(p) => V::M(vec![
                ("kind", V::T("ColorProfile")),
                ("gamma", p.fixed_gamma.map_or(V::None, fx)),
                (
                    "profile",
                    match &p.profile {
                        ColorProfile::NoColorProfile => V::T("None"),
                        ColorProfile::Srgb => V::T("Srgb"),
                        ColorProfile::EmbeddedICC(d) => V::M(vec![("icc", self.s(d))]),
                        ColorProfile::Unknown(x) => V::U(*x as i128),
                    },
                ),
            ]),
            Chunk::ExternalFiles(e) => V::M(vec![
                ("kind", V::T("ExternalFiles")),
                (
                    "files",
                    V::L(e
                        .files
                        .iter()
                        .map(|f| {
                            V::M(vec![
                                ("id", n(f.entry_id)),
                                (
                                    "type",
                                    match f.file_type {
                                        ExternalFileType::ExternalPalette => V::T("Palette"),
                                        ExternalFileType::ExternalTileset => V::T("Tileset"),
                                        ExternalFileType::ExtensionNameForProperties => V::T("ExtensionProperties"),
                                        ExternalFileType::Unknown(x) => V::U(x as i128),
                                    },
                                ),
                                ("name", self.s(f.file_name.as_bytes())),
                            ])
                        })
                        .collect()),
                ),
            ]),
            Chunk::Mask(m) => V::M(vec![
                ("kind", V::T("Mask")),
                ("x", n(m.x)),
                ("y", n(m.y)),
                ("width", n(m.width)),
                ("height", n(m.height)),
                ("name", self.s(m.name.as_bytes())),
                ("data", self.s(m.data)),
            ]),
            Chunk::Path => V::M(vec![("kind", V::T("Path"))]),
            Chunk::Tags(t) => kv("Tags", V::L(t.tags.iter().map(|t| self.tag(t)).collect())),
            Chunk::Palette(p) => kv(
                "Palette",
                V::M(vec![
                    ("first", n(*p.indices.start())),
                    ("last", n(*p.indices.end())),
                    (
                        "entries",
                        V::L(p
                            .entries
                            .iter()
                            .map(|e| {
                                V::M(vec![("color", color(&e.color)), ("name", e.name.map_or(V::None, |x| self.s(x.as_bytes())))])
                            })
                            .collect()),
                    ),
                ]),
            ),
            Chunk::UserData(u) => kv("UserData", self.user(u)),
            Chunk::Slice(s) => kv("Slice", self.slice(s)),
            Chunk::Tileset(t) => V::M(vec![
                ("kind", V::T("Tileset")),
                ("id", n(t.id)),
                ("flags", n(t.flags.bits() & 0x3f)),
                (
                    "flag_names",
                    V::L([
                        TilesetFlags::EXTERNAL_FILE,
                        TilesetFlags::TILES,
                        TilesetFlags::TILE_0_EMPTY,
                        TilesetFlags::XFLIP,
                        TilesetFlags::YFLIP,
                        TilesetFlags::DFLIP,
                    ]
                    .into_iter()
                    .map(|f| b(t.flags.contains(f)))
                    .collect()),
                ),
                ("tiles_count", n(t.number_of_tiles)),
                ("width", n(t.width)),
                ("height", n(t.height)),
                ("base_index", n(t.base_index)),
                ("name", self.s(t.name.as_bytes())),
                ("external", t.external_file.map_or(V::None, |e| V::L(vec![n(e.external_file_id), n(e.tileset_id)]))),
                ("tiles", t.tiles.as_ref().map_or(V::None, |t| self.s(t.data))),
            ]),
            Chunk::Unsupported(t) => V::M(vec![("kind", V::T("Unsupported")), ("code", n(*t))]),
        }
    }
    pub fn raw(&self, r: &RawFile<'_>) -> V {
        V::M(vec![
            ("header", self.header(&r.header)),
            (
                "frames",
                V::L(r
                    .frames
                    .iter()
                    .map(|f| {
                        V::M(vec![
                            ("duration", n(f.duration)),
                            ("chunks", V::L(f.chunks.iter().map(|c| self.chunk(c)).collect())),
                        ])
                    })
                    .collect()),
            ),
        ])
    }
    pub fn file(&self, f: &File<'_>) -> V {
        V::M(vec![
            ("header", self.header(&f.header)),
            ("palette", palette(&f.palette)),
            ("layers", V::L(f.layers.iter().map(|l| self.layer(l)).collect())),
            (
                "frames",
                V::L(f
                    .frames
                    .iter()
                    .map(|f| {
                        V::M(vec![
                            ("duration", n(f.duration)),
                            ("cels", V::L(f.cels.iter().map(|c| c.as_ref().map_or(V::None, |c| self.cel(c))).collect())),
                        ])
                    })
                    .collect()),
            ),
            ("tags", V::L(f.tags.iter().map(|t| self.tag(t)).collect())),
            ("slices", V::L(f.slices.iter().map(|t| self.slice(t)).collect())),
            ("user_data", self.ou(&f.user_data)),
        ])
    }
    pub fn image(&self, im: &aseprite_loader::binary::image::Image<'_>) -> V {
        V::M(vec![("width", n(im.width)), ("height", n(im.height)), ("compressed", b(im.compressed)), ("data", self.s(im.data))])
    }
    /// Cels are listed by layer; an index out of range shows as an error.
    pub fn sprite(&self, s: &AsepriteFile<'_>) -> V {
        let (w, h) = s.size();
        V::M(vec![
            ("size", V::L(vec![n(w), n(h)])),
            (
                "layers",
                V::L(s
                    .layers()
                    .iter()
                    .map(|l| {
                        V::M(vec![
                            ("name", V::S(Span { off: None, data: l.name.as_bytes().to_vec() })),
                            ("opacity", n(l.opacity)),
                            ("blend_mode", bmode(l.blend_mode)),
                            ("visible", b(l.visible)),
                            ("layer_type", ltype(l.layer_type)),
                        ])
                    })
                    .collect()),
            ),
            (
                "frames",
                V::L(s
                    .frames()
                    .iter()
                    .map(|f| {
                        let mut cels: Vec<_> = f.cels.iter().collect();
                        cels.sort_by_key(|c| c.layer_index);
                        V::M(vec![
                            ("duration", n(f.duration)),
                            (
                                "cels",
                                V::L(cels
                                    .iter()
                                    .map(|c| {
                                        V::M(vec![
                                            ("layer", n(c.layer_index as i64)),
                                            ("x", n(c.origin.0)),
                                            ("y", n(c.origin.1)),
                                            ("width", n(c.size.0)),
                                            ("height", n(c.size.1)),
                                            ("opacity", n(c.opacity)),
                                            ("image", s.images.get(c.image_index).map_or(V::Bad, |i| self.image(i))),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect()),
            ),
            (
                "tags",
                V::L(s
                    .tags()
                    .iter()
                    .map(|t| {
                        V::M(vec![
                            ("name", V::S(Span { off: None, data: t.name.as_bytes().to_vec() })),
                            ("from", n(*t.range.start())),
                            ("to", n(*t.range.end())),
                            ("direction", dir(t.direction)),
                            ("repeat", t.repeat.map_or(V::None, n)),
                        ])
                    })
                    .collect()),
            ),
            ("slices", n(s.slices().len() as i64)),
        ])
    }
}

fn fx(f: Fixed) -> V {
    V::L(vec![n(f.0), n(f.1)])
}
fn color(c: &Color) -> V {
    V::L(vec![n(c.red), n(c.green), n(c.blue), n(c.alpha)])
}
fn rect(r: &aseprite_loader::binary::scalars::Rect) -> V {
    V::L(vec![n(r.point.x), n(r.point.y), n(r.size.width), n(r.size.height)])
}
pub fn palette(p: &Option<Palette>) -> V {
    p.as_ref().map_or(V::None, |p| V::L(p.colors.iter().map(color).collect()))
}
pub fn bmode(m: BlendMode) -> V {
    use BlendMode::*;
    V::T(match m {
        Normal => "Normal",
        Multiply => "Multiply",
        Screen => "Screen",
        Overlay => "Overlay",
        Darken => "Darken",
        Lighten => "Lighten",
        ColorDodge => "ColorDodge",
        ColorBurn => "ColorBurn",
        HardLight => "HardLight",
        SoftLight => "SoftLight",
        Difference => "Difference",
        Exclusion => "Exclusion",
        Hue => "Hue",
        Saturation => "Saturation",
        Color => "Color",
        Luminosity => "Luminosity",
        Addition => "Addition",
        Subtract => "Subtract",
        Divide => "Divide",
        Unknown(x) => return V::U(x as i128),
    })
}
pub fn ltype(t: LayerType) -> V {
    match t {
        LayerType::Normal => V::T("Normal"),
        LayerType::Group => V::T("Group"),
        LayerType::Tilemap => V::T("Tilemap"),
        LayerType::Unknown(x) => V::U(x as i128),
    }
}
fn dir(d: AnimationDirection) -> V {
    match d {
        AnimationDirection::Forward => V::T("Forward"),
        AnimationDirection::Reverse => V::T("Reverse"),
        AnimationDirection::PingPong => V::T("PingPong"),
        AnimationDirection::PingPongReverse => V::T("PingPongReverse"),
        AnimationDirection::Unknown(x) => V::U(x as i128),
    }
}

/// Error class of a refused parse.
pub fn error_class(e: &nom::Err<ParseError<'_>>) -> String {
    match e {
        nom::Err::Error(p) | nom::Err::Failure(p) => class(p),
        nom::Err::Incomplete(_) => "Incomplete".into(),
    }
}
fn class(p: &ParseError<'_>) -> String {
    match p {
        ParseError::DwordToUsize(_) => "DwordToUsize".into(),
        ParseError::InvalidFrameSize(x) => format!("InvalidFrameSize({x})"),
        ParseError::InvalidChunkSize(x) => format!("InvalidChunkSize({x})"),
        ParseError::Utf8Error(_) => "Utf8Error".into(),
        ParseError::PaletteError(e) => format!(
            "PaletteError::{}",
            match e {
                PaletteError::Missing => "Missing",
                PaletteError::Empty => "Empty",
                PaletteError::FirstColorIndexOutOfBounds => "FirstColorIndexOutOfBounds",
                PaletteError::LastColorIndexOutOfBounds => "LastColorIndexOutOfBounds",
                PaletteError::FirstColorIndexGreaterThanLastColorIndex => "FirstColorIndexGreaterThanLastColorIndex",
                PaletteError::IndexOutOfBounds => "IndexOutOfBounds",
            }
        ),
        ParseError::InvalidFrameRange(a, b) => format!("InvalidFrameRange({a},{b})"),
        ParseError::LayerIndexOutOfBounds => "LayerIndexOutOfBounds".into(),
        ParseError::InvalidPropertyType(x) => format!("InvalidPropertyType({x})"),
        ParseError::Nom(_) => "Nom".into(),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}
