//! Reference image decoding, frame composition and layer selection.
use crate::refblend::{blend, blend_all, mul8, Px};
use crate::refdec::Image;
use crate::reffile::SpriteRef;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ImgErr {
    /// not a complete zlib stream of the right length / wrong raw length
    Data,
    Depth,
}

/// Stored pixels as RGBA. `background` only matters for indexed sprites.
pub fn decode(s: &SpriteRef, im: &Image, background: bool) -> Result<Vec<Px>, ImgErr> {
    let n = im.w as usize * im.h as usize;
    let bpp = match s.depth {
        32 => 4,
        16 => 2,
        8 => 1,
        _ => return Err(ImgErr::Depth),
    };
    let own;
    let px: &[u8] = if im.zip {
        own = crate::inflate::zlib(&im.data.data, n * bpp).map_err(|_| ImgErr::Data)?;
        &own
    } else {
        &im.data.data
    };
    if px.len() != n * bpp {
        return Err(ImgErr::Data);
    }
    Ok(match bpp {
        4 => px.chunks(4).map(|p| [p[0], p[1], p[2], p[3]]).collect(),
        2 => px.chunks(2).map(|p| [p[0], p[0], p[0], p[1]]).collect(),
        _ => {
            let pal = if background { s.full_palette.as_ref() } else { s.palette.as_ref() };
            let pal = pal.expect("indexed sprites have a palette");
            px.iter().map(|p| pal[*p as usize]).collect()
        }
    })
}

/// Is this an image the recorded finding is about?
pub fn finding(s: &SpriteRef, im: &Image, background: bool) -> bool {
    background && s.depth == 8 && decode(s, im, true) != decode(s, im, false)
}

#[derive(Clone, Debug)]
pub enum Sel {
    Visible,
    All,
    Mask(Vec<bool>),
}

pub fn shown(s: &SpriteRef, layer: usize, sel: &Sel) -> bool {
    let l = &s.layers[layer];
    l.ty != 1
        && match sel {
            Sel::Visible => l.shown,
            Sel::All => true,
            Sel::Mask(m) => m.get(layer).copied().unwrap_or(false),
        }
}

/// One step of a composition at a pixel.
struct Step {
    mode: u16,
    op: u8,
    src: Vec<Px>,
    w: i32,
    h: i32,
    x: i32,
    y: i32,
}

pub enum Expect {
    Pixels(Vec<Px>, Composer),
    /// an error is required
    Error,
    /// an error is allowed but success with these pixels too
    Either(Vec<Px>, Composer),
}

pub struct Composer {
    steps: Vec<Step>,
    w: i32,
    pub shown_cels: usize,
    /// the recorded finding (transparent index on a background layer) shows
    pub finding: bool,
    pub overlap: usize,
}

impl Composer {
    fn src(&self, st: &Step, x: i32, y: i32) -> Option<Px> {
        let (cx, cy) = (x - st.x, y - st.y);
        if cx < 0 || cy < 0 || cx >= st.w || cy >= st.h {
            return None;
        }
        Some(st.src[(cy * st.w + cx) as usize])
    }
    /// Is `got` a possible value at pixel index `i` starting from `from`?
    pub fn allowed(&self, i: usize, from: Px, got: Px) -> bool {
        let (x, y) = (i as i32 % self.w, i as i32 / self.w);
        let mut set = vec![from];
        for st in &self.steps {
            let Some(s) = self.src(st, x, y) else { continue };
            let mut n: Vec<Px> = set.iter().flat_map(|b| blend_all(st.mode, *b, s, st.op)).collect();
            n.sort();
            n.dedup();
            n.truncate(512);
            set = n;
        }
        set.contains(&got)
    }
}

/// Expected content after rendering onto `back`.
pub fn render(s: &SpriteRef, frame: usize, sel: &Sel, back: &[Px]) -> Expect {
    let mut cels: Vec<&crate::reffile::SCel> = s.frames[frame].1.iter().filter(|c| shown(s, c.layer, sel)).collect();
    // bottom to top: file layer index + z-index, ties by z-index
    let key = |c: &crate::reffile::SCel| (s.layers[c.layer].file_index as i32 + c.z as i32, c.z as i32);
    cels.sort_by_key(|c| key(c));
    let (w, h) = (s.w as i32, s.h as i32);
    let mut comp = Composer { steps: vec![], w, shown_cels: cels.len(), finding: false, overlap: 0 };
    let mut out = back.to_vec();
    let mut must = false;
    let mut may = false;
    for c in cels {
        let l = &s.layers[c.layer];
        let op = mul8(l.opacity, c.opacity);
        let (x, y) = (c.x as i32, c.y as i32);
        let (cw, ch) = (c.image.w as i32, c.image.h as i32);
        let touches = x < w && y < h && x + cw > 0 && y + ch > 0 && cw > 0 && ch > 0 && w > 0 && h > 0;
        let bad_mode = l.blend > 18;
        let img = decode(s, &c.image, l.background);
        if img.is_err() || bad_mode {
            if touches && op != 0 {
                must = true;
            } else {
                may = true;
            }
            continue;
        }
        let Ok(src) = img else { continue };
        comp.finding |= finding(s, &c.image, l.background);
        if touches {
            comp.overlap += 1;
            for yy in y.max(0)..(y + ch).min(h) {
                for xx in x.max(0)..(x + cw).min(w) {
                    let i = (yy * w + xx) as usize;
                    out[i] = blend(l.blend, out[i], src[((yy - y) * cw + xx - x) as usize], op);
                }
            }
        }
        comp.steps.push(Step { mode: l.blend, op, src, w: cw, h: ch, x, y });
    }
    if must {
        Expect::Error
    } else if may {
        Expect::Either(out, comp)
    } else {
        Expect::Pixels(out, comp)
    }
}
