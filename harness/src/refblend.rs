//! Reference blending: Aseprite's doc/blend_funcs formulas, re-derived here
//! over plain integers and doubles.
pub type Px = [u8; 4];

fn mul(a: i32, b: i32) -> i32 {
    let t = a * b + 0x80;
    ((t >> 8) + t) >> 8
}
pub fn mul8(a: u8, b: u8) -> u8 {
    mul(a as i32, b as i32) as u8
}
fn div(a: i32, b: i32) -> i32 {
    (a * 255 + b / 2) / b
}

pub fn normal(b: Px, s: Px, op: u8) -> Px {
    if b[3] == 0 {
        return [s[0], s[1], s[2], mul8(s[3], op)];
    }
    if s[3] == 0 {
        return b;
    }
    let sa = mul(s[3] as i32, op as i32);
    let ba = b[3] as i32;
    let ra = sa + ba - mul(ba, sa);
    let mut o = [0u8; 4];
    for i in 0..3 {
        let (bc, sc) = (b[i] as i32, s[i] as i32);
        o[i] = (bc + (sc - bc) * sa / ra) as u8;
    }
    o[3] = ra as u8;
    o
}

fn lerp(a: u8, b: u8, op: u8) -> u8 {
    (a as i32 + mul(b as i32 - a as i32, op as i32)) as u8
}

fn merge(b: Px, s: Px, op: u8) -> Px {
    let a = lerp(b[3], s[3], op);
    if a == 0 {
        return [0; 4];
    }
    let c = |i: usize| {
        if b[3] == 0 {
            s[i]
        } else if s[3] == 0 {
            b[i]
        } else {
            lerp(b[i], s[i], op)
        }
    };
    [c(0), c(1), c(2), a]
}

fn channel(mode: u16, b: i32, s: i32) -> i32 {
    let multiply = |b: i32, s: i32| mul(b, s);
    let screen = |b: i32, s: i32| b + s - mul(b, s);
    let hard = |b: i32, s: i32| if s < 128 { multiply(b, s * 2) } else { screen(b, s * 2 - 255) };
    match mode {
        1 => multiply(b, s),
        2 => screen(b, s),
        3 => hard(s, b),
        4 => b.min(s),
        5 => b.max(s),
        6 => {
            // dodge
            if b == 0 {
                0
            } else if b >= 255 - s {
                255
            } else {
                div(b, 255 - s)
            }
        }
        7 => {
            // burn
            if b == 255 {
                255
            } else if 255 - b >= s {
                0
            } else {
                255 - div(255 - b, s)
            }
        }
        8 => hard(b, s),
        10 => (b - s).abs(),
        11 => b + s - 2 * mul(b, s),
        16 => (b + s).min(255),
        17 => (b - s).max(0),
        18 => {
            if b == 0 {
                0
            } else if b >= s {
                255
            } else {
                div(b, s)
            }
        }
        _ => unreachable!(),
    }
}

fn soft(b: i32, s: i32) -> f64 {
    let (b, s) = (b as f64 / 255.0, s as f64 / 255.0);
    let d = if b <= 0.25 { ((16.0 * b - 12.0) * b + 4.0) * b } else { b.sqrt() };
    let r = if s <= 0.5 { b - (1.0 - 2.0 * s) * b * (1.0 - b) } else { b + (2.0 * s - 1.0) * (d - b) };
    r * 255.0 + 0.5
}

fn lum(c: [f64; 3]) -> f64 {
    0.3 * c[0] + 0.59 * c[1] + 0.11 * c[2]
}
fn max3(c: [f64; 3]) -> f64 {
    c[0].max(c[1].max(c[2]))
}
fn min3(c: [f64; 3]) -> f64 {
    c[0].min(c[1].min(c[2]))
}
fn set_lum(c: [f64; 3], l: f64) -> [f64; 3] {
    let d = l - lum(c);
    let mut c = [c[0] + d, c[1] + d, c[2] + d];
    let l = lum(c);
    let n = min3(c);
    let x = max3(c);
    if n < 0.0 {
        for v in &mut c {
            *v = l + (*v - l) * l / (l - n);
        }
    }
    if x > 1.0 {
        for v in &mut c {
            *v = l + (*v - l) * (1.0 - l) / (x - l);
        }
    }
    c
}
/// Aseprite's set_sat picks references with strict comparisons, so equal
/// channels may alias; the assignment order is mid, max, min.
fn set_sat(c: [f64; 3], s: f64) -> [f64; 3] {
    let [r, g, b] = c;
    let imin = if r < (if g < b { g } else { b }) { 0 } else if g < b { 1 } else { 2 };
    let imax = if r > (if g > b { g } else { b }) { 0 } else if g > b { 1 } else { 2 };
    let imid = if r > g {
        if g > b {
            1
        } else if r > b {
            2
        } else {
            0
        }
    } else if g > b {
        if b > r {
            2
        } else {
            0
        }
    } else {
        1
    };
    let mut c = c;
    if c[imax] > c[imin] {
        c[imid] = (c[imid] - c[imin]) * s / (c[imax] - c[imin]);
        c[imax] = s;
    } else {
        c[imid] = 0.0;
        c[imax] = 0.0;
    }
    c[imin] = 0.0;
    c
}

fn hsl(mode: u16, b: Px, s: Px) -> [f64; 3] {
    let f = |p: Px| [p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0];
    let (bc, sc) = (f(b), f(s));
    let sat = |c: [f64; 3]| max3(c) - min3(c);
    let c = match mode {
        12 => set_lum(set_sat(sc, sat(bc)), lum(bc)),
        13 => set_lum(set_sat(bc, sat(sc)), lum(bc)),
        14 => set_lum(sc, lum(bc)),
        _ => set_lum(bc, lum(sc)),
    };
    [c[0] * 255.0, c[1] * 255.0, c[2] * 255.0]
}

/// The mixed source colour before it is composited; for the floating point
/// modes every value whose truncation is decided by rounding noise yields
/// both neighbours.
fn mixed(mode: u16, b: Px, s: Px, all: bool) -> Vec<Px> {
    let f: [f64; 3] = match mode {
        9 => [soft(b[0] as i32, s[0] as i32), soft(b[1] as i32, s[1] as i32), soft(b[2] as i32, s[2] as i32)],
        12..=15 => hsl(mode, b, s),
        _ => {
            let c = |i: usize| channel(mode, b[i] as i32, s[i] as i32) as u8;
            return vec![[c(0), c(1), c(2), s[3]]];
        }
    };
    if !all {
        return vec![[f[0] as i32 as u8, f[1] as i32 as u8, f[2] as i32 as u8, s[3]]];
    }
    let mut v = vec![[0, 0, 0, s[3]]];
    for i in 0..3 {
        let mut cand = vec![(f[i] as i32).clamp(0, 255) as u8];
        for e in [-1e-7, 1e-7] {
            let x = ((f[i] + e) as i32).clamp(0, 255) as u8;
            if !cand.contains(&x) {
                cand.push(x);
            }
        }
        let mut n = Vec::new();
        for p in &v {
            for c in &cand {
                let mut q = *p;
                q[i] = *c;
                n.push(q);
            }
        }
        v = n;
    }
    v
}

fn compose(b: Px, s: Px, op: u8, m: Px) -> Px {
    let norm = normal(b, s, op);
    let bl = normal(b, m, op);
    let nb = merge(norm, bl, b[3]);
    let ca = mul8(b[3], mul8(s[3], op));
    merge(nb, bl, ca)
}

pub fn blend(mode: u16, b: Px, s: Px, op: u8) -> Px {
    if mode == 0 || b[3] == 0 {
        return normal(b, s, op);
    }
    compose(b, s, op, mixed(mode, b, s, false)[0])
}

/// All results that differ only by rounding noise of the floating point modes.
pub fn blend_all(mode: u16, b: Px, s: Px, op: u8) -> Vec<Px> {
    if mode == 0 || b[3] == 0 {
        return vec![normal(b, s, op)];
    }
    let mut v: Vec<Px> = mixed(mode, b, s, true).into_iter().map(|m| compose(b, s, op, m)).collect();
    v.sort();
    v.dedup();
    v
}
