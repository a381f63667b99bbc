//! The table of properties.
use crate::common::*;
use crate::rng::Rng;
use crate::{p_item as i, p_more as m, p_parse as a, p_pix as b};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, bool) -> Case,
    pub check: fn(&Case, &mut Ctx) -> Res<()>,
    /// cases in the quick and the thorough tier
    pub n: [u64; 2],
    /// stack of the thread that runs the code under test
    pub stack: usize,
    /// cases whose digests are compared with another process (quick)
    pub digests: u64,
    pub rule: &'static str,
}
const MB: usize = 1 << 20;
macro_rules! p {
    ($id:literal, $g:path, $c:path, $q:literal, $t:literal, $s:expr, $d:literal, $rule:literal) => {
        Prop { id: $id, gen: $g, check: $c, n: [$q, $t], stack: $s, digests: $d, rule: $rule }
    };
}
pub const PROPS: &[Prop] = &[
    p!("C01", a::c01_gen, a::c01_check, 60000, 3600000, 2 * MB, 0,
       "fixtures, structured hostile files (field edits at every level, size lies, splices, truncations, nesting bombs), mutated generated files, random bytes, and single parsers fed damaged bodies, each through all entry points on a 2 MiB stack; non-trivial = header magic present and more than the header, or a non-empty single-parser input"),
    p!("C02", b::c02_gen, b::c02_check, 50000, 3000000, 2 * MB, 0,
       "loadable files with damaged, mis-sized and raw cel data, unknown blend modes, extreme offsets and zero sizes, rendered, decoded and hashed with odd selections and buffer lengths; non-trivial = the file loads and at least one operation ran"),
    p!("C03", a::c03_gen, a::c03_check, 4000, 240000, 64 * MB, 0,
       "families of files scaled by a factor, files with out-of-proportion claims, hostile files, files with many large cels; heap and executed code counters measured; non-trivial = input longer than 300 bytes"),
    p!("C04", a::c04_gen, a::c04_check, 20000, 1200000, 64 * MB, 0,
       "well-formed files with arbitrary header values, frame counts, durations and both chunk-count encodings; non-trivial = the reference decoder accepted it and all views were compared"),
    p!("C05", a::c05_gen, a::c05_check, 30000, 1800000, 64 * MB, 0,
       "well-formed files with many layers, tags and slices over all frames and field extremes; non-trivial = at least one layer, tag or slice compared"),
    p!("C06", a::c06_gen, a::c06_check, 50000, 3000000, 64 * MB, 0,
       "arbitrary chunk sequences of every kind with boundary field values; non-trivial = at least one chunk compared"),
    p!("C07", a::c07_gen, a::c07_check, 60000, 3600000, 64 * MB, 0,
       "random chunk sequences with user data present, absent, repeated and in excess after every kind of chunk; non-trivial = at least one user data chunk in the file"),
    p!("C08", a::c08_gen, a::c08_check, 50000, 3000000, 64 * MB, 0,
       "random typed property trees and malformed property payloads inside a correctly sized block; non-trivial = properties present"),
    p!("C09", a::c09_gen, a::c09_check, 100000, 6000000, 64 * MB, 0,
       "well-formed files, their prefixes, single planted faults of every listed kind and random byte damage; non-trivial = a fault was present and classified by the reference decoder"),
    p!("C10", a::c10_gen, a::c10_check, 20000, 1200000, 64 * MB, 0,
       "pairs of a file and the same file with meaningless additions, and files with unknown codes; non-trivial = compared"),
    p!("C11", a::c11_gen, a::c11_check, 30000, 1800000, 64 * MB, 0,
       "files with sequences of palette chunks of the three kinds over all frames; non-trivial = indexed sprite with a palette compared"),
    p!("C12", b::c12_gen, b::c12_check, 10000, 600000, 64 * MB, 0,
       "files whose images hold every depth, storage, zlib form and size; non-trivial = at least one pixel compared"),
    p!("C13", b::c13_gen, b::c13_check, 80000, 4800000, 64 * MB, 0,
       "truncated, extended, bit-flipped and re-sized pixel data for the decoder, the renderer and decompress, judged by an independent inflate; non-trivial = data differs from a valid one"),
    p!("C14", b::c14_gen, b::c14_check, 25000, 1500000, 64 * MB, 0,
       "every buffer length around the needed one and different prior contents; non-trivial = a decode or rendering compared"),
    p!("C15", b::c15_gen, b::c15_check, 60000, 3600000, 64 * MB, 0,
       "random arrangements of image and linked cels; non-trivial = at least one linked cel"),
    p!("C16", b::c16_gen, b::c16_check, 50000, 3000000, 64 * MB, 0,
       "random sprites with odd layers; every layer id and index compared; non-trivial = more than one layer"),
    p!("C17", b::c17_gen, b::c17_check, 950, 57000, 64 * MB, 0,
       "one case = one blend mode on a 256x256 tile of colour/alpha/opacity combinations through the renderer; non-trivial = every case"),
    p!("C18", b::c18_gen, b::c18_check, 10000, 600000, 64 * MB, 0,
       "cels at positions inside, across, outside and extremely far from the canvas; non-trivial = a rendering compared with at least one shown cel"),
    p!("C19", b::c19_gen, b::c19_check, 60000, 3600000, 64 * MB, 0,
       "several overlapping cels with opacities and z-indices; non-trivial = at least two overlapping shown cels"),
    p!("C20", b::c20_gen, b::c20_check, 60000, 3600000, 64 * MB, 0,
       "layer trees with visibility flags and all kinds of selections; non-trivial = at least two layers"),
    p!("C21", b::c21_gen, b::c21_check, 4000, 240000, 64 * MB, 2000,
       "read operations on a shared sprite by several threads in random orders with injected delays, repeated loads, and a second process; non-trivial = at least two operations ran concurrently"),
    p!("C23", b::c23_gen, b::c23_check, 9000, 540000, 64 * MB, 9000,
       "sprites with equal, nearly equal and different frames; hashes compared pairwise, over loads and with a second process; non-trivial = at least two frames"),
    p!("C22", a::c22_gen, a::c22_check, 30000, 1800000, 64 * MB, 0,
       "every borrowed span's address checked against the reference offsets; allocation compared between equal structures with small and large payloads; non-trivial = at least one span checked"),
    p!("C24", b::c24_gen, b::c24_check, 25000, 1500000, 64 * MB, 25000,
       "digest of everything observable per input in a checked and in an optimised build; non-trivial = input processed by both builds"),
    p!("C25", i::c25_gen, i::c25_check, 60000, 3600000, 64 * MB, 0,
       "single items of every kind alone, in a row and in front of other bytes, their prefixes, damaged items, and every frame, chunk and chunk content of whole files read alone; non-trivial = at least one item read"),
    p!("C26", m::c26_gen, m::c26_check, 60000, 3600000, 64 * MB, 0,
       "sprites with damaged and mis-sized pixel data, unknown modes and depths, alone and together, decoded and rendered into sufficient and short buffers, and damaged streams; non-trivial = at least one operation failed and its error was judged"),
    p!("C27", m::c27_gen, m::c27_check, 60000, 3600000, 64 * MB, 0,
       "well-formed, mutated and hostile bytes through all three parsers; non-trivial = at least the raw and file views exist and were compared"),
    p!("C28", m::c28_gen, m::c28_check, 40000, 2400000, 64 * MB, 0,
       "pairs of files that store the same sprite differently (links or copies, pixel encodings, palettes, order of frames and cels, cropping, groups, colour depths, other chunks); non-trivial = rewritten and at least one cel"),
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
