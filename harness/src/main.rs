//! Runtime-monitoring harness for aseprite-loader. See DESIGN.md.
/// evaluate the configuration before borrowing the generator
macro_rules! gdoc {
    ($r:expr, $c:expr) => {{
        let c = $c;
        crate::gen::doc($r, &c)
    }};
}
macro_rules! gmut {
    ($r:expr, $c:expr) => {{
        let c = $c;
        crate::gen::mutate($r, c)
    }};
}
mod common;
mod doc;
mod gen;
mod inflate;
mod monitor;
mod observe;
mod p_item;
mod p_more;
mod p_parse;
mod p_pix;
mod props;
mod refblend;
mod refdec;
mod reffile;
mod refrender;
mod rng;
mod run;
mod val;

fn main() {
    std::process::exit(run::main());
}
