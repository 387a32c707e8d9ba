//! Runtime monitors for SpacemanDMM. See /verif/DESIGN.md.
extern crate dreammaker as dm;
mod fw;
mod rng;
mod props;
mod cli;
mod dm_util;
mod gen_dc;
mod gen_diag;
mod gen_dm;
mod lsp;
mod mapw;
mod pngw;

fn main() {
    std::process::exit(fw::main(props::ALL));
}
