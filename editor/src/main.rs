//! Monitors of the map editor's own code. See /verif/DESIGN.md.
extern crate dreammaker as dm;
#[allow(dead_code)]
#[path = "../../harness/src/fw.rs"]
mod fw;
#[allow(dead_code)]
#[path = "../../harness/src/rng.rs"]
mod rng;
#[allow(dead_code)]
#[path = "../../harness/src/pngw.rs"]
mod pngw;
#[allow(warnings)]
#[path = "/repo/crates/spaceman-dmm/src/dmi.rs"]
mod dmi;
#[allow(warnings)]
#[path = "/repo/crates/spaceman-dmm/src/map_renderer.rs"]
mod map_renderer;
#[allow(warnings)]
#[path = "/repo/crates/spaceman-dmm/src/map_repr.rs"]
mod map_repr;
#[allow(warnings)]
#[path = "/repo/crates/spaceman-dmm/src/history.rs"]
mod history;
mod props;

fn main() {
    std::process::exit(fw::main(props::ALL));
}
