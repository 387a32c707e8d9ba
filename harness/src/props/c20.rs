use crate::ensure;
use crate::fw::*;
use crate::pngw;
use crate::rng::Rng;
use dmm_tools::dmi::{Dir, Dirs, Frames, IconFile, Metadata, StateIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub static PROP: Prop = Prop {
    id: "C20",
    quick: 250000,
    thorough: 800000,
    case,
    directed: &[("direction algebra", dirs)],
    rule: "a case writes icon metadata and a picture in which every cell has a colour of its own (state, direction, frame) with this harness's own PNG writer, loads it, and compares every state's fields, look-up by name and by duplicate number, and the cell (its rectangle and its colour) of every state, direction and frame with the order BYOND lays sprites out; states without metadata and icons without states included; distinct by metadata text, non-trivial with at least two states and one with several directions or frames",
    assumptions: &["metadata fields are in the order BYOND writes them"],
    ..DEFAULT
};

/// How BYOND lays the directions of a state out.
pub const ORDER: [Dir; 8] = [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest];

#[derive(Clone, Debug)]
pub struct St { pub name: String, pub dirs: usize, pub frames: usize, pub explicit: bool, pub delays: Option<Vec<f32>>, pub extra: usize, pub loop_: u32, pub rewind: bool, pub movement: bool }

pub fn gen_states(r: &mut Rng, n: usize, max_frames: usize) -> Vec<St> {
    (0..n).map(|i| {
        let name = match r.below(8) { 0 => String::new(), 1 | 2 => (*r.pick(&["a", "b", "wall-0", "x y"])).to_owned(), 3 => (*r.pick(&["q\"uote", "back\\slash", "a = b", "é", " pad ", "#", "# END DMI?", "a,b"])).to_owned(), _ => format!("s{i}") };
        let frames = if r.bool() { 1 } else { 1 + r.below(max_frames) };
        let explicit = frames > 1 || r.chance(3, 4);
        let mut delays: Option<Vec<f32>> = if r.chance(1, 2) { Some((0..frames).map(|_| if r.chance(1, 3) { 1.0 } else { *r.pick(&[0.5f32, 1.0, 2.0, 10.0, 0.1, 100.0, 1.25]) }).collect()) } else { None };
        let extra = if explicit && delays.is_some() && r.chance(1, 4) { 1 + r.below(3) } else { 0 };
        // a list too short for the frames: the rest are shown for one tick
        let extra = if let Some(d) = &mut delays && extra == 0 && explicit && frames > 1 && r.chance(1, 3) { let k = 1 + r.below(frames - 1); d[k..].fill(1.0); 9 } else { extra };
        St { name, dirs: *r.pick(&[1, 1, 4, 8]), frames, explicit, delays, extra, loop_: if r.chance(1, 4) { r.below(5) as u32 } else { 0 }, rewind: r.chance(1, 5), movement: r.chance(1, 6) }
    }).collect()
}
pub fn describe(w: u32, h: u32, states: &[St]) -> String {
    let mut t = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = {h}\n");
    for s in states {
        t += &format!("state = \"{}\"\n\tdirs = {}\n", s.name.replace('\\', "\\\\").replace('"', "\\\""), s.dirs);
        if s.explicit { t += &format!("\tframes = {}\n", s.frames); }
        if let Some(d) = &s.delays {
            let mut v: Vec<String> = d.iter().map(|x| x.to_string()).collect();
            if s.extra == 9 { while v.len() > 1 && v[v.len() - 1] == "1" { v.pop(); } }
            else { for i in 0..s.extra { v.push(["1", "5", "0.5"][i % 3].to_owned()); } }
            t += &format!("\tdelay = {}\n", v.join(","));
        }
        if s.loop_ > 0 { t += &format!("\tloop = {}\n", s.loop_); }
        if s.rewind { t += "\trewind = 1\n"; }
        if s.movement { t += "\tmovement = 1\n"; }
    }
    t + "# END DMI\n"
}
pub fn colour(i: usize) -> [u8; 4] { let i = i as u32 + 1; [(i * 37 % 251) as u8, (i / 251) as u8, (i * 101 % 241) as u8, 255] }

fn case(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = r.below(2 + cx.size / 8);
    let states = gen_states(r, n, 2 + cx.size / 15);
    let (w, h) = (1 + r.below(5) as u32, 1 + r.below(5) as u32);
    let total: usize = states.iter().map(|s| s.dirs * s.frames).sum();
    let cols = 1 + r.below(total.max(1) + 2) as u32;
    let rows = (total as u32).div_ceil(cols).max(1) + r.below(2) as u32;
    // the picture may have a margin that is no cell
    let (iw, ih) = (cols * w + r.below(w as usize) as u32, rows * h + r.below(h as usize) as u32);
    let px: Vec<[u8; 4]> = (0..ih).flat_map(|y| (0..iw).map(move |x| if x / w < cols && y / h < rows { colour((y / h * cols + x / w) as usize) } else { [9, 9, 9, 9] })).collect();
    let desc = describe(w, h, &states);
    let plain = desc.is_ascii() && r.bool();
    let bytes = pngw::assemble(&pngw::chunks(iw, ih, &px, Some(desc.as_bytes()), !plain));
    cx.input(format!("{iw}x{ih}\n{desc}"));
    cx.sig(&desc);
    let icon = match IconFile::from_bytes(&bytes) { Ok(i) => i, Err(e) => { cx.violate("load", format!("a well-formed icon is rejected: {e}")); return; } };
    let meta = &icon.metadata;
    match Metadata::meta_from_str(&desc) { Ok(m) => ensure!(cx, m == *meta, "two ways", "metadata from text and from file differ"), Err(e) => { cx.violate("load", e.to_string()); return; } }
    ensure!(cx, (meta.width, meta.height) == (w, h) && (icon.image.width, icon.image.height) == (iw, ih), "size", "{}x{} in {}x{}", meta.width, meta.height, icon.image.width, icon.image.height);
    ensure!(cx, meta.states.len() == n, "states", "{} states of {n}", meta.states.len());
    let pixel = |x: u32, y: u32| { let p = icon.image.data.as_slice().unwrap()[(y * iw + x) as usize]; [p.r, p.g, p.b, p.a] };
    if n == 0 {
        ensure!(cx, icon.rect_of(&"".into(), Dir::South) == Some((0, 0, w, h)), "no states", "rectangle {:?}", icon.rect_of(&"".into(), Dir::South));
    }
    let mut dup: HashMap<&str, u32> = HashMap::new();
    let mut cell = 0usize;
    let mut rects = BTreeSet::new();
    for (i, s) in states.iter().enumerate() {
        let g = &meta.states[i];
        let k = dup.entry(&s.name).or_insert(0);
        let delays: Option<&Vec<f32>> = s.delays.as_ref().filter(|d| d.iter().any(|x| *x != 1.0));
        let want_frames = match delays { Some(d) => Frames::Delays(d.clone()), None if !s.explicit && s.delays.is_none() => Frames::One, None => Frames::Count(s.frames) };
        ensure!(cx, g.name == s.name && g.duplicate_index == *k && g.movement == s.movement && g.rewind == s.rewind && g.loop_ == s.loop_ && g.frames == want_frames && g.offset == cell, "fields", "state {i}: {:?} instead of {:?} offset {cell}", g, s);
        ensure!(cx, g.dirs == match s.dirs { 1 => Dirs::One, 4 => Dirs::Four, _ => Dirs::Eight } && g.dirs.count() == s.dirs && g.num_sprites() == s.dirs * s.frames && g.frames.count() == s.frames, "counts", "state {i}: {:?}", g);
        ensure!(cx, g.is_animated() == (s.frames > 1 || delays.is_some()), "animated", "state {i}: {:?}", g);
        for f in 0..s.frames { ensure!(cx, g.frames.delay(f) == delays.map_or(1.0, |d| d[f]), "delay", "state {i} frame {f}"); }
        // look-up
        let idx = g.get_state_name_index();
        ensure!(cx, idx.to_string() == if *k == 0 { s.name.clone() } else { format!("{} ({k})", s.name) }, "display", "{idx}");
        ensure!(cx, meta.state_names.get(&idx) == Some(&i) && meta.get_icon_state(&idx).is_some_and(|x| std::ptr::eq(x, g)) && icon.get_icon_state(&idx).is_ok(), "look-up", "state {i} {:?} is found as {:?}", idx, meta.state_names.get(&idx));
        if *k == 0 { ensure!(cx, StateIndex::from(s.name.as_str()) == idx && StateIndex::from(s.name.clone()) == idx, "look-up", "name {:?}", s.name); }
        *k += 1;
        for f in 0..s.frames { for d in 0..8 {
            let dir = ORDER[d];
            // fewer directions: diagonals of four-directional states show some facing of theirs, one-directional states their only one
            let slot = if d < s.dirs { d } else if s.dirs == 1 { 0 } else { usize::MAX };
            let got = g.index_of_frame(dir, f as u32) as usize;
            if slot == usize::MAX { ensure!(cx, (cell + f * 4..cell + f * 4 + 4).contains(&got), "diagonal", "state {i} {dir:?} frame {f}: cell {got}"); }
            else { ensure!(cx, got == cell + f * s.dirs + slot, "cell", "state {i} {dir:?} frame {f}: cell {got} instead of {}", cell + f * s.dirs + slot); }
            let rect = meta.rect_of(iw, &idx, dir, f as u32);
            let Some((x, y, rw, rh)) = rect else { cx.violate("rect", format!("state {i} {dir:?} frame {f}: no rectangle")); return };
            ensure!(cx, rw == w && rh == h && x + w <= iw && y + h <= ih, "rect", "state {i} {dir:?} frame {f}: {:?} in {iw}x{ih}", rect);
            ensure!(cx, icon.rect_of_index(got as u32) == (x, y, rw, rh), "rect", "two ways to cell {got}");
            if f == 0 { ensure!(cx, icon.rect_of(&idx, dir) == rect, "rect", "two ways to state {i} {dir:?}"); }
            for (cx_, cy_) in [(x, y), (x + w - 1, y + h - 1)] { ensure!(cx, pixel(cx_, cy_) == colour(got), "pixel", "state {i} {dir:?} frame {f}: colour {:?} instead of {:?}", pixel(cx_, cy_), colour(got)); }
            if d < s.dirs { ensure!(cx, rects.insert((x, y)), "overlap", "state {i} {dir:?} frame {f} shares its cell"); }
            cx.count("cells checked", 1);
        } }
        cell += s.dirs * s.frames;
    }
    ensure!(cx, rects.len() == total, "cells", "{} cells of {total}", rects.len());
    let names: BTreeMap<&StateIndex, &usize> = meta.state_names.iter().collect();
    ensure!(cx, names.len() == n, "names", "{} names of {n}", names.len());
    ensure!(cx, n == 0 || icon.rect_of(&"no such state".into(), Dir::South).is_none(), "unknown", "a missing state has a rectangle");
    if n > 1 && states.iter().any(|s| s.dirs * s.frames > 1) { cx.nontrivial(); }
    cx.max("states", n as u64);
    cx.count("duplicate names", states.len() as u64 - dup.len() as u64);
}

fn dirs(cx: &mut Cx) {
    let all = Dir::ALL;
    ensure!(cx, all.len() == 8 && Dir::CARDINALS.len() == 4 && Dir::DIAGONALS.len() == 4, "sets", "sizes");
    let by_offset: HashMap<(i32, i32), Dir> = all.iter().map(|d| (d.offset(), *d)).collect();
    ensure!(cx, by_offset.len() == 8, "offset", "offsets are not distinct");
    for d in all {
        let (x, y) = d.offset();
        let mut int = 0;
        if y > 0 { int |= 1 } if y < 0 { int |= 2 } if x > 0 { int |= 4 } if x < 0 { int |= 8 }
        ensure!(cx, d.to_int() == int && Dir::from_int(int) == Some(*d), "bits", "{d:?}");
        ensure!(cx, d.is_diagonal() == (x != 0 && y != 0) && Dir::DIAGONALS.contains(d) == d.is_diagonal() && Dir::CARDINALS.contains(d) != d.is_diagonal(), "diagonal", "{d:?}");
        ensure!(cx, d.flip() == by_offset[&(-x, -y)] && d.flip_ns() == by_offset[&(x, -y)] && d.flip_ew() == by_offset[&(-x, y)], "flip", "{d:?}");
        ensure!(cx, d.clockwise_90() == by_offset[&(y, -x)] && d.counterclockwise_90() == by_offset[&(-y, x)], "rotate 90", "{d:?}");
        let sg = |n: i32| n.signum();
        ensure!(cx, d.clockwise_45() == by_offset[&(sg(x + y), sg(y - x))] && d.counterclockwise_45() == by_offset[&(sg(x - y), sg(y + x))], "rotate 45", "{d:?}: {:?}", d.clockwise_45());
        for c in Dir::CARDINALS { if !d.is_diagonal() || d.to_int() & c.to_int() != 0 { ensure!(cx, d.contains(*c) == (d.to_int() & c.to_int() != 0), "contains", "{d:?} {c:?}"); } }
        cx.count("directions", 1);
    }
    for i in -2..40 { let valid = all.iter().any(|d| d.to_int() == i); ensure!(cx, Dir::from_int(i).is_some() == valid, "from_int", "{i}"); }
    ensure!(cx, Dir::default() == Dir::South, "default", "{:?}", Dir::default());
    cx.nontrivial();
}
