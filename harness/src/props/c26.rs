use crate::cli;
use crate::dm_util::parse_env;
use crate::ensure;
use crate::fw::*;
use crate::mapw::{self, MapM};
use crate::pngw;
use crate::props::c20::{describe, St};
use crate::rng::{mix, Rng};
use dm::objtree::ObjectTree;
use dmm_tools::dmm::Map;
use dmm_tools::{IconCache, minimap, render_passes};
use serde_json::{json, Value};
use std::path::Path;
use std::sync::RwLock;

pub static PROP: Prop = Prop {
    id: "C26",
    quick: 2500,
    thorough: 30000,
    case,
    directed: &[("files of the same name in one request", same_name)],
    external: true,
    rule: "a case writes a project, icons in which every pixel is different and one to four maps, sends render-many a request with random chunks (repeated levels, omitted, inverted, zero, oversized and enormous bounds, omitted chunk lists, pass lists) and runs minimap with random bounds and number of jobs; every answered file is decoded and compared pixel for pixel with one rendering of the same rectangle, and the answer must have one entry per file and chunk in order; distinct by request and maps, non-trivial when a bound had to be clamped and a proper part of a level was asked for",
    assumptions: &["requests name readable maps and existing levels (the tool documents other requests as not handled yet)", "the single renderings compared with are the library's, judged by C19 and C24"],
    ..DEFAULT
};

const TYPES: &[&str] = &["/turf/a", "/turf/b", "/obj/a", "/obj/b", "/area/a", "/mob/a"];

fn env(dir: &Path) {
    let mut dm = String::from("/atom\n\ticon = 'i.dmi'\n");
    for (i, p) in TYPES.iter().enumerate() { dm += &format!("{p}\n\ticon_state = \"s{i}\"\n"); }
    std::fs::write(dir.join("e.dme"), "#include \"a.dm\"\n").unwrap();
    std::fs::write(dir.join("a.dm"), dm).unwrap();
    let st: Vec<St> = (0..TYPES.len()).map(|i| St { name: format!("s{i}"), dirs: 1, frames: 1, explicit: true, delays: None, extra: 0, loop_: 0, rewind: false, movement: false }).collect();
    let wide = 32 * st.len() as u32;
    let px: Vec<[u8; 4]> = (0..wide * 32).map(|i| {
        let (x, y, s) = (i % wide % 32, i / wide, i % wide / 32);
        let b = mix(i as u64).to_le_bytes();
        if s >= 2 && s != 4 && (x < 6 || y < 9 || x > 24 || y > 26) { [0; 4] } else { [b[0], b[1], b[2], 255] }
    }).collect();
    std::fs::write(dir.join("i.dmi"), pngw::png(wide, 32, &px, Some(describe(32, 32, &st).as_bytes()))).unwrap();
}

fn level(r: &mut Rng) -> MapM {
    let (x, y, z) = (1 + r.below(5), 1 + r.below(5), 1 + r.below(3));
    let pool = (0..1 + r.below(5)).map(|_| (0..1 + r.below(3)).map(|_| {
        let mut v = vec![];
        if r.chance(1, 3) { v.push(("pixel_x".to_owned(), r.range(-20, 20).to_string())); }
        if r.chance(1, 3) { v.push(("pixel_y".to_owned(), r.range(-20, 20).to_string())); }
        if r.chance(1, 8) { v.push(("invisibility".to_owned(), "100".to_owned())); }
        ((*r.pick(TYPES)).to_owned(), v)
    }).collect()).collect::<Vec<_>>();
    let grid = (0..x * y * z).map(|_| r.below(pool.len())).collect();
    MapM { x, y, z, pool, grid }
}

struct World { tree: ObjectTree, cache: IconCache, config: dm::config::MapRenderer }
fn world(dir: &Path) -> World {
    let ctx = dm::Context::default();
    let tree = parse_env(&ctx, &dir.join("e.dme")).unwrap();
    let mut cache = IconCache::default();
    cache.set_icons_root(dir);
    World { tree, cache, config: Default::default() }
}

type Pic = (u32, u32, Vec<[u8; 4]>);
/// What a rendering of this rectangle (1-based, inclusive) is.
fn single(w: &World, map: &Map, z: usize, min: (usize, usize), max: (usize, usize), on: &[String], off: &[String]) -> Pic {
    let passes = render_passes::configure_list(&w.config, on, off);
    let errors = RwLock::new(Default::default());
    let bump = bumpalo::Bump::new();
    let i = minimap::generate(minimap::Context { objtree: &w.tree, map, level: map.z_level(z - 1), min: (min.0 - 1, min.1 - 1), max: (max.0 - 1, max.1 - 1), render_passes: &passes, errors: &errors, bump: &bump, print_errors: false }, &w.cache).unwrap();
    (i.width, i.height, i.data.as_slice().unwrap().iter().map(|p| [p.r, p.g, p.b, p.a]).collect())
}
fn read(f: &Path) -> Result<Pic, String> {
    let b = lodepng::decode32(std::fs::read(f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    Ok((b.width as u32, b.height as u32, b.buffer.iter().map(|p| [p.r, p.g, p.b, p.a]).collect()))
}
fn alike(a: &Pic, b: &Pic) -> Option<String> {
    if (a.0, a.1) != (b.0, b.1) { return Some(format!("size {}x{} instead of {}x{}", a.0, a.1, b.0, b.1)); }
    let k = a.2.iter().zip(&b.2).position(|(x, y)| x != y && (x[3] != 0 || y[3] != 0))?;
    Some(format!("pixel ({}, {}): {:?} instead of {:?}", k as u32 % a.0, k as u32 / a.0, a.2[k], b.2[k]))
}

fn bound(r: &mut Rng, dim: usize) -> Option<usize> {
    match r.below(8) { 0 | 1 => None, 2 => Some(0), 3 => Some(dim), 4 => Some(*r.pick(&[dim + 1, dim + 2, 1000, u32::MAX as usize, usize::MAX])), _ => Some(1 + r.below(dim)) }
}
fn clamped(lo: Option<usize>, hi: Option<usize>, dim: usize) -> (usize, usize) { let a = lo.unwrap_or(1).clamp(1, dim); (a, hi.unwrap_or(dim).clamp(a, dim)) }

fn passes(r: &mut Rng) -> (Vec<String>, Vec<String>) {
    let l = |r: &mut Rng| (0..*r.pick(&[0, 0, 1, 2])).map(|_| (*r.pick(&["hide-areas", "hide-invisible", "hide-areas", "only-pipenet", "all"])).to_owned()).collect::<Vec<_>>();
    let on: Vec<String> = l(r);
    // with every pass on, everything is hidden
    (on.into_iter().filter(|p| p != "all").collect(), l(r))
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("c26");
    env(&dir);
    let n = 1 + r.below(4);
    let mut maps = vec![];
    let mut told = String::new();
    for k in 0..n {
        let m = level(r);
        let (t, ..) = mapw::write(r, &m, false, 0);
        // names differ; some share a folder, some contain dots
        let name = match r.below(5) { 0 => { std::fs::create_dir_all(dir.join(format!("maps{k}"))).unwrap(); format!("maps{k}/m{}.dmm", r.below(2)) }, 1 => format!("m.{k}.x.dmm"), _ => format!("m{k}.dmm") };
        std::fs::write(dir.join(&name), &t).unwrap();
        told += &format!("// {name}\n{t}\n");
        maps.push((name, m));
    }
    let w = world(&dir);
    let loaded: Vec<Map> = maps.iter().map(|(f, _)| Map::from_file(&dir.join(f)).unwrap()).collect();
    let (on, off) = passes(r);

    // render-many
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    order.truncate(1 + r.below(n));
    if r.chance(1, 5) { let again = *r.pick(&order); order.push(again); }
    let mut files = vec![];
    let mut want: Vec<Vec<(usize, (usize, usize), (usize, usize))>> = vec![];
    let mut special = (false, false);
    for &k in &order {
        let m = &maps[k].1;
        if r.chance(1, 4) {
            let mut f = json!({"path": maps[k].0});
            if r.bool() { f["chunks"] = Value::Null; }
            files.push(f);
            want.push((1..=m.z).map(|z| (z, (1, 1), (m.x, m.y))).collect());
        } else {
            let mut cs = vec![];
            let mut ws = vec![];
            for _ in 0..*r.pick(&[0, 1, 1, 2, 3, 5]) {
                let z = 1 + r.below(m.z);
                let (a, b, c, d) = (bound(r, m.x), bound(r, m.y), bound(r, m.x), bound(r, m.y));
                let mut v = json!({"z": z});
                for (n, x) in [("min_x", a), ("min_y", b), ("max_x", c), ("max_y", d)] { if let Some(x) = x { v[n] = json!(x); } else if r.chance(1, 4) { v[n] = Value::Null; } }
                let (x, y) = (clamped(a, c, m.x), clamped(b, d, m.y));
                special.0 |= a.is_some_and(|a| a != x.0) || b.is_some_and(|b| b != y.0) || c.is_some_and(|c| c != x.1) || d.is_some_and(|d| d != y.1);
                special.1 |= (x.1 - x.0 + 1) * (y.1 - y.0 + 1) < m.x * m.y;
                cs.push(v);
                ws.push((z, (x.0, y.0), (x.1, y.1)));
            }
            files.push(json!({"path": maps[k].0, "chunks": cs}));
            want.push(ws);
        }
    }
    let out = *r.pick(&["out", "deep/er/out", "."]);
    let mut req = json!({"output_directory": out, "files": files});
    if !on.is_empty() || r.bool() { req["enable"] = json!(on); }
    if !off.is_empty() || r.bool() { req["disable"] = json!(off); }
    let jobs = (*r.pick(&["1", "2", "4", "0"])).to_owned();
    cx.input(format!("{req:#}\njobs {jobs}\n{told}"));
    let o = cli::run("dmm-tools", &cli::args(&["-e", "e.dme", "--jobs", &jobs, "render-many"]), &dir, Some(&req.to_string()), 60);
    ensure!(cx, o.code == Some(0), "fails", "render-many fails: {}", o.told());
    let ans: Value = serde_json::from_str(&o.out).unwrap_or_default();
    let got = ans["files"].as_array().cloned().unwrap_or_default();
    ensure!(cx, got.len() == order.len(), "files", "{} results for {} files: {ans}", got.len(), order.len());
    for (i, (&k, ws)) in order.iter().zip(&want).enumerate() {
        let cs = got[i]["chunks"].as_array().cloned().unwrap_or_default();
        ensure!(cx, cs.len() == ws.len(), "chunks", "{} results for the {} chunks of file {i}: {ans}", cs.len(), ws.len());
        for (j, (z, min, max)) in ws.iter().enumerate() {
            let f = dir.join(out).join(cs[j]["filename"].as_str().unwrap_or("?"));
            match read(&f) {
                Err(e) => { cx.violate("unreadable", format!("chunk {j} of file {i}: {} cannot be read: {e}\n{ans}", f.display())); return; },
                Ok(p) => if let Some(d) = alike(&p, &single(&w, &loaded[k], *z, *min, *max, &on, &off)) { cx.violate("picture", format!("chunk {j} of file {i} ({} level {z} from {min:?} to {max:?}): {d}\n{ans}", maps[k].0)); return; },
            }
            cx.count("chunks compared", 1);
        }
    }
    cx.count("requests answered", 1);
    if special.0 && special.1 { cx.nontrivial(); }

    // the same rectangles through minimap
    if r.chance(1, 2) {
        let k = *r.pick(&order);
        let m = &maps[k].1;
        let (a, b, c, d, e, f) = (bound(r, m.x), bound(r, m.y), bound(r, m.x), bound(r, m.y), bound(r, m.z), bound(r, m.z));
        let (lo, hi) = (r.chance(2, 3), r.chance(2, 3));
        let one = |x: Option<usize>| x.unwrap_or(1);
        let (a, b, e) = (one(a), one(b), one(e));
        let (c, d, f) = (c.unwrap_or(m.x), d.unwrap_or(m.y), f.unwrap_or(m.z));
        let flat = lo && e == 1 && r.bool();
        let mut ar = cli::args(&["-e", "e.dme", "--jobs", &jobs, "minimap", "-o", "mini"]);
        if lo { ar.extend(["--min".to_owned(), if flat { format!("{a},{b}") } else { format!("{a},{b},{e}") }]); }
        if hi { ar.extend(["--max".to_owned(), format!("{c},{d},{f}")]); }
        if !on.is_empty() { ar.extend(["--enable".to_owned(), on.join(",")]); }
        if !off.is_empty() { ar.extend(["--disable".to_owned(), off.join(",")]); }
        ar.push(maps[k].0.clone());
        cx.input(format!("{ar:?}\n{told}"));
        let o = cli::run("dmm-tools", &ar, &dir, None, 60);
        ensure!(cx, o.code == Some(0), "fails", "minimap fails: {}", o.told());
        let x = clamped(if lo { Some(a) } else { None }, if hi { Some(c) } else { None }, m.x);
        let y = clamped(if lo { Some(b) } else { None }, if hi { Some(d) } else { None }, m.y);
        let z = clamped(if lo { Some(e) } else { None }, if hi { Some(f) } else { None }, m.z);
        let stem = Path::new(&maps[k].0).file_stem().unwrap().to_string_lossy().into_owned();
        let mut there: Vec<String> = std::fs::read_dir(dir.join("mini")).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
        there.sort();
        let names: Vec<String> = (z.0..=z.1).map(|z| format!("{stem}-{z}.png")).collect();
        ensure!(cx, there == names, "levels", "minimap wrote {there:?} instead of {names:?}: {}", o.told());
        for (i, z) in (z.0..=z.1).enumerate() {
            match read(&dir.join("mini").join(&names[i])) {
                Err(e) => { cx.violate("unreadable", format!("{}: {e}", names[i])); return; },
                Ok(p) => if let Some(d) = alike(&p, &single(&w, &loaded[k], z, (x.0, y.0), (x.1, y.1), &on, &off)) { cx.violate("picture", format!("minimap level {z} from {:?} to {:?}: {d}", (x.0, y.0), (x.1, y.1))); return; },
            }
            cx.count("minimap levels compared", 1);
        }
    }
}

/// Two maps called the same in one request.
fn same_name(cx: &mut Cx) {
    let dir = cx.dir("c26n");
    env(&dir);
    for (d, ty) in [("p", "/turf/a"), ("q", "/turf/b")] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
        std::fs::write(dir.join(d).join("m.dmm"), format!("\"a\" = ({ty})\n(1,1,1) = {{\"\na\n\"}}\n")).unwrap();
    }
    let req = json!({"output_directory": "out", "files": [{"path": "p/m.dmm"}, {"path": "q/m.dmm"}]});
    cx.input(req.to_string());
    let o = cli::run("dmm-tools", &cli::args(&["-e", "e.dme", "render-many"]), &dir, Some(&req.to_string()), 60);
    let ans: Value = serde_json::from_str(&o.out).unwrap_or_default();
    let name = |i: usize| ans["files"][i]["chunks"][0]["filename"].as_str().unwrap_or("?").to_owned();
    ensure!(cx, o.code == Some(0) && name(0) != "?" && name(1) != "?", "fails", "{}", o.told());
    let w = world(&dir);
    for (i, d) in ["p", "q"].iter().enumerate() {
        let m = Map::from_file(&dir.join(d).join("m.dmm")).unwrap();
        match read(&dir.join("out").join(name(i))) {
            Ok(p) if alike(&p, &single(&w, &m, 1, (1, 1), (1, 1), &[], &[])).is_none() => {},
            _ if name(0) == name(1) => { cx.violate("same-stem", format!("two maps called m.dmm in different directories are both answered with {}, which can only hold one of them", name(0))); return; },
            _ => { cx.violate("picture", format!("file {i}: {}", o.told())); return; },
        }
    }
}
