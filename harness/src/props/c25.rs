use crate::cli;
use crate::ensure;
use crate::fw::*;
use crate::mapw::{self, MapM, Tile};
use crate::pngw;
use crate::props::c20::{colour, describe, St};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "C25",
    quick: 8000,
    thorough: 60000,
    case,
    directed: &[("exit status by number of failures", failures)],
    external: true,
    rule: "a case writes two maps with a writer of the harness's own (both layouts, equal tiles under one or several keys, unused keys, random key numbers, one to three letters): a random map and a changed copy (tiles exchanged or edited in one object, one variable, one value, the order of objects or of variables, the spelling of a value; sizes changed), runs the built diff-maps on them both ways and each against a re-encoded copy, map-info over a list of maps (some unreadable), and minimap over a list (some unreadable), and compares output and exit status with the model the files were written from; distinct by the model, non-trivial when the maps differ in some tile and agree in another",
    assumptions: &["values used as different are different values in DM"],
    ..DEFAULT
};

/// spellings of the same value
const VALUES: &[&[&str]] = &[&["1", "1.0", "0x1"], &["2"], &["0"], &["-1"], &["null"], &["\"\""], &["\"a\""], &["\"A\""], &["\"1\""], &["'a'"], &["'A'"], &["/obj/a"], &["/obj/b"], &["list(1,2)", "list(1, 2)"], &["list(2,1)"], &["list()"], &["list(\"a\" = 1)", "list(\"a\"=1)"], &["list(\"a\" = 2)"], &["0.5", "5e-1"], &["1000000", "1e6", "1e+006"], &["\"a, b; c\""], &["\"{}()\""], &["\"//\""], &["\"\\\"\""]];
const PATHS: &[&str] = &["/obj/a", "/obj/b", "/obj/a/b", "/turf/f", "/turf/w", "/area/x", "/area/y", "/mob/m", "/obj"];
const VARS: &[&str] = &["dir", "icon_state", "name", "a", "b", "pixel_x", "tag"];

/// tile in terms of value classes, and a spelling
type Obj = (usize, Vec<(usize, usize)>);
type Tl = Vec<Obj>;

fn obj(r: &mut Rng) -> Obj {
    let mut v: Vec<(usize, usize)> = vec![];
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) { let k = r.below(VARS.len()); if v.iter().all(|x| x.0 != k) { v.push((k, r.below(VALUES.len()))); } }
    (r.below(PATHS.len()), v)
}
fn tile(r: &mut Rng) -> Tl { (0..1 + r.below(4)).map(|_| obj(r)).collect() }
fn spelled(r: &mut Rng, t: &Tl, fresh: bool) -> Tile { t.iter().map(|(p, v)| (PATHS[*p].to_owned(), v.iter().map(|(k, c)| (VARS[*k].to_owned(), if fresh { *r.pick(VALUES[*c]) } else { VALUES[*c][0] }.to_owned())).collect())).collect() }

/// What a tile is: types in order, variables as a set.
fn norm(t: &Tl) -> Vec<(usize, BTreeMap<usize, usize>)> { t.iter().map(|(p, v)| (*p, v.iter().copied().collect())).collect() }

fn edited(r: &mut Rng, t: &Tl) -> Tl {
    let mut t = t.clone();
    let k = r.below(t.len());
    match r.below(10) {
        0 => t[k].0 = r.below(PATHS.len()),
        1 => t.insert(k, obj(r)),
        2 if t.len() > 1 => { t.remove(k); },
        3 | 4 if t.len() > 1 => { let j = r.below(t.len()); t.swap(k, j); },
        5 if t[k].1.len() > 1 => t[k].1.reverse(),
        6 if !t[k].1.is_empty() => { let j = r.below(t[k].1.len()); t[k].1[j].1 = r.below(VALUES.len()); },
        7 if !t[k].1.is_empty() => { let j = r.below(t[k].1.len()); t[k].1.remove(j); },
        8 if t[k].1.len() < VARS.len() => { let n = (0..VARS.len()).find(|n| t[k].1.iter().all(|x| x.0 != *n)).unwrap(); t[k].1.push((n, r.below(VALUES.len()))); },
        9 => { let o = t[k].clone(); t.push(o); },
        _ => {},
    }
    t
}

#[derive(Clone)]
struct Model { x: usize, y: usize, z: usize, pool: Vec<Tl>, grid: Vec<usize> }
impl Model {
    fn at(&self, x: usize, y: usize, z: usize) -> &Tl { &self.pool[self.grid[(z * self.y + y) * self.x + x]] }
    /// written with fresh choices; the key length and dictionary size
    fn write(&self, r: &mut Rng, file: &Path) -> (usize, usize) {
        let fresh = r.bool();
        let m = MapM { x: self.x, y: self.y, z: self.z, pool: self.pool.iter().map(|t| spelled(r, t, fresh)).collect(), grid: self.grid.clone() };
        let split = r.bool();
        let extra = r.below(3);
        let (t, l, n) = mapw::write(r, &m, split, extra);
        std::fs::write(file, t).unwrap();
        (l, n)
    }
    /// also reorders variables within objects
    fn shuffled(&self, r: &mut Rng) -> Model { let mut m = self.clone(); for t in &mut m.pool { for o in t { r.shuffle(&mut o.1); } } m }
    fn told(&self) -> String { format!("{}x{}x{}\n{}\n{:?}", self.x, self.y, self.z, self.pool.iter().enumerate().map(|(i, t)| format!("{i}: {}", t.iter().map(|(p, v)| format!("{}{{{}}}", PATHS[*p], v.iter().map(|(k, c)| format!("{}={}", VARS[*k], VALUES[*c][0])).collect::<Vec<_>>().join(";"))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("\n"), self.grid) }
}

fn model(r: &mut Rng) -> Model {
    let (x, y, z) = (1 + r.below(6), 1 + r.below(6), 1 + r.below(3));
    let pool: Vec<Tl> = (0..1 + r.below(6)).map(|_| tile(r)).collect();
    let grid = (0..x * y * z).map(|_| r.below(pool.len())).collect();
    Model { x, y, z, pool, grid }
}

fn changed(r: &mut Rng, m: &Model) -> Model {
    let mut n = m.clone();
    for _ in 0..r.below(4) {
        let i = r.below(n.grid.len());
        if r.chance(1, 3) { n.grid[i] = r.below(n.pool.len()); } else { let t = edited(r, &n.pool[n.grid[i]]); if r.chance(1, 6) { let k = n.grid[i]; n.pool[k] = t; } else { n.grid[i] = n.pool.len(); n.pool.push(t); } }
    }
    if r.chance(1, 4) {
        let (x, y, z) = match r.below(4) { 0 => (n.x + 1, n.y, n.z), 1 => (n.x, n.y + 1, n.z), 2 => (n.x, n.y, n.z + 1), _ => (1 + r.below(6), 1 + r.below(6), 1 + r.below(3)) };
        let grid = (0..x * y * z).map(|i| { let (cx, cy, cz) = (i % x, i / x % y, i / x / y); if cx < n.x && cy < n.y && cz < n.z { n.grid[(cz * n.y + cy) * n.x + cx] } else { r.below(n.pool.len()) } }).collect();
        (n.x, n.y, n.z, n.grid) = (x, y, z, grid);
    }
    n
}

fn want(a: &Model, b: &Model, fa: &str, fb: &str) -> (Vec<String>, usize, usize) {
    let mut v = vec![fa.to_owned(), fb.to_owned()];
    if (a.x, a.y, a.z) != (b.x, b.y, b.z) { v.push(format!("    different size: {:?} {:?}", (a.x, a.y, a.z), (b.x, b.y, b.z))); }
    let (mut d, mut e) = (0, 0);
    for z in 0..a.z.min(b.z) { for y in 0..a.y.min(b.y) { for x in 0..a.x.min(b.x) { if norm(a.at(x, y, z)) != norm(b.at(x, y, z)) { d += 1; v.push(format!("    different tile: ({}, {}, {})", x + 1, y + 1, z + 1)); } else { e += 1; } } } }
    (v, d, e)
}

fn diff(cx: &mut Cx, dir: &Path, a: &Model, fa: &str, b: &Model, fb: &str) -> bool {
    let o = cli::run("dmm-tools", &cli::args(&["diff-maps", fa, fb]), dir, None, 30);
    let (w, d, e) = want(a, b, fa, fb);
    let report = |s: &[String]| s.iter().map(|l| l.trim().to_owned()).collect::<BTreeSet<_>>();
    let got: Vec<String> = o.lines().into_iter().map(str::to_owned).collect();
    if o.code != Some(0) || report(&got) != report(&w) || got.len() != w.len() && fa != fb {
        let k = if o.code != Some(0) { "diff-status" } else if got.iter().any(|l| !w.contains(l)) { "diff-extra" } else { "diff-missing" };
        cx.violate(k, format!("diff-maps {fa} {fb}: expected {w:#?}\n{}\n--- {fa}\n{}\n--- {fb}\n{}", o.told(), a.told(), b.told()));
        return false;
    }
    cx.count("comparisons", 1);
    cx.count("different tiles reported", d as u64);
    cx.count("equal tiles compared", e as u64);
    if (a.x, a.y, a.z) != (b.x, b.y, b.z) { cx.count("size differences reported", 1); }
    if d > 0 && e > 0 { cx.nontrivial(); }
    true
}

/// A file no map can be read from.
fn broken(r: &mut Rng, dir: &Path, name: &str) {
    let f = dir.join(name);
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&f);
    match r.below(7) {
        0 => {},
        1 => std::fs::write(&f, "").unwrap(),
        2 => std::fs::write(&f, "nothing like a map").unwrap(),
        3 => std::fs::write(&f, "\"a\" = (/turf/f").unwrap(),
        4 => std::fs::write(&f, "\"a\" = (/turf/f)\n\"ab\" = (/turf/w)\n(1,1,1) = {\"\na\n\"}\n").unwrap(),
        5 => std::fs::write(&f, "\"a\" = (/turf/f)\n(1,1,1) = {\"\nb\n\"}\n").unwrap(),
        _ => std::fs::create_dir_all(&f).unwrap(),
    }
}

fn env(dir: &Path) {
    let mut dm = String::from("/turf\n\ticon = 'i.dmi'\n\ticon_state = \"s0\"\n");
    for (i, p) in PATHS.iter().enumerate() { dm += &format!("{p}\n\tdesc = \"{i}\"\n"); }
    std::fs::write(dir.join("e.dme"), "#include \"a.dm\"\n").unwrap();
    std::fs::write(dir.join("a.dm"), dm).unwrap();
    let st = [St { name: "s0".into(), dirs: 1, frames: 1, explicit: true, delays: None, extra: 0, loop_: 0, rewind: false, movement: false }];
    std::fs::write(dir.join("i.dmi"), pngw::png(32, 32, &[colour(3); 1024], Some(describe(32, 32, &st).as_bytes()))).unwrap();
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("c25");
    let a = model(r);
    let b = changed(r, &a);
    cx.input(format!("{}\n----\n{}", a.told(), b.told()));
    let la = a.write(r, &dir.join("a.dmm"));
    let lb = b.write(r, &dir.join("b.dmm"));
    match r.below(4) {
        0 => { if !diff(cx, &dir, &b, "b.dmm", &a, "a.dmm") { return; } },
        _ => { if !diff(cx, &dir, &a, "a.dmm", &b, "b.dmm") { return; } },
    }
    match r.below(5) {
        0 => { let c = a.shuffled(r); c.write(r, &dir.join("c.dmm")); if !diff(cx, &dir, &a, "a.dmm", &c, "c.dmm") { return; } cx.count("re-encoded copies compared", 1); },
        1 => { if !diff(cx, &dir, &a, "a.dmm", &a, "a.dmm") { return; } },
        2 => { let flip = r.bool(); broken(r, &dir, "x.dmm"); let o = cli::run("dmm-tools", &cli::args(&if flip { ["diff-maps", "x.dmm", "a.dmm"] } else { ["diff-maps", "a.dmm", "x.dmm"] }), &dir, None, 30); ensure!(cx, o.code.is_some_and(|c| c != 0), "diff-unreadable", "comparing with an unreadable map succeeds: {}", o.told()); cx.count("unreadable maps refused", 1); },
        _ => {},
    }
    if r.chance(1, 3) {
        let mut files = vec!["a.dmm", "b.dmm"];
        if r.bool() { files.reverse(); }
        if r.chance(1, 4) { files.pop(); }
        let bad = r.chance(1, 4);
        if bad { broken(r, &dir, "x.dmm"); files.insert(r.below(files.len() + 1), "x.dmm"); }
        let mut ar = vec!["map-info", "--json"];
        ar.extend(&files);
        let o = cli::run("dmm-tools", &cli::args(&ar), &dir, None, 30);
        if bad { ensure!(cx, o.code.is_some_and(|c| c != 0), "info-unreadable", "map-info of an unreadable map succeeds: {}", o.told()); cx.count("unreadable maps refused", 1); } else {
            let v: serde_json::Value = serde_json::from_str(&o.out).unwrap_or_default();
            let mut w = serde_json::Map::new();
            for f in &files { let (m, (l, n)) = if *f == "a.dmm" { (&a, la) } else { (&b, lb) }; w.insert((*f).to_owned(), serde_json::json!({"size": [m.x, m.y, m.z], "key_length": l, "num_keys": n})); }
            ensure!(cx, o.code == Some(0) && v == serde_json::Value::Object(w.clone()), "info", "map-info {files:?}: expected {w:?}\n{}", o.told());
            cx.count("maps described", files.len() as u64);
        }
    }
    if r.chance(1, 4) {
        env(&dir);
        let jobs = (*r.pick(&["1", "1", "2", "4"])).to_owned();
        let mut files = vec!["a.dmm".to_owned(), "b.dmm".to_owned()];
        let bad = if r.bool() { 1 + r.below(3) } else { 0 };
        for k in 0..bad { let n = format!("x{k}.dmm"); broken(r, &dir, &n); files.insert(r.below(files.len() + 1), n); }
        let blocked = r.chance(1, 6);
        if blocked { std::fs::write(dir.join("out"), "").unwrap(); }
        let noenv = r.chance(1, 8);
        let mut ar = cli::args(&["-e", if noenv { "nosuch.dme" } else { "e.dme" }, "--jobs", &jobs, "minimap", "-o", "out", "--disable", "all"]);
        ar.extend(files.clone());
        let o = cli::run("dmm-tools", &ar, &dir, None, 60);
        let fail = bad > 0 || blocked || noenv;
        ensure!(cx, o.code.is_some_and(|c| (c != 0) == fail), "status", "minimap of {files:?} (unreadable: {bad}, unwritable output {blocked}, no environment {noenv}): {}", o.told());
        let mut there: Vec<String> = std::fs::read_dir(dir.join("out")).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
        there.sort();
        let mut w: Vec<String> = if blocked || noenv { vec![] } else { (1..=a.z).map(|z| format!("a-{z}.png")).chain((1..=b.z).map(|z| format!("b-{z}.png"))).collect() };
        w.sort();
        ensure!(cx, there == w, "pictures", "minimap of {files:?} wrote {there:?} instead of {w:?}: {}", o.told());
        cx.count(if fail { "failing runs reported" } else { "succeeding runs reported" }, 1);
    }
}

/// The exit status stays a failure whatever the number of failures.
fn failures(cx: &mut Cx) {
    let dir = cx.dir("c25f");
    env(&dir);
    for (n, jobs) in [(0, "1"), (1, "1"), (2, "4"), (127, "1"), (128, "1"), (255, "1"), (256, "1"), (256, "4"), (257, "1"), (300, "8"), (512, "1"), (768, "2"), (1024, "1")] {
        let mut ar = cli::args(&["-e", "e.dme", "--jobs", jobs, "minimap", "-o", "out", "--disable", "all"]);
        for i in 0..n { ar.push(format!("nosuch{i}.dmm")); }
        let o = cli::run("dmm-tools", &ar, &dir, None, 60);
        cx.input(format!("minimap of {n} missing maps with {jobs} jobs"));
        ensure!(cx, o.code.is_some_and(|c| (c != 0) == (n > 0)), "status-wraps", "minimap of {n} missing maps ends with {:?}", o.code);
        cx.count("numbers of failures tried", 1);
    }
}
