//! What smoothing and cable layout make of the neighbours of an object.
use crate::dm_util::parse_text;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::constants::{Constant, evaluate_str};
use dm::objtree::ObjectTree;
use dmm_tools::dmm::{Map, Prefab};
use dmm_tools::minimap::{self, Atom, GetVar, Neighborhood, Sprite};
use dmm_tools::render_passes::{RENDER_PASSES, RenderPass};
use dmm_tools::IconCache;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, RwLock};

pub static PROP: Prop = Prop {
    id: "C46",
    quick: 25000,
    thorough: 120000,
    case,
    directed: &[],
    rule: "a case is a generated map of turfs, objects and areas whose types and instances have smoothing variables (flags, lists of types or groups to smooth with, groups, anchoring, icons of their own, broken floors, cables of several layers), of which a part is rendered with one of the three smoothing passes or the cable pass, the pass being wrapped by a monitor which records, for every object drawn, what the pass added and whether the object's own appearance was kept; the record is compared with a model of the joins; distinct by types, map and pass, non-trivial with joined and unjoined sides and at least 10 objects decided",
    assumptions: &["a closed turf with diagonal corners that is joined on exactly one side by bitmask is not judged", "no other pass is active"],
    ..DEFAULT
};

type Vars = BTreeMap<&'static str, String>;
const TYPES: &[&str] = &[
    "/turf/open/floor", "/turf/open/floor/plating", "/turf/open/space/basic", "/turf/open/openspace", "/turf/closed/wall", "/turf/closed/wall/r_wall", "/turf/closed/mineral", "/turf/closed/walls",
    "/obj/structure/table", "/obj/structure/table/glass", "/obj/structure/window", "/obj/structure/cable", "/obj/structure/cable/red", "/obj/structure/cable/multilayer", "/obj/structure/cables",
    "/obj/machinery/power/terminal", "/obj/machinery/power/smes", "/obj/structure/grille", "/obj/structure/cable_bridge", "/mob/blob", "/area/hall",
];
/// the directions as (name, columns east, rows north)
const N: (i32, i32) = (0, 1);
const S: (i32, i32) = (0, -1);
const E: (i32, i32) = (1, 0);
const W: (i32, i32) = (-1, 0);

fn is(path: &str, parent: &str) -> bool { path == parent || path.starts_with(&format!("{parent}/")) }

fn list(r: &mut Rng, paths: bool) -> String {
    let mut v = vec![];
    for _ in 0..1 + r.below(3) {
        v.push(if paths && r.bool() { (*r.pick(TYPES)).to_owned() } else { (*r.pick(&["1", "2", "3", "\"group\"", "null"])).to_owned() });
    }
    format!("list({})", v.join(", "))
}
fn some_vars(r: &mut Rng, instance: bool) -> Vars {
    let mut v = Vars::new();
    if r.chance(1, if instance { 8 } else { 2 }) { v.insert("smooth", r.below(16).to_string()); }
    if r.chance(1, if instance { 8 } else { 2 }) { v.insert("smoothing_flags", r.below(16).to_string()); }
    if r.chance(1, if instance { 16 } else { 3 }) { v.insert("canSmoothWith", if r.chance(1, 8) { "null".into() } else { list(r, true) }); }
    if r.chance(1, if instance { 16 } else { 2 }) { v.insert("smoothing_groups", if r.chance(1, 8) { "null".into() } else { list(r, true) }); }
    for k in ["can_be_unanchored", "anchored", "broken", "burnt"] { if r.chance(1, if instance { 10 } else { 5 }) { v.insert(k, r.below(2).to_string()); } }
    if r.chance(1, 10) { v.insert("smooth_icon", (*r.pick(&["'sm.dmi'", "'sn.dmi'", "null"])).into()); }
    if r.chance(1, if instance { 12 } else { 3 }) { v.insert("base_icon_state", format!("\"b{}\"", r.below(9))); }
    if r.chance(1, 4) { v.insert("icon_state", format!("\"st{}\"", r.below(9))); }
    if r.chance(1, 6) { v.insert("icon", format!("'i{}.dmi'", r.below(4))); }
    if r.chance(1, 6) { v.insert("dir", (*r.pick(&["1", "2", "4", "8", "5"])).into()); }
    if r.chance(1, 6) { v.insert("pixel_x", (r.below(20) as i32 - 10).to_string()); }
    if r.chance(1, 6) { v.insert("pixel_y", (r.below(20) as i32 - 10).to_string()); }
    if r.chance(1, 12) { v.insert("fixed_underlay", (*r.pick(&["list(\"space\" = 1)", "list(\"other\" = 1)", "null"])).into()); }
    if r.chance(1, 14) { v.insert("post_init_icon_state", (*r.pick(&["\"p\"", "null"])).into()); }
    if r.chance(1, 8) { v.insert("cable_layer", (*r.pick(&["\"l1\"", "\"l2\"", "\"l3\""])).into()); }
    v
}

struct World { tree: ObjectTree, text: String, own: BTreeMap<&'static str, Vars> }
struct Thing { path: &'static str, vars: Vars }
fn root() -> Vars {
    let mut v = Vars::new();
    for (k, x) in [("icon", "'i.dmi'"), ("icon_state", "\"\""), ("dir", "2"), ("pixel_x", "0"), ("pixel_y", "0")] { v.insert(k, x.to_owned()); }
    v
}
fn parent(p: &str) -> &str { match p { "/turf" | "/area" | "/obj" | "/mob" => "/atom", p => &p[..p.rfind('/').unwrap()] } }
impl World {
    fn get<'a>(&'a self, t: &'a Thing, key: &str) -> &'a str { t.vars.get(key).map_or_else(|| self.of(t.path, key), |s| s) }
    fn of(&self, path: &str, key: &str) -> &str {
        let mut p = path;
        loop {
            if let Some(v) = self.own.get(p).and_then(|v| v.get(key)) { return v; }
            if p == "/atom" { return "null"; }
            p = parent(p);
        }
    }
    fn int(&self, t: &Thing, key: &str) -> i32 { self.get(t, key).parse().unwrap_or(0) }
    fn yes(&self, t: &Thing, key: &str) -> bool { self.int(t, key) != 0 }
    fn list(&self, t: &Thing, key: &str) -> Option<Vec<String>> { self.get(t, key).strip_prefix("list(").map(|s| s.strip_suffix(')').unwrap().split(", ").map(str::to_owned).collect()) }
}

/// icon, icon state, dir, offset
type Drawn = (String, String, i32, i32, i32);
fn bare(s: &str) -> String { s.trim_matches(|c| c == '\'' || c == '"').to_owned() }
fn look(w: &World, t: &Thing) -> Drawn { (bare(w.get(t, "icon")), bare(w.get(t, "icon_state")), w.int(t, "dir"), w.int(t, "pixel_x"), w.int(t, "pixel_y")) }

struct Scene { w: World, tiles: Vec<Vec<Vec<Thing>>> }
impl Scene {
    /// the things beside a place, none beyond the map; row 0 is the northernmost
    fn at(&self, x: usize, y: usize, d: (i32, i32)) -> Option<&[Thing]> {
        let (x, y) = (x as i32 + d.0, y as i32 - d.1);
        if x < 0 || y < 0 { return None; }
        Some(self.tiles.get(y as usize)?.get(x as usize)?)
    }
    fn joined(&self, pass: &str, x: usize, y: usize, t: &Thing, d: (i32, i32)) -> bool {
        let old = pass == "icon-smoothing-2016";
        let flags = self.w.int(t, if old { "smooth" } else { "smoothing_flags" });
        let Some(there) = self.at(x, y, d) else { return flags & 8 != 0 };
        match self.w.list(t, "canSmoothWith") {
            None => there.iter().any(|o| o.path == t.path),
            Some(want) if old => there.iter().any(|o| want.iter().any(|p| if flags & 2 != 0 { is(o.path, p) } else { o.path == p })),
            Some(want) => there.iter().any(|o| self.w.list(o, "smoothing_groups").is_some_and(|g| g.iter().any(|g| want.contains(g)))),
        }
    }
    /// the sides and corners an object is joined at
    fn joins(&self, pass: &str, x: usize, y: usize, t: &Thing) -> BTreeSet<(i32, i32)> {
        let mut out = BTreeSet::new();
        if pass != "icon-smoothing-2016" && !t.path.starts_with("/turf") && !t.path.starts_with("/area") && self.w.yes(t, "can_be_unanchored") && !self.w.yes(t, "anchored") { return out; }
        for d in [N, S, E, W] { if self.joined(pass, x, y, t, d) { out.insert(d); } }
        for ns in [N, S] { for ew in [E, W] { if out.contains(&ns) && out.contains(&ew) && self.joined(pass, x, y, t, (ew.0, ns.1)) { out.insert((ew.0, ns.1)); } } }
        out
    }
    fn underlay(&self, x: usize, y: usize, t: &Thing, corner: (i32, i32), out: &mut Vec<Drawn>) {
        let w = &self.w;
        let plain = |path: &'static str| look(w, &Thing { path, vars: Vars::new() });
        if w.get(t, "fixed_underlay").contains("\"space\"") { out.push(plain("/turf/open/space/basic")); return; }
        // away from the corner, then to the left and to the right of that
        let away = (-corner.0, -corner.1);
        let left = if away.0 * away.1 > 0 { (0, away.1) } else { (away.0, 0) };
        let right = if away.0 * away.1 > 0 { (away.0, 0) } else { (0, away.1) };
        for d in [away, left, right] { if let Some(o) = self.at(x, y, d).and_then(|l| l.iter().find(|o| is(o.path, "/turf/open"))) { out.push(look(w, o)); return; } }
        out.push(plain("/turf/open/floor/plating"));
    }
    /// None where nothing is expected of the pass
    fn expect(&self, pass: &str, x: usize, y: usize, t: &Thing) -> Option<(bool, Vec<Drawn>)> {
        let w = &self.w;
        let mut base = look(w, t);
        let mut out = vec![];
        if pass == "smart-cables" {
            if !is(t.path, "/obj/structure/cable") || is(t.path, "/obj/structure/cable/multilayer") { return Some((true, out)); }
            let layer = |o: &Thing| match w.get(o, "cable_layer") { "null" => "l2".to_owned(), l => bare(l) };
            let has = |l: &[Thing], p: &str| l.iter().any(|o| is(o.path, p));
            let here = &self.tiles[y][x];
            let bad = if has(here, "/obj/machinery/power/smes") { "/obj/machinery/power/terminal" } else if has(here, "/obj/machinery/power/terminal") { "/obj/machinery/power/smes" } else { "/nothing" };
            let mut ends = vec![];
            for (d, k) in [(N, 1), (S, 2), (E, 4), (W, 8)] {
                let Some(l) = self.at(x, y, d) else { continue };
                if !has(l, bad) && l.iter().any(|o| is(o.path, "/obj/structure/cable") && layer(o) == layer(t)) { ends.push(k); }
            }
            let mut s = layer(t);
            if ends.is_empty() { s += "-noconnection"; }
            for k in &ends { s += &format!("-{k}"); }
            if ends.len() > 1 && ["/obj/structure/grille", "/obj/structure/cable_bridge", "/obj/machinery/power"].iter().any(|p| has(here, p)) { s += "-node"; }
            base.1 = s;
            return Some((false, vec![base]));
        }
        if is(t.path, "/turf/closed/mineral") { base.3 -= 4; base.4 -= 4; }
        let old = pass == "icon-smoothing-2016";
        let flags = w.int(t, if old { "smooth" } else { "smoothing_flags" });
        let corners = if old { flags & 3 != 0 } else { pass == "icon-smoothing" && flags & 1 != 0 };
        let bitmask = if pass == "icon-smoothing-2025" { flags & 1 != 0 } else { !old && !corners && flags & 2 != 0 };
        if !corners && !bitmask { return Some((true, out)); }
        let j = self.joins(pass, x, y, t);
        let sides: Vec<_> = [N, S, E, W].into_iter().filter(|d| j.contains(d)).collect();
        // joined at two neighbouring sides only, with what is between them or without
        let corner = (sides.len() == 2 && sides[0].1 != 0 && sides[1].0 != 0).then(|| (sides[1].0, sides[0].1));
        let icon = w.get(t, "smooth_icon");
        if icon != "null" { base.0 = bare(icon); }
        if corners {
            match corner.filter(|_| flags & 4 != 0) {
                Some(c) => {
                    if is(t.path, "/turf/closed/wall") { self.underlay(x, y, t, c, &mut out); }
                    let name = format!("d-{}{}", if c.1 > 0 { "s" } else { "n" }, if c.0 > 0 { "w" } else { "e" });
                    for s in [name.clone(), format!("{name}-{}", u8::from(j.contains(&c)))] { out.push((base.0.clone(), s, base.2, base.3, base.4)); }
                },
                None => for (k, ns, ew) in [("1", N, W), ("2", N, E), ("3", S, W), ("4", S, E)] {
                    let (n, e) = (if ns == N { "n" } else { "s" }, if ew == W { "w" } else { "e" });
                    let s = match (j.contains(&ns), j.contains(&ew)) { (true, true) if j.contains(&(ew.0, ns.1)) => "f".to_owned(), (true, true) => format!("{n}{e}"), (true, false) => n.to_owned(), (false, true) => e.to_owned(), _ => "i".to_owned() };
                    out.push((base.0.clone(), format!("{k}-{s}"), base.2, base.3, base.4));
                },
            }
            return Some((false, out));
        }
        let mut d = "";
        if is(t.path, "/turf/open/floor") { if w.yes(t, "broken") || w.yes(t, "burnt") { return Some((true, out)); } }
        else if is(t.path, "/turf/closed") && flags & 4 != 0 {
            if sides.len() == 1 { return None; }
            if let Some(c) = corner { self.underlay(x, y, t, c, &mut out); d = "-d"; }
        }
        if pass == "icon-smoothing-2025" && w.get(t, "post_init_icon_state") != "null" { return Some((true, out)); }
        let bit = |d: (i32, i32)| match d { (0, 1) => 1, (0, -1) => 2, (1, 0) => 4, (-1, 0) => 8, (1, 1) => 16, (1, -1) => 32, (-1, -1) => 64, _ => 128 };
        let name = w.get(t, "base_icon_state");
        base.1 = format!("{}-{}{d}", if name == "null" { String::new() } else { bare(name) }, j.iter().map(|x| bit(*x)).sum::<i32>());
        out.push(base);
        Some((false, out))
    }
}

type Log = Arc<Mutex<Vec<(String, bool, Vec<Drawn>)>>>;
/// stands for the pass and writes down what it does
struct Monitor { inner: Box<dyn RenderPass>, log: Log }
impl RenderPass for Monitor {
    fn adjust_sprite<'a>(&self, atom: &Atom<'a>, sprite: &mut Sprite<'a>, objtree: &'a ObjectTree, bump: &'a bumpalo::Bump) { self.inner.adjust_sprite(atom, sprite, objtree, bump) }
    fn neighborhood_appearance<'a>(&self, atom: &Atom<'a>, objtree: &'a ObjectTree, neighborhood: &Neighborhood<'a, '_>, output: &mut Vec<Sprite<'a>>, bump: &'a bumpalo::Bump) -> bool {
        let n = output.len();
        let kept = self.inner.neighborhood_appearance(atom, objtree, neighborhood, output, bump);
        let tag = atom.get_var("tag", objtree).as_str().unwrap_or("").to_owned();
        self.log.lock().unwrap().push((tag, kept, output[n..].iter().map(|s| (s.icon.to_owned(), s.icon_state.to_owned(), s.dir.to_int(), s.ofs_x, s.ofs_y)).collect()));
        kept
    }
}

fn constant(s: &str) -> Constant { evaluate_str(Default::default(), s.as_bytes()).unwrap() }

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    // the types
    let mut own: BTreeMap<&'static str, Vars> = BTreeMap::new();
    own.insert("/atom", root());
    let mut text = String::from("/atom\n\tplane = 0\n\tlayer = 2\n");
    for v in ["smooth", "smoothing_flags", "list/canSmoothWith", "list/smoothing_groups", "can_be_unanchored", "anchored", "broken", "burnt", "smooth_icon", "base_icon_state", "list/fixed_underlay", "post_init_icon_state", "cable_layer"] { text += &format!("\tvar/{v}\n"); }
    for (k, v) in root() { text += &format!("\t{k} = {v}\n"); }
    let favour = r.chance(1, 2);
    for t in TYPES {
        let v = if r.chance(3, 4) { some_vars(&mut r, false) } else { Vars::new() };
        text += &format!("{t}\n\tdesc = \"x\"\n");
        for (k, x) in &v { text += &format!("\t{k} = {x}\n"); }
        own.insert(t, v);
    }
    let parsed = parse_text(&text);
    let w = World { tree: parsed.tree, text, own };
    // the map
    let (dx, dy) = (1 + r.below(6), 1 + r.below(5));
    let mine: Vec<&'static str> = if favour { let mut v = vec![]; for _ in 0..2 + r.below(4) { v.push(*r.pick(TYPES)); } v } else { TYPES.to_vec() };
    let mut tiles = vec![];
    for _ in 0..dy {
        let mut row = vec![];
        for _ in 0..dx {
            let mut tile = vec![];
            for _ in 0..r.below(4) { let p = *r.pick(&mine); if !p.starts_with("/turf") && !p.starts_with("/area") { tile.push(p); } }
            let turfs: Vec<_> = mine.iter().copied().filter(|p| p.starts_with("/turf")).collect();
            tile.push(if turfs.is_empty() { "/turf/open/floor" } else { r.pick(&turfs) });
            tile.push("/area/hall");
            row.push(tile.into_iter().map(|path| Thing { path, vars: if r.chance(1, 4) { some_vars(&mut r, true) } else { Vars::new() } }).collect::<Vec<_>>());
        }
        tiles.push(row);
    }
    let scene = Scene { w, tiles };
    let mut map = Map::with_empty_dictionary(dx, dy, 1);
    let mut shown = String::new();
    for (y, row) in scene.tiles.iter().enumerate() {
        for (x, tile) in row.iter().enumerate() {
            let k = super::c17::nth_key(y * dx + x);
            map.dictionary.insert(k, tile.iter().enumerate().map(|(i, t)| {
                let mut p = Prefab::from_path(t.path);
                for (k, v) in &t.vars { p.vars.insert((*k).to_owned(), constant(v)); }
                p.vars.insert("tag".into(), Constant::String(format!("{x},{y},{i}").into()));
                p
            }).collect());
            map.grid[(0, y, x)] = k;
            shown += &format!("({x},{y}): {}\n", tile.iter().map(|t| format!("{}{:?}", t.path, t.vars)).collect::<Vec<_>>().join(" "));
        }
    }
    cx.input(&format!("{}{shown}", scene.w.text));
    let (x0, y0) = (r.below(dx), r.below(dy));
    let (x1, y1) = if r.bool() { (dx - 1, dy - 1) } else { (x0 + r.below(dx - x0), y0 + r.below(dy - y0)) };
    let (x0, y0) = if r.bool() { (0, 0) } else { (x0, y0) };
    let icons = IconCache::default();
    let (mut decided, mut some, mut none) = (0, false, false);
    for pass in ["icon-smoothing", "icon-smoothing-2016", "icon-smoothing-2025", "smart-cables"] {
        let log: Log = Default::default();
        let info = RENDER_PASSES.iter().find(|p| p.name == pass).expect("the pass is there");
        let passes: Vec<Box<dyn RenderPass>> = vec![Box::new(Monitor { inner: (info.new)(), log: log.clone() })];
        let errors = RwLock::new(Default::default());
        let bump = bumpalo::Bump::new();
        // the grid's rows go from the north; min and max count from the south in the command line, from the grid's start here
        let img = catch(|| minimap::generate(minimap::Context { objtree: &scene.w.tree, map: &map, level: map.z_level(0), min: (x0, y0), max: (x1, y1), render_passes: &passes, errors: &errors, bump: &bump, print_errors: false }, &icons));
        ensure!(cx, matches!(img, Ok(Ok(_))), "render", "{pass}: rendering fails");
        let got = std::mem::take(&mut *log.lock().unwrap());
        let mut seen = BTreeSet::new();
        for (tag, kept, drawn) in got {
            let at: Vec<usize> = tag.split(',').map(|s| s.parse().unwrap()).collect();
            let (x, y, i) = (at[0], at[1], at[2]);
            ensure!(cx, seen.insert((x, y, i)), "twice", "{pass}: {tag} is drawn twice");
            let t = &scene.tiles[y][x][i];
            let Some(want) = scene.expect(pass, x, y, t) else { cx.count("not judged", 1); continue };
            decided += 1;
            cx.count(&format!("objects under {pass}"), 1);
            if !want.0 { cx.count(&format!("objects changed by {pass}"), 1); if pass != "smart-cables" { let j = scene.joins(pass, x, y, t); some |= !j.is_empty(); none |= j.len() < 8; cx.count("sides and corners joined", j.len() as u64); } }
            ensure!(cx, (kept, &drawn) == (want.0, &want.1), &format!("{pass}:{}", if kept != want.0 { "appearance" } else if drawn.len() != want.1.len() { "number" } else { "sprites" }), "{pass}: {} at ({x},{y}) is drawn as {drawn:?}, its own appearance {}, but should be {:?}, {}\n{}\n{}", t.path, if kept { "kept" } else { "replaced" }, want.1, if want.0 { "kept" } else { "replaced" }, shown, scene.w.text);
        }
        let drawn = (x1 - x0 + 1) * (y1 - y0 + 1);
        let tiles: BTreeSet<(usize, usize)> = seen.iter().map(|s| (s.0, s.1)).collect();
        ensure!(cx, tiles.len() == drawn, "tiles", "{pass}: {} tiles drawn of {drawn}", tiles.len());
    }
    if some && none && decided >= 10 { cx.nontrivial(); }
}
