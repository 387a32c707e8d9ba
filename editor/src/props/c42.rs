//! The map editor's representation of a map: loading, editing, drawing order and saving.
use crate::dmi::IconCache;
use crate::fw::*;
use crate::history::History;
use crate::map_repr::{AtomMap, InstanceId};
use crate::pngw;
use crate::rng::Rng;
use dm::constants::Constant;
use dm::objtree::ObjectTree;
use dmm_tools::dmm::{Key, Map, Prefab};
use dmm_tools::minimap::Layer;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C42",
    quick: 12000,
    thorough: 400000,
    case,
    directed: &[("empty tiles", empty), ("several turfs on a tile", turfs)],
    rule: "a case writes icons, defines types, makes a map with empty tiles, tiles with several turfs and edited variables, loads it as the editor does, and places and deletes instances, undoes, redoes, refreshes and saves as the editor's tools do; after every step the tiles of a save are compared with those before the step and the edit made, every slot of the drawing order, every draw call, index and vertex with those computed here from the types, variables and icons; saves with the loaded map as base keep the keys of tiles that stayed, and are read back from a file; distinct by map and steps, non-trivial with 3 placements and a deletion undone",
    assumptions: &["objects given as placed on a tile may appear anywhere among its instances", "icons are what C20 generates in simple layouts"],
    ..DEFAULT
};

struct Env { icons: IconCache, objtree: ObjectTree }
type H = History<AtomMap, Env>;

/// what a type or instance looks like
#[derive(Clone, Debug, PartialEq)]
struct Look { icon: usize, state: usize, dir: usize, layer: f32, plane: i32, px: i32, py: i32, color: usize, alpha: u8 }
const ICONS: &[&str] = &["a.dmi", "b.dmi", "bad.dmi", "none.dmi", "plain.dmi"];
const STATES: &[&str] = &["", "x", "nope"];
const DIRS: &[i32] = &[2, 1, 4, 8];
const COLORS: &[(&str, [u8; 3])] = &[("null", [255, 255, 255]), ("\"#102030\"", [16, 32, 48]), ("\"#ff0000\"", [255, 0, 0])];
const TYPES: &[&str] = &["/turf/floor", "/turf/wall", "/area/room", "/area/hall", "/obj/a", "/obj/b", "/mob/m"];
/// (cell width, height, columns); states: 1 direction, 4 directions
fn layout(icon: usize) -> Option<(u32, u32, u32, u32)> { match icon { 0 => Some((32, 32, 2, 3)), 1 => Some((16, 8, 5, 1)), 4 => Some((32, 32, 1, 1)), _ => None } }
fn write_icons(dir: &std::path::Path) {
    for i in [0, 1] {
        let (w, h, c, r) = layout(i).unwrap();
        let px = vec![[1, 2, 3, 255]; (w * c * h * r) as usize];
        let desc = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = {h}\nstate = \"\"\n\tdirs = 1\n\tframes = 1\nstate = \"x\"\n\tdirs = 4\n\tframes = 1\n# END DMI\n");
        std::fs::write(dir.join(ICONS[i]), pngw::png(w * c, h * r, &px, Some(desc.as_bytes()))).unwrap();
    }
    std::fs::write(dir.join("bad.dmi"), b"no icon").unwrap();
    std::fs::write(dir.join("plain.dmi"), pngw::png(32, 32, &[[9; 4]; 1024], None)).unwrap();
}
impl Look {
    fn random(r: &mut Rng) -> Look { Look { icon: r.weighted(&[6, 4, 1, 1, 2]), state: r.weighted(&[3, 4, 1]), dir: r.below(4), layer: *r.pick(&[2.0, 2.0, 2.5, 3.0, 4.0, 5.25, -1.0]), plane: r.weighted(&[5, 1, 1]) as i32 - 1, px: r.range(-40, 40) as i32, py: r.range(-40, 40) as i32, color: r.weighted(&[3, 1, 1]), alpha: *r.pick(&[255, 255, 128]) } }
    fn vars(&self) -> Vec<(&'static str, String, Constant)> {
        let f = |n: f32| (n.to_string(), Constant::Float(n));
        let one = |n: &'static str, (s, c): (String, Constant)| (n, s, c);
        vec![
            ("icon", format!("'{}'", ICONS[self.icon]), Constant::Resource(ICONS[self.icon].into())),
            ("icon_state", format!("\"{}\"", STATES[self.state]), Constant::String(STATES[self.state].into())),
            one("dir", f(DIRS[self.dir] as f32)),
            one("layer", f(self.layer)),
            one("plane", f(self.plane as f32)),
            one("pixel_x", f(self.px as f32)),
            one("pixel_y", f(self.py as f32)),
            ("color", COLORS[self.color].0.to_owned(), if self.color == 0 { Constant::null().clone() } else { Constant::String(COLORS[self.color].0.trim_matches('"').into()) }),
            one("alpha", f(self.alpha as f32)),
        ]
    }
    fn cell(&self) -> Option<(u32, u32)> {
        let (_, _, cols, _) = layout(self.icon)?;
        let i = match (self.icon, self.state) { (4, _) | (_, 0) => 0, (_, 1) => 1 + self.dir as u32, _ => return None };
        Some((i % cols, i / cols))
    }
}
fn close(a: f32, b: f32) -> bool { (a - b).abs() < 1e-4 }

struct World { env: Env, looks: Vec<Look>, palette: Vec<(Prefab, Look)>, told: String }
impl World {
    fn new(cx: &mut Cx, r: &mut Rng) -> World {
        let dir = cx.dir("icons");
        if !dir.join("a.dmi").exists() { write_icons(&dir); }
        let looks: Vec<Look> = TYPES.iter().map(|_| Look::random(r)).collect();
        let mut text = String::new();
        for (t, l) in TYPES.iter().zip(&looks) { text += &format!("{t}\n"); for (n, s, _) in l.vars() { text += &format!("\t{n} = {s}\n"); } }
        let ctx = dm::Context::default();
        let mut pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "types.dm".into(), text.clone());
        let objtree = { let indents = dm::indents::IndentProcessor::new(&ctx, &mut pp); dm::parser::Parser::new(&ctx, indents).parse_object_tree() };
        let mut palette = vec![];
        for _ in 0..3 + r.below(9) {
            let k = r.below(TYPES.len());
            let (mut p, mut l) = (Prefab::from_path(TYPES[k]), looks[k].clone());
            if r.chance(1, 3) {
                let over = Look::random(r);
                let vars = over.vars();
                for i in 0..vars.len() {
                    if !r.chance(1, 4) { continue; }
                    p.vars.insert(vars[i].0.into(), vars[i].2.clone());
                    match i { 0 => l.icon = over.icon, 1 => l.state = over.state, 2 => l.dir = over.dir, 3 => l.layer = over.layer, 4 => l.plane = over.plane, 5 => l.px = over.px, 6 => l.py = over.py, 7 => l.color = over.color, _ => l.alpha = over.alpha }
                }
            }
            if r.chance(1, 5) { p.vars.insert("name".into(), Constant::String(format!("n{}", r.below(3)).into())); }
            if palette.iter().all(|(q, _)| *q != p) { palette.push((p, l)); }
        }
        World { env: Env { icons: IconCache::new(&dir), objtree }, looks, palette, told: text }
    }
    fn look(&self, p: &Prefab) -> Option<&Look> { self.palette.iter().find(|(q, _)| q == p).map(|e| &e.1) }
}

type Tiles = BTreeMap<(u32, u32, u32), Vec<String>>;
fn show(p: &Prefab) -> String { format!("{p}") }
/// the tiles of a map by place, the lower left being 0, 0
fn tiles(m: &Map) -> Tiles {
    let (dx, dy, dz) = m.dim_xyz();
    let mut t = Tiles::new();
    for z in 0..dz { for y in 0..dy { for x in 0..dx { t.insert((x as u32, y as u32, z as u32), m.dictionary.get(&m.grid[(z, dy - 1 - y, x)]).map_or(vec!["no such key".to_owned()], |v| v.iter().map(show).collect())); } } }
    t
}
fn make_map(r: &mut Rng, w: &World) -> (Map, Tiles) {
    let (dx, dy, dz) = (1 + r.below(4), 1 + r.below(4), 1 + r.below(2));
    let mut m = Map::with_empty_dictionary(dx, dy, dz);
    let mut keys: Vec<Key> = vec![];
    let mut key = Key::default();
    for i in 0..1 + r.below(6) {
        for _ in 0..if r.bool() { 0 } else { r.below(60) } { key = key.next(); }
        let n = if r.chance(1, 8) { 0 } else { 1 + r.below(4) };
        let mut tile: Vec<Prefab> = (0..n).map(|_| r.pick(&w.palette).0.clone()).collect();
        if i > 0 && r.chance(1, 6) { tile = m.dictionary[&keys[0]].clone(); }
        m.dictionary.insert(key, tile);
        keys.push(key);
        key = key.next();
    }
    for k in m.grid.iter_mut() { *k = *r.pick(&keys); }
    m.adjust_key_length();
    let t = tiles(&m);
    (m, t)
}

/// the state of everything that is drawn
fn drawn(w: &World, m: &AtomMap, t: &Tiles) -> Option<String> {
    for z in 0..m.levels.len() {
        let level = &m.levels[z];
        let live: BTreeSet<usize> = level.instances.keys_iter().map(|e| e.0).collect();
        let order = &level.sorted_order;
        if order.len() != live.len() || order.iter().copied().collect::<BTreeSet<_>>() != live { return Some(format!("level {z}: drawn {order:?} of the instances {live:?}")); }
        let here: usize = t.iter().filter(|(k, _)| k.2 == z as u32).map(|(_, v)| v.len()).sum();
        if here != live.len() { return Some(format!("level {z}: {} instances instead of {here}", live.len())); }
        let ib: Vec<[u32; 6]> = m.index_buffer(z as u32).to_vec();
        if ib.len() != order.len() { return Some(format!("level {z}: {} indices for {} instances", ib.len(), order.len())); }
        let vb = m.vertex_buffer(z as u32);
        let mut last: Option<(i32, Layer, u32)> = None;
        let mut textures = vec![];
        for (slot, &i) in order.iter().enumerate() {
            let inst = level.instances.get_key(i);
            let Some(look) = w.look(&inst.pop) else { return Some(format!("an instance of {}", inst.pop)) };
            let b = i as u32 * 4;
            // two triangles which make up the rectangle of the instance's four corners
            let mut tri: Vec<BTreeSet<u32>> = ib[slot].chunks(3).map(|c| c.iter().copied().collect()).collect();
            tri.sort();
            let ok = tri.iter().all(|t| t.len() == 3 && t.iter().all(|v| (b..b + 4).contains(v))) && { let d: Vec<u32> = tri[0].intersection(&tri[1]).copied().collect(); d == [b, b + 2] || d == [b + 1, b + 3] };
            if !ok { return Some(format!("level {z}: indices {:?} of instance {i}", ib[slot])); }
            let mut key = (0, Layer::default(), 0);
            let mut want: Vec<([f32; 2], [f32; 2], [f32; 4])> = vec![];
            if let Some((cx, cy)) = look.cell() {
                let (cw, ch, cols, rows) = layout(look.icon).unwrap();
                let tex = w.env.icons.get_index(ICONS[look.icon].as_ref());
                let Some(tex) = tex else { return Some(format!("{} was not loaded", ICONS[look.icon])) };
                let file = w.env.icons.get_icon(tex);
                if (file.width, file.height) != (cw * cols, ch * rows) { return Some(format!("{} is {}x{}", ICONS[look.icon], file.width, file.height)); }
                key = (look.plane, Layer::from(look.layer), tex as u32);
                let (x, y) = ((inst.x * 32) as f32 + look.px as f32, (inst.y * 32) as f32 + look.py as f32);
                let c = COLORS[look.color].1;
                let color = [c[0] as f32 / 255.0, c[1] as f32 / 255.0, c[2] as f32 / 255.0, look.alpha as f32 / 255.0];
                for (i, j) in [(0, 0), (0, 1), (1, 1), (1, 0)] { want.push(([x + (i * cw) as f32, y + (j * ch) as f32], [(cx + i) as f32 / cols as f32, (cy + 1 - j) as f32 / rows as f32], color)); }
            } else {
                want = vec![([(inst.x * 32) as f32, (inst.y * 32) as f32], [0.0; 2], [0.0; 4]); 4];
            }
            if last.as_ref().is_some_and(|l| *l > key) { return Some(format!("level {z}: {} is drawn before something below it", inst.pop)); }
            textures.push(key.2);
            last = Some(key);
            let mut got: Vec<([f32; 2], [f32; 2], [f32; 4])> = vb[i].iter().map(|v| (v.position, v.uv, v.color)).collect();
            // any starting corner
            let same = |a: &([f32; 2], [f32; 2], [f32; 4]), b: &([f32; 2], [f32; 2], [f32; 4])| a.0.iter().zip(&b.0).all(|(x, y)| close(*x, *y)) && a.1.iter().zip(&b.1).all(|(x, y)| close(*x, *y)) && a.2.iter().zip(&b.2).all(|(x, y)| close(*x, *y));
            let mut found = false;
            for _ in 0..4 { if got.iter().zip(&want).all(|(a, b)| same(a, b)) { found = true; break; } got.rotate_left(1); }
            if !found { return Some(format!("level {z}: {} at {}, {} has the corners {:?} instead of {want:?}", inst.pop, inst.x, inst.y, vb[i])); }
        }
        let mut at = 0;
        for c in &level.draw_calls {
            let n = c.len as usize / 6;
            if c.len == 0 || c.len % 6 != 0 || at + n > textures.len() { return Some(format!("level {z}: draw calls {:?} for {textures:?}", level.draw_calls)); }
            if textures[at..at + n].iter().any(|t| *t != c.texture) { return Some(format!("level {z}: draw calls {:?} for {textures:?}", level.draw_calls)); }
            at += n;
        }
        if at != textures.len() { return Some(format!("level {z}: draw calls {:?} for {textures:?}", level.draw_calls)); }
    }
    None
}
fn listed(m: &AtomMap, t: &Tiles) -> Option<String> {
    for (&(x, y, z), want) in t {
        let mut got: Vec<String> = vec![];
        for (id, fab) in m.iter_instances((x, y, z)) {
            got.push(show(fab));
            match m.get_instance(&id) { Some(i) if (i.x, i.y) == (x, y) && *i.pop == *fab => {}, other => return Some(format!("instance {id:?} listed at {x}, {y}, {z} is {other:?}")) }
        }
        let mut want = want.clone();
        got.sort(); want.sort();
        if got != want { return Some(format!("listed at {x}, {y}, {z}: {got:?} instead of {want:?}")); }
    }
    None
}
fn place(h: &mut H, env: &Env, fab: &Prefab, loc: (u32, u32, u32)) {
    let fab = fab.clone();
    h.edit(env, "place".into(), move |env: &Env, world: &mut AtomMap| {
        let pop = world.add_pop(&fab, &env.icons, &env.objtree);
        let added = world.add_instance(loc, pop);
        Box::new(move |_: &Env, world: &mut AtomMap| world.undo_add_instance(&added))
    });
}
fn delete(h: &mut H, env: &Env, id: InstanceId) {
    h.edit(env, "delete".into(), move |_: &Env, world: &mut AtomMap| {
        let removed = world.remove_instance(id.clone());
        Box::new(move |env: &Env, world: &mut AtomMap| world.undo_remove_instance(&removed, &env.icons, &env.objtree))
    });
}
fn kind(p: &str) -> Option<&'static str> { if p.starts_with("/turf/") { Some("/turf/") } else if p.starts_with("/area/") { Some("/area/") } else { None } }
/// whether placing a prefab on a tile makes it that other tile
fn placed(old: &[String], new: &[String], fab: &str) -> bool {
    let mut rest = new.to_vec();
    let Some(i) = rest.iter().position(|p| p == fab) else { return false };
    rest.remove(i);
    let sorted = |v: &[String]| { let mut v = v.to_vec(); v.sort(); v };
    match kind(fab) {
        Some(k) if old.iter().any(|p| p.starts_with(k)) => (0..old.len()).filter(|&i| old[i].starts_with(k)).any(|i| { let mut o = old.to_vec(); o.remove(i); sorted(&o) == sorted(&rest) }),
        _ => sorted(old) == sorted(&rest),
    }
}
fn saved(cx: &Cx, m: &AtomMap, base: Option<&Map>, t: &Tiles, file: bool) -> Option<String> {
    let out = m.save(base);
    if tiles(&out) != *t { return Some(format!("saved as {:?} instead of {t:?}", tiles(&out))); }
    let used: BTreeSet<Key> = out.grid.iter().copied().collect();
    if let Some(base) = base {
        for (k, v) in &base.dictionary { if let Some(o) = out.dictionary.get(k) { let reused = o == v; if !reused && out.dictionary.values().any(|x| x == v) && !base.dictionary.iter().any(|(k2, v2)| v2 == v && k2 != k) { return Some(format!("{v:?} does not keep its key")); } } }
        for k in &used { let v = &out.dictionary[k]; if base.dictionary.values().any(|b| b == v) && base.dictionary.get(k) != Some(v) { return Some(format!("{v:?} does not keep its key")); } }
    }
    for (i, (_, v)) in out.dictionary.iter().enumerate() { if base.is_none() && out.dictionary.values().skip(i + 1).any(|o| o == v) { return Some(format!("{v:?} has two keys")); } }
    for k in out.dictionary.keys() { if base.is_none() && !used.contains(k) { return Some("an unused key".to_owned()); } }
    if file {
        let path = cx.scratch.join("saved.dmm");
        if let Err(e) = out.to_file(&path) { return Some(format!("not written: {e}")); }
        match Map::from_file(&path) { Ok(again) => { if tiles(&again) != *t { return Some(format!("read back as {:?} instead of {t:?}", tiles(&again))); } }, Err(e) => return Some(format!("not read back: {e}")) }
    }
    None
}

struct Node { tiles: Tiles, parent: Option<usize>, redo: Option<usize> }
fn session(cx: &mut Cx, r: &mut Rng, w: &mut World, map: Map, start: Tiles, steps: usize) {
    let mut h = H::new("Loaded".into(), AtomMap::new(&map, &w.env.icons, &w.env.objtree));
    let mut tree = vec![Node { tiles: start, parent: None, redo: None }];
    let mut at = 0;
    let (mut places, mut deletes, mut undone) = (0, 0, 0);
    w.told += &format!("map {:?}\n", tree[0].tiles);
    for step in 0..=steps {
        let before = tree[at].tiles.clone();
        let spots: Vec<(u32, u32, u32)> = before.keys().copied().collect();
        let spot = *r.pick(&spots);
        if step > 0 { match r.weighted(&[6, 3, 5, 3, 1, 1]) {
            0 => {
                let fab = r.pick(&w.palette).0.clone();
                w.told += &format!("place {fab} at {spot:?}\n");
                place(&mut h, &w.env, &fab, spot);
                let now = tiles(&h.current().save(None));
                if let Some(t) = before.keys().find(|t| **t != spot && before[t] != now[t]) { cx.violate("another tile", format!("{}tile {t:?} became {:?}", w.told, now[t])); return; }
                if !placed(&before[&spot], &now[&spot], &show(&fab)) { cx.violate("placed", format!("{}{:?} became {:?}", w.told, before[&spot], now[&spot])); return; }
                tree.push(Node { tiles: now, parent: Some(at), redo: None });
                let n = tree.len() - 1; tree[at].redo = Some(n); at = n;
                places += 1;
            },
            1 => {
                let ids: Vec<(InstanceId, String)> = h.current().iter_instances(spot).map(|(i, p)| (i, show(p))).collect();
                if ids.is_empty() { continue; }
                let (id, fab) = r.pick(&ids).clone();
                w.told += &format!("delete {fab} from {spot:?}\n");
                delete(&mut h, &w.env, id.clone());
                if let Some(i) = h.current().get_instance(&id) { cx.violate("deleted", format!("{}the deleted instance is {i:?}", w.told)); return; }
                let now = tiles(&h.current().save(None));
                let mut want = before.clone();
                let list = want.get_mut(&spot).unwrap();
                let i = list.iter().position(|p| *p == fab).unwrap();
                list.remove(i);
                let sorted = |t: &Tiles| { let mut t = t.clone(); t.get_mut(&spot).unwrap().sort(); t };
                if sorted(&now) != sorted(&want) { cx.violate("deleted", format!("{}{now:?} instead of {want:?}", w.told)); return; }
                tree.push(Node { tiles: now, parent: Some(at), redo: None });
                let n = tree.len() - 1; tree[at].redo = Some(n); at = n;
                deletes += 1;
            },
            2 => { w.told += "undo\n"; h.undo(&w.env); if let Some(p) = tree[at].parent { at = p; undone += 1; } },
            3 => { w.told += "redo\n"; h.redo(&w.env); if let Some(c) = tree[at].redo { at = c; } },
            4 => { w.told += "refresh\n"; let mut m = h.current().clone(); m.refresh_pops(&w.env.icons, &w.env.objtree); h.replace_current(m); },
            _ => { w.told += "sort\n"; let mut m = h.current().clone(); m.sort_again(spot.2); h.replace_current(m); },
        } }
        cx.input(w.told.clone());
        let (m, t) = (h.current(), &tree[at].tiles);
        let base = match r.below(3) { 0 => None, _ => Some(&map) };
        if let Some(e) = saved(cx, m, base, t, r.chance(1, 12)) { cx.violate("saved", format!("{}{e}", w.told)); return; }
        if let Some(e) = listed(m, t) { cx.violate("listed", format!("{}{e}", w.told)); return; }
        if let Some(e) = drawn(w, m, t) { cx.violate("drawn", format!("{}{e}", w.told)); return; }
        cx.count("states compared", 1);
        cx.count("instances compared", t.values().map(|v| v.len() as u64).sum());
    }
    cx.sig(&w.told);
    if places >= 3 && deletes > 0 && undone > 0 { cx.nontrivial(); }
}
fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let mut w = World::new(cx, &mut r);
    let (map, start) = make_map(&mut r, &w);
    let steps = 4 + r.below(36);
    session(cx, &mut r, &mut w, map, start, steps);
}
fn plain(cx: &mut Cx) -> World {
    let mut r = Rng::new(1);
    let mut w = World::new(cx, &mut r);
    w.palette = TYPES.iter().zip(&w.looks).map(|(t, l)| (Prefab::from_path(*t), l.clone())).collect();
    w
}
/// deleting everything from a tile leaves it empty
fn empty(cx: &mut Cx) {
    let w = plain(cx);
    let map = Map::new(2, 2, 1, "/turf/floor".into(), "/area/room".into());
    let mut h = H::new("new".into(), AtomMap::new(&map, &w.env.icons, &w.env.objtree));
    while let Some((id, _)) = { let x = h.current().iter_instances((1, 0, 0)).next().map(|e| (e.0, ())); x } { delete(&mut h, &w.env, id); }
    let mut want = tiles(&map);
    want.insert((1, 0, 0), vec![]);
    cx.input("empty tile");
    for base in [None, Some(&map)] { if let Some(e) = saved(cx, h.current(), base, &want, true) { cx.violate("saved empty tile", e); return; } }
    cx.count("empty tiles saved", 2);
    cx.nontrivial();
}
/// tiles with several turfs: each placement and deletion is undone exactly
fn turfs(cx: &mut Cx) {
    let w = plain(cx);
    let f = |s: &str| Prefab::from_path(s);
    for n in 0..4 { for del in 0..4 {
        let mut map = Map::new(1, 1, 1, "/turf/floor".into(), "/area/room".into());
        let tile = vec![f("/turf/floor"), f("/obj/a"), f("/turf/wall"), f("/area/room"), f("/area/hall")];
        *map.dictionary.get_mut(&map.grid[(0, 0, 0)]).unwrap() = tile[..=1 + n].to_vec();
        let mut h = H::new("new".into(), AtomMap::new(&map, &w.env.icons, &w.env.objtree));
        let start = tiles(&map);
        cx.input(format!("{n} {del}"));
        let ids: Vec<InstanceId> = h.current().iter_instances((0, 0, 0)).map(|e| e.0).collect();
        if del < ids.len() { delete(&mut h, &w.env, ids[del].clone()); }
        let middle = tiles(&h.current().save(None));
        for p in ["/turf/wall", "/area/hall", "/obj/b"] { place(&mut h, &w.env, &f(p), (0, 0, 0)); h.undo(&w.env); if let Some(e) = saved(cx, h.current(), None, &middle, false) { cx.violate("undone placement", format!("{p} on {middle:?}: {e}")); return; } }
        h.undo(&w.env);
        if let Some(e) = saved(cx, h.current(), None, &start, false) { cx.violate("undone deletion", format!("{start:?}: {e}")); return; }
        cx.count("tiles with several turfs", 1);
    } }
    cx.nontrivial();
}
