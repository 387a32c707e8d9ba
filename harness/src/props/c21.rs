use crate::dm_util::parse_text;
use crate::ensure;
use crate::fw::*;
use crate::pngw;
use crate::props::c20::{describe, gen_states, St};
use crate::rng::Rng;
use dm::constants::Constant;
use dm::objtree::ObjectTree;
use dmm_tools::dmi::Dir;
use dmm_tools::dmm::{Key, Map, Prefab};
use dmm_tools::IconCache;
use dmm_tools::minimap::{self, Atom, GetVar, Layer, Neighborhood, Sprite};
use dmm_tools::render_passes::RenderPass;
use std::collections::BTreeMap;
use std::sync::RwLock;

pub static PROP: Prop = Prop {
    id: "C21",
    quick: 12000,
    thorough: 700000,
    case,
    directed: &[("layers close to zero", tiny), ("colours", colours)],
    rule: "a case writes icon sheets (every state, direction and frame cell with pixels of its own, opaque, clear and translucent), object types with inherited and overridden appearance, and a map of several levels, and renders a random rectangle of it with and without a pass of the harness's own (hiding, underlays, overlays, neighbours, sprite filter); a painter written from the property paints the same objects in floating point and every pixel is compared (premultiplied, within the rounding of as many layers as were painted; opaque pixels exactly); distinct by types, map and rectangle, non-trivial when at least three sprites overlap some pixel",
    assumptions: &["layers differ by at least 1/1000 or not at all", "objects on different tiles with equal plane and layer are painted row by row from the top, left to right"],
    ..DEFAULT
};

#[derive(Clone)]
struct Sheet { w: u32, h: u32, cols: u32, iw: u32, states: Vec<St>, px: Vec<[u8; 4]> }
impl Sheet {
    fn make(r: &mut Rng) -> (Sheet, Vec<u8>) {
        let n = 1 + r.below(4);
        let mut states = gen_states(r, n, 3);
        for s in &mut states { s.name = s.name.replace(['"', '\\'], "'"); } // constants keep escapes as written
        let (w, h) = if r.bool() { (32, 32) } else { (1 + r.below(50) as u32, 1 + r.below(50) as u32) };
        let total: usize = states.iter().map(|s| s.dirs * s.frames).sum();
        let cols = 1 + r.below(total) as u32;
        let rows = (total as u32).div_ceil(cols);
        let (iw, ih) = (cols * w, rows * h);
        let solid = r.chance(1, 3);
        let px: Vec<[u8; 4]> = (0..iw * ih).map(|i| {
            let (x, y) = (i % iw, i / iw);
            // flat regions with a few odd pixels
            let cell = y / h * cols + x / w;
            let k = crate::rng::mix((cell as u64) << 32 | ((x % w / 9) << 8 | (y % h / 9)) as u64);
            let a = if solid { 255 } else { match k >> 40 & 3 { 0 => 0, 1 => (k >> 50) as u8, _ => 255 } };
            [k as u8, (k >> 8) as u8, (k >> 16) as u8, a]
        }).collect();
        let bytes = pngw::png(iw, ih, &px, Some(describe(w, h, &states).as_bytes()));
        (Sheet { w, h, cols, iw, states, px }, bytes)
    }
    /// First frame of the first state of that name.
    fn cell(&self, name: &str, dir: i64) -> Option<u32> {
        let mut c = 0;
        for s in &self.states {
            if s.name == name {
                // how BYOND orders directions; diagonals of four-directional states take the tool's documented east/west or south
                let slot = match (s.dirs, dir) { (1, _) => 0, (_, 2) => 0, (_, 1) => 1, (_, 4) => 2, (_, 8) => 3, (8, 6) => 4, (8, 10) => 5, (8, 5) => 6, (8, 9) => 7, _ => return Some(u32::MAX) };
                return Some(c + slot);
            }
            c += (s.dirs * s.frames) as u32;
        }
        None
    }
    fn at(&self, cell: u32, x: u32, y: u32) -> [u8; 4] { self.px[((cell / self.cols * self.h + y) * self.iw + cell % self.cols * self.w + x) as usize] }
}

#[derive(Clone, Debug, PartialEq)]
enum V { Num(f64), Str(String), Icon(usize), Missing, Null }
type Vars = BTreeMap<&'static str, V>;

fn gen_vars(r: &mut Rng, sheets: &[Sheet], n: usize, wild: bool) -> Vars {
    let mut v = Vars::new();
    let mut icon = r.below(sheets.len());
    for _ in 0..n {
        match r.below(16) {
            0..=2 => { icon = r.below(sheets.len()); v.insert("icon", if r.chance(1, 25) { V::Missing } else if r.chance(1, 25) { V::Null } else { V::Icon(icon) }); },
            3..=5 => { let s = &sheets[icon].states; v.insert("icon_state", V::Str(if r.chance(1, 12) { "no such".into() } else { s[r.below(s.len())].name.clone() })); },
            6 => { v.insert("dir", V::Num(*r.pick(&[1., 2., 4., 8., 5., 6., 9., 10., 0., 3., 16.]))); },
            7 => { v.insert("layer", V::Num(*r.pick(&[-2., -1.5, -0.5, 0., 1., 2., 2.001, 2.002, 3., 3.5, 4.9, 5., 100., 5000., 20000.]))); },
            8 => { v.insert("plane", V::Num(*r.pick(&[-100., -1., 0., 0., 1., 7., 30000.]))); },
            9 => { v.insert("color", V::Str((*r.pick(&["#ff0000", "#0f0", "#80807f", "red", "grey", "navy", "#FFFFFF", "#AbCdEf", "nonsense", "", "#12"])).to_owned())); },
            10 => { v.insert("alpha", V::Num(r.below(256) as f64)); },
            11 => { v.insert("color", V::Null); },
            k => {
                let name = *r.pick(if k < 14 { &["pixel_x", "pixel_w", "step_x"] } else { &["pixel_y", "pixel_z", "step_y"] });
                let n = if wild && name.starts_with("pixel") && !name.ends_with(['w', 'z']) && r.chance(1, 2) { *r.pick(&[2147483648., -2147483648., 1e10, -1e10, 2147483520., -2147483520., 1e9, -1e9, 40000., -70000.]) } else if r.chance(1, 6) { r.range(-300, 300) as f64 } else { r.range(-40, 40) as f64 };
                v.insert(name, V::Num(n));
            },
        }
    }
    v
}
fn show(v: &V) -> String { match v { V::Num(n) => format!("{n}"), V::Str(s) => format!("{:?}", s).replace("[", "\\["), V::Icon(i) => format!("'i{i}.dmi'"), V::Missing => "'missing.dmi'".into(), V::Null => "null".into() } }
fn constant(v: &V) -> Constant { match v { V::Num(n) => Constant::Float(*n as f32), V::Str(s) => Constant::String(s.clone().into()), V::Icon(i) => Constant::Resource(format!("i{i}.dmi").into()), V::Missing => Constant::Resource("missing.dmi".into()), V::Null => Constant::null().clone() } }

#[derive(Clone, Debug)]
struct Look { icon: Option<V>, state: String, dir: i64, color: [u8; 4], x: i64, y: i64, plane: i64, layer: f64, hidden: bool, extra: i64 }
fn look(v: &Vars) -> Look {
    let num = |k: &str| match v.get(k) { Some(V::Num(n)) => *n, _ => 0. };
    let big = |k: &str| num(k).clamp(-1e11, 1e11) as i64;
    let mut color = match v.get("color") {
        Some(V::Str(s)) if s.starts_with('#') && s.len() == 7 => { let h = |i: usize| u8::from_str_radix(&s[i..i + 2], 16).unwrap(); [h(1), h(3), h(5), 255] },
        Some(V::Str(s)) if s.starts_with('#') && s.len() == 4 => { let h = |i: usize| 17 * u8::from_str_radix(&s[i..i + 1], 16).unwrap(); [h(1), h(2), h(3), 255] },
        Some(V::Str(s)) => match s.as_str() { "red" => [255, 0, 0, 255], "grey" => [128, 128, 128, 255], "navy" => [0, 0, 128, 255], _ => [255; 4] },
        _ => [255; 4],
    };
    if let Some(V::Num(a)) = v.get("alpha") { color[3] = *a as u8; }
    let dir = num("dir") as i64;
    Look {
        icon: v.get("icon").filter(|v| **v != V::Null).cloned(),
        state: match v.get("icon_state") { Some(V::Str(s)) => s.clone(), _ => String::new() },
        dir: if [1, 2, 4, 8, 5, 6, 9, 10].contains(&dir) { dir } else { 2 },
        color, x: big("pixel_x") + big("pixel_w") + big("step_x"), y: big("pixel_y") + big("pixel_z") + big("step_y"),
        plane: num("plane") as i64, layer: match v.get("layer") { Some(V::Num(n)) => *n, _ => 2. },
        hidden: num("hide") != 0., extra: num("extra") as i64,
    }
}

/// A pass of our own that uses every hook.
struct Own;
impl Own { fn n<'a>(a: &Atom<'a>, t: &'a ObjectTree, k: &str) -> i32 { a.get_var(k, t).to_int().unwrap_or(0) } }
impl RenderPass for Own {
    fn path_filter(&self, path: &str) -> bool { path != "/obj/skip" }
    fn early_filter(&self, atom: &Atom, t: &ObjectTree) -> bool { atom.get_var("hide", t).to_int() != Some(1) }
    fn late_filter(&self, atom: &Atom, t: &ObjectTree) -> bool { atom.get_var("hide", t).to_int() != Some(2) }
    fn adjust_sprite<'a>(&self, atom: &Atom<'a>, s: &mut Sprite<'a>, t: &'a ObjectTree, _: &'a bumpalo::Bump) { if Own::n(atom, t, "extra") == 1 { s.ofs_x = s.ofs_x.saturating_add(3); s.layer = Layer::from(4); } }
    fn overlays<'a>(&self, atom: &Atom<'a>, t: &'a ObjectTree, under: &mut Vec<Sprite<'a>>, over: &mut Vec<Sprite<'a>>, _: &'a bumpalo::Bump) {
        let s = &atom.sprite;
        if Own::n(atom, t, "extra") == 2 { under.push(Sprite { ofs_x: s.ofs_x.saturating_sub(7), ..s.clone() }); }
        if Own::n(atom, t, "extra") == 3 { over.push(Sprite { ofs_y: s.ofs_y.saturating_add(5), color: [255, 0, 0, 128], ..s.clone() }); }
    }
    fn neighborhood_appearance<'a>(&self, atom: &Atom<'a>, t: &'a ObjectTree, n: &Neighborhood<'a, '_>, out: &mut Vec<Sprite<'a>>, _: &'a bumpalo::Bump) -> bool {
        if Own::n(atom, t, "extra") != 4 { return true; }
        for (i, d) in Dir::ALL.iter().enumerate() {
            if n.offset(*d).iter().any(|a| Own::n(a, t, "extra") == 4) { out.push(Sprite { ofs_x: i as i32 * 4, ofs_y: i as i32, ..atom.sprite.clone() }); }
        }
        assert!(!n.center().is_empty());
        false
    }
    fn sprite_filter(&self, s: &Sprite) -> bool { s.plane != 7 }
}

struct Painted { look: Look, tx: usize, ty: usize }

fn case(cx: &mut Cx) {
    let wild = cx.rng.chance(1, 6);
    let dir = cx.dir("icons");
    let r = &mut cx.rng;
    let mut sheets = vec![];
    for i in 0..1 + r.below(3) { let (s, b) = Sheet::make(r); std::fs::write(dir.join(format!("i{i}.dmi")), b).unwrap(); sheets.push(s); }
    // types: each a child of an earlier one or of /obj
    let mut types: Vec<(String, Vars)> = vec![];
    let mut text = String::from("/atom/var/hide = 0\n/atom/var/extra = 0\n/obj\n\tlayer = 3\n/turf\n\tlayer = 2\n");
    let base = |path: &str| { let mut v = Vars::new(); v.insert("layer", V::Num(if path.starts_with("/obj") { 3. } else { 2. })); v.insert("plane", V::Num(0.)); v.insert("dir", V::Num(2.)); v.insert("alpha", V::Num(255.)); v };
    for i in 0..2 + r.below(5) {
        let (path, mut vars) = if i > 0 && r.bool() { let (p, v) = r.pick(&types).clone(); (format!("{p}/t{i}"), v) } else { let p = format!("{}/t{i}", r.pick(&["/obj", "/turf"])); let b = base(&p); (p, b) };
        let k = r.below(7);
        let mut own = gen_vars(r, &sheets, k, wild);
        if path.starts_with("/turf") { own.retain(|k, _| !k.starts_with("step")); }
        if r.chance(1, 8) { own.insert("hide", V::Num(r.below(3) as f64)); }
        if r.chance(1, 3) { own.insert("extra", V::Num(r.below(5) as f64)); }
        if r.chance(3, 4) && !vars.contains_key("icon") { let s = r.below(sheets.len()); own.entry("icon").or_insert(V::Icon(s)); let st = r.below(sheets[s].states.len()); own.entry("icon_state").or_insert(V::Str(sheets[s].states[st].name.clone())); }
        text += &format!("{path}\n");
        for (k, v) in &own { text += &format!("\t{k} = {}\n", show(v)); }
        if own.is_empty() { text += "\tdesc = \"x\"\n"; }
        vars.extend(own);
        types.push((path, vars));
    }
    if r.chance(1, 5) { text += "/obj/skip\n\tdesc = \"x\"\n"; types.push(("/obj/skip".into(), base("/obj"))); }
    let parsed = parse_text(&text);
    if parsed.context.errors().iter().any(|e| e.severity() == dm::Severity::Error) { let d = crate::dm_util::diags(&parsed.context).join("\n"); drop(parsed.context.errors()); cx.inconclusive(&format!("generated types do not parse: {d}\n{text}")); return; }
    // map
    let (mx, my, mz) = (1 + r.below(5), 1 + r.below(4), 1 + r.below(2));
    let mut map = Map::with_empty_dictionary(mx, my, mz);
    let mut tiles: Vec<Vec<(usize, Vars)>> = vec![]; // usize::MAX: unknown type
    for i in 0..1 + r.below(5) {
        let k = if i == 0 { r.below(4) } else { 1 + r.below(5) };
        tiles.push((0..k).map(|_| {
            if r.chance(1, 30) { return (usize::MAX, Vars::new()); }
            let k = if r.bool() { 0 } else { r.below(4) };
            (r.below(types.len()), gen_vars(r, &sheets, k, wild))
        }).collect());
    }
    let keys: Vec<Key> = (0..tiles.len()).map(super::c17::nth_key).collect();
    for (k, t) in keys.iter().zip(&tiles) {
        map.dictionary.insert(*k, t.iter().map(|(ty, vars)| { let mut p = Prefab { path: types.get(*ty).map_or("/obj/unknown".into(), |t| t.0.clone()), ..Default::default() }; for (k, v) in vars { p.vars.insert((*k).to_owned(), constant(v)); } p }).collect());
    }
    let mut grid = vec![0usize; mx * my * mz]; // [z][y from bottom][x]
    for z in 0..mz { for y in 0..my { for x in 0..mx { let t = r.below(tiles.len()); grid[(z * my + y) * mx + x] = t; map.grid[(z, my - 1 - y, x)] = keys[t]; } } }
    let z = r.below(mz);
    let (ax, bx, ay, by) = (r.below(mx), r.below(mx), r.below(my), r.below(my));
    let (min, max) = if r.bool() { ((0, 0), (mx - 1, my - 1)) } else { ((ax.min(bx), ay.min(by)), (ax.max(bx), ay.max(by))) };
    let own_pass = r.bool();
    cx.input(format!("{text}// map {mx}x{my}x{mz}, level {z}, {min:?} to {max:?}, pass {own_pass}\n{}\n{}", tiles.iter().enumerate().map(|(i, t)| format!("// tile {i}: {:?}", t.iter().map(|(ty, v)| (types.get(*ty).map(|t| &t.0), v)).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n"), format!("// {grid:?}")));
    cx.sig(&(&text, &grid, min, max, own_pass));

    // what must be seen
    let all = |t: &(usize, Vars)| -> Look { let mut v = types[t.0].1.clone(); v.extend(t.1.clone()); look(&v) };
    let mut list: Vec<Painted> = vec![];
    let mut bad = false;
    for t in &tiles { if t.iter().any(|o| o.0 == usize::MAX) { bad = true; } }
    let tile = |x: i64, y: i64| -> &[(usize, Vars)] { if x < 0 || y < 0 || x >= mx as i64 || y >= my as i64 { &[] } else { &tiles[grid[(z * my + y as usize) * mx + x as usize]] } };
    for y in (min.1..=max.1).rev() { for x in min.0..=max.0 {
        for t in tile(x as i64, y as i64) {
            if t.0 == usize::MAX { continue; }
            let mut l = all(t);
            if own_pass {
                if types[t.0].0 == "/obj/skip" || l.hidden { continue; }
                if l.extra == 1 { l.x += 3; l.layer = 4.; }
            }
            if l.icon.is_none() { continue; }
            let mut put = |look: Look| if !(own_pass && look.plane == 7) { list.push(Painted { look, tx: x, ty: y }) };
            if own_pass && l.extra == 4 {
                // north is up: bit order N S E W NE SE SW NW as in Dir::ALL
                for (i, d) in Dir::ALL.iter().enumerate() {
                    let (dx, dy) = match *d { Dir::North => (0, 1), Dir::South => (0, -1), Dir::East => (1, 0), Dir::West => (-1, 0), Dir::Northeast => (1, 1), Dir::Southeast => (1, -1), Dir::Southwest => (-1, -1), Dir::Northwest => (-1, 1) };
                    // neighbours that are hidden late still count, those dropped early do not
                    if tile(x as i64 + dx, y as i64 + dy).iter().any(|o| o.0 != usize::MAX && types[o.0].0 != "/obj/skip" && all(o).extra == 4 && { let mut v = types[o.0].1.clone(); v.extend(o.1.clone()); v.get("hide") != Some(&V::Num(1.)) }) { put(Look { x: i as i64 * 4, y: i as i64, ..l.clone() }); }
                }
                continue;
            }
            if own_pass && l.extra == 2 { put(Look { x: l.x - 7, ..l.clone() }); }
            put(l.clone());
            if own_pass && l.extra == 3 { put(Look { y: l.y + 5, color: [255, 0, 0, 128], ..l.clone() }); }
        }
    } }
    let planes: std::collections::BTreeSet<_> = list.iter().map(|p| p.look.plane).collect();
    list.sort_by(|a, b| a.look.plane.cmp(&b.look.plane).then(a.look.layer.total_cmp(&b.look.layer)));
    let (iw, ih) = ((max.0 - min.0 + 1) as i64 * 32, (max.1 - min.1 + 1) as i64 * 32);
    let mut canvas = vec![[0f64; 4]; (iw * ih) as usize]; // premultiplied, 0..255
    let mut depth = vec![(0u32, true); (iw * ih) as usize];
    let mut unsure = vec![false; (iw * ih) as usize];
    for p in &list {
        let l = &p.look;
        let Some(V::Icon(i)) = l.icon else { continue };
        let s = &sheets[i];
        let Some(cell) = s.cell(&l.state, l.dir) else { bad = true; continue };
        let left = (p.tx - min.0) as i64 * 32 + l.x;
        let top = (max.1 - p.ty + 1) as i64 * 32 - l.y - s.h as i64;
        for y in 0.max(-top)..(s.h as i64).min(ih - top) { for x in 0.max(-left)..(s.w as i64).min(iw - left) {
            let at = ((top + y) * iw + left + x) as usize;
            if cell == u32::MAX { unsure[at] = true; continue; }
            let src = s.at(cell, x as u32, y as u32);
            let a = src[3] as f64 * l.color[3] as f64 / 255.;
            let px = &mut canvas[at];
            for c in 0..3 { px[c] = src[c] as f64 * l.color[c] as f64 / 255. * a / 255. + px[c] * (1. - a / 255.); }
            px[3] = a + px[3] * (1. - a / 255.);
            if a > 0. { depth[at].0 += 1; }
            // a sprite pixel that covers what is below, in its own colours, starts the reckoning afresh
            if a == 255. { depth[at].1 = l.color[..3] == [255; 3]; } else if a > 0. { depth[at].1 = false; }
            if a == 255. && l.color[..3] == [255; 3] { unsure[at] = false; }
        } }
    }
    let cache = { let mut c = IconCache::default(); c.set_icons_root(&dir); c };
    let errors = Default::default();
    let bump = bumpalo::Bump::new();
    let passes: Vec<Box<dyn RenderPass>> = if own_pass { vec![Box::new(Own)] } else { vec![] };
    let run = |errors: &RwLock<_>| minimap::generate(minimap::Context { objtree: &parsed.tree, map: &map, level: map.z_level(z), min, max, render_passes: &passes, errors, bump: &bump, print_errors: false }, &cache);
    let img = match catch(|| run(&errors)) { Ok(Ok(i)) => i, Ok(Err(())) => { cx.violate("error", "rendering reports failure"); return; }, Err(m) => { cx.violate("panic", format!("rendering panics: {m}")); return; } };
    ensure!(cx, (img.width as i64, img.height as i64) == (iw, ih), "size", "{}x{} instead of {iw}x{ih}", img.width, img.height);
    let data = img.data.as_slice().unwrap();
    let mut overlap = 0;
    for at in 0..data.len() {
        if unsure[at] { continue; }
        let g = data[at];
        let (n, exact) = depth[at];
        overlap = overlap.max(n);
        let got = [g.r as f64 * g.a as f64 / 255., g.g as f64 * g.a as f64 / 255., g.b as f64 * g.a as f64 / 255., g.a as f64];
        let tol = if n == 0 { 0. } else if exact { 1e-6 } else { 2.5 * n as f64 };
        for c in 0..4 { if (got[c] - canvas[at][c]).abs() > tol {
            cx.violate("pixel", format!("pixel {},{} of {iw}x{ih}: {:?} instead of {:?} (premultiplied, {n} layers)", at as i64 % iw, at as i64 / iw, got, canvas[at]));
            return;
        } }
    }
    ensure!(cx, errors.read().unwrap().is_empty() != bad, "report", "problems expected: {bad}; reported: {:?}", errors.read().unwrap());
    cx.count("pixels compared", data.len() as u64);
    cx.count("sprites painted", list.len() as u64);
    cx.max("layers on one pixel", overlap as u64);
    cx.max("planes", planes.len() as u64);
    if own_pass { cx.count("with a pass", 1); }
    // rendering twice gives the same picture, also from a warm cache
    if cx.seed % 16 == 0 { let again = RwLock::new(Default::default()); ensure!(cx, run(&again).is_ok_and(|i| i == img) && *again.read().unwrap() == *errors.read().unwrap(), "again", "a second rendering differs"); }
    if overlap >= 3 { cx.nontrivial(); }
}

/// Layers order as numbers do.
fn tiny(cx: &mut Cx) {
    let mut v = vec![-3f32, -2.5, -1.0, -0.75, -0.5, -0.001, -1e-8, 0.0, 1e-8, 0.001, 0.25, 0.999, 1.0, 1.5, 2.0, 2.01, 2.5, 3.0, 4.99, 5.0, 100.25, 5000.0, 20000.0];
    for i in 0..2000 { v.push((i as f32 - 1000.) / 100.); }
    for a in &v { for b in &v {
        if a <= b { ensure!(cx, Layer::from(*a) <= Layer::from(*b), "layer", "{a} is above {b}"); }
        if *a + 0.0005 < *b { ensure!(cx, Layer::from(*a) < Layer::from(*b), "layer", "{a} is not below {b}"); }
    } }
    for i in -500i32..500 { ensure!(cx, Layer::from(i) == Layer::from(i as f32) && Layer::from(i as i16) == Layer::from(i), "layer", "whole {i}"); }
    cx.count("pairs of layers", (v.len() * v.len()) as u64);
    cx.nontrivial();
}

fn colours(cx: &mut Cx) {
    for (text, want) in [("#000", [0, 0, 0]), ("#123", [0x11, 0x22, 0x33]), ("#FeDcBa", [0xfe, 0xdc, 0xba]), ("#010203", [1, 2, 3]), ("#123456789abcdef0", [255; 3]), ("#", [255; 3]), ("black", [0, 0, 0]), ("lime", [0, 255, 0]), ("cyan", [0, 255, 255]), ("silver", [0xc0; 3]), ("", [255; 3])] {
        let p = parse_text(&format!("/obj/a\n\tcolor = \"{text}\"\n\talpha = 77\n"));
        cx.input(text);
        let t = p.tree.find("/obj/a").unwrap();
        match catch(|| minimap::color_of(&p.tree, &t)) {
            Ok(c) => ensure!(cx, c == [want[0], want[1], want[2], 77], "colour", "{text:?} gives {c:?}"),
            Err(m) => cx.violate("panic", format!("{text:?}: {m}")),
        }
        cx.count("colours", 1);
    }
    cx.nontrivial();
}
