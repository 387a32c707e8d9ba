use crate::dm_util::parse_text;
use crate::ensure;
use crate::fw::*;
use crate::pngw;
use crate::props::c20::{colour, describe, St};
use crate::rng::Rng;
use dm::config::Config;
use dm::constants::Constant;
use dm::objtree::ObjectTree;
use dmm_tools::dmm::{Map, Prefab};
use dmm_tools::render_passes::{self, RenderPass, RENDER_PASSES};
use dmm_tools::{IconCache, minimap};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::RwLock;

pub static PROP: Prop = Prop {
    id: "C24",
    quick: 25000,
    thorough: 300000,
    case,
    directed: &[("every pass, every way of naming it", ways), ("every hiding pass over every kind of object", hiding)],
    rule: "a case writes a configuration file (switches of passes, layers, hidden types) and draws two lists of names for the command line (duplicates, contradictions, `all`, unknown names), configures the passes and compares the set made with the precedence the property states; it then renders a map of towers of single-coloured objects (types the passes name, their children and look-alikes, instances with variables of their own) with the configured hiding and layering passes and compares the colour seen on every tile with a model; distinct by configuration, lists and map, non-trivial when a pass is decided by each of two levels and an object is hidden and another one seen",
    assumptions: &["configured layers for two types are different numbers", "passes that decorate objects (overlays, smoothing, pipes in transit) act on no type of the generated worlds"],
    ..DEFAULT
};

const TYPES: &[&str] = &[
    "/turf/open/space", "/turf/open/space/deep", "/turf/open/spacer", "/turf/template_noop", "/turf/template_noop/sub", "/turf/template_noop2", "/turf/open/floor", "/turf/closed/wall",
    "/area", "/area/hall", "/obj/area", "/obj/effect/mapping_helpers", "/obj/effect/mapping_helpers/sub", "/obj/effect/mapping_helpers2", "/obj/effect/spawner/xmastree", "/obj/effect/spawner/xmastree/sub", "/obj/effect/spawner/xmastrees",
    "/obj/item/toy/syndicateballoon", "/obj/item/toy/syndicateballoon/big", "/obj/item/toy/syndicateballoons", "/obj/item/toy", "/obj/structure/cable", "/obj/structure/cable/red", "/obj/structure/cable_coil",
    "/obj/machinery/atmospherics/pipe", "/obj/machinery/atmospherics/pipe/simple", "/obj/machinery/atmospherics/pipe/simple/visible", "/obj/machinery/atmospherics/pipes", "/obj/a", "/obj/a/b", "/obj/a/b/c", "/obj/ab", "/obj/a/bc", "/mob/m", "/mob/m/n",
];

fn under(p: &str, top: &str) -> bool { let t = top.trim_end_matches('/'); p == t || p.strip_prefix(t).is_some_and(|r| r.starts_with('/')) }

/// The kind of each pass when it alone is asked for.
fn kinds(text: bool) -> Vec<usize> { RENDER_PASSES.iter().map(|p| { let l = if text { render_passes::configure(&Default::default(), p.name, "all") } else { render_passes::configure_list(&Default::default(), &[p.name.to_owned()], &["all".to_owned()]) }; if l.len() == 1 { vt(&l[0]) } else { 0 } }).collect() }
/// What distinguishes one kind of pass from another at run time: its method table.
fn vt(b: &Box<dyn RenderPass>) -> usize { let r: &dyn RenderPass = &**b; unsafe { std::mem::transmute::<&dyn RenderPass, [usize; 2]>(r)[1] } }

#[derive(Clone, Debug, Default)]
struct Conf { passes: BTreeMap<String, bool>, layers: BTreeMap<String, f32>, hide: Vec<String> }
impl Conf {
    fn text(&self) -> String {
        let mut s = String::new();
        if !self.hide.is_empty() { s += &format!("[map_renderer]\nhide_invisible = {:?}\n", self.hide); }
        if !self.passes.is_empty() { s += "[map_renderer.render_passes]\n"; for (k, v) in &self.passes { s += &format!("\"{k}\" = {v}\n"); } }
        if !self.layers.is_empty() { s += "[map_renderer.fancy_layers]\n"; for (k, v) in &self.layers { s += &format!("\"{k}\" = {v:?}\n"); } }
        s
    }
    fn read(&self, cx: &Cx) -> Result<Config, String> {
        let f = cx.scratch.join("c.toml");
        std::fs::write(&f, self.text()).unwrap();
        Config::read_toml(&f).map_err(|e| format!("{e:?}"))
    }
}

fn names(r: &mut Rng) -> Vec<String> {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 6]);
    (0..n).map(|_| match r.below(10) { 0 | 1 => "all".to_owned(), 2 => (*r.pick(&["nosuch", "", "hide", "ALL", "hide-space ", "all-"])).to_owned(), _ => r.pick(RENDER_PASSES).name.to_owned() }).collect()
}

fn level(name: &str, default: bool, conf: &Conf, on: &[String], off: &[String]) -> (bool, usize) {
    let has = |l: &[String], n: &str| l.iter().any(|x| x == n);
    if has(on, name) { (true, 0) } else if has(off, name) { (false, 1) } else if has(on, "all") { (true, 2) } else if has(off, "all") { (false, 3) } else if let Some(v) = conf.passes.get(name) { (*v, 4) } else { (default, 5) }
}

#[derive(Clone, Debug, Default)]
struct Thing { ty: usize, state: usize, vars: BTreeMap<&'static str, Constant> }

struct World { tree: ObjectTree, own: Vec<BTreeMap<&'static str, Constant>>, text: String }

fn s(t: &str) -> Constant { Constant::String(t.to_owned().into()) }
fn f(t: &str) -> Constant { Constant::Resource(t.to_owned().into()) }
fn n(x: f32) -> Constant { Constant::Float(x) }

fn appearance(r: &mut Rng) -> BTreeMap<&'static str, Constant> {
    let mut v = BTreeMap::new();
    if r.chance(1, 2) { v.insert("layer", n(*r.pick(&[1., 2., 2.5, 3., 4., -3., 0.5, 10.]))); }
    if r.chance(1, 4) { v.insert("plane", n(*r.pick(&[-2., 0., 1., 5.]))); }
    if r.chance(1, 4) { v.insert("invisibility", match r.below(8) { 0 => Constant::null().clone(), 1 => s("101"), _ => n(*r.pick(&[0., 20., 59., 60., 60.5, 61., 100., 101., -1.])) }); }
    if r.chance(1, 6) { v.insert("icon", f(*r.pick(&["icons/turf/space.dmi", "icons/obj/items_and_weapons.dmi", "icons/turf/spaces.dmi"]))); }
    if r.chance(1, 6) { v.insert("icon_state", s("syndballoon")); }
    v
}

fn world(r: &mut Rng) -> World {
    let mut text = String::from("/atom\n\tlayer = 3\n\tplane = 0\n\ticon = 'i.dmi'\n\ticon_state = \"s0\"\n");
    let mut own = vec![];
    for t in TYPES {
        let v = if r.chance(1, 3) { appearance(r) } else { BTreeMap::new() };
        text += &format!("{t}\n\tdesc = \"x\"\n");
        for (k, c) in &v { text += &format!("\t{k} = {}\n", spell(c)); }
        own.push(v);
    }
    let p = parse_text(&text);
    World { tree: p.tree, own, text }
}
fn spell(c: &Constant) -> String { match c { Constant::Float(x) => format!("{x}"), Constant::String(t) => format!("{:?}", &**t), Constant::Resource(t) => format!("'{}'", &**t), _ => "null".into() } }

impl World {
    fn var(&self, t: &Thing, k: &str) -> Constant {
        if let Some(c) = t.vars.get(k) { return c.clone(); }
        let mut p = TYPES[t.ty];
        loop {
            if let Some(i) = TYPES.iter().position(|x| *x == p) { if let Some(c) = self.own[i].get(k) { return c.clone(); } }
            match p.rfind('/') { Some(0) | None => break, Some(i) => p = &p[..i] }
        }
        match k { "layer" => match TYPES[t.ty] { p if under(p, "/atom") => n(3.), _ => built_in(TYPES[t.ty], k) }, _ => built_in(TYPES[t.ty], k) }
    }
}
/// What /atom and its children have in our worlds: /atom is set by the text, the four children by BYOND.
fn built_in(p: &str, k: &str) -> Constant {
    match k {
        "layer" => n(if under(p, "/area") { 1. } else if under(p, "/turf") { 2. } else if under(p, "/obj") { 3. } else { 4. }),
        "plane" | "invisibility" => n(0.),
        "icon" => f("i.dmi"),
        _ => s("s0"),
    }
}

fn hidden(w: &World, t: &Thing, on: &BTreeSet<&str>, conf: &Conf) -> bool {
    let p = TYPES[t.ty];
    if on.contains("hide-space") && (under(p, "/turf/template_noop") || under(p, "/turf/open/space") || w.var(t, "icon") == f("icons/turf/space.dmi")) { return true; }
    if on.contains("hide-areas") && under(p, "/area") { return true; }
    if on.contains("hide-invisible") {
        if under(p, "/obj/effect/spawner/xmastree") || under(p, "/obj/effect/mapping_helpers") { return true; }
        if matches!(w.var(t, "invisibility"), Constant::Float(x) if x > 60.) { return true; }
        if w.var(t, "icon") == f("icons/obj/items_and_weapons.dmi") && w.var(t, "icon_state") == s("syndballoon") && !under(p, "/obj/item/toy/syndicateballoon") { return true; }
        if conf.hide.iter().any(|h| under(p, h)) { return true; }
    }
    let (wire, pipe) = (under(p, "/obj/structure/cable"), under(p, "/obj/machinery/atmospherics/pipe"));
    on.contains("only-powernet") && !wire || on.contains("only-pipenet") && !pipe || on.contains("only-wires-and-pipes") && !wire && !pipe
}

fn depth(w: &World, t: &Thing, on: &BTreeSet<&str>, conf: &Conf) -> (i32, f32) {
    let num = |k| match w.var(t, k) { Constant::Float(x) => x, _ => 0. };
    if !on.contains("fancy-layers") { return (num("plane") as i32, num("layer")); }
    let p = TYPES[t.ty];
    let best = conf.layers.iter().filter(|(k, _)| under(p, k)).max_by_key(|(k, _)| k.trim_end_matches('/').len());
    let l = match best {
        Some((_, l)) => *l,
        None if under(p, "/turf/open/space") => -10.,
        None if under(p, "/turf/open/floor") || under(p, "/turf/closed") => -2.,
        None if under(p, "/turf") => -10.,
        None if under(p, "/obj/machinery/atmospherics/pipe") && !p.contains("visible") => -5.,
        None if under(p, "/obj/structure/cable") => -4.,
        None => num("layer"),
    };
    (0, l)
}

const STATES: usize = 24;
fn icons(cx: &Cx) -> std::path::PathBuf {
    let d = cx.scratch.join("icons-c24");
    if d.exists() { return d; }
    std::fs::create_dir_all(d.join("icons/turf")).unwrap();
    std::fs::create_dir_all(d.join("icons/obj")).unwrap();
    for (k, path) in ["i.dmi", "icons/turf/space.dmi", "icons/turf/spaces.dmi", "icons/obj/items_and_weapons.dmi"].iter().enumerate() {
        let st: Vec<St> = (0..=STATES).map(|i| St { name: if i == STATES { "syndballoon".into() } else { format!("s{i}") }, dirs: 1, frames: 1, explicit: true, delays: None, extra: 0, loop_: 0, rewind: false, movement: false }).collect();
        let wide = 32 * st.len() as u32;
        let px: Vec<[u8; 4]> = (0..wide * 32).map(|i| colour(k * 100 + (i % wide / 32) as usize)).collect();
        std::fs::write(d.join(path), pngw::png(wide, 32, &px, Some(describe(32, 32, &st).as_bytes()))).unwrap();
    }
    d
}
fn seen(w: &World, t: &Thing) -> [u8; 4] {
    let k = match w.var(t, "icon") { Constant::Resource(p) => ["i.dmi", "icons/turf/space.dmi", "icons/turf/spaces.dmi", "icons/obj/items_and_weapons.dmi"].iter().position(|x| *x == &*p).unwrap(), _ => 0 };
    let st = match w.var(t, "icon_state") { Constant::String(x) if &*x == "syndballoon" => STATES, Constant::String(x) => x[1..].parse().unwrap(), _ => 0 };
    colour(k * 100 + st)
}

fn things(r: &mut Rng, ty: usize) -> Thing {
    let mut vars = if r.chance(1, 2) { appearance(r) } else { BTreeMap::new() };
    let state = r.below(STATES);
    if !vars.contains_key("icon_state") && r.chance(9, 10) { vars.insert("icon_state", s(&format!("s{state}"))); }
    Thing { ty, state, vars }
}

fn render(cx: &mut Cx, w: &World, tiles: &[Vec<Thing>], passes: &[Box<dyn RenderPass>], on: &BTreeSet<&str>, conf: &Conf) {
    let mut map = Map::with_empty_dictionary(tiles.len(), 1, 1);
    for (i, t) in tiles.iter().enumerate() {
        let k = super::c17::nth_key(i);
        map.dictionary.insert(k, t.iter().map(|t| { let mut p = Prefab::from_path(TYPES[t.ty]); for (k, v) in &t.vars { p.vars.insert((*k).to_owned(), v.clone()); } p }).collect());
        map.grid[(0, 0, i)] = k;
    }
    let dir = icons(cx);
    let cache = { let mut c = IconCache::default(); c.set_icons_root(&dir); c };
    let errors = RwLock::new(Default::default());
    let bump = bumpalo::Bump::new();
    let img = catch(|| minimap::generate(minimap::Context { objtree: &w.tree, map: &map, level: map.z_level(0), min: (0, 0), max: (tiles.len() - 1, 0), render_passes: passes, errors: &errors, bump: &bump, print_errors: false }, &cache));
    let img = match img { Ok(Ok(i)) => i, o => { cx.violate("panic", format!("rendering fails: {:?}", o.map(|x| x.map(|_| ())))); return; } };
    ensure!(cx, errors.read().unwrap().is_empty(), "errors", "{:?}", errors.read().unwrap());
    let (mut shown, mut gone) = (0u64, 0u64);
    for (i, t) in tiles.iter().enumerate() {
        let mut top: Option<((i32, f32), &Thing)> = None;
        for o in t {
            if hidden(w, o, on, conf) { gone += 1; continue; }
            shown += 1;
            let d = depth(w, o, on, conf);
            if top.is_none() || top.unwrap().0 <= d { top = Some((d, o)); }
        }
        let want = top.map_or([0; 4], |(_, o)| seen(w, o));
        let g = img.data.as_slice().unwrap()[16 * img.width as usize + i * 32 + 16];
        let got = [g.r, g.g, g.b, g.a];
        let told = || t.iter().map(|o| format!("{}{:?} hidden {} depth {:?} colour {:?}", TYPES[o.ty], o.vars, hidden(w, o, on, conf), depth(w, o, on, conf), seen(w, o))).collect::<Vec<_>>().join("\n");
        ensure!(cx, got == want || want[3] == 0 && got[3] == 0, if want[3] == 0 { "not-hidden" } else if got[3] == 0 { "hidden" } else { "order" }, "tile {i}: {got:?} is seen instead of {want:?} with {on:?}:\n{}", told());
    }
    cx.count("objects seen", shown);
    cx.count("objects hidden", gone);
    if shown > 0 && gone > 0 { cx.nontrivial(); }
}

fn select(cx: &mut Cx, conf: &Conf, cfg: &Config, on: &[String], off: &[String], text: bool) -> Option<(Vec<Box<dyn RenderPass>>, usize)> {
    let passes = if text { render_passes::configure(&cfg.map_renderer, &on.join(","), &off.join(",")) } else { render_passes::configure_list(&cfg.map_renderer, on, off) };
    let kinds = kinds(text);
    let unique = kinds.iter().collect::<BTreeSet<_>>().len() == kinds.len();
    let want: Vec<(&str, usize, bool, usize)> = RENDER_PASSES.iter().enumerate().map(|(i, p)| { let (b, l) = level(p.name, p.default, conf, on, off); (p.name, kinds[i], b, l) }).collect();
    let levels = want.iter().map(|w| w.3).collect::<BTreeSet<_>>().len();
    for l in want.iter().map(|w| w.3) { cx.count(["decided by enable", "decided by disable", "decided by enable all", "decided by disable all", "decided by the configuration", "decided by default"][l], 1); }
    if kinds.contains(&0) { cx.violate("single", "a pass asked for alone with all others off is not alone"); return None; }
    cx.count(if unique { "sets compared by kind" } else { "sets compared by size" }, 1);
    let mut a: Vec<usize> = want.iter().filter(|w| w.2).map(|w| w.1).collect();
    let mut b: Vec<usize> = passes.iter().map(vt).collect();
    if unique {
        let wrong: Vec<&str> = want.iter().filter(|w| w.2 != b.contains(&w.1)).map(|w| w.0).collect();
        if !wrong.is_empty() { cx.violate("selection", format!("wrongly on or off: {wrong:?}\nenable {on:?} disable {off:?} config {:?}", conf.passes)); return None; }
    }
    a.sort(); b.sort();
    if a.len() != b.len() || unique && a != b { cx.violate("count", format!("{} passes instead of {}", b.len(), a.len())); return None; }
    Some((passes, levels))
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let mut conf = Conf::default();
    for _ in 0..r.below(6) { conf.passes.insert(if r.chance(1, 10) { (*r.pick(&["all", "nosuch"])).to_owned() } else { r.pick(RENDER_PASSES).name.to_owned() }, r.bool()); }
    let paths = ["/obj/a", "/obj/a/b", "/obj/a/b/c", "/obj", "/turf/open", "/turf", "/obj/structure", "/mob/m", "/mob/m/n", "/obj/machinery/atmospherics/pipe/simple", "/area", "/obj/nosuch", "/atom/movable", "/turf/open/space", "/obj/ab/"];
    if r.chance(2, 3) { for i in 0..r.below(7) { let mut p = (*r.pick(&paths)).to_owned(); if r.chance(1, 6) && !p.ends_with('/') { p.push('/'); } if conf.layers.keys().any(|k| k.trim_end_matches('/') == p.trim_end_matches('/')) { continue; } conf.layers.insert(p, *r.pick(&[-20., -9., -5., -2., 0., 1., 3., 4., 7., 50.]) + i as f32 * 0.125 + 0.0625); } }
    if r.chance(2, 3) { for _ in 0..r.below(4) { let p = (*r.pick(&paths)).to_owned(); if p != "/obj" { conf.hide.push(p); } } }
    let (on, off) = (names(r), names(r));
    let text = r.bool();
    cx.input(format!("{}\nenable {on:?} disable {off:?}", conf.text()));
    let cfg = match conf.read(cx) { Ok(c) => c, Err(e) => { cx.violate("config", format!("the configuration is not read: {e}")); return; } };
    let Some((_, levels)) = select(cx, &conf, &cfg, &on, &off, text) else { return };
    cx.max("levels deciding in one case", levels as u64);

    // act only as described
    const ACT: &[&str] = &["hide-space", "hide-areas", "hide-invisible", "only-powernet", "only-pipenet", "only-wires-and-pipes", "fancy-layers"];
    let some: BTreeSet<&str> = ACT.iter().copied().filter(|a| r.chance(if a.starts_with("only") { 1 } else { 3 }, if a.starts_with("only") { 10 } else { 5 })).collect();
    let all = if r.bool() { vec![] } else { vec!["all".to_owned()] };
    // everything else stays on when it has nothing to act on
    let on: Vec<String> = some.iter().map(|s| (*s).to_owned()).chain(all.clone()).collect();
    let off: Vec<String> = if all.is_empty() { vec!["all".into()] } else { ACT.iter().filter(|a| !some.contains(*a)).chain(&["smart-cables"]).map(|s| (*s).to_owned()).collect() };
    let Some((passes, _)) = select(cx, &conf, &cfg, &on, &off, text) else { return };
    let w = world(r);
    let tiles: Vec<Vec<Thing>> = (0..3 + r.below(20)).map(|_| (0..1 + r.below(4)).map(|_| { let k = r.below(TYPES.len()); things(r, k) }).collect()).collect();
    cx.input(format!("{}\nenable {on:?} disable {off:?}\n{}\n{}", conf.text(), w.text, tiles.iter().enumerate().map(|(i, t)| format!("// tile {i}: {:?}", t.iter().map(|o| (TYPES[o.ty], &o.vars)).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n")));
    render(cx, &w, &tiles, &passes, &some, &conf);
}

fn ways(cx: &mut Cx) {
    for p in RENDER_PASSES { for c in [None, Some(true), Some(false)] { for e in 0..4 { for d in 0..4 {
        let mut conf = Conf::default();
        if let Some(c) = c { conf.passes.insert(p.name.to_owned(), c); }
        let l = |k: usize| { let mut v = vec![]; if k & 1 == 1 { v.push(p.name.to_owned()); } if k & 2 == 2 { v.push("all".to_owned()); } v };
        let cfg = match conf.read(cx) { Ok(c) => c, Err(e) => { cx.violate("config", e); return; } };
        for text in [false, true] { if select(cx, &conf, &cfg, &l(e), &l(d), text).is_none() { return; } }
    } } } }
}

fn hiding(cx: &mut Cx) {
    let mut r = Rng::new(cx.seed);
    let w = World { own: vec![BTreeMap::new(); TYPES.len()], ..world(&mut Rng::new(1)) };
    let text = format!("/atom\n\tlayer = 3\n\tplane = 0\n\ticon = 'i.dmi'\n\ticon_state = \"s0\"\n{}", TYPES.iter().map(|t| format!("{t}\n\tdesc = \"x\"\n")).collect::<String>());
    let w = World { tree: parse_text(&text).tree, text, ..w };
    for p in ["hide-space", "hide-areas", "hide-invisible", "only-powernet", "only-pipenet", "only-wires-and-pipes", "fancy-layers"] {
        for inv in [None, Some(0.), Some(60.), Some(61.), Some(101.)] { for icon in [None, Some("icons/turf/space.dmi"), Some("icons/obj/items_and_weapons.dmi")] { for balloon in [false, true] {
            let tiles: Vec<Vec<Thing>> = (0..TYPES.len()).map(|t| { let mut th = Thing { ty: t, state: r.below(STATES), vars: BTreeMap::new() };
                if let Some(i) = inv { th.vars.insert("invisibility", n(i)); }
                if let Some(i) = icon { th.vars.insert("icon", f(i)); }
                let st = if balloon { "syndballoon".into() } else { format!("s{}", th.state) }; th.vars.insert("icon_state", s(&st)); vec![th] }).collect();
            let conf = Conf::default();
            let cfg = conf.read(cx).unwrap();
            let Some((passes, _)) = select(cx, &conf, &cfg, &[p.to_owned()], &["all".into()], false) else { return };
            render(cx, &w, &tiles, &passes, &[p].into(), &conf);
            if cx.violated() { return; }
        } } }
    }
}
