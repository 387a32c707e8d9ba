use crate::ensure;
use crate::fw::*;
use crate::props::c11::{CGen, same};
use crate::rng::Rng;
use dm::constants::Constant;
use dmm_tools::dmm::{Coord3, Key, Map, Prefab};

pub static PROP: Prop = Prop {
    id: "C17",
    quick: 40000,
    thorough: 250000,
    case,
    directed: &[("dictionary sizes around the key length steps", steps), ("every value kind in one map", kinds), ("largest dictionary", largest)],
    rule: "a case builds a map through the public API (random dimensions, dictionary with skipped and duplicate prefab lists, variable values from the constant generator of C11: strings over quotes, braces, brackets, escapes, newlines, comment marks and separators, resources, nested prefabs, lists, numbers of every exponent), saves it, loads the file, compares dimensions and the prefab list at every coordinate with the map built, saves again and compares bytes, then edits the loaded map and goes round once more; distinct by saved bytes, non-trivial when a variable is set and more than one tile",
    assumptions: &["numbers are compared after rounding to six significant digits (the format's precision by design)", "texts are those a DM string literal can hold", "adjust_key_length is called before saving, as the map editor does"],
    ..DEFAULT
};

fn path(r: &mut Rng) -> String {
    let mut s = (*r.pick(&["/obj", "/turf", "/area", "/mob", "/obj/item", "/turf/open/floor"])).to_owned();
    for _ in 0..r.below(3) { s.push('/'); s.push_str(r.pick(&["a", "b2", "x_y", "Plating", "proc_thing", "z"])); }
    s
}
pub fn prefab(r: &mut Rng, depth: usize) -> Prefab {
    let mut p = Prefab::from_path(path(r));
    if r.chance(1, 2) {
        for _ in 0..r.below(5) {
            let mut g = CGen { rng: &mut *r, plain_ascii: false };
            let k = if g.rng.chance(1, 6) { format!("v{}", g.rng.below(100)) } else { g.ident() };
            let v = g.constant(depth);
            p.vars.insert(k, v);
        }
    }
    p
}
pub fn nth_key(n: usize) -> Key { let mut k = Key::default(); for _ in 0..n { k = k.next(); } k }

fn content<'a>(m: &'a Map, x: usize, y: usize, z: usize) -> Option<&'a Vec<Prefab>> {
    m.dictionary.get(&m[Coord3::new(x as i32, y as i32, z as i32)])
}
pub fn same_prefab(a: &Prefab, b: &Prefab) -> bool {
    a.path == b.path && a.vars.len() == b.vars.len() && a.vars.iter().zip(b.vars.iter()).all(|((k, v), (l, w))| k == l && same(v, w))
}

fn save(m: &Map) -> Vec<u8> { let mut v = vec![]; m.to_writer(&mut v).expect("writing to memory"); v }

/// One save and load, compared tile by tile. Returns the loaded map.
fn round(cx: &mut Cx, m: &Map, tag: &str) -> Option<Map> {
    let bytes = save(m);
    let file = cx.scratch.join("m.dmm");
    m.to_file(&file).unwrap();
    if std::fs::read(&file).unwrap() != bytes { cx.violate("writers", "to_file and to_writer disagree"); return None; }
    cx.input(String::from_utf8_lossy(&bytes).into_owned());
    let back = match Map::from_file(&file) { Ok(b) => b, Err(e) => { cx.violate(format!("{tag}:load"), format!("the saved map does not load: {} at {:?}", e.description(), e.location())); return None; } };
    if back.dim_xyz() != m.dim_xyz() { cx.violate(format!("{tag}:dims"), format!("{:?} became {:?}", m.dim_xyz(), back.dim_xyz())); return None; }
    let (dx, dy, dz) = m.dim_xyz();
    for z in 1..=dz { for y in 1..=dy { for x in 1..=dx {
        let (a, b) = (content(m, x, y, z), content(&back, x, y, z));
        let ok = match (a, b) { (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same_prefab(p, q)), _ => false };
        if !ok { cx.violate(format!("{tag}:tile"), format!("tile ({x},{y},{z}): {a:?} became {b:?}")); return None; }
        cx.count("tiles compared", 1);
        cx.count("variables compared", a.unwrap().iter().map(|p| p.vars.len() as u64).sum());
    } } }
    let again = save(&back);
    if again != bytes { cx.violate(format!("{tag}:bytes"), format!("second save differs: {}", crate::dm_util::first_diff(&String::from_utf8_lossy(&bytes), &String::from_utf8_lossy(&again)))); return None; }
    Some(back)
}

fn case(cx: &mut Cx) {
    let r = &mut cx.rng;
    let lim = 2 + cx.size / 12;
    let (dx, dy, dz) = (1 + r.below(lim), 1 + r.below(lim), 1 + r.below(3));
    let mut m = Map::with_empty_dictionary(dx, dy, dz);
    // key numbers: dense, or with gaps around the steps
    let n = 1 + r.below(8 + cx.size / 4);
    let mut keys = vec![];
    for i in 0..n { keys.push(match r.below(6) { 0 => *r.pick(&[51, 52, 53, 2703, 2704, 2705]), 1 => r.below(3000), _ => i }); }
    keys.sort(); keys.dedup();
    for k in &keys {
        let fabs = (0..if r.chance(1, 12) { 0 } else { 1 + r.below(4) }).map(|_| prefab(r, 2)).collect();
        m.dictionary.insert(nth_key(*k), fabs);
    }
    let ks: Vec<Key> = m.dictionary.keys().copied().collect();
    for k in m.grid.iter_mut() { *k = *r.pick(&ks); }
    m.adjust_key_length();
    let any_var = m.dictionary.values().flatten().any(|p| !p.vars.is_empty());
    let Some(mut back) = round(cx, &m, "first") else { return };
    if any_var && dx * dy * dz > 1 { cx.nontrivial(); }
    cx.max("dictionary size", keys.len() as u64);
    cx.max("levels", dz as u64);
    cx.sig(&save(&m));
    // a second round after edits of the loaded map
    if cx.rng.chance(1, 3) {
        let r = &mut cx.rng;
        let next = back.dictionary.keys().max().unwrap().next();
        let fabs = (0..1 + r.below(3)).map(|_| prefab(r, 2)).collect();
        back.dictionary.insert(next, fabs);
        for _ in 0..3 {
            let (x, y, z) = (r.below(dx), r.below(dy), r.below(dz));
            back.grid[(z, y, x)] = next;
        }
        back.adjust_key_length();
        if round(cx, &back, "edited").is_some() { cx.count("edited and saved again", 1); }
    }
}

fn numbered(n: usize, x: usize, y: usize) -> Map {
    let mut m = Map::with_empty_dictionary(x, y, 1);
    let mut k = Key::default();
    let mut keys = vec![];
    for i in 0..n {
        let mut p = Prefab::from_path("/turf");
        p.vars.insert("n".into(), Constant::Float(i as f32));
        m.dictionary.insert(k, vec![p, Prefab::from_path(format!("/area/a{i}"))]);
        keys.push(k);
        if i + 1 < n { k = k.next(); }
    }
    for (i, c) in m.grid.iter_mut().enumerate() { *c = keys[i % n]; }
    m.adjust_key_length();
    m
}
fn steps(cx: &mut Cx) {
    for n in [1, 2, 51, 52, 53, 54, 100, 2703, 2704, 2705, 2706] {
        let m = numbered(n, 53, 52);
        let want = if n > 2704 { 3 } else if n > 52 { 2 } else { 1 };
        ensure!(cx, m.key_length() == want, "key length", "{n} keys: length {}", m.key_length());
        if round(cx, &m, &format!("{n} keys")).is_none() { return; }
    }
    cx.nontrivial();
}
fn largest(cx: &mut Cx) {
    for n in [65534, 65535] {
        let m = numbered(n, 256, 256);
        if round(cx, &m, &format!("{n} keys")).is_none() { return; }
        cx.max("dictionary size", n as u64);
    }
    cx.input("");
    cx.nontrivial();
}
fn kinds(cx: &mut Cx) {
    use dm::constants::evaluate_str;
    let vals = ["\"\"", "null", "0", "-1.5", "1e+010", "'a.dmi'", "'a;b}c\\'d\"e,).dmi'", "\"a\\\"b\"", "\"a\\\\\"", "\"\\\\\\\"\"", "{\"a\"b\nc}\"}", "@{\"[x]\"}", "\"semi;colon}brace{\"", "\"// no comment\"", "\"/* none */\"", "\"tab\\there\"", "\"a\tb\"", "/obj/x", "/obj/x{a = 1; b = \"}\"}", "list(1,2,\"a\" = list(3))", "list(/obj/a{b = /turf/c{d = 1}}, \"x\")", "newlist(/obj/a,/obj/b{c = 2})", "new /datum/x(1, \"b)\")", "matrix(1,2,3,4,5,6)", "icon('a.dmi',\"b\")", "\"\\[x]\"", "\"é日😀\"", "\" lead and trail \"", "'  .dmi'"];
    let mut m = Map::new(3, 2, 2, "/turf".into(), "/area".into());
    let mut key = Key::default();
    let all = m.dictionary.get_mut(&key).unwrap();
    let mut p = Prefab::from_path("/obj/all");
    for (i, v) in vals.iter().enumerate() {
        match evaluate_str(Default::default(), v.as_bytes()) { Ok(c) => { p.vars.insert(format!("v{i}"), c); }, Err(e) => { cx.violate("kinds:value", format!("{v}: {}", e.description())); return; } }
    }
    all.insert(0, p.clone());
    for (k, v) in p.vars.iter() {
        key = key.next();
        let mut q = Prefab::from_path("/obj/one");
        q.vars.insert(k.clone(), v.clone());
        m.dictionary.insert(key, vec![q.clone(), q.clone(), Prefab::from_path("/turf")]);
        m.grid[(1, 1, 2)] = key;
        m.adjust_key_length();
        if round(cx, &m, &format!("kind {k}")).is_none() { return; }
    }
    cx.nontrivial();
}
