use crate::ensure;
use crate::fw::*;
use crate::props::c17::{prefab, same_prefab};
use crate::rng::Rng;
use dmm_tools::dmm::{Coord2, Coord3, Map, Prefab};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C18",
    quick: 150000,
    thorough: 3000000,
    case,
    directed: &[("every key of every length", keyspace), ("block shapes", shapes)],
    rule: "a case is map text from this file's own writers: dictionary entries in classic, TGM or arbitrary spacing with comments, blank lines, CRLF, trailing semicolons, shuffled and unused keys of length 1 to 3; a grid cut into rectangular blocks (whole levels, columns, rows, single tiles or random rectangles) in any order; the loaded map is compared at every coordinate, by index, by level iteration and by level index, with the grid the text was written from; distinct by text, non-trivial with more than one block or level and at least two different tiles",
    assumptions: &["values are spelled with the constant printer and evaluated by the constant evaluator, which C10 and C11 judge; here the reader must only hand them over whole"],
    ..DEFAULT
};

const B52: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
fn key_text(mut n: usize, len: usize) -> String {
    let mut v = vec![];
    for _ in 0..len { v.push(B52[n % 52]); n /= 52; }
    v.reverse();
    String::from_utf8(v).unwrap()
}

struct W<'a> { r: &'a mut Rng, out: String, crlf: bool, style: usize }
impl W<'_> {
    fn nl(&mut self) { if self.crlf { self.out.push('\r'); } self.out.push('\n'); }
    /// Optional blank space and comments (only where the format has no text of its own).
    fn gap(&mut self, must_line: bool) {
        if self.style < 2 { if must_line { self.nl(); } return; }
        for _ in 0..self.r.below(3) {
            match self.r.below(6) {
                0 => self.out.push(' '),
                1 => self.out.push('\t'),
                2 => self.nl(),
                3 => { self.out.push_str(self.r.pick(&["// note", "//", "// \"aa\" = (/x)", "//MAP ///", "// (1,1,1) = {\"", "// don't }"])); self.nl(); },
                _ => {},
            }
        }
        if must_line { self.nl(); }
    }
    fn prefab(&mut self, p: &Prefab) {
        self.out.push_str(&p.path);
        if !p.vars.is_empty() {
            if self.style >= 2 && self.r.chance(1, 4) { self.out.push(' '); }
            self.out.push('{');
            for (i, (k, v)) in p.vars.iter().enumerate() {
                if i > 0 { self.out.push(';'); if self.style == 0 { self.out.push(' '); } }
                if self.style == 1 { self.nl(); self.out.push('\t'); } else { self.gap(false); }
                self.out.push_str(k);
                let tight = self.style >= 2 && self.r.chance(1, 4);
                self.out.push_str(if tight { "=" } else { " = " });
                if self.style >= 2 && self.r.chance(1, 8) { self.out.push_str("  "); }
                self.out.push_str(&v.to_string());
            }
            if self.style >= 2 && self.r.chance(1, 3) { self.out.push(';'); self.gap(false); }
            if self.style == 1 { self.nl(); self.out.push('\t'); }
            self.out.push('}');
        }
    }
    fn entry(&mut self, key: &str, fabs: &[Prefab]) {
        self.out.push('"'); self.out.push_str(key); self.out.push('"');
        self.out.push_str(if self.style >= 2 && self.r.chance(1, 3) { "=" } else { " = " });
        self.out.push('(');
        if self.style == 1 { self.nl(); }
        for (i, p) in fabs.iter().enumerate() {
            if i > 0 { self.out.push(','); if self.style == 1 { self.nl(); } }
            self.gap(false);
            self.prefab(p);
            self.gap(false);
        }
        self.out.push(')');
        self.gap(true);
    }
    /// rows top-down
    fn block(&mut self, x: usize, y: usize, z: usize, rows: &[Vec<String>]) {
        self.out.push_str(&format!("({x},{y},{z})"));
        self.out.push_str(if self.style >= 2 && self.r.chance(1, 3) { "=" } else { " = " });
        self.out.push_str("{\"");
        let single = rows.len() == 1 && self.style >= 2 && self.r.chance(1, 2);
        if !single { self.nl(); }
        for (i, r) in rows.iter().enumerate() {
            for k in r { self.out.push_str(k); }
            let last = i + 1 == rows.len();
            if !last || !(single || self.style >= 2 && self.r.chance(1, 3)) { self.nl(); }
        }
        self.out.push_str("\"}");
        self.gap(true);
    }
}

fn cut(r: &mut Rng, mode: usize, x0: usize, x1: usize, y0: usize, y1: usize, out: &mut Vec<(usize, usize, usize, usize)>) {
    let (w, h) = (x1 - x0 + 1, y1 - y0 + 1);
    match mode {
        0 => out.push((x0, x1, y0, y1)),
        1 => for x in x0..=x1 { out.push((x, x, y0, y1)); },
        2 => for y in y0..=y1 { out.push((x0, x1, y, y)); },
        3 => for x in x0..=x1 { for y in y0..=y1 { out.push((x, x, y, y)); } },
        _ => {
            if w == 1 && h == 1 || r.chance(1, 4) { out.push((x0, x1, y0, y1)); return; }
            if h == 1 || w > 1 && r.bool() { let m = x0 + r.below(w - 1); cut(r, 4, x0, m, y0, y1, out); cut(r, 4, m + 1, x1, y0, y1, out); }
            else { let m = y0 + r.below(h - 1); cut(r, 4, x0, x1, y0, m, out); cut(r, 4, x0, x1, m + 1, y1, out); }
        },
    }
}

/// want[z][y-1][x-1]: index into fabs
fn compare(cx: &mut Cx, text: &str, want: &[Vec<Vec<usize>>], fabs: &[Vec<Prefab>], keys: &[String]) {
    cx.input(text);
    let file = cx.scratch.join("r.dmm");
    std::fs::write(&file, text).unwrap();
    let m = match Map::from_file(&file) { Ok(m) => m, Err(e) => { cx.violate("load", format!("a well-formed map is rejected: {} at {:?}", e.description(), e.location())); return; } };
    let dims = (want[0][0].len(), want[0].len(), want.len());
    ensure!(cx, m.dim_xyz() == dims && m.dim_z() == dims.2, "dims", "written {:?}, loaded {:?}", dims, m.dim_xyz());
    ensure!(cx, m.dictionary.len() == keys.len(), "dictionary", "written {} keys, loaded {}", keys.len(), m.dictionary.len());
    ensure!(cx, m.key_length() as usize == keys[0].len(), "key length", "{}", m.key_length());
    let mut levels = 0;
    for (z, level) in m.iter_levels() {
        levels += 1;
        ensure!(cx, z == levels, "levels", "level {levels} is numbered {z}");
        let same = m.z_level(z as usize - 1);
        let mut seen = BTreeSet::new();
        let mut prev: Option<Coord2> = None;
        for (c, k) in level.iter_top_down() {
            let inside = c.x >= 1 && c.x as usize <= dims.0 && c.y >= 1 && c.y as usize <= dims.1;
            ensure!(cx, inside && seen.insert(c), "iteration", "coordinate {c} visited twice or outside the map");
            if let Some(p) = prev { ensure!(cx, c.y < p.y || c.y == p.y && c.x == p.x + 1, "iteration order", "{p} then {c}"); }
            prev = Some(c);
            let idx = want[z as usize - 1][c.y as usize - 1][c.x as usize - 1];
            ensure!(cx, m[Coord3::new(c.x, c.y, z)] == k && m[c.z(z)] == k && level[c] == k && same[c] == k, "index", "({}, {}, {z}) differs by way of access", c.x, c.y);
            ensure!(cx, m.format_key(k).to_string() == keys[idx], "key", "({}, {}, {z}): key {} instead of {}", c.x, c.y, m.format_key(k), keys[idx]);
            let Some(got) = m.dictionary.get(&k) else { cx.violate("dangling", format!("({}, {}, {z}) has an undefined key", c.x, c.y)); return };
            let ok = got.len() == fabs[idx].len() && got.iter().zip(&fabs[idx]).all(|(a, b)| same_prefab(a, b));
            ensure!(cx, ok, "tile", "({}, {}, {z}): {:?} instead of {:?}", c.x, c.y, got, fabs[idx]);
            cx.count("tiles compared", 1);
        }
        ensure!(cx, seen.len() == dims.0 * dims.1, "iteration", "level {z}: {} of {} tiles visited", seen.len(), dims.0 * dims.1);
    }
    ensure!(cx, levels as usize == dims.2, "levels", "{levels} levels of {}", dims.2);
}

fn case(cx: &mut Cx) {
    let r = &mut cx.rng;
    let lim = 2 + cx.size / 14;
    let (dx, dy, dz) = (1 + r.below(lim), 1 + r.below(lim), 1 + r.below(3));
    let len = 1 + r.below(3);
    let n = 1 + r.below(6 + cx.size / 6);
    let space = [52, 2704, 65535][len - 1];
    let mut codes: Vec<usize> = vec![];
    while codes.len() < n { let k = if r.bool() { r.below(n + 3).min(space - 1) } else { r.below(space) }; if !codes.contains(&k) { codes.push(k); } if codes.len() >= space { break; } }
    let keys: Vec<String> = codes.iter().map(|k| key_text(*k, len)).collect();
    let fabs: Vec<Vec<Prefab>> = keys.iter().map(|_| (0..1 + r.below(4)).map(|_| prefab(r, 2)).collect()).collect();
    let want: Vec<Vec<Vec<usize>>> = (0..dz).map(|_| (0..dy).map(|_| (0..dx).map(|_| r.below(keys.len())).collect()).collect()).collect();
    let style = r.below(4);
    let crlf = r.chance(1, 4);
    let mode = r.below(5);
    let mut blocks = vec![];
    for z in 0..dz { let mut b = vec![]; cut(r, mode, 1, dx, 1, dy, &mut b); blocks.extend(b.into_iter().map(|b| (z, b))); }
    if r.chance(1, 3) { r.shuffle(&mut blocks); }
    let mut w = W { r, out: String::new(), crlf, style };
    if w.r.bool() { w.out.push_str("//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE"); w.nl(); }
    for (k, f) in keys.iter().zip(&fabs) { w.entry(k, f); }
    w.nl();
    for (z, (x0, x1, y0, y1)) in &blocks {
        let rows: Vec<Vec<String>> = (*y0..=*y1).rev().map(|y| (*x0..=*x1).map(|x| keys[want[*z][y - 1][x - 1]].clone()).collect()).collect();
        w.block(*x0, *y0, z + 1, &rows);
    }
    if w.r.bool() { let t = w.out.trim_end().len(); w.out.truncate(t); if w.r.bool() { w.nl(); } }
    let text = w.out;
    cx.sig(&text);
    cx.count("blocks", blocks.len() as u64);
    cx.max("blocks in a map", blocks.len() as u64);
    cx.count(["grids by level", "grids by column", "grids by row", "grids by tile", "grids by random rectangles"][mode], 1);
    compare(cx, &text, &want, &fabs, &keys);
    let distinct: BTreeSet<_> = want.iter().flatten().flatten().collect();
    if blocks.len() > 1 && distinct.len() > 1 { cx.nontrivial(); }
}

fn keyspace(cx: &mut Cx) {
    for (len, space) in [(1, 52), (2, 2704), (3, 65535)] {
        let keys: Vec<String> = (0..space).map(|k| key_text(k, len)).collect();
        let mut text = String::new();
        for (i, k) in keys.iter().enumerate() { text += &format!("\"{k}\" = (/a/n{i})\n"); }
        text += "\n(1,1,1) = {\"\n";
        let w = [52, 52, 255][len - 1];
        for row in keys.chunks(w).rev() { for k in row { text += k; } text += "\n"; }
        text += "\"}\n";
        let want: Vec<Vec<usize>> = (0..space).collect::<Vec<_>>().chunks(w).map(|c| c.to_vec()).collect();
        let fabs: Vec<Vec<Prefab>> = (0..space).map(|i| vec![Prefab::from_path(format!("/a/n{i}"))]).collect();
        compare(cx, &text, &[want], &fabs, &keys);
        if cx.violated() { return; }
        cx.count("keys checked", space as u64);
    }
    for k in ["ymp", "ymq", "zaa", "Aaa", "ZZZ"] {
        let file = cx.scratch.join("k.dmm");
        std::fs::write(&file, format!("\"{k}\" = (/a)\n(1,1,1) = {{\"\n{k}\n\"}}\n")).unwrap();
        ensure!(cx, Map::from_file(&file).is_err(), "key overflow", "key {k} beyond the last key is accepted");
    }
    cx.input("");
    cx.nontrivial();
}
fn shapes(cx: &mut Cx) {
    // every rectangle of a 3x4 grid as its own block, the rest single tiles
    let keys: Vec<String> = (0..12).map(|k| key_text(k, 1)).collect();
    let fabs: Vec<Vec<Prefab>> = (0..12).map(|i| vec![Prefab::from_path(format!("/a/n{i}"))]).collect();
    let want: Vec<Vec<usize>> = (0..4).map(|y| (0..3).map(|x| y * 3 + x).collect()).collect();
    for x0 in 1..=3usize { for x1 in x0..=3 { for y0 in 1..=4usize { for y1 in y0..=4 { for style in 0..3 {
        let mut r = Rng::new((x0 * 1000 + x1 * 100 + y0 * 10 + y1) as u64);
        let mut w = W { r: &mut r, out: String::new(), crlf: style == 1, style };
        for (k, f) in keys.iter().zip(&fabs) { w.entry(k, f); }
        let rows: Vec<Vec<String>> = (y0..=y1).rev().map(|y| (x0..=x1).map(|x| keys[want[y - 1][x - 1]].clone()).collect()).collect();
        w.block(x0, y0, 1, &rows);
        for y in 1..=4 { for x in 1..=3 { if !(x >= x0 && x <= x1 && y >= y0 && y <= y1) { w.block(x, y, 1, &[vec![keys[want[y - 1][x - 1]].clone()]]); } } }
        let text = w.out;
        compare(cx, &text, &[want.clone()], &fabs, &keys);
        if cx.violated() { return; }
    } } } } }
    cx.nontrivial();
}
