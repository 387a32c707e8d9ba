use crate::ensure;
use crate::fw::*;
use crate::pngw;
use crate::props::{c17, c20};
use crate::rng::Rng;
use dmm_tools::dmi::{Dir, IconFile, Image, Metadata};
use dmm_tools::dmi::render::IconRenderer;
use dmm_tools::dmm::{Key, Map};

pub static PROP: Prop = Prop {
    id: "C19",
    quick: 250000,
    thorough: 4000000,
    case,
    directed: &[("every truncation and every single change of a small map", small_map), ("every truncation and line change of metadata", small_meta), ("odd numbers", odd_numbers)],
    rule: "a case damages a well-formed map, icon metadata text or icon file (bytes changed, inserted, removed, swapped, lines duplicated or dropped, numbers replaced by hostile ones, truncation; PNG chunks damaged inside with their checksums put right, or outright) and loads it; the loader must return a value or an error within its limits, and what it returns must be usable: every tile's key defined, every sprite's rectangle inside the image and drawable; distinct by damaged bytes, non-trivial when the damaged file differs from the original and its loading got past the header",
    assumptions: &["address space of the process under test is limited to 6 GB, its CPU time per case to 30 s"],
    ..DEFAULT
};

const NUMS: &[&str] = &["0", "-1", "1", "2", "3", "255", "256", "65535", "65536", "4294967295", "4294967296", "2147483648", "18446744073709551615", "18446744073709551616", "99999", "100001", "1e9", "0x10", "1.5", "", "NaN", "inf", "-0", "007"];

pub fn damage(r: &mut Rng, text: &[u8], size: usize) -> Vec<u8> {
    let mut v = text.to_vec();
    for _ in 0..1 + r.below(1 + size / 20) {
        if v.is_empty() { break; }
        let i = r.below(v.len());
        match r.below(11) {
            0 => { let n = r.below(v.len() + 1); v.truncate(n); },
            1 => { v.remove(i); },
            2 => { v[i] = *r.pick(b"\"(){}=,;/\\\n\r\t az09'@[]-.#\0\x80\xff"); },
            3 => { v.insert(i, *r.pick(b"\"(){}=,;/\\\n\r\t az09'@[]-.#\0\x80\xff")); },
            4 => { v[i] = r.below(256) as u8; },
            5 => { let j = r.below(v.len()); v.swap(i, j); },
            6 | 7 => {
                // a line away, doubled or moved
                let mut lines: Vec<Vec<u8>> = v.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                let k = r.below(lines.len());
                match r.below(3) { 0 => { lines.remove(k); }, 1 => { let l = lines[k].clone(); lines.insert(k, l); }, _ => { let j = r.below(lines.len()); lines.swap(j, k); } }
                v = lines.join(&b'\n');
            },
            8 | 9 => {
                // a number replaced
                let runs: Vec<(usize, usize)> = { let mut out = vec![]; let mut s = None; for (p, b) in v.iter().chain(std::iter::once(&b' ')).enumerate() { match (b.is_ascii_digit(), s) { (true, None) => s = Some(p), (false, Some(a)) => { out.push((a, p)); s = None; }, _ => {} } } out };
                if !runs.is_empty() { let (a, b) = *r.pick(&runs); let n = *r.pick(NUMS); v.splice(a..b, n.bytes()); }
            },
            _ => { let n = 1 + r.below(12); let j = (i + n).min(v.len()); let piece = v[i..j].to_vec(); let k = r.below(v.len() + 1); v.splice(k..k, piece); },
        }
    }
    v
}

fn map_text(r: &mut Rng, size: usize) -> Vec<u8> {
    let (dx, dy, dz) = (1 + r.below(2 + size / 30), 1 + r.below(2 + size / 30), 1 + r.below(2));
    let mut m = Map::with_empty_dictionary(dx, dy, dz);
    let n = 1 + r.below(5);
    let mut k = Key::default();
    let mut keys = vec![];
    for _ in 0..n { m.dictionary.insert(k, (0..1 + r.below(3)).map(|_| c17::prefab(r, 1)).collect()); keys.push(k); k = k.next(); }
    if r.chance(1, 8) { let far = c17::nth_key(r.below(3000)); m.dictionary.insert(far, vec![c17::prefab(r, 0)]); }
    for c in m.grid.iter_mut() { *c = *r.pick(&keys); }
    m.adjust_key_length();
    let mut v = vec![];
    m.to_writer(&mut v).unwrap();
    v
}
fn check_map(cx: &mut Cx, bytes: &[u8]) {
    let file = cx.scratch.join("d.dmm");
    std::fs::write(&file, bytes).unwrap();
    match Map::from_file(&file) {
        Ok(m) => {
            cx.count("damaged maps accepted", 1);
            for (z, level) in m.iter_levels() { for (c, k) in level.iter_top_down() {
                ensure!(cx, m.dictionary.contains_key(&k), "dangling key", "({}, {}, {z}) has a key that the dictionary lacks", c.x, c.y);
            } }
            ensure!(cx, m.grid.len() <= bytes.len() + 1, "grid", "{} tiles from {} bytes", m.grid.len(), bytes.len());
            // what was loaded can be saved
            let mut out = vec![];
            m.to_writer(&mut out).unwrap();
            cx.nontrivial();
        },
        Err(e) => { cx.count("damaged maps rejected", 1); let _ = e.to_string(); ensure!(cx, !e.description().is_empty(), "message", "no message"); if e.location().line > 2 { cx.nontrivial(); } },
    }
}
fn meta_states(r: &mut Rng, size: usize) -> Vec<c20::St> { let n = r.below(2 + size / 20); c20::gen_states(r, n, 3) }

fn check_meta(cx: &mut Cx, text: &str) {
    match Metadata::meta_from_str(text) {
        Ok(m) => { cx.count("damaged metadata accepted", 1); for s in &m.states { let _ = (s.num_sprites(), s.is_animated()); for f in 0..s.frames.count().min(64) { let _ = s.frames.delay(f); } let _ = s.index_of_frame(Dir::Northwest, 0); }
            for i in m.state_names.values() { ensure!(cx, *i < m.states.len(), "state index", "{i} of {}", m.states.len()); }
            cx.nontrivial(); },
        Err(e) => { cx.count("damaged metadata rejected", 1); let _ = e.to_string(); if text.starts_with("# BEGIN DMI\nversion = 4.0\n") { cx.nontrivial(); } },
    }
}
fn check_icon(cx: &mut Cx, bytes: &[u8]) {
    let plain = Image::from_bytes(bytes);
    match IconFile::from_bytes(bytes) {
        Ok(icon) => {
            cx.count("damaged icons accepted", 1);
            ensure!(cx, plain.is_ok(), "two ways", "an icon whose image alone is rejected");
            let m = &icon.metadata;
            let (iw, ih) = (icon.image.width, icon.image.height);
            let mut jobs = vec![];
            for s in &m.states { for d in Dir::ALL { for f in [0, s.frames.count() as u32 - 1] { jobs.push((s.get_state_name_index(), *d, f)); } } }
            if m.states.is_empty() { jobs.push(("x".into(), Dir::South, 0)); }
            for (i, d, f) in jobs {
                if let Some((x, y, w, h)) = m.rect_of(iw, &i, d, f) {
                    ensure!(cx, x as u64 + w as u64 <= iw as u64 && y as u64 + h as u64 <= ih as u64 && w > 0 && h > 0, "outside", "state {i} {d:?} frame {f}: ({x},{y},{w},{h}) in {iw}x{ih}");
                    let mut to = Image::new_rgba(w, h);
                    to.composite(&icon.image, (0, 0), (x, y, w, h), [255, 255, 255, 255]);
                    cx.count("sprites drawn from damaged icons", 1);
                }
            }
            if m.width <= 64 && m.height <= 64 {
                let r = IconRenderer::new(&icon);
                for s in m.states.iter().take(4) { if s.frames.count() <= 64 { let _ = r.render_to_images(&s.get_state_name_index()); if let Ok(g) = r.prepare_render_state(s) { let _ = g.render(std::io::sink()); } } }
            }
            cx.nontrivial();
        },
        Err(e) => { cx.count("damaged icons rejected", 1); let _ = e.to_string(); cx.nontrivial(); },
    }
}

fn case(cx: &mut Cx) {
    let size = cx.size;
    let r = &mut cx.rng;
    match r.below(4) {
        0 | 1 => {
            let t = map_text(r, size);
            let v = damage(r, &t, size);
            cx.input(String::from_utf8_lossy(&v).into_owned());
            cx.sig(&v);
            check_map(cx, &v);
        },
        2 => {
            let t = c20::describe(32, 32, &meta_states(r, size));
            let v = damage(r, t.as_bytes(), size);
            let v = String::from_utf8_lossy(&v).into_owned();
            cx.input(v.clone());
            cx.sig(&v);
            check_meta(cx, &v);
        },
        _ => {
            let states = meta_states(r, size);
            let (w, h) = (1 + r.below(4) as u32, 1 + r.below(4) as u32);
            let total: usize = states.iter().map(|s| s.dirs * s.frames).sum();
            let cols = 1 + r.below(total.max(1)) as u32;
            let rows = (total as u32).div_ceil(cols).max(1);
            let px: Vec<[u8; 4]> = (0..cols * w * rows * h).map(|i| [i as u8, (i >> 8) as u8, 7, (i * 3) as u8]).collect();
            let mut desc = c20::describe(w, h, &states).into_bytes();
            let how = r.below(4);
            if how == 0 { desc = damage(r, &desc, size); }
            let mut ch = pngw::chunks(cols * w, rows * h, &px, Some(&desc), r.bool());
            if how == 1 {
                let i = r.below(ch.len());
                match r.below(5) {
                    0 => { ch.remove(i); },
                    1 => { let c = ch[i].clone(); ch.insert(i, c); },
                    2 => { let j = r.below(ch.len()); ch.swap(i, j); },
                    3 => { let d = damage(r, &ch[i].1.clone(), size); ch[i].1 = d; },
                    _ => { let n = [0u32, 1, 2, 31, 33, 65535, 70000, 0x7fffffff, 0x80000000, 0xffffffff][r.below(10)]; if ch[0].1.len() == 13 { let at = 4 * r.below(2); ch[0].1[at..at + 4].copy_from_slice(&n.to_be_bytes()); } },
                }
                if r.chance(1, 4) && ch.first().is_some_and(|c| c.1.len() == 13) { ch[0].1[8 + r.below(5)] = r.below(17) as u8; }
            }
            let mut v = pngw::assemble(&ch);
            if how >= 2 { v = damage(r, &v, size); }
            cx.input(format!("{} bytes, damage {how}: {}\n{:02x?}", v.len(), String::from_utf8_lossy(&desc), &v[..v.len().min(200)]));
            cx.sig(&v);
            check_icon(cx, &v);
        },
    }
}

fn small_map(cx: &mut Cx) {
    let base = b"//c\n\"a\" = (/turf{n = \"x\";m = 1},/area)\n\"b\" = (/turf)\n\n(1,1,1) = {\"\nab\nba\n\"}\n(1,1,2) = {\"aabb\"}\n".to_vec();
    let good = b"//c\n\"a\" = (/turf{n = \"x\";m = 1},/area)\n\"b\" = (/turf)\n\n(1,1,1) = {\"\nab\nba\n\"}\n(1,1,2) = {\"\nab\naa\n\"}\n".to_vec();
    let chars = b"\"(){}=,;/\\\n\t a0A9'@*.#\xff";
    for b in [&base, &good] {
        for n in 0..=b.len() { cx.input(format!("truncated to {n}: {}", String::from_utf8_lossy(b))); check_map(cx, &b[..n]); if cx.violated() { return; } }
        for i in 0..b.len() {
            for c in chars { for ins in [false, true] {
                let mut v = b.clone();
                if ins { v.insert(i, *c); } else { v[i] = *c; }
                cx.input(String::from_utf8_lossy(&v).into_owned());
                check_map(cx, &v);
                if cx.violated() { return; }
            } }
            let mut v = b.clone(); v.remove(i);
            cx.input(String::from_utf8_lossy(&v).into_owned());
            check_map(cx, &v);
            if cx.violated() { return; }
        }
    }
}
fn small_meta(cx: &mut Cx) {
    let base = "# BEGIN DMI\nversion = 4.0\n\twidth = 32\n\theight = 32\nstate = \"a\"\n\tdirs = 4\n\tframes = 2\n\tdelay = 1,2\n\tloop = 1\n\trewind = 1\n\tmovement = 1\n\thotspot = 1,2,1\nstate = \"\"\n\tdirs = 1\n\tframes = 1\n# END DMI\n";
    for n in 0..=base.len() { cx.input(&base[..n]); check_meta(cx, &base[..n]); if cx.violated() { return; } }
    for i in 0..base.len() { for c in "\"\\=,\n 0-x#é".chars() {
        let mut v = base.to_owned(); v.insert(i, c); cx.input(v.clone()); check_meta(cx, &v); if cx.violated() { return; }
        let mut v = base.to_owned(); v.replace_range(i..i + 1, &c.to_string()); cx.input(v.clone()); check_meta(cx, &v); if cx.violated() { return; }
    } }
    let lines: Vec<&str> = base.lines().collect();
    for i in 0..lines.len() { for j in 0..=lines.len() {
        let mut l = lines.clone(); l.insert(j, lines[i]); let t = l.join("\n"); cx.input(t.clone()); check_meta(cx, &t);
        let mut l = lines.clone(); let x = l.remove(i); if j <= l.len() { l.insert(j, x); } let t = l.join("\n"); cx.input(t.clone()); check_meta(cx, &t);
        if cx.violated() { return; }
    } }
}
fn odd_numbers(cx: &mut Cx) {
    for n in NUMS { for (a, _) in [("width", 0), ("height", 0), ("dirs", 1), ("frames", 1), ("delay", 1), ("loop", 1), ("rewind", 1), ("movement", 1), ("nonsense", 1)] {
        let t = format!("# BEGIN DMI\nversion = 4.0\n\twidth = 2\n\theight = 2\nstate = \"a\"\n\t{a} = {n}\nstate = \"b\"\n# END DMI\n");
        cx.input(t.clone());
        check_meta(cx, &t);
        let px = vec![[1, 2, 3, 4]; 16];
        check_icon(cx, &pngw::png(4, 4, &px, Some(t.as_bytes())));
        if cx.violated() { return; }
    }
        for coords in [format!("({n},1,1)"), format!("(1,{n},1)"), format!("(1,1,{n})"), format!("({n},{n},{n})"), format!("({n})"), format!("(1,1,1,{n})")] {
            let t = format!("\"a\" = (/turf)\n{coords} = {{\"\na\n\"}}\n");
            cx.input(t.clone());
            check_map(cx, t.as_bytes());
            if cx.violated() { return; }
        }
    }
}
