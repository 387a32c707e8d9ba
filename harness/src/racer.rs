//! Concurrent uses of the shared icon cache and of the renderer in one process, built with
//! ThreadSanitizer: `racer SEED DIR`. Exit 0 and a line of counters, 3 with what went wrong, 66 from
//! the sanitizer, 97 when threads do not finish.
#[allow(dead_code)]
#[path = "rng.rs"]
mod rng;
#[allow(dead_code)]
#[path = "pngw.rs"]
mod pngw;
extern crate dreammaker as dm;
use dmm_tools::dmi::IconFile;
use dmm_tools::dmm::Map;
use dmm_tools::{IconCache, minimap, render_passes};
use rng::Rng;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Barrier, RwLock};
use std::time::{Duration, Instant};

const ICONS: usize = 10;

fn icon(k: usize) -> PathBuf { PathBuf::from(if k % 3 == 2 { format!("sub/i{k}.dmi") } else { format!("i{k}.dmi") }) }
/// 0 fine, 1 missing, 2 broken
fn state(seed: u64, k: usize) -> usize { match rng::mix(seed ^ (k as u64 * 77)) % 8 { 0 => 1, 1 => 2, _ => 0 } }
fn colour(k: usize) -> [u8; 4] { [20 + 20 * k as u8, 255 - 13 * k as u8, (k * k) as u8, 255] }

fn files(seed: u64, dir: &Path) {
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    for k in 0..ICONS {
        let desc = format!("# BEGIN DMI\nversion = 4.0\n\twidth = 32\n\theight = 32\nstate = \"\"\n\tdirs = 1\n\tframes = 1\nstate = \"own{k}\"\n\tdirs = 1\n\tframes = 1\n# END DMI\n");
        let px = vec![colour(k); 64 * 32];
        let mut b = pngw::png(64, 32, &px, Some(desc.as_bytes()));
        match state(seed, k) { 1 => continue, 2 => b.truncate(60), _ => {} }
        std::fs::write(dir.join(icon(k)), b).unwrap();
    }
}

fn judge(seed: u64, k: usize, got: Option<&IconFile>) -> Result<(), String> {
    match (state(seed, k), got) {
        (0, Some(f)) => {
            let p = f.image.data.as_slice().unwrap()[0];
            if f.metadata.get_icon_state(&format!("own{k}").into()).is_none() || [p.r, p.g, p.b, p.a] != colour(k) { return Err(format!("looking up {} gives the content of another file: {:?}", icon(k).display(), f.metadata)); }
            Ok(())
        },
        (0, None) => Err(format!("looking up {} gives nothing", icon(k).display())),
        (_, Some(_)) => Err(format!("looking up the {} file {} gives something", ["", "missing", "broken"][state(seed, k)], icon(k).display())),
        (_, None) => Ok(()),
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let seed: u64 = a.next().unwrap().parse().unwrap();
    let dir = PathBuf::from(a.next().unwrap());
    std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(100)); println!("threads do not finish"); std::process::exit(97); });
    let mut r = Rng::new(seed);
    files(seed, &dir);
    let fail = |m: String| -> ! { println!("{m}"); std::process::exit(3) };

    // lookups
    let mut cache = IconCache::default();
    cache.set_icons_root(&dir);
    let threads = 2 + r.below(7);
    let few = 1 + r.below(ICONS);
    let barrier = Barrier::new(threads);
    let epoch = Instant::now();
    type Log = Vec<(Duration, usize, Result<(), String>, Option<Arc<IconFile>>)>;
    let logs: Vec<Log> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| {
            let (cache, barrier) = (&cache, &barrier);
            let mut r = Rng::new(seed ^ (t as u64 + 1) << 20);
            s.spawn(move || {
                let mut log: Log = vec![];
                barrier.wait();
                for _ in 0..25 {
                    let k = r.below(few);
                    match r.below(6) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(Duration::from_micros(r.below(200) as u64)), _ => {} }
                    let got = cache.retrieve_shared(&icon(k));
                    log.push((epoch.elapsed(), k, judge(seed, k, got.as_deref()), got));
                }
                log
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| { println!("a lookup panics"); std::process::exit(3) })).collect()
    });
    let lookups: usize = logs.iter().map(|l| l.len()).sum();
    let mut order: Vec<(Duration, usize, usize)> = vec![];
    let mut copies = std::collections::HashSet::new();
    let mut touched = std::collections::HashSet::new();
    for (t, l) in logs.iter().enumerate() { for (at, k, verdict, got) in l {
        if let Err(e) = verdict { fail(e.clone()); }
        order.push((*at, t, *k));
        if let Some(g) = got { copies.insert((*k, Arc::as_ptr(g) as usize)); touched.insert(*k); }
    } }
    order.sort();
    let mut h = DefaultHasher::new();
    for (_, t, k) in &order { (t, k).hash(&mut h); }
    // quiet: the cache settles
    for k in 0..few {
        let (x, y) = (cache.retrieve_shared(&icon(k)), cache.retrieve_shared(&icon(k)));
        if let Err(e) = judge(seed, k, x.as_deref()) { fail(e); }
        if let (Some(x), Some(y)) = (&x, &y) { if !Arc::ptr_eq(x, y) { fail(format!("{} is loaded again although cached", icon(k).display())); } }
        if let Err(e) = judge(seed, k, cache.retrieve_uniq(&icon(k))) { fail(e); }
    }

    // renderings sharing a cache and an error list
    let types = ["/turf/a", "/obj/a", "/obj/b", "/mob/a", "/area/a"];
    let mut dm = String::from("/atom\n\tname = \"n\"\n");
    for (i, t) in types.iter().enumerate() { dm += &format!("{t}\n\ticon = '{}'\n", icon((i + seed as usize) % ICONS).display()); }
    std::fs::write(dir.join("e.dme"), "#include \"a.dm\"\n").unwrap();
    std::fs::write(dir.join("a.dm"), dm).unwrap();
    let ctx = dm::Context::default();
    let tree = ctx.parse_environment(&dir.join("e.dme")).unwrap();
    let (w, hgt, levels) = (1 + r.below(4), 1 + r.below(4), 1 + r.below(4));
    let mut text = String::new();
    for k in 0..6 { text += &format!("\"{}\" = ({},{}{},/obj/nosuch{k})\n", (b'a' + k) as char, r.pick(&types), r.pick(&types), if r.bool() { format!("{{icon = '{}'; pixel_x = {}}}", icon(r.below(ICONS)).display(), r.range(-20, 20)) } else { String::new() }); }
    for z in 1..=levels { text += &format!("(1,1,{z}) = {{\"\n"); for _ in 0..hgt { for _ in 0..w { text.push((b'a' + r.below(6) as u8) as char); } text.push('\n'); } text += "\"}\n"; }
    std::fs::write(dir.join("m.dmm"), &text).unwrap();
    let map = Map::from_file(&dir.join("m.dmm")).unwrap();
    let passes = &render_passes::configure_list(&Default::default(), &[] as &[&str], &[] as &[&str]);
    let draw = |cache: &IconCache, errors: &RwLock<_>, z: usize| {
        let bump = Default::default();
        let i = minimap::generate(minimap::Context { objtree: &tree, map: &map, level: map.z_level(z), min: (0, 0), max: (w - 1, hgt - 1), render_passes: passes, errors, bump: &bump, print_errors: false }, cache).unwrap_or_else(|_| { println!("rendering fails"); std::process::exit(3) });
        (i.width, i.height, i.data.as_slice().unwrap().iter().map(|p| [p.r, p.g, p.b, p.a]).collect::<Vec<_>>())
    };
    let fresh = || { let mut c = IconCache::default(); c.set_icons_root(&dir); c };
    let (alone, alone_errors) = (fresh(), RwLock::default());
    let want: Vec<_> = (0..levels).map(|z| draw(&alone, &alone_errors, z)).collect();
    let (shared, errors) = (fresh(), RwLock::default());
    let barrier = Barrier::new(threads);
    let mut pictures = 0;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| { let (draw, shared, errors, barrier) = (&draw, &shared, &errors, &barrier); s.spawn(move || { barrier.wait(); (0..levels).map(|i| { let z = (i + t) % levels; (z, draw(shared, errors, z)) }).collect::<Vec<_>>() }) }).collect();
        for h in hs { for (z, p) in h.join().unwrap_or_else(|_| { println!("a rendering panics"); std::process::exit(3) }) { pictures += 1; if p != want[z] { println!("level {} drawn concurrently differs from the one drawn alone\n{text}", z + 1); std::process::exit(3); } } }
    });
    let (a, b) = (alone_errors.into_inner().unwrap(), errors.into_inner().unwrap());
    if a != b { fail(format!("errors reported concurrently {b:?} instead of {a:?}")); }
    println!("{} {} {} {} {}", lookups, copies.len() - touched.len(), pictures, a.len(), h.finish());
}
