use crate::cli;
use crate::ensure;
use crate::fw::*;
use crate::mapw::{self, MapM};
use crate::pngw;
use crate::props::c20::{describe, St};
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub static PROP: Prop = Prop {
    id: "C23",
    quick: 600,
    thorough: 20000,
    case,
    directed: &[("the sanitized tools are there", sanitized)],
    external: true,
    rule: "a case either runs two to nine threads with random delays over one icon cache (good, broken and missing files, each lookup judged by the content its file was written with, loads counted) and then renders the levels of a map on all of them with a shared cache and error list, compared with rendering alone; or writes a project and one to seven maps (some unreadable, icons missing or broken, unknown types) and compares minimap and render-many with 2-16 jobs against 1 job: exit status, every file byte for byte, the lines reported. A third of the runs are made with binaries built with ThreadSanitizer (standard library included); any report, deadlock or panic is a violation; distinct by interleaving of the lookups and by case",
    assumptions: &["maps in one minimap run have different names", "an error several workers meet at once may be printed more than once"],
    ..DEFAULT
};

fn tsan(name: &str) -> PathBuf { let d = std::env::current_exe().unwrap(); d.parent().unwrap().parent().unwrap().join("tsan/x86_64-unknown-linux-gnu/debug").join(name) }
fn program(name: &str, sanitize: bool) -> String { if sanitize { tsan(name).display().to_string() } else { name.to_owned() } }

fn sanitized(cx: &mut Cx) {
    for n in ["racer", "dmm-tools"] { if !tsan(n).exists() { cx.inconclusive("no sanitized build"); } }
    cx.count("sanitized programs", 2);
}

fn race(cx: &mut Cx, seed: u64, sanitize: bool) {
    let dir = cx.dir("c23r");
    cx.input(format!("racer {seed} sanitized {sanitize}"));
    let o = cli::run(&program("racer", sanitize), &[seed.to_string(), dir.display().to_string()], &dir, None, 150);
    if o.err.contains("FATAL: ThreadSanitizer") { cx.inconclusive("the sanitizer cannot start here"); return; }
    let last = o.out.lines().last().unwrap_or("").to_owned();
    match o.code {
        Some(0) => {},
        Some(66) => { cx.violate("data-race", o.err.chars().take(4000).collect::<String>()); return; },
        Some(3) => { cx.violate("concurrent", last); return; },
        Some(97) => { cx.violate("stuck", last); return; },
        _ if o.hung => { cx.violate("stuck", "the threads do not finish"); return; },
        _ => { cx.violate("crash", o.told()); return; },
    }
    let v: Vec<u64> = last.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
    cx.count("concurrent lookups", v[0]);
    cx.count("files loaded by two threads at once", v[1]);
    cx.count("levels drawn concurrently", v[2]);
    cx.sig(&v[4]);
    cx.nontrivial();
}

const TYPES: &[&str] = &["/turf/a", "/turf/b", "/obj/a", "/obj/b", "/obj/c", "/area/a", "/mob/a"];

fn world(r: &mut Rng, dir: &Path) -> String {
    let mut dm = String::from("/atom\n\ticon = 'i.dmi'\n");
    for (i, p) in TYPES.iter().enumerate() { dm += &format!("{p}\n\ticon_state = \"s{i}\"\n"); if r.chance(1, 3) { dm += &format!("\ticon = '{}'\n", r.pick(&["j.dmi", "k.dmi", "nosuch.dmi", "broken.dmi"])); } }
    std::fs::write(dir.join("e.dme"), "#include \"a.dm\"\n").unwrap();
    std::fs::write(dir.join("a.dm"), &dm).unwrap();
    std::fs::write(dir.join("broken.dmi"), "no picture").unwrap();
    for (k, n) in ["i.dmi", "j.dmi", "k.dmi"].iter().enumerate() {
        let st: Vec<St> = (0..TYPES.len()).filter(|i| k == 0 || (i + k) % 4 != 0).map(|i| St { name: format!("s{i}"), dirs: 1, frames: 1, explicit: true, delays: None, extra: 0, loop_: 0, rewind: false, movement: false }).collect();
        let wide = 32 * st.len() as u32;
        let px: Vec<[u8; 4]> = (0..wide * 32).map(|i| { let b = mix(i as u64 + (k as u64) << 32).to_le_bytes(); [b[0], b[1], b[2], if b[3] % 4 == 0 { 0 } else { 255 }] }).collect();
        std::fs::write(dir.join(n), pngw::png(wide, 32, &px, Some(describe(32, 32, &st).as_bytes()))).unwrap();
    }
    dm
}

fn map(r: &mut Rng) -> MapM {
    let (x, y, z) = (1 + r.below(5), 1 + r.below(5), 1 + r.below(4));
    let pool = (0..1 + r.below(6)).map(|_| (0..1 + r.below(3)).map(|_| {
        let mut v = vec![];
        if r.chance(1, 4) { v.push(("icon".to_owned(), (*r.pick(&["'j.dmi'", "'k.dmi'", "'nosuch.dmi'", "'other.dmi'", "'broken.dmi'"])).to_owned())); }
        if r.chance(1, 6) { v.push(("icon_state".to_owned(), (*r.pick(&["\"s1\"", "\"nosuch\"", "\"\""])).to_owned())); }
        (if r.chance(1, 12) { format!("/obj/unknown{}", r.below(3)) } else { (*r.pick(TYPES)).to_owned() }, v)
    }).collect()).collect::<Vec<_>>();
    let grid = (0..x * y * z).map(|_| r.below(pool.len())).collect();
    MapM { x, y, z, pool, grid }
}

fn contents(d: &Path) -> BTreeMap<String, Vec<u8>> { std::fs::read_dir(d).map(|l| l.map(|e| { let e = e.unwrap(); (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()) }).collect()).unwrap_or_default() }
/// Lines without the mark of the map they belong to.
fn lines(s: &str, files: &[String]) -> Vec<String> {
    let mut v: Vec<String> = s.lines().map(|l| { let l = l.trim_start(); for f in files { if let Some(x) = l.strip_prefix(&format!("{f}: ")) { return x.to_owned(); } } l.to_owned() }).collect();
    v.sort();
    v
}

fn jobs(cx: &mut Cx, r: &mut Rng, sanitize: bool) {
    let dir = cx.dir("c23");
    let dm = world(r, &dir);
    let mut told = dm;
    let n = 1 + r.below(7);
    let mut files = vec![];
    let mut levels = 0;
    for k in 0..n {
        let f = format!("m{k}.dmm");
        files.push(f.clone());
        if r.chance(1, 10) { if r.bool() { std::fs::write(dir.join(&f), "no map").unwrap(); } continue; }
        let m = map(r);
        levels += m.z;
        let (t, ..) = mapw::write(r, &m, false, 0);
        told += &format!("// {f}\n{t}\n");
        std::fs::write(dir.join(&f), t).unwrap();
    }
    let many = r.chance(1, 3) && files.iter().all(|f| std::fs::read(dir.join(f)).is_ok_and(|t| t.len() > 6));
    let j = (*r.pick(&["2", "2", "3", "4", "8", "16", "0"])).to_owned();
    cx.input(format!("jobs {j} render-many {many} sanitized {sanitize}\n{told}"));
    let go = |jobs: &str, out: &str, program: &str| {
        if many {
            let req = serde_json::json!({"output_directory": out, "files": files.iter().map(|f| serde_json::json!({"path": f})).collect::<Vec<_>>()});
            cli::run(program, &cli::args(&["-e", "e.dme", "--jobs", jobs, "render-many"]), &dir, Some(&req.to_string()), 150)
        } else {
            let mut ar = cli::args(&["-e", "e.dme", "--jobs", jobs, "minimap", "-o", out]);
            ar.extend(files.iter().cloned());
            cli::run(program, &ar, &dir, None, 150)
        }
    };
    let a = go("1", "out-a", "dmm-tools");
    let b = go(&j, "out-b", &program("dmm-tools", sanitize));
    ensure!(cx, !b.hung && !a.hung, "stuck", "the tool does not finish with {j} jobs");
    if b.err.contains("FATAL: ThreadSanitizer") { cx.inconclusive("the sanitizer cannot start here"); return; }
    ensure!(cx, b.code != Some(66) || a.code == Some(66), "data-race", "{}", b.err.chars().take(4000).collect::<String>());
    ensure!(cx, a.code == b.code && a.code.is_some(), "status", "with 1 job: {}\nwith {j}: {}", a.told(), b.told());
    let (ca, cb) = (contents(&dir.join("out-a")), contents(&dir.join("out-b")));
    let names = |c: &BTreeMap<String, Vec<u8>>| c.keys().cloned().collect::<Vec<_>>();
    ensure!(cx, names(&ca) == names(&cb), "files", "with {j} jobs {:?} are written instead of {:?}", names(&cb), names(&ca));
    for (f, x) in &ca { ensure!(cx, cb[f] == *x, "content", "{f} is another with {j} jobs"); }
    if many { ensure!(cx, a.out == b.out, "answer", "with {j} jobs {} instead of {}", b.out, a.out); } else {
        let base: Vec<String> = files.clone();
        let (la, lb) = (lines(&a.out.replace("out-a", "out"), &base), lines(&b.out.replace("out-b", "out"), &base));
        // an error met by several workers at once may be printed by each
        let (sa, sb): (BTreeSet<_>, BTreeSet<_>) = (la.iter().collect(), lb.iter().collect());
        ensure!(cx, sa == sb, "report", "with {j} jobs {lb:#?} instead of {la:#?}");
        let count = |l: &[String], p: &str| l.iter().filter(|x| x.starts_with(p)).count();
        for p in ["rendering from", "generating z=", "saving "] { ensure!(cx, count(&la, p) == count(&lb, p), "report", "with {j} jobs {lb:#?} instead of {la:#?}"); }
    }
    if !many {
        let (ea, eb): (BTreeSet<String>, BTreeSet<String>) = (lines(&a.err, &files).into_iter().collect(), lines(&b.err, &files).into_iter().collect());
        ensure!(cx, ea == eb, "errors", "with {j} jobs {eb:#?} instead of {ea:#?}");
        cx.count("lines of errors compared", ea.len() as u64);
    }
    cx.count("pictures compared", ca.len() as u64);
    cx.count(if sanitize { "sanitized parallel runs" } else { "parallel runs" }, 1);
    if levels > 1 { cx.nontrivial(); }
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let sanitize = r.chance(1, 3) && tsan("racer").exists();
    if r.bool() { let s = r.u64() >> 20; race(cx, s, sanitize); if sanitize { cx.count("sanitized races", 1); } } else { jobs(cx, r, sanitize); }
}
