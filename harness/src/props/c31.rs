use crate::cli;
use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::gen_diag;
use crate::rng::Rng;
use dm::{Context, Severity};
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "C31",
    quick: 3000,
    thorough: 40000,
    case,
    external: true,
    rule: "a case writes a project of one to four files from pieces raising diagnostics of every kind and component (some repeated includes, missing files, syntax errors that stop the parser), sometimes with a configuration; the tool runs on it three times (full, full as JSON, parse-only) and the library twice; the printed reports, their number, the JSON counts and the exit status are compared with each other and with the diagnostics in the library's list; distinct by project, non-trivial when both the parser and the checker reported something",
    assumptions: &[],
    ..DEFAULT
};

#[derive(Clone, PartialEq, Debug)]
struct Seen { all: Vec<String>, printed: String, of_parser: String, counts: [usize; 4], parse_counts: [usize; 4], fatal: bool, by_checker: usize, by_parser: usize }

fn tally(c: &mut [usize; 4], s: Severity) { c[match s { Severity::Error => 0, Severity::Warning => 1, Severity::Info => 2, Severity::Hint => 3 }] += 1; }

fn library(dir: &Path, config: bool) -> Result<Seen, String> {
    let mut ctx = Context::default();
    let dme = dir.join("e.dme");
    if config { ctx.autodetect_config(&dme); }
    let pp = dm::preprocessor::Preprocessor::new(&ctx, dme).map_err(|e| format!("{e:?}"))?;
    let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let (fatal, tree) = parser.parse_object_tree_2();
    let parsed = ctx.errors().len();
    if !fatal { dreamchecker::run(&ctx, &tree); }
    let mut s = Seen { all: diags(&ctx), printed: String::new(), of_parser: String::new(), counts: [0; 4], parse_counts: [0; 4], fatal, by_checker: 0, by_parser: parsed };
    for (i, e) in ctx.errors().iter().enumerate() {
        let mut out = vec![];
        ctx.pretty_print_error_nocolor(&mut out, e).unwrap();
        let out = String::from_utf8_lossy(&out).into_owned();
        let shown = e.severity() <= Severity::Info;
        tally(&mut s.counts, e.severity());
        if shown { s.printed += &out; }
        if i < parsed { tally(&mut s.parse_counts, e.severity()); if shown { s.of_parser += &out; } } else { s.by_checker += 1; }
    }
    Ok(s)
}

/// What was reported, without the parser's statistics.
fn reports(err: &str) -> String { err.lines().filter(|l| !(l.starts_with("parsed ") && l.contains(" proc bodies"))).map(|l| format!("{l}\n")).collect() }
fn found(out: &str) -> Option<usize> { out.lines().find_map(|l| l.strip_prefix("Found ")?.strip_suffix(" diagnostics")?.parse().ok()) }
/// Reports start with "file, line N, column M:".
fn headers(err: &str) -> usize { let e: Vec<&str> = err.lines().collect(); (0..e.len()).filter(|i| e[*i].ends_with(':') && e[*i].contains(", line ") && e[*i].contains(", column ") && e.get(i + 1).is_some_and(|l| ["error: ", "warning: ", "info: "].iter().any(|p| l.starts_with(p)))).count() }

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("c31");
    let files = gen_diag::project(r);
    gen_diag::write(&dir, &files);
    let mut told = gen_diag::told(&files);
    if r.chance(1, 3) {
        let t = super::c15::config(r).text();
        told += &format!("// ---- SpacemanDMM.toml\n{t}");
        std::fs::write(dir.join("SpacemanDMM.toml"), t).unwrap();
    }
    cx.input(told);
    let (a, b) = match (library(&dir, true), library(&dir, true)) { (Ok(a), Ok(b)) => (a, b), (a, b) => { cx.violate("library", format!("{:?} {:?}", a.err(), b.err())); return; } };
    ensure!(cx, a == b, "library-repeat", "analysing twice gives\n{:#?}\nand\n{:#?}", a.all, b.all);
    let mut args = vec!["-e", "e.dme"];
    if r.chance(1, 4) && dir.join("SpacemanDMM.toml").exists() { std::fs::rename(dir.join("SpacemanDMM.toml"), dir.join("other.toml")).unwrap(); args.extend(["-c", "other.toml"]); }
    let go = |extra: &[&str]| { let mut v = args.clone(); v.extend(extra); cli::run("dreamchecker", &cli::args(&v), &dir, None, 60) };
    let full = go(&[]);
    let json = go(&["--json"]);
    let parse = go(&["--parse-only"]);
    let n = a.counts[0] + a.counts[1] + a.counts[2];
    for (o, what) in [(&full, "run"), (&json, "--json run"), (&parse, "--parse-only run")] {
        ensure!(cx, o.code.is_some_and(|c| c == 0 || c == 1), "crash", "{what}: {}", o.told());
        let f = found(&o.out);
        ensure!(cx, f == Some(headers(&o.err)), "count", "the {what} counts {f:?} diagnostics but prints {}: {}", headers(&o.err), o.told());
        ensure!(cx, (o.code == Some(1)) == (f != Some(0)), "status", "the {what} with {f:?} diagnostics ends with {:?}", o.code);
    }
    ensure!(cx, reports(&full.err) == reports(&json.err), "repeat", "two runs report differently\n{}\n----\n{}", full.err, json.err);
    ensure!(cx, json.out.starts_with(full.out.as_str()), "repeat", "two runs print differently\n{}\n----\n{}", full.out, json.out);
    // paths are printed as given
    let strip = |s: &str| s.replace(&format!("{}/", dir.display()), "");
    ensure!(cx, strip(&full.err.replace("other.toml", "SpacemanDMM.toml")).lines().filter(|l| !l.starts_with("parsed ")).eq(strip(&a.printed).lines()), "printed", "printed\n{}\n---- but the diagnostics are\n{}", full.err, a.printed);
    ensure!(cx, strip(&reports(&parse.err).replace("other.toml", "SpacemanDMM.toml")) == strip(&a.of_parser), "parse-only", "parse-only prints\n{}\n---- but the diagnostics not from the checker are\n{}", parse.err, a.of_parser);
    ensure!(cx, found(&full.out) == Some(n), "count", "{:?} diagnostics counted instead of {n}", found(&full.out));
    let v: serde_json::Value = json.out.lines().last().and_then(|l| serde_json::from_str(l).ok()).unwrap_or_default();
    let w = serde_json::json!({"error": a.counts[0], "warning": a.counts[1], "info": a.counts[2], "hint": a.counts[3]});
    ensure!(cx, v == w, "json", "JSON counts {v} instead of {w}");
    cx.count("diagnostics of the parser", a.by_parser as u64);
    cx.count("diagnostics of the checker", a.by_checker as u64);
    cx.count(if n > 0 { "failing runs" } else { "succeeding runs" }, 3);
    if a.fatal { cx.count("projects the parser gives up on", 1); }
    if a.by_checker > 0 && a.by_parser > 0 { cx.nontrivial(); }
}
