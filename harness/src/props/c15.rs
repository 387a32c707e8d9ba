use crate::cli;
use crate::ensure;
use crate::fw::*;
use crate::gen_diag;
use crate::rng::Rng;
use dm::{Context, Severity};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub static PROP: Prop = Prop {
    id: "C15",
    quick: 8000,
    thorough: 200000,
    case,
    directed: &[("every documented diagnostic at every level", every), ("broken configuration files", broken), ("code standards", standards)],
    external: true,
    rule: "a case writes a project of pieces raising diagnostics of every kind, analyses it without configuration and then with a random one (levels in every spelling for random diagnostics, unknown names, unset, a threshold), read from next to the project or by name, through the library and sometimes through the tool; the list of diagnostics must be the unconfigured one with the overrides and then the threshold applied, in order, with everything else about each diagnostic unchanged; distinct by project and configuration, non-trivial when a diagnostic was removed, one changed and one left alone",
    assumptions: &[],
    ..DEFAULT
};

#[derive(Clone, Default, Debug)]
pub struct Conf { pub level: Option<&'static str>, pub diags: BTreeMap<String, &'static str> }
const LEVELS: &[&str] = &["error", "errors", "warning", "warnings", "info", "infos", "hint", "hints", "disabled", "false", "off", "unset"];
impl Conf {
    pub fn text(&self) -> String {
        let mut s = String::new();
        if let Some(l) = self.level { s += &format!("[display]\nerror_level = \"{l}\"\n\n"); }
        if !self.diags.is_empty() { s += "[diagnostics]\n"; for (k, v) in &self.diags { s += &format!("{k} = \"{v}\"\n"); } }
        s
    }
}
pub fn config(r: &mut Rng) -> Conf {
    let mut c = Conf::default();
    if r.chance(1, 2) { c.level = Some(*r.pick(LEVELS)); }
    if r.chance(4, 5) { for _ in 0..*r.pick(&[1, 3, 10, 40]) { c.diags.insert(if r.chance(1, 12) { (*r.pick(&["nosuch", "error", "Must_Call_Parent", "must_call"])).to_owned() } else { (*r.pick(gen_diag::TYPES)).to_owned() }, *r.pick(LEVELS)); } }
    c
}

/// the documented meaning: None removes
fn level(s: &str) -> Option<Option<Severity>> {
    Some(match s { "error" | "errors" => Some(Severity::Error), "warning" | "warnings" => Some(Severity::Warning), "info" | "infos" => Some(Severity::Info), "hint" | "hints" => Some(Severity::Hint), "disabled" | "false" | "off" => None, _ => return None })
}
fn rank(s: Severity) -> u8 { match s { Severity::Error => 1, Severity::Warning => 2, Severity::Info => 3, Severity::Hint => 4 } }

#[derive(Clone, PartialEq, Debug)]
struct D { at: String, severity: u8, text: String, ty: Option<&'static str> }
fn all(ctx: &Context) -> Vec<D> {
    ctx.errors().iter().map(|e| { let l = e.location(); let mut text = e.description().to_owned(); for n in e.notes() { let l = n.location(); text += &format!("\n- {}:{}:{}: {}", ctx.file_path(l.file).display(), l.line, l.column, n.description()); }
        // one description contains the number of a file
        while let Some(i) = text.find("FileId(") { let j = i + text[i..].find(')').unwrap_or(0); text.replace_range(i..=j, "FileId"); } text += &format!("\n{:?}", e.component()); D { at: format!("{}:{}:{}", ctx.file_path(l.file).display(), l.line, l.column), severity: rank(e.severity()), text, ty: e.errortype() } }).collect()
}
fn analyse(dir: &Path, toml: Option<&Path>) -> (Vec<D>, bool) {
    let mut ctx = Context::default();
    let dme = dir.join("e.dme");
    match toml { Some(t) => ctx.force_config(t), None => ctx.autodetect_config(&dme) }
    let pp = dm::preprocessor::Preprocessor::new(&ctx, dme).unwrap();
    let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let (fatal, tree) = parser.parse_object_tree_2();
    if !fatal { dreamchecker::run(&ctx, &tree); }
    (all(&ctx), fatal)
}

fn apply(base: &[D], c: &Conf) -> Vec<D> {
    base.iter().filter_map(|d| {
        let mut d = d.clone();
        if let Some(l) = d.ty.and_then(|t| c.diags.get(t)).and_then(|l| level(l)) { d.severity = rank(l?); }
        match c.level.and_then(level) { None => Some(d), Some(None) => None, Some(Some(t)) => (d.severity <= rank(t)).then_some(d) }
    }).collect()
}

fn judge(cx: &mut Cx, base: &[D], got: &[D], c: &Conf) -> bool {
    let want = apply(base, c);
    if got == want { 
        let (mut changed, mut left) = (0u64, 0u64);
        for d in &want { if base.contains(d) { left += 1 } else { changed += 1 } }
        let removed = (base.len() - want.len()) as u64;
        cx.count("diagnostics removed", removed);
        cx.count("diagnostics given another severity", changed);
        cx.count("diagnostics left alone", left);
        if removed > 0 && changed > 0 && left > 0 { cx.nontrivial(); }
        return true;
    }
    let k = (0..).find(|k| got.get(*k) != want.get(*k)).unwrap();
    cx.violate("applied", format!("diagnostic {k} is {:?} instead of {:?} with\n{}", got.get(k), want.get(k), c.text()));
    false
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let r = &mut r;
    let dir = cx.dir("c15");
    let files = gen_diag::project(r);
    gen_diag::write(&dir, &files);
    let (base, fatal) = analyse(&dir, None);
    for _ in 0..2 {
        let mut c = config(r);
        // what the project raises, mostly
        let raised: BTreeSet<&'static str> = base.iter().filter_map(|d| d.ty).collect();
        for t in raised { if r.bool() { c.diags.insert(t.to_owned(), *r.pick(LEVELS)); } }
        let mut text = c.text();
        if r.chance(1, 6) { text += "\n[langserver]\ndreamchecker = true\n[dmdoc]\nuse_typepath_names = true\n"; }
        if r.chance(1, 8) { text += "\n[nosuch]\nx = 1\n"; }
        cx.input(format!("{}// ---- SpacemanDMM.toml\n{text}", gen_diag::told(&files)));
        let named = r.bool();
        let toml = dir.join(if named { "named.toml" } else { "SpacemanDMM.toml" });
        std::fs::write(&toml, &text).unwrap();
        let (got, f) = analyse(&dir, named.then_some(&toml));
        ensure!(cx, f == fatal, "fatal", "the parser gives up or not depending on the configuration");
        if !judge(cx, &base, &got, &c) { return; }
        if r.chance(1, 12) {
            let mut a = cli::args(&["-e", "e.dme"]);
            if named { a.extend(cli::args(&["-c", "named.toml"])); }
            let o = cli::run("dreamchecker", &a, &dir, None, 60);
            let n = got.iter().filter(|d| d.severity <= 3).count();
            ensure!(cx, o.code == Some((n > 0) as i32), "tool-status", "{n} diagnostics are left with the configuration but the tool says {}", o.told());
            ensure!(cx, o.out.contains(&format!("Found {n} diagnostics")), "tool-count", "{n} diagnostics are left with the configuration but the tool says {}", o.told());
            cx.count("runs of the tool", 1);
        }
        if !named { std::fs::remove_file(&toml).unwrap(); }
    }
}

/// Each piece under each level for each of its diagnostics.
fn every(cx: &mut Cx) {
    let mut seen = BTreeSet::new();
    let mut pieces: Vec<String> = gen_diag::PIECES.iter().enumerate().map(|(i, p)| p.replace('@', &i.to_string())).collect();
    pieces.push("#include \"a.dm\"\n".into());
    for p in pieces {
        let dir = cx.dir("c15e");
        gen_diag::write(&dir, &[("e.dme".into(), "#include \"a.dm\"\n".into()), ("a.dm".into(), p.clone())]);
        let (base, _) = analyse(&dir, None);
        let types: BTreeSet<&'static str> = base.iter().filter_map(|d| d.ty).collect();
        seen.extend(types.iter().copied());
        let mut confs: Vec<Conf> = LEVELS.iter().map(|l| Conf { level: Some(l), ..Conf::default() }).collect();
        for t in types { for l in LEVELS { for d in [None, Some("error"), Some("warning"), Some("info"), Some("hint"), Some("off")] { confs.push(Conf { level: d, diags: [(t.to_owned(), *l)].into() }); } } }
        for c in confs {
            cx.input(format!("{p}// ----\n{}", c.text()));
            std::fs::write(dir.join("SpacemanDMM.toml"), c.text()).unwrap();
            let (got, _) = analyse(&dir, None);
            if !judge(cx, &base, &got, &c) { return; }
        }
    }
    cx.count("kinds of diagnostics raised", seen.len() as u64);
    let missing: Vec<_> = gen_diag::TYPES.iter().filter(|t| !seen.contains(*t)).collect();
    ensure!(cx, missing.is_empty(), "not-configurable", "no diagnostic is governed by the options {missing:?}");
}

fn broken(cx: &mut Cx) {
    let dir = cx.dir("c15b");
    let mut r = Rng::new(cx.seed);
    let t = dir.join("SpacemanDMM.toml");
    let bad: &[(&str, Option<(u32, u32)>)] = &[
        ("[diagnostics\n", Some((1, 13))), ("[display]\nerror_level = \"nosuch\"\n", None), ("[display]\nerror_level = 3\n", None), ("[diagnostics]\nmust_call_parent = \"loud\"\n", None),
        ("diagnostics = 1\n", None), ("[display]\nerror_level = \"off\n", None), ("nonsense", None), ("[display]\nerror_level = \"off\"\n\n= 3\n", None), ("[code_standards]\ndisallow_relative_proc_definitions = \"yes\"\n", None), ("[diagnostics]\nmust_call_parent = \"Error\"\n", None),
    ];
    for round in 0..12 {
        let files = gen_diag::project(&mut r);
        let d = cx.dir("c15b");
        gen_diag::write(&d, &files);
        let (base, _) = analyse(&d, None);
        for (k, (text, _)) in bad.iter().enumerate() {
            cx.input(format!("{}// ---- SpacemanDMM.toml\n{text}", gen_diag::told(&files)));
            std::fs::write(&t, text).unwrap();
            check_broken(cx, &base, &analyse(&d, None).0, &t, text);
            if cx.violated() { return; }
            if round == 0 {
                let o = cli::run("dreamchecker", &cli::args(&["-e", "e.dme"]), &d, None, 60);
                ensure!(cx, o.code == Some(1) && o.err.contains("SpacemanDMM.toml, line "), "broken-tool", "broken configuration {k}: {}", o.told());
            }
        }
        std::fs::write(&t, [b'[', 0xff, 0xfe, b'\n']).unwrap();
        check_broken(cx, &base, &analyse(&d, None).0, &t, "not UTF-8");
        std::fs::remove_file(&t).unwrap();
        check_broken(cx, &base, &analyse(&d, Some(&d.join("nosuch.toml"))).0, &d.join("nosuch.toml"), "missing");
        std::fs::create_dir(&t).unwrap();
        check_broken(cx, &base, &analyse(&d, None).0, &t, "a directory");
        std::fs::remove_dir(&t).unwrap();
        if cx.violated() { return; }
    }
}
fn check_broken(cx: &mut Cx, base: &[D], got: &[D], t: &Path, what: &str) {
    ensure!(cx, !got.is_empty() && got[0].at.starts_with(&format!("{}:", t.display())) && got[0].severity == 1 && got[0].ty.is_none(), "broken-unreported", "the broken configuration ({what:?}) is not reported: {:?}", got.first());
    ensure!(cx, got[1..] == *base, "broken-defaults", "with a broken configuration ({what:?}) the diagnostics are {:#?} instead of {base:#?}", &got[1..]);
    cx.count("broken configurations reported", 1);
}

/// The opt-in reports of relatively pathed definitions.
fn standards(cx: &mut Cx) {
    let forms: &[(&str, usize, usize)] = &[
        ("/obj/a\n\tvar/x = 1\n", 0, 0), ("obj/a\n\tvar/x = 1\n", 1, 0), ("/obj/a\n\tb\n\t\tvar/x = 1\n", 1, 0), ("/obj/a\n\tb/c\n\t\tvar/x = 1\n", 1, 0), ("/obj/a/b\n\tc\n\t\td\n\t\t\tvar/e = 1\n", 2, 0),
        ("/obj/a/proc/p()\n\treturn\n", 0, 0), ("/obj/a\n\tproc/p()\n\t\treturn\n", 0, 1), ("/obj/a\n\tproc\n\t\tp()\n\t\t\treturn\n\t\tq()\n\t\t\treturn\n", 0, 2), ("/proc/p()\n\treturn\n", 0, 0), ("proc/p()\n\treturn\n", 0, 1),
        ("/obj/a\n\tNew()\n\t\treturn\n", 0, 1), ("/obj/a{b{var/x = 1}}\n", 1, 0), ("/obj/a\n\tname = \"x\"\n\tvar\n\t\ty\n", 0, 0), ("var/x = 1\nvar\n\ty\n", 0, 0), ("/obj/a\n\tvar/obj/a/x\n", 0, 0),
    ];
    let mut r = Rng::new(cx.seed);
    for _ in 0..200 {
        let (mut text, mut t, mut p) = (String::new(), 0, 0);
        for k in 0..1 + r.below(4) { let f = r.pick(forms); text += &f.0.replace("obj/a", &format!("obj/a{k}")).replace("/p()", &format!("/p{k}()")).replace("x", &format!("x{k}")).replace("y\n", &format!("y{k}\n")).replace(&format!("x{k}\""), "x\""); t += f.1; p += f.2; }
        let (ft, fp) = (r.bool(), r.bool());
        let dir = cx.dir("c15s");
        gen_diag::write(&dir, &[("e.dme".into(), "#include \"a.dm\"\n".into()), ("a.dm".into(), text.clone())]);
        let conf = format!("[code_standards]\ndisallow_relative_type_definitions = {ft}\ndisallow_relative_proc_definitions = {fp}\n");
        cx.input(format!("{text}// ----\n{conf}"));
        let (base, _) = analyse(&dir, None);
        std::fs::write(dir.join("SpacemanDMM.toml"), conf).unwrap();
        let (got, _) = analyse(&dir, None);
        let count = |s: &str| got.iter().filter(|d| d.text.starts_with(s) && d.severity == 2 && d.ty.is_none()).count();
        let (gt, gp) = (count("relatively pathed type"), count("relatively pathed proc"));
        ensure!(cx, (gt, gp) == (if ft { t } else { 0 }, if fp { p } else { 0 }), "standards", "{gt} relative types and {gp} relative procs are reported; there are {t} and {p}");
        ensure!(cx, got.len() == base.len() + gt + gp, "standards-else", "the code standards change other diagnostics: {got:?} instead of {base:?}");
        cx.count("relative definitions reported", (gt + gp) as u64);
    }
}
