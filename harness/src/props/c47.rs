//! Where settings of procs may stand, and what values they take.
use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C47",
    quick: 60000,
    thorough: 2000000,
    case,
    directed: &[],
    rule: "a case is a type, a subtype, further definitions and global procs, each with settings at the top of, after or inside the statements of their bodies, over all linter and built-in settings, unknown ones, and values of every kind; the reports on the lines of settings must be exactly those of the rules, and the calls of privately, protectedly or finally declared procs from outside must be reported exactly if such a declaration was accepted; distinct by text, non-trivial with an accepted and a rejected setting",
    assumptions: &["values that are expressions rather than single terms are not judged for the texts of verbs"],
    ..DEFAULT
};

/// name, may be false, only at the declaration, may be on global procs
const LINT: &[(&str, bool, bool, bool)] = &[
    ("should_not_override", false, false, false), ("should_call_parent", true, false, false), ("should_not_call_parent", true, false, false), ("private_proc", false, true, false), ("protected_proc", false, true, false),
    ("should_not_sleep", false, true, true), ("allowed_to_sleep", false, true, true), ("should_be_pure", false, true, true), ("can_be_redefined", false, false, false),
];
const VALUES: &[&str] = &["0", "1", "TRUE", "FALSE", "2", "50", "100", "101", "null", "\"x\"", "\"x[1]\"", "gv", "1.5", "list(1)", "'x.dmi'"];

fn boolean(v: &str) -> Option<bool> { match v { "1" | "TRUE" => Some(true), "0" | "FALSE" => Some(false), _ => None } }

struct Body { text: String, line: usize, want: BTreeMap<usize, Vec<&'static str>>, took: BTreeSet<(&'static str, bool)>, accepted: u32, rejected: u32 }

/// one proc: `decl` if it is the first definition, `global` if it is of no type
fn body(r: &mut Rng, b: &mut Body, head: &str, decl: bool, global: bool) {
    let line = |b: &mut Body, s: String| { b.text += &s; b.text.push('\n'); b.line += 1; };
    line(b, head.to_owned());
    b.took.clear();
    let mut top = true;
    for _ in 0..r.below(6) {
        if r.chance(1, 7) { top = false; let s = *r.pick(&["\tgv = 1", "\tvar/x0 = 1", "\tgv++"]); let s = if s.contains("x0") { format!("\tvar/x{} = 1", b.line) } else { s.to_owned() }; line(b, s); continue; }
        let nested = r.chance(1, 8);
        let plain = r.bool();
        let v = *r.pick(if plain { &VALUES[..4] } else { VALUES });
        let mut want = vec![];
        let name = if r.chance(2, 3) {
            let l = r.below(LINT.len() + 1);
            if l == LINT.len() {
                let n = *r.pick(&["SpacemanDMM_", "SpacemanDMM_private", "SpacemanDMM_should_sleep", "SpacemanDMM_should_call_parents"]);
                if top && !nested { want.push("unknown_linter_setting"); } else { want.push("set_has_no_effect"); }
                n.to_owned()
            } else {
                let (n, off, declared, anywhere) = LINT[l];
                if !top || nested { want.push("set_has_no_effect"); }
                else if declared && !decl { want.push("not at its declaration"); }
                else { match boolean(v) {
                    None => want.push("invalid_lint_directive_value"),
                    Some(_) if global && !anywhere => want.push("incompatible_directive"),
                    Some(false) if !off => want.push("disabled_directive"),
                    Some(t) => if b.took.iter().any(|(m, _)| *m == n) { want.push("sets_directive_twice"); } else { b.took.insert((n, t)); },
                } }
                format!("SpacemanDMM_{n}")
            }
        } else {
            let n = *r.pick(&["background", "waitfor", "hidden", "instant", "popup_menu", "name", "category", "desc", "invisibility", "backgrounds", "hide", "spaceman"]);
            if top && !nested { match n {
                "background" | "waitfor" | "hidden" | "instant" | "popup_menu" => if boolean(v).is_none() { want.push("invalid_set_value"); },
                "name" | "category" | "desc" => if !(v.starts_with('"') || n == "category" && v == "null") { want.push("invalid_set_value"); },
                "invisibility" => if !matches!(v, "0" | "1" | "50" | "100" | "2" | "TRUE" | "FALSE") { want.push("invalid_set_value"); } else if matches!(v, "TRUE" | "FALSE") { continue; },
                _ => want.push("unknown setting"),
            } }
            n.to_owned()
        };
        if want.is_empty() { b.accepted += 1; } else { b.rejected += 1; }
        if nested { line(b, format!("\t{}", r.pick(&["if(gv)", "while(gv)", "spawn(1)", "else_"]).replace("else_", "for(var/i in 1 to gv)"))); line(b, format!("\t\tset {name} = {v}")); top = false; } else { line(b, format!("\tset {name} = {v}")); }
        if !want.is_empty() { b.want.insert(b.line, want); }
    }
    line(b, "\treturn".into());
}

fn case(cx: &mut Cx) {
    let r = &mut Rng::new(cx.rng.u64());
    let mut b = Body { text: "/var/gv = 0\n".into(), line: 1, want: BTreeMap::new(), took: BTreeSet::new(), accepted: 0, rejected: 0 };
    let mut open: BTreeMap<String, BTreeSet<(&'static str, bool)>> = BTreeMap::new();
    let mut overrides = vec![];
    let word = |r: &mut Rng| if r.chance(1, 4) { "verb" } else { "proc" };
    for p in ["p", "q"] {
        let head = format!("/datum/a/{}/{p}()", word(r));
        body(r, &mut b, &head, true, false);
        open.insert(p.into(), b.took.clone());
        if r.bool() { overrides.push((p, b.line + 1)); body(r, &mut b, &format!("/datum/a/b/{p}()"), false, false); }
        if r.chance(1, 4) { body(r, &mut b, &format!("/datum/a/b/c/{p}()"), false, false); }
    }
    body(r, &mut b, "/proc/g()", true, true);
    if r.chance(1, 3) { body(r, &mut b, "/proc/h()", true, true); }
    // who may use them
    let mut uses = vec![];
    for p in ["p", "q"] { b.text += &format!("/proc/use_{p}(datum/a/A)\n\tA.{p}()\n"); b.line += 2; uses.push((p, b.line)); }
    let text = b.text.clone();
    cx.input(text.clone());
    cx.sig(&text);
    let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    let mut got: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let lines: Vec<&str> = text.lines().collect();
    let (mut private, mut protected, mut over) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for e in ctx.errors().iter() {
        let l = e.location().line as usize;
        match e.errortype() { Some("private_proc") => { private.insert(l); }, Some("protected_proc") => { protected.insert(l); }, Some("must_not_override") => { over.insert(l); }, _ => {} }
        if !lines.get(l.wrapping_sub(1)).is_some_and(|s| s.trim_start().starts_with("set ")) { continue; }
        let d = e.description();
        got.entry(l).or_default().push(match e.errortype() { Some(t) => t.to_owned(), None if d.starts_with("Can't define procs") => "not at its declaration".into(), None if d.starts_with("unknown setting") => "unknown setting".into(), None => d.to_owned() });
    }
    cx.count("settings accepted", b.accepted as u64);
    cx.count("settings rejected", b.rejected as u64);
    let keys: BTreeSet<usize> = got.keys().chain(b.want.keys()).copied().collect();
    for l in keys {
        let g = got.get(&l).cloned().unwrap_or_default();
        let w: Vec<String> = b.want.get(&l).map(|w| w.iter().map(|s| s.to_string()).collect()).unwrap_or_default();
        let s = lines[l - 1].trim();
        for k in w.iter() { cx.count(&format!("reports of {k}"), 1); }
        ensure!(cx, g == w, format!("setting: {} wants {w:?}", s.split(' ').nth(1).unwrap_or("")), "line {l}: {s}: reported {g:?}, expected {w:?}\n{}", diags(&ctx).join("\n"));
    }
    for (p, l) in uses {
        let has = |n: &str| open[p].contains(&(n, true));
        ensure!(cx, private.contains(&l) == has("private_proc"), "private effect", "call of {p} at line {l} reported as private: {}\n{}", private.contains(&l), diags(&ctx).join("\n"));
        if !has("private_proc") { ensure!(cx, protected.contains(&l) == has("protected_proc"), "protected effect", "call of {p} at line {l} reported as protected: {}\n{}", protected.contains(&l), diags(&ctx).join("\n")); }
    }
    for (p, l) in overrides {
        let has = open[p].contains(&("should_not_override", true));
        ensure!(cx, over.contains(&l) == has, "override effect", "override of {p} at line {l} reported: {}\n{}", over.contains(&l), diags(&ctx).join("\n"));
        if has { cx.count("overrides of final procs", 1); }
    }
    if b.accepted > 0 && b.rejected > 0 { cx.nontrivial(); }
}
