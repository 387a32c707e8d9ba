use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::gen_dc::place;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "C27",
    quick: 30000,
    thorough: 1500000,
    case,
    directed: &[("every place of a parent call", places)],
    rule: "a case is a tree of up to ten types, each with up to three definitions of up to two procs (declared, built in, overridden, redefined on the same type), directives switched on or off at random, definitions in shuffled order, and parent calls at random places of random bodies; the reports of missing and prohibited parent calls, prohibited overrides, private overrides and redefinitions are compared, by the proc's line, with a walk up the definitions; distinct by text, non-trivial when at least one report and one permitted override under a directive occur",
    assumptions: &["a parent call counts wherever it stands in code that can run; code after an unconditional exit is not generated"],
    ..DEFAULT
};

#[derive(Clone, Copy, Default, Debug)]
struct Dirs { call: Option<bool>, not_call: Option<bool>, no_over: bool, final_: bool, private: bool, redefine: bool }
struct Def { ty: usize, proc: usize, line: usize, dirs: Dirs, calls: bool, parent: Option<usize>, builtin_parent: bool, declares: bool }

fn flag(r: &mut Rng, b: bool) -> &'static str { if b { *r.pick(&["1", "TRUE"]) } else { *r.pick(&["0", "FALSE"]) } }

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let n = 1 + r.below(2 + cx.size / 12);
    // types: /datum/t0, then children
    let mut path = vec!["/datum/t0".to_owned()];
    let mut up: Vec<Option<usize>> = vec![None];
    for i in 1..n { let p = if r.chance(2, 3) { i - 1 } else { r.below(i) }; path.push(format!("{}/t{i}", path[p])); up.push(Some(p)); }
    let names = [*r.pick(&["p", "act"]), *r.pick(&["q", "New", "Del", "Topic"])];
    let busy = 1 + r.below(4);
    // definitions per type and proc, in the order of their text
    let mut blocks: Vec<(usize, usize, Vec<(Dirs, bool, Vec<String>, bool)>)> = vec![];
    for proc in 0..2 {
        let builtin = ["New", "Del", "Topic"].contains(&names[proc]);
        // the declaring type: the first one that has it
        let root = if builtin { usize::MAX } else { 0 };
        for t in 0..n {
            let k = if t == root { 1 + r.chance(1, 6) as usize } else { match r.below(8) { 0 | 1 => 0, 2 => 2, 3 if r.chance(1, 3) => 3, _ => 1 } };
            let mut defs = vec![];
            for d in 0..k {
                let declares = t == root && d == 0;
                let mut dirs = Dirs::default();
                let one = |r: &mut Rng| r.below(10) < busy;
                if one(&mut r) { dirs.call = Some(if declares { true } else { r.chance(1, 2) }); }
                if r.chance(1, 2) && one(&mut r) { dirs.not_call = Some(r.chance(2, 3)); }
                if one(&mut r) && r.chance(1, 4) { dirs.no_over = true; }
                if declares && r.chance(1, 8) { dirs.final_ = true; dirs.no_over = false; }
                if declares && r.chance(1, 8) { dirs.private = true; }
                if r.chance(1, 6) { dirs.redefine = true; }
                let calls = (!declares || r.chance(1, 8)) && r.chance(1, 2);
                let depth = r.below(4);
                let mut body = if calls { place(&mut r, *Rng::pick(&mut Rng::new(t as u64), &["..()", "..(x)", "..(x, 1)"]), depth, true) } else { place(&mut r, *["x", "1", "foo(x)", ".()"].get(d % 4).unwrap(), depth, true) };
                if r.chance(1, 3) { body.insert(0, "x = 2".into()); }
                defs.push((dirs, calls, body, declares));
            }
            if !defs.is_empty() { blocks.push((t, proc, defs)); }
        }
    }
    // text order of different types does not matter
    r.shuffle(&mut blocks);
    let mut text = String::from("/proc/foo(a)\n\treturn a\n/datum/maker/New(a)\n\treturn\n");
    let mut line = text.lines().count();
    let mut defs: Vec<Def> = vec![];
    for (t, proc, ds) in &blocks {
        for (d, calls, body, declares) in ds {
            line += 1;
            let kind = if *declares { if d.final_ { "/proc/final" } else { "/proc" } } else { "" };
            text += &format!("{}{kind}/{}(x)\n", path[*t], names[*proc]);
            let mut sets: Vec<String> = vec![];
            if let Some(b) = d.call { sets.push(format!("set SpacemanDMM_should_call_parent = {}", flag(&mut r, b))); }
            if let Some(b) = d.not_call { sets.push(format!("set SpacemanDMM_should_not_call_parent = {}", flag(&mut r, b))); }
            if d.no_over { sets.push(format!("set SpacemanDMM_should_not_override = {}", flag(&mut r, true))); }
            if d.private { sets.push(format!("set SpacemanDMM_private_proc = {}", flag(&mut r, true))); }
            if d.redefine { sets.push(format!("set SpacemanDMM_can_be_redefined = {}", flag(&mut r, true))); }
            if r.chance(1, 4) { sets.push("set waitfor = 0".into()); }
            r.shuffle(&mut sets);
            defs.push(Def { ty: *t, proc: *proc, line, dirs: *d, calls: *calls, parent: None, builtin_parent: false, declares: *declares });
            for l in sets.iter().chain(body) { text += &format!("\t{l}\n"); line += 1; }
        }
    }
    cx.input(text.clone());
    cx.sig(&text);
    // definitions a definition overrides: the one before it on its type, else the last one of the nearest ancestor
    let last = |defs: &[Def], t: usize, p: usize| defs.iter().enumerate().filter(|(_, d)| d.ty == t && d.proc == p).map(|x| x.0).last();
    for i in 0..defs.len() {
        let (t, p) = (defs[i].ty, defs[i].proc);
        let mut parent = (0..i).rev().find(|j| defs[*j].ty == t && defs[*j].proc == p);
        let mut at = up[t];
        while parent.is_none() { let Some(a) = at else { break }; parent = last(&defs, a, p); at = up[a]; }
        defs[i].parent = parent;
        defs[i].builtin_parent = parent.is_none() && ["New", "Del", "Topic"].contains(&names[p]);
    }
    let mut want: BTreeSet<(usize, &str)> = BTreeSet::new();
    let mut either: BTreeSet<(usize, &str)> = BTreeSet::new();
    let mut permitted = 0;
    for d in &defs {
        let chain: Vec<&Def> = std::iter::successors(d.parent.map(|p| &defs[p]), |d| d.parent.map(|p| &defs[p])).collect();
        if chain.is_empty() && !d.builtin_parent { continue; }
        // nearest word on calling the parent, from the proc itself upwards
        let word = std::iter::once(d).chain(chain.iter().copied()).find_map(|x| x.dirs.call.map(|v| (v, std::ptr::eq(x, d))));
        match word {
            // the documentation speaks of children of the proc that has the setting
            Some((true, true)) if !d.calls => { if chain.iter().find_map(|x| x.dirs.call) == Some(true) { want.insert((d.line, "must_call_parent")); } else { either.insert((d.line, "must_call_parent")); } },
            Some((true, false)) if !d.calls => { want.insert((d.line, "must_call_parent")); },
            Some(_) => permitted += 1,
            None => {},
        }
        if d.calls && d.dirs.not_call != Some(false) && chain.first().is_some_and(|p| p.dirs.not_call == Some(true)) { want.insert((d.line, "must_not_call_parent")); }
        if chain.iter().any(|x| x.dirs.no_over || x.dirs.final_) { want.insert((d.line, "must_not_override")); }
        if chain.iter().any(|x| x.dirs.private) { want.insert((d.line, "private_proc")); }
        if let Some(p) = chain.first() { if p.ty == d.ty {
            if !d.dirs.redefine && !chain.iter().any(|x| x.dirs.redefine) { want.insert((d.line, "redefined_proc")); } else { permitted += 1; }
        } }
    }
    let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    let all = diags(&ctx).join("\n");
    let mut got: Vec<(usize, &str)> = vec![];
    let errs = ctx.errors();
    for e in errs.iter() {
        let l = e.location().line as usize;
        match e.errortype() {
            Some("private_proc") if !e.description().contains("overrides") => {},
            Some(t @ ("must_call_parent" | "must_not_call_parent" | "must_not_override" | "private_proc" | "redefined_proc")) => {
                got.push((l, t));
                // the report names the proc at fault by its place, and the proc that demands it
                if t != "redefined_proc" {
                    let by = e.description().rsplit(' ').next().unwrap_or("").split('[').next().unwrap_or("");
                    let me = defs.iter().position(|d| d.line == l);
                    let fits = me.is_some_and(|m| std::iter::successors(Some(m), |d| defs[*d].parent).any(|c| { let d = &defs[c]; by == format!("{}/proc/{}", path[d.ty], names[d.proc]) || by == format!("{}/{}", path[d.ty], names[d.proc]) }));
                    ensure!(cx, fits, "name", "{t} at line {l} names {by}");
                }
            },
            _ => if e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error { cx.inconclusive(&format!("does not parse: {}: {}", e.description(), text.lines().nth(e.location().line as usize - 1).unwrap_or(""))); return; },
        }
    }
    got.sort();
    for w in &want { ensure!(cx, got.contains(w), format!("missed {}", w.1), "line {} lacks {}\n{all}", w.0, w.1); }
    for w in got.windows(2) { ensure!(cx, w[0] != w[1], "twice", "{:?} twice", w[0]); }
    for g in &got { ensure!(cx, want.contains(g) || either.contains(g), format!("false {}", g.1), "line {} has {}\n{all}", g.0, g.1); }
    for w in &want { cx.count(w.1, 1); }
    cx.count("definitions", defs.len() as u64);
    cx.count("permitted under a directive", permitted);
    if !want.is_empty() && permitted > 0 { cx.nontrivial(); }
}

/// One override that must call its parent, with the call at every kind of place.
fn places(cx: &mut Cx) {
    for i in 0..3000u64 {
        let mut r = Rng::new(i);
        let body = place(&mut r, "..(x)", (i % 4) as usize, true);
        let text = format!("/proc/foo(a)\n\treturn a\n/datum/maker/New(a)\n\treturn\n/datum/a/proc/p(x)\n\tset SpacemanDMM_should_call_parent = 1\n/datum/a/b/p(x)\n{}", body.iter().map(|l| format!("\t{l}\n")).collect::<String>());
        cx.input(text.clone());
        let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
        let all = diags(&ctx).join("\n");
        let errs = ctx.errors();
        if let Some(e) = errs.iter().find(|e| e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error) { cx.inconclusive(&format!("does not parse: {}: {}", e.description(), text.lines().nth(e.location().line as usize - 1).unwrap_or(""))); continue; }
        ensure!(cx, !errs.iter().any(|e| e.errortype() == Some("must_call_parent")), "place", "the parent call is not seen\n{all}");
        cx.count("places", 1);
    }
    cx.nontrivial();
}
