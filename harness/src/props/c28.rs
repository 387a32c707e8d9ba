use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::gen_dc::place;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C28",
    quick: 30000,
    thorough: 800000,
    case,
    directed: &[("sleeping operations", sleepers), ("orders of promises", orders), ("side effects", effects)],
    rule: "a case is a call graph over up to six global procs and up to nine types with overridden member procs, with calls through bare names, src, typed locals, parameters, fields, list elements, return types, parent and self calls and new, at random places of bodies, some of them spawned; sleeping or impure operations, waitfor, exemptions and promises at random; the procs reported are compared with two searches of the graph: one over every concrete object a call can meet (must be reported) and one over the types a call is bounded by (may be reported); distinct by text, non-trivial when a chain of at least two calls reaches an operation and some promise is kept",
    assumptions: &[
        "a proc that overrides one with waitfor off or allowed to sleep may be judged either way",
        "an override reached through a chain of bare calls in a version the override itself replaces may be judged either way",
        "for purity, overrides are only required to be looked at one call deep",
    ],
    ..DEFAULT
};

#[derive(Clone, Debug)]
enum Call { Global(usize), Bare(usize), Typed(usize, usize), Parent, This, New(usize) }
#[derive(Clone, Debug)]
struct Op { sleep: bool, impure: bool, call: Option<Call>, spawned: bool }
/// `ty` None for global procs; `name` indexes the global or the member names.
struct Def { ty: Option<usize>, name: usize, line: usize, ops: Vec<Op>, waitfor: bool, exempt: bool, nosleep: bool, pure_: bool, parent: Option<usize>, bare: Vec<(usize, Call)> }

struct World { path: Vec<String>, up: Vec<Option<usize>>, defs: Vec<Def>, last: BTreeMap<(usize, usize), usize>, globals: Vec<usize> }
const NEW: usize = 9;

impl World {
    fn below(&self, t: usize) -> Vec<usize> { (0..self.up.len()).filter(|x| self.is(*x, t)).collect() }
    fn is(&self, mut x: usize, t: usize) -> bool { loop { if x == t { return true; } match self.up[x] { Some(p) => x = p, None => return false } } }
    fn find(&self, mut t: usize, m: usize) -> Option<usize> { loop { if let Some(d) = self.last.get(&(t, m)) { return Some(*d); } t = self.up[t]?; } }
    fn chain(&self, d: usize) -> Vec<usize> { std::iter::successors(Some(d), |d| self.defs[*d].parent).collect() }
    fn promised(&self, d: usize, pure_: bool) -> bool { self.chain(d).iter().any(|d| if pure_ { self.defs[*d].pure_ } else { self.defs[*d].nosleep }) }

    /// Definitions a call in `d`, running on an object of type `at`, can run, each with its object's type.
    fn runs(&self, d: usize, at: Option<usize>, c: &Call) -> Vec<(usize, Option<usize>)> {
        match c {
            Call::Global(g) => vec![(self.globals[*g], None)],
            Call::Bare(m) => at.and_then(|t| self.find(t, *m)).map(|x| (x, at)).into_iter().collect(),
            Call::Typed(t, m) => self.below(*t).into_iter().filter_map(|t| self.find(t, *m).map(|x| (x, Some(t)))).collect(),
            Call::Parent => self.defs[d].parent.map(|p| (p, at)).into_iter().collect(),
            Call::This => vec![(d, at)],
            Call::New(t) => self.find(*t, NEW).map(|x| (x, Some(*t))).into_iter().collect(),
        }
    }
    /// The same when all that is known is that the object is at or below `at`.
    fn may_run(&self, d: usize, at: Option<usize>, c: &Call) -> Vec<(usize, Option<usize>)> {
        let within = |t: usize, m: usize| -> Vec<(usize, Option<usize>)> {
            let mut v: Vec<_> = self.find(t, m).map(|x| (x, Some(t))).into_iter().collect();
            v.extend(self.below(t).into_iter().filter_map(|s| self.last.get(&(s, m)).map(|x| (*x, Some(s)))));
            v
        };
        match c {
            Call::Bare(m) => at.map(|t| within(t, *m)).unwrap_or_default(),
            Call::Typed(t, m) => within(*t, *m),
            other => self.runs(d, at, other),
        }
    }
    /// The definition a report calls `/datum/t0/proc/m0[0/2]`.
    fn named(&self, n: &str) -> Option<usize> {
        let (p, i) = match n.split_once('[') { Some((p, i)) => (p, i.split('/').next()?.parse().ok()?), None => (n, 0usize) };
        let (t, m) = p.split_once("/proc/")?;
        let ty = if t.is_empty() { None } else { Some(self.path.iter().position(|x| x == t)?) };
        let name = if m == "New" { NEW } else { m[1..].parse().ok()? };
        (0..self.defs.len()).filter(|d| self.defs[*d].ty == ty && self.defs[*d].name == name).nth(i)
    }
    fn naps(&self, d: usize) -> bool { self.defs[d].ops.iter().any(|o| o.sleep && !o.spawned) }
    /// Definitions that sleep and that `root` reaches, with the number of calls to each. With `must`, only along
    /// chains that can happen and meet no other sleeping definition.
    fn sleeps(&self, root: usize, must: bool) -> BTreeMap<usize, usize> {
        let mut seen = BTreeSet::new();
        let mut todo: std::collections::VecDeque<(usize, Option<usize>, usize)> = match self.defs[root].ty { None => vec![(root, None, 0)], Some(t) if must => self.below(t).into_iter().map(|t| (root, Some(t), 0)).collect(), Some(t) => vec![(root, Some(t), 0)] }.into();
        let mut found = BTreeMap::new();
        while let Some((d, at, n)) = todo.pop_front() {
            if !seen.insert((d, at)) { continue; }
            let def = &self.defs[d];
            if n > 0 {
                if self.promised(d, false) { continue; }
                let quiet = |x: &Def| x.waitfor || x.exempt;
                if if must { self.chain(d).iter().any(|d| quiet(&self.defs[*d])) } else { quiet(def) } { continue; }
                if self.naps(d) { found.entry(d).or_insert(n); if must { continue; } }
                if must && self.chain(d).iter().any(|x| *x != d && self.naps(*x)) { continue; }
            } else if self.naps(d) { found.insert(d, 0); }
            for op in &def.ops {
                if op.spawned { continue; }
                if let Some(c) = &op.call { for (x, t) in if must { self.runs(d, at, c) } else { self.may_run(d, at, c) } {
                    // what an override does is not asked where the version a call is bound to sleeps by itself
                    if must && matches!(c, Call::Bare(_) | Call::Typed(..)) && self.chain(x).iter().any(|y| *y != x && self.naps(*y)) { continue; }
                    todo.push_back((x, t, n + 1));
                } }
            }
        }
        found
    }
    fn impure(&self, d: usize) -> bool { self.defs[d].ops.iter().any(|o| o.impure) }
    /// Statically resolved callee and the bound of its object.
    fn callee(&self, d: usize, c: &Call) -> Option<(usize, Option<usize>)> {
        let at = self.defs[d].ty;
        match c { Call::Bare(m) => at.and_then(|t| self.find(t, *m)).map(|x| (x, at)), Call::Typed(t, m) => self.find(*t, *m).map(|x| (x, Some(*t))), other => self.runs(d, at, other).into_iter().next() }
    }
    fn dirties(&self, root: usize, must: bool) -> (bool, usize) {
        let mut seen = BTreeSet::new();
        let mut todo = vec![(root, 0)];
        let mut deepest: Option<usize> = None;
        let mine = self.defs[root].ty;
        while let Some((d, n)) = todo.pop() {
            if !seen.insert(d) { continue; }
            if self.impure(d) { deepest = Some(deepest.unwrap_or(0).max(n)); }
            for op in &self.defs[d].ops {
                let Some(c) = &op.call else { continue };
                let Some((x, bound)) = self.callee(d, c) else { continue };
                todo.push((x, n + 1));
                let virt = matches!(c, Call::Bare(_) | Call::Typed(..));
                if let (Some(tx), m) = (self.defs[x].ty, self.defs[x].name) {
                    for s in self.below(tx) {
                        // a definition replaced on its own type may still be looked at
                        if !must { for o in 0..self.defs.len() { if self.defs[o].ty == Some(s) && self.defs[o].name == m { todo.push((o, n + 1)); } } continue; }
                        let Some(o) = self.last.get(&(s, m)).copied() else { continue };
                        if o == x { continue; }
                        // an impure override the call can meet
                        let excluded = mine.is_some_and(|p| self.is(p, tx) && !self.is(s, p));
                        if virt && m != NEW && bound.is_some_and(|b| self.is(s, b)) && !excluded && self.impure(o) { deepest = Some(deepest.unwrap_or(0).max(n + 1)); }
                    }
                }
            }
        }
        (deepest.is_some(), deepest.unwrap_or(0))
    }
}

const SLEEPS: &[&str] = &["sleep(1)", "sleep()", "alert(\"x\")", "shell(\"x\")", "winexists(usr, \"x\")", "winget(usr, \"x\", \"y\")", "input(\"x\")", "input(\"x\") as text", "input(\"x\") in list(1)", "world.Export(\"x\")", "world.Import()", "usr.client.SoundQuery()", "usr.client.MeasureText(\"x\")"];
const DIRTY: &[&str] = &["gv = 1", "gv += x", "gv++", "--gv", "global.gv = 2", "global.gv--", "world << \"x\"", "usr << x", "usr.name = x", "gl[x] = 1", "gl += 1", "del(usr)"];

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let pure_ = r.chance(1, 3);
    let size = 2 + cx.size / 9;
    let n = 1 + r.below(size);
    let mut path = vec!["/datum/t0".to_owned()];
    let mut up: Vec<Option<usize>> = vec![None];
    for i in 1..n { if r.chance(1, 8) { path.push(format!("/datum/t{i}")); up.push(None); } else { let p = if r.chance(1, 2) { i - 1 } else { r.below(i) }; path.push(format!("{}/t{i}", path[p])); up.push(Some(p)); } }
    let ng = 1 + r.below(1 + size.min(6));
    let nm = 1 + r.below(3);
    // which definitions there are: (type, name, count)
    let mut shape: Vec<(Option<usize>, usize)> = (0..ng).map(|g| (None, g)).collect();
    for m in (0..nm).chain(r.chance(1, 2).then_some(NEW)) {
        let mut any = false;
        for t in 0..n {
            let k = match r.below(10) { 0..=4 => 0, 9 => 2, _ => 1 };
            for _ in 0..k { shape.push((Some(t), m)); any = true; }
        }
        if !any { shape.push((Some(0), m)); }
    }
    let mut w = World { path: path.clone(), up, defs: vec![], last: BTreeMap::new(), globals: (0..ng).collect() };
    // the definitions of one type and name keep their order; everything else may be anywhere
    let mut order: Vec<usize> = (0..shape.len()).collect();
    r.shuffle(&mut order);
    for (i, &(ty, name)) in shape.iter().enumerate() {
        w.defs.push(Def { ty, name, line: 0, ops: vec![], waitfor: false, exempt: false, nosleep: false, pure_: false, parent: None, bare: vec![] });
        let _ = i;
    }
    // text order: the position in `order`; same-type definitions take their positions in turn
    let mut text_order = order.clone();
    {
        let mut by: BTreeMap<(Option<usize>, usize), Vec<usize>> = BTreeMap::new();
        for (pos, d) in order.iter().enumerate() { by.entry(shape[*d]).or_default().push(pos); }
        for (k, poss) in by { let ds: Vec<usize> = (0..shape.len()).filter(|d| shape[*d] == k).collect(); for (p, d) in poss.into_iter().zip(ds) { text_order[p] = d; } }
    }
    for d in 0..shape.len() { if let (Some(t), m) = shape[d] { w.last.insert((t, m), d); } }
    for d in 0..shape.len() {
        let (Some(t), m) = shape[d] else { continue };
        w.defs[d].parent = (0..d).rev().find(|e| shape[*e] == shape[d]).or_else(|| w.up[t].and_then(|u| w.find(u, m)));
    }
    // member names are declared by the first definition in each hierarchy: `/proc/` where there is no parent
    let busy = 1 + r.below(3);
    let rare = 3 + r.below(8);
    let mut kinds = BTreeSet::new();
    for d in 0..shape.len() {
        let (ty, m) = shape[d];
        let mut ops = vec![];
        for _ in 0..r.below(busy + 2) {
            let c = match r.below(12) {
                0..=2 => Call::Global(r.below(ng)),
                3..=5 if ty.is_some() => Call::Bare(if r.chance(1, 2) && m != NEW { m } else { r.below(nm) }),
                6..=8 => Call::Typed(r.below(n), r.below(nm)),
                9 => Call::Parent,
                10 => Call::This,
                _ => Call::New(r.below(n)),
            };
            let good = match &c {
                Call::Bare(m) => ty.is_some_and(|t| w.find(t, *m).is_some()),
                Call::Typed(t, m) => w.find(*t, *m).is_some(),
                Call::Parent => w.defs[d].parent.is_some(),
                _ => true,
            };
            if !good { continue; }
            ops.push(Op { sleep: false, impure: false, call: Some(c), spawned: r.chance(1, 8) });
        }
        if r.chance(1, rare) { ops.push(Op { sleep: !pure_, impure: pure_, call: None, spawned: r.chance(1, 5) }); }
        r.shuffle(&mut ops);
        w.defs[d].ops = ops;
        let declares = w.defs[d].parent.is_none() && m != NEW || ty.is_none();
        if !pure_ {
            w.defs[d].waitfor = r.chance(1, 10);
            w.defs[d].exempt = declares && r.chance(1, 10);
        }
        if declares && r.chance(1, 4) { if pure_ { w.defs[d].pure_ = true } else if !w.defs[d].waitfor && !w.defs[d].exempt { w.defs[d].nosleep = true } }
    }
    // print
    let mut text = String::from("/var/gv = 0\n/var/list/gl = list()\n/proc/foo(a)\n\treturn a\n/datum/maker/New(a)\n\treturn\n");
    for t in 0..n { text += &format!("{}/var/own = 0\n", path[t]).replace("/var/own", if w.up[t].is_none() { "/var/own" } else { "/own" }); }
    for t in 0..n { if w.up[t].is_none() { text += &format!("{}/var/plain\n", path[t]); for s in 0..n { text += &format!("{}/var{}/f{s}\n", path[t], path[s]); } } }
    for t in 0..n { text += &format!("/proc/get{t}()\n\tset SpacemanDMM_return_type = {}\n\treturn null\n", path[t]); }
    let mut line = text.lines().count();
    let mut out: Vec<String> = vec![];
    let mnames = |m: usize| if m == NEW { "New".to_owned() } else { format!("m{m}") };
    for &d in &text_order {
        let (ty, m) = shape[d];
        let promised_or = w.defs[d].parent.is_none() && m != NEW;
        let head = match ty { None => format!("/proc/g{m}"), Some(t) => format!("{}{}/{}", path[t], if promised_or { "/proc" } else { "" }, mnames(m)) };
        let mut params = vec![];
        let mut pre = vec!["var/x = 1".to_owned()];
        let mut body: Vec<Vec<String>> = vec![];
        let mut bare = vec![];
        let nops = w.defs[d].ops.len();
        for i in 0..nops {
            let op = w.defs[d].ops[i].clone();
            let e = match &op.call {
                None if op.sleep => (*r.pick(SLEEPS)).to_owned(),
                None => if ty.is_some() && r.chance(1, 3) { (*r.pick(&["own = 1", "own++", "plain = x", "own -= 2", "src.own = 1", "src.own++", "f0.own = 2", "f0.f0.own -= 1"])).to_owned() } else { (*r.pick(DIRTY)).to_owned() },
                Some(Call::Global(g)) => if r.chance(1, 4) { format!("global.g{g}()") } else { format!("g{g}()") },
                Some(Call::Bare(m)) => if r.chance(1, 4) { format!("src.m{m}()") } else { format!("m{m}()") },
                Some(Call::Parent) => "..()".into(),
                Some(Call::This) => ".()".into(),
                Some(Call::New(t)) => format!("new {}{}", path[*t], if r.chance(1, 2) { "()" } else { "" }),
                Some(Call::Typed(t, m)) => {
                    let k = r.below(8); kinds.insert(k);
                    let recv = match k {
                        0 | 1 => { pre.push(format!("var{}/v{i}", path[*t])); format!("v{i}") },
                        2 => { params.push(format!("{}/p{i}", &path[*t][1..])); format!("p{i}") },
                        3 => format!("get{t}()"),
                        4 => { pre.push(format!("var/list{}/l{i}", path[*t])); format!("l{i}[1]") },
                        5 if ty.is_some() => format!("f{t}"),
                        6 if ty.is_some() => format!("src.f{t}"),
                        7 => { let h = (0..n).find(|h| w.up[*h].is_none()).unwrap(); pre.push(format!("var{}/w{i}", path[h])); format!("w{i}.f{t}") },
                        _ => { pre.push(format!("var{}/v{i} = x", path[*t])); format!("v{i}") },
                    };
                    format!("{recv}{}m{m}()", if r.chance(1, 5) { "?." } else { "." })
                },
            };
            // `src.m()` on the own type is a typed call on that type: the bound is the same as for a bare call at first,
            // but it does not narrow with the object
            if let (Some(Call::Bare(m)), Some(t)) = (&op.call, ty) { if e.starts_with("src.") { w.defs[d].ops[i].call = Some(Call::Typed(t, *m)); } }
            let depth = if op.impure { 0 } else { r.below(3) };
            let mut lines = if op.impure { vec![e.clone()] } else {
                loop {
                    let l = place(&mut r, &e, depth, false);
                    let inputs: usize = l.iter().map(|l| l.matches("input(").count()).sum();
                    if inputs == e.matches("input(").count() && !(pure_ && l.iter().any(|l| l.contains("<<"))) { break l; }
                }
            };
            if op.spawned { lines = std::iter::once("spawn(1)".to_owned()).chain(lines.into_iter().map(|l| format!("\t{l}"))).collect(); }
            if i + 1 < nops { lines = std::iter::once("if(x)".to_owned()).chain(lines.into_iter().map(|l| format!("\t{l}"))).collect(); }
            if op.call.is_some() && lines.last().is_some_and(|l| l.trim() == e) && (e.starts_with('g') && !e.starts_with("get") && !e.starts_with("global") || e.starts_with('m')) { bare.push((body.iter().map(|b: &Vec<String>| b.len()).sum::<usize>() + lines.len(), op.call.clone().unwrap())); }
            body.push(lines);
        }
        let def = &w.defs[d];
        let mut sets = vec![];
        if def.waitfor { sets.push(format!("set waitfor = {}", r.pick(&["0", "FALSE"]))); } else if r.chance(1, 10) { sets.push("set waitfor = 1".into()); }
        if def.exempt { sets.push("set SpacemanDMM_allowed_to_sleep = 1".into()); }
        if def.nosleep { sets.push("set SpacemanDMM_should_not_sleep = TRUE".into()); }
        if def.pure_ { sets.push("set SpacemanDMM_should_be_pure = TRUE".into()); }
        r.shuffle(&mut sets);
        if body.is_empty() { body.push(vec!["x = 2".into()]); }
        line += 1;
        w.defs[d].line = line;
        let before = sets.len() + pre.len();
        w.defs[d].bare = bare.into_iter().map(|(o, c)| (line + before + o, c)).collect();
        out.push(format!("{head}({})\n", params.join(", ")));
        for l in sets.iter().chain(&pre).chain(body.iter().flatten()) { out.push(format!("\t{l}\n")); line += 1; }
    }
    text += &out.concat();
    cx.input(text.clone());
    cx.sig(&text);
    judge(cx, &w, &text, pure_);
    cx.max("receiver kinds", kinds.len() as u64);
}

fn judge(cx: &mut Cx, w: &World, text: &str, pure_: bool) {
    let ctx = match catch(|| parse_a_file_for_test(text.to_owned())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    let all = diags(&ctx).join("\n");
    let kind = if pure_ { "must_be_pure" } else { "must_not_sleep" };
    let mut got: BTreeSet<usize> = BTreeSet::new();
    let mut discards: BTreeSet<usize> = BTreeSet::new();
    let mut named: Vec<(Option<usize>, usize)> = vec![];
    let errs = ctx.errors();
    for e in errs.iter() {
        let l = e.location().line as usize;
        if e.errortype() == Some(kind) {
            got.insert(l);
            if !pure_ {
                let d = e.description();
                let who = if d.ends_with("calls blocking built-in(s)") { None } else { match d.rsplit(' ').next().and_then(|n| w.named(n)) { Some(x) => Some(x), None => { cx.violate("name", format!("which proc is meant by {d:?}?")); return; } } };
                named.push((who, l));
            }
        }
        if e.description().contains("discards return value") { discards.insert(l); }
        if e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error { cx.inconclusive(&format!("does not parse: {}: {}", e.description(), text.lines().nth(l.max(1) - 1).unwrap_or(""))); return; }
    }
    let (mut deep, mut kept) = (0, 0);
    let mut met: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for d in 0..w.defs.len() {
        let line = w.defs[d].line;
        if !w.promised(d, pure_) { ensure!(cx, !got.contains(&line), format!("unpromised {kind}"), "the proc at line {line} promises nothing\n{all}"); continue; }
        cx.count("promises", 1);
        if pure_ {
            let (must, n) = w.dirties(d, true);
            let (may, _) = w.dirties(d, false);
            if must { ensure!(cx, got.contains(&line), format!("missed {kind}"), "the proc at line {line} breaks its promise through {n} calls\n{all}"); cx.count("promises broken", 1); deep = deep.max(n); }
            if !may { ensure!(cx, !got.contains(&line), format!("false {kind}"), "the proc at line {line} keeps its promise\n{all}"); cx.count("promises kept", 1); kept += 1; }
            if may && !must { cx.count("judged either way", 1); }
        } else {
            let may = w.sleeps(d, false);
            if may.is_empty() { cx.count("promises kept", 1); kept += 1; } else { cx.count("promises broken", 1); }
            for (who, l) in &named { if *l == line {
                ensure!(cx, who.map_or(may.get(&d) == Some(&0), |x| may.contains_key(&x) && x != d), "false must_not_sleep", "the proc at line {line} does not reach {}\n{all}", who.map_or("a sleeping operation of its own".into(), |x| format!("the proc at line {}", w.defs[x].line)));
            } }
            for (x, n) in w.sleeps(d, true) { if x == d { if n == 0 { ensure!(cx, named.contains(&(None, line)), "missed must_not_sleep", "the proc at line {line} sleeps\n{all}"); } } else { met.entry(x).or_default().push(n); } }
        }
    }
    // every sleeping definition a promised one runs into is reported with one of those that may
    for (x, ns) in met {
        ensure!(cx, named.iter().any(|(who, _)| *who == Some(x)), "missed must_not_sleep", "no promised proc is reported for the proc at line {}, {ns:?} calls away\n{all}", w.defs[x].line);
        deep = deep.max(*ns.iter().min().unwrap());
    }
    for l in &got { ensure!(cx, w.defs.iter().any(|d| d.line == *l), "place", "{kind} at line {l}, where no proc starts\n{all}"); }
    if pure_ {
        for d in &w.defs { for (l, c) in &d.bare {
            let callee = match c { Call::Global(g) => Some(w.globals[*g]), Call::Bare(m) => d.ty.and_then(|t| w.find(t, *m)), _ => None };
            let Some(x) = callee else { continue };
            let want = w.promised(x, true);
            ensure!(cx, discards.contains(l) == want, "discard", "line {l}: discarding the value of a {}pure proc is {}reported\n{all}", if want { "" } else { "not " }, if want { "not " } else { "" });
            cx.count("discarded values of pure procs", want as u64);
        } }
    }
    cx.max("calls to an operation", deep as u64);
    if deep >= 2 && kept > 0 { cx.nontrivial(); }
}

/// Each sleeping operation, at each depth, alone.
fn sleepers(cx: &mut Cx) {
    for s in SLEEPS { for how in 0..8 { 
        let body = match how {
            0 => format!("\t{s}\n"), 1 => format!("\tif(x)\n\t\tx = {s}\n"), 2 => format!("\tspawn(1)\n\t\t{s}\n"), 3 => format!("\tspawn(1)\n\t\tx = 1\n\t{s}\n"),
            4 => format!("\tspawn({s})\n\t\tx = 1\n"), 5 => format!("\tset waitfor = 0\n\t{s}\n"), 6 => format!("\treturn {s}\n"), _ => format!("\tspawn(1)\n\t\tspawn(1)\n\t\t\tx = 2\n\t\t{s}\n"),
        };
        let want = !matches!(how, 2 | 5 | 7);
        let text = format!("/proc/leaf(x)\n{body}/proc/mid()\n\tleaf()\n/proc/root()\n\tset SpacemanDMM_should_not_sleep = 1\n\tmid()\n");
        cx.input(text.clone());
        cx.sig(&text);
        let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
        let got = ctx.errors().iter().any(|e| e.errortype() == Some("must_not_sleep"));
        ensure!(cx, got == want, format!("sleeping {how}"), "reported: {got}\n{}", diags(&ctx).join("\n"));
        cx.count("sleeping operations", 1);
    } }
    cx.nontrivial();
}

/// Chains of promised procs in every order of their texts: whatever the order, each sleeping proc is reported
/// for one of the promised procs that run into it.
fn orders(cx: &mut Cx) {
    const SETS: &[(&[&str], &[(&str, &[&str])])] = &[
        (&["/proc/a()\n\tset SpacemanDMM_should_not_sleep = 1\n\tb()\n\tc()\n", "/proc/b()\n\tset SpacemanDMM_should_not_sleep = 1\n\tc()\n", "/proc/c()\n\td()\n", "/proc/d()\n\tsleep(1)\n", "/proc/e()\n\tset SpacemanDMM_should_not_sleep = 1\n\ta()\n"], &[("/proc/d", &["/proc/a", "/proc/b"])]),
        (&["/proc/a()\n\tset SpacemanDMM_should_not_sleep = 1\n\tb()\n", "/proc/b()\n\tset SpacemanDMM_should_not_sleep = 1\n\tc()\n", "/proc/c()\n\tset SpacemanDMM_should_not_sleep = 1\n\td()\n", "/proc/d()\n\tsleep(1)\n", "/proc/e()\n\td()\n\ta()\n"], &[("/proc/d", &["/proc/c"])]),
        (&["/proc/a()\n\tset SpacemanDMM_should_not_sleep = 1\n\tvar/datum/t/u/x\n\tx.m()\n", "/proc/b()\n\tset SpacemanDMM_should_not_sleep = 1\n\tvar/datum/t/x\n\tx.m()\n", "/datum/t/proc/m()\n\treturn\n", "/datum/t/u/w/m()\n\treturn\n", "/datum/t/v/m()\n\tsleep(1)\n"], &[("/datum/t/v/proc/m", &["/proc/b"])]),
        (&["/proc/a()\n\tset SpacemanDMM_should_not_sleep = 1\n\tvar/datum/t/u/x\n\tx.go()\n", "/datum/t/proc/go()\n\tm()\n", "/datum/t/proc/m()\n\tsleep(1)\n", "/datum/t/u/m()\n\tn()\n", "/datum/t/proc/n()\n\tshell(\"x\")\n"], &[("/datum/t/proc/n", &["/proc/a"])]),
    ];
    fn go(k: usize, v: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) { if k == v.len() { out.push(v.clone()); return; } for i in k..v.len() { v.swap(k, i); go(k + 1, v, out); v.swap(k, i); } }
    let mut perms = vec![];
    go(0, &mut vec![0, 1, 2, 3, 4], &mut perms);
    for (k, (procs, want)) in SETS.iter().enumerate() { for p in &perms {
        let text: String = p.iter().map(|i| procs[*i]).collect();
        cx.input(text.clone());
        cx.sig(&text);
        let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
        let errs = ctx.errors();
        let got: Vec<(String, String)> = errs.iter().filter(|e| e.errortype() == Some("must_not_sleep")).map(|e| (e.description().rsplit(' ').next().unwrap().to_owned(), e.description().split(' ').next().unwrap().to_owned())).collect();
        ensure!(cx, got.len() == want.len() && want.iter().all(|(s, rs)| got.iter().any(|(a, b)| a == s && rs.contains(&b.as_str()))), format!("order {k}"), "reported: {got:?}");
        cx.count("orders", 1);
    } }
    cx.nontrivial();
}

/// What changes something outside a proc, and what does not.
fn effects(cx: &mut Cx) {
    const OUT: &[&str] = &["gv = 1", "gv += x", "gv ||= 1", "gv++", "++gv", "gv--", "own = 1", "own -= 1", "own++", "world << x", "usr << x", "M << x", "world << browse(x)", "gv = own = 1", "if((gv = 1)) x = 1", "x = gv++", "foo(gv = 1)", "spawn(1) gv = 1", "gl[1] = 2", "gl += 2", "global.gv = 2", "global.gv++", "src.own = 1", "src.own++", "O.own = 1", "gl2[1] = 2", "own.name = 1", "M.name = 1", "p.name = 1", "world.log << x", "O.m()", "m()", "hit()", "del(M)"];
    const IN: &[&str] = &["x = 1", "x += gv", "x++", "x = gv", "x = own", "return gv", "return own", "x = src.own", "x = list(gv, own)", "L = list()", "L += gv", "L[1] = gv", "L[1]++", "N.own = 1", "N.own++", "x = foo(gv)", "x = (gv == 1)", "x = gv << 2", "if(gv) x = 2", "for(x = 1 to gv) x++", ". = gv", "x = clean()", "x = \"[gv]\"", "p = 1", "p++", "var/y = gv; y = 2", "var/y = own; y++", "var/y = p; y = 1", "x = new /datum/maker(gv)"];
    for (list, want) in [(OUT, true), (IN, false)] { for s in list {
        if *s == "foo(gv = 1)" { continue; }
        let text = format!("/var/gv = 0\n/var/list/gl = list()\n/var/gl2\n/datum/maker/New(a)\n\treturn\n/proc/foo(a)\n\treturn a\n/proc/hit()\n\tgv = 1\n/proc/clean()\n\treturn gv\n/datum/t0\n\tvar/own\n/datum/t0/proc/m()\n\town = 1\n/datum/t0/proc/root(datum/t0/O, mob/M, p)\n\tset SpacemanDMM_should_be_pure = 1\n\tvar/x = 1\n\tvar/list/L = list()\n\tvar/datum/t0/N = new\n\t{s}\n");
        let text = text.replace("var/y = gv; y", "var/y = gv\n\ty").replace("var/y = own; y", "var/y = own\n\ty").replace("var/y = p; y", "var/y = p\n\ty");
        cx.input(text.clone());
        cx.sig(&text);
        let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
        let errs = ctx.errors();
        if let Some(e) = errs.iter().find(|e| e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error) { cx.inconclusive(&format!("does not parse: {} {s}", e.description())); continue; }
        let got = errs.iter().any(|e| e.errortype() == Some("must_be_pure"));
        cx.count("effects", 1);
        if got != want { cx.violate(&format!("effect: {s}"), format!("reported: {got}\n{}", diags(&ctx).join("\n"))); }
    } }
    cx.nontrivial();
}
