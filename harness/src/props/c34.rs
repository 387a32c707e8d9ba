use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::gen_dc::place;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C34",
    quick: 30000,
    thorough: 1500000,
    case,
    directed: &[("every receiver of a call with named arguments", receivers), ("calls of filter()", filters)],
    rule: "a case is a tree of up to ten types with overrides of two procs whose parameter lists differ, a global proc of the same name and constructors, and calls with positional and named arguments through every kind of receiver at random places of random bodies; reports of unknown names at the call and of overrides lacking a name are compared, with the overrides and names they list, with a model that walks the tree; distinct by text, non-trivial when an override is reported and another one below the same receiver is not",
    assumptions: &["an earlier definition of a proc on the same type as a later one may or may not count as an override that could run"],
    ..DEFAULT
};

const KW: &[&str] = &["a", "b", "c", "d"];

struct Def { ty: usize, proc: usize, params: Vec<&'static str>, line: usize }
/// who is called
#[derive(Clone, Copy, Debug, PartialEq)]
enum To { Dyn(usize, usize), Parent(usize), SelfCall, Global, New(usize), Unscoped(usize),
    /// `a:b()`: looked up at run time
    Loose }

struct Call { host: (usize, usize), to: To, proc_of_host: Option<(usize, usize, usize)>, names: Vec<&'static str> }

struct World { path: Vec<String>, up: Vec<Option<usize>>, defs: Vec<Def>, names: [&'static str; 2], global: Vec<&'static str>, calls: Vec<Call>, text: String, line: usize }
impl World {
    fn put(&mut self, s: &str) { self.text += s; self.text.push('\n'); self.line += 1; }
    fn below(&self, t: usize, top: usize) -> bool { std::iter::successors(self.up[t], |x| self.up[*x]).any(|x| x == top) }
    /// the definition a call on a type runs
    fn find(&self, t: usize, p: usize) -> Option<&Def> { std::iter::successors(Some(t), |x| self.up[*x]).find_map(|t| self.defs.iter().rfind(|d| d.ty == t && d.proc == p)) }
}

fn params(r: &mut Rng) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = KW.iter().copied().filter(|_| r.chance(3, 4)).collect();
    if r.chance(1, 4) { r.shuffle(&mut v); }
    v
}

fn list(r: &mut Rng, p: &[&str]) -> String {
    let mut s: Vec<String> = vec![];
    for n in p { s.push(match r.below(7) { 0 => format!("var/{n}"), 1 => format!("{n} = 5"), 2 => format!("{n} as num"), 3 => format!("datum/{n}"), 4 => format!("list/{n}"), _ => n.to_string() }); }
    s.join(", ")
}

/// The arguments of a call, and the names used.
fn args(r: &mut Rng, prefer: &[&'static str], inner: &str) -> (String, Vec<&'static str>) {
    let pos = r.below(3);
    let n = [0, 1, 1, 1, 2, 3][r.below(6)];
    let mut names: Vec<&'static str> = vec![];
    for _ in 0..n { let k = if !prefer.is_empty() && r.chance(4, 5) { *r.pick(prefer) } else { *r.pick(&["a", "b", "c", "d", "zz"]) }; if !names.contains(&k) { names.push(k); } }
    let mut v: Vec<String> = (0..pos).map(|i| ["x", "x == 1", inner, "\"s\""][i % 4].to_owned()).collect();
    for k in &names {
        let val = *r.pick(&["1", "x", inner, "x + 1", "(x = 2)", "null", "list(q = 1)"]);
        v.push(if r.chance(1, 6) { format!("\"{k}\" = {val}") } else { format!("{k} = {val}") });
    }
    (v.join(", "), names)
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let n = 2 + r.below(3 + cx.size / 14);
    build(cx, &mut r, n, None);
}

fn receivers(cx: &mut Cx) {
    let mut r = Rng::new(cx.seed);
    for form in 0..FORMS { for n in 2..6 { for _ in 0..4 { build(cx, &mut r, n, Some(form)); } } }
}

/// the arguments of each filter and the values of the one that takes flags, whether several of them, whether 0
const FILTERS: &[(&str, &[&str], Option<(&str, bool, bool, &[&str])>)] = &[
    ("alpha", &["x", "y", "icon", "render_source", "flags"], Some(("flags", true, true, &["MASK_INVERSE", "MASK_SWAP"]))),
    ("angular_blur", &["x", "y", "size"], None),
    ("bloom", &["threshold", "size", "offset", "alpha"], None),
    ("blur", &["size"], None),
    ("color", &["color", "space"], Some(("space", false, false, &["FILTER_COLOR_RGB", "FILTER_COLOR_HSV", "FILTER_COLOR_HSL", "FILTER_COLOR_HCY"]))),
    ("displace", &["x", "y", "size", "icon", "render_source", "flags"], Some(("flags", true, true, &["FILTER_OVERLAY"]))),
    ("drop_shadow", &["x", "y", "size", "offset", "color"], None),
    ("layer", &["x", "y", "icon", "render_source", "flags", "color", "transform", "blend_mode"], Some(("flags", false, true, &["FILTER_OVERLAY", "FILTER_UNDERLAY"]))),
    ("motion_blur", &["x", "y"], None),
    ("outline", &["size", "color", "flags"], Some(("flags", true, true, &["OUTLINE_SHARP", "OUTLINE_SQUARE"]))),
    ("radial_blur", &["x", "y", "size"], None),
    ("rays", &["x", "y", "size", "color", "offset", "density", "threshold", "factor", "flags"], Some(("flags", true, true, &["FILTER_OVERLAY", "FILTER_UNDERLAY"]))),
    ("ripple", &["x", "y", "size", "repeat", "radius", "falloff", "flags"], Some(("flags", true, true, &["WAVE_BOUNDED"]))),
    ("wave", &["x", "y", "size", "offset", "flags"], Some(("flags", true, true, &["WAVE_SIDEWAYS", "WAVE_BOUNDED"]))),
];
const FILTER_ARGS: &[&str] = &["name", "x", "y", "icon", "render_source", "flags", "size", "threshold", "offset", "alpha", "color", "space", "transform", "blend_mode", "density", "factor", "repeat", "radius", "falloff"];

/// the value of a flags argument and what is said about it
fn flags(r: &mut Rng, f: &(&'static str, bool, bool, &'static [&'static str]), depth: usize, say: &mut Vec<String>) -> String {
    let all: Vec<&str> = FILTERS.iter().filter_map(|f| f.2).flat_map(|f| f.3.iter().copied()).collect();
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 | 1 => { let n = *r.pick(f.3); n.to_owned() },
        2 => { let n = *r.pick(&all); if !f.3.contains(&n) { say.push(format!("with invalid '{}' flag '{n}'", f.0)); } n.to_owned() },
        3 => { let n = r.below(3); if n != 0 || !f.2 { say.push(format!("with invalid '{}' value", f.0)); } n.to_string() },
        _ if !f.1 => { say.push("must have one value, found bitwise OR".into()); format!("{} | {}", f.3[0], f.3[f.3.len() - 1]) },
        _ => { let a = flags(r, f, depth - 1, say); let b = flags(r, f, 0, say); format!("{a} | {b}") },
    }
}
fn filters(cx: &mut Cx) {
    let mut r = Rng::new(cx.seed);
    for _ in 0..60 {
        let (mut text, mut want) = (String::new(), vec![]);
        for i in 0..60 {
            let mut say: Vec<String> = vec![];
            let f = r.pick(FILTERS);
            let mut args = vec![];
            match r.below(12) {
                0 => say.push("without mandatory keyword parameter 'type'".into()),
                1 => { args.push(format!("type = {}", r.pick(&["5", "null"]))); say.push("non-string type keyword parameter value".into()); },
                2 => { args.push("type = \"unheard_of\"".to_owned()); say.push("invalid type keyword parameter value 'unheard_of'".into()); },
                _ => args.push(format!("type = \"{}\"", f.0)),
            }
            let typed = say.is_empty();
            let mut used = BTreeSet::new();
            for _ in 0..r.below(5) {
                let n = if r.chance(2, 3) { *r.pick(f.1) } else { *r.pick(FILTER_ARGS) };
                if !used.insert(n) { continue; }
                let mut more = vec![];
                let v = match f.2 { Some(fl) if fl.0 == n => flags(&mut r, &fl, 2, &mut more), _ => r.below(9).to_string() };
                if typed { say.extend(more); if n != "name" && !f.1.contains(&n) { say.push(format!("with invalid keyword parameter '{n}'")); } }
                args.push(format!("{n} = {v}"));
            }
            if r.bool() { let k = r.below(args.len().max(1)); if !args.is_empty() { args.rotate_left(k); } }
            text += &format!("/proc/f{i}()\n\tvar/x = filter({})\n\treturn x\n", args.join(", "));
            want.push(say);
        }
        cx.input(&text);
        let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
        let mut got: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        for e in ctx.errors().iter() { got.entry(e.location().line as usize).or_default().push(e.description().to_owned()); }
        for (i, say) in want.iter().enumerate() {
            let line = i * 3 + 2;
            let mut heard = got.remove(&line).unwrap_or_default();
            let shown = text.lines().nth(line - 1).unwrap_or("");
            for s in say {
                let at = heard.iter().position(|h| h.contains(s.as_str()));
                ensure!(cx, at.is_some(), "filter:missed", "nothing says {s:?} about {shown}: {heard:?}");
                heard.remove(at.unwrap());
            }
            ensure!(cx, heard.is_empty(), "filter:extra", "about {shown} it is said: {heard:?}, expected {say:?}");
            cx.count("calls of filter() judged", 1);
        }
    }
    cx.nontrivial();
}

const FORMS: usize = 22;

fn build(cx: &mut Cx, r: &mut Rng, n: usize, form: Option<usize>) {
    let mut path = vec!["/datum/t0".to_owned()];
    let mut up: Vec<Option<usize>> = vec![None];
    for i in 1..n { let p = if r.chance(2, 3) { i - 1 } else { r.below(i) }; path.push(format!("{}/t{i}", path[p])); up.push(Some(p)); }
    let global = params(r);
    let gl = list(r, &global);
    let mut w = World { path, up, defs: vec![], names: ["p", *r.pick(&["q", "New", "Topic2"])], global, calls: vec![], text: String::new(), line: 0 };
    w.put(&format!("/proc/foo(a)\n\treturn a\n/proc/gp({gl})\n\treturn"));
    w.line = 4;
    // a global proc that a type's own proc hides, or that types below have as well
    let shadow = r.chance(1, 2);
    let late = r.chance(1, 3);
    if shadow { w.put("/proc/p(a, b, c, d)"); w.put("\treturn"); }
    for t in 0..n { let s = format!("{}\n\tvar/v{t}", w.path[t]); w.put(&s); w.line += 1; }
    // definitions
    let mut todo: Vec<(usize, usize, bool)> = vec![];
    for p in 0..2 {
        let root = if p == 0 && late && n > 2 { 1 } else { 0 };
        for t in 0..n {
            let isnew = w.names[p] == "New";
            if t == root && !isnew { todo.push((t, p, true)); continue; }
            // p exists only below its root
            if !isnew && t != root && !w.below(t, root) { continue; }
            let k = [0, 0, 1, 1, 1, 1, 2][r.below(7)];
            for _ in 0..k { todo.push((t, p, false)); }
        }
    }
    let mut blocks: Vec<Vec<(usize, usize, bool)>> = vec![];
    for d in todo { match blocks.last_mut() { Some(b) if b[0].0 == d.0 && b[0].1 == d.1 => b.push(d), _ => blocks.push(vec![d]) } }
    r.shuffle(&mut blocks);
    let mut hosts: Vec<(usize, usize, usize)> = vec![]; // type, proc, definition
    for b in &blocks { for (t, p, decl) in b {
        let ps = params(r);
        let l = list(r, &ps);
        w.put(&format!("{}{}/{}({l})", w.path[*t], if *decl { "/proc" } else { "" }, w.names[*p]));
        let line = w.line;
        w.defs.push(Def { ty: *t, proc: *p, params: ps, line });
        hosts.push((*t, *p, w.defs.len() - 1));
        w.put("\tvar/x");
        w.put("\tx = 1");
        w.put(&format!("\treturn x // {}", hosts.len()));
    } }
    // where types are held
    w.put("/datum/holder");
    for t in 0..n { let s = format!("\tvar/{}/f{t}", &w.path[t][1..]); w.put(&s); let s = format!("\tvar/list/{}/l{t}", &w.path[t][1..]); w.put(&s); }
    for t in 0..n {
        let s = format!("/proc/get{t}()"); w.put(&s);
        let s = format!("\tset SpacemanDMM_return_type = {}", w.path[t]); w.put(&s);
        w.put("\treturn null");
    }
    // callers
    let ncalls = if form.is_some() { 6 } else { 1 + r.below(3 + cx.size / 12) };
    for i in 0..ncalls {
        let t = r.below(n);
        let p = if r.chance(2, 3) { 0 } else { 1 };
        let ty = w.path[t].clone();
        let rel = ty[1..].to_owned();
        let resolved: Vec<&'static str> = w.find(t, p).map(|d| d.params.clone()).unwrap_or_default();
        let known = w.find(t, p).is_some();
        let name = w.names[p];
        let form = form.unwrap_or_else(|| r.below(FORMS));
        let inner = *r.pick(&["foo(x)", "foo(a = x)", "list(zz = 1)", "foo(a = foo(a = 1))"]);
        let gp = w.global.clone();
        let (al, names) = args(r, if form == 16 { &gp } else { &resolved }, inner);
        let depth = r.below(3);
        let mut pre: Vec<String> = vec![];
        let mut header = format!("/proc/h{i}(x, {rel}/R, datum/holder/H)");
        let mut to = To::Dyn(t, p);
        let recv = match form {
            0 | 1 => "R.".to_owned(),
            2 => "R?.".to_owned(),
            3 => { to = To::Loose; r.pick(&["R:", "R?:"]).to_string() },
            4 => format!("H.f{t}."),
            5 => format!("H.l{t}[1]."),
            6 => format!("get{t}()."),
            7 => { pre.push(format!("var/{rel}/V = x")); "V.".to_owned() },
            8 => { pre.push(format!("for(var/{rel}/V in x)")); "V.".to_owned() },
            9 => "(R).".to_owned(),
            10 => { header = format!("{ty}/proc/h{i}(x)"); "src.".to_owned() },
            11 | 12 | 13 => {
                header = format!("{ty}/proc/h{i}(x)");
                to = if w.find(t, p).is_some() { To::Dyn(t, p) } else { To::Unscoped(p) };
                "".to_owned()
            },
            14 => { pre.push(format!("var/list/{rel}/V = x")); "V[1].".to_owned() },
            15 => { header = format!("{ty}/proc/h{i}(x, datum/holder/H)"); format!("H.f{t}.") },
            16 => { to = To::Global; "global.".to_owned() },
            17 => { to = To::New(t); String::new() },
            18 => "R.".to_owned(),
            19 => { header = format!("/proc/h{i}(x)"); pre.push(format!("var/static/{rel}/V")); "V.".to_owned() },
            20 => "(x || R).".to_owned(),
            _ => { header = format!("/proc/h{i}(x, {rel}/R)"); "R.".to_owned() },
        };
        // a receiver or proc that does not exist is the concern of another property
        match to {
            To::Dyn(..) if !known => continue,
            To::Dyn(..) if name == "New" => continue,
            To::Unscoped(_) if !(shadow && p == 0) => continue,
            _ => {},
        }
        if form == 20 { continue; }
        let e = match to {
            To::Global => format!("global.gp({al})"),
            To::New(_) => format!("new {ty}({al})"),
            _ => format!("{recv}{name}({al})"),
        };
        let detached = !matches!(form, 8) && r.chance(1, 2);
        let body = place(r, &e, depth, detached);
        w.put(&header);
        let from = w.line;
        let extra = pre.iter().any(|p| p.starts_with("for")) as usize;
        for l in &pre { w.put(&format!("\t{l}")); }
        for l in &body { w.put(&format!("\t{}{l}", "\t".repeat(extra))); }
        let host = (from, w.line);
        w.calls.push(Call { host, to, proc_of_host: None, names });
    }
    // calls of the parent and of oneself, from fresh overrides below the last definitions
    for i in 0..r.below(3) {
        let t = r.below(n);
        if w.names[1] == "New" || w.find(t, 1).is_none() { continue; }
        let up = w.find(t, 1).unwrap();
        let (upps, upty) = (up.params.clone(), up.ty);
        let _ = upty;
        let ps = params(r);
        let own = r.chance(1, 2);
        let (al, names) = args(r, if own { &ps } else { &upps }, "x");
        let l = list(r, &ps);
        let ty = format!("{}/e{i}", w.path[t]);
        w.path.push(ty.clone());
        w.up.push(Some(t));
        let me = w.path.len() - 1;
        w.put(&format!("{ty}/{}({l})", w.names[1]));
        let from = w.line;
        w.put("\tvar/x = 1");
        for l in place(r, &if own { format!(".({al})") } else { format!("..({al})") }, 1, true) { w.put(&format!("\t{l}")); }
        w.defs.push(Def { ty: me, proc: 1, params: ps, line: from });
        let d = w.defs.len() - 1;
        w.calls.push(Call { host: (from, w.line), to: if own { To::SelfCall } else { To::Parent(1) }, proc_of_host: Some((me, 1, d)), names });
    }
    judge(cx, &w);
}

fn judge(cx: &mut Cx, w: &World) {
    let text = w.text.clone();
    cx.input(text.clone());
    cx.sig(&text);
    // unknown names at the call, by the call's host and name
    let mut want_bad: BTreeSet<(usize, &str)> = BTreeSet::new();
    // receiver type and proc -> names used
    let mut used: BTreeMap<(usize, usize), BTreeMap<&str, usize>> = BTreeMap::new();
    for (i, c) in w.calls.iter().enumerate() {
        let empty = vec![];
        let (params, dynamic): (&Vec<&str>, Option<(usize, usize)>) = match c.to {
            To::Dyn(t, p) => (&w.find(t, p).unwrap().params, Some((t, p))),
            To::Parent(p) => (&w.find(w.up[c.proc_of_host.unwrap().0].unwrap(), p).unwrap().params, None),
            To::SelfCall => (&w.defs[c.proc_of_host.unwrap().2].params, None),
            To::Global => (&w.global, None),
            To::New(t) => match (w.names[1] == "New").then(|| w.find(t, 1)).flatten() { Some(d) => (&d.params, None), None => (&empty, None) },
            To::Loose => (&empty, None),
            To::Unscoped(_) => { static ALL: std::sync::LazyLock<Vec<&'static str>> = std::sync::LazyLock::new(|| KW.to_vec()); (&*ALL, None) },
        };
        if c.to == To::Loose { continue; }
        for k in &c.names {
            if !params.contains(k) { want_bad.insert((i, k)); }
            else if let Some(d) = dynamic { *used.entry(d).or_default().entry(k).or_default() += 1; }
        }
    }
    // receiver -> override type -> (the names its last definition lacks, whether an earlier one lacks some)
    let mut want: BTreeMap<(usize, usize), BTreeMap<usize, (BTreeSet<&str>, bool)>> = BTreeMap::new();
    let mut fine = 0;
    for ((t, p), names) in &used {
        for o in 0..w.path.len() {
            if !w.below(o, *t) { continue; }
            let own: Vec<&Def> = w.defs.iter().filter(|d| d.ty == o && d.proc == *p).collect();
            let Some(last) = own.last() else { continue };
            let lacks: BTreeSet<&str> = names.keys().copied().filter(|k| !last.params.contains(k)).collect();
            let earlier = own.iter().any(|d| names.keys().any(|k| !d.params.contains(k)));
            if lacks.is_empty() { fine += 1; }
            if earlier { want.entry((*t, *p)).or_default().insert(o, (lacks, earlier)); }
        }
    }
    let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    let all = diags(&ctx).join("\n");
    let mut got_bad: BTreeSet<(usize, &str)> = BTreeSet::new();
    let mut got: BTreeSet<(usize, usize)> = BTreeSet::new();
    let errs = ctx.errors();
    for e in errs.iter() {
        let l = e.location().line as usize;
        let d = e.description();
        if let Some(rest) = d.strip_prefix("bad keyword argument \"") {
            let (k, to) = rest.split_once("\" to ").unwrap_or(("", ""));
            let at = w.calls.iter().position(|c| c.host.0 < l && l <= c.host.1);
            let hit = at.and_then(|i| w.calls[i].names.iter().find(|n| **n == k).map(|n| (i, *n)));
            ensure!(cx, hit.is_some(), "bad", "line {l}: {d}: no call there uses that name\n{all}");
            let Some(hit) = hit else { continue };
            ensure!(cx, want_bad.contains(&hit), "bad", "line {l}: {d}: it has such a parameter\n{all}");
            ensure!(cx, got_bad.insert(hit), "twice", "line {l}: {d}: reported twice\n{all}");
            // names the proc that would be called
            let def = match w.calls[hit.0].to { To::Dyn(t, p) => w.find(t, p), To::New(t) if w.names[1] == "New" => w.find(t, 1), To::Parent(p) => w.find(w.up[w.calls[hit.0].proc_of_host.unwrap().0].unwrap(), p), To::SelfCall => Some(&w.defs[w.calls[hit.0].proc_of_host.unwrap().2]), _ => None };
            if let Some(def) = def {
                let s = to.split('[').next().unwrap_or("");
                let (p1, p2) = (format!("{}/proc/{}", w.path[def.ty], w.names[def.proc]), format!("{}/{}", w.path[def.ty], w.names[def.proc]));
                ensure!(cx, s == p1 || s == p2, "bad", "line {l}: {d}: the call runs {p1}\n{all}");
                // notes list the types below that do have it
                let mut notes: Vec<String> = e.notes().iter().filter(|n| n.description().starts_with("an override has this parameter")).map(|n| n.location().line.to_string()).collect();
                notes.sort();
                let mut has: Vec<String> = (0..w.path.len()).filter(|o| w.below(*o, def.ty)).filter_map(|o| w.defs.iter().rfind(|x| x.ty == o && x.proc == def.proc)).filter(|x| x.params.contains(&k)).map(|x| x.line.to_string()).collect();
                has.sort();
                ensure!(cx, notes == has, "bad notes", "line {l}: {d}: overrides with the parameter at lines {has:?}, listed {notes:?}\n{all}");
            }
        } else if e.errortype() == Some("override_missing_keyword_arg") {
            // an override of /t/proc/name is missing keyword args
            let Some((_, rest)) = d.split_once(" of ") else { cx.violate("form", d.to_owned()); return };
            let base = rest.split(' ').next().unwrap_or("");
            let key = want.keys().find(|(t, p)| base == format!("{}/proc/{}", w.path[*t], w.names[*p])).copied();
            ensure!(cx, key.is_some(), "override", "{d}: no such call, or no override lacks a name\n{all}");
            let Some(key) = key else { continue };
            ensure!(cx, got.insert(key), "twice", "{d}: reported twice\n{all}");
            let def = w.find(key.0, key.1).unwrap();
            ensure!(cx, def.line == l, "override", "{d}: at line {l}, the proc called is at {}\n{all}", def.line);
            let overrides = &want[&key];
            let names = &used[&key];
            let mut seen: BTreeSet<usize> = BTreeSet::new();
            let mut missing: BTreeSet<&str> = BTreeSet::new();
            for note in e.notes() {
                let s = note.description();
                if let Some((ty, list)) = s.split_once(" is missing \"") {
                    let o = w.path.iter().position(|p| p == ty);
                    let hit = o.and_then(|o| overrides.get(&o).map(|x| (o, x)));
                    ensure!(cx, hit.is_some(), "override", "{d}: {s}: it lacks none of {names:?}, or cannot be what runs\n{all}");
                    let Some((o, (lacks, _))) = hit else { continue };
                    let listed: BTreeSet<&str> = list.trim_end_matches('"').split("\", \"").collect();
                    if !lacks.is_empty() {
                        ensure!(cx, listed == *lacks, "override", "{d}: {s}: it lacks {lacks:?}\n{all}");
                        ensure!(cx, w.defs.iter().any(|x| x.ty == o && x.proc == key.1 && x.line == note.location().line as usize), "override", "{d}: {s}: at line {}\n{all}", note.location().line);
                    }
                    ensure!(cx, seen.insert(o), "twice", "{d}: {s}\n{all}");
                    missing.extend(listed);
                } else if let Some(rest) = s.strip_prefix("called with \"") {
                    let (k, more) = rest.split_once("\" here").unwrap_or(("", ""));
                    let others: usize = more.split(' ').find_map(|x| x.parse().ok()).unwrap_or(0);
                    ensure!(cx, names.get(k) == Some(&(others + 1)), "called", "{d}: {s}: the name is used {:?} times\n{all}", names.get(k));
                    let nl = note.location().line as usize;
                    ensure!(cx, w.calls.iter().any(|c| c.host.0 < nl && nl <= c.host.1 && c.names.contains(&k) && c.to == To::Dyn(key.0, key.1)), "called", "{d}: {s}: no such call at line {nl}\n{all}");
                    ensure!(cx, missing.contains(k), "called", "{d}: {s}: no override lacks it\n{all}");
                }
            }
            for (o, (lacks, _)) in overrides { ensure!(cx, lacks.is_empty() || seen.contains(o), "override missed", "{d}: {} lacks {lacks:?} but is not listed\n{all}", w.path[*o]); }
            let n: usize = d.split(' ').next().unwrap().parse().unwrap_or(1);
            ensure!(cx, n == seen.len(), "count", "{d}: lists {}\n{all}", seen.len());
        } else if e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error { cx.inconclusive(&format!("does not parse: {d}: {}", text.lines().nth(l - 1).unwrap_or(""))); return; }
        else if d.contains("non-kwargs after kwargs") { cx.violate("order", format!("line {l}: {d}\n{all}")); }
    }
    for b in &want_bad { ensure!(cx, got_bad.contains(b), "bad missed", "the call at lines {:?} ({:?}) uses the name {:?} which what it calls lacks, but is not reported\n{all}", w.calls[b.0].host, w.calls[b.0].to, b.1); }
    for (k, o) in &want { ensure!(cx, got.contains(k) || o.values().all(|x| x.0.is_empty()), "override missed", "calls of {}/proc/{} use {:?}, which is lacking from {:?}, but nothing is reported\n{all}", w.path[k.0], w.names[k.1], used[k], o.iter().map(|(o, x)| (&w.path[*o], &x.0)).collect::<Vec<_>>()); }
    cx.count("calls with names", w.calls.iter().filter(|c| !c.names.is_empty()).count() as u64);
    cx.count("unknown names reported", got_bad.len() as u64);
    cx.count("overrides reported", got.len() as u64);
    cx.count("overrides that take the names", fine);
    if !got.is_empty() && fine > 0 { cx.nontrivial(); }
}
