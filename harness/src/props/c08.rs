use crate::dm_util::*;
use crate::fw::*;
use crate::gen_dm::*;
use crate::rng::Rng;
use dm::Severity;

pub static PROP: Prop = Prop {
    id: "C08",
    quick: 8000,
    thorough: 250000,
    case,
    directed: &[("small blocks in every unit", units)],
    rule: "a case is a random tree of types, variable blocks, proc blocks and procs with statement bodies, written by indentation (two units), by braces on one line, by braces over lines, mixed, and as flat absolute declarations, with blank lines, comments, continued parentheses; the object trees of all spellings are compared and every generated member is looked up in them; then one line is indented inconsistently and must be diagnosed; distinct by text, non-trivial when there is a nested block inside a proc and a nested type",
    assumptions: &["one indentation step is used consistently within a top-level block, also inside braces", "only parentheses continue a logical line"],
    ..DEFAULT
};

#[derive(Clone)]
enum D {
    Type(String, Vec<D>),
    /// var block with a path, declarations below it
    VarBlock(Vec<String>, Vec<VarDecl>),
    Var(VarDecl),
    Assign(String, E),
    ProcBlock(bool, Vec<(String, Vec<VarDecl>, Vec<S>)>),
    Proc(u8, String, Vec<VarDecl>, Vec<S>),
}

struct B<'a> { rng: &'a mut Rng, n: usize, nested_types: usize, budget: isize, expect: Vec<(String, u8, String)> }

impl B<'_> {
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{p}{}", self.n) }
    fn konst(&mut self) -> E {
        match self.rng.below(5) {
            0 => E::Str("some text".into()),
            1 => E::Null,
            2 => E::List(vec![(None, E::Int(1)), (Some(E::Str("k".into())), E::Int(2)), (None, E::Str("x".into()))].into_iter().map(|(k, v)| match k { Some(k) => E::Asg(0, Box::new(k), Box::new(v)), None => v }).collect()),
            3 => E::Bin(self.rng.below(3), Box::new(E::Int(3)), Box::new(E::Int(4))),
            _ => E::Int(self.rng.below(100) as i32),
        }
    }
    fn var(&mut self) -> VarDecl {
        let mut flags = vec![];
        if self.rng.chance(1, 6) { flags.push(*self.rng.pick(&["static", "tmp", "const", "global"])); }
        let path: Vec<String> = match self.rng.below(4) { 0 => vec!["list".into()], 1 => vec!["obj".into(), "item".into()], _ => vec![] };
        let name = self.fresh("v");
        let value = if flags.contains(&"const") || self.rng.chance(2, 3) { Some(self.konst()) } else { None };
        VarDecl { flags, path, name, suffix: 0, value }
    }
    fn proc(&mut self) -> (String, Vec<VarDecl>, Vec<S>) {
        let name = self.fresh("p");
        let params = (0..self.rng.below(3)).map(|_| { let mut v = self.var(); v.flags.clear(); v }).collect();
        let d = 1 + self.rng.below(3);
        let mut body = Gen::new(self.rng).block(d, 4);
        if body.is_empty() { body.push(S::Return(None)); }
        (name, params, body)
    }
    fn items(&mut self, path: &str, depth: usize) -> Vec<D> {
        let mut v = vec![];
        for _ in 0..1 + self.rng.below(4) {
            self.budget -= 1;
            if self.budget < 0 && !v.is_empty() { break; }
            match self.rng.weighted(&[if depth < 4 { 5 } else { 0 }, 2, 5, 2, 2, 5]) {
                0 => {
                    let mut n = self.fresh("t");
                    if self.rng.chance(1, 4) { n = format!("{n}/{}", self.fresh("t")); }
                    let p = format!("{path}/{n}");
                    if depth > 0 { self.nested_types += 1; }
                    self.expect.push((p.clone(), b't', String::new()));
                    let b = self.items(&p, depth + 1);
                    v.push(D::Type(n, b));
                },
                1 => {
                    let p = match self.rng.below(3) { 0 => vec!["obj".to_owned()], 1 => vec!["mob".into(), "living".into()], _ => vec![] };
                    let ds: Vec<VarDecl> = (0..1 + self.rng.below(3)).map(|_| { let mut d = self.var(); d.path.clear(); d.flags.clear(); d }).collect();
                    for d in &ds { self.expect.push((path.to_owned(), b'v', d.name.clone())); }
                    v.push(D::VarBlock(p, ds));
                },
                2 => { let d = self.var(); self.expect.push((path.to_owned(), b'v', d.name.clone())); v.push(D::Var(d)); },
                3 if depth > 0 => { let n = "tag"; let e = self.konst(); if !v.iter().any(|d| matches!(d, D::Assign(m, _) if m == n)) { v.push(D::Assign(n.into(), e)); } },
                4 => {
                    let ps: Vec<_> = (0..1 + self.rng.below(3)).map(|_| self.proc()).collect();
                    for p in &ps { self.expect.push((path.to_owned(), b'p', p.0.clone())); }
                    v.push(D::ProcBlock(self.rng.chance(1, 4), ps));
                },
                _ => { let p = self.proc(); self.expect.push((path.to_owned(), b'p', p.0.clone())); let k = if depth == 0 { 0 } else { self.rng.below(3) as u8 }; v.push(D::Proc(k, p.0, p.1, p.2)); },
            }
        }
        if v.is_empty() { let d = self.var(); self.expect.push((path.to_owned(), b'v', d.name.clone())); v.push(D::Var(d)); }
        v
    }
}

fn params(r: &mut Rng, o: &mut Vec<Lex>, name: &str, ps: &[VarDecl]) {
    o.push(lg(name));
    o.push(lx("("));
    for (i, p) in ps.iter().enumerate() {
        if i > 0 { o.push(lx(",")); }
        let mut t = vec![];
        StmtRender { rng: r, redundant: 0 }.vardecl(&mut t, p);
        o.push(lg("var"));
        o.append(&mut t);
    }
    o.push(lx(")"));
}

fn nested(r: &mut Rng, ds: &[D], top: bool) -> Vec<Line> {
    let mut v = vec![];
    let slash = |o: &mut Vec<Lex>, r: &mut Rng| if top && r.bool() { o.push(lg("/")) };
    for d in ds {
        let mut o = vec![];
        match d {
            D::Type(n, b) => {
                slash(&mut o, r);
                let parts: Vec<&str> = n.split('/').collect();
                for (i, p) in parts.iter().enumerate() { if i > 0 { o.push(lg("/")); } o.push(if i + 1 == parts.len() { lx(*p) } else { lg(*p) }); }
                let b = nested(r, b, false);
                v.push(with(o, b));
            },
            D::VarBlock(p, ds) => {
                slash(&mut o, r);
                if p.is_empty() { o.push(lx("var")); } else { o.push(lg("var")); }
                for (i, x) in p.iter().enumerate() { o.push(lg("/")); o.push(if i + 1 == p.len() { lx(x.clone()) } else { lg(x.clone()) }); }
                let b = ds.iter().map(|d| { let mut t = vec![]; StmtRender { rng: r, redundant: 0 }.vardecl(&mut t, d); t.remove(0); simple(t) }).collect();
                v.push(with(o, b));
            },
            D::Var(d) => { slash(&mut o, r); o.push(lg("var")); StmtRender { rng: r, redundant: 0 }.vardecl(&mut o, d); v.push(simple(o)); },
            D::Assign(n, e) => { o.push(lx(n.clone())); o.push(lx("=")); StmtRender { rng: r, redundant: 0 }.ex(&mut o, e); v.push(simple(o)); },
            D::ProcBlock(verb, ps) => {
                slash(&mut o, r);
                o.push(lx(if *verb { "verb" } else { "proc" }));
                let mut b = vec![];
                for (n, p, s) in ps { let mut o = vec![]; params(r, &mut o, n, p); let body = StmtRender { rng: r, redundant: 0 }.lines(s); b.push(with(o, body)); }
                v.push(with(o, b));
            },
            D::Proc(k, n, p, s) => {
                slash(&mut o, r);
                match k { 0 => { o.push(lg("proc")); o.push(lg("/")); }, 1 => { o.push(lg("verb")); o.push(lg("/")); }, _ => {} }
                params(r, &mut o, n, p);
                let body = StmtRender { rng: r, redundant: 0 }.lines(s);
                v.push(with(o, body));
            },
        }
    }
    v
}

fn flat(r: &mut Rng, path: &str, ds: &[D], v: &mut Vec<Line>) {
    let pre = |path: &str| -> Vec<Lex> { let mut o = vec![]; for p in path.split('/').filter(|p| !p.is_empty()) { o.push(lg("/")); o.push(lg(p)); } o };
    for d in ds {
        let mut o = pre(path);
        match d {
            D::Type(n, b) => { let p = format!("{path}/{n}"); let mut h = pre(&p); h.last_mut().unwrap().glue = false; v.push(simple(h)); flat(r, &p, b, v) },
            D::VarBlock(p, ds) => for d in ds { let mut d = d.clone(); d.path = p.clone(); let mut o = pre(path); o.push(lg("/")); o.push(lg("var")); StmtRender { rng: r, redundant: 0 }.vardecl(&mut o, &d); v.push(simple(o)); },
            D::Var(d) => { o.push(lg("/")); o.push(lg("var")); StmtRender { rng: r, redundant: 0 }.vardecl(&mut o, d); v.push(simple(o)); },
            // an assignment has no absolute one-line form of its own
            D::Assign(n, e) => { let mut b = vec![lx(n.clone()), lx("=")]; StmtRender { rng: r, redundant: 0 }.ex(&mut b, e); o.last_mut().unwrap().glue = false; v.push(with(o, vec![simple(b)])); },
            D::ProcBlock(verb, ps) => for (n, p, s) in ps {
                let mut o = pre(path);
                o.extend([lg("/"), lg(if *verb { "verb" } else { "proc" }), lg("/")]);
                params(r, &mut o, n, p);
                let body = StmtRender { rng: r, redundant: 0 }.lines(s);
                v.push(with(o, body));
            },
            D::Proc(k, n, p, s) => {
                match k { 0 => o.extend([lg("/"), lg("proc"), lg("/")]), 1 => o.extend([lg("/"), lg("verb"), lg("/")]), _ => o.push(lg("/")) }
                params(r, &mut o, n, p);
                let body = StmtRender { rng: r, redundant: 0 }.lines(s);
                v.push(with(o, body));
            },
        }
    }
}

fn errors(p: &Parsed) -> Vec<String> {
    p.context.errors().iter().filter(|e| e.severity() == Severity::Error).map(|e| diag(&p.context, e)).collect()
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let mut b = B { rng: &mut rng, n: 0, nested_types: 0, budget: 4 + cx.size as isize / 5, expect: vec![] };
    let ds = b.items("", 0);
    let (expect, nested_types) = (b.expect, b.nested_types);
    let units: &[&'static str] = &["\t", " ", "  ", "   ", "    ", "        ", "\t\t"];
    let u = [*rng.pick(units), *rng.pick(units), *rng.pick(units), *rng.pick(units)];
    let mut base: Option<(String, String)> = None;
    let mut deep = 0;
    for (i, (layout, unit, noise, sp)) in [
        (Layout::Indent("\t"), "\t", 0, Spacing::default()),
        (Layout::Indent(u[0]), u[0], 15, Spacing { noise: 5, wrap: 10, tight: false }),
        (Layout::Braces, "\t", 10, Spacing::default()),
        (Layout::BraceLines, u[1], 10, Spacing { noise: 3, wrap: 5, tight: false }),
        (Layout::Mixed, u[2], 10, Spacing::default()),
        (Layout::Indent(u[3]), u[3], 5, Spacing::default()),
    ].into_iter().enumerate() {
        let ls = if i == 5 { let mut v = vec![]; flat(&mut rng, "", &ds, &mut v); v } else { nested(&mut rng, &ds, true) };
        let mut o = Out::new(&mut rng, layout, sp, noise);
        o.brace_unit = unit;
        o.lines(&ls, 0, false);
        let mut text = o.s;
        match rng.below(4) { 0 => text = text.replace('\n', "\r\n"), 1 => while text.ends_with('\n') { text.pop(); }, _ => {} }
        if i == 0 { cx.input(text.clone()); }
        let p = match catch(|| parse_text(&text)) { Ok(p) => p, Err(e) => { cx.input(text.clone()); cx.violate("panic", format!("{layout:?}: {e}\n{text}")); return; } };
        cx.count("texts parsed", 1);
        let errs = errors(&p);
        if !errs.is_empty() { cx.input(text.clone()); cx.violate(format!("rejected {}", name(i)), format!("valid code is rejected: {errs:?}\n{text}")); return; }
        let dump = dump_tree(&p.tree, DumpOpts::default());
        match &base {
            None => {
                for (path, kind, name) in &expect {
                    let ty = if path.is_empty() { Some(p.tree.root()) } else { p.tree.find(path) };
                    let ok = ty.is_some_and(|t| match kind { b't' => true, b'v' => t.vars.contains_key(name.as_str()), _ => t.procs.contains_key(name.as_str()) && t.procs[name.as_str()].value.iter().all(|v| v.code.is_some()) });
                    if !ok { cx.violate("missing member", format!("{path} lacks {} {name}\n{text}", *kind as char)); return; }
                }
                cx.count("members looked up", expect.len() as u64);
                deep = dump.matches("(if ").count() + dump.matches("(while ").count() + dump.matches("(switch ").count() + dump.matches("(for").count();
                cx.count("nested statement blocks", deep as u64);
                base = Some((dump, text.clone()));
            },
            Some((want, t0)) => {
                if *want != dump { cx.input(text.clone()); cx.violate(format!("tree {}", name(i)), format!("object trees differ: {}\n---- by indentation\n{t0}\n---- {}\n{text}", first_diff(want, &dump), name(i))); return; }
            },
        }
    }
    if deep > 0 && nested_types > 0 { cx.nontrivial(); }

    // one inconsistent line
    let unit = *rng.pick(&["  ", "    ", "   "]);
    let ls = nested(&mut rng, &ds, true);
    let mut o = Out::new(&mut rng, Layout::Indent(unit), Spacing::default(), 0);
    o.lines(&ls, 0, false);
    let mut lines: Vec<String> = o.s.lines().map(|s| s.to_owned()).collect();
    let ok: Vec<usize> = (1..lines.len()).filter(|&i| lines[i].starts_with(' ') && lines[i - 1].starts_with(' ') && !lines[i].trim().is_empty() && !lines[i].trim_start().starts_with('}') && !lines[i].trim_start().starts_with('{')).collect();
    if ok.is_empty() { return; }
    let i = *rng.pick(&ok);
    lines[i] = if rng.bool() { format!(" {}", lines[i]) } else { lines[i][1..].to_owned() };
    // taking a space away from a line one step deep leaves a line at another step only for unit 1
    let text = lines.join("\n") + "\n";
    match catch(|| parse_text(&text)) {
        Err(e) => { cx.input(text.clone()); cx.violate("panic", e); },
        Ok(p) => {
            cx.count("inconsistent lines", 1);
            let errs = errors(&p);
            if !errs.iter().any(|e| e.contains("indentation")) { cx.input(text.clone()); cx.violate("inconsistency unreported", format!("line {} is indented inconsistently, errors: {errs:?}\n{text}", i + 1)); }
        },
    }
}

fn name(i: usize) -> &'static str { ["by tabs", "by another step", "braces on one line", "braces over lines", "mixed", "flat"][i] }

/// A fixed small program in every combination of step, brace placement and line end.
fn units(cx: &mut Cx) {
    let mut want: Option<String> = None;
    let mut n = 0;
    for unit in ["\t", " ", "  ", "   ", "    ", "     ", "        ", "\t\t", " \t"] {
        for style in 0..16 {
            for eol in ["\n", "\r\n"] {
                let open = |b: bool| if b { " {" } else { "" };
                let close = |b: bool, depth: usize| if b { format!("{}}}{eol}", unit.repeat(depth)) } else { String::new() };
                let (a, b, c, d) = (style & 1 > 0, style & 2 > 0, style & 4 > 0, style & 8 > 0);
                // braces inside an indented block, and indentation inside braces
                let t = format!("/a{oa}{eol}{u}var{eol}{u}{u}x = 1{eol}{u}b{ob}{eol}{u}{u}var/y = 2{eol}{u}{u}proc/f(){oc}{eol}{u}{u}{u}if(x){od}{eol}{u}{u}{u}{u}y = 3{eol}{u}{u}{u}{u}x = 4{eol}{cd}{u}{u}{u}else{eol}{u}{u}{u}{u}y = 5{eol}{u}{u}{u}return y{eol}{cc}{cb}{u}var/z = 6{eol}{ca}/c{eol}{u}var/w = 7{eol}",
                    u = unit, oa = open(a), ob = open(b), oc = open(c), od = open(d), ca = close(a, 0), cb = close(b, 1), cc = close(c, 2), cd = close(d, 3));
                let p = match catch(|| parse_text(&t)) { Ok(p) => p, Err(e) => { cx.input(t); cx.violate("panic", e); return; } };
                let errs = errors(&p);
                if !errs.is_empty() { cx.input(t.clone()); cx.violate("rejected unit", format!("{errs:?}\n{t}")); return; }
                let dump = dump_tree(&p.tree, DumpOpts::default());
                let w = want.get_or_insert_with(|| dump.clone());
                if *w != dump { cx.input(t.clone()); cx.violate("tree unit", format!("{}\n{t}", first_diff(w, &dump))); return; }
                n += 1;
            }
        }
    }
    cx.count("step and brace combinations", n);
    cx.nontrivial();
}
