use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C32",
    quick: 40000,
    thorough: 3000000,
    case,
    directed: &[("every statement form around every way out", directed)],
    rule: "a case is one to three procs whose bodies are drawn over every statement form (branches, all kinds of loops, labelled loops, switches, exception handlers, spawn, early exits), with conditions that are constant or depend on an argument; an interpreter that takes every outcome of every non-constant condition records which statements, conditions and loop bodies run; whatever the checker reports as unreachable must be outside that record, and what directly follows an unconditional exit must be reported; distinct by text, non-trivial when at least one report was made and at least one loop is left early",
    assumptions: &["non-constant conditions are independent of each other", "goto is not part of the parsed language"],
    ..DEFAULT
};

/// What a condition is.
#[derive(Clone, Copy, PartialEq, Debug)]
enum C { Any, True, False }

#[derive(Clone, Debug)]
enum S {
    Plain(&'static str),
    Return(&'static str),
    Break(Option<usize>),
    Continue(Option<usize>),
    Throw,
    If(Vec<(C, Vec<S>)>, Option<Vec<S>>),
    While(C, Vec<S>),
    DoWhile(C, Vec<S>),
    For(Option<C>, Vec<S>),
    List(u8, Vec<S>),
    /// start, end, step (0: none, i32::MAX: an unknown one), form
    Range(i32, i32, i32, u8, Vec<S>),
    Spawn(Vec<S>),
    Switch(Vec<Vec<S>>, Option<Vec<S>>),
    Try(Vec<S>, Vec<S>),
    /// a labelled loop; whether the loop stands inside the label's block
    Label(usize, bool, Box<S>),
}

const TRUES: &[&str] = &["1", "2", "\"a\"", "1.5", "list()", "list(x)", "/obj", "new /datum()", "!0", "!null", "(1)", "(1 && 2)", "(0 || 3)", "(x = 1)", "(1 ? 2 : 0)", "(0 ? 0 : 5)", "\"a[x]\"", "!\"\"", "!!1", "(1 && !0)"];
const FALSES: &[&str] = &["0", "null", "\"\"", "0.0", "!1", "!list()", "(0)", "(1 && 0)", "(0 || null)", "(0 && 1)", "(x = 0)", "(x = null)", "(1 ? 0 : 2)", "(0 ? 5 : \"\")", "!\"x\"", "!!0", "(\"\" || !7)"];
const ANYS: &[&str] = &["x", "!x", "x > 1", "foo(x)", "(x && 1)", "(x || 0)", "(1 && x)", "(0 || x)", "x == 0", "\"[x]\"", "(x ? 1 : 0)", "(x += 1)", "-x", "x in list(1)", "prob(50)", "(0 ? 1 : x)", "(x = foo(0))", "!(x && 1)", "x[1]", "istype(x)", "x++", "(x = x)"];

fn cond(r: &mut Rng, c: C) -> &'static str { match c { C::Any => *r.pick(ANYS), C::True => *r.pick(TRUES), C::False => *r.pick(FALSES) } }
fn pick_c(r: &mut Rng, rare: usize) -> C { match r.below(rare) { 0 => C::True, 1 => C::False, _ => C::Any } }

struct Gen { next: usize, budget: i32 }
impl Gen {
    fn block(&mut self, r: &mut Rng, depth: usize, loops: &[Option<usize>]) -> Vec<S> {
        let n = 1 + r.below(if depth == 0 { 2 } else { 3 });
        let mut v: Vec<S> = (0..n).map(|_| self.stmt(r, depth, loops)).collect();
        if r.chance(1, 3) { v.push(self.exit(r, loops)); }
        v
    }
    fn exit(&mut self, r: &mut Rng, loops: &[Option<usize>]) -> S {
        let named: Vec<usize> = loops.iter().flatten().copied().collect();
        match r.below(8) {
            0..3 => S::Return(*r.pick(&["return", "return x", "return 1", "CRASH(\"no\")", "return"])),
            3 | 4 if !loops.is_empty() => if !named.is_empty() && r.chance(1, 2) { S::Break(Some(*r.pick(&named))) } else { S::Break(None) },
            5 | 6 if !loops.is_empty() => if !named.is_empty() && r.chance(1, 2) { S::Continue(Some(*r.pick(&named))) } else { S::Continue(None) },
            7 => S::Throw,
            _ => S::Return("return"),
        }
    }
    fn stmt(&mut self, r: &mut Rng, depth: usize, loops: &[Option<usize>]) -> S {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 {
            return if r.chance(1, 3) { self.exit(r, loops) } else { S::Plain(*r.pick(&["x = 1", "foo(x)", "x++", "var/y = x", "del(x)", "world << x"])) };
        }
        let d = depth - 1;
        match r.below(16) {
            0 => self.exit(r, loops),
            1 => S::Plain(*r.pick(&["x = 1", "foo(x)", "x++", "del(x)"])),
            2..6 => {
                let n = 1 + [0, 0, 0, 1, 2][r.below(5)];
                let arms = (0..n).map(|_| (pick_c(r, 14), self.block(r, d, loops))).collect();
                S::If(arms, r.chance(3, 5).then(|| self.block(r, d, loops)))
            },
            6..12 => {
                let label = r.chance(1, 3).then(|| { self.next += 1; self.next });
                let mut inner = loops.to_vec();
                inner.push(label);
                let body = self.block(r, d, &inner);
                let s = match r.below(7) {
                    0 => S::While(pick_c(r, 6), body),
                    1 | 2 => S::DoWhile(pick_c(r, 6), body),
                    3 => S::For(r.chance(3, 4).then(|| pick_c(r, 6)), body),
                    4 => S::List(r.below(4) as u8, body),
                    _ => {
                        let (mut a, b) = (r.below(5) as i32, r.below(5) as i32);
                        if a == 0 && b == 0 { a = 1; }
                        let step = match r.below(6) { 0 => 1, 1 => 2, 2 => -1, 3 => -2, 4 if r.chance(1, 2) => i32::MAX, _ => 0 };
                        S::Range(if r.chance(1, 8) { i32::MAX } else { a }, b, step, r.below(4) as u8, body)
                    },
                };
                match label { Some(l) => S::Label(l, r.chance(1, 2), Box::new(s)), None => s }
            },
            12 => S::Spawn(self.block(r, d, &[])),
            13 | 14 => {
                let n = 1 + r.below(3);
                S::Switch((0..n).map(|_| self.block(r, d, loops)).collect(), r.chance(3, 4).then(|| self.block(r, d, loops)))
            },
            _ => S::Try(self.block(r, d, loops), self.block(r, d, loops)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum What { Stmt, ElseIf, DoCond, Body }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Out { Fall, Return, Throw, Break(usize), Continue(usize) }
type Outs = BTreeSet<Out>;

/// Prints the program and, along the way, runs it.
struct Run<'a> {
    r: &'a mut Rng,
    text: String,
    line: usize,
    /// things that run, by line
    ran: BTreeSet<(usize, What)>,
    /// statements that directly follow an exit
    must: BTreeMap<usize, &'static str>,
    /// ids of the enclosing loops
    loops: Vec<usize>,
    next: usize,
    early: bool,
}

/// Whether a break or continue stands anywhere in it.
fn jumps(s: &S) -> bool {
    let any = |b: &Vec<S>| b.iter().any(jumps);
    match s {
        S::Plain(_) | S::Return(_) | S::Throw => false,
        S::Break(_) | S::Continue(_) => true,
        S::If(arms, e) => arms.iter().any(|a| any(&a.1)) || e.as_ref().is_some_and(any),
        S::While(_, b) | S::DoWhile(_, b) | S::For(_, b) | S::List(_, b) | S::Range(_, _, _, _, b) | S::Spawn(b) => any(b),
        S::Switch(c, e) => c.iter().any(any) || e.as_ref().is_some_and(any),
        S::Try(a, b) => any(a) || any(b),
        S::Label(_, _, s) => jumps(s),
    }
}

/// Whether it plainly never lets the next statement run: an exit, or a branch all of whose arms end in one.
fn exits(s: &S) -> bool {
    let all = |b: &Vec<S>| !b.iter().any(jumps) && b.iter().any(exits);
    match s {
        S::Return(_) => true,
        S::If(arms, Some(e)) => arms.iter().all(|a| a.0 == C::False || all(&a.1)) && all(e),
        S::Switch(c, Some(e)) => c.iter().all(all) && all(e),
        _ => false,
    }
}

impl Run<'_> {
    fn put(&mut self, ind: usize, s: &str) { self.line += 1; for _ in 0..ind { self.text.push('\t'); } self.text += s; self.text.push('\n'); }
    fn block(&mut self, b: &[S], ind: usize, live: bool) -> Outs {
        let mut outs = Outs::new();
        let mut live = live;
        for (i, s) in b.iter().enumerate() {
            let at = self.line + 1;
            if live { self.ran.insert((at, What::Stmt)); }
            let was = live;
            let o = self.stmt(s, ind, live);
            if live { outs.extend(o.iter().filter(|o| **o != Out::Fall)); live = o.contains(&Out::Fall); }
            if was && exits(s) && !b[..=i].iter().any(jumps) && i + 1 < b.len() { self.must.insert(self.line + 1, if matches!(s, S::Return(_)) { "return" } else { "branch" }); }
        }
        if live { outs.insert(Out::Fall); }
        outs
    }
    /// body of a loop: its outcomes, with those that concern this loop turned into (may go round again, may leave)
    fn body(&mut self, b: &[S], ind: usize, live: bool, id: usize) -> (Outs, bool, bool) {
        self.loops.push(id);
        let mut o = self.block(b, ind, live);
        self.loops.pop();
        let fall = o.remove(&Out::Fall);
        let again = o.remove(&Out::Continue(id)) || fall;
        let leave = o.remove(&Out::Break(id));
        if live && (leave || o.contains(&Out::Return)) { self.early = true; }
        (o, again, leave)
    }
    fn stmt(&mut self, s: &S, ind: usize, live: bool) -> Outs {
        let id = match s { S::Label(l, ..) => *l, _ => { self.next += 1; 1000 + self.next } };
        self.looped(s, ind, live, id)
    }
    fn looped(&mut self, s: &S, ind: usize, live: bool, id: usize) -> Outs {
        let mut outs = Outs::new();
        match s {
            S::Plain(t) => { self.put(ind, t); outs.insert(Out::Fall); },
            S::Return(t) => { self.put(ind, t); outs.insert(Out::Return); },
            S::Throw => { self.put(ind, "throw x"); outs.insert(Out::Throw); },
            S::Break(l) => {
                match l { Some(l) => self.put(ind, &format!("break L{l}")), None => self.put(ind, "break") }
                outs.insert(Out::Break(l.unwrap_or_else(|| *self.loops.last().unwrap())));
            },
            S::Continue(l) => {
                match l { Some(l) => self.put(ind, &format!("continue L{l}")), None => self.put(ind, "continue") }
                outs.insert(Out::Continue(l.unwrap_or_else(|| *self.loops.last().unwrap())));
            },
            S::If(arms, e) => {
                let mut left = live;
                for (i, (c, b)) in arms.iter().enumerate() {
                    let t = format!("{}if({})", if i > 0 { "else " } else { "" }, cond(self.r, *c));
                    self.put(ind, &t);
                    if i > 0 && left { self.ran.insert((self.line, What::ElseIf)); }
                    let o = self.block(b, ind + 1, left && *c != C::False);
                    outs.extend(o.iter().filter(|_| left && *c != C::False));
                    if *c == C::True { left = false; }
                }
                match e {
                    Some(b) => { self.put(ind, "else"); let o = self.block(b, ind + 1, left); if left { outs.extend(o); } },
                    None => if left { outs.insert(Out::Fall); },
                }
            },
            S::While(c, b) => {
                let t = format!("while({})", cond(self.r, *c));
                self.put(ind, &t);
                let (o, _, leave) = self.body(b, ind + 1, live && *c != C::False, id);
                if *c != C::False { outs.extend(o); }
                if *c != C::True || leave { outs.insert(Out::Fall); }
            },
            S::DoWhile(c, b) => {
                self.put(ind, "do");
                let at = self.line;
                let (o, again, leave) = self.body(b, ind + 1, live, id);
                let t = format!("while({})", cond(self.r, *c));
                self.put(ind, &t);
                outs.extend(o);
                if again && live { self.ran.insert((at, What::DoCond)); }
                if again && *c != C::True || leave { outs.insert(Out::Fall); }
            },
            S::For(c, b) => {
                let c2 = c.unwrap_or(C::True);
                let t = match c {
                    None if self.r.chance(1, 2) => "for()".to_owned(),
                    None => "for(var/i = 0; ; i++)".to_owned(),
                    Some(c) => { let e = cond(self.r, *c); match self.r.below(4) { 0 => format!("for(var/i = 0; {e}; i++)"), 1 => format!("for(var/i = 0, {e}, i++)"), 2 => format!("for(; {e}; )"), _ => format!("for(x = 0; {e}; x++)") } },
                };
                self.put(ind, &t);
                let (o, _, leave) = self.body(b, ind + 1, live && c2 != C::False, id);
                if c2 != C::False { outs.extend(o); }
                if c2 != C::True || leave { outs.insert(Out::Fall); }
            },
            S::List(k, b) => {
                self.put(ind, ["for(var/i in x)", "for(var/datum/i as anything in x)", "for(var/k, v in x)", "for(var/obj/o)"][*k as usize]);
                let (o, _, _) = self.body(b, ind + 1, live, id);
                outs.extend(o);
                outs.insert(Out::Fall);
            },
            S::Range(a, z, step, form, b) => {
                let (a2, z2) = (if *a == i32::MAX { "x".into() } else { a.to_string() }, z.to_string());
                let st = match step { 0 => "".to_owned(), &i32::MAX => " step x".to_owned(), n => format!(" step {n}") };
                let t = match form { 0 => format!("for(var/i in {a2} to {z2}{st})"), 1 => format!("for(var/i = {a2} to {z2}{st})"), 2 => format!("for(x in {a2} to {z2}{st})"), _ => format!("for(x = {a2} to {z2}{st})") };
                self.put(ind, &t);
                let at = self.line;
                let known = *a != i32::MAX && *step != i32::MAX;
                let up = *step >= 0;
                let some = if up { a <= z } else { a >= z };
                let may = !known || some;
                if live && may { self.ran.insert((at, What::Body)); }
                let (o, again, leave) = self.body(b, ind + 1, live && may, id);
                if may { outs.extend(o); }
                if !known || !some || again || leave { outs.insert(Out::Fall); }
            },
            S::Spawn(b) => {
                let t = *self.r.pick(&["spawn(1)", "spawn", "spawn(x)", "spawn()"]);
                self.put(ind, t);
                let l = std::mem::take(&mut self.loops);
                self.block(b, ind + 1, live);
                self.loops = l;
                outs.insert(Out::Fall);
            },
            S::Switch(cs, e) => {
                self.put(ind, "switch(x)");
                for (i, b) in cs.iter().enumerate() {
                    let t = match self.r.below(3) { 0 => format!("if({i})"), 1 => format!("if({}, {})", i * 100 + 50, i * 100 + 51), _ => format!("if({} to {})", i * 100 + 60, i * 100 + 70) };
                    self.put(ind + 1, &t);
                    outs.extend(self.block(b, ind + 2, live));
                }
                match e { Some(b) => { self.put(ind + 1, "else"); outs.extend(self.block(b, ind + 2, live)); }, None => { outs.insert(Out::Fall); } }
            },
            S::Try(a, b) => {
                self.put(ind, "try");
                let mut o = self.block(a, ind + 1, live);
                // anything can fail at run time
                o.remove(&Out::Throw);
                outs.extend(o);
                let t = *self.r.pick(&["catch", "catch(var/e)", "catch(var/exception/e)"]);
                self.put(ind, t);
                outs.extend(self.block(b, ind + 1, live));
            },
            S::Label(l, inside, s) => {
                self.put(ind, &format!("L{l}:"));
                let at = self.line + 1;
                if live { self.ran.insert((at, What::Stmt)); }
                outs = self.looped(s, if *inside { ind + 1 } else { ind }, live, id);
            },
        }
        outs
    }
}

fn judge(cx: &mut Cx, r: &mut Rng, bodies: &[Vec<S>]) {
    let mut run = Run { r, text: "/proc/foo(a)\n\treturn a\n".into(), line: 2, ran: Default::default(), must: Default::default(), loops: vec![], next: 0, early: false };
    for (i, b) in bodies.iter().enumerate() {
        run.put(0, &format!("{}p{i}(x)", if i % 2 == 1 { "/datum/t/proc/" } else { "/proc/" }));
        run.block(b, 1, true);
    }
    let Run { text, ran, must, early, .. } = run;
    cx.input(text.clone());
    cx.sig(&text);
    let ctx = match catch(|| parse_a_file_for_test(text.clone())) { Ok(c) => c, Err(m) => { cx.violate("panic", m); return; } };
    let all = diags(&ctx).join("\n");
    let mut reported: BTreeSet<usize> = BTreeSet::new();
    let mut n = 0;
    let errs = ctx.errors();
    for e in errs.iter() {
        let l = e.location().line as usize;
        let d = e.description();
        let what = if e.errortype() == Some("unreachable_code") {
            if d.contains("unreachable if block") { What::ElseIf } else { reported.insert(l); What::Stmt }
        } else if d.contains("without ever reaching condition") { What::DoCond }
        else if d.contains("body is never reached") { What::Body }
        else {
            if e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error { cx.inconclusive(&format!("does not parse: {d}: {}", text.lines().nth(l - 1).unwrap_or(""))); return; }
            continue;
        };
        n += 1;
        cx.count(match what { What::Stmt => "reports of unreachable statements", What::ElseIf => "reports of unreachable else-ifs", What::DoCond => "reports of conditions never reached", What::Body => "reports of loop bodies never reached" }, 1);
        ensure!(cx, !ran.contains(&(l, what)), "runs", "line {l} is reported ({d}) but it does run\n{all}");
    }
    for (l, why) in &must {
        cx.count("statements directly after an exit", 1);
        ensure!(cx, reported.contains(l), "missed", "line {l} directly follows an unconditional exit ({why}), but is not reported\n{all}");
    }
    cx.count("statements that run", ran.len() as u64);
    if n > 0 && early { cx.nontrivial(); }
}

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let mut g = Gen { next: 0, budget: 4 + cx.size as i32 / 3 };
    let bodies: Vec<Vec<S>> = (0..1 + r.below(3)).map(|_| { let d = 1 + r.below(2 + cx.size / 34); g.budget = 4 + cx.size as i32 / 3; g.block(&mut r, d, &[]) }).collect();
    judge(cx, &mut r, &bodies);
}

/// Every loop, branch or handler around every way out, followed by a statement, in every kind of loop.
fn directed(cx: &mut Cx) {
    let outs = |l: &[usize]| -> Vec<Vec<S>> {
        let ret = || S::Return("return");
        let iff = |s: S| S::If(vec![(C::Any, vec![s])], None);
        let both = |a: S, b: S| S::If(vec![(C::Any, vec![a])], Some(vec![b]));
        let mut v = vec![vec![ret()], vec![S::Return("CRASH(\"x\")")], vec![iff(ret())], vec![both(ret(), ret())], vec![S::Throw], vec![S::Plain("x = 1")]];
        let mut js: Vec<fn(Option<usize>) -> S> = vec![]; js.push(S::Break); js.push(S::Continue);
        for j in js {
            for t in std::iter::once(None).chain(l.iter().map(|x| Some(*x))) {
                v.push(vec![j(t)]);
                v.push(vec![iff(j(t)), ret()]);
                v.push(vec![both(j(t), j(t))]);
                v.push(vec![both(j(t), ret())]);
                v.push(vec![both(ret(), j(t))]);
                v.push(vec![S::While(C::Any, vec![j(t)]), ret()]);
                v.push(vec![S::Try(vec![j(t)], vec![]), ret()].into_iter().map(|s| if let S::Try(a, _) = s { S::Try(a, vec![S::Plain("x = 1")]) } else { s }).collect());
                v.push(vec![S::Try(vec![S::Plain("foo(x)")], vec![j(t)]), ret()]);
                v.push(vec![S::Switch(vec![vec![j(t)], vec![ret()]], Some(vec![ret()]))]);
                v.push(vec![S::Switch(vec![vec![j(t)]], None), ret()]);
                v.push(vec![S::Label(77, true, Box::new(S::For(None, vec![j(t)]))), ret()]);
                v.push(vec![both(S::If(vec![(C::Any, vec![j(t)])], None), S::Break(None)), S::Break(None)]);
                v.push(vec![S::If(vec![(C::Any, vec![iff(j(t)), S::Break(None)])], Some(vec![S::Break(None)]))]);
                v.push(vec![S::If(vec![(C::Any, vec![iff(j(t)), S::Continue(None)])], Some(vec![S::Continue(None)]))]);
            }
        }
        v
    };
    let wrap = |k: usize, b: Vec<S>| -> S {
        match k {
            0 => S::While(C::Any, b), 1 => S::DoWhile(C::Any, b), 2 => S::For(None, b), 3 => S::List(0, b),
            4 => S::Range(1, 3, 0, 0, b), 5 => S::Range(3, 1, 0, 1, b), 6 => S::Range(1, 3, -1, 2, b), 7 => S::Range(3, 1, 1, 3, b),
            8 => S::Range(3, 1, -1, 0, b), 9 => S::Range(1, 3, i32::MAX, 0, b), 10 => S::DoWhile(C::True, b), 11 => S::While(C::True, b),
            12 => S::Range(2, 2, 0, 0, b), 13 => S::Range(3, 1, i32::MAX, 1, b), 14 => S::For(Some(C::False), b),
            _ => S::DoWhile(C::False, b),
        }
    };
    let mut r = Rng::new(cx.seed);
    for outer in 0..16 {
        for o in outs(&[1]) {
            judge(cx, &mut r, &[vec![S::Label(1, outer % 2 == 0, Box::new(wrap(outer, o.clone()))), S::Plain("x = 2")]]);
            for inner in 0..16 {
                if !cx.thorough && !r.chance(1, 5) { continue; }
                judge(cx, &mut r, &[vec![S::Label(1, outer % 2 == 1, Box::new(wrap(outer, vec![wrap(inner, o.clone()), S::Return("return x")]))), S::Plain("x = 2")]]);
                judge(cx, &mut r, &[vec![S::Label(1, outer % 2 == 1, Box::new(wrap(outer, vec![S::Label(2, true, Box::new(wrap(inner, o.clone()))), S::Plain("x = 3")]))), S::Plain("x = 2")]]);
            }
        }
    }
    // each constant condition
    for (c, list) in [(C::True, TRUES), (C::False, FALSES), (C::Any, ANYS)] {
        for _ in 0..list.len() * 6 {
            let b = |s: &'static str| vec![S::Plain(s)];
            judge(cx, &mut r, &[vec![S::If(vec![(c, b("x = 1")), (C::Any, b("x = 2"))], Some(b("x = 3")))],
                vec![S::If(vec![(c, vec![S::Return("return")])], Some(b("x = 1"))), S::Plain("x = 2")],
                vec![S::If(vec![(c, b("x = 1"))], Some(vec![S::Return("return")])), S::Plain("x = 2")]]);
        }
    }
}
