use crate::dm_util::diags;
use crate::ensure;
use crate::fw::*;
use crate::gen_dc::place;
use crate::rng::Rng;
use dreamchecker::test_helpers::parse_a_file_for_test;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C33",
    quick: 30000,
    thorough: 600000,
    case,
    directed: &[("every form of access over every kind of declared type", forms)],
    rule: "a case is a tree of up to seven types with typed, list-typed and shared vars and procs with declared return types, global vars and procs, and procs whose bodies use variables, fields, procs and types through chains of accesses (of locals in and out of scope, parameters, own and inherited members, globals, casts, calls, list elements, path and scope operators) at random places; the reports that name a generated name are compared, per proc, with a model that tracks declared types and scopes; distinct by text, non-trivial when an undefined use is reported in a program that also uses the same name where it is defined",
    assumptions: &[
        "an override without a return type of its own is taken to return something unknown: no further member of it is used",
        "path-valued local variables, the value of `||` and `&&`, elements of things that are not lists and the keys of list literals are not used as receivers",
    ],
    ..DEFAULT
};

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ty { None, T(usize), L(Box<Ty>), B(&'static str), Unknown }
use Ty::*;

#[derive(Clone, Debug)]
enum Ret { Nothing, Path(Ty), As(Ty), Arg, ArgType, ArgElem, ArgOr(Ty), Null }
#[derive(Clone, Debug)]
struct Proc { ty: Option<usize>, name: String, ret: Ret, over: bool }

struct World {
    path: Vec<String>, up: Vec<Option<usize>>,
    vars: BTreeMap<(Option<usize>, String), (Ty, bool)>,
    procs: Vec<Proc>,
    fresh: usize,
    /// names used where they are defined
    good: BTreeSet<String>,
    uses: u64,
}
impl World {
    fn chain(&self, t: usize) -> impl Iterator<Item = usize> + '_ { std::iter::successors(Some(t), |x| self.up[*x]) }
    fn comparable(&self, a: usize, b: usize) -> bool { self.chain(a).any(|x| x == b) || self.chain(b).any(|x| x == a) }
    fn member(&self, t: usize, n: &str) -> Option<Ty> { self.chain(t).find_map(|t| self.vars.get(&(Some(t), n.to_owned())).map(|v| v.0.clone())) }
    fn global(&self, n: &str) -> Option<Ty> { self.vars.get(&(Option::None, n.to_owned())).map(|v| v.0.clone()) }
    fn method(&self, t: usize, n: &str) -> Option<&Proc> { self.chain(t).find_map(|t| self.procs.iter().rfind(|p| p.ty == Some(t) && p.name == n)) }
    fn gproc(&self, n: &str) -> Option<&Proc> { self.procs.iter().rfind(|p| p.ty.is_none() && p.name == n) }
    /// the declaration of a proc
    fn declared(&self, p: &Proc) -> Ret {
        if !p.over { return p.ret.clone(); }
        match self.chain(p.ty.unwrap()).find_map(|t| self.procs.iter().find(|q| q.ty == Some(t) && q.name == p.name && !q.over)) {
            Some(q) => if let Ret::As(t) = &q.ret { Ret::As(t.clone()) } else { Ret::Path(Unknown) },
            Option::None => Ret::Path(Unknown),
        }
    }
    fn decl(&self, t: &Ty) -> String {
        match t { None => String::new(), T(i) => format!("{}/", &self.path[*i][1..]), L(k) => format!("list/{}", self.decl(k)), B(p) => format!("{}/", &p[1..]), Unknown => unreachable!() }
    }
    fn abs(&self, t: &Ty) -> String { let s = self.decl(t); format!("/{}", &s[..s.len() - 1]) }
    fn zz(&mut self) -> String { self.fresh += 1; format!("zz{}", self.fresh) }
    fn ty(&self, r: &mut Rng, depth: usize) -> Ty {
        match r.below(7) { 0 if depth > 0 => None, 1 | 2 => L(Box::new(if depth > 0 { self.ty(r, depth - 1) } else { T(r.below(self.path.len())) })), _ => T(r.below(self.path.len())) }
    }
    fn shown(&self, t: &Ty) -> String { match t { T(i) => self.path[*i].clone(), L(_) => "/list".into(), B(p) => p.to_string(), _ => unreachable!() } }
}

/// One proc body: what is in scope and what is expected.
struct Body<'w> { w: &'w mut World, host: Option<usize>, scope: Vec<(String, Ty)>, gone: Vec<String>, want: BTreeSet<String>, form: Option<usize> }

fn quote(s: &str) -> String { format!("{s:?}") }

impl Body<'_> {
    fn lookup(&self, n: &str) -> Option<Ty> {
        if let Some((_, t)) = self.scope.iter().rev().find(|(x, _)| x == n) { return Some(t.clone()); }
        if let Some(t) = self.host.and_then(|h| self.w.member(h, n)) { return Some(t); }
        self.w.global(n)
    }
    fn say(&mut self, s: String) { self.want.insert(s); }

    fn names(&self) -> Vec<String> { let mut v: Vec<String> = self.w.vars.keys().map(|k| k.1.clone()).collect(); v.dedup(); v }
    fn pnames(&self) -> Vec<String> { self.w.procs.iter().map(|k| k.name.clone()).collect() }

    fn ident(&mut self, r: &mut Rng, n: &str) -> (String, Ty) {
        let _ = r;
        match self.lookup(n) {
            Some(t) => { self.w.good.insert(n.to_owned()); (n.to_owned(), t) },
            Option::None => { self.say(format!("undefined var: {}", quote(n))); (n.to_owned(), Unknown) },
        }
    }

    /// Where a chain starts.
    fn base(&mut self, r: &mut Rng, depth: usize) -> (String, Ty) {
        let f = match self.form { Some(f) => f, Option::None => r.below(BASES) };
        match f {
            0 | 1 | 2 => { let n = if self.scope.is_empty() { self.w.zz() } else { r.pick(&self.scope).0.clone() }; self.ident(r, &n) },
            3 => { // own and other types' fields
                let ns = self.names(); let n = r.pick(&ns).clone();
                self.ident(r, &n)
            },
            4 => match self.host { Some(h) => ("src".into(), T(h)), Option::None => { self.say("undefined var: \"src\"".into()); ("src".into(), Unknown) } },
            5 => { let ns = self.names(); let n = r.pick(&ns).clone();
                match self.w.global(&n) { Some(t) => { self.w.good.insert(n.clone()); (format!("(::{n})"), t) }, Option::None => { self.say(format!("undefined global var: {}", quote(&n))); (format!("(::{n})"), Unknown) } } },
            6 => { let ns = self.names(); let n = r.pick(&ns).clone();
                match self.w.global(&n) { Some(t) => { self.w.good.insert(n.clone()); (format!("global.{n}"), t) }, Option::None => { self.say(format!("undefined field: {} on (global)", quote(&n))); (format!("global.{n}"), Unknown) } } },
            7 => { let t = T(r.below(self.w.path.len())); let a = self.arg(r, depth); (format!("astype({a}, {})", self.w.abs(&t)), t) },
            8 if depth > 0 => { // a ternary of two values of one type
                let (a, t) = self.chain(r, depth - 1);
                if t == Unknown { return (format!("({a})"), Unknown); }
                if r.bool() && a.split(' ').next() != Some("new") { // an operator: lists stay what they are, anything else is of no type
                    let op = *r.pick(&["+", "-", "|", "&", "^"]);
                    let b = self.arg(r, depth - 1);
                    let list = matches!(t, L(_)) || t == B("/list");
                    return (format!("({a} {op} {b})"), if list { t } else { None });
                }
                let same: Vec<String> = self.scope.iter().filter(|s| s.1 == t && self.lookup(&s.0).as_ref() == Some(&t)).map(|s| s.0.clone()).collect();
                let b = if same.is_empty() || r.chance(1, 3) { "null".to_owned() } else { r.pick(&same).clone() };
                (format!("(x ? {a} : {b})"), t)
            },
            9 | 10 => { let ns = self.pnames(); let n = if r.chance(1, 8) { self.w.zz() } else { r.pick(&ns).clone() };
                let p = self.host.and_then(|h| self.w.method(h, &n)).or_else(|| self.w.gproc(&n)).cloned();
                match p {
                    Some(p) => { self.w.good.insert(n.clone()); self.call(r, n, &p, depth) },
                    Option::None => { let on = self.host.map_or("(global)".to_owned(), |h| self.w.path[h].clone()); self.say(format!("undefined proc: {} on {on}", quote(&n))); let a = self.args(r, depth); (format!("{n}({a})"), Unknown) },
                } },
            11 => { let ns = self.pnames(); let n = if r.chance(1, 8) { self.w.zz() } else { r.pick(&ns).clone() };
                let scoped = r.chance(1, 2);
                let pre = if scoped { "::" } else { "global." };
                let (s, t) = match self.w.gproc(&n).cloned() {
                    Some(p) => { self.w.good.insert(n.clone()); self.call(r, format!("{pre}{n}"), &p, depth) },
                    Option::None => { self.say(if scoped { format!("undefined global proc: {}", quote(&n)) } else { format!("undefined proc: {} on (global)", quote(&n)) }); let a = self.args(r, depth); (format!("{pre}{n}({a})"), Unknown) },
                };
                (if scoped { format!("({s})") } else { s }, t) },
            12 => ("usr".into(), B("/mob")),
            13 => ("args".into(), B("/list")),
            14 => { // the initial value of a var of a type
                let t = r.below(self.w.path.len());
                let ns = self.names(); let n = self.pick_member(r, t, &ns);
                match self.w.member(t, &n) {
                    Some(ty) => { self.w.good.insert(n.clone()); (format!("{}::{n}", self.w.path[t]), ty) },
                    Option::None => { self.say(format!("undefined field: {} on {}", quote(&n), self.w.path[t])); (format!("{}::{n}", self.w.path[t]), Unknown) },
                } },
            15 => { // a reference to a proc of a type
                let t = r.below(self.w.path.len());
                let ns = self.pnames(); let n = r.pick(&ns).clone();
                if self.w.gproc(&n).is_some() { return (format!("{}", self.w.path[t]), Unknown); }
                if self.w.method(t, &n).is_none() { self.say(format!("undefined proc: {} on {}", quote(&n), self.w.path[t])); } else { self.w.good.insert(n.clone()); }
                (format!("{}::{n}()", self.w.path[t]), Unknown) },
            16 => { let z = self.w.zz(); let p = if r.chance(1, 2) { format!("/datum/{z}") } else { format!("{}/{z}", r.pick(&self.w.path)) };
                self.say(format!("failed to resolve path {p}"));
                (match r.below(3) { 0 => format!("new {p}()"), 1 => format!("new {p}"), _ => p }, Unknown) },
            17 => { // the type of a new object comes from a var
                let (mut s, mut t) = { let n = if self.scope.is_empty() || r.chance(1, 5) { let ns = self.names(); r.pick(&ns).clone() } else { r.pick(&self.scope).0.clone() }; self.ident(r, &n) };
                for _ in 0..r.below(3) {
                    if t == Unknown { break; }
                    (s, t) = self.field(r, s, t, ".");
                }
                let a = self.args(r, depth);
                (format!("new {s}({a})"), Unknown) },
            18 => { // a var whose scope has ended
                let n = if self.gone.is_empty() { self.w.zz() } else { r.pick(&self.gone).clone() };
                self.ident(r, &n) },
            _ => { let n = self.w.zz(); self.ident(r, &n) },
        }
    }

    fn pick_member(&mut self, r: &mut Rng, t: usize, ns: &[String]) -> String {
        let of: Vec<&String> = ns.iter().filter(|n| self.w.member(t, n).is_some()).collect();
        let sub: Vec<&String> = ns.iter().filter(|n| self.w.member(t, n).is_none() && self.w.global(n).is_none()).collect();
        if !of.is_empty() && r.chance(4, 5) { (*r.pick(&of)).clone() }
        else if !sub.is_empty() && r.chance(4, 5) { (*r.pick(&sub)).clone() }
        else { self.w.zz() }
    }

    fn arg(&mut self, r: &mut Rng, depth: usize) -> String {
        if depth > 0 && r.chance(1, 2) { return self.chain(r, depth - 1).0; }
        match r.below(4) { 0 => "1".into(), 1 => "x".into(), 2 => "null".into(), _ => "\"s\"".into() }
    }
    fn args(&mut self, r: &mut Rng, depth: usize) -> String { (0..r.below(3)).map(|_| self.arg(r, depth)).collect::<Vec<_>>().join(", ") }

    /// A call of a proc that exists, and what it returns.
    fn call(&mut self, r: &mut Rng, callee: String, p: &Proc, depth: usize) -> (String, Ty) {
        let kw = r.chance(1, 4);
        let pre = if kw { "arg_a = " } else { "" };
        let ret = self.w.declared(p);
        let form = self.form.take();
        let (a, t) = match ret {
            Ret::Nothing | Ret::Null => (if p.over || r.chance(1, 2) { self.args(r, depth) } else { String::new() }, None),
            Ret::Path(t) | Ret::As(t) => (self.args(r, depth), t),
            Ret::Arg | Ret::ArgOr(_) => {
                let other = if let Ret::ArgOr(t) = ret { t } else { None };
                match r.below(4) {
                    0 => { let a = self.arg(r, 0); (format!("{pre}{a}"), other) },
                    1 if other != None => (String::new(), other),
                    _ => { let t = T(r.below(self.w.path.len())); (format!("{pre}{}", self.w.abs(&t)), t) },
                }
            },
            Ret::ArgType | Ret::ArgElem => {
                let (a, mut t) = if depth > 0 { self.chain(r, depth - 1) } else if let Some((n, _)) = self.scope.last().cloned() { self.ident(r, &n) } else { ("x".into(), None) };
                if matches!(ret, Ret::ArgElem) { t = match t { L(k) => *k, B(_) | T(_) => Unknown, t => t }; }
                (format!("{pre}{a}"), t)
            },
        };
        self.form = form;
        (format!("{callee}({a})"), t)
    }

    /// One field access on a known receiver.
    fn field(&mut self, r: &mut Rng, s: String, t: Ty, op: &str) -> (String, Ty) {
        let ns = self.names();
        match &t {
            T(i) => {
                let n = self.pick_member(r, *i, &ns);
                let n = if r.chance(1, 20) { let g: Vec<&String> = ns.iter().filter(|n| self.w.global(n).is_some()).collect(); if g.is_empty() || op == "::" { n } else { (*r.pick(&g)).clone() } } else { n };
                match self.w.member(*i, &n) {
                    Some(ty) => { self.w.uses += 1; self.w.good.insert(n.clone()); (format!("{s}{op}{n}"), ty) },
                    Option::None => { self.say(format!("undefined field: {} on {}", quote(&n), self.w.path[*i])); (format!("{s}{op}{n}"), Unknown) },
                }
            },
            L(_) | B(_) => { let n = if r.chance(1, 2) { self.w.zz() } else { r.pick(&ns).clone() }; self.say(format!("undefined field: {} on {}", quote(&n), self.w.shown(&t))); (format!("{s}{op}{n}"), Unknown) },
            None => { let n = if r.chance(1, 2) { self.w.zz() } else { r.pick(&ns).clone() }; self.say(format!("field access requires static type: {}", quote(&n))); (format!("{s}{op}{n}"), Unknown) },
            Unknown => (s, Unknown),
        }
    }

    /// A chain of accesses and the declared type of its value.
    fn chain(&mut self, r: &mut Rng, depth: usize) -> (String, Ty) {
        let (mut s, mut t) = self.base(r, depth);
        self.form = Option::None;
        for _ in 0..r.below(4) {
            if t == Unknown || s.starts_with("new ") { break; }
            let op = *r.pick(&[".", ".", ".", ".", "?."]);
            (s, t) = match (r.below(10), &t) {
                (0..=2, L(k)) => (format!("{s}{}[{}]", if r.chance(1, 6) { "?" } else { "" }, self.arg(r, depth.min(1))), (**k).clone()),
                (0..=3, T(i)) => { // a method
                    let i = *i;
                    let ns: Vec<String> = self.pnames();
                    let of: Vec<&String> = ns.iter().filter(|n| self.w.method(i, n).is_some()).collect();
                    let n = if !of.is_empty() && r.chance(4, 5) { (*r.pick(&of)).clone() } else if r.chance(3, 4) { r.pick(&ns).clone() } else { self.w.zz() };
                    match self.w.method(i, &n).cloned() {
                        Some(p) => { self.w.uses += 1; self.w.good.insert(n.clone()); self.call(r, format!("{s}{op}{n}"), &p, depth) },
                        Option::None => { self.say(format!("undefined proc: {} on {}", quote(&n), self.w.path[i])); let a = self.args(r, depth.min(1)); (format!("{s}{op}{n}({a})"), Unknown) },
                    }
                },
                (3, L(_) | B(_)) => { let n = self.w.zz(); self.say(format!("undefined proc: {} on {}", quote(&n), self.w.shown(&t))); let a = self.args(r, depth.min(1)); (format!("{s}{op}{n}({a})"), Unknown) },
                (0..=2, None) => { let n = if r.chance(1, 2) { self.w.zz() } else { let ns = self.pnames(); r.pick(&ns).clone() }; self.say(format!("proc call requires static type: {}", quote(&n))); let a = self.args(r, depth.min(1)); (format!("{s}{op}{n}({a})"), Unknown) },
                (4, _) => { let n = self.w.zz(); // not checked
                    (match r.below(2) { 0 => format!("{s}:{n}"), _ => { let a = self.args(r, depth.min(1)); format!("{s}:{n}({a})") } }, None) },
                (5, T(i)) => { // the declared value
                    let i = *i;
                    if r.chance(2, 3) { self.field(r, s, t.clone(), "::") }
                    else {
                        let ns: Vec<String> = self.pnames().into_iter().filter(|n| self.w.gproc(n).is_none()).collect();
                        let n = if ns.is_empty() { self.w.zz() } else { r.pick(&ns).clone() };
                        if self.w.method(i, &n).is_none() { self.say(format!("undefined proc: {} on {}", quote(&n), self.w.path[i])); }
                        (format!("{s}::{n}()"), Unknown)
                    }
                },
                _ => self.field(r, s, t.clone(), op),
            };
        }
        (s, t)
    }

    fn local(&mut self, r: &mut Rng) -> (String, String, Ty) {
        let t = self.w.ty(r, 1);
        let n = if r.chance(1, 5) { let ns = self.names(); r.pick(&ns).clone() } else if r.chance(1, 6) && !self.scope.is_empty() { r.pick(&self.scope).0.clone() } else { self.w.fresh += 1; format!("l_{}", self.w.fresh) };
        (format!("var/{}{n}", self.w.decl(&t)), n, t)
    }

    fn site(&mut self, r: &mut Rng) -> Vec<String> {
        let (e, _) = self.chain(r, 2);
        if r.chance(1, 5) && !e.starts_with("new ") && !e.ends_with(')') && !e.contains("::") { return vec![format!("{e} {} 5", r.pick(&["=", "+=", "|=", "||="]))]; }
        place(r, &e, 1, true)
    }

    fn block(&mut self, r: &mut Rng, depth: usize, form: Option<usize>) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let ind = |b: Vec<String>| b.into_iter().map(|s| format!("\t{s}")).collect::<Vec<_>>();
        for _ in 0..r.below(3) {
            let (d, n, t) = self.local(r);
            let kept = self.want.clone();
            let init = if r.chance(1, 3) { let (e, _) = self.chain(r, 1); if e.starts_with("/") { self.want = kept; String::new() } else { format!(" = {e}") } } else { String::new() };
            // the value is evaluated before the var exists
            if r.chance(1, 8) { let z = self.w.zz(); let l = r.chance(1, 2); self.say(format!("undefined type: /datum/{z}")); v.push(format!("var/{}datum/{z}/l_{z}", if l { "list/" } else { "" })); }
            let d = if r.chance(1, 10) { d.replacen("var/", "var/static/", 1) } else { d };
            v.push(format!("{d}{init}"));
            self.scope.push((n, t));
        }
        self.form = form;
        if depth > 0 && r.chance(2, 3) {
            let before = self.scope.len();
            let fm = self.form.take();
            let mut head = match r.below(9) {
                0 => vec!["if(x)".to_owned()],
                1 => vec!["if(x)".to_owned(), "\tx = 2".into(), "else".into()],
                2 => { let (d, n, t) = self.local(r); let (s, _) = self.chain(r, 1); self.scope.push((n, t)); vec![format!("for({d} in ({s}))")] },
                3 => { let (d, n, t) = self.local(r); let (s, _) = self.chain(r, 1); self.scope.push((n, t)); vec![format!("for({d} = ({s}), x, x++)")] },
                4 => { self.w.fresh += 1; let n = format!("l_{}", self.w.fresh); self.scope.push((n.clone(), B("/exception"))); vec!["try".into(), "\tx = 1".into(), format!("catch(var/exception/{n})")] },
                5 => { let z = self.w.zz(); self.say(format!("undefined var: {}", quote(&z))); vec![if r.chance(1, 2) { format!("for({z} in x)") } else { format!("for({z} = 1 to x)") }] },
                6 => vec!["while(x)".into()],
                7 => { let n = if r.chance(1, 2) && !self.scope.is_empty() { r.pick(&self.scope).0.clone() } else { let ns = self.names(); r.pick(&ns).clone() }; let (n, _) = self.ident(r, &n); vec![if r.chance(1, 2) { format!("for({n} in x)") } else { format!("for({n} = 1 to x)") }] },
                _ => vec!["switch(x)".into(), "\tif(1)".into()],
            };
            let sw = head[0].starts_with("switch");
            let b = self.block(r, depth - 1, fm);
            let b = ind(b);
            head.extend(if sw { ind(b) } else { b });
            v.extend(head);
            for (n, _) in self.scope.split_off(before) { self.gone.push(n); }
            self.gone.retain(|n| !self.scope.iter().any(|s| &s.0 == n));
            if r.chance(1, 2) { self.form = if r.chance(1, 2) { Some(18) } else { Option::None }; let s = self.site(r); v.extend(s); }
        } else {
            let s = self.site(r); v.extend(s);
        }
        v
    }
}

const BASES: usize = 20;

fn case(cx: &mut Cx) {
    let mut r = Rng::new(cx.rng.u64());
    let n = 2 + r.below(2 + cx.size / 25);
    let hosts = 1 + r.below(2 + cx.size / 20);
    build(cx, &mut r, n, hosts, Option::None);
}
fn forms(cx: &mut Cx) {
    let mut r = Rng::new(cx.seed);
    for f in 0..BASES { for n in 1..5 { for _ in 0..6 { build(cx, &mut r, n, 3, Some(f)); } } }
}

fn build(cx: &mut Cx, r: &mut Rng, n: usize, hosts: usize, form: Option<usize>) {
    let mut w = World { path: vec!["/datum/t0".into()], up: vec![Option::None], vars: BTreeMap::new(), procs: vec![], fresh: 0, good: BTreeSet::new(), uses: 0 };
    for i in 1..n {
        if r.chance(1, 4) { w.path.push(format!("/datum/t{i}")); w.up.push(Option::None); }
        else { let p = r.below(i); let s = format!("{}/t{i}", w.path[p]); w.path.push(s); w.up.push(Some(p)); }
    }
    let mut text = String::new();
    // names may belong to several unrelated types
    for i in 0..2 + n {
        let name = format!("m_{i}");
        for _ in 0..1 + r.below(2) {
            let t = r.below(n);
            if w.vars.keys().any(|(o, x)| *x == name && o.is_some_and(|o| w.comparable(o, t))) { continue; }
            let ty = w.ty(r, 2);
            w.vars.insert((Some(t), name.clone()), (ty, r.chance(1, 6)));
        }
    }
    for i in 0..1 + r.below(3) { let ty = w.ty(r, 1); w.vars.insert((Option::None, format!("g_{i}")), (ty, false)); }
    for i in 0..2 + r.below(n + 2) {
        let name = format!("p_{i}");
        for _ in 0..1 + r.below(2) {
            let t = r.below(n);
            if w.procs.iter().any(|p| p.name == name && p.ty.is_some_and(|o| w.comparable(o, t))) { continue; }
            let ret = ret(r, &w);
            w.procs.push(Proc { ty: Some(t), name: name.clone(), ret, over: false });
            for u in 0..n { if u != t && w.chain(u).any(|x| x == t) && r.chance(1, 4) { w.procs.push(Proc { ty: Some(u), name: name.clone(), ret: Ret::Nothing, over: true }); } }
        }
    }
    for i in 0..1 + r.below(3) { let ret = ret(r, &w); w.procs.push(Proc { ty: Option::None, name: format!("gp_{i}"), ret, over: false }); }

    // the declarations, in any order
    let mut decls: Vec<Vec<String>> = vec![vec!["/proc/foo(a)".into(), "\treturn a".into()], vec!["/datum/maker".into(), "\tvar/kind".into()]];
    for p in &w.path { decls.push(vec![p.clone(), format!("\tvar/here{}", p.rsplit('/').next().unwrap())]); }
    for ((t, name), (ty, shared)) in &w.vars {
        let d = w.decl(ty);
        match t {
            Option::None => decls.push(vec![format!("/var/{}{d}{name}", if r.chance(1, 4) { "global/" } else { "" })]),
            Some(t) if r.chance(1, 2) => decls.push(vec![w.path[*t].clone(), format!("\tvar/{}{d}{name}", if *shared { "static/" } else { "" })]),
            Some(t) => decls.push(vec![format!("{}/var/{}{d}{name}", w.path[*t], if *shared { "static/" } else { "" })]),
        }
    }
    for p in &w.procs {
        let on = p.ty.map_or(String::new(), |t| w.path[t].clone());
        let ar = match &p.ret { Ret::Arg | Ret::ArgType | Ret::ArgElem | Ret::ArgOr(_) => "arg_a, arg_b", _ => "arg_a, arg_b, arg_c" };
        let mut v = vec![format!("{on}/{}{}({ar}){}", if p.over { "" } else { "proc/" }, p.name, if let Ret::As(t) = &p.ret { format!(" as {}", w.abs(t)) } else { String::new() })];
        let set = match &p.ret {
            Ret::Nothing | Ret::As(_) => Option::None,
            Ret::Null => Some("null".to_owned()),
            Ret::Path(t) => Some(w.abs(t)),
            Ret::Arg => Some("arg_a".into()), Ret::ArgType => Some("arg_a.type".into()), Ret::ArgElem => Some("arg_a[_].type".into()),
            Ret::ArgOr(t) => Some(format!("arg_a || {}", w.abs(t))),
        };
        if let Some(s) = set { v.push(format!("\tset SpacemanDMM_return_type = {s}")); }
        v.push("\treturn arg_a".into());
        decls.push(v);
    }
    let mut want: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    for h in 0..hosts {
        let host = if r.chance(1, 6) { Option::None } else { Some(r.below(n)) };
        let mut params = vec!["x".to_owned()];
        let mut b = Body { w: &mut w, host, scope: vec![], gone: vec![], want: BTreeSet::new(), form: Option::None };
        for i in 0..1 + r.below(4) {
            if r.chance(1, 15) { let z = b.w.zz(); b.say(format!("undefined type: /datum/{z}")); params.push(format!("datum/{z}/q_{z}")); continue; }
            let t = b.w.ty(r, 2);
            params.push(format!("{}{}q_{i}", if r.chance(1, 4) { "var/" } else { "" }, b.w.decl(&t)));
            b.scope.push((format!("q_{i}"), t));
        }
        if r.chance(1, 4) { let (e, _) = b.chain(r, 1); let k = r.below(params.len()); params[k] = format!("{} = {e}", params[k]); }
        let mut v = vec![format!("{}/proc/h_{h}({})", host.map_or(String::new(), |t| b.w.path[t].clone()), params.join(", "))];
        let dep = 1 + r.below(2);
        v.extend(b.block(r, dep, form).into_iter().map(|s| format!("\t{s}")));
        v.push(format!("\treturn {h}"));
        want.insert(h, b.want);
        decls.push(v);
    }
    r.shuffle(&mut decls);
    let mut starts: Vec<(usize, usize, Option<usize>)> = vec![];
    let mut line = 1;
    for d in &decls {
        let h = d[0].find("/proc/h_").map(|i| d[0][i + 8..].split('(').next().unwrap().parse().unwrap());
        starts.push((line, line + d.len(), h));
        line += d.len();
        for l in d { text += l; text.push('\n'); }
    }
    cx.input(&text);
    cx.sig(&text);
    let ctx = parse_a_file_for_test(text.clone());
    let all = diags(&ctx);
    let errs = ctx.errors();
    let mut got: BTreeMap<Option<usize>, BTreeSet<String>> = BTreeMap::new();
    for e in errs.iter() {
        if e.component() == dm::Component::Unspecified && e.severity() == dm::Severity::Error { cx.inconclusive("does not parse"); if std::env::var("DBG").is_ok() { eprintln!("{:?}\n{text}", all); }; return; }
        if e.component() == dm::Component::Unspecified { continue; }
        let d = e.description();
        let ours = d.starts_with("undefined type: ") || d.starts_with("failed to resolve path ") || {
            let q = d.split('"').nth(1).unwrap_or("");
            (d.starts_with("undefined ") || d.contains(" requires static type")) && (q == "src" || ["m_", "g_", "p_", "gp_", "l_", "q_", "zz"].iter().any(|p| q.starts_with(p)))
        };
        if !ours { continue; }
        if d.starts_with("failed to resolve path") && !d.contains("/zz") { continue; }
        let l = e.location().line as usize;
        let h = starts.iter().find(|s| s.0 <= l && l < s.1).and_then(|s| s.2);
        got.entry(h).or_default().insert(d.to_owned());
    }
    let empty = BTreeSet::new();
    for (h, w) in &want {
        let g = got.get(&Some(*h)).unwrap_or(&empty);
        let kind = |d: &str| d.split(':').next().unwrap().split(" on ").next().unwrap().split(" path").next().unwrap().replace(' ', "-");
        let missed: Vec<_> = w.difference(g).collect();
        let extra: Vec<_> = g.difference(w).collect();
        if let Some(m) = missed.first() { ensure!(cx, false, format!("not-reported-{}", kind(m)), "h_{h}: not reported: {missed:?}; reported though it exists: {extra:?}\nall: {all:?}"); }
        if let Some(m) = extra.first() { ensure!(cx, false, format!("reported-{}", kind(m)), "h_{h}: reported though it exists: {extra:?}\nall: {all:?}"); }
        for d in w { cx.count(&kind(d), 1); }
    }
    if let Some(g) = got.get(&Option::None) { ensure!(cx, false, "elsewhere", "reported outside any of the checked procs: {g:?}\nall: {all:?}"); }
    cx.count("uses of members that exist", w.uses);
    cx.count("procs", want.len() as u64);
    if want.values().flatten().any(|d| w.good.contains(d.split('"').nth(1).unwrap_or(""))) { cx.nontrivial(); }
}

fn ret(r: &mut Rng, w: &World) -> Ret {
    match r.below(10) { 0 => Ret::Nothing, 1 => Ret::Null, 2 | 3 => Ret::Path(w.ty(r, 0)), 4 => Ret::Path(T(r.below(w.path.len()))), 5 => Ret::As(T(r.below(w.path.len()))), 6 => Ret::Arg, 7 => Ret::ArgType, 8 => Ret::ArgElem, _ => Ret::ArgOr(T(r.below(w.path.len()))) }
}
