use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_dm::*;
use crate::rng::Rng;
use dm::constants::Constant;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C10",
    quick: 50000,
    thorough: 1500000,
    case,
    directed: &[("operators on a grid of operands", grid), ("rgb colours", rgb), ("trigonometry in degrees", trig)],
    rule: "a case is a random set of types and variables with constant initialisers referring to each other across types and in any order; every folded value and the set of lines that carry an error are compared with an own evaluator; distinct by source text, non-trivial when at least one variable refers to another one and at least five operators are folded",
    assumptions: &["operands of %, %%, bit and shift operators are non-negative integers below 2^24, where DM's integer truncation and IEEE agree", "numbers are compared exactly except below sin/cos/arcsin/arccos/**, where a relative error of 1e-4 is allowed", "rgb() colours are compared to the integer colour nearest the exact conversion, either neighbour accepted at ties"],
    ..DEFAULT
};

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Num(f32, bool),
    Str(String),
    Res(String),
    Path(Vec<String>, Vec<(String, V)>),
    List(Vec<(V, Option<V>)>),
    Call(String, Vec<(V, Option<V>)>),
    New(Option<Box<V>>, Option<Vec<(V, Option<V>)>>),
}
use V::*;

fn num(x: f32) -> V { Num(x, true) }
fn flag(b: bool) -> V { Num(b as u8 as f32, true) }

fn truth(v: &V) -> bool {
    match v { Null => false, Num(f, _) => *f != 0.0, Str(s) => !s.is_empty(), _ => true }
}

fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (Null, Null) => true,
        (Num(a, _), Num(b, _)) => a == b,
        (Str(a), Str(b)) | (Res(a), Res(b)) => a == b,
        (Path(a, va), Path(b, vb)) => a == b && va.is_empty() && vb.is_empty(),
        _ => false,
    }
}

fn same_args(a: &[(V, Option<V>)], c: &[(Constant, Option<Constant>)]) -> bool {
    a.len() == c.len() && a.iter().zip(c).all(|(x, y)| same(&x.0, &y.0) && match (&x.1, &y.1) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false })
}

fn same(v: &V, c: &Constant) -> bool {
    match (v, c) {
        (Null, Constant::Null(_)) => true,
        (Num(a, exact), Constant::Float(b)) => a == b || (a.is_nan() && b.is_nan()) || (!*exact && ((a - b).abs() <= 1e-4 * a.abs().max(b.abs()) || (a - b).abs() < 1e-5)),
        (Str(a), Constant::String(b)) | (Res(a), Constant::Resource(b)) => a.as_str() == b.as_str(),
        (Path(p, vars), Constant::Prefab(pop)) => {
            p.len() == pop.path.len() && p.iter().zip(pop.path.iter()).all(|(a, b)| a.as_str() == b.as_str())
                && vars.len() == pop.vars.len() && vars.iter().zip(pop.vars.iter()).all(|(a, b)| a.0.as_str() == b.0.as_str() && same(&a.1, b.1))
        },
        (List(a), Constant::List(c)) => same_args(a, c),
        (Call(n, a), Constant::Call(f, c)) => *n == f.to_string() && same_args(a, c),
        (New(t, a), Constant::New { type_, args }) => {
            (match (t, type_) {
                (None, None) => true,
                (Some(t), Some(p)) => same(t, &Constant::Prefab(p.clone())),
                _ => false,
            }) && match (a, args) { (None, None) => true, (Some(a), Some(c)) => same_args(a, c), _ => false }
        },
        _ => false,
    }
}

#[derive(Clone)]
struct VarDef {
    ty: usize,
    name: String,
    decl: bool,
    is_const: bool,
    /// written `/static` or `/tmp`: not folded unless const
    flags: &'static str,
    vtype: Vec<String>,
    e: Option<E>,
}

struct Model {
    paths: Vec<Vec<String>>,
    parent: Vec<Option<usize>>,
    vars: Vec<VarDef>,
    idx: BTreeMap<(usize, String), usize>,
}

/// Err(()) is any non-constant result.
type R = Result<V, ()>;

struct Eval<'a> {
    m: &'a Model,
    memo: BTreeMap<usize, Option<R>>,
    ops: u64,
    refs: u64,
    cycles: u64,
}

impl<'a> Eval<'a> {
    fn declared(&self, mut t: usize, name: &str) -> Option<usize> {
        loop {
            if let Some(&i) = self.m.idx.get(&(t, name.to_owned())) {
                if self.m.vars[i].decl { return Some(i); }
            }
            t = self.m.parent[t]?;
        }
    }

    fn var(&mut self, i: usize, must_const: bool) -> R {
        let v = &self.m.vars[i];
        let decl = self.declared(v.ty, &v.name).ok_or(())?;
        let d = &self.m.vars[decl];
        if must_const && !d.is_const { return Err(()); }
        let done = matches!(self.memo.get(&i), Some(Some(Ok(_))));
        if !done {
            if d.flags.contains("static") && !d.is_const || d.flags.contains("tmp") && false { return if v.e.is_none() { Ok(Null) } else { Err(()) }; }
            
        }
        match self.memo.get(&i) {
            Some(Some(r)) => return r.clone(),
            Some(None) => { self.cycles += 1; return Err(()) },
            None => {},
        }
        self.memo.insert(i, None);
        let r = match &v.e {
            None => Ok(Null),
            Some(e) => self.expr(e, v.ty, &d.vtype),
        };
        self.memo.insert(i, Some(r.clone()));
        r
    }

    fn lookup(&mut self, mut t: usize, name: &str, must_const: bool) -> R {
        loop {
            if self.declared(t, name).is_none() { return Err(()); }
            if let Some(&i) = self.m.idx.get(&(t, name.to_owned())) { self.refs += 1; return self.var(i, must_const); }
            t = self.m.parent[t].ok_or(())?;
        }
    }

    fn args(&mut self, a: &[E], t: usize) -> Result<Vec<(V, Option<V>)>, ()> {
        let mut o = vec![];
        for x in a {
            o.push(match x {
                E::Asg(0, k, v) => {
                    let k = match &**k { E::Id(s) => Str(s.clone()), k => self.expr(k, t, &[])? };
                    (k, Some(self.expr(v, t, &[])?))
                },
                x => (self.expr(x, t, &[])?, None),
            });
        }
        Ok(o)
    }

    fn prefab(&mut self, p: &[(char, String)], v: &[(String, E)], t: usize) -> R {
        let mut o = vec![];
        for (k, e) in v { o.push((k.clone(), self.expr(e, t, &[])?)); }
        Ok(Path(p.iter().map(|x| x.1.clone()).collect(), o))
    }

    fn find(&self, p: &[(char, String)]) -> Option<usize> {
        self.m.paths.iter().position(|q| q.len() == p.len() && q.iter().zip(p).all(|(a, b)| *a == b.1))
    }

    fn expr(&mut self, e: &E, t: usize, hint: &[String]) -> R {
        Ok(match e {
            E::Null => Null,
            E::Int(i) => num(*i as f32),
            E::Float(s) => num(s.parse().unwrap()),
            E::Str(s) => Str(s.clone()),
            E::Res(s) => Res(s.clone()),
            E::Path(p, v) => self.prefab(p, v, t)?,
            E::Id(s) if s == "type" => Path(self.m.paths[t].clone(), vec![]),
            E::Id(s) if s == "parent_type" => Path(self.m.paths[self.m.parent[t].ok_or(())?].clone(), vec![]),
            E::Id(s) if s == "__IMPLIED_TYPE__" => if hint.is_empty() { return Err(()) } else { Path(hint.to_vec(), vec![]) },
            E::Id(s) => self.lookup(t, s, false)?,
            E::Static(p, n) => { let ty = self.find(p).ok_or(())?; self.lookup(ty, n, false)? },
            E::List(a) => List(self.args(a, t)?),
            E::New(a) => New(None, match a { None => None, Some(a) => Some(self.args(a, t)?) }),
            E::NewPath(p, v, a) => {
                let p = self.prefab(p, v, t)?;
                New(Some(Box::new(p)), match a { None => None, Some(a) => Some(self.args(a, t)?) })
            },
            E::Call(n, a) => match n.as_str() {
                "matrix" | "newlist" | "icon" | "sound" | "filter" | "file" | "generator" | "vector" => Call(n.clone(), self.args(a, t)?),
                "sin" | "cos" | "arcsin" | "arccos" => {
                    let [x] = &a[..] else { return Err(()) };
                    let Num(x, _) = self.expr(x, t, &[])? else { return Err(()) };
                    self.ops += 1;
                    let x = x as f64;
                    Num(match n.as_str() { "sin" => x.to_radians().sin(), "cos" => x.to_radians().cos(), "arcsin" => x.asin().to_degrees(), _ => x.acos().to_degrees() } as f32, false)
                },
                "nameof" => match &a[..] {
                    [E::Id(s)] => Str(s.clone()),
                    [E::Path(p, v)] if v.is_empty() => Str(p.last().unwrap().1.clone()),
                    [E::Static(_, n)] => Str(n.clone()),
                    _ => return Err(()),
                },
                _ => return Err(()),
            },
            E::Un(o, x) => {
                let v = self.expr(x, t, &[])?;
                self.ops += 1;
                match (PREFIX[*o].1, v) {
                    ("Neg", Num(x, k)) => Num(-x, k),
                    ("Not", v) => flag(!truth(&v)),
                    ("BitNot", Num(x, _)) => num((!(x as u64) & 0xff_ffff) as f32),
                    _ => return Err(()),
                }
            },
            E::Tern(c, a, b) => {
                self.ops += 1;
                if truth(&self.expr(c, t, &[])?) { self.expr(a, t, hint)? } else { self.expr(b, t, hint)? }
            },
            E::Bin(o, a, b) => {
                let a = self.expr(a, t, &[])?;
                let b = self.expr(b, t, &[])?;
                self.ops += 1;
                match (BINOPS[*o].1, &a, &b) {
                    ("Add", Num(a, p), Num(b, q)) => Num(a + b, *p && *q),
                    ("Sub", Num(a, p), Num(b, q)) => Num(a - b, *p && *q),
                    ("Mul", Num(a, p), Num(b, q)) => Num(a * b, *p && *q),
                    ("Div", Num(a, p), Num(b, q)) => Num(a / b, *p && *q),
                    ("Pow", Num(a, _), Num(b, _)) => Num((*a as f64).powf(*b as f64) as f32, false),
                    ("Mod", Num(a, _), Num(b, _)) => num((*a as i64).checked_rem(*b as i64).ok_or(())? as f32),
                    ("FloatMod", Num(a, _), Num(b, _)) => { let (a, b) = (*a as f64, *b as f64); num((a - (a / b).floor() * b) as f32) },
                    ("Less", Num(a, _), Num(b, _)) => flag(a < b),
                    ("LessEq", Num(a, _), Num(b, _)) => flag(a <= b),
                    ("Greater", Num(a, _), Num(b, _)) => flag(a > b),
                    ("GreaterEq", Num(a, _), Num(b, _)) => flag(a >= b),
                    ("BitAnd", Num(a, _), Num(b, _)) => num((*a as u64 & *b as u64 & 0xff_ffff) as f32),
                    ("BitOr", Num(a, _), Num(b, _)) => num(((*a as u64 | *b as u64) & 0xff_ffff) as f32),
                    ("BitXor", Num(a, _), Num(b, _)) => num(((*a as u64 ^ *b as u64) & 0xff_ffff) as f32),
                    ("LShift", Num(a, _), Num(b, _)) => if *b >= 32.0 { return Err(()) } else { num((((*a as u64) << (*b as u64)) & 0xff_ffff) as f32) },
                    ("RShift", Num(a, _), Num(b, _)) => if *b >= 32.0 { return Err(()) } else { num((((*a as u64) >> (*b as u64)) & 0xff_ffff) as f32) },
                    ("Add", Str(a), Str(b)) => Str(format!("{a}{b}")),
                    ("Eq", a, b) => flag(equal(a, b)),
                    ("NotEq", a, b) => flag(!equal(a, b)),
                    ("And", a, b) => if truth(a) { b.clone() } else { a.clone() },
                    ("Or", a, b) => if truth(a) { a.clone() } else { b.clone() },
                    _ => return Err(()),
                }
            },
            // GLOB.X: constant members of the static type of a null variable
            E::Field(_, x, n) => {
                let E::Id(g) = &**x else { return Err(()) };
                let decl = self.declared(t, g).ok_or(())?;
                let ty = self.m.vars[decl].vtype.clone();
                match self.lookup(t, g, false)? { Null => {}, _ => return Err(()) }
                let ty = self.m.paths.iter().position(|p| *p == ty).ok_or(())?;
                self.lookup(ty, n, true)?
            },
            _ => return Err(()),
        })
    }
}

// -------------------------------------------------------------------------------------------------

struct G<'a> {
    rng: &'a mut Rng,
    /// names of variables of each kind: n(umber, small integer), f(loat), s(tring)
    ints: Vec<String>,
    nums: Vec<String>,
    strs: Vec<String>,
    statics: Vec<(Vec<String>, String)>,
    bad: bool,
}

fn op(name: &str) -> usize { BINOPS.iter().position(|b| b.1 == name).unwrap() }
fn un(name: &str) -> usize { PREFIX.iter().position(|b| b.1 == name).unwrap() }
fn bin(o: &str, a: E, b: E) -> E { E::Bin(op(o), Box::new(a), Box::new(b)) }

impl<'a> G<'a> {
    /// A non-negative integer below 2^24 (operations keep it there).
    fn int(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.rng.below(5) {
                0 if !self.ints.is_empty() => { let n = self.rng.pick(&self.ints).clone(); self.reff(n) },
                1 => E::Int(self.rng.below(1 << 20) as i32),
                _ => E::Int(self.rng.below(40) as i32),
            };
        }
        let d = d - 1;
        match self.rng.below(13) {
            0 => bin("BitAnd", self.int(d), self.int(d)),
            1 => bin("BitOr", self.int(d), self.int(d)),
            2 => bin("BitXor", self.int(d), self.int(d)),
            3 => { let k = self.rng.below(28) as i32; bin("LShift", self.int(d), E::Int(k)) },
            4 => { let k = self.rng.below(28) as i32; bin("RShift", self.int(d), E::Int(k)) },
            5 => { let k = 1 + self.rng.below(300) as i32; bin("Mod", self.int(d), E::Int(k)) },
            6 => { let k = 1 + self.rng.below(300) as i32; let m = self.rng.below(4000) as i32; bin("FloatMod", E::Int(m), E::Int(k)) },
            7 => E::Un(un("BitNot"), Box::new(self.int(d))),
            8 => E::Un(un("Not"), Box::new(self.any(d))),
            9 => { let o = *self.rng.pick(&["Less", "LessEq", "Greater", "GreaterEq"]); bin(o, self.num(d), self.num(d)) },
            10 => { let o = *self.rng.pick(&["Eq", "NotEq"]); if self.rng.bool() { bin(o, self.num(d), self.num(d)) } else { bin(o, self.scalar(d), self.scalar(d)) } },
            11 => E::Tern(Box::new(self.any(d)), Box::new(self.int(d)), Box::new(self.int(d))),
            _ => { let o = *self.rng.pick(&["And", "Or"]); bin(o, self.int(d), self.int(d)) },
        }
    }

    fn reff(&mut self, n: String) -> E {
        E::Id(n)
    }

    /// A number computed exactly.
    fn num(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.rng.below(7) {
                0 if !self.nums.is_empty() => { let n = self.rng.pick(&self.nums).clone(); self.reff(n) },
                1 => E::Float((*self.rng.pick(&["0.5", "1.25", "3.75", "0.1", "1e3", "2.5e-3", "100.125", "0.0625"])).into()),
                2 => E::Un(un("Neg"), Box::new(E::Int(self.rng.below(100) as i32))),
                _ => self.int(0),
            };
        }
        let d1 = d - 1;
        match self.rng.below(10) {
            0 | 1 => bin("Add", self.num(d1), self.num(d1)),
            2 => bin("Sub", self.num(d1), self.num(d1)),
            3 => bin("Mul", self.num(d1), self.num(0)),
            4 => bin("Div", self.num(d1), E::Int(1 + self.rng.below(20) as i32)),
            5 => E::Un(un("Neg"), Box::new(self.num(d1))),
            6 => E::Tern(Box::new(self.any(d1)), Box::new(self.num(d1)), Box::new(self.num(d1))),
            7 => { let o = *self.rng.pick(&["And", "Or"]); bin(o, self.num(d1), self.num(d1)) },
            _ => self.int(d),
        }
    }

    fn text(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.rng.below(4) {
                0 if !self.strs.is_empty() => { let n = self.rng.pick(&self.strs).clone(); self.reff(n) },
                _ => E::Str((*self.rng.pick(&["", "a", "abc", "x y", "\\\"q\\\"", "é", "0", "\\n"])).into()),
            };
        }
        match self.rng.below(4) {
            0 => E::Tern(Box::new(self.any(d - 1)), Box::new(self.text(d - 1)), Box::new(self.text(d - 1))),
            1 => E::Call("nameof".into(), vec![if self.rng.bool() { E::Path(apath("/datum/tt"), vec![]) } else { E::Id("somename".into()) }]),
            _ => bin("Add", self.text(d - 1), self.text(d - 1)),
        }
    }

    fn scalar(&mut self, d: usize) -> E {
        match self.rng.below(5) { 0 => E::Null, 1 => self.text(d), 2 => E::Path(apath(*self.rng.pick(&["/obj/a", "/obj/b"])), vec![]), 3 => E::Res("a.dmi".into()), _ => self.int(d) }
    }

    fn inexact(&mut self) -> E {
        match self.rng.below(3) {
            0 => { let f = *self.rng.pick(&["sin", "cos"]); E::Call(f.into(), vec![if self.rng.bool() { E::Int(self.rng.below(720) as i32) } else { bin("Div", E::Int(self.rng.below(900) as i32), E::Int(7)) }]) },
            1 => { let f = *self.rng.pick(&["arcsin", "arccos"]); E::Call(f.into(), vec![bin("Div", E::Int(self.rng.below(20) as i32), E::Int(20))]) },
            _ => { let b = self.rng.below(6) as i32; let k = self.rng.below(9) as i32; bin("Pow", E::Int(b + 1), E::Int(k)) },
        }
    }

    fn arglist(&mut self, d: usize) -> Vec<E> {
        let n = self.rng.below(4);
        (0..n).map(|_| {
            let v = self.any(d);
            match self.rng.below(4) {
                0 => E::Asg(0, Box::new(E::Str((*self.rng.pick(&["k", "j"])).into())), Box::new(v)),
                1 => E::Asg(0, Box::new(E::Id((*self.rng.pick(&["kk", "jj"])).into())), Box::new(v)),
                _ => v,
            }
        }).collect()
    }

    fn any(&mut self, d: usize) -> E {
        let d1 = d.saturating_sub(1);
        if self.bad && self.rng.chance(1, 12) {
            return match self.rng.below(6) {
                0 => E::Call("do_it".into(), vec![]),
                1 => E::Id("nosuchvar".into()),
                2 => E::Index(false, Box::new(E::List(vec![E::Int(1)])), Box::new(E::Int(1))),
                3 => bin("Add", E::Str("a".into()), E::Int(1)),
                4 => E::Interp("a".into(), vec![(Some(E::Int(1)), "b".into())]),
                _ => bin("LShift", E::Int(1), E::Int(40)),
            };
        }
        match self.rng.below(14) {
            0..=2 => self.int(d),
            3..=5 => self.num(d),
            6 | 7 => self.text(d),
            8 => { if d == 0 { E::Null } else { E::List(self.arglist(d1)) } },
            9 => E::Null,
            10 => if self.rng.bool() { E::Res("icons/a.dmi".into()) } else { E::Id((*self.rng.pick(&["type", "parent_type", "__IMPLIED_TYPE__"])).into()) },
            11 => {
                let p = apath(*self.rng.pick(&["/obj/item", "/datum/tt", "/proc/foo", "/turf"]));
                let v = if d > 0 && self.rng.chance(1, 3) { vec![("name".to_owned(), self.any(d1)), ("dir".to_owned(), self.int(d1))] } else { vec![] };
                if self.rng.chance(1, 3) { E::NewPath(p, v, if self.rng.bool() { None } else { Some(self.arglist(d1)) }) } else { E::Path(p, v) }
            },
            12 => if d > 0 { E::Call((*self.rng.pick(&["matrix", "newlist", "icon", "sound", "filter", "file", "generator", "vector"])).into(), self.arglist(d1)) } else { E::New(None) },
            _ => {
                if !self.statics.is_empty() && self.rng.bool() {
                    let (p, n) = self.rng.pick(&self.statics).clone();
                    E::Static(p.into_iter().map(|x| ('/', x)).collect(), n)
                } else { self.inexact() }
            },
        }
    }
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    // types
    let nt = 1 + rng.below(5);
    let mut m = Model { paths: vec![vec![], vec!["datum".into()]], parent: vec![None, Some(0)], vars: vec![], idx: BTreeMap::new() };
    for i in 0..nt {
        let par = 1 + rng.below(m.paths.len() - 1);
        let mut p = m.paths[par].clone();
        p.push(format!("t{i}"));
        m.paths.push(p);
        m.parent.push(Some(par));
    }
    // declare names first, with a kind, so that references may go to later ones
    let nv = 2 + rng.below(3 + cx.size / 8);
    let mut kinds: Vec<u8> = vec![];
    for i in 0..nv {
        let ty = if rng.chance(1, 5) { 0 } else { 1 + rng.below(m.paths.len() - 1) };
        let kind = rng.below(5) as u8; // 0,1 int 2 num 3 text 4 any
        let name = format!("{}{}", ["n", "n", "f", "s", "v"][kind as usize], i);
        let is_const = ty == 0 && rng.chance(4, 5) || rng.chance(1, 4);
        let flags = if ty != 0 && rng.chance(1, 15) { "static" } else if ty != 0 && !is_const && rng.chance(1, 15) { "tmp" } else { "" };
        let vtype = if kind == 4 && rng.chance(1, 3) { m.paths[1 + rng.below(m.paths.len() - 1)].clone() } else { vec![] };
        m.vars.push(VarDef { ty, name: name.clone(), decl: true, is_const, flags, vtype, e: None });
        m.idx.insert((ty, name), m.vars.len() - 1);
        kinds.push(kind);
        // overrides below
        if ty != 0 && rng.chance(1, 3) {
            let below: Vec<usize> = (0..m.paths.len()).filter(|&t| { let mut u = m.parent[t]; while let Some(x) = u { if x == ty { return true } u = m.parent[x]; } false }).collect();
            if let Some(&t) = below.get(rng.below(below.len().max(1))) {
                let name = m.vars.last().unwrap().name.clone();
                m.vars.push(VarDef { ty: t, name: name.clone(), decl: false, is_const: false, flags: "", vtype: vec![], e: None });
                m.idx.insert((t, name), m.vars.len() - 1);
                kinds.push(kind);
            }
        }
    }
    if rng.chance(1, 6) {
        m.vars.push(VarDef { ty: 1, name: "undeclared".into(), decl: false, is_const: false, flags: "", vtype: vec![], e: None });
        m.idx.insert((1, "undeclared".into()), m.vars.len() - 1);
        kinds.push(0);
    }
    let glob = rng.chance(1, 3);
    if glob {
        let ty = 1 + rng.below(m.paths.len() - 1);
        m.vars.push(VarDef { ty: 0, name: "GLOB".into(), decl: true, is_const: false, flags: "", vtype: m.paths[ty].clone(), e: None });
        m.idx.insert((0, "GLOB".into()), m.vars.len() - 1);
        kinds.push(9);
    }
    let bad = rng.chance(1, 3);
    for i in 0..m.vars.len() {
        if kinds[i] == 9 { continue; }
        let t = m.vars[i].ty;
        // visible names; those of higher index than i only sometimes, so that cycles stay rare
        let wild = rng.chance(1, 6);
        let (mut ints, mut nums, mut strs, mut statics) = (vec![], vec![], vec![], vec![]);
        for (j, v) in m.vars.iter().enumerate() {
            if !(wild || (j * 7919) % 101 < (i * 7919) % 101) || kinds[j] == 9 || v.name == "undeclared" { continue; }
            let mut u = Some(t);
            let mut vis = false;
            while let Some(x) = u { if x == v.ty { vis = true; } u = m.parent[x]; }
            if vis {
                match kinds[j] { 0 | 1 => ints.push(v.name.clone()), 2 => nums.push(v.name.clone()), 3 => strs.push(v.name.clone()), _ => {} }
            }
            if v.ty != 0 { statics.push((m.paths[v.ty].clone(), v.name.clone())); }
        }
        let d = 1 + rng.below(1 + cx.size / 30);
        let mut g = G { rng: &mut rng, ints, nums, strs, statics, bad };
        let e = match kinds[i] { 0 | 1 => g.int(d), 2 => g.num(d), 3 => g.text(d), _ => {
            if glob && g.rng.chance(1, 3) {
                let ty = m.vars.iter().find(|v| v.name == "GLOB").unwrap().vtype.clone();
                let names: Vec<String> = m.vars.iter().filter(|v| m.paths[v.ty] == ty).map(|v| v.name.clone()).collect();
                if names.is_empty() { g.any(d) } else { E::Field(0, Box::new(E::Id("GLOB".into())), g.rng.pick(&names).clone()) }
            } else { g.any(d) }
        } };
        m.vars[i].e = if rng.chance(1, 12) && m.vars[i].decl && kinds[i] == 4 { None } else { Some(e) };
    }
    // text, one variable per line, in random order, in absolute form or grouped
    let mut order: Vec<usize> = (0..m.vars.len()).collect();
    rng.shuffle(&mut order);
    let mut text = String::new();
    let mut lines: BTreeMap<usize, u32> = BTreeMap::new();
    let mut line = 1;
    for t in 1..m.paths.len() { text.push_str(&format!("/{}\n", m.paths[t].join("/"))); line += 1; }
    for &i in &order {
        let v = &m.vars[i];
        let mut s = String::new();
        for p in &m.paths[v.ty] { s.push('/'); s.push_str(p); }
        if v.decl {
            s.push_str("/var");
            if v.is_const { s.push_str("/const"); }
            if !v.flags.is_empty() { s.push('/'); s.push_str(v.flags); }
            for p in &v.vtype { s.push('/'); s.push_str(p); }
        }
        s.push('/');
        s.push_str(&v.name);
        if let Some(e) = &v.e {
            let mut r = Render::new(&mut rng, 0);
            r.top(e);
            let lex = r.out;
            s.push_str(" = ");
            s.push_str(&join(&mut rng, &lex, Spacing::default()));
        }
        lines.insert(i, line);
        text.push_str(&s);
        text.push('\n');
        line += 1;
    }
    cx.input(text.clone());

    let mut ev = Eval { m: &m, memo: BTreeMap::new(), ops: 0, refs: 0, cycles: 0 };
    let mut want: Vec<Option<R>> = vec![];
    let mut risky = false;
    for i in 0..m.vars.len() {
        let v = &m.vars[i];
        let d = ev.declared(v.ty, &v.name).map(|d| &m.vars[d]);
        let folded = match d { None => true, Some(d) => (d.is_const || !d.flags.contains("static")) && (d.is_const || v.ty != 0) };
        want.push(if folded { Some(ev.var(i, false)) } else { None });
    }
    // results that left the range where the assumptions hold
    for r in ev.memo.values().flatten().flatten() { if let Num(x, _) = r { if !x.is_finite() || x.abs() > 1e30 { risky = true; } } }
    if risky { cx.count("cases left out (overflow)", 1); return; }
    cx.count("operators folded", ev.ops);
    cx.count("variable references", ev.refs);
    cx.count("self references", ev.cycles);
    if ev.refs > 0 && ev.ops >= 5 { cx.nontrivial(); }

    let p = parse_text(&text);
    let mut errlines: BTreeSet<u32> = BTreeSet::new();
    for e in p.context.errors().iter() {
        ensure!(cx, !e.location().is_builtins(), "stray error", "{}", diag(&p.context, e));
        errlines.insert(e.location().line);
    }
    for (i, w) in want.iter().enumerate() {
        let v = &m.vars[i];
        let path: String = m.paths[v.ty].iter().map(|x| format!("/{x}")).collect();
        let Some(ty) = p.tree.find(&path) else { cx.violate("type missing", path); return };
        let got = ty.vars.get(v.name.as_str());
        ensure!(cx, got.is_some(), "variable missing", "{path}/{}", v.name);
        let got = got.unwrap();
        let ln = lines[&i];
        let msg = || p.context.errors().iter().filter(|e| e.location().line == ln).map(|e| diag(&p.context, e)).collect::<Vec<_>>();
        match w {
            None => {
                ensure!(cx, !errlines.contains(&ln), "error on a variable that is not folded", "{path}/{}: {:?}", v.name, msg());
            },
            Some(Err(())) => {
                cx.count("non-constant initialisers", 1);
                ensure!(cx, errlines.contains(&ln), "no diagnostic", "line {ln}: {path}/{} is not constant but no error is reported; constant {:?}", v.name, got.value.constant);
                ensure!(cx, got.value.constant.is_none(), "value for a non-constant", "line {ln}: {path}/{} is not constant but folds to {:?}", v.name, got.value.constant);
            },
            Some(Ok(x)) => {
                cx.count("values compared", 1);
                ensure!(cx, !errlines.contains(&ln), "false error", "line {ln}: {path}/{}: {:?}", v.name, msg());
                let ok = got.value.constant.as_ref().is_some_and(|c| same(x, c));
                ensure!(cx, ok, "wrong value", "line {ln}: {path}/{} = {:?}, expected {:?}", v.name, got.value.constant.as_ref().map(|c| c.to_string()), x);
            },
        }
    }
}

fn eval(s: &str) -> Result<Constant, String> {
    catch(|| dm::constants::evaluate_str(Default::default(), s.as_bytes()).map_err(|e| e.description().to_owned())).unwrap_or_else(|e| Err(format!("panic {e}")))
}

fn grid(cx: &mut Cx) {
    let ints: &[i64] = &[0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 100, 255, 256, 1000, 4095, 65535, 65536, 1048575, 8388607, 8388608, 16777214, 16777215];
    for &a in ints {
        for &b in ints {
            let mut t: Vec<(String, Option<f32>)> = vec![
                (format!("{a} & {b}"), Some((a & b) as f32)), (format!("{a} | {b}"), Some((a | b) as f32)), (format!("{a} ^ {b}"), Some((a ^ b) as f32)),
                (format!("{a} + {b}"), Some(a as f32 + b as f32)), (format!("{a} - {b}"), Some(a as f32 - b as f32)), (format!("{a} * {b}"), Some(a as f32 * b as f32)),
                (format!("{a} < {b}"), Some((a < b) as u8 as f32)), (format!("{a} <= {b}"), Some((a <= b) as u8 as f32)), (format!("{a} > {b}"), Some((a > b) as u8 as f32)),
                (format!("{a} >= {b}"), Some((a >= b) as u8 as f32)), (format!("{a} == {b}"), Some((a == b) as u8 as f32)), (format!("{a} != {b}"), Some((a != b) as u8 as f32)),
                (format!("{a} && {b}"), Some(if a != 0 { b as f32 } else { a as f32 })), (format!("{a} || {b}"), Some(if a != 0 { a as f32 } else { b as f32 })),
                (format!("!{a}"), Some((a == 0) as u8 as f32)), (format!("~{a}"), Some((!a & 0xffffff) as f32)), (format!("-{a}"), Some(-(a as f32))),
                (format!("{a} ? {b} : 77"), Some(if a != 0 { b as f32 } else { 77.0 })),
            ];
            if b != 0 {
                t.push((format!("{a} % {b}"), Some((a % b) as f32)));
                t.push((format!("-{a} % {b}"), Some((-a % b) as f32)));
                t.push((format!("{a} / {b}"), Some(a as f32 / b as f32)));
                if a < 4096 && b < 4096 {
                    t.push((format!("{a} %% {b}"), Some(a.rem_euclid(b) as f32)));
                    t.push((format!("-{a} %% {b}"), Some((-a).rem_euclid(b) as f32)));
                }
            }
            if b < 32 {
                t.push((format!("{a} << {b}"), Some(((a << b) & 0xffffff) as f32)));
                t.push((format!("{a} >> {b}"), Some((a >> b) as f32)));
            } else {
                t.push((format!("{a} << {b}"), None));
                t.push((format!("{a} >> {b}"), None));
            }
            if b < 6 && a < 16 {
                t.push((format!("{a} ** {b}"), Some((a as f32).powi(b as i32))));
            }
            for (s, want) in t {
                cx.count("grid points", 1);
                let got = eval(&s);
                let ok = match (&got, want) { (Ok(Constant::Float(f)), Some(w)) => *f == w, (Err(e), None) => !e.starts_with("panic"), _ => false };
                ensure!(cx, ok, "grid", "{s} = {got:?}, expected {want:?}");
            }
        }
    }
    for (s, want) in [("\"a\" + \"b\"", "\"ab\""), ("null == null", "1"), ("null != null", "0"), ("\"a\" == \"a\"", "1"), ("\"a\" == \"b\"", "0"), ("\"\" || \"x\"", "\"x\""), ("null || 5", "5"), ("!\"\"", "1"), ("!'a'", "0"),
        ("!null", "1"), ("!/obj", "0"), ("/obj == /obj", "1"), ("/obj == /obj/a", "0"), ("0 == null", "0"), ("list() ? 1 : 2", "1"), ("1 ? 2 : 3 ? 4 : 5", "2"), ("0 ? 2 : 0 ? 4 : 5", "5"), ("2 ** 3 ** 2", "64"), ("10 - 4 - 3", "3"), ("100 / 10 / 5", "2"), ("1 + 2 * 3", "7"), ("- 2 ** 2", "4"), ("1 << 2 + 1", "8"), ("6 & 3 == 3", "0")] {
        let got = eval(s).map(|c| c.to_string());
        cx.count("grid points", 1);
        ensure!(cx, got.as_deref() == Ok(want), "grid", "{s} = {got:?}, expected {want}");
    }
    cx.nontrivial();
}

fn trig(cx: &mut Cx) {
    for d in -720..=720i32 {
        for (f, w) in [("sin", (d as f64).to_radians().sin()), ("cos", (d as f64).to_radians().cos())] {
            let got = eval(&format!("{f}({d})"));
            ensure!(cx, matches!(got, Ok(Constant::Float(x)) if (x as f64 - w).abs() < 2e-5), "trig", "{f}({d}) = {got:?}, expected {w}");
            cx.count("trigonometry points", 1);
        }
    }
    for k in -100..=100 {
        let x = k as f64 / 100.0;
        for (f, w) in [("arcsin", x.asin().to_degrees()), ("arccos", x.acos().to_degrees())] {
            let got = eval(&format!("{f}({x})"));
            ensure!(cx, matches!(got, Ok(Constant::Float(v)) if (v as f64 - w).abs() < 2e-2), "trig", "{f}({x}) = {got:?}, expected {w}");
            cx.count("trigonometry points", 1);
        }
    }
    cx.nontrivial();
}

fn hue(h: f64, c: f64, m: f64) -> [f64; 3] {
    let h = (h % 360.0) / 60.0;
    let x = c * (1.0 - (h % 2.0 - 1.0).abs());
    let (r, g, b) = match h as u32 { 0 => (c, x, 0.0), 1 => (x, c, 0.0), 2 => (0.0, c, x), 3 => (0.0, x, c), 4 => (x, 0.0, c), _ => (c, 0.0, x) };
    [(r + m) * 255.0, (g + m) * 255.0, (b + m) * 255.0]
}

fn rgb(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    for k in 0..4000 {
        let space = k % 3;
        let a = if rng.bool() { Some(rng.below(256)) } else { None };
        let v = if space == 0 { [rng.below(256), rng.below(256), rng.below(256)] } else { [rng.below(361), rng.below(101), rng.below(101)] };
        let exact = match space {
            0 => [v[0] as f64, v[1] as f64, v[2] as f64],
            1 => { let (s, val) = (v[1] as f64 / 100.0, v[2] as f64 / 100.0); hue(v[0] as f64, s * val, val - s * val) },
            _ => { let (s, l) = (v[1] as f64 / 100.0, v[2] as f64 / 100.0); let c = (1.0 - (2.0 * l - 1.0).abs()) * s; hue(v[0] as f64, c, l - c / 2.0) },
        };
        // spelling: positional or named in any order
        let names: [&[&str]; 3] = match space { 0 => [&["r", "red"], &["g", "green"], &["b", "blue"]], 1 => [&["h", "hue"], &["s", "saturation"], &["v", "value"]], _ => [&["h", "hue"], &["s", "saturation"], &["l", "luminance"]] };
        let named = rng.chance(2, 3);
        let mut args: Vec<String> = (0..3).map(|i| if named { format!("{}={}", rng.pick(names[i]), v[i]) } else { v[i].to_string() }).collect();
        if let Some(a) = a { args.push(if named || rng.bool() { format!("{}={a}", rng.pick(&["a", "alpha"])) } else { a.to_string() }); }
        // the long names do not select a colour space by themselves: the tool wants an explicit space only for positional use
        if named { rng.shuffle(&mut args); }
        if !named && space != 0 || rng.chance(1, 4) { args.push(format!("space={space}")); }
        let s = format!("rgb({})", args.join(", "));
        let got = eval(&s);
        let Ok(Constant::String(c)) = &got else { cx.violate("rgb", format!("{s} = {got:?}")); return };
        let c = c.as_str();
        let ok = c.len() == if a.is_some() { 9 } else { 7 } && c.starts_with('#') && (0..3).all(|i| {
            let x = i64::from_str_radix(&c[1 + 2 * i..3 + 2 * i], 16).unwrap_or(-9) as f64;
            (x - exact[i]).abs() <= 0.5 + 1e-6
        }) && a.is_none_or(|a| usize::from_str_radix(&c[7..], 16) == Ok(a));
        ensure!(cx, ok, "rgb", "{s} = {c}, expected channels {exact:?} alpha {a:?}");
        cx.count("colours", 1);
    }
    for bad in ["rgb(1)", "rgb()", "rgb(1,2)", "rgb(1,2,space=0)", "rgb(256,0,0)", "rgb(-1,0,0)", "rgb(0,0,0,256)", "rgb(0,101,0,space=1)", "rgb(361,0,0,space=2)", "rgb(\"a\",0,0)", "rgb(r=1,g=2,q=3)", "rgb(0,0,0,space=7)", "rgb(r=1,r=2,r=3)", "rgb(r=1,g=2,a=3)", "rgb(1,2,3,4,5,6)"] {
        let got = eval(bad);
        ensure!(cx, matches!(&got, Err(e) if !e.starts_with("panic")), "rgb accepted", "{bad} = {got:?}");
        cx.count("malformed rgb calls", 1);
    }
    cx.nontrivial();
}
