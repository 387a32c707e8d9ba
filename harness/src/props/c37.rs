//! What the language server says names in a project refer to.
use crate::fw::*;
use crate::lsp::*;
use crate::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "C37",
    quick: 900,
    thorough: 30000,
    case,
    external: true,
    case_cpu: 120,
    rule: "a case is a project of several files made from a plan of types, variables, procs, locals, parameters and macros which shadow and override each other, of which every identifier written down is recorded with its place and what it refers to; the language server built from /repo opens it, and its answers for definition, references, implementations, types, document symbols and workspace symbols are compared with the plan, some after the open document was shifted; distinct by project, non-trivial with 30 answers checked",
    assumptions: &["every proc is declared once and every variable declared or overridden once per type", "positions are those of text without characters outside ASCII"],
    ..DEFAULT
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ty { None, Obj(usize), List, ListOf(usize) }
/// a place in the project: lines and columns count from 0
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
struct At { file: usize, line: u32, c0: u32, c1: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
enum Sym { Type(usize), Var(usize, &'static str), Proc(usize, &'static str) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want { Nothing, Skip, Type(usize), Var(usize, &'static str), Proc(usize, &'static str), Parent(usize), Local(At), Define(usize) }
#[derive(Clone, Debug)]
struct Probe { at: At, want: Want, sym: Option<Sym>, ty: Option<Ty>, local: bool }
#[derive(Default)]
struct Type { path: String, parent: usize, decl: Option<At>, vars: Vec<(&'static str, Ty)>, overrides: Vec<&'static str>, procs: Vec<&'static str>, var_at: BTreeMap<&'static str, At> }
struct Def { ty: usize, name: &'static str, declared: bool, at: Option<At>, params: Vec<(&'static str, Ty)>, block: bool, file: usize }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Symbol { name: String, kind: u64, line: u32, children: Vec<Symbol> }
struct F { name: String, text: String, line: u32, col: u32, symbols: Vec<Vec<Symbol>> }

const VN: &[&str] = &["va", "vb", "vc", "v_d"];
const LN: &[&str] = &["la", "lb", "lc"];
const GN: &[&str] = &["ga", "gb", "va"];
const PN: &[&str] = &["pa", "pb", "pc"];
const GP: &[&str] = &["gp", "gq", "pa"];
const DEFINES: &[&str] = &["MA", "MB"];
const CLASS: u64 = 5;
const METHOD: u64 = 6;
const FIELD: u64 = 8;
const FUNCTION: u64 = 12;
const VARIABLE: u64 = 13;
const CONSTANT: u64 = 14;

struct G<'a> {
    r: &'a mut Rng,
    files: Vec<F>,
    cur: usize,
    types: Vec<Type>,
    defs: Vec<Def>,
    defines: Vec<Option<At>>,
    refs: BTreeMap<Sym, Vec<At>>,
    probes: Vec<Probe>,
    // where the code being written is
    ty: usize,
    def: Option<usize>,
    scopes: Vec<Vec<(&'static str, Ty, At)>>,
    no_colon: usize,
    stmt: u32,
    budget: usize,
    skip: bool,
    caught: Vec<At>,
    in_block: bool,
}

impl G<'_> {
    fn f(&mut self) -> &mut F { let c = self.cur; &mut self.files[c] }
    fn w(&mut self, s: &str) { let f = self.f(); f.text += s; match s.rfind('\n') { Some(i) => { f.line += s.matches('\n').count() as u32; f.col = (s.len() - i - 1) as u32; }, None => f.col += s.len() as u32 } }
    fn here(&mut self) -> (u32, u32) { let f = self.f(); (f.line, f.col) }
    fn tabs(&mut self, n: usize) { let s = "\t".repeat(n); self.w(&s); self.stmt = self.f().col; }
    /// writes a word and tells where it is
    fn word(&mut self, s: &str) -> At { let (line, c0) = self.here(); self.w(s); At { file: self.cur, line, c0, c1: c0 + s.len() as u32 } }
    fn used(&mut self, sym: Sym, at: At) { self.refs.entry(sym).or_default().push(at); }
    /// what was used since is found where it begins
    fn found_at(&mut self, before: &BTreeMap<Sym, Vec<At>>, c0: u32) { for (k, v) in &mut self.refs { for at in &mut v[before.get(k).map_or(0, Vec::len)..] { at.c0 = c0; } } }
    fn probe(&mut self, at: At, want: Want, sym: Option<Sym>, ty: Option<Ty>) { let want = if self.skip { Want::Skip } else { want }; let sym = if self.skip { None } else { sym }; let local = matches!(want, Want::Local(_)); self.probes.push(Probe { at, want, sym, ty: if self.skip { None } else { ty }, local }); }

    // ---- what names mean
    fn declared(&self, mut t: usize, name: &str, root: bool) -> Option<(usize, Ty)> {
        loop {
            if t == 0 && !root { return None; }
            if let Some(v) = self.types[t].vars.iter().find(|v| v.0 == name) { return Some((t, v.1)); }
            if t == 0 { return None; }
            t = self.types[t].parent;
        }
    }
    fn proc_of(&self, mut t: usize, name: &str, root: bool) -> Option<usize> {
        loop {
            if t == 0 && !root { return None; }
            if self.types[t].procs.contains(&name) { return Some(t); }
            if t == 0 { return None; }
            t = self.types[t].parent;
        }
    }
    fn local(&self, name: &str) -> Option<(Ty, At)> { self.scopes.iter().rev().flat_map(|s| s.iter().rev()).find(|l| l.0 == name).map(|l| (l.1, l.2)) }
    fn path(&self, t: usize) -> String { self.types[t].path.clone() }
    fn some_type(&mut self) -> usize { 1 + self.r.below(self.types.len() - 1) }
    fn some_ty(&mut self) -> Ty { match self.r.below(8) { 0 | 1 => Ty::None, 2 => Ty::List, 3 => Ty::ListOf(self.some_type()), _ => Ty::Obj(self.some_type()) } }
    /// `datum/ta/` before a name; its types are used by what begins at the given column
    fn type_prefix(&mut self, ty: Ty, from: u32) {
        let (line, _) = self.here();
        let file = self.cur;
        match ty {
            Ty::None => {},
            Ty::List => self.w("list/"),
            Ty::Obj(t) => { let p = self.path(t); self.w(&p[1..]); let (_, c1) = self.here(); self.used(Sym::Type(t), At { file, line, c0: from, c1 }); self.w("/"); },
            Ty::ListOf(t) => { let p = self.path(t); self.w("list"); self.w(&p); let (_, c1) = self.here(); self.used(Sym::Type(t), At { file, line, c0: from, c1 }); self.w("/"); },
        }
    }

    // ---- expressions
    /// the name of something visible here, of some object type if it can be
    fn name(&mut self, object: bool, avoid: &str) -> &'static str {
        for k in 0..8 {
            let n = match self.r.below(8) { 0 => *self.r.pick(GN), 1..=3 => *self.r.pick(LN), _ => *self.r.pick(VN) };
            if n == avoid { continue; }
            let ty = self.local(n).map(|l| l.0).or_else(|| self.declared(self.ty, n, true).map(|d| d.1));
            match ty { Some(t) if !object || k > 5 || matches!(t, Ty::Obj(_) | Ty::ListOf(_)) => return n, None if k == 7 => return n, _ => {} }
        }
        if avoid == "ga" { "gb" } else { "ga" }
    }
    fn ident(&mut self, name: &'static str) -> Ty {
        let at = self.word(name);
        if let Some((ty, place)) = self.local(name) { let typed = !self.caught.contains(&place); self.probe(at, Want::Local(place), None, typed.then_some(ty)); return ty; }
        match self.declared(self.ty, name, true) {
            Some((t, ty)) => { let here = self.ty; self.used(Sym::Var(t, name), at); self.probe(at, Want::Var(here, name), Some(Sym::Var(t, name)), Some(ty)); ty },
            None => { self.probe(at, Want::Nothing, None, None); Ty::None },
        }
    }
    fn op(&mut self) -> &'static str { if self.no_colon > 0 { self.r.pick(&[".", "?."]) } else { *self.r.pick(&[".", ".", "?.", ":"]) } }
    fn field(&mut self, base: Ty, name: &'static str, reset: bool) -> Ty {
        let (_, c0) = self.here();
        let op = self.op();
        self.w(op);
        let at = self.word(name);
        if let Ty::Obj(t) = base {
            if let Some((d, ty)) = self.declared(t, name, false) {
                self.used(Sym::Var(d, name), At { c0, ..at });
                if reset { self.probe(at, Want::Skip, None, None); } else { self.probe(at, Want::Var(t, name), Some(Sym::Var(d, name)), Some(ty)); }
                return ty;
            }
        }
        self.probe(at, if reset { Want::Skip } else { Want::Nothing }, None, None);
        Ty::None
    }
    fn args(&mut self, d: usize, avoid: &str) {
        self.w("(");
        let keep = std::mem::replace(&mut self.no_colon, 0);
        for i in 0..self.r.below(3) { if i > 0 { self.w(", "); } if self.r.chance(1, 8) { self.w("key = "); } self.expr(d + 1, avoid); }
        self.no_colon = keep;
        self.w(")");
    }
    /// a.b[c].d or a call at its end
    fn chain(&mut self, d: usize, avoid: &str, call: bool) {
        let mut ty = if self.def.is_some() && self.ty != 0 && self.r.chance(1, 6) { self.w("src"); Ty::Obj(self.ty) } else { let n = self.name(true, avoid); self.ident(n) };
        let mut reset = false;
        for _ in 0..4 {
            if matches!(ty, Ty::List | Ty::ListOf(_)) {
                if d > 3 || self.r.bool() { break; }
                self.w("[");
                let keep = std::mem::replace(&mut self.no_colon, 0);
                self.expr(d + 1, avoid);
                self.no_colon = keep;
                self.w("]");
                ty = if let Ty::ListOf(t) = ty { Ty::Obj(t) } else { Ty::None };
                reset = true;
                continue;
            }
            if !self.r.chance(2, 3) { break; }
            let mut n = *self.r.pick(VN);
            if let Ty::Obj(t) = ty { for _ in 0..4 { if self.declared(t, n, false).is_some() { break; } n = self.r.pick(VN); } if self.r.chance(1, 12) { n = "ga"; } }
            if ty == Ty::None && self.r.bool() { break; }
            ty = self.field(ty, n, reset);
        }
        if call {
            let mut n = *self.r.pick(PN);
            if let Ty::Obj(t) = ty { for _ in 0..4 { if self.proc_of(t, n, false).is_some() { break; } n = self.r.pick(PN); } if self.r.chance(1, 12) { n = "gp"; } }
            let (_, c0) = self.here();
            let op = self.op();
            self.w(op);
            let at = self.word(n);
            let mut want = (Want::Nothing, None);
            if let Ty::Obj(t) = ty { if let Some(p) = self.proc_of(t, n, false) { self.used(Sym::Proc(p, n), At { c0, ..at }); want = (Want::Proc(t, n), Some(Sym::Proc(p, n))); } }
            if reset { want = (Want::Skip, None); }
            self.probe(at, want.0, want.1, None);
            self.args(d, avoid);
        }
    }
    /// `/datum/ta`, each part of which can be asked about; tells where it is
    fn type_path(&mut self, t: usize) -> At {
        let p = self.path(t);
        let (line, c0) = self.here();
        let mut so_far = String::new();
        for part in p[1..].split('/') {
            self.w("/");
            so_far += "/";
            so_far += part;
            let at = self.word(part);
            if let Some(k) = self.types.iter().position(|x| x.path == so_far) { self.probe(at, Want::Type(k), Some(Sym::Type(k)), None); }
        }
        let (_, c1) = self.here();
        At { file: self.cur, line, c0, c1 }
    }
    fn expr(&mut self, d: usize, avoid: &str) {
        self.budget = self.budget.saturating_sub(1);
        let deep = d > 3 || self.budget == 0;
        match if deep { self.r.below(4) } else { self.r.below(22) } {
            0 => { let s = *self.r.pick(&["1", "2.5", "null", "\"text\"", "'icon.dmi'"]); self.w(s); },
            1 | 4 | 5 => { let n = self.name(false, avoid); self.ident(n); },
            2 => { let t = self.some_type(); let at = self.type_path(t); self.used(Sym::Type(t), at); },
            3 if !deep => { self.macro_use(d, avoid); },
            3 | 6 | 7 => self.chain(d, avoid, false),
            8 | 9 => self.chain(d, avoid, true),
            10 | 11 => {
                // a call
                let mut n = if self.r.chance(1, 3) { *self.r.pick(GP) } else { *self.r.pick(PN) };
                if self.r.chance(1, 10) { n = "unknown"; }
                let at = self.word(n);
                match self.proc_of(self.ty, n, true) {
                    Some(t) => { let here = self.ty; self.used(Sym::Proc(t, n), at); self.probe(at, Want::Proc(here, n), Some(Sym::Proc(t, n)), None); },
                    None => self.probe(at, Want::Nothing, None, None),
                }
                self.args(d, avoid);
            },
            12 => {
                // new
                let (_, c0) = self.here();
                if self.r.chance(1, 4) {
                    self.w("new ");
                    let n = self.name(true, avoid);
                    // everything in it is found at its start
                    let before = self.refs.clone();
                    let mut ty = self.ident(n);
                    while let Ty::Obj(_) = ty { if self.r.bool() { break; } let f = *self.r.pick(VN); self.no_colon += 1; ty = self.field(ty, f, false); self.no_colon -= 1; }
                    self.found_at(&before, c0);
                } else {
                    self.w("new ");
                    let t = self.some_type();
                    let at = self.type_path(t);
                    let at = At { c0, ..at };
                    self.used(Sym::Type(t), at);
                    if self.r.chance(1, 4) { self.prefab_vars(t, at, d, avoid); }
                }
                if self.r.chance(3, 4) { self.args(d, avoid); }
            },
            13 => { self.w("list("); for i in 0..1 + self.r.below(2) { if i > 0 { self.w(", "); } match self.r.below(4) { 0 => self.w("key = "), 1 => { let t = self.some_type(); let at = self.type_path(t); self.used(Sym::Type(t), at); self.w(" = "); }, _ => {} } self.expr(d + 1, avoid); } self.w(")"); },
            14 => { self.w("(("); self.no_colon += 1; self.expr(d + 1, avoid); self.w(") ? ("); self.expr(d + 1, avoid); self.w(") : ("); self.expr(d + 1, avoid); self.w("))"); self.no_colon -= 1; },
            15 => { self.w("\"a ["); let keep = std::mem::replace(&mut self.no_colon, 0); self.expr(d + 2, avoid); self.no_colon = keep; self.w("] b\""); },
            16 => { let o = *self.r.pick(&[" + ", " == ", " && ", " || ", " in ", " << "]); self.w("("); self.expr(d + 1, avoid); self.w(o); self.expr(d + 1, avoid); self.w(")"); },
            17 => { self.w("!"); self.chain(d, avoid, false); },
            18 => { self.w("istype("); self.expr(d + 1, avoid); self.w(", "); let t = self.some_type(); let at = self.type_path(t); self.used(Sym::Type(t), at); self.w(")"); },
            19 => { self.w("pick("); self.expr(d + 1, avoid); self.w(", 3; "); self.expr(d + 1, avoid); self.w(")"); },
            20 => {
                let t = self.some_type();
                if let Some(&p) = self.types[t].procs.first() {
                    let (line, c0) = self.here();
                    self.skip = true;
                    self.type_path(t);
                    self.skip = false;
                    self.w("/proc/");
                    let at = self.word(p);
                    self.used(Sym::Proc(t, p), At { file: self.cur, line, c0, c1: at.c1 });
                    self.probe(at, Want::Proc(t, p), Some(Sym::Proc(t, p)), None);
                } else { self.w("7"); }
            },
            _ => {
                if self.def.is_some() && self.r.bool() {
                    // the proc before this one
                    if self.r.chance(2, 3) { let at = self.word(".."); let want = Want::Parent(self.def.unwrap()); self.probe(at, want, None, None); } else { self.w("."); }
                    self.args(d, avoid);
                } else {
                    let (_, c0) = self.here();
                    self.w("global.");
                    if self.r.bool() {
                        let n = *self.r.pick(GN);
                        let at = self.word(n);
                        if self.declared(0, n, true).is_some() { self.used(Sym::Var(0, n), At { c0, ..at }); }
                    } else {
                        let n = *self.r.pick(GP);
                        let at = self.word(n);
                        if self.proc_of(0, n, true).is_some() { self.used(Sym::Proc(0, n), At { c0, ..at }); }
                        self.args(d, avoid);
                    }
                }
            },
        }
    }
    fn macro_use(&mut self, d: usize, avoid: &str) {
        let k = self.r.below(DEFINES.len());
        let at = self.word(DEFINES[k]);
        self.probe(at, Want::Define(k), None, None);
        if k == 1 { self.w("("); self.skip = true; let n = self.name(false, avoid); let before = self.refs.clone(); self.ident(n); self.found_at(&before, at.c0); self.skip = false; self.w(")"); }
        let _ = d;
    }
    fn prefab_vars(&mut self, t: usize, path: At, d: usize, avoid: &str) {
        self.w("{");
        let names: Vec<&'static str> = VN.iter().copied().filter(|n| self.declared(t, n, false).is_some()).take(2).collect();
        for (i, n) in names.iter().enumerate() {
            if i > 0 { self.w("; "); }
            let at = self.word(n);
            let (o, _) = self.declared(t, n, false).unwrap();
            self.used(Sym::Var(o, n), At { c1: at.c1, ..path });
            self.w(" = ");
            self.expr(d + 1, avoid);
        }
        self.w("}");
    }

    // ---- statements
    fn add_local(&mut self, name: &'static str, ty: Ty, at: At) { self.scopes.last_mut().unwrap().push((name, ty, at)); self.symbol(name, VARIABLE, at.line, true); }
    fn fresh(&mut self) -> Option<&'static str> {
        let n = if self.r.chance(1, 3) { *self.r.pick(VN) } else { *self.r.pick(LN) };
        (!self.scopes.last().unwrap().iter().any(|l| l.0 == n)).then_some(n)
    }
    fn block(&mut self, ind: usize, d: usize) { self.scopes.push(vec![]); self.stmts(ind, d); self.scopes.pop(); }
    fn stmts(&mut self, ind: usize, d: usize) { let n = if self.budget == 0 { 1 } else { 1 + self.r.below(if d == 0 { 5 } else { 3 }) }; for _ in 0..n { self.stmt(ind, d); } }
    fn line(&mut self) { self.w("\n"); }
    fn stmt(&mut self, ind: usize, d: usize) {
        if self.r.chance(1, 20) { self.tabs(ind); self.w("// la va pa\n"); }
        self.tabs(ind);
        let from = self.stmt;
        match if d > 2 || self.budget == 0 { self.r.below(9) } else { self.r.below(21) } {
            0..=3 => {
                let Some(n) = self.fresh() else { self.w("return\n"); return };
                self.w("var/");
                let ty = self.some_ty();
                self.type_prefix(ty, from);
                let at = self.word(n);
                let mut init = false;
                match self.r.below(5) { 0 => {}, 1 if matches!(ty, Ty::Obj(_)) => { self.w(" = new"); init = true; self.args(2, n); }, _ => { self.w(" = "); init = true; self.expr(1, n); } }
                let _ = init;
                self.add_local(n, ty, At { c0: from, ..at });
                self.line();
            },
            4 => { self.chain(1, "", false); let o = *self.r.pick(&[" = ", " += ", " |= "]); self.w(o); self.expr(1, ""); self.line(); },
            5 => { self.chain(1, "", true); self.line(); },
            6 => { self.w("return "); self.expr(1, ""); self.line(); },
            7 => { let w = *self.r.pick(&["del ", "CRASH(", "del(", "throw "]); self.w(w); self.expr(1, ""); if w.ends_with('(') { self.w(")"); } self.line(); },
            8 => { self.w("world << "); self.expr(1, ""); self.line(); },
            9 | 10 => {
                self.w("if("); self.expr(1, ""); self.w(")\n"); self.block(ind + 1, d + 1);
                if self.r.chance(1, 3) { self.tabs(ind); self.w("else if("); self.expr(1, ""); self.w(")\n"); self.block(ind + 1, d + 1); }
                if self.r.chance(1, 3) { self.tabs(ind); self.w("else\n"); self.block(ind + 1, d + 1); }
            },
            11 => { self.w("while("); self.expr(1, ""); self.w(")\n"); self.block(ind + 1, d + 1); },
            12 => { self.w("do\n"); self.block(ind + 1, d + 1); self.tabs(ind); self.w("while("); self.expr(1, ""); self.w(")\n"); },
            13 => { self.w("spawn("); self.expr(1, ""); self.w(")\n"); self.block(ind + 1, d + 1); },
            14 => {
                self.w("switch("); self.expr(1, ""); self.w(")\n");
                for _ in 0..1 + self.r.below(2) { self.tabs(ind + 1); self.w("if("); let n = self.name(false, ""); self.ident(n); if self.r.bool() { self.w(" to "); let n = self.name(false, ""); self.ident(n); } self.w(")\n"); self.block(ind + 2, d + 1); }
                if self.r.bool() { self.tabs(ind + 1); self.w("else\n"); self.block(ind + 2, d + 1); }
            },
            15 => {
                self.w("try\n"); self.block(ind + 1, d + 1);
                self.tabs(ind);
                self.w("catch(var/exception/");
                let n = *self.r.pick(LN);
                let at = self.word(n);
                self.w(")\n");
                self.scopes.push(vec![]);
                self.add_local(n, Ty::None, at);
                self.caught.push(at);
                self.stmts(ind + 1, d + 1);
                self.scopes.pop();
            },
            16 | 17 => {
                // for in
                self.w("for(var/");
                let n = *self.r.pick(LN);
                let ty = match self.some_ty() { Ty::ListOf(_) => Ty::None, t => t };
                self.type_prefix(ty, from);
                let at = self.word(n);
                let range = self.r.chance(1, 3);
                self.w(if range { " = " } else { " in " });
                self.expr(1, n);
                if range { self.w(" to "); self.expr(1, n); if self.r.bool() { self.w(" step "); self.expr(1, n); } }
                self.w(")\n");
                self.scopes.push(vec![]);
                self.add_local(n, ty, At { c0: from, ..at });
                self.stmts(ind + 1, d + 1);
                self.scopes.pop();
            },
            18 => {
                // for in with a variable that exists, or a range
                self.w("for(");
                let n = self.name(false, "");
                let before = self.refs.clone();
                self.ident(n);
                self.found_at(&before, from);
                let range = self.r.bool();
                self.w(if range { " = " } else { " in " });
                self.expr(1, "");
                if range { self.w(" to "); self.expr(1, ""); }
                self.w(")\n");
                self.block(ind + 1, d + 1);
            },
            19 => {
                // keys and values
                self.w("for(var/");
                let n = *self.r.pick(LN);
                let at = self.word(n);
                self.w(", ");
                let v = if n == "la" { "lb" } else { "la" };
                let vat = self.word(v);
                self.w(" in ");
                self.budget = 0;
                let l = self.name(false, v);
                let l = if l == n { "ga" } else { l };
                self.ident(l);
                self.w(")\n");
                self.scopes.push(vec![]);
                self.add_local(n, Ty::None, At { c0: from, ..at });
                self.add_local(v, Ty::None, At { c0: from, ..vat });
                self.stmts(ind + 1, d + 1);
                self.scopes.pop();
            },
            _ => {
                self.w("for(var/");
                let n = *self.r.pick(LN);
                let at = self.word(n);
                self.w(" = ");
                self.expr(1, n);
                self.scopes.push(vec![]);
                self.add_local(n, Ty::None, At { c0: from, ..at });
                self.w("; ");
                self.expr(1, "");
                self.w("; ");
                self.ident(n);
                self.w("++)\n");
                self.stmts(ind + 1, d + 1);
                self.scopes.pop();
            },
        }
    }
    // ---- declarations
    fn symbol(&mut self, name: &str, kind: u64, line: u32, add: bool) { if add { let f = self.f(); f.symbols.last_mut().unwrap().push(Symbol { name: name.into(), kind, line, children: vec![] }); } }
    fn open_symbol(&mut self) { self.f().symbols.push(vec![]); }
    fn close_symbol(&mut self, name: &str, kind: u64, line: u32) { let f = self.f(); let children = f.symbols.pop().unwrap(); f.symbols.last_mut().unwrap().push(Symbol { name: name.into(), kind, line, children }); }
    fn proc_def(&mut self, k: usize, ind: usize) {
        let (t, name, declared) = (self.defs[k].ty, self.defs[k].name, self.defs[k].declared);
        self.tabs(ind);
        let from = self.stmt;
        if ind == 0 { let p = self.path(t); self.w(&p); self.w("/"); }
        if declared && !self.in_block { self.w("proc/"); }
        let at = self.word(name);
        self.defs[k].at = Some(at);
        self.defs[k].file = self.cur;
        let owner = self.proc_of(t, name, true).unwrap();
        let want = if declared || self.r.chance(0, 1) { Want::Nothing } else { Want::Proc(self.types[t].parent, name) };
        // above the type there may be nothing to go to
        let want = if !declared && owner == t { Want::Nothing } else { want };
        self.probe(at, want, Some(Sym::Proc(owner, name)), None);
        self.w("(");
        let params = self.defs[k].params.clone();
        self.ty = t;
        self.def = Some(k);
        self.scopes = vec![vec![]];
        self.open_symbol();
        for (i, (n, ty)) in params.iter().enumerate() {
            if i > 0 { self.w(", "); }
            self.type_prefix(*ty, from);
            let p = self.word(n);
            for v in self.refs.values_mut() { for a in v { if a.file == p.file && a.line == p.line && a.c1 + 1 == p.c0 { a.c1 = p.c1 + 3; } } }
            if self.r.chance(1, 5) { self.w(" = "); let x = *self.r.pick(&["1", "null"]); self.w(x); }
            self.scopes[0].push((n, *ty, At { c0: from, ..p }));
        }
        self.w(")\n");
        self.budget = 25;
        self.scopes.push(vec![]);
        self.stmts(ind + 1, 0);
        self.scopes.clear();
        self.def = None;
        self.close_symbol(name, if t == 0 { FUNCTION } else { METHOD }, at.line);
    }
    fn var_def(&mut self, t: usize, name: &'static str, ty: Option<Ty>, ind: usize) {
        self.tabs(ind);
        let from = self.stmt;
        self.ty = t;
        if ind == 0 && t != 0 { let p = self.path(t); self.w(&p); self.w("/"); }
        if let Some(ty) = ty { if !self.in_block { self.w("var/"); } self.type_prefix(ty, from); }
        let at = self.word(name);
        let owner = self.declared(t, name, true).unwrap().0;
        self.probe(at, Want::Skip, Some(Sym::Var(owner, name)), None);
        self.types[t].var_at.insert(name, at);
        // the declared type is found at the name
        for v in self.refs.values_mut() { for a in v { if a.file == at.file && a.line == at.line { a.c1 = at.c1 + 3; } } }
        if ty.is_none() || self.r.bool() {
            self.w(" = ");
            self.budget = 6;
            match self.r.below(4) { 0 => { self.budget = 0; self.expr(2, name); }, 1 => { let k = self.some_type(); let at = self.type_path(k); self.used(Sym::Type(k), at); }, 2 => { let (_, c0) = self.here(); self.w("new "); let k = self.some_type(); let at = self.type_path(k); self.used(Sym::Type(k), At { c0, ..at }); self.w("(1)"); }, _ => self.w("5") }
        }
        self.line();
        self.symbol(name, FIELD, at.line, true);
    }
    fn type_block(&mut self, t: usize, ind: usize, nested: &BTreeSet<usize>) {
        self.tabs(ind);
        let p = self.path(t);
        let last = p.rsplit('/').next().unwrap().to_owned();
        let at = if ind == 0 { self.w(&p[..p.len() - last.len()]); self.word(&last) } else { self.word(&last) };
        self.types[t].decl = Some(At { c0: self.stmt, ..at });
        self.probe(at, Want::Type(t), Some(Sym::Type(t)), None);
        self.line();
        self.open_symbol();
        let mut any = false;
        if !p[..p.len() - last.len() - 1].ends_with(&self.path(self.types[t].parent)) || self.types[t].parent == 0 && false {
            self.tabs(ind + 1);
            let (line, _) = self.here();
            self.w("parent_type = ");
            let k = self.types[t].parent;
            let at = self.type_path(k);
            self.used(Sym::Type(k), at);
            self.line();
            self.symbol("parent_type", FIELD, line, true);
            any = true;
        }
        // some variables and procs are declared in blocks of their own
        let vars = self.types[t].vars.clone();
        let some = if self.r.bool() { self.r.below(vars.len() + 1) } else { 0 };
        if some > 0 {
            self.tabs(ind + 1);
            let (line, _) = self.here();
            self.w("var\n");
            self.open_symbol();
            self.in_block = true;
            for (n, ty) in &vars[..some] { self.var_def(t, n, Some(*ty), ind + 2); }
            self.in_block = false;
            self.close_symbol("var", CLASS, line);
            any = true;
        }
        for (n, ty) in vars[some..].to_vec() { self.var_def(t, n, Some(ty), ind + 1); any = true; }
        for n in self.types[t].overrides.clone() { self.var_def(t, n, None, ind + 1); any = true; }
        let procs: Vec<usize> = (0..self.defs.len()).filter(|&k| self.defs[k].ty == t && self.defs[k].block && self.defs[k].declared).collect();
        let some = if self.r.chance(1, 3) { self.r.below(procs.len() + 1) } else { 0 };
        if some > 0 {
            self.tabs(ind + 1);
            let (line, _) = self.here();
            self.w("proc\n");
            self.open_symbol();
            self.in_block = true;
            for &k in &procs[..some] { self.proc_def(k, ind + 2); }
            self.in_block = false;
            self.close_symbol("proc", CLASS, line);
            any = true;
        }
        for k in 0..self.defs.len() { if self.defs[k].ty == t && self.defs[k].block && !procs[..some].contains(&k) { self.proc_def(k, ind + 1); any = true; } }
        for k in 1..self.types.len() { if nested.contains(&k) && k != t && self.types[k].path.starts_with(&format!("{p}/")) && !self.types[k].path[p.len() + 1..].contains('/') { self.type_block(k, ind + 1, nested); any = true; } }
        let line = at.line;
        if any { self.close_symbol(&last, CLASS, line); } else { self.f().symbols.pop(); }
        if self.r.bool() { self.line(); }
    }

    // ---- the answers
    fn order(&self, t: usize, name: &str) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.defs.len()).filter(|&k| self.defs[k].ty == t && self.defs[k].name == name).collect();
        v.sort_by_key(|&k| self.defs[k].at);
        if let Some(i) = v.iter().position(|&k| self.defs[k].declared) { let k = v.remove(i); v.insert(0, k); }
        v
    }
    fn target(&self, want: Want) -> Option<At> {
        match want {
            Want::Nothing | Want::Skip => None,
            Want::Type(t) => self.types[t].decl,
            Want::Var(mut t, n) => loop { if let Some(a) = self.types[t].var_at.get(n) { return Some(*a); } if t == 0 { return None; } t = self.types[t].parent; },
            Want::Proc(mut t, n) => loop { if let Some(&k) = self.order(t, n).last() { return self.defs[k].at; } if t == 0 { return None; } t = self.types[t].parent; },
            Want::Parent(k) => {
                let (t, n) = (self.defs[k].ty, self.defs[k].name);
                let v = self.order(t, n);
                let i = v.iter().position(|&x| x == k).unwrap();
                if i > 0 { return self.defs[v[i - 1]].at; }
                if t == 0 { return None; }
                // a proc of the same name which is no method is not called
                let mut p = self.types[t].parent;
                while p != 0 { if let Some(&k) = self.order(p, n).last() { return self.defs[k].at; } p = self.types[p].parent; }
                None
            },
            Want::Local(at) => Some(at),
            Want::Define(k) => self.defines[k],
        }
    }
}

fn plan<'a>(r: &'a mut Rng) -> G<'a> {
    let nf = 2 + r.below(3);
    let files = (0..nf).map(|i| F { name: ["a.dm", "b.dm", "c.dm", "sub/d.dm", "e.dm"][i].into(), text: String::new(), line: 0, col: 0, symbols: vec![vec![]] }).collect();
    let mut g = G { r, files, cur: 0, types: vec![Type::default()], defs: vec![], defines: vec![None; DEFINES.len()], refs: BTreeMap::new(), probes: vec![], ty: 0, def: None, scopes: vec![], no_colon: 0, stmt: 0, budget: 0, skip: false, caught: vec![], in_block: false };
    let names = ["ta", "tb", "tc", "td", "te", "tf"];
    let mut nested = BTreeSet::new();
    for i in 0..2 + g.r.below(5) {
        let (path, parent) = if i > 0 && g.r.chance(2, 3) {
            let p = 1 + g.r.below(i);
            (format!("{}/{}", g.types[p].path, names[i]), p)
        } else {
            let path = format!("/{}/{}", g.r.pick(&["datum", "datum", "obj", "mob"]), names[i]);
            // some inherit from a type which is not above them
            (path, if i > 0 && g.r.chance(1, 5) { 1 + g.r.below(i) } else { 0 })
        };
        if g.types.iter().any(|t| !t.path.is_empty() && path.starts_with(&format!("{}/", t.path))) && g.r.chance(1, 3) { nested.insert(i + 1); }
        g.types.push(Type { path, parent, ..Type::default() });
    }
    // a nested type must be below one written as a block of its own, directly
    let nt = g.types.len();
    nested.retain(|&k| { let p = g.types[k].path.rsplit_once('/').unwrap().0; g.types.iter().any(|t| t.path == p) });
    for t in 0..nt {
        let pool: &[&str] = if t == 0 { GN } else { VN };
        for &n in pool {
            let above = if t == 0 { None } else { g.declared(g.types[t].parent, n, false) };
            match above {
                Some(_) => if g.r.chance(1, 3) { g.types[t].overrides.push(n) },
                None => if g.r.chance(1, 2) { let ty = g.some_ty(); g.types[t].vars.push((n, ty)); },
            }
        }
        let pool: &[&str] = if t == 0 { GP } else { PN };
        for &n in pool {
            let above = if t == 0 { None } else { g.proc_of(g.types[t].parent, n, false) };
            let mut kinds = vec![];
            match above {
                Some(_) => if g.r.chance(1, 3) { kinds.push(false); if g.r.chance(1, 5) { kinds.push(false); } },
                None => if g.r.chance(1, 2) { g.types[t].procs.push(n); kinds.push(true); if t != 0 && g.r.chance(1, 5) { kinds.push(false); } },
            }
            for declared in kinds {
                let mut params: Vec<(&'static str, Ty)> = vec![];
                for _ in 0..g.r.below(3) { let n = if g.r.chance(1, 3) { *g.r.pick(VN) } else { *g.r.pick(LN) }; if params.iter().all(|p| p.0 != n) { let ty = g.some_ty(); params.push((n, ty)); } }
                let block = t != 0 && g.r.bool();
                g.defs.push(Def { ty: t, name: n, declared, at: None, params, block, file: 0 });
            }
        }
    }
    // the order of everything that is written on its own
    #[derive(Clone, Copy)]
    enum Item { Type(usize), Proc(usize), Global(&'static str, Ty) }
    let mut items: Vec<Item> = vec![];
    for t in 1..nt { if !nested.contains(&t) { items.push(Item::Type(t)); } }
    for (k, d) in g.defs.iter().enumerate() { if !d.block { items.push(Item::Proc(k)); } }
    for &(n, ty) in &g.types[0].vars { items.push(Item::Global(n, ty)); }
    let mut v = items;
    g.r.shuffle(&mut v);
    let nf = g.files.len();
    let mut per: Vec<Vec<Item>> = vec![vec![]; nf];
    for i in v { let f = g.r.below(nf); per[f].push(i); }
    for (f, items) in per.into_iter().enumerate() {
        g.cur = f;
        if g.r.bool() { g.w("// a comment\n\n"); }
        for i in items {
            match i {
                Item::Type(t) => g.type_block(t, 0, &nested),
                Item::Proc(k) => { g.proc_def(k, 0); if g.r.bool() { g.line(); } },
                Item::Global(n, ty) => g.var_def(0, n, Some(ty), 0),
            }
        }
    }
    g
}

fn locations(v: &Value) -> Vec<(String, u32, u32)> {
    let one = |l: &Value| (l["uri"].as_str().unwrap_or("?").to_owned(), l["range"]["start"]["line"].as_u64().unwrap_or(u32::MAX as u64) as u32, l["range"]["start"]["character"].as_u64().unwrap_or(u32::MAX as u64) as u32);
    match v { Value::Array(a) => a.iter().map(one).collect(), Value::Null => vec![], v => vec![one(v)] }
}
/// whether every place told is one of the expected ones and each of those is told once
fn matched(told: &[(usize, u32, u32)], want: &[At]) -> Result<(), String> {
    let fits = |t: &(usize, u32, u32), a: &At| t.0 == a.file && t.1 == a.line && t.2 >= a.c0 && t.2 <= a.c1;
    let mut owner: Vec<Option<usize>> = vec![None; want.len()];
    fn place(i: usize, fit: &dyn Fn(usize, usize) -> bool, owner: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for j in 0..owner.len() {
            if !fit(i, j) || seen[j] { continue; }
            seen[j] = true;
            if owner[j].is_none_or(|o| place(o, fit, owner, seen)) { owner[j] = Some(i); return true; }
        }
        false
    }
    for i in 0..told.len() {
        let mut seen = vec![false; want.len()];
        if !place(i, &|a, b| fits(&told[a], &want[b]), &mut owner, &mut seen) { return Err(format!("surplus {:?}", told[i])); }
    }
    match owner.iter().position(Option::is_none) { Some(j) => Err(format!("missing {:?}", want[j])), None => Ok(()) }
}
fn outline(v: &Value) -> Vec<Symbol> {
    v.as_array().into_iter().flatten().map(|s| Symbol { name: s["name"].as_str().unwrap_or("?").into(), kind: s["kind"].as_u64().unwrap_or(0), line: s["range"]["start"]["line"].as_u64().unwrap_or(u32::MAX as u64) as u32, children: outline(&s["children"]) }).collect()
}
fn simple(s: &str) -> String { s.to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect() }

fn case(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut r2 = Rng::new(r.u64());
    let g = plan(&mut r);
    let dir = cx.scratch.join("p");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let mut g = g;
    // the environment: macros, then the files
    let env = g.files.len();
    g.files.push(F { name: "p.dme".into(), text: String::new(), line: 0, col: 0, symbols: vec![vec![]] });
    g.cur = env;
    for (k, d) in ["MA 5", "MB(x) (x + 1)"].iter().enumerate() { g.w("#define "); let at = g.word(DEFINES[k]); g.w(&d[2..]); g.defines[k] = Some(At { c0: 0, ..at }); g.symbol(DEFINES[k], CONSTANT, at.line, true); g.line(); }
    for f in 0..env { let n = g.files[f].name.replace('/', "\\"); g.w(&format!("#include \"{n}\"\n")); }
    for f in &g.files { std::fs::write(dir.join(&f.name), &f.text).unwrap(); }
    let told: String = g.files.iter().map(|f| format!("== {}\n{}", f.name, f.text)).collect();
    cx.input(told.clone());
    let root = format!("file://{}", dir.display());
    let uri = |f: usize| format!("{root}/{}", g.files[f].name);
    let mut s = Lsp::session(&dir, Some(&root), json!({}));
    let file_of = |u: &str| (0..g.files.len()).find(|&f| uri(f) == *u).unwrap_or(99);
    macro_rules! ask { ($m:expr, $p:expr) => { match s.ask($m, $p) { Some(v) => v, None => { cx.violate("no answer", format!("{}\n{}\n{told}", $m, s.stderr())); return; } } } }
    // the table of references is made in the background
    let with_uses: Vec<usize> = (0..g.probes.len()).filter(|&i| g.probes[i].sym.is_some_and(|s| g.refs.get(&s).is_some_and(|v| !v.is_empty()))).collect();
    if let Some(&i) = with_uses.first() {
        let p = &g.probes[i];
        let end = Instant::now() + Duration::from_secs(30);
        loop {
            let mut q = at(&uri(p.at.file), p.at.line, p.at.c0 + 1);
            q["context"] = json!({"includeDeclaration": false});
            if !ask!("textDocument/references", q).is_null() { break; }
            if Instant::now() > end { cx.violate("no references of something used", format!("{p:?}\n{told}")); return; }
            std::thread::sleep(Duration::from_millis(10));
        }
    }
    let mut checked = 0;
    // what names at random places mean
    let mut order: Vec<usize> = (0..g.probes.len()).collect();
    r2.shuffle(&mut order);
    order.truncate(120);
    let shifted = if r2.chance(1, 3) { Some((r2.below(env), 1 + r2.below(3) as u32)) } else { None };
    if let Some((f, n)) = shifted { let t = format!("{}{}", "// above\n".repeat(n as usize), g.files[f].text); let u = uri(f); s.open(&u, 1, &t); }
    let mut asked_refs = BTreeSet::new();
    for &i in &order {
        let p = g.probes[i].clone();
        let shift = match shifted { Some((f, n)) if f == p.at.file => n, _ => 0 };
        let len = p.at.c1 - p.at.c0;
        let edge = r2.chance(1, 3);
        let col = p.at.c0 + if edge { *r2.pick(&[0, len]) } else { 1 + r2.below(len as usize - 1) as u32 };
        // the end of a block reaches up to the next statement
        if edge && col == p.at.c0 && g.files[p.at.file].text.lines().nth(p.at.line as usize).unwrap()[..col as usize].trim().is_empty() { continue; }
        let here = at(&uri(p.at.file), p.at.line + shift, col);
        if p.want != Want::Skip {
            let v = ask!("textDocument/definition", here.clone());
            let got = locations(&v);
            let want = g.target(p.want);
            let say = |why: &str| format!("{why} at {}:{}:{} ({:?}): {got:?}, expected {want:?}\n{told}", g.files[p.at.file].name, p.at.line + shift + 1, col + 1, p.want);
            match want {
                None => { if !edge && !got.is_empty() { cx.violate("definition of nothing", say("definition")); return; } },
                Some(w) => {
                    let stale = shift > 0 && w.file == p.at.file && !p.local;
                    let own = p.local && shifted.is_some_and(|(f, _)| f == w.file);
                    // parameters are known from when the project was loaded
                    let lines: Vec<u32> = if own { vec![w.line, w.line + shift] } else { vec![w.line] };
                    let fits = |l: &(String, u32, u32)| l.0 == uri(w.file) && (stale || lines.contains(&l.1) && (l.2 + 1 >= w.c0 || p.local) && l.2 <= w.c1 + 3);
                    let kind = format!("{:?}", p.want);
                    let kind = kind.split(|c: char| !c.is_alphabetic()).next().unwrap();
                    if !got.iter().any(fits) { cx.violate(format!("definition of {kind}: {}", if got.is_empty() { "none" } else { "another" }), say("definition")); return; }
                    if !edge && got.len() != 1 { cx.violate(format!("definition of {kind}: several"), say("definition")); return; }
                },
            }
            checked += 1;
            cx.count("definitions", 1);
        }
        if edge { continue; }
        // the type of a variable
        if let Some(ty) = p.ty {
            let v = ask!("textDocument/typeDefinition", here.clone());
            let got = locations(&v);
            match ty {
                Ty::None => if !got.is_empty() { cx.violate("type of an untyped variable", format!("{got:?} at {p:?}\n{told}")); return; },
                Ty::List | Ty::ListOf(_) => {},
                Ty::Obj(t) => { let w = g.types[t].decl.unwrap(); if got.len() != 1 || got[0].0 != uri(w.file) || got[0].1 != w.line { cx.violate("type of a variable", format!("{got:?}, expected {w:?} at {p:?}\n{told}")); return; } },
            }
            cx.count("type definitions", 1);
        }
        if p.local {
            let mut q = here.clone();
            q["context"] = json!({"includeDeclaration": true});
            let v = ask!("textDocument/references", q);
            if !v.is_null() { cx.violate("references of a local are those of another symbol", format!("{v} at {p:?}\n{told}")); return; }
        }
        let Some(sym) = p.sym else { continue };
        if !asked_refs.insert((sym, r2.below(3))) { continue; }
        let mut q = here.clone();
        q["context"] = json!({"includeDeclaration": r2.bool()});
        let v = ask!("textDocument/references", q);
        let got: Vec<(usize, u32, u32)> = locations(&v).iter().map(|l| (file_of(&l.0), l.1, l.2)).collect();
        let want = g.refs.get(&sym).cloned().unwrap_or_default();
        if let Err(e) = matched(&got, &want) {
            let kind = match sym { Sym::Type(_) => "type", Sym::Var(..) => "variable", Sym::Proc(..) => "proc" };
            let what = e.split(' ').next().unwrap();
            cx.violate(format!("references of a {kind}: {what}"), format!("{e} (lines from 0) of {sym:?} {}\ngot {got:?}\nexpected {want:?}\n{told}", match sym { Sym::Type(t) | Sym::Var(t, _) | Sym::Proc(t, _) => g.types[t].path.clone() }));
            return;
        }
        cx.count("references listed", got.len() as u64);
        let v = ask!("textDocument/implementation", here);
        let got: Vec<(usize, u32, u32)> = locations(&v).iter().map(|l| (file_of(&l.0), l.1, l.2)).collect();
        let want: Vec<Vec<At>> = match sym {
            Sym::Type(t) => vec![vec![g.types[t].decl.unwrap()]],
            Sym::Var(o, n) => (0..g.types.len()).filter(|&t| g.declared(t, n, true).map(|d| d.0) == Some(o)).filter_map(|t| g.types[t].var_at.get(n).map(|a| vec![*a])).collect(),
            Sym::Proc(o, n) => (0..g.types.len()).filter(|&t| g.proc_of(t, n, true) == Some(o)).map(|t| g.order(t, n).iter().filter_map(|&k| g.defs[k].at).collect::<Vec<_>>()).filter(|v| !v.is_empty()).collect(),
        };
        let ok = got.len() == want.len() && want.iter().all(|w| got.iter().filter(|l| w.iter().any(|a| l.0 == a.file && l.1 == a.line && l.2 + 1 >= a.c0 && l.2 <= a.c1 + 3)).count() == 1);
        if !ok { cx.violate("implementations", format!("{got:?}, expected one of each of {want:?} for {sym:?}\n{told}")); return; }
        cx.count("implementations", want.len() as u64);
        checked += 2;
    }
    // outlines
    for f in 0..env {
        if r2.chance(1, 2) { continue; }
        let shift = match shifted { Some((x, n)) if x == f => n, _ => 0 };
        let v = ask!("textDocument/documentSymbol", doc(&uri(f)));
        let mut got = outline(&v);
        fn back(v: &mut [Symbol], by: u32) { for s in v { s.line = s.line.wrapping_sub(by); back(&mut s.children, by); } }
        back(&mut got, shift);
        let mut want = g.files[f].symbols[0].clone();
        // the variables of one loop are in no order
        fn order(v: &mut [Symbol]) { v.sort_by(|a, b| (a.line, a.kind == VARIABLE, if a.kind == VARIABLE { &a.name } else { "" }).cmp(&(b.line, b.kind == VARIABLE, if b.kind == VARIABLE { &b.name } else { "" }))); for s in v { order(&mut s.children); } }
        order(&mut got);
        order(&mut want);
        // a block may begin with its first entry
        fn heads(v: &mut [Symbol], w: &[Symbol]) { for (a, b) in v.iter_mut().zip(w) { if a.kind == CLASS && a.line >= b.line && b.children.first().is_some_and(|c| a.line <= c.line) { a.line = b.line; } heads(&mut a.children, &b.children); } }
        heads(&mut got, &want);
        if got != want { cx.violate("outline", format!("{}\ngot      {got:?}\nexpected {want:?}\n{told}", g.files[f].name)); return; }
        checked += 1;
        cx.count("outlines", 1);
    }
    // symbols of the project
    for _ in 0..3 {
        let (query, kinds) = match r2.below(6) {
            0 => (format!("#{}", r2.pick(&["m", "MA", "mb", "x"])), 0),
            1 => (format!("var/{}", r2.pick(&["v", "va", "vd", "V_", "g", "zz"])), 1),
            2 => (format!("proc/{}", r2.pick(&["p", "pa", "G", "gq"])), 2),
            3 => (r2.pick(&["/ta", "/t", "ta/t", "datum/t", "/TB"]).to_string(), 3),
            _ => (r2.pick(&["v", "va", "vd", "p", "pa", "t", "ta", "TB", "g", "ma", "m", "_v"]).to_string(), 4),
        };
        let bare = query.rsplit_once('/').filter(|_| kinds == 1 || kinds == 2).map_or(query.trim_start_matches('#'), |x| x.1).to_owned();
        let hit = |n: &str| simple(n).starts_with(&simple(&bare));
        let mut want: Vec<(String, u64, usize, u32)> = vec![];
        if matches!(kinds, 0 | 4) { for (k, d) in DEFINES.iter().enumerate() { if hit(d) { let a = g.defines[k].unwrap(); want.push((d.to_string(), CONSTANT, a.file, a.line)); } } }
        for (t, ty) in g.types.iter().enumerate() {
            if t > 0 { let last = ty.path.rsplit('/').next().unwrap(); let a = ty.decl.unwrap(); if kinds == 4 && hit(last) || kinds == 3 && ty.path.to_lowercase().contains(&query.to_lowercase()) { want.push((last.into(), CLASS, a.file, a.line)); } }
            if matches!(kinds, 1 | 4) { for (n, _) in &ty.vars { if hit(n) { let a = ty.var_at[n]; want.push((n.to_string(), FIELD, a.file, a.line)); } } }
            if matches!(kinds, 2 | 4) { for n in &ty.procs { if hit(n) { let k = g.defs.iter().find(|d| d.ty == t && d.name == *n && d.declared).unwrap(); let a = k.at.unwrap(); want.push((n.to_string(), if t == 0 { FUNCTION } else { METHOD }, a.file, a.line)); } } }
        }
        want.sort();
        let v = ask!("workspace/symbol", json!({"query": query}));
        let builtin = |x: &Value| x["name"].as_str().is_some_and(|n| ["mob", "obj", "datum"].contains(&n)); let mut got: Vec<(String, u64, usize, u32)> = v.as_array().into_iter().flatten().filter(|x| !builtin(x)).filter(|x| x["location"]["uri"].as_str().is_some_and(|u| u.starts_with("file:"))).map(|x| (x["name"].as_str().unwrap_or("?").into(), x["kind"].as_u64().unwrap_or(0), file_of(x["location"]["uri"].as_str().unwrap()), x["location"]["range"]["start"]["line"].as_u64().unwrap_or(0) as u32)).collect();
        got.sort();
        if got != want { cx.violate("workspace symbols", format!("{query}\ngot      {got:?}\nexpected {want:?}\n{told}")); return; }
        checked += 1;
        cx.count("symbol queries", 1);
    }
    cx.sig(&told);
    if checked >= 30 { cx.nontrivial(); }
    s.call("shutdown", Value::Null);
    s.notify("exit", Value::Null);
    s.drain_for(Duration::from_secs(20));
}
