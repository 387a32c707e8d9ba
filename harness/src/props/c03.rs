use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use dm::ast::*;
use dm::lexer::{LocatedToken, Lexer, Punctuation as P, Token};
use dm::preprocessor::Preprocessor;
use dm::{Context, FileId};
use std::collections::BTreeMap;
use std::path::PathBuf;

pub static PROP: Prop = Prop {
    id: "C03",
    quick: 90000,
    thorough: 500000,
    case,
    directed: &[("endings and empty files", endings)],
    rule: "a case is a source text written piece by piece by a generator that records the line and byte column of every token, statement, identifier and provoked diagnostic as it writes (comments, line continuations, block strings over several lines, interpolations, tabs, CRLF, byte order mark, includes and macro uses in between); the positions reported by the lexer, the preprocessor, the syntax tree and the diagnostics are compared with the record; distinct by text, non-trivial with at least ten recorded positions on three lines",
    assumptions: &["columns count bytes, as the tool does throughout; a tab is one column", "a token that comes out of a macro carries the position of the macro use", "nodes whose reported position is a later token of the declaration (proc headers, variables) are checked to lie within the declaration"],
    ..DEFAULT
};

#[derive(Clone)]
struct B { s: Vec<u8>, line: u32, col: u32 }
impl B {
    fn new() -> B { B { s: vec![], line: 1, col: 1 } }
    fn pos(&self) -> (u32, u32) { (self.line, self.col) }
    fn put(&mut self, t: &str) { self.bytes(t.as_bytes()); }
    fn bytes(&mut self, t: &[u8]) {
        for &b in t { self.s.push(b); if b == b'\n' { self.line += 1; self.col = 1; } else { self.col += 1; } }
    }
    fn text(&self) -> String { String::from_utf8_lossy(&self.s).into_owned() }
}

type Tok = (String, u32, u32);
fn kind(t: &Token) -> Option<String> {
    Some(match t {
        Token::Ident(s, _) => format!("id {}", s.as_str()),
        Token::Int(i) => format!("int {i}"),
        Token::Float(f) => format!("float {f:?}"),
        Token::String(s) => format!("str {s}"),
        Token::InterpStringBegin(s) => format!("begin {s}"),
        Token::InterpStringPart(s) => format!("part {s}"),
        Token::InterpStringEnd(s) => format!("end {s}"),
        Token::Resource(s) => format!("res {s}"),
        Token::DocComment(_) => "doc".into(),
        Token::Punct(P::Space | P::Tab) => return None,
        Token::Punct(P::Newline) => "newline".into(),
        Token::Punct(P::CloseColon) => "':'".into(),
        Token::Punct(p) => p.single_quoted().into(),
        Token::Eof => "eof".into(),
    })
}

struct Soup<'a> { rng: &'a mut Rng, b: B, toks: Vec<Tok>, n: u32, docs: bool }
impl Soup<'_> {
    fn rec(&mut self, k: String) { let (l, c) = self.b.pos(); self.toks.push((k, l, c)); }
    fn word(&mut self) -> String { self.n += 1; format!("w{}", self.n) }
    fn newline(&mut self) {
        if self.rng.chance(1, 6) { self.b.put("\r"); }
        self.rec("newline".into());
        self.b.put("\n");
    }
    /// Something that is not a token.
    fn gap(&mut self) {
        match self.rng.below(16) {
            0 => self.b.put("\t"),
            1 => self.b.put("   "),
            2 => self.b.put(" /* comment */ "),
            3 => self.b.put(" /* over\n two // lines\n */ "),
            4 => self.b.put(" \\\n"),
            5 => self.b.put(" \\\n  \t "),
            6 => self.b.put(" \\\r\n "),
            7 => self.b.put("/* é \"quote */ "),
            8 => self.b.put(" /* nested /* inner */ outer */ "),
            _ => self.b.put(" "),
        }
    }
    fn piece(&mut self, block: bool) -> (String, String) {
        // (text, token content)
        let (mut t, mut c) = (String::new(), String::new());
        for _ in 0..self.rng.below(5) {
            let r = self.rng.below(9);
            let s: &str = match r { 0 => "\\n", 1 => "\\\"", 2 => "é", 3 => "//", 4 if block => "\n", 5 => { t.push_str("\\\n    k"); c.push('k'); continue; }, 6 => "'", _ => "ab" };
            t.push_str(s);
            c.push_str(s);
        }
        t.push('.'); c.push('.');
        (t, c)
    }
    fn token(&mut self, depth: usize) {
        match self.rng.below(11) {
            0..=2 => { let w = self.word(); self.rec(format!("id {w}")); self.b.put(&w); },
            3 => { let v = self.rng.below(100000); self.rec(format!("int {v}")); self.b.put(&v.to_string()); },
            4 => { self.rec(format!("float {:?}", 2.5f32)); self.b.put("2.5"); },
            5 | 6 => {
                let p = *self.rng.pick(&["+", "-", "==", "<<=", "(", ")", "{", "}", ",", ";", "?", "!", "~=", "&&", "||=", "=", "<", ">=", "..", ".", "%%", "in", "?.", "::", "*"]);
                self.rec(format!("'{p}'"));
                self.b.put(p);
            },
            7 => {
                let block = self.rng.bool();
                let (t, c) = self.piece(block);
                self.rec(format!("str {c}"));
                if block { self.b.put(&format!("{{\"{t}\"}}")) } else { self.b.put(&format!("\"{t}\"")) }
            },
            8 => {
                let (t, c, o, e) = *self.rng.pick(&[("r[\\", "r[\\", "@{\"", "\"}"), ("two\nlines", "two\nlines", "@{\"", "\"}"), ("x\"y", "x\"y", "@!", "!"), ("q\\", "q\\", "@(ZZ)", "ZZ")]);
                self.rec(format!("str {c}"));
                self.b.put(o); self.b.put(t); self.b.put(e);
            },
            9 => {
                let t = *self.rng.pick(&["a.dmi", "é/x.ogg", "it\\'s"]);
                self.rec(format!("res {}", t.replace("\\'", "'")));
                self.b.put(&format!("'{t}'"));
            },
            _ if depth > 0 => {
                let block = self.rng.bool();
                let (t, c) = self.piece(block);
                self.rec(format!("begin {c}"));
                self.b.put(if block { "{\"" } else { "\"" });
                self.b.put(&t);
                for k in (0..1 + self.rng.below(2)).rev() {
                    self.b.put("[");
                    for _ in 0..self.rng.below(3) { self.b.put(" "); self.token(depth - 1); self.gap(); }
                    let (t, c) = self.piece(block);
                    self.rec(format!("{} {c}", if k == 0 { "end" } else { "part" }));
                    self.b.put("]");
                    self.b.put(&t);
                }
                self.b.put(if block { "\"}" } else { "\"" });
            },
            _ => { self.rec("':'".into()); self.b.put(":"); },
        }
    }
    fn run(&mut self, n: usize) {
        for _ in 0..n {
            self.token(2);
            match self.rng.below(9) {
                0 => self.newline(),
                1 => { self.b.put(" // note é"); self.newline(); },
                2 => { self.newline(); let ind = *self.rng.pick(&["\t", "    ", "\t\t"]); self.b.put(ind); },
                3 if self.docs => { self.b.put(" "); self.rec("doc".into()); self.b.put("/// doc"); self.newline(); },
                4 if self.docs => { self.newline(); self.rec("doc".into()); self.b.put("/** doc\n * more\n */"); self.newline(); },
                5 => { self.newline(); self.newline(); },
                _ => self.gap(),
            }
        }
    }
}

fn compare(cx: &mut Cx, want: &[(String, String, u32, u32)], got: &[(String, String, u32, u32)], what: &str) {
    let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    ensure!(cx, n == want.len() && n == got.len(), format!("position {what}"),
        "position {n}: expected {:?}, got {:?} (of {} and {})", want.get(n), got.get(n), want.len(), got.len());
    cx.count(&format!("positions compared: {what}"), n as u64);
}

fn case(cx: &mut Cx) {
    match cx.rng.clone().below(10) {
        0..=3 => lexed(cx),
        4..=6 => preprocessed(cx),
        _ => parsed(cx),
    }
}

fn lexed(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    rng.u64();
    let bom = rng.chance(1, 5);
    let n = 3 + rng.below(5 + cx.size);
    let mut s = Soup { rng: &mut rng, b: B::new(), toks: vec![], n: 0, docs: true };
    s.run(n);
    let (b, toks) = (s.b, s.toks);
    cx.input(b.text());
    if toks.len() >= 10 && b.line >= 3 { cx.nontrivial(); }
    cx.max("lines", b.line as u64);
    let mut bytes = b.s.clone();
    if bom { bytes.splice(0..0, *b"\xEF\xBB\xBF"); }
    let ctx = Context::default();
    let file = ctx.register_file(std::path::Path::new("some.dm"));
    let all: Vec<LocatedToken> = Lexer::new(&ctx, file, bytes).collect();
    ensure!(cx, ctx.errors().is_empty(), "diagnostics", "{:?}", diags(&ctx));
    ensure!(cx, all.iter().all(|t| t.location.file == file), "file identity", "a token carries another file");
    for w in all.windows(2) { ensure!(cx, w[0].location <= w[1].location, "backwards", "{:?} then {:?}", w[0], w[1]); }
    let mut got: Vec<_> = all.iter().filter_map(|t| kind(&t.token).map(|k| (k, String::new(), t.location.line, t.location.column as u32))).collect();
    // The lexer always ends with a newline of its own, placed at the end of the file.
    let last = got.pop();
    ensure!(cx, last.as_ref().is_some_and(|l| l.0 == "newline"), "final newline", "{last:?}");
    let want: Vec<_> = toks.iter().map(|t| (t.0.clone(), String::new(), t.1, t.2)).collect();
    compare(cx, &want, &got, "lexer");
    if cx.violated() { return; }
    // Indentation adds block tokens but moves nothing and never goes back.
    let kept = |v: &[LocatedToken]| -> Vec<_> { v.iter().filter_map(|t| kind(&t.token).map(|k| (k, String::new(), t.location.line, t.location.column as u32))).filter(|t| !matches!(&*t.0, "newline" | "';'" | "'{'" | "'}'")).collect::<Vec<_>>() };
    let ind: Vec<LocatedToken> = dm::indents::IndentProcessor::new(&ctx, all.iter().cloned()).collect();
    compare(cx, &kept(&all), &kept(&ind), "after indentation");
    for w in ind.windows(2) { ensure!(cx, w[0].location <= w[1].location, "backwards after indentation", "{:?} then {:?}", w[0], w[1]); }
}

fn preprocessed(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    rng.u64();
    let dir = cx.dir("pp");
    let nfiles = 1 + rng.below(3);
    // Files from the last to the first, so that the tokens of an included file are known.
    let mut outs: Vec<Vec<(String, String, u32, u32)>> = vec![vec![]; nfiles];
    let name = |i: usize| if i == 0 { "main.dme".to_owned() } else { format!("f{i}.dm") };
    let mut texts = vec![];
    let macros = "#define OBJ  m1 +  m2\n#define FUN(a, b) [a m3 b]\n#define NAME m4\n";
    for i in (0..nfiles).rev() {
        let mut out: Vec<(String, String, u32, u32)> = vec![];
        let mut s = Soup { rng: &mut rng, b: B::new(), toks: vec![], n: 1000 * i as u32, docs: false };
        if i == 0 { s.b.put(macros); }
        let file = name(i);
        let flush = |s: &mut Soup, out: &mut Vec<_>| out.extend(s.toks.drain(..).filter(|t| t.0 != "newline").map(|t| (t.0, file.clone(), t.1, t.2)));
        if i + 1 == nfiles || s.rng.bool() { let n = 1 + s.rng.below(6); s.run(n); s.newline(); }
        for part in 0..2 {
            if part == 0 && i + 1 < nfiles {
                flush(&mut s, &mut out);
                s.b.put(&format!("#include \"{}\"\n", name(i + 1)));
                out.extend(outs[i + 1].clone());
            }
            let n = s.rng.below(4);
            s.run(n);
            s.b.put(" ");
            let (l, c) = s.b.pos();
            match s.rng.below(5) {
                0 => { for k in ["id m1", "'+'", "id m2"] { s.toks.push((k.into(), l, c)); } s.b.put("OBJ "); },
                1 => {
                    for k in ["'['", "id x1", "'+'", "int 3", "id m3", "id m4", "']'"] { s.toks.push((k.into(), l, c)); }
                    s.b.put("FUN(x1 + /* c */ 3, \\\n  NAME)");
                },
                2 => { s.toks.push((format!("int {l}"), l, c)); s.b.put("__LINE__"); },
                3 => { s.rec("id FUN".into()); s.b.put("FUN "); s.rec("'+'".into()); s.b.put("+"); },
                _ => {},
            }
            s.newline();
            if s.rng.bool() { s.b.put("#if 0\n dead 'tokens' \\\n here\n#endif\n"); }
            if s.rng.bool() { s.b.put("#ifdef OBJ\n"); let n = s.rng.below(3); s.run(n); s.newline(); s.b.put("#endif\n"); }
        }
        flush(&mut s, &mut out);
        std::fs::write(dir.join(&file), &s.b.s).unwrap();
        texts.push(format!("==== {file}\n{}", s.b.text()));
        outs[i] = out;
    }
    texts.reverse();
    cx.input(texts.join("\n"));
    cx.nontrivial();
    let ctx = Context::default();
    let pp = Preprocessor::new(&ctx, dir.join("main.dme")).unwrap();
    let all: Vec<LocatedToken> = pp.collect();
    let bad: Vec<_> = diags(&ctx);
    ensure!(cx, bad.is_empty(), "diagnostics preprocessing", "{bad:?}");
    let got: Vec<_> = all.iter().filter_map(|t| kind(&t.token).map(|k| (k, t.location))).filter(|t| t.0 != "newline")
        .map(|(k, l)| (k, fname(&ctx, l.file).rsplit('/').next().unwrap().to_owned(), l.line, l.column as u32)).collect();
    compare(cx, &outs[0].clone(), &got, "preprocessor");
}

// ---------------------------------------------------------------------------------------------
// syntax tree

struct Prog<'a> { rng: &'a mut Rng, b: B, n: u32, idents: BTreeMap<String, (u32, u32)>, starts: Vec<(u32, u32)>, decls: Vec<(String, u32, u32, u32)>, diags: Vec<(String, u32, u32)> }
impl Prog<'_> {
    fn gap(&mut self) {
        match self.rng.below(14) {
            0 => self.b.put(" \\\n\t\t  "),
            1 => self.b.put(" /* a\n b */ "),
            2 => self.b.put("\t"),
            3 => self.b.put("/* é */"),
            _ => self.b.put(" "),
        }
    }
    fn id(&mut self) {
        self.n += 1;
        let w = format!("u{}", self.n);
        self.idents.insert(w.clone(), self.b.pos());
        self.b.put(&w);
    }
    fn expr(&mut self, d: usize) {
        match self.rng.below(if d == 0 { 2 } else { 8 }) {
            0 | 1 => self.id(),
            2 => { self.expr(d - 1); self.gap(); let o = *self.rng.pick(&["+", "*", "==", "&&", "|"]); self.b.put(o); self.gap(); self.expr(d - 1); },
            3 => { self.b.put("f("); self.gap(); self.expr(d - 1); self.b.put(","); self.gap(); self.expr(d - 1); self.b.put(")"); },
            4 => { self.b.put("("); self.expr(d - 1); self.gap(); self.b.put(")"); },
            5 => { let o = *self.rng.pick(&["!", "-", "~"]); self.b.put(o); self.id(); },
            6 => { self.b.put("\"é["); self.expr(d - 1); self.b.put("]b["); self.expr(0); self.b.put("]\""); },
            _ => { self.b.put("list("); self.expr(d - 1); self.gap(); self.b.put("= "); self.expr(0); self.b.put(")"); },
        }
    }
    fn nl(&mut self) {
        match self.rng.below(8) { 0 => self.b.put(" // tail\n"), 1 => self.b.put("\n\n"), 2 => self.b.put("\r\n"), 3 => self.b.put("\n\t\t// full line\n"), _ => self.b.put("\n") }
    }
    fn block(&mut self, ind: usize, d: usize) {
        for _ in 0..1 + self.rng.below(3) { self.stmt(ind, d); }
    }
    fn stmt(&mut self, ind: usize, d: usize) {
        let tabs = "\t".repeat(ind);
        self.b.put(&tabs);
        self.starts.push(self.b.pos());
        match self.rng.below(if d == 0 { 7 } else { 14 }) {
            0 => { self.id(); self.b.put(" = "); self.expr(2); self.nl(); },
            1 => { self.b.put("return "); self.expr(1); self.nl(); },
            2 => { self.b.put("var/x = "); self.expr(1); self.nl(); },
            3 => { self.b.put("del "); self.id(); self.nl(); },
            4 => { self.b.put("throw "); self.id(); self.nl(); },
            5 => { self.id(); self.b.put("++"); self.nl(); },
            6 => { self.b.put("f("); self.expr(2); self.b.put(")"); self.nl(); },
            7 => {
                self.b.put("if("); self.expr(1); self.b.put(")"); self.nl(); self.block(ind + 1, d - 1);
                if self.rng.bool() { self.b.put(&tabs); self.b.put("else if("); self.expr(1); self.b.put(")"); self.nl(); self.block(ind + 1, d - 1); }
                if self.rng.bool() { self.b.put(&tabs); self.b.put("else"); self.nl(); self.block(ind + 1, d - 1); }
            },
            8 => { self.b.put("while("); self.expr(1); self.b.put(")"); self.nl(); self.block(ind + 1, d - 1); },
            9 => { self.b.put("for(var/i in "); self.expr(1); self.b.put(")"); self.nl(); self.block(ind + 1, d - 1); },
            10 => { self.b.put("switch("); self.expr(1); self.b.put(")"); self.nl(); for k in 0..2 { self.b.put(&tabs); self.b.put(&format!("\tif({k})")); self.nl(); self.block(ind + 2, d - 1); } },
            11 => { self.b.put("spawn("); self.expr(0); self.b.put(")"); self.nl(); self.block(ind + 1, d - 1); },
            12 => { self.b.put("try"); self.nl(); self.block(ind + 1, d - 1); self.b.put(&tabs); self.b.put("catch(var/e)"); self.nl(); self.block(ind + 1, d - 1); },
            _ => { self.b.put("do"); self.nl(); self.block(ind + 1, d - 1); self.b.put(&tabs); self.b.put("while("); self.expr(1); self.b.put(")"); self.nl(); },
        }
    }
    fn directive(&mut self) {
        self.n += 1;
        let k = self.n;
        if self.rng.bool() { self.b.put("  "); }
        match self.rng.below(7) {
            0 => { let p = self.b.pos(); self.diags.push((format!("#error e{k}"), p.0, p.1)); self.b.put(&format!("#error e{k}\n")); },
            1 => { let p = self.b.pos(); self.diags.push((format!("#warn w{k}"), p.0, p.1)); self.b.put(&format!("# warn w{k}\n")); },
            2 => { self.b.put(&format!("#define D{k} 1\n#define ")); self.gap(); let p = self.b.pos(); self.diags.push((format!("macro redefined: D{k}"), p.0, p.1)); self.b.put(&format!("D{k} 2\n")); },
            3 => { self.b.put("#undef "); let p = self.b.pos(); self.diags.push((format!("macro undefined while not defined: N{k}"), p.0, p.1)); self.b.put(&format!("N{k}\n")); },
            4 => { let p = self.b.pos(); self.diags.push((format!("unknown directive: #bogus{k}"), p.0, p.1)); self.b.put(&format!("#bogus{k}\n")); },
            5 => { self.b.put("/* x */ "); let p = self.b.pos(); self.diags.push(("illegal byte 0x24".into(), p.0, p.1)); self.b.put("$\n"); },
            _ => { let p = self.b.pos(); self.diags.push((format!("failed to find #include \"no{k}.dm\""), p.0, p.1)); self.b.put(&format!("#include \"no{k}.dm\"\n")); },
        }
    }
}

fn collect(b: &[Spanned<Statement>], starts: &mut Vec<(u32, u32)>, ids: &mut Vec<(String, u32, u32)>) {
    fn ex(e: &Expression, ids: &mut Vec<(String, u32, u32)>) {
        match e {
            Expression::Base { term, follow } => {
                match &term.elem {
                    Term::Ident(i) => ids.push((i.to_string(), term.location.line, term.location.column as u32)),
                    Term::Expr(e) => ex(e, ids),
                    Term::Call(_, a) | Term::List(a) => a.iter().for_each(|a| ex(a, ids)),
                    Term::InterpString(_, parts) => parts.iter().for_each(|(e, _)| if let Some(e) = e { ex(e, ids) }),
                    _ => {},
                }
                for f in follow.iter() { if let Follow::Call(_, _, a) = &f.elem { a.iter().for_each(|a| ex(a, ids)) } }
            },
            Expression::BinaryOp { lhs, rhs, .. } | Expression::AssignOp { lhs, rhs, .. } => { ex(lhs, ids); ex(rhs, ids); },
            Expression::TernaryOp { cond, if_, else_ } => { ex(cond, ids); ex(if_, ids); ex(else_, ids); },
        }
    }
    for s in b {
        starts.push((s.location.line, s.location.column as u32));
        match &s.elem {
            Statement::Expr(e) | Statement::Throw(e) | Statement::Del(e) | Statement::Return(Some(e)) => ex(e, ids),
            Statement::Var(v) => if let Some(e) = &v.value { ex(e, ids) },
            Statement::If { arms, else_arm } => { for (c, b) in arms { ex(&c.elem, ids); collect(b, starts, ids); } if let Some(b) = else_arm { collect(b, starts, ids); } },
            Statement::While { condition, block } => { ex(condition, ids); collect(block, starts, ids); },
            Statement::DoWhile { block, condition } => { collect(block, starts, ids); ex(&condition.elem, ids); },
            Statement::ForList(f) => { if let Some(e) = &f.in_list { ex(e, ids) } collect(&f.block, starts, ids); },
            Statement::Switch { input, cases, .. } => { ex(input, ids); for (_, b) in cases.iter() { collect(b, starts, ids); } },
            Statement::Spawn { delay, block } => { if let Some(e) = delay { ex(e, ids) } collect(block, starts, ids); },
            Statement::TryCatch { try_block, catch_block, .. } => { collect(try_block, starts, ids); collect(catch_block, starts, ids); },
            _ => {},
        }
    }
}

fn parsed(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    rng.u64();
    let mut p = Prog { rng: &mut rng, b: B::new(), n: 0, idents: BTreeMap::new(), starts: vec![], decls: vec![], diags: vec![] };
    let n = 1 + p.rng.below(4);
    for i in 0..n {
        if p.rng.chance(1, 3) { p.directive(); }
        if p.rng.bool() { p.b.put("// a comment\n/* and\nanother */\n"); }
        let l0 = p.b.line;
        p.b.put(&format!("/obj/t{i}"));
        p.gap();
        p.b.put("\n");
        let v0 = p.b.line;
        p.b.put("\tvar/tmp/v = ");
        p.gap();
        p.b.put("1 + 2\n");
        let v1 = p.b.line;
        p.decls.push((format!("var /obj/t{i}"), v0, v1, 0));
        let p0 = p.b.line;
        p.b.put("\tproc/p(a1,");
        p.gap();
        p.b.put("a2 = 3)\n");
        let p1 = p.b.line;
        p.decls.push((format!("proc /obj/t{i}"), p0, p1, 0));
        p.decls.push((format!("type /obj/t{i}"), l0, v0, 0));
        let d = 1 + cx.size / 40;
        p.block(2, d);
    }
    if p.rng.chance(1, 3) { p.directive(); }
    let b = p.b.clone();
    cx.input(b.text());
    if p.starts.len() + p.idents.len() >= 10 { cx.nontrivial(); }
    let ctx = Context::default();
    let pp = Preprocessor::from_buffer(&ctx, PathBuf::from("main.dm"), b.text());
    let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let (_ok, tree) = parser.parse_object_tree_2();
    let mut got_d: Vec<(String, u32, u32)> = ctx.errors().iter().map(|e| (e.description().to_owned(), e.location().line, e.location().column as u32)).collect();
    let mut want_d = p.diags.clone();
    got_d.sort(); want_d.sort();
    let dd = |v: &[(String, u32, u32)]| -> Vec<_> { v.iter().map(|t| (t.0.split(" (").next().unwrap().to_owned(), String::new(), t.1, t.2)).collect::<Vec<_>>() };
    compare(cx, &dd(&want_d), &dd(&got_d), "diagnostics");
    if cx.violated() { return; }
    let mut starts = vec![];
    let mut ids = vec![];
    for i in 0..n {
        let Some(ty) = tree.find(&format!("/obj/t{i}")) else { cx.violate("type missing", format!("/obj/t{i}")); return };
        for (what, loc) in [("type", Some(ty.location)), ("var", ty.vars.get("v").map(|v| v.value.location)), ("proc", ty.procs.get("p").map(|v| v.value[0].location))] {
            let d = p.decls.iter().find(|d| d.0 == format!("{what} /obj/t{i}")).unwrap();
            let Some(loc) = loc else { cx.violate("declaration missing", d.0.clone()); return };
            let hi = if what == "type" { d.2 } else { d.2 };
            ensure!(cx, fname(&ctx, loc.file) == "main.dm" && loc.line >= d.1 && loc.line <= hi, format!("declaration {what}"), "{} declared on lines {}..{} is placed at {:?}", d.0, d.1, d.2, loc);
            cx.count("positions compared: declarations", 1);
        }
        let code = ty.procs["p"].value[0].code.clone();
        let Some(code) = code else { cx.violate("no code", "proc body not parsed"); return };
        collect(&code, &mut starts, &mut ids);
    }
    let w: Vec<_> = p.starts.iter().map(|s| ("statement".to_owned(), String::new(), s.0, s.1)).collect();
    let g: Vec<_> = starts.iter().map(|s| ("statement".to_owned(), String::new(), s.0, s.1)).collect();
    compare(cx, &w, &g, "statements");
    if cx.violated() { return; }
    let mut w: Vec<_> = p.idents.iter().map(|(k, v)| (k.clone(), String::new(), v.0, v.1)).collect();
    let mut g: Vec<_> = ids.into_iter().filter(|i| i.0.starts_with('u')).map(|i| (i.0, String::new(), i.1, i.2)).collect();
    w.sort(); g.sort();
    compare(cx, &w, &g, "identifiers");
}

fn endings(cx: &mut Cx) {
    for (text, want) in [
        ("", vec![]), ("\n", vec![("newline", 1, 1)]), ("a", vec![("id a", 1, 1)]), ("\n\na\n", vec![("newline", 1, 1), ("newline", 2, 1), ("id a", 3, 1), ("newline", 3, 2)]),
        ("/* x\n */a // t", vec![("id a", 2, 4)]), ("a\\\nb", vec![("id a", 1, 1), ("id b", 2, 1)]), ("\"a\nb\"c", vec![("str a\nb", 1, 1), ("id c", 2, 3)]),
        ("a\r\n\tb\r\n", vec![("id a", 1, 1), ("newline", 1, 3), ("id b", 2, 2), ("newline", 2, 4)]), ("a/b", vec![("id a", 1, 1), ("'/'", 1, 2), ("id b", 1, 3)]),
        ("<<=<=><", vec![("'<<='", 1, 1), ("'<=>'", 1, 4), ("'<'", 1, 7)]), ("1+2.5", vec![("int 1", 1, 1), ("'+'", 1, 2), ("float 2.5", 1, 3)]),
    ] {
        let ctx = Context::default();
        let f = FileId::default();
        let mut got: Vec<_> = Lexer::new(&ctx, f, text.as_bytes().to_vec()).filter_map(|t| kind(&t.token).map(|k| (k, t.location.line, t.location.column as u32))).collect();
        got.pop();
        let want: Vec<_> = want.iter().map(|w| (w.0.to_owned(), w.1, w.2)).collect();
        ensure!(cx, got == want, "endings", "{text:?}: {got:?}");
        cx.count("fixed texts", 1);
    }
    cx.nontrivial();
}
