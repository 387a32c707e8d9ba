//! Shared: running the front end on texts, canonical S-expressions of the syntax tree (redundant
//! parentheses stripped) and canonical dumps of the object tree.
#![allow(dead_code)]
use dm::ast::*;
use dm::objtree::*;
use dm::{Context, FileId, Location};
use std::fmt::Write;
use std::path::Path;

pub struct Parsed {
    pub context: Context,
    pub tree: ObjectTree,
}

pub fn parse_text(text: &str) -> Parsed {
    let context = Context::default();
    let tree = parse_text_in(&context, text);
    Parsed { context, tree }
}

pub fn parse_text_in(context: &Context, text: &str) -> ObjectTree {
    let pp = dm::preprocessor::Preprocessor::from_buffer(context, "test.dm".into(), text.to_owned());
    let indents = dm::indents::IndentProcessor::new(context, pp);
    let mut parser = dm::parser::Parser::new(context, indents);
    parser.enable_procs();
    parser.parse_object_tree()
}

pub fn parse_env(context: &Context, dme: &Path) -> Result<ObjectTree, dm::DMError> {
    let pp = dm::preprocessor::Preprocessor::new(context, dme.to_owned())?;
    let indents = dm::indents::IndentProcessor::new(context, pp);
    let mut parser = dm::parser::Parser::new(context, indents);
    parser.enable_procs();
    Ok(parser.parse_object_tree())
}

/// "path:line:col: severity: text" for every diagnostic, in the order registered.
pub fn diags(context: &Context) -> Vec<String> {
    context.errors().iter().map(|e| diag(context, e)).collect()
}

pub fn diag(context: &Context, e: &dm::DMError) -> String {
    let l = e.location();
    let mut s = format!("{}:{}:{}: {:?}: {}", fname(context, l.file), l.line, l.column, e.severity(), e.description());
    if let Some(t) = e.errortype() { let _ = write!(s, " [{t}]"); }
    for n in e.notes() {
        let l = n.location();
        let _ = write!(s, "\n  - {}:{}:{}: {}", fname(context, l.file), l.line, l.column, n.description());
    }
    s
}

pub fn fname(context: &Context, f: FileId) -> String {
    context.file_path(f).display().to_string()
}

// ---------------------------------------------------------------------------------------------
// S-expressions

pub fn sx(e: &Expression) -> String {
    match e {
        Expression::Base { term, follow } => {
            let mut s = sx_term(&term.elem);
            for f in follow.iter() {
                s = match &f.elem {
                    Follow::Index(k, i) => format!("(index{} {s} {})", if *k == ListAccessKind::Safe { "?" } else { "" }, sx(i)),
                    Follow::Field(k, n) => format!("(field {k:?} {s} {n})"),
                    Follow::Call(k, n, a) => format!("(callm {k:?} {s} {n}{})", sx_args(a)),
                    Follow::Unary(op) => format!("({op:?} {s})"),
                    Follow::StaticField(n) => format!("(static {s} {n})"),
                    Follow::ProcReference(n) => format!("(procref {s} {n})"),
                };
            }
            s
        },
        Expression::BinaryOp { op, lhs, rhs } => format!("({op:?} {} {})", sx(lhs), sx(rhs)),
        Expression::AssignOp { op, lhs, rhs } => format!("({op:?} {} {})", sx(lhs), sx(rhs)),
        Expression::TernaryOp { cond, if_, else_ } => format!("(? {} {} {})", sx(cond), sx(if_), sx(else_)),
    }
}

pub fn sx_opt(e: Option<&Expression>) -> String {
    e.map(sx).unwrap_or_else(|| "-".to_owned())
}

fn sx_args(a: &[Expression]) -> String {
    let mut s = String::new();
    for x in a { s.push(' '); s.push_str(&sx(x)); }
    s
}

fn sx_args_opt(a: &Option<Box<[Expression]>>) -> String {
    match a { None => " noargs".into(), Some(a) => format!(" args{}", sx_args(a)) }
}

pub fn sx_path(p: &[(PathOp, Ident)]) -> String {
    let mut s = String::new();
    for (op, i) in p { let _ = write!(s, "{op:?}.{i}"); }
    s
}

pub fn sx_prefab(p: &Prefab) -> String {
    let mut s = format!("(prefab {}", sx_path(&p.path));
    for (k, v) in p.vars.iter() { let _ = write!(s, " {k}={}", sx(v)); }
    s.push(')');
    s
}

pub fn sx_term(t: &Term) -> String {
    match t {
        Term::Null => "null".into(),
        Term::Int(i) => format!("i{i}"),
        Term::Float(f) => format!("f{:?}", f),
        Term::Ident(i) => format!("{i}"),
        Term::String(s) => format!("{s:?}"),
        Term::Resource(s) => format!("r{s:?}"),
        Term::As(t) => format!("(as {t:?})"),
        Term::__PROC__ => "__PROC__".into(),
        Term::__TYPE__ => "__TYPE__".into(),
        Term::__IMPLIED_TYPE__ => "__IMPLIED_TYPE__".into(),
        Term::Expr(e) => sx(e),
        Term::Prefab(p) => sx_prefab(p),
        Term::InterpString(b, parts) => {
            let mut s = format!("(interp {:?}", b.as_str());
            for (e, t) in parts.iter() { let _ = write!(s, " {} {:?}", sx_opt(e.as_ref()), t); }
            s.push(')');
            s
        },
        Term::Call(n, a) => format!("(call {n}{})", sx_args(a)),
        Term::SelfCall(a) => format!("(self{})", sx_args(a)),
        Term::ParentCall(a) => format!("(super{})", sx_args(a)),
        Term::NewImplicit { args } => format!("(new{})", sx_args_opt(args)),
        Term::NewPrefab { prefab, args } => format!("(new {}{})", sx_prefab(prefab), sx_args_opt(args)),
        Term::NewMiniExpr { expr, args } => {
            let mut s = format!("(newmini {}", expr.ident);
            for f in expr.fields.iter() { let _ = write!(s, " {:?}.{}", f.kind, f.ident); }
            format!("{s}{})", sx_args_opt(args))
        },
        Term::List(a) => format!("(list{})", sx_args(a)),
        Term::Input { args, input_type, in_list } => format!("(input{} as {:?} in {})", sx_args(args), input_type, sx_opt(in_list.as_deref())),
        Term::Locate { args, in_list } => format!("(locate{} in {})", sx_args(args), sx_opt(in_list.as_deref())),
        Term::Pick(p) => {
            let mut s = "(pick".to_owned();
            for (w, v) in p.iter() { let _ = write!(s, " {}:{}", sx_opt(w.as_ref()), sx(v)); }
            s.push(')');
            s
        },
        Term::DynamicCall(a, b) => format!("(dyncall [{}] [{}])", sx_args(a), sx_args(b)),
        Term::ExternalCall { library, function, args } => format!("(extcall {} {}{})", sx_opt(library.as_deref()), sx(function), sx_args(args)),
        Term::GlobalIdent(i) => format!("(global {i})"),
        Term::GlobalCall(i, a) => format!("(globalcall {i}{})", sx_args(a)),
    }
}

pub fn sx_vt(v: &VarType) -> String {
    format!("[{:?} {:?} {:?}]", v.flags.iter().collect::<Vec<_>>(), v.type_path.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("/"), v.input_type)
}

pub fn sx_block(b: &[Spanned<Statement>]) -> String {
    let mut s = "{".to_owned();
    for st in b { s.push(' '); s.push_str(&sx_stmt(&st.elem)); }
    s.push_str(" }");
    s
}

pub fn sx_stmt(s: &Statement) -> String {
    match s {
        Statement::Expr(e) => sx(e),
        Statement::Return(e) => format!("(return {})", sx_opt(e.as_ref())),
        Statement::Throw(e) => format!("(throw {})", sx(e)),
        Statement::While { condition, block } => format!("(while {} {})", sx(condition), sx_block(block)),
        Statement::DoWhile { block, condition } => format!("(dowhile {} {})", sx_block(block), sx(&condition.elem)),
        Statement::If { arms, else_arm } => {
            let mut o = "(if".to_owned();
            for (c, b) in arms { let _ = write!(o, " {} {}", sx(&c.elem), sx_block(b)); }
            if let Some(b) = else_arm { let _ = write!(o, " else {}", sx_block(b)); }
            o + ")"
        },
        Statement::ForInfinite { block } => format!("(for {})", sx_block(block)),
        Statement::ForLoop { init, test, inc, block } => format!("(for3 {} {} {} {})",
            init.as_deref().map(sx_stmt).unwrap_or("-".into()), sx_opt(test.as_deref()), inc.as_deref().map(sx_stmt).unwrap_or("-".into()), sx_block(block)),
        Statement::ForList(f) => format!("(forin {} {} {:?} {} {})", f.var_type.as_ref().map(sx_vt).unwrap_or("-".into()), f.name, f.input_type, sx_opt(f.in_list.as_ref()), sx_block(&f.block)),
        Statement::ForKeyValue(f) => format!("(forkv {} {} {:?} {} {} {})", f.var_type.as_ref().map(sx_vt).unwrap_or("-".into()), f.key, f.key_input_type, f.value, sx_opt(f.in_list.as_ref()), sx_block(&f.block)),
        Statement::ForRange(f) => format!("(forrange {} {} {} {} {} {})", f.var_type.as_ref().map(sx_vt).unwrap_or("-".into()), f.name, sx(&f.start), sx(&f.end), sx_opt(f.step.as_ref()), sx_block(&f.block)),
        Statement::Var(v) => sx_var(v),
        Statement::Vars(vs) => format!("(vars {})", vs.iter().map(sx_var).collect::<Vec<_>>().join(" ")),
        Statement::Setting { name, mode, value } => format!("(set {name} {mode:?} {})", sx(value)),
        Statement::Spawn { delay, block } => format!("(spawn {} {})", sx_opt(delay.as_ref()), sx_block(block)),
        Statement::Switch { input, cases, default } => {
            let mut o = format!("(switch {}", sx(input));
            for (c, b) in cases.iter() {
                o.push_str(" (");
                for x in &c.elem {
                    match x {
                        Case::Exact(e) => { let _ = write!(o, " {}", sx(e)); },
                        Case::Range(a, b) => { let _ = write!(o, " {}..{}", sx(a), sx(b)); },
                    }
                }
                let _ = write!(o, " {})", sx_block(b));
            }
            if let Some(b) = default { let _ = write!(o, " else {}", sx_block(b)); }
            o + ")"
        },
        Statement::TryCatch { try_block, catch_params, catch_block } => format!("(try {} [{}] {})", sx_block(try_block),
            catch_params.iter().map(|p| p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("/")).collect::<Vec<_>>().join(","), sx_block(catch_block)),
        Statement::Continue(l) => format!("(continue {:?})", l.as_ref().map(|i| i.to_string())),
        Statement::Break(l) => format!("(break {:?})", l.as_ref().map(|i| i.to_string())),
        Statement::Goto(l) => format!("(goto {l})"),
        Statement::Label { name, block } => format!("(label {name} {})", sx_block(block)),
        Statement::Del(e) => format!("(del {})", sx(e)),
        Statement::Crash(e) => format!("(crash {})", sx_opt(e.as_ref())),
    }
}

pub fn sx_var(v: &VarStatement) -> String {
    format!("(var {} {} {})", sx_vt(&v.var_type), v.name, sx_opt(v.value.as_ref()))
}

pub fn sx_param(p: &Parameter) -> String {
    format!("({} {} = {} as {:?} in {})", sx_vt(&p.var_type), p.name, sx_opt(p.default.as_ref()), p.input_type, sx_opt(p.in_list.as_ref()))
}

// ---------------------------------------------------------------------------------------------
// object tree

#[derive(Clone, Copy, Default)]
pub struct DumpOpts {
    pub locations: bool,
    pub docs: bool,
    pub constants: bool,
    /// leave out proc bodies of procs with these (path, name)
    pub no_code: bool,
}

fn loc(o: DumpOpts, l: Location) -> String {
    if o.locations { format!(" @{}:{}:{}", file_no(l.file), l.line, l.column) } else { String::new() }
}

pub fn file_no(f: FileId) -> String {
    format!("{f:?}")
}

/// Everything a type says for itself; builtin types are dumped when they hold something not builtin.
pub fn dump_type(ty: TypeRef, o: DumpOpts) -> String {
    let mut s = String::new();
    let _ = write!(s, "{} : {}{}", ty.pretty_path(), ty.parent_type().map(|p| p.pretty_path().to_owned()).unwrap_or("-".into()), if ty.location.is_builtins() { String::new() } else { loc(o, ty.location) });
    if o.docs { let _ = write!(s, " docs={:?}", ty.docs.text()); }
    s.push('\n');
    for (name, v) in ty.vars.iter() {
        if v.value.location.is_builtins() { continue; }
        let _ = write!(s, "  var {name}{}", loc(o, v.value.location));
        if let Some(d) = &v.declaration {
            let _ = write!(s, " decl {}{}", sx_vt(&d.var_type), if d.location.is_builtins() { String::new() } else { loc(o, d.location) });
        }
        let _ = write!(s, " = {}", sx_opt(v.value.expression.as_ref()));
        if o.constants { let _ = write!(s, " => {:?}", v.value.constant); }
        if o.docs { let _ = write!(s, " docs={:?}", v.value.docs.text()); }
        s.push('\n');
    }
    for (name, p) in ty.procs.iter() {
        if p.value.iter().all(|v| v.location.is_builtins()) { continue; }
        if let Some(d) = &p.declaration {
            if !d.location.is_builtins() {
                let _ = writeln!(s, "  declare {:?} {name} flags {:?} returns {:?}{}", d.kind, d.flags.iter().collect::<Vec<_>>(), d.return_type, loc(o, d.location));
            }
        }
        for v in p.value.iter() {
            if v.location.is_builtins() { continue; }
            let _ = write!(s, "  proc {name}({}){}", v.parameters.iter().map(|p| sx_param(p) + &loc(o, p.location)).collect::<Vec<_>>().join(", "), loc(o, v.location));
            if o.docs { let _ = write!(s, " docs={:?}", v.docs.text()); }
            if !o.no_code {
                match &v.code { None => s.push_str(" NOCODE"), Some(c) => { let _ = write!(s, " {}", sx_block(c)); } }
            }
            s.push('\n');
        }
    }
    s
}

/// All types that are not purely builtin.
pub fn dump_tree(tree: &ObjectTree, o: DumpOpts) -> String {
    let mut v: Vec<(String, String)> = Vec::new();
    for ty in tree.iter_types() {
        let d = dump_type(ty, o);
        if ty.location.is_builtins() && d.lines().count() <= 1 { continue; }
        v.push((ty.path.clone(), d));
    }
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}

/// First differing line of two texts, for messages.
pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y { return format!("line {}:\n  {x}\n  {y}", i + 1); }
    }
    let (na, nb) = (a.lines().count(), b.lines().count());
    if na != nb {
        return format!("{na} vs {nb} lines; extra: {:?}", if na > nb { a.lines().nth(nb) } else { b.lines().nth(na) });
    }
    "equal".into()
}
