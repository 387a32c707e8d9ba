use crate::dm_util::*;
use crate::fw::*;
use crate::rng::Rng;
use dm::annotation::AnnotationTree;
use dm::{Context, FileId, Location};
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C13",
    quick: 9000,
    thorough: 500000,
    case,
    directed: &[("hostile numbers", numbers), ("truncations of every length", truncations), ("deep but bounded nesting", nesting), ("known traps", traps), ("not UTF-8", bytes_), ("odd file names", odd_names)],
    rule: "a case is a text made by mutating, splicing and repeating real programs (the snippets of the project's own tests and generated programs) at byte, token and line level, or random tokens or bytes, of at most 24 KB; it is lexed, preprocessed, printed, parsed with annotations, evaluated and checked by the static checker, as a single file and as an environment on disk; panics, arithmetic overflow, aborts and use of more than 20 s of CPU are observed, and every diagnostic's and note's file, line and column are compared with the files; distinct by text, non-trivial when the parser saw at least one proc body",
    assumptions: &["nesting of brackets and operators stays below 300 levels and included files do not include themselves more than once"],
    case_cpu: 20,
    ..DEFAULT
};

pub static CORPUS: &str = include_str!("../../corpus/dm.txt");

thread_local! { static SNIPS: Vec<&'static str> = CORPUS.split('\x1e').collect(); }

pub fn snippet(rng: &mut Rng) -> &'static str {
    SNIPS.with(|s| *rng.pick(s))
}

/// A token cut for mutation: words, numbers, strings' quotes, operators, white space runs.
fn tokens(s: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0;
    let class = |c: u8| if c.is_ascii_alphanumeric() || c == b'_' { 0 } else if c == b' ' || c == b'\t' { 1 } else { 2 };
    while i < s.len() {
        let c = class(s[i]);
        let mut j = i + 1;
        if c != 2 { while j < s.len() && class(s[j]) == c { j += 1; } }
        v.push(s[i..j].to_vec());
        i = j;
    }
    v
}

const DICT: &[&str] = &[
    "var", "proc", "verb", "set", "if", "else", "for", "while", "do", "switch", "return", "goto", "spawn", "try", "catch", "throw", "break", "continue", "del", "new", "in", "to", "step", "as", "null", "list", "alist", "pick", "input", "locate", "call", "call_ext", "sleep", "waitfor", "tmp", "static", "global", "const", "final", "SpacemanDMM_should_call_parent", "SpacemanDMM_final", "SpacemanDMM_return_type", "SpacemanDMM_private_proc", "operator", "src", "usr", "world", "args", "..", ".", "parent_type", "type", "datum", "obj", "mob", "turf", "area", "atom", "movable", "anything", "text", "message", "num", "icon", "sound", "file", "key", "color", "arglist", "nameof", "initial", "issaved", "__PROC__", "__TYPE__", "__IMPLIED_TYPE__", "__FILE__", "__LINE__", "__MAIN__", "rgb", "rand", "sin", "arctan", "length", "istype", "newlist", "lerp", "log", "max", "min", "sqrt", "abs", "log", "gradient", "matrix", "vector", "pixloc", "regex", "callee", "caller", "filter", "animate", "UNLINT", "defined",
    "(", ")", "[", "]", "{", "}", ",", ";", ":", "::", "?", "?.", "?:", "?[", "+", "-", "*", "/", "%", "%%", "**", "++", "--", "=", "==", "!=", "<>", "<=>", "<", ">", "<=", ">=", "<<", ">>", "&", "|", "^", "~", "~=", "~!", "!", "&&", "||", "&&=", "||=", "+=", "-=", "*=", "/=", "%=", "%%=", "<<=", ">>=", "&=", "|=", "^=", ":=", "...", "..", ".", "#", "##", "@", "\\", "\\\n", "\n", "\n\t", "\n\t\t", "\n\t\t\t", "\n  ", " ", "\t", "\r", "\r\n",
    "\"", "'", "\"[", "]\"", "\"a[1]b\"", "{\"", "\"}", "@\"a\"", "@{\"", "'a.dmi'", "\"\\\"\"", "\"\\[\"", "\\x41", "\\n", "/*", "*/", "//", "///", "//!", "/**", "/*!",
    "0", "1", "-1", "2", "0x", "0xFF", "0xFFFFFFFFFFFFFFFF", "1e", "1e9", "1e400", "-1e400", "1e-400", "1.#INF", "1.#IND", "-1.#INF", "017", "089", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "16777216", "16777217", "99999999999999999999", "1_000", "1.5", ".5", "1.", "1..2", "1K", "65535", "65536", "32", "33", "255",
    "#define A", "#define A(x) x", "#define A(x...) x", "#define A(x, y) x##y", "#define A(x) #x", "#undef A", "#if 1", "#if 0", "#ifdef A", "#ifndef A", "#elif A", "#else", "#endif", "#if", "#elif", "#include \"test.dm\"", "#include \"nope.dm\"", "#include <a>", "#include \"..\"", "#include \"\"", "#include \".\"", "#include \"/\"", "#error x", "#warn x", "#pragma multiple", "#pragma x", "#line 3", "#file", "#", "A", "A(", "A()", "A(1,2)", "A(A(1))",
    "\u{feff}", "é", "😀", "\u{0}", "\u{7f}", "\u{a0}", "\u{2028}", "\u{1}",
    "/datum", "/obj/a", "/proc/f()", "/var/x = 1", "/a/b/c", ".a", ":a", "a.b", "a:b", "a::b", "a?.b", "src.x", "..()", ".()", "/a{x = 1}", "new /obj", "list(1, 2)", "x[1]", "x[y] = z", "for(var/i in 1 to 3)", "for(;;)", "switch(x)", "if(1 to 2)", "set name = \"x\"", "spawn(1)", "var/a, b = 2", "var/list/L[10]", "as num|null", "in list(1)", "%", "\\ref[src]", "\\the [src]",
];

pub fn mutate(rng: &mut Rng, size: usize) -> Vec<u8> {
    let kind = rng.below(20);
    if kind == 0 {
        let n = rng.below(1 + size * 8);
        return (0..n).map(|_| if rng.chance(1, 4) { rng.u64() as u8 } else { *rng.pick(b" \t\n\n(){}[]\"'/\\#.,;:abcdxyz0123456789+-*=<>&|!~?@%_") }).collect();
    }
    if kind <= 2 {
        let n = rng.below(2 + size * 3);
        let mut v = Vec::new();
        for _ in 0..n { v.extend_from_slice(rng.pick(DICT).as_bytes()); if rng.chance(2, 3) { v.push(*rng.pick(b"   \n\t")); } }
        return v;
    }
    if kind == 3 {
        // nothing but preprocessor lines and macro uses
        let n = 1 + rng.below(2 + size / 4);
        let mut v = Vec::new();
        for _ in 0..n {
            let d: Vec<&&str> = DICT.iter().filter(|d| d.starts_with('#')).collect();
            v.extend_from_slice(rng.pick(&d).as_bytes());
            for _ in 0..rng.below(5) { v.push(b' '); v.extend_from_slice(rng.pick(DICT).as_bytes()); }
            v.push(b'\n');
        }
        return v;
    }
    let mut base = snippet(rng).as_bytes().to_vec();
    for _ in 0..rng.below(3) { base.extend_from_slice(b"\n"); base.extend_from_slice(snippet(rng).as_bytes()); }
    if rng.chance(1, 3) {
        let depth = 1 + rng.below(3);
        let b = crate::gen_dm::Gen::new(rng).block(depth, 4);
        let ls = crate::gen_dm::StmtRender { rng, redundant: 20 }.lines(&b);
        let mut o = crate::gen_dm::Out::new(rng, crate::gen_dm::Layout::Indent("\t"), crate::gen_dm::Spacing::default(), 0);
        o.lines(&ls, 1, false);
        base.extend_from_slice(b"\n/proc/gen()\n");
        base.extend_from_slice(o.s.as_bytes());
    }
    if rng.chance(1, 12) { return base; }
    let rounds = 1 + rng.below(1 + size / 12);
    let level = rng.below(3);
    if level == 0 {
        for _ in 0..rounds {
            let n = base.len();
            match rng.below(5) {
                0 if n > 0 => { let i = rng.below(n); base[i] = rng.u64() as u8; }
                1 if n > 0 => { base.remove(rng.below(n)); }
                2 => base.insert(rng.below(n + 1), *rng.pick(b"\"'(){}[]\\/*#\n\t ;:,.")),
                3 if n > 0 => base.truncate(rng.below(n)),
                _ if n > 1 => { let i = rng.below(n - 1); base.swap(i, i + 1); }
                _ => {}
            }
        }
        return base;
    }
    if level == 1 {
        let mut lines: Vec<Vec<u8>> = base.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect();
        for _ in 0..rounds {
            let n = lines.len();
            if n == 0 { break; }
            let i = rng.below(n);
            match rng.below(8) {
                0 => { lines.remove(i); }
                1 => { let l = lines[i].clone(); lines.insert(rng.below(n + 1), l); }
                2 => { let j = rng.below(n); lines.swap(i, j); }
                3 => { lines[i].insert(0, b'\t'); }
                4 => { if matches!(lines[i].first(), Some(b'\t' | b' ')) { lines[i].remove(0); } }
                5 => { let mut l = rng.pick(DICT).as_bytes().to_vec(); l.push(b'\n'); lines.insert(i, l); }
                6 => { if lines[i].last() == Some(&b'\n') { lines[i].pop(); } }
                _ => { let s = snippet(rng); let ls: Vec<&str> = s.split_inclusive('\n').collect(); lines[i] = rng.pick(&ls).as_bytes().to_vec(); }
            }
        }
        return lines.concat();
    }
    let mut toks = tokens(&base);
    for _ in 0..rounds {
        let n = toks.len();
        if n == 0 { break; }
        let i = rng.below(n);
        match rng.below(9) {
            0 => { toks.remove(i); }
            1 => { let t = toks[i].clone(); toks.insert(rng.below(n + 1), t); }
            2 => { let j = rng.below(n); toks.swap(i, j); }
            3 | 4 => toks[i] = rng.pick(DICT).as_bytes().to_vec(),
            5 | 6 => toks.insert(i, rng.pick(DICT).as_bytes().to_vec()),
            7 => {
                // repeat a short stretch
                let len = 1 + rng.below(4.min(n - i));
                let part: Vec<Vec<u8>> = toks[i..i + len].to_vec();
                let times = if rng.chance(1, 6) { rng.below(120) } else { rng.below(4) };
                for _ in 0..times { for (k, p) in part.iter().enumerate() { toks.insert(i + k, p.clone()); } }
            }
            _ => {
                // replace every occurrence of one word by another
                let from = toks[i].clone();
                let to = if rng.bool() { toks[rng.below(n)].clone() } else { rng.pick(DICT).as_bytes().to_vec() };
                for t in toks.iter_mut() { if *t == from { *t = to.clone(); } }
            }
        }
    }
    toks.concat()
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let mut text = mutate(&mut rng, cx.size);
    text.truncate(24000);
    let on_disk = rng.chance(1, 6);
    run_both(cx, &text, on_disk);
}

fn run_both(cx: &mut Cx, text: &[u8], on_disk: bool) {
    cx.input(String::from_utf8_lossy(text).into_owned());
    cx.sig(&text);
    let includes_self = String::from_utf8_lossy(text).matches("#include").count() >= 2;
    if on_disk && !includes_self {
        let dir = cx.dir("env");
        let dme = dir.join("test.dme");
        std::fs::write(&dme, text).unwrap();
        std::fs::write(dir.join("test.dm"), "/obj/a\n\tvar/x = 1\n#define INC 1\n/proc/inc()\n\treturn 2").unwrap();
        let context = Context::default();
        let pp = match dm::preprocessor::Preprocessor::new(&context, dme.clone()) {
            Ok(pp) => pp,
            Err(e) => { cx.violate("environment not opened", format!("{e:?}")); return; }
        };
        cx.count("environments", 1);
        pipeline(cx, &context, pp, &|id| std::fs::read(dir.join(&*context.file_path(id))).ok());
    } else {
        let s = String::from_utf8_lossy(text).into_owned();
        let context = Context::default();
        let copy = s.clone();
        let pp = dm::preprocessor::Preprocessor::from_buffer(&context, "test.dm".into(), s);
        cx.count("single texts", 1);
        pipeline(cx, &context, pp, &|id| if context.file_path(id).to_str() == Some("test.dm") { Some(copy.clone().into_bytes()) } else { std::fs::read(&*context.file_path(id)).ok() });
    }
}

fn pipeline(cx: &mut Cx, context: &Context, mut pp: dm::preprocessor::Preprocessor, content: &dyn Fn(FileId) -> Option<Vec<u8>>) {
    pp.enable_annotations();
    let mut annotations = AnnotationTree::default();
    let tree = {
        let indents = dm::indents::IndentProcessor::new(context, &mut pp);
        let mut parser = dm::parser::Parser::new(context, indents);
        parser.enable_procs();
        parser.annotate_to(&mut annotations);
        let (_, tree) = parser.parse_object_tree_2();
        tree
    };
    let macros = pp.take_annotations();
    let history = pp.finalize();
    cx.count("annotations", annotations.len() as u64 + macros.map(|m| m.len() as u64).unwrap_or(0));
    cx.count("define history entries", history.iter().count() as u64);
    let mut bodies = 0;
    for t in tree.iter_types() {
        for p in t.iter_self_procs() { if p.get().code.is_some() { bodies += 1; } }
    }
    if bodies > 0 { cx.nontrivial(); }
    cx.count("proc bodies checked", bodies);
    dreamchecker::run(context, &tree);
    let mut cache: BTreeMap<String, Option<Vec<usize>>> = BTreeMap::new();
    let errors = context.errors();
    cx.count("diagnostics", errors.len() as u64);
    let mut bad = None;
    let mut place = |l: Location, what: String| {
        if l.is_builtins() { return; }
        let name = fname(context, l.file);
        let lens = cache.entry(name.clone()).or_insert_with(|| content(l.file).map(|b| b.split(|c| *c == b'\n').map(|s| s.len()).collect())).clone();
        let ok = match &lens {
            None => false,
            // one line or two columns further than the end: where the end of file and of line are reported
            Some(v) => l.line >= 1 && l.line as usize <= v.len() + 1 && l.column as usize <= v.get(l.line as usize - 1).copied().unwrap_or(0) + 2,
        };
        if !ok && bad.is_none() { bad = Some(format!("{what} is placed at {name}:{}:{}, line lengths {:?}", l.line, l.column, lens.map(|v| if v.len() < 60 { v } else { vec![v.len()] }))); }
    };
    for e in errors.iter() {
        place(e.location(), format!("diagnostic {:?}", e.description()));
        for n in e.notes() { place(n.location(), format!("note {:?} of {:?}", n.description(), e.description())); }
    }
    drop(errors);
    if let Some(b) = bad {
        let key = b.split(" is placed").next().unwrap().chars().map(|c| if c.is_ascii_digit() { '0' } else { c }).collect::<String>();
        cx.violate(format!("position: {key}"), b);
    }
    // the token printer and the annotation-only parser have to survive the same text
    if let Some(file) = context.get_file(std::path::Path::new("test.dm")) {
        if let Some(b) = content(file) {
            let c2 = Context::default();
            let id = c2.register_file(std::path::Path::new("test.dm"));
            let mut out = String::new();
            let toks = dm::lexer::Lexer::new(&c2, id, b.clone()).map(|t| t.token).collect::<Vec<_>>();
            let _ = dm::pretty_print(&mut out, toks, true);
            cx.count("tokens", out.len() as u64);
            let c3 = Context::default();
            let pp = dm::preprocessor::Preprocessor::from_buffer(&c3, "test.dm".into(), String::from_utf8_lossy(&b).into_owned());
            let indents = dm::indents::IndentProcessor::new(&c3, pp);
            let mut annotations = AnnotationTree::default();
            let p = dm::parser::Parser::new(&c3, indents);
            p.parse_annotations_only(&mut annotations);
        }
    }
}

fn one(cx: &mut Cx, text: &str) {
    let r = catch(|| { let mut dummy = (); let _ = &mut dummy; });
    let _ = r;
    cx.count("directed texts", 1);
    let keep = text.to_owned();
    // report which text of the scenario failed
    let mut failed = None;
    if let Err(e) = catch(std::panic::AssertUnwindSafe(|| run_both(cx, keep.as_bytes(), false))) { failed = Some(e); }
    if let Some(e) = failed { cx.violate(format!("panic: {}", e.split(" at ").next().unwrap()), format!("panicked: {e}\n--- text\n{keep}")); }
}

fn numbers(cx: &mut Cx) {
    let nums = ["0", "-1", "1e400", "-1e400", "1.#INF", "-1.#INF", "1.#IND", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "16777217", "99999999999999999999", "0xFFFFFFFF", "0xFFFFFFFFF", "0.5", "-0", "1e-45", "32", "33", "64", "3.5e38"];
    let forms = ["/var/x = A << B", "/var/x = A >> B", "/var/x = A % B", "/var/x = A %% B", "/var/x = A ** B", "/var/x = A / B", "/var/x = A & B", "/var/x = A | B", "/var/x = A ^ B", "/var/x = ~A + ~B", "/var/x = A == B", "/var/x = A < B", "/var/x = !A + -B", "/var/x = max(A, B)", "/var/x = min(A, B)", "/var/x = rgb(A, B, A)", "/var/x = rgb(A, B, A, B, space = A)", "/var/x = sin(A) + cos(B)", "/var/x = arctan(A, B)", "/var/x = arcsin(A) + arccos(B)", "/var/x = sqrt(A) + log(B)", "/var/x = log(A, B)", "/var/x = abs(A) + round(A, B)", "/var/x = clamp(A, B, A)", "/var/x = list(A = B)", "/var/list/x[A][B]", "/var/x = A ? A : B", "/proc/p()\n\tswitch(rand(A, B))\n\t\tif(A to B)\n\t\t\treturn\n\t\tif(B)\n\t\t\treturn", "/proc/p()\n\tswitch(rand(A))\n\t\tif(A, B)\n\t\t\treturn\n\t\telse\n\t\t\treturn", "/proc/p()\n\tswitch(rand(0, A))\n\t\tif(0 to A)\n\t\t\treturn\n\t\tif(B to A)\n\t\t\treturn", "/proc/p()\n\tfor(var/i in A to B)\n\t\treturn\n\tfor(var/i in B to A step A)\n\t\treturn\n\tfor(var/i = A; i < B; i += A)\n\t\treturn", "/proc/p()\n\tvar/list/l = list(A, B)\n\treturn l[A] + l[B]", "/proc/p()\n\tsleep(A)\n\tspawn(B)\n\t\treturn", "/proc/p()\n\treturn pick(A; 1, B; 2)", "/proc/p()\n\twhile(A)\n\t\tif(B)\n\t\t\tbreak\n\treturn A", "#if A < B\n#endif\n#if A << B\n#elif A % B\n#endif\n", "#if (A ** B) > (A / B)\n/x\n#endif", "#line A\n/obj/B"];
    let third = (cx.seed % 3) as usize;
    for (i, a) in nums.iter().enumerate() { for (j, b) in nums.iter().enumerate() { for (k, f) in forms.iter().enumerate() {
        if !cx.thorough && (i + j + k) % 3 != third { continue; }
        let t = format!("{}\n", f.replace('A', a).replace('B', b));
        one(cx, &t);
        if cx.violated() { cx.input(t); return; }
    } } }
    cx.nontrivial();
}

fn truncations(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    for _ in 0..if cx.thorough { 100 } else { 8 } {
        let s = snippet(&mut rng);
        for i in 0..s.len().min(700) {
            if !s.is_char_boundary(i) { continue; }
            one(cx, &s[..i]);
            if cx.violated() { cx.input(&s[..i]); return; }
            one(cx, &s[i..]);
            if cx.violated() { cx.input(&s[i..]); return; }
        }
    }
}

fn nesting(cx: &mut Cx) {
    for n in [1usize, 2, 10, 50, 150, 250] {
        let wraps: Vec<String> = vec![
            format!("/var/x = {}1{}\n", "(".repeat(n), ")".repeat(n)),
            format!("/var/x = {}1{}\n", "list(".repeat(n), ")".repeat(n)),
            format!("/proc/p()\n\treturn {}1{}\n", "f(".repeat(n), ")".repeat(n)),
            format!("/proc/p(x)\n\treturn {}x\n", "!".repeat(n)),
            format!("/proc/p(x)\n\treturn {}x\n", "- ".repeat(n)),
            format!("/proc/p(x)\n\treturn {}x\n", "x ? x : ".repeat(n)),
            format!("/proc/p(x)\n\treturn x{}\n", "[x".repeat(n) + &"]".repeat(n)),
            format!("/proc/p(x)\n\treturn x{}\n", ".x".repeat(n)),
            format!("/proc/p(x)\n\treturn x{}\n", " + x".repeat(n)),
            format!("/proc/p(x)\n\treturn x{}\n", " ** x".repeat(n)),
            format!("/proc/p(x)\n\treturn x{}\n", " = x".repeat(n)),
            format!("/proc/p(x)\n\treturn {}1{}\n", "\"[".repeat(n), "]\"".repeat(n)),
            format!("/proc/p(x)\n{}", (0..n).map(|i| format!("{}if(x)\n", "\t".repeat(i + 1))).collect::<String>() + &"\t".repeat(n + 1) + "return\n"),
            format!("/proc/p(x)\n{}", (0..n).map(|i| format!("{}while(x)\n", "\t".repeat(i + 1))).collect::<String>() + &"\t".repeat(n + 1) + "break\n"),
            format!("/proc/p(x)\n\tif(x)\n\t\treturn\n{}", "\telse if(x)\n\t\treturn\n".repeat(n)),
            format!("/proc/p(x)\n\t{}{}\n", "{".repeat(n), "}".repeat(n)),
            format!("{}\n", "/a".repeat(n)),
            format!("a{}{}\n", "{a".repeat(n), "}".repeat(n)),
            format!("/a{}x = 1{}\n", "{a".repeat(n) + "{", "}".repeat(n) + "}"),
            format!("#if {}1{}\n#endif\n", "(".repeat(n), ")".repeat(n)),
            format!("#if {}1\n#endif\n", "!".repeat(n)),
            format!("{}{}", "#if 1\n".repeat(n), "#endif\n".repeat(n)),
            format!("{}/x", "/*".repeat(n)),
            format!("{}/x{}", "/*".repeat(n), "*/".repeat(n)),
            format!("/var/x = {}", "/*".repeat(n)),
            format!("{}A{}\n", (0..n).map(|i| format!("#define A{i} A{}\n", i + 1)).collect::<String>(), 0),
            format!("#define F(x) x\n/var/x = {}1{}\n", "F(".repeat(n), ")".repeat(n)),
            format!("/proc/p()\n\tswitch(x)\n{}", (0..n).map(|i| format!("\t\tif({i})\n\t\t\treturn\n")).collect::<String>()),
            format!("/proc/p()\n\tvar/x = {}", "\"".repeat(n)),
            format!("/proc/p()\n\tvar/x = {}", "\"[".repeat(n)),
            format!("{}\n", "new /a".repeat(n)),
            format!("/proc/p()\n\treturn {}/obj{}\n", "new ".repeat(n), "()".repeat(n)),
            format!("/proc/p()\n{}", "\ttry\n\t\tf()\n\tcatch\n\t\tg()\n".repeat(n)),
            format!("/proc/p()\n\treturn {}\n", "/a".repeat(n)),
            format!("/proc/p()\n\treturn x{}\n", "::x".repeat(n)),
            format!("/proc/p()\n\treturn x{}\n", "?.x()".repeat(n)),
            format!("/proc/p()\n\tvar/{}x\n", "a/".repeat(n)),
            format!("{}", (0..n).map(|i| format!("/t{i}\n\tparent_type = /t{}\n", i + 1)).collect::<String>()),
            format!("/a\n{}\n", (0..n).map(|i| format!("\tvar/const/v{i} = v{}\n", i + 1)).collect::<String>()),
        ];
        for t in wraps {
            one(cx, &t);
            if cx.violated() { cx.input(t); return; }
        }
    }
    cx.nontrivial();
}

fn traps(cx: &mut Cx) {
    for t in ["", "\n", "\t", " ", "\\", "/", "//", "/*", "*/", "\"", "'", "#", "@", "{\"", "@{\"", "@(", "@", "0x", "1.#", "1.#I", "#define", "#define A(", "#define A(x", "#define A(x,", "#define A(...) ...", "#define A(x...", "#if", "#elif", "#else", "#endif", "#include", "#include \"", "#include <", "#undef", "#line", "#error", "#pragma", "#define A A\nA", "#define A B\n#define B A\nA", "#define A(x) A(x)\nA(1)", "#define A(x) #x\nA(", "#define A(x) x##x\nA()", "#define A ##\nA", "#define A(x) ##x\nA(1)", "#define A(x) x##\nA(1)", "#define A(x) #\nA(1)", "\"[", "\"[\"", "\"[]", "\"[]\"", "\"[[]]\"", "\"[{]\"", "/a {\n proc/f() ( } ) ;", "/a { proc/f( } ) { ; }", "/proc/f() { ( } )", "/proc/f() {{}", "}", "{", ")", "(", "]", "[", ";", ",", ":", "?", "=", "/a = ", "/a/var/", "/var", "/var/", "/proc", "/proc/", "/proc/()", "/()", "()", "/proc/f(", "/proc/f(,", "/proc/f(,)", "/proc/f(var)", "/proc/f(var/)", "/proc/f(/)", "/proc/f(...)", "/proc/f(x[])", "/proc/f(x = )", "/proc/f(x as)", "/proc/f(x in)", "/proc/f() as", "/proc/f() as /", "/proc/f()\n\tif", "/proc/f()\n\tfor", "/proc/f()\n\tfor(", "/proc/f()\n\tfor()\n", "/proc/f()\n\tfor(;)\n", "/proc/f()\n\tfor(in)\n", "/proc/f()\n\tfor(var/x in)\n", "/proc/f()\n\tfor(x in 1 to)\n", "/proc/f()\n\tswitch()\n\t\tif()\n", "/proc/f()\n\tswitch(rand())\n\t\tif(1)\n\t\t\treturn", "/proc/f()\n\tset", "/proc/f()\n\tset x", "/proc/f()\n\tset x =", "/proc/f()\n\tset src in", "/proc/f()\n\tgoto", "/proc/f()\n\tx:", "/proc/f()\n\tvar", "/proc/f()\n\tvar/", "/proc/f()\n\tvar/x,", "/proc/f()\n\tvar/x = ,", "/proc/f()\n\tnew", "/proc/f()\n\tnew()", "/proc/f()\n\tpick()", "/proc/f()\n\tpick(1;)", "/proc/f()\n\tcall()", "/proc/f()\n\tcall()()", "/proc/f()\n\tcall_ext()", "/proc/f()\n\tcall_ext()()", "/proc/f()\n\tinput()", "/proc/f()\n\tinput() as", "/proc/f()\n\tlocate()", "/proc/f()\n\tlocate() in", "/proc/f()\n\tlist()", "/proc/f()\n\talist(1)", "/proc/f()\n\talist()", "/proc/f()\n\t..", "/proc/f()\n\t..(", "/proc/f()\n\t.()", "/proc/f()\n\t.", "/proc/f()\n\t. = .", "/proc/f()\n\ttry", "/proc/f()\n\tcatch", "/proc/f()\n\ttry\n\tcatch(", "/proc/f()\n\telse", "/proc/f()\n\tdo", "/proc/f()\n\tdo\n\twhile", "/proc/f()\n\tspawn", "/proc/f()\n\tspawn(", "/proc/f()\n\tdel", "/proc/f()\n\treturn (", "/proc/f()\n\treturn ?", "/proc/f()\n\treturn a ? b", "/proc/f()\n\treturn a ? : c", "/proc/f()\n\treturn a?[", "/proc/f()\n\treturn a?.", "/proc/f()\n\treturn a::", "/proc/f()\n\treturn ::a", "/proc/f()\n\treturn ::", "/proc/f()\n\treturn __PROC__", "/var/x = __TYPE__", "/var/x = __PROC__", "/proc/f()\n\treturn nameof()", "/proc/f()\n\treturn nameof(.)", "/proc/f()\n\treturn initial()", "/proc/f()\n\treturn istype()", "/proc/f()\n\treturn rgb()", "/proc/f()\n\treturn /a{", "/proc/f()\n\treturn /a{x", "/proc/f()\n\treturn /a{x=", "/proc/f()\n\treturn /a{x=1;}", "/a/operator", "/a/operator+", "/a/operator+()", "/a/operator[]=()", "/a/operator\"\"()", "/a/proc/operator", "/a/proc/operator()", "/datum/parent_type = /datum", "/a/parent_type = /a/b\n/a/b/c", "/a/parent_type", "/a/var/parent_type = /a", "/client/parent_type", "/var/const/x = y\n/var/const/y = x", "/a/var/x = y\n/a/var/y = x", "/var/const/x = x", "/a/proc/new()", "/list/a", "/list/proc/f()", "/world/a", "/datum/proc/New()\n/datum/New()\n", "/a/var/a/b/c/d/e", "/a/var/tmp", "/a/var/static/global/const/final", "/proc/proc/f()", "/proc/var/x", "/var/proc/x()", "/a/var/proc/x()", "/a/verb/verb/x()", "/proc/final/f()", "/proc/final", "/verb", "/a/verb{", "/a/proc{f();g()}", "/a{var{x;y=2}}", "var{x;y}", "{}", "{{}}", "/{}", "/a{}{}", "/a{};{}", ";;;", "/a;/b", "/a,/b", "/a\\\n/b", "\\\n\\\n", "\"\\\n\"", "{\"\n\"}", "'\n'", "\"\n\"", "@\"\n\"", "1 2 3", "a b c", "/proc/f()\n\tvar/a as num|text in b\n\tvar/c[1][2] = 3 as null\n", "/proc/f()\n\tset SpacemanDMM_can_be_redefined = 1\n/proc/f()\n", "/proc/f()\n\tset SpacemanDMM_return_type = ", "/proc/f() as /a/b|num\n", "/proc/f() as opendream_unimplemented\n", "/proc/f()\n\tset SpacemanDMM_return_type = 1 + \n", "/proc/f()\n\tset SpacemanDMM_final = x\n", "\u{feff}\u{feff}", "\r\r\r", "a\rb", "/a\0b", "/proc/rand()\n", "/proc/sleep()\n", "/list\n\tparent_type = /a\n/a\n\tparent_type = /list\n"] {
        one(cx, t);
        if cx.violated() { cx.input(t); return; }
        let t2 = format!("{t}\n/obj/after\n\tvar/z = 1\n/proc/zz(a, b)\n\treturn a + b\n");
        one(cx, &t2);
        if cx.violated() { cx.input(t2); return; }
        let t3 = format!("/obj/before\n\tproc/q(x)\n\t\tif(x)\n\t\t\treturn 1\n{t}");
        one(cx, &t3);
        if cx.violated() { cx.input(t3); return; }
    }
    cx.nontrivial();
}

fn bytes_(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    for i in 0..300 {
        let mut text = mutate(&mut rng, i % 100);
        for _ in 0..1 + rng.below(4) { let k = rng.below(text.len() + 1); text.insert(k, 0x80 | rng.u64() as u8); }
        run_both(cx, &text, true);
        if cx.violated() { return; }
    }
    cx.nontrivial();
}

fn odd_names(cx: &mut Cx) {
    use std::os::unix::ffi::OsStrExt;
    let dir = cx.dir("odd");
    for (n, name) in [&b"a b.dme"[..], b"\xff\xfe.dme", "é😀.dme".as_bytes(), b"noext", b".dme", b"a.dme.dme", b"(x)[1]{}.dme", b"a'b\"c.dme", b"a\nb.dme"].iter().enumerate() {
        let name = std::ffi::OsStr::from_bytes(name);
        for (k, text) in ["/var/x = __FILE__\n#warn hm\n/obj/a\n\tvar/y = 1 +\n", "#include \"b.dm\"\n#include \".\"\n#include \"\"\n#include \"/\"\n#include \"..\"\n#include \"c\"\n#include \"x.dmm\"\n#include \"x.dmp\"\n#include \"x.dms\"\n", "#ifdef __MAIN__\n/a\n#endif\n#define X __FILE__\n/var/y = X\n#error no\n"].iter().enumerate() {
            let d = dir.join(format!("{n}-{k}"));
            std::fs::create_dir_all(&d).unwrap();
            let dme = d.join(name);
            std::fs::write(&dme, text).unwrap();
            std::fs::write(d.join("b.dm"), "/obj/b\n").unwrap();
            std::fs::write(d.join("x.dmm"), "zz").unwrap();
            std::fs::create_dir(d.join("c")).unwrap();
            let context = Context::default();
            cx.input(format!("environment {name:?}:\n{text}"));
            match dm::preprocessor::Preprocessor::new(&context, dme.clone()) {
                Ok(pp) => pipeline(cx, &context, pp, &|id| std::fs::read(d.join(&*context.file_path(id))).ok()),
                Err(_) => cx.count("environments refused", 1),
            }
            if cx.violated() { return; }
        }
    }
    // the environment given by a bare name, and names that are not files
    for p in ["", ".", "/", "..", "nope.dme", "nope/nope.dme"] {
        let context = Context::default();
        let r = dm::preprocessor::Preprocessor::new(&context, p.into());
        if r.is_ok() && p.is_empty() { cx.violate("opened nothing", "the empty path opens as an environment".to_string()); return; }
    }
    cx.nontrivial();
}
