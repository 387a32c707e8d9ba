//! Projects that raise diagnostics of every kind, made of independent pieces.
use crate::rng::Rng;
use std::path::Path;

/// `@` stands for the number of the piece.
pub const PIECES: &[&str] = &[
    // nothing wrong
    "/proc/fine@()\n\tvar/x = 1\n\treturn x\n",
    "/obj/fine@\n\tvar/a = 1\n\tproc/p()\n\t\treturn a\n/obj/fine@/sub/p()\n\treturn ..()\n",
    // checker
    "/obj/nope@/proc/p()\n\treturn 1\n/obj/nope@/proc/p2()\n\tset SpacemanDMM_should_not_override = 0\n",
    "/obj/twice@/proc/p()\n\tset SpacemanDMM_should_not_override = 1\n\tset SpacemanDMM_should_not_override = 1\n",
    "/obj/bad@/proc/p()\n\tset SpacemanDMM_should_not_sleep = \"x\"\n",
    "/obj/unk@/proc/p()\n\tset SpacemanDMM_nonsense = 1\n",
    "/obj/sv@/proc/p()\n\tset invisibility = 300\n/obj/sv@/verb/v()\n\tset src in nowhere\n",
    "/obj/mc@/proc/p()\n\tset SpacemanDMM_should_call_parent = 1\n/obj/mc@/sub/p()\n\treturn\n",
    "/obj/mn@/proc/p()\n\tset SpacemanDMM_should_not_call_parent = 1\n/obj/mn@/sub/p()\n\treturn ..()\n",
    "/obj/mo@/proc/p()\n\tset SpacemanDMM_should_not_override = 1\n/obj/mo@/sub/p()\n\treturn\n",
    "/obj/fv@\n\tvar/SpacemanDMM_final/a = 1\n/obj/fv@/sub\n\ta = 2\n",
    "/obj/pp@/proc/p()\n\tset SpacemanDMM_private_proc = 1\n/proc/pp@(obj/pp@/o)\n\to.p()\n",
    "/obj/pr@/proc/p()\n\tset SpacemanDMM_protected_proc = 1\n/proc/pr@(obj/pr@/o)\n\to.p()\n",
    "/obj/pv@\n\tvar/SpacemanDMM_private/a = 1\n/proc/pv@(obj/pv@/o)\n\treturn o.a\n",
    "/obj/pw@\n\tvar/SpacemanDMM_protected/a = 1\n/proc/pw@(obj/pw@/o)\n\treturn o.a\n",
    "/obj/pu@\n\tvar/a\n\tproc/p()\n\t\tset SpacemanDMM_should_be_pure = 1\n\t\ta = 2\n",
    "/obj/sl@/proc/p()\n\tset SpacemanDMM_should_not_sleep = 1\n\tq()\n/obj/sl@/proc/q()\n\tsleep(1)\n",
    "/obj/rd@/proc/p()\n\treturn 1\n/obj/rd@/p()\n\treturn 2\n",
    "/proc/il@(a, b, c)\n\tif(a == b in c)\n\t\treturn 1\n\tif(!a & b)\n\t\treturn 2\n",
    "/proc/nt@()\n\tvar/x\n\tx = new()\n\treturn x\n",
    "/proc/fa@(x)\n\tx.field@ = 1\n\tx.call@()\n",
    "/proc/np@()\n\t..()\n",
    "/proc/op@(mob/m)\n\tm++\n\treturn m[1]\n",
    "/proc/ef@(list/l)\n\tset SpacemanDMM_private_proc = 1\n\tif(l)\n\t\tset SpacemanDMM_should_be_pure = 1\n\treturn l.Find()\n",
    "/proc/ur@()\n\treturn 1\n\tvar/x = 2\n\treturn x\n",
    "/proc/cs@()\n\tif(1)\n\t\treturn 1\n\twhile(0)\n\t\treturn 2\n\tfor(var/i = 0; 1; i++)\n\t\treturn 3\n",
    "/obj/kw@/proc/p(a, b)\n\treturn b\n/obj/kw@/sub/p(c)\n\treturn ..()\n/proc/kw@(obj/kw@/o)\n\to.p(b = 1)\n",
    "/proc/un@()\n\treturn undefined_thing@\n",
    "/proc/uc@()\n\treturn undefined_proc@(1)\n",
    "/proc/ut@()\n\treturn new /obj/undefined@\n",
    "/proc/uf@(mob/m)\n\treturn m.nosuchfield@\n",
    "/proc/sw@()\n\tswitch(rand(1, 3))\n\t\tif(1 to 2)\n\t\t\treturn 1\n\t\tif(7)\n\t\t\treturn 2\n",
    "/proc/ln@(mob/m)\n\treturn list(1, 2) & (m.key@)\n",
    "/obj/tv@\n\tvar/list/x = new /mob\n\tvar/obj/tv@/y = new\n",
    // lexer
    "/proc/big@()\n\treturn 4294967297\n",
    // parser
    "/proc/vp@(var/a)\n\treturn a\n",
    "/proc/st@(static/a)\n\treturn a\n",
    "/proc/sc@(a, b;)\n\treturn a + b\n",
    "/proc/ip@()\n\treturn input(\"x\") in list(1) as num\n",
    "/proc/tm@()\n\tvar/tmp/x = 1\n\tvar/SpacemanDMM_final/y = 2\n\tvar/z as num\n\treturn x + y + z\n",
    "/obj/dd@\n\tvar/a = 1\n\tvar/a = 2\n",
    "/obj/iv@\n\tvar/a = undefined@\n",
    "/obj/ir@\n\tnosuchvar@ = 5\n",
    // preprocessor
    "#define MR@ 1\n#define MR@ 2\n#undef MN@\n",
    "#if 1\n/obj/pi@\n#else\n/obj/pj@\n#endif\n#warn careful @\n",
    "#error oops @\n",
    // object tree
    "/obj/od@/p()\n\treturn 1\n/obj/od@/proc/p()\n\treturn 2\n",
    "/obj/op@/proc/p()\n\treturn 1\n/obj/op@/proc/p()\n\treturn 2\n",
    // relative definitions
    "/obj/re@\n\tsub\n\t\tvar/a = 1\n\t\tproc/p()\n\t\t\treturn a\n",
];

/// Every errortype the documentation lists, and those only the code has.
pub const TYPES: &[&str] = &[
    "disabled_directive", "sets_directive_twice", "invalid_lint_directive_value", "invalid_set_value", "unknown_linter_setting", "override_missing_keyword_arg", "must_not_override", "must_call_parent", "must_not_call_parent", "final_var", "private_proc", "protected_proc", "private_var", "protected_var", "must_be_pure", "must_not_sleep", "redefined_proc", "ambiguous_in_lhs", "ambiguous_not_bitwise", "no_typehint_implicit_new", "field_access_static_type", "proc_call_static_type", "proc_has_no_parent", "no_operator_overload", "unreachable_code", "control_condition_static", "if_condition_determinate", "loop_condition_determinate", "improper_index", "integer_precision_loss", "var_in_proc_parameter", "static_in_proc_parameter", "semicolon_in_proc_parameter", "in_precedes_as", "tmp_no_effect", "final_no_effect", "as_local_var", "duplicate_include", "macro_redefined", "macro_undefined_no_definition", "override_precedes_definition", "set_has_no_effect", "incompatible_directive", "empty_find",
];

/// Files by name, the environment first.
pub fn project(r: &mut Rng) -> Vec<(String, String)> {
    let n = 1 + r.below(4);
    let mut files = vec![("e.dme".to_owned(), String::new())];
    let mut k = 0;
    for i in 0..n {
        let name = if r.chance(1, 4) { format!("sub/f{i}.dm") } else { format!("f{i}.dm") };
        let mut text = String::new();
        for _ in 0..r.below(8) {
            k += 1;
            let mut p = r.pick(PIECES).replace('@', &k.to_string());
            if r.chance(1, 80) { p += &format!("/proc/px{k}()\n\treturn (1 +\n"); }
            if r.chance(1, 40) { let c = r.below(p.len()); if p.is_char_boundary(c) { p.remove(c); } }
            text += &p;
            if r.bool() { text.push('\n'); }
        }
        files[0].1 += &format!("#include \"{name}\"\n");
        if r.chance(1, 12) { files[0].1 += &format!("#include \"{name}\"\n"); }
        if r.chance(1, 20) { files[0].1 += "#include \"missing.dm\"\n"; }
        files.push((name, text));
    }
    files
}

pub fn write(dir: &Path, files: &[(String, String)]) {
    for (n, t) in files { let p = dir.join(n); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, t).unwrap(); }
}
pub fn told(files: &[(String, String)]) -> String { files.iter().map(|(n, t)| format!("// ---- {n}\n{t}")).collect() }
