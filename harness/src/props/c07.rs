use super::c06::*;
use crate::dm_util::*;
use crate::ensure;
use crate::fw::*;
use dm::preprocessor::Preprocessor;
use dm::Context;
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C07",
    quick: 10000,
    thorough: 250000,
    case,
    directed: &[],
    rule: "a case is a random project on disk whose files define, redefine and undefine macros and include each other; for every file reached, and for the end, preprocessing is re-opened there and a probe text (is the macro defined, what does it expand to, and again after each undefinition) is compared token by token with a fresh preprocessor fed the definitions the model says were in force, in order; the recorded history is compared entry by entry; distinct by project text, non-trivial when two points see different definitions and a definition comes from an included file",
    assumptions: &["a file included several times counts from its first inclusion"],
    ..DEFAULT
};

const PROBE_NAMES: usize = 6;

fn probe() -> String {
    let mut s = String::new();
    for round in 0..3 {
        for k in 0..PROBE_NAMES { s += &format!("#ifdef K{k}\nyes{round} K{k} (p, q) end\n#undef K{k}\n#else\nno{round}\n#endif\n"); }
    }
    s + "#ifdef DM_VERSION\nbuiltin TRUE\n#endif\n"
}

/// Probe output, with what the macros expand to before anything is undefined.
fn outcome(pp: Preprocessor) -> Vec<String> {
    pp.filter_map(|t| spell_real(&t.token)).collect()
}

fn expect(events: &[Event]) -> (Vec<String>, Vec<String>) {
    let mut stacks: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for e in events {
        match e {
            Event::Def { name, body, .. } => stacks.entry(name.clone()).or_default().push(body.clone()),
            Event::Undef { name, .. } => { stacks.get_mut(name).unwrap().pop(); },
        }
    }
    let mut text = String::new();
    for v in stacks.values() { for b in v { text += &format!("#define {b}\n"); } }
    let c = Context::default();
    let full = outcome(Preprocessor::from_buffer(&c, "x.dm".into(), text.clone() + &all_uses()));
    let c = Context::default();
    (full, outcome(Preprocessor::from_buffer(&c, "x.dm".into(), text + &probe())))
}

fn all_uses() -> String {
    (0..PROBE_NAMES).map(|k| format!("#ifdef K{k}\nyes K{k} (p, q) end K{k} (r) end K{k}\n#endif\n")).collect()
}

fn case(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let p = generate(&mut rng, cx.size, true);
    cx.input(p.show());
    let root = cx.dir("p");
    p.write(&root);
    let mut model = Run::default();
    model.file(&p, "t.dme");
    if model.overflow() { cx.count("projects left out as too large", 1); return; }
    let dme = root.join("t.dme");
    let context = Context::default();
    let mut pp = Preprocessor::new(&context, dme.clone()).unwrap();
    for _ in pp.by_ref() {}
    let history = pp.finalize();
    let mut states: Vec<(String, usize)> = model.starts.clone();
    states.push(("<end>".into(), model.events.len()));
    let mut distinct = std::collections::BTreeSet::new();
    for (file, k) in &states {
        let (full, probed) = expect(&model.events[..*k]);
        for (what, text, want) in [("uses", all_uses(), &full), ("probe", probe(), &probed)] {
            let pp = || {
                let mut pp = if file == "<end>" { history.branch_at_end(&context) } else {
                    let path = if file == "t.dme" { dme.clone() } else { file.into() };
                    let id = context.get_file(&path).unwrap_or_else(|| panic!("file {file} is not registered"));
                    history.branch_at_file(id, &context)
                };
                pp.push_file("probe.dm".into(), std::io::Cursor::new(text.into_bytes())).unwrap();
                outcome(pp)
            };
            let got = match catch(pp) { Ok(g) => g, Err(e) => { cx.violate("panic", e); return; } };
            cx.count("states compared", 1);
            if &got != want {
                let i = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
                cx.violate("state", format!("{what} at the start of {file} ({k} of {} events): token {i}: got {:?} want {:?}", model.events.len(), &got[i.min(got.len())..(i + 5).min(got.len())], &want[i.min(want.len())..(i + 5).min(want.len())]));
                return;
            }
        }
        distinct.insert(full);
    }
    cx.count("distinct macro states", distinct.len() as u64);
    cx.count("define and undef events", model.events.len() as u64);
    cx.max("files", model.starts.len() as u64);
    if distinct.len() >= 2 && model.events.iter().any(|e| matches!(e, Event::Def { file, .. } if file != "t.dme")) { cx.nontrivial(); }

    // the recorded history: each definition once, at its place, ending where it was undefined
    let prefix = format!("{}/", root.display());
    let name = |f: dm::FileId| -> String { let s = fname(&context, f); s.strip_prefix(&prefix).unwrap_or(&s).to_owned() };
    let mut got: Vec<(String, String, u32, Option<(String, u32)>)> = vec![];
    for (range, (n, define)) in history.iter() {
        if range.start.is_builtins() { continue; }
        let end = (range.end.line != !0).then(|| (name(range.end.file), range.end.line));
        let _ = define.display_with_name(n).to_string();
        got.push((n.to_string(), name(range.start.file), range.start.line, end));
    }
    let mut want: Vec<(String, String, u32, Option<(String, u32)>)> = vec![];
    let mut open: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for e in &model.events {
        match e {
            Event::Def { name, file, line, .. } => { open.entry(name).or_default().push(want.len()); want.push((name.clone(), file.clone(), *line, None)); },
            Event::Undef { name, file, line } => { let i = open.get_mut(name.as_str()).unwrap().pop().unwrap(); want[i].3 = Some((file.clone(), *line)); },
        }
    }
    got.sort();
    want.sort();
    cx.count("history entries compared", want.len() as u64);
    ensure!(cx, got == want, "history", "recorded history differs\n got {got:?}\nwant {want:?}");
}
