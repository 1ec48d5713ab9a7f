//! C10: nothing depends on hash seeds, addresses or threads
use super::Prop;
use super::c05::{plant_item, plant_pat};
use crate::common::*;
use crate::corpus;
use crate::damage::Damage;
use crate::gram::{self, Body, Cfg, Item, NameC, Op, Pat};
use crate::io::Plan;
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Ev, Obs, syntax};
use crate::render;
use crate::report::Report;
use crate::sandbox::on_thread;
use crate::util::{Rng, clip};
use relaxng_model::Compiler;
use relaxng_validator::Validator;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C10",
    generate,
    run,
    shrink: &["/docs", "/variants"],
    quick: 42_000,
    thorough: 600_000,
    rule: "Schemas with several errors at once (undefined references, unneeded overrides, duplicates, cycles, damage), or schemas and documents with long lists of alternatives; compiled and validated again under other hash seeds, heap layouts, threads (also named otherwise) and earlier work. Non-trivial: an error is reported somewhere.",
    real: "relaxng-model, relaxng-syntax, relaxng-validator, codemap-diagnostic rendering",
    stub: "the Files implementation, getrandom, standard error",
    budget: (120_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    docs: Vec<String>,
    variants: Vec<Variant>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Variant {
    hash_seed: u64,
    /// unrelated allocations are made and freed before and between the steps
    heap: Option<u64>,
    /// the same work was done before by the same thread
    again: bool,
    /// the compiler is made on this thread after another one has compiled the same
    warm: bool,
    #[serde(default)]
    thread: Option<String>,
}

fn several(p: &mut gram::Project, r: &mut Rng) {
    let n = r.range(2, 7);
    let kind = r.below(11);
    let rng = p.rng_syntax;
    for i in 0..n {
        let x = if r.chance(1, 2) { 0 } else { r.below(p.files.len()) };
        let name = format!("zz{}{i}", r.pick(&["b", "a", "é", "undefined.", "q"]));
        match if kind == 9 { r.below(6) } else { kind } {
            0 | 8 => {
                if r.chance(1, 3) {
                    // some that are defined look much the same
                    for k in 0..r.range(2, 4) {
                        plant_item(p, x, r, Item::Def(format!("{name}{k}"), Op::Assign, Pat::Empty));
                    }
                }
                plant_pat(p, x, r, Pat::Ref(name));
            }
            1 => {
                let n: Vec<String> = (0..r.range(1, 3)).map(|k| format!("{name}.{k}")).collect();
                let q = Pat::Choice(n.into_iter().map(Pat::Ref).collect());
                plant_pat(p, x, r, q);
            }
            2 => {
                // overrides of nothing
                let Body::Grammar(items) = &mut p.files[x].body else { continue };
                let Some(Item::Inc(_, _, over)) = items.iter_mut().find(|i| matches!(i, Item::Inc(..))) else { continue };
                over.push(Item::Def(name, Op::Assign, Pat::Empty));
            }
            3 => {
                // recursion through several names
                let other = format!("{name}x");
                plant_item(p, x, r, Item::Def(name.clone(), Op::Assign, Pat::Opt(Box::new(Pat::Ref(other.clone())))));
                plant_item(p, x, r, Item::Def(other.clone(), Op::Assign, Pat::Choice(vec![Pat::Text, Pat::Ref(name.clone())])));
                let n = if r.chance(1, 2) { name } else { other };
                plant_pat(p, x, r, Pat::Ref(n));
            }
            4 => {
                for _ in 0..r.range(2, 3) {
                    plant_item(p, x, r, Item::Def(name.clone(), Op::Assign, Pat::Empty));
                }
            }
            5 => {
                // (three that are defined are p1, p2, p3)
                let name = if r.chance(1, 2) { r.pick(&["p", "p9", "pp"]).to_string() } else { name };
                let t = if rng { format!("<element name=\"{name}:x\"><empty/></element>") } else { format!("element {name}:x {{ empty }}") };
                plant_pat(p, x, r, Pat::Raw(t));
            }
            10 => {
                let (c, q) = crate::types::faulty(r);
                plant_pat(p, x, r, Pat::Raw(if rng { q } else { c }));
            }
            6 => {
                // a nested grammar with several undefined references, definitions of its own, and no use of them
                let mut v = vec![Item::Def("start".into(), Op::Assign, Pat::Elem(NameC::Named(0, name.clone()), Box::new(Pat::Empty)))];
                for k in 0..r.range(1, 4) {
                    v.push(Item::Def(format!("{name}.d{k}"), Op::Choice, Pat::Ref(format!("{name}.u{k}"))));
                }
                plant_pat(p, x, r, Pat::Gram(v));
            }
            _ => {
                // parts with conflicting combinations
                plant_item(p, x, r, Item::Def(name.clone(), Op::Choice, Pat::Empty));
                plant_item(p, x, r, Item::Def(name.clone(), Op::Inter, Pat::Empty));
            }
        }
    }
}

fn alternatives(p: &mut gram::Project, r: &mut Rng) {
    for i in 0..r.range(1, 3) {
        let x = r.below(p.files.len());
        let n = r.range(2, 9);
        let mut v: Vec<Pat> = (0..n)
            .map(|k| Pat::Elem(NameC::Named(r.below(3), format!("alt{i}{}{k}", r.pick(&["b", "a", "ü", "Z"]))), Box::new(Pat::Empty)))
            .collect();
        r.shuffle(&mut v);
        let q = match r.below(4) {
            0 => Pat::Choice(v),
            1 => Pat::Inter(v),
            2 => Pat::Star(Box::new(Pat::Choice(v))),
            _ => Pat::Opt(Box::new(Pat::Choice(v))),
        };
        plant_pat(p, x, r, q);
    }
}

/// something undefined among several defined things that look much the same, or several mistakes in one tag
fn crowd(d: &str, at: usize, r: &mut Rng) -> Option<String> {
    let mut like = || format!("zz{}", r.pick(&["a", "b", "ab", "ba", "é", "Ü", "1", ".x", "zzz", ""]));
    let mut names: Vec<String> = (0..6).map(|_| like()).collect();
    names.sort();
    names.dedup();
    r.shuffle(&mut names);
    let bad = names.pop().filter(|_| names.len() > 1)?;
    if r.chance(1, 2) {
        let rest = &d[..];
        let start = if rest.starts_with("<?xml") { rest.find("?>")? + 2 } else if rest.starts_with('\u{feff}') { return None } else { 0 };
        if d.contains("<!DOCTYPE") {
            return None;
        }
        let root = d[d.match_indices('<').map(|(i, _)| i).find(|i| d[*i + 1..].starts_with(|c: char| c.is_alphabetic() || c == '_'))? + 1..].split(|c: char| c.is_whitespace() || c == '>' || c == '/').next()?;
        let decls: String = names.iter().map(|n| format!("<!ENTITY {n} 'x'>")).collect();
        if at < start {
            return None;
        }
        return Some(format!("{}<!DOCTYPE {root} [{decls}]>{}&{bad};{}", &d[..start], &d[start..at], &d[at..]));
    }
    // within the tag, after its name
    let tag = &d[at..];
    if !tag[1..].starts_with(|c: char| c.is_alphabetic() || c == '_') {
        return None;
    }
    let end = at + tag.find(|c: char| c.is_whitespace() || c == '>' || c == '/')?;
    let mut parts: Vec<String> = names.iter().map(|n| if r.chance(2, 3) { format!("xmlns:{n}='urn:{n}'") } else { format!("{n}='1'") }).collect();
    for _ in 0..r.range(1, 3) {
        parts.push(match r.below(3) {
            0 => format!("{bad}:x{}='1'", r.below(3)),
            1 => format!("{bad}{}='&{bad};'", r.below(3)),
            _ => parts[r.below(parts.len())].clone(),
        });
    }
    r.shuffle(&mut parts);
    Some(format!("{} {}{}", &d[..end], parts.join(" "), &d[end..]))
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (c, docs) = match r.below(8) {
        0..=2 => {
            // several mistakes
            let mut c = Cfg::random(r);
            c.include = true;
            c.max_files = r.range(1, 6);
            let mut p = gram::generate(r, &c);
            several(&mut p, r);
            let out = render::render(&p, r);
            (corpus::Case { rng: out.rng_syntax, root: out.root, files: out.files, docs: vec![] }, vec![])
        }
        3..=5 => {
            let mut c = Cfg::random(r);
            if r.chance(1, 2) {
                c.inter = true;
            }
            let mut p = gram::generate(r, &c);
            alternatives(&mut p, r);
            let out = render::render(&p, r);
            let mut v: Vec<String> = docs(&p, &c, r, 1, 2).into_iter().map(|d| d.text).collect();
            v.extend(mutants(&p, r, 1));
            // something that is allowed nowhere, at a random tag
            for d in v.clone() {
                let at: Vec<usize> = d.match_indices('<').map(|(i, _)| i).filter(|i| *i > 0 && !d[*i..].starts_with("<!") && !d[*i..].starts_with("<?")).collect();
                if !at.is_empty() {
                    let i = *r.pick(&at);
                    let what = *r.pick(&["<zzstray/>", "zztext", "<zz:stray xmlns:zz='urn:zz'/>", "<zzstray>", "&zz;"]);
                    v.push(format!("{}{what}{}", &d[..i], &d[i..]));
                    if r.chance(1, 2) {
                        v.extend(crowd(&d, i, r));
                    }
                }
            }
            (corpus::Case { rng: out.rng_syntax, root: out.root, files: out.files, docs: vec![] }, v)
        }
        6 => {
            // damaged at several places
            let mut c = corpus::any(r);
            let names: Vec<String> = c.files.keys().cloned().collect();
            for _ in 0..r.range(1, 4) {
                let n = r.pick(&names);
                let d = Damage::text(r, &c.files[n]);
                if let Some(t) = d.apply_text(&c.files[n]) {
                    c.files.insert(n.clone(), t);
                }
            }
            let d = c.docs.clone();
            (c, d)
        }
        _ => {
            let c = corpus::any(r);
            let d = c
                .docs
                .iter()
                .take(4)
                .map(|d| if r.chance(1, 2) { Damage::text(r, d).apply_text(d).unwrap_or_default() } else { d.clone() })
                .collect();
            (c, d)
        }
    };
    let variants = (0..r.range(3, 6))
        .map(|i| Variant { hash_seed: r.next(), heap: if i > 0 && r.chance(1, 2) { Some(r.next()) } else { None }, again: r.chance(1, 4), warm: i > 0 && r.chance(1, 5), thread: r.pick(&[None, Some("main"), Some("worker-1"), Some("größe")]).map(String::from) })
        .collect();
    serde_json::to_value(Sc { rng: c.rng, root: c.root, files: c.files, docs, variants }).unwrap()
}

/// makes addresses unpredictable
struct Jostle(Option<Rng>, Vec<Vec<u8>>);
impl Jostle {
    fn shake(&mut self) {
        let Some(r) = &mut self.0 else { return };
        for _ in 0..r.range(1, 12) {
            if r.chance(1, 2) && !self.1.is_empty() {
                let i = r.below(self.1.len());
                self.1.swap_remove(i);
            } else {
                let n = if r.chance(1, 10) { r.range(1000, 200_000) } else { r.range(8, 400) };
                self.1.push(vec![0; n]);
            }
        }
    }
}

#[derive(PartialEq)]
struct Seen {
    compile: Vec<Obs>,
    sessions: Vec<Vec<Ev>>,
}

fn once(sc: &Sc, v: &Variant) -> Result<Seen, crate::sandbox::Panic> {
    let mut j = Jostle(v.heap.map(Rng::new), vec![]);
    let mut out = Seen { compile: vec![], sessions: vec![] };
    j.shake();
    let d = disk(&sc.files);
    if v.heap.is_some() {
        let mut k = Jostle(v.heap.map(|s| Rng::new(s ^ 1)), vec![]);
        d.borrow_mut().hook = Some(Box::new(move |_, _| k.shake()));
    }
    if v.warm {
        let mut c = Compiler::new(MemFs(disk(&sc.files)), syntax(sc.rng));
        let _ = observe::compile(&mut c, &sc.root)?;
    }
    for _ in 0..if v.again { 2 } else { 1 } {
        let mut c = Compiler::new(MemFs(d.clone()), syntax(sc.rng));
        j.shake();
        let (obs, m) = observe::compile(&mut c, &sc.root)?;
        out.compile.push(obs);
        let Ok(m) = m else { continue };
        for doc in &sc.docs {
            j.shake();
            let mut log = vec![];
            let mut val = Validator::new(m.clone(), xmlparser::Tokenizer::from(&doc[..]));
            let mut r = observe::Rendering::new(1 << 20);
            for _ in 0..doc.len() * 4 + 64 {
                j.shake();
                let e = observe::step(&mut val, "docs/größe/doc.xml", doc, &mut r);
                let end = matches!(e, Ev::End | Ev::Panic(_));
                log.push(e);
                if end {
                    break;
                }
            }
            out.sessions.push(log);
        }
    }
    if v.again {
        // the two rounds must agree as well; compared by folding them
        let n = out.sessions.len() / 2;
        if out.compile[0] == out.compile[1] && out.sessions[..n] == out.sessions[n..] {
            out.compile.truncate(1);
            out.sessions.truncate(n);
        }
    }
    Ok(out)
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    crate::io::load(&Plan { capture: true, ..Default::default() });
    let mut first: Option<Seen> = None;
    for (i, var) in sc.variants.iter().enumerate() {
        let seen = match on_thread(var.hash_seed, var.thread.as_deref(), || once(&sc, var)).and_then(|x| x) {
            Ok(s) => s,
            Err(p) if super::c07::exempt(&p) => return rep.skip("datatype feature documented as missing"),
            Err(p) => return panic_violation(rep, "compiling", &p),
        };
        rep.steps += seen.compile.len() as u64 + seen.sessions.iter().map(|s| s.len() as u64).sum::<u64>();
        if i > 0 {
            rep.fault("other hash seeds");
            if var.thread != sc.variants[0].thread {
                rep.fault("thread of another name");
            }
        }
        if var.heap.is_some() {
            rep.fault("other heap layout");
        }
        if var.again || var.warm {
            rep.fault("repeated in the same thread");
        }
        if seen.compile.len() > 1 {
            let n = seen.sessions.len() / 2;
            let what = seen.compile[0].diff(&seen.compile[1]).unwrap_or_else(|| differ(&seen.sessions[..n], &seen.sessions[n..]));
            return rep.violate("repetition-differs", what);
        }
        let Some(f) = &first else {
            let errors = seen.sessions.iter().flatten().any(|e| matches!(e, Ev::Err(..)));
            if !seen.compile[0].ok {
                rep.probe("schema rejected");
                rep.nontrivial = true;
            } else if errors {
                rep.probe("document rejected");
                rep.nontrivial = true;
            } else {
                rep.probe("no error");
            }
            rep.mix(&seen.compile[0].body);
            rep.mix(&seen.compile[0].diag);
            for s in &seen.sessions {
                rep.mix(&format!("{s:?}"));
            }
            first = Some(seen);
            continue;
        };
        if let Some(d) = f.compile[0].diff(&seen.compile[0]) {
            return rep.violate("compile-differs", d);
        }
        if f.sessions != seen.sessions {
            return rep.violate("session-differs", differ(&f.sessions, &seen.sessions));
        }
    }
}

pub fn differ(a: &[Vec<Ev>], b: &[Vec<Ev>]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let k = x.iter().zip(y).take_while(|(p, q)| p == q).count();
            let show = |v: &[Ev]| match v.get(k) {
                None => "(nothing)".to_string(),
                Some(Ev::Err(e, d)) => format!("{}\n{}", clip(e, 200), clip(d, 800)),
                Some(e) => format!("{e:?}"),
            };
            return format!("document {i}, step {k}: {}\nversus\n{}", show(x), show(y));
        }
    }
    format!("{} sessions versus {}", a.len(), b.len())
}
