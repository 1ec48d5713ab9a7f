//! C05: graphs of include and external references
use super::Prop;
use crate::common::*;
use crate::gram::{self, Body, Cfg, Item, NameC, Pat, Project};
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Mirror, Verdict, syntax};
use crate::render::{self, Rendered};
use crate::report::Report;
use crate::util::{Rng, norm};
use relaxng_model::{Compiler, RelaxError};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C05",
    generate,
    run,
    shrink: &["/docs"],
    quick: 110_000,
    thorough: 300_000,
    rule: "Random graphs of files (1-10 files in several directories, include and external edges at any nesting position, several spellings of the same path, files used repeatedly, decoy files of the same name in other directories), in half of the runs with one or two edges back to a file on the way. Non-trivial: more than one file.",
    real: "relaxng-model (Compiler), relaxng-syntax, relaxng-validator",
    stub: "the Files implementation (in memory), randomness, standard error",
    budget: (200_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    /// how the file to start from is called
    root: String,
    decoys: BTreeMap<String, String>,
    docs: Vec<Doc>,
    hash_seed: u64,
}

/// every place in the items where a pattern can take another alternative (bodies of elements)
fn bodies<'a>(items: &'a mut [Item], out: &mut Vec<&'a mut Box<Pat>>) {
    for it in items {
        match it {
            Item::Def(_, _, p) => pat_bodies(p, out),
            Item::Div(v) => bodies(v, out),
            Item::Inc(_, _, v) => bodies(v, out),
            Item::Raw(_) => {}
        }
    }
}
fn pat_bodies<'a>(p: &'a mut Pat, out: &mut Vec<&'a mut Box<Pat>>) {
    match p {
        Pat::Elem(n, b) => {
            if matches!(n, NameC::Named(_, s) if s.starts_with("decoy")) {
                return;
            }
            // either the element itself, or something inside
            if matches!(**b, Pat::Elem(..) | Pat::Group(..) | Pat::Choice(..) | Pat::Opt(..) | Pat::Star(..)) && out.len() % 2 == 0 {
                pat_bodies(b, out)
            } else {
                out.push(b)
            }
        }
        Pat::Group(v) | Pat::Choice(v) | Pat::Inter(v) => v.iter_mut().for_each(|p| pat_bodies(p, out)),
        Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) | Pat::Mixed(p) => pat_bodies(p, out),
        Pat::Gram(items) => bodies(items, out),
        _ => {}
    }
}

/// add a pattern next to what is in the body of some element of the file
pub fn plant_pat(p: &mut Project, file: usize, r: &mut Rng, extra: Pat) -> bool {
    let mut v = vec![];
    match &mut p.files[file].body {
        Body::Grammar(items) => bodies(items, &mut v),
        Body::Pattern(q) => pat_bodies(q, &mut v),
    }
    if v.is_empty() {
        return false;
    }
    let i = r.below(v.len());
    let b = &mut **v.swap_remove(i);
    let old = std::mem::replace(b, Pat::Empty);
    *b = if r.chance(1, 2) { Pat::Group(vec![old, extra]) } else { Pat::Choice(vec![old, extra]) };
    true
}
/// add an item somewhere in the grammar of the file
pub fn plant_item(p: &mut Project, file: usize, r: &mut Rng, item: Item) -> bool {
    match &mut p.files[file].body {
        Body::Grammar(items) => {
            let k = r.below(items.len() + 1);
            if r.chance(1, 4) {
                if let Some(Item::Div(v)) = items.iter_mut().find(|i| matches!(i, Item::Div(_))) {
                    let k = r.below(v.len() + 1);
                    v.insert(k, item);
                    return true;
                }
            }
            items.insert(k, item);
            true
        }
        _ => false,
    }
}

pub fn links_of(p: &Project, r: &Rng) -> Rendered {
    render::render(p, &mut r.clone())
}

pub fn reach(links: &[render::Link], from: &str) -> BTreeSet<String> {
    let mut seen: BTreeSet<String> = [from.to_string()].into();
    let mut todo = vec![from.to_string()];
    while let Some(f) = todo.pop() {
        for l in links.iter().filter(|l| l.from == f) {
            if seen.insert(l.to.clone()) {
                todo.push(l.to.clone());
            }
        }
    }
    seen
}

fn generate(r: &mut Rng, thorough: bool) -> Value {
    let mut c = Cfg::random(r);
    c.max_files = r.range(1, if thorough { 14 } else { 10 });
    c.include = true;
    c.odd_spelling = r.chance(2, 3);
    let mut p = gram::generate(r, &c);
    let cyclic = r.chance(1, 2);
    let docs = if cyclic {
        vec![]
    } else {
        docs(&p, &c, r, 3, 2)
    };
    if cyclic && r.chance(1, 6) {
        gram::leaf_chain(&mut p, r, c.odd_spelling, true);
    } else if cyclic {
        for _ in 0..r.range(1, 2) {
            let probe = links_of(&p, r);
            let x = r.below(p.files.len());
            // something on the way to x, or x itself, the root, or anything
            let anc: Vec<usize> = (0..p.files.len())
                .filter(|y| reach(&probe.links, &p.files[*y].path).contains(&p.files[x].path))
                .collect();
            let y = match r.below(6) {
                0 => x,
                1 => 0,
                _ => *r.pick(&anc),
            };
            let style = if c.odd_spelling { r.below(6) as u8 } else { 0 };
            let grammars = matches!(p.files[x].body, Body::Grammar(_)) && matches!(p.files[y].body, Body::Grammar(_));
            let done = grammars && r.chance(1, 2) && plant_item(&mut p, x, r, Item::Inc(y, style, vec![]));
            if !done {
                let q = match r.below(3) {
                    0 => Pat::Opt(Box::new(Pat::Ext(y, style))),
                    1 if matches!(p.files[y].body, Body::Grammar(_)) => Pat::Gram(vec![Item::Inc(y, style, vec![])]),
                    _ => Pat::Ext(y, style),
                };
                plant_pat(&mut p, x, r, q);
            }
        }
    }
    let schema = render::render(&p, r);
    // the wrong base directory finds something else
    let decoys = decoys(r, &schema);
    let root = if !cyclic && r.chance(1, 4) { crate::util::spell(r, &schema.root) } else { schema.root.clone() };
    serde_json::to_value(Sc { schema, root, decoys, docs, hash_seed: r.next() }).unwrap()
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let s = &sc.schema;
    crate::io::load(&crate::io::Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    // is a cycle reachable?
    let from_root = reach(&s.links, &s.root);
    let on_cycle: Vec<_> = s
        .links
        .iter()
        .filter(|l| from_root.contains(&l.from) && reach(&s.links, &l.to).contains(&l.from))
        .collect();
    let cyclic = !on_cycle.is_empty();
    let mut files = sc.decoys.clone();
    files.extend(s.files.clone());
    let d = disk(&files);
    let mut c = Compiler::new(MemFs(d.clone()), syntax(s.rng_syntax));
    let (obs, res) = match observe::compile(&mut c, &sc.root) {
        Ok(x) => x,
        Err(p) => return panic_violation(rep, "compiling", &p),
    };
    let loads = d.borrow().loads.clone();
    rep.steps += loads.len() as u64 + 1;
    for l in &loads {
        rep.mix(&l.raw);
    }
    rep.mix(&obs.body);
    rep.nontrivial = s.files.len() > 1;
    let mut raw = BTreeSet::new();
    for l in &loads {
        if !raw.insert(if sc.root == s.root { l.path.clone() } else { l.raw.clone() }) {
            return rep.violate("loaded-twice", format!("{} was loaded more than once in one compile", l.raw));
        }
        if !s.files.contains_key(&l.path) {
            return rep.violate("wrong-file", format!("{} was loaded; the schema does not refer to it", l.path));
        }
    }
    match res {
        Ok(model) => {
            if cyclic {
                return rep.violate("cycle-accepted", format!("{on_cycle:?}"));
            }
            for f in &from_root {
                if !loads.iter().any(|l| l.path == *f) {
                    return rep.violate("file-not-loaded", f.to_string());
                }
            }
            rep.probe("acyclic graph compiled");
            if s.links.len() > from_root.len() {
                rep.probe("a file is referred to repeatedly");
            }
            for doc in &sc.docs {
                let log = observe::session(&model, &doc.text, false);
                rep.steps += log.len() as u64;
                match (observe::verdict(&log), doc.valid) {
                    (Verdict::Valid, true) => rep.probe("valid document accepted"),
                    (Verdict::Invalid(_), false) => rep.probe("invalid document rejected"),
                    (Verdict::Valid, false) => return rep.violate("wrong-schema", format!("accepts a document that the schema forbids ({}):\n{}", doc.what, doc.text)),
                    (Verdict::Invalid(e), true) => return rep.violate("wrong-schema", format!("rejects a document that the schema allows ({e}):\n{}", doc.text)),
                    (Verdict::Limit, _) => rep.probe("limit of patterns reached"),
                    (Verdict::Broken(e), _) => return rep.violate("panic", format!("{e}\n{}", doc.text)),
                }
            }
        }
        Err(e) => {
            let (chain, inner) = observe::unwrap_includes(&e);
            let RelaxError::RecursiveInclude { span, .. } = inner else {
                if cyclic && matches!(inner, RelaxError::DuplicateDefinition { .. } | RelaxError::NoParentAvailable(_) | RelaxError::DefineRulesMixesChoiceAndInterleave { .. }) {
                    // an added include brought in definitions that do not fit there, before it closed a cycle
                    return rep.skip("definitions clash first");
                }
                if cyclic {
                    return rep.violate("cycle-not-reported", format!("{on_cycle:?}, but: {}", obs.short()));
                }
                return rep.violate("rejects-acyclic", obs.short());
            };
            if !cyclic {
                return rep.violate("phantom-cycle", obs.short());
            }
            rep.probe("cycle reported");
            rep.fault("reference back to a file on the way");
            if chain.len() > 1 {
                rep.probe("cycle below more than one level");
            }
            // the reported reference lies on a cycle
            let mirror = Mirror::new(&loads);
            if let Some(place) = mirror.place(*span) {
                let head = header(&obs.diag);
                if head == Some((place.file.clone(), place.line)) && !on_cycle.iter().any(|l| l.from == place.file && l.line == place.line) {
                    return rep.violate("wrong-reference", format!("{}:{} is not a reference on a cycle; those are {on_cycle:?}\n{}", place.file, place.line, obs.diag));
                }
            }
        }
    }
}

/// file and line of the primary position of a rendered diagnostic
pub fn header(diag: &str) -> Option<(String, usize)> {
    let l = diag.lines().find_map(|l| l.trim_start().strip_prefix("--> "))?;
    let mut it = l.rsplitn(3, ':');
    let _col = it.next()?;
    let line = it.next()?.parse().ok()?;
    Some((norm(it.next()?), line))
}
