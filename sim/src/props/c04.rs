//! C04: files that are replaced while they are being loaded
use super::Prop;
use super::c03::lines_moved;
use crate::common::*;
use crate::damage::Damage;
use crate::io::{self, Effect, Fault, OP_OPEN, Plan};
use crate::memfs::{Load, MemFs, Outcome, Recording, disk};
use crate::observe::{self, syntax};
use crate::render::Rendered;
use crate::report::Report;
use crate::util::{Rng, norm};
use relaxng_model::{Compiler, Files};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C04",
    generate,
    run,
    shrink: &["/switches", "/roots", "/opens"],
    quick: 80_000,
    thorough: 400_000,
    rule: "Files of a random multi-file schema (shared files preferred) are replaced by other versions at chosen loads (or at chosen opens of the real FsFiles over the simulated disk) during 1-4 compiles on one compiler, or only appear after the first compiles; each result is compared with a fresh compile of the snapshot made of the first version of each file that was parsed. Non-trivial: a file was replaced.",
    real: "relaxng-model (Compiler, diagnostics, FsFiles in a quarter of the runs), relaxng-syntax",
    stub: "the Files implementation or the file system below FsFiles, randomness, standard error",
    budget: (200_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    /// (before this load, path, new text)
    switches: Vec<(usize, String, String)>,
    /// instead: versions served by the file system, (path, at this open, text)
    fs: bool,
    opens: Vec<(String, u32, String)>,
    /// these are not there at first (there is a switch for each)
    #[serde(default)]
    absent: Vec<String>,
    roots: Vec<String>,
    hash_seed: u64,
}

pub fn version(r: &mut Rng, t: &str, rng: bool) -> String {
    let mut t = t.to_string();
    for _ in 0..r.range(1, 2) {
        match r.below(6) {
            0 | 1 => t = lines_moved(r, &t, rng),
            2..=4 => {
                // rename an element
                let pat = if rng { "<element name=\"" } else { "element n" };
                let at: Vec<usize> = t.match_indices(pat).map(|m| m.0 + pat.len()).collect();
                if !at.is_empty() {
                    let k = *r.pick(&at);
                    t.insert(k, 'v');
                }
            }
            _ => {
                let d = Damage::random(r, t.len());
                if let Some(x) = d.apply_text(&t) {
                    t = x;
                }
            }
        }
    }
    t
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (_, schema, _) = project(r, |c| {
        c.max_files = c.max_files.max(3);
        c.share = true;
        c.nested = true;
    });
    let names: Vec<String> = schema.files.keys().cloned().collect();
    let mut roots = vec![schema.root.clone()];
    for _ in 0..r.below(4) {
        roots.push(if r.chance(3, 4) { schema.root.clone() } else { r.pick(&names).clone() });
    }
    let fs = r.chance(1, 4);
    let mut switches = vec![];
    let mut opens = vec![];
    let mut absent = vec![];
    if fs {
        for n in &names {
            for k in 0..r.below(3) as u32 {
                // the second open, if there is one, sees something else
                opens.push((n.clone(), if r.chance(3, 4) { k + 1 } else { k }, version(r, &schema.files[n], schema.rng_syntax)));
            }
        }
    } else {
        for _ in 0..r.range(1, 8) {
            let n = r.pick(&names).clone();
            let t = version(r, &schema.files[&n], schema.rng_syntax);
            switches.push((r.below(names.len() * 2), n, t));
        }
        if r.chance(1, 3) {
            // some files come only later; each compile until then fails
            for _ in 0..r.range(1, 2) {
                let n = r.pick(&names).clone();
                let t = if r.chance(2, 3) { schema.files[&n].clone() } else { version(r, &schema.files[&n], schema.rng_syntax) };
                switches.push((r.range(1, names.len() + 2), n.clone(), t));
                absent.push(n);
                let root = r.pick(&roots).clone();
                roots.push(root);
            }
        }
    }
    serde_json::to_value(Sc { schema, switches, fs, opens, absent, roots, hash_seed: r.next() }).unwrap()
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let mut plan = Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() };
    if sc.fs {
        plan.files = Plan::of(&sc.schema.files).files;
        for (p, nth, t) in &sc.opens {
            let vs = plan.files.get_mut(p).unwrap();
            vs.push(t.clone().into_bytes());
            let k = vs.len() as u32 - 1;
            plan.faults.push(Fault { path: p.clone(), op: OP_OPEN, nth: *nth, effect: Effect::Version(k) });
        }
        io::load(&plan);
        let rec = Rc::new(RefCell::new(vec![]));
        let c = Compiler::new(Recording(rec.clone()), syntax(sc.schema.rng_syntax));
        go(&sc, c, &|| rec.borrow().clone(), &|| 0, rep);
        for (i, f) in plan.faults.iter().enumerate() {
            if io::fired(i) {
                rep.fault(&f.kind());
                rep.nontrivial = true;
            }
        }
        rep.probe("through FsFiles");
    } else {
        io::load(&plan);
        let d = disk(&sc.schema.files);
        d.borrow_mut().switches = sc.switches.clone();
        for a in &sc.absent {
            d.borrow_mut().files.remove(a);
        }
        let c = Compiler::new(MemFs(d.clone()), syntax(sc.schema.rng_syntax));
        let d2 = d.clone();
        go(&sc, c, &|| d.borrow().loads.clone(), &|| d2.borrow().fired, rep);
        for _ in 0..d2.borrow().fired {
            rep.fault("load:replaced");
            rep.nontrivial = true;
        }
    }
}

fn go<F: Files>(sc: &Sc, mut c: Compiler<F>, loads: &dyn Fn() -> Vec<Load>, fired: &dyn Fn() -> u64, rep: &mut Report) {
    // the version of each file that was parsed first
    let mut held: BTreeMap<String, String> = BTreeMap::new();
    // those that are known to have been parsed, whatever the compiler says
    let mut parsed: BTreeSet<String> = BTreeSet::new();
    let mut changed = 0;
    for (i, root) in sc.roots.iter().enumerate() {
        let mut before: BTreeSet<String> = c.loaded().map(|p| norm(&p.to_string_lossy())).collect();
        before.extend(parsed.iter().cloned());
        let n = loads().len();
        let got = match observe::compile(&mut c, root) {
            Ok(x) => x.0,
            Err(p) => {
                // whether damaged versions crash the compiler is decided elsewhere
                return rep.skip(&format!("panics: {}", p.file.rsplit('/').next().unwrap_or_default()));
            }
        };
        let all = loads();
        let now = &all[n..];
        rep.steps += 1 + now.len() as u64;
        let after: BTreeSet<String> = c.loaded().map(|p| norm(&p.to_string_lossy())).collect();
        let mut snapshot = sc.schema.files.clone();
        for (p, t) in &held {
            snapshot.insert(p.clone(), t.clone());
        }
        let mut seen = BTreeSet::new();
        // a compile ends at the first file that cannot be parsed
        let unparsed = if !got.ok && got.body.contains("Parse(") { now.iter().rposition(|l| matches!(l.out, Outcome::Ok(_))) } else { None };
        for (k, l) in now.iter().enumerate() {
            let Outcome::Ok(t) = &l.out else {
                snapshot.remove(&l.path);
                rep.fault("load:not there yet");
                continue;
            };
            let is_parsed = after.contains(&l.path) || unparsed != Some(k);
            rep.mix(&format!("{} {}", l.path, crate::util::hash_str(t)));
            if before.contains(&l.path) {
                return rep.violate("fetched-again", format!("compile {i}: {} was parsed in an earlier compile, and is loaded again", l.path));
            }
            if !seen.insert(l.path.clone()) {
                return rep.violate("fetched-again", format!("compile {i}: {} is loaded twice", l.path));
            }
            if sc.schema.files.get(&l.path) != Some(t) {
                changed += 1;
            }
            snapshot.insert(l.path.clone(), t.clone());
            if is_parsed {
                parsed.insert(l.path.clone());
                held.insert(l.path.clone(), t.clone());
            }
        }
        let r = disk(&snapshot);
        let mut fresh = Compiler::new(MemFs(r), syntax(sc.schema.rng_syntax));
        let want = match observe::compile(&mut fresh, root) {
            Ok(x) => x.0,
            Err(p) => return rep.violate("not-a-snapshot", format!("compile {i}: {} but a fresh compile of the snapshot panics: {}", got.short(), p.text())),
        };
        rep.mix(&got.body);
        rep.probe(if got.ok { "compiled" } else { "rejected" });
        if changed > 0 {
            rep.probe("another version was used");
        }
        if i > 0 && fired() > 0 {
            rep.probe("later compile, after a replacement");
        }
        if let Some(d) = got.diff(&want) {
            return rep.violate("not-a-snapshot", format!("compile {i} of {root}: got (first), and from the snapshot (second):\n{d}"));
        }
    }
}
