//! C03: a compiler after a history of failed compiles
use super::Prop;
use crate::common::*;
use crate::damage::Damage;
use crate::memfs::{MemFs, Outcome, PANIC_MSG, Trouble, disk};
use crate::observe::{self, syntax};
use crate::render::Rendered;
use crate::report::Report;
use crate::util::{Rng, norm};
use relaxng_model::Compiler;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C03",
    generate,
    run,
    shrink: &["/ops"],
    quick: 60_000,
    thorough: 300_000,
    rule: "A history of 3-14 operations on one compiler (compile any file of a random multi-file schema as the root, with failing, panicking or damaged storage for some of its files; damage, replace or repair a file) against a fresh compiler for each compile. Non-trivial: a compile failed before the last one.",
    real: "relaxng-model (Compiler, diagnostics), relaxng-syntax",
    stub: "the Files implementation (in memory), randomness, standard error",
    budget: (200_000_000, 1 << 30),
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// compile this root; loads of these files fail with an errno, or panic (-1)
    Compile(String, Vec<(String, i32)>),
    Damage(String, Damage),
    Rewrite(String, String),
    Repair(String),
}
#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    ops: Vec<Op>,
    hash_seed: u64,
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (p, schema, _) = project(r, |c| c.max_files = c.max_files.max(2));
    let wrong = if r.chance(1, 3) { mistaken(&p, r) } else { BTreeMap::new() };
    let names: Vec<String> = schema.files.keys().cloned().collect();
    let mut ops = vec![];
    for (n, t) in &wrong {
        if r.chance(3, 4) {
            ops.push(Op::Rewrite(n.clone(), t.clone()));
        }
    }
    let (len, fail) = if r.chance(1, 16) { (r.range(30, 90), r.chance(2, 3)) } else { (r.range(3, 14), false) };
    for _ in 0..len {
        let n = r.pick(&names).clone();
        ops.push(match r.below(10) {
            0 | 1 => Op::Damage(n.clone(), Damage::random(r, schema.files[&n].len())),
            2 | 3 => Op::Repair(n),
            4 if r.chance(1, 4) => Op::Rewrite(n, foreign(r)),
            4 if r.chance(1, 3) => match wrong.get(&n) {
                Some(t) => Op::Rewrite(n, if r.chance(1, 2) { t.clone() } else { lines_moved(r, t, schema.rng_syntax) }),
                None => Op::Compile(schema.root.clone(), vec![]),
            },
            4 if r.chance(1, 2) => Op::Rewrite(n.clone(), lines_moved(r, &schema.files[&n], schema.rng_syntax)),
            _ => {
                let root = if r.chance(2, 3) { schema.root.clone() } else { n };
                let mut t = vec![];
                if fail || r.chance(1, 2) {
                    for _ in 0..r.range(1, 2) {
                        let e = if r.chance(1, 3) { -1 } else { *r.pick(&[libc::EIO, libc::ENOENT, libc::EACCES, libc::EMFILE]) };
                        t.push((r.pick(&names).clone(), e));
                    }
                }
                Op::Compile(root, t)
            }
        });
    }
    ops.push(Op::Compile(schema.root.clone(), vec![]));
    if r.chance(1, 2) {
        for n in &names {
            ops.push(Op::Repair(n.clone()));
        }
        ops.push(Op::Compile(schema.root.clone(), vec![]));
    }
    serde_json::to_value(Sc { schema, ops, hash_seed: r.next() }).unwrap()
}

/// something quite different that took the place of a file
fn foreign(r: &mut Rng) -> String {
    const X: &str = "http://relaxng.org/ns/structure/1.0";
    match r.below(12) {
        // schemas in either syntax
        0 => format!("<grammar xmlns=\"{X}\"><start><element name=\"zz\"><empty/></element></start></grammar>"),
        1 => format!("<?xml version=\"1.0\"?>\n<element name=\"zz\" xmlns=\"{X}\"><text/></element>\n"),
        2 => format!("<grammar xmlns=\"{X}\"/>"),
        3 => "start = element zz { empty }\n".into(),
        4 => "element zz { text }".into(),
        5 => "namespace p1 = \"urn:other\"\ndatatypes d = \"urn:x\"\n".into(),
        // and what isn't a schema
        6 => "<zz>text</zz>".into(),
        7 => String::new(),
        8 => "\u{feff}".into(),
        9 => "\0\0\0\0".into(),
        10 => "\n\n".into(),
        _ => "grammar {".into(),
    }
}

/// another version of a file: the same content, further down
pub fn lines_moved(r: &mut Rng, t: &str, rng: bool) -> String {
    if let Some(t) = t.strip_prefix('\u{feff}') {
        return format!("\u{feff}{}", lines_moved(r, t, rng));
    }
    let k = r.range(1, 4);
    if rng {
        let c = "<!-- neu -->\n".repeat(k);
        if t.starts_with("<?xml") {
            let at = t.find('\n').map_or(t.len(), |i| i + 1);
            format!("{}{c}{}", &t[..at], &t[at..])
        } else {
            format!("{c}{t}")
        }
    } else {
        format!("{}{t}", "# neu\n".repeat(k))
    }
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let rng = sc.schema.rng_syntax;
    crate::io::load(&crate::io::Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let d = disk(&sc.schema.files);
    let mut c = Compiler::new(MemFs(d.clone()), syntax(rng));
    // what each file that is loaded was when it was loaded
    let mut held: BTreeMap<String, String> = BTreeMap::new();
    let mut failures = 0;
    for (i, op) in sc.ops.iter().enumerate() {
        match op {
            Op::Damage(p, dmg) => {
                let old = d.borrow().files.get(p).cloned();
                if let Some(t) = old.and_then(|o| dmg.apply_text(&o)) {
                    d.borrow_mut().files.insert(p.clone(), t);
                    rep.fault(dmg.kind());
                }
            }
            Op::Rewrite(p, t) => {
                d.borrow_mut().files.insert(p.clone(), t.clone());
            }
            Op::Repair(p) => {
                d.borrow_mut().files.insert(p.clone(), sc.schema.files[p].clone());
            }
            Op::Compile(root, trouble) => {
                let trouble: BTreeMap<String, Trouble> = trouble
                    .iter()
                    .map(|(p, e)| (p.clone(), if *e < 0 { Trouble::Panic } else { Trouble::Errno(*e) }))
                    .collect();
                let loaded: BTreeSet<String> = c.loaded().map(|p| norm(&p.to_string_lossy())).collect();
                // the reference: a fresh compiler, for which the files that are loaded already are
                // what they were then
                let r = disk(&d.borrow().files);
                {
                    let mut r = r.borrow_mut();
                    for p in &loaded {
                        match held.get(p) {
                            Some(t) => {
                                r.files.insert(p.clone(), t.clone());
                            }
                            None => return rep.violate("remembers-failure", format!("op {i}: {p} counts as loaded, but no load of it succeeded")),
                        }
                    }
                    r.trouble = trouble.iter().filter(|(p, _)| !loaded.contains(*p)).map(|(p, t)| (p.clone(), *t)).collect();
                }
                let mut fresh = Compiler::new(MemFs(r.clone()), syntax(rng));
                let want = observe::compile(&mut fresh, root);
                let before = d.borrow().loads.len();
                d.borrow_mut().trouble = trouble;
                let fired = d.borrow().fired;
                let got = observe::compile(&mut c, root);
                for _ in fired..d.borrow().fired {
                    rep.fault("load fails or panics");
                }
                rep.steps += 1 + (d.borrow().loads.len() - before) as u64;
                for l in &d.borrow().loads[before..] {
                    rep.mix(&format!("{} {:?}", l.path, std::mem::discriminant(&l.out)));
                    match &l.out {
                        Outcome::Ok(t) => {
                            held.insert(l.path.clone(), t.clone());
                        }
                        _ => {
                            if c.loaded().any(|p| norm(&p.to_string_lossy()) == l.path) {
                                return rep.violate("remembers-failure", format!("op {i}: the load of {} failed, but it counts as loaded", l.path));
                            }
                        }
                    }
                }
                match (got, want) {
                    (Ok((a, _)), Ok((b, _))) => {
                        rep.mix(&a.body);
                        if !a.ok {
                            failures += 1;
                        }
                        if i > 0 && failures > 0 {
                            rep.nontrivial = true;
                        }
                        rep.probe(if a.ok { "compiled" } else { "rejected" });
                        if a.ok && failures > 0 {
                            rep.probe("compiled after a failure");
                        }
                        if let Some(d) = a.diff(&b) {
                            return rep.violate("differs-from-fresh", format!("op {i} ({root}): after this history (first), and on a fresh compiler (second):\n{d}"));
                        }
                    }
                    (Err(p), Err(q)) => {
                        if p.msg == PANIC_MSG && q.msg == PANIC_MSG {
                            failures += 1;
                            rep.probe("a panic of the storage was caught");
                        } else if p.msg == PANIC_MSG || q.msg == PANIC_MSG {
                            return rep.violate("differs-from-fresh", format!("op {i}: {} versus {}", p.text(), q.text()));
                        } else {
                            return rep.skip("panics on a fresh compiler, too");
                        }
                    }
                    (Err(p), Ok(_)) => return panic_violation(rep, &format!("op {i}, only after this history"), &p),
                    (Ok((a, _)), Err(q)) => return rep.violate("differs-from-fresh", format!("op {i}: a fresh compiler panics ({}), this one gives {}", q.text(), a.short())),
                }
            }
        }
    }
}
