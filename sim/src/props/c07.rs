//! C07: damaged schema files
use super::Prop;
use super::c06::shown;
use crate::common::*;
use crate::corpus;
use crate::gram;
use crate::damage::Damage;
use crate::io::Plan;
use crate::observe::{self, Ev};
use crate::report::Report;
use crate::sandbox::{Panic, catch};
use crate::util::Rng;
use relaxng_model::{Compiler, FsFiles};
use relaxng_validator::Validator;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C07",
    generate,
    run,
    shrink: &["/damage", "/docs"],
    quick: 320_000,
    thorough: 1_500_000,
    rule: "1-4 kinds of damage (truncation, lost, zeroed, duplicated, swapped, stale, overwritten or mixed blocks, flipped bits; at any byte, along lines and tokens, or between quotes) to any files of a schema that is generated, from the RELAX NG test suite, or hand-written for its syntax; loaded by the real loader. Non-trivial: a file differs.",
    real: "relaxng-model (FsFiles, Compiler, diagnostics, datatypes), relaxng-syntax, relaxng-validator",
    stub: "open/read/fstat/lseek/close system calls, randomness, standard error",
    budget: (30_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    damage: Vec<(String, Damage)>,
    docs: Vec<String>,
    hash_seed: u64,
}

fn knotted(r: &mut Rng) -> corpus::Case {
    loop {
        let c = gram::Cfg::random(r);
        let mut p = gram::generate(r, &c);
        let x = r.below(p.files.len());
        let through = r.chance(1, 2);
        let mut docs: Vec<String> = docs(&p, &c, r, 1, 1).into_iter().map(|d| d.text).collect();
        docs.extend(mutants(&p, r, 1));
        if !gram::knot(&mut p, x, r, through, true) {
            continue;
        }
        r.shuffle(&mut docs);
        let out = crate::render::render(&p, r);
        return corpus::Case { rng: out.rng_syntax, root: out.root, files: out.files, docs };
    }
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let c = match r.below(11) {
        // definitions that refer to each other
        10 => knotted(r),
        8 | 9 => {
            let wild = r.chance(2, 3);
            crate::types::case(r, wild, 2)
        }
        0 | 1 => corpus::spec(r),
        2..=5 => corpus::rich(r),
        _ => corpus::any(r),
    };
    let names: Vec<&String> = c.files.keys().collect();
    let k = match r.below(7) {
        6 => 0,
        0..=3 => 1,
        4 => 2,
        _ => r.range(3, 4),
    };
    let damage = (0..k)
        .map(|_| {
            let n = (*r.pick(&names)).clone();
            let t = &c.files[&n];
            let d = if r.chance(2, 3) { Damage::text(r, t) } else { Damage::random(r, t.len()) };
            (n, d)
        })
        .collect();
    let mut docs = c.docs;
    docs.truncate(2);
    serde_json::to_value(Sc { rng: c.rng, root: c.root, files: c.files, damage, docs, hash_seed: r.next() }).unwrap()
}

/// features of the datatype libraries that are documented not to be there yet
pub fn exempt(p: &Panic) -> bool {
    exempt_text(&p.text())
}
pub fn exempt_text(p: &str) -> bool {
    p.contains("relaxng-model/src/datatype") && (p.contains(": not implemented") || p.contains(": not yet implemented"))
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let mut files: BTreeMap<String, Vec<u8>> = sc.files.iter().map(|(n, t)| (n.clone(), t.clone().into_bytes())).collect();
    for (n, d) in &sc.damage {
        let f = files.get_mut(n).unwrap();
        let new = d.apply(f);
        if new != *f {
            rep.nontrivial = true;
            rep.fault(d.kind());
        }
        *f = new;
    }
    for f in files.values() {
        rep.mix(&String::from_utf8_lossy(f));
    }
    crate::io::load(&Plan {
        files: files.iter().map(|(n, d)| (n.clone(), vec![d.clone()])).collect(),
        capture: true,
        seed: Some(sc.hash_seed),
        ..Default::default()
    });
    let mut c = Compiler::new(FsFiles, observe::syntax(sc.rng));
    let (obs, res) = match observe::compile(&mut c, &sc.root) {
        Ok(x) => x,
        Err(p) if exempt(&p) => {
            rep.probe("panicked: datatype feature documented as missing");
            return rep.skip("datatype feature documented as missing");
        }
        Err(p) => return panic_violation(rep, "compiling or showing the error", &p),
    };
    rep.steps += 1;
    match res {
        Err(_) => {
            rep.probe("rejected");
            if obs.diag.trim().is_empty() {
                return rep.violate("no-diagnostic", obs.body);
            }
            for (f, n, text) in shown(&obs.diag) {
                let Some(d) = files.get(&f) else {
                    return rep.violate("place-outside", format!("there is no file {f:?}\n{}", obs.diag));
                };
                let s = String::from_utf8_lossy(d);
                let lines: Vec<&str> = s.split('\n').collect();
                match n.checked_sub(1).and_then(|n| lines.get(n)) {
                    None => return rep.violate("place-outside", format!("there is no line {n} in {f}\n{}", obs.diag)),
                    Some(real) => {
                        let clean = |s: &str| s.chars().filter(|c| !c.is_control() && !c.is_whitespace()).collect::<String>();
                        if !clean(&text).ends_with(&clean(real)) {
                            return rep.violate("wrong-source", format!("line {n} of {f} is {real:?}, not {text:?}\n{}", obs.diag));
                        }
                    }
                }
            }
        }
        Ok(m) => {
            rep.probe("accepted");
            for d in ["", "<a/>"].into_iter().chain(sc.docs.iter().map(|s| s.as_str())) {
                if let Err(p) = catch(|| Validator::new(m.clone(), xmlparser::Tokenizer::from(d))) {
                    if p.msg.contains("2^16") {
                        return rep.skip("more than 2^16 patterns");
                    }
                    return panic_violation(rep, "creating a validator for the accepted schema", &p);
                }
                let log = observe::session(&m, d, true);
                rep.steps += log.len() as u64;
                match log.last() {
                    Some(Ev::Panic(p)) if p.contains("2^16") => return rep.skip("more than 2^16 patterns"),
                    Some(Ev::Panic(p)) if exempt_text(p) => return rep.skip("datatype feature documented as missing"),
                    Some(Ev::Panic(p)) => return rep.violate("unusable-schema", format!("the schema was accepted, but validating {d:?}: {p}")),
                    Some(Ev::TooMany) => return rep.violate("unusable-schema", format!("the schema was accepted, but validating {d:?} does not end")),
                    _ => {}
                }
            }
        }
    }
}
