//! C08: truncated and torn documents are not accepted
use super::Prop;
use crate::common::*;
use crate::corpus;
use crate::damage::Damage;
use crate::io::Plan;
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Verdict, syntax};
use crate::pieces;
use crate::report::Report;
use crate::util::{Rng, clip};
use relaxng_model::Compiler;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C08",
    generate,
    run,
    shrink: &["/damage"],
    quick: 180_000,
    thorough: 2_000_000,
    rule: "A document that the schema allows is truncated at a random byte, or loses, duplicates, swaps or mixes blocks, and is then validated. Whether it is still well-formed is decided by an independent XML parser (roxmltree). Non-trivial: it is not.",
    real: "relaxng-validator, relaxng-model, xmlparser",
    stub: "the source of the document (in memory), the Files implementation, randomness",
    budget: (60_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    doc: String,
    /// known to be valid by the way it was made
    sampled: bool,
    /// each set of damage is applied to the document on its own
    damage: Vec<Vec<Damage>>,
    hash_seed: u64,
}

pub fn valid_case(r: &mut Rng) -> (corpus::Case, String, bool) {
    if r.chance(1, 5) {
        loop {
            let c = if r.chance(1, 2) { corpus::spec(r) } else { corpus::rich(r) };
            if c.docs.is_empty() {
                continue;
            }
            let d = r.pick(&c.docs).clone();
            return (c, d, false);
        }
    }
    let any = r.chance(1, 6);
    let few = r.chance(1, 2);
    let (p, out, _) = project(r, |c| {
        if any {
            // names, and so prefixes, that the schema does not care about
            c.anyname = true;
            c.namespaces = !few;
        }
    });
    let n = r.range(2, 25);
    let d = valid_doc(&p, r, n);
    (corpus::Case { rng: out.rng_syntax, root: out.root, files: out.files, docs: vec![] }, d, true)
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (c, mut doc, sampled) = valid_case(r);
    if r.chance(1, 3) {
        // with references and the like in it
        let o = pieces::Opts::random(r);
        if let Some(d) = pieces::rewrite(&doc, o, r) {
            doc = d;
        }
    }
    if r.chance(1, 3) {
        // something after the root element
        doc.push_str(r.pick(&["\n", "<!-- the end é -->", "<?pi after?>\n<!--x-->", "  \n\n"]));
    }
    let mut damage = vec![];
    for _ in 0..r.range(1, 6) {
        let k = if r.chance(3, 4) { 1 } else { 2 };
        damage.push(
            (0..k)
                .map(|_| match r.below(7) {
                    0 | 1 => Damage::Truncate(r.below(doc.len() + 1)),
                    2 | 3 => Damage::aligned(r, &doc),
                    4 | 5 => Damage::pointed(r, &doc),
                    _ => Damage::random(r, doc.len()),
                })
                .collect(),
        );
    }
    serde_json::to_value(Sc { rng: c.rng, root: c.root, files: c.files, doc, sampled, damage, hash_seed: r.next() }).unwrap()
}

pub fn parse(d: &str) -> Result<usize, roxmltree::Error> {
    let o = roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() };
    roxmltree::Document::parse_with_options(d, o).map(|d| d.root_element().range().end)
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    crate::io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let mut c = Compiler::new(MemFs(disk(&sc.files)), syntax(sc.rng));
    let m = match observe::compile(&mut c, &sc.root) {
        Ok((_, Ok(m))) => m,
        Ok((o, Err(_))) if sc.sampled => return rep.violate("rejects-intact-schema", o.short()),
        Ok(_) => return rep.skip("the schema is not accepted"),
        Err(p) if super::c07::exempt(&p) => return rep.skip("datatype feature documented as missing"),
        Err(p) => return panic_violation(rep, "compiling", &p),
    };
    let log = observe::session(&m, &sc.doc, false);
    rep.steps += log.len() as u64;
    match observe::verdict(&log) {
        Verdict::Valid => {}
        Verdict::Limit => return rep.skip("more than 2^16 patterns"),
        v if sc.sampled => return rep.violate("rejects-complete-document", format!("{v:?}\n{}", clip(&sc.doc, 2000))),
        _ => return rep.skip("the document is not valid"),
    }
    let Ok(end) = parse(&sc.doc) else {
        return rep.skip("the undamaged document is not well-formed");
    };
    rep.probe("complete documents accepted");
    for set in &sc.damage {
        let mut d = sc.doc.clone().into_bytes();
        for x in set {
            d = x.apply(&d);
        }
        let Ok(d) = String::from_utf8(d) else {
            rep.probe("not UTF-8: cannot be handed to a validator");
            continue;
        };
        if d == sc.doc {
            continue;
        }
        let cut_after = sc.doc.starts_with(&d) && d.len() >= end;
        let well_formed = parse(&d);
        let log = observe::session(&m, &d, false);
        rep.steps += log.len() as u64;
        rep.mix(&d);
        let verdict = observe::verdict(&log);
        for x in set {
            rep.fault(x.kind());
        }
        match (&well_formed, verdict) {
            (_, Verdict::Broken(p)) if super::c07::exempt_text(&p) => rep.probe("datatype feature documented as missing"),
            (_, Verdict::Broken(p)) => return rep.violate("breaks", format!("{p}\n{d}")),
            (_, Verdict::Limit) => return rep.skip("more than 2^16 patterns"),
            // (roxmltree does not allow "&lt;" in an entity that an attribute refers to, nor many references)
            (Err(roxmltree::Error::InvalidAttributeValue(_) | roxmltree::Error::EntityReferenceLoop(_)), Verdict::Valid) if d.contains("<!ENTITY") => {
                rep.probe("nothing to compare with");
            }
            (Err(e), Verdict::Valid) => {
                return rep.violate("accepts-torn-document", format!("damaged by {set:?}, not well-formed ({e}), but accepted:\n{d}"));
            }
            (Err(_), Verdict::Invalid(_)) => {
                rep.nontrivial = true;
                rep.probe(if sc.doc.starts_with(&d) { "truncated: rejected" } else { "not well-formed: rejected" });
            }
            (Ok(_), v) if cut_after => {
                if v != Verdict::Valid {
                    return rep.violate("end-matters", format!("cut after the end of the root element: {v:?}\n{d}"));
                }
                rep.probe("cut after the end: accepted");
            }
            (Ok(_), Verdict::Valid) => rep.probe("still well-formed: accepted"),
            (Ok(_), Verdict::Invalid(_)) => rep.probe("still well-formed: rejected"),
        }
    }
}
