//! C14: character data in other pieces
use super::Prop;
use super::c08::parse;
use crate::common::*;
use crate::corpus;
use crate::io::Plan;
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Verdict, syntax};
use crate::pieces::{Opts, rewrite};
use crate::report::Report;
use crate::util::{Rng, clip};
use relaxng_model::Compiler;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C14",
    generate,
    run,
    shrink: &["/docs"],
    quick: 160_000,
    thorough: 1_500_000,
    rule: "A valid or invalid document is delivered again with its character data cut into other pieces (CDATA sections, empty ones, comments, processing instructions, predefined, numeric and declared references, in content and attributes). That the content is the same is confirmed by an independent parser. Non-trivial: the pieces differ.",
    real: "relaxng-validator, relaxng-model, xmlparser",
    stub: "the source of the document (in memory), the Files implementation, randomness",
    budget: (60_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    /// the first one is the original; whether it is valid, if known
    docs: Vec<String>,
    valid: Option<bool>,
    hash_seed: u64,
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    loop {
        let (c, doc, valid) = if r.chance(1, 5) {
            let mut c = if r.chance(1, 2) { corpus::spec(r) } else { corpus::rich(r) };
            if c.docs.is_empty() {
                continue;
            }
            let d = c.docs.swap_remove(r.below(c.docs.len()));
            (c, d, None)
        } else {
            let (p, out, c) = project(r, |c| c.data = true);
            let (d, valid) = if r.chance(1, 3) {
                let Some(d) = mutants(&p, r, 1).pop() else { continue };
                (d, None)
            } else {
                let good = r.chance(2, 3);
                let Some(d) = docs(&p, &c, r, good as usize, !good as usize).pop() else { continue };
                (d.text, Some(good))
            };
            (corpus::Case { rng: out.rng_syntax, root: out.root, files: out.files, docs: vec![] }, d, valid)
        };
        let mut docs = vec![doc];
        for _ in 0..r.range(1, 5) {
            if let Some(d) = rewrite(&docs[0], Opts::random(r), r) {
                docs.push(d);
            }
        }
        if docs.len() < 2 {
            continue;
        }
        return serde_json::to_value(Sc { rng: c.rng, root: c.root, files: c.files, docs, valid, hash_seed: r.next() }).unwrap();
    }
}

/// the content of a document, however it is written
pub fn content(d: &str) -> Option<String> {
    let o = roxmltree::ParsingOptions { allow_dtd: true, ..Default::default() };
    let d = roxmltree::Document::parse_with_options(d, o).ok()?;
    let mut s = String::new();
    fn walk(n: roxmltree::Node, s: &mut String) {
        if n.is_text() {
            s.push_str(n.text().unwrap_or_default());
        } else if n.is_element() {
            s.push_str(&format!("\u{1}<{:?}", n.tag_name()));
            for a in n.attributes() {
                s.push_str(&format!(" {:?}={:?}={:?}", a.namespace(), a.name(), a.value()));
            }
            s.push('\u{2}');
            for c in n.children() {
                walk(c, s);
            }
            s.push('\u{3}');
        }
    }
    walk(d.root_element(), &mut s);
    Some(s)
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    crate::io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let mut c = Compiler::new(MemFs(disk(&sc.files)), syntax(sc.rng));
    let m = match observe::compile(&mut c, &sc.root) {
        Ok((_, Ok(m))) => m,
        Ok((o, Err(_))) if sc.valid.is_some() => return rep.violate("rejects-intact-schema", o.short()),
        Ok(_) => return rep.skip("the schema is not accepted"),
        Err(p) if super::c07::exempt(&p) => return rep.skip("datatype feature documented as missing"),
        Err(p) => return panic_violation(rep, "compiling", &p),
    };
    let Some(first) = sc.docs.first() else { return rep.skip("no document") };
    let Some(want) = content(first) else { return rep.skip("the document is not well-formed") };
    assert!(parse(first).is_ok());
    let judge = |d: &str, rep: &mut Report| {
        let log = observe::session(&m, d, false);
        rep.steps += log.len() as u64;
        rep.mix(d);
        observe::verdict(&log)
    };
    let base = judge(first, rep);
    match &base {
        Verdict::Limit => return rep.skip("more than 2^16 patterns"),
        Verdict::Broken(p) if super::c07::exempt_text(p) => return rep.skip("datatype feature documented as missing"),
        Verdict::Broken(p) => return rep.violate("breaks", format!("{p}\n{first}")),
        Verdict::Valid if sc.valid == Some(false) => return rep.violate("accepts-invalid", clip(first, 3000)),
        Verdict::Invalid(e) if sc.valid == Some(true) => return rep.violate("rejects-valid", format!("{e}\n{}", clip(first, 3000))),
        _ => {}
    }
    for d in &sc.docs[1..] {
        match content(d) {
            None => panic!("the rewritten document is not well-formed: {d}"),
            Some(c) if c != want => panic!("the rewritten document is another one:\n{first}\n{d}"),
            _ => {}
        }
        if d == first {
            continue;
        }
        rep.nontrivial = true;
        for (k, what) in [("<![CDATA[", "CDATA section"), ("<!--", "comment"), ("<?p", "processing instruction"), ("&#", "character reference"), ("&e.", "declared entity")] {
            let n = d.matches(k).count().saturating_sub(first.matches(k).count());
            if n > 0 {
                *rep.faults.entry(what.into()).or_default() += n as u64;
            }
        }
        let v = judge(d, rep);
        match (&base, &v) {
            (Verdict::Valid, Verdict::Valid) => rep.probe("valid either way"),
            (Verdict::Invalid(_), Verdict::Invalid(_)) => rep.probe("invalid either way"),
            (_, Verdict::Limit) => return rep.skip("more than 2^16 patterns"),
            (_, Verdict::Broken(p)) if super::c07::exempt_text(p) => return rep.skip("datatype feature documented as missing"),
            _ => return rep.violate("verdict-changes", format!("as it was: {base:?}\nin other pieces: {v:?}\n{}\nversus\n{}", clip(first, 3000), clip(d, 3000))),
        }
    }
}
