//! C09: damaged documents end in a bounded number of steps with a usable report
use super::Prop;
use super::c06::shown;
use super::c08::valid_case;
use crate::common::*;
use crate::damage::{Damage, first_diff};
use crate::io::Plan;
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Verdict, syntax};
use crate::pieces::{Opts, rewrite};
use crate::report::Report;
use crate::sandbox::catch;
use crate::util::{Rng, clip, norm};
use relaxng_model::Compiler;
use relaxng_validator::Validator;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C09",
    generate,
    run,
    shrink: &["/damage"],
    quick: 170_000,
    thorough: 1_500_000,
    rule: "A valid document is damaged (truncated; blocks lost, zeroed, duplicated, swapped, stale, mixed; bits flipped) and validated to the end of input, going on after errors; every error is rendered. Non-trivial: there was an error.",
    real: "relaxng-validator, relaxng-model, xmlparser, codemap-diagnostic",
    stub: "the source of the document (in memory), the Files implementation, randomness",
    budget: (200_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    doc: String,
    sampled: bool,
    damage: Vec<Vec<Damage>>,
    hash_seed: u64,
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let types = r.chance(1, 10);
    let (c, mut doc, sampled) = if types {
        let mut c = crate::types::case(r, false, 1);
        let doc = c.docs.pop().unwrap();
        (c, doc, false)
    } else {
        valid_case(r)
    };
    if r.chance(1, 3) {
        if let Some(d) = rewrite(&doc, Opts::random(r), r) {
            doc = d;
        }
    }
    if r.chance(1, 8) {
        doc = doc.replace('\n', "\r\n");
    }
    let mut damage = vec![];
    for _ in 0..r.range(1, 6) {
        let k = match r.below(8) {
            0 => 3,
            1 | 2 => 2,
            _ => 1,
        };
        damage.push(
            (0..k)
                .map(|_| if r.chance(if types { 12 } else { 1 }, 16) { Damage::valued(r, &doc) } else if r.chance(1, 2) { Damage::text(r, &doc) } else { Damage::random(r, doc.len()) })
                .collect(),
        );
    }
    serde_json::to_value(Sc { rng: c.rng, root: c.root, files: c.files, doc, sampled, damage, hash_seed: r.next() }).unwrap()
}

/// the end of the document type declaration that starts here
fn doctype_end(d: &str, from: usize) -> usize {
    let b = d.as_bytes();
    let mut i = from;
    let (mut inside, mut decl) = (false, false);
    while i < b.len() {
        match b[i] {
            b'<' if inside && !decl && d[i..].starts_with("<!--") => i = d[i + 4..].find("-->").map_or(b.len(), |k| i + 4 + k + 2),
            b'<' if inside && !decl && d[i..].starts_with("<?") => i = d[i + 2..].find("?>").map_or(b.len(), |k| i + 2 + k + 1),
            b'<' if inside => decl = true,
            b'"' | b'\'' if decl || !inside => i = d[i + 1..].find(b[i] as char).map_or(b.len(), |k| i + 1 + k),
            b'[' if !inside => inside = true,
            b']' if !decl => inside = false,
            b'>' if decl => decl = false,
            b'>' if !inside => return i + 1,
            _ => {}
        }
        i += 1;
    }
    b.len()
}
/// Pieces of markup: end and whether it is a tag (as opposed to something between tags)
pub fn markup(d: &str) -> Vec<(usize, bool)> {
    let mut v = vec![];
    let mut i = 0;
    let to = |from: usize, what: &str| d[from..].find(what).map_or(d.len(), |k| from + k + what.len());
    while i < d.len() {
        let t = &d[i..];
        let (e, tag) = if t.starts_with("<!--") {
            (to(i + 4, "-->"), false)
        } else if t.starts_with("<![CDATA[") {
            (to(i + 9, "]]>"), false)
        } else if t.starts_with("<?") {
            (to(i + 2, "?>"), false)
        } else if t.starts_with("<!") {
            // a document type declaration
            (doctype_end(d, i), true)
        } else if t.starts_with('<') {
            let mut quote = None;
            let mut end = d.len();
            for (k, c) in t.char_indices() {
                match quote {
                    Some(q) if c == q => quote = None,
                    Some(_) => {}
                    None if c == '"' || c == '\'' => quote = Some(c),
                    None if c == '>' => {
                        end = i + k + 1;
                        break;
                    }
                    None => {}
                }
            }
            (end, true)
        } else {
            (i + t.find('<').unwrap_or(t.len()), false)
        };
        v.push((e, tag));
        i = e;
    }
    v
}
/// Where the markup ends that an error at `at` is about: its tag, or for anything between tags, the
/// next tag (which decides what the text before it means)
pub fn region_end(m: &[(usize, bool)], at: usize) -> usize {
    let mut end = usize::MAX;
    for (e, tag) in m {
        if at < *e {
            end = *e;
            if *tag {
                break;
            }
        }
    }
    end
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    crate::io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let mut c = Compiler::new(MemFs(disk(&sc.files)), syntax(sc.rng));
    let m = match observe::compile(&mut c, &sc.root) {
        Ok((_, Ok(m))) => m,
        Ok((o, Err(_))) if sc.sampled => return rep.violate("rejects-intact-schema", o.short()),
        Ok(_) => return rep.skip("the schema is not accepted"),
        Err(p) if super::c07::exempt(&p) => return rep.skip("datatype feature documented as missing"),
        Err(p) => return panic_violation(rep, "compiling", &p),
    };
    let before = match observe::verdict(&observe::session(&m, &sc.doc, false)) {
        Verdict::Valid => true,
        Verdict::Limit => return rep.skip("more than 2^16 patterns"),
        v if sc.sampled => return rep.violate("rejects-complete-document", format!("{v:?}\n{}", clip(&sc.doc, 2000))),
        _ => false,
    };
    for set in &sc.damage {
        let mut d = sc.doc.clone().into_bytes();
        for x in set {
            d = x.apply(&d);
        }
        let Ok(d) = String::from_utf8(d) else {
            rep.probe("not UTF-8: cannot be handed to a validator");
            continue;
        };
        let Some(first) = first_diff(sc.doc.as_bytes(), d.as_bytes()) else { continue };
        for x in set {
            rep.fault(x.kind());
        }
        rep.mix(&d);
        if let Some((class, detail)) = examine(&m, &d, before.then_some(first), rep) {
            if class == "skip" {
                return rep.skip(&detail);
            }
            return rep.violate(&class, format!("damaged by {set:?} (first damaged byte: {first}): {detail}\n{d}"));
        }
    }
}

fn examine(m: &observe::Model, d: &str, first_bad: Option<usize>, rep: &mut Report) -> Option<(String, String)> {
    let fail = |c: &str, t: String| Some((c.to_string(), t));
    let panicked = |what: &str, p: &crate::sandbox::Panic| {
        if super::c07::exempt(p) {
            fail("skip", "datatype feature documented as missing".into())
        } else if p.msg.contains("2^16") {
            fail("skip", "more than 2^16 patterns".into())
        } else {
            fail("panic", format!("{what}: {}", p.text()))
        }
    };
    let mut v = match catch(|| Validator::new(m.clone(), xmlparser::Tokenizer::from(d))) {
        Ok(v) => v,
        Err(p) => return panicked("creating the validator", &p),
    };
    let limit = d.len() * 4 + 64;
    let segments = markup(d);
    let mut rendering = observe::Rendering::new(24 << 20);
    let mut steps = 0;
    let mut errors = 0;
    loop {
        steps += 1;
        rep.steps += 1;
        if steps > limit {
            return fail("never-ends", format!("{steps} steps for {} bytes", d.len()));
        }
        let e = match catch(|| v.validate_next()) {
            Err(p) => return panicked("validating", &p),
            Ok(None) => break,
            Ok(Some(Ok(()))) => continue,
            Ok(Some(Err(e))) => e,
        };
        errors += 1;
        if !rendering.take(d) {
            continue;
        }
        let (text, map, diags) = match observe::render_doc_error(&v, "doc.xml", d, &e) {
            Ok(x) => x,
            Err(p) => return panicked(&format!("rendering {e:?}"), &p),
        };
        let kind: String = format!("{e:?}").chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
        rep.probe(&format!("error: {kind}"));
        let labels: Vec<codemap::Span> = diags.iter().flat_map(|d| d.spans.iter().map(|s| s.span)).collect();
        if labels.is_empty() {
            return fail("no-position", text);
        }
        let mut at = usize::MAX;
        for s in labels {
            match catch(|| {
                let l = map.look_up_span(s);
                let low = (s.low() - l.file.span.low()) as usize;
                let high = (s.high() - l.file.span.low()) as usize;
                (l.file.name().to_string(), low, high)
            }) {
                Ok((name, low, high)) if name == "doc.xml" && low <= high && high <= d.len() && d.is_char_boundary(low) && d.is_char_boundary(high) => at = at.min(low),
                Ok(x) => return fail("place-outside", format!("{x:?}\n{text}")),
                Err(p) => return fail("place-outside", format!("{}\n{text}", p.text())),
            }
        }
        let lines: Vec<&str> = d.split('\n').collect();
        for (f, n, t) in shown(&text) {
            let real = n.checked_sub(1).and_then(|n| lines.get(n));
            let clean = |s: &str| s.chars().filter(|c| !c.is_control() && !c.is_whitespace()).collect::<String>();
            if f != norm("doc.xml") || !real.is_some_and(|r| clean(&t).ends_with(&clean(r))) {
                return fail("wrong-source", format!("{f}:{n} is not {t:?} but {real:?}\n{text}"));
            }
        }
        if errors == 1 {
            rep.nontrivial = true;
            if let Some(b) = first_bad {
                let end = region_end(&segments, at);
                if end < b || (end == b && at < b && b < d.len()) {
                    return fail("too-early", format!("the first error is at byte {at}, in markup that ends at {end}:\n{e:?}\n{text}"));
                }
                rep.probe(if at >= b { "first error after the damage" } else { "first error in the damaged markup" });
            }
        } else {
            rep.probe("further errors");
        }
    }
    rep.probe(if errors == 0 { "no error" } else { "errors" });
    // it stays ended
    for _ in 0..3 {
        match catch(|| v.validate_next().map(|r| format!("{r:?}"))) {
            Ok(None) => {}
            Ok(Some(x)) => return fail("goes-on-after-end", x),
            Err(p) => return panicked("after the end", &p),
        }
    }
    None
}
