//! C12: long streams of records
use super::Prop;
use crate::common::*;
use crate::gram::{self, Body, El, File, Item, NS, NameC, Node, Op, Pat, Sampler};
use crate::io::Plan;
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Verdict, syntax};
use crate::render::{self, POOL, Style};
use crate::report::Report;
use crate::sandbox::catch;
use crate::util::{Rng, clip};
use relaxng_model::Compiler;
use relaxng_validator::Validator;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C12",
    generate,
    run,
    shrink: &["/order", "/records"],
    quick: 40_000,
    thorough: 300_000,
    rule: "A stream element with up to 400 (thorough: 4,000) records that a random schema allows, in random order; prefixes are bound by the stream and bound again, also to other namespaces, in records. One record may be bad: spoiled, or relying on a binding that ended with an earlier record. Or the same records over and over, with the live memory watched. Non-trivial: at least 20 records come before.",
    real: "relaxng-validator, relaxng-model, xmlparser",
    stub: "the source of the document (in memory), the Files implementation, the memory allocator (counts), randomness",
    budget: (400_000_000, 1 << 30),
};

#[derive(Clone, Serialize, Deserialize)]
struct Sc {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    head: String,
    tail: String,
    /// text; "@@@@@@" in it is replaced by the number of the record
    records: Vec<Rec>,
    /// which records follow each other
    order: Vec<usize>,
    /// over and over, for the memory bound
    repeat: usize,
    hash_seed: u64,
}
#[derive(Clone, Serialize, Deserialize)]
struct Rec {
    text: String,
    bad: Option<String>,
}

/// somewhere in a record, text of its own
fn mark(e: &mut El, r: &mut Rng) {
    for k in e.kids.iter_mut() {
        if let Node::El(c) = k {
            mark(c, r);
        }
    }
    if !r.chance(1, 2) {
        return;
    }
    if e.name.starts_with("any") {
        e.name = "any@@@@@@".into();
    }
    for k in e.kids.iter_mut() {
        if let Node::Tx(t) = k {
            if e.data {
                // (a list has several)
                for w in t.clone().split_whitespace() {
                    if let Some(m) = gram::marked(w) {
                        *t = t.replacen(w, &m, 1);
                    }
                }
            } else {
                t.push_str(" @@@@@@");
            }
        }
    }
    for a in e.attrs.iter_mut() {
        if a.text {
            a.value.push_str(" @@@@@@");
        } else if let Some(m) = gram::marked(&a.value) {
            a.value = m;
        }
    }
}

/// start and end tag of an element that records are nested in; it may bind prefixes
fn open_box(bns: usize, scope: &mut Vec<(String, usize)>, r: &mut Rng) -> (String, String) {
    let mut own: Vec<(String, usize)> = vec![];
    if r.chance(1, 6) {
        for _ in 0..r.range(1, 3) {
            let p = r.pick(&POOL).to_string();
            if own.iter().all(|b| b.0 != p) {
                own.push((p, r.range(1, NS.len() - 1)));
            }
        }
    }
    let fits = |scope: &[(String, usize)]| POOL.iter().find(|p| bns != 0 && render::bound(scope, p) == Some(bns)).map(|p| p.to_string());
    let at = scope.len();
    scope.extend(own.iter().cloned());
    let mut prefix = fits(scope);
    if bns != 0 && prefix.is_none() {
        let p = POOL.iter().find(|p| own.iter().all(|b| b.0 != **p)).unwrap().to_string();
        scope.push((p.clone(), bns));
        prefix = Some(p);
    }
    let decls: String = scope[at..].iter().map(|(p, n)| format!(" xmlns:{p}=\"{}\"", render::esc_attr(NS[*n]))).collect();
    let name = prefix.map_or("box".to_string(), |p| format!("{p}:box"));
    (format!("<{name}{decls}>"), format!("</{name}>"))
}

/// A record of a kind of its own, the value of which is of some datatype and never the same
fn other_record(r: &mut Rng, rng: bool) -> (Pat, String) {
    let name = NameC::Named(0, "other-record".into());
    if r.chance(1, 3) {
        return (Pat::Elem(name, Box::new(Pat::Text)), "<other-record>@@@@@@</other-record>".into());
    }
    const VALUES: [(&str, &str); 17] = [
        ("anyURI", "http://host.example.com/some/path/to/the/one/record/@@@@@@"),
        ("anyURI", "urn:a-rather-long-name-for-something:@@@@@@?query=@@@@@@#there"),
        ("integer", "1@@@@@@000000000000000000000000000000000000000000000000"),
        ("positiveInteger", "1@@@@@@"),
        ("int", "1@@@@@@"),
        ("long", "-77777777@@@@@@"),
        ("unsignedLong", "77777777@@@@@@"),
        ("decimal", "0.0000000000000000000000000000000000000000000000001@@@@@@"),
        ("double", "@@@@@@e3"),
        ("string", "the text of this record, which is number @@@@@@"),
        ("normalizedString", " the text of this record,  which is number @@@@@@"),
        ("ID", "identifier-of-the-one-and-only-record-with-number-@@@@@@"),
        ("IDREF", "identifier-of-the-one-and-only-record-with-number-@@@@@@"),
        ("NCName", "name-of-the-one-and-only-record-that-has-number-@@@@@@"),
        ("duration", "P@@@@@@Y"),
        ("dateTime", "2001-01-01T10:00:00Z"),
        ("language", "en-x-@@@@@@"),
    ];
    let (t, value) = *r.pick(&VALUES);
    let mut data = if rng { format!("<data type=\"{t}\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"/>") } else { format!("xsd:{t}") };
    let mut value = value.to_string();
    if !t.ends_with("tring") && r.chance(1, 3) {
        data = if rng { format!("<list><oneOrMore>{data}</oneOrMore></list>") } else { format!("list {{ {data}+ }}") };
        value = format!("{value} {value}\n{value}");
    }
    let text = if r.chance(1, 3) {
        data = if rng { format!("<attribute name=\"v\" ns=\"\">{data}</attribute>") } else { format!("attribute v {{ {data} }}") };
        format!("<other-record v=\"{}\"/>", value.replace('\n', " "))
    } else {
        format!("<other-record>{value}</other-record>")
    };
    (Pat::Elem(name, Box::new(Pat::Raw(data))), text)
}

/// of records of which it is not known beforehand whether they are bad
const MAYBE: &str = "changed: ";

fn generate(r: &mut Rng, thorough: bool) -> Value {
    loop {
        let mut c = gram::Cfg::random(r);
        c.namespaces |= r.chance(2, 3);
        c.anyname &= r.chance(1, 3);
        if r.chance(1, 2) {
            c.size = c.size.min(3);
        }
        let p = gram::generate(r, &c);
        let mut q = gram::Project { rng_syntax: p.rng_syntax, files: p.files.clone(), long: p.long, docs: p.docs };
        let n = q.files.len();
        let main = q.files[0].clone();
        q.files.push(main);
        let sns = if r.chance(1, 3) { r.range(1, NS.len() - 1) } else { 0 };
        let sname = "stream.of-records".to_string();
        let one = Pat::Ext(n, 0);
        let (other, other_text) = other_record(r, p.rng_syntax);
        let with_other = r.chance(1, 3);
        // elements to nest records in, to any depth
        let nest = r.chance(1, 3);
        let bns = if r.chance(1, 3) { r.range(1, NS.len() - 1) } else { 0 };
        let inner = match (with_other, r.below(3)) {
            _ if nest => {
                let mut alts = vec![one, Pat::Ref("box".into())];
                if with_other {
                    alts.push(other);
                }
                Pat::Star(Box::new(Pat::Choice(alts)))
            }
            (true, _) => Pat::Star(Box::new(Pat::Choice(vec![one, other]))),
            (false, 0) => Pat::Plus(Box::new(one)),
            (false, 1) => Pat::Star(Box::new(Pat::Group(vec![one]))),
            _ => Pat::Star(Box::new(one)),
        };
        let ext = if p.rng_syntax { "rng" } else { "rnc" };
        let stream = Pat::Elem(NameC::Named(sns, sname.clone()), Box::new(inner.clone()));
        let body = if nest {
            let bx = Pat::Elem(NameC::Named(bns, "box".into()), Box::new(inner));
            Body::Grammar(vec![Item::Def("start".into(), Op::Assign, stream), Item::Def("box".into(), Op::Assign, bx)])
        } else {
            Body::Pattern(stream)
        };
        q.files[0] = File { path: format!("/simfs/p/the-stream.{ext}"), body };
        let schema = render::render(&q, r);

        let st = Style { rebind: r.chance(4, 5), ..Style::random(r) };
        // bindings of the stream element
        let mut scope: Vec<(String, usize)> = vec![];
        let mut tag = String::new();
        for ns in 1..NS.len() {
            if r.chance(1, 2) || ns == sns {
                for _ in 0..8 {
                    let p = r.pick(&POOL).to_string();
                    if render::bound(&scope, &p).is_none() {
                        tag.push_str(&format!(" xmlns:{p}=\"{}\"", render::esc_attr(NS[ns])));
                        scope.push((p, ns));
                        break;
                    }
                }
            }
        }
        let name = match scope.iter().find(|b| b.1 == sns) {
            Some((p, _)) => format!("{p}:{sname}"),
            None if sns == 0 => sname,
            None => continue,
        };
        tag.push('>');
        let mut tail = format!("</{name}>");
        let most_deep = if thorough { 300 } else { 70 };
        if nest && r.chance(1, 2) {
            // the stream itself starts far down
            for _ in 0..r.range(1, most_deep) {
                let (open, close) = open_box(bns, &mut scope, r);
                tag.push_str(&open);
                tail.insert_str(0, &close);
            }
        }
        let mut s = Sampler::new(&p);
        let repeat = if r.chance(1, 3) { r.range(60, if thorough { 400 } else { 120 }) } else { 0 };
        let mut records = vec![];
        let kinds = if repeat > 0 { r.range(1, 4) } else { r.range(2, 12) };
        let mut last: Option<El> = None;
        for _ in 0..kinds {
            let budget = r.range(1, 15);
            let Some(mut e) = s.doc(r, budget) else { break };
            last = Some(e.clone());
            mark(&mut e, r);
            let outer = scope.len();
            let mut ends = vec![];
            let mut text = String::new();
            if nest && r.chance(1, 2) {
                let deep = if r.chance(1, 3) { r.range(1, most_deep) } else { r.range(1, 4) };
                for _ in 0..deep {
                    let (open, close) = open_box(bns, &mut scope, r);
                    text.push_str(&open);
                    ends.push(close);
                }
            }
            text.push_str(&render::fragment(&e, &st, r, &mut scope, &mut vec![]));
            scope.truncate(outer);
            while let Some(close) = ends.pop() {
                text.push_str(&close);
            }
            if r.chance(1, 6) {
                text.push_str("<!-- @@@@@@ -->");
            }
            if r.chance(1, 5) {
                // a binding of its own
                let i = text.find(['>', ' ', '/', '\n']).unwrap();
                let d = *r.pick(&[" xmlns:u='urn:u@@@@@@'", " xmlns:u@@@@@@=\"urn:u\"", " xmlns:u@@@@@@='urn:u@@@@@@'"]);
                text.insert_str(i, d);
            }
            records.push(Rec { text, bad: None });
        }
        if with_other && r.chance(2, 3) {
            records.push(Rec { text: other_text, bad: None });
        }
        let Some(mut e) = last else { continue };
        let kinds = records.len();
        let most = if thorough { 4000 } else { 400 };
        let len = match r.below(4) {
            0 => r.range(1, 20),
            1 => r.range(20, most),
            _ => r.range(20, 60),
        };
        let mut order: Vec<usize> = if repeat > 0 { (0..r.range(1, 6)).map(|_| r.below(kinds)).collect() } else { (0..len).map(|_| r.below(kinds)).collect() };
        if repeat == 0 && r.chance(3, 4) {
            // one that is bad
            let (bad, pre) = match r.below(4) {
                0 | 1 => {
                    // it uses bindings that it does not have any more
                    let mut before = vec![];
                    for p in POOL.iter() {
                        let now = render::bound(&scope, p).unwrap_or(0);
                        let other: Vec<usize> = (1..NS.len()).filter(|n| *n != now).collect();
                        before.push((p.to_string(), *r.pick(&other)));
                    }
                    let k = r.range(1, before.len());
                    r.shuffle(&mut before);
                    before.truncate(k);
                    if c.anyname {
                        continue;
                    }
                    let mut late = scope.clone();
                    late.extend(before.clone());
                    let mut used = vec![];
                    let text = render::fragment(&e, &Style { rebind: false, ..st.clone() }, r, &mut late, &mut used);
                    let Some(p) = used.iter().find(|p| before.iter().any(|b| b.0 == **p)) else { continue };
                    let why = format!("relies on the binding of {p} that ended with an earlier record");
                    // a record that does have them
                    let good = records.iter().position(|x| !x.text.contains("other-record"));
                    let Some(g) = good else { continue };
                    let pre = if r.chance(1, 2) {
                        // on the record itself
                        let mut inner = scope.clone();
                        let at = inner.len();
                        inner.extend(before.iter().cloned());
                        let t = render::fragment(&e, &Style { rebind: false, ..st.clone() }, r, &mut inner, &mut vec![]);
                        // declared at its start tag, unless it does so already
                        let i = t.find(['>', ' ', '/', '\n']).unwrap();
                        let own = &t[..t.find('>').unwrap()];
                        if inner[at..].iter().any(|b| own.contains(&format!("xmlns:{}=", b.0))) {
                            records[g].text.clone()
                        } else {
                            let d: String = inner[at..].iter().map(|(p, n)| format!(" xmlns:{p}=\"{}\"", render::esc_attr(NS[*n]))).collect();
                            format!("{}{d}{}", &t[..i], &t[i..])
                        }
                    } else {
                        records[g].text.clone()
                    };
                    (Rec { text, bad: Some(why) }, Some(Rec { text: pre, bad: None }))
                }
                2 => {
                    // the same record on its own shows whether it is bad
                    let mut how = gram::mutate(&mut e, r);
                    if r.chance(1, 3) {
                        how = gram::mutate(&mut e, r);
                    }
                    let text = render::fragment(&e, &st, r, &mut scope, &mut vec![]);
                    (Rec { text, bad: Some(format!("{MAYBE}{how}")) }, None)
                }
                _ => {
                    let how = gram::spoil(&mut e, r, !c.anyname);
                    let text = render::fragment(&e, &st, r, &mut scope, &mut vec![]);
                    (Rec { text, bad: Some(format!("{how:?}")) }, None)
                }
            };
            let at = if r.chance(1, 2) { order.len() } else { r.below(order.len() + 1) };
            if let Some(pre) = pre {
                records.push(pre);
                order.insert(r.below(at + 1), records.len() - 1);
            }
            records.push(bad);
            let i = if r.chance(1, 2) { at.max(1) } else { order.len() };
            order.insert(i.min(order.len()), records.len() - 1);
        }
        // not more than a few megabytes
        let mut repeat = repeat;
        let bytes = |order: &[usize], repeat: usize| order.iter().map(|i| records[*i % records.len().max(1)].text.len()).sum::<usize>() * repeat.max(1);
        while bytes(&order, repeat) > 4 << 20 && (order.len() > 1 || repeat > 20) {
            if order.len() > 1 && records.iter().all(|r| r.bad.is_none()) {
                order.pop();
            } else if repeat > 20 {
                repeat /= 2;
            } else {
                break;
            }
        }
        let head = format!("{}<{name}{tag}", if st.decl { "<?xml version=\"1.0\"?>\n" } else { "" });
        return serde_json::to_value(Sc { rng: schema.rng_syntax, root: schema.root, files: schema.files, head, tail, records, order, repeat, hash_seed: r.next() }).unwrap();
    }
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    crate::io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let mut c = Compiler::new(MemFs(disk(&sc.files)), syntax(sc.rng));
    let m = match observe::compile(&mut c, &sc.root) {
        Ok((_, Ok(m))) => m,
        Ok((o, Err(_))) => return rep.violate("rejects-intact-schema", o.short()),
        Err(p) => return panic_violation(rep, "compiling", &p),
    };
    let mut sc = sc;
    for rec in sc.records.iter_mut() {
        if rec.bad.as_ref().is_some_and(|b| b.starts_with(MAYBE)) {
            let alone = format!("{}\n{}\n{}", sc.head, rec.text.replace("@@@@@@", "000000"), sc.tail);
            match observe::verdict(&observe::session(&m, &alone, false)) {
                Verdict::Valid => {
                    rep.probe("changed record valid on its own");
                    rec.bad = None;
                }
                Verdict::Invalid(_) => rep.probe("changed record invalid on its own"),
                Verdict::Limit => return rep.skip("more than 2^16 patterns"),
                Verdict::Broken(p) => return rep.violate("breaks", format!("{p}\n{}", clip(&alone, 2000))),
            }
        }
    }
    let order: Vec<usize> = sc.order.iter().map(|i| i % sc.records.len().max(1)).collect();
    if sc.records.is_empty() || order.is_empty() {
        return rep.skip("no records");
    }
    let mut doc = sc.head.clone();
    let mut starts = vec![];
    let rounds = sc.repeat.max(1);
    let mut n = 0;
    let mut line = sc.head.matches('\n').count() + 1;
    let mut first_bad = None;
    for _ in 0..rounds {
        for i in &order {
            let rec = &sc.records[*i];
            doc.push('\n');
            line += 1;
            starts.push(line);
            let t = rec.text.replace("@@@@@@", &format!("{n:06}"));
            line += t.matches('\n').count();
            doc.push_str(&t);
            if rec.bad.is_some() && first_bad.is_none() {
                first_bad = Some(n);
            }
            n += 1;
        }
    }
    doc.push('\n');
    line += 1;
    starts.push(line);
    doc.push_str(&sc.tail);
    rep.mix(&doc);
    rep.nontrivial = first_bad.unwrap_or(n) >= 20;

    let mut val = match catch(|| Validator::new(m.clone(), xmlparser::Tokenizer::from(&doc[..]))) {
        Ok(v) => v,
        Err(p) => return panic_violation(rep, "creating the validator", &p),
    };
    let limit = doc.len() * 4 + 64;
    // most memory in use in each of 8 parts of the stream
    let mut high = [i64::MIN; 8];
    let mut live = Vec::with_capacity(doc.matches(['<', '>', '=']).count() * 2 + 64);
    let mut end = Verdict::Broken("the session does not end".into());
    for _ in 0..limit {
        rep.steps += 1;
        match catch(|| val.validate_next()) {
            Err(p) => {
                end = if p.msg.contains("2^16") { Verdict::Limit } else { Verdict::Broken(p.text()) };
                break;
            }
            Ok(None) => {
                end = Verdict::Valid;
                break;
            }
            Ok(Some(Ok(()))) => {
                live.push(crate::alloc::live());
            }
            Ok(Some(Err(e))) => {
                let d = observe::render_doc_error(&val, "doc.xml", &doc, &e);
                let (text, map, d) = match d {
                    Ok(x) => x,
                    Err(p) => return panic_violation(rep, "rendering", &p),
                };
                let Some(span) = d.first().and_then(|d| d.spans.first()).map(|s| s.span) else {
                    return rep.violate("no-place", text);
                };
                let at = map.look_up_span(span).begin.line + 1;
                let Some(bad) = first_bad else {
                    let k = starts.iter().filter(|l| **l <= at).count();
                    return rep.violate("rejects-good-record", format!("record {k} of {n}: {e:?}\n{}", clip(&doc, 3000)));
                };
                let (from, to) = (starts[bad], starts[bad + 1]);
                if at < from || at >= to {
                    return rep.violate("error-elsewhere", format!("the first bad record ({}) is {bad} at lines {from}..{to}, the error is at line {at}\n{}\n{}", why(&sc, &order, bad), clip(&text, 900), clip(&doc, 3000)));
                }
                rep.fault(if why(&sc, &order, bad).starts_with("relies") { "record relying on a binding that has ended" } else { "spoiled record" });
                rep.probe("bad record found");
                return;
            }
        }
    }
    match end {
        Verdict::Limit => {
            if sc.repeat >= 20 {
                // what a few rounds do not use, many must not
                let end: String = doc.lines().take(starts[order.len() * 8] - 1).collect::<Vec<_>>().join("\n");
                if !matches!(observe::verdict(&observe::session(&m, &format!("{end}\n{}", sc.tail), false)), Verdict::Limit) {
                    return rep.violate("patterns-accumulate", format!("the number of patterns reached the limit after {} steps of identical records\n{}", live.len(), clip(&doc, 2000)));
                }
            }
            return rep.skip("more than 2^16 patterns");
        }
        Verdict::Valid => {}
        v => return rep.violate("breaks", format!("{v:?}\n{}", clip(&doc, 2000))),
    }
    if let Some(bad) = first_bad {
        return rep.violate("accepts-bad-record", format!("record {bad} of {n} ({})\n{}", why(&sc, &order, bad), clip(&doc, 4000)));
    }
    rep.probe("long stream accepted");
    if sc.repeat >= 16 {
        // rounds are alike, so a round is the same number of steps
        // (and what comes before and after them is not part of them)
        let rim = |t: &str| t.matches('<').count() * 2 + 2;
        live.truncate(live.len().saturating_sub(rim(&sc.tail)));
        live.drain(..rim(&sc.head).min(live.len()));
        let k = live.len();
        if k < 64 {
            return;
        }
        for (i, l) in live.iter().enumerate() {
            let b = i * 8 / k;
            high[b] = high[b].max(*l);
        }
        let grown = high[7] - high[3].max(high[2]);
        if grown > 1024 {
            return rep.violate("memory-grows", format!("most memory in use in each eighth of {rounds} rounds of {} records: {:?}\n{}", order.len(), high.map(|h| h - high[0]), clip(&doc, 2500)));
        }
        rep.probe("memory bounded");
    }
}

fn why<'a>(sc: &'a Sc, order: &[usize], n: usize) -> &'a str {
    sc.records[order[n % order.len()]].bad.as_deref().unwrap_or("?")
}
