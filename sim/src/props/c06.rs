//! C06: where errors are reported
use super::Prop;
use super::c05::{header, plant_item, plant_pat};
use crate::common::*;
use crate::gram::{self, Body, Cfg, Item, Op, Pat};
use crate::memfs::{MemFs, Trouble, disk};
use crate::observe::{self, Mirror, syntax};
use crate::render::{self, Rendered};
use crate::report::Report;
use crate::util::{Rng, norm};
use relaxng_model::{Compiler, RelaxError};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C06",
    generate,
    run,
    shrink: &[],
    quick: 160_000,
    thorough: 400_000,
    rule: "One error of a known kind (unreadable file, missing file, syntax error, malformed XML, undefined name/prefix/datatype, duplicate definition, conflicting combination, bad or conflicting facets, element within an attribute, cut-off file, definitions that conflict across two files, ...) at a known line of a random file of a random multi-file schema; the reported file, line, quoted source and chain of references are compared with the reference graph. Non-trivial: the file is not the root.",
    real: "relaxng-model (Compiler, diagnostics), relaxng-syntax",
    stub: "the Files implementation (in memory), randomness, standard error",
    budget: (200_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    /// how the file to start from is called
    root: String,
    kind: String,
    file: String,
    /// lines at which the error may be reported; empty for a file that cannot be read
    lines: Vec<usize>,
    /// a later line that may be shown as well
    also: Vec<usize>,
    /// and the file of that, if it is another one
    #[serde(default)]
    also_file: String,
    /// the mistake as it is written
    snip: String,
    errno: i32,
    expect: String,
    hash_seed: u64,
}

const MARK: &str = "zzmark";

pub enum How {
    P(Pat),
    I(Item),
}

/// a mistake: what it is, how it's reported, and how it's written
pub fn planted(rng: bool, r: &mut Rng) -> (&'static str, &'static str, How) {
    use How::*;
    let raw = |s: &str| P(Pat::Raw(s.to_string()));
    let item = |s: &str| I(Item::Raw(s.to_string()));
    if rng {
        match r.below(28) {
            22..=27 => {
                // a character that no name has, with a space or two ahead of it
                let sp = *r.pick(&["", " ", "   "]);
                let pre = *r.pick(&["", "zz", "é"]);
                let bad = format!("{sp}{pre}zzmark!{}", *r.pick(&["", "x", ".y"]));
                let kind = "bad character in a name";
                match r.below(6) {
                    0 => (kind, "XmlParse", raw(&format!("<ref name=\"{bad}\"/>"))),
                    1 => (kind, "XmlParse", raw(&format!("<element name='{bad}'><empty/></element>"))),
                    2 => (kind, "XmlParse", raw(&format!("<element><name>{bad}</name><empty/></element>"))),
                    3 => (kind, "XmlParse", raw(&format!("<attribute name=\"{bad}\"/>"))),
                    4 => (kind, "XmlParse", raw(&format!("<element><anyName><except><name>{bad}</name></except></anyName><empty/></element>"))),
                    _ => (kind, "XmlParse", item(&format!("<define name=\"{bad}\"><empty/></define>"))),
                }
            }
            13 => ("facets that conflict", "DatatypeError", raw("<attribute name=\"zzmark\"><data type=\"int\"><param name=\"minInclusive\">9</param><param name=\"maxInclusive\">1</param></data></attribute>")),
            14 => ("facets that conflict", "DatatypeError", raw("<attribute name=\"zzmark\"><data type=\"string\"><param name=\"minLength\">9</param><param name=\"maxLength\">1</param></data></attribute>")),
            15 => ("bad regular expression", "DatatypeError", raw("<data type=\"token\"><param name=\"pattern\">zzmark(</param></data>")),
            16 => ("bad value of a type", "DatatypeError", raw("<value type=\"QName\">:zzmark:</value>")),
            17 => ("bad facet of a number", "DatatypeError", raw("<data type=\"decimal\"><param name=\"maxExclusive\">zzmark</param></data>")),
            18 => ("bad excepted value", "DatatypeError", raw("<data type=\"QName\"><except><value type=\"QName\">:zzmark:</value></except></data>")),
            19 => ("element in an attribute", "ElementAsChildOfAttribute", raw("<attribute name=\"zzmark\"><element name=\"x\"><empty/></element></attribute>")),
            20 => ("undefined namespace prefix in an attribute", "UndefinedNamespacePrefix", raw("<attribute name=\"zz:zzmark\"><text/></attribute>")),
            21 => ("undefined namespace prefix in a name", "UndefinedNamespacePrefix", raw("<element><choice><name>x</name><name>zz:zzmark</name></choice><empty/></element>")),
            0 => ("undefined reference", "UndefinedReference", raw("<ref name=\"zzmark\"/>")),
            1 => ("undefined namespace prefix", "UndefinedNamespacePrefix", raw("<element name=\"zz:zzmark\"><empty/></element>")),
            2 => ("unknown element", "XmlParse", raw("<zzmark/>")),
            3 => ("mismatched end tag", "XmlParse", raw("</zzmark>")),
            4 => ("unknown datatype", "DatatypeError", raw("<data type=\"zzmark\"/>")),
            5 => ("bad facet value", "DatatypeError", raw("<data type=\"string\"><param name=\"maxLength\">zzmark</param></data>")),
            6 => ("unknown facet", "DatatypeError", raw("<data type=\"string\"><param name=\"zzmark\">1</param></data>")),
            7 => ("facet of a built-in type", "DatatypeError", raw("<data type=\"token\" datatypeLibrary=\"\"><param name=\"zzmark\">1</param></data>")),
            8 => ("unknown datatype library", "DatatypeError", raw("<data type=\"name\" datatypeLibrary=\"urn:zzmark\"/>")),
            9 => ("repeated attribute", "XmlParse", item("<define name=\"zzmark\" name=\"x\"><empty/></define>")),
            10 => ("bad combine", "XmlParse", item("<define name=\"zzmark\" combine=\"no\"><empty/></define>")),
            11 => ("bad entity", "XmlParse", raw("<value>&zzmark;</value>")),
            _ => ("grammar without start", "StartRuleNotDefined", raw("<grammar><define name=\"zzmark\"><empty/></define></grammar>")),
        }
    } else {
        match r.below(22) {
            12 => ("facets that conflict", "DatatypeError", raw("attribute zzmark { xsd:int { minInclusive = \"9\" maxInclusive = \"1\" } }")),
            13 => ("facets that conflict", "DatatypeError", raw("attribute zzmark { xsd:string { length = \"9\" maxLength = \"1\" } }")),
            14 => ("bad regular expression", "DatatypeError", raw("xsd:token { pattern = \"zzmark(\" }")),
            15 => ("bad value of a type", "DatatypeError", raw("xsd:QName \":zzmark:\"")),
            16 => ("bad facet of a number", "DatatypeError", raw("xsd:decimal { minInclusive = \"zzmark\" }")),
            17 => ("bad facet of a number", "DatatypeError", raw("xsd:int { maxExclusive = \"zzmark\" }")),
            18 => ("bad excepted value", "DatatypeError", raw("(xsd:QName - xsd:QName \":zzmark:\")")),
            19 => ("undefined namespace prefix in a name", "UndefinedNamespacePrefix", raw("element x | zz:zzmark { empty }")),
            20 => ("undefined namespace prefix in an exception", "UndefinedNamespacePrefix", raw("element * - zz:zzmark { empty }")),
            21 => ("undefined namespace prefix of any name", "UndefinedNamespacePrefix", raw("element zzmark:* { empty }")),
            0 => ("undefined reference", "UndefinedReference", raw("zzmark")),
            1 => ("undefined namespace prefix", "UndefinedNamespacePrefix", raw("element zz:zzmark { empty }")),
            2 => ("undefined namespace prefix in an attribute", "UndefinedNamespacePrefix", raw("attribute zz:zzmark { text }")),
            3 => ("undefined datatype prefix", "UndefinedDatatypePrefix", raw("zz:zzmark")),
            4 => ("unknown datatype", "DatatypeError", raw("xsd:zzmark")),
            5 => ("bad facet value", "DatatypeError", raw("xsd:string { maxLength = \"zzmark\" }")),
            6 => ("unknown facet", "DatatypeError", raw("xsd:string { zzmark = \"1\" }")),
            7 => ("facet of a built-in type", "DatatypeError", raw("token { zzmark = \"1\" }")),
            8 => ("element in an attribute", "ElementAsChildOfAttribute", raw("attribute zzmark { element x { empty } }")),
            9 => ("syntax error", "Parse", raw("@zzmark@")),
            10 => ("syntax error in an item", "Parse", item("zzmark = = empty")),
            _ => ("grammar without start", "StartRuleNotDefined", raw("grammar { zzmark = empty }")),
        }
    }
}

/// What an error's own place has to touch.
fn word(kind: &str) -> &'static str {
    match kind {
        "undefined namespace prefix"
        | "undefined namespace prefix in an attribute"
        | "undefined namespace prefix in a name"
        | "undefined namespace prefix in an exception"
        | "undefined datatype prefix" => "zz:zzmark",
        "bad character in a name" => "!",
        "syntax error" => "@zzmark@",
        "syntax error in an item" => "= =",
        "duplicate definition" | "conflicting combination" => "zzdup",
        // (nowhere more precise than the type's name)
        "facets that conflict" | "bad value of a type" | "bad excepted value" => "",
        "bad combine" => "combine=\"no\"",
        "repeated attribute" => "name=\"x\"",
        "element in an attribute" => "element",
        _ => MARK,
    }
}

fn generate(r: &mut Rng, thorough: bool) -> Value {
    loop {
        let mut c = Cfg::random(r);
        c.max_files = r.range(1, if thorough { 12 } else { 9 });
        c.odd_spelling = r.chance(1, 2);
        let mut p = gram::generate(r, &c);
        let x = r.below(p.files.len());
        let path = p.files[x].path.clone();
        let rng = c.rng_syntax;
        let seed = r.next();
        let sc = match r.below(26) {
            20 | 21 => {
                // the same name in a file and in one that it includes, or in two that it includes
                let Some((file, also_file, kind, expect)) = twice(&mut p, x, r) else { continue };
                let schema = render::render(&p, r);
                let also = marked(&schema.files[&also_file], "zzfirst");
                let mut sc = finish(schema, kind, expect, file, seed, rng);
                sc.also_file = also_file;
                sc.also = also;
                sc
            }
            22 => {
                // an include of what is not a grammar
                let Some(y) = (1..p.files.len()).find(|y| matches!(&p.files[*y].body, Body::Pattern(q) if !matches!(q, Pat::Gram(..)))) else { continue };
                let schema = render::render(&p, r);
                let (y, from) = (p.files[y].path.clone(), path);
                if schema.root == y || super::c05::reach(&schema.links, &y).contains(&from) {
                    continue;
                }
                let to = p.files.iter().position(|f| f.path == y).unwrap();
                let Body::Grammar(items) = &mut p.files[x].body else { continue };
                let k = r.below(items.len() + 1);
                items.insert(k, Item::Inc(to, 0, vec![]));
                let schema = render::render(&p, r);
                if !super::c05::reach(&schema.links, &schema.root).contains(&from) {
                    continue;
                }
                let n = schema.files[&y].lines().count();
                let mut sc = finish(schema, "include of a pattern", "IncludedFileMustBeGrammar", y, seed, rng);
                sc.lines = (1..=n.max(1)).collect();
                sc
            }
            23 if !rng => {
                let mut schema = render::render(&p, r);
                let two = "datatypes zzd = \"urn:one\" datatypes zzd = \"urn:zzmark\" ";
                let t = schema.files.get_mut(&path).unwrap();
                let at = if t.starts_with('\u{feff}') { 3 } else { 0 };
                t.insert_str(at, two);
                let mut sc = finish(schema, "datatypes prefix declared twice", "DatatypePrefixAlreadyDefined", path, seed, rng);
                sc.snip = two.into();
                sc
            }
            23 => {
                let Body::Grammar(items) = &mut p.files[x].body else { continue };
                let Some(i) = items.iter().position(|i| matches!(i, Item::Def(n, Op::Assign, _) if n == "start")) else { continue };
                items[i] = Item::Raw("<start><empty/></start><!-- zzfirst -->".into());
                let j = r.range(i + 1, items.len());
                items.insert(j, Item::Raw("<start><empty/></start><!-- zzmark -->".into()));
                let schema = render::render(&p, r);
                // (one that is overridden doesn't count)
                if schema.links.iter().any(|l| l.include && l.to == path) {
                    continue;
                }
                finish(schema, "duplicate start", "DuplicateDefinition", path, seed, rng)
            }
            24 | 25 => {
                // only the first lines of a file
                let mut schema = render::render(&p, r);
                let t = schema.files.get_mut(&path).unwrap();
                let n = t.lines().count();
                let cut = r.below(n.max(1));
                *t = t.lines().take(cut).map(|l| format!("{l}\n")).collect();
                if r.chance(1, 2) {
                    t.pop();
                }
                let mut sc = finish(schema, "cut off", "Parse|XmlParse", path, seed, rng);
                sc.lines = (1..=cut + 1).collect();
                sc
            }
            0 | 1 => {
                let schema = render::render(&p, r);
                let errno = *r.pick(&[libc::EIO, libc::EACCES, libc::ENOENT]);
                Sc { root: schema.root.clone(), schema, kind: "unreadable file".into(), file: path, lines: vec![], also: vec![], also_file: String::new(), snip: String::new(), errno, expect: "Io".into(), hash_seed: seed }
            }
            2 => {
                let mut schema = render::render(&p, r);
                schema.files.remove(&path);
                Sc { root: schema.root.clone(), schema, kind: "missing file".into(), file: path, lines: vec![], also: vec![], also_file: String::new(), snip: String::new(), errno: libc::ENOENT, expect: "Io".into(), hash_seed: seed }
            }
            3 | 4 => {
                // the same name twice in one file
                let a = if rng { "<define name=\"zzdup\"><empty/></define><!-- zzfirst -->" } else { "zzdup = empty # zzfirst\n" };
                let b = if rng { "<define name=\"zzdup\"><empty/></define><!-- zzmark -->" } else { "zzdup = empty # zzmark\n" };
                let Body::Grammar(items) = &mut p.files[x].body else { continue };
                let i = r.below(items.len() + 1);
                items.insert(i, Item::Raw(a.into()));
                let j = r.range(i + 1, items.len());
                items.insert(j, Item::Raw(b.into()));
                if r.chance(1, 3) {
                    // and more to it, between the two or behind them, that's not at fault
                    let how = *r.pick(&["choice", "interleave"]);
                    for _ in 0..r.range(1, 3) {
                        let k = r.range(i + 1, items.len());
                        let t = match (rng, how) {
                            (true, _) => format!("<define name=\"zzdup\" combine=\"{how}\"><empty/></define>\n"),
                            (_, "choice") => "zzdup |= empty\n".into(),
                            _ => "zzdup &= empty\n".into(),
                        };
                        items.insert(k, Item::Raw(t));
                    }
                }
                let schema = render::render(&p, r);
                finish(schema, "duplicate definition", "DuplicateDefinition", path, seed, rng).snip(b)
            }
            5 | 6 => {
                let a = if rng { "<define name=\"zzdup\" combine=\"choice\"><empty/></define><!-- zzfirst -->" } else { "zzdup |= empty # zzfirst\n" };
                let b = if rng { "<define name=\"zzdup\" combine=\"interleave\"><empty/></define><!-- zzmark -->" } else { "zzdup &= empty # zzmark\n" };
                let Body::Grammar(items) = &mut p.files[x].body else { continue };
                let i = r.below(items.len() + 1);
                items.insert(i, Item::Raw(a.into()));
                let j = r.range(i + 1, items.len());
                items.insert(j, Item::Raw(b.into()));
                if r.chance(1, 3) {
                    // more of the first kind, ahead of the second
                    for _ in 0..r.range(1, 3) {
                        let k = r.range(i + 1, j);
                        items.insert(k, Item::Raw(a.into()));
                    }
                }
                let schema = render::render(&p, r);
                let mut sc = finish(schema, "conflicting combination", "DefineRulesMixesChoiceAndInterleave", path, seed, rng).snip(b);
                sc.also = sc.schema.files[&sc.file].lines().enumerate().filter(|(_, l)| l.contains("zzfirst")).map(|(i, _)| i + 1).collect();
                sc
            }
            7 => {
                // an override of something that the included file does not define
                let Body::Grammar(items) = &mut p.files[x].body else { continue };
                let Some(Item::Inc(_, _, over)) = items.iter_mut().find(|i| matches!(i, Item::Inc(..))) else { continue };
                over.push(Item::Raw(if rng { "<define name=\"zzmark\"><empty/></define>".into() } else { "zzmark = empty".into() }));
                let schema = render::render(&p, r);
                finish(schema, "override of nothing", "OverrideMissingFromInclude", path, seed, rng)
            }
            8 => {
                if !gram::knot(&mut p, x, r, false, false) {
                    continue;
                }
                let schema = render::render(&p, r);
                let mut sc = finish(schema, "recursive definition", "RecursiveReference", path, seed, rng);
                // reported at the definition's own reference to itself
                let t = &sc.schema.files[&sc.file];
                let all: Vec<usize> = t.lines().enumerate().filter(|(_, l)| l.contains(MARK)).map(|(i, _)| i + 1).collect();
                sc.lines = all.clone();
                sc.also = all;
                sc
            }
            9 => {
                // no grammar outside of the root's
                let mut v = gram::Project { rng_syntax: rng, files: p.files.clone(), long: p.long, docs: p.docs };
                if x != 0 || !plant_pat(&mut v, 0, r, Pat::Raw(if rng { "<parentRef name=\"zzmark\"/>".into() } else { "parent zzmark".into() })) {
                    continue;
                }
                let schema = render::render(&v, r);
                // unless it came to lie in a nested grammar
                finish(schema, "no parent grammar", "NoParentAvailable|UndefinedReference", path, seed, rng)
            }
            10 | 11 => {
                let [compact, xml] = crate::types::mistaken(r);
                let (text, snip) = if rng { xml } else { compact };
                if !plant_pat(&mut p, x, r, Pat::Raw(text)) {
                    continue;
                }
                let schema = render::render(&p, r);
                let mut sc = finish(schema, "one wrong facet among several", "DatatypeError", path, seed, rng);
                sc.snip = snip;
                sc
            }
            _ => {
                let (kind, expect, how) = planted(rng, r);
                let snip = match &how {
                    How::P(Pat::Raw(t)) | How::I(Item::Raw(t)) => t.clone(),
                    _ => unreachable!(),
                };
                let ok = match how {
                    How::P(q) => plant_pat(&mut p, x, r, q),
                    How::I(i) => plant_item(&mut p, x, r, i),
                };
                if !ok {
                    continue;
                }
                let schema = render::render(&p, r);
                let mut sc = finish(schema, kind, expect, path, seed, rng);
                sc.snip = snip;
                sc
            }
        };
        // (the error may have replaced what referred to the file)
        if sc.file != sc.schema.root && !super::c05::reach(&sc.schema.links, &sc.schema.root).contains(&sc.file) {
            continue;
        }
        let mut sc = sc;
        if r.chance(1, 8) {
            for t in sc.schema.files.values_mut() {
                *t = t.replace('\n', "\r\n");
            }
        }
        if r.chance(1, 6) {
            sc.root = crate::util::spell(r, &sc.root);
        }
        return serde_json::to_value(sc).unwrap();
    }
}

impl Sc {
    fn snip(mut self, s: &str) -> Sc {
        self.snip = s.trim_end().into();
        self
    }
}

fn marked(text: &str, mark: &str) -> Vec<usize> {
    text.lines().enumerate().filter(|(_, l)| l.contains(mark)).map(|(i, _)| i + 1).take(1).collect()
}

/// define a name in a file and in one that it includes, or in two that it includes; (where it is
/// noticed, where the first definition is, kind, error)
fn twice(p: &mut gram::Project, x: usize, r: &mut Rng) -> Option<(String, String, &'static str, &'static str)> {
    let rng = p.rng_syntax;
    // the files that are referred to just once
    let mut times = vec![0usize; p.files.len()];
    for l in render::render(p, &mut r.clone()).links {
        if let Some(i) = p.files.iter().position(|f| f.path == l.to) {
            times[i] += 1;
        }
    }
    let Body::Grammar(items) = &p.files[x].body else { return None };
    let incs: Vec<(usize, usize)> = items
        .iter()
        .enumerate()
        .filter_map(|(k, i)| match i {
            Item::Inc(y, ..) if *y != x && times[*y] == 1 && matches!(p.files[*y].body, Body::Grammar(_)) => Some((k, *y)),
            _ => None,
        })
        .collect();
    if incs.is_empty() {
        return None;
    }
    let (kind, expect, one, two) = if r.chance(1, 2) {
        ("duplicate definition in two files", "DuplicateDefinition", "", "")
    } else {
        ("conflicting combination in two files", "DefineRulesMixesChoiceAndInterleave", "choice", "interleave")
    };
    let text = |how: &str, mark: &str| {
        Item::Raw(match (rng, how) {
            (true, "") => format!("<define name=\"zzdup\"><empty/></define><!-- {mark} -->"),
            (true, _) => format!("<define name=\"zzdup\" combine=\"{how}\"><empty/></define><!-- {mark} -->"),
            (false, "") => format!("zzdup = empty # {mark}\n"),
            (false, "choice") => format!("zzdup |= empty # {mark}\n"),
            (false, _) => format!("zzdup &= empty # {mark}\n"),
        })
    };
    let (k, y) = *r.pick(&incs);
    let (first, second) = match incs.iter().find(|(l, z)| *l > k && *z != y) {
        Some((_, z)) if r.chance(1, 2) => (y, *z),
        _ if r.chance(1, 2) => (x, y),
        _ => (y, x),
    };
    for (f, how, mark) in [(first, one, "zzfirst"), (second, two, MARK)] {
        let Body::Grammar(items) = &mut p.files[f].body else { unreachable!() };
        let at = match f {
            // ahead of the include or behind it
            _ if f == x && first == x => r.below(k + 1),
            _ if f == x => r.range(k + 1, items.len()),
            _ => r.below(items.len() + 1),
        };
        items.insert(at, text(how, mark));
    }
    Some((p.files[second].path.clone(), p.files[first].path.clone(), kind, expect))
}

fn finish(schema: Rendered, kind: &str, expect: &str, file: String, hash_seed: u64, _rng: bool) -> Sc {
    let lines = marked(&schema.files[&file], MARK);
    let also = marked(&schema.files[&file], "zzfirst");
    Sc { kind: kind.into(), file, lines, also, also_file: String::new(), snip: String::new(), errno: 0, expect: expect.into(), hash_seed, root: schema.root.clone(), schema }
}

/// what a rendered diagnostic shows: (file, line, source line)
pub fn shown(diag: &str) -> Vec<(String, usize, String)> {
    let mut v = vec![];
    let mut file = String::new();
    for l in diag.lines() {
        let t = l.trim_start();
        if let Some(x) = t.strip_prefix("--> ") {
            let mut it = x.rsplitn(3, ':');
            let (_, _, f) = (it.next(), it.next(), it.next());
            file = norm(f.unwrap_or_default());
        } else if let Some(x) = t.strip_prefix(":::").filter(|x| x.starts_with([' ', '\t'])).map(|x| &x[1..]) {
            file = norm(x.trim_end());
        } else if let Some((n, rest)) = t.split_once('|') {
            if let Ok(n) = n.trim().parse::<usize>() {
                v.push((file.clone(), n, rest.strip_prefix(' ').unwrap_or(rest).to_string()));
            }
        }
    }
    v
}

/// does some path of references from the root end at `file` and pass exactly these references?
fn is_path(links: &[render::Link], root: &str, file: &str, chain: &[(String, usize)]) -> bool {
    let mut at: BTreeSet<String> = [root.to_string()].into();
    for (f, line) in chain {
        if !at.contains(f) {
            return false;
        }
        at = links.iter().filter(|l| l.from == *f && l.line == *line).map(|l| l.to.clone()).collect();
        if at.is_empty() {
            return false;
        }
    }
    at.contains(file)
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let s = &sc.schema;
    crate::io::load(&crate::io::Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    if sc.kind == "cut off" {
        // (what is left may be all right by itself)
        let d = disk(&BTreeMap::from([(sc.file.clone(), s.files[&sc.file].clone())]));
        let mut c = Compiler::new(MemFs(d), syntax(s.rng_syntax));
        match observe::compile(&mut c, &sc.file) {
            Ok((_, Err(RelaxError::Parse { .. } | RelaxError::XmlParse(..)))) => {}
            Ok(_) => return rep.probe("the rest of the file parses"),
            Err(p) => return panic_violation(rep, "compiling", &p),
        }
        crate::io::load(&crate::io::Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    }
    let d = disk(&s.files);
    if sc.errno != 0 && s.files.contains_key(&sc.file) {
        d.borrow_mut().trouble = BTreeMap::from([(sc.file.clone(), Trouble::Errno(sc.errno))]);
    }
    let mut c = Compiler::new(MemFs(d.clone()), syntax(s.rng_syntax));
    let (mut obs, res) = match observe::compile(&mut c, &sc.root) {
        Ok(x) => x,
        Err(p) => return panic_violation(rep, "compiling", &p),
    };
    // (codemap-diagnostic carries tabs over from one line to the next)
    obs.diag = obs.diag.replace('\t', " ");
    let loads = d.borrow().loads.clone();
    rep.steps += loads.len() as u64 + 1;
    rep.mix(&format!("{}{}{:?}", sc.kind, sc.file, sc.lines));
    rep.mix(&obs.diag);
    rep.nontrivial = sc.file != s.root;
    rep.fault(&sc.kind);
    let Err(e) = res else {
        if sc.expect == "RecursiveReference" && !obs.body.contains("ref zzmark") {
            return rep.probe("recursion among definitions that nothing uses");
        }
        return rep.violate("accepted", format!("{} at {}:{:?} is not noticed", sc.kind, sc.file, sc.lines));
    };
    let (spans, inner) = observe::unwrap_includes(&e);
    let name = format!("{inner:?}");
    let name: String = name.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    // what matters is where; but a file that can be read is not to be called unreadable
    if (sc.expect == "Io") != (name == "Io") {
        return rep.violate("wrong-error", format!("{} at {}:{:?} is reported as\n{}", sc.kind, sc.file, sc.lines, obs.short()));
    }
    let shown = shown(&obs.diag);
    let mut chain_ok = true;
    if sc.expect == "Io" {
        let RelaxError::Io(path, err) = inner else { unreachable!() };
        if norm(&path.to_string_lossy()) != sc.file || err.raw_os_error() != Some(sc.errno) {
            return rep.violate("wrong-file", format!("{} is unreadable, but: {}", sc.file, obs.short()));
        }
        // (by its whole name, as there may be others much like it; not just in the line that refers to it)
        let own: String = obs.diag.lines().take_while(|l| !l.contains("--> ")).collect::<Vec<_>>().join("\n");
        if !own.contains(&*path.to_string_lossy()) && !own.contains(&sc.file) {
            return rep.violate("file-not-named", format!("{} is unreadable, but the report is\n{}", sc.file, obs.diag));
        }
    } else {
        // the place of the error itself
        let head = header(&obs.diag);
        let good = |h: &Option<(String, usize)>| h.as_ref().is_some_and(|(f, l)| *f == sc.file && sc.lines.contains(l));
        if !good(&head) {
            if spanless(inner) {
                rep.probe("error that lies nowhere in particular");
                chain_ok = false;
            } else {
                return rep.violate("wrong-place", format!("{} is at {}:{:?}, but is reported as\n{}", sc.kind, sc.file, sc.lines, obs.diag));
            }
        }
    }
    // and where in the line
    let src = |f: &str, n: usize| s.files.get(f).and_then(|t| t.lines().nth(n.wrapping_sub(1))).unwrap_or_default();
    if let (Some((f, line, col)), false) = (place(&obs.diag), sc.snip.is_empty() || spanless(inner)) {
        let l = src(&f, line);
        // (the snippet may be written in several lines, or more than once)
        let spots: Vec<(usize, usize)> = l
            .match_indices(&sc.snip)
            .map(|(i, _)| l[..i].chars().count() + 1)
            .map(|c| (c, c + sc.snip.chars().count()))
            .collect();
        let under = obs.diag.lines().filter(|l| l.trim_start().starts_with('|') && l.contains('^')).map(|l| l.matches('^').count()).next().unwrap_or(0);
        if !spots.is_empty() {
            rep.probe("the column was checked, too");
            if !spots.iter().any(|(a, b)| *a <= col && col + under.max(1) <= *b) {
                return rep.violate("wrong-column", format!("{} is at {spots:?} in the line\n{}", sc.kind, obs.diag));
            }
            // and the offending word itself
            let word = word(&sc.kind);
            let hit = |w: usize| w < col + under.max(1) && col < w + word.chars().count();
            if !word.is_empty() && !l.match_indices(word).any(|(i, _)| hit(l[..i].chars().count() + 1)) {
                return rep.violate("wrong-column", format!("{} is not with the {word:?} of the line\n{}", sc.kind, obs.diag));
            }
        }
    }
    // the source shown is the source there is
    for (f, n, text) in &shown {
        let real = s.files.get(f).and_then(|t| t.lines().nth(n - 1)).unwrap_or_default();
        // (before the source there may be lines that lead to a label)
        let (text, real) = (text.trim_end(), real.trim());
        if !text.ends_with(&real.replace('\t', "    ")) && !text.ends_with(&real.replace('\t', " ")) {
            return rep.violate("wrong-source", format!("line {n} of {f} is not {text:?} but {real:?}\n{}", obs.diag));
        }
    }
    // the chain of references
    let mirror = Mirror::new(&loads);
    let mut chain: Vec<(String, usize)> = vec![];
    for sp in &spans {
        match mirror.place(*sp) {
            Some(p) => chain.push((p.file, p.line)),
            None => return rep.violate("wrong-chain", format!("a reference lies outside of all files\n{}", obs.diag)),
        }
    }
    let shows = |f: &str, l: usize| shown.iter().any(|(sf, sl, _)| sf == f && *sl == l);
    for (f, l) in &chain {
        if !shows(f, *l) {
            // our idea of how positions are assigned may be off; then go by what is shown alone
            chain_ok = false;
        }
    }
    let allowed: BTreeSet<&str> = chain.iter().map(|c| c.0.as_str()).chain([sc.file.as_str()]).collect();
    // (an override of nothing has to do with the file that lacks the definition, too)
    let lacks = |f: &str| sc.expect == "OverrideMissingFromInclude" && s.links.iter().any(|l| l.from == sc.file && l.to == *f);
    for (f, n, _) in &shown {
        if !lacks(f) && *f != sc.also_file && !allowed.contains(f.as_str()) && chain_ok {
            return rep.violate("blames-others", format!("{f}:{n} has nothing to do with {} in {}\n{}", sc.kind, sc.file, obs.diag));
        }
    }
    // a second place that the error has to do with is the right one, too
    if sc.expect == "OverrideMissingFromInclude" && name == sc.expect && !shown.iter().any(|(f, ..)| lacks(f)) {
        return rep.violate("wrong-second-place", format!("the file that lacks the definition is not shown\n{}", obs.diag));
    }
    let also_file = if sc.also_file.is_empty() { &sc.file } else { &sc.also_file };
    if !sc.also.is_empty() && name == sc.expect && !sc.also.iter().any(|l| shows(also_file, *l)) {
        return rep.violate("wrong-second-place", format!("the first definition is at {also_file}:{:?}\n{}", sc.also, obs.diag));
    }
    for (f, n, _) in &shown {
        let reference = s.links.iter().any(|l| l.from == *f && l.line == *n);
        // (a span of several lines)
        let within = obs.diag.contains("|_") && sc.lines.iter().any(|l| n > l);
        if !within && *f == sc.file && sc.expect != "Io" && !reference && !sc.lines.contains(n) && !sc.also.contains(n) {
            return rep.violate("blames-others", format!("{f}:{n} has nothing to do with {} at {:?}\n{}", sc.kind, sc.lines, obs.diag));
        }
    }
    if chain_ok {
        // an error in what an include overrides may show that include as well
        let mut short: Vec<(String, usize)> = vec![];
        for (i, (f, l)) in chain.iter().enumerate() {
            let next = chain.get(i + 1).map(|c| &c.0).unwrap_or(&sc.file);
            let include = s.links.iter().any(|k| k.from == *f && k.line == *l && k.include);
            if !(include && next == f) {
                short.push((f.clone(), *l));
            }
        }
        if !is_path(&s.links, &s.root, &sc.file, &chain) && !is_path(&s.links, &s.root, &sc.file, &short) {
            return rep.violate("wrong-chain", format!("{} in {} is reported by way of {chain:?}, which is not how {} refers to it\n{}", sc.kind, sc.file, s.root, obs.diag));
        }
    }
    // what is shown leads from the root to the file, whatever else it is
    let mut at: BTreeSet<&str> = [s.root.as_str()].into();
    let mut todo = vec![s.root.as_str()];
    while let Some(f) = todo.pop() {
        for l in s.links.iter().filter(|l| l.from == f && shows(&l.from, l.line)) {
            if at.insert(&l.to) {
                todo.push(&l.to);
            }
        }
    }
    if !at.contains(sc.file.as_str()) {
        return rep.violate("no-chain", format!("the references on the way to {} are not all shown\n{}", sc.file, obs.diag));
    }
    match chain.len() {
        0 => rep.probe("in the root"),
        1 => rep.probe("one level down"),
        2 => rep.probe("two levels down"),
        _ => rep.probe("three or more levels down"),
    }
}

/// file, line and column of the primary position
fn place(diag: &str) -> Option<(String, usize, usize)> {
    let l = diag.lines().find_map(|l| l.trim_start().strip_prefix("--> "))?;
    let mut it = l.rsplitn(3, ':');
    let col = it.next()?.parse().ok()?;
    let line = it.next()?.parse().ok()?;
    Some((norm(it.next()?), line, col))
}

/// errors that carry no position within the text
fn spanless(e: &RelaxError) -> bool {
    matches!(e, RelaxError::StartRuleNotDefined { .. })
}
