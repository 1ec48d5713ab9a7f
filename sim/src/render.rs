//! Writes a `Project` as the text of its files, in either schema syntax, keeping track of the line
//! on which every reference to another file stands.
use crate::gram::*;
use crate::util::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Link {
    pub from: String,
    pub line: usize,
    pub to: String,
    pub include: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Rendered {
    pub root: String,
    pub rng_syntax: bool,
    pub files: BTreeMap<String, String>,
    pub links: Vec<Link>,
}

pub fn render(p: &Project, r: &mut Rng) -> Rendered {
    let mut out = Rendered {
        root: p.files[0].path.clone(),
        rng_syntax: p.rng_syntax,
        ..Default::default()
    };
    // definitions that are called like keywords
    let mut alias: BTreeMap<String, &'static str> = BTreeMap::new();
    if r.chance(1, 5) {
        let all = format!("{:?}", p.files.iter().map(|f| &f.body).collect::<Vec<_>>());
        let mut names: Vec<String> = all.match_indices("Def(\"").filter_map(|(i, m)| Some(all[i + m.len()..].split_once('"')?.0.to_string())).filter(|n| n != "start" && !n.starts_with("zz")).collect();
        names.sort();
        names.dedup();
        let mut words = ["attribute", "datatypes", "default", "div", "element", "empty", "external", "grammar", "include", "inherit", "list", "mixed", "namespace", "notAllowed", "parent", "string", "text", "token"];
        r.shuffle(&mut words);
        r.shuffle(&mut names);
        let n = r.range(1, 6);
        alias = names.into_iter().zip(words).take(n).collect();
    }
    for i in 0..p.files.len() {
        let mut w = W { alias: &alias, p, file: i, s: String::new(), line: 1, links: vec![], r: r.fork("file"), ind: 0, bases: false, base: vec![], rich: false, own: vec![], prefixed: false };
        w.rich = w.r.chance(1, 3);
        w.prefixed = w.rich && w.r.chance(1, 3);
        if p.rng_syntax {
            w.rng_file();
        } else {
            w.rnc_file();
        }
        let (mut s, links) = (w.s, w.links);
        if w.rich && w.r.chance(1, 10) {
            s.insert(0, '\u{feff}');
        }
        out.files.insert(p.files[i].path.clone(), s);
        out.links.extend(links);
    }
    out
}

/// a path from the directory of one file to another
pub fn spell(from: &str, to: &str, style: u8) -> String {
    if style == 3 {
        return to.to_string();
    }
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let f = &f[..f.len() - 1];
    let mut k = 0;
    while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    if style == 2 && k > 3 {
        // go up one directory more than needed, and down again
        k -= 1;
    }
    let mut v: Vec<&str> = vec![".."; f.len() - k];
    v.extend(&t[k..]);
    let rel = v.join("/");
    match style {
        1 => format!("./{rel}"),
        4 => rel.replacen('/', "/./", 1),
        5 => rel.replacen('/', "//", 1),
        _ => rel,
    }
}

struct W<'a> {
    p: &'a Project,
    file: usize,
    s: String,
    line: usize,
    links: Vec<Link>,
    r: Rng,
    ind: usize,
    /// whether references are relative to an xml:base here and there
    bases: bool,
    /// those in force, resolved
    base: Vec<String>,
    /// annotations, and rarer ways to write things
    rich: bool,
    /// prefixes that the compact file declares
    own: Vec<&'static str>,
    alias: &'a BTreeMap<String, &'static str>,
    /// RELAX NG's own elements have a prefix
    prefixed: bool,
}

impl W<'_> {
    fn put(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
    }
    fn nl(&mut self) {
        let n = self.ind.min(12);
        self.put("\n");
        let pad = "  ".repeat(n);
        self.put(&pad);
    }
    fn link(&mut self, to: usize, style: u8, include: bool) -> String {
        let from = self.p.files[self.file].path.clone();
        let to = self.p.files[to].path.clone();
        let s = spell(self.base.last().unwrap_or(&from), &to, style);
        self.links.push(Link { from, line: self.line, to, include });
        s
    }
    /// the attribute of an element that gets a base (which the caller ends)
    fn based(&mut self, one_in: usize) -> (String, usize) {
        let n = self.base.len();
        if !self.bases || !self.r.chance(1, one_in) {
            return (String::new(), n);
        }
        let from = self.base.last().unwrap_or(&self.p.files[self.file].path).clone();
        // what stands for the directory of another file
        let other = self.r.pick(&self.p.files).path.clone();
        let dir = &other[..other.rfind('/').unwrap()];
        let last = *self.r.pick(&["x", "base.rng", "main.rng", "é"]);
        let to = format!("{dir}/{last}");
        let style = self.r.below(6) as u8;
        let mut s = spell(&from, &to, style);
        if self.r.chance(1, 2) {
            s.truncate(s.len() - last.len());
            if s.is_empty() {
                s.push_str("./");
            }
            match self.r.below(4) {
                0 if s.ends_with("./") => drop(s.pop()),
                1 => s.push('.'),
                _ => {}
            }
        }
        self.base.push(to);
        (format!(" xml:base=\"{}\"", esc(&s)), n)
    }

    // -------------------------------------------------------------------------------- compact

    /// an annotation before something
    fn before(&mut self) {
        if self.rich && self.r.chance(1, 6) {
            let s = *self.r.pick(&[
                "[ p1:doc = \"x\" ] ", "[p1:doc=\"größer\"]", "[ a = 'é' b = \"\" ] ", "[ p1:doc [ \"text\" ] ] ", "[] ", "[ p2:e [ ] ]\n", "[\n# note\n a = \"start = x\"\n]\n",
                "[ x = \"1\" p2:e [ y = \"2\" \"lit\" ~ 'more' p1:f [ \"}\" ] ] ] ", "[ text = \"empty\" element [ attribute = \"x\" ] ] ", "## doc\n", "[ a = \"\"\"two\nlines\"\"\" ] ",
            ]);
            self.put(s);
        }
    }
    /// an annotation after something
    fn after(&mut self) {
        if self.rich && self.r.chance(1, 8) {
            let s = *self.r.pick(&[" >> p1:doc [ \"x\" ]", " >> a []", "\n>> p1:doc [ \"größer\" ]\n>> p2:e [ a = \"b\" ]", " >> list [ p1:text [ \"{ [\" ] ] # note\n", ">>a[]"]);
            self.put(s);
        }
    }
    /// a literal
    fn quote(&mut self, t: &str) -> String {
        if !self.rich || t.contains(['"', '\'']) {
            return format!("\"{t}\"");
        }
        let one = |r: &mut Rng, t: &str| {
            let q = *r.pick(&["\"", "'", "\"\"\"", "\'\'\'"]);
            format!("{q}{t}{q}")
        };
        if self.r.chance(1, 3) {
            let mut at = self.r.below(t.len() + 1);
            while !t.is_char_boundary(at) {
                at -= 1;
            }
            let (a, b) = (one(&mut self.r, &t[..at]), one(&mut self.r, &t[at..]));
            let tilde = *self.r.pick(&["~", " ~ ", " ~", "\t~  "]);
            return format!("{a}{tilde}{b}");
        }
        one(&mut self.r, t)
    }
    /// the namespace for the other file, which makes no use of it
    fn inherit(&mut self) {
        if self.rich && self.r.chance(1, 5) {
            let k = *self.r.pick(&self.own);
            let eq = *self.r.pick(&["=", " = ", "\n=\t", " =# note\n"]);
            let s = format!(" inherit{eq}{k}");
            self.put(&s);
        }
    }
    fn comment(&mut self) -> String {
        let s = *self.r.pick(&[
            "# schéma – part of a test", "# größer 大", "# the end", "#", "#é", "#大", "##", "## doc", "##é", "#𐐀#", "###", "# ", "#\t", "#!", "#\"open", "# { ( [", "# } ) ]",
            "#start = empty", "# include \"none.rnc\"", "#\\x{41}", "# \u{a0}", "#\u{feff}", "# a # b", "#\\", "# >> x [ ]",
        ]);
        s.to_string()
    }
    fn rnc_file(&mut self) {
        if self.r.chance(1, 2) {
            let c = self.comment();
            self.put(&format!("{c}\n"));
        }
        for i in 1..NS.len() {
            self.put(&format!("namespace p{i} = \"{}\"\n", NS[i]));
        }
        self.own = vec!["p1", "p2"];
        if self.rich && self.r.chance(1, 3) {
            // prefixes for its own use, some of them keywords
            for k in ["text", "list", "inherit", "start", "own", "é", "token", "div", "external"] {
                if self.r.chance(1, 4) {
                    self.put(&format!("namespace {k} = \"urn:{k}\"\n"));
                    self.own.push(k);
                }
            }
        }
        if self.r.chance(1, 3) {
            self.put("datatypes d = \"http://www.w3.org/2001/XMLSchema-datatypes\"\n");
        }
        match &self.p.files[self.file].body {
            Body::Grammar(items) => {
                if self.r.chance(1, 5) || items.is_empty() {
                    self.put("grammar {");
                    self.rnc_items(items);
                    self.put("\n}\n");
                } else {
                    self.rnc_items(items);
                    self.put("\n");
                }
            }
            Body::Pattern(p) => {
                self.rnc(p);
                self.put("\n");
            }
        }
        if self.r.chance(1, 4) {
            let c = self.comment();
            self.put(&c);
        }
    }
    fn rnc_items(&mut self, items: &[Item]) {
        self.ind += 1;
        for it in items {
            self.nl();
            if self.r.chance(1, 8) {
                let c = self.comment();
                self.put(&c);
                self.nl();
            }
            if self.rich && self.r.chance(1, 8) {
                let s = *self.r.pick(&["p1:doc [ \"x\" ]", "p1:doc [ a = 'é' p2:e [ \"start = x\" ] \"y\" ]", "doc []", "lists [ element [ ] ]"]);
                self.put(s);
                self.nl();
            }
            match it {
                Item::Def(n, op, p) => {
                    let op = match op {
                        Op::Assign => "=",
                        Op::Choice => "|=",
                        Op::Inter => "&=",
                    };
                    let n = self.called(n);
                    self.put(&format!("{n} {op} "));
                    self.rnc(p);
                }
                Item::Inc(f, st, over) => {
                    let s = self.link(*f, *st, true);
                    let s = self.quote(&s);
                    self.put(&format!("include {s}"));
                    self.inherit();
                    if !over.is_empty() {
                        self.put(" {");
                        self.rnc_items(over);
                        self.nl();
                        self.put("}");
                    }
                }
                Item::Div(v) => {
                    self.put("div {");
                    self.rnc_items(v);
                    self.nl();
                    self.put("}");
                }
                Item::Raw(t) => self.put(t),
            }
        }
        self.ind -= 1;
    }
    fn rnc_name(n: &NameC) -> String {
        let one = |ns: usize, s: &str| if ns == 0 { s.to_string() } else { format!("p{ns}:{s}") };
        match n {
            NameC::Named(ns, s) => one(*ns, s),
            NameC::Any => format!("* - {ALIEN}"),
            NameC::NsAny(ns) => format!("p{ns}:*"),
            NameC::Alt(ns, v) => {
                let v: Vec<String> = v.iter().map(|s| one(*ns, s)).collect();
                format!("({})", v.join(" | "))
            }
        }
    }
    fn rnc_list(&mut self, v: &[Pat], sep: &str) {
        if v.is_empty() {
            self.put("empty");
            return;
        }
        self.put("(");
        self.ind += 1;
        for (i, p) in v.iter().enumerate() {
            if i > 0 {
                self.put(sep);
                self.nl();
            }
            self.rnc(p);
        }
        self.ind -= 1;
        self.put(")");
    }
    fn rnc_post(&mut self, p: &Pat, post: &str) {
        self.put("(");
        self.rnc(p);
        self.put(")");
        self.put(post);
    }
    fn rnc_braced(&mut self, head: &str, p: &Pat) {
        self.put(head);
        self.put(" { ");
        self.ind += 1;
        self.rnc(p);
        self.ind -= 1;
        self.put(" }");
    }
    fn rnc_named(&mut self, tag: &str, n: &NameC, b: &Pat) {
        self.put(tag);
        self.put(" ");
        self.before();
        self.put(&Self::rnc_name(n));
        self.after();
        self.rnc_braced("", b);
    }
    fn rnc(&mut self, p: &Pat) {
        if matches!(p, Pat::Raw(_)) {
            return self.rnc_bare(p);
        }
        self.before();
        self.rnc_bare(p);
        if !matches!(p, Pat::Opt(_) | Pat::Star(_) | Pat::Plus(_)) {
            self.after();
        }
    }
    fn rnc_bare(&mut self, p: &Pat) {
        match p {
            Pat::Empty => self.put("empty"),
            Pat::Text => self.put("text"),
            Pat::NotAllowed => self.put("notAllowed"),
            Pat::Elem(n, b) => self.rnc_named("element", n, b),
            Pat::Attr(n, b) => self.rnc_named("attribute", n, b),
            Pat::Group(v) => self.rnc_list(v, " ,"),
            Pat::Choice(v) => self.rnc_list(v, " |"),
            Pat::Inter(v) => self.rnc_list(v, " &"),
            Pat::Opt(p) => self.rnc_post(p, "?"),
            Pat::Star(p) => self.rnc_post(p, "*"),
            Pat::Plus(p) => self.rnc_post(p, "+"),
            Pat::Mixed(p) => self.rnc_braced("mixed", p),
            Pat::Ref(n) => {
                let n = self.called(n);
                self.put(&n)
            }
            Pat::Parent(n) => {
                let n = self.called(n);
                self.put(&format!("parent {n}"))
            }
            Pat::Data(d) => {
                let t = match d {
                    Data::Token => "token",
                    Data::Str => "string",
                    Data::Int => "xsd:int",
                    Data::Short => "xsd:short",
                    Data::Long => "xsd:long",
                    Data::Integer => "xsd:integer",
                    Data::UInt => "xsd:unsignedInt",
                    Data::Decimal => "xsd:decimal",
                    Data::Bool => "xsd:boolean",
                    Data::Date => "xsd:date",
                    Data::NcName => "xsd:NCName",
                    Data::StrLen => "xsd:string { maxLength = \"5\" minLength = \"2\" }",
                    Data::StrPat => "xsd:string { pattern = \"k[0-9][0-9]\" }",
                    Data::IntRange => "xsd:int { minInclusive = \"5\" maxInclusive = \"10\" }",
                };
                self.put(t);
            }
            Pat::Value(v) => {
                let v = self.quote(v);
                if self.rich && self.r.chance(1, 3) {
                    self.put("token ");
                }
                self.put(&v)
            }
            Pat::List(p) => self.rnc_braced("list", p),
            Pat::Ext(f, st) => {
                self.nl();
                let s = self.link(*f, *st, false);
                let s = self.quote(&s);
                self.put(&format!("external {s}"));
                self.inherit();
                self.nl();
            }
            Pat::Gram(items) => {
                self.put("grammar {");
                self.rnc_items(items);
                self.nl();
                self.put("}");
            }
            Pat::Raw(t) => self.put(t),
        }
    }

    // ------------------------------------------------------------------------------------ XML

    fn rng_file(&mut self) {
        if self.r.chance(1, 2) {
            self.put("<?xml version=\"1.0\"?>\n");
        }
        if self.r.chance(1, 2) {
            self.put("<!-- schéma – part of a test -->\n");
        }
        self.bases = self.r.chance(1, 4);
        let (base, _) = self.based(3);
        let mut decl = " xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"".to_string();
        if self.rich {
            decl.push_str(" xmlns:a=\"urn:annotations\" a:doc=\"x\"");
            for i in 1..NS.len() {
                decl.push_str(&format!(" xmlns:p{i}=\"{}\"", esc(NS[i])));
            }
        }
        match &self.p.files[self.file].body {
            Body::Grammar(items) => {
                self.put(&format!("<grammar{decl}{base}>"));
                self.rng_items(items);
                self.put("\n</grammar>\n");
            }
            Body::Pattern(p) => {
                // wrap, so that the declarations have a place
                self.put(&format!("<group{decl}{base}>"));
                self.ind += 1;
                self.rng(p);
                self.ind -= 1;
                self.put("\n</group>\n");
            }
        }
        if self.prefixed {
            let prefix = *self.r.pick(&["rng", "rng", "r", "abcdé", "abcdefé", "abcdefghé", "große-schemas"]);
            self.s = with_prefix(&self.s, prefix);
        }
    }
    /// something that means nothing, between two elements
    fn aside(&mut self) {
        if self.rich && self.r.chance(1, 8) {
            self.nl();
            let s = *self.r.pick(&[
                "<a:doc>größer</a:doc>", "<!-- é -->", "<?x y?>", "<a:doc/>", "<a:grammar><define name=\"x\"/><a:b>two\nlines</a:b></a:grammar>", "<x xmlns=\"urn:y\"><start/></x>", "<!--\n<start>\n-->",
                "<a:doc a:name=\"x\" name=\"y\">&lt;<![CDATA[</grammar>]]></a:doc>",
            ]);
            if !(self.prefixed && s.contains(" xmlns=")) {
                self.put(s);
            }
        }
    }
    /// attributes that mean nothing
    fn noted(&mut self) -> &'static str {
        if self.rich && self.r.chance(1, 8) { self.r.pick(&[" a:doc=\"größer\"", " a:name='x'", " a:href=\"none.rng\"\n   a:combine=\"choice\"", " xml:lang=\"en\"", " xmlns:b=\"urn:b\" b:ns=\"urn:c\""]) } else { "" }
    }
    /// a definition's name as it is written here
    fn called(&self, n: &str) -> String {
        match self.alias.get(n) {
            Some(k) if self.p.rng_syntax => k.to_string(),
            Some(k) => format!("\\{k}"),
            None => n.to_string(),
        }
    }
    /// a name in an attribute
    fn spaced(&mut self, n: &str) -> String {
        if self.rich && self.r.chance(1, 6) { format!(" {n} ") } else { n.to_string() }
    }
    fn rng_items(&mut self, items: &[Item]) {
        self.ind += 1;
        for it in items {
            self.aside();
            self.nl();
            match it {
                Item::Def(n, op, p) => {
                    let op = match op {
                        Op::Assign => "",
                        Op::Choice => " combine=\"choice\"",
                        Op::Inter => " combine=\"interleave\"",
                    };
                    let (base, old) = self.based(8);
                    let note = self.noted();
                    let end = if n == "start" {
                        self.put(&format!("<start{op}{base}{note}>"));
                        "</start>"
                    } else {
                        let n = self.spaced(&self.called(n));
                        self.put(&format!("<define name=\"{n}\"{base}{op}{note}>"));
                        "</define>"
                    };
                    self.ind += 1;
                    // (what a start has is one pattern)
                    if n == "start" { self.rng(p) } else { self.rng_body(p) }
                    self.ind -= 1;
                    self.nl();
                    self.put(end);
                    self.base.truncate(old);
                }
                Item::Inc(f, st, over) => {
                    let (base, old) = self.based(5);
                    let s = self.link(*f, *st, true);
                    if over.is_empty() {
                        self.put(&format!("<include{base} href=\"{}\"/>", esc(&s)));
                    } else {
                        self.put(&format!("<include href=\"{}\"{base}>", esc(&s)));
                        self.rng_items(over);
                        self.nl();
                        self.put("</include>");
                    }
                    self.base.truncate(old);
                }
                Item::Div(v) => {
                    let (base, old) = self.based(5);
                    self.put(&format!("<div{base}>"));
                    self.rng_items(v);
                    self.nl();
                    self.put("</div>");
                    self.base.truncate(old);
                }
                Item::Raw(t) => self.put(t),
            }
        }
        self.ind -= 1;
    }
    /// what may be several patterns, for a group
    fn rng_body(&mut self, p: &Pat) {
        match p {
            Pat::Group(v) if self.rich && v.len() > 1 => {
                for p in v {
                    self.rng(p);
                }
            }
            p => self.rng(p),
        }
    }
    fn rng_el(&mut self, tag: &str, v: &[Pat]) {
        self.nl();
        let (base, old) = self.based(10);
        let note = self.noted();
        self.put(&format!("<{tag}{base}{note}>"));
        self.ind += 1;
        if let ([p], "optional" | "zeroOrMore" | "oneOrMore" | "mixed" | "list") = (v, tag) {
            self.rng_body(p);
        } else {
            for p in v {
                self.rng(p);
            }
        }
        self.aside();
        self.ind -= 1;
        self.nl();
        self.put(&format!("</{tag}>"));
        self.base.truncate(old);
    }
    fn rng_named(&mut self, tag: &str, n: &NameC, b: &Pat) {
        self.nl();
        self.ind += 1;
        match n {
            NameC::Named(ns, s) => {
                let note = self.noted();
                let t = self.spaced(s);
                match if self.rich { self.r.below(5) } else { 0 } {
                    4 if *ns > 0 => {
                        let t = self.spaced(&format!("p{ns}:{s}"));
                        self.put(&format!("<{tag}{note}><name>{t}</name>"))
                    }
                    1 if *ns > 0 => self.put(&format!("<{tag}{note} name=\"p{ns}:{s}\">")),
                    2 => self.put(&format!("<{tag}{note} ns=\"{}\"><name>{t}</name>", esc(NS[*ns]))),
                    3 => self.put(&format!("<{tag}{note}><name ns=\"{}\">{t}</name>", esc(NS[*ns]))),
                    _ => self.put(&format!("<{tag} name=\"{t}\" ns=\"{}\"{note}>", esc(NS[*ns]))),
                }
            }
            NameC::Any => {
                self.put(&format!("<{tag}><anyName><except><name ns=\"\">{ALIEN}</name></except></anyName>"));
            }
            NameC::NsAny(ns) => {
                self.put(&format!("<{tag}><nsName ns=\"{}\"/>", esc(NS[*ns])));
            }
            NameC::Alt(ns, v) => {
                self.put(&format!("<{tag}><choice>"));
                for s in v {
                    if self.rich && *ns > 0 && self.r.chance(1, 2) {
                        let t = self.spaced(&format!("p{ns}:{s}"));
                        self.put(&format!("<name>{t}</name>"));
                    } else {
                        self.put(&format!("<name ns=\"{}\">{s}</name>", esc(NS[*ns])));
                    }
                }
                self.put("</choice>");
            }
        }
        self.aside();
        if tag == "element" {
            self.rng_body(b);
        } else if !(self.rich && matches!(b, Pat::Text) && self.r.chance(1, 2)) {
            self.rng(b);
        }
        self.aside();
        self.ind -= 1;
        self.nl();
        self.put(&format!("</{tag}>"));
    }
    fn rng(&mut self, p: &Pat) {
        match p {
            Pat::Empty => {
                self.nl();
                self.put("<empty/>")
            }
            Pat::Text => {
                self.nl();
                self.put("<text/>")
            }
            Pat::NotAllowed => {
                self.nl();
                self.put("<notAllowed/>")
            }
            Pat::Elem(n, b) => self.rng_named("element", n, b),
            Pat::Attr(n, b) => self.rng_named("attribute", n, b),
            Pat::Group(v) => self.rng_el("group", v),
            Pat::Choice(v) => self.rng_el("choice", v),
            Pat::Inter(v) => self.rng_el("interleave", v),
            Pat::Opt(p) => self.rng_el("optional", std::slice::from_ref(&**p)),
            Pat::Star(p) => self.rng_el("zeroOrMore", std::slice::from_ref(&**p)),
            Pat::Plus(p) => self.rng_el("oneOrMore", std::slice::from_ref(&**p)),
            Pat::Mixed(p) => self.rng_el("mixed", std::slice::from_ref(&**p)),
            Pat::List(p) => self.rng_el("list", std::slice::from_ref(&**p)),
            Pat::Ref(n) => {
                self.nl();
                let n = self.called(n);
                let (n, note) = (self.spaced(&n), self.noted());
                self.put(&format!("<ref{note} name=\"{n}\"/>"))
            }
            Pat::Parent(n) => {
                self.nl();
                let n = self.called(n);
                self.put(&format!("<parentRef name=\"{n}\"/>"))
            }
            Pat::Data(d) => {
                self.nl();
                let par = |n: &str, v: &str| format!("<param name=\"{n}\">{v}</param>");
                let (t, ps) = match d {
                    Data::Token => ("!token", String::new()),
                    Data::Str => ("!string", String::new()),
                    Data::Int => ("int", String::new()),
                    Data::Short => ("short", String::new()),
                    Data::Long => ("long", String::new()),
                    Data::Integer => ("integer", String::new()),
                    Data::UInt => ("unsignedInt", String::new()),
                    Data::Decimal => ("decimal", String::new()),
                    Data::Bool => ("boolean", String::new()),
                    Data::Date => ("date", String::new()),
                    Data::NcName => ("NCName", String::new()),
                    Data::StrLen => ("string", par("maxLength", "5") + &par("minLength", "2")),
                    Data::StrPat => ("string", par("pattern", "k[0-9][0-9]")),
                    Data::IntRange => ("int", par("minInclusive", "5") + &par("maxInclusive", "10")),
                };
                let (t, lib) = match t.strip_prefix('!') {
                    Some(t) => (t, " datatypeLibrary=\"\""),
                    None => (t, ""),
                };
                if ps.is_empty() {
                    self.put(&format!("<data type=\"{t}\"{lib}/>"));
                } else {
                    self.put(&format!("<data type=\"{t}\"{lib}>{ps}</data>"));
                }
            }
            Pat::Value(v) => {
                self.nl();
                let v = if self.rich && self.r.chance(1, 4) && !v.contains("]]>") { format!("<![CDATA[{v}]]>") } else { esc(v) };
                let t = if self.rich && self.r.chance(1, 2) { "" } else { " type=\"token\" datatypeLibrary=\"\"" };
                self.put(&format!("<value{t}>{v}</value>"))
            }
            Pat::Ext(f, st) => {
                self.nl();
                let (base, old) = self.based(5);
                let s = self.link(*f, *st, false);
                self.put(&format!("<externalRef href=\"{}\"{base}/>", esc(&s)));
                self.base.truncate(old);
            }
            Pat::Gram(items) => {
                self.nl();
                let (base, old) = self.based(5);
                self.put(&format!("<grammar{base}>"));
                self.rng_items(items);
                self.nl();
                self.put("</grammar>");
                self.base.truncate(old);
            }
            Pat::Raw(t) => {
                self.nl();
                self.put(t)
            }
        }
    }
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('>', "&gt;")
}

// ------------------------------------------------------------------------------------------------
// documents

#[derive(Clone, Debug)]
pub struct Style {
    pub decl: bool,
    pub doctype: bool,
    pub spaces: bool,
    pub comments: bool,
    pub self_close: bool,
    /// namespaces are declared where they are needed, rather than on the root
    pub ns_local: bool,
    /// prefixes are declared again for other namespaces further in
    pub rebind: bool,
}
impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            decl: r.chance(1, 3),
            doctype: r.chance(1, 6),
            spaces: r.chance(2, 3),
            comments: r.chance(1, 3),
            self_close: r.chance(2, 3),
            ns_local: r.chance(1, 2),
            rebind: r.chance(1, 2),
        }
    }
}

pub fn doc(e: &El, st: &Style, r: &mut Rng) -> String {
    let mut s = String::new();
    if st.decl {
        s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    }
    if st.comments && r.chance(1, 2) {
        s.push_str("<!-- début -->\n");
    }
    if st.doctype {
        s.push_str(r.pick(&["<!DOCTYPE doc [ <!ENTITY ent \"entité\"> ]>\n", "<!DOCTYPE doc [<!ENTITY ent 'entit&#233;'><!ENTITY two\n\"a &ent; b&#x20;\" >\n]>\n"]));
    }
    el(e, st, r, &mut s, true, &mut vec![]);
    if r.chance(1, 2) {
        s.push('\n');
    }
    if st.comments && r.chance(1, 3) {
        s.push_str("<!-- fin --><?pi after?>");
    }
    s
}
pub fn esc_text(t: &str) -> String {
    t.replace('&', "&amp;").replace('<', "&lt;").replace("]]>", "]]&gt;")
}
pub fn esc_attr(t: &str) -> String {
    t.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\t', "&#9;").replace('\n', "&#10;")
}
pub const POOL: [&str; 6] = ["p", "q", "r", "ns.1", "é", "x-y"];
/// the namespace that a prefix stands for
pub fn bound(scope: &[(String, usize)], p: &str) -> Option<usize> {
    scope.iter().rev().find(|b| b.0 == p).map(|b| b.1)
}

/// The prefixes of one start tag
pub struct Tag<'a> {
    st: &'a Style,
    scope: &'a mut Vec<(String, usize)>,
    outer: usize,
    /// inherited prefixes that the tag makes use of, which it therefore cannot declare again
    pub used: Vec<String>,
}
impl Tag<'_> {
    fn own(&self, p: &str) -> bool {
        self.scope[self.outer..].iter().any(|b| b.0 == p)
    }
    fn name(&mut self, ns: usize, name: &str, r: &mut Rng) -> String {
        if ns == 0 {
            return name.to_string();
        }
        let mut fit: Vec<String> = self.scope.iter().filter(|b| b.1 == ns && bound(self.scope, &b.0) == Some(ns)).map(|b| b.0.clone()).collect();
        fit.sort();
        fit.dedup();
        if !fit.is_empty() && (!self.st.rebind || r.chance(5, 6)) {
            let p = r.pick(&fit).clone();
            if !self.own(&p) {
                self.used.push(p.clone());
            }
            return format!("{p}:{name}");
        }
        let p = self.fresh(ns, r);
        self.scope.push((p.clone(), ns));
        format!("{p}:{name}")
    }
    fn fresh(&self, ns: usize, r: &mut Rng) -> String {
        if !self.st.rebind {
            return format!("q{ns}");
        }
        for _ in 0..8 {
            let p = r.pick(&POOL).to_string();
            if !self.own(&p) && !self.used.contains(&p) {
                return p;
            }
        }
        (0..).map(|i| format!("x{i}")).find(|p| !self.own(p) && !self.used.contains(p)).unwrap()
    }
}

/// an element where the given prefixes are bound; `inherit` is told which of them are used
pub fn fragment(e: &El, st: &Style, r: &mut Rng, scope: &mut Vec<(String, usize)>, inherit: &mut Vec<String>) -> String {
    let n = scope.len();
    let mut s = String::new();
    el_in(e, st, r, &mut s, false, scope, &mut |t| {
        for p in &t.used {
            if t.scope.iter().rposition(|b| b.0 == *p).is_some_and(|i| i < n) {
                inherit.push(p.clone());
            }
        }
    });
    s
}
fn el(e: &El, st: &Style, r: &mut Rng, s: &mut String, root: bool, scope: &mut Vec<(String, usize)>) {
    el_in(e, st, r, s, root, scope, &mut |_| {})
}
#[allow(clippy::too_many_arguments)]
fn el_in(e: &El, st: &Style, r: &mut Rng, s: &mut String, root: bool, scope: &mut Vec<(String, usize)>, seen: &mut dyn FnMut(&Tag)) {
    let outer = scope.len();
    s.push('<');
    let mut tag = Tag { st, scope, outer, used: vec![] };
    if root && !st.ns_local {
        for i in 1..NS.len() {
            let p = tag.fresh(i, r);
            tag.scope.push((p, i));
        }
    }
    let name = tag.name(e.ns, &e.name, r);
    s.push_str(&name);
    let mut parts: Vec<String> = vec![];
    for a in &e.attrs {
        let n = tag.name(a.ns, &a.name, r);
        let v = esc_attr(&a.value);
        parts.push(if r.chance(1, 3) && !v.contains('\'') { format!(" {n}='{v}'") } else { format!(" {n}=\"{v}\"") });
    }
    if st.rebind && r.chance(1, 4) {
        // for nothing, or for what is inside
        let ns = r.range(1, NS.len() - 1);
        let p = tag.fresh(ns, r);
        tag.scope.push((p, ns));
    }
    seen(&tag);
    let mut decls: Vec<String> = scope[outer..].iter().map(|(p, i)| format!(" xmlns:{p}=\"{}\"", esc(NS[*i]))).collect();
    if r.chance(1, 3) {
        parts.extend(decls);
    } else if st.rebind && r.chance(1, 3) {
        parts.extend(decls);
        r.shuffle(&mut parts);
    } else {
        decls.extend(parts);
        parts = decls;
    }
    for p in parts {
        if st.spaces && r.chance(1, 6) {
            s.push_str("\n  ");
        }
        s.push_str(&p);
    }
    if e.kids.is_empty() && st.self_close && r.chance(2, 3) {
        s.push_str("/>");
        scope.truncate(outer);
        return;
    }
    s.push('>');
    let ws = st.spaces && !e.data && !e.text;
    for k in &e.kids {
        if ws && r.chance(1, 2) {
            s.push_str("\n ");
        }
        if st.comments && !e.data && r.chance(1, 8) {
            s.push_str("<!-- c é -->");
        }
        match k {
            Node::El(c) => el_in(c, st, r, s, false, scope, seen),
            Node::Tx(t) => s.push_str(&esc_text(t)),
        }
    }
    if ws && r.chance(1, 2) {
        s.push('\n');
    }
    s.push_str("</");
    s.push_str(&name);
    s.push('>');
    scope.truncate(outer);
}

/// The same XML, with this prefix for the elements that have none.
fn with_prefix(t: &str, prefix: &str) -> String {
    let mut s = String::new();
    let mut rest = t;
    while let Some(i) = rest.find('<') {
        s.push_str(&rest[..i]);
        rest = &rest[i..];
        let skip = [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>")].iter().find(|(a, _)| rest.starts_with(a)).map(|(_, b)| rest.find(b).map_or(rest.len(), |k| k + b.len()));
        if let Some(n) = skip {
            s.push_str(&rest[..n]);
            rest = &rest[n..];
            continue;
        }
        let n = if rest.starts_with("</") { 2 } else { 1 };
        s.push_str(&rest[..n]);
        rest = &rest[n..];
        let name = rest.split(|c: char| c.is_whitespace() || "/>".contains(c)).next().unwrap();
        if !name.is_empty() && !name.contains(':') {
            s.push_str(prefix);
            s.push(':');
        }
    }
    s.push_str(rest);
    s.replacen(" xmlns=\"http://relaxng", &format!(" xmlns:{prefix}=\"http://relaxng"), 1)
}
