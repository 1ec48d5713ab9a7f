//! Generates multi-file schemas as a small AST of our own, and documents that are valid (or
//! invalid) by construction.  Nothing in here uses the code under test.
use crate::util::Rng;
use std::collections::{HashMap, HashSet};

pub const NS: [&str; 4] = ["", "urn:x-one", "urn:名前空間の例/𝒩𝒮größe/второй/två空間名", "urn:x-three?a=1&b=2"];
/// name that no generated schema allows anywhere
pub const ALIEN: &str = "zzz";

#[derive(Clone, Debug, PartialEq)]
pub enum NameC {
    Named(usize, String),
    /// any name except ALIEN
    Any,
    /// any name in this namespace
    NsAny(usize),
    Alt(usize, Vec<String>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Data {
    Token,
    Str,
    Int,
    Short,
    Long,
    Integer,
    UInt,
    Decimal,
    Bool,
    Date,
    NcName,
    StrLen,
    StrPat,
    IntRange,
}
pub const DATA: [Data; 14] = [
    Data::Token,
    Data::Str,
    Data::Int,
    Data::Short,
    Data::Long,
    Data::Integer,
    Data::UInt,
    Data::Decimal,
    Data::Bool,
    Data::Date,
    Data::NcName,
    Data::StrLen,
    Data::StrPat,
    Data::IntRange,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Empty,
    Text,
    NotAllowed,
    Elem(NameC, Box<Pat>),
    Attr(NameC, Box<Pat>),
    Group(Vec<Pat>),
    Choice(Vec<Pat>),
    Inter(Vec<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Mixed(Box<Pat>),
    Ref(String),
    Parent(String),
    Data(Data),
    Value(String),
    List(Box<Pat>),
    /// a reference to another file; the number selects how its path is spelled
    Ext(usize, u8),
    Gram(Vec<Item>),
    /// literally this text (used to plant errors); stands for Empty
    Raw(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Assign,
    Choice,
    Inter,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Def(String, Op, Pat),
    Inc(usize, u8, Vec<Item>),
    Div(Vec<Item>),
    Raw(String),
}

#[derive(Clone, Debug)]
pub enum Body {
    Grammar(Vec<Item>),
    Pattern(Pat),
}

#[derive(Clone, Debug)]
pub struct File {
    pub path: String,
    pub body: Body,
}

#[derive(Clone, Debug)]
pub struct Project {
    pub rng_syntax: bool,
    /// the first file is the root
    pub files: Vec<File>,
    /// some pieces of text are about this long
    pub long: usize,
    /// documents are larger by this factor
    pub docs: usize,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub rng_syntax: bool,
    pub max_files: usize,
    pub include: bool,
    pub external: bool,
    pub nested: bool,
    pub share: bool,
    pub data: bool,
    pub inter: bool,
    pub namespaces: bool,
    pub anyname: bool,
    pub recursion: bool,
    pub odd_spelling: bool,
    pub size: usize,
    /// many more files: a long chain in front of the root, or many on one level
    pub scale: u8,
    /// one kind of thing is much larger or more frequent than usual
    pub big: Option<Big>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Big {
    Names,
    Attrs,
    Alts,
    Deep,
    Text,
    Defs,
    Docs,
    Paths,
}
const BIG: [Big; 8] = [Big::Names, Big::Attrs, Big::Alts, Big::Deep, Big::Text, Big::Defs, Big::Docs, Big::Paths];
impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            rng_syntax: r.chance(2, 5),
            max_files: r.range(1, 6),
            include: r.chance(4, 5),
            external: r.chance(3, 5),
            nested: r.chance(2, 5),
            share: r.chance(2, 3),
            data: r.chance(3, 4),
            inter: r.chance(2, 3),
            namespaces: r.chance(2, 3),
            anyname: r.chance(1, 4),
            recursion: r.chance(2, 3),
            odd_spelling: r.chance(1, 2),
            size: r.range(1, 4),
            scale: if r.chance(1, 16) { r.range(1, 3) as u8 } else { 0 },
            big: if r.chance(1, 10) { Some(*r.pick(&BIG)) } else { None },
        }
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    c: Cfg,
    files: Vec<File>,
    uniq: usize,
    /// files that may be referred to again with `external`
    shared_ext: Vec<usize>,
    /// self-contained files of definitions, with the name to start from
    shared_inc: Vec<(usize, String)>,
    dirs: Vec<String>,
    ext: &'static str,
}

#[derive(Clone, Default)]
struct Names {
    elems: Vec<String>,
    groups: Vec<String>,
    parent: Vec<String>,
}

/// where in a scope a pattern is generated: which names may be used unconditionally
#[derive(Clone, Copy)]
struct At {
    elem: usize,
    group: usize,
    required: bool,
    depth: usize,
}

pub fn generate(r: &mut Rng, c: &Cfg) -> Project {
    let ext = if c.rng_syntax { "rng" } else { "rnc" };
    let mut g = Gen {
        r,
        c: c.clone(),
        files: vec![],
        uniq: 0,
        shared_ext: vec![],
        shared_inc: vec![],
        dirs: vec!["/simfs/p".into()],
        ext,
    };
    for d in ["sub", "sub/deep", "other dir", "größe", "v1.2", "sub/x.d"] {
        if g.r.chance(2, 5) {
            g.dirs.push(format!("/simfs/p/{d}"));
        }
    }
    g.files.push(File {
        path: format!("/simfs/p/main.{ext}"),
        body: Body::Grammar(vec![]),
    });
    let items = g.scope(&[], 0);
    let items = g.distribute(items, true);
    g.files[0].body = Body::Grammar(items);
    if c.scale & 1 != 0 {
        g.chain();
    }
    if c.scale & 2 != 0 {
        g.wide();
    }
    let leaves = c.external && g.r.chance(1, 7);
    let long = if c.big == Some(Big::Text) { *g.r.pick(&[40, 300, 1100, 5000, 20000]) } else { 0 };
    let mut p = Project {
        rng_syntax: c.rng_syntax,
        files: g.files,
        long,
        docs: if c.big == Some(Big::Docs) { g.r.range(4, 40) } else { 1 },
    };
    if leaves {
        leaf_chain(&mut p, r, c.odd_spelling, false);
    }
    p
}

/// Definitions `zzmark0`... in file `x`, each of which refers to the next by way of all kinds of patterns,
/// and the last one to the first; with elements on the way (`through`) that's as it should be
pub fn knot(p: &mut Project, x: usize, r: &mut Rng, through: bool, wild: bool) -> bool {
    let rng = p.rng_syntax;
    let n = if r.chance(1, 20) { r.range(5, 30) } else { r.range(1, 4) };
    let link = r.below(n);
    let mut defs: Vec<Item> = vec![];
    for i in 0..n {
        let to = format!("zzmark{}", (i + 1) % n);
        let mut q = Pat::Ref(to.clone());
        let mut list = false;
        for _ in 0..r.below(4) {
            let side = match r.below(4) {
                0 => Pat::Empty,
                1 => Pat::Value("zz".into()),
                2 => Pat::Attr(NameC::Named(0, "zzside".into()), Box::new(Pat::Text)),
                _ => Pat::Text,
            };
            q = match r.below(if wild { 14 } else { 13 }) {
                0 | 1 => {
                    list = true;
                    Pat::List(Box::new(q))
                }
                2 => Pat::Opt(Box::new(q)),
                3 => Pat::Star(Box::new(q)),
                4 => Pat::Plus(Box::new(q)),
                5 => Pat::Mixed(Box::new(q)),
                6 => Pat::Group(vec![side, q]),
                7 => Pat::Group(vec![q, side]),
                8 => Pat::Choice(vec![q, side]),
                9 => Pat::Choice(vec![side, q]),
                10 => Pat::Inter(vec![q, side]),
                11 => Pat::Attr(NameC::Named(0, format!("zzattr{i}")), Box::new(q)),
                12 if matches!(q, Pat::Ref(_)) => Pat::Gram(vec![Item::Def("start".into(), Op::Assign, Pat::Parent(to.clone()))]),
                13 if rng => Pat::Raw(format!("<data type=\"string\"><except><ref name=\"{to}\"/></except></data>")),
                13 => Pat::Raw(format!("(string - ({to}))")),
                _ => q,
            };
        }
        let _ = list;
        if through && i == link {
            q = Pat::Opt(Box::new(Pat::Elem(NameC::Named(0, "zzelem".into()), Box::new(q))));
        }
        let name = format!("zzmark{i}");
        if r.chance(1, 5) {
            let op = if r.chance(1, 2) { Op::Choice } else { Op::Inter };
            defs.push(Item::Def(name.clone(), op, q));
            defs.push(Item::Def(name, op, Pat::Text));
        } else {
            defs.push(Item::Def(name, Op::Assign, q));
        }
    }
    r.shuffle(&mut defs);
    let Body::Grammar(items) = &mut p.files[x].body else { return false };
    for d in defs {
        let k = r.below(items.len() + 1);
        match items.get_mut(k) {
            Some(Item::Div(v)) if r.chance(1, 2) => v.push(d),
            _ => items.insert(k, d),
        }
    }
    let first = format!("zzmark{}", r.below(n));
    crate::props::c05::plant_pat(p, x, r, Pat::Ref(first))
}

/// An attribute whose value is described by files of their own, which refer to each other from within
/// lists, choices and grammars; back to a file on the way there, in the end, if there is to be a cycle
pub fn leaf_chain(p: &mut Project, r: &mut Rng, odd: bool, back: bool) {
    let from = r.below(p.files.len());
    let first = p.files.len();
    let len = if r.chance(1, 25) { *r.pick(&[9, 17, 33, 65, 101, 129, 150]) } else { r.range(1, 4) };
    let ext = if p.rng_syntax { "rng" } else { "rnc" };
    let mut style = || if odd { r.below(6) as u8 } else { 0 };
    let styles: Vec<u8> = (0..=len).map(|_| style()).collect();
    let attr = Pat::Attr(NameC::Named(0, format!("zzleaf{first}")), Box::new(Pat::Ext(first, styles[0])));
    if !crate::props::c05::plant_pat(p, from, r, attr) {
        return;
    }
    let (mut list, mut plus) = (false, 0);
    // which of the files are grammars that can be included, has to be known ahead
    let grammar: Vec<bool> = (0..len).map(|_| r.chance(1, 2)).collect();
    for i in 0..len {
        let next = if i + 1 < len {
            let e = Pat::Ext(first + i + 1, styles[i + 1]);
            let start = |q| Item::Def("start".into(), Op::Assign, q);
            match r.below(8) {
                0 if !list => {
                    list = true;
                    Pat::List(Box::new(match r.below(3) {
                        0 => Pat::Star(Box::new(e)),
                        1 => Pat::Group(vec![Pat::Value("zzv".into()), e]),
                        _ => e,
                    }))
                }
                1 => Pat::Choice(vec![Pat::Value("zzv".into()), e]),
                2 => Pat::Opt(Box::new(e)),
                3 => Pat::Gram(vec![start(e)]),
                4 if grammar[i + 1] => Pat::Gram(vec![Item::Inc(first + i + 1, styles[i + 1], vec![])]),
                // (not too many: the sequences of values get long, and the work per value grows with them)
                5 if list && plus < 5 => {
                    plus += 1;
                    Pat::Plus(Box::new(e))
                }
                _ => e,
            }
        } else {
            match back {
                true => {
                    // one that is certainly on the way here
                    let y = match r.below(4) {
                        0 => 0,
                        1 => from,
                        _ => first + r.below(len),
                    };
                    let e = Pat::Ext(y, styles[len]);
                    if r.chance(1, 2) { Pat::Choice(vec![Pat::Value("zzv".into()), e]) } else { e }
                }
                false if list || r.chance(1, 2) => Pat::Value("zzw".into()),
                false => Pat::Text,
            }
        };
        let body = if grammar[i] { Body::Grammar(vec![Item::Def("start".into(), Op::Assign, next)]) } else { Body::Pattern(next) };
        let dir = r.pick(&["/simfs/p", "/simfs/p/values", "/simfs/p/sub"]);
        p.files.push(File { path: format!("{dir}/zzleaf{}.{ext}", first + i), body });
    }
}

impl Gen<'_> {
    fn id(&mut self) -> usize {
        self.uniq += 1;
        self.uniq
    }
    fn new_file(&mut self) -> usize {
        let n = self.files.len();
        let stem = match self.r.below(4) {
            0 if self.r.chance(1, 3) => {
                let odd = *self.r.pick(&["{} x", "a%20{}", "{}%41", "%{}", "{}%", "{}+", "n@{}", "~{}", "({})", "{},", "{}=1", "!{}", "${}", "*{}", "{};", "[{}]", "..{}", "{}~", "a&{}", "{}:1", "CON{}", "\u{212b}{}"]);
                odd.replace("{}", &n.to_string())
            }
            0 => format!("f{n}"),
            1 => format!("mod-{n}"),
            2 => format!("é{n}"),
            _ => format!("x.y_{n}"),
        };
        let d = self.r.pick(&self.dirs).clone();
        let stem = if self.c.big == Some(Big::Paths) && self.r.chance(1, 2) { format!("{stem}{}", self.long_name(60)) } else { stem };
        let mut path = format!("{d}/{stem}.{}", self.ext);
        if self.r.chance(1, 10) {
            // it need not have the usual extension, or any
            path = format!("{d}/{stem}{}", self.r.pick(&["", "", ".inc", ".grammar", ".", ".xml", ".rn"]));
        }
        if self.r.chance(1, 4) {
            // much like the name of another file
            let old = self.r.pick(&self.files).path.clone();
            let (od, ob) = old.rsplit_once('/').unwrap();
            let new = match self.r.below(6) {
                0 => format!("{d}/{ob}"),
                // a whole tree of directories as it is elsewhere
                3 => format!("/simfs/p/{}/{}", self.r.pick(&["copy", "p", "v2"]), old.strip_prefix("/simfs/").unwrap_or(ob)),
                4 => {
                    let other = *self.r.pick(&["copy", "v2", "größe"]);
                    match old.strip_prefix("/simfs/p/") {
                        Some(rest) => format!("/simfs/p/{other}/{rest}"),
                        None => format!("{d}/{ob}"),
                    }
                }
                1 => format!("{od}/{}", ob.to_uppercase()),
                2 => format!("{od}/{}", ob.replace(['-', '_', '.'], "").replace("rn", ".rn")),
                _ => format!("{od}/x{ob}"),
            };
            if self.files.iter().all(|f| f.path != new) {
                path = new;
            }
        }
        self.files.push(File {
            path,
            body: Body::Grammar(vec![]),
        });
        n
    }
    /// the schema behind a long chain of files
    fn chain(&mut self) {
        let mut next = self.new_file();
        self.files[next].body = std::mem::replace(&mut self.files[0].body, Body::Grammar(vec![]));
        let len = self.r.range(3, 60);
        let one = self.r.below(4);
        for i in 0..len {
            let at = if i + 1 == len { 0 } else { self.new_file() };
            let style = self.style();
            let kind = if one < 3 && self.r.chance(7, 8) { one } else { self.r.below(3) };
            let start = |p| Item::Def("start".into(), Op::Assign, p);
            let item = match kind {
                0 => Item::Inc(next, style, vec![]),
                1 => start(Pat::Ext(next, style)),
                _ => start(Pat::Gram(vec![Item::Inc(next, style, vec![])])),
            };
            self.files[at].body = Body::Grammar(vec![item]);
            next = at;
        }
    }
    /// many files of definitions, which share a few patterns
    fn wide(&mut self) {
        let shared: Vec<usize> = (0..self.r.range(1, 3))
            .map(|_| {
                let f = self.new_file();
                let n = self.id();
                self.files[f].body = Body::Pattern(Pat::Elem(NameC::Named(0, format!("wide{n}")), Box::new(Pat::Text)));
                f
            })
            .collect();
        let mut incs = vec![];
        for _ in 0..self.r.range(8, 40) {
            let f = self.new_file();
            let n = self.id();
            let s = *self.r.pick(&shared);
            let style = self.style();
            let mut items = vec![Item::Def(format!("wide.{n}"), Op::Assign, Pat::Opt(Box::new(Pat::Ext(s, style))))];
            if self.r.chance(1, 4) {
                items = vec![Item::Div(items)];
            }
            self.files[f].body = Body::Grammar(items);
            let style = self.style();
            incs.push(Item::Inc(f, style, vec![]));
        }
        if let Body::Grammar(items) = &mut self.files[0].body {
            let back = self.r.chance(1, 2);
            for i in incs {
                let k = if back { items.len() } else { 0 };
                items.insert(k, i);
            }
        }
    }
    fn big(&mut self, b: Big) -> bool {
        self.c.big == Some(b) && self.r.chance(1, 3)
    }
    fn long_name(&mut self, max: usize) -> String {
        let part = *self.r.pick(&["x", "long-name.", "ä", "_of_something"]);
        let len = self.r.range(1, max);
        part.repeat(len / part.len() + 1)
    }
    fn room(&self) -> bool {
        self.files.len() < self.c.max_files
    }
    fn style(&mut self) -> u8 {
        if self.c.odd_spelling { self.r.below(6) as u8 } else { 0 }
    }
    fn xml_name(&mut self) -> String {
        let n = self.id();
        if self.big(Big::Names) {
            let max = *self.r.pick(&[20, 70, 300, 1100]);
            return format!("n{n}{}", self.long_name(max));
        }
        match self.r.below(6) {
            0 => format!("é{n}"),
            1 => format!("n.{n}"),
            2 => format!("名{n}"),
            3 => format!("a-{n}"),
            4 if self.r.chance(1, 3) => format!("{}{n}", self.r.pick(&["element", "list.", "text-", "string", "start_", "xml.", "X", "p1"])),
            _ => format!("n{n}"),
        }
    }
    /// what the name of a definition starts with: here and there, what is a word of the compact syntax
    fn stem(&mut self, usual: &'static str) -> &'static str {
        if self.r.chance(1, 8) {
            return self.r.pick(&[
                "strings", "token-", "text.", "element_", "start", "list", "emptyé", "string.", "tokené", "parent", "mixed-", "externals", "include.", "div", "grammar_", "notAllowed", "attribute", "default.", "namespace", "datatypes-",
                "inherit", "string", "token", "é", "名", "_", "A", "a--",
            ]);
        }
        usual
    }
    fn elem_name(&mut self) -> NameC {
        if self.c.anyname && self.r.chance(1, 8) {
            return match self.r.below(3) {
                0 => NameC::Any,
                1 => NameC::NsAny(self.r.range(1, NS.len() - 1)),
                _ => NameC::Alt(0, vec![self.xml_name(), self.xml_name()]),
            };
        }
        let ns = if self.c.namespaces && self.r.chance(1, 2) {
            self.r.below(NS.len())
        } else {
            0
        };
        NameC::Named(ns, self.xml_name())
    }

    /// the items of a grammar, all in one file so far
    fn scope(&mut self, parent: &[String], depth: usize) -> Vec<Item> {
        let mut ne = self.r.range(1, self.c.size + 1);
        let mut ng = self.r.below(self.c.size);
        if depth == 0 && self.c.big == Some(Big::Defs) {
            ne += self.r.below(20);
            ng += self.r.below(12);
        }
        let mut n = Names {
            parent: parent.to_vec(),
            ..Default::default()
        };
        for _ in 0..ne {
            let i = self.id();
            let more = if self.big(Big::Names) { self.long_name(120) } else { String::new() };
            let stem = self.stem("el.");
            n.elems.push(format!("{stem}{i}{more}"));
        }
        for _ in 0..ng {
            let i = self.id();
            let stem = self.stem("gr");
            n.groups.push(format!("{stem}{i}"));
        }
        let mut items = vec![Item::Def("start".into(), Op::Assign, {
            let mut alts = vec![Pat::Ref(n.elems[0].clone())];
            if ne > 1 && self.r.chance(1, 4) {
                alts.push(Pat::Ref(n.elems[1].clone()));
            }
            if alts.len() > 1 { Pat::Choice(alts) } else { alts.remove(0) }
        })];
        for i in 0..ne {
            let name = self.elem_name();
            let at = At { elem: i, group: 0, required: true, depth };
            let body = self.elem_body(&n, at);
            items.push(Item::Def(n.elems[i].clone(), Op::Assign, Pat::Elem(name, Box::new(body))));
        }
        for i in 0..ng {
            // a group may be used by any element, so it must not need any of them
            let parts = if self.r.chance(1, 3) { 2 } else { 1 };
            let op = match (parts, self.r.below(2), self.c.inter) {
                (1, _, _) => Op::Assign,
                (_, 0, true) => Op::Inter,
                _ => Op::Choice,
            };
            for _ in 0..parts {
                let at = At { elem: usize::MAX, group: i + 1, required: true, depth };
                let p = self.non_null(&n, at);
                items.push(Item::Def(n.groups[i].clone(), op, p));
            }
        }
        let tail = &mut items[1..];
        self.r.shuffle(tail);
        if self.r.chance(1, 2) {
            items.rotate_left(1);
        }
        items
    }

    /// a pattern that needs at least one element
    fn non_null(&mut self, n: &Names, at: At) -> Pat {
        let first = Pat::Elem(self.elem_name(), Box::new(self.leaf_body()));
        if self.r.chance(1, 2) {
            let mut v = vec![first, self.content(n, at, 2)];
            if self.r.chance(1, 2) {
                v.reverse();
            }
            Pat::Group(v)
        } else {
            first
        }
    }

    fn leaf_body(&mut self) -> Pat {
        match self.r.below(5) {
            0 => Pat::Empty,
            1 | 2 if self.c.data => self.leaf_data(),
            _ => Pat::Text,
        }
    }
    fn leaf_data(&mut self) -> Pat {
        match self.r.below(6) {
            0 => {
                let odd = ["é", "日本", "😀", "𐐀x", "&", "<a", "]]>", "'", "\u{10fffd}", "\u{fffd}", "\u{e000}", "\u{85}", "\u{d7ff}z", "𝄞𝄢", "-->", "&amp;", "&#65;", "%", ";"];
                let end = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&odd) } else { "" };
                let a = format!("v{}{}", self.id(), end(self.r));
                let b = format!("w {}{}", self.id(), end(self.r));
                Pat::Choice(vec![Pat::Value(a), Pat::Value(b)])
            }
            1 => {
                let d = *self.r.pick(&[Data::Int, Data::Bool, Data::Token, Data::Short]);
                Pat::List(Box::new(match self.r.below(3) {
                    0 => Pat::Star(Box::new(Pat::Data(d))),
                    1 => Pat::Plus(Box::new(Pat::Data(d))),
                    _ => Pat::Group(vec![Pat::Data(d), Pat::Data(d)]),
                }))
            }
            _ => Pat::Data(*self.r.pick(&DATA)),
        }
    }

    fn elem_body(&mut self, n: &Names, at: At) -> Pat {
        let mut v = vec![];
        if self.c.anyname && self.r.chance(1, 8) {
            let name = if self.r.chance(1, 2) { NameC::Any } else { NameC::NsAny(self.r.range(1, NS.len() - 1)) };
            let a = Box::new(Pat::Attr(name, Box::new(Pat::Text)));
            v.push(if self.r.chance(1, 2) { Pat::Star(a) } else { Pat::Plus(a) });
        }
        let mut k = if v.is_empty() { self.r.below(3) } else { 0 };
        if k > 0 && self.big(Big::Attrs) {
            k += self.r.below(40);
        }
        for _ in 0..k {
            let ns = if self.c.namespaces && self.r.chance(1, 4) {
                self.r.below(NS.len())
            } else {
                0
            };
            let name = NameC::Named(ns, self.xml_name());
            let body = if self.c.data && self.r.chance(1, 2) {
                self.leaf_data()
            } else {
                Pat::Text
            };
            let a = Pat::Attr(name, Box::new(body));
            v.push(if self.r.chance(1, 2) { Pat::Opt(Box::new(a)) } else { a });
        }
        let c = match self.r.below(7) {
            0 if at.depth > 0 || self.r.chance(1, 3) => self.leaf_body(),
            1 => Pat::Mixed(Box::new(self.content(n, at, 2))),
            2 => {
                let c = self.content(n, at, 2);
                Pat::Group(vec![Pat::Text, c])
            }
            _ => self.content(n, at, 3),
        };
        v.push(c);
        if v.len() == 1 { v.remove(0) } else { Pat::Group(v) }
    }

    fn content(&mut self, n: &Names, at: At, fuel: usize) -> Pat {
        if fuel == 0 {
            return self.atom(n, at, 0);
        }
        if self.big(Big::Alts) {
            // many of them, side by side
            let max = *self.r.pick(&[12, 40, 140]);
            let k = self.r.range(5, max);
            let v: Vec<Pat> = (0..k)
                .map(|_| {
                    let p = Pat::Elem(NameC::Named(0, self.xml_name()), Box::new(self.leaf_body()));
                    if self.r.chance(1, 6) { Pat::Opt(Box::new(p)) } else { p }
                })
                .collect();
            return match self.r.below(5) {
                0 | 1 => Pat::Group(v),
                2 if self.c.inter => Pat::Inter(v.into_iter().take(7).collect()),
                _ => Pat::Choice(v),
            };
        }
        if self.big(Big::Deep) {
            let k = self.r.range(5, 40);
            let mut p = self.atom(n, at, 0);
            let how = self.r.below(3);
            for _ in 0..k {
                p = match how {
                    0 => Pat::Elem(NameC::Named(0, self.xml_name()), Box::new(p)),
                    1 => Pat::Group(vec![Pat::Elem(NameC::Named(0, self.xml_name()), Box::new(Pat::Empty)), p]),
                    _ => Pat::Elem(NameC::Named(0, self.xml_name()), Box::new(Pat::Mixed(Box::new(p)))),
                };
            }
            return p;
        }
        let opt = At { required: false, ..at };
        match self.r.below(9) {
            0 | 1 => {
                let k = self.r.range(1, 3);
                Pat::Group((0..k).map(|_| self.content(n, at, fuel - 1)).collect())
            }
            2 => {
                let k = self.r.range(1, 3);
                let mut v = vec![self.content(n, at, fuel - 1)];
                for _ in 0..k {
                    v.push(self.content(n, opt, fuel - 1));
                }
                Pat::Choice(v)
            }
            3 => Pat::Opt(Box::new(self.content(n, opt, fuel - 1))),
            4 | 5 => Pat::Star(Box::new(self.content(n, opt, fuel - 1))),
            6 => Pat::Plus(Box::new(self.content(n, at, fuel - 1))),
            7 if self.c.inter => Pat::Inter(vec![
                self.content(n, at, fuel - 1),
                self.content(n, at, fuel - 1),
            ]),
            _ => self.atom(n, at, fuel),
        }
    }

    fn atom(&mut self, n: &Names, at: At, fuel: usize) -> Pat {
        for _ in 0..4 {
            match self.r.below(8) {
                // elements of this grammar: those further down always, any of them if skippable
                0 | 1 => {
                    let lo = if at.required || !self.c.recursion {
                        at.elem.saturating_add(1)
                    } else {
                        0
                    };
                    if lo < n.elems.len() {
                        let i = self.r.range(lo, n.elems.len() - 1);
                        return Pat::Ref(n.elems[i].clone());
                    }
                }
                2 if at.group < n.groups.len() => {
                    let i = self.r.range(at.group, n.groups.len() - 1);
                    return Pat::Ref(n.groups[i].clone());
                }
                3 if !n.parent.is_empty() && !at.required => {
                    return Pat::Parent(self.r.pick(&n.parent).clone());
                }
                4 if self.c.external => {
                    if self.c.share && !self.shared_ext.is_empty() && self.r.chance(1, 2) {
                        let f = *self.r.pick(&self.shared_ext);
                        return Pat::Ext(f, self.style());
                    }
                    if self.room() && at.depth < 3 {
                        return self.external(n, at);
                    }
                }
                5 if self.c.nested && at.depth < 2 => {
                    if self.c.share && !self.shared_inc.is_empty() && self.r.chance(1, 2) {
                        let (f, start) = self.r.pick(&self.shared_inc).clone();
                        return Pat::Gram(vec![
                            Item::Def("start".into(), Op::Assign, Pat::Ref(start)),
                            Item::Inc(f, self.style(), vec![]),
                        ]);
                    }
                    let items = self.scope(&n.elems, at.depth + 1);
                    let items = self.distribute(items, false);
                    return Pat::Gram(items);
                }
                6 | 7 => {
                    let name = self.elem_name();
                    let body = if fuel == 0 { self.leaf_body() } else { self.content(n, at, fuel - 1) };
                    if matches!(name, NameC::Named(..)) && self.r.chance(1, 10) {
                        // which of the two it is turns out later, or never
                        let other = if self.r.chance(1, 2) { Pat::Elem(self.elem_name(), Box::new(Pat::Empty)) } else { self.leaf_body() };
                        let mut v = vec![Pat::Elem(name.clone(), Box::new(body)), Pat::Elem(name, Box::new(other))];
                        if self.r.chance(1, 2) {
                            v.swap(0, 1);
                        }
                        return Pat::Choice(v);
                    }
                    return Pat::Elem(name, Box::new(body));
                }
                _ => {}
            }
        }
        let name = self.elem_name();
        Pat::Elem(name, Box::new(self.leaf_body()))
    }

    fn external(&mut self, n: &Names, at: At) -> Pat {
        let f = self.new_file();
        let (body, closed) = if self.r.chance(1, 2) {
            // a pattern; it may use names of the grammar it is used in
            let closed = self.r.chance(1, 2);
            let none = Names::default();
            let p = self.content(
                if closed { &none } else { n },
                At { depth: at.depth + 1, ..at },
                2,
            );
            (Body::Pattern(p), closed)
        } else {
            let closed = self.r.chance(1, 2);
            let parent: &[String] = if closed { &[] } else { &n.elems };
            let items = self.scope(parent, at.depth + 1);
            let items = self.distribute(items, false);
            (Body::Grammar(items), closed)
        };
        self.files[f].body = body;
        if closed {
            self.shared_ext.push(f);
        }
        Pat::Ext(f, self.style())
    }

    /// some of the items in divs, and in divs of those
    fn in_divs(&mut self, mut items: Vec<Item>, depth: usize) -> Vec<Item> {
        if depth < 3 && !items.is_empty() && self.r.chance(2, 3) {
            let tail = items.split_off(self.r.below(items.len()));
            let tail = self.in_divs(tail, depth + 1);
            items.push(Item::Div(tail));
        }
        if self.r.chance(1, 12) && depth > 0 {
            items.push(Item::Div(vec![]));
        }
        items
    }

    /// move some of the definitions of a grammar into included files and divs
    fn distribute(&mut self, items: Vec<Item>, root: bool) -> Vec<Item> {
        let mut items = items;
        let mut tries = if root { 3 } else { 1 };
        while tries > 0 && self.c.include && self.room() && !items.is_empty() && self.r.chance(3, 4) {
            tries -= 1;
            let f = self.new_file();
            let mut moved = vec![];
            let mut kept = vec![];
            let mut over = vec![];
            for it in items {
                if self.r.chance(1, 2) {
                    match it {
                        Item::Def(name, Op::Assign, p) if self.r.chance(1, 4) => {
                            // the real definition is given as an override of another one
                            let decoy = Pat::Elem(NameC::Named(0, format!("decoy{}", self.id())), Box::new(Pat::Empty));
                            moved.push(Item::Def(name.clone(), Op::Assign, decoy));
                            over.push(Item::Def(name, Op::Assign, p));
                        }
                        it => moved.push(it),
                    }
                } else {
                    kept.push(it);
                }
            }
            let moved = self.distribute(moved, false);
            self.files[f].body = Body::Grammar(moved);
            if self.r.chance(1, 2) {
                over = self.in_divs(over, 0);
            }
            let st = self.style();
            let pos = self.r.below(kept.len() + 1);
            kept.insert(pos, Item::Inc(f, st, over));
            items = kept;
        }
        if self.c.share && self.c.include && self.c.nested && self.room() && root && self.r.chance(1, 2) {
            // a self-contained file of definitions, to be included from several nested grammars
            let f = self.new_file();
            let start = format!("el.{}", self.id());
            let name = self.elem_name();
            let inner = format!("gr{}", self.id());
            let leaf = self.elem_name();
            let leaf_body = self.leaf_body();
            self.files[f].body = Body::Grammar(vec![
                Item::Def(start.clone(), Op::Assign, Pat::Elem(name, Box::new(Pat::Group(vec![Pat::Opt(Box::new(Pat::Ref(start.clone()))), Pat::Ref(inner.clone())])))),
                Item::Def(inner, Op::Assign, Pat::Elem(leaf, Box::new(leaf_body))),
            ]);
            self.shared_inc.push((f, start));
            // make sure that it is used, at least twice
            let (f, start) = self.shared_inc.last().unwrap().clone();
            let uses: Vec<Pat> = (0..2)
                .map(|_| {
                    Pat::Opt(Box::new(Pat::Gram(vec![
                        Item::Def("start".into(), Op::Assign, Pat::Ref(start.clone())),
                        Item::Inc(f, self.style(), vec![]),
                    ])))
                })
                .collect();
            if let Some(Item::Def(_, _, Pat::Elem(_, body))) = items
                .iter_mut()
                .find(|i| matches!(i, Item::Def(_, _, Pat::Elem(_, b)) if !leafy(b)))
            {
                let old = std::mem::replace(&mut **body, Pat::Empty);
                let mut v = vec![old];
                v.extend(uses);
                **body = Pat::Group(v);
            }
        }
        if items.len() > 1 && self.r.chance(1, 3) {
            let k = self.r.range(1, items.len() - 1);
            let d = items.split_off(k);
            let d = if self.r.chance(1, 2) { self.in_divs(d, 1) } else { d };
            items.push(Item::Div(d));
        }
        items
    }
}

/// must not be combined with elements
fn leafy(p: &Pat) -> bool {
    match p {
        Pat::Data(_) | Pat::Value(_) | Pat::List(_) => true,
        Pat::Group(v) | Pat::Choice(v) | Pat::Inter(v) => v.iter().any(leafy),
        Pat::Opt(p) | Pat::Star(p) | Pat::Plus(p) | Pat::Mixed(p) => leafy(p),
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------------
// documents

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub ns: usize,
    pub name: String,
    pub value: String,
    /// any value is allowed
    pub text: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub ns: usize,
    pub name: String,
    pub attrs: Vec<Attr>,
    pub kids: Vec<Node>,
    /// character data is significant (data, value or list content)
    pub data: bool,
    /// character data is allowed
    pub text: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El(El),
    Tx(String),
}

struct Scope<'a> {
    defs: HashMap<String, (Op, Vec<(&'a Pat, usize)>)>,
    parent: Option<usize>,
}

/// Produces documents that a project's schema allows
pub struct Sampler<'a> {
    p: &'a Project,
    scopes: Vec<Scope<'a>>,
    nested: HashMap<(*const Item, usize), usize>,
    ext: HashMap<(usize, usize), usize>,
    budget: usize,
    in_list: bool,
}

#[derive(Default)]
struct Out {
    attrs: Vec<Attr>,
    kids: Vec<Node>,
    data: bool,
    text: bool,
}

impl<'a> Sampler<'a> {
    pub fn new(p: &'a Project) -> Sampler<'a> {
        let mut s = Sampler {
            p,
            scopes: vec![],
            nested: HashMap::new(),
            ext: HashMap::new(),
            budget: 0,
            in_list: false,
        };
        if let Body::Grammar(items) = &p.files[0].body {
            s.scope(items, None);
        }
        s
    }
    fn scope(&mut self, items: &'a [Item], parent: Option<usize>) -> usize {
        let n = self.scopes.len();
        self.scopes.push(Scope { defs: HashMap::new(), parent });
        let mut defs = vec![];
        Self::flatten(self.p, items, &HashSet::new(), &mut defs);
        for (name, op, pat) in defs {
            let e = self.scopes[n].defs.entry(name).or_insert((op, vec![]));
            if op != Op::Assign {
                e.0 = op;
            }
            e.1.push((pat, n));
        }
        n
    }
    fn flatten(p: &'a Project, items: &'a [Item], hidden: &HashSet<String>, out: &mut Vec<(String, Op, &'a Pat)>) {
        for it in items {
            match it {
                Item::Def(n, op, pat) => {
                    if !hidden.contains(n) {
                        out.push((n.clone(), *op, pat));
                    }
                }
                Item::Div(v) => Self::flatten(p, v, hidden, out),
                Item::Inc(f, _, over) => {
                    Self::flatten(p, over, hidden, out);
                    let mut h = hidden.clone();
                    names_of(over, &mut h);
                    if let Body::Grammar(items) = &p.files[*f].body {
                        Self::flatten(p, items, &h, out);
                    }
                }
                Item::Raw(_) => {}
            }
        }
    }

    pub fn doc(&mut self, r: &mut Rng, budget: usize) -> Option<El> {
        self.budget = budget * self.p.docs.max(1);
        let mut out = Out::default();
        if let Body::Pattern(p) = &self.p.files[0].body {
            self.scopes.push(Scope { defs: HashMap::new(), parent: None });
            self.sample(p, 0, r, &mut out);
        } else {
            self.sample_ref("start", 0, r, &mut out);
        }
        out.kids.into_iter().find_map(|n| match n {
            Node::El(e) => Some(e),
            _ => None,
        })
    }

    fn text(&self, r: &mut Rng) -> String {
        let mut t = text(r);
        if self.p.long > 0 && r.chance(1, 3) {
            let len = r.range(1, self.p.long);
            while t.len() < len {
                t.push_str(r.pick(&[" ", "\n", "", "  "]));
                t.push_str(&text(r));
            }
        }
        t
    }

    fn sample_ref(&mut self, name: &str, scope: usize, r: &mut Rng, out: &mut Out) {
        let Some((op, pats)) = self.scopes[scope].defs.get(name).cloned() else {
            return;
        };
        if pats.len() == 1 {
            let (p, s) = pats[0];
            return self.sample(p, s, r, out);
        }
        match op {
            Op::Choice | Op::Assign => {
                let (p, s) = pats[if self.budget == 0 { 0 } else { r.below(pats.len()) }];
                self.sample(p, s, r, out)
            }
            Op::Inter => {
                let mut outs = vec![];
                for (p, s) in pats {
                    let mut o = Out::default();
                    self.sample(p, s, r, &mut o);
                    outs.push(o);
                }
                interleave(outs, r, out);
            }
        }
    }

    fn sample(&mut self, p: &'a Pat, scope: usize, r: &mut Rng, out: &mut Out) {
        match p {
            Pat::Empty | Pat::NotAllowed | Pat::Raw(_) => {}
            Pat::Text => {
                out.text = true;
                if r.chance(2, 3) {
                    let t = self.text(r);
                    out.kids.push(Node::Tx(t));
                }
            }
            Pat::Elem(n, body) => {
                self.budget = self.budget.saturating_sub(1);
                let (ns, name) = pick_name(n, r);
                let mut o = Out::default();
                self.sample(body, scope, r, &mut o);
                // (where any name is allowed, the same one might come twice)
                let mut seen = HashSet::new();
                o.attrs.retain(|a| seen.insert((a.ns, a.name.clone())));
                r.shuffle(&mut o.attrs);
                out.kids.push(Node::El(El {
                    ns,
                    name,
                    attrs: o.attrs,
                    kids: merge_text(o.kids),
                    data: o.data,
                    text: o.text || o.data,
                }));
            }
            Pat::Attr(n, body) => {
                let (ns, name) = pick_name(n, r);
                let mut o = Out::default();
                self.sample(body, scope, r, &mut o);
                let value: String = o
                    .kids
                    .iter()
                    .map(|k| match k {
                        Node::Tx(t) => t.as_str(),
                        _ => "",
                    })
                    .collect();
                out.attrs.push(Attr { ns, name, value, text: o.text && !o.data });
            }
            Pat::Group(v) => {
                for p in v {
                    self.sample(p, scope, r, out);
                }
            }
            Pat::Choice(v) => {
                let i = if self.budget == 0 { 0 } else { r.below(v.len()) };
                self.sample(&v[i], scope, r, out);
                if let ([Pat::Elem(NameC::Named(n, a), _), Pat::Elem(NameC::Named(m, b), _)], Some(Node::El(e))) = (&v[..], out.kids.last_mut())
                    && (n, a) == (m, b)
                {
                    // text might be allowed by the other one
                    e.text = true;
                }
            }
            Pat::Inter(v) => {
                let mut outs = vec![];
                for p in v {
                    let mut o = Out::default();
                    self.sample(p, scope, r, &mut o);
                    outs.push(o);
                }
                interleave(outs, r, out);
            }
            Pat::Opt(p) => {
                if self.budget > 0 && r.chance(2, 3) {
                    self.sample(p, scope, r, out);
                }
            }
            Pat::Star(p) => {
                let mut k = r.below(4);
                if self.p.long > 0 && k > 0 && matches!(**p, Pat::Data(_)) && r.chance(1, 2) {
                    k += r.below(60);
                }
                for _ in 0..k {
                    if self.budget == 0 {
                        break;
                    }
                    self.sample(p, scope, r, out);
                }
            }
            Pat::Plus(p) => {
                let k = r.range(1, 3);
                for i in 0..k {
                    if i > 0 && self.budget == 0 {
                        break;
                    }
                    self.sample(p, scope, r, out);
                }
            }
            Pat::Mixed(p) => {
                let mut o = Out::default();
                self.sample(p, scope, r, &mut o);
                let mut kids = vec![];
                for k in o.kids {
                    if r.chance(1, 2) {
                        kids.push(Node::Tx(self.text(r)));
                    }
                    kids.push(k);
                }
                if r.chance(1, 2) {
                    kids.push(Node::Tx(self.text(r)));
                }
                out.text = true;
                out.attrs.extend(o.attrs);
                out.kids.extend(kids);
            }
            Pat::Ref(n) => self.sample_ref(n, scope, r, out),
            Pat::Parent(n) => {
                if let Some(s) = self.scopes[scope].parent {
                    self.sample_ref(n, s, r, out)
                }
            }
            Pat::Data(d) => {
                out.data = true;
                let mut v = data_value(*d, r);
                if self.p.long > 0 && !self.in_list && matches!(d, Data::Token | Data::Str) && r.chance(1, 3) {
                    let len = r.range(1, self.p.long);
                    while v.len() < len {
                        v.push(' ');
                        v.push_str(&data_value(*d, r));
                    }
                }
                out.kids.push(Node::Tx(v));
            }
            Pat::Value(v) => {
                out.data = true;
                let v = if r.chance(1, 4) { format!(" {}  ", v.replace(' ', "  \t")) } else { v.clone() };
                out.kids.push(Node::Tx(v));
            }
            Pat::List(p) => {
                let mut o = Out::default();
                self.in_list = true;
                self.sample(p, scope, r, &mut o);
                self.in_list = false;
                let toks: Vec<String> = o
                    .kids
                    .iter()
                    .map(|k| match k {
                        Node::Tx(t) => t.clone(),
                        _ => String::new(),
                    })
                    .collect();
                out.data = true;
                out.kids.push(Node::Tx(toks.join(*r.pick(&[" ", "  ", "\n "]))));
            }
            Pat::Gram(items) => {
                let key = (items.as_ptr(), scope);
                let s = match self.nested.get(&key) {
                    Some(s) => *s,
                    None => {
                        let s = self.scope(items, Some(scope));
                        self.nested.insert(key, s);
                        s
                    }
                };
                self.sample_ref("start", s, r, out);
            }
            Pat::Ext(f, _) => match &self.p.files[*f].body {
                Body::Pattern(p) => self.sample(p, scope, r, out),
                Body::Grammar(items) => {
                    let key = (*f, scope);
                    let s = match self.ext.get(&key) {
                        Some(s) => *s,
                        None => {
                            let s = self.scope(items, Some(scope));
                            self.ext.insert(key, s);
                            s
                        }
                    };
                    self.sample_ref("start", s, r, out);
                }
            },
        }
    }
}

pub fn names_of(items: &[Item], out: &mut HashSet<String>) {
    for it in items {
        match it {
            Item::Def(n, ..) => {
                out.insert(n.clone());
            }
            Item::Div(v) => names_of(v, out),
            Item::Inc(..) | Item::Raw(_) => {}
        }
    }
}

fn merge_text(kids: Vec<Node>) -> Vec<Node> {
    let mut v: Vec<Node> = vec![];
    for k in kids {
        match (v.last_mut(), k) {
            (Some(Node::Tx(a)), Node::Tx(b)) => a.push_str(&b),
            (_, k) => v.push(k),
        }
    }
    v
}

fn interleave(outs: Vec<Out>, r: &mut Rng, out: &mut Out) {
    let mut queues: Vec<std::collections::VecDeque<Node>> = vec![];
    for o in outs {
        out.attrs.extend(o.attrs);
        out.text |= o.text;
        out.data |= o.data;
        queues.push(o.kids.into());
    }
    loop {
        queues.retain(|q| !q.is_empty());
        if queues.is_empty() {
            break;
        }
        let i = r.below(queues.len());
        out.kids.push(queues[i].pop_front().unwrap());
    }
}

fn pick_name(n: &NameC, r: &mut Rng) -> (usize, String) {
    match n {
        NameC::Named(ns, s) => (*ns, s.clone()),
        NameC::Any => (r.below(NS.len()), format!("any{}", r.below(5))),
        NameC::NsAny(ns) => (*ns, format!("any{}", r.below(5))),
        NameC::Alt(ns, v) => (*ns, r.pick(v).clone()),
    }
}

pub fn text(r: &mut Rng) -> String {
    let words = ["a", "lorem", "ipsum", "é", "naïve", "日本", "x < y", "R&D", "\"q\"", "'s", "12", "]]", "-", "😀"];
    let k = r.range(1, 4);
    (0..k).map(|_| *r.pick(&words)).collect::<Vec<_>>().join(" ")
}

/// values of tokens and strings that no other type has
const WORDS: [&str; 4] = ["tokn", "tok", "é9", "z9"];

/// Where a value can be another one of its kind, that has a marker instead (six digits to come)
pub fn marked(v: &str) -> Option<String> {
    let digits = v.strip_prefix('-').unwrap_or(v);
    let all = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    if WORDS.contains(&v) {
        Some("tok@@@@@@".into())
    } else if digits.len() == 5 && all(digits) {
        Some("@@@@@@".into())
    } else if v.strip_prefix("nc").is_some_and(all) {
        Some("nc@@@@@@".into())
    } else if digits.split_once('.').is_some_and(|(a, b)| all(a) && all(b)) {
        Some("@@@@@@.5".into())
    } else {
        None
    }
}

fn data_value(d: Data, r: &mut Rng) -> String {
    match d {
        Data::Token | Data::Str => WORDS[r.below(4)].to_string(),
        Data::Int | Data::Long | Data::Integer => {
            let n = r.below(100000) as i64 - 50000;
            // five digits, unlike those of the others
            format!("{}", if n.abs() < 10000 { n + 20000 } else { n })
        }
        Data::Short => format!("{}", r.below(2000) as i64 - 1000),
        Data::UInt => format!("{}", r.below(1000)),
        Data::Decimal => format!("{}.{}", r.below(100), r.below(10)),
        Data::Bool => ["true", "false", "1", "0"][r.below(4)].to_string(),
        Data::Date => format!("20{:02}-{:02}-{:02}", r.below(100), r.range(1, 12), r.range(1, 28)),
        Data::NcName => format!("nc{}", r.below(100)),
        Data::StrLen => "abcde"[..r.range(2, 5)].to_string(),
        Data::StrPat => format!("k{}", r.range(10, 99)),
        Data::IntRange => format!("{}", r.range(5, 10)),
    }
}

/// what a document was changed into so that no generated schema allows it
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spoil {
    AlienChild,
    AlienAttr,
    StrayText,
    AlienRoot,
    TwiceRoot,
}

/// Make a valid document invalid.  Returns what was done.
pub fn spoil(root: &mut El, r: &mut Rng, stray: bool) -> Spoil {
    let n = count(root);
    for _ in 0..20 {
        let i = r.below(n);
        let mut k = i;
        let el = nth(root, &mut k).unwrap();
        match r.below(4) {
            0 => {
                let pos = r.below(el.kids.len() + 1);
                el.kids.insert(
                    pos,
                    Node::El(El { ns: 0, name: ALIEN.into(), attrs: vec![], kids: vec![], data: false, text: false }),
                );
                return Spoil::AlienChild;
            }
            1 => {
                let pos = r.below(el.attrs.len() + 1);
                el.attrs.insert(pos, Attr { ns: 0, name: ALIEN.into(), value: "1".into(), text: false });
                return Spoil::AlienAttr;
            }
            2 if stray && !el.text && !el.data => {
                let pos = r.below(el.kids.len() + 1);
                el.kids.insert(pos, Node::Tx("stray text".into()));
                return Spoil::StrayText;
            }
            3 if i == 0 => {
                el.name = ALIEN.into();
                el.ns = 0;
                return Spoil::AlienRoot;
            }
            _ => {}
        }
    }
    root.attrs.push(Attr { ns: 0, name: ALIEN.into(), value: "1".into(), text: false });
    Spoil::AlienAttr
}
/// Change what the document consists of, in a way that may or may not be allowed.  Returns what was done.
pub fn mutate(root: &mut El, r: &mut Rng) -> &'static str {
    let n = count(root);
    for _ in 0..20 {
        let mut k = r.below(n);
        let other = {
            let mut k = r.below(n);
            nth(root, &mut k).unwrap().clone()
        };
        let el = nth(root, &mut k).unwrap();
        let (kids, attrs) = (el.kids.len(), el.attrs.len());
        match r.below(10) {
            0 if kids > 0 => {
                el.kids.remove(r.below(kids));
                return "child removed";
            }
            1 if kids > 0 => {
                let i = r.below(kids);
                let k = el.kids[i].clone();
                el.kids.insert(i, k);
                return "child repeated";
            }
            2 if kids > 1 => {
                let i = r.below(kids - 1);
                el.kids.swap(i, i + 1);
                return "children swapped";
            }
            3 if attrs > 0 => {
                el.attrs.remove(r.below(attrs));
                return "attribute removed";
            }
            4 if attrs > 0 => {
                let i = r.below(attrs);
                el.attrs[i].value = r.pick(&["", " ", "1", "true", "x y"]).to_string();
                return "attribute changed";
            }
            5 => {
                el.kids.clear();
                return "emptied";
            }
            6 => {
                el.name = other.name;
                el.ns = other.ns;
                return "renamed";
            }
            7 if count(&other) < 30 => {
                let i = r.below(kids + 1);
                el.kids.insert(i, Node::El(other));
                return "element copied";
            }
            8 if kids > 0 => {
                let i = r.below(kids);
                el.kids[i] = Node::Tx(r.pick(&["", " ", "1", "true", "x y", "-7 8"]).to_string());
                return "text instead";
            }
            9 if !other.attrs.is_empty() => {
                let a = r.pick(&other.attrs).clone();
                if el.attrs.iter().all(|b| (b.ns, &b.name) != (a.ns, &a.name)) {
                    el.attrs.push(a);
                    return "attribute copied";
                }
            }
            _ => {}
        }
    }
    "nothing"
}
pub fn count(e: &El) -> usize {
    1 + e.kids.iter().map(|k| if let Node::El(c) = k { count(c) } else { 0 }).sum::<usize>()
}
pub fn nth<'a>(e: &'a mut El, k: &mut usize) -> Option<&'a mut El> {
    if *k == 0 {
        return Some(e);
    }
    *k -= 1;
    for c in e.kids.iter_mut() {
        if let Node::El(c) = c {
            if let Some(x) = nth(c, k) {
                return Some(x);
            }
        }
    }
    None
}
