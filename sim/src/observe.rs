//! Everything a user can observe of a compile or of a validation session, in comparable form.
use crate::io;
use crate::memfs::{Load, Outcome};
use crate::sandbox::{Panic, catch};
use crate::util::strip_ansi;
use relaxng_model::model::{DefineRule, NameClass, PatRef, Pattern};
use relaxng_model::{Compiler, Files, RelaxError, Syntax};
use relaxng_validator::{Validator, ValidatorError};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::path::Path;
use std::rc::Rc;

pub type Model = Rc<RefCell<Option<DefineRule>>>;

pub fn syntax(rng: bool) -> Syntax {
    if rng { Syntax::Xml } else { Syntax::Compact }
}

// ---------------------------------------------------------------------------------- schema graph

/// The whole graph of a schema, without source positions; definitions are numbered as first met
pub fn dump(m: &Model) -> String {
    let mut d = Dumper { ids: HashMap::new(), queue: vec![], s: String::new() };
    d.reference(m);
    let mut i = 0;
    while i < d.queue.len() {
        let m = d.queue[i].clone();
        let _ = write!(d.s, "\n#{i}=");
        match m.try_borrow() {
            Err(_) => d.s.push_str("<borrowed>"),
            Ok(b) => match &*b {
                None => d.s.push_str("<none>"),
                Some(r) => {
                    match r {
                        DefineRule::AssignCombine(_, c, _) => {
                            let _ = write!(d.s, "assign {c:?} ");
                        }
                        DefineRule::CombineOnly(_, c, _) => {
                            let _ = write!(d.s, "combine {c:?} ");
                        }
                    }
                    d.pat(r.pattern());
                }
            },
        }
        i += 1;
    }
    d.s
}
struct Dumper {
    ids: HashMap<*const RefCell<Option<DefineRule>>, usize>,
    queue: Vec<Model>,
    s: String,
}
impl Dumper {
    fn reference(&mut self, m: &Model) {
        let next = self.queue.len();
        let id = *self.ids.entry(Rc::as_ptr(m)).or_insert(next);
        if id == next {
            self.queue.push(m.clone());
        }
        let _ = write!(self.s, "@{id}");
    }
    fn list(&mut self, t: &str, v: &[Pattern]) {
        self.s.push_str(t);
        self.s.push('(');
        for p in v {
            self.pat(p);
            self.s.push(',');
        }
        self.s.push(')');
    }
    fn name(&mut self, n: &NameClass) {
        let _ = write!(self.s, "[{n:?}]");
    }
    fn pat(&mut self, p: &Pattern) {
        match p {
            Pattern::Choice(v) => self.list("choice", v),
            Pattern::Interleave(v) => self.list("interleave", v),
            Pattern::Group(v) => self.list("group", v),
            Pattern::Mixed(p) => self.list("mixed", std::slice::from_ref(p)),
            Pattern::Empty => self.s.push_str("empty"),
            Pattern::Text => self.s.push_str("text"),
            Pattern::NotAllowed => self.s.push_str("notAllowed"),
            Pattern::Optional(p) => self.list("optional", std::slice::from_ref(p)),
            Pattern::ZeroOrMore(p) => self.list("zeroOrMore", std::slice::from_ref(p)),
            Pattern::OneOrMore(p) => self.list("oneOrMore", std::slice::from_ref(p)),
            Pattern::Attribute(n, p) => {
                self.s.push_str("attribute");
                self.name(n);
                self.list("", std::slice::from_ref(p));
            }
            Pattern::Element(n, p) => {
                self.s.push_str("element");
                self.name(n);
                self.list("", std::slice::from_ref(p));
            }
            Pattern::Ref(_, n, PatRef(r)) => {
                let _ = write!(self.s, "ref {n}");
                self.reference(r);
            }
            Pattern::DatatypeValue { datatype } => {
                let _ = write!(self.s, "value {datatype:?}");
            }
            Pattern::DatatypeName { datatype, except } => {
                let _ = write!(self.s, "data {datatype:?}");
                if let Some(e) = except {
                    self.list("-", std::slice::from_ref(e));
                }
            }
            Pattern::List(p) => self.list("list", std::slice::from_ref(p)),
        }
    }
}

// --------------------------------------------------------------------------------------- compile

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Obs {
    pub ok: bool,
    /// graph of the schema, or kind of the error (without positions)
    pub body: String,
    /// the rendered diagnostic of an error
    pub diag: String,
}
impl Obs {
    pub fn short(&self) -> String {
        if self.ok {
            format!("schema {:016x} ({} bytes of dump)", crate::util::hash_str(&self.body), self.body.len())
        } else {
            format!("error {}\n{}", crate::util::clip(&self.body, 300), crate::util::clip(&self.diag, 900))
        }
    }
    pub fn diff(&self, o: &Obs) -> Option<String> {
        if self == o {
            return None;
        }
        if self.ok != o.ok {
            return Some(format!("one is {}\nthe other is {}", self.short(), o.short()));
        }
        if self.body != o.body {
            let at = self.body.bytes().zip(o.body.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| {
                let mut lo = at.saturating_sub(80);
                while !s.is_char_boundary(lo) {
                    lo -= 1;
                }
                crate::util::clip(&s[lo.min(s.len())..], 240)
            };
            return Some(format!("…{}\nversus\n…{}", cut(&self.body), cut(&o.body)));
        }
        Some(format!("diagnostics differ:\n{}\nversus\n{}", crate::util::clip(&self.diag, 1200), crate::util::clip(&o.diag, 1200)))
    }
}

/// kind of an error, with names but without positions
pub fn signature(e: &RelaxError) -> String {
    let s = format!("{e:?}");
    // positions look like `Span { low: Pos(12), high: Pos(15) }` or `12..15`
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let rest: String = b[i..(i + 4).min(b.len())].iter().collect();
        if rest == "Pos(" {
            out.push_str("Pos(_");
            i += 4;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

pub fn unwrap_includes(e: &RelaxError) -> (Vec<codemap::Span>, &RelaxError) {
    let mut chain = vec![];
    let mut e = e;
    while let RelaxError::IncludeError(s, inner) = e {
        chain.push(*s);
        e = inner;
    }
    (chain, e)
}

pub fn diagnose<F: Files>(c: &Compiler<F>, e: &RelaxError) -> Result<String, Panic> {
    io::out();
    let r = catch(|| c.dump_diagnostic(e));
    let t = strip_ansi(&io::out());
    r.map(|_| t)
}

/// compile and record all there is to see; a panic of the code under test is an `Err`
pub fn compile<F: Files>(c: &mut Compiler<F>, root: &str) -> Result<(Obs, Result<Model, RelaxError>), Panic> {
    let r = catch(|| c.compile(Path::new(root)))?;
    let obs = match &r {
        Ok(m) => Obs { ok: true, body: catch(|| dump(m))?, diag: String::new() },
        Err(e) => Obs { ok: false, body: signature(e), diag: diagnose(c, e)? },
    };
    Ok((obs, r))
}

/// The code map a compiler must have, given the texts it was handed, in the order of loading
pub struct Mirror {
    map: codemap::CodeMap,
}
pub struct Place {
    pub file: String,
    pub line: usize,
    #[allow(dead_code)]
    pub col: usize,
}
impl Mirror {
    pub fn new(loads: &[Load]) -> Mirror {
        let mut map = codemap::CodeMap::new();
        for l in loads {
            if let Outcome::Ok(t) = &l.out {
                map.add_file(l.raw.clone(), t.clone());
            }
        }
        Mirror { map }
    }
    /// start of a span
    pub fn place(&self, s: codemap::Span) -> Option<Place> {
        catch(|| {
            let l = self.map.look_up_span(s);
            Place {
                file: crate::util::norm(l.file.name()),
                line: l.begin.line + 1,
                col: l.begin.column + 1,
            }
        })
        .ok()
    }
}

// -------------------------------------------------------------------------------------- sessions

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Ev {
    Ok,
    Err(String, String),
    End,
    Panic(String),
    TooMany,
}

pub fn render_doc_error(v: &Validator, name: &str, source: &str, e: &ValidatorError) -> Result<(String, codemap::CodeMap, Vec<codemap_diagnostic::Diagnostic>), Panic> {
    catch(|| {
        let (map, d) = v.diagnostic(name.to_string(), source.to_string(), e);
        let mut buf = vec![];
        {
            let mut em = codemap_diagnostic::Emitter::vec(&mut buf, Some(&map));
            em.emit(&d[..]);
        }
        (String::from_utf8_lossy(&buf).into_owned(), map, d)
    })
}

/// how much a session may spend on rendering: each diagnostic costs a copy of the whole document, so a long
/// document that is wrong everywhere has its first errors rendered and then only some of the others
pub struct Rendering {
    bytes: usize,
    errors: usize,
}
impl Rendering {
    pub fn new(bytes: usize) -> Rendering {
        Rendering { bytes, errors: 0 }
    }
    pub fn take(&mut self, source: &str) -> bool {
        self.errors += 1;
        if self.bytes >= source.len() {
            self.bytes -= source.len();
            return true;
        }
        self.errors < 8 || self.errors.is_power_of_two()
    }
}

pub fn step(v: &mut Validator, name: &str, source: &str, r: &mut Rendering) -> Ev {
    match catch(|| v.validate_next()) {
        Err(p) => Ev::Panic(p.text()),
        Ok(None) => Ev::End,
        Ok(Some(Ok(()))) => Ev::Ok,
        Ok(Some(Err(e))) if !r.take(source) => Ev::Err(format!("{e:?}"), String::new()),
        Ok(Some(Err(e))) => match render_doc_error(v, name, source, &e) {
            Err(p) => Ev::Panic(format!("while rendering {e:?}: {}", p.text())),
            Ok((t, ..)) => Ev::Err(format!("{e:?}"), t),
        },
    }
}

/// a whole session; the caller goes on after errors if told to
pub fn session(m: &Model, doc: &str, go_on: bool) -> Vec<Ev> {
    let mut log = vec![];
    let mut v = match catch(|| Validator::new(m.clone(), xmlparser::Tokenizer::from(doc))) {
        Ok(v) => v,
        Err(p) => return vec![Ev::Panic(format!("creating the validator: {}", p.text()))],
    };
    let limit = doc.len() * 4 + 64;
    let mut r = Rendering::new(4 << 20);
    loop {
        if log.len() > limit {
            log.push(Ev::TooMany);
            return log;
        }
        let e = step(&mut v, "doc.xml", doc, &mut r);
        let stop = match &e {
            Ev::Ok => false,
            Ev::Err(..) => !go_on,
            _ => true,
        };
        log.push(e);
        if stop {
            return log;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Valid,
    Invalid(String),
    Broken(String),
    /// the documented limit on the number of patterns of a session was reached
    Limit,
}
pub fn verdict(log: &[Ev]) -> Verdict {
    for e in log {
        match e {
            Ev::Err(e, _) => return Verdict::Invalid(crate::util::clip(e, 200)),
            Ev::Panic(p) if p.contains("2^16") => return Verdict::Limit,
            Ev::Panic(p) => return Verdict::Broken(p.clone()),
            Ev::TooMany => return Verdict::Broken("the session does not end".into()),
            Ev::Ok => {}
            Ev::End => return Verdict::Valid,
        }
    }
    Verdict::Broken("no end".into())
}
