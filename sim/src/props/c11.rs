//! C11: sessions and compiles side by side
use super::Prop;
use crate::common::{mistaken, project, valid_doc};
use crate::corpus;
use crate::damage::Damage;
use crate::io::Plan;
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Ev, Model, Obs, syntax};
use crate::report::Report;
use crate::sandbox::{Panic, catch, in_fork};
use crate::util::{Rng, clip, norm};
use relaxng_model::{Compiler, Files, RelaxError};
use relaxng_validator::{Validator, ValidatorError};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;
use std::sync::mpsc::{Receiver, Sender, channel};

pub const PROP: Prop = Prop {
    id: "C11",
    generate,
    run,
    shrink: &["/ops"],
    quick: 30_000,
    thorough: 700_000,
    rule: "A random schedule of 20-120 operations over 1-3 threads: opening, stepping, diagnosing and abandoning sessions over several schemas, compiling, recompiling and dropping schemas, with other operations inside storage callbacks, and failing storage. Each session and compile is compared with the same work done alone in a process of its own. Non-trivial: two sessions were open at once on a thread.",
    real: "relaxng-model, relaxng-syntax, relaxng-validator",
    stub: "the Files implementation, the choice of thread (one runs at a time, as the schedule says), getrandom, standard error",
    budget: (120_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    cases: Vec<One>,
    actors: usize,
    ops: Vec<(usize, Op)>,
    hash_seed: u64,
}
#[derive(Clone, Serialize, Deserialize)]
struct One {
    rng: bool,
    root: String,
    files: BTreeMap<String, String>,
    docs: Vec<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// with the compiler in the slot (made if there is none, or it is for another case)
    Compile { slot: usize, case: usize, trouble: Option<(usize, i32)> },
    Resume,
    /// all compiles under way on the thread are brought to their end
    Settle,
    Open { slot: usize, doc: usize },
    Step { session: usize, n: usize },
    Diagnose { session: usize },
    Close { session: usize },
    DropModel { slot: usize },
    DropCompiler { slot: usize },
    Dump { slot: usize },
    /// so many sessions, one after another, that are taken a few steps and abandoned
    Crowd { slot: usize, doc: usize, n: usize, steps: usize },
}
const SLOTS: usize = 3;
const SESSIONS: usize = 6;

/// an entity of the document that cannot be replaced: it refers to itself, or to one that does not exist
fn spoil(d: &str, r: &mut Rng) -> Option<String> {
    let at: Vec<usize> = d.match_indices("<!ENTITY ").map(|m| m.0 + 9).collect();
    let at = *(if at.is_empty() { None } else { Some(r.pick(&at)) })?;
    let rest = &d[at..];
    let name = rest.split_whitespace().next()?;
    let quote = rest.find(['"', '\''])? + 1;
    let other = if r.chance(1, 2) { name } else { "nowhere" };
    Some(format!("{}&{other};{}", &d[..at + quote], &d[at + quote..]))
}

fn generate(r: &mut Rng, thorough: bool) -> Value {
    let mut cases = vec![];
    let mut from = vec![];
    if r.chance(1, 5) {
        let (a, b) = crate::types::twins(r);
        from.extend([a, b]);
        if r.chance(1, 3) {
            from.push(corpus::any(r));
        }
    } else if r.chance(1, 8) {
        // two schemas with the same mistake at different places
        let (p, schema, _) = project(r, |_| {});
        let wrong = mistaken(&p, r);
        for _ in 0..2 {
            let mut files = schema.files.clone();
            for (n, t) in &wrong {
                if r.chance(1, 2) {
                    files.insert(n.clone(), if r.chance(1, 3) { super::c03::lines_moved(r, t, schema.rng_syntax) } else { t.clone() });
                }
            }
            from.push(corpus::Case { rng: schema.rng_syntax, root: schema.root.clone(), files, docs: vec![valid_doc(&p, r, 12)] });
        }
        from.push(corpus::any(r));
    } else {
        from.extend((0..r.range(1, 3)).map(|_| corpus::any(r)));
    }
    for c in from {
        // (hundreds of sessions may have the same one)
        let mut docs: Vec<String> = c.docs.iter().filter(|d| d.len() < 70_000).take(5).cloned().collect();
        if let Some(d) = docs.first().cloned() {
            docs.push(Damage::text(r, &d).apply_text(&d).unwrap_or_default());
            if let Some(d) = crate::pieces::rewrite(&d, crate::pieces::Opts::random(r), r) {
                if r.chance(1, 2) {
                    if let Some(d) = spoil(&d, r) {
                        docs.push(d);
                    }
                }
                docs.push(d);
            }
        }
        docs.retain(|d| d.len() < 100_000);
        cases.push(One { rng: c.rng, root: c.root, files: c.files, docs });
    }
    let actors = if r.chance(1, 2) { 1 } else { r.range(2, 3) };
    let mut ops = vec![];
    for a in 0..actors {
        ops.push((a, Op::Compile { slot: 0, case: r.below(cases.len()), trouble: None }));
        if r.chance(3, 4) {
            ops.push((a, Op::Settle));
        }
    }
    let burst = r.range(1, 6);
    let crowds = r.chance(1, 10);
    for _ in 0..r.range(20, if thorough { 300 } else { 120 }) {
        let a = r.below(actors);
        let slot = if r.chance(2, 3) { 0 } else { r.below(SLOTS) };
        let session = r.below(SESSIONS);
        let op = match r.below(32) {
            0 | 1 => Op::Compile { slot, case: r.below(cases.len()), trouble: if r.chance(1, 3) { Some((r.below(4), if r.chance(1, 2) { 0 } else { libc::EIO })) } else { None } },
            2 | 3 => Op::Resume,
            4 => Op::Settle,
            5..=8 => Op::Open { slot, doc: r.below(8) },
            9..=10 => Op::Diagnose { session },
            11 => Op::Close { session },
            12 => Op::DropModel { slot },
            13 => Op::DropCompiler { slot },
            14 => Op::Dump { slot },
            _ => Op::Step { session, n: r.range(1, burst * 2) },
        };
        let op = if crowds && r.chance(1, 20) {
            Op::Crowd { slot, doc: r.below(8), n: *r.pick(&[15, 40, 64, 128, 255, 256, 256, 257, 300, 600]), steps: if r.chance(1, 4) { 200 } else { r.range(0, 12) } }
        } else {
            op
        };
        let settle = matches!(op, Op::Compile { .. }) && r.chance(1, 2);
        ops.push((a, op));
        if settle {
            ops.push((a, Op::Settle));
        }
    }
    serde_json::to_value(Sc { cases, actors, ops, hash_seed: r.next() }).unwrap()
}

/// what each case gives alone
#[derive(Serialize, Deserialize)]
struct Solo {
    obs: Obs,
    logs: Vec<Vec<Ev>>,
}
/// calls after the end are part of the log
const AFTER: usize = 2;

fn solo(c: &One) -> Solo {
    let mut k = Compiler::new(MemFs(disk(&c.files)), syntax(c.rng));
    let (obs, m) = match observe::compile(&mut k, &c.root) {
        Ok(x) => x,
        Err(p) => return Solo { obs: Obs { ok: false, body: p.text(), diag: "panic".into() }, logs: vec![] },
    };
    let mut logs = vec![];
    if let Ok(m) = m {
        for d in &c.docs {
            let mut v = Validator::new(m.clone(), xmlparser::Tokenizer::from(&d[..]));
            let mut log = vec![];
            let mut r = observe::Rendering::new(2 << 20);
            let mut after = 0;
            for _ in 0..d.len() * 4 + 64 {
                let (e, _) = step(&mut v, d, &mut r);
                after += (e == Ev::End) as usize;
                let stop = matches!(e, Ev::Panic(_)) || after > AFTER;
                log.push(e);
                if stop {
                    break;
                }
            }
            logs.push(log);
        }
    }
    Solo { obs, logs }
}

fn step<'a>(v: &mut Validator<'a>, d: &str, r: &mut observe::Rendering) -> (Ev, Option<ValidatorError<'a>>) {
    match catch(|| v.validate_next()) {
        Err(p) => (Ev::Panic(p.text()), None),
        Ok(None) => (Ev::End, None),
        Ok(Some(Ok(()))) => (Ev::Ok, None),
        Ok(Some(Err(e))) if !r.take(d) => (Ev::Err(format!("{e:?}"), String::new()), None),
        Ok(Some(Err(e))) => match observe::render_doc_error(v, "doc.xml", d, &e) {
            Err(p) => (Ev::Panic(format!("while rendering {e:?}: {}", p.text())), None),
            Ok((t, ..)) => (Ev::Err(format!("{e:?}"), t), Some(e)),
        },
    }
}

// ------------------------------------------------------------------------------------ the actors

enum Msg {
    Do(Op),
    Finish,
}
#[derive(Default)]
struct Reply {
    callback: bool,
    violation: Option<(String, String)>,
    notes: Vec<&'static str>,
}

struct FsState {
    files: BTreeMap<String, String>,
    loads: usize,
    trouble: Option<(usize, i32)>,
}
struct TurnFs {
    state: Rc<RefCell<FsState>>,
    world: Rc<World>,
}
const INJECTED: &str = "storage callback panics (injected)";
impl Files for TurnFs {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        self.world.pause();
        let mut s = self.state.borrow_mut();
        let n = s.loads;
        s.loads += 1;
        if let Some((k, e)) = s.trouble {
            if k == n {
                drop(s);
                if e == 0 {
                    panic!("{INJECTED}");
                }
                return Err(RelaxError::Io(name.to_path_buf(), std::io::Error::from_raw_os_error(e)));
            }
        }
        s.files.get(&norm(&name.to_string_lossy())).cloned().ok_or_else(|| RelaxError::Io(name.to_path_buf(), std::io::Error::from_raw_os_error(libc::ENOENT)))
    }
}

struct Comp {
    c: Compiler<TurnFs>,
    state: Rc<RefCell<FsState>>,
    case: usize,
}
struct Sess {
    v: Validator<'static>,
    doc: &'static str,
    case: usize,
    index: usize,
    at: usize,
    r: observe::Rendering,
    last: Option<(ValidatorError<'static>, String)>,
    dead: bool,
}
struct World {
    cases: &'static [One],
    solos: &'static [Solo],
    rx: Receiver<Msg>,
    tx: Sender<Reply>,
    compilers: RefCell<Vec<Option<Comp>>>,
    models: RefCell<Vec<Option<(usize, Model)>>>,
    sessions: RefCell<Vec<Option<Sess>>>,
    notes: RefCell<Vec<&'static str>>,
    violation: RefCell<Option<(String, String)>>,
}
impl World {
    fn note(&self, s: &'static str) {
        self.notes.borrow_mut().push(s);
    }
    fn violate(&self, class: &str, detail: String) {
        self.violation.borrow_mut().get_or_insert((class.into(), detail));
    }
    fn reply(&self, callback: bool) {
        let _ = self.tx.send(Reply { callback, violation: self.violation.borrow_mut().take(), notes: std::mem::take(&mut self.notes.borrow_mut()) });
    }
    /// inside a storage callback: others get their turn, and so may this one
    fn pause(self: &Rc<World>) {
        self.reply(true);
        loop {
            match self.rx.recv() {
                Ok(Msg::Do(Op::Resume)) | Err(_) => return,
                Ok(Msg::Do(op)) => {
                    self.note("operation inside a storage callback");
                    self.perform(op);
                    self.reply(false);
                }
                Ok(Msg::Finish) => return,
            }
        }
    }
    fn serve(self: &Rc<World>) {
        loop {
            match self.rx.recv() {
                Ok(Msg::Do(op)) => {
                    self.perform(op);
                    self.reply(false);
                }
                Ok(Msg::Finish) | Err(_) => return,
            }
        }
    }
    fn perform(self: &Rc<World>, op: Op) {
        match op {
            Op::Resume | Op::Settle => {}
            Op::Compile { slot, case, trouble } => {
                let old = self.compilers.borrow_mut()[slot].take();
                let one = &self.cases[case];
                let mut k = match old {
                    Some(k) if k.case == case => {
                        self.note("recompiled");
                        k
                    }
                    old => {
                        drop(old);
                        let state = Rc::new(RefCell::new(FsState { files: one.files.clone(), loads: 0, trouble: None }));
                        let fs = TurnFs { state: state.clone(), world: self.clone() };
                        Comp { c: Compiler::new(fs, syntax(one.rng)), state, case }
                    }
                };
                {
                    let mut s = k.state.borrow_mut();
                    s.loads = 0;
                    s.trouble = trouble;
                }
                let r = observe::compile(&mut k.c, &one.root);
                let failed = trouble.is_some_and(|(n, _)| k.state.borrow().loads > n);
                let want = &self.solos[case].obs;
                match r {
                    Ok((_, Ok(_))) if failed => {
                        // nothing says that a load cannot be made twice
                        self.note("recovered from failing storage");
                    }
                    Ok((_, Err(_))) if failed => self.note("compile failed with its storage"),
                    Err(p) if failed && p.msg == INJECTED => self.note("storage callback panicked"),
                    Ok((o, m)) => {
                        self.note("compiled");
                        if let Some(d) = want.diff(&o) {
                            self.violate("compile-differs", format!("alone, then among others:\n{d}"));
                        }
                        if let Ok(m) = m {
                            self.models.borrow_mut()[slot] = Some((case, m));
                        }
                    }
                    Err(p) => {
                        if want.diag != "panic" || want.body != p.text() {
                            self.violate("compile-differs", format!("alone: {}\namong others: {}", want.short(), p.text()));
                        }
                    }
                }
                self.compilers.borrow_mut()[slot] = Some(k);
            }
            Op::Open { slot, doc } => {
                let models = self.models.borrow();
                let Some((case, m)) = &models[slot] else { return };
                let docs = &self.cases[*case].docs;
                if docs.is_empty() {
                    return;
                }
                let index = doc % docs.len();
                let d: &'static str = &docs[index];
                let v = match catch(|| Validator::new(m.clone(), xmlparser::Tokenizer::from(d))) {
                    Ok(v) => v,
                    Err(p) => return self.violate("session-differs", format!("creating a session: {}", p.text())),
                };
                let mut ss = self.sessions.borrow_mut();
                let free = ss.iter().position(|s| s.is_none());
                let i = free.unwrap_or(doc % SESSIONS);
                ss[i] = Some(Sess { v, doc: d, case: *case, index, at: 0, r: observe::Rendering::new(2 << 20), last: None, dead: false });
                if ss.iter().filter(|s| s.is_some()).count() > 1 {
                    self.note("sessions side by side");
                }
            }
            Op::Crowd { slot, doc, n, steps } => {
                let models = self.models.borrow();
                let Some((case, m)) = &models[slot] else { return };
                let docs = &self.cases[*case].docs;
                for i in 0..n {
                    if docs.is_empty() || self.violation.borrow().is_some() {
                        return;
                    }
                    let index = (doc + i) % docs.len();
                    let d: &'static str = &docs[index];
                    let want = &self.solos[*case].logs[index];
                    let mut r = observe::Rendering::new(2 << 20);
                    let done = catch(|| {
                        let mut v = Validator::new(m.clone(), xmlparser::Tokenizer::from(d));
                        for at in 0..steps.min(want.len()) {
                            let (e, _) = step(&mut v, d, &mut r);
                            if e != want[at] {
                                self.violate("session-differs", format!("step {at} of document {index} of schema {case}, in session {i} of many; alone:\n{:?}\namong others:\n{e:?}\ndocument: {}", want[at], clip(d, 1500)));
                                return;
                            }
                            if matches!(e, Ev::Panic(_)) {
                                return;
                            }
                        }
                    });
                    if let Err(p) = done {
                        return self.violate("session-differs", format!("creating a session: {}", p.text()));
                    }
                }
                self.note("many sessions abandoned");
            }
            Op::Step { session, n } => {
                let mut ss = self.sessions.borrow_mut();
                let Some(s) = &mut ss[session] else { return };
                let want = &self.solos[s.case].logs[s.index];
                for _ in 0..n {
                    if s.dead || s.at >= want.len() {
                        return;
                    }
                    let (e, err) = step(&mut s.v, s.doc, &mut s.r);
                    self.note("step");
                    if e != want[s.at] {
                        let show = |e: &Ev| match e {
                            Ev::Err(e, d) => format!("{}\n{}", clip(e, 300), clip(d, 900)),
                            e => format!("{e:?}"),
                        };
                        self.violate("session-differs", format!("step {} of document {} of schema {}; alone:\n{}\namong others:\n{}\ndocument: {}", s.at, s.index, s.case, show(&want[s.at]), show(&e), clip(s.doc, 1500)));
                        s.dead = true;
                        return;
                    }
                    s.at += 1;
                    s.dead = matches!(e, Ev::Panic(_));
                    if let (Some(err), Ev::Err(_, t)) = (err, e) {
                        s.last = Some((err, t));
                    }
                }
            }
            Op::Diagnose { session } => {
                let mut ss = self.sessions.borrow_mut();
                let Some(s) = &mut ss[session] else { return };
                let Some((e, t)) = &s.last else { return };
                // what is expected is that of the present state, so only an error just found has a fixed answer
                let fresh = matches!(self.solos[s.case].logs[s.index].get(s.at.wrapping_sub(1)), Some(Ev::Err(..)));
                match observe::render_doc_error(&s.v, "doc.xml", s.doc, e) {
                    Ok((u, ..)) if fresh && u != *t => self.violate("diagnostic-differs", format!("{t}\nversus\n{u}")),
                    Ok(_) => self.note("diagnosed again"),
                    Err(p) => self.violate("diagnostic-differs", format!("{t}\nversus {}", p.text())),
                }
            }
            Op::Close { session } => {
                if self.sessions.borrow_mut()[session].take().is_some() {
                    self.note("session abandoned");
                }
            }
            Op::DropModel { slot } => {
                if self.models.borrow_mut()[slot].take().is_some() {
                    self.note("schema dropped");
                }
            }
            Op::DropCompiler { slot } => {
                let k = self.compilers.borrow_mut()[slot].take();
                if k.is_some() {
                    self.note("compiler dropped");
                }
            }
            Op::Dump { slot } => {
                let models = self.models.borrow();
                let Some((case, m)) = &models[slot] else { return };
                self.note("schema examined");
                match catch(|| observe::dump(m)) {
                    Ok(d) if d == self.solos[*case].obs.body => {}
                    Ok(d) => {
                        let o = Obs { ok: true, body: d, diag: String::new() };
                        self.violate("schema-changes", self.solos[*case].obs.diff(&o).unwrap_or_default());
                    }
                    Err(p) => self.violate("schema-changes", p.text()),
                }
            }
        }
    }
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    crate::io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let mut solos = vec![];
    for c in &sc.cases {
        match in_fork(|| solo(c)) {
            Ok(s) => solos.push(s),
            Err(e) => return rep.violate("alone", e),
        }
    }
    let cases: &'static [One] = Box::leak(sc.cases.into_boxed_slice());
    let solos: &'static [Solo] = Box::leak(solos.into_boxed_slice());
    crate::io::seed(sc.hash_seed);
    let r: Result<(), Panic> = std::thread::scope(|scope| {
        let mut actors = vec![];
        for _ in 0..sc.actors {
            let (tx, arx) = channel::<Msg>();
            let (atx, rx) = channel::<Reply>();
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(scope, move || {
                    let w = Force(Rc::new(World {
                        cases,
                        solos,
                        rx: arx,
                        tx: atx,
                        compilers: RefCell::new((0..SLOTS).map(|_| None).collect()),
                        models: RefCell::new((0..SLOTS).map(|_| None).collect()),
                        sessions: RefCell::new((0..SESSIONS).map(|_| None).collect()),
                        notes: Default::default(),
                        violation: Default::default(),
                    }));
                    let r = catch(|| w.0.serve());
                    // the compilers hold on to the world
                    let c = std::mem::take(&mut *w.0.compilers.borrow_mut());
                    drop(c);
                    Force(r)
                })
                .expect("spawn");
            actors.push((tx, rx, 0usize, Some(h)));
        }
        // one operation at a time, on the thread that the schedule names
        let mut turn = |actors: &mut Vec<(Sender<Msg>, Receiver<Reply>, usize, _)>, a: usize, op: Op| -> bool {
            let resume = matches!(op, Op::Resume);
            if resume && actors[a].2 == 0 {
                return true;
            }
            // compiles inside callbacks inside callbacks are enough
            if matches!(op, Op::Compile { .. }) && actors[a].2 >= 2 {
                return true;
            }
            if resume {
                actors[a].2 -= 1;
            }
            rep.mix(&format!("{a}{op:?}"));
            if actors[a].0.send(Msg::Do(op)).is_err() {
                return false;
            }
            let Ok(reply) = actors[a].1.recv() else { return false };
            if reply.callback {
                actors[a].2 += 1;
            }
            for n in reply.notes {
                match n {
                    "step" => rep.steps += 1,
                    "compile failed with its storage" | "storage callback panicked" | "session abandoned" | "many sessions abandoned" | "compiler dropped" | "schema dropped" | "operation inside a storage callback" => rep.fault(n),
                    n => rep.probe(n),
                }
                if n == "sessions side by side" {
                    rep.nontrivial = true;
                }
            }
            if let Some((c, d)) = reply.violation {
                rep.violate(&c, d);
                return false;
            }
            true
        };
        let mut good = true;
        for (a, op) in &sc.ops {
            let a = a % sc.actors;
            if let Op::Settle = op {
                while good && actors[a].2 > 0 {
                    good = turn(&mut actors, a, Op::Resume);
                }
                if !good {
                    break;
                }
                continue;
            }
            if !turn(&mut actors, a, op.clone()) {
                good = false;
                break;
            }
        }
        for a in 0..sc.actors {
            while good && actors[a].2 > 0 {
                good = turn(&mut actors, a, Op::Resume);
            }
            // all sessions run to their end, and the schemas are as they were
            for s in 0..SESSIONS {
                good = good && turn(&mut actors, a, Op::Step { session: s, n: usize::MAX });
            }
            for s in 0..SLOTS {
                good = good && turn(&mut actors, a, Op::Dump { slot: s });
            }
        }
        let mut out = Ok(());
        for (tx, rx, _, h) in actors {
            let _ = tx.send(Msg::Finish);
            drop(tx);
            drop(rx);
            match h.unwrap().join() {
                Ok(Force(Ok(()))) => {}
                Ok(Force(Err(p))) => out = Err(p),
                Err(_) => out = Err(Panic { msg: "thread died".into(), file: "?".into(), line: 0 }),
            }
        }
        out
    });
    if let Err(p) = r {
        if p.file.contains("relaxng-") {
            return rep.violate("panic", p.text());
        }
        panic!("{}:{}: {}", p.file, p.line, p.msg);
    }
    if sc.actors > 1 {
        rep.probe("several threads");
    }
}
