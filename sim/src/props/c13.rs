//! C13: the command-line tool
use super::Prop;
use super::c01::hard_fault;
use crate::common::*;
use crate::damage::Damage;
use crate::gram::{self, Cfg};
use crate::io::{Effect, Fault, ODD, OP_OPEN, OP_OUT, OP_READ, OP_SEEK, OP_STAT, OP_WRITE, Plan, raw};
use crate::memfs::{MemFs, disk};
use crate::observe::{self, Verdict};
use crate::render::{self, Rendered};
use crate::report::Report;
use crate::util::{Rng, clip, spell, strip_ansi};
use relaxng_model::Compiler;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub const PROP: Prop = Prop {
    id: "C13",
    generate,
    run,
    shrink: &["/faults", "/docs"],
    quick: 40_000,
    thorough: 400_000,
    rule: "The real rng program, with a compact-syntax schema of one or more files and 0-6 documents: valid, invalid, truncated, damaged, torn behind their end, missing, directories, not UTF-8, repeated, alike, or one of the schema's own files; with hard faults, short reads and EINTR on any of the files, and write errors on standard error and standard output. Non-trivial: something is wrong, or a disturbance took effect.",
    real: "the rng program (relaxng-tool) with everything below it, as a process of its own",
    stub: "open/read/stat/lseek/close of the files, getrandom, write(2) to standard error and standard output, by LD_PRELOAD",
    budget: (200_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    /// how the file to start from is called
    root: String,
    /// the schema itself is wrong
    schema_bad: Option<String>,
    /// in this file
    schema_at: Option<String>,
    decoys: BTreeMap<String, String>,
    docs: Vec<Arg>,
    faults: Vec<Fault>,
    chunks: BTreeMap<String, u32>,
    hash_seed: u64,
}
#[derive(Clone, Serialize, Deserialize)]
struct Arg {
    path: String,
    /// none: there is no such file
    bytes: Option<Vec<u8>>,
    dir: bool,
    bad: Option<String>,
    /// how it is called on the command line
    name: String,
    /// whether it is bad is what the library says (with the schema as it is)
    judge: bool,
}

fn schema(r: &mut Rng) -> (gram::Project, Cfg, Rendered, Option<(String, String)>) {
    loop {
        let mut c = Cfg::random(r);
        c.rng_syntax = false;
        let mut p = gram::generate(r, &c);
        if r.chance(1, 8) {
            // a mistake, in any of the files
            let x = r.below(p.files.len());
            let (what, t) = *r.pick(&[
                ("undefined reference", "zzmark"),
                ("syntax error", "@zzmark@"),
                ("undefined namespace prefix", "element zz:zzmark { empty }"),
                ("unknown datatype", "xsd:zzmark"),
                ("missing file", "external \"zz-missing.rnc\""),
                ("recursive inclusion", "external \"main.rnc\""),
            ]);
            if what.starts_with("recursive") && x != 0 {
                continue;
            }
            if !super::c05::plant_pat(&mut p, x, r, gram::Pat::Raw(t.into())) {
                continue;
            }
            let out = render::render(&p, r);
            if x != 0 && !super::c05::reach(&out.links, &out.root).contains(&p.files[x].path) {
                continue;
            }
            let at = p.files[x].path.clone();
            return (p, c, out, Some((what.into(), at)));
        }
        let out = render::render(&p, r);
        return (p, c, out, None);
    }
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (p, c, mut schema, mistake) = schema(r);
    let (schema_bad, mut schema_at) = mistake.unzip();
    // (a file that refers to itself does so by its old name)
    if r.chance(1, 25) && schema_bad.as_deref() != Some("recursive inclusion") {
        if let Some(t) = schema.files.remove(&schema.root) {
            let dot = schema.root.rfind('.').unwrap_or(schema.root.len());
            let mut name = schema.root.clone();
            name.insert(dot, ODD);
            if schema_at.as_ref() == Some(&schema.root) {
                schema_at = Some(name.clone());
            }
            schema.files.insert(name.clone(), t);
            schema.root = name;
        }
    }
    let mut decoys = if r.chance(1, 3) { decoys(r, &schema) } else { Default::default() };
    pad(r, &mut schema);
    let mut args: Vec<Arg> = vec![];
    let mut n = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4, 6]);
    if r.chance(1, 40) {
        n = r.range(8, 40);
    }
    let calm = r.chance(1, 3);
    // many documents that start alike
    let alike = if r.chance(1, 5) { Some((*r.pick(&[1000usize, 4100, 8185, 16384, 70_000]), r.next())) } else { None };
    for i in 0..n {
        let stem = *r.pick(&["doc", "a doc", "dokument-é", "d.d"]);
        let ext = if r.chance(1, 4) { *r.pick(&["", ".XML", ".txt", ".xhtml", ".svg", ".rnc", ".rng", ".bak", ".xml.bak", ".xml~", ".gz", ".xml.", ".json", ". xml", ".html", ".tmp", ".part", ".swp", ".xsl"]) } else { ".xml" };
        let stem = if r.chance(1, 30) { "#doc" } else if r.chance(1, 30) { ".doc" } else { stem };
        // (names are bytes, not necessarily characters)
        let odd = if r.chance(1, 20) { ODD.to_string() } else { String::new() };
        let mut path = format!("/simfs/{}/{stem}{i}{odd}{ext}", r.pick(&["p", "docs", "docs/more"]));
        if !args.is_empty() && r.chance(1, 4) {
            // the name of a document there already, nearly: it is another one
            let was = r.pick(&args).path.clone();
            let file = was.rsplit('/').next().unwrap_or(&was);
            let near = match r.below(7) {
                0 | 1 => format!("/simfs/p/{file}"),
                2 => format!("/simfs/docs/{file}"),
                3 => format!("/simfs/docs/more/{file}"),
                4 => was.replace("doc", "DOC"),
                5 => was.replace(".xml", ".xhtml"),
                _ => format!("{was}.xml"),
            };
            if args.iter().all(|a: &Arg| a.path != near) && !schema.files.contains_key(&near) {
                path = near;
            }
        }
        if !args.is_empty() && r.chance(1, 12) {
            let again = r.pick(&args).clone();
            args.push(again);
            continue;
        }
        let good = calm || r.chance(4, 5);
        let mut v = if schema_bad.is_some() { vec![Doc { text: "<x/>".into(), valid: true, what: "?".into() }] } else { docs(&p, &c, r, good as usize, !good as usize) };
        let Some(d) = v.pop() else { continue };
        let mut bad = if d.valid { None } else { Some(format!("invalid ({})", d.what)) };
        let mut bytes = Some(d.text.clone().into_bytes());
        let mut dir = false;
        if !calm && bad.is_none() {
            match r.below(16) {
                0 => {
                    bytes = None;
                    bad = Some("missing".into());
                }
                1 => {
                    bytes = None;
                    dir = true;
                    bad = Some("a directory".into());
                }
                2 => {
                    let mut b = d.text.clone().into_bytes();
                    let at = r.below(b.len() + 1);
                    b.insert(at, 0xff);
                    bytes = Some(b);
                    bad = Some("not UTF-8".into());
                }
                3 | 4 => {
                    let t = Damage::Truncate(r.below(d.text.len())).apply(d.text.as_bytes());
                    let torn = match String::from_utf8(t.clone()) {
                        Ok(t) => super::c08::parse(&t).is_err(),
                        Err(_) => true,
                    };
                    if torn {
                        bytes = Some(t);
                        bad = Some("truncated".into());
                    }
                }
                5 => {
                    let size = *r.pick(&[8190usize, 8192, 70000]);
                    let mut t = d.text.clone();
                    while t.len() < size {
                        t.push_str("\n<!-- é padding -->");
                    }
                    bytes = Some(t.into_bytes());
                }
                6 => {
                    bytes = Some(vec![]);
                    bad = Some("empty".into());
                }
                7..=9 => {
                    // damaged in some other way, or with something left over behind it
                    let b = d.text.as_bytes();
                    let t = match r.below(3) {
                        0 => {
                            let mut t = b.to_vec();
                            if r.chance(1, 2) {
                                t.truncate(t.len() - t.iter().rev().take_while(|c| b" \n".contains(c)).count());
                            }
                            let x = *r.pick(&["\0", "\0\0\0\0", "\u{1a}", "<", "</", "x", ">", "]]>", "&lt;", "&#32;", "<![CDATA[]]>", "<?xml version=\"1.0\"?>", "<!DOCTYPE x>", "<a/>", "<a", "\u{feff}", "\u{a0}", "--", "\n\0", "\u{4}"]);
                            let n = if x == "\0" { r.range(1, 5000) } else { 1 };
                            t.extend(x.repeat(n).into_bytes());
                            t
                        }
                        1 => {
                            let at = r.below(b.len());
                            Damage::Zero(at, b.len() - at).apply(b)
                        }
                        _ => Damage::random(r, b.len()).apply(b),
                    };
                    let torn = match std::str::from_utf8(&t) {
                        Ok(t) => super::c08::parse(t).is_err(),
                        Err(_) => true,
                    };
                    if torn {
                        bytes = Some(t);
                        bad = Some("damaged".into());
                    }
                }
                _ => {}
            }
        }
        let mut judge = false;
        if !calm && bad.is_none() && schema_bad.is_none() && r.chance(1, 8) {
            if let Some(d) = crate::common::mutants(&p, r, 1).pop() {
                bytes = Some(d.into_bytes());
                judge = true;
            }
        }
        if !calm && bad.is_none() && !judge && schema_bad.is_none() && r.chance(1, 10) {
            // a document there was already, but for one letter
            let was: Vec<&Arg> = args.iter().filter(|a| a.bad.is_none() && !a.judge && a.bytes.is_some()).collect();
            if !was.is_empty() {
                let mut b = r.pick(&was).bytes.clone().unwrap();
                if let Some(at) = b.windows(2).rposition(|w| w == b"</") {
                    b[at + 2] = if b[at + 2] == b'q' { b'z' } else { b'q' };
                    if String::from_utf8(b.clone()).is_ok_and(|t| super::c08::parse(&t).is_err()) {
                        bytes = Some(b);
                        bad = Some("like another document, but with a wrong end tag".into());
                    }
                }
            }
        }
        if let (Some(b), true) = (&mut bytes, if alike.is_some() { r.chance(4, 5) } else { r.chance(1, 20) } && !bad.as_ref().is_some_and(|b| b.starts_with("like"))) {
            // the document proper comes late
            let mut size = *r.pick(&[4000usize, 8185, 16384, 70_000, 300_000, 1_200_000]);
            let mut own = Rng::new(r.next());
            if let Some((n, seed)) = alike {
                size = n;
                own = Rng::new(seed);
            }
            let r = &mut own;
            let mut t = String::from("<!-- ");
            while t.len() < size {
                t.push_str(r.pick(&["é padding ", "more\n", "日本"]));
            }
            t.push_str("-->");
            let mark = if b.starts_with(&[0xef, 0xbb, 0xbf]) { 3 } else { 0 };
            let at = if b[mark..].starts_with(b"<?xml") { b.iter().position(|c| *c == b'>').map_or(0, |i| i + 1) } else { mark };
            if std::str::from_utf8(b).is_ok() && (at > 0 || !b.is_empty()) {
                b.splice(at..at, t.into_bytes());
            }
        }
        let name = if r.chance(1, 4) { spell(r, &path) } else { path.clone() };
        args.push(Arg { path, bytes, dir, bad, name, judge });
    }
    if !calm && r.chance(1, 25) {
        // a schema file that got among the documents
        let names: Vec<&String> = schema.files.keys().collect();
        let path = if r.chance(1, 2) { schema.root.clone() } else { (*r.pick(&names)).clone() };
        if let Some(t) = schema.files.get(&path) {
            let name = if r.chance(1, 2) { spell(r, &path) } else { path.clone() };
            let at = r.below(args.len() + 1);
            args.insert(at, Arg { bytes: Some(t.clone().into_bytes()), path, dir: false, bad: Some("a schema".into()), name, judge: false });
        }
    }
    // documents nobody asked for, next to those that were
    if r.chance(1, 4) {
        for a in &args {
            let (dir, file) = a.path.rsplit_once('/').unwrap();
            let stem = file.strip_suffix(".xml").unwrap_or(file);
            for n in [
                format!("{dir}/{file}~"), format!("{dir}/{file}.bak"), format!("{dir}/{file}.orig"), format!("{dir}/{file}.xml"), format!("{dir}/.{file}.swp"), format!("{dir}/{stem}"), format!("{dir}/{stem}.XML"),
                format!("{dir}/{}", file.to_uppercase()), format!("/simfs/p/{file}"), format!("/simfs/{file}"), format!("/simfs/docs/{file}"), format!("{}/{file}", crate::util::CWD),
            ] {
                if args.iter().all(|b| b.path != n) && !schema.files.contains_key(&n) && r.chance(1, 2) {
                    let other = r.pick(&args).bytes.clone().and_then(|b| String::from_utf8(b).ok());
                    decoys.entry(n).or_insert(other.unwrap_or_else(|| "<decoy/>".into()));
                }
            }
        }
    }
    let mut chunks = BTreeMap::new();
    let mut faults = vec![];
    let mut names: Vec<(String, usize)> = schema.files.iter().map(|(k, t)| (k.clone(), t.len())).collect();
    names.extend(args.iter().filter_map(|a| a.bytes.as_ref().map(|b| (a.path.clone(), b.len()))));
    for (n, _) in &names {
        if r.chance(1, 4) {
            chunks.insert(n.clone(), 1 << r.range(0, 12) as u32);
        }
    }
    if r.chance(1, 2) {
        // harmless
        for _ in 0..r.range(1, 4) {
            let (n, len) = r.pick(&names).clone();
            let (op, effect) = match r.below(5) {
                0 => (OP_READ, Effect::Errno(libc::EINTR)),
                1 => (OP_OPEN, Effect::Errno(libc::EINTR)),
                2 => (OP_READ, Effect::Short(r.range(1, 100) as u32)),
                3 => (OP_STAT, Effect::Size(r.below(len * 2 + 2) as i64)),
                _ => (OP_SEEK, Effect::Errno(libc::ESPIPE)),
            };
            let nth = r.below(3) as u32;
            // the same over and over, for an interruption
            let k = if matches!(effect, Effect::Errno(libc::EINTR)) { super::c02::many(r, 2) } else { 1 };
            faults.extend((nth..nth + k).map(|nth| Fault { path: n.clone(), op, nth, effect: effect.clone() }));
        }
    }
    if !calm && r.chance(1, 3) {
        let (n, _) = r.pick(&names).clone();
        let text = schema.files.get(&n).map(|t| t.as_bytes()).or(args.iter().find(|a| a.path == n).and_then(|a| a.bytes.as_deref())).unwrap_or_default();
        let f = hard_fault(r, &n, text, chunks.get(&n).copied());
        // a second wrong byte may make up for the first
        let torn = args.iter().any(|a| a.path == n && a.bytes.as_ref().is_some_and(|b| std::str::from_utf8(b).is_err()));
        if !(torn && matches!(f.effect, Effect::Flip(..) | Effect::At(..))) {
            faults.push(f);
        }
    }
    if !calm && r.chance(1, 4) {
        let e = *r.pick(&[libc::EIO, libc::EPIPE, libc::ENOSPC, libc::EINTR, libc::EAGAIN]);
        let nth = if e == libc::EINTR { r.below(3) as u32 } else { *r.pick(&[0, 1, 2, 3, 5, u32::MAX]) };
        let effect = if r.chance(1, 4) { Effect::Short(r.range(1, 20) as u32) } else { Effect::Errno(e) };
        faults.push(Fault { path: "<stderr>".into(), op: OP_WRITE, nth, effect });
    }
    if !calm && r.chance(1, 4) {
        // (what is written there, about annotations, nobody relies on)
        let e = *r.pick(&[libc::EIO, libc::EPIPE, libc::ENOSPC, libc::EAGAIN, libc::EINTR, libc::EBADF]);
        let nth = if e == libc::EINTR { r.below(3) as u32 } else { *r.pick(&[0, 1, 2, u32::MAX, u32::MAX]) };
        let effect = if r.chance(1, 4) { Effect::Short(r.range(1, 20) as u32) } else { Effect::Errno(e) };
        faults.push(Fault { path: "<stderr>".into(), op: OP_OUT, nth, effect });
    }
    // (which of its two readers would be hit, is not for us to say)
    faults.retain(|f| !(schema.files.contains_key(&f.path) && args.iter().any(|a| a.path == f.path)));
    let root = if r.chance(1, 4) { spell(r, &schema.root) } else { schema.root.clone() };
    serde_json::to_value(Sc { schema, root, schema_bad, schema_at, decoys, docs: args, faults, chunks, hash_seed: r.next() }).unwrap()
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    err: String,
    log: String,
}

fn launch(plan: &Plan, args: &[String]) -> Ran {
    let dir = std::env::var("RNGSIM_TMP").expect("RNGSIM_TMP");
    let base = format!("{dir}/rng-{}", std::process::id());
    let (pf, lf) = (format!("{base}.plan"), format!("{base}.log"));
    std::fs::write(&pf, plan.encode()).expect("plan");
    let exe = std::env::current_exe().unwrap().with_file_name("rng");
    let mut c = Command::new(exe);
    c.arg("validate").args(args.iter().map(|a| OsString::from_vec(raw(a))));
    c.env_clear().env("LD_PRELOAD", env!("SIMIO_SO")).env("SIMIO_PLAN", &pf).env("SIMIO_LOG", &lf);
    c.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            let lim = |k, n| {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(k, &l);
            };
            lim(libc::RLIMIT_CPU, 30);
            lim(libc::RLIMIT_AS, 8 << 30);
            lim(libc::RLIMIT_CORE, 0);
            libc::alarm(0);
            Ok(())
        });
    }
    let o = c.output().expect("cannot run the rng program");
    let log = String::from_utf8_lossy(&std::fs::read(&lf).unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&pf);
    let _ = std::fs::remove_file(&lf);
    let mut err = strip_ansi(&String::from_utf8_lossy(&o.stderr));
    // the thread number in the report of a panic
    if let Some(i) = err.find("thread 'main' (") {
        if let Some(n) = err[i..].find(')') {
            err.replace_range(i + 13..i + n + 1, " (1)");
        }
    }
    Ran { code: o.status.code(), signal: o.status.signal(), err, log }
}

/// the part of a name that a message has to contain
fn base(p: &str) -> &str {
    shown(p.rsplit('/').next().unwrap())
}
fn shown(p: &str) -> &str {
    p.split(ODD).next().unwrap()
}

fn run(v: &Value, rep: &mut Report) {
    let mut sc: Sc = serde_json::from_value(v.clone()).unwrap();
    if sc.docs.iter().any(|d| d.judge) {
        crate::io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
        let mut c = Compiler::new(MemFs(disk(&sc.schema.files)), observe::syntax(false));
        let m = match observe::compile(&mut c, &sc.schema.root) {
            Ok((_, Ok(m))) => m,
            _ => return rep.skip("the schema is not accepted"),
        };
        for d in sc.docs.iter_mut().filter(|d| d.judge) {
            let t = String::from_utf8(d.bytes.clone().unwrap_or_default()).unwrap();
            match observe::verdict(&observe::session(&m, &t, false)) {
                Verdict::Valid => rep.probe("changed document that the library accepts"),
                Verdict::Invalid(e) => {
                    rep.probe("changed document that the library rejects");
                    d.bad = Some(format!("not what the library accepts: {e}"));
                }
                _ => return rep.skip("more than 2^16 patterns"),
            }
        }
        crate::io::load(&Plan::default());
    }
    crate::io::reset();
    let mut plan = Plan { seed: Some(sc.hash_seed), faults: sc.faults.clone(), chunks: sc.chunks.clone(), ..Plan::of(&sc.schema.files) };
    for (n, t) in &sc.decoys {
        plan.files.insert(n.clone(), vec![t.clone().into_bytes()]);
    }
    plan.capture = false;
    for d in &sc.docs {
        if let Some(b) = &d.bytes {
            plan.files.insert(d.path.clone(), vec![b.clone()]);
        }
        if d.dir {
            plan.dirs.push(d.path.clone());
        }
    }
    let mut args = vec![sc.root.clone()];
    args.extend(sc.docs.iter().map(|d| d.name.clone()));
    let ran = launch(&plan, &args);
    rep.steps += steps_of_log(&ran.log);
    rep.mix(&ran.log);
    rep.mix(&ran.err);
    let fired: Vec<&Fault> = ran.log.lines().filter_map(|l| l.strip_prefix("fault ")).filter_map(|n| sc.faults.get(n.parse::<usize>().ok()?)).collect();
    for f in &fired {
        rep.fault(&f.kind());
    }
    let text = || format!("status {:?}, signal {:?}\nstandard error:\n{}\nsystem calls:\n{}", ran.code, ran.signal, clip(&ran.err, 1500), clip(&ran.log, 2500));
    if !ran.log.contains(&format!("open {}", shown(&sc.schema.root))) {
        panic!("the rng program did not get to its schema: {}", text());
    }
    if ran.code == Some(98) || ran.code == Some(99) {
        panic!("the preloaded simulator failed: {}", text());
    }
    // what went wrong, in the order of the work
    let hard = |path: &str| {
        fired.iter().any(|f| {
            f.path == path
                && match f.effect {
                    Effect::Errno(e) => e != libc::EINTR && (f.op == OP_OPEN || f.op == OP_READ),
                    Effect::Flip(..) | Effect::At(..) => true,
                    _ => false,
                }
        })
    };
    // a size that no memory can hold may or may not matter
    let maybe = |path: &str| fired.iter().any(|f| f.path == path && matches!(f.effect, Effect::Size(n) if n > 1 << 40));
    let stderr = fired.iter().any(|f| f.op == OP_WRITE && matches!(f.effect, Effect::Errno(e) if e != libc::EINTR));
    let schema_fault = sc.schema.files.keys().find(|f| hard(f));
    let schema_maybe = sc.schema.files.keys().any(|f| maybe(f));
    let bad_doc = sc.docs.iter().position(|d| d.bad.is_some() || hard(&d.path));
    let doc_maybe = sc.docs.iter().any(|d| maybe(&d.path));
    rep.nontrivial = sc.schema_bad.is_some() || bad_doc.is_some() || !fired.is_empty();
    if let Some(s) = ran.signal {
        return rep.violate("killed", format!("by signal {s}; {}", text()));
    }
    let code = ran.code.unwrap_or(-1);
    let expect = if sc.schema_bad.is_some() || schema_fault.is_some() {
        1
    } else if schema_maybe && code == 1 {
        rep.probe("gave up on a schema file of enormous size");
        1
    } else if bad_doc.is_some() || (doc_maybe && code == 2) {
        2
    } else {
        0
    };
    let why = match (expect, &sc.schema_bad, schema_fault, bad_doc) {
        (1, Some(s), ..) => format!("the schema is wrong: {s}"),
        (1, _, Some(f), _) => format!("the schema file {f} cannot be read"),
        (2, _, _, Some(i)) => format!("document {i} ({}) is {}", sc.docs[i].path, sc.docs[i].bad.as_deref().unwrap_or("unreadable")),
        _ => "all is well".into(),
    };
    if stderr {
        // whatever it could not say, it must not claim success
        if expect != 0 && code == 0 {
            return rep.violate("false-success", format!("{why}, and standard error fails; {}", text()));
        }
        rep.probe("standard error failed");
        return;
    }
    if code != expect {
        let class = if code == 0 { "false-success" } else if expect == 0 { "false-failure" } else { "wrong-status" };
        return rep.violate(class, format!("{why}; expected status {expect}; {}", text()));
    }
    rep.probe(["success", "schema at fault", "document at fault"][expect as usize]);
    match (expect, bad_doc) {
        (1, _) => {
            if let Some(f) = schema_fault {
                if sc.schema_bad.is_none() && !ran.err.contains(base(f)) {
                    return rep.violate("unnamed", format!("{why}; {}", text()));
                }
            } else if (!schema_maybe && !sc.schema_at.as_ref().is_none_or(|f| ran.err.contains(base(f)))) || ran.err.trim().is_empty() {
                return rep.violate("unnamed", format!("{why}; {}", text()));
            }
        }
        (2, Some(i)) if !doc_maybe => {
            // by its own name, where another's would look like it
            let at = &sc.docs[i];
            let alike = |name: &str| sc.docs[..i].iter().any(|e| e.path != at.path && e.path.contains(name));
            let named = if alike(base(&at.path)) { ran.err.contains(shown(&at.name)) || ran.err.contains(shown(&at.path)) } else { ran.err.contains(base(&at.path)) };
            if !named {
                return rep.violate("unnamed", format!("{why}; {}", text()));
            }
            for d in &sc.docs[i + 1..] {
                if sc.docs[..=i].iter().all(|e| !e.path.contains(base(&d.path))) && d.bad.is_some() && ran.err.contains(base(&d.path)) {
                    return rep.violate("names-a-later-one", format!("{why}, but {} is named; {}", d.path, text()));
                }
            }
        }
        _ => {}
    }
}
