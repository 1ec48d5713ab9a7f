//! C01: hard storage faults while a schema is loaded
use super::Prop;
use crate::common::*;
use crate::io::{self, Effect, Fault, OP_OPEN, OP_READ, OP_STAT, Plan};
use crate::observe;
use crate::render::Rendered;
use crate::report::Report;
use crate::util::{Rng, norm, spell};
use relaxng_model::{Compiler, FsFiles, RelaxError};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::ErrorKind;

pub const PROP: Prop = Prop {
    id: "C01",
    generate,
    run,
    shrink: &["/faults"],
    quick: 90_000,
    thorough: 400_000,
    rule: "A random multi-file schema is loaded by the real FsFiles over the simulated disk with 1-3 scripted hard faults (open/read errors, bytes that are not UTF-8, sizes beyond memory) and random read chunking. Non-trivial: a fault took effect.",
    real: "relaxng-model (FsFiles, Compiler), relaxng-syntax, std::fs",
    stub: "open/read/fstat/lseek/close system calls, randomness",
    budget: (40_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    /// how the file to start from is called
    root: String,
    /// other files of the same names
    decoys: BTreeMap<String, String>,
    faults: Vec<Fault>,
    chunks: BTreeMap<String, u32>,
    hash_seed: u64,
}

pub const OPEN_ERR: [i32; 12] = [
    libc::ENOENT,
    libc::EACCES,
    libc::EIO,
    libc::EMFILE,
    libc::ENFILE,
    libc::ENOMEM,
    libc::ELOOP,
    libc::ENOTDIR,
    libc::EPERM,
    libc::ESTALE,
    libc::EISDIR,
    libc::ETIMEDOUT,
];
pub const READ_ERR: [i32; 7] = [
    libc::EIO,
    libc::EISDIR,
    libc::ESTALE,
    libc::ENOMEM,
    libc::EAGAIN,
    libc::EINVAL,
    libc::ETIMEDOUT,
];

pub fn hard_fault(r: &mut Rng, path: &str, text: &[u8], chunk: Option<u32>) -> Fault {
    let len = text.len();
    let reads = len / chunk.unwrap_or(1 << 20).max(1) as usize + 2;
    let nth = if r.chance(1, 3) { r.below(2) } else { r.below(reads) } as u32;
    let p = path.to_string();
    match r.below(10) {
        0..=3 => Fault { path: p, op: OP_OPEN, nth: 0, effect: Effect::Errno(*r.pick(&OPEN_ERR)) },
        4..=6 => Fault { path: p, op: OP_READ, nth, effect: Effect::Errno(*r.pick(&READ_ERR)) },
        7 if len > 0 => {
            // a wrong byte at the start, at the end (where a character is missing its rest) or anywhere
            let at = match r.below(4) {
                0 => len - 1,
                1 => len - r.range(1, len.min(3)),
                2 => r.below(len.min(4)),
                _ => r.below(len),
            };
            let to = *r.pick(&[0x80, 0xc3, 0xe2, 0xef, 0xf0, 0xff, 0xc0, 0xed, 0xf8]);
            let mut v = text.to_vec();
            v[at] = to;
            let x = if to != text[at] && std::str::from_utf8(&v).is_err() { to ^ text[at] } else { 0x80 };
            Fault { path: p, op: OP_READ, nth: u32::MAX, effect: Effect::At(at as u32, x) }
        }
        7 | 8 => Fault { path: p, op: OP_READ, nth, effect: Effect::Flip(r.below(len.max(1)) as u32, 0x80) },
        _ => Fault { path: p, op: OP_STAT, nth: 0, effect: Effect::Size(*r.pick(&[i64::MAX, 1 << 62, (1 << 47) + 1])) },
    }
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (_, mut schema, _) = project(r, |c| c.max_files = r_max(c.max_files));
    pad(r, &mut schema);
    let names: Vec<String> = schema.files.keys().cloned().collect();
    let mut chunks = BTreeMap::new();
    for n in &names {
        if r.chance(1, 3) {
            chunks.insert(n.clone(), 1 << r.range(0, 12) as u32);
        }
    }
    let k = match r.below(8) {
        0 => 0,
        1 => 3,
        2 => 2,
        _ => 1,
    };
    let mut faults: Vec<Fault> = vec![];
    for _ in 0..k {
        let n = r.pick(&names).clone();
        let f = hard_fault(r, &n, schema.files[&n].as_bytes(), chunks.get(&n).copied());
        // a second wrong byte may make up for the first
        let wrong = |f: &Fault| matches!(f.effect, Effect::Flip(..) | Effect::At(..));
        if !(wrong(&f) && faults.iter().any(|g| g.path == n && wrong(g))) {
            faults.push(f);
        }
    }
    let root = if r.chance(1, 4) { spell(r, &schema.root) } else { schema.root.clone() };
    let decoys = decoys(r, &schema);
    serde_json::to_value(Sc { schema, root, decoys, faults, chunks, hash_seed: r.next() }).unwrap()
}
fn r_max(n: usize) -> usize {
    n.max(2)
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let mut files = sc.decoys.clone();
    files.extend(sc.schema.files.clone());
    let clean = Plan { seed: Some(sc.hash_seed), ..Plan::of(&files) };
    let (reference, _) = match fs_compile(&clean, &sc.root, sc.schema.rng_syntax) {
        Ok(x) => x,
        Err(p) => return panic_violation(rep, "compiling without faults", &p),
    };
    if !reference.ok {
        return rep.violate("rejects-intact-schema", format!("no fault was injected, yet: {}", reference.short()));
    }
    let plan = Plan { faults: sc.faults.clone(), chunks: sc.chunks.clone(), ..clean.clone() };
    io::load(&plan);
    let mut c = Compiler::new(FsFiles, observe::syntax(sc.schema.rng_syntax));
    let res = observe::compile(&mut c, &sc.root);
    let log = io::log();
    rep.steps += steps_of_log(&log);
    rep.mix(&log);
    let fired: Vec<&Fault> = sc.faults.iter().enumerate().filter(|(i, _)| io::fired(*i)).map(|(_, f)| f).collect();
    for f in &fired {
        rep.fault(&f.kind());
    }
    rep.nontrivial = !fired.is_empty();
    let (obs, res) = match res {
        Ok(x) => x,
        Err(p) => return panic_violation(rep, &format!("compiling with {fired:?}"), &p),
    };
    rep.mix(&obs.body);
    let open = io::open_fds();
    if open != 0 {
        return rep.violate("leaks-descriptors", format!("{open} file descriptors are still open after the compile\n{log}"));
    }
    // a wrong size only matters if the loader reserves memory for it
    let hard: Vec<&&Fault> = fired.iter().filter(|f| !matches!(f.effect, Effect::Size(_))).collect();
    match res {
        Ok(_) => {
            if !hard.is_empty() {
                return rep.violate("fault-ignored", format!("{hard:?} took effect, but the compile succeeded\n{log}"));
            }
            rep.probe("no fault, or only a wrong size: compiled");
            if let Some(d) = obs.diff(&reference) {
                return rep.violate("partial-schema", d);
            }
        }
        Err(e) => {
            if fired.is_empty() {
                return rep.violate("error-without-fault", obs.short());
            }
            let (chain, inner) = observe::unwrap_includes(&e);
            if !chain.is_empty() {
                rep.probe("fault in a nested file");
            }
            let RelaxError::Io(path, err) = inner else {
                return rep.violate("wrong-error", format!("{fired:?} is reported as {}", obs.short()));
            };
            let path = norm(&path.to_string_lossy());
            let culprit = fired.iter().find(|f| {
                f.path == path
                    && match f.effect {
                        Effect::Errno(n) => err.raw_os_error() == Some(n) || err.kind() == std::io::Error::from_raw_os_error(n).kind(),
                        Effect::Flip(..) | Effect::At(..) => err.kind() == ErrorKind::InvalidData,
                        Effect::Size(_) => err.kind() == ErrorKind::OutOfMemory,
                        _ => false,
                    }
            });
            if culprit.is_none() {
                return rep.violate("wrong-error", format!("{fired:?} is reported as {path:?} {err:?}"));
            }
            let name = path.rsplit('/').next().unwrap();
            if !obs.diag.contains(name) {
                return rep.violate("diagnostic-without-path", obs.diag);
            }
        }
    }
    // the same compiler works once the faults are gone
    io::load(&clean);
    match observe::compile(&mut c, &sc.root) {
        Err(p) => panic_violation(rep, "compiling again after the fault", &p),
        Ok((o, _)) => {
            if let Some(d) = o.diff(&reference) {
                rep.violate("not-recovered", format!("after the faults are gone:\n{d}"));
            } else if io::open_fds() != 0 {
                rep.violate("leaks-descriptors", "after compiling again");
            } else {
                rep.probe("compiled again after the fault");
            }
        }
    }
}
