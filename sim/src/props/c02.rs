//! C02: benign disturbances while a schema is loaded
use super::Prop;
use crate::common::*;
use crate::damage::Damage;
use crate::io::{self, Effect, Fault, OP_OPEN, OP_READ, OP_SEEK, OP_STAT, Plan};
use crate::memfs::{MemFs, disk};
use crate::observe;
use crate::render::Rendered;
use crate::report::Report;
use crate::util::{Rng, spell};
use relaxng_model::Compiler;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C02",
    generate,
    run,
    shrink: &["/faults"],
    quick: 90_000,
    thorough: 600_000,
    rule: "A random multi-file schema (in a third of the runs damaged, so that it is rejected) is loaded by the real FsFiles undisturbed, and again with short reads (down to a byte), EINTR on opens and reads, and wrong or unavailable sizes; both observations must be the same. Non-trivial: a disturbance took effect.",
    real: "relaxng-model (FsFiles, Compiler, diagnostics), relaxng-syntax, std::fs",
    stub: "open/read/fstat/lseek/close system calls, randomness, standard error",
    budget: (60_000_000, 1 << 30),
};

#[derive(Serialize, Deserialize)]
struct Sc {
    schema: Rendered,
    /// how the file to start from is called
    root: String,
    damage: Vec<(String, Damage)>,
    faults: Vec<Fault>,
    chunks: BTreeMap<String, u32>,
    hash_seed: u64,
}

/// a disturbance that a correct loader does not show
pub fn benign(r: &mut Rng, path: &str, len: usize, chunk: Option<u32>) -> Vec<Fault> {
    let reads = len / chunk.unwrap_or(1 << 20).max(1) as usize + 2;
    let p = || path.to_string();
    let nth = if r.chance(1, 2) { r.below(3) } else { r.below(reads) } as u32;
    match r.below(10) {
        0 | 1 => {
            // the first so many attempts are interrupted
            let k = many(r, 3);
            (0..k).map(|nth| Fault { path: p(), op: OP_OPEN, nth, effect: Effect::Errno(libc::EINTR) }).collect()
        }
        2..=4 => {
            let k = many(r, 4);
            (nth..nth + k).map(|nth| Fault { path: p(), op: OP_READ, nth, effect: Effect::Errno(libc::EINTR) }).collect()
        }
        5..=7 => {
            let k = r.range(1, 4) as u32;
            let n = *r.pick(&[1, 1, 2, 3, 7, 100, 4095]);
            (nth..nth + k).map(|nth| Fault { path: p(), op: OP_READ, nth, effect: Effect::Short(n) }).collect()
        }
        8 => {
            let n = *r.pick(&[0, 1, len as i64 - 1, len as i64 + 1, len as i64 / 2, len as i64 * 3, 1 << 20]);
            vec![Fault { path: p(), op: OP_STAT, nth: 0, effect: Effect::Size(n.max(0)) }]
        }
        _ => {
            if r.chance(1, 3) {
                vec![Fault { path: p(), op: OP_SEEK, nth: 0, effect: Effect::Errno(libc::ESPIPE) }]
            } else {
                let e = *r.pick(&[libc::EACCES, libc::EIO, libc::EOVERFLOW, libc::ENOSYS]);
                vec![Fault { path: p(), op: OP_STAT, nth: 0, effect: Effect::Errno(e) }]
            }
        }
    }
}
/// how often something is interrupted
pub fn many(r: &mut Rng, few: usize) -> u32 {
    if r.chance(1, 100) { *r.pick(&[6, 11, 17, 33, 65, 101, 129, 257, 600]) } else { r.range(1, few) as u32 }
}
pub fn benign_set(r: &mut Rng, files: &BTreeMap<String, String>) -> (Vec<Fault>, BTreeMap<String, u32>) {
    let mut chunks = BTreeMap::new();
    let mut faults = vec![];
    for (n, t) in files {
        if r.chance(2, 3) {
            // large files in reasonable chunks: a run is a bounded number of reads
            let lo = if t.len() > 20_000 { 5 } else { 0 };
            chunks.insert(n.clone(), if r.chance(1, 3) { r.range(1 << lo, 64) as u32 } else { 1 << r.range(lo, 13) as u32 });
        }
        for _ in 0..r.below(4) {
            faults.extend(benign(r, n, t.len(), chunks.get(n).copied()));
        }
    }
    faults.truncate(1500);
    (faults, chunks)
}

fn generate(r: &mut Rng, _thorough: bool) -> Value {
    let (_, mut schema, _) = project(r, |_| ());
    pad(r, &mut schema);
    foreign(r, &mut schema);
    let mut damage = vec![];
    if r.chance(1, 3) {
        let names: Vec<String> = schema.files.keys().cloned().collect();
        for _ in 0..10 {
            let n = r.pick(&names).clone();
            let d = Damage::random(r, schema.files[&n].len());
            if let Some(t) = d.apply_text(&schema.files[&n]) {
                schema.files.insert(n.clone(), t);
                damage.push((n, d));
                break;
            }
        }
    }
    let (faults, chunks) = benign_set(r, &schema.files);
    let root = if r.chance(1, 4) { spell(r, &schema.root) } else { schema.root.clone() };
    serde_json::to_value(Sc { schema, root, damage, faults, chunks, hash_seed: r.next() }).unwrap()
}

fn run(v: &Value, rep: &mut Report) {
    let sc: Sc = serde_json::from_value(v.clone()).unwrap();
    let clean = Plan { seed: Some(sc.hash_seed), ..Plan::of(&sc.schema.files) };
    let reference = fs_compile(&clean, &sc.root, sc.schema.rng_syntax);
    let plan = Plan { faults: sc.faults.clone(), chunks: sc.chunks.clone(), ..clean };
    let got = fs_compile(&plan, &sc.root, sc.schema.rng_syntax);
    let log = io::log();
    rep.steps += steps_of_log(&log);
    rep.mix(&log);
    let mut any = !sc.chunks.is_empty();
    if any {
        rep.fault("read:chunked file");
    }
    for (i, f) in sc.faults.iter().enumerate() {
        if io::fired(i) {
            any = true;
            rep.fault(&f.kind());
        }
    }
    rep.nontrivial = any;
    // and what is in the files is what counts
    io::load(&Plan { capture: true, seed: Some(sc.hash_seed), ..Default::default() });
    let mut c = Compiler::new(MemFs(disk(&sc.schema.files)), observe::syntax(sc.schema.rng_syntax));
    if let (Ok((a, _)), Ok((b, _))) = (&reference, observe::compile(&mut c, &sc.root)) {
        if let Some(d) = a.diff(&b) {
            rep.violate("not-the-content", format!("from the disk (first) and from memory (second):\n{d}"));
        }
    }
    match (reference, got) {
        (Ok((a, _)), Ok((b, _))) => {
            rep.probe(if a.ok { "schema accepted" } else { "schema rejected" });
            if let Some(d) = b.diff(&a) {
                rep.violate("visible", format!("disturbed (first) and undisturbed (second):\n{d}\n{}", crate::util::clip(&log, 1500)));
            }
        }
        // a crash with or without disturbance is not this property's business
        (Err(_), Err(_)) => rep.skip("panics undisturbed, too"),
        (Ok(_), Err(p)) => panic_violation(rep, "only when disturbed", &p),
        (Err(p), Ok(_)) => panic_violation(rep, "only when undisturbed", &p),
    }
    if io::open_fds() != 0 {
        rep.violate("leaks-descriptors", log);
    }
}
