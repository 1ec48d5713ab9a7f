//! Scenario parts that several properties share.
use crate::gram::{self, Cfg, Project, Sampler};
use crate::io::Plan;
use crate::observe::{Model, Obs};
use crate::render::{self, Rendered};
use crate::report::Report;
use crate::sandbox::Panic;
use crate::util::Rng;
use relaxng_model::{Compiler, FsFiles};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub text: String,
    pub valid: bool,
    pub what: String,
}

pub fn project(r: &mut Rng, tweak: impl FnOnce(&mut Cfg)) -> (Project, Rendered, Cfg) {
    let mut c = Cfg::random(r);
    tweak(&mut c);
    let p = gram::generate(r, &c);
    let out = render::render(&p, r);
    (p, out, c)
}

/// versions of some of the files with the same mistake in each of them
pub fn mistaken(p: &Project, r: &mut Rng) -> BTreeMap<String, String> {
    use crate::props::c06::How;
    let rng = p.rng_syntax;
    let library = !rng && r.chance(1, 8);
    let (how, head) = if library {
        (How::P(gram::Pat::Raw("zzl:zzmark".into())), "datatypes zzl = \"urn:zz\" ")
    } else if r.chance(1, 6) {
        let [compact, xml] = crate::types::mistaken(r);
        (How::P(gram::Pat::Raw(if rng { xml.0 } else { compact.0 })), "")
    } else {
        (crate::props::c06::planted(rng, r).2, "")
    };
    let mut v = BTreeMap::new();
    for x in 0..p.files.len() {
        if r.chance(1, 3) {
            continue;
        }
        let mut q = Project { rng_syntax: rng, files: p.files.clone(), long: p.long, docs: p.docs };
        let ok = match &how {
            How::P(t) => crate::props::c05::plant_pat(&mut q, x, r, t.clone()),
            How::I(t) => crate::props::c05::plant_item(&mut q, x, r, t.clone()),
        };
        if ok {
            let f = q.files[x].path.clone();
            let t = render::render(&q, r).files.remove(&f).unwrap();
            v.insert(f, format!("{head}{t}"));
        }
    }
    v
}

pub fn valid_doc(p: &Project, r: &mut Rng, budget: usize) -> String {
    let mut s = Sampler::new(p);
    let e = s.doc(r, budget).expect("a document");
    let st = render::Style::random(r);
    render::doc(&e, &st, r)
}

pub fn docs(p: &Project, c: &Cfg, r: &mut Rng, good: usize, bad: usize) -> Vec<Doc> {
    let mut v = vec![];
    let mut s = Sampler::new(p);
    for i in 0..good + bad {
        let budget = r.range(2, 25);
        let Some(mut e) = s.doc(r, budget) else { continue };
        let st = render::Style::random(r);
        if i < good {
            v.push(Doc { text: render::doc(&e, &st, r), valid: true, what: "as sampled".into() });
        } else {
            let what = gram::spoil(&mut e, r, !c.anyname);
            v.push(Doc { text: render::doc(&e, &st, r), valid: false, what: format!("{what:?}") });
        }
        if r.chance(1, 40) {
            v.last_mut().unwrap().text.insert(0, '\u{feff}');
        }
    }
    v
}

/// documents that may be valid or not
pub fn mutants(p: &Project, r: &mut Rng, n: usize) -> Vec<String> {
    let mut v = vec![];
    let mut s = Sampler::new(p);
    for _ in 0..n {
        let budget = r.range(2, 25);
        let Some(mut e) = s.doc(r, budget) else { continue };
        for _ in 0..r.range(1, 3) {
            gram::mutate(&mut e, r);
        }
        let st = render::Style::random(r);
        v.push(render::doc(&e, &st, r));
    }
    v
}

/// make one of the files longer than the usual buffer sizes, with multi-byte characters in it
pub fn pad(r: &mut Rng, s: &mut Rendered) {
    if !r.chance(1, 3) {
        return;
    }
    let names: Vec<String> = s.files.keys().cloned().collect();
    let n = r.pick(&names).clone();
    let size = if r.chance(1, 30) { *r.pick(&[140_000, 300_000, 1_100_000]) } else { *r.pick(&[4090usize, 8185, 8192, 16384, 40000, 66000]) };
    let text = s.files.get_mut(&n).unwrap();
    let line = *r.pick(&["ä comment, 日本語 and more", "plain words", "é"]);
    let mut pad = String::new();
    if s.rng_syntax {
        pad.push_str("\n<!-- ");
        while pad.len() < size {
            pad.push_str(line);
            pad.push('\n');
        }
        pad.push_str("-->\n");
    } else {
        pad.push('\n');
        while pad.len() < size {
            pad.push_str("# ");
            pad.push_str(line);
            pad.push('\n');
        }
    }
    // what matters comes before or after it
    let at = match r.chance(1, 2) {
        true => text.len(),
        false if text.trim_start_matches('\u{feff}').starts_with("<?xml") => text.find("?>").map_or(0, |i| i + 2),
        false if text.starts_with('\u{feff}') => 3,
        false => 0,
    };
    text.insert_str(at, &pad);
}

/// files that only a wrong search would find
pub fn decoys(r: &mut Rng, s: &Rendered) -> BTreeMap<String, String> {
    let mut v = BTreeMap::new();
    let mut all = dirs_of(&s.files);
    all.push("/simfs".into());
    all.push(crate::util::CWD.into());
    let text = if s.rng_syntax {
        "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><element name=\"decoy\"><empty/></element></start></grammar>"
    } else {
        "start = element decoy { empty }"
    };
    if r.chance(1, 3) {
        // what editors, tools and people leave next to a file
        for (f, t) in &s.files {
            let (dir, base) = f.rsplit_once('/').unwrap();
            let (stem, ext) = base.rsplit_once('.').unwrap_or((base, "rnc"));
            let (upper, low) = (base.to_uppercase(), base.to_lowercase());
            for n in [
                format!("{base}~"), format!("{base}.bak"), format!("{base}.orig"), format!("{base}.new"), format!("{base}.tmp"), format!("{base}.old"), format!(".{base}.swp"), format!("#{base}#"),
                format!("{base}.{ext}"), stem.to_string(), format!("{stem}.rng"), format!("{stem}.rnc"), format!("{stem}.xml"), format!("{stem}.txt"), upper, low, format!("{base}.gz"),
            ] {
                let n = format!("{dir}/{n}");
                if v.len() < 200 && !s.files.contains_key(&n) && !all.contains(&n) && r.chance(2, 3) {
                    v.insert(n, if r.chance(1, 2) { t.clone() } else { text.to_string() });
                }
            }
        }
    }
    for f in s.files.keys() {
        let base = f.rsplit('/').next().unwrap();
        for d in &all {
            let n = format!("{d}/{base}");
            if v.len() < 260 && !s.files.contains_key(&n) && r.chance(1, 2) {
                v.insert(n, text.to_string());
            }
        }
    }
    v
}

/// files that come from an editor of another system
pub fn foreign(r: &mut Rng, s: &mut Rendered) {
    if !r.chance(1, 4) {
        return;
    }
    let all = r.chance(1, 2);
    for t in s.files.values_mut() {
        if !all && r.chance(1, 2) {
            continue;
        }
        if r.chance(2, 3) {
            *t = t.replace('\n', "\r\n");
        }
        if r.chance(1, 3) && !t.starts_with('\u{feff}') {
            t.insert(0, '\u{feff}');
        }
    }
}

/// compile with the real file-system loader, over the simulated disk
pub fn fs_compile(plan: &Plan, root: &str, rng: bool) -> Result<(Obs, Option<Model>), Panic> {
    crate::io::load(plan);
    let mut c = Compiler::new(FsFiles, crate::observe::syntax(rng));
    let (o, m) = crate::observe::compile(&mut c, root)?;
    Ok((o, m.ok()))
}

pub fn panic_violation(rep: &mut Report, what: &str, p: &Panic) {
    rep.violate("panic", format!("{what}: {}", p.text()));
}

pub fn steps_of_log(log: &str) -> u64 {
    log.lines().filter(|l| !l.starts_with("getrandom") && !l.starts_with("fault ")).count() as u64
}

pub fn dirs_of(files: &BTreeMap<String, String>) -> Vec<String> {
    let mut v: Vec<String> = files
        .keys()
        .filter_map(|f| f.rfind('/').map(|i| f[..i].to_string()))
        .collect();
    v.sort();
    v.dedup();
    v
}
