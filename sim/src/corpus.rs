//! Schemas written by hand, for the features that the generator does not produce: the cases of the
//! RELAX NG specification test suite, and some with all the syntax there is.
use crate::util::Rng;
use serde::Deserialize;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Case {
    pub rng: bool,
    pub root: String,
    pub files: BTreeMap<String, String>,
    pub docs: Vec<String>,
}

#[derive(Deserialize)]
struct Spec {
    schema: String,
    valid: Vec<String>,
    invalid: Vec<String>,
    res: BTreeMap<String, String>,
}

pub fn spec(r: &mut Rng) -> Case {
    thread_local! {
        static ALL: Vec<Spec> = serde_json::from_str(include_str!("../corpus/spectest.json")).unwrap();
    }
    ALL.with(|v| {
        let s = r.pick(v);
        let root = "/simfs/c/root.rng".to_string();
        let mut files: BTreeMap<String, String> = s.res.iter().map(|(k, t)| (format!("/simfs/c/{k}"), t.clone())).collect();
        files.insert(root.clone(), s.schema.clone());
        Case { rng: true, root, files, docs: s.valid.iter().chain(&s.invalid).cloned().collect() }
    })
}

const RICH: [(&str, &[(&str, &str)]); 5] = [
    ("a", &[("a.rnc", include_str!("../corpus/rich/a.rnc"))]),
    (
        "b",
        &[
            ("b.rnc", include_str!("../corpus/rich/b.rnc")),
            ("b-inc.rnc", include_str!("../corpus/rich/b-inc.rnc")),
            ("b-ext.rnc", include_str!("../corpus/rich/b-ext.rnc")),
        ],
    ),
    ("c", &[("c.rnc", include_str!("../corpus/rich/c.rnc"))]),
    ("d", &[("d.rng", include_str!("../corpus/rich/d.rng"))]),
    (
        "e",
        &[
            ("e.rng", include_str!("../corpus/rich/e.rng")),
            ("e-inc.rng", include_str!("../corpus/rich/e-inc.rng")),
            ("e-ext.rng", include_str!("../corpus/rich/e-ext.rng")),
        ],
    ),
];

pub fn rich(r: &mut Rng) -> Case {
    let (name, files) = r.pick(&RICH);
    let mut docs = vec![];
    let mut on = false;
    for l in include_str!("../corpus/rich/docs.txt").lines() {
        match l.strip_prefix("== ") {
            Some(n) => on = n == *name,
            None if on => docs.push(l.to_string()),
            None => {}
        }
    }
    Case {
        rng: files[0].0.ends_with(".rng"),
        root: format!("/simfs/c/{}", files[0].0),
        files: files.iter().map(|(n, t)| (format!("/simfs/c/{n}"), t.to_string())).collect(),
        docs,
    }
}

/// one of the above, or a generated project with documents
pub fn any(r: &mut Rng) -> Case {
    match r.below(9) {
        0 | 1 => spec(r),
        2 | 3 => rich(r),
        4 => crate::types::case(r, false, 2),
        _ => {
            let (p, out, c) = crate::common::project(r, |_| {});
            let (good, bad) = (r.range(1, 2), r.below(3));
            let mut docs: Vec<String> = crate::common::docs(&p, &c, r, good, bad).into_iter().map(|d| d.text).collect();
            let n = r.below(3);
            docs.extend(crate::common::mutants(&p, r, n));
            Case { rng: out.rng_syntax, root: out.root, files: out.files, docs }
        }
    }
}
