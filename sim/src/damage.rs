//! What a crash or a failing disk leaves of a file.
use crate::util::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Truncate(usize),
    Lost(usize, usize),
    Zero(usize, usize),
    Dup(usize, usize),
    /// two adjacent blocks of this size are swapped
    Swap(usize, usize),
    /// the block holds older data: the bytes that follow somewhere else in the file
    Stale(usize, usize, usize),
    Flip(usize, u8),
    /// bytes replaced by others
    Put(usize, String),
    /// a piece replaced by another text, as when parts of two versions of a file are mixed
    Sub(usize, usize, String),
}
use Damage::*;

/// a name that may be long and is not ASCII
fn strange(r: &mut Rng) -> String {
    let n = if r.chance(1, 4) { r.range(60, 400) } else { r.range(1, 40) };
    let ascii = r.chance(1, 2);
    let mut s = String::from(*r.pick(&["é", "a", "日", "𐐀"]));
    for _ in 0..n {
        s.push_str(if ascii && r.chance(2, 3) { *r.pick(&["a", "b", "c", "-", "."]) } else { *r.pick(&["é", "ß", "日", "本", "𐐀", "a"]) });
    }
    s
}

impl Damage {
    pub fn kind(&self) -> &'static str {
        match self {
            Truncate(_) => "truncated",
            Lost(..) => "lost-block",
            Zero(..) => "zeroed-block",
            Dup(..) => "duplicated-block",
            Swap(..) => "swapped-blocks",
            Stale(..) => "stale-block",
            Flip(..) => "bit-flip",
            Put(..) => "overwritten",
            Sub(..) => "mixed-versions",
        }
    }
    pub fn random(r: &mut Rng, len: usize) -> Damage {
        let at = r.below(len + 1);
        let n = match r.below(4) {
            0 => r.range(1, 4),
            1 => r.range(1, 16),
            2 => 1 << r.range(3, 9),
            _ => r.range(1, len.max(2)),
        };
        // disks lose aligned blocks; buffers are torn anywhere
        let at = if r.chance(1, 4) { at / n.max(1) * n } else { at };
        match r.below(16) {
            0..=4 => Truncate(at),
            5 | 6 => Lost(at, n),
            7 => Zero(at, n),
            8 | 9 => Dup(at, n),
            10 | 11 => Swap(at, n),
            12 => Stale(at, n, r.below(len + 1)),
            13 => Put(at, (*r.pick(&["<", ">", "&", "\"", "{", "}", "]]>", "<!", "&#", "\u{1}", "é", "<?", "--", "/", "=", ":", "(", "~", "#", "\\x{0}", "|", "&x;", "\r\n", "\u{feff}"])).to_string()),
            _ => {
                let bits = if r.chance(1, 4) { 8 } else { 7 };
                Flip(at, 1 << r.below(bits))
            }
        }
    }
    /// damage along the boundaries of lines, tags or tokens, which gets further than random damage
    pub fn aligned(r: &mut Rng, t: &str) -> Damage {
        let mut cuts: Vec<usize> = vec![0];
        match r.below(3) {
            0 => cuts.extend(t.match_indices('\n').map(|(i, _)| i + 1)),
            1 => cuts.extend(t.char_indices().filter(|(i, c)| "<>{}(),|&=".contains(*c) && *i > 0).map(|(i, c)| if c == '>' { i + 1 } else { i })),
            _ => {
                let mut last = 0;
                for (i, c) in t.char_indices() {
                    let k = if c.is_alphanumeric() || "-._:".contains(c) { 1 } else if c.is_whitespace() { 2 } else { 3 };
                    if k != last || k == 3 {
                        cuts.push(i);
                    }
                    last = k;
                }
            }
        }
        cuts.push(t.len());
        cuts.dedup();
        if cuts.len() < 2 {
            return Truncate(0);
        }
        let piece = |r: &mut Rng| {
            let i = r.below(cuts.len() - 1);
            let n = if r.chance(3, 4) { 1 } else { r.range(1, 4) };
            (cuts[i], cuts[(i + n).min(cuts.len() - 1)] - cuts[i])
        };
        let (a, n) = piece(r);
        match r.below(6) {
            0 => Lost(a, n),
            1 => Dup(a, n),
            2 => Truncate(a),
            3 => Swap(a, n),
            _ => {
                let (b, m) = piece(r);
                let from = if r.chance(1, 8) {
                    // another number, or another value
                    if r.chance(1, 2) { crate::types::number(r) } else { crate::types::value(r) }
                } else if r.chance(1, 8) {
                    strange(r)
                } else if r.chance(1, 4) {
                    r.pick(&["start", "text", "empty", "notAllowed", "*", "grammar", "div", "element", "attribute", "list", "mixed", "parent", "token", "xsd:string", "\"1\"", "choice", "ref", "name", "ns", "\\x{10ffff}", "combine", "interleave", "99999999999999999999", "-1", "xmlns", "data", "value", "param", "anyName"]).to_string()
                } else {
                    t[b..b + m].to_string()
                };
                Sub(a, n, from)
            }
        }
    }
    /// damage of any kind that depends on the text
    pub fn text(r: &mut Rng, t: &str) -> Damage {
        match r.below(15) {
            0..=4 => Self::pointed(r, t),
            5 => Self::quoted(r, t),
            _ => Self::aligned(r, t),
        }
    }
    /// damage of a value, between tags or quotes: characters of several bytes and other odd things in it
    pub fn valued(r: &mut Rng, t: &str) -> Damage {
        let mut ranges = vec![];
        for (i, c) in t.char_indices() {
            let from = i + 1;
            let end = match c {
                '>' => t[from..].find('<'),
                '"' | '\'' => t[from..].find(c),
                _ => None,
            };
            if let Some(n) = end.filter(|n| (1..80).contains(n)) {
                ranges.push((from, n));
            }
        }
        if ranges.is_empty() {
            return Self::aligned(r, t);
        }
        let (a, n) = *r.pick(&ranges);
        let cuts: Vec<usize> = (a..=a + n).filter(|i| t.is_char_boundary(*i)).collect();
        let odd = *r.pick(&["é", "ß", "日", "𝒩", "\u{a0}", "é", "日本", "٣", "-", "+", ".", "0", " ", "\u{feff}", "\u{301}", "e", "99999999999999999999", ":", "/", "%", "T", "Z"]);
        // near the start of the value, mostly
        let k = if r.chance(2, 3) { r.below(cuts.len().min(4)) } else { r.below(cuts.len()) };
        let len = if r.chance(1, 2) { 0 } else { r.below(cuts.len() - k).min(4) };
        Sub(cuts[k], cuts[k + len] - cuts[k], odd.to_string())
    }
    /// damage of what's between quotes: names of files, URIs, values
    pub fn quoted(r: &mut Rng, t: &str) -> Damage {
        let mut ranges = vec![];
        let mut from = 0;
        while let Some(i) = t[from..].find(['"', '\'']) {
            let i = from + i;
            let q = t.as_bytes()[i] as char;
            let Some(n) = t[i + 1..].find(q) else { break };
            ranges.push((i + 1, n));
            from = i + 1 + n + 1;
        }
        if ranges.is_empty() {
            return Self::aligned(r, t);
        }
        let paths: Vec<(usize, usize)> = ranges.iter().filter(|x| ["base=", "href=", "include ", "external "].iter().any(|b| t[..x.0 - 1].ends_with(b))).cloned().collect();
        let from = if !paths.is_empty() && r.chance(1, 2) { &paths } else { &ranges };
        let (a, n) = *r.pick(from);
        let odd = |r: &mut Rng| {
            r.pick(&[
                "", " ", ".", "..", "/", "//", "./", "../", "/.", "/..", ":", "file:", "file:/", "file://", "file:///", "http:", "http://", "http://h", "urn:", "a:b", "C:\\x", "\\", "?", "#", "?q", "#f", "%", "%2", "%zz", "%00", "%C3", "~", "*", "-", "x/", "/x/../..", ".rng", ".rnc", "é", "/é", "\t", "&amp;", "&#0;", "{", "}", "http://www.w3.org/2001/XMLSchema-datatypes", "http://relaxng.org/ns/structure/1.0", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/",
            ])
            .to_string()
        };
        let b = r.pick(&ranges);
        let other = t[b.0..b.0 + b.1].to_string();
        match r.below(6) {
            0 => Sub(a, n, other),
            1 => Sub(a, 0, odd(r)),
            2 => Sub(a + n, 0, odd(r)),
            _ => Sub(a, n, odd(r)),
        }
    }
    /// Damage of a document at one of the places that matter to whether it is well-formed:
    /// references, attributes, prefixes, whole tags, and where comments and the like begin and end
    pub fn pointed(r: &mut Rng, t: &str) -> Damage {
        let ranges: Vec<(usize, usize)> = match r.below(5) {
            0 => t.match_indices('&').filter_map(|(i, _)| Some((i, t[i..].find(';')? + 1))).collect(),
            1 => attributes(t),
            2 => t.match_indices('<').filter_map(|(i, _)| Some((i, t[i..].find('>')? + 1))).collect(),
            3 => ["<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!", "]>", "/>"].iter().flat_map(|m| t.match_indices(m).map(|(i, m)| (i, m.len()))).collect(),
            // (prefixes)
            _ => t
                .match_indices(':')
                .filter_map(|(i, _)| {
                    let from = t[..i].rfind(|c: char| !(c.is_alphanumeric() || "-._".contains(c)))?;
                    let from = from + t[from..].chars().next().unwrap().len_utf8();
                    Some((from, i + 1 - from))
                })
                .collect(),
        };
        if ranges.is_empty() {
            return Self::aligned(r, t);
        }
        let (a, n) = *r.pick(&ranges);
        // parts of it
        let cut = |r: &mut Rng| {
            let x = r.below(n);
            (a + x, r.range(1, n - x))
        };
        match r.below(8) {
            0 | 1 => Lost(a, n),
            2 => Dup(a, n),
            3 | 4 => {
                let (a, n) = cut(r);
                Lost(a, n)
            }
            5 => {
                let (b, m) = *r.pick(&ranges);
                Sub(a, n, t[b..b + m].to_string())
            }
            6 if r.chance(1, 3) => {
                let s = strange(r);
                Sub(a, n, match r.below(5) {
                    0 => format!("&{s};"),
                    1 => format!("{s}:"),
                    2 => format!(" {s}='{s}'"),
                    3 => format!("<{s}>"),
                    _ => s,
                })
            }
            6 => Sub(a, n, r.pick(&["&#;", "&#x;", "&;", "&#xG;", "&#0;", "&#x110000;", "&#1a;", "&#xD800;", "&undefined;", "&", "& ", "&#-1;", "&#x;;", "&#65", "&amp", "&AMP;", "zz:", ":", "xml:", "xmlns:", "--", "<!---->", "<![CDATA[", "]]>", "<", "</", "<?xml?>", " a=b", " a='", " a", "\""]).to_string()),
            _ => {
                // all but the ends
                let m = if n > 2 { n - 2 } else { n };
                let from = if n > 2 { a + 1 } else { a };
                let k = r.below(m);
                Lost(from + k, m - k)
            }
        }
    }
    pub fn apply(&self, d: &[u8]) -> Vec<u8> {
        let len = d.len();
        let c = |x: usize| x.min(len);
        let mut v = d.to_vec();
        match self {
            Truncate(n) => v.truncate(*n),
            Lost(a, n) => {
                v.drain(c(*a)..c(a + n));
            }
            Zero(a, n) => v[c(*a)..c(a + n)].fill(0),
            Dup(a, n) => {
                let b = d[c(*a)..c(a + n)].to_vec();
                let at = c(a + n);
                v.splice(at..at, b);
            }
            Swap(a, n) => {
                let (x, y, z) = (c(*a), c(a + n), c(a + 2 * n));
                let mut b = d[y..z].to_vec();
                b.extend(&d[x..y]);
                v.splice(x..z, b);
            }
            Stale(a, n, from) => {
                let src = &d[c(*from)..c(from + n)];
                let x = c(*a);
                let y = c(a + src.len());
                v[x..y].copy_from_slice(&src[..y - x]);
            }
            Flip(a, x) => {
                if *a < len {
                    v[*a] ^= x;
                }
            }
            Sub(a, n, s) => {
                v.splice(c(*a)..c(a + n), s.bytes());
            }
            Put(a, s) => {
                let x = c(*a);
                let y = c(a + s.len());
                v.splice(x..y, s.bytes());
            }
        }
        v
    }
    /// the same, but staying valid UTF-8 (whole characters are hit)
    pub fn apply_text(&self, t: &str) -> Option<String> {
        String::from_utf8(self.apply(t.as_bytes())).ok()
    }
}
/// offset of the first byte that differs
pub fn first_diff(a: &[u8], b: &[u8]) -> Option<usize> {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    if n == a.len() && n == b.len() { None } else { Some(n) }
}

/// attributes, each with the white space before it
fn attributes(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let b = t.as_bytes();
    let mut from = 0;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\n' => from = i,
            b'=' if i + 1 < b.len() && (b[i + 1] == b'"' || b[i + 1] == b'\'') => {
                let Some(k) = t[i + 2..].find(b[i + 1] as char) else { break };
                v.push((from, i + 2 + k + 1 - from));
                i += 2 + k;
            }
            _ => {}
        }
        i += 1;
    }
    v
}
