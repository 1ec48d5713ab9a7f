//! Schemas that are all about datatypes, facets and values
use crate::corpus::Case;
use crate::util::Rng;
use std::collections::BTreeMap;
use std::fmt::Write;

/// name, facets (0: none but pattern, 1: lengths without pattern, 2: lengths and pattern, 3: range and
/// pattern, 4: range, digits and pattern), whether values can be checked, an example value
const TYPES: [(&str, u8, bool, &str); 24] = [
    ("normalizedString", 2, true, "a b"),
    ("string", 2, true, "abc"),
    ("short", 3, true, "12"),
    ("unsignedShort", 3, true, "12"),
    ("long", 3, true, "-9"),
    ("int", 3, true, "7"),
    ("integer", 3, true, "123456789012345678901234567890"),
    ("positiveInteger", 3, true, "5"),
    ("unsignedInt", 3, true, "4000000000"),
    ("unsignedLong", 3, true, "18446744073709551615"),
    ("decimal", 4, true, "1.50"),
    ("double", 3, true, "1e9"),
    ("NMTOKENS", 1, false, "a b"),
    ("NMTOKEN", 1, false, "a"),
    ("NCName", 1, true, "nc"),
    ("token", 1, false, "t"),
    ("duration", 0, true, "P1Y"),
    ("date", 0, true, "2020-02-29"),
    ("dateTime", 0, true, "2001-01-01T10:00:00Z"),
    ("anyURI", 0, true, "http://a/b"),
    ("language", 0, true, "en-US"),
    ("boolean", 0, true, "true"),
    ("ID", 0, true, "i1"),
    ("IDREF", 0, true, "i1"),
];

const NUMBERS: [&str; 26] = [
    "0", "1", "2", "3", "5", "10", "-1", "+1", "00", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "4294967296",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-99999999999999999999",
];
const ODD: [&str; 30] = [
    "", " ", "1.5", "-0.0", "1e5", "1e400", "1e-99999", "1E2147483647", "NaN", "INF", "-INF", "inf", "é", "日本", "1 2", "٣", "-", "+", ".", "1.", ".5", "0x10", "true", "P", "PT", "2020-02-30", "99999-01-01",
    "24:00", "a:b", "--",
];
const PATTERNS: [&str; 18] = [
    "[0-9]+", "k[0-9][0-9]", "q[0-9][0-9]", "a*", "(a|b)*", "\\d{2}", "[a-z]{2,4}", ".", "[^@]+@[^@]+", "(", "[", "*", "a{99999}", "\\p{L}+", "\\p{", "(?i)a", "x{2,1}", "\\",
];

pub fn number(r: &mut Rng) -> String {
    match r.below(8) {
        0 => (0..r.range(1, 40)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
        1 => format!("{}.{}", r.below(1000), r.below(1000)),
        _ => r.pick(&NUMBERS).to_string(),
    }
}
pub fn value(r: &mut Rng) -> String {
    match r.below(5) {
        0 | 1 => r.pick(&TYPES).3.to_string(),
        2 => number(r),
        3 => "abcdefghij"[..r.range(0, 10)].to_string(),
        _ => r.pick(&ODD).to_string(),
    }
}

/// a regular expression that may be long, not ASCII and wrong
fn pattern(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return r.pick(&PATTERNS).to_string();
    }
    let n = if r.chance(1, 3) { r.range(10, 300) } else { r.range(1, 9) };
    let some: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(&["é", "日本語", "[0-9]", "(a|b)", "x+", "𝄞", "abc", "ß?"])).collect();
    let mut s: String = (0..r.below(3)).map(|_| 'a').collect();
    for _ in 0..n {
        s.push_str(*r.pick(&some));
    }
    match r.below(3) {
        0 => s,
        1 => s + *r.pick(&["(", "[", "{", "\\", "x{2,1}", "**"]),
        _ => {
            let at = s.char_indices().nth(r.below(s.chars().count())).unwrap().0;
            s.insert_str(at, *r.pick(&["(", "[", ")", "\\"]));
            s
        }
    }
}

struct Dt {
    name: &'static str,
    facets: Vec<(String, String)>,
    except: Vec<String>,
}

/// facets that go together, or any
fn facets(r: &mut Rng, kind: u8, wild: bool) -> Vec<(String, String)> {
    let all: &[&str] = &["length", "minLength", "maxLength", "pattern", "minInclusive", "minExclusive", "maxInclusive", "maxExclusive", "totalDigits", "fractionDigits", "zzfacet", "whiteSpace"];
    let mut v = vec![];
    let mut put = |k: &str, x: String| v.push((k.to_string(), x));
    if wild {
        for _ in 0..r.range(1, 4) {
            let k = *r.pick(all);
            let x = match k {
                "pattern" => pattern(r),
                _ if r.chance(1, 4) => value(r),
                _ => number(r),
            };
            put(k, x);
        }
        return v;
    }
    if kind == 1 || kind == 2 {
        match r.below(5) {
            0 => put("length", format!("{}", r.below(6))),
            1 => put("minLength", format!("{}", r.below(6))),
            2 => put("maxLength", number(r)),
            3 => {
                put("minLength", "2".into());
                put("maxLength", format!("{}", r.range(2, 6)));
            }
            _ => {}
        }
    }
    if kind >= 3 {
        if r.chance(1, 2) {
            put(*r.pick(&["minInclusive", "minExclusive"]), format!("{}", r.below(10)));
        }
        if r.chance(1, 2) {
            put(*r.pick(&["maxInclusive", "maxExclusive"]), format!("{}", r.range(10, 9999)));
        }
        if kind == 4 && r.chance(1, 2) {
            put("totalDigits", format!("{}", r.range(1, 9)));
        }
        if kind == 4 && r.chance(1, 2) {
            put("fractionDigits", format!("{}", r.range(0, 9)));
        }
    }
    if kind != 1 && r.chance(1, 3) {
        put("pattern", r.pick(&PATTERNS[..9]).to_string());
    }
    v
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")
}

fn compact(d: &Dt) -> String {
    let mut s = format!("xsd:{}", d.name);
    if !d.facets.is_empty() {
        s.push_str(" {");
        for (k, v) in &d.facets {
            let _ = write!(s, " {k} = \"{v}\"");
        }
        s.push_str(" }");
    }
    match &d.except[..] {
        [] => {}
        [x] => {
            let _ = write!(s, " - \"{x}\"");
        }
        v => {
            let _ = write!(s, " - ({})", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(" | "));
        }
    }
    s
}
fn xml(d: &Dt) -> String {
    let mut s = format!("<data type=\"{}\">", d.name);
    for (k, v) in &d.facets {
        let _ = write!(s, "<param name=\"{k}\">{}</param>", esc(v));
    }
    if !d.except.is_empty() {
        s.push_str("<except><choice>");
        for x in &d.except {
            let _ = write!(s, "<value>{}</value>", esc(x));
        }
        s.push_str("</choice></except>");
    }
    s + "</data>"
}

/// `wild`: facets and their values may be anything
pub fn case(r: &mut Rng, wild: bool, docs: usize) -> Case {
    let rng = r.chance(1, 2);
    let n = r.range(1, 6);
    let crazy = if wild { r.below(n) } else { n };
    let dts: Vec<Dt> = (0..n)
        .map(|i| {
            let t = loop {
                let t = r.pick(&TYPES);
                if t.2 {
                    break t;
                }
            };
            let except = if r.chance(1, 4) { (0..r.range(1, 2)).map(|_| value(r).replace('"', "")).collect() } else { vec![] };
            // (a character class that the compact syntax would take for something else does not occur)
            Dt { name: t.0, facets: facets(r, t.1, i == crazy), except }
        })
        .collect();
    let place: Vec<usize> = (0..n).map(|_| r.below(4)).collect();
    let mut s = String::new();
    if rng {
        s.push_str("<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\">\n<start><element name=\"r\"><zeroOrMore><choice>\n");
        for (i, d) in dts.iter().enumerate() {
            let x = xml(d);
            let _ = match place[i] {
                0 => writeln!(s, "<element name=\"t{i}\"><attribute name=\"a\">{x}</attribute></element>"),
                1 => writeln!(s, "<element name=\"t{i}\"><list><oneOrMore>{x}</oneOrMore></list></element>"),
                _ => writeln!(s, "<element name=\"t{i}\">{x}</element>"),
            };
        }
        s.push_str("</choice></zeroOrMore></element></start></grammar>\n");
    } else {
        s.push_str("start = element r { (\n");
        for (i, d) in dts.iter().enumerate() {
            let x = compact(d);
            let _ = match place[i] {
                0 => write!(s, "element t{i} {{ attribute a {{ {x} }} }}"),
                1 => write!(s, "element t{i} {{ list {{ ({x})+ }} }}"),
                _ => write!(s, "element t{i} {{ {x} }}"),
            };
            s.push_str(if i + 1 < n { " |\n" } else { "\n" });
        }
        s.push_str(")* }\n");
    }
    let docs = (0..docs)
        .map(|_| {
            let mut d = String::from("<r>");
            for _ in 0..r.range(1, 5) {
                let i = r.below(n);
                let v = if r.chance(1, 2) { TYPES.iter().find(|t| t.0 == dts[i].name).unwrap().3.to_string() } else { value(r) };
                let _ = match place[i] {
                    0 => write!(d, "<t{i} a=\"{}\"/>", esc(&v)),
                    _ => write!(d, "<t{i}>{}</t{i}>", esc(&v)),
                };
            }
            d + "</r>"
        })
        .collect();
    let root = format!("/simfs/c/types.{}", if rng { "rng" } else { "rnc" });
    Case { rng, root: root.clone(), files: BTreeMap::from([(root, s)]), docs }
}

/// a datatype with one facet that's wrong (with "zzmark" in it) among others that aren't: the compact and
/// the XML syntax, and what that facet looks like in each
pub fn mistaken(r: &mut Rng) -> [(String, String); 2] {
    let t = loop {
        let t = r.pick(&TYPES);
        // (that is taken for the built-in one, which has no facets)
        if t.0 != "token" {
            break t;
        }
    };
    let number: &[&str] = match t.1 {
        1 | 2 => &["length", "minLength", "maxLength"],
        3 => &["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"],
        4 => &["minInclusive", "minExclusive", "maxInclusive", "maxExclusive", "totalDigits", "fractionDigits"],
        _ => &[],
    };
    let (name, value) = match r.below(3) {
        0 if !number.is_empty() => (r.pick(number).to_string(), r.pick(&["zzmark", "1zzmark", "-zzmark", "zzmark 2"]).to_string()),
        1 if t.1 > 1 => ("pattern".into(), r.pick(&["zzmark(", "zzmark[", "*zzmark", "zzmark\\", "(zzmark", "é{zzmark("]).to_string()),
        _ => (r.pick(&["zzmark", "zzmarkLength", "zzmärkezzmark"]).to_string(), r.pick(&["1", "", "a", "zz"]).to_string()),
    };
    let mut f = if t.1 == 0 { vec![] } else { facets(r, t.1, false) };
    for (k, v) in &mut f {
        if k == "maxLength" {
            *v = "7".into();
        }
    }
    if t.1 > 1 && r.chance(1, 3) && !f.iter().any(|(k, _)| k == "pattern") {
        f.insert(0, ("pattern".into(), "[a-z]*".into()));
    }
    let at = r.below(f.len() + 1);
    f.insert(at, (name, value));
    let eq = *r.pick(&["=", " = ", " ="]);
    let q = *r.pick(&["\"", "\"", "'", "\"\"\""]);
    let gap = *r.pick(&[" ", " ", "\n", "  \n\t"]);
    let c: Vec<String> = f.iter().map(|(k, v)| format!("{k}{eq}{q}{v}{q}")).collect();
    let x: Vec<String> = f.iter().map(|(k, v)| format!("<param name=\"{k}\">{}</param>", esc(v))).collect();
    let lib = "http://www.w3.org/2001/XMLSchema-datatypes";
    [
        (format!("xsd:{}{gap}{{{gap}{}{gap}}}", t.0, c.join(gap)), c[at].clone()),
        (format!("<data type=\"{}\" datatypeLibrary=\"{lib}\">{}</data>", t.0, x.join(gap)), x[at].clone()),
    ]
}

/// two or more wrong facets in one datatype
pub fn faulty(r: &mut Rng) -> (String, String) {
    let t = *r.pick(&["string", "int", "decimal", "short", "integer", "unsignedLong", "double"]);
    let mut f = vec![];
    for _ in 0..r.range(2, 4) {
        let k = *r.pick(&["length", "minLength", "maxLength", "pattern", "minInclusive", "maxInclusive", "totalDigits", "zzf1", "zzf2", "zzf3"]);
        f.push((k.to_string(), r.pick(&["(", "[", "zz", "99999999999999999999999", "-", "1"]).to_string()));
    }
    let d = Dt { name: t, facets: f, except: vec![] };
    (compact(&d), xml(&d).replacen("<data ", "<data datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\" ", 1))
}

/// A schema and documents, and the same with other patterns and values of the same length: whoever mixes
/// the two up by place, size or name sees it
pub fn twins(r: &mut Rng) -> (Case, Case) {
    let rng = r.chance(1, 2);
    let letters = ["k", "q", "w"];
    let kinds: Vec<usize> = (0..r.range(1, 5)).map(|_| r.below(6)).collect();
    let make = |r: &mut Rng, which: usize| {
        let l = letters[which];
        let d = |x: usize| format!("{}", x + 3 * which);
        let mut s = String::new();
        let mut doc = String::from("<r>");
        let mut bad = String::from("<r>");
        let other = letters[1 - which];
        if rng {
            s.push_str("<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\">\n<start><element name=\"r\"><interleave>\n");
        } else {
            s.push_str("start = element r {\n");
        }
        for (i, k) in kinds.iter().enumerate() {
            let (c, x, v, w) = match k {
                0 => (format!("xsd:string {{ pattern = \"{l}[0-9]\" }}"), format!("<data type=\"string\"><param name=\"pattern\">{l}[0-9]</param></data>"), format!("{l}1"), format!("{other}1")),
                1 => (format!("\"{l}x\""), format!("<value>{l}x</value>"), format!("{l}x"), format!("{other}x")),
                2 => (format!("xsd:int {{ minInclusive = \"{0}\" maxInclusive = \"{0}\" }}", d(2)), format!("<data type=\"int\"><param name=\"minInclusive\">{0}</param><param name=\"maxInclusive\">{0}</param></data>", d(2)), d(2), format!("{}", 2 + 3 * (1 - which))),
                3 => (format!("xsd:string {{ length = \"{}\" }}", d(1)), format!("<data type=\"string\"><param name=\"length\">{}</param></data>", d(1)), "x".repeat(1 + 3 * which), "x".repeat(1 + 3 * (1 - which))),
                4 => (format!("xsd:NCName - \"{other}\""), format!("<data type=\"NCName\"><except><value>{other}</value></except></data>"), l.into(), other.into()),
                _ => (format!("xsd:string {{ pattern = \"^{l}+$\" minLength = \"2\" }}"), format!("<data type=\"string\"><param name=\"pattern\">^{l}+$</param><param name=\"minLength\">2</param></data>"), format!("{l}{l}"), format!("{other}{other}")),
            };
            if rng {
                let _ = writeln!(s, "<element name=\"e{i}\">{x}</element>");
            } else {
                let _ = write!(s, "element e{i} {{ {c} }}{}", if i + 1 < kinds.len() { " &\n" } else { "\n" });
            }
            let _ = write!(doc, "<e{i}>{v}</e{i}>");
            let _ = write!(bad, "<e{i}>{w}</e{i}>");
        }
        s.push_str(if rng { "</interleave></element></start></grammar>\n" } else { "}\n" });
        let root = format!("/simfs/c/twin.{}", if rng { "rng" } else { "rnc" });
        let mut docs = vec![doc + "</r>", bad + "</r>"];
        if r.chance(1, 2) {
            docs.reverse();
        }
        Case { rng, root: root.clone(), files: BTreeMap::from([(root, s)]), docs }
    };
    (make(r, 0), make(r, 1))
}
