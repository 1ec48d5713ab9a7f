//! Rewrites a document without changing its content: character data is delivered in other pieces.
use crate::util::Rng;
use xmlparser::{ElementEnd, Token, Tokenizer};

pub struct Opts {
    /// how often a run of characters is written differently, of 100
    pub rate: usize,
    pub entities: bool,
    pub attributes: bool,
    /// comments, processing instructions and empty CDATA sections
    pub insert: bool,
    /// and in one place, or a few, this many of them
    pub burst: usize,
}
impl Opts {
    pub fn random(r: &mut Rng) -> Opts {
        Opts { rate: *r.pick(&[5, 30, 70, 100]), entities: r.chance(1, 3), attributes: r.chance(2, 3), insert: r.chance(4, 5), burst: if r.chance(1, 60) { *r.pick(&[30, 100, 255, 256, 257, 300, 1000, 1025, 5000, 33_000, 66_000]) } else { 0 } }
    }
}

/// a character, or a reference as it was written
fn units(t: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let c = t[i..].chars().next().unwrap();
        let mut n = c.len_utf8();
        if c == '&' {
            n = t[i..].find(';').map_or(n, |k| k + 1);
        }
        v.push(&t[i..i + n]);
        i += n;
    }
    v
}
fn reference(r: &mut Rng, c: char) -> String {
    let n = c as u32;
    match (r.below(4), c) {
        (0, '<') => "&lt;".into(),
        (0, '>') => "&gt;".into(),
        (0, '&') => "&amp;".into(),
        (0, '"') => "&quot;".into(),
        (0, '\'') => "&apos;".into(),
        (0 | 1, _) => format!("&#{n};"),
        (2, _) => format!("&#x{n:x};"),
        // with zeros in front
        _ => match r.below(8) {
            0 => format!("&#x{n:0w$x};", w = *r.pick(&[8, 9, 16, 17, 40])),
            1 => format!("&#{n:0w$};", w = *r.pick(&[5, 8, 10, 11, 20, 40])),
            _ => format!("&#x{n:04X};"),
        },
    }
}
/// the character that a predefined or character reference stands for
fn decoded(u: &str) -> Option<char> {
    // (carriage returns are not the same as a character and as a reference)
    decoded_any(u).filter(|c| *c != '\r')
}
fn decoded_any(u: &str) -> Option<char> {
    let mut it = u.chars();
    let c = it.next()?;
    if c != '&' {
        return Some(c);
    }
    match u {
        "&lt;" => Some('<'),
        "&gt;" => Some('>'),
        "&amp;" => Some('&'),
        "&quot;" => Some('"'),
        "&apos;" => Some('\''),
        _ => {
            let d = u.strip_prefix("&#")?.strip_suffix(';')?;
            let n = match d.strip_prefix('x') {
                Some(h) => u32::from_str_radix(h, 16).ok()?,
                None => d.parse().ok()?,
            };
            char::from_u32(n)
        }
    }
}

struct Writer<'r> {
    r: &'r mut Rng,
    o: Opts,
    entities: Vec<(String, String)>,
    /// no new entities if the document has a document type declaration already
    may_declare: bool,
    bursts: usize,
}
impl Writer<'_> {
    fn filler(&mut self, s: &mut String) {
        if self.o.burst > 0 && self.bursts < 3 && self.r.chance(1, 6) {
            self.bursts += 1;
            let kinds: [&[&str]; 4] = [&["<![CDATA[]]>"], &["<!-- c -->"], &["<?pi?>"], &["<![CDATA[]]>", "<!---->"]];
            let some = self.r.pick(&kinds);
            for i in 0..self.o.burst {
                s.push_str(some[i % some.len()]);
            }
        }
        if !self.o.insert || !self.r.chance(self.o.rate, 200) {
            return;
        }
        s.push_str(self.r.pick(&["<!---->", "<!-- c -->", "<?pi?>", "<?p é=1?>", "<![CDATA[]]>", "<!--<a>&x;]]>-->"]));
    }
    fn entity(&mut self, text: &str, attr: bool) -> Option<String> {
        // (in an attribute, the parser that we compare with takes &lt; in an entity for a mistake)
        if !self.o.entities || !self.may_declare || attr && text.contains('<') {
            return None;
        }
        if let Some((n, _)) = self.entities.iter().find(|(_, t)| t == text) {
            return Some(format!("&{n};"));
        }
        let k = self.entities.len();
        let mut n = format!("e.{k}");
        if self.r.chance(1, 3) {
            // short ones, and ones much like those that need no declaration
            let x = self.r.pick(&["é", "e", "大", "_", "x", "𐐀", "LT", "Amp", "lt.", "gt-1", "x41", "quot_", "ampé", "_.", "é1", "apos2", "entité.très-longue_1234567890"]).to_string();
            if self.entities.iter().all(|e| e.0 != x) {
                n = x;
            }
        }
        self.entities.push((n.clone(), text.to_string()));
        Some(format!("&{n};"))
    }
    /// element content
    fn text(&mut self, t: &str, cdata: bool, s: &mut String) {
        // (a section's content is not to be read as references)
        let us: Vec<(&str, Option<char>)> = if cdata {
            t.char_indices().map(|(i, c)| (&t[i..i + c.len_utf8()], Some(c).filter(|c| *c != '\r'))).collect()
        } else {
            units(t).into_iter().map(|u| (u, decoded(u))).collect()
        };
        let mut i = 0;
        while i < us.len() {
            self.filler(s);
            let n = if self.r.chance(1, 3) { 1 } else { self.r.range(1, us.len() - i) };
            let run = &us[i..i + n];
            i += n;
            let plain: Option<String> = run.iter().map(|u| u.1).collect();
            let way = if self.r.chance(self.o.rate, 100) { self.r.below(5) } else { 9 };
            match (way, plain) {
                (0 | 1, Some(p)) if !p.contains("]]") && !p.ends_with(']') => {
                    s.push_str("<![CDATA[");
                    s.push_str(&p);
                    s.push_str("]]>");
                }
                (2, Some(p)) => {
                    for c in p.chars() {
                        let x = reference(self.r, c);
                        s.push_str(&x);
                    }
                }
                (3, Some(p)) if self.entity(&p, false).is_some() => {
                    let x = self.entity(&p, false).unwrap();
                    s.push_str(&x);
                }
                (4, Some(p)) => {
                    // some of the characters only
                    for c in p.chars() {
                        if self.r.chance(1, 3) || "<&>]".contains(c) {
                            let x = reference(self.r, c);
                            s.push_str(&x);
                        } else {
                            s.push(c);
                        }
                    }
                }
                _ if cdata => {
                    s.push_str("<![CDATA[");
                    // cannot contain the end of a section, as it came from one; its parts can
                    for u in run {
                        s.push_str(u.0);
                    }
                    s.push_str("]]>");
                }
                _ => {
                    for u in run {
                        // the end of a section must not come about by accident
                        if u.0 == ">" && s.ends_with("]]") {
                            s.push_str("&gt;");
                        } else {
                            s.push_str(u.0);
                        }
                    }
                }
            }
        }
        self.filler(s);
    }
    fn attr(&mut self, t: &str, s: &mut String) {
        let us = units(t);
        let mut i = 0;
        while i < us.len() {
            let n = self.r.range(1, us.len() - i);
            let run = &us[i..i + n];
            i += n;
            let change = self.o.attributes && self.r.chance(self.o.rate, 100);
            let plain: Option<String> = run.iter().map(|u| decoded(u)).collect();
            let plain = plain.filter(|p| !p.contains(['\n', '\t']));
            // (other white space than a blank means something else when it is a reference)
            if change && self.r.chance(1, 4) && plain.as_ref().is_some_and(|p| !p.contains(['\n', '\t', '\r'])) {
                if let Some(x) = self.entity(plain.as_ref().unwrap(), true) {
                    s.push_str(&x);
                    continue;
                }
            }
            for u in run {
                match decoded(u) {
                    Some(c) if change && !"\n\t\r".contains(c) && self.r.chance(1, 2) => {
                        let x = reference(self.r, c);
                        s.push_str(&x);
                    }
                    _ => s.push_str(u),
                }
            }
        }
    }
}

/// None if the document cannot be read in tokens
pub fn rewrite(doc: &str, o: Opts, r: &mut Rng) -> Option<String> {
    let mut w = Writer { r, o, entities: vec![], may_declare: true, bursts: 0 };
    let mut s = String::new();
    let mut depth = 0usize;
    let mut last = 0;
    let mut head = if doc.starts_with('\u{feff}') { 3 } else { 0 };
    let mut name = String::new();
    for t in Tokenizer::from(doc) {
        let t = t.ok()?;
        let span = t.span();
        // what lies between the tokens (white space in tags)
        let gap = &doc[last..span.start()];
        last = span.end();
        s.push_str(gap);
        match t {
            Token::DtdStart { .. } | Token::EmptyDtd { .. } => {
                w.may_declare = false;
                s.push_str(span.as_str());
            }
            Token::Declaration { .. } => {
                s.push_str(span.as_str());
                head = s.len();
            }
            Token::ElementStart { .. } => {
                if depth > 0 {
                    w.filler(&mut s);
                }
                s.push_str(span.as_str());
                name = span.as_str()[1..].to_string();
            }
            Token::Attribute { value, .. } => {
                s.push_str(&doc[span.start()..value.start()]);
                w.attr(value.as_str(), &mut s);
                s.push_str(&doc[value.end()..span.end()]);
            }
            Token::ElementEnd { end, .. } => match end {
                ElementEnd::Open => {
                    depth += 1;
                    s.push_str(span.as_str());
                    w.filler(&mut s);
                }
                ElementEnd::Close(..) => {
                    depth = depth.checked_sub(1)?;
                    w.filler(&mut s);
                    s.push_str(span.as_str());
                }
                ElementEnd::Empty if w.o.insert && w.r.chance(w.o.rate, 200) => {
                    s.push('>');
                    w.filler(&mut s);
                    s.push_str(&format!("</{name}>"));
                }
                ElementEnd::Empty => s.push_str(span.as_str()),
            },
            Token::Text { text } if depth > 0 => w.text(text.as_str(), false, &mut s),
            Token::Cdata { text, .. } if depth > 0 => w.text(text.as_str(), true, &mut s),
            _ => s.push_str(span.as_str()),
        }
    }
    s.push_str(&doc[last..]);
    if !w.entities.is_empty() {
        let mut d = String::from("<!DOCTYPE root [");
        let r = &mut *w.r;
        let fancy = r.chance(1, 2);
        let nested = fancy && r.chance(2, 3);
        let mut decls = vec![];
        for (n, t) in &w.entities {
            declare(n, t, fancy, if nested { r.range(1, 4) } else { 0 }, r, &mut decls);
        }
        if nested && r.chance(1, 2) {
            // the order of the declarations does not matter
            r.shuffle(&mut decls);
        }
        for x in decls {
            d.push_str(&x);
            if fancy && r.chance(1, 4) {
                d.push_str(r.pick(&["<!-- declarations -->", "\n<?in dtd?>", "<!ENTITY unused \"&#233;\">", "<!ELEMENT root ANY>", "<!ATTLIST root b CDATA #IMPLIED>", "<!ENTITY gt \"&#62;\">", "<!ENTITY amp \"&#38;#38;\">", "<!ENTITY lt '&#38;#60;'>", "<!ENTITY quot '&#34;'>", "<!ENTITY apos \"&#39;\">", "<!ENTITY never '&never;&such;'>"]));
            }
        }
        if fancy && r.chance(1, 4) {
            // a second declaration of the same name does not count
            let n = &w.entities[r.below(w.entities.len())].0;
            d.push_str(&format!("<!ENTITY {n} \"{}\">", r.pick(&["", "other", "&no;", "1"])));
        }
        d.push_str(r.pick(&["]>", "\n]>", " ] >"]));
        s.insert_str(head, &d);
    }
    Some(s)
}

/// the declaration of an entity for some text, as other entities in part
fn declare(name: &str, text: &str, fancy: bool, depth: usize, r: &mut Rng, out: &mut Vec<String>) {
    let q = if r.chance(1, 4) { '\'' } else { '"' };
    let cs: Vec<char> = text.chars().collect();
    let mut v = String::new();
    let mut i = 0;
    while i < cs.len() {
        if depth > 0 && r.chance(1, 3) {
            let n = if r.chance(1, 4) { cs.len() - i } else { r.range(1, cs.len() - i) };
            let part: String = cs[i..i + n].iter().collect();
            let inner = format!("{name}-{i}");
            declare(&inner, &part, fancy, depth - 1, r, out);
            v.push_str(&format!("&{inner};"));
            i += n;
            continue;
        }
        let c = cs[i];
        i += 1;
        match c {
            '&' => v.push_str("&amp;"),
            '<' => v.push_str("&lt;"),
            '>' if i > 1 && cs[i - 2] == ']' => v.push_str("&gt;"),
            '%' => v.push_str("&#37;"),
            '"' if q == '"' => v.push_str(r.pick(&["&quot;", "&#34;"])),
            '\'' if q == '\'' => v.push_str(r.pick(&["&apos;", "&#x27;"])),
            // a reference in the value is replaced where the entity is declared
            _ if fancy && r.chance(1, 4) && !"\r\n\t".contains(c) => {
                let n = c as u32;
                v.push_str(&if r.chance(1, 2) { format!("&#{n};") } else { format!("&#x{n:X};") });
            }
            _ => v.push(c),
        }
    }
    let mut d = format!("\n<!ENTITY {name} {q}{v}{q}>");
    if fancy && r.chance(1, 3) {
        // only the first declaration counts
        d.push_str(&format!("\n<!ENTITY {name} \"{}\">", r.pick(&["other", "", "  ", "7", "&#65;"])));
    }
    out.push(d);
}
