//! Deterministic randomness and small helpers.  Everything random in the simulator comes from `Rng`.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    /// true in `num` of `den` cases
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// an independent generator, so that adding draws in one part does not shift the others
    pub fn fork(&mut self, tag: &str) -> Rng {
        Rng::new(self.next() ^ hash_str(tag))
    }
}

pub fn strip_ansi(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            if it.peek() == Some(&'[') {
                it.next();
                for d in it.by_ref() {
                    if d.is_ascii_alphabetic() {
                        break;
                    }
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("…");
        t
    }
}

/// normalise a path lexically, as the simulated disk does
pub fn norm(p: &str) -> String {
    let abs = p.starts_with('/');
    let mut v: Vec<&str> = vec![];
    for part in p.split('/') {
        match part {
            "" | "." => {}
            ".." => {
                if v.last().is_some_and(|l| *l != "..") {
                    v.pop();
                } else if !abs {
                    v.push("..");
                }
            }
            x => v.push(x),
        }
    }
    if abs {
        format!("/{}", v.join("/"))
    } else {
        norm(&format!("{CWD}/{}", v.join("/")))
    }
}

/// where the simulated system runs
pub const CWD: &str = "/simfs/p";

/// another way to write the name of the file to start from
pub fn spell(r: &mut Rng, path: &str) -> String {
    let Some(rel) = path.strip_prefix("/simfs/p/") else {
        return match (path.strip_prefix("/simfs/"), r.below(3)) {
            (Some(rel), 0) => format!("../{rel}"),
            (Some(rel), 1) => format!("./../{rel}"),
            _ => path.into(),
        };
    };
    match r.below(8) {
        0 | 1 => rel.into(),
        2 => format!("./{rel}"),
        3 => format!("../p/{rel}"),
        4 => format!("{CWD}/./{rel}"),
        5 => format!("{CWD}/../p/{rel}"),
        6 => format!("{CWD}//{rel}"),
        _ => format!("../../simfs/p/{rel}"),
    }
}
