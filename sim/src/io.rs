//! The simulated disk: builds plans for the C shim (c/simio.c), which sits in front of every
//! open/read/stat/seek/close of the code under test, its randomness, and its writes to fd 1 and 2.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

unsafe extern "C" {
    fn simio_load(p: *const u8, n: usize) -> i32;
    fn simio_reset();
    fn simio_log(n: *mut usize) -> *const u8;
    fn simio_out(n: *mut usize) -> *const u8;
    fn simio_clear_out();
    fn simio_seed(s: u64);
    fn simio_fired(i: i32) -> i32;
    fn simio_open_fds() -> i32;
}

pub const OP_OPEN: u8 = 0;
pub const OP_READ: u8 = 1;
pub const OP_STAT: u8 = 2;
pub const OP_SEEK: u8 = 3;
#[allow(dead_code)]
pub const OP_CLOSE: u8 = 4;
pub const OP_WRITE: u8 = 5;
/// a write to standard output
pub const OP_OUT: u8 = 6;
pub const OPS: [&str; 7] = ["open", "read", "stat", "seek", "close", "write", "output"];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Effect {
    /// the call fails
    Errno(i32),
    /// a read returns at most this many bytes
    Short(u32),
    /// the byte at this offset reads as its value xor'ed with the other number
    Flip(u32, u8),
    /// the same, at an offset in the file, by any read (the number of the read doesn't matter)
    At(u32, u8),
    /// a stat reports this size
    Size(i64),
    /// from now on (opens), the file is this version
    Version(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub path: String,
    pub op: u8,
    pub nth: u32,
    pub effect: Effect,
}

impl Fault {
    pub fn kind(&self) -> String {
        let op = OPS[self.op as usize];
        match self.effect {
            Effect::Errno(e) => format!("{op}:{}", errno_name(e)),
            Effect::Short(_) => format!("{op}:short"),
            Effect::Flip(..) | Effect::At(..) => format!("{op}:not-utf8"),
            Effect::Size(n) if n > 1 << 40 => format!("{op}:size-beyond-memory"),
            Effect::Size(_) => format!("{op}:wrong-size"),
            Effect::Version(_) => format!("{op}:replaced"),
        }
    }
}

pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::ENOENT => "ENOENT",
        libc::EACCES => "EACCES",
        libc::EIO => "EIO",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::EISDIR => "EISDIR",
        libc::ENOTDIR => "ENOTDIR",
        libc::ELOOP => "ELOOP",
        libc::EINTR => "EINTR",
        libc::ESTALE => "ESTALE",
        libc::EPERM => "EPERM",
        libc::ENOSPC => "ENOSPC",
        libc::EPIPE => "EPIPE",
        libc::EOVERFLOW => "EOVERFLOW",
        libc::EINVAL => "EINVAL",
        libc::EAGAIN => "EAGAIN",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ESPIPE => "ESPIPE",
        libc::ENOSYS => "ENOSYS",
        _ => "errno",
    }
}

#[derive(Clone, Default, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub files: BTreeMap<String, Vec<Vec<u8>>>,
    pub dirs: Vec<String>,
    pub faults: Vec<Fault>,
    pub chunks: BTreeMap<String, u32>,
    pub seed: Option<u64>,
    pub capture: bool,
}

/// in a file's name: a byte that is no UTF-8
pub const ODD: char = '\u{F8FE}';
pub fn raw(name: &str) -> Vec<u8> {
    let mut v = vec![];
    for (i, part) in name.split(ODD).enumerate() {
        if i > 0 {
            v.push(0xff);
        }
        v.extend(part.as_bytes());
    }
    v
}

impl Plan {
    pub fn of(files: &BTreeMap<String, String>) -> Plan {
        Plan {
            files: files
                .iter()
                .map(|(p, t)| (p.clone(), vec![t.clone().into_bytes()]))
                .collect(),
            capture: true,
            ..Default::default()
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![];
        let s = |b: &mut Vec<u8>, d: &[u8]| {
            b.extend((d.len() as u32).to_le_bytes());
            b.extend(d);
        };
        if let Some(seed) = self.seed {
            b.push(b'S');
            b.extend(seed.to_le_bytes());
        }
        if self.capture {
            b.push(b'O');
        }
        for (p, vs) in &self.files {
            for (i, v) in vs.iter().enumerate() {
                b.push(if i == 0 { b'F' } else { b'V' });
                s(&mut b, &raw(p));
                s(&mut b, v);
            }
        }
        for d in &self.dirs {
            b.push(b'D');
            s(&mut b, &raw(d));
        }
        for (p, c) in &self.chunks {
            b.push(b'C');
            s(&mut b, &raw(p));
            b.extend(c.to_le_bytes());
        }
        for f in &self.faults {
            b.push(b'X');
            s(&mut b, &raw(&f.path));
            let (e, a) = match f.effect {
                Effect::Errno(e) => (0u8, e as i64),
                Effect::Short(n) => (1, n as i64),
                Effect::Flip(pos, x) => (3, ((pos as i64) << 8) | x as i64),
                Effect::At(pos, x) => (6, ((pos as i64) << 8) | x as i64),
                Effect::Size(n) => (4, n),
                Effect::Version(v) => (5, v as i64),
            };
            b.push(f.op);
            b.extend(f.nth.to_le_bytes());
            b.push(e);
            b.extend(a.to_le_bytes());
        }
        b
    }
}

pub fn load(p: &Plan) {
    let b = p.encode();
    let r = unsafe { simio_load(b.as_ptr(), b.len()) };
    assert!(r == 0, "simio_load");
}
pub fn reset() {
    unsafe { simio_reset() }
}
fn take(f: unsafe extern "C" fn(*mut usize) -> *const u8) -> String {
    let mut n = 0usize;
    unsafe {
        let p = f(&mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
    }
}
pub fn log() -> String {
    take(simio_log)
}
/// what was written to fd 2 since the last call
pub fn out() -> String {
    let s = take(simio_out);
    unsafe { simio_clear_out() };
    s
}
pub fn seed(s: u64) {
    unsafe { simio_seed(s) }
}
pub fn fired(i: usize) -> bool {
    unsafe { simio_fired(i as i32) != 0 }
}
pub fn open_fds() -> i32 {
    unsafe { simio_open_fds() }
}
