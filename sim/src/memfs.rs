//! A `Files` implementation under the simulator's control: versions, scripted failures, panics,
//! replacement at a chosen load, and a hook that runs other work inside the callback.
use crate::util::norm;
use relaxng_model::{Files, FsFiles, RelaxError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(String),
    Failed(String),
    Panicked,
}
#[derive(Clone, Debug)]
pub struct Load {
    pub raw: String,
    pub path: String,
    pub out: Outcome,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trouble {
    Errno(i32),
    Panic,
}
#[derive(Default)]
pub struct Disk {
    pub files: BTreeMap<String, String>,
    pub trouble: BTreeMap<String, Trouble>,
    /// (before load number, path, new text)
    pub switches: Vec<(usize, String, String)>,
    pub loads: Vec<Load>,
    pub fired: u64,
    pub hook: Option<Box<dyn FnMut(&str, usize)>>,
}
pub type Shared = Rc<RefCell<Disk>>;
pub fn disk(files: &BTreeMap<String, String>) -> Shared {
    Rc::new(RefCell::new(Disk {
        files: files.clone(),
        ..Default::default()
    }))
}
pub const PANIC_MSG: &str = "storage callback panics (injected)";

pub struct MemFs(pub Shared);
impl Files for MemFs {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let raw = name.to_string_lossy().into_owned();
        let path = norm(&raw);
        let (n, hook) = {
            let mut d = self.0.borrow_mut();
            let n = d.loads.len();
            let sw: Vec<_> = d.switches.iter().filter(|s| s.0 == n).cloned().collect();
            for (_, p, t) in sw {
                d.files.insert(p, t);
                d.fired += 1;
            }
            (n, d.hook.take())
        };
        if let Some(mut h) = hook {
            h(&path, n);
            self.0.borrow_mut().hook = Some(h);
        }
        let mut d = self.0.borrow_mut();
        let res = match d.trouble.get(&path).copied() {
            Some(Trouble::Errno(e)) => {
                d.fired += 1;
                Err(io::Error::from_raw_os_error(e))
            }
            Some(Trouble::Panic) => {
                d.fired += 1;
                d.loads.push(Load { raw, path, out: Outcome::Panicked });
                drop(d);
                panic!("{PANIC_MSG}");
            }
            // what std::fs says about such a name
            None if raw.contains('\0') => std::fs::read("\0").map(|_| String::new()),
            None => d
                .files
                .get(&path)
                .cloned()
                .ok_or_else(|| io::Error::from_raw_os_error(libc::ENOENT)),
        };
        let out = match &res {
            Ok(t) => Outcome::Ok(t.clone()),
            Err(e) => Outcome::Failed(e.to_string()),
        };
        d.loads.push(Load { raw, path, out });
        res.map_err(|e| RelaxError::Io(name.to_path_buf(), e))
    }
}

/// the real file-system loader, with a record of what it returned
pub struct Recording(pub Rc<RefCell<Vec<Load>>>);
impl Files for Recording {
    fn load(&self, name: &Path) -> Result<String, RelaxError> {
        let raw = name.to_string_lossy().into_owned();
        let path = norm(&raw);
        let res = FsFiles.load(name);
        let out = match &res {
            Ok(t) => Outcome::Ok(t.clone()),
            Err(e) => Outcome::Failed(format!("{e:?}")),
        };
        self.0.borrow_mut().push(Load { raw, path, out });
        res
    }
}
