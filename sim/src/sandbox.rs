//! Runs a piece of the code under test on a thread of its own (so that its hash seeds are drawn
//! afresh, from the simulator's generator), catching panics with their message and place.
use std::cell::RefCell;
use std::panic::{self, AssertUnwindSafe};
use std::sync::Once;

thread_local! {
    static LAST: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub msg: String,
    pub file: String,
    pub line: u32,
}
impl Panic {
    pub fn text(&self) -> String {
        // keep the part of the path that does not depend on where the repository lies
        let f = match self.file.find("relaxng-") {
            Some(i) => &self.file[i..],
            None => self.file.rsplit('/').next().unwrap_or(&self.file),
        };
        format!("panic at {}: {}", f, crate::util::clip(&self.msg, 200))
    }
}

static HOOK: Once = Once::new();
pub fn install_hook() {
    HOOK.call_once(|| {
        panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let (file, line) = info
                .location()
                .map(|l| (l.file().to_string(), l.line()))
                .unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = Some(Panic { msg, file, line }));
        }));
    });
}

/// catch a panic on the current thread
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    install_hook();
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panic {
            msg: "?".into(),
            file: "?".into(),
            line: 0,
        })
    })
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}

/// run on a fresh thread with the given seed for its randomness, to completion
pub fn on_thread<T>(seed: u64, name: Option<&str>, f: impl FnOnce() -> T) -> Result<T, Panic> {
    install_hook();
    crate::io::seed(seed);
    let f = Force(f);
    let mut thread = std::thread::Builder::new().stack_size(8 << 20);
    if let Some(n) = name {
        thread = thread.name(n.to_string());
    }
    let r = std::thread::scope(|s| {
        thread
            .spawn_scoped(s, move || {
                let f = f;
                // a thread is only ever used by one closure at a time, and joined right away
                Force(catch(f.0))
            })
            .expect("spawn")
            .join()
    });
    match r {
        Ok(Force(v)) => v,
        Err(_) => Err(Panic {
            msg: "thread died".into(),
            file: "?".into(),
            line: 0,
        }),
    }
}

/// run in a process of its own, forked off here, so that nothing it does can be seen here
pub fn in_fork<T: serde::Serialize + serde::de::DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    unsafe {
        let mut p = [0i32; 2];
        assert!(libc::pipe(p.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::syscall(libc::SYS_close, p[0]);
            let v = match catch(f) {
                Ok(v) => serde_json::to_vec(&v).unwrap(),
                Err(e) => {
                    let t = e.text();
                    let mut v = b"!".to_vec();
                    v.extend(t.bytes());
                    v
                }
            };
            let mut i = 0;
            while i < v.len() {
                let k = libc::syscall(libc::SYS_write, p[1], v.as_ptr().add(i), v.len() - i);
                if k <= 0 {
                    break;
                }
                i += k as usize;
            }
            libc::_exit(0);
        }
        libc::syscall(libc::SYS_close, p[1]);
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            let k = libc::syscall(libc::SYS_read, p[0], b.as_mut_ptr(), b.len());
            if k <= 0 {
                break;
            }
            v.extend_from_slice(&b[..k as usize]);
        }
        libc::syscall(libc::SYS_close, p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0 {
            // a budget ran out: the whole run ends in the same way
            libc::_exit(libc::WEXITSTATUS(st));
        }
        if libc::WIFSIGNALED(st) {
            return Err(format!("killed by signal {}", libc::WTERMSIG(st)));
        }
        if v.first() == Some(&b'!') {
            return Err(String::from_utf8_lossy(&v[1..]).into_owned());
        }
        serde_json::from_slice(&v).map_err(|e| e.to_string())
    }
}
