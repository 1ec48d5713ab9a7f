//! The process that runs simulations.  It never touches its heap after start-up: every run happens
//! in a fork of the same pristine image, so that even heap addresses are the same each time.
use crate::alloc;
use crate::props::{self, Prop};
use crate::report::Report;
use crate::util::{Rng, hash_str, mix};
use serde_json::Value;

pub const MSG_MAX: usize = 24 << 20;
/// a run takes milliseconds; one that takes this long (seconds on the wall, seconds of CPU) hangs
const RUN_TIMEOUT: u32 = 100;
const RUN_CPU: u64 = 20;

#[repr(C)]
struct Area {
    len: u64,
    data: [u8; MSG_MAX],
}

unsafe fn read_full(fd: i32, p: *mut u8, n: usize) -> bool {
    let mut i = 0;
    while i < n {
        let k = unsafe { libc::syscall(libc::SYS_read, fd, p.add(i), n - i) } as isize;
        if k <= 0 {
            return false;
        }
        i += k as usize;
    }
    true
}
unsafe fn write_full(fd: i32, p: *const u8, n: usize) -> bool {
    let mut i = 0;
    while i < n {
        let k = unsafe { libc::syscall(libc::SYS_write, fd, p.add(i), n - i) } as isize;
        if k <= 0 {
            return false;
        }
        i += k as usize;
    }
    true
}

/// message in: kind (0: index, 1: scenario), tier, seed u64, index u64, len u64, payload.
/// message out: wait status i32, len u64, payload (JSON of the report, may be empty)
pub const HEAD: usize = 1 + 1 + 8 + 8 + 8;

pub fn seed_of(id: &str, seed: u64, index: u64) -> u64 {
    mix(hash_str(id) ^ mix(seed) ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

pub fn worker(id: &str) -> ! {
    let prop: &'static Prop = Box::leak(Box::new(props::all().into_iter().find(|p| p.id == id).expect("property")));
    crate::sandbox::install_hook();
    let map = |n: usize| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    };
    let input = map(MSG_MAX);
    let out = map(std::mem::size_of::<Area>()) as *mut Area;
    // the pipes move away from 0 and 1, so that the code under test cannot garble them
    let (pin, pout) = unsafe {
        let a = libc::dup(0);
        let b = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        (a, b)
    };
    loop {
        let mut head = [0u8; HEAD];
        if !unsafe { read_full(pin, head.as_mut_ptr(), HEAD) } {
            unsafe { libc::_exit(0) };
        }
        let u = |o: usize| u64::from_le_bytes(head[o..o + 8].try_into().unwrap());
        let (kind, thorough, seed, index, len) = (head[0], head[1] != 0, u(2), u(10), u(18) as usize);
        if len > MSG_MAX || !unsafe { read_full(pin, input, len) } {
            unsafe { libc::_exit(3) };
        }
        unsafe { (*out).len = 0 };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::alarm(RUN_TIMEOUT);
                let cpu = libc::rlimit { rlim_cur: RUN_CPU, rlim_max: RUN_CPU + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                libc::close(pin);
                libc::close(pout);
            }
            let text = unsafe { std::slice::from_raw_parts(input, len) };
            child(prop, kind, thorough, seed, index, text, out);
            unsafe { libc::_exit(0) };
        }
        let mut st = 0i32;
        unsafe {
            if pid < 0 {
                st = -1;
            } else {
                while libc::waitpid(pid, &mut st, 0) < 0 {}
            }
            let n = (*out).len;
            let a = write_full(pout, st.to_le_bytes().as_ptr(), 4)
                && write_full(pout, n.to_le_bytes().as_ptr(), 8)
                && write_full(pout, std::ptr::addr_of!((*out).data) as *const u8, n as usize);
            if !a {
                libc::_exit(0);
            }
        }
    }
}

fn child(prop: &Prop, kind: u8, thorough: bool, seed: u64, index: u64, text: &[u8], out: *mut Area) {
    let scenario: Value = if kind == 0 || kind == 2 {
        let mut r = Rng::new(seed_of(prop.id, seed, index));
        // through text, as a replay gets it
        let s = serde_json::to_string(&(prop.generate)(&mut r, thorough)).unwrap();
        if kind == 2 {
            put(out, s.as_bytes());
            return;
        }
        serde_json::from_str(&s).unwrap()
    } else {
        serde_json::from_slice(text).unwrap()
    };
    alloc::budget(prop.budget.0, prop.budget.1);
    let mut rep = Report::default();
    // all the code under test runs on a thread with a stack of the usual size for a main thread
    let r = {
        let rep = &mut rep;
        let scenario = &scenario;
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || crate::sandbox::catch(|| (prop.run)(scenario, rep)))
                .unwrap()
                .join()
        })
    };
    alloc::no_budget();
    crate::io::reset();
    match r {
        Ok(Ok(())) => {}
        // the code under test panicked where no check expected it to
        Ok(Err(p)) if p.file.contains("relaxng-") => rep.violate("panic", p.text()),
        // the harness itself panicked
        Ok(Err(p)) => {
            put(out, format!("{}:{}: {}", p.file, p.line, crate::util::clip(&p.msg, 4000)).as_bytes());
            unsafe { libc::_exit(85) };
        }
        Err(_) => unsafe { libc::_exit(85) },
    }
    let s = serde_json::to_vec(&rep).unwrap();
    put(out, &s);
}
fn put(out: *mut Area, s: &[u8]) {
    if s.len() > MSG_MAX {
        unsafe { libc::_exit(84) };
    }
    unsafe {
        std::ptr::copy_nonoverlapping(s.as_ptr(), std::ptr::addr_of_mut!((*out).data) as *mut u8, s.len());
        (*out).len = s.len() as u64;
    }
}
