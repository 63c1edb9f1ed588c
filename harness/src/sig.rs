//! A crash of the process under test (std precondition abort, segfault, ...)
//! is an observation like any other: the handler completes the current trace
//! line with `"res":"crash"` (or "hang") and leaves.
use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicUsize, Ordering::SeqCst};

unsafe extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn alarm(secs: u32) -> u32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

static FD: AtomicI32 = AtomicI32::new(-1);
static BUF: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static LEN: AtomicUsize = AtomicUsize::new(0);
static PEND: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static PLEN: AtomicUsize = AtomicUsize::new(0);

fn put(p: *const u8, n: usize) {
    let fd = FD.load(SeqCst);
    let mut off = 0;
    while off < n {
        let k = unsafe { write(fd, p.add(off), n - off) };
        if k <= 0 {
            break;
        }
        off += k as usize;
    }
}

extern "C" fn handler(sig: i32) {
    let b = BUF.load(SeqCst);
    if !b.is_null() {
        put(b, LEN.load(SeqCst));
        let p = PEND.load(SeqCst);
        if !p.is_null() {
            put(p, PLEN.load(SeqCst));
        }
        let tail: &[u8] = if sig == 14 {
            b"\"res\":\"hang\",\"ret\":[],\"cr\":[],\"dr\":[],\"w\":[]}]}\n"
        } else {
            b"\"res\":\"crash\",\"ret\":[],\"cr\":[],\"dr\":[],\"w\":[]}]}\n"
        };
        put(tail.as_ptr(), tail.len());
    }
    unsafe { _exit(77) }
}

pub fn install(fd: i32) {
    FD.store(fd, SeqCst);
    if cfg!(miri) {
        return;
    }
    unsafe {
        for s in [6, 11, 7, 4, 14, 5, 8] {
            signal(s, handler as *const () as usize);
        }
        // no core files
        setrlimit(4, &[0, 0]);
    }
}

/// `buf`: the trace line so far; `pend`: the head of the pending event.
pub fn pending(buf: &str, pend: &str) {
    BUF.store(std::ptr::null_mut(), SeqCst);
    LEN.store(buf.len(), SeqCst);
    PEND.store(pend.as_ptr() as *mut u8, SeqCst);
    PLEN.store(pend.len(), SeqCst);
    BUF.store(buf.as_ptr() as *mut u8, SeqCst);
}

pub fn idle() {
    BUF.store(std::ptr::null_mut(), SeqCst);
}

pub fn deadline(secs: u32) {
    if cfg!(miri) {
        return;
    }
    unsafe {
        alarm(secs);
    }
}

/// The driver itself was refused something it relies on: the running case ends
/// as a crash does.
pub fn stop() -> ! {
    if BUF.load(SeqCst).is_null() {
        leave(3);
    }
    handler(6);
    leave(77)
}

pub fn leave(code: i32) -> ! {
    unsafe { _exit(code) }
}
