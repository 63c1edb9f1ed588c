//! Allocator that poisons fresh and freed memory, so that uninitialised or
//! freed elements carry impossible identities, and guards the edges and the
//! layout of every block; optionally refuses (and reports) large requests.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::Relaxed};

pub struct Poison;

/// requests above this size are refused (0: never)
pub static LIMIT: AtomicUsize = AtomicUsize::new(0);
/// number of refused requests
pub static REFUSED: AtomicUsize = AtomicUsize::new(0);
/// if set, a refused request is written to this descriptor and ends the process
pub static REPORT: AtomicI32 = AtomicI32::new(-1);

unsafe extern "C" {
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

#[cold]
fn refused(size: usize) -> *mut u8 {
    REFUSED.fetch_add(1, Relaxed);
    let fd = REPORT.load(Relaxed);
    if fd >= 0 {
        let head = b"\"res\":\"alloc\",\"bytes\":[";
        let mut b = [0u8; 96];
        b[..head.len()].copy_from_slice(head);
        let mut n = head.len();
        let mut x = size;
        while x > 0 {
            if x != size {
                b[n] = b',';
                n += 1;
            }
            let mut d = [0u8; 4];
            let (mut k, mut v) = (4, x & 4095);
            loop {
                k -= 1;
                d[k] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            b[n..n + 4 - k].copy_from_slice(&d[k..]);
            n += 4 - k;
            x >>= 12;
        }
        b[n] = b']';
        unsafe {
            write(fd, b.as_ptr(), n + 1);
            _exit(0)
        }
    }
    std::ptr::null_mut()
}

/// bytes guarded before (at least) and after every block
const ZONE: usize = 32;
const MAGIC: usize = 0x5AFE_B10C_5AFE_B10C;
const EDGE: [u8; ZONE] = [0xEE; ZONE];

fn before(align: usize) -> usize {
    align.max(ZONE)
}
/// the enclosing block
fn outer(l: Layout) -> Option<Layout> {
    let n = l.size().checked_add(before(l.align()) + ZONE)?;
    Layout::from_size_align(n, l.align()).ok()
}
/// Writes what must still be there when the block is given back.
unsafe fn guard(base: *mut u8, l: Layout) -> *mut u8 {
    unsafe {
        let p = base.add(before(l.align()));
        let h = p.sub(ZONE).cast::<usize>();
        h.write_unaligned(MAGIC ^ p as usize);
        h.add(1).write_unaligned(l.size());
        h.add(2).write_unaligned(l.align());
        h.add(3).write_unaligned(!MAGIC);
        p.add(l.size()).cast::<[u8; ZONE]>().write_unaligned(EDGE);
        p
    }
}
/// A block given back twice, under another layout, or with damaged edges is an abort.
unsafe fn verify(p: *mut u8, l: Layout) {
    unsafe {
        let h = p.sub(ZONE).cast::<usize>();
        if h.read_unaligned() != MAGIC ^ p as usize
            || h.add(1).read_unaligned() != l.size()
            || h.add(2).read_unaligned() != l.align()
            || h.add(3).read_unaligned() != !MAGIC
            || p.add(l.size()).cast::<[u8; ZONE]>().read_unaligned() != EDGE
        {
            std::process::abort();
        }
        h.write_unaligned(0);
    }
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let lim = LIMIT.load(Relaxed);
        if lim != 0 && l.size() > lim {
            return refused(l.size());
        }
        // (the interpreter knows itself what is uninitialised or out of bounds)
        if cfg!(miri) {
            return unsafe { System.alloc(l) };
        }
        let Some(o) = outer(l) else { return std::ptr::null_mut() };
        unsafe {
            let base = System.alloc(o);
            if base.is_null() {
                return base;
            }
            let p = guard(base, l);
            p.write_bytes(0xA5, l.size());
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let lim = LIMIT.load(Relaxed);
        if lim != 0 && l.size() > lim {
            return refused(l.size());
        }
        if cfg!(miri) {
            return unsafe { System.alloc_zeroed(l) };
        }
        let Some(o) = outer(l) else { return std::ptr::null_mut() };
        unsafe {
            let base = System.alloc_zeroed(o);
            if base.is_null() { base } else { guard(base, l) }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if cfg!(miri) {
                return System.dealloc(p, l);
            }
            verify(p, l);
            p.write_bytes(0xDD, l.size());
            System.dealloc(p.sub(before(l.align())), outer(l).unwrap_unchecked())
        }
    }
}
