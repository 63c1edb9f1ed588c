//! Requested sizes, up to the limits of the address space.  Every case runs in
//! a forked child whose allocator reports the first request above 64 MiB (and
//! ends the child), so that an attempted allocation is an observation.
//!
//! case: `op t u ord nr nc pnr pnc`
//! t, u: indices of the source and target element types
//! op 0 with_default 1 with_value 2 with_initializer 3 resize 4 reshape
//! 5 Shape::size 6 multiply 7 multiplication_like_operation 8..10 TryFrom rows
//! 11 map 12 map_ref 13 par_map 14 par_map_ref 15 elementwise_operation
//! 16 its consuming form 17 scalar_operation 18 its consuming form
//! 30 transpose 31 switch_order 32 switch_order_without_rearrangement 33 set_order(nr)
//! 34 set_order_without_rearrangement(nr) 35 swap of two corners 36 swap_rows(nr, nc)
//! 37 swap_cols(nr, nc) 38 swap((0, 0), (nr, nc)) 39 clear 40 overwritten by nr x nc (ord / 2)
//! 41 overwrites nr x nc (13 and 14: in a pool of pnr threads)
//! 20..24 elementwise_add/sub/mul/div/rem 25..29 their consuming forms
use matreex::{Error, Matrix, Order, Shape};
use std::marker::PhantomData;
use std::ops::{Add, Div, Mul, Rem, Sub};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vharness::ids::{Id, matrix, num};
use vharness::out::J;
use vharness::{palloc, run};

#[global_allocator]
static A: palloc::Poison = palloc::Poison;

unsafe extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut u8) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}

/// an element of the size of A
#[derive(Clone)]
struct E<A: Copy>(#[allow(dead_code)] A);
impl<A: Copy> Default for E<A> {
    fn default() -> Self {
        // integers and arrays of integers
        E(unsafe { std::mem::zeroed() })
    }
}
impl<A: Copy> Add for E<A> {
    type Output = Self;
    fn add(self, _: Self) -> Self {
        self
    }
}
/// a zero-sized operand whose results are elements U
struct Zp<U>(PhantomData<fn() -> U>);
impl<U> Clone for Zp<U> {
    fn clone(&self) -> Self {
        Zp(PhantomData)
    }
}
impl<U> Default for Zp<U> {
    fn default() -> Self {
        Zp(PhantomData)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident)*) => {$(
        impl<U: Default> $t for Zp<U> {
            type Output = U;
            fn $f(self, _: Self) -> U { U::default() }
        }
    )*};
}
ops!(Add add Sub sub Mul mul Div div Rem rem);

/// element types as sources
trait Src: Sized + Send + Sync + Default + Clone {
    const SIZED: bool;
}
impl<A: Copy + Send + Sync> Src for E<A> {
    const SIZED: bool = size_of::<A>() > 0;
}
impl<U: Default> Src for Zp<U> {
    const SIZED: bool = false;
}
/// nr x nc matrix in the given order, of any count for zero-sized elements
fn source<T: Src>(ord: i64, nr: usize, nc: usize) -> Matrix<T> {
    let n = nr.checked_mul(nc).expect("harness: source");
    let mut v: Vec<T> = Vec::new();
    if T::SIZED {
        v.resize_with(n, T::default);
    } else {
        unsafe { v.set_len(n) };
    }
    let mut m = Matrix::from_row(v);
    if ord == 0 {
        m.reshape((nr, nc)).expect("harness: reshape");
    } else {
        m.reshape((nc, nr)).expect("harness: reshape");
        m.switch_order_without_rearrangement();
    }
    m
}

fn err(e: Error) -> String {
    format!("err:{e:?}")
}
fn shape<T>(j: &mut J, m: &Matrix<T>) {
    j.raw(b"[").limbs(m.nrows()).raw(b",").limbs(m.ncols()).raw(b",");
    j.limbs(m.size()).raw(b",").int((m.order() == Order::ColMajor) as i64).raw(b"]");
}
fn out<T>(r: Result<Matrix<T>, Error>) -> (String, String) {
    match r {
        Ok(m) => {
            let mut j = J::new();
            shape(&mut j, &m);
            std::mem::forget(m);
            ("ok".into(), j.text())
        }
        Err(e) => (err(e), "[]".into()),
    }
}
fn keep<T>(r: Option<Error>, m: Matrix<T>) -> (String, String) {
    let mut j = J::new();
    shape(&mut j, &m);
    std::mem::forget(m);
    (r.map_or("ok".into(), err), j.text())
}

struct C {
    op: i64,
    ord: i64,
    nr: usize,
    nc: usize,
    pnr: usize,
    pnc: usize,
}

fn make<U: Src + Add<Output = U>>(c: &C) -> (String, String) {
    match c.op {
        0 => out(Matrix::<U>::with_default((c.nr, c.nc))),
        1 => out(Matrix::with_value((c.nr, c.nc), U::default())),
        2 => out(Matrix::with_initializer((c.nr, c.nc), |_| U::default())),
        3 => {
            let mut m = source::<U>(c.ord, c.pnr, c.pnc);
            let r = m.resize((c.nr, c.nc)).err();
            keep(r, m)
        }
        4 => {
            let mut m = source::<U>(c.ord, c.pnr, c.pnc);
            let r = m.reshape((c.nr, c.nc)).err();
            keep(r, m)
        }
        30..=39 => {
            let mut m = source::<U>(c.ord, c.pnr, c.pnc);
            let o = if c.nr == 0 { Order::RowMajor } else { Order::ColMajor };
            let r = match c.op {
                30 => Ok(m.transpose()),
                31 => Ok(m.switch_order()),
                32 => Ok(m.switch_order_without_rearrangement()),
                33 => Ok(m.set_order(o)),
                34 => Ok(m.set_order_without_rearrangement(o)),
                35 => m.swap((0, c.pnc.wrapping_sub(1)), (c.pnr.wrapping_sub(1), 0)),
                36 => m.swap_rows(c.nr, c.nc),
                37 => m.swap_cols(c.nr, c.nc),
                38 => m.swap((0, 0), (c.nr, c.nc)),
                _ => Ok(m.clear()),
            }
            .err();
            keep(r, m)
        }
        6 => {
            let l = source::<Zp<U>>(c.ord & 1, c.nr, c.pnr);
            let r = source::<Zp<U>>(c.ord >> 1, c.pnr, c.nc);
            out(l.multiply(r))
        }
        7 => {
            let l = source::<Zp<U>>(c.ord & 1, c.nr, c.pnr);
            let r = source::<()>(c.ord >> 1, c.pnr, c.nc);
            out(l.multiplication_like_operation(r, |_, _| U::default()))
        }
        20..=29 => {
            let l = source::<Zp<U>>(c.ord & 1, c.nr, c.nc);
            let r = source::<Zp<U>>(c.ord >> 1, c.nr, c.nc);
            out(match c.op {
                20 => l.elementwise_add(&r),
                21 => l.elementwise_sub(&r),
                22 => l.elementwise_mul(&r),
                23 => l.elementwise_div(&r),
                24 => l.elementwise_rem(&r),
                25 => l.elementwise_add_consume_self(&r),
                26 => l.elementwise_sub_consume_self(&r),
                27 => l.elementwise_mul_consume_self(&r),
                28 => l.elementwise_div_consume_self(&r),
                _ => l.elementwise_rem_consume_self(&r),
            })
        }
        _ => panic!("harness: op"),
    }
}
impl Src for () {
    const SIZED: bool = false;
}
fn mapping<T: Src, U: Src>(c: &C) -> (String, String) {
    let m = source::<T>(c.ord & 1, c.nr, c.nc);
    let other = || source::<()>(c.ord >> 1, c.nr, c.nc);
    match c.op {
        11 => out(m.map(|_| U::default())),
        12 => out(m.map_ref(|_| U::default())),
        13 => out(pool(c.pnr, || m.par_map(|_| U::default()))),
        14 => out(pool(c.pnr, || m.par_map_ref(|_| U::default()))),
        15 => out(m.elementwise_operation(&other(), |_, _| U::default())),
        16 => out(m.elementwise_operation_consume_self(&other(), |_, _| U::default())),
        17 => out(m.scalar_operation(&0, |_, _| U::default())),
        18 => out(m.scalar_operation_consume_self(&0, |_, _| U::default())),
        _ => panic!("harness: op"),
    }
}
/// a zero-sized element that counts its copies
struct Zc;
static COPIES: AtomicUsize = AtomicUsize::new(0);
impl Clone for Zc {
    fn clone(&self) -> Self {
        COPIES.fetch_add(1, SeqCst);
        Zc
    }
}
impl Default for Zc {
    fn default() -> Self {
        Zc
    }
}
impl Src for Zc {
    const SIZED: bool = false;
}
fn overlay(c: &C) -> (String, String) {
    let mut m = source::<Zc>(c.ord & 1, c.pnr, c.pnc);
    let mut n = source::<Zc>(c.ord >> 1, c.nr, c.nc);
    if c.op == 40 {
        m.overwrite(&n);
    } else {
        n.overwrite(&m);
    }
    let mut j = J::new();
    j.raw(b"[");
    for (k, m) in [m, n].into_iter().enumerate() {
        j.raw(if k == 0 { b"" } else { b"," });
        shape(&mut j, &m);
        std::mem::forget(m);
    }
    j.raw(b",").limbs(COPIES.load(SeqCst)).raw(b"]");
    ("ok".into(), j.text())
}
fn pool<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    match n {
        0 => f(),
        n => rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("harness: pool").install(f),
    }
}
fn rows<T: Id>(c: &C) -> (String, String) {
    let row = || {
        let m = matrix::<T>(0, 1, c.nc);
        // a row of any length
        let v: Vec<T> = m.into_iter_elements().collect();
        v
    };
    let zrow = || {
        let mut v: Vec<T> = Vec::new();
        if T::Z {
            unsafe { v.set_len(c.nc) };
            v
        } else {
            row()
        }
    };
    match c.op {
        8 => out(Matrix::try_from((0..c.nr).map(|_| zrow()).collect::<Vec<_>>())),
        9 => out(Matrix::try_from(&(0..c.nr).map(|_| zrow()).collect::<Vec<_>>()[..])),
        _ => out(match c.nr {
            0 => Matrix::try_from([] as [Vec<T>; 0]),
            1 => Matrix::try_from([zrow()]),
            2 => Matrix::try_from([zrow(), zrow()]),
            3 => Matrix::try_from([zrow(), zrow(), zrow()]),
            _ => panic!("harness: rows"),
        }),
    }
}

macro_rules! with_e {
    ($n:expr, $f:ident [$($g:ty),*] ($($a:expr),*)) => {
        match $n {
            0 => $f::<$($g,)* E<[u8; 0]>>($($a),*),
            1 => $f::<$($g,)* E<u8>>($($a),*),
            2 => $f::<$($g,)* E<u16>>($($a),*),
            3 => $f::<$($g,)* E<u32>>($($a),*),
            4 => $f::<$($g,)* E<u64>>($($a),*),
            5 => $f::<$($g,)* E<u128>>($($a),*),
            6 => $f::<$($g,)* E<[u64; 3]>>($($a),*),
            7 => $f::<$($g,)* E<[u16; 2048]>>($($a),*),
            8 => $f::<$($g,)* E<[u8; 3]>>($($a),*),
            _ => panic!("harness: type"),
        }
    };
}
const SIZES: [usize; 9] = [0, 1, 2, 4, 8, 16, 24, 4096, 3];

fn call(w: &[&str]) -> (String, String) {
    let i = |k: usize| w[k].parse::<i64>().unwrap();
    let c = C { op: i(0), ord: i(3), nr: num(w[4]), nc: num(w[5]), pnr: num(w[6]), pnc: num(w[7]) };
    match c.op {
        5 => match Shape::new(c.nr, c.nc).size() {
            Ok(n) => {
                let mut j = J::new();
                j.raw(b"[").limbs(c.nr).raw(b",").limbs(c.nc).raw(b",").limbs(n).raw(b",0]");
                ("ok".into(), j.text())
            }
            Err(e) => (err(e), "[]".into()),
        },
        8..=10 => match i(2) {
            0 => rows::<()>(&c),
            1 => rows::<u8>(&c),
            4 => rows::<u64>(&c),
            6 => rows::<[u64; 3]>(&c),
            _ => panic!("harness: type"),
        },
        40 | 41 => overlay(&c),
        11..=18 => match i(1) {
            0 => with_e!(i(2), mapping[E<[u8; 0]>](&c)),
            1 => with_e!(i(2), mapping[E<u8>](&c)),
            _ => with_e!(i(2), mapping[E<[u64; 3]>](&c)),
        },
        _ => with_e!(i(2), make[](&c)),
    }
}

extern "C" fn busy(_: i32) {
    let t = b"\"res\":\"busy\"";
    let fd = palloc::REPORT.load(SeqCst);
    unsafe {
        writefd(fd, t.as_ptr(), t.len());
        _exit(0)
    }
}
unsafe extern "C" {
    #[link_name = "write"]
    fn writefd(fd: i32, b: *const u8, n: usize) -> isize;
}

fn go(w: &[&str]) -> String {
    let mut fds = [0i32; 2];
    let pid = unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0, "harness: pipe");
        fork()
    };
    assert!(pid >= 0, "harness: fork");
    if pid == 0 {
        unsafe {
            for s in [6, 11, 7, 4, 5, 8] {
                signal(s, 0);
            }
            alarm(0);
            signal(14, 0);
            signal(26, busy as *const () as usize);
            palloc::REPORT.store(fds[1], SeqCst);
            // 150 ms of processor time
            setitimer(1, &[0, 0, 0, 150_000], std::ptr::null_mut());
            alarm(60);
        }
        palloc::LIMIT.store(1 << 26, SeqCst);
        let r = std::panic::catch_unwind(|| call(w));
        unsafe { signal(26, 1) };
        let t = match r {
            Ok((res, post)) => format!("\"res\":\"{res}\",\"post\":{post}"),
            Err(_) => "\"res\":\"panic\"".into(),
        };
        unsafe {
            writefd(fds[1], t.as_ptr(), t.len());
            _exit(0)
        }
    }
    let mut text = Vec::new();
    let mut st = 0;
    unsafe {
        close(fds[1]);
        let mut b = [0u8; 4096];
        loop {
            let n = read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&b[..n as usize]);
        }
        close(fds[0]);
        waitpid(pid, &mut st, 0);
    }
    if st != 0 || text.is_empty() {
        assert!(st != 3 << 8, "harness: child");
        return format!("\"res\":\"crash\",\"status\":{st}");
    }
    String::from_utf8(text).unwrap()
}

fn main() {
    // forked children make their own small pools
    unsafe { std::env::set_var("RAYON_NUM_THREADS", "2") };
    run::main(
        |w| {
            let i = |k: usize| w[k].parse::<i64>().unwrap();
            let mut j = J::new();
            j.raw(b"\"op\":").int(i(0)).raw(b",\"ts\":").int(SIZES[i(1) as usize] as i64);
            j.raw(b",\"us\":").int(SIZES[i(2) as usize] as i64).raw(b",\"ord\":").int(i(3));
            j.raw(b",\"nr\":").limbs(num(w[4])).raw(b",\"nc\":").limbs(num(w[5]));
            j.raw(b",\"pnr\":").limbs(num(w[6])).raw(b",\"pnc\":").limbs(num(w[7])).raw(b",");
            j.text()
        },
        go,
    );
}
