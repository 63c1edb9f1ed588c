//! Parallel helpers on thread pools of every size.
//!
//! case: `ty ord nr nc op how threads salt`
//! op 0 par_apply, 1 par_map (new element), 2 par_map (the same element),
//! 3 par_map (number), 4 par_map_ref (new element), 5 par_map_ref (reference),
//! 6 par_iter_elements, 7 _mut, 8 into_, 9..11 the same with index
//! how 0 for_each, 1 collect, 2 fold + reduce, 3 map + collect of pairs,
//! 4 nested in another parallel job, 5 global pool
use matreex::parallel::*;
use matreex::{Index, Matrix};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use vharness::elem::{self, Elem};
use vharness::ledger as l;
use vharness::{out, palloc, run, with_elem};

#[cfg_attr(not(miri), global_allocator)]
static A: palloc::Poison = palloc::Poison;

fn build<E: Elem>(ord: i64, nr: usize, nc: usize) -> Matrix<E> {
    let v: Vec<E> = (1..=(nr * nc) as i32).map(E::make).collect();
    let mut m = Matrix::from_row(v);
    if ord == 0 {
        m.reshape((nr, nc)).expect("harness: reshape");
    } else {
        m.reshape((nc, nr)).expect("harness: reshape");
        m.switch_order_without_rearrangement();
    }
    m
}

type Log = Mutex<Vec<[i64; 4]>>;
static STEP: AtomicU64 = AtomicU64::new(0);

/// uneven work: some calls yield, some spin
fn work(salt: u64) {
    let k = STEP.fetch_add(1, Relaxed);
    let h = (k.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ salt.wrapping_mul(0xbf58_476d_1ce4_e5b9)) >> 59;
    match h % 8 {
        0 | 1 => std::thread::yield_now(),
        2 => {
            for _ in 0..200 {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
fn seen<E: Elem>(log: &Log, i: Option<Index>, e: &E) {
    let ix = i.map_or((-1, -1), |i| (i.row as i64, i.col as i64));
    log.lock().unwrap().push([ix.0, ix.1, e.lid(), e.val() as i64]);
}

/// consume a parallel iterator in one of several ways
fn consume<X: Send, P: ParallelIterator<Item = X>>(p: P, how: i64, see: impl Fn(X) -> u64 + Sync + Send) -> u64 {
    match how {
        0 | 4 | 5 => {
            let n = AtomicU64::new(0);
            p.for_each(|x| {
                n.fetch_add(see(x), Relaxed);
            });
            n.into_inner()
        }
        1 => {
            let v: Vec<X> = p.collect();
            v.into_iter().map(see).sum()
        }
        2 => p.fold(|| 0, |n, x| n + see(x)).reduce(|| 0, |a, b| a + b),
        _ => p.map(|x| see(x)).collect::<Vec<u64>>().into_iter().sum(),
    }
}

fn mat<T>(m: &Matrix<T>, f: impl Fn(&T) -> (i64, i64)) -> String {
    let mut j = out::J::new();
    j.raw(b"{\"ord\":").int(if m.order() == matreex::Order::RowMajor { 0 } else { 1 });
    j.raw(b",\"nr\":").int(m.nrows() as i64).raw(b",\"nc\":").int(m.ncols() as i64);
    j.raw(b",\"mem\":[");
    for e in m.iter_elements() {
        let (a, b) = f(e);
        j.comma().ints(&[a, b]);
    }
    j.raw(b"]}");
    j.text()
}
const NONE: &str = "{\"ord\":-1,\"nr\":0,\"nc\":0,\"mem\":[]}";
fn el<E: Elem>(e: &E) -> (i64, i64) {
    (e.lid(), e.val() as i64)
}

fn ops<E: Elem>(m: Matrix<E>, op: i64, how: i64, salt: u64, log: &Log) -> (String, String, u64) {
    let mut m = m;
    match op {
        0 => {
            let r = m.par_apply(|e| {
                work(salt);
                seen(log, None, e);
                e.set(elem::f_apply(e.val()));
            });
            // the same matrix comes back
            let r: *const Matrix<E> = r;
            assert!(std::ptr::eq(r, &m));
            let s = mat(&m, el);
            std::mem::forget(m);
            (s, NONE.into(), 0)
        }
        1 => {
            let r = m.par_map(|e| {
                work(salt);
                seen(log, None, &e);
                E::make(elem::f_map(e.val()))
            });
            let r = r.unwrap();
            let s = mat(&r, el);
            std::mem::forget(r);
            (s, NONE.into(), 0)
        }
        2 => {
            let r = m.par_map(|e| {
                work(salt);
                seen(log, None, &e);
                e
            });
            let r = r.unwrap();
            let s = mat(&r, el);
            // the elements live on
            std::mem::forget(r);
            (s, NONE.into(), 0)
        }
        3 => {
            let r = m.par_map(|e| {
                work(salt);
                seen(log, None, &e);
                e.val() as u64
            });
            let r = r.unwrap();
            (mat(&r, |v| (0, *v as i64)), NONE.into(), 0)
        }
        4 => {
            let r = m.par_map_ref(|e| {
                work(salt);
                seen(log, None, e);
                E::make(elem::f_map(e.val()))
            });
            let r = r.unwrap();
            let s = mat(&r, el);
            std::mem::forget(r);
            let k = mat(&m, el);
            std::mem::forget(m);
            (s, k, 0)
        }
        5 => {
            let s = {
                let r = m.par_map_ref(|e| {
                    work(salt);
                    seen(log, None, e);
                    e
                });
                let r = r.unwrap();
                mat(&r, |e| el(*e))
            };
            let k = mat(&m, el);
            std::mem::forget(m);
            (s, k, 0)
        }
        6 => {
            let n = consume(m.par_iter_elements(), how, |e| {
                work(salt);
                seen(log, None, e);
                1
            });
            let k = mat(&m, el);
            std::mem::forget(m);
            (NONE.into(), k, n)
        }
        7 => {
            let n = consume(m.par_iter_elements_mut(), how, |e| {
                work(salt);
                seen(log, None, e);
                e.set(elem::f_apply(e.val()));
                1
            });
            let k = mat(&m, el);
            std::mem::forget(m);
            (k, NONE.into(), n)
        }
        8 => {
            let n = consume(m.into_par_iter_elements(), how, |e| {
                work(salt);
                seen(log, None, &e);
                1
            });
            (NONE.into(), NONE.into(), n)
        }
        9 => {
            let n = consume(m.par_iter_elements_with_index(), how, |(i, e)| {
                work(salt);
                seen(log, Some(i), e);
                1
            });
            let k = mat(&m, el);
            std::mem::forget(m);
            (NONE.into(), k, n)
        }
        10 => {
            let n = consume(m.par_iter_elements_mut_with_index(), how, |(i, e)| {
                work(salt);
                seen(log, Some(i), e);
                e.set(elem::f_apply(e.val()));
                1
            });
            let k = mat(&m, el);
            std::mem::forget(m);
            (k, NONE.into(), n)
        }
        _ => {
            let n = consume(m.into_par_iter_elements_with_index(), how, |(i, e)| {
                work(salt);
                seen(log, Some(i), &e);
                1
            });
            (NONE.into(), NONE.into(), n)
        }
    }
}

fn go<E: Elem>(a: &[i64]) -> String {
    let (ord, nr, nc, op, how) = (a[0], a[1] as usize, a[2] as usize, a[3], a[4]);
    let (threads, salt) = (a[5] as usize, a[6] as u64);
    l::reset();
    let m: Matrix<E> = build(ord, nr, nc);
    let pre = mat(&m, el);
    let log: Log = Mutex::new(Vec::new());
    l::begin_op();
    let (res, kept, n) = if how == 5 {
        ops(m, op, how, salt, &log)
    } else {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("harness: pool");
        if how == 4 {
            pool.install(|| rayon::join(|| work(salt), || ops(m, op, how, salt, &log)).1)
        } else {
            pool.install(|| ops(m, op, how, salt, &log))
        }
    };
    let (cr, dr, zc, zd) = {
        let g = l::led();
        (g.cr.clone(), g.dr.clone(), g.zc, g.zd)
    };
    let mut j = out::J::new();
    j.raw(b"\"z\":").int(E::Z as i64).raw(b",\"dropglue\":").int(E::DROP as i64);
    j.raw(b",\"cnt\":").int(n as i64).raw(b",\"pre\":").raw(pre.as_bytes());
    j.raw(b",\"out\":").raw(res.as_bytes()).raw(b",\"kept\":").raw(kept.as_bytes());
    j.raw(b",\"cr\":").raw(out::ids(&cr).as_bytes()).raw(b",\"dr\":").raw(out::ids(&dr).as_bytes());
    j.raw(b",\"zc\":").int(zc as i64).raw(b",\"zd\":").int(zd as i64).raw(b",\"log\":[");
    for e in log.into_inner().unwrap().iter() {
        j.comma().ints(e);
    }
    j.raw(b"]");
    j.text()
}

fn main() {
    run::main(
        |a| {
            format!(
                "\"ty\":\"{}\",\"ord\":{},\"nr\":{},\"nc\":{},\"op\":{},\"how\":{},\"threads\":{},",
                a[0], a[1], a[2], a[3], a[4], a[5], a[6]
            )
        },
        |a| {
            let v: Vec<i64> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
            with_elem!(a[0], [T1 T2 T3 T4 T8 T16 T24 T40 T264 T4K TB N128 N1 N4 N24 Z1 Z8 ZN], go(&v))
        },
    );
}
