//! Element access with every index type and form.
//!
//! case: `ty kind form ord nr nc q...`, q = `rows,cols`, each a `/`-separated
//! list of values (one, or for the changing accessors the values served by
//! successive calls).
//! kind: 0 Index 1 tuple 2 array 3 caller-defined 4 WrappingIndex 5 changing
//! accessors; form: 0 get 1 get_mut 2 [] 3 []mut 4..7 the trait's get, get_mut,
//! index, index_mut 8 is_out_of_bounds 9 get_unchecked 10 get_unchecked_mut
//! 11 ensure_in_bounds 12/13 the trait's unchecked forms 14 swap of the first
//! element and this index 15 swap of this index and the last element
//! 16 (changing accessors) swap of two such indices
use matreex::index::{AsIndex, MatrixIndex};
use matreex::{Error, Index, Matrix, WrappingIndex};
use std::cell::{Cell, RefCell};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vharness::ids::{Id, matrix, num};
use vharness::out::J;
use vharness::{palloc, run, with_id};

#[cfg_attr(not(miri), global_allocator)]
static A: palloc::Poison = palloc::Poison;

struct Mine {
    c: usize,
    r: usize,
}
impl AsIndex for Mine {
    fn row(&self) -> usize {
        self.r
    }
    fn col(&self) -> usize {
        self.c
    }
}
struct Changing<'a> {
    rs: &'a [usize],
    cs: &'a [usize],
    k: &'a Cell<usize>,
    l: &'a Cell<usize>,
    log: &'a RefCell<(Vec<usize>, Vec<usize>)>,
}
impl AsIndex for Changing<'_> {
    fn row(&self) -> usize {
        let k = self.k.get();
        self.k.set(k + 1);
        let v = self.rs[k % self.rs.len()];
        self.log.borrow_mut().0.push(v);
        v
    }
    fn col(&self) -> usize {
        let k = self.l.get();
        self.l.set(k + 1);
        let v = self.cs[k % self.cs.len()];
        self.log.borrow_mut().1.push(v);
        v
    }
}

const OK: i64 = 0;
const OOB: i64 = 1;
const PANIC: i64 = 2;
const OTHER: i64 = 3;

fn at<T: Id>(base: *const T, n: usize, x: &T) -> (i64, i64) {
    if T::Z {
        return (0, 0);
    }
    let d = (x as *const T as usize).wrapping_sub(base as usize);
    if d % size_of::<T>() != 0 || d / size_of::<T>() >= n {
        return (-2, -2);
    }
    ((d / size_of::<T>()) as i64, x.id())
}

fn done(r: matreex::Result<()>) -> (i64, i64, i64) {
    match r {
        Ok(()) => (OK, -1, -1),
        Err(Error::IndexOutOfBounds) => (OOB, -1, -1),
        Err(_) => (OTHER, -1, -1),
    }
}

/// code, position, value
fn one<T: Id, I: MatrixIndex<T, Output = T>>(m: &mut Matrix<T>, base: *const T, n: usize, form: i64, i: I) -> (i64, i64, i64) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let shared = |r: matreex::Result<&T>| match r {
            Ok(x) => {
                let (p, v) = at(base, n, x);
                (OK, p, v)
            }
            Err(Error::IndexOutOfBounds) => (OOB, -1, -1),
            Err(_) => (OTHER, -1, -1),
        };
        fn excl<T: Id>(base: *const T, n: usize, r: matreex::Result<&mut T>) -> (i64, i64, i64) {
            match r {
                Ok(x) => {
                    let (p, v) = at(base, n, x);
                    if p >= 0 && !T::Z {
                        *x = T::mk((p + 101) as u32);
                    }
                    (OK, p, v)
                }
                Err(Error::IndexOutOfBounds) => (OOB, -1, -1),
                Err(_) => (OTHER, -1, -1),
            }
        }
        match form {
            0 => shared(m.get(i)),
            1 => excl(base, n, m.get_mut(i)),
            2 => shared(Ok(&m[i])),
            3 => excl(base, n, Ok(&mut m[i])),
            4 => shared(MatrixIndex::get(i, m)),
            5 => excl(base, n, MatrixIndex::get_mut(i, m)),
            6 => shared(Ok(MatrixIndex::index(i, m))),
            7 => excl(base, n, Ok(MatrixIndex::index_mut(i, m))),
            8 => (if i.is_out_of_bounds(m) { OOB } else { OK }, -1, -1),
            9 => shared(Ok(unsafe { m.get_unchecked(i) })),
            10 => excl(base, n, Ok(unsafe { m.get_unchecked_mut(i) })),
            11 => match i.ensure_in_bounds(m) {
                Ok(_) => (OK, -1, -1),
                Err(Error::IndexOutOfBounds) => (OOB, -1, -1),
                Err(_) => (OTHER, -1, -1),
            },
            12 => shared(Ok(unsafe { MatrixIndex::get_unchecked(i, m) })),
            13 => excl(base, n, Ok(unsafe { MatrixIndex::get_unchecked_mut(i, m) })),
            14 => done(m.swap((0, 0), i).map(|_| ())),
            15 => {
                let last = [m.nrows().saturating_sub(1), m.ncols().saturating_sub(1)];
                done(m.swap(i, last).map(|_| ()))
            }
            _ => panic!("harness: form"),
        }
    }));
    r.unwrap_or((PANIC, -1, -1))
}

fn go<T: Id>(w: &[&str]) -> String {
    let kind: i64 = w[1].parse().unwrap();
    let form: i64 = w[2].parse().unwrap();
    let ord: i64 = w[3].parse().unwrap();
    let (nr, nc) = (num(w[4]), num(w[5]));
    let n = nr.checked_mul(nc).expect("harness: size");
    let mut m = matrix::<T>(ord, nr, nc);
    let mut j = J::new();
    j.raw(b"\"q\":[");
    for q in &w[6..] {
        let (rt, ct) = q.split_once(',').unwrap();
        j.comma().raw(b"[");
        let mut served = (Vec::new(), Vec::new());
        let mut neg = (0, 0);
        // re-taken for each query: writes through the matrix invalidate it
        let base = m.iter_elements().next().map_or(std::ptr::null(), |x| x as *const T);
        let res = if kind == 4 {
            let (r, c): (i64, i64) = (rt.parse().unwrap(), ct.parse().unwrap());
            served = (vec![r.unsigned_abs() as usize], vec![c.unsigned_abs() as usize]);
            neg = ((r < 0) as i64, (c < 0) as i64);
            one(&mut m, base, n, form, WrappingIndex::new(r as isize, c as isize))
        } else {
            let list = |t: &str| t.split('/').map(|x| x.parse().unwrap()).collect::<Vec<usize>>();
            let (rs, cs) = (list(rt), list(ct));
            let (r, c) = (rs[0], cs[0]);
            let log = RefCell::new(served);
            if kind != 5 {
                log.borrow_mut().0.push(r);
                log.borrow_mut().1.push(c);
            }
            let res = match kind {
                0 => one(&mut m, base, n, form, Index::new(r, c)),
                1 => one(&mut m, base, n, form, (r, c)),
                2 => one(&mut m, base, n, form, [r, c]),
                3 => one(&mut m, base, n, form, Mine { c, r }),
                5 => {
                    let (k, l) = (Cell::new(0), Cell::new(0));
                    let mk = || Changing { rs: &rs, cs: &cs, k: &k, l: &l, log: &log };
                    if form == 16 {
                        catch_unwind(AssertUnwindSafe(|| done(m.swap(mk(), mk()).map(|_| ())))).unwrap_or((PANIC, -1, -1))
                    } else {
                        one(&mut m, base, n, form, mk())
                    }
                }
                _ => panic!("harness: kind"),
            };
            served = log.into_inner();
            res
        };
        for v in [&served.0, &served.1] {
            j.raw(b"[");
            for x in v {
                j.comma().limbs(*x);
            }
            j.raw(b"],");
        }
        j.ints(&[neg.0, neg.1]).raw(b",").int(res.0).raw(b",").int(res.1).raw(b",").int(res.2);
        // what changed, in memory order
        j.raw(b",[");
        if !T::Z {
            let mut p = 0;
            for x in m.iter_elements_mut() {
                if x.id() != p + 1 {
                    j.comma().ints(&[p, x.id()]);
                    *x = T::mk((p + 1) as u32);
                }
                p += 1;
            }
            if p as usize != n {
                j.comma().ints(&[-1, p]);
            }
        }
        j.raw(b"]]");
    }
    j.raw(b"]");
    j.text()
}

fn main() {
    run::main(
        |w| {
            let mut j = J::new();
            j.raw(b"\"z\":").int((w[0].parse::<i64>().unwrap() >= 9) as i64);
            j.raw(b",\"kind\":").raw(w[1].as_bytes()).raw(b",\"form\":").raw(w[2].as_bytes());
            j.raw(b",\"ord\":").raw(w[3].as_bytes());
            j.raw(b",\"nr\":").limbs(num(w[4])).raw(b",\"nc\":").limbs(num(w[5])).raw(b",");
            j.text()
        },
        |w| with_id!(w[0].parse::<i64>().unwrap(), go(w)),
    );
}
