//! Operations on large matrices, recorded in compressed form.
//!
//! case: `ty o r c o2 r2 c2 op x y`
//!
//! A has order o and shape r x c, its element at memory position p has value
//! p + 1; B likewise (o2, r2, c2), values 1000001 + p.  Matrices are recorded
//! as runs `[start, value, step, count]` of their memory sequence (m) and of
//! their elements in row-major order, read with get (g).
use matreex::{Index, Matrix, Order, WrappingIndex};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use vharness::{out, run};

static MADE: AtomicI64 = AtomicI64::new(0);
static CLONED: AtomicI64 = AtomicI64::new(0);
static DROPPED: AtomicI64 = AtomicI64::new(0);

trait Val: Clone + Default + PartialEq + Send + Sync + 'static {
    const COUNTED: bool = false;
    fn mk(v: i64) -> Self;
    fn v(&self) -> i64;
    fn set(&mut self, v: i64);
}
impl Val for i64 {
    fn mk(v: i64) -> i64 {
        v
    }
    fn v(&self) -> i64 {
        *self
    }
    fn set(&mut self, v: i64) {
        *self = v
    }
}
#[derive(Clone, Default, PartialEq)]
#[repr(C, packed)]
struct P5(u8, [u8; 4]);
impl Val for P5 {
    fn mk(v: i64) -> P5 {
        P5(!(v as u8), (v as u32).to_le_bytes())
    }
    fn v(&self) -> i64 {
        let v = u32::from_le_bytes(self.1) as i64;
        if self.0 == !(v as u8) || v == 0 { v } else { -7 }
    }
    fn set(&mut self, v: i64) {
        *self = P5::mk(v)
    }
}
/// typed rows: an array of arrays, a vector of them, a slice of them
fn arrays<T: Val>(k: i64, v: Vec<Vec<T>>) -> Matrix<T> {
    fn fixed<T: Val, const C: usize>(v: Vec<Vec<T>>) -> Vec<[T; C]> {
        v.into_iter().map(|r| <[T; C]>::try_from(r).ok().expect("harness: width")).collect()
    }
    fn all<T: Val, const R: usize, const C: usize>(k: i64, v: Vec<Vec<T>>) -> Matrix<T> {
        let v: Vec<[T; C]> = fixed(v);
        match k {
            4 => Matrix::from(<[[T; C]; R]>::try_from(v).ok().expect("harness: height")),
            5 => Matrix::from(v),
            6 => Matrix::from(&v[..]),
            9 => v.into_iter().collect(),
            _ => panic!("harness: kind"),
        }
    }
    macro_rules! listed {
        ($($r:literal $c:literal),*) => {
            match (v.len(), v[0].len()) {
                $(($r, $c) => all::<T, $r, $c>(k, v),)*
                _ => panic!("harness: shape not listed"),
            }
        };
    }
    listed!(
        6 1, 7 5, 8 2, 8 8, 9 4, 10 3, 12 1, 13 9, 16 5, 17 16, 32 6, 33 2, 64 4, 100 3, 129 2, 256 3, 257 1, 500 2,
        1 16, 1 33, 2 17, 3 64, 2 65, 4 100, 3 129, 2 256, 1 257, 2 1025, 40 40
    )
}
/// a heap-allocated, counted element
struct K(Box<i64>);
impl Clone for K {
    fn clone(&self) -> K {
        CLONED.fetch_add(1, Relaxed);
        K(self.0.clone())
    }
}
impl Default for K {
    fn default() -> K {
        K::mk(0)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Drop for K {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Relaxed);
        *self.0 = -13;
    }
}
impl Val for K {
    const COUNTED: bool = true;
    fn mk(v: i64) -> K {
        MADE.fetch_add(1, Relaxed);
        K(Box::new(v))
    }
    fn v(&self) -> i64 {
        *self.0
    }
    fn set(&mut self, v: i64) {
        *self.0 = v
    }
}
#[derive(Clone, PartialEq)]
struct W(i64, i64, String);
impl Default for W {
    fn default() -> W {
        W::mk(0)
    }
}
impl Val for W {
    fn mk(v: i64) -> W {
        W(v, !v, if v % 64 == 5 { v.to_string() } else { String::new() })
    }
    fn v(&self) -> i64 {
        if self.1 == !self.0 && (self.0 % 64 != 5 || self.2 == self.0.to_string()) { self.0 } else { -7 }
    }
    fn set(&mut self, v: i64) {
        *self = W::mk(v)
    }
}

/// a large element with an alignment of its own
#[derive(Clone, PartialEq)]
#[repr(align(64))]
struct L([i64; 40]);
impl Default for L {
    fn default() -> L {
        L::mk(0)
    }
}
impl Val for L {
    fn mk(v: i64) -> L {
        let mut a = [v; 40];
        a[17] = !v;
        L(a)
    }
    fn v(&self) -> i64 {
        let v = self.0[0];
        if self.0.iter().enumerate().all(|(k, x)| *x == if k == 17 { !v } else { v })
            && (self as *const L as usize) % 64 == 0
        {
            v
        } else {
            -7
        }
    }
    fn set(&mut self, v: i64) {
        *self = L::mk(v)
    }
}

fn ord(o: i64) -> Order {
    if o == 0 { Order::RowMajor } else { Order::ColMajor }
}

fn build<T: Val>(o: i64, r: usize, c: usize, v: impl Fn(i64) -> i64) -> Matrix<T> {
    let mut m = Matrix::from_row((0..(r * c) as i64).map(|p| T::mk(v(p))).collect::<Vec<_>>());
    if o == 0 {
        m.reshape((r, c)).expect("harness: reshape");
    } else {
        m.reshape((c, r)).expect("harness: reshape");
        m.switch_order_without_rearrangement();
    }
    m
}

/// `[start, value, step, count]`
fn runs(v: &[i64]) -> String {
    let mut j = out::J::new();
    j.raw(b"[");
    let mut s = 0;
    while s < v.len() {
        let step = if s + 1 < v.len() { v[s + 1] - v[s] } else { 0 };
        let step = if step.abs() > 2_000_000 { 0 } else { step };
        let mut n = 1;
        while s + n < v.len() && v[s + n] == v[s + n - 1] + step {
            n += 1;
        }
        j.comma().ints(&[s as i64, v[s], step, n as i64]);
        s += n;
    }
    j.raw(b"]");
    j.text()
}

fn dump_by<T>(m: &Matrix<T>, f: impl Fn(&T) -> i64) -> String {
    let (r, c) = (m.nrows(), m.ncols());
    let mem: Vec<i64> = m.iter_elements().map(&f).collect();
    let coh = r.checked_mul(c) == Some(m.size()) && mem.len() == m.size();
    let mut g = Vec::with_capacity(mem.len());
    if coh && m.size() > 0 {
        for i in 0..r {
            for j in 0..c {
                let e = match (i + j) % 3 {
                    0 => m.get((i, j)),
                    1 => m.get(Index::new(i, j)),
                    _ => m.get([i, j]),
                };
                g.push(e.map_or(-11, &f));
            }
        }
    }
    format!(
        "{{\"o\":{},\"r\":{},\"c\":{},\"coh\":{},\"m\":{},\"g\":{}}}",
        if m.order() == Order::RowMajor { 0 } else { 1 },
        r,
        c,
        coh as u8,
        runs(&mem),
        runs(&g)
    )
}
fn dump<T: Val>(m: &Matrix<T>) -> String {
    dump_by(m, T::v)
}

fn pool<R: Send>(n: i64, f: impl FnOnce() -> R + Send) -> R {
    #[cfg(feature = "par")]
    {
        if n == 0 {
            return f();
        }
        rayon::ThreadPoolBuilder::new().num_threads(n.max(1) as usize).build().expect("harness: pool").install(f)
    }
    #[cfg(not(feature = "par"))]
    {
        let _ = n;
        f()
    }
}

#[derive(Default)]
struct Rec {
    s: String,
    mark: (i64, i64, i64),
    counted: bool,
}
impl Rec {
    fn start(&mut self) {
        self.mark = (MADE.load(Relaxed), CLONED.load(Relaxed), DROPPED.load(Relaxed));
    }
    /// the counts since `start`
    fn stop(&mut self) {
        if self.counted {
            self.s += &format!(
                ",\"mk\":{},\"cl\":{},\"dr\":{}",
                MADE.load(Relaxed) - self.mark.0,
                CLONED.load(Relaxed) - self.mark.1,
                DROPPED.load(Relaxed) - self.mark.2
            );
        } else {
            self.s += ",\"mk\":-1,\"cl\":-1,\"dr\":-1";
        }
    }
    fn put(&mut self, k: &str, v: &str) {
        self.s += &format!(",\"{k}\":{v}");
    }
    fn num(&mut self, k: &str, v: i64) {
        self.put(k, &out::int(v));
    }
    fn res<X, E: std::fmt::Debug>(&mut self, r: &Result<X, E>) {
        let t = match r {
            Ok(_) => "ok".into(),
            Err(e) => format!("{e:?}"),
        };
        self.put("res", &out::text(&t));
    }
}

/// outer and inner lengths and the values, in the order they were handed out
fn views<X: ExactSizeIterator + DoubleEndedIterator>(
    rec: &mut Rec,
    mut it: impl ExactSizeIterator<Item = X> + DoubleEndedIterator,
    rev: bool,
    f: impl Fn(X::Item) -> i64,
) {
    let (mut lo, mut hi, mut n, mut bad) = (i64::MAX, -1, 0, 0);
    let mut v = vec![];
    loop {
        let len = it.len();
        let Some(mut x) = (if rev { it.next_back() } else { it.next() }) else {
            bad += (len != 0) as i64;
            break;
        };
        bad += (it.len() + 1 != len) as i64;
        n += 1;
        let k = x.len() as i64;
        lo = lo.min(k);
        hi = hi.max(k);
        let mut got = 0;
        while let Some(e) = if rev { x.next_back() } else { x.next() } {
            v.push(f(e));
            got += 1;
            bad += (x.len() as i64 != k - got) as i64;
            if got > k {
                break;
            }
        }
        bad += (got != k) as i64;
    }
    rec.put("v", &format!("[{n},{},{hi},{bad}]", if lo == i64::MAX { -1 } else { lo }));
    rec.put("l", &runs(&v));
}

/// one sequence of (row, col, value)
fn items(rec: &mut Rec, v: &[(i64, i64)]) {
    rec.put("l", &runs(&v.iter().map(|x| x.1).collect::<Vec<_>>()));
    rec.put("ix", &runs(&v.iter().map(|x| x.0).collect::<Vec<_>>()));
}

fn go<T: Val>(a: &[i64]) -> String {
    let (o, r, c, o2, r2, c2, op, x, y) =
        (a[1], a[2] as usize, a[3] as usize, a[4], a[5] as usize, a[6] as usize, a[7], a[8], a[9]);
    let mut rec = Rec { counted: T::COUNTED, ..Default::default() };
    let base = MADE.load(Relaxed) + CLONED.load(Relaxed) - DROPPED.load(Relaxed);
    let flat = |i: Index| i.row as i64 * c as i64 + i.col as i64;
    let f1 = |v: i64| 3 * v + 1;
    {
        let mut m: Matrix<T> = build(o, r, c, |p| p + 1);
        match op {
            0..=4 => {
                rec.start();
                match op {
                    0 => m.transpose(),
                    1 => m.switch_order(),
                    2 => m.switch_order_without_rearrangement(),
                    3 => m.set_order(ord(o2)),
                    _ => m.set_order_without_rearrangement(ord(o2)),
                };
                rec.stop();
                rec.put("R", &dump(&m));
            }
            5 | 6 => {
                rec.start();
                let e = if op == 5 { m.reshape((r2, c2)).map(|_| ()) } else { m.resize((r2, c2)).map(|_| ()) };
                rec.stop();
                rec.res(&e);
                rec.put("R", &dump(&m));
            }
            7 => {
                let b: Matrix<T> = build(o2, r2, c2, |p| 1_000_001 + p);
                rec.start();
                m.overwrite(&b);
                rec.stop();
                rec.put("R", &dump(&m));
                rec.put("B", &dump(&b));
            }
            8..=10 => {
                rec.start();
                let at = |p: i64| (p as usize / c.max(1), p as usize % c.max(1));
                let e = match op {
                    8 => m.swap_rows(x as usize, y as usize),
                    9 => m.swap_cols(x as usize, y as usize),
                    _ => m.swap(at(x), at(y)),
                }
                .map(|_| ());
                rec.stop();
                rec.res(&e);
                rec.put("R", &dump(&m));
            }
            11 => {
                rec.start();
                m.apply(|e| e.set(f1(e.v())));
                rec.stop();
                rec.put("R", &dump(&m));
            }
            12 => {
                rec.start();
                let e = m.map(|mut e| {
                    e.set(f1(e.v()));
                    e
                });
                rec.stop();
                rec.res(&e);
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            13 => {
                rec.start();
                let e = m.map_ref(|e| f1(e.v()));
                rec.stop();
                rec.res(&e);
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            #[cfg(feature = "par")]
            14 => {
                rec.start();
                pool(x, || {
                    m.par_apply(|e| e.set(f1(e.v())));
                });
                rec.stop();
                rec.put("R", &dump(&m));
            }
            #[cfg(feature = "par")]
            15 => {
                rec.start();
                let e = pool(x, || {
                    m.par_map(|mut e| {
                        e.set(f1(e.v()));
                        e
                    })
                });
                rec.stop();
                rec.res(&e);
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            #[cfg(feature = "par")]
            16 => {
                rec.start();
                let n = AtomicI64::new(0);
                let e = pool(x, || {
                    m.par_map_ref(|e| {
                        n.fetch_add(1, Relaxed);
                        f1(e.v())
                    })
                });
                rec.stop();
                rec.res(&e);
                rec.num("n", n.into_inner());
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            17 => {
                rec.start();
                let b = m.clone();
                rec.stop();
                rec.put("R", &dump(&b));
                rec.put("B", &dump(&m));
            }
            18 => {
                let mut b: Matrix<T> = build(o2, r2, c2, |p| 1_000_001 + p);
                rec.start();
                b.clone_from(&m);
                rec.stop();
                rec.put("R", &dump(&b));
                rec.put("B", &dump(&m));
            }
            // equality with a copy in order o2, one element of which differs (x >= 0)
            19 => {
                let mut b: Matrix<T> = build(o2, r, c, |_| 0);
                for i in 0..r {
                    for j in 0..c {
                        b[(i, j)].set(m[(i, j)].v());
                    }
                }
                if x >= 0 {
                    let e = &mut b[(x as usize / c, x as usize % c)];
                    let v = e.v();
                    e.set(v + 1);
                }
                rec.start();
                let e = [m == b, b == m, m != b];
                rec.stop();
                rec.put("v", &format!("[{},{},{}]", e[0] as u8, e[1] as u8, e[2] as u8));
            }
            20 => {
                let b: Matrix<T> = build(o2, r2, c2, |p| 1_000_001 + p);
                let n = std::cell::Cell::new(0);
                rec.start();
                let f = |a: i64, b: i64| {
                    n.set(n.get() + 1);
                    2 * a + b
                };
                match y {
                    0 => {
                        let e = m.elementwise_operation(&b, |p, q| f(p.v(), q.v()));
                        rec.stop();
                        rec.res(&e);
                        if let Ok(m) = e {
                            rec.put("R", &dump(&m));
                        }
                    }
                    1 => {
                        let e = m.elementwise_operation_consume_self(&b, |mut p, q| {
                            p.set(f(p.v(), q.v()));
                            p
                        });
                        rec.stop();
                        rec.res(&e);
                        if let Ok(m) = e {
                            rec.put("R", &dump(&m));
                        }
                    }
                    _ => {
                        let e = m.elementwise_operation_assign(&b, |p, q| p.set(f(p.v(), q.v()))).map(|_| ());
                        rec.stop();
                        rec.res(&e);
                        rec.put("R", &dump(&m));
                    }
                }
                rec.num("n", n.get());
                rec.put("B", &dump(&b));
            }
            21 => {
                let n = std::cell::Cell::new(0);
                let f = |a: i64, b: i64| {
                    n.set(n.get() + 1);
                    2 * a + b
                };
                rec.start();
                match y {
                    0 => {
                        let e = m.scalar_operation(&x, |p, q| f(p.v(), *q));
                        rec.stop();
                        rec.res(&e);
                        rec.put("R", &dump(&e.expect("harness: scalar")));
                    }
                    1 => {
                        let e = m.scalar_operation_consume_self(&x, |mut p, q| {
                            p.set(f(p.v(), *q));
                            p
                        });
                        rec.stop();
                        rec.res(&e);
                        if let Ok(m) = e {
                            rec.put("R", &dump(&m));
                        }
                    }
                    _ => {
                        m.scalar_operation_assign(&x, |p, q| p.set(f(p.v(), *q)));
                        rec.stop();
                        rec.put("res", "\"ok\"");
                        rec.put("R", &dump(&m));
                    }
                }
                rec.num("n", n.get());
            }
            23 => {
                rec.start();
                let rev = x == 1;
                let mut sub = Rec::default();
                match y {
                    0 => views(&mut sub, m.iter_rows(), rev, |e| e.v()),
                    1 => views(&mut sub, m.iter_cols(), rev, |e| e.v()),
                    2 => views(&mut sub, m.iter_rows_mut(), rev, |e| {
                        let v = e.v();
                        e.set(v + 500_000);
                        v
                    }),
                    _ => views(&mut sub, m.iter_cols_mut(), rev, |e| {
                        let v = e.v();
                        e.set(v + 500_000);
                        v
                    }),
                }
                rec.stop();
                rec.s += &sub.s;
                rec.put("R", &dump(&m));
            }
            24 => {
                let n = x as usize;
                let mut v = vec![];
                let mut len = -1;
                macro_rules! take {
                    ($e:expr, $f:expr) => {
                        match $e {
                            Err(e) => rec.put("res", &out::text(&format!("{e:?}"))),
                            Ok(it) => {
                                rec.put("res", "\"ok\"");
                                len = it.len() as i64;
                                v = it.map($f).collect();
                            }
                        }
                    };
                }
                let bump = |e: &mut T| {
                    let v = e.v();
                    e.set(v + 500_000);
                    v
                };
                rec.start();
                match y {
                    0 => take!(m.iter_nth_row(n), |e| e.v()),
                    1 => take!(m.iter_nth_col(n), |e| e.v()),
                    2 => take!(m.iter_nth_row_mut(n), bump),
                    _ => take!(m.iter_nth_col_mut(n), bump),
                }
                rec.stop();
                rec.num("v", len);
                rec.put("l", &runs(&v));
                rec.put("R", &dump(&m));
            }
            25 => {
                let rev = x == 1;
                macro_rules! all {
                    ($it:expr, $f:expr) => {{
                        let it = $it;
                        let n = it.len();
                        let v: Vec<(i64, i64)> = if rev { it.rev().map($f).collect() } else { it.map($f).collect() };
                        rec.num("n", n as i64);
                        v
                    }};
                }
                rec.start();
                let mut kept = true;
                let v = match y {
                    0 => all!(m.iter_elements(), |e| (-1, e.v())),
                    1 => all!(m.iter_elements_mut(), |e| (-1, e.v())),
                    2 => {
                        kept = false;
                        let m = std::mem::take(&mut m);
                        all!(m.into_iter_elements(), |e| (-1, e.v()))
                    }
                    3 => all!(m.iter_elements_with_index(), |(i, e)| (flat(i), e.v())),
                    4 => all!(m.iter_elements_mut_with_index(), |(i, e)| (flat(i), e.v())),
                    _ => {
                        kept = false;
                        let m = std::mem::take(&mut m);
                        all!(m.into_iter_elements_with_index(), |(i, e)| (flat(i), e.v()))
                    }
                };
                rec.stop();
                items(&mut rec, &v);
                if kept {
                    rec.put("R", &dump(&m));
                }
            }
            #[cfg(feature = "par")]
            26 => {
                use matreex::parallel::*;
                rec.start();
                let mut kept = true;
                let mut v: Vec<(i64, i64)> = match y {
                    0 => pool(x, || m.par_iter_elements().map(|e| (-1, e.v())).collect()),
                    1 => pool(x, || m.par_iter_elements_mut().map(|e| (-1, e.v())).collect()),
                    2 => {
                        kept = false;
                        let m = std::mem::take(&mut m);
                        pool(x, || m.into_par_iter_elements().map(|e| (-1, e.v())).collect())
                    }
                    3 => pool(x, || m.par_iter_elements_with_index().map(|(i, e)| (flat(i), e.v())).collect()),
                    4 => pool(x, || m.par_iter_elements_mut_with_index().map(|(i, e)| (flat(i), e.v())).collect()),
                    _ => {
                        kept = false;
                        let m = std::mem::take(&mut m);
                        pool(x, || m.into_par_iter_elements_with_index().map(|(i, e)| (flat(i), e.v())).collect())
                    }
                };
                v.sort_by_key(|p| p.1);
                rec.stop();
                items(&mut rec, &v);
                if kept {
                    rec.put("R", &dump(&m));
                }
            }
            // rows r x c, values 1 + i * c + j
            27 => {
                let rows = |n: usize| -> Vec<Vec<T>> {
                    (0..n).map(|i| (0..c).map(|j| T::mk((1 + i * c + j) as i64)).collect()).collect()
                };
                let mut v = rows(r);
                // the row x is made one element shorter / longer
                if x >= 0 && y >= 10 {
                    if y / 10 == 1 {
                        v[x as usize].pop();
                    } else {
                        v[x as usize].push(T::mk(77));
                    }
                }
                rec.start();
                let e = match y % 10 {
                    0 => Matrix::try_from(v),
                    1 => Matrix::try_from(&v[..]),
                    2 => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.into_iter().collect()))
                        .map_err(|_| matreex::Error::LengthInconsistent),
                    3 => {
                        let rows: [Vec<T>; 5] = v.try_into().ok().expect("harness: five rows");
                        Matrix::try_from(rows)
                    }
                    7 => Ok(Matrix::from_row(v.remove(0))),
                    8 => Ok(Matrix::from_col(v.into_iter().map(|mut r| r.remove(0)).collect::<Vec<_>>())),
                    k => Ok(arrays(k, v)),
                };
                rec.stop();
                rec.res(&e);
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            28 => {
                let mut n = 0;
                rec.start();
                let e = Matrix::with_initializer((r, c), |i| {
                    n += 1;
                    T::mk(1 + flat(i))
                });
                rec.stop();
                rec.res(&e);
                rec.num("n", n);
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            29 => {
                rec.start();
                let e = if y == 0 { Matrix::with_value((r, c), T::mk(x)) } else { Matrix::with_default((r, c)) };
                rec.stop();
                rec.res(&e);
                if let Ok(m) = e {
                    rec.put("R", &dump(&m));
                }
            }
            // shifted by (x, y), with wrapping indices
            34 => {
                let mut v = vec![];
                rec.start();
                for i in 0..r {
                    for j in 0..c {
                        let w = WrappingIndex::new(i as isize + x as isize, j as isize + y as isize);
                        v.push(if (i + j) % 2 == 0 { m[w].v() } else { m.get_mut(w).map_or(-11, |e| e.v()) });
                    }
                }
                rec.stop();
                rec.put("l", &runs(&v));
            }
            32 => {
                let e = T::mk(x);
                rec.start();
                let b = m.contains(&e);
                rec.stop();
                rec.num("v", b as i64);
            }
            _ => panic!("harness: no such operation"),
        }
    }
    let left = MADE.load(Relaxed) + CLONED.load(Relaxed) - DROPPED.load(Relaxed) - base;
    rec.num("left", left);
    // the head of the line ends with a comma
    rec.s[1..].to_string()
}

fn arith(a: &[i64]) -> String {
    let (o, r, c, o2, r2, c2, op, x, y) =
        (a[1], a[2] as usize, a[3] as usize, a[4], a[5] as usize, a[6] as usize, a[7], a[8], a[9]);
    let mut rec = Rec::default();
    rec.put("left", "0");
    rec.stop();
    match op {
        22 => {
            let m: Matrix<i64> = build(o, r, c, |p| p % 5 + 1);
            let b: Matrix<i64> = build(o2, r2, c2, |p| p % 3 + 1);
            let calls = std::cell::Cell::new((0, 0));
            let dot = |p: &[i64], q: &[i64]| {
                let n = calls.get();
                calls.set((n.0 + 1, n.1 + (p.len() != c || q.len() != c) as i64));
                p.iter().zip(q).map(|(p, q)| p * q).sum::<i64>()
            };
            let e = match y {
                0 => m.clone().multiply(b.clone()),
                1 => Ok(&m * &b),
                2 => Ok(m.clone() * &b),
                3 => Ok(&m * b.clone()),
                4 => Ok(m.clone() * b.clone()),
                _ => m.clone().multiplication_like_operation(b.clone(), dot),
            };
            rec.res(&e);
            rec.put("v", &format!("[{},{}]", calls.get().0, calls.get().1));
            if let Ok(m) = e {
                rec.put("R", &dump(&m));
            }
        }
        // named operators: values p + 1 and p + 1000001
        33 => {
            let mut m: Matrix<i64> = build(o, r, c, |p| p + 1);
            let b: Matrix<i64> = build(o2, r, c, |p| 1_000_001 + p);
            match y {
                0 => m = m - b,
                1 => m = &m - &b,
                2 => m -= b,
                3 => m -= &b,
                4 => {
                    m.elementwise_sub_assign(&b).expect("harness: shapes agree");
                }
                5 => m = m.elementwise_sub(&b).expect("harness: shapes agree"),
                6 => m = m.elementwise_sub_consume_self(&b).expect("harness: shapes agree"),
                7 => m = -m,
                8 => m = -&m,
                9 => m = m - x,
                10 => m = &m - &x,
                11 => m = x - m,
                12 => m = &x - &m,
                13 => m -= x,
                14 => m -= &x,
                15 => m = m * x,
                16 => m = x * &m,
                _ => panic!("harness: no such form"),
            }
            rec.put("R", &dump(&m));
        }
        _ => panic!("harness: no such operation"),
    }
    rec.s[1..].to_string()
}

fn main() {
    let parse = |w: &[&str]| -> Vec<i64> { w.iter().map(|x| x.parse().expect("harness: number")).collect() };
    run::main(
        |w| {
            let a = parse(w);
            format!(
                "\"ty\":{},\"o\":{},\"r\":{},\"c\":{},\"o2\":{},\"r2\":{},\"c2\":{},\"op\":{},\"x\":{},\"y\":{},",
                a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]
            )
        },
        |w| {
            let a = parse(w);
            match (a[7], a[0]) {
                (22 | 33, _) => arith(&a),
                (_, 0) => go::<i64>(&a),
                (_, 1) => go::<K>(&a),
                (_, 2) => go::<P5>(&a),
                (_, 3) => go::<W>(&a),
                (_, 4) => go::<L>(&a),
                _ => panic!("harness: no such type"),
            }
        },
    )
}
