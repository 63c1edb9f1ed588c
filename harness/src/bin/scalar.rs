//! Scalar operators and negation of matrices of primitive numbers.
//!
//! case: `ty op form ord nr nc scalar e...` (e: logical elements, row by row)
//! op: 0 + 1 - 2 * 3 / 4 % 5 neg; form: bit 0 scalar by reference, bit 1
//! scalar on the left, bit 2 borrowed matrix, bit 3 matrix of references;
//! 16/17 compound assignment; ord: bit 0 storage order, bit 1 how it is built
use matreex::{Matrix, Order};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vharness::out::J;
use vharness::{palloc, run};

#[cfg_attr(not(miri), global_allocator)]
static A: palloc::Poison = palloc::Poison;

fn limbs128(j: &mut J, mut x: u128) {
    j.raw(b"[");
    let mut first = true;
    while x > 0 {
        if !first {
            j.raw(b",");
        }
        first = false;
        j.int((x & 4095) as i64);
        x >>= 12;
    }
    j.raw(b"]");
}

trait Num: Copy + PartialEq + 'static {
    const F: i64;
    const BITS: i64;
    const SG: i64;
    fn read(t: &str) -> Self;
    fn put(&self, j: &mut J);
}
macro_rules! num {
    ($sg:expr, $($t:ty)*) => {$(
        impl Num for $t {
            const F: i64 = 0;
            const BITS: i64 = <$t>::BITS as i64;
            const SG: i64 = $sg;
            fn read(t: &str) -> Self { t.parse().expect("harness: number") }
            fn put(&self, j: &mut J) {
                #[allow(unused_comparisons)]
                let neg = *self < 0;
                let mag = if neg { (*self as i128).unsigned_abs() } else { *self as u128 };
                j.raw(b"[0,").int(neg as i64).raw(b",");
                limbs128(j, mag);
                j.raw(b"]");
            }
        }
    )*};
}
num!(0, u8 u16 u32 u64 u128 usize);
num!(1, i8 i16 i32 i64 i128 isize);
/// class, sign, significand and exponent as the format stores them
fn putf(j: &mut J, bits: u64, p: u32, least: i64, special: u64) {
    let w = if p == 24 { 32 } else { 64 };
    let neg = (bits >> (w - 1) & 1) as i64;
    let e = bits >> (p - 1) & special;
    let m = bits & ((1 << (p - 1)) - 1);
    if e == special {
        if m == 0 {
            j.raw(b"[1,").int(neg).raw(b",[],0]");
        } else {
            j.raw(b"[2,0,[],0]");
        }
        return;
    }
    let (m, e) = if e == 0 { (m, least) } else { (m | 1 << (p - 1), e as i64 - 1 + least) };
    j.raw(b"[0,").int(neg).raw(b",");
    limbs128(j, m as u128);
    j.raw(b",").int(e).raw(b"]");
}
fn readf(t: &str) -> f64 {
    match t {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "-0" => -0.0,
        _ => {
            let (m, e) = t.split_once(':').expect("harness: float");
            let m: f64 = m.parse().unwrap();
            m * 2f64.powi(e.parse().unwrap())
        }
    }
}
impl Num for f32 {
    const F: i64 = 1;
    const BITS: i64 = 32;
    const SG: i64 = 1;
    fn read(t: &str) -> Self {
        match t.strip_prefix('x') {
            Some(b) => f32::from_bits(b.parse().expect("harness: bits")),
            None => readf(t) as f32,
        }
    }
    fn put(&self, j: &mut J) {
        putf(j, self.to_bits() as u64, 24, -149, 0xff);
    }
}
impl Num for f64 {
    const F: i64 = 2;
    const BITS: i64 = 64;
    const SG: i64 = 1;
    fn read(t: &str) -> Self {
        match t.strip_prefix('x') {
            Some(b) => f64::from_bits(b.parse().expect("harness: bits")),
            None => readf(t),
        }
    }
    fn put(&self, j: &mut J) {
        putf(j, self.to_bits(), 53, -1074, 0x7ff);
    }
}

fn build<E: Clone>(ord: usize, nr: usize, nc: usize, e: &[E]) -> Matrix<E> {
    if ord & 2 != 0 {
        let mut m = Matrix::with_initializer((nr, nc), |i| e[i.row * nc + i.col].clone()).expect("harness: new");
        if ord & 1 != 0 {
            m.switch_order();
        }
        return m;
    }
    if ord & 1 == 0 {
        let mut m = Matrix::from_row(e.to_vec());
        m.reshape((nr, nc)).expect("harness: reshape");
        return m;
    }
    let mut v = Vec::new();
    for c in 0..nc {
        for r in 0..nr {
            v.push(e[r * nc + c].clone());
        }
    }
    let mut m = Matrix::from_row(v);
    m.reshape((nc, nr)).expect("harness: reshape");
    m.switch_order_without_rearrangement();
    m
}
fn dump<T>(m: &Matrix<T>, val: impl Fn(&T, &mut J)) -> String {
    let mut j = J::new();
    j.raw(b"\"post\":[").int((m.order() == Order::ColMajor) as i64);
    j.raw(b",").int(m.nrows() as i64).raw(b",").int(m.ncols() as i64).raw(b"],\"out\":[");
    for x in m.iter_elements() {
        j.comma();
        val(x, &mut j);
    }
    j.raw(b"]");
    j.text()
}

type Out = Option<(String, bool)>;
/// runs one form; the flag: borrowed operands are as they were
fn guard(f: impl FnOnce() -> (String, bool)) -> Out {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

macro_rules! forms {
    ($t:ty, $op:tt, $as:tt, $form:expr, $ord:expr, $nr:expr, $nc:expr, $s:expr, $e:expr) => {{
        let (form, ord, nr, nc, s): (usize, usize, usize, usize, $t) = ($form, $ord, $nr, $nc, $s);
        let e: &[$t] = $e;
        let out = |m: Matrix<$t>| dump(&m, |x, j| x.put(j));
        let same = |m: &Matrix<$t>| {
            let f = build(ord, nr, nc, e);
            dump(m, |x, j| x.put(j)) == dump(&f, |x, j| x.put(j))
        };
        let samer = |m: &Matrix<&$t>| {
            let f = build(ord, nr, nc, e);
            dump(m, |x, j| x.put(j)) == dump(&f, |x, j| x.put(j))
        };
        let refs: Vec<&$t> = e.iter().collect();
        let m = build(ord, nr, nc, e);
        let w = build(ord, nr, nc, &refs);
        match form {
            0 => guard(|| (out(m $op s), true)),
            1 => guard(|| (out(m $op &s), true)),
            2 => guard(|| (out(s $op m), true)),
            3 => guard(|| (out(&s $op m), true)),
            4 => guard(|| (out(&m $op s), same(&m))),
            5 => guard(|| (out(&m $op &s), same(&m))),
            6 => guard(|| (out(s $op &m), same(&m))),
            7 => guard(|| (out(&s $op &m), same(&m))),
            8 => guard(|| (out(w $op s), true)),
            9 => guard(|| (out(w $op &s), true)),
            10 => guard(|| (out(s $op w), true)),
            11 => guard(|| (out(&s $op w), true)),
            12 => guard(|| (out(&w $op s), samer(&w))),
            13 => guard(|| (out(&w $op &s), samer(&w))),
            14 => guard(|| (out(s $op &w), samer(&w))),
            15 => guard(|| (out(&s $op &w), samer(&w))),
            16 => guard(|| { let mut m = m; m $as s; (out(m), true) }),
            17 => guard(|| { let mut m = m; m $as &s; (out(m), true) }),
            _ => panic!("harness: form"),
        }
    }};
}
macro_rules! neg {
    (1, $t:ty, $form:expr, $ord:expr, $nr:expr, $nc:expr, $e:expr) => {{
        let e: &[$t] = $e;
        let refs: Vec<&$t> = e.iter().collect();
        let m = build($ord, $nr, $nc, e);
        let w = build($ord, $nr, $nc, &refs);
        let out = |m: Matrix<$t>| dump(&m, |x, j| x.put(j));
        let was = dump(&m, |x, j| x.put(j));
        match $form & 12 {
            0 => guard(|| (out(-m), true)),
            4 => guard(|| (out(-&m), dump(&m, |x, j| x.put(j)) == was)),
            8 => guard(|| (out(-w), true)),
            _ => guard(|| (out(-&w), dump(&w, |x, j| x.put(j)) == was)),
        }
    }};
    (0, $t:ty, $form:expr, $ord:expr, $nr:expr, $nc:expr, $e:expr) => {
        panic!("harness: no negation")
    };
}
macro_rules! types {
    ($($n:literal $t:tt $neg:tt)*) => {
        fn go(w: &[&str]) -> String {
            match w[0].parse::<i64>().unwrap() {
                $($n => {
                    let s = <$t>::read(w[6]);
                    let e: Vec<$t> = w[7..].iter().map(|x| <$t>::read(x)).collect();
                    let u = |k: usize| w[k].parse::<usize>().unwrap();
                    let (form, ord, nr, nc) = (u(2), u(3), u(4), u(5));
                    assert!(e.len() == nr * nc, "harness: elements");
                    let r = match u(1) {
                        0 => forms!($t, +, +=, form, ord, nr, nc, s, &e),
                        1 => forms!($t, -, -=, form, ord, nr, nc, s, &e),
                        2 => forms!($t, *, *=, form, ord, nr, nc, s, &e),
                        3 => forms!($t, /, /=, form, ord, nr, nc, s, &e),
                        4 => forms!($t, %, %=, form, ord, nr, nc, s, &e),
                        _ => neg!($neg, $t, form, ord, nr, nc, &e),
                    };
                    match r {
                        Some((t, keep)) => format!("\"res\":\"ok\",{t},\"keep\":{}", keep as i64),
                        None => "\"res\":\"panic\"".to_string(),
                    }
                })*
                _ => panic!("harness: type"),
            }
        }
        fn head(w: &[&str]) -> String {
            let mut j = J::new();
            j.raw(b"\"op\":").raw(w[1].as_bytes()).raw(b",\"form\":").raw(w[2].as_bytes());
            j.raw(b",\"ord\":").int(w[3].parse::<i64>().unwrap() % 2);
            j.raw(b",\"nr\":").raw(w[4].as_bytes()).raw(b",\"nc\":").raw(w[5].as_bytes());
            j.raw(b",\"oc\":").int(cfg!(debug_assertions) as i64);
            match w[0].parse::<i64>().unwrap() {
                $($n => {
                    j.raw(b",\"f\":").int(<$t>::F).raw(b",\"bits\":").int(<$t as Num>::BITS).raw(b",\"sg\":").int(<$t>::SG);
                    j.raw(b",\"s\":");
                    <$t>::read(w[6]).put(&mut j);
                    j.raw(b",\"e\":[");
                    for x in &w[7..] {
                        j.comma();
                        <$t>::read(x).put(&mut j);
                    }
                    j.raw(b"],");
                })*
                _ => panic!("harness: type"),
            }
            j.text()
        }
    };
}
types! {
    0 u8 0  1 u16 0  2 u32 0  3 u64 0  4 u128 0  5 usize 0
    6 i8 1  7 i16 1  8 i32 1  9 i64 1  10 i128 1  11 isize 1
    12 f32 1  13 f64 1
}

fn main() {
    run::main(head, go)
}
