//! Matrix products with symbolic factors.
//!
//! usage: prod CASES OUT SHARD NSHARDS SKIP
//! case: `kind lr lc lo rr rc ro form`; kind 0..4 symbolic factors of several
//! sizes, 10.. primitive numbers.  form 0 multiply, 1..4 the `*` operators,
//! 5 multiplication_like_operation.
use matreex::{Error, Index, Matrix, Order};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::{Add, Mul};
use std::os::fd::AsRawFd;
use std::panic::{AssertUnwindSafe, catch_unwind};
use vharness::{out, palloc, sig};

#[global_allocator]
static A: palloc::Poison = palloc::Poison;

trait Id: Clone {
    fn mk(i: u32) -> Self;
    fn id(&self) -> i64;
}
impl Id for u8 {
    fn mk(i: u32) -> Self {
        i as u8
    }
    fn id(&self) -> i64 {
        *self as i64
    }
}
impl Id for u16 {
    fn mk(i: u32) -> Self {
        i as u16
    }
    fn id(&self) -> i64 {
        *self as i64
    }
}
impl Id for u32 {
    fn mk(i: u32) -> Self {
        i
    }
    fn id(&self) -> i64 {
        *self as i64
    }
}
impl Id for [u64; 3] {
    fn mk(i: u32) -> Self {
        [i as u64, !(i as u64), 7]
    }
    fn id(&self) -> i64 {
        if self[1] == !self[0] && self[2] == 7 { self[0] as i64 } else { -1 }
    }
}
impl Id for Box<u32> {
    fn mk(i: u32) -> Self {
        Box::new(i)
    }
    fn id(&self) -> i64 {
        **self as i64
    }
}

#[derive(Clone)]
struct L<B>(B);
#[derive(Clone)]
struct R<B>(B);
/// a sum of products: the factor pairs it consists of; Default leaves a mark
struct U(Vec<(i64, i64)>);
impl Default for U {
    fn default() -> Self {
        U(vec![(-1, -1)])
    }
}
impl Add for U {
    type Output = U;
    fn add(mut self, mut o: U) -> U {
        self.0.append(&mut o.0);
        self
    }
}
impl<B: Id, C: Id> Mul<R<C>> for L<B> {
    type Output = U;
    fn mul(self, o: R<C>) -> U {
        U(vec![(self.0.id(), o.0.id())])
    }
}
// the operand order is visible in the types: R * L would not compile

fn ord(x: i64) -> Order {
    if x == 0 { Order::RowMajor } else { Order::ColMajor }
}
fn build<T>(r: i64, c: i64, o: i64, mut f: impl FnMut(usize, usize) -> T) -> Matrix<T> {
    let mut m =
        Matrix::with_initializer((r as usize, c as usize), |i: Index| f(i.row, i.col)).unwrap();
    m.set_order(ord(o));
    m
}
fn ename(e: Error) -> String {
    format!("err:{e:?}")
}
fn o2i(o: Order) -> i64 {
    if o == Order::RowMajor { 0 } else { 1 }
}

type Out = (String, String);

/// `"after":` of operands kept by reference, and the result
fn report<T, X: Fn(&T) -> String>(m: &Matrix<T>, f: X) -> String {
    let v: Vec<String> = m.iter_elements().map(f).collect();
    format!(
        "\"ro_\":{},\"rnr\":{},\"rnc\":{},\"rsz\":{},\"mem\":{}",
        o2i(m.order()),
        m.nrows(),
        m.ncols(),
        m.size(),
        out::list(&v)
    )
}
fn keep<T>(name: &str, m: &Matrix<T>, f: impl Fn(&T) -> i64) -> String {
    let v: Vec<i64> = m.iter_elements().map(f).collect();
    format!(
        ",\"{name}\":{{\"ord\":{},\"nr\":{},\"nc\":{},\"mem\":{}}}",
        o2i(m.order()),
        m.nrows(),
        m.ncols(),
        out::ints(&v)
    )
}
const EMPTY: &str = "\"ro_\":-1,\"rnr\":0,\"rnc\":0,\"rsz\":0,\"mem\":[]";

fn sym<B: Id, C: Id>(a: &[i64]) -> Out {
    let (lr, lc, lo, rr, rc, ro, form) = (a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    let x = build(lr, lc, lo, |i, j| L(B::mk((i as i64 * lc + j as i64 + 1) as u32)));
    let y = build(rr, rc, ro, |i, j| R(C::mk((i as i64 * rc + j as i64 + 1) as u32)));
    let show = |u: &U| {
        let v: Vec<String> = u.0.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
        out::list(&v)
    };
    match form {
        0 => match x.multiply(y) {
            Ok(m) => ("ok".into(), report(&m, show)),
            Err(e) => (ename(e), EMPTY.into()),
        },
        1 => ("ok".into(), report(&(x * y), show)),
        2 => {
            let m = x * &y;
            let k = keep("rk", &y, |e| e.0.id());
            ("ok".into(), report(&m, show) + &k)
        }
        3 => {
            let m = &x * y;
            let k = keep("lk", &x, |e| e.0.id());
            ("ok".into(), report(&m, show) + &k)
        }
        4 => {
            let m = &x * &y;
            let k = keep("lk", &x, |e| e.0.id()) + &keep("rk", &y, |e| e.0.id());
            ("ok".into(), report(&m, show) + &k)
        }
        _ => {
            let mut log = Vec::new();
            let mut n = 0;
            let r = x.multiplication_like_operation(y, |p: &[L<B>], q: &[R<C>]| {
                let p: Vec<i64> = p.iter().map(|e| e.0.id()).collect();
                let q: Vec<i64> = q.iter().map(|e| e.0.id()).collect();
                log.push(format!("[{},{}]", out::ints(&p), out::ints(&q)));
                n += 1;
                U(vec![(n, n)])
            });
            match r {
                Ok(m) => (
                    "ok".into(),
                    report(&m, |u| u.0[0].0.to_string()) + &format!(",\"log\":{}", out::list(&log)),
                ),
                Err(e) => (ename(e), EMPTY.to_string() + ",\"log\":[]"),
            }
        }
    }
}

macro_rules! prim {
    ($name:ident, $t:ty) => {
        fn $name(a: &[i64]) -> Out {
            let (lr, lc, lo, rr, rc, ro, form) = (a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
            // small values: sums stay exact in every type
            let x = build(lr, lc, lo, |i, j| ((i * 3 + j * 5 + 1) % 4) as $t);
            let y = build(rr, rc, ro, |i, j| ((i * 7 + j * 2 + 2) % 4) as $t);
            let m = match form {
                0 => match x.multiply(y) {
                    Ok(m) => m,
                    Err(e) => return (ename(e), EMPTY.into()),
                },
                1 => x * y,
                2 => x * &y,
                3 => &x * y,
                4 => &x * &y,
                _ => {
                    let dot = |p: &[$t], q: &[$t]| {
                        p.iter().zip(q).map(|(a, b)| a * b).reduce(|a, b| a + b).unwrap()
                    };
                    match x.multiplication_like_operation(y, dot) {
                        Ok(m) => m,
                        Err(e) => return (ename(e), EMPTY.into()),
                    }
                }
            };
            ("ok".into(), report(&m, |v| (*v as i64).to_string()))
        }
    };
}
prim!(p_u8, u8);
prim!(p_i8, i8);
prim!(p_u16, u16);
prim!(p_i16, i16);
prim!(p_u32, u32);
prim!(p_i32, i32);
prim!(p_u64, u64);
prim!(p_i64, i64);
prim!(p_u128, u128);
prim!(p_i128, i128);
prim!(p_usize, usize);
prim!(p_isize, isize);
prim!(p_f32, f32);
prim!(p_f64, f64);

fn go(kind: i64, a: &[i64]) -> Out {
    match kind {
        0 => sym::<u32, u32>(a),
        1 => sym::<u8, [u64; 3]>(a),
        2 => sym::<[u64; 3], u16>(a),
        3 => sym::<Box<u32>, u8>(a),
        4 => sym::<u16, Box<u32>>(a),
        10 => p_u8(a),
        11 => p_i8(a),
        12 => p_u16(a),
        13 => p_i16(a),
        14 => p_u32(a),
        15 => p_i32(a),
        16 => p_u64(a),
        17 => p_i64(a),
        18 => p_u128(a),
        19 => p_i128(a),
        20 => p_usize(a),
        21 => p_isize(a),
        22 => p_f32(a),
        23 => p_f64(a),
        _ => panic!("harness"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut outf = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let shard: usize = args[3].parse().unwrap();
    let nshards: usize = args[4].parse().unwrap();
    let skip: usize = args[5].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    sig::install(outf.as_raw_fd());
    for (n, line) in text.lines().enumerate() {
        if n % nshards != shard || n < skip {
            continue;
        }
        let a: Vec<i64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let mut head = String::new();
        let _ = write!(
            head,
            "{{\"id\":{n},\"kind\":{},\"lr\":{},\"lc\":{},\"lo\":{},\"rr\":{},\"rc\":{},\"ro\":{},\"form\":{},",
            a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]
        );
        // the crash tail closes one event of a step list
        let pend = "\"steps\":[{".to_string();
        sig::pending(&head, &pend);
        sig::deadline(30);
        let r = catch_unwind(AssertUnwindSafe(|| go(a[0], &a[1..])));
        sig::idle();
        let (res, body) = match r {
            Ok(x) => x,
            Err(_) => ("panic".into(), EMPTY.into()),
        };
        let _ = writeln!(head, "\"res\":\"{res}\",{body}}}");
        outf.write_all(head.as_bytes()).unwrap();
    }
}
