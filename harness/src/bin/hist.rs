//! Interpreter of operation histories.
//!
//! usage: hist PROGRAMS OUT SHARD NSHARDS SKIP
//!
//! One program per line: `<type> <op>;<op>;...`, an op is `name int int ...`.
//! `!name ...` marks the operation in which faults are enumerated: the program
//! is run once for every k such that the k-th call of caller supplied code
//! made inside that operation panics.
#![allow(semicolon_in_expressions_from_non_local_macros)]
use matreex::index::AsIndex;
use matreex::{Error, Index, Matrix, Order, Shape, WrappingIndex};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::fd::AsRawFd;
use std::panic::{AssertUnwindSafe, catch_unwind};
use vharness::elem::*;
use vharness::ledger as l;
use vharness::{out, palloc, sig, with_elem};

#[global_allocator]
static A: palloc::Poison = palloc::Poison;

const SLOTS: usize = 4;
type World<E> = Vec<Option<Matrix<E>>>;

enum Res {
    Ok(String),
    Err(Error),
    Skip,
}

fn big(x: i64) -> usize {
    match x {
        -1 => usize::MAX,
        -2 => 1usize << 63,
        -4 => isize::MAX as usize,
        -5 => 1usize << 32,
        -6 => usize::MAX - 1,
        x if x >= 0 => x as usize,
        _ => panic!("bad sentinel"),
    }
}

fn ord(x: i64) -> Order {
    if x == 0 { Order::RowMajor } else { Order::ColMajor }
}

enum Sh {
    T((usize, usize)),
    A([usize; 2]),
    S(Shape),
}
impl From<Sh> for Shape {
    fn from(s: Sh) -> Shape {
        l::tick();
        match s {
            Sh::T(x) => x.into(),
            Sh::A(x) => x.into(),
            Sh::S(x) => x,
        }
    }
}
fn shape(r: i64, c: i64, k: i64) -> Sh {
    match k {
        0 => Sh::T((big(r), big(c))),
        1 => Sh::A([big(r), big(c)]),
        _ => Sh::S(Shape::new(big(r), big(c))),
    }
}

/// caller-defined index type
#[derive(Clone, Copy)]
struct Custom(usize, usize);
impl AsIndex for Custom {
    fn row(&self) -> usize {
        l::tick();
        self.0
    }
    fn col(&self) -> usize {
        l::tick();
        self.1
    }
}

fn dump<E: Elem>(k: usize, m: &Matrix<E>) -> String {
    let mut s = String::new();
    let (r, c, n) = (m.nrows(), m.ncols(), m.size());
    let sh = m.shape();
    let coherent =
        r.checked_mul(c) == Some(n) && sh.nrows() == r && sh.ncols() == c && m.capacity() >= n;
    // huge extents are written as the sentinels of `big`
    let clip = |x: usize| match x {
        usize::MAX => -1,
        x if x == 1usize << 63 => -2,
        x if x == isize::MAX as usize => -4,
        x if x == 1usize << 32 => -5,
        x if x == usize::MAX - 1 => -6,
        x if x > 1_000_000_000 => -9,
        x => x as i64,
    };
    let _ = write!(
        s,
        "{{\"k\":{},\"ord\":{},\"nr\":{},\"nc\":{},\"sz\":{},\"em\":{},\"coh\":{},",
        k,
        if m.order() == Order::RowMajor { 0 } else { 1 },
        clip(r),
        clip(c),
        clip(n),
        m.is_empty() as u8,
        coherent as u8
    );
    s.push_str("\"mem\":[");
    let mut first = true;
    let mut count = 0;
    for e in m.iter_elements() {
        if count > 20000 {
            break;
        }
        count += 1;
        if !first {
            s.push(',');
        }
        first = false;
        s.push_str(&e.json());
    }
    s.push_str("],\"at\":[");
    if coherent && n > 0 && n <= 20000 && !E::Z {
        let mut first = true;
        for i in 0..r {
            for j in 0..c {
                if !first {
                    s.push(',');
                }
                first = false;
                match m.get((i, j)) {
                    Ok(e) => {
                        let _ = write!(s, "{}", e.lid());
                    }
                    Err(_) => s.push_str("-2"),
                }
            }
        }
    }
    s.push_str("]}");
    s
}

fn ename(e: Error) -> &'static str {
    match e {
        Error::SizeOverflow => "SizeOverflow",
        Error::SizeMismatch => "SizeMismatch",
        Error::CapacityOverflow => "CapacityOverflow",
        Error::LengthInconsistent => "LengthInconsistent",
        Error::IndexOutOfBounds => "IndexOutOfBounds",
        Error::SquareMatrixRequired => "SquareMatrixRequired",
        Error::ShapeNotConformable => "ShapeNotConformable",
    }
}

fn vecs<E: Elem>(lens: &[i64]) -> Vec<Vec<E>> {
    let mut v = 0;
    lens.iter()
        .map(|&n| {
            (0..n)
                .map(|_| {
                    v += 1;
                    E::make(v)
                })
                .collect()
        })
        .collect()
}

/// iterator without size information
struct Plain<I: Iterator>(I);
impl<I: Iterator> Iterator for Plain<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        l::tick();
        self.0.next()
    }
}

/// iterator with size hints of various kinds: 0 exact but with a wide upper
/// limit, 1 loose on both sides, 2 none and not fused (goes on after its
/// end), 3 wrong
struct Hinted<I: Iterator>(std::iter::Peekable<I>, usize, i64, bool);
impl<I: Iterator> Hinted<I> {
    fn new(i: I, n: usize, kind: i64) -> Self {
        Hinted(i.peekable(), n, kind, false)
    }
}
impl<I: Iterator> Iterator for Hinted<I>
where
    I::Item: Again,
{
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        l::tick();
        let x = self.0.next();
        if x.is_some() {
            self.1 -= 1;
        } else if self.2 == 2 {
            if self.3 {
                return Some(I::Item::again());
            }
            self.3 = true;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.1;
        match self.2 {
            0 => (n, Some(usize::MAX)),
            1 => (n.saturating_sub(1), Some(n + 3)),
            2 => (0, None),
            _ => (n + 2, Some(n.saturating_sub(1))),
        }
    }
}
/// something to yield after the end
trait Again {
    fn again() -> Self;
}
impl<E: Elem> Again for E {
    fn again() -> Self {
        E::make(77)
    }
}
impl<E: Elem> Again for Hinted<std::vec::IntoIter<E>> {
    fn again() -> Self {
        Hinted::new(vec![E::make(78)].into_iter(), 1, 0)
    }
}

fn arr<E: Elem, const R: usize, const C: usize>() -> [[E; C]; R] {
    let mut v = 0;
    std::array::from_fn(|_| {
        std::array::from_fn(|_| {
            v += 1;
            E::make(v)
        })
    })
}
fn varr<E: Elem, const C: usize>(r: usize) -> Vec<[E; C]> {
    let mut v = 0;
    (0..r)
        .map(|_| {
            std::array::from_fn(|_| {
                v += 1;
                E::make(v)
            })
        })
        .collect()
}
fn arrvec<E: Elem, const R: usize>(lens: &[i64]) -> [Vec<E>; R] {
    let mut it = vecs::<E>(lens).into_iter();
    std::array::from_fn(|_| it.next().unwrap())
}

struct Wide<E> {
    _pad: [u64; 5],
    e: E,
}

fn rows<E: Elem>(kind: i64, lens: &[i64]) -> Result<Matrix<E>, Error> {
    let n = lens.len();
    let c0 = lens.first().copied().unwrap_or(0) as usize;
    macro_rules! rc {
        ($f:ident) => {
            match (n, c0) {
                (0, _) => $f!(0, 0),
                (1, 0) => $f!(1, 0),
                (1, 1) => $f!(1, 1),
                (1, 3) => $f!(1, 3),
                (2, 0) => $f!(2, 0),
                (2, 1) => $f!(2, 1),
                (2, 2) => $f!(2, 2),
                (2, 3) => $f!(2, 3),
                (3, 1) => $f!(3, 1),
                (3, 2) => $f!(3, 2),
                (3, 4) => $f!(3, 4),
                (4, 3) => $f!(4, 3),
                (5, 2) => $f!(5, 2),
                (0..=9, 0) => $f!(9, 0),
                _ => panic!("harness: shape not listed"),
            }
        };
    }
    macro_rules! cc {
        ($f:ident) => {
            match c0 {
                0 => $f!(0),
                1 => $f!(1),
                2 => $f!(2),
                3 => $f!(3),
                4 => $f!(4),
                5 => $f!(5),
                _ => panic!("harness: width not listed"),
            }
        };
    }
    match kind {
        0 => Matrix::try_from(vecs::<E>(lens)),
        1 => {
            let v = vecs::<E>(lens);
            Matrix::try_from(&v[..])
        }
        2 => match n {
            0 => Matrix::try_from(arrvec::<E, 0>(lens)),
            1 => Matrix::try_from(arrvec::<E, 1>(lens)),
            2 => Matrix::try_from(arrvec::<E, 2>(lens)),
            3 => Matrix::try_from(arrvec::<E, 3>(lens)),
            4 => Matrix::try_from(arrvec::<E, 4>(lens)),
            5 => Matrix::try_from(arrvec::<E, 5>(lens)),
            6 => Matrix::try_from(arrvec::<E, 6>(lens)),
            _ => panic!("harness: too many rows"),
        },
        3 => Ok(vecs::<E>(lens).into_iter().collect()),
        4 => Ok(Plain(vecs::<E>(lens).into_iter().map(|r| Plain(r.into_iter()))).collect()),
        5 => {
            macro_rules! f {
                ($r:expr, $c:expr) => {
                    Ok(Matrix::from(arr::<E, $r, $c>()))
                };
            }
            rc!(f)
        }
        6 => {
            macro_rules! f {
                ($c:expr) => {
                    Ok(Matrix::from(varr::<E, $c>(n)))
                };
            }
            cc!(f)
        }
        7 => {
            macro_rules! f {
                ($c:expr) => {{
                    let v = varr::<E, $c>(n);
                    Ok(Matrix::from(&v[..]))
                }};
            }
            cc!(f)
        }
        8..=11 => {
            let n = lens.len();
            let v: Vec<_> =
                vecs::<E>(lens).into_iter().map(|r| (r.len(), r)).map(|(k, r)| Hinted::new(r.into_iter(), k, kind - 8)).collect();
            Ok(Hinted::new(v.into_iter(), n, kind - 8).collect())
        }
        _ => panic!("harness: kind"),
    }
}

/// macro forms; the number of rows / columns is fixed by the form
fn mac<E: Elem>(form: i64) -> Matrix<E> {
    let e = E::make;
    match form {
        0 => matreex::matrix![],
        1 => matreex::matrix![[e(1); 3]; 2],
        2 => matreex::matrix![[e(1); 0]; 2],
        3 => matreex::matrix![[e(1), e(2), e(3)]; 1],
        4 => matreex::matrix![[e(1), e(2), e(3)], [e(4), e(5), e(6)]],
        5 => matreex::matrix![[e(1)], [e(2)], [e(3)],],
        6 => matreex::matrix![[e(1), e(2)],],
        7 => matreex::row_vec![],
        8 => matreex::row_vec![e(1); 3],
        9 => matreex::row_vec![e(1), e(2), e(3)],
        10 => matreex::row_vec![e(1); 0],
        11 => matreex::col_vec![],
        12 => matreex::col_vec![e(1); 3],
        13 => matreex::col_vec![e(1), e(2), e(3)],
        14 => matreex::col_vec![e(1), e(2),],
        15 => matreex::matrix![[e(1), e(2)]; 3],
        16 => matreex::matrix![[e(1); 2]; 0],
        17 => matreex::col_vec![e(1); 0],
        18 => matreex::matrix![[e(1), e(2)]; 0],
        19 => Matrix::from(arr::<E, 0, 3>()),
        20 => Matrix::from(varr::<E, 3>(0)),
        21 => Matrix::from(&varr::<E, 3>(0)[..]),
        22 => {
            let (r, c) = (2, 1);
            matreex::matrix![[e(1); c + 2]; r + 1]
        }
        23 => matreex::matrix![[e(1), e(2),], [e(3), e(4),],],
        24 => {
            let a = [e(1), e(2), e(3)];
            let b = [e(4), e(5), e(6)];
            matreex::matrix![a, b]
        }
        25 => matreex::matrix![[e(1), e(2), e(3),]; 1 + 1],
        26 => matreex::row_vec![e(1); 1 + 1],
        27 => matreex::col_vec![e(1); 1 + 1],
        28 => Matrix::from(arr::<E, 0, 1>()),
        29 => Matrix::from_row(varr::<E, 3>(1).remove(0)),
        30 => Matrix::from_col(varr::<E, 3>(1).remove(0)),
        _ => panic!("harness: macro form"),
    }
}

fn take<E>(w: &mut World<E>, k: i64) -> Matrix<E> {
    w[k as usize].take().unwrap()
}
fn two<E>(w: &mut World<E>, a: i64, b: i64) -> (&mut Matrix<E>, &mut Matrix<E>) {
    let (a, b) = (a as usize, b as usize);
    assert!(a != b);
    let p = w.as_mut_ptr();
    // distinct slots
    unsafe { ((*p.add(a)).as_mut().unwrap(), (*p.add(b)).as_mut().unwrap()) }
}
fn at<E>(w: &World<E>, k: i64) -> &Matrix<E> {
    w[k as usize].as_ref().unwrap()
}
fn atm<E>(w: &mut World<E>, k: i64) -> &mut Matrix<E> {
    w[k as usize].as_mut().unwrap()
}

fn none() -> Res {
    Res::Ok("[]".into())
}
fn put<E: Elem>(w: &mut World<E>, d: i64, r: Result<Matrix<E>, Error>) -> Res {
    match r {
        Ok(m) => {
            w[d as usize] = Some(m);
            none()
        }
        Err(e) => Res::Err(e),
    }
}
fn unit<T>(r: Result<T, Error>) -> Res {
    match r {
        Ok(_) => none(),
        Err(e) => Res::Err(e),
    }
}
fn swp<E: Elem>(m: &mut Matrix<E>, a: &[i64]) -> Result<(), Error> {
    // a = kind_i r c kind_j r c
    macro_rules! second {
        ($i:expr) => {
            match a[3] {
                0 => m.swap($i, (big(a[4]), big(a[5]))).map(|_| ()),
                1 => m.swap($i, [big(a[4]), big(a[5])]).map(|_| ()),
                2 => m.swap($i, Index::new(big(a[4]), big(a[5]))).map(|_| ()),
                3 => m.swap($i, Custom(big(a[4]), big(a[5]))).map(|_| ()),
                _ => m.swap($i, WrappingIndex::new(a[4] as isize, a[5] as isize)).map(|_| ()),
            }
        };
    }
    match a[0] {
        0 => second!((big(a[1]), big(a[2]))),
        1 => second!([big(a[1]), big(a[2])]),
        2 => second!(Index::new(big(a[1]), big(a[2]))),
        3 => second!(Custom(big(a[1]), big(a[2]))),
        _ => second!(WrappingIndex::new(a[1] as isize, a[2] as isize)),
    }
}

/// slots an operation needs to be occupied
fn needs(op: &str, a: &[i64]) -> Vec<i64> {
    match op {
        "new" | "with_capacity" | "default" | "with_default" | "with_value" | "with_init"
        | "rows" | "mac" | "from_row" | "from_col" => vec![],
        "overwrite" | "eq" | "ew" | "ewg" | "mul" | "like" | "clone_from" | "conf" => {
            vec![a[0], a[1]]
        }
        _ => vec![a[0]],
    }
}

/// The consuming operations one after the other, each to a type of the same
/// size and another alignment; the values stay what `f` gave.
fn chain<E>(m: Matrix<E>, mut f: impl FnMut(E) -> u64) -> Result<Matrix<u64>, Error> {
    let m: Matrix<[u8; 8]> = m.map(|e| f(e).to_ne_bytes())?;
    let m: Matrix<u64> = m.map(u64::from_ne_bytes)?;
    let m: Matrix<[u16; 4]> =
        m.scalar_operation_consume_self(&48, |x, s| [0, 16, 32, *s].map(|k| (x >> k) as u16))?;
    let other: Matrix<()> = m.map_ref(|_| ())?;
    let m: Matrix<u64> = m.elementwise_operation_consume_self(&other, |x, _| {
        x.iter().rev().fold(0, |y, z| y << 16 | *z as u64)
    })?;
    let m: Matrix<[u32; 2]> = m.map(|x| [x as u32, (x >> 32) as u32])?;
    #[cfg(feature = "par")]
    let m: Matrix<u64> = m.par_map(|x| x[0] as u64 | (x[1] as u64) << 32)?;
    #[cfg(not(feature = "par"))]
    let m: Matrix<u64> = m.map(|x| x[0] as u64 | (x[1] as u64) << 32)?;
    let m: Matrix<[u64; 2]> = m.map(|x| [x, !x])?;
    let m: Matrix<u128> = m.map(|x| x[0] as u128 | (x[1] as u128) << 64)?;
    let m: Matrix<[u8; 16]> = m.map(|x| x.to_ne_bytes())?;
    m.map(|x| u128::from_ne_bytes(x) as u64)
}

fn exec<E: Elem>(w: &mut World<E>, op: &str, a: &[i64]) -> Res {
    for k in needs(op, a) {
        if w[k as usize].is_none() {
            return Res::Skip;
        }
    }
    match op {
        "new" => put(w, a[0], Ok(Matrix::new())),
        "default" => put(w, a[0], Ok(Matrix::default())),
        "with_capacity" => put(w, a[0], Ok(Matrix::with_capacity(big(a[1])))),
        "with_default" => put(w, a[0], Matrix::with_default(shape(a[1], a[2], a[3]))),
        "with_value" => {
            let e = E::make(a[4] as i32);
            put(w, a[0], Matrix::with_value(shape(a[1], a[2], a[3]), e))
        }
        "with_init" => {
            let mut log = Vec::new();
            let r = Matrix::with_initializer(shape(a[1], a[2], a[3]), |i: Index| {
                l::tick();
                log.push(format!("[{},{}]", i.row, i.col));
                E::make(log.len() as i32)
            });
            match put(w, a[0], r) {
                Res::Ok(_) => Res::Ok(out::list(&log)),
                r => r,
            }
        }
        "rows" => put(w, a[0], rows(a[1], &a[2..])),
        "mac" => put(w, a[0], Ok(mac(a[1]))),
        "from_row" | "from_col" => {
            let v: Vec<E> = (1..=a[2]).map(|v| E::make(v as i32)).collect();
            macro_rules! f {
                ($f:ident) => {
                    match a[1] {
                        0 => Matrix::$f(v),
                        1 => Matrix::$f(&v[..]),
                        2 => Matrix::$f(v.into_boxed_slice()),
                        _ => {
                            let mut it = v.into_iter();
                            let x: [E; 3] = std::array::from_fn(|_| it.next().unwrap());
                            Matrix::$f(x)
                        }
                    }
                };
            }
            let m = if op == "from_row" { f!(from_row) } else { f!(from_col) };
            put(w, a[0], Ok(m))
        }
        "transpose" => {
            atm(w, a[0]).transpose();
            none()
        }
        "sw" => {
            atm(w, a[0]).switch_order();
            none()
        }
        "sww" => {
            atm(w, a[0]).switch_order_without_rearrangement();
            none()
        }
        "so" => {
            atm(w, a[0]).set_order(ord(a[1]));
            none()
        }
        "sow" => {
            atm(w, a[0]).set_order_without_rearrangement(ord(a[1]));
            none()
        }
        "reshape" => unit(atm(w, a[0]).reshape(shape(a[1], a[2], a[3]))),
        "resize" => unit(atm(w, a[0]).resize(shape(a[1], a[2], a[3]))),
        "clear" => {
            atm(w, a[0]).clear();
            none()
        }
        "shrink" => {
            atm(w, a[0]).shrink_to_fit();
            none()
        }
        "shrink_to" => {
            atm(w, a[0]).shrink_to(big(a[1]));
            none()
        }
        "swap" => match swp(atm(w, a[0]), &a[1..]) {
            Ok(()) => none(),
            Err(e) => Res::Err(e),
        },
        "swap_rows" => unit(atm(w, a[0]).swap_rows(big(a[1]), big(a[2]))),
        "swap_cols" => unit(atm(w, a[0]).swap_cols(big(a[1]), big(a[2]))),
        "overwrite" => {
            let (x, y) = two(w, a[0], a[1]);
            x.overwrite(y);
            none()
        }
        "apply" => {
            let mut n = 0;
            atm(w, a[0]).apply(|e| {
                l::tick();
                n += 1;
                e.set(f_apply(e.val()))
            });
            Res::Ok(format!("[{n}]"))
        }
        "map" => {
            let m = take(w, a[0]);
            let mut n = 0;
            let r = match a[2] {
                0 => m.map(|e: E| {
                    l::tick();
                    n += 1;
                    E::make(f_map(e.val()))
                }),
                1 => m
                    .map(|e: E| {
                        l::tick();
                        n += 1;
                        Wide { _pad: [7; 5], e }
                    })
                    .and_then(|m| {
                        m.map(|mut x: Wide<E>| {
                            l::tick();
                            x.e.set(f_map(x.e.val()));
                            x.e
                        })
                    }),
                2 => m.map(|mut e: E| {
                    l::tick();
                    n += 1;
                    e.set(f_map(e.val()));
                    e
                }),
                // through plain types of one size and different alignments
                4 => chain(m, |e: E| {
                    l::tick();
                    n += 1;
                    e.val() as u64
                })
                .and_then(|m| {
                    m.map(|x: u64| {
                        l::tick();
                        E::make(f_map(x as i32))
                    })
                }),
                _ => m
                    .map(|e: E| {
                        l::tick();
                        n += 1;
                        e.val() as u16
                    })
                    .and_then(|m| {
                        m.map(|x: u16| {
                            l::tick();
                            E::make(f_map(x as i32))
                        })
                    }),
            };
            match put(w, a[1], r) {
                Res::Ok(_) => Res::Ok(format!("[{n}]")),
                r => r,
            }
        }
        "mapref" => {
            let mut n = 0;
            let r = match a[2] {
                0 => at(w, a[0]).map_ref(|e: &E| {
                    l::tick();
                    n += 1;
                    E::make(f_map(e.val()))
                }),
                1 => at(w, a[0]).map_ref(|e: &E| {
                    n += 1;
                    e.clone()
                }),
                _ => at(w, a[0])
                    .map_ref(|e: &E| {
                        l::tick();
                        n += 1;
                        (e, [1u64; 3])
                    })
                    .and_then(|m| m.map(|(e, _)| E::make(f_map(e.val())))),
            };
            match put(w, a[1], r) {
                Res::Ok(_) => Res::Ok(format!("[{n}]")),
                r => r,
            }
        }
        #[cfg(feature = "par")]
        "par_apply" => {
            let n = std::sync::atomic::AtomicI64::new(0);
            atm(w, a[0]).par_apply(|e| {
                l::tick();
                n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                e.set(f_apply(e.val()))
            });
            Res::Ok(format!("[{}]", n.into_inner()))
        }
        #[cfg(feature = "par")]
        "par_map" => {
            let n = std::sync::atomic::AtomicI64::new(0);
            let m = take(w, a[0]);
            let r = match a[2] {
                0 => m.par_map(|e: E| {
                    l::tick();
                    n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    E::make(f_map(e.val()))
                }),
                _ => m.par_map(|mut e: E| {
                    l::tick();
                    n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    e.set(f_map(e.val()));
                    e
                }),
            };
            match put(w, a[1], r) {
                Res::Ok(_) => Res::Ok(format!("[{}]", n.into_inner())),
                r => r,
            }
        }
        #[cfg(feature = "par")]
        "par_mapref" => {
            let n = std::sync::atomic::AtomicI64::new(0);
            let r = at(w, a[0]).par_map_ref(|e: &E| {
                l::tick();
                n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                E::make(f_map(e.val()))
            });
            match put(w, a[1], r) {
                Res::Ok(_) => Res::Ok(format!("[{}]", n.into_inner())),
                r => r,
            }
        }
        "clone" => {
            let m = at(w, a[0]).clone();
            put(w, a[1], Ok(m))
        }
        "clone_from" => {
            // a[0] takes the contents of a[1]
            let (x, y) = two(w, a[0], a[1]);
            x.clone_from(y);
            none()
        }
        "drop" => {
            drop(take(w, a[0]));
            none()
        }
        "contains" => {
            let e = E::make(a[1] as i32);
            let b = at(w, a[0]).contains(&e);
            Res::Ok(format!("[{}]", b as u8))
        }
        "eq" => {
            let (x, y) = (at(w, a[0]), at(w, a[1]));
            // ==, != and the mirrored ==
            Res::Ok(format!("[{},{},{}]", (x == y) as u8, (x != y) as u8, (y == x) as u8))
        }
        "eqself" => {
            let x = at(w, a[0]);
            #[allow(clippy::eq_op)]
            let r = format!("[{},{},{}]", (x == x) as u8, (x != x) as u8, x.eq(x) as u8);
            Res::Ok(r)
        }
        "conf" => {
            let (x, y) = (at(w, a[0]), at(w, a[1]));
            let e = |r: Result<(), Error>| match r {
                Ok(()) => "ok".to_string(),
                Err(e) => ename(e).to_string(),
            };
            Res::Ok(format!(
                "[{},{},{},\"{}\",\"{}\",\"{}\"]",
                x.is_square() as u8,
                x.is_elementwise_operation_conformable(y) as u8,
                x.is_multiplication_like_operation_conformable(y) as u8,
                e(x.ensure_square().map(|_| ())),
                e(x.ensure_elementwise_operation_conformable(y).map(|_| ())),
                e(x.ensure_multiplication_like_operation_conformable(y).map(|_| ())),
            ))
        }
        // generic elementwise operation: the closure logs its arguments
        "ewg" => {
            let mut log = Vec::new();
            let r = match a[3] {
                0 => at(w, a[0]).elementwise_operation(at(w, a[1]), |x: &E, y: &E| {
                    l::tick();
                    log.push(format!("[{},{}]", x.lid(), y.lid()));
                    E::make(log.len() as i32)
                }),
                1 => {
                    let x = take(w, a[0]);
                    x.elementwise_operation_consume_self(at(w, a[1]), |x: E, y: &E| {
                        l::tick();
                        log.push(format!("[{},{}]", x.lid(), y.lid()));
                        E::make(log.len() as i32)
                    })
                }
                2 => {
                    // consuming variant that keeps the left elements
                    let x = take(w, a[0]);
                    x.elementwise_operation_consume_self(at(w, a[1]), |mut x: E, y: &E| {
                        l::tick();
                        log.push(format!("[{},{}]", x.lid(), y.lid()));
                        x.set(log.len() as i32);
                        x
                    })
                }
                _ => {
                    let (x, y) = two(w, a[0], a[1]);
                    let r = x.elementwise_operation_assign(y, |x: &mut E, y: &E| {
                        l::tick();
                        log.push(format!("[{},{}]", x.lid(), y.lid()));
                        x.set(log.len() as i32)
                    });
                    return match r {
                        Ok(_) => Res::Ok(out::list(&log)),
                        Err(e) => Res::Err(e),
                    };
                }
            };
            match put(w, a[2], r) {
                Res::Ok(_) => Res::Ok(out::list(&log)),
                r => r,
            }
        }
        // named elementwise operations and operators
        // a = lhs rhs dest op form
        "ew" => {
            macro_rules! named {
                ($by:ident, $con:ident, $asg:ident) => {
                    match a[4] {
                        0 => {
                            let r = at(w, a[0]).$by(at(w, a[1]));
                            put(w, a[2], r)
                        }
                        1 => {
                            let x = take(w, a[0]);
                            let r = x.$con(at(w, a[1]));
                            put(w, a[2], r)
                        }
                        _ => {
                            let (x, y) = two(w, a[0], a[1]);
                            unit(x.$asg(y))
                        }
                    }
                };
            }
            macro_rules! oper {
                ($op:tt, $asg:tt) => {
                    match a[4] {
                        3 => {
                            let x = take(w, a[0]);
                            let y = take(w, a[1]);
                            put(w, a[2], Ok(x $op y))
                        }
                        4 => {
                            let x = take(w, a[0]);
                            let r = x $op at(w, a[1]);
                            put(w, a[2], Ok(r))
                        }
                        5 => {
                            let y = take(w, a[1]);
                            let r = at(w, a[0]) $op y;
                            put(w, a[2], Ok(r))
                        }
                        6 => {
                            let r = at(w, a[0]) $op at(w, a[1]);
                            put(w, a[2], Ok(r))
                        }
                        7 => {
                            let y = take(w, a[1]);
                            *atm(w, a[0]) $asg y;
                            none()
                        }
                        _ => {
                            let (x, y) = two(w, a[0], a[1]);
                            *x $asg &*y;
                            none()
                        }
                    }
                };
            }
            match (a[3], a[4]) {
                (1, 0..=2) => {
                    named!(elementwise_add, elementwise_add_consume_self, elementwise_add_assign)
                }
                (2, 0..=2) => {
                    named!(elementwise_sub, elementwise_sub_consume_self, elementwise_sub_assign)
                }
                (3, 0..=2) => {
                    named!(elementwise_mul, elementwise_mul_consume_self, elementwise_mul_assign)
                }
                (4, 0..=2) => {
                    named!(elementwise_div, elementwise_div_consume_self, elementwise_div_assign)
                }
                (5, 0..=2) => {
                    named!(elementwise_rem, elementwise_rem_consume_self, elementwise_rem_assign)
                }
                (1, _) => oper!(+, +=),
                (2, _) => oper!(-, -=),
                _ => panic!("harness: ew op"),
            }
        }
        // a = lhs rhs dest form
        "mul" => match a[3] {
            0 => {
                let x = take(w, a[0]);
                let y = take(w, a[1]);
                put(w, a[2], x.multiply(y))
            }
            1 => {
                let x = take(w, a[0]);
                let y = take(w, a[1]);
                put(w, a[2], Ok(x * y))
            }
            2 => {
                let x = take(w, a[0]);
                let r = x * at(w, a[1]);
                put(w, a[2], Ok(r))
            }
            3 => {
                let y = take(w, a[1]);
                let r = at(w, a[0]) * y;
                put(w, a[2], Ok(r))
            }
            _ => {
                let r = at(w, a[0]) * at(w, a[1]);
                put(w, a[2], Ok(r))
            }
        },
        // a = lhs rhs dest
        "like" => {
            let x = take(w, a[0]);
            let y = take(w, a[1]);
            let mut log = Vec::new();
            let r = x.multiplication_like_operation(y, |p: &[E], q: &[E]| {
                l::tick();
                let p: Vec<i64> = p.iter().map(|e| e.lid()).collect();
                let q: Vec<i64> = q.iter().map(|e| e.lid()).collect();
                log.push(format!("[{},{}]", out::ints(&p), out::ints(&q)));
                E::make(log.len() as i32)
            });
            match put(w, a[2], r) {
                Res::Ok(_) => Res::Ok(out::list(&log)),
                r => r,
            }
        }
        // a = src dest form scalar
        "sc" => {
            let s = a[3] as i32;
            let mut log: Vec<i64> = Vec::new();
            let r = match a[2] {
                0 => at(w, a[0]).scalar_operation(&s, |e: &E, s: &i32| {
                    l::tick();
                    log.push(e.lid());
                    E::make(f_scalar(e.val(), *s))
                }),
                1 => {
                    let x = take(w, a[0]);
                    x.scalar_operation_consume_self(&s, |e: E, s: &i32| {
                        l::tick();
                        log.push(e.lid());
                        E::make(f_scalar(e.val(), *s))
                    })
                }
                _ => {
                    atm(w, a[0]).scalar_operation_assign(&s, |e: &mut E, s: &i32| {
                        l::tick();
                        log.push(e.lid());
                        e.set(f_scalar(e.val(), *s))
                    });
                    return Res::Ok(out::ints(&log));
                }
            };
            match put(w, a[1], r) {
                Res::Ok(_) => Res::Ok(out::ints(&log)),
                r => r,
            }
        }
        // a = src dest form
        "neg" => {
            let r = if a[2] == 0 {
                let x = take(w, a[0]);
                -x
            } else {
                -at(w, a[0])
            };
            put(w, a[1], Ok(r))
        }
        // a = slot r c value [kind]: assign through get_mut
        "set" => {
            let e = E::make(a[3] as i32);
            let (m, r, c) = (atm(w, a[0]), big(a[1]), big(a[2]));
            let x = match a.get(4).copied().unwrap_or(0) {
                0 => m.get_mut((r, c)),
                1 => m.get_mut([r, c]),
                2 => m.get_mut(Index::new(r, c)),
                _ => m.get_mut(Custom(r, c)),
            };
            match x {
                Ok(x) => {
                    *x = e;
                    none()
                }
                Err(e) => Res::Err(e),
            }
        }
        // a = slot r c value [kind]: assign through IndexMut
        "setx" => {
            let e = E::make(a[3] as i32);
            let (m, r, c) = (atm(w, a[0]), big(a[1]), big(a[2]));
            match a.get(4).copied().unwrap_or(0) {
                0 => m[(r, c)] = e,
                1 => m[[r, c]] = e,
                2 => m[Index::new(r, c)] = e,
                _ => m[Custom(r, c)] = e,
            }
            none()
        }
        // a = slot r c [kind]
        "get" => {
            let (m, r, c) = (at(w, a[0]), big(a[1]), big(a[2]));
            let x = match a.get(3).copied().unwrap_or(3) {
                0 => m.get((r, c)),
                1 => m.get([r, c]),
                2 => m.get(Index::new(r, c)),
                _ => m.get(Custom(r, c)),
            };
            match x {
                Ok(e) => Res::Ok(format!("[{}]", e.lid())),
                Err(e) => Res::Err(e),
            }
        }
        "index" => {
            let (m, r, c) = (at(w, a[0]), big(a[1]), big(a[2]));
            let x = match a.get(3).copied().unwrap_or(0) {
                0 => &m[(r, c)],
                1 => &m[[r, c]],
                2 => &m[Index::new(r, c)],
                _ => &m[Custom(r, c)],
            };
            Res::Ok(format!("[{}]", x.lid()))
        }
        // a = slot form: every element consumed by a parallel iterator
        #[cfg(feature = "par")]
        "par_into" => {
            use matreex::parallel::*;
            let m = take(w, a[0]);
            let n = std::sync::atomic::AtomicI64::new(0);
            if a[1] == 0 {
                m.into_par_iter_elements().for_each(|e| {
                    l::tick();
                    n.fetch_add(e.val().min(0) as i64 + 1, std::sync::atomic::Ordering::SeqCst);
                });
            } else {
                m.into_par_iter_elements_with_index().for_each(|(_, e)| {
                    l::tick();
                    n.fetch_add(e.val().min(0) as i64 + 1, std::sync::atomic::Ordering::SeqCst);
                });
            }
            Res::Ok(format!("[{}]", n.into_inner()))
        }
        // a = slot axis mode: overwrite values through the mutable row/column
        // iterators; the value encodes the visit
        "itermut" => {
            let m = atm(w, a[0]);
            let mut log = Vec::new();
            macro_rules! go {
                ($it:expr) => {
                    for (i, v) in $it.enumerate() {
                        let mut line = Vec::new();
                        if a[2] == 0 {
                            for (j, e) in v.enumerate() {
                                l::tick();
                                line.push(e.lid());
                                e.set((100 + 10 * i as i32 + j as i32) % MOD);
                            }
                        } else {
                            for (j, e) in v.rev().enumerate() {
                                l::tick();
                                line.push(e.lid());
                                e.set((100 + 10 * i as i32 + j as i32) % MOD);
                            }
                        }
                        log.push(out::ints(&line));
                    }
                };
            }
            match (a[1], a[2]) {
                (0, 2) => go!(m.iter_rows_mut().rev()),
                (0, _) => go!(m.iter_rows_mut()),
                (_, 2) => go!(m.iter_cols_mut().rev()),
                _ => go!(m.iter_cols_mut()),
            }
            Res::Ok(out::list(&log))
        }
        // a = slot axis: read-only views
        "iter" => {
            let m = at(w, a[0]);
            let mut log = Vec::new();
            if a[1] == 0 {
                for v in m.iter_rows() {
                    let line: Vec<i64> = v.map(|e| e.lid()).collect();
                    log.push(out::ints(&line));
                }
            } else {
                for v in m.iter_cols() {
                    let line: Vec<i64> = v.map(|e| e.lid()).collect();
                    log.push(out::ints(&line));
                }
            }
            Res::Ok(out::list(&log))
        }
        // a = slot axis n: nth row / column
        "nth" => {
            let line: Result<Vec<i64>, Error> = match a[1] {
                0 => at(w, a[0]).iter_nth_row(big(a[2])).map(|v| v.map(|e| e.lid()).collect()),
                1 => at(w, a[0]).iter_nth_col(big(a[2])).map(|v| v.map(|e| e.lid()).collect()),
                2 => atm(w, a[0])
                    .iter_nth_row_mut(big(a[2]))
                    .map(|v| v.map(|e| e.lid()).collect()),
                _ => atm(w, a[0])
                    .iter_nth_col_mut(big(a[2]))
                    .map(|v| v.map(|e| e.lid()).collect()),
            };
            match line {
                Ok(v) => Res::Ok(out::ints(&v)),
                Err(e) => Res::Err(e),
            }
        }
        // a = slot n: consume, take n from the front, m from the back
        "into" => {
            let m = take(w, a[0]);
            let mut it = m.into_iter_elements();
            let mut log = Vec::new();
            for _ in 0..a[1] {
                l::tick();
                if let Some(e) = it.next() {
                    log.push(e.lid());
                }
            }
            for _ in 0..a[2] {
                l::tick();
                if let Some(e) = it.next_back() {
                    log.push(e.lid());
                }
            }
            log.push(it.len() as i64);
            drop(it);
            Res::Ok(out::ints(&log))
        }
        // elements with index, and elements in memory order
        "elems" => {
            let m = at(w, a[0]);
            let v: Vec<String> = m
                .iter_elements_with_index()
                .map(|(i, e)| format!("[{},{},{}]", i.row, i.col, e.lid()))
                .collect();
            Res::Ok(out::list(&v))
        }
        "fmt" => {
            let m = at(w, a[0]);
            let s = if a[1] == 0 { format!("{m}") } else { format!("{m:?}") };
            Res::Ok(format!("[{}]", out::text(&s)))
        }
        _ => panic!("harness: unknown op {op}"),
    }
}

fn run<E: Elem>(name: &str, prog: &[(bool, String, Vec<i64>)], fault: i64, id: usize) -> (String, bool, i64) {
    l::reset();
    let mut w: World<E> = (0..SLOTS).map(|_| None).collect();
    let mut seen: Vec<String> = vec![String::new(); SLOTS];
    let mut line = format!(
        "{{\"id\":{},\"ty\":\"{}\",\"z\":{},\"dg\":{},\"es\":{},\"nq\":{},\"fk\":{},\"steps\":[",
        id,
        name,
        E::Z as u8,
        E::DROP as u8,
        size_of::<E>(),
        E::NEQ as u8,
        fault
    );
    let mut fired_any = false;
    let mut calls = 0;
    let mut first = true;
    for step in 0..=prog.len() {
        let (mark, op, args): (bool, &str, &[i64]) = if step < prog.len() {
            (prog[step].0, &prog[step].1, &prog[step].2)
        } else {
            (false, "end", &[])
        };
        let mut pend = String::new();
        if !first {
            pend.push(',');
        }
        let _ = write!(pend, "{{\"op\":\"{}\",\"a\":{},", op, out::ints(args));
        sig::pending(&line, &pend);
        l::begin_op();
        if mark {
            l::arm(fault);
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            if op == "end" {
                for s in w.iter_mut() {
                    *s = None;
                }
                none()
            } else {
                exec(&mut w, op, args)
            }
        }));
        let fired = if mark { l::disarm() } else { false };
        fired_any |= fired;
        let nticks = if mark { l::ticks() } else { 0 };
        calls += nticks as i64;
        let (res, ret) = match r {
            Ok(Res::Ok(ret)) => ("ok".to_string(), ret),
            Ok(Res::Err(e)) => (format!("err:{}", ename(e)), "[]".to_string()),
            Ok(Res::Skip) => ("skip".to_string(), "[]".to_string()),
            Err(p) => {
                let harness = p
                    .downcast_ref::<String>()
                    .map(|s| s.starts_with("harness"))
                    .or(p.downcast_ref::<&str>().map(|s| s.starts_with("harness")))
                    .unwrap_or(false);
                if harness {
                    eprintln!("harness error in scenario {id}: {op} {args:?}");
                    sig::leave(3);
                }
                // dropping the payload must not run under a fault
                drop(p);
                ("panic".to_string(), "[]".to_string())
            }
        };
        let (cr, dr, zc, zd, over) = {
            let g = l::led();
            (g.cr.clone(), g.dr.clone(), g.zc, g.zd, g.over)
        };
        if over {
            // the element type ran out of identities: cut here, drop silently
            for s in w.iter_mut() {
                std::mem::forget(s.take());
            }
            break;
        }
        let mut ws = Vec::new();
        for k in 0..SLOTS {
            let d = match &w[k] {
                None => format!("{{\"k\":{k},\"ord\":-1}}"),
                Some(m) => match catch_unwind(AssertUnwindSafe(|| dump(k, m))) {
                    Ok(s) => s,
                    Err(_) => format!("{{\"k\":{k},\"ord\":-2}}"),
                },
            };
            if seen[k] != d {
                if !(seen[k].is_empty() && w[k].is_none()) {
                    ws.push(d.clone());
                }
                seen[k] = d;
            }
        }
        line.push_str(&pend);
        let _ = write!(
            line,
            "\"res\":\"{}\",\"ret\":{},\"cr\":{},\"dr\":{},",
            res,
            ret,
            out::ids(&cr),
            out::ids(&dr)
        );
        if E::Z {
            let _ = write!(line, "\"zc\":{zc},\"zd\":{zd},");
        }
        if mark {
            let _ = write!(line, "\"ff\":{},\"tk\":{},", fired as u8, nticks);
        }
        let _ = write!(line, "\"w\":{}}}", out::list(&ws));
        first = false;
    }
    sig::idle();
    line.push_str("]}\n");
    (line, fired_any, calls)
}

fn one(ty: &str, prog: &[(bool, String, Vec<i64>)], fault: i64, id: usize) -> (String, bool, i64) {
    with_elem!(ty, [T1 T2 T3 T4 T8 T16 T24 T40 T264 T4K TB N128 N1 N4 N24 Z1 Z8 ZN ZQ], run(ty, prog, fault, id))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut outf =
        std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let shard: usize = args[3].parse().unwrap();
    let nshards: usize = args[4].parse().unwrap();
    let skip: usize = args[5].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    sig::install(outf.as_raw_fd());
    let mut done = BTreeMap::new();
    for (n, src) in text.lines().enumerate() {
        if n % nshards != shard || src.is_empty() {
            continue;
        }
        let (ty, body) = src.split_once(' ').unwrap();
        // `!~op`: not every fault, but some of every magnitude and the last ones
        let sparse = body.contains("!~");
        let prog: Vec<(bool, String, Vec<i64>)> = body
            .split(';')
            .map(|t| {
                let t = t.trim();
                let (mark, t) = match t.strip_prefix('!') {
                    Some(t) => (true, t.strip_prefix('~').unwrap_or(t)),
                    None => (false, t),
                };
                let mut it = t.split_whitespace();
                let op = it.next().unwrap().to_string();
                (mark, op, it.map(|x| x.parse().unwrap()).collect())
            })
            .collect();
        let marked = prog.iter().any(|p| p.0);
        let mut k = if marked { 1 } else { 0 };
        if skip > n * 1000 + k as usize {
            if !marked || skip >= (n + 1) * 1000 {
                continue;
            }
            k = (skip - n * 1000) as i64;
        }
        let mut emit = |k: i64, id: usize| {
            if cfg!(miri) {
                eprintln!("CASE {id}");
            }
            sig::deadline(30);
            let (line, fired, calls) = one(ty, &prog, k, id);
            outf.write_all(line.as_bytes()).unwrap();
            *done.entry(ty.to_string()).or_insert(0usize) += 1;
            (fired, calls)
        };
        if sparse {
            // faults of every magnitude and the last ones
            if skip == n * 1000 + 2 {
                continue; // it stopped without a fault
            }
            let calls = emit(i64::MAX, n * 1000 + 1).1;
            let mut ks = vec![];
            let mut x = 1;
            while x <= calls {
                ks.push(x);
                x += 1.max(x / 3);
            }
            ks.extend((1.max(calls - 3)..=calls).chain([calls / 2, calls / 2 + 1]).filter(|x| *x > 0));
            ks.sort_unstable();
            ks.dedup();
            for (x, k) in ks.into_iter().enumerate() {
                let id = n * 1000 + 2 + x;
                if id >= skip {
                    emit(k, id);
                }
            }
            continue;
        }
        loop {
            // scenario number: program line, fault index
            let (fired, _) = emit(k, n * 1000 + k as usize);
            if !fired || k >= 900 {
                break;
            }
            k += 1;
        }
    }
    outf.flush().unwrap();
    println!("{done:?}");
}
