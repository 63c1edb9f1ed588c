//! Plain element types that carry a small identity, of many sizes and
//! alignments, including zero-sized ones.
pub trait Id: Clone + Default + Send + Sync + 'static {
    const Z: bool;
    fn mk(i: u32) -> Self;
    fn id(&self) -> i64;
}
macro_rules! int {
    ($($t:ty)*) => {$(
        impl Id for $t {
            const Z: bool = false;
            fn mk(i: u32) -> Self { i as $t }
            fn id(&self) -> i64 { *self as i64 }
        }
    )*};
}
int!(u8 u16 u32 u64);
impl Id for [u8; 3] {
    const Z: bool = false;
    fn mk(i: u32) -> Self {
        [i as u8, !(i as u8), 7]
    }
    fn id(&self) -> i64 {
        if self[1] == !self[0] && self[2] == 7 { self[0] as i64 } else { -1 }
    }
}
impl Id for [u64; 3] {
    const Z: bool = false;
    fn mk(i: u32) -> Self {
        [i as u64, !(i as u64), 7]
    }
    fn id(&self) -> i64 {
        if self[1] == !self[0] && self[2] == 7 { self[0] as i64 } else { -1 }
    }
}
impl Id for Box<u32> {
    const Z: bool = false;
    fn mk(i: u32) -> Self {
        Box::new(i)
    }
    fn id(&self) -> i64 {
        **self as i64
    }
}
impl Id for String {
    const Z: bool = false;
    fn mk(i: u32) -> Self {
        i.to_string()
    }
    fn id(&self) -> i64 {
        self.parse().unwrap_or(-1)
    }
}
#[repr(C, align(32))]
#[derive(Clone, Default)]
pub struct Wide(u32, u32);
impl Id for Wide {
    const Z: bool = false;
    fn mk(i: u32) -> Self {
        Wide(i, !i)
    }
    fn id(&self) -> i64 {
        if self.1 == !self.0 { self.0 as i64 } else { -1 }
    }
}
impl Id for () {
    const Z: bool = true;
    fn mk(_: u32) -> Self {}
    fn id(&self) -> i64 {
        0
    }
}
#[repr(align(4))]
#[derive(Clone, Default)]
pub struct ZA4;
impl Id for ZA4 {
    const Z: bool = true;
    fn mk(_: u32) -> Self {
        ZA4
    }
    fn id(&self) -> i64 {
        0
    }
}
#[repr(align(64))]
#[derive(Clone, Default)]
pub struct ZA64;
impl Id for ZA64 {
    const Z: bool = true;
    fn mk(_: u32) -> Self {
        ZA64
    }
    fn id(&self) -> i64 {
        0
    }
}

#[macro_export]
macro_rules! with_id {
    ($n:expr, $f:ident $a:tt) => {
        match $n {
            0 => $f::<u32> $a,
            1 => $f::<u8> $a,
            2 => $f::<u16> $a,
            3 => $f::<u64> $a,
            4 => $f::<[u8; 3]> $a,
            5 => $f::<[u64; 3]> $a,
            6 => $f::<Box<u32>> $a,
            7 => $f::<String> $a,
            8 => $f::<$crate::ids::Wide> $a,
            9 => $f::<()> $a,
            10 => $f::<$crate::ids::ZA4> $a,
            11 => $f::<$crate::ids::ZA64> $a,
            _ => panic!("harness: no such type"),
        }
    };
}

use matreex::Matrix;
/// nr x nc matrix whose element at memory position p has identity p + 1
pub fn matrix<T: Id>(ord: i64, nr: usize, nc: usize) -> Matrix<T> {
    let n = nr.checked_mul(nc).expect("harness: too large");
    if T::Z {
        // counts up to usize::MAX: no loops
        let mut m = Matrix::from_row(zvec::<T>(n));
        if ord == 0 {
            m.reshape((nr, nc)).expect("harness: reshape");
        } else {
            m.reshape((nc, nr)).expect("harness: reshape");
            m.switch_order_without_rearrangement();
        }
        return m;
    }
    let v: Vec<T> = (1..=n as u32).map(T::mk).collect();
    let mut m = Matrix::from_row(v);
    if ord == 0 {
        m.reshape((nr, nc)).expect("harness: reshape");
    } else {
        m.reshape((nc, nr)).expect("harness: reshape");
        m.switch_order_without_rearrangement();
    }
    m
}
fn zvec<T: Id>(n: usize) -> Vec<T> {
    assert!(size_of::<T>() == 0);
    let mut v = Vec::new();
    // zero-sized values without drop glue
    unsafe { v.set_len(n) };
    v
}

/// integers of the case files: negative numbers are sentinels
pub fn big(x: i64) -> usize {
    match x {
        -1 => usize::MAX,
        -2 => 1usize << 63,
        -4 => isize::MAX as usize,
        -5 => 1usize << 32,
        -6 => usize::MAX - 1,
        x if x >= 0 => x as usize,
        _ => panic!("harness: bad sentinel"),
    }
}
/// decimal, or a sentinel
pub fn num(t: &str) -> usize {
    match t.parse::<i64>() {
        Ok(x) => big(x),
        Err(_) => t.parse().expect("harness: number"),
    }
}
