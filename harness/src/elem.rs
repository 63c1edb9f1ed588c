//! Instrumented element types.  Every element carries an identity; its value
//! lives in the ledger.  Sizes 0..40, alignments 1..16, with and without drop
//! glue.
use crate::ledger as l;
use std::fmt::{self, Debug, Display};
use std::ops::*;

pub const MOD: i32 = 997;
/// a value that is unequal to everything, itself included
pub const NAN: i32 = 990;
pub fn f_add(a: i32, b: i32) -> i32 {
    (a + b).rem_euclid(MOD)
}
pub fn f_sub(a: i32, b: i32) -> i32 {
    (a - b).rem_euclid(MOD)
}
pub fn f_mul(a: i32, b: i32) -> i32 {
    (3 * a + 5 * b + a * b).rem_euclid(MOD)
}
pub fn f_div(a: i32, b: i32) -> i32 {
    (11 * a + 13 * b + 5).rem_euclid(MOD)
}
pub fn f_rem(a: i32, b: i32) -> i32 {
    (17 * a + 19 * b + 7).rem_euclid(MOD)
}
pub fn f_apply(v: i32) -> i32 {
    (3 * v + 1).rem_euclid(MOD)
}
pub fn f_map(v: i32) -> i32 {
    (5 * v + 2).rem_euclid(MOD)
}
pub fn f_scalar(v: i32, s: i32) -> i32 {
    (7 * v + 3 * s + 1).rem_euclid(MOD)
}
pub fn f_neg(v: i32) -> i32 {
    (MOD - v).rem_euclid(MOD)
}

pub trait Elem:
    Sized
    + Clone
    + Default
    + PartialEq
    + Debug
    + Display
    + Send
    + Sync
    + 'static
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + Neg<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
{
    const NAME: &'static str;
    const Z: bool;
    const DROP: bool;
    /// never equal to anything, itself included
    const NEQ: bool = false;
    fn make(v: i32) -> Self;
    /// identity as stored in memory (0: corrupted or zero-sized)
    fn id(&self) -> u32;
    fn val(&self) -> i32 {
        if Self::Z { 0 } else { l::val(self.id()) }
    }
    fn set(&mut self, v: i32) {
        if !Self::Z {
            l::set_val(self.id(), v)
        }
    }
    /// `[id,val]`
    fn json(&self) -> String {
        if Self::Z {
            "[0,0]".into()
        } else {
            let id = self.id();
            if l::known(id) { format!("[{},{}]", id, l::val(id)) } else { "[-1,-1]".into() }
        }
    }
    /// id for logs; -1 if corrupted
    fn lid(&self) -> i64 {
        if Self::Z {
            0
        } else {
            let id = self.id();
            if l::known(id) { id as i64 } else { -1 }
        }
    }
}

macro_rules! common {
    ($t:ident) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                l::tick();
                Self::make(self.val())
            }
        }
        impl Default for $t {
            fn default() -> Self {
                l::tick();
                Self::make(0)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                l::tick();
                !Self::NEQ && (Self::Z || (self.val() == o.val() && self.val() != NAN))
            }
        }
        impl Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                l::tick();
                write!(f, "{}", self.val())
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                l::tick();
                write!(f, "{}", self.val())
            }
        }
        common!(@op $t Add add f_add AddAssign add_assign);
        common!(@op $t Sub sub f_sub SubAssign sub_assign);
        common!(@op $t Mul mul f_mul MulAssign mul_assign);
        common!(@op $t Div div f_div DivAssign div_assign);
        common!(@op $t Rem rem f_rem RemAssign rem_assign);
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                l::tick();
                Self::make(f_neg(self.val()))
            }
        }
    };
    (@op $t:ident $tr:ident $m:ident $f:ident $atr:ident $am:ident) => {
        impl $tr for $t {
            type Output = Self;
            fn $m(self, o: Self) -> Self {
                l::tick();
                Self::make($f(self.val(), o.val()))
            }
        }
        impl $atr for $t {
            fn $am(&mut self, o: Self) {
                l::tick();
                self.set($f(self.val(), o.val()));
            }
        }
    };
}

macro_rules! dropglue {
    ($t:ident) => {
        impl Drop for $t {
            fn drop(&mut self) {
                l::dropped(self.id());
                l::tick();
            }
        }
    };
}

macro_rules! small {
    ($t:ident, $u:ty, $limit:expr, $drop:expr) => {
        pub struct $t($u);
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const Z: bool = false;
            const DROP: bool = $drop;
            fn make(v: i32) -> Self {
                $t(l::fresh(v, $limit) as $u)
            }
            fn id(&self) -> u32 {
                if self.0 as u64 > $limit as u64 { 0 } else { self.0 as u32 }
            }
        }
        common!($t);
    };
}

small!(T1, u8, 160, true);
dropglue!(T1);
small!(T2, u16, 40000, true);
dropglue!(T2);
small!(T4, u32, 1_000_000, true);
dropglue!(T4);
small!(N1, u8, 160, false);
small!(N4, u32, 1_000_000, false);

macro_rules! big {
    ($t:ident, $n:expr, $al:expr, $drop:expr) => {
        #[repr(C, align($al))]
        pub struct $t([u64; $n]);
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const Z: bool = false;
            const DROP: bool = $drop;
            fn make(v: i32) -> Self {
                let id = l::fresh(v, 1_000_000) as u64;
                let mut a = [0u64; $n];
                for i in 0..$n {
                    a[i] = id ^ (0x5bd1_e995_0000_0000u64.wrapping_mul(i as u64));
                }
                $t(a)
            }
            fn id(&self) -> u32 {
                let id = self.0[0];
                if id > 1_000_000 {
                    return 0;
                }
                for i in 0..$n {
                    if self.0[i] != id ^ (0x5bd1_e995_0000_0000u64.wrapping_mul(i as u64)) {
                        return 0;
                    }
                }
                id as u32
            }
        }
        common!($t);
    };
}
big!(T8, 1, 8, true);
dropglue!(T8);
big!(T16, 2, 16, true);
dropglue!(T16);
big!(T24, 3, 8, true);
dropglue!(T24);
big!(N24, 3, 8, false);
big!(T40, 5, 8, true);
dropglue!(T40);

// larger than a cache line, than a page
big!(T264, 33, 8, true);
dropglue!(T264);
big!(N128, 16, 128, false);
big!(T4K, 512, 64, true);
dropglue!(T4K);

/// an odd size without alignment
pub struct T3([u8; 3]);
impl Elem for T3 {
    const NAME: &'static str = "T3";
    const Z: bool = false;
    const DROP: bool = true;
    fn make(v: i32) -> Self {
        let id = l::fresh(v, 1_000_000).to_le_bytes();
        T3([id[0], id[1], id[2]])
    }
    fn id(&self) -> u32 {
        let id = u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0]);
        if id > 1_000_000 { 0 } else { id }
    }
}
common!(T3);
dropglue!(T3);

/// owns a heap cell: a double drop or a duplicated element is also a heap error
pub struct TB(Box<u32>);
impl Elem for TB {
    const NAME: &'static str = "TB";
    const Z: bool = false;
    const DROP: bool = true;
    fn make(v: i32) -> Self {
        TB(Box::new(l::fresh(v, 1_000_000)))
    }
    fn id(&self) -> u32 {
        if *self.0 > 1_000_000 { 0 } else { *self.0 }
    }
}
common!(TB);
dropglue!(TB);

macro_rules! zst {
    ($t:ident, $al:expr, $drop:expr) => {
        zst!($t, $al, $drop, false);
    };
    ($t:ident, $al:expr, $drop:expr, $neq:expr) => {
        #[repr(align($al))]
        pub struct $t(());
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            const Z: bool = true;
            const DROP: bool = $drop;
            const NEQ: bool = $neq;
            fn make(_: i32) -> Self {
                l::zcreated();
                $t(())
            }
            fn id(&self) -> u32 {
                0
            }
        }
        common!($t);
    };
}
zst!(Z1, 1, true);
impl Drop for Z1 {
    fn drop(&mut self) {
        l::zdropped();
        l::tick();
    }
}
zst!(Z8, 8, true);
impl Drop for Z8 {
    fn drop(&mut self) {
        l::zdropped();
        l::tick();
    }
}
zst!(ZN, 1, false);
zst!(ZQ, 2, false, true);

/// call `$f::<Type>($args)` for the element type with the given name
#[macro_export]
macro_rules! with_elem {
    ($name:expr, [$($t:ident)*], $f:ident $a:tt) => {
        match $name {
            $(stringify!($t) => $f::<$crate::elem::$t> $a,)*
            other => panic!("unknown element type {other}"),
        }
    };
}
