//! Schedules of calls on the row/column/element iterators.
//!
//! case: `ty mode ord nr nc n cmd...`, cmd = `<op><iterator>[:<arg>]`
use matreex::Matrix;
use std::cell::RefCell;
use vharness::ids::{Id, matrix, num};
use vharness::{out, palloc, run, with_id};

#[cfg_attr(not(miri), global_allocator)]
static A: palloc::Poison = palloc::Poison;

/// an iterator, with the calls that a generic caller can make on it
trait Dy<X> {
    fn next_(&mut self) -> Option<X>;
    fn back_(&mut self) -> Option<X>;
    fn nth_(&mut self, k: usize) -> Option<X>;
    fn nthb_(&mut self, k: usize) -> Option<X>;
    fn find_(&mut self, k: usize) -> Option<X>;
    fn rfind_(&mut self, k: usize) -> Option<X>;
    fn len_(&self) -> usize;
    fn hint_(&self) -> (usize, Option<usize>);
    fn all_(self: Box<Self>) -> Vec<X>;
    fn rall_(self: Box<Self>) -> Vec<X>;
    fn count_(self: Box<Self>) -> usize;
    fn last_(self: Box<Self>) -> Option<X>;
}
impl<I: DoubleEndedIterator + ExactSizeIterator> Dy<I::Item> for I {
    fn next_(&mut self) -> Option<I::Item> {
        self.next()
    }
    fn back_(&mut self) -> Option<I::Item> {
        self.next_back()
    }
    fn nth_(&mut self, k: usize) -> Option<I::Item> {
        self.nth(k)
    }
    fn nthb_(&mut self, k: usize) -> Option<I::Item> {
        self.nth_back(k)
    }
    // a search that passes k items over
    fn find_(&mut self, mut k: usize) -> Option<I::Item> {
        self.find(|_| (k, k = k.wrapping_sub(1)).0 == 0)
    }
    fn rfind_(&mut self, mut k: usize) -> Option<I::Item> {
        self.rfind(|_| (k, k = k.wrapping_sub(1)).0 == 0)
    }
    fn len_(&self) -> usize {
        self.len()
    }
    fn hint_(&self) -> (usize, Option<usize>) {
        self.size_hint()
    }
    fn all_(self: Box<Self>) -> Vec<I::Item> {
        let mut v = Vec::new();
        self.for_each(|x| v.push(x));
        v
    }
    fn rall_(self: Box<Self>) -> Vec<I::Item> {
        let mut v = Vec::new();
        self.rev().for_each(|x| v.push(x));
        v
    }
    fn count_(self: Box<Self>) -> usize {
        self.count()
    }
    fn last_(self: Box<Self>) -> Option<I::Item> {
        self.last()
    }
}

/// an element handed out
enum El<'a, T> {
    Ref(&'a T),
    Mut(&'a mut T),
    Own(T),
}
type Flat<'a, T> = Box<dyn Dy<(Option<(usize, usize)>, El<'a, T>)> + 'a>;
enum Item<'a, T> {
    It(Flat<'a, T>),
    El(Option<(usize, usize)>, El<'a, T>),
}
type Outer<'a, T> = Box<dyn Dy<Item<'a, T>> + 'a>;

// `map` would hide an overridden nth/fold of the real iterator, so the
// adapters forward every call
struct Ad<I, F>(I, F);
macro_rules! ad {
    ($name:ident, $x:ty, $y:ty) => {
        impl<'a, T: 'a, I, F> Dy<$y> for Ad<(I, $name), F>
        where
            I: DoubleEndedIterator + ExactSizeIterator,
            F: Fn(I::Item) -> $y,
        {
            fn next_(&mut self) -> Option<$y> {
                self.0.0.next().map(&self.1)
            }
            fn back_(&mut self) -> Option<$y> {
                self.0.0.next_back().map(&self.1)
            }
            fn nth_(&mut self, k: usize) -> Option<$y> {
                self.0.0.nth(k).map(&self.1)
            }
            fn nthb_(&mut self, k: usize) -> Option<$y> {
                self.0.0.nth_back(k).map(&self.1)
            }
            fn find_(&mut self, k: usize) -> Option<$y> {
                self.0.0.find_(k).map(&self.1)
            }
            fn rfind_(&mut self, k: usize) -> Option<$y> {
                self.0.0.rfind_(k).map(&self.1)
            }
            fn len_(&self) -> usize {
                self.0.0.len()
            }
            fn hint_(&self) -> (usize, Option<usize>) {
                self.0.0.size_hint()
            }
            fn all_(self: Box<Self>) -> Vec<$y> {
                let mut v = Vec::new();
                let Ad((it, _), f) = *self;
                it.for_each(|x| v.push(f(x)));
                v
            }
            fn rall_(self: Box<Self>) -> Vec<$y> {
                let mut v = Vec::new();
                let Ad((it, _), f) = *self;
                it.rev().for_each(|x| v.push(f(x)));
                v
            }
            fn count_(self: Box<Self>) -> usize {
                self.0.0.count()
            }
            fn last_(self: Box<Self>) -> Option<$y> {
                let Ad((it, _), f) = *self;
                it.last().map(f)
            }
        }
    };
}
struct ToFlat;
struct ToOuter;
ad!(ToFlat, X, (Option<(usize, usize)>, El<'a, T>));
ad!(ToOuter, X, Item<'a, T>);

fn flat<'a, T: 'a, I>(it: I, f: impl Fn(I::Item) -> (Option<(usize, usize)>, El<'a, T>) + 'a) -> Flat<'a, T>
where
    I: DoubleEndedIterator + ExactSizeIterator + 'a,
{
    Box::new(Ad((it, ToFlat), f))
}
fn outer<'a, T: 'a, I>(it: I, f: impl Fn(I::Item) -> Item<'a, T> + 'a) -> Outer<'a, T>
where
    I: DoubleEndedIterator + ExactSizeIterator + 'a,
{
    Box::new(Ad((it, ToOuter), f))
}

fn limbs(n: usize) -> String {
    out::limbs(n as u128)
}

fn go<T: Id>(a: &[&str]) -> String {
    let mode: u32 = a[1].parse().unwrap();
    let ord: i64 = a[2].parse().unwrap();
    let (nr, nc, n) = (num(a[3]), num(a[4]), num(a[5]));
    let mut m: Matrix<T> = matrix(ord, nr, nc);
    let size = m.size();
    let small = !T::Z && size <= 4096;
    let base = if size > 0 { m.iter_elements().next().map_or(0, |x| x as *const T as usize) } else { 0 };
    let (mut mem, mut grid) = (Vec::new(), Vec::new());
    if small {
        mem.extend(m.iter_elements().map(|x| x.id()));
        for i in 0..nr {
            if nc > 0 {
                for j in 0..nc {
                    grid.push(m.get((i, j)).map_or(-9, |x| x.id()));
                }
            } else {
                break;
            }
        }
    }
    let mut s = out::J::new();
    s.raw(b"\"steps\":[");
    let kept: RefCell<Vec<&mut T>> = RefCell::new(Vec::new());
    let mut owned: Option<Matrix<T>> = None;
    let err = |e: matreex::Error| format!("err:{e:?}");
    let ix = |i: matreex::Index| Some((i.row, i.col));
    let mut fin = Vec::new();
    let len0;
    let res = {
        let mm = &mut m;
        let r: Result<Outer<'_, T>, String> = match mode {
            0 => Ok(outer(mm.iter_rows(), |v| Item::It(flat(v, |x| (None, El::Ref(x)))))),
            1 => Ok(outer(mm.iter_cols(), |v| Item::It(flat(v, |x| (None, El::Ref(x)))))),
            2 => Ok(outer(mm.iter_rows_mut(), |v| Item::It(flat(v, |x| (None, El::Mut(x)))))),
            3 => Ok(outer(mm.iter_cols_mut(), |v| Item::It(flat(v, |x| (None, El::Mut(x)))))),
            4 => mm.iter_nth_row(n).map(|v| outer(v, |x| Item::El(None, El::Ref(x)))).map_err(err),
            5 => mm.iter_nth_col(n).map(|v| outer(v, |x| Item::El(None, El::Ref(x)))).map_err(err),
            6 => mm.iter_nth_row_mut(n).map(|v| outer(v, |x| Item::El(None, El::Mut(x)))).map_err(err),
            7 => mm.iter_nth_col_mut(n).map(|v| outer(v, |x| Item::El(None, El::Mut(x)))).map_err(err),
            8 => Ok(outer(mm.iter_elements(), |x| Item::El(None, El::Ref(x)))),
            9 => Ok(outer(mm.iter_elements_mut(), |x| Item::El(None, El::Mut(x)))),
            11 => Ok(outer(mm.iter_elements_with_index(), move |(i, x)| Item::El(ix(i), El::Ref(x)))),
            12 => Ok(outer(mm.iter_elements_mut_with_index(), move |(i, x)| Item::El(ix(i), El::Mut(x)))),
            _ => {
                owned = Some(std::mem::replace(mm, Matrix::new()));
                let o = owned.take().unwrap();
                if mode == 10 {
                    Ok(outer(o.into_iter_elements(), |x| Item::El(None, El::Own(x))))
                } else {
                    Ok(outer(o.into_iter_elements_with_index(), move |(i, x)| Item::El(ix(i), El::Own(x))))
                }
            }
        };
        match r {
            Err(e) => {
                len0 = "[]".to_string();
                e
            }
            Ok(o) => {
                len0 = limbs(o.len_());
                schedule::<T>(o, &a[6..], base, &kept, &mut s);
                "ok".into()
            }
        }
    };
    drop(owned);
    // use every reference handed out, all of them alive together
    let mut k = kept.into_inner();
    for x in k.iter_mut() {
        let i = x.id();
        **x = T::mk((i + 100) as u32);
    }
    drop(k);
    if small {
        fin.extend(m.iter_elements().map(|x| x.id()));
    }
    s.raw(b"]");
    let s = s.text();
    format!(
        "\"z\":{},\"res\":\"{res}\",\"len0\":{len0},\"mem\":{},\"grid\":{},\"fin\":{},{s}",
        T::Z as u8,
        out::ints(&mem),
        out::ints(&grid),
        out::ints(&fin)
    )
}

fn schedule<'a, T: Id>(
    o: Outer<'a, T>,
    cmds: &[&str],
    base: usize,
    kept: &RefCell<Vec<&'a mut T>>,
    s: &mut out::J,
) {
    let mut outer = Some(o);
    let mut inner: Vec<Option<Flat<'a, T>>> = Vec::new();
    for c in cmds.iter() {
        let b = c.as_bytes();
        let op = &c[..1];
        let (mut w, mut arg, mut k) = (0usize, 0usize, 1);
        while k < b.len() && b[k] != b':' {
            w = w * 10 + (b[k] - b'0') as usize;
            k += 1;
        }
        k += 1;
        while k < b.len() {
            arg = arg * 10 + (b[k] - b'0') as usize;
            k += 1;
        }
        let mut items: Vec<Item<'a, T>> = Vec::new();
        let mut cnt = 0;
        macro_rules! call {
            ($slot:expr, $wrap:expr) => {{
                let it = $slot.as_mut().expect("harness: closed iterator");
                match op {
                    "n" => items.extend(it.next_().map($wrap)),
                    "b" => items.extend(it.back_().map($wrap)),
                    "N" => items.extend(it.nth_(arg).map($wrap)),
                    "B" => items.extend(it.nthb_(arg).map($wrap)),
                    "F" => items.extend(it.find_(arg).map($wrap)),
                    "G" => items.extend(it.rfind_(arg).map($wrap)),
                    "C" => items.extend($slot.take().unwrap().all_().into_iter().map($wrap)),
                    "R" => items.extend($slot.take().unwrap().rall_().into_iter().map($wrap)),
                    "z" => items.extend($slot.take().unwrap().last_().map($wrap)),
                    "c" => cnt = $slot.take().unwrap().count_(),
                    _ => drop($slot.take()),
                }
            }};
        }
        if w == 0 {
            call!(outer, |x| x)
        } else {
            call!(inner[w - 1], |(i, e)| Item::El(i, e))
        }
        let (mut pos, mut val, mut ixs) = (Vec::new(), Vec::new(), Vec::new());
        let n = items.len();
        let mut see = |x: &T, own: bool| {
            val.push(x.id());
            let p = x as *const T as usize;
            pos.push(if T::Z {
                if own || (p != 0 && p % align_of::<T>() == 0) { 0 } else { -2 }
            } else if own {
                // moved out: its identity tells where it came from
                x.id() - 1
            } else if p < base || (p - base) % size_of::<T>() != 0 {
                -2
            } else {
                ((p - base) / size_of::<T>()) as i64
            });
        };
        for it in items {
            match it {
                Item::It(f) => inner.push(Some(f)),
                Item::El(i, e) => {
                    if let Some((r, c)) = i {
                        ixs.push((r, c));
                    }
                    match e {
                        El::Ref(x) => see(x, false),
                        El::Own(x) => see(&x, true),
                        El::Mut(x) => {
                            see(x, false);
                            kept.borrow_mut().push(x);
                        }
                    }
                }
            }
        }
        s.comma().raw(b"{\"op\":\"").raw(op.as_bytes());
        s.raw(b"\",\"w\":").int(w as i64);
        s.raw(b",\"a\":").int(arg.min(1 << 30) as i64);
        s.raw(b",\"res\":\"ok\",\"lens\":[");
        let len = |s: &mut out::J, l: usize, h: (usize, Option<usize>)| {
            if h.0 == l && h.1 == Some(l) {
                s.limbs(l);
            } else {
                s.raw(b"[-2]");
            }
        };
        match &outer {
            Some(x) => len(s, x.len_(), x.hint_()),
            None => {
                s.raw(b"[-1]");
            }
        }
        for x in &inner {
            s.raw(b",");
            match x {
                Some(x) => len(s, x.len_(), x.hint_()),
                None => {
                    s.raw(b"[-1]");
                }
            }
        }
        s.raw(b"],\"num\":").limbs(cnt);
        s.raw(b",\"pos\":").ints(&pos);
        s.raw(b",\"val\":").ints(&val);
        s.raw(b",\"cnt\":").int(n as i64);
        s.raw(b",\"ix\":[");
        for (r, c) in ixs {
            s.comma().raw(b"[").limbs(r).raw(b",").limbs(c).raw(b"]");
        }
        s.raw(b"]}");
    }
}

fn main() {
    run::main(
        |a| {
            let n = num(a[5]);
            format!(
                "\"ty\":{},\"mode\":{},\"ord\":{},\"nr\":{},\"nc\":{},\"nl\":{},\"n\":{},",
                a[0],
                a[1],
                a[2],
                limbs(num(a[3])),
                limbs(num(a[4])),
                limbs(n),
                if n < 1_000_000 { n as i64 } else { -1 }
            )
        },
        |a| with_id!(a[0].parse::<u32>().unwrap(), go(a)),
    );
}
