//! Display and Debug of matrices.
//!
//! case: `ty how nr nc e...` (logical elements row by row)
//! ty 0 Txt: `d/g` texts of Display and Debug as dot-separated code points
//! (`-` empty); 1 i32 2 String 3 f64 4 char 5 () 6 Option<String> 7 nested
//! matrices of i32 8 Pieces: like Txt, written piecewise with padding flags
//! 9 zero-sized elements, far more than memory has bytes: how = 1 Debug, nr = 1 a row
//! how: 0/1 construction; the line has the texts of the matrix stored in
//! either order
use matreex::{Matrix, Order};
use std::fmt::{self, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use vharness::out::{J, codes};
use vharness::{palloc, run};

#[global_allocator]
static A: palloc::Poison = palloc::Poison;

/// a destination with room for so many bytes
struct Room(usize);
impl fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}
/// writes to destinations that become full somewhere
fn full(len: usize, f: impl Fn(&mut Room) -> fmt::Result) {
    let step = 1 + len / 40;
    for n in (0..len).step_by(step).chain([len]) {
        let _ = f(&mut Room(n));
    }
}

fn text(t: &str) -> String {
    if t == "-" {
        return String::new();
    }
    t.split('.').map(|x| char::from_u32(x.parse().unwrap()).expect("harness: code point")).collect()
}

trait El: Clone + fmt::Debug {
    fn read(t: &str) -> Self;
    fn disp(&self) -> Option<String>;
    fn dbg(&self) -> String;
    fn all(m: &Matrix<Self>) -> Option<String>;
    fn flags(m: &Matrix<Self>) -> usize;
}
macro_rules! el {
    (debug $t:ty, $p:ident => $e:expr) => {
        impl El for $t {
            fn read($p: &str) -> Self {
                $e
            }
            fn disp(&self) -> Option<String> {
                None
            }
            fn dbg(&self) -> String {
                format!("{self:?}")
            }
            fn all(_: &Matrix<Self>) -> Option<String> {
                None
            }
            fn flags(_: &Matrix<Self>) -> usize {
                0
            }
        }
    };
    ($t:ty, $p:ident => $e:expr) => {
        impl El for $t {
            fn read($p: &str) -> Self {
                $e
            }
            fn disp(&self) -> Option<String> {
                Some(format!("{self}"))
            }
            fn dbg(&self) -> String {
                format!("{self:?}")
            }
            fn all(m: &Matrix<Self>) -> Option<String> {
                Some(format!("{m}"))
            }
            fn flags(m: &Matrix<Self>) -> usize {
                full(format!("{m}").len(), |w| write!(w, "{m}"));
                format!("{m:5}{m:<40}{m:^3}{m:.1}{m:#}{m:+08}").len()
            }
        }
    };
}
#[derive(Clone)]
struct Txt(String, String);
impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.1)
    }
}
/// honours width and alternate flags, written in pieces
#[derive(Clone)]
struct Pieces(String, String);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if f.width().is_some() || f.precision().is_some() {
            return f.pad(&self.0);
        }
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}
impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if f.alternate() {
            f.write_str("alternate\n")?;
        }
        for c in self.1.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}
fn two(t: &str) -> (String, String) {
    let (d, g) = t.split_once('/').unwrap();
    (text(d), text(g))
}
el!(Txt, t => { let (d, g) = two(t); Txt(d, g) });
el!(Pieces, t => { let (d, g) = two(t); Pieces(d, g) });
el!(i32, t => t.parse().unwrap());
el!(String, t => text(t));
el!(f64, t => t.parse().unwrap());
el!(char, t => text(t).chars().next().unwrap());
el!(debug (), t => { let _ = t; });
el!(debug Option<String>, t => if t == "none" { None } else { Some(text(t)) });
el!(Matrix<i32>, t => {
    let v: Vec<usize> = t.split('.').map(|x| x.parse().unwrap()).collect();
    let mut m = Matrix::with_initializer((v[0], v[1]), |i| (i.row * v[1] + i.col + v[3]) as i32).expect("harness");
    if v[2] == 1 {
        m.switch_order();
    }
    m
});

fn build<E: El>(how: usize, ord: usize, nr: usize, nc: usize, e: &[E]) -> Matrix<E> {
    if how == 1 {
        let mut m = Matrix::with_initializer((nr, nc), |i| e[i.row * nc + i.col].clone()).expect("harness: new");
        if ord == 1 {
            m.switch_order();
        }
        return m;
    }
    let mut m;
    if ord == 0 {
        m = Matrix::from_row(e.to_vec());
        m.reshape((nr, nc)).expect("harness: reshape");
    } else {
        let mut v = Vec::new();
        for c in 0..nc {
            for r in 0..nr {
                v.push(e[r * nc + c].clone());
            }
        }
        m = Matrix::from_row(v);
        m.reshape((nc, nr)).expect("harness: reshape");
        m.switch_order_without_rearrangement();
    }
    assert!((m.order() == Order::ColMajor) == (ord == 1), "harness: order");
    m
}

fn go<E: El>(w: &[&str]) -> String {
    let u = |k: usize| w[k].parse::<usize>().unwrap();
    let (how, nr, nc) = (u(1), u(2), u(3));
    let e: Vec<E> = w[4..].iter().map(|t| E::read(t)).collect();
    assert!(e.len() == nr * nc, "harness: elements");
    let mut j = J::new();
    let mut body = String::new();
    let list = |v: Vec<String>| format!("[{}]", v.iter().map(|t| codes(t)).collect::<Vec<_>>().join(","));
    let d: Option<Vec<String>> = e.iter().map(|x| x.disp()).collect();
    let hasd = e.is_empty() && E::all(&build(how, 0, 0, 0, &[] as &[E])).is_some() || !e.is_empty() && d.is_some();
    j.raw(b"\"hasd\":").int(hasd as i64);
    body.push_str(&format!(",\"d\":{},\"g\":{}", list(d.unwrap_or_default()), list(e.iter().map(|x| x.dbg()).collect())));
    for ord in 0..2 {
        let m = build(how, ord, nr, nc, &e);
        let disp = catch_unwind(AssertUnwindSafe(|| E::all(&m)));
        let dbg = catch_unwind(AssertUnwindSafe(|| format!("{m:?}")));
        // one list of code points per line
        let lines = |t: &str| format!("[{}]", t.split('\n').map(codes).collect::<Vec<_>>().join(","));
        let t = |x: Option<String>| match x {
            Some(t) => lines(&t),
            None => "[[-1]]".into(),
        };
        body.push_str(&format!(
            ",\"disp{ord}\":{},\"dbg{ord}\":{}",
            match disp {
                Ok(x) => t(x),
                Err(_) => "[[-2]]".into(),
            },
            match dbg {
                Ok(x) => lines(&x),
                Err(_) => "[[-2]]".into(),
            }
        ));
        // other flags: no panic
        let other = catch_unwind(AssertUnwindSafe(|| {
            full(format!("{m:?}").len(), |w| write!(w, "{m:?}"));
            format!("{m:#?}{m:5?}{m:<30?}{m:.1?}{m:#x?}").len() + E::flags(&m)
        }));
        body.push_str(&format!(",\"flags{ord}\":{}", other.is_ok() as i64));
    }
    j.text() + &body
}
/// 2^62 x 1 or 1 x 2^62 zero-sized elements: the text has no end, but formatting must not panic
fn huge(w: &[&str]) -> String {
    let n = 1usize << 62;
    let mut v = Vec::<Nil>::new();
    unsafe { v.set_len(n) };
    let m = if w[2] == "1" { Matrix::from_row(v) } else { Matrix::from_col(v) };
    palloc::LIMIT.store(1 << 26, std::sync::atomic::Ordering::Relaxed);
    let mut to = Room(1000);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if w[1] == "1" { write!(to, "{m:?}") } else { write!(to, "{m}") }
    }));
    format!("\"huge\":\"{}\"", if r.is_ok() { "ok" } else { "panic" })
}
/// Elements of the given widths, each of one letter (nr nc width...): the lines as
/// runs of equal characters.
fn wide(w: &[&str]) -> String {
    let (nr, nc): (usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap());
    let ws: Vec<usize> = w[3..].iter().map(|x| x.parse().unwrap()).collect();
    let letter = |k: usize| char::from_u32(if k % 2 == 0 { 97 } else { 0x3b1 } + k as u32).unwrap();
    let e = (0..nr * nc).map(|k| Wide(letter(k).to_string().repeat(ws[k])));
    let mut m = Matrix::from_row(e.collect::<Vec<_>>());
    m.reshape((nr, nc)).expect("harness: reshape");
    let mut body = String::new();
    for (k, name) in ["disp0", "dbg0", "disp1", "dbg1"].iter().enumerate() {
        if k == 2 {
            m.switch_order();
        }
        let t = catch_unwind(AssertUnwindSafe(|| if k % 2 == 1 { format!("{:?}", m) } else { format!("{}", m) }));
        let lines: Vec<String> = match t {
            Err(_) => vec!["[[-1,0]]".into()],
            Ok(t) => t.split('\n').map(runs).collect(),
        };
        body += &format!(",\"{name}\":[{}]", lines.join(","));
    }
    let e: Vec<String> = (0..nr * nc).map(|k| format!("[{},{}]", letter(k) as u32, ws[k])).collect();
    format!("\"wide\":[{}]{body}", e.join(","))
}
struct Wide(String);
impl fmt::Display for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
fn runs(line: &str) -> String {
    let mut v: Vec<(u32, usize)> = Vec::new();
    for c in line.chars() {
        match v.last_mut() {
            Some(x) if x.0 == c as u32 => x.1 += 1,
            _ => v.push((c as u32, 1)),
        }
    }
    format!("[{}]", v.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","))
}
#[derive(Clone, Default, Debug)]
struct Nil;
impl fmt::Display for Nil {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("x")
    }
}

fn main() {
    run::main(
        |w| match w[0] {
            "10" => format!("\"ty\":10,\"nr\":{},\"nc\":{},", w[1], w[2]),
            _ => format!("\"ty\":{},\"nr\":{},\"nc\":{},", w[0], w[2], w[3]),
        },
        |w| match w[0] {
            "0" => go::<Txt>(w),
            "1" => go::<i32>(w),
            "2" => go::<String>(w),
            "3" => go::<f64>(w),
            "4" => go::<char>(w),
            "5" => go::<()>(w),
            "6" => go::<Option<String>>(w),
            "7" => go::<Matrix<i32>>(w),
            "8" => go::<Pieces>(w),
            "9" => huge(w),
            "10" => wide(w),
            _ => panic!("harness: type"),
        },
    )
}
