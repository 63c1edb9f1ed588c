//! Rows and columns mutated on several threads.
//!
//! case: `ty axis ord nr nc mode nt style a...`
//! mode 0: vectors dealt out to threads by the list a (thread of vector i),
//! 1: threads pull from the shared outer iterator, 2: a producer thread owns
//! the outer iterator and sends vectors by channel, 3: the elements of a
//! vector go to different threads, 4: dealt out taking from both ends
//! 5: while lengths are read through shared references (feature `share`)
//! 9: a schedule instead of a: f<w> b<w> (worker w takes the first / last
//! vector), r<w> w<w> (reads / writes its next element), in exactly this order
//! style 0 forwards 1 backwards 2 alternating 3 all references first
use matreex::Matrix;
use std::collections::VecDeque;
use std::sync::{Barrier, Condvar, Mutex, mpsc};
use std::thread;
use vharness::ids::{Id, matrix};
use vharness::out::J;
use vharness::{run, with_id};

fn f(v: i64, i: i64) -> i64 {
    (3 * v + i + 1) % 251
}
struct Entry {
    thread: i64,
    vector: i64,
    pos: Vec<i64>,
    before: Vec<i64>,
}
struct Ctx {
    base: usize,
    n: usize,
}
impl Ctx {
    fn pos<T: Id>(&self, x: &T) -> i64 {
        if T::Z {
            return 0;
        }
        let d = (x as *const T as usize).wrapping_sub(self.base);
        if d % size_of::<T>() != 0 || d / size_of::<T>() >= self.n { -1 } else { (d / size_of::<T>()) as i64 }
    }
}
fn pause(k: usize) {
    if k % 3 != 2 {
        thread::yield_now();
    }
}
fn touch<T: Id>(x: &mut T, i: i64, k: usize) -> i64 {
    let before = x.id();
    for s in 0..2 {
        let v = x.id();
        pause(k + s);
        *x = T::mk(f(v, i) as u32);
    }
    before
}
fn walk<'a, T: Id, V>(cx: &Ctx, t: i64, i: i64, v: V, style: usize) -> Entry
where
    V: DoubleEndedIterator<Item = &'a mut T> + ExactSizeIterator,
{
    let mut e = Entry { thread: t, vector: i, pos: vec![], before: vec![] };
    let mut see = |x: &mut T, k: usize| {
        e.pos.push(cx.pos(x));
        e.before.push(touch(x, i, k));
    };
    let mut v = v;
    match style {
        0 => v.enumerate().for_each(|(k, x)| see(x, k)),
        1 => v.rev().enumerate().for_each(|(k, x)| see(x, k)),
        2 => {
            let mut k = 0;
            while let Some(x) = if k % 2 == 0 { v.next() } else { v.next_back() } {
                see(x, k);
                k += 1;
            }
        }
        _ => {
            let all: Vec<&mut T> = v.collect();
            for (k, x) in all.into_iter().enumerate() {
                see(x, k);
            }
        }
    }
    e
}

fn job<'a, T, I, V>(cx: &Ctx, outer: I, mode: usize, nt: usize, style: usize, a: &[&str]) -> Vec<Entry>
where
    T: Id,
    I: DoubleEndedIterator<Item = V> + ExactSizeIterator + Send,
    V: DoubleEndedIterator<Item = &'a mut T> + ExactSizeIterator + Send,
{
    let mut outer = outer;
    let of = |i: usize| a[i % a.len()].parse::<usize>().unwrap() % nt;
    let count = outer.len();
    match mode {
        0 | 3 | 4 | 5 => {
            let mut hands: Vec<Vec<(usize, V)>> = (0..nt).map(|_| Vec::new()).collect();
            if mode == 4 {
                let (mut lo, mut hi) = (0, count);
                loop {
                    let i = if (lo + hi) % 2 == 0 { lo } else { hi.wrapping_sub(1) };
                    let x = if (lo + hi) % 2 == 0 { outer.next() } else { outer.next_back() };
                    let Some(x) = x else { break };
                    if i == lo && (lo + hi) % 2 == 0 {
                        lo += 1;
                    } else {
                        hi -= 1;
                    }
                    hands[of(i)].push((i, x));
                    if lo > count || hi > count {
                        break;
                    }
                }
            } else if mode == 3 {
                let mut per: Vec<Vec<(usize, &'a mut T)>> = (0..nt).map(|_| Vec::new()).collect();
                for (i, v) in outer.enumerate() {
                    for (k, x) in v.enumerate() {
                        per[(of(i) + k) % nt].push((i, x));
                    }
                }
                let gate = Barrier::new(nt);
                return thread::scope(|s| {
                    let gate = &gate;
                    let hs: Vec<_> = per
                        .into_iter()
                        .enumerate()
                        .map(|(t, v)| {
                            s.spawn(move || {
                                gate.wait();
                                v.into_iter()
                                    .enumerate()
                                    .map(|(k, (i, x))| Entry {
                                        thread: t as i64,
                                        vector: i as i64,
                                        pos: vec![cx.pos(x)],
                                        before: vec![touch(x, i as i64, k)],
                                    })
                                    .collect::<Vec<_>>()
                            })
                        })
                        .collect();
                    hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
                });
            } else {
                for (i, v) in outer.enumerate() {
                    hands[of(i)].push((i, v));
                }
            }
            let gate = Barrier::new(nt);
            thread::scope(|s| {
                let gate = &gate;
                let hs: Vec<_> = hands
                    .into_iter()
                    .enumerate()
                    .map(|(t, v)| {
                        s.spawn(move || {
                            gate.wait();
                            v.into_iter().map(|(i, v)| walk(cx, t as i64, i as i64, v, style)).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            })
        }
        1 => {
            let shared = Mutex::new(outer.enumerate());
            let gate = Barrier::new(nt);
            thread::scope(|s| {
                let (shared, gate) = (&shared, &gate);
                let hs: Vec<_> = (0..nt)
                    .map(|t| {
                        s.spawn(move || {
                            gate.wait();
                            let mut all = Vec::new();
                            loop {
                                let next = if t % 2 == 0 {
                                    shared.lock().unwrap().next()
                                } else {
                                    shared.lock().unwrap().next_back()
                                };
                                let Some((i, v)) = next else { break };
                                all.push(walk(cx, t as i64, i as i64, v, style));
                                if all.len() > 4096 {
                                    break;
                                }
                            }
                            all
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            })
        }
        2 => thread::scope(|s| {
            let mut tx = Vec::new();
            let mut hs = Vec::new();
            for t in 0..nt {
                let (a, b) = mpsc::channel::<(usize, V)>();
                tx.push(a);
                hs.push(s.spawn(move || {
                    b.into_iter().map(|(i, v)| walk(cx, t as i64, i as i64, v, style)).collect::<Vec<_>>()
                }));
            }
            let to: Vec<usize> = (0..count.max(1)).map(of).collect();
            s.spawn(move || {
                for (i, v) in outer.enumerate() {
                    tx[to[i % to.len()]].send((i, v)).ok();
                }
            });
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        }),
        9 => {
            // a turnstile: step k of the schedule belongs to one worker
            let steps: Vec<(char, usize)> =
                a.iter().map(|x| (x.chars().next().unwrap(), x[1..].parse().unwrap())).collect();
            let turn = (Mutex::new(0usize), Condvar::new());
            let shared = Mutex::new(outer.enumerate());
            thread::scope(|s| {
                let (turn, steps, shared) = (&turn, &steps, &shared);
                let hs: Vec<_> = (0..nt)
                    .map(|t| {
                        s.spawn(move || {
                            let mut mine: VecDeque<(usize, V)> = VecDeque::new();
                            let mut log: Vec<Entry> = Vec::new();
                            let mut held: Option<(usize, &'a mut T, i64)> = None;
                            for (k, (what, w)) in steps.iter().enumerate() {
                                if *w != t {
                                    continue;
                                }
                                let mut g = turn.0.lock().unwrap();
                                while *g != k {
                                    g = turn.1.wait(g).unwrap();
                                }
                                match what {
                                    'f' | 'b' => {
                                        let mut o = shared.lock().unwrap();
                                        let x = if *what == 'f' { o.next() } else { o.next_back() };
                                        if let Some((i, v)) = x {
                                            log.push(Entry { thread: t as i64, vector: i as i64, pos: vec![], before: vec![] });
                                            mine.push_back((i, v));
                                        }
                                    }
                                    'r' => {
                                        while let Some((i, v)) = mine.front_mut() {
                                            if let Some(x) = v.next() {
                                                let b = x.id();
                                                let e = log.iter_mut().find(|e| e.vector == *i as i64).unwrap();
                                                e.pos.push(cx.pos(x));
                                                e.before.push(b);
                                                held = Some((*i, x, b));
                                                break;
                                            }
                                            mine.pop_front();
                                        }
                                    }
                                    _ => {
                                        if let Some((i, x, b)) = held.take() {
                                            *x = T::mk(f(f(b, i as i64), i as i64) as u32);
                                        }
                                    }
                                }
                                *g += 1;
                                drop(g);
                                turn.1.notify_all();
                            }
                            log
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            })
        }
        _ => panic!("harness: mode"),
    }
}

/// lengths read through shared references on all threads, then the rest
#[cfg(feature = "share")]
fn peek<I, V>(outer: &mut I, nt: usize) -> usize
where
    I: DoubleEndedIterator<Item = V> + ExactSizeIterator + Sync,
    V: ExactSizeIterator + Sync,
{
    let gate = Barrier::new(nt);
    let o = &*outer;
    thread::scope(|s| {
        let gate = &gate;
        let hs: Vec<_> = (0..nt)
            .map(|_| {
                s.spawn(move || {
                    gate.wait();
                    o.len()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).max().unwrap_or(0)
    })
}

fn go<T: Id>(w: &[&str]) -> String {
    let u = |k: usize| w[k].parse::<usize>().unwrap();
    let (axis, ord, nr, nc, mode, nt, style) = (u(1), u(2), u(3), u(4), u(5), u(6), u(7));
    let a = if w.len() > 8 { &w[8..] } else { &["0"][..] };
    let mut m: Matrix<T> = matrix(ord as i64, nr, nc);
    // the base address, taken through the same kind of access
    let base = m.iter_elements_mut().next().map_or(0, |x| x as *mut T as usize);
    let cx = Ctx { base, n: nr * nc };
    let log = if axis == 0 {
        #[allow(unused_mut)]
        let mut it = m.iter_rows_mut();
        #[cfg(feature = "share")]
        if mode == 5 {
            peek(&mut it, nt);
        }
        job(&cx, it, mode, nt, style, a)
    } else {
        #[allow(unused_mut)]
        let mut it = m.iter_cols_mut();
        #[cfg(feature = "share")]
        if mode == 5 {
            peek(&mut it, nt);
        }
        job(&cx, it, mode, nt, style, a)
    };
    let mut j = J::new();
    j.raw(b"\"log\":[");
    for e in &log {
        j.comma().raw(b"[").int(e.thread).raw(b",").int(e.vector).raw(b",").ints(&e.pos).raw(b",").ints(&e.before).raw(b"]");
    }
    let fin: Vec<i64> = m.iter_elements().map(|x| x.id()).collect();
    j.raw(b"],\"final\":").ints(&fin);
    j.text()
}

fn main() {
    run::main(
        |w| {
            let mut j = J::new();
            j.raw(b"\"z\":").int((w[0].parse::<i64>().unwrap() >= 9) as i64);
            j.raw(b",\"axis\":").raw(w[1].as_bytes()).raw(b",\"ord\":").raw(w[2].as_bytes());
            j.raw(b",\"nr\":").raw(w[3].as_bytes()).raw(b",\"nc\":").raw(w[4].as_bytes());
            j.raw(b",\"nt\":").raw(w[6].as_bytes()).raw(b",");
            j.text()
        },
        |w| with_id!(w[0].parse::<i64>().unwrap(), go(w)),
    )
}
