//! Main loop of the one-event-per-line drivers: `BIN CASES OUT SHARD NSHARDS SKIP`.
use crate::sig;
use std::io::Write as _;
use std::os::fd::AsRawFd;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// `head(words)` is the part of the trace line that describes the case;
/// `go(words)` runs it and gives the rest.
pub fn main(head: impl Fn(&[&str]) -> String, go: impl Fn(&[&str]) -> String) {
    let args: Vec<String> = std::env::args().collect();
    // bytes: Miri re-validates every &str it sees
    let text: Vec<u8> = std::fs::read(&args[1]).unwrap();
    let mut outf = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let shard: usize = args[3].parse().unwrap();
    let nshards: usize = args[4].parse().unwrap();
    let skip: usize = args[5].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        if let Some(t) = i.payload().downcast_ref::<String>() {
            if t.contains("harness:") {
                eprintln!("{i}");
                sig::stop();
            }
        }
        if let Some(t) = i.payload().downcast_ref::<&str>() {
            if t.contains("harness:") {
                eprintln!("{i}");
                sig::stop();
            }
        }
    }));
    sig::install(outf.as_raw_fd());
    let mut at = 0;
    let mut n = 0;
    while at < text.len() {
        let end = text[at..].iter().position(|b| *b == b'\n').map_or(text.len(), |k| at + k);
        let line = &text[at..end];
        at = end + 1;
        n += 1;
        let n = n - 1;
        if n % nshards != shard || n < skip {
            continue;
        }
        let w: Vec<&str> = line
            .split(|b| *b == b' ')
            .filter(|x| !x.is_empty())
            .map(|x| std::str::from_utf8(x).unwrap())
            .collect();
        let h = format!("{{\"id\":{n},{}", head(&w));
        let pend = "\"steps\":[{".to_string();
        if cfg!(miri) {
            eprintln!("CASE {n}");
        }
        sig::pending(&h, &pend);
        sig::deadline(30);
        let r = catch_unwind(AssertUnwindSafe(|| go(&w)));
        sig::idle();
        let body = match r {
            Ok(x) => x,
            Err(_) => "\"steps\":[{\"res\":\"panic\",\"w\":0}]".into(),
        };
        outf.write_all(format!("{h}{body}}}\n").as_bytes()).unwrap();
    }
    if cfg!(miri) {
        eprintln!("DONE");
    }
}
