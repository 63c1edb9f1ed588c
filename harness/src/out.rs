//! Minimal JSON writing.
use std::fmt::Write;

/// decimal, without the formatting machinery (which is slow under Miri)
pub fn put(s: &mut String, x: i64) {
    if (0..10).contains(&x) {
        s.push((b'0' + x as u8) as char);
        return;
    }
    let mut b = [0u8; 24];
    let mut i = 24;
    let mut u = x.unsigned_abs();
    while u > 0 {
        i -= 1;
        b[i] = b'0' + (u % 10) as u8;
        u /= 10;
    }
    if x < 0 {
        i -= 1;
        b[i] = b'-';
    }
    s.push_str(std::str::from_utf8(&b[i..]).unwrap());
}

pub fn int(x: i64) -> String {
    let mut s = String::new();
    put(&mut s, x);
    s
}

pub fn ids(v: &[u32]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        put(&mut s, *x as i64);
    }
    s.push(']');
    s
}

pub fn ints(v: &[i64]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        put(&mut s, *x);
    }
    s.push(']');
    s
}

pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

/// JSON string, escaped
pub fn text(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// characters as code points, for the TLA+ side
pub fn codes(t: &str) -> String {
    ints(&t.chars().map(|c| c as i64).collect::<Vec<_>>())
}

/// 64-bit value as little-endian base-4096 limbs (TLC integers are 32 bit)
pub fn limbs(mut x: u128) -> String {
    let mut s = String::with_capacity(16);
    s.push('[');
    while x > 0 {
        if s.len() > 1 {
            s.push(',');
        }
        put(&mut s, (x & 4095) as i64);
        x >>= 12;
    }
    s.push(']');
    s
}

/// JSON bytes, cheap to build even in an interpreter
pub struct J(pub Vec<u8>);
impl J {
    pub fn new() -> J {
        J(Vec::with_capacity(1 << 14))
    }
    pub fn raw(&mut self, t: &[u8]) -> &mut J {
        self.0.extend_from_slice(t);
        self
    }
    pub fn int(&mut self, x: i64) -> &mut J {
        if x >= 0 && x < 10 {
            self.0.push(b'0' + x as u8);
            return self;
        }
        let mut b = [0u8; 24];
        let mut i = 24;
        let mut u = x.unsigned_abs();
        while u > 0 {
            i -= 1;
            b[i] = b'0' + (u % 10) as u8;
            u /= 10;
        }
        if x < 0 {
            i -= 1;
            b[i] = b'-';
        }
        self.0.extend_from_slice(&b[i..]);
        self
    }
    pub fn ints(&mut self, v: &[i64]) -> &mut J {
        self.0.push(b'[');
        let mut k = 0;
        while k < v.len() {
            if k > 0 {
                self.0.push(b',');
            }
            self.int(v[k]);
            k += 1;
        }
        self.0.push(b']');
        self
    }
    pub fn limbs(&mut self, x: usize) -> &mut J {
        let mut x = x;
        self.0.push(b'[');
        let mut first = true;
        while x > 0 {
            if !first {
                self.0.push(b',');
            }
            first = false;
            self.int((x & 4095) as i64);
            x >>= 12;
        }
        self.0.push(b']');
        self
    }
    pub fn comma(&mut self) -> &mut J {
        if self.0.last() != Some(&b'[') {
            self.0.push(b',');
        }
        self
    }
    pub fn text(self) -> String {
        // only ASCII is ever pushed
        unsafe { String::from_utf8_unchecked(self.0) }
    }
}
impl Default for J {
    fn default() -> Self {
        J::new()
    }
}
