//! Element ledger (who was created / dropped during the current call) and
//! fault injection (`tick`: the k-th call of caller supplied code panics).
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard};

pub struct Led {
    /// value of element `id` (index 0 unused)
    pub val: Vec<i32>,
    pub cr: Vec<u32>,
    pub dr: Vec<u32>,
    /// creations / drops of zero-sized elements
    pub zc: u64,
    pub zd: u64,
    pub over: bool,
}

static LED: Mutex<Led> =
    Mutex::new(Led { val: Vec::new(), cr: Vec::new(), dr: Vec::new(), zc: 0, zd: 0, over: false });
static FAULT: AtomicI64 = AtomicI64::new(0);
static FIRED: AtomicBool = AtomicBool::new(false);
static TICKS: AtomicU64 = AtomicU64::new(0);

pub struct Fault;

pub fn led() -> MutexGuard<'static, Led> {
    match LED.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn reset() {
    let mut l = led();
    l.val.clear();
    l.val.push(-1);
    l.cr.clear();
    l.dr.clear();
    l.zc = 0;
    l.zd = 0;
    l.over = false;
    disarm();
}

pub fn begin_op() {
    let mut l = led();
    l.cr.clear();
    l.dr.clear();
    l.zc = 0;
    l.zd = 0;
}

pub fn fresh(v: i32, limit: u32) -> u32 {
    let mut l = led();
    if l.val.is_empty() {
        l.val.push(-1);
    }
    let mut id = l.val.len() as u32;
    if id > limit {
        // too many elements for this element size: the scenario is cut here
        l.over = true;
        id = limit;
    } else {
        l.val.push(v);
    }
    l.cr.push(id);
    id
}

pub fn dropped(id: u32) {
    led().dr.push(id);
}

pub fn zcreated() {
    led().zc += 1;
}

pub fn zdropped() {
    led().zd += 1;
}

pub fn val(id: u32) -> i32 {
    let l = led();
    l.val.get(id as usize).copied().unwrap_or(-1)
}

pub fn known(id: u32) -> bool {
    id > 0 && (id as usize) < led().val.len()
}

pub fn set_val(id: u32, v: i32) {
    let mut l = led();
    if let Some(x) = l.val.get_mut(id as usize) {
        *x = v;
    }
}

/// the k-th tick from now panics
pub fn arm(k: i64) {
    FIRED.store(false, SeqCst);
    TICKS.store(0, SeqCst);
    FAULT.store(k, SeqCst);
}

pub fn disarm() -> bool {
    FAULT.store(0, SeqCst);
    FIRED.load(SeqCst)
}

pub fn ticks() -> u64 {
    TICKS.load(SeqCst)
}

/// called at every entry of caller supplied code
pub fn tick() {
    if std::thread::panicking() {
        return;
    }
    TICKS.fetch_add(1, SeqCst);
    if FAULT.load(SeqCst) > 0 && FAULT.fetch_sub(1, SeqCst) == 1 {
        FIRED.store(true, SeqCst);
        std::panic::panic_any(Fault);
    }
}
