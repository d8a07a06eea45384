//! Native execution of a harness function on concrete inputs.
//! usage: replay <harness> <cfg,..> <inputs,..> <avx2 0/1>
use std::alloc::{GlobalAlloc, Layout};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
/// every allocation ends (or begins) at an inaccessible page and starts filled with a pattern
struct Guard;
static ON: AtomicBool = AtomicBool::new(false);
static LOW: AtomicBool = AtomicBool::new(false);
static FILL: AtomicUsize = AtomicUsize::new(0xA5);
const PG: usize = 4096;
/// the system limits the number of mappings: beyond this many live allocations, further ones share one region
const MAX_LIVE: usize = 15000;
const REGION: usize = 1 << 32;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static SHARED: AtomicUsize = AtomicUsize::new(0);
static USED: AtomicUsize = AtomicUsize::new(0);
unsafe fn g_alloc(l: Layout, zero: bool) -> *mut u8 {
    let n = l.size();
    if n < 65536 && LIVE.load(Ordering::Relaxed) >= MAX_LIVE {
        if SHARED.load(Ordering::Relaxed) == 0 {
            SHARED.store(mmap(std::ptr::null_mut(), REGION, 3, 0x4022, -1, 0) as usize, Ordering::Relaxed);
        }
        let at = (USED.load(Ordering::Relaxed) + l.align() - 1) / l.align() * l.align();
        if SHARED.load(Ordering::Relaxed) as isize != -1 && at + n <= REGION {
            USED.store(at + n, Ordering::Relaxed);
            let p = (SHARED.load(Ordering::Relaxed) + at) as *mut u8;
            if !zero {
                std::ptr::write_bytes(p, FILL.load(Ordering::Relaxed) as u8, n);
            }
            return p;
        }
    }
    LIVE.fetch_add(1, Ordering::Relaxed);
    let body = (n + PG - 1) / PG * PG;
    let base = mmap(std::ptr::null_mut(), body + 2 * PG, 3, 0x22, -1, 0);
    if base as isize == -1 {
        return std::ptr::null_mut();
    }
    mprotect(base, PG, 0);
    mprotect(base.add(PG + body), PG, 0);
    let p = if LOW.load(Ordering::Relaxed) {
        base.add(PG)
    } else {
        let off = (body - n) / l.align() * l.align();
        base.add(PG + off)
    };
    if !zero {
        std::ptr::write_bytes(base.add(PG), FILL.load(Ordering::Relaxed) as u8, body);
    }
    p
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        g_alloc(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        g_alloc(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let r = SHARED.load(Ordering::Relaxed);
        if r != 0 && (p as usize) >= r && (p as usize) < r + REGION {
            return;
        }
        LIVE.fetch_sub(1, Ordering::Relaxed);
        let n = (l.size() + PG - 1) / PG * PG;
        let base = (p as usize / PG * PG - PG) as *mut u8;
        munmap(base, n + 2 * PG);
    }
}
#[global_allocator]
static G: Guard = Guard;

static mut CFG: Vec<i64> = Vec::new();
static mut INP: Vec<u64> = Vec::new();
static mut POS: usize = 0;
static mut PANIC: Option<bool> = None;
static mut FAILED: bool = false;
static mut NOBS: usize = 0;

fn fail(l: &str) {
    println!("FAIL {}", l);
    unsafe { FAILED = true };
}
unsafe fn label(l: *const u8) -> String {
    std::ffi::CStr::from_ptr(l as *const _).to_string_lossy().into_owned()
}
fn next() -> u64 {
    unsafe {
        #[allow(static_mut_refs)]
        let v = INP.get(POS).copied().unwrap_or(0);
        POS += 1;
        v
    }
}
#[no_mangle]
pub extern "C" fn sym_cfg(i: u64) -> i64 {
    #[allow(static_mut_refs)]
    unsafe {
        if i >= 30 && i as usize >= CFG.len() {
            return 0;
        }
        CFG[i as usize]
    }
}
#[no_mangle]
pub extern "C" fn sym_bits(w: u32) -> u64 {
    let v = next();
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
#[no_mangle]
pub extern "C" fn sym_range(n: u64) -> u64 {
    let v = next();
    if v >= n {
        n.saturating_sub(1)
    } else {
        v
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION false");
        std::process::exit(4);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_assert(c: bool, l: *const u8) {
    if !c {
        fail(&label(l));
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_close(a: f64, b: f64, t: f64, l: *const u8) {
    if !((a - b).abs() <= t || a == b) {
        fail(&format!("{} ({} vs {})", label(l), a, b));
    }
}
#[no_mangle]
pub extern "C" fn sym_panic_ok(c: bool) {
    unsafe { PANIC = Some(c) }
}
#[no_mangle]
pub extern "C" fn sym_returned() {
    unsafe {
        if PANIC == Some(true) {
            fail("returned where a panic is specified");
        }
        PANIC = None;
    }
}
#[no_mangle]
pub extern "C" fn sym_end_panic() {
    unsafe { PANIC = None }
}
#[no_mangle]
pub extern "C" fn sym_cover(_l: *const u8) {}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    unsafe {
        NOBS += 1;
        if NOBS <= 400 {
            println!("OBS {}", v);
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_split(c: bool) -> bool {
    c
}
#[no_mangle]
pub extern "C" fn sym_concrete(v: u64) -> u64 {
    v
}
#[repr(C)]
struct Shdr {
    name: u32,
    ty: u32,
    flags: u64,
    addr: u64,
    offset: u64,
    size: u64,
    link: u32,
    info: u32,
    align: u64,
    entsize: u64,
}
extern "C" {
    fn getauxval(t: u64) -> u64;
}
/// makes is_x86_feature_detected!("avx2") false by clearing its bit in the detection cache of std
unsafe fn hide_avx2() -> bool {
    if !std::arch::is_x86_feature_detected!("avx2") {
        return true;
    }
    let b = match std::fs::read("/proc/self/exe") {
        Ok(b) => b,
        Err(_) => return false,
    };
    let rd = |o: usize, n: usize| -> u64 { (0..n).fold(0u64, |a, i| a | (b[o + i] as u64) << (8 * i)) };
    let (shoff, shn) = (rd(0x28, 8) as usize, rd(0x3c, 2) as usize);
    let base = getauxval(9) - rd(0x18, 8); // AT_ENTRY minus the entry point of the file
    for s in 0..shn {
        let h = &*(b.as_ptr().add(shoff + s * 64) as *const Shdr);
        if h.ty != 2 {
            continue;
        }
        let st = rd(shoff + h.link as usize * 64 + 0x18, 8) as usize;
        for i in 0..(h.size / 24) as usize {
            let o = h.offset as usize + i * 24;
            let n = st + rd(o, 4) as usize;
            let e = (n..).find(|k| b[*k] == 0).unwrap();
            let name = String::from_utf8_lossy(&b[n..e]);
            if name.contains("std_detect") && name.contains("CACHE") {
                let (a, sz) = (base + rd(o + 8, 8), rd(o + 16, 8));
                for w in 0..sz / 8 {
                    let p = (a + 8 * w) as *mut u64;
                    for bit in 0..64 {
                        let old = std::ptr::read_volatile(p);
                        if old >> bit & 1 == 0 {
                            continue;
                        }
                        std::ptr::write_volatile(p, old & !(1 << bit));
                        if !std::arch::is_x86_feature_detected!("avx2") {
                            return true;
                        }
                        std::ptr::write_volatile(p, old);
                    }
                }
            }
        }
    }
    false
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Ok(v) = std::env::var("VF_FILL") {
        FILL.store(v.parse().unwrap(), Ordering::Relaxed);
    }
    if std::env::var("VF_LOW").is_ok() {
        LOW.store(true, Ordering::Relaxed);
    }
    ON.store(true, Ordering::Relaxed);
    unsafe {
        CFG = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        INP = a[3].split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u128>().unwrap() as u64).collect();
    }
    if a.get(4).map_or(false, |x| x == "0") && !unsafe { hide_avx2() } {
        println!("AVX2 cannot be hidden");
    }
    if std::env::var("VF_SHOW").is_ok() {
        println!("avx2 {}", std::arch::is_x86_feature_detected!("avx2"));
    }
    let f = vh::TABLE.iter().chain(vh::IO).find(|(n, _)| *n == a[1]).unwrap_or_else(|| panic!("no harness {}", a[1])).1;
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i)));
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    unsafe {
        if r.is_err() {
            match PANIC {
                Some(true) => println!("panic as specified"),
                _ => fail("panic"),
            }
        }
        if FAILED {
            std::process::exit(1);
        }
    }
    println!("OK");
}
