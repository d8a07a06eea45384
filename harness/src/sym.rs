//! Interface between harness functions and the symbolic engine (or the native replayer).
use imgproc_rs::image::{BaseImage, Image, ImageInfo};

extern "C" {
    pub fn sym_cfg(i: u64) -> i64;
    pub fn sym_bits(w: u32) -> u64;
    pub fn sym_range(n: u64) -> u64;
    pub fn sym_assume(c: bool);
    pub fn sym_assert(c: bool, l: *const u8);
    pub fn sym_close(a: f64, b: f64, t: f64, l: *const u8);
    pub fn sym_panic_ok(c: bool);
    pub fn sym_returned();
    pub fn sym_end_panic();
    pub fn sym_cover(l: *const u8);
    pub fn sym_observe(v: u64);
    pub fn sym_split(c: bool) -> bool;
    pub fn sym_concrete(v: u64) -> u64;
}
pub fn cfg(i: u64) -> i64 {
    unsafe { sym_cfg(i) }
}
pub fn cfgu(i: u64) -> u32 {
    cfg(i) as u32
}
pub fn u8s() -> u8 {
    unsafe { sym_bits(8) as u8 }
}
pub fn u32s() -> u32 {
    unsafe { sym_bits(32) as u32 }
}
pub fn range(n: u64) -> u64 {
    unsafe { sym_range(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn split(c: bool) -> bool {
    unsafe { sym_split(c) }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}
/// until `returned`, a panic is required exactly when `c` holds
pub fn panics_iff(c: bool) {
    unsafe { sym_panic_ok(c) }
}
pub fn returned() {
    unsafe { sym_returned() }
}
/// until `end_panic`, a panic is allowed when `c` holds
pub fn may_panic(c: bool) {
    unsafe { sym_panic_ok(c) }
}
pub fn end_panic() {
    unsafe { sym_end_panic() }
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $l:literal) => {{
        let c: bool = $c;
        unsafe { $crate::sym::sym_assert(c, concat!($l, "\0").as_ptr()) }
    }};
}
#[macro_export]
macro_rules! close {
    ($a:expr, $b:expr, $t:expr, $l:literal) => {{
        let (a, b): (f64, f64) = ($a as f64, $b as f64);
        unsafe { $crate::sym::sym_close(a, b, $t, concat!($l, "\0").as_ptr()) }
    }};
}
#[macro_export]
macro_rules! cover {
    ($l:literal) => {{
        unsafe { $crate::sym::sym_cover(concat!($l, "\0").as_ptr()) }
    }};
}
/// `n` arbitrary bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(u8s());
    }
    v
}
/// `n` values of a constant alphabet, chosen symbolically
pub fn alphabet(n: usize, a: &'static [u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(a[range(a.len() as u64) as usize]);
    }
    v
}
#[derive(Clone, Copy)]
pub struct Dim {
    pub w: u32,
    pub h: u32,
    pub c: u8,
    pub a: bool,
}
impl Dim {
    pub fn n(&self) -> usize {
        (self.w * self.h) as usize * self.c as usize
    }
    pub fn nc(&self) -> u8 {
        if self.a {
            self.c - 1
        } else {
            self.c
        }
    }
    pub fn at(&self, x: u32, y: u32, k: u32) -> usize {
        ((y * self.w + x) * self.c as u32 + k) as usize
    }
    pub fn info(&self) -> ImageInfo {
        ImageInfo { width: self.w, height: self.h, channels: self.c, alpha: self.a }
    }
}
/// dimensions from four consecutive job parameters
pub fn dim(i: u64) -> Dim {
    Dim { w: cfgu(i), h: cfgu(i + 1), c: cfg(i + 2) as u8, a: cfg(i + 3) != 0 }
}
pub fn mk(d: Dim, v: Vec<u8>) -> Image<u8> {
    Image::from_vec(d.w, d.h, d.c, d.a, v)
}
/// Large images (parameter 30 set): a concrete background that distinguishes positions, in which `cfg(31)` bytes
/// from `cfg(32)` on, `cfg(33)` apart, are symbolic
pub fn large() -> bool {
    cfg(30) != 0
}
fn large_at(k: usize, n: usize) -> usize {
    (cfg(32) as usize + k * cfg(33) as usize) % n
}
pub fn contents(n: usize) -> Vec<u8> {
    if !large() {
        return bytes(n);
    }
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((i * 37 + (i >> 8) * 11 + (i >> 16) * 5) as u8);
    }
    for k in 0..cfg(31) as usize {
        v[large_at(k, n)] = u8s();
    }
    v
}
/// a coordinate below `n`, on large images in the range given by the parameters (34, 35 for x and 36, 37 for y)
pub fn coord(n: u32, axis: u64) -> u32 {
    if large() {
        return cfgu(34 + 2 * axis) + range(cfg(35 + 2 * axis) as u64) as u32;
    }
    range(n as u64) as u32
}
/// an image of arbitrary bytes together with a copy of them
pub fn img8(d: Dim) -> (Image<u8>, Vec<u8>) {
    let v = contents(d.n());
    (mk(d, v.clone()), v)
}
pub fn shape_is<T: imgproc_rs::image::Number>(o: &Image<T>, w: u32, h: u32, c: u8, a: bool) -> bool {
    let i = o.info();
    (i.width == w) & (i.height == h) & (i.channels == c) & (i.alpha == a) & (o.data().len() == w as usize * h as usize * c as usize)
}
/// record up to a few output bytes for trace validation
pub fn observe_img(o: &Image<u8>) {
    let i = o.info();
    observe(i.width as u64);
    observe(i.height as u64);
    observe(i.channels as u64);
    for b in o.data().iter().take(64) {
        observe(*b as u64);
    }
}
pub fn clampi(v: i64, lo: i64, hi: i64) -> i64 {
    if v < lo {
        lo
    } else if v > hi {
        hi
    } else {
        v
    }
}

/// any f32 bit pattern
pub fn fbits() -> f32 {
    f32::from_bits(u32s())
}
/// an f32 image of arbitrary bit patterns (for operations that only move values)
pub fn imgfb(d: Dim) -> (Image<f32>, Vec<f32>) {
    let mut v = Vec::with_capacity(d.n());
    if large() {
        for i in 0..d.n() {
            v.push(f32::from_bits((i as u32).wrapping_mul(0x9e3779b1)));
        }
        for k in 0..cfg(31) as usize {
            v[large_at(k, d.n())] = fbits();
        }
    } else {
        for _ in 0..d.n() {
            v.push(fbits());
        }
    }
    (Image::from_vec(d.w, d.h, d.c, d.a, v.clone()), v)
}
/// an f32 image whose values are arbitrary integers 0..=255, or (parameter 46 set) the values byte * p46 / 8 + p47
pub fn imgf(d: Dim) -> (Image<f32>, Vec<f32>) {
    let v = contents(d.n());
    let mut f = Vec::with_capacity(d.n());
    let (s, o) = (cfg(46), cfg(47));
    for b in &v {
        f.push(if s == 0 { *b as f32 } else { (*b as i64 * s + o * 8) as f32 / 8.0 });
    }
    (Image::from_vec(d.w, d.h, d.c, d.a, f.clone()), f)
}
/// how much larger than 255 the values of `imgf` are
pub fn spread() -> f64 {
    if cfg(46) == 0 {
        1.0
    } else {
        1.0 + (cfg(46).abs() as f64 * 32.0 + cfg(47).abs() as f64) / 256.0
    }
}
pub fn observe_f(v: f32) {
    observe(v.to_bits() as u64)
}
pub fn observe_imgf(o: &Image<f32>) {
    let i = o.info();
    observe(i.width as u64);
    observe(i.height as u64);
    observe(i.channels as u64);
    for b in o.data().iter().take(64) {
        observe_f(*b);
    }
}
