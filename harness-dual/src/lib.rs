//! The multithreaded build against the sequential one (P37): both compiled from /repo, run on the
//! same symbolic image, the parallel items evaluated in several orders.
#![allow(clippy::all)]
#[macro_use]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[path = "../../harness/src/chan.rs"]
pub mod color;
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs_par::image::{BaseImage as BaseP, Image as ImageP};
use sym::*;

/// cfg 0-2: forwards, backwards, odd items first; 3: every permutation of n items
fn order(i: u64, n: usize) {
    let o = cfg(i);
    if o < 3 {
        rayon::order::set(o as u32);
        return;
    }
    let mut rest: Vec<usize> = (0..n).collect();
    let mut p = Vec::with_capacity(n);
    while !rest.is_empty() {
        let k = concrete(range(rest.len() as u64)) as usize;
        p.push(rest.remove(k));
    }
    rayon::order::set_perm(p);
    rayon::order::set(100);
}
macro_rules! same {
    ($r:expr, $p:expr) => {{
        match ($r, $p) {
            (Ok(r), Ok(p)) => {
                let (a, b) = (r.info(), p.info());
                let ok = a.width == b.width && a.height == b.height && a.channels == b.channels && a.alpha == b.alpha && r.data().len() == p.data().len();
                chk!(ok, "same dimensions, channels and alpha flag");
                if ok {
                    for i in 0..r.data().len() {
                        chk!(r.data()[i] == p.data()[i], "same value");
                    }
                }
            }
            (r, p) => chk!(r.is_err() == p.is_err(), "same error outcome"),
        }
    }};
}
fn kern(n: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push((range(17) as f32 - 8.0) / 8.0);
    }
    v
}
fn pair(d: Dim) -> (Image<f32>, ImageP<f32>) {
    let v = bytes(d.n());
    let mut f = Vec::with_capacity(d.n());
    for b in &v {
        f.push(*b as f32);
    }
    (Image::from_vec(d.w, d.h, d.c, d.a, f.clone()), ImageP::from_vec(d.w, d.h, d.c, d.a, f))
}
fn pairb(d: Dim) -> (Image<f32>, ImageP<f32>, Vec<f32>) {
    let (a, v) = imgfb(d);
    (a, ImageP::from_vec(d.w, d.h, d.c, d.a, v.clone()), v)
}
fn f32bits(r: &[f32]) -> Vec<u32> {
    r.iter().map(|x| x.to_bits()).collect()
}
struct Bits {
    i: (u32, u32, u8, bool),
    d: Vec<u32>,
}
fn bits(o: Image<f32>) -> Bits {
    let i = o.info();
    Bits { i: (i.width, i.height, i.channels, i.alpha), d: f32bits(o.data()) }
}
fn bitsp(o: ImageP<f32>) -> Bits {
    let i = o.info();
    Bits { i: (i.width, i.height, i.channels, i.alpha), d: f32bits(o.data()) }
}
fn same_bits(a: Bits, b: Bits) {
    let ok = a.i == b.i && a.d.len() == b.d.len();
    chk!(ok, "same dimensions, channels and alpha flag");
    if ok {
        for i in 0..a.d.len() {
            chk!(a.d[i] == b.d[i], "same value");
        }
        for x in &a.d {
            observe(*x as u64);
        }
    }
}
/// cropping to a symbolic rectangle; cfg 4 the order
#[no_mangle]
pub fn h_p37_crop() {
    let d = dim(0);
    let (a, b, _) = pairb(d);
    order(4, d.w as usize * d.h as usize);
    let (x, y) = (concrete(range(d.w as u64 + 1)) as u32, concrete(range(d.h as u64 + 1)) as u32);
    let (w, h) = (concrete(range(d.w as u64 + 1)) as u32, concrete(range(d.h as u64 + 1)) as u32);
    match (imgproc_rs::transform::crop(&a, x, y, w, h), imgproc_rs_par::transform::crop(&b, x, y, w, h)) {
        (Ok(r), Ok(p)) => same_bits(bits(r), bitsp(p)),
        (r, p) => chk!(r.is_err() == p.is_err(), "same error outcome"),
    }
}
/// cfg 4 order, 5 the method, 6..8 the factors times 1/8
#[no_mangle]
pub fn h_p37_scale() {
    let d = dim(0);
    let (fx, fy) = (cfg(6) as f32 / 8.0, cfg(7) as f32 / 8.0);
    let on = (d.w as f32 * fx).round() as usize * (d.h as f32 * fy).round() as usize;
    order(4, on);
    let m = cfg(5);
    use imgproc_rs::enums::Scale as S;
    use imgproc_rs_par::enums::Scale as P;
    if m == 0 {
        let (a, b, _) = pairb(d);
        match (imgproc_rs::transform::scale(&a, fx, fy, S::NearestNeighbor), imgproc_rs_par::transform::scale(&b, fx, fy, P::NearestNeighbor)) {
            (Ok(r), Ok(p)) => same_bits(bits(r), bitsp(p)),
            (r, p) => chk!(r.is_err() == p.is_err(), "same error outcome"),
        }
        return;
    }
    let (a, b) = pair(d);
    match m {
        1 => same!(imgproc_rs::transform::scale(&a, fx, fy, S::Bilinear), imgproc_rs_par::transform::scale(&b, fx, fy, P::Bilinear)),
        2 => same!(imgproc_rs::transform::scale(&a, fx, fy, S::Bicubic), imgproc_rs_par::transform::scale(&b, fx, fy, P::Bicubic)),
        _ => {
            let n = (m - 2) as u32;
            same!(imgproc_rs::transform::scale_lanczos(&a, fx, fy, n), imgproc_rs_par::transform::scale_lanczos(&b, fx, fy, n))
        }
    }
}
/// cfg 4 order, 5 the operation, 6 a size
#[no_mangle]
pub fn h_p37_filter() {
    let d = dim(0);
    order(4, d.w as usize * d.h as usize);
    let (a, b) = pair(d);
    let n = cfg(6) as usize;
    use imgproc_rs::filter as s;
    use imgproc_rs_par::filter as p;
    match cfg(5) {
        0 => {
            let k = kern(n);
            same!(s::filter_1d(&a, &k, true), p::filter_1d(&b, &k, true))
        }
        1 => {
            let k = kern(n);
            same!(s::filter_1d(&a, &k, false), p::filter_1d(&b, &k, false))
        }
        2 => {
            let (k, l) = (kern(n), kern(n));
            same!(s::separable_filter(&a, &k, &l), p::separable_filter(&b, &k, &l))
        }
        3 => {
            let k = kern(n * n);
            same!(s::unseparable_filter(&a, &k), p::unseparable_filter(&b, &k))
        }
        4 => same!(s::box_filter(&a, n as u32), p::box_filter(&b, n as u32)),
        5 => same!(s::weighted_avg_filter(&a, n as u32, 3), p::weighted_avg_filter(&b, n as u32, 3)),
        6 => same!(s::gaussian_blur(&a, n as u32, 1.25), p::gaussian_blur(&b, n as u32, 1.25)),
        7 => same!(s::sharpen(&a), p::sharpen(&b)),
        8 => same!(s::unsharp_masking(&a), p::unsharp_masking(&b)),
        9 => same!(s::laplacian(&a), p::laplacian(&b)),
        10 => same!(s::laplacian_of_gaussian(&a, n as u32, 1.25), p::laplacian_of_gaussian(&b, n as u32, 1.25)),
        11 => same!(s::sobel(&a), p::sobel(&b)),
        _ => same!(s::prewitt(&a), p::prewitt(&b)),
    }
}
/// one pixel of the image varies; cfg 4 order, 5..7 its channels, 8-9 range and spatial in sixteenths
#[no_mangle]
pub fn h_p37_bilateral() {
    let d = dim(0);
    order(4, d.w as usize * d.h as usize);
    let mut v: Vec<u8> = (0..d.n()).map(|i| ((i * 67 + i / 3 * 31) % 256) as u8).collect();
    for k in 0..3 {
        v[k] = color::chan(cfg(5 + k as u64));
    }
    let (r, s) = (cfg(8) as f32 / 16.0, cfg(9) as f32 / 16.0);
    let a = Image::from_vec(d.w, d.h, d.c, d.a, v.clone());
    let b = ImageP::from_vec(d.w, d.h, d.c, d.a, v);
    same!(imgproc_rs::filter::bilateral_filter(&a, r, s, imgproc_rs::enums::Bilateral::Direct), imgproc_rs_par::filter::bilateral_filter(&b, r, s, imgproc_rs_par::enums::Bilateral::Direct))
}
pub static TABLE: &[(&str, fn())] = &[("h_p37_crop", h_p37_crop), ("h_p37_scale", h_p37_scale), ("h_p37_filter", h_p37_filter), ("h_p37_bilateral", h_p37_bilateral)];
pub static IO: &[(&str, fn())] = &[];
