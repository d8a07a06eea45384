use crate::sym::*;
use imgproc_rs::enums::*;
use imgproc_rs::filter;
use imgproc_rs::image::*;
use imgproc_rs::util;

/// symbolic kernel entries, multiples of 1/8 in -1..1
fn kern(n: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push((range(17) as f32 - 8.0) / 8.0);
    }
    v
}
fn at(v: &[f32], d: Dim, x: i64, y: i64, k: u32) -> f64 {
    v[d.at(clampi(x, 0, d.w as i64 - 1) as u32, clampi(y, 0, d.h as i64 - 1) as u32, k)] as f64
}
fn check(o: &Image<f32>, d: Dim, tol: f64, e: &dyn Fn(i64, i64, u32) -> f64) {
    let ok = shape_is(o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for y in 0..d.h {
        for x in 0..d.w {
            for k in 0..d.c as u32 {
                close!(o.data()[d.at(x, y, k)], e(x as i64, y as i64, k), tol * spread(), "filtered value");
            }
        }
    }
    observe_imgf(o);
}
fn conv2(v: &[f32], d: Dim, kn: &[f64], n: i64, x: i64, y: i64, k: u32) -> f64 {
    let mut s = 0.0;
    for j in 0..n {
        for i in 0..n {
            s += kn[(j * n + i) as usize] * at(v, d, x + i - n / 2, y + j - n / 2, k);
        }
    }
    s
}
#[cfg(not(feature = "parallel"))]
fn apply(two: bool, w: &SubImage<f32>, o: &mut Vec<f32>, k: &[f32]) -> bool {
    if two { util::apply_2d_kernel(w, o, k) } else { util::apply_1d_kernel(w, o, k) }.is_ok()
}
#[cfg(feature = "parallel")]
fn apply(two: bool, w: &SubImage<f32>, o: &mut Vec<f32>, k: &[f32]) -> bool {
    match if two { util::apply_2d_kernel(w, k) } else { util::apply_1d_kernel(w, k) } {
        Ok(v) => {
            *o = v;
            true
        }
        Err(_) => false,
    }
}
/// P33: the helpers that apply a kernel to a window; cfg 0..3 the image, 4 window size, 5 kernel length, 6 direction or 2-D, 7 values already in the output
#[no_mangle]
pub fn h_p33_apply() {
    let d = dim(0);
    let (n, l, dir) = (cfgu(4), cfg(5) as usize, cfg(6));
    let (img, v) = imgf(d);
    let k = kern(l);
    let x = d.w / 2;
    let y = d.h - 1;
    let mut o: Vec<f32> = vec![7.0; cfg(7) as usize];
    let r = match dir {
        0 | 1 => apply(false, &img.get_neighborhood_1d(x, y, n, dir == 1), &mut o, &k),
        2 => apply(true, &img.get_neighborhood_2d(x, y, n), &mut o, &k),
        _ => apply(false, &img.get_subimage(0, 0, d.w, d.h), &mut o, &k),
    };
    let need = match dir {
        0 | 1 => n,
        2 => n * n,
        _ => d.w * d.h,
    } as usize;
    let valid = l % 2 == 1 && l == need;
    chk!(r == valid, "a kernel is accepted exactly when it is odd and as long as the window");
    if !valid || !r {
        return;
    }
    let ok = o.len() == d.c as usize;
    chk!(ok, "one value per channel");
    if !ok {
        return;
    }
    for c in 0..d.c as u32 {
        let mut s = 0.0;
        for i in 0..l as i64 {
            let (n, h) = (n as i64, n as i64 / 2);
            let p = match dir {
                0 => at(&v, d, x as i64 + i - h, y as i64, c),
                1 => at(&v, d, x as i64, y as i64 + i - h, c),
                2 => at(&v, d, x as i64 + i % n - h, y as i64 + i / n - h, c),
                _ => v[i as usize * d.c as usize + c as usize] as f64,
            };
            s += k[i as usize] as f64 * p;
        }
        close!(o[c as usize], s, 0.01, "weighted sum");
        observe_f(o[c as usize]);
    }
}
// ---------------------------------------------------------------- P15
#[no_mangle]
pub fn h_p15_1d() {
    let d = dim(0);
    let n = cfg(4);
    let vert = cfg(5) != 0;
    let (img, v) = imgf(d);
    let k = kern(n as usize);
    match filter::filter_1d(&img, &k, vert) {
        Err(_) => chk!(n % 2 == 0, "an odd kernel is an error"),
        Ok(o) => {
            chk!(n % 2 == 1, "an even kernel is accepted");
            if n % 2 == 0 {
                return;
            }
            check(&o, d, 0.01, &|x, y, c| {
                let mut s = 0.0;
                for i in 0..n {
                    let (dx, dy) = if vert { (0, i - n / 2) } else { (i - n / 2, 0) };
                    s += k[i as usize] as f64 * at(&v, d, x + dx, y + dy, c);
                }
                s
            });
        }
    }
}
#[no_mangle]
pub fn h_p15_sep() {
    let d = dim(0);
    let (n, m) = (cfg(4), cfg(5));
    let (img, v) = imgf(d);
    let kv = kern(n as usize);
    let kh = kern(m as usize);
    match filter::separable_filter(&img, &kv, &kh) {
        Err(_) => chk!(n % 2 == 0 || m % 2 == 0 || n != m, "valid kernels are an error"),
        Ok(o) => {
            let valid = n % 2 == 1 && n == m;
            chk!(valid, "invalid kernels are accepted");
            if !valid {
                return;
            }
            check(&o, d, 0.01, &|x, y, c| {
                let mut s = 0.0;
                for i in 0..n {
                    let mut t = 0.0;
                    for j in 0..n {
                        t += kv[j as usize] as f64 * at(&v, d, x + i - n / 2, y + j - n / 2, c);
                    }
                    s += kh[i as usize] as f64 * t;
                }
                s
            });
        }
    }
}
// ---------------------------------------------------------------- P16
#[no_mangle]
pub fn h_p16_2d() {
    let d = dim(0);
    let n = cfg(4);
    let (img, v) = imgf(d);
    let k = kern((n * n) as usize);
    let o = filter::unseparable_filter(&img, &k).unwrap();
    let k64: Vec<f64> = k.iter().map(|x| *x as f64).collect();
    check(&o, d, 0.01, &|x, y, c| conv2(&v, d, &k64, n, x, y, c));
}
fn kernel(i: i64) -> Vec<f32> {
    match i {
        0 => vec![1.0 / 16.0, 2.0 / 16.0, 1.0 / 16.0, 2.0 / 16.0, 4.0 / 16.0, 2.0 / 16.0, 1.0 / 16.0, 2.0 / 16.0, 1.0 / 16.0],
        1 => vec![0.0, -1.0, 0.0, -1.0, 5.0, -1.0, 0.0, -1.0, 0.0],
        2 => vec![-1.0, 0.0, 1.0, -2.0, 0.0, 2.0, -1.0, 0.0, 1.0],
        3 => vec![0.5, -0.25, 0.125, 1.0, 2.0, -3.0, 0.0, 0.75, 1.5],
        4 => vec![1.0 / 9.0; 9],
        5 => vec![0.0; 9],
        6 => vec![2.0],
        7 => (0..25).map(|i| (((i * 7 + 3) % 11) as f32 - 5.0) / 8.0).collect(),
        8 => (0..25).map(|i| [1.0, 4.0, 6.0, 4.0, 1.0][i % 5] * [1.0, 2.0, -3.0, 2.0, 0.5][i / 5] / 64.0).collect(),
        9 => vec![0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0],
        10 => vec![0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        // products of two 1-D kernels with one entry changed by a little, some or a lot
        12 => vec![1.0, 2.0, 1.0, 2.0, 4.0 + 1.0 / 16.0, 2.0, 1.0, 2.0, 1.0],
        13 => vec![1.0, 2.0, 1.0, 2.0, 4.25, 2.0, 1.0, 2.0, 1.0],
        14 => vec![1.0, 2.0, 1.0, 2.0, 5.0, 2.0, 1.0, 2.0, 1.0],
        15 => (0..25).map(|i| [1.0, 4.0, 6.0, 4.0, 1.0][i % 5] * [1.0, 2.0, -3.0, 2.0, 0.5][i / 5] / 64.0 + if i == 7 { 0.125 } else { 0.0 }).collect(),
        // two equal singular values; rank two; a rotation
        16 => vec![1.0, 0.0, 1.0, 0.0, 1.0, 0.0, 1.0, 0.0, 1.0],
        17 => vec![1.0, 1.0, 1.0, 2.0, 2.0, 2.0, 1.0, 1.0, 2.0],
        18 => vec![0.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0],
        19 => vec![1000.0 / 1024.0, 1.0 / 1024.0, 2.0 / 1024.0, 1.0 / 1024.0, 1.0 / 1024.0, 0.0, 0.0, 3.0 / 1024.0, 1.0 / 1024.0],
        11 => vec![-1.0, -2.0, -1.0, 0.0, 0.0, 0.0, 1.0, 2.0, 1.0],
        _ => vec![-0.5],
    }
}
#[no_mangle]
pub fn h_p16_linear() {
    let d = dim(0);
    let (img, v) = imgf(d);
    let k = kernel(cfg(4));
    let n = if k.len() == 1 {
        1
    } else if k.len() == 9 {
        3
    } else {
        5
    };
    let o = filter::linear_filter(&img, &k).unwrap();
    let k64: Vec<f64> = k.iter().map(|x| *x as f64).collect();
    check(&o, d, 0.02, &|x, y, c| conv2(&v, d, &k64, n, x, y, c));
}
#[no_mangle]
pub fn h_p16_len() {
    // kernels of every length: accepted exactly when odd and square
    let d = dim(0);
    let n = cfg(4);
    let (img, _v) = imgf(d);
    let k = vec![0.25; n as usize];
    let valid = n % 2 == 1 && (n == 1 || n == 9 || n == 25 || n == 49 || n == 81);
    let r = if cfg(5) == 0 { filter::unseparable_filter(&img, &k) } else { filter::linear_filter(&img, &k) };
    chk!(r.is_ok() == valid, "kernels of odd square length, and only those, are accepted");
    observe(r.is_ok() as u64);
}
#[no_mangle]
pub fn h_p16_box() {
    let d = dim(0);
    let n = cfg(4);
    let (img, v) = imgf(d);
    match filter::box_filter(&img, n as u32) {
        Err(_) => chk!(n % 2 == 0, "an odd size is an error"),
        Ok(o) => {
            chk!(n % 2 == 1, "an even size is accepted");
            if n % 2 == 1 {
                let k = vec![1.0 / (n * n) as f64; (n * n) as usize];
                check(&o, d, 0.01, &|x, y, c| conv2(&v, d, &k, n, x, y, c));
            }
        }
    }
}
#[no_mangle]
pub fn h_p16_weighted() {
    let d = dim(0);
    let n = cfg(4);
    let w = cfg(5);
    let (img, v) = imgf(d);
    match filter::weighted_avg_filter(&img, n as u32, w as u32) {
        Err(_) => chk!(n % 2 == 0, "an odd size is an error"),
        Ok(o) => {
            chk!(n % 2 == 1, "an even size is accepted");
            if n % 2 == 1 {
                let s = (n * n - 1 + w) as f64;
                let mut k = vec![1.0 / s; (n * n) as usize];
                k[(n * n / 2) as usize] = w as f64 / s;
                check(&o, d, 0.01, &|x, y, c| conv2(&v, d, &k, n, x, y, c));
            }
        }
    }
}
#[no_mangle]
pub fn h_p16_named() {
    let d = dim(0);
    let (img, v) = imgf(d);
    let sh = [0.0, -1.0, 0.0, -1.0, 5.0, -1.0, 0.0, -1.0, 0.0];
    let la = [0.0, -1.0, 0.0, -1.0, 4.0, -1.0, 0.0, -1.0, 0.0];
    let b = [1.0, 4.0, 6.0, 4.0, 1.0];
    match cfg(4) {
        0 => check(&filter::sharpen(&img).unwrap(), d, 0.01, &|x, y, c| conv2(&v, d, &sh, 3, x, y, c)),
        1 => check(&filter::laplacian(&img).unwrap(), d, 0.01, &|x, y, c| conv2(&v, d, &la, 3, x, y, c)),
        _ => {
            // original plus (original minus 5x5 Gaussian)
            let k: Vec<f64> = (0..25).map(|i| if i == 12 { 2.0 - 36.0 / 256.0 } else { -b[i % 5] * b[i / 5] / 256.0 }).collect();
            check(&filter::unsharp_masking(&img).unwrap(), d, 0.01, &|x, y, c| conv2(&v, d, &k, 5, x, y, c))
        }
    }
}
#[no_mangle]
pub fn h_p16_gauss() {
    // size, 8 * sigma, Laplacian of Gaussian?
    let d = dim(0);
    let n = cfg(4);
    let s = cfg(5) as f64 / 8.0;
    let log = cfg(6) != 0;
    let (img, v) = imgf(d);
    let r = if log { filter::laplacian_of_gaussian(&img, n as u32, s as f32) } else { filter::gaussian_blur(&img, n as u32, s as f32) };
    match r {
        Err(_) => chk!(n % 2 == 0, "an odd size is an error"),
        Ok(o) => {
            chk!(n % 2 == 1, "an even size is accepted");
            if n % 2 == 1 {
                let pi = std::f64::consts::PI;
                let m = n / 2;
                let k: Vec<f64> = (0..n * n)
                    .map(|i| {
                        let (x, y) = (i % n - m, i / n - m);
                        let e = -((x * x + y * y) as f64) / (2.0 * s * s);
                        if log {
                            -1.0 / (pi * s * s * s * s) * (1.0 + e) * e.exp()
                        } else {
                            e.exp() / (2.0 * pi * s * s)
                        }
                    })
                    .collect();
                check(&o, d, 0.05, &|x, y, c| conv2(&v, d, &k, n, x, y, c));
            }
        }
    }
}
// ---------------------------------------------------------------- P17
#[no_mangle]
pub fn h_p17_grad() {
    let d = dim(0);
    let (img, v) = imgf(d);
    gradient(d, img, v, cfg(4), cfg(5), 255.0 * spread());
}
/// larger weights: `cfg(6)` pixels from `cfg(7)` on (four apart) take 16 values each, the others are fixed
#[no_mangle]
pub fn h_p17_weight() {
    let d = dim(0);
    let (img, f) = few(d, cfgu(6) as usize, cfgu(7) as usize);
    gradient(d, img, f, cfg(4), cfg(5), 255.0);
}
fn few(d: Dim, ns: usize, st: usize) -> (Image<f32>, Vec<f32>) {
    let n = d.n();
    let a: &'static [u8] = &[0, 1, 2, 3, 17, 64, 85, 99, 127, 128, 129, 200, 250, 253, 254, 255];
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i >= st && (i - st) % 4 == 0 && (i - st) / 4 < ns { a[range(16) as usize] } else { ((i * 97 + 40) % 256) as u8 });
    }
    let mut f = Vec::with_capacity(n);
    for x in v.iter() {
        f.push(*x as f32);
    }
    (Image::from_vec(d.w, d.h, d.c, d.a, f.clone()), f)
}
/// small values, which have small gradients: k/cfg(6) for k in 0..cfg(7)
#[no_mangle]
pub fn h_p17_small() {
    let d = dim(0);
    let mut f = Vec::with_capacity(d.n());
    for _ in 0..d.n() {
        f.push(range(cfg(7) as u64) as f32 / cfg(6) as f32);
    }
    gradient(d, Image::from_vec(d.w, d.h, d.c, d.a, f.clone()), f, cfg(4), cfg(5), cfg(7) as f64 / cfg(6) as f64);
}
fn gradient(d: Dim, img: Image<f32>, v: Vec<f32>, op: i64, w: i64, m: f64) {
    let r = match op {
        0 => filter::prewitt(&img),
        1 => filter::sobel(&img),
        _ => filter::sobel_weighted(&img, w as u32),
    };
    let wt = match op {
        0 => 1.0,
        1 => 2.0,
        _ => w as f64,
    };
    let gray = d.nc() == 1;
    match r {
        Err(_) => chk!(!gray, "a grayscale image is an error"),
        Ok(o) => {
            chk!(gray, "an image that is not grayscale is accepted");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok || !gray {
                return;
            }
            for y in 0..d.h as i64 {
                for x in 0..d.w as i64 {
                    let p = |i: i64, j: i64| at(&v, d, x + i, y + j, 0);
                    let gx = (p(1, -1) - p(-1, -1)) + wt * (p(1, 0) - p(-1, 0)) + (p(1, 1) - p(-1, 1));
                    let gy = (p(-1, 1) - p(-1, -1)) + wt * (p(0, 1) - p(0, -1)) + (p(1, 1) - p(1, -1));
                    let r = o.data()[d.at(x as u32, y as u32, 0)];
                    chk!(r >= 0.0, "the magnitude is not negative");
                    let tol = (3e-5 + 1e-5 * (wt + 4.0) * (wt + 4.0)) * m * m;
                    close!(r as f64 * r as f64, gx * gx + gy * gy, tol, "squared gradient magnitude");
                    if d.a {
                        chk!(o.data()[d.at(x as u32, y as u32, 1)] == v[d.at(x as u32, y as u32, 1)] as f32, "alpha");
                    }
                }
            }
            observe_imgf(&o);
        }
    }
}
/// other masks: cfg(4) selects a pair of kernels
#[no_mangle]
pub fn h_p17_mask() {
    let d = dim(0);
    let (v, h): (&'static [f32], &'static [f32]) = match cfg(4) {
        0 => (&[3.0, 10.0, 3.0], &[-1.0, 0.0, 1.0]),
        1 => (&[1.0, 4.0, 6.0, 4.0, 1.0], &[-1.0, -2.0, 0.0, 2.0, 1.0]),
        2 => (&[1.0, 2.0, -3.0], &[-1.0, 0.5, 2.0]),
        3 => (&[2.0], &[-0.5]),
        4 => (&[0.0, 1.0, 0.0], &[0.0, -1.0, 1.0]),
        5 => (&[0.0, 0.0, 1.0, 0.0, 0.0], &[1.0, 0.0, 0.0, 0.0, -1.0]),
        6 => (&[1.0, 1.0], &[1.0, -1.0]),
        7 => (&[1.0, 1.0, 1.0], &[1.0, 0.0, 0.0, 0.0, -1.0]),
        _ => (&[1.0], &[1.0, 0.0, -1.0]),
    };
    let (img, px) = if cfg(5) == 0 { imgf(d) } else { few(d, cfgu(5) as usize, cfgu(6) as usize) };
    let gray = d.nc() == 1;
    let fit = v.len() % 2 == 1 && v.len() == h.len();
    let o = match filter::derivative_mask(&img, v, h) {
        Err(_) => {
            chk!(!gray || !fit, "a grayscale image is an error");
            return;
        }
        Ok(o) => o,
    };
    chk!(gray && fit, "an image that is not grayscale or a mask that does not fit is accepted");
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok || !gray || !fit {
        return;
    }
    let n = v.len() as i64;
    let mut sum = 0.0f64;
    for k in 0..n as usize {
        for l in 0..n as usize {
            sum += (v[k] * h[l]).abs() as f64;
        }
    }
    for y in 0..d.h as i64 {
        for x in 0..d.w as i64 {
            let (mut gx, mut gy) = (0.0f64, 0.0f64);
            for j in 0..n {
                for i in 0..n {
                    let p = at(&px, d, x + i - n / 2, y + j - n / 2, 0) as f64;
                    gx += v[j as usize] as f64 * h[i as usize] as f64 * p;
                    gy += h[j as usize] as f64 * v[i as usize] as f64 * p;
                }
            }
            let r = o.data()[d.at(x as u32, y as u32, 0)];
            chk!(r >= 0.0, "the magnitude is not negative");
            let m = 255.0 * spread() * (sum + 1.0);
            close!(r as f64 * r as f64, gx * gx + gy * gy, 1e-4 * m * m, "squared gradient magnitude");
            if d.a {
                chk!(o.data()[d.at(x as u32, y as u32, 1)] == px[d.at(x as u32, y as u32, 1)] as f32, "alpha");
            }
        }
    }
    observe_imgf(&o);
}
// ---------------------------------------------------------------- P18
fn thresh(m: i64) -> Thresh {
    match m {
        0 => Thresh::Binary,
        1 => Thresh::BinaryInv,
        2 => Thresh::Trunc,
        3 => Thresh::ToZero,
        _ => Thresh::ToZeroInv,
    }
}
#[no_mangle]
pub fn h_p18_thresh() {
    let d = dim(0);
    let m = cfg(4);
    let (img, v) = imgfb(d);
    let (t, mx) = (fbits(), fbits());
    let gray = d.nc() == 1;
    match filter::threshold(&img, t, mx, thresh(m)) {
        Err(_) => chk!(!gray, "a grayscale image is an error"),
        Ok(o) => {
            chk!(gray, "an image that is not grayscale is accepted");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok || !gray {
                return;
            }
            for k in 0..d.n() {
                let x = v[k];
                if d.a && k % 2 == 1 {
                    chk!(o.data()[k].to_bits() == x.to_bits(), "alpha");
                    continue;
                }
                let above = x > t;
                let e = match m {
                    0 => if above { mx } else { 0.0 },
                    1 => if above { 0.0 } else { mx },
                    2 => if above { t } else { x },
                    3 => if above { x } else { 0.0 },
                    _ => if above { 0.0 } else { x },
                };
                chk!(o.data()[k].to_bits() == e.to_bits(), "thresholded value");
            }
            observe_imgf(&o);
        }
    }
}
// ---------------------------------------------------------------- P21
#[no_mangle]
pub fn h_p21_residual() {
    let d = dim(0);
    let f = dim(4);
    let same = d.w == f.w && d.h == f.h && d.c == f.c && d.a == f.a;
    if cfg(8) == 0 {
        let (a, v) = imgf(d);
        // a large image has the same background: another order for the second
        let (b, w) = if large() {
            let mut w = contents(f.n());
            w.reverse();
            let w: Vec<f32> = w.iter().map(|x| *x as f32).collect();
            (Image::from_vec(f.w, f.h, f.c, f.a, w.clone()), w)
        } else {
            imgf(f)
        };
        match filter::residual(&a, &b) {
            Err(_) => chk!(!same, "equal shapes are an error"),
            Ok(o) => {
                chk!(same, "different shapes are accepted");
                let ok = shape_is(&o, d.w, d.h, d.c, d.a);
                chk!(ok, "shape");
                if ok && same {
                    for k in 0..d.n() {
                        chk!(o.data()[k] == v[k] as f32 - w[k] as f32, "difference");
                    }
                    observe_imgf(&o);
                }
            }
        }
    } else {
        let mk = |d: Dim| -> (Image<i32>, Vec<i32>) {
            let mut v = Vec::with_capacity(d.n());
            for _ in 0..d.n() {
                v.push(u32s() as i32 / 2);
            }
            (Image::from_vec(d.w, d.h, d.c, d.a, v.clone()), v)
        };
        let (a, v) = mk(d);
        let (b, w) = mk(f);
        match filter::residual(&a, &b) {
            Err(_) => chk!(!same, "equal shapes are an error"),
            Ok(o) => {
                chk!(same, "different shapes are accepted");
                let ok = shape_is(&o, d.w, d.h, d.c, d.a);
                chk!(ok, "shape");
                if ok && same {
                    for k in 0..d.n() {
                        chk!(o.data()[k] == v[k] - w[k], "difference");
                    }
                }
            }
        }
    }
}
#[no_mangle]
pub fn h_p21_normalize() {
    // three values: min and max are decided by the solver
    let n = cfg(0) as u64;
    let s = cfg(1);
    let sc = cfg(2) as f32 / 4.0;
    let w = cfgu(3);
    let mut v: Vec<i64> = Vec::with_capacity(w as usize);
    for _ in 0..w {
        v.push(range(n) as i64 + s);
    }
    let data: Vec<f32> = v.iter().map(|x| *x as f32 * sc).collect();
    let (mut lo, mut hi) = (v[0], v[0]);
    for x in &v {
        if *x < lo {
            lo = *x;
        }
        if *x > hi {
            hi = *x;
        }
    }
    assume(hi > lo);
    let o = filter::normalize_laplacian(&Image::from_vec(w, 1, 1, false, data)).unwrap();
    let ok = shape_is(&o, w, 1, 1, false);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for k in 0..w as usize {
        let r = o.data()[k] as i64;
        // |r - 255 (x - lo) / (hi - lo)| <= 1/2, up to float error
        let e = 2 * r * (hi - lo) - 510 * (v[k] - lo);
        chk!((e * 1000 <= 1001 * (hi - lo)) & (e * 1000 >= -1001 * (hi - lo)), "rounded linear position");
        chk!((v[k] != lo) | (r == 0), "the minimum becomes 0");
        chk!((v[k] != hi) | (r == 255), "the maximum becomes 255");
        for l in 0..w as usize {
            chk!((v[k] > v[l]) | (r <= o.data()[l] as i64), "order is kept");
        }
        observe(r as u64);
    }
}
#[no_mangle]
pub fn h_p21_gray() {
    let d = dim(0);
    let (img, _v) = imgf(d);
    let r = filter::normalize_laplacian(&img);
    chk!(r.is_ok() == (d.nc() == 1), "grayscale images, and only those, are accepted");
    observe(r.is_ok() as u64);
}
