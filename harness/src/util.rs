//! Summed-area tables, numeric helpers, generated kernels (P32-P34), vector kernels (P36), I/O (P38).
use crate::sym::*;
use imgproc_rs::image::*;
use imgproc_rs::util;

// ---------------------------------------------------------------- P32
fn direct(v: &[i64], d: Dim, x0: u32, y0: u32, x1: u32, y1: u32, k: u32) -> i64 {
    let mut s = 0;
    let mut y = y0;
    while y <= y1 {
        let mut x = x0;
        while x <= x1 {
            s += v[d.at(x, y, k)];
            x += 1;
        }
        y += 1;
    }
    s
}
fn p32<T: Number + PartialEq>(d: Dim, v: Vec<i64>, to: &dyn Fn(i64) -> T, obs: &dyn Fn(T)) {
    let data: Vec<T> = v.iter().map(|x| to(*x)).collect();
    let img = Image::from_vec(d.w, d.h, d.c, d.a, data);
    let o = util::generate_summed_area_table(&img);
    let i = o.info();
    let ok = (i.width == d.w) & (i.height == d.h) & (i.channels == d.c) & (i.alpha == d.a) & (o.data().len() == d.n());
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for y in 0..d.h {
        for x in 0..d.w {
            for k in 0..d.c as u32 {
                chk!(o.data()[d.at(x, y, k)] == to(direct(&v, d, 0, 0, x, y, k)), "entry is the sum above and to the left");
            }
        }
    }
    let (x0, y0) = (concrete(range(d.w as u64)) as u32, concrete(range(d.h as u64)) as u32);
    let x1 = x0 + concrete(range((d.w - x0) as u64)) as u32;
    let y1 = y0 + concrete(range((d.h - y0) as u64)) as u32;
    let s = util::rectangular_intensity_sum(&o, x0, y0, x1, y1);
    let ok = s.len() == d.c as usize;
    chk!(ok, "one sum per channel");
    if !ok {
        return;
    }
    for k in 0..d.c as usize {
        chk!(s[k] == to(direct(&v, d, x0, y0, x1, y1, k as u32)), "rectangle sum");
        obs(s[k]);
    }
}
/// large images: a concrete background below `cfg(5)` with symbolic values, rectangles with corners in the ranges given
fn p32_large<T: Number + PartialEq>(d: Dim, to: &dyn Fn(i64) -> T, obs: &dyn Fn(T)) {
    let m = cfg(5) as usize;
    let mut v: Vec<i64> = (0..d.n()).map(|i| ((i * 37 + (i >> 8) * 11) % m) as i64).collect();
    for k in 0..cfg(31) as usize {
        let p = (cfg(32) as usize + k * cfg(33) as usize) % d.n();
        v[p] = if cfg(31) < 3 { range(16) } else { range(m as u64) } as i64;
    }
    let img = Image::from_vec(d.w, d.h, d.c, d.a, v.iter().map(|x| to(*x)).collect::<Vec<T>>());
    let o = util::generate_summed_area_table(&img);
    let i = o.info();
    let ok = (i.width == d.w) & (i.height == d.h) & (i.channels == d.c) & (i.alpha == d.a) & (o.data().len() == d.n());
    chk!(ok, "shape");
    if !ok {
        return;
    }
    // sums of the columns so far, then along the row
    let mut t = vec![0i64; d.n()];
    let mut col = vec![0i64; d.w as usize * d.c as usize];
    for y in 0..d.h {
        for k in 0..d.c as u32 {
            let mut run = 0i64;
            for x in 0..d.w {
                let p = d.at(x, y, k);
                let q = (x * d.c as u32 + k) as usize;
                col[q] += v[p];
                run += col[q];
                t[p] = run;
                chk!(o.data()[p] == to(run), "entries are the sums above and to the left");
            }
        }
    }
    let (x0, y0) = (concrete(coord(0, 0) as u64) as u32, concrete(coord(0, 1) as u64) as u32);
    let x1 = cfgu(38) + concrete(range(cfg(39) as u64)) as u32;
    let y1 = cfgu(40) + concrete(range(cfg(41) as u64)) as u32;
    let s = util::rectangular_intensity_sum(&o, x0, y0, x1, y1);
    let ok = s.len() == d.c as usize;
    chk!(ok, "one sum per channel");
    if !ok {
        return;
    }
    for k in 0..d.c as u32 {
        let mut e = t[d.at(x1, y1, k)];
        if x0 > 0 {
            e -= t[d.at(x0 - 1, y1, k)];
        }
        if y0 > 0 {
            e -= t[d.at(x1, y0 - 1, k)];
        }
        if x0 > 0 && y0 > 0 {
            e += t[d.at(x0 - 1, y0 - 1, k)];
        }
        chk!(s[k as usize] == to(e), "rectangle sum");
        obs(s[k as usize]);
    }
}
#[no_mangle]
pub fn h_p32_large() {
    let d = dim(0);
    match cfg(4) {
        1 => p32_large::<u16>(d, &|x| x as u16, &|x| observe(x as u64)),
        2 => p32_large::<u32>(d, &|x| x as u32, &|x| observe(x as u64)),
        3 => p32_large::<i32>(d, &|x| x as i32, &|x| observe(x as u32 as u64)),
        4 => p32_large::<f32>(d, &|x| x as f32, &|x| observe_f(x)),
        _ => p32_large::<f64>(d, &|x| x as f64, &|x| observe(x.to_bits())),
    }
}
/// cfg 4: the value type. u8 and u16 totals may reach the largest value of the type
#[no_mangle]
pub fn h_p32_table() {
    let d = dim(0);
    let ty = cfg(4);
    let (bits, max) = match ty {
        0 => (8, 255),
        1 => (16, 65535),
        2 => (32, 4294967295),
        3 => (16, i64::MAX),
        _ => (8, i64::MAX),
    };
    let mut v = Vec::with_capacity(d.n());
    for _ in 0..d.n() {
        let x = unsafe { sym_bits(bits) } as i64;
        v.push(if ty == 3 { x - 32768 } else { x });
    }
    if ty < 3 {
        for k in 0..d.c as u32 {
            let t = direct(&v, d, 0, 0, d.w - 1, d.h - 1, k);
            assume(t <= max);
        }
    }
    match ty {
        0 => p32::<u8>(d, v, &|x| x as u8, &|x| observe(x as u64)),
        1 => p32::<u16>(d, v, &|x| x as u16, &|x| observe(x as u64)),
        2 => p32::<u32>(d, v, &|x| x as u32, &|x| observe(x as u64)),
        3 => p32::<i32>(d, v, &|x| x as i32, &|x| observe(x as u32 as u64)),
        4 => p32::<f32>(d, v, &|x| x as f32, &|x| observe_f(x)),
        _ => p32::<f64>(d, v, &|x| x as f64, &|x| observe(x.to_bits())),
    }
}
// ---------------------------------------------------------------- P33
/// cfg 0 the vector's length, 1 the matrix' length
#[no_mangle]
pub fn h_p33_mul() {
    let n = cfg(0) as usize;
    let l = cfg(1) as usize;
    let mut m = Vec::with_capacity(l);
    let mut v = Vec::with_capacity(n);
    for _ in 0..l {
        m.push(u8s() as i32 - 128);
    }
    for _ in 0..n {
        v.push(u8s() as i32 - 128);
    }
    let r = util::vector_mul(&m, &v);
    let mut out = vec![7i32; cfg(2) as usize];
    let r2 = util::vector_mul_mut(&m, &v, &mut out);
    let fits = l == n * n;
    chk!(r.is_ok() == fits && r2.is_ok() == fits, "an error exactly when the sizes do not match");
    if let Ok(o) = r {
        let ok = fits && o.len() == n && out.len() == n;
        chk!(ok, "length");
        if !ok {
            return;
        }
        for i in 0..n {
            let mut s = 0i32;
            for j in 0..n {
                s += m[i * n + j] * v[j];
            }
            chk!(o[i] == s, "vector_mul");
            chk!(out[i] == s, "vector_mul_mut");
            observe(o[i] as u32 as u64);
        }
    }
}
#[no_mangle]
pub fn h_p33_mulf() {
    let n = cfg(0) as usize;
    let q = |x: u64| x as f32 - 32.0;
    let mut m = Vec::with_capacity(n * n);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n * n {
        m.push(q(range(64)));
    }
    for _ in 0..n {
        v.push(q(range(64)));
    }
    let o = util::vector_mul(&m, &v).unwrap();
    let mut out = Vec::new();
    util::vector_mul_mut(&m, &v, &mut out).unwrap();
    for i in 0..n {
        let mut s = 0.0f64;
        for j in 0..n {
            s += m[i * n + j] as f64 * v[j] as f64;
        }
        close!(o[i], s, 0.01, "vector_mul");
        close!(out[i], s, 0.01, "vector_mul_mut");
        observe_f(o[i]);
    }
}
fn number() -> f32 {
    let x = fbits();
    assume(!x.is_nan());
    x
}
/// every non-NaN f32; the result is one of the arguments and none exceeds it
#[no_mangle]
pub fn h_p33_extreme() {
    let (a, b, c) = (number(), number(), number());
    match cfg(0) {
        0 => {
            let m = util::max_3(a, b, c);
            chk!((m >= a) & (m >= b) & (m >= c), "max_3 is an upper bound");
            chk!((m == a) | (m == b) | (m == c), "max_3 is an argument");
        }
        1 => {
            let m = util::min_3(a, b, c);
            chk!((m <= a) & (m <= b) & (m <= c), "min_3 is a lower bound");
            chk!((m == a) | (m == b) | (m == c), "min_3 is an argument");
        }
        2 => {
            let d = number();
            let m = util::max_4(a, b, c, d);
            chk!((m >= a) & (m >= b) & (m >= c) & (m >= d), "max_4 is an upper bound");
            chk!((m == a) | (m == b) | (m == c) | (m == d), "max_4 is an argument");
        }
        3 => {
            let d = number();
            let m = util::min_4(a, b, c, d);
            chk!((m <= a) & (m <= b) & (m <= c) & (m <= d), "min_4 is a lower bound");
            chk!((m == a) | (m == b) | (m == c) | (m == d), "min_4 is an argument");
        }
        _ => {
            let z = util::clamp_zero(a);
            chk!(if a > 0.0 { z == a } else { z == 0.0 }, "clamp_zero");
        }
    }
}
/// every index; the width is the parameter
#[no_mangle]
pub fn h_p33_coords() {
    let w = cfgu(0);
    let i = u32s();
    let (x, y) = util::get_2d_coords(i, w);
    chk!(x < w, "column below the width");
    chk!(y as u64 * w as u64 + x as u64 == i as u64, "row * width + column is the index");
    observe(x as u64);
    observe(y as u64);
}
#[no_mangle]
pub fn h_p33_distance() {
    let (bx, by) = (cfgu(0), cfgu(1));
    let (x, y) = (bx + range(64) as u32, by + range(64) as u32);
    let (px, py) = (cfgu(2), cfgu(3));
    let e = {
        let (a, b) = (x as f64 - px as f64, y as f64 - py as f64);
        (a * a + b * b).sqrt()
    };
    let t = 1e-6 * (128.0 + (bx as f64 + px as f64) + (by as f64 + py as f64));
    let g = util::distance(x, y, px, py);
    let h = util::distance(px, py, x, y);
    close!(g, e, t, "distance");
    chk!(g == h, "distance is symmetric");
    observe_f(g);
}
#[no_mangle]
pub fn h_p33_lookup() {
    let k = u8s();
    let mut t = [0u8; 256];
    util::generate_lookup_table(&mut t, |i| i.wrapping_mul(5) ^ k);
    let i = u8s();
    chk!(t[i as usize] == i.wrapping_mul(5) ^ k, "lookup table entry is the function value");
    let mut f = [0f32; 256];
    util::generate_lookup_table(&mut f, |i| i as f32 * 3.0 + 1.0);
    for i in 0..256 {
        chk!(f[i] == i as f32 * 3.0 + 1.0, "float lookup table");
    }
    observe(t[i as usize] as u64);
}
fn sinc(x: f64) -> f64 {
    let p = std::f64::consts::PI * x;
    if x == 0.0 {
        1.0
    } else {
        p.sin() / p
    }
}
/// the scalar weight functions at every multiple of 1/64 around zero
#[no_mangle]
pub fn h_p33_weights() {
    let x = (range(512) as f32 - 256.0) / 64.0;
    let z = x as f64;
    match cfg(0) {
        0 => {
            // the weight of offsets up to 2
            assume(x <= 2.0);
            let a = if z < 0.0 { -z } else { z };
            let e = if a < 1.0 {
                (3.0 * a * a * a - 6.0 * a * a + 4.0) / 6.0
            } else if a < 2.0 {
                (2.0 - a) * (2.0 - a) * (2.0 - a) / 6.0
            } else {
                0.0
            };
            let g = util::cubic_weighting_fn(x);
            close!(g, e, 1e-4, "cubic B-spline weight");
            observe_f(g);
        }
        1 => {
            let g = util::sinc_norm(x);
            close!(g, sinc(z), 1e-4, "normalised sinc");
            observe_f(g);
        }
        2 => {
            let a = cfg(1) as f32;
            let e = if z > -(a as f64) && z < a as f64 { sinc(z) * sinc(z / a as f64) } else { 0.0 };
            let g = util::lanczos_kernel(x, a);
            close!(g, e, 1e-4, "Lanczos window");
            observe_f(g);
        }
        _ => {
            let s = cfg(1) as f32 / 8.0;
            let s2 = s as f64 * s as f64;
            let e = (-z * z / (2.0 * s2)).exp() / (2.0 * std::f64::consts::PI * s2);
            let g = util::gaussian_fn(x, s).unwrap();
            close!(g, e, 1e-4, "Gaussian");
            observe_f(g);
        }
    }
}
#[no_mangle]
pub fn h_p33_args() {
    let s = fbits();
    assume(s < 0.0 || s.is_nan());
    chk!(util::gaussian_fn(1.0, s).is_err(), "a negative sigma is an error");
}
// ---------------------------------------------------------------- P34
/// cfg 0 which, 1 the size, 2 the first of 32 sigmas in eighths
#[no_mangle]
pub fn h_p34_kernel() {
    let which = cfg(0);
    let n = cfgu(1);
    let s = (cfg(2) as f32 + range(32) as f32) / 8.0;
    let r = match which {
        0 => util::generate_gaussian_kernel(n, s),
        1 => util::generate_log_kernel(n, s),
        _ => util::generate_spatial_mat(n, s),
    };
    match r {
        Err(_) => chk!(n % 2 == 0, "an odd size is an error"),
        Ok(k) => {
            chk!(n % 2 == 1, "an even size is accepted");
            if n % 2 == 0 {
                return;
            }
            let ok = k.len() == (n * n) as usize;
            chk!(ok, "kernel length");
            if !ok {
                return;
            }
            let h = (n / 2) as i32;
            let s2 = s as f64 * s as f64;
            let pi = std::f64::consts::PI;
            for j in 0..n as i32 {
                for i in 0..n as i32 {
                    let q = ((i - h) * (i - h) + (j - h) * (j - h)) as f64 / (2.0 * s2);
                    let e = if which == 1 { -(1.0 - q) * (-q).exp() / (pi * s2 * s2) } else { (-q).exp() / (2.0 * pi * s2) };
                    let g = k[(j * n as i32 + i) as usize];
                    close!(g, e, 1e-4, "kernel entry");
                    let t = k[(i * n as i32 + j) as usize];
                    let m = k[((n as i32 - 1 - j) * n as i32 + i) as usize];
                    chk!((g == t) & (g == m), "symmetry");
                    observe_f(g);
                }
            }
        }
    }
}
#[no_mangle]
pub fn h_p34_even() {
    let n = cfgu(0);
    let g = util::generate_gaussian_kernel(n, 1.0);
    let l = util::generate_log_kernel(n, 1.0);
    let s = util::generate_spatial_mat(n, 1.0);
    chk!(g.is_err() & l.is_err() & s.is_err(), "an even size is an error");
}
// ---------------------------------------------------------------- P36
#[cfg(feature = "simd")]
fn sat(v: i32) -> u8 {
    if v < 0 {
        0
    } else if v > 255 {
        255
    } else {
        v as u8
    }
}
#[cfg(feature = "simd")]
#[no_mangle]
pub fn h_p36_simd() {
    use imgproc_rs::simd;
    let d = dim(0);
    let which = cfg(4);
    let (img, v) = img8(d);
    let c = d.c as usize;
    if which < 2 {
        let b = if large() { cfg(6) as i16 } else { unsafe { sym_bits(16) as u16 as i16 } };
        assume((b >= -255) & (b <= 255));
        let n = cfg(5) as u8;
        let o = if which == 0 { unsafe { simd::adds_256_u8(&img, b) } } else { unsafe { simd::adds_n_256_u8(&img, b, n) } };
        let ok = shape_is(&o, d.w, d.h, d.c, d.a);
        chk!(ok, "shape");
        if !ok {
            return;
        }
        for i in 0..d.n() {
            let on = if which == 0 { !(d.a && i % c == c - 1) } else { n as usize >= c || i % c == n as usize };
            let e = if on { sat(v[i] as i32 + b as i32) } else { v[i] };
            chk!(o.data()[i] == e, "every output byte is the saturated sum or the input byte");
        }
        observe_img(&o);
    } else {
        let o = match which {
            2 => unsafe { simd::avg_256_u8(&img) },
            3 => unsafe { simd::avg_alpha_256_u8(&img) },
            _ => simd::avg_checked_256_u8(&img),
        };
        let oc = if d.a { 2 } else { 1 };
        let ok = shape_is(&o, d.w, d.h, oc, d.a);
        chk!(ok, "shape");
        if !ok {
            return;
        }
        for p in 0..(d.w * d.h) as usize {
            let s = (v[p * c] as u32 + v[p * c + 1] as u32 + v[p * c + 2] as u32) / 3;
            chk!(o.data()[p * oc as usize] as u32 == s, "every output byte is the average");
            if d.a {
                chk!(o.data()[p * 2 + 1] == v[p * c + 3], "every alpha byte is copied");
            }
        }
        observe_img(&o);
    }
}
#[cfg(not(feature = "simd"))]
#[no_mangle]
pub fn h_p36_simd() {}
/// the de-interleaving of one block at a symbolic offset
#[cfg(feature = "simd")]
#[target_feature(enable = "avx2")]
unsafe fn deinterleave() {
    use imgproc_rs::simd;
    use std::arch::x86_64::*;
    let d = dim(0);
    let (img, v) = img8(d);
    let c = d.c as usize;
    let at = concrete(range((d.n() - 32 * c) as u64 / c as u64 + 1)) as usize * c;
    let mut out = [[0u8; 32]; 4];
    if c == 3 {
        let (r, g, b) = simd::deinterleave_3_256_u8(&img, at);
        _mm256_storeu_si256(out[0].as_mut_ptr() as *mut _, r);
        _mm256_storeu_si256(out[1].as_mut_ptr() as *mut _, g);
        _mm256_storeu_si256(out[2].as_mut_ptr() as *mut _, b);
    } else {
        let (r, g, b, a) = simd::deinterleave_4_256_u8(&img, at);
        _mm256_storeu_si256(out[0].as_mut_ptr() as *mut _, r);
        _mm256_storeu_si256(out[1].as_mut_ptr() as *mut _, g);
        _mm256_storeu_si256(out[2].as_mut_ptr() as *mut _, b);
        _mm256_storeu_si256(out[3].as_mut_ptr() as *mut _, a);
    }
    for k in 0..c {
        for i in 0..32 {
            chk!(out[k][i] == v[at + i * c + k], "de-interleaved byte");
        }
    }
}
#[cfg(feature = "simd")]
#[no_mangle]
pub fn h_p36_deinterleave() {
    unsafe { deinterleave() }
}
#[cfg(not(feature = "simd"))]
#[no_mangle]
pub fn h_p36_deinterleave() {}
