use crate::sym::*;
use imgproc_rs::colorspace as cs;
use imgproc_rs::enums::White;
use imgproc_rs::image::*;

pub use crate::chan::chan;
fn max3(p: &[u8]) -> i32 {
    let mut m = p[0];
    if p[1] > m {
        m = p[1];
    }
    if p[2] > m {
        m = p[2];
    }
    m as i32
}
fn min3(p: &[u8]) -> i32 {
    let mut m = p[0];
    if p[1] < m {
        m = p[1];
    }
    if p[2] < m {
        m = p[2];
    }
    m as i32
}
pub fn white(i: i64) -> White {
    if i == 0 {
        White::D50
    } else {
        White::D65
    }
}
// ---------------------------------------------------------------- P24
#[no_mangle]
pub fn h_p24_gray() {
    let d = dim(0);
    let (img, v) = img8(d);
    let o = cs::rgb_to_grayscale(&img);
    let oc = if d.a { 2 } else { 1 };
    let ok = shape_is(&o, d.w, d.h, oc, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let n = d.nc() as u32;
    for p in 0..(d.w * d.h) as usize {
        let mut s = 0u32;
        for k in 0..n as usize {
            s += v[p * d.c as usize + k] as u32;
        }
        let g = o.data()[p * oc as usize] as u32;
        chk!((g * n <= s) & (s < g * n + n), "average rounded down");
        if d.a {
            chk!(o.data()[p * 2 + 1] == v[p * d.c as usize + n as usize], "alpha kept");
        }
    }
    observe_img(&o);
}
#[no_mangle]
pub fn h_p24_grayf() {
    let d = dim(0);
    let (img, v) = imgf(d);
    let o = cs::rgb_to_grayscale_f32(&img);
    let oc = if d.a { 2 } else { 1 };
    let ok = shape_is(&o, d.w, d.h, oc, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let n = d.nc() as usize;
    for p in 0..(d.w * d.h) as usize {
        let mut s = 0.0f64;
        for k in 0..n {
            s += v[p * d.c as usize + k] as f64;
        }
        close!(o.data()[p * oc as usize], s / n as f64, 1e-3 * spread(), "average");
        if d.a {
            chk!(o.data()[p * 2 + 1] == v[p * d.c as usize + n] as f32, "alpha kept");
        }
    }
    observe_imgf(&o);
}
// ---------------------------------------------------------------- P25
/// a concrete pixel followed by the one under study; cfg `i`..`i`+3 are its channel modes
pub fn pixel2(d: Dim, i: u64, other: [u8; 3]) -> (Image<u8>, Vec<u8>) {
    let mut v = Vec::with_capacity(8);
    v.extend_from_slice(&other);
    if d.a {
        v.push(77);
    }
    for k in 0..3 {
        v.push(chan(cfg(i + k)));
    }
    if d.a {
        v.push(u8s());
    }
    (mk(d, v.clone()), v)
}
fn order(p: &[u8], m: i64) {
    // restrict to one ordering of the channels (to split the work), 0..5
    let (a, b, c) = (p[0], p[1], p[2]);
    match m {
        0 => assume((a >= b) & (b >= c)),
        1 => assume((a >= c) & (c > b)),
        2 => assume((b > a) & (a >= c)),
        3 => assume((b >= c) & (c > a)),
        4 => assume((c > a) & (a >= b)),
        5 => assume((c > b) & (b > a)),
        _ => {}
    }
}
#[no_mangle]
pub fn h_p25_forward() {
    let a = cfg(0) != 0;
    let d = Dim { w: 2, h: 1, c: 3 + a as u8, a };
    let (img, v) = pixel2(d, 1, [200, 10, 90]);
    let o = cs::rgb_to_hsv(&img);
    let ok = shape_is(&o, 2, 1, d.c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    let p = &v[c..c + 3];
    order(p, cfg(4));
    let q = &o.data()[c..];
    let (mx, mn) = (max3(p), min3(p));
    let rg = mx - mn;
    let (h, s, va) = (q[0] as i32, q[1] as i32, q[2] as i32);
    chk!(va == mx, "value is the maximum");
    chk!((mx == 0) & (s == 0) | (s * mx <= 255 * rg) & (255 * rg < s * mx + mx), "saturation is 255 * range / maximum");
    let (r, g, b) = (p[0] as i32, p[1] as i32, p[2] as i32);
    // hue of the sextant around the dominant channel, within one unit, modulo 255
    let near = |num: i32, base: i32| {
        let e = (h - base) * rg - 43 * num;
        let t = 255 * rg;
        ((e < rg) & (e > -rg)) | ((e - t < rg) & (e - t > -rg)) | ((e + t < rg) & (e + t > -rg))
    };
    let okr = (r == mx) & near(g - b, 0);
    let okg = (g == mx) & near(b - r, 85);
    let okb = (b == mx) & near(r - g, 170);
    chk!((rg == 0) & (h == 0) | (rg != 0) & (okr | okg | okb), "hue of the dominant channel");
    if a {
        chk!(q[3] == v[7], "alpha kept");
    }
    observe_img(&o);
}
#[no_mangle]
pub fn h_p25_inverse() {
    let a = cfg(0) != 0;
    let d = Dim { w: 2, h: 1, c: 3 + a as u8, a };
    let (img, v) = pixel2(d, 1, [43, 255, 200]);
    let o = cs::hsv_to_rgb(&img);
    let ok = shape_is(&o, 2, 1, d.c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    let p = &v[c..c + 3];
    let q = &o.data()[c..];
    let (mx, mn) = (max3(q), min3(q));
    let (s, va) = (p[1] as i32, p[2] as i32);
    chk!(mx == va, "maximum is the value channel");
    let e = mn * 255 - va * (255 - s);
    chk!((e <= 0) & (e > -255), "minimum is value * (255 - saturation) / 255");
    // the dominant and the smallest channel follow the sextant
    let sx = p[0] as i32 / 43;
    let (top, low) = match sx {
        0 => (q[0], q[2]),
        1 => (q[1], q[2]),
        2 => (q[1], q[0]),
        3 => (q[2], q[0]),
        4 => (q[2], q[1]),
        _ => (q[0], q[1]),
    };
    chk!((top as i32 == mx) & (low as i32 == mn), "dominant channel of the sextant");
    if a {
        chk!(q[3] == v[7], "alpha kept");
    }
    observe_img(&o);
}
#[no_mangle]
pub fn h_p25_round() {
    let a = cfg(0) != 0;
    let d = Dim { w: 2, h: 1, c: 3 + a as u8, a };
    let (img, v) = pixel2(d, 1, [200, 10, 90]);
    let o = cs::hsv_to_rgb(&cs::rgb_to_hsv(&img));
    let ok = shape_is(&o, 2, 1, d.c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    let p = &v[c..c + 3];
    order(p, cfg(4));
    let q = &o.data()[c..];
    let mx = max3(p);
    chk!(max3(q) == mx, "same maximum");
    let gray = mx == min3(p);
    for k in 0..3 {
        let e = q[k] as i32 - p[k] as i32;
        chk!((e <= 18) & (e >= -18), "round trip within 18");
        chk!(!gray | (e == 0), "gray is exact");
    }
    if a {
        chk!(q[3] == v[7], "alpha kept");
    }
    observe_img(&o);
}
#[no_mangle]
pub fn h_p25_gray() {
    let a = cfg(0) != 0;
    let c = 3 + a as u8;
    let d = Dim { w: 2, h: 2, c, a };
    let mut v = Vec::new();
    for _ in 0..4 {
        let g = u8s();
        v.extend_from_slice(&[g, g, g]);
        if a {
            v.push(u8s());
        }
    }
    let img = mk(d, v.clone());
    let h = cs::rgb_to_hsv(&img);
    let o = cs::hsv_to_rgb(&h);
    for i in 0..v.len() {
        let k = i % c as usize;
        chk!((k >= 2) | (h.data()[i] == 0), "gray has zero hue and saturation");
        chk!((k < 2) | (h.data()[i] == v[i]), "gray keeps its value and alpha");
        chk!(o.data()[i] == v[i], "gray is exact");
    }
    observe_img(&o);
}
// ---------------------------------------------------------------- P26
#[no_mangle]
pub fn h_p26() {
    let a = cfg(0) != 0;
    let d = Dim { w: 2, h: 1, c: 3 + a as u8, a };
    let (img, v) = pixel2(d, 1, [200, 10, 90]);
    let f = cs::rgb_to_hsv_f32(&img);
    let o = cs::hsv_to_rgb_f32(&f);
    let ok = shape_is(&f, 2, 1, d.c, a) && shape_is(&o, 2, 1, d.c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    let p = &v[c..c + 3];
    let q = &f.data()[c..];
    let (mx, mn) = (max3(p), min3(p));
    let rg = mx - mn;
    close!(q[2], mx as f64 / 255.0, 1e-5, "value is the maximum");
    let (h, s) = (q[0] as f64, q[1] as f64);
    close!(s * mx as f64, rg as f64, 1e-3, "saturation is range / maximum");
    chk!((h >= 0.0) & (h <= 1.0), "hue in 0..1");
    let (r, g, b) = (p[0] as i32, p[1] as i32, p[2] as i32);
    let e = h * 6.0 * rg as f64;
    let near = |num: i32, base: i32| {
        let t = e - (num + base * rg) as f64;
        let full = (6 * rg) as f64;
        ((t < 0.01) & (t > -0.01)) | ((t - full < 0.01) & (t - full > -0.01))
    };
    let okr = (r == mx) & near(g - b, 0);
    let okg = (g == mx) & near(b - r, 2);
    let okb = (b == mx) & near(r - g, 4);
    chk!((rg == 0) & (h == 0.0) & (s == 0.0) | (rg != 0) & (okr | okg | okb), "hue of the dominant channel");
    let back = &o.data()[c..];
    chk!(max3(back) == mx, "same maximum");
    for k in 0..3 {
        let e = back[k] as i32 - p[k] as i32;
        chk!((e <= 1) & (e >= -1), "round trip within 1");
        chk!((rg != 0) | (e == 0), "gray is exact");
    }
    if a {
        close!(q[3], v[7] as f64 / 255.0, 1e-6, "alpha scaled");
        chk!(back[3] == v[7], "alpha comes back");
    }
    observe_img(&o);
    observe_imgf(&f);
}
// ---------------------------------------------------------------- P27
#[no_mangle]
pub fn h_p27_lin() {
    let d = dim(0);
    let (img, v) = img8(d);
    let l = cs::linearize_srgb_f32(&img);
    let u = cs::unlinearize_srgb_f32(&l);
    let ok = shape_is(&l, d.w, d.h, d.c, d.a) && shape_is(&u, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let nc = d.nc() as usize;
    let c = d.c as usize;
    for i in 0..d.n() {
        let x = l.data()[i];
        let e = u.data()[i] as i32 - v[i] as i32;
        if i % c >= nc {
            chk!((x == v[i] as f32) & (e == 0), "alpha kept");
            continue;
        }
        let y = v[i] as f32;
        let r = if v[i] <= 10 { y / 3294.0 } else { ((y + 14.025) / 269.025).powf(2.2) };
        close!(x, r, 2e-5, "linearisation curve");
        chk!((v[i] != 0) | (x == 0.0), "black is 0");
        chk!((v[i] != 255) | (x > 0.9999) & (x < 1.0001), "white is 1");
        chk!((e <= 1) & (e >= -1), "round trip within 1");
        if i >= c {
            let j = i - c;
            chk!((v[j] > v[i]) | (l.data()[j] <= x), "monotone");
            chk!((v[j] >= v[i]) | (l.data()[j] < x), "strictly monotone");
        }
    }
    observe_imgf(&l);
    observe_img(&u);
}
const M: [f64; 9] = [0.4124564, 0.3575761, 0.1804375, 0.2126729, 0.7151522, 0.0721750, 0.0193339, 0.1191920, 0.9503041];
const MI: [f64; 9] = [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252];
/// matrix products on linear values v / 255, all channels symbolic
#[no_mangle]
pub fn h_p27_mat() {
    let a = cfg(0) != 0;
    let c = 3 + a as u8;
    let d = Dim { w: 2, h: 1, c, a };
    let v = bytes(d.n());
    let mut f = Vec::new();
    for x in &v {
        f.push(*x as f32 / 256.0);
    }
    let img: Image<f32> = Image::from_vec(2, 1, c, a, f.clone());
    let inv = cfg(1) != 0;
    let o = if inv { cs::xyz_to_srgb_lin_f32(&img) } else { cs::srgb_lin_to_xyz_f32(&img) };
    let ok = shape_is(&o, 2, 1, c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let m = if inv { &MI } else { &M };
    for p in 0..2usize {
        let b = p * c as usize;
        for i in 0..3 {
            let mut s = 0.0;
            for j in 0..3 {
                s += m[3 * i + j] * (v[b + j] as f64 / 256.0);
            }
            close!(o.data()[b + i], s, 1e-4, "matrix product");
        }
        if a {
            chk!(o.data()[b + 3] == f[b + 3], "alpha kept");
        }
    }
    observe_imgf(&o);
}
/// lightness of gray pixels
#[no_mangle]
pub fn h_p27_gray() {
    let a = cfg(0) != 0;
    let c = 3 + a as usize;
    let d = Dim { w: 2, h: 1, c: c as u8, a };
    let (g0, g1) = (u8s(), u8s());
    let mut v = Vec::new();
    for g in [g0, g1] {
        v.extend_from_slice(&[g, g, g]);
        if a {
            v.push(u8s());
        }
    }
    let img = mk(d, v.clone());
    let o = cs::srgb_to_lab_f32(&img, &white(cfg(1)));
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let (l0, l1) = (o.data()[0], o.data()[c]);
    chk!((g0 > g1) | (l0 <= l1), "lightness is monotone");
    chk!((g0 >= g1) | (l0 < l1), "lightness is strictly monotone");
    chk!((g0 != 0) | (l0 > -0.01) & (l0 < 0.01), "black has lightness 0");
    chk!((g0 != 255) | (l0 > 99.9) & (l0 < 100.1), "white has lightness 100");
    if cfg(1) == 1 {
        chk!((o.data()[1] < 0.02) & (o.data()[1] > -0.02) & (o.data()[2] < 0.02) & (o.data()[2] > -0.02), "gray is neutral under the sRGB white");
    }
    if a {
        chk!((o.data()[3] == v[3] as f32) & (o.data()[7] == v[7] as f32), "alpha kept");
    }
    observe_imgf(&o);
}
fn lab_f(t: f32) -> f32 {
    if t > 216.0 / 24389.0 {
        t.powf(1.0 / 3.0)
    } else {
        t * (841.0 / 108.0) + 4.0 / 29.0
    }
}
/// Lab of a pixel: formula, inverse and the composed conversions
#[no_mangle]
pub fn h_p27_lab() {
    let a = cfg(0) != 0;
    let d = Dim { w: 2, h: 1, c: 3 + a as u8, a };
    let (img, v) = pixel2(d, 1, [200, 10, 90]);
    let wi = cfg(4);
    let w = white(wi);
    let xyz = cs::srgb_to_xyz_f32(&img);
    let lab = cs::xyz_to_lab_f32(&xyz, &w);
    let back = cs::lab_to_xyz_f32(&lab, &w);
    let ok = shape_is(&lab, d.w, d.h, d.c, a) && shape_is(&back, d.w, d.h, d.c, a) && shape_is(&xyz, d.w, d.h, d.c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    let wn: [f32; 3] = if wi == 0 { [96.4212, 100.0, 82.5188] } else { [95.0489, 100.0, 108.8840] };
    let lin = cs::linearize_srgb_f32(&img);
    let (l, x, y, b) = (&lin.data()[c..], &xyz.data()[c..], &lab.data()[c..], &back.data()[c..]);
    for i in 0..3 {
        let mut s = 0.0f64;
        for j in 0..3 {
            s += M[3 * i + j] * l[j] as f64;
        }
        close!(x[i], s, 1e-4, "XYZ is the matrix product of the linear values");
        close!(b[i], x[i], 1e-4, "Lab to XYZ is the inverse");
    }
    let f: [f32; 3] = [lab_f(x[0] * 100.0 / wn[0]), lab_f(x[1] * 100.0 / wn[1]), lab_f(x[2] * 100.0 / wn[2])];
    close!(y[0], 116.0 * f[1] - 16.0, 1e-2, "L*");
    close!(y[1], 500.0 * (f[0] - f[1]), 1e-2, "a*");
    close!(y[2], 200.0 * (f[1] - f[2]), 1e-2, "b*");
    if a {
        let e = v[7] as f32;
        chk!((x[3] == e) & (y[3] == e) & (b[3] == e), "alpha kept");
    }
    observe_imgf(&lab);
}
#[no_mangle]
pub fn h_p27_round() {
    let a = cfg(0) != 0;
    let d = Dim { w: 2, h: 1, c: 3 + a as u8, a };
    let (img, v) = pixel2(d, 1, [200, 10, 90]);
    let w = white(cfg(4));
    let o = if cfg(5) != 0 { cs::xyz_to_srgb_f32(&cs::srgb_to_xyz_f32(&img)) } else { cs::lab_to_srgb_f32(&cs::srgb_to_lab_f32(&img, &w), &w) };
    let ok = shape_is(&o, d.w, d.h, d.c, a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    for k in 0..3 {
        let e = o.data()[c + k] as i32 - v[c + k] as i32;
        chk!((e <= 1) & (e >= -1), "round trip within 1");
    }
    if a {
        chk!(o.data()[7] == v[7], "alpha kept");
    }
    observe_img(&o);
}
