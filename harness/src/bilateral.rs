//! The bilateral filter (P35).
use crate::color::chan;
use crate::sym::*;
use imgproc_rs::colorspace as cs;
use imgproc_rs::enums::*;
use imgproc_rs::filter;
use imgproc_rs::image::*;

fn params(i: u64) -> (f32, f32) {
    (cfg(i) as f32 / 16.0, cfg(i + 1) as f32 / 16.0)
}
/// the size of the window: the odd number at or above 4 * spatial + 1
fn window(spatial: f32) -> i64 {
    let n = (spatial * 4.0 + 1.0) as i64;
    if n % 2 == 0 {
        n + 1
    } else {
        n
    }
}
/// a flat image: cfg 0-3 layout, 4-6 the colour, 7-8 range and spatial
#[no_mangle]
pub fn h_p35_flat() {
    let d = dim(0);
    let p = [chan(cfg(4)), chan(cfg(5)), chan(cfg(6)), 77];
    let mut v = Vec::with_capacity(d.n());
    for _ in 0..(d.w * d.h) {
        v.extend_from_slice(&p[..d.c as usize]);
    }
    let (r, s) = params(7);
    let o = filter::bilateral_filter(&mk(d, v.clone()), r, s, Bilateral::Direct).unwrap();
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for i in 0..d.n() {
        let e = o.data()[i] as i32 - v[i] as i32;
        chk!((e <= 1) & (e >= -1), "a flat image stays flat");
    }
    observe_img(&o);
}
/// the stated weighted average: one pixel varies
#[no_mangle]
pub fn h_p35_average() {
    let d = dim(0);
    let c = d.c as usize;
    let mut v: Vec<u8> = (0..d.n()).map(|i| ((i * 67 + i / 3 * 31) % 256) as u8).collect();
    let at = cfg(9) as usize * c;
    for k in 0..3 {
        v[at + k] = chan(cfg(4 + k as u64));
    }
    let (r, s) = params(7);
    let img = mk(d, v);
    let o = filter::bilateral_filter(&img, r, s, Bilateral::Direct).unwrap();
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let lab = cs::srgb_to_lab_f32(&img, &White::D65);
    let n = window(s);
    let (r2, s2) = (2.0 * r as f64 * r as f64, 2.0 * s as f64 * s as f64);
    let mut avg = Vec::with_capacity(d.n());
    for y in 0..d.h as i64 {
        for x in 0..d.w as i64 {
            for k in 0..d.c as u32 {
                let here = lab.data()[d.at(x as u32, y as u32, k)] as f64;
                let (mut sum, mut total) = (0.0f64, 0.0f64);
                for j in 0..n {
                    for i in 0..n {
                        let (dx, dy) = (i - n / 2, j - n / 2);
                        let q = lab.data()[d.at(clampi(x + dx, 0, d.w as i64 - 1) as u32, clampi(y + dy, 0, d.h as i64 - 1) as u32, k)] as f64;
                        let w = (-((dx * dx + dy * dy) as f64) / s2).exp() * (-(q - here) * (q - here) / r2).exp();
                        sum += w * q;
                        total += w;
                    }
                }
                avg.push((sum / total) as f32);
            }
        }
    }
    let e = cs::lab_to_srgb_f32(&Image::from_vec(d.w, d.h, d.c, d.a, avg), &White::D65);
    for i in 0..d.n() {
        let t = o.data()[i] as i32 - e.data()[i] as i32;
        chk!((t <= 1) & (t >= -1), "the weighted average of the window");
    }
    observe_img(&o);
}
#[no_mangle]
pub fn h_p35_args() {
    let img = mk(Dim { w: 2, h: 1, c: 3, a: false }, vec![1, 2, 3, 4, 5, 6]);
    let x = fbits();
    assume(x < 0.0 || x.is_nan());
    let r = if cfg(0) == 0 { filter::bilateral_filter(&img, x, 0.5, Bilateral::Direct) } else { filter::bilateral_filter(&img, 1.0, x, Bilateral::Direct) };
    chk!(r.is_err(), "a negative or undefined parameter is an error");
}
