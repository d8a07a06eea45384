//! Brightness, saturation, contrast, gamma, histogram equalisation (P28-P31, P39).
use crate::color::{chan, white};
use crate::sym::*;
use imgproc_rs::colorspace as cs;
use imgproc_rs::image::*;
use imgproc_rs::{tone, util};
use std::collections::HashMap;

/// an i16: any when the parameter is 9999, one of 16 around it when it is at least 10000, otherwise the parameter
fn amount(m: i64) -> i16 {
    if m == 9999 {
        unsafe { sym_bits(16) as u16 as i16 }
    } else if m >= 10000 {
        (m - 20000) as i16 + range(16) as i16
    } else {
        m as i16
    }
}
fn mix(i: usize) -> u8 {
    let x = i as u32;
    (x.wrapping_mul(151).wrapping_add(x / 7 * 13) ^ (x >> 2)) as u8
}
fn clamp8(v: i32) -> i32 {
    if v < 0 {
        0
    } else if v > 255 {
        255
    } else {
        v
    }
}
// ---------------------------------------------------------------- P28
/// contents symbolic (cfg 5 = 0) or every byte value in turn (1); cfg 4 the bias
#[no_mangle]
pub fn h_p28_brightness() {
    let d = dim(0);
    let v = if cfg(5) == 0 {
        contents(d.n())
    } else {
        (0..d.n()).map(|i| i as u8).collect()
    };
    let img = mk(d, v.clone());
    let b = amount(cfg(4));
    let inside = split((b >= -255) & (b <= 255));
    match tone::brightness(&img, b) {
        Err(_) => chk!(!inside, "a bias between -255 and 255 is accepted"),
        Ok(o) => {
            chk!(inside, "another bias is an error");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            for i in 0..d.n() {
                let alpha = d.a && i % d.c as usize == d.c as usize - 1;
                let want = if alpha { v[i] as i32 } else { clamp8(v[i] as i32 + b as i32) };
                chk!(o.data()[i] as i32 == want, "clamp(value + bias), alpha kept");
            }
            observe_img(&o);
        }
    }
}
// ---------------------------------------------------------------- P29
/// cfg 4..7 the channels of the pixel under study, 7 its index, 8 the amount
#[no_mangle]
pub fn h_p29_saturation() {
    let d = dim(0);
    let c = d.c as usize;
    let mut v: Vec<u8> = (0..d.n()).map(mix).collect();
    let at = cfg(7) as usize * c;
    for k in 0..3 {
        v[at + k] = chan(cfg(4 + k as u64));
    }
    if d.a {
        v[at + 3] = u8s();
    }
    let img = mk(d, v.clone());
    let s = amount(cfg(8));
    let inside = split((s >= -255) & (s <= 255));
    match tone::saturation(&img, s) {
        Err(_) => chk!(!inside, "an amount between -255 and 255 is accepted"),
        Ok(o) => {
            chk!(inside, "another amount is an error");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            let mut hsv = cs::rgb_to_hsv(&img).data().to_vec();
            for p in 0..(d.w * d.h) as usize {
                hsv[p * c + 1] = clamp8(hsv[p * c + 1] as i32 + s as i32) as u8;
            }
            let w = cs::hsv_to_rgb(&mk(d, hsv));
            for i in 0..d.n() {
                chk!(o.data()[i] == w.data()[i], "saturation edited in HSV");
                if d.a && i % c == c - 1 {
                    chk!(o.data()[i] == v[i], "alpha kept");
                }
            }
            observe_img(&o);
        }
    }
}
// ---------------------------------------------------------------- P30
/// every byte value, gain any multiple of 1/256
#[no_mangle]
pub fn h_p30_gain() {
    let d = dim(0);
    let v: Vec<u8> = (0..d.n()).map(|i| i as u8).collect();
    let g = range(257) as i32;
    match tone::contrast(&mk(d, v.clone()), g as f32 / 256.0) {
        Err(_) => chk!(false, "a gain between 0 and 1 is accepted"),
        Ok(o) => {
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            for i in 0..d.n() {
                let alpha = d.a && i % d.c as usize == d.c as usize - 1;
                let want = if alpha { v[i] as i32 } else { (2 * v[i] as i32 * g + 256) / 512 };
                chk!(o.data()[i] as i32 == want, "round(value * gain), alpha kept");
            }
            observe_img(&o);
        }
    }
}
/// symbolic contents, gain a bit pattern
#[no_mangle]
pub fn h_p30_contrast() {
    let d = dim(0);
    let (img, v) = img8(d);
    let g = f32::from_bits(cfg(4) as u32);
    match tone::contrast(&img, g) {
        Err(_) => chk!(false, "a gain between 0 and 1 is accepted"),
        Ok(o) => {
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            for i in 0..d.n() {
                if d.a && i % d.c as usize == d.c as usize - 1 {
                    chk!(o.data()[i] == v[i], "alpha kept");
                } else {
                    close!(o.data()[i], v[i] as f64 * g as f64, 0.50002, "round(value * gain)");
                }
            }
            observe_img(&o);
        }
    }
}
/// which arguments are accepted: any bit pattern
#[no_mangle]
pub fn h_p30_args() {
    let d = Dim { w: 0, h: 1, c: 3, a: false };
    let img = mk(d, vec![]);
    let f = fbits();
    match cfg(0) {
        0 => {
            let inside = split((f >= 0.0) & (f <= 1.0));
            let r = tone::contrast(&img, f);
            chk!(r.is_ok() == inside, "gains between 0 and 1, and only those, are accepted");
        }
        _ => {
            let inside = split(f >= 0.0);
            let r = tone::gamma(&img, f, 255);
            chk!(r.is_ok() == inside, "non-negative gammas, and only those, are accepted");
        }
    }
}
/// cfg 4 the gamma (bit pattern), 5 the maximum
#[no_mangle]
pub fn h_p30_gamma() {
    let d = dim(0);
    let (img, v) = img8(d);
    let g = f32::from_bits(cfg(4) as u32);
    let max = cfg(5) as u8;
    match tone::gamma(&img, g, max) {
        Err(_) => chk!(false, "a non-negative gamma is accepted"),
        Ok(o) => {
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            let mut first = None;
            for i in 0..d.n() {
                if d.a && i % d.c as usize == d.c as usize - 1 {
                    chk!(o.data()[i] == v[i], "alpha kept");
                    continue;
                }
                let q = o.data()[i] as i32;
                if max > 0 {
                    let x = (v[i] as f64 / max as f64).powf(g as f64) * max as f64;
                    let lo = x - 0.501 <= q as f64;
                    let hi = (q as f64 <= x + 0.501) & ((q < 255) | (x >= 254.49));
                    chk!((lo & hi) | ((q == 255) & (x >= 254.49)), "rounded power curve");
                    chk!((g != 1.0) | (q == v[i] as i32), "gamma 1 is the identity");
                }
                if let Some((fv, fq)) = first {
                    let (fv, fq): (u8, i32) = (fv, fq);
                    chk!((max == 0) | (v[i] < fv) | (q >= fq), "monotone");
                } else {
                    first = Some((v[i], q));
                }
            }
            observe_img(&o);
        }
    }
}
// ---------------------------------------------------------------- P31
/// lightness values range(n)*step + offset (cfg 4, 5, 6 in 1/16), precision cfg 7 (1/16)
#[no_mangle]
pub fn h_p31_percentiles() {
    let d = dim(0);
    let (n, step, off) = (cfg(4) as u64, cfg(5), cfg(6));
    let prec = cfg(7) as f32 / 16.0;
    let np = (d.w * d.h) as usize;
    let c = d.c as usize;
    let mut f = vec![0.0f32; d.n()];
    let mut q = Vec::new();
    for p in 0..np {
        let x = range(n) as i64 * step + off;
        q.push(x);
        f[p * c] = x as f32 / 16.0;
        for k in 1..c {
            f[p * c + k] = (p * 3 + k) as f32;
        }
    }
    let img = Image::from_vec(d.w, d.h, d.c, d.a, f);
    // the nearest integer to lightness * precision, halves away from zero
    let key = |x: i64| {
        let y = x * cfg(7);
        if y >= 0 {
            (y + 128) / 256
        } else {
            -((128 - y) / 256)
        }
    };
    let mut m = HashMap::new();
    util::generate_histogram_percentiles(&img, &mut m, prec);
    let mut top = false;
    for i in 0..np {
        let k = key(q[i]);
        let mut le = 0i32;
        for j in 0..np {
            le += (key(q[j]) <= k) as i32;
        }
        match m.get(&(k as i32)) {
            None => chk!(false, "every occurring lightness has an entry"),
            Some(v) => {
                close!(*v, le as f64 / np as f64, 1e-6, "fraction of pixels with at most that lightness");
                top |= *v == 1.0;
            }
        }
        let mut fresh = true;
        for j in 0..i {
            fresh &= key(q[j]) != k;
        }
        if split(fresh) {
            q[i] = q[i]; // counted below
        }
    }
    chk!(top | (np == 0), "the brightest pixel has 1");
    let mut distinct = 0usize;
    for i in 0..np {
        let mut fresh = true;
        for j in 0..i {
            fresh &= key(q[j]) != key(q[i]);
        }
        distinct += fresh as usize;
    }
    chk!(m.len() == distinct, "one entry per occurring lightness");
}
/// many pixels: a concrete background of seven lightness values (multiples of 7, some negative), of which `cfg(4)` pixels
/// from `cfg(5)` on, `cfg(6)` apart, take any of five of them
#[no_mangle]
pub fn h_p31_many() {
    let d = dim(0);
    let np = (d.w * d.h) as usize;
    let c = d.c as usize;
    let value = |k: i64| k * 7 - 14;
    let mut q: Vec<i64> = (0..np).map(|p| value(((p * 5 + p / 11 + p / 300) % 7) as i64)).collect();
    for k in 0..cfg(4) as usize {
        q[(cfg(5) as usize + k * cfg(6) as usize) % np] = value(range(5) as i64);
    }
    let mut f = vec![3.0f32; d.n()];
    for p in 0..np {
        f[p * c] = q[p] as f32;
    }
    let mut m = HashMap::new();
    util::generate_histogram_percentiles(&Image::from_vec(d.w, d.h, d.c, d.a, f), &mut m, 1.0);
    for k in 0..7 {
        let x = value(k);
        let (mut le, mut here) = (0i64, 0i64);
        for y in &q {
            le += (*y <= x) as i64;
            here += (*y == x) as i64;
        }
        match m.get(&(x as i32)) {
            None => chk!(here == 0, "every occurring lightness has an entry"),
            Some(v) => {
                chk!(here > 0, "an entry of a lightness that does not occur");
                close!(*v, le as f64 / np as f64, 1e-6, "fraction of pixels with at most that lightness");
            }
        }
    }
    chk!(m.len() <= 7, "one entry per occurring lightness");
}
/// an image of concrete pixels and one under study (cfg 4..7 its channels); cfg 7 alpha (1/4), 8 precision (1/16), 9 white
#[no_mangle]
pub fn h_p31_equalize() {
    let d = dim(0);
    let c = d.c as usize;
    let mut v: Vec<u8> = (0..d.n()).map(mix).collect();
    for k in 0..3 {
        v[c * cfg(10) as usize + k] = chan(cfg(4 + k as u64));
    }
    let img = mk(d, v.clone());
    let al = cfg(7) as f32 / 4.0;
    let prec = cfg(8) as f32 / 16.0;
    let w = white(cfg(9));
    match tone::histogram_equalization(&img, al, &w, prec) {
        Err(_) => chk!(false, "valid arguments are accepted"),
        Ok(o) => {
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            let lab = cs::srgb_to_lab_f32(&img, &w);
            let np = (d.w * d.h) as usize;
            let mut l = lab.data().to_vec();
            for i in 0..np {
                let x = lab.data()[i * c];
                let k = (x * prec).round() as i32;
                let mut le = 0i32;
                for j in 0..np {
                    le += ((lab.data()[j * c] * prec).round() as i32 <= k) as i32;
                }
                l[i * c] = al * (le as f32 / np as f32) * 100.0 + (1.0 - al) * x;
            }
            let want = cs::lab_to_srgb_f32(&Image::from_vec(d.w, d.h, d.c, d.a, l), &w);
            for i in 0..d.n() {
                let e = o.data()[i] as i32 - want.data()[i] as i32;
                chk!((e <= 1) & (e >= -1), "lightness moved towards its percentile");
                if al == 0.0 {
                    let e = o.data()[i] as i32 - v[i] as i32;
                    chk!((e <= 1) & (e >= -1), "strength 0 reproduces the image");
                }
                if d.a && i % c == c - 1 {
                    chk!(o.data()[i] == v[i], "alpha kept");
                }
            }
            observe_img(&o);
        }
    }
}
/// which arguments are accepted: any bit patterns, on an empty image
#[no_mangle]
pub fn h_p31_args() {
    let d = Dim { w: 0, h: 1, c: 3, a: false };
    let img = mk(d, vec![]);
    let (al, pr) = (fbits(), fbits());
    let inside = split((al >= 0.0) & (al <= 1.0) & (pr >= 0.0));
    let r = tone::histogram_equalization(&img, al, &white(0), pr);
    chk!(r.is_ok() == inside, "strengths 0..1 and non-negative precisions, and only those, are accepted");
}
// ---------------------------------------------------------------- P39
/// cfg 0 alpha, 1..4 channels of the pixel under study, 4: 0 brightness / 1 contrast, 5 bias or gain (1/64)
#[no_mangle]
pub fn h_p39_lab() {
    let a = cfg(0) != 0;
    let c = 3 + a as usize;
    let d = Dim { w: 2, h: 1, c: c as u8, a };
    let (img, v) = crate::color::pixel2(d, 1, [200, 10, 90]);
    let m = cfg(5);
    let r = if cfg(4) == 0 { tone::brightness_lab(&img, m as i16) } else { tone::contrast_lab(&img, m as f32 / 64.0) };
    match r {
        Err(_) => chk!(false, "valid arguments are accepted"),
        Ok(o) => {
            let ok = shape_is(&o, 2, 1, c as u8, a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            let mut lab = cs::srgb_to_lab_f32(&img, &white(0)).data().to_vec();
            for p in 0..2 {
                let l = lab[p * c];
                lab[p * c] = if cfg(4) == 0 { l + m as f32 * 100.0 / 255.0 } else { l * (m as f32 / 64.0) };
            }
            let want = cs::lab_to_srgb_f32(&Image::from_vec(2, 1, c as u8, a, lab), &white(0));
            let same = if cfg(4) == 0 { m == 0 } else { m == 64 };
            for i in 0..2 * c {
                let e = o.data()[i] as i32 - want.data()[i] as i32;
                chk!((e <= 1) & (e >= -1), "lightness edited in CIELAB");
                if same {
                    let e = o.data()[i] as i32 - v[i] as i32;
                    chk!((e <= 1) & (e >= -1), "no edit is the identity");
                }
                if a && i % c == c - 1 {
                    chk!(o.data()[i] == v[i], "alpha kept");
                }
            }
            observe_img(&o);
        }
    }
}
#[no_mangle]
pub fn h_p39_args() {
    let d = Dim { w: 0, h: 1, c: 3, a: false };
    let img = mk(d, vec![]);
    if cfg(0) == 0 {
        let b = amount(9999);
        let inside = split((b >= -255) & (b <= 255));
        chk!(tone::brightness_lab(&img, b).is_ok() == inside, "biases between -255 and 255, and only those, are accepted");
    } else {
        let f = fbits();
        let inside = split((f >= 0.0) & (f <= 1.0));
        chk!(tone::contrast_lab(&img, f).is_ok() == inside, "gains between 0 and 1, and only those, are accepted");
    }
}
