use crate::sym::*;
use imgproc_rs::convert;
use imgproc_rs::image::*;

// ---------------------------------------------------------------- P05
fn f8(x: u8) -> u16 {
    (x as u16) * 3 + 1
}
fn g8(x: u8) -> u16 {
    1000 + x as u16
}
fn check16(o: &Image<u16>, w: u32, h: u32, c: u8, a: bool, e: &dyn Fn(usize) -> u16) {
    let i = o.info();
    let ok = i.width == w && i.height == h && i.channels == c && i.alpha == a && o.data().len() == (w * h) as usize * c as usize;
    chk!(ok, "shape");
    if ok {
        for k in 0..o.data().len() {
            chk!(o.data()[k] == e(k), "mapped value");
            observe(o.data()[k] as u64);
        }
    }
}
#[no_mangle]
pub fn h_p05_channels() {
    let d = dim(0);
    let (img, v) = img8(d);
    let c = d.c as usize;
    let o = if cfg(4) == 0 { img.map_channels(f8) } else { img.map_channels_if_alpha(f8, g8) };
    let al = d.a && cfg(4) == 1;
    check16(&o, d.w, d.h, d.c, d.a, &|k| if al && k % c == c - 1 { g8(v[k]) } else { f8(v[k]) });
    for k in 0..d.n() {
        chk!(img.data()[k] == v[k], "the input is unchanged");
    }
}
/// pixel maps: out channel j of the pixel is f8 of input channel (j + 1) mod n, then `extra` more channels
#[no_mangle]
pub fn h_p05_pixels() {
    let d = dim(0);
    let extra = cfg(5) as usize;
    let (img, v) = img8(d);
    let c = d.c as usize;
    let al = d.a && cfg(4) == 1;
    let n = if al { c - 1 } else { c };
    let keep = if extra == 9 { 1 } else { n + extra };
    let f = move |p: &[u8], out: &mut Vec<u16>| {
        for j in 0..keep {
            out.push(f8(p[(j + 1) % p.len()]) + j as u16);
        }
    };
    let o = if cfg(4) == 0 { img.map_pixels(f) } else { img.map_pixels_if_alpha(f, g8) };
    let co = if al { keep + 1 } else { keep };
    check16(&o, d.w, d.h, if d.n() == 0 { d.c } else { co as u8 }, d.a, &|k| {
        let (p, j) = (k / co, k % co);
        if al && j == co - 1 {
            g8(v[p * c + c - 1])
        } else {
            f8(v[p * c + (j + 1) % n]) + j as u16
        }
    });
}
fn p8(x: u8) -> u8 {
    x ^ 0x5a
}
fn q8(x: u8) -> u8 {
    x.wrapping_add(7)
}
#[no_mangle]
pub fn h_p05_apply() {
    let d = dim(0);
    let (mut img, v) = img8(d);
    let c = d.c as usize;
    let m = cfg(4);
    let al = d.a && (m == 1 || m == 3);
    let n = if al { c - 1 } else { c };
    match m {
        0 => img.apply_channels(p8),
        1 => img.apply_channels_if_alpha(p8, q8),
        2 => img.apply_pixels(|p, o| {
            for j in 0..p.len() {
                o.push(p8(p[(j + 1) % p.len()]));
            }
        }),
        _ => img.apply_pixels_if_alpha(
            |p, o| {
                for j in 0..p.len() {
                    o.push(p8(p[(j + 1) % p.len()]));
                }
            },
            q8,
        ),
    }
    let ok = shape_is(&img, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for k in 0..d.n() {
        let (p, j) = (k / c, k % c);
        let e = if al && j == c - 1 {
            q8(v[k])
        } else if m < 2 {
            p8(v[k])
        } else {
            p8(v[p * c + (j + 1) % n])
        };
        chk!(img.data()[k] == e, "applied value");
    }
    observe_img(&img);
}
/// a pixel function that returns the wrong number of channels must not be stored
#[no_mangle]
pub fn h_p05_wrong() {
    let d = dim(0);
    let (mut img, _v) = img8(d);
    let n = cfg(4) as usize;
    panics_iff(n != d.c as usize);
    img.apply_pixels(|p, o| {
        for j in 0..n {
            o.push(p[j % p.len()]);
        }
    });
    returned();
    cover!("right number of channels");
}
#[no_mangle]
pub fn h_p05_edit() {
    let d = dim(0);
    let (mut img, v) = img8(d);
    let c = d.c as usize;
    let i = concrete(range(c as u64)) as usize;
    img.edit_channel(p8, i);
    let ok = shape_is(&img, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for k in 0..d.n() {
        chk!(img.data()[k] == if k % c == i { p8(v[k]) } else { v[k] }, "edited value");
    }
    observe_img(&img);
}
#[no_mangle]
pub fn h_p05_pixel() {
    let n = cfg(0) as usize;
    let v = bytes(n);
    let p: &[u8] = &v;
    chk!(p.alpha() == v[n - 1], "alpha");
    let cw = p.channels_without_alpha();
    chk!(cw.len() == n - 1, "channels without alpha");
    let a = p.map_all(f8);
    let b = p.map_alpha(f8, g8);
    chk!(a.len() == n && b.len() == n, "mapped length");
    let mut x = v.clone();
    x[..].apply(p8);
    let mut y = v.clone();
    y[..].apply_alpha(p8, q8);
    chk!(x.len() == n && y.len() == n, "applied length");
    let mut black = true;
    let mut black_a = true;
    for k in 0..n {
        let last = k == n - 1;
        if !last {
            chk!(cw[k] == v[k], "channel without alpha");
            black_a &= v[k] == 0;
        }
        black &= v[k] == 0;
        chk!(a[k] == f8(v[k]), "map_all");
        chk!(b[k] == if last { g8(v[k]) } else { f8(v[k]) }, "map_alpha");
        chk!(x[k] == p8(v[k]), "apply");
        chk!(y[k] == if last { q8(v[k]) } else { p8(v[k]) }, "apply_alpha");
        observe(b[k] as u64);
    }
    chk!(p.is_black() == black, "is_black");
    chk!(p.is_black_alpha() == black_a, "is_black_alpha");
}
/// the same on f32 pixels, where minus zero is black and NaN is not
#[no_mangle]
pub fn h_p05_pixelf() {
    let n = cfg(0) as usize;
    let mut v: Vec<f32> = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(fbits());
    }
    let p: &[f32] = &v;
    let mut black = true;
    let mut black_a = true;
    for k in 0..n {
        let z = v[k].to_bits() << 1 == 0;
        black &= z;
        if k < n - 1 {
            black_a &= z;
        }
    }
    chk!(p.is_black() == black, "is_black");
    chk!(p.is_black_alpha() == black_a, "is_black_alpha");
    chk!(p.alpha().to_bits() == v[n - 1].to_bits(), "alpha");
}
// ---------------------------------------------------------------- P06
#[no_mangle]
pub fn h_p06_round() {
    let d = dim(0);
    let (img, v) = img8(d);
    if cfg(4) == 0 {
        let f: Image<f32> = img.into();
        for k in 0..d.n() {
            chk!(f.data()[k] == v[k] as f32, "f32 value");
        }
        let ok = shape_is(&f, d.w, d.h, d.c, d.a);
        chk!(ok, "shape");
        let b: Image<u8> = f.into();
        let ok = shape_is(&b, d.w, d.h, d.c, d.a);
        chk!(ok, "shape");
        for k in 0..d.n() {
            chk!(b.data()[k] == v[k], "u8 -> f32 -> u8");
        }
        observe_img(&b);
    } else {
        let f: Image<f64> = img.into();
        for k in 0..d.n() {
            chk!(f.data()[k] == v[k] as f64, "f64 value");
        }
        let b: Image<u8> = f.into();
        let ok = shape_is(&b, d.w, d.h, d.c, d.a);
        chk!(ok, "shape");
        for k in 0..d.n() {
            chk!(b.data()[k] == v[k], "u8 -> f64 -> u8");
        }
        observe_img(&b);
    }
}
#[no_mangle]
pub fn h_p06_wide() {
    match cfg(0) {
        0 => {
            let x = u32s() as u16;
            let f: Image<f64> = Image::from_vec(1, 1, 1, false, vec![x]).into();
            chk!(f.data()[0] as u16 == x && f.data()[0] == x as f64, "u16 -> f64");
        }
        1 => {
            let x = u32s();
            let f: Image<f64> = Image::from_vec(1, 1, 1, false, vec![x]).into();
            chk!(f.data()[0] as u32 == x && f.data()[0] == x as f64, "u32 -> f64");
        }
        2 => {
            let x = u32s() as u64 | (range(1 << 20) << 32);
            let f: Image<f64> = Image::from_vec(1, 1, 1, false, vec![x]).into();
            chk!(f.data()[0] as u64 == x, "u64 below 2^52 -> f64");
        }
        3 => {
            let x = u32s() as u64 | (range(1 << 20) << 32);
            let f: Image<f64> = Image::from_vec(1, 1, 1, false, vec![x as usize]).into();
            chk!(f.data()[0] as usize == x as usize, "usize below 2^52 -> f64");
        }
        4 => {
            let x = u32s() as u128 | ((range(1 << 20) as u128) << 32);
            let f: Image<f64> = Image::from_vec(1, 1, 1, false, vec![x]).into();
            chk!(f.data()[0] as u128 == x, "u128 below 2^52 -> f64");
        }
        _ => {
            let x = fbits();
            assume(!x.is_nan());
            let f: Image<f64> = Image::from_vec(1, 1, 1, false, vec![x]).into();
            chk!((f.data()[0] as f32).to_bits() == x.to_bits(), "f32 -> f64");
        }
    }
}
#[no_mangle]
pub fn h_p06_nearest() {
    let x = fbits();
    assume(x.is_finite());
    let r: Image<u8> = if cfg(0) == 0 { Image::<f32>::from_vec(1, 1, 1, false, vec![x]).into() } else { Image::<f64>::from_vec(1, 1, 1, false, vec![x as f64]).into() };
    let b = r.data()[0];
    // the differences are exact in f64 (or too small to matter)
    let (f, x) = (b as f64, x as f64);
    if split(x < 0.0) {
        chk!(b == 0, "negative values become 0");
    } else if split(x > 255.0) {
        chk!(b == 255, "large values become 255");
    } else {
        chk!((f - x <= 0.5) & (x - f <= 0.5), "nearest integer");
    }
    observe(b as u64);
}
/// f64 values that are not f32 values: all of them with exponent cfg(0) when cfg(1) is 0, else everything
#[no_mangle]
pub fn h_p06_nearest64() {
    let lo = u32s() as u64;
    let hi = u32s() as u64;
    let bits = lo | hi << 32;
    let x = f64::from_bits(bits);
    assume(x.is_finite());
    let r: Image<u8> = Image::<f64>::from_vec(1, 1, 1, false, vec![x]).into();
    let b = r.data()[0];
    // the half-way points below and above the result (halves are exact in f64)
    let (down, up) = (b as f64 - 0.5, b as f64 + 0.5);
    chk!((b == 0) | (x >= down), "nearest integer from above");
    chk!((b == 255) | (x <= up), "nearest integer from below");
    observe(b as u64);
}
/// u64 and u128 values above 2^52: cfg(0) type, a symbolic 16-bit number shifted by cfg(1) (exactly representable)
#[no_mangle]
pub fn h_p06_shifted() {
    let s = cfgu(1);
    let x = range(if s < 64 { 65536 } else { 16 });
    let e = x as f64 * 2f64.powi(s as i32);
    let f: Image<f64> = match cfg(0) {
        0 => Image::from_vec(1, 1, 1, false, vec![x << s]).into(),
        1 => Image::from_vec(1, 1, 1, false, vec![(x << s) as usize]).into(),
        _ => Image::from_vec(1, 1, 1, false, vec![(x as u128) << s]).into(),
    };
    chk!(f.data().len() == 1 && f.data()[0] == e, "integers above 2^52 keep their value");
}
#[no_mangle]
pub fn h_p06_scale() {
    let base = cfg(0) as u32;
    let s = base + range(16) as u32;
    let x = u8s();
    let img = Image::from_vec(1, 1, 1, false, vec![x]);
    let f = convert::u8_to_f32_scale(&img, s);
    close!(f.data()[0], x as f64 * s as f64 / 255.0, 1e-6 * (base as f64 + 16.0), "scaled value");
    let b = convert::f32_to_u8_scale(&f, s);
    chk!(b.data()[0] == x, "scaling to 0..s and back");
    let ok = shape_is(&b, 1, 1, 1, false) && shape_is(&f, 1, 1, 1, false);
    chk!(ok, "shape");
    observe(b.data()[0] as u64);
}
#[no_mangle]
pub fn h_p06_channels() {
    // current range [lo, lo + a], target range [t, t + b] in integers
    let lo = range(64) as f32 - 32.0;
    let a = cfg(0) as f32;
    let (t, b) = (cfg(1) as f32, cfg(2) as f32);
    let x = range(64) as f32 - 32.0;
    let (w, h) = (1, 3);
    let img = Image::from_vec(w, h, 1, false, vec![lo, lo + a, x]);
    let o = convert::scale_channels(&img, lo, t, lo + a, t + b).unwrap();
    chk!(o.data().len() == 3, "length");
    if o.data().len() == 3 {
        close!(o.data()[0], t as f64, 1e-4, "lower end");
        close!(o.data()[1], (t + b) as f64, 1e-3, "upper end");
        close!(o.data()[2], (x as f64 - lo as f64) / a as f64 * b as f64 + t as f64, 1e-3, "linear");
        observe_f(o.data()[2]);
    }
}
