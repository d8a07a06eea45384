use crate::sym::*;
use imgproc_rs::enums::*;
use imgproc_rs::image::*;
use imgproc_rs::transform;

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
// ---------------------------------------------------------------- P07
#[no_mangle]
pub fn h_p07_crop() {
    let d = dim(0);
    let (img, v) = img8(d);
    let (x, y, mut w, mut h) = if large() {
        (concrete(coord(0, 0) as u64) as u32, concrete(coord(0, 1) as u64) as u32, cfgu(38) + range(cfg(39) as u64) as u32, cfgu(40) + range(cfg(41) as u64) as u32)
    } else {
        (u32s(), u32s(), u32s(), u32s())
    };
    let inside = split((x as u64 + w as u64 <= d.w as u64) & (y as u64 + h as u64 <= d.h as u64));
    if inside {
        w = concrete(w as u64) as u32;
        h = concrete(h as u64) as u32;
    }
    match transform::crop(&img, x, y, w, h) {
        Err(_) => {
            chk!(!inside, "a rectangle inside the image is an error");
            observe(0);
        }
        Ok(o) => {
            chk!(inside, "a rectangle outside the image is accepted");
            if !inside {
                return;
            }
            let ok = shape_is(&o, w, h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            for j in 0..h {
                for i in 0..w {
                    for k in 0..d.c as u32 {
                        let e = v[d.at(x + i, y + j, k)];
                        chk!(o.data()[((j * w + i) * d.c as u32 + k) as usize] == e, "pixel");
                    }
                }
            }
            observe_img(&o);
            cover!("cropped");
        }
    }
}
#[no_mangle]
pub fn h_p07_cropf() {
    let d = dim(0);
    let (img, v) = imgfb(d);
    let (x, y, w, h) = (concrete(range(d.w as u64 + 1)) as u32, concrete(range(d.h as u64 + 1)) as u32, concrete(range(d.w as u64 + 1)) as u32, concrete(range(d.h as u64 + 1)) as u32);
    match transform::crop(&img, x, y, w, h) {
        Err(_) => chk!(x + w > d.w || y + h > d.h, "a rectangle inside the image is an error"),
        Ok(o) => {
            let ok = shape_is(&o, w, h, d.c, d.a) && x + w <= d.w && y + h <= d.h;
            chk!(ok, "shape");
            if ok {
                for j in 0..h {
                    for i in 0..w {
                        for k in 0..d.c as u32 {
                            chk!(same(o.data()[((j * w + i) * d.c as u32 + k) as usize], v[d.at(x + i, y + j, k)]), "pixel");
                        }
                    }
                }
            }
        }
    }
}
// ---------------------------------------------------------------- P08
fn place(d: Dim) -> (u32, u32) {
    let (mut x, mut y) = if large() { (coord(0, 0), coord(0, 1)) } else { (u32s(), u32s()) };
    if split((x < d.w) & (y < d.h)) {
        x = concrete(x as u64) as u32;
        y = concrete(y as u64) as u32;
    }
    (x, y)
}
#[no_mangle]
pub fn h_p08_overlay() {
    let d = dim(0);
    let f = dim(4);
    let (back, b) = img8(d);
    let (front, v) = img8(f);
    let (x, y) = place(d);
    match transform::overlay(&back, &front, x, y) {
        Err(_) => chk!(d.c != f.c, "images of equal channels are an error"),
        Ok(o) => {
            chk!(d.c == f.c, "a channel mismatch is accepted");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok || d.c != f.c {
                return;
            }
            for j in 0..d.h {
                for i in 0..d.w {
                    let over = i >= x && j >= y && i - x < f.w && j - y < f.h;
                    for k in 0..d.c as u32 {
                        let e = if over { v[f.at(i - x, j - y, k)] } else { b[d.at(i, j, k)] };
                        chk!(o.data()[d.at(i, j, k)] == e, "pixel");
                    }
                }
            }
            observe_img(&o);
        }
    }
}
#[no_mangle]
pub fn h_p08_super() {
    let d = dim(0);
    let f = dim(4);
    let (back, b) = imgf(d);
    let (front, v) = imgf(f);
    let (x, y) = place(d);
    let n = if cfg(48) == 0 { range(257) } else { cfg(48) as u64 - 1 };
    let a = n as f32 / 256.0;
    match transform::superimpose(&back, &front, x, y, a) {
        Err(_) => chk!(d.c != f.c, "images of equal channels are an error"),
        Ok(o) => {
            chk!(d.c == f.c, "a channel mismatch is accepted");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok || d.c != f.c {
                return;
            }
            for j in 0..d.h {
                for i in 0..d.w {
                    let over = i >= x && j >= y && i - x < f.w && j - y < f.h;
                    for k in 0..d.c as u32 {
                        let p = b[d.at(i, j, k)] as f64;
                        let r = o.data()[d.at(i, j, k)];
                        if over {
                            let q = v[f.at(i - x, j - y, k)] as f64;
                            let w = n as f64 / 256.0;
                            close!(r, w * p + (1.0 - w) * q, 0.01 * spread(), "blended value");
                        } else {
                            chk!(r == b[d.at(i, j, k)] as f32, "pixel outside the overlap");
                        }
                    }
                }
            }
            observe_imgf(&o);
        }
    }
}
#[no_mangle]
pub fn h_p08_weight() {
    let d = dim(0);
    let (back, _) = imgf(d);
    let (front, _) = imgf(d);
    let a = fbits();
    let inside = split((a >= 0.0) & (a <= 1.0));
    // beyond the back image: only the validation matters
    let r = transform::superimpose(&back, &front, d.w, d.h, a);
    chk!(r.is_ok() == inside, "weights between 0 and 1, and only those, are accepted");
    observe(r.is_ok() as u64);
}
// ---------------------------------------------------------------- P09
#[no_mangle]
pub fn h_p09_translate() {
    let d = dim(0);
    let (img, v) = img8(d);
    let (x, y) = place(d);
    match transform::translate(&img, x, y) {
        Err(_) => chk!(false, "translation is an error"),
        Ok(o) => {
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok {
                return;
            }
            for j in 0..d.h {
                for i in 0..d.w {
                    for k in 0..d.c as u32 {
                        let e = if i >= x && j >= y { v[d.at(i - x, j - y, k)] } else { 0 };
                        chk!(o.data()[d.at(i, j, k)] == e, "pixel");
                    }
                }
            }
            observe_img(&o);
        }
    }
}
#[no_mangle]
pub fn h_p09_translatef() {
    let d = dim(0);
    let (img, v) = imgfb(d);
    let (x, y) = place(d);
    let o = transform::translate(&img, x, y).unwrap();
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for j in 0..d.h {
        for i in 0..d.w {
            for k in 0..d.c as u32 {
                let e = if i >= x && j >= y { v[d.at(i - x, j - y, k)] } else { 0.0 };
                chk!(same(o.data()[d.at(i, j, k)], e), "pixel");
            }
        }
    }
}
// ---------------------------------------------------------------- P10
fn refl(vert: bool) -> Refl {
    if vert {
        Refl::Vertical
    } else {
        Refl::Horizontal
    }
}
#[no_mangle]
pub fn h_p10_reflect() {
    let d = dim(0);
    let vert = cfg(4) != 0;
    let (img, v) = img8(d);
    let o = transform::reflect(&img, refl(vert)).unwrap();
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    // a symbolic position decides all pixels in one query
    let x = coord(d.w, 0);
    let y = coord(d.h, 1);
    let (sx, sy) = if vert { (d.w - 1 - x, y) } else { (x, d.h - 1 - y) };
    for k in 0..d.c as u32 {
        chk!(o.get_pixel(x, y)[k as usize] == v[d.at(sx, sy, k)], "pixel");
    }
    for j in 0..d.h {
        for i in 0..d.w {
            for k in 0..d.c as u32 {
                let e = if vert { v[d.at(d.w - 1 - i, j, k)] } else { v[d.at(i, d.h - 1 - j, k)] };
                chk!(o.data()[d.at(i, j, k)] == e, "every pixel");
            }
        }
    }
    observe_img(&o);
    let b = transform::reflect(&o, refl(vert)).unwrap();
    let mut eq = shape_is(&b, d.w, d.h, d.c, d.a);
    if eq {
        for i in 0..d.n() {
            eq &= b.data()[i] == v[i];
        }
    }
    chk!(eq, "reflecting twice is the identity");
}
#[no_mangle]
pub fn h_p10_reflectf() {
    let d = dim(0);
    let vert = cfg(4) != 0;
    let (img, v) = imgfb(d);
    let o = transform::reflect(&img, refl(vert)).unwrap();
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for j in 0..d.h {
        for i in 0..d.w {
            for k in 0..d.c as u32 {
                let e = if vert { v[d.at(d.w - 1 - i, j, k)] } else { v[d.at(i, d.h - 1 - j, k)] };
                chk!(same(o.data()[d.at(i, j, k)], e), "every pixel");
            }
        }
    }
}
// ---------------------------------------------------------------- P11
#[no_mangle]
pub fn h_p11_quarter() {
    let d = dim(0);
    let q = cfg(4); // quarter turns, may be negative
    let (img, v) = imgfb(d);
    let o = transform::rotate(&img, 90.0 * q as f32).unwrap();
    let t = q.rem_euclid(4);
    let (w, h) = if t % 2 == 0 { (d.w, d.h) } else { (d.h, d.w) };
    let ok = shape_is(&o, w, h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for j in 0..h {
        for i in 0..w {
            let (sx, sy) = match t {
                0 => (i, j),
                1 => (d.w - 1 - j, i),
                2 => (d.w - 1 - i, d.h - 1 - j),
                _ => (j, d.h - 1 - i),
            };
            for k in 0..d.c as u32 {
                chk!(same(o.data()[((j * w + i) * d.c as u32 + k) as usize], v[d.at(sx, sy, k)]), "rotated pixel");
            }
        }
    }
    observe_imgf(&o);
}
fn copies(o: &Image<f32>, v: &[f32], d: Dim) {
    let i = o.info();
    let c = d.c as usize;
    let ok = i.channels == d.c && i.alpha == d.a && o.data().len() == i.width as usize * i.height as usize * c;
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for p in o.data().chunks(c) {
        let mut found = true;
        for k in 0..c {
            found &= p[k].to_bits() == 0;
        }
        for q in v.chunks(c) {
            let mut e = true;
            for k in 0..c {
                e &= same(p[k], q[k]);
            }
            found |= e;
        }
        chk!(found, "every output pixel is black or an input pixel");
    }
}
/// the bounding box of the rotated image, every pixel of which shows the input pixel that contains its centre rotated back;
/// within e of a border between pixels either side will do
fn rotated(o: &Image<f32>, v: &[f32], d: Dim, t: f32) {
    let e = 2e-3;
    let i = o.info();
    let c = d.c as usize;
    let ok = i.channels == d.c && i.alpha == d.a && o.data().len() == i.width as usize * i.height as usize * c;
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let (w, h) = (d.w as f64, d.h as f64);
    let r = t as f64 * (std::f64::consts::PI / 180.0);
    let (sin, cos) = (r.sin(), r.cos());
    let corner = |x: f64, y: f64| (x * cos - y * sin, x * sin + y * cos);
    let (mut x0, mut x1, mut y0, mut y1) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
    for &(x, y) in [(w, 0.0), (0.0, -h), (w, -h)].iter() {
        let p = corner(x, y);
        x0 = if p.0 < x0 { p.0 } else { x0 };
        x1 = if p.0 > x1 { p.0 } else { x1 };
        y0 = if p.1 < y0 { p.1 } else { y0 };
        y1 = if p.1 > y1 { p.1 } else { y1 };
    }
    let near = |n: u32, l: f64| n as f64 > l - 0.5 - e && (n as f64) < l + 0.5 + e;
    let ok = near(i.width, x1 - x0) && near(i.height, y1 - y0);
    chk!(ok, "the size is that of the rotated bounding box");
    if !ok {
        return;
    }
    for y in 0..i.height {
        for x in 0..i.width {
            let (a, b) = (x0 + x as f64 + 0.5, y1 - y as f64 - 0.5);
            let (sx, sy) = (a * cos + b * sin, a * sin - b * cos);
            let p = &o.data()[(y * i.width + x) as usize * c..][..c];
            let mut found = false;
            for q in 0..4 {
                let fx = (if q & 1 == 0 { sx - e } else { sx + e }).floor();
                let fy = (if q & 2 == 0 { sy - e } else { sy + e }).floor();
                let mut same_px = true;
                if fx >= 0.0 && fx < w && fy >= 0.0 && fy < h {
                    for k in 0..c {
                        same_px &= same(p[k], v[d.at(fx as u32, fy as u32, k as u32)]);
                    }
                } else {
                    for k in 0..c {
                        same_px &= p[k].to_bits() == 0;
                    }
                }
                found |= same_px;
            }
            chk!(found, "an output pixel is not the input pixel rotated there");
        }
    }
}
#[no_mangle]
pub fn h_p11_any() {
    let d = dim(0);
    let (img, v) = imgfb(d);
    // angle in quarters of a degree
    let t = cfg(4) as f32 / 4.0;
    let o = transform::rotate(&img, t).unwrap();
    rotated(&o, &v, d, t);
    observe_imgf(&o);
}
#[no_mangle]
pub fn h_p11_angle() {
    let d = dim(0);
    let (img, v) = imgfb(d);
    let n = concrete(range(cfg(5) as u64)) as i64 + cfg(4);
    let o = transform::rotate(&img, n as f32).unwrap();
    rotated(&o, &v, d, n as f32);
    observe_imgf(&o);
}
// ---------------------------------------------------------------- P12 / P13
fn method(m: i64) -> Scale {
    match m {
        0 => Scale::NearestNeighbor,
        1 => Scale::Bilinear,
        2 => Scale::Bicubic,
        _ => Scale::Lanczos,
    }
}
/// round(w * n / d), halves away from zero
fn out_size(w: u32, n: u32, den: u32) -> u32 {
    (2 * w * n + den) / (2 * den)
}
fn at(v: &[f32], d: Dim, x: i64, y: i64, k: u32) -> f64 {
    v[d.at(clampi(x, 0, d.w as i64 - 1) as u32, clampi(y, 0, d.h as i64 - 1) as u32, k)] as f64
}
#[no_mangle]
pub fn h_p12_nearest() {
    // factors nx/den, ny/den with den a power of two
    let d = dim(0);
    let (nx, ny, den) = (cfgu(4), cfgu(5), cfgu(6));
    let (img, v) = imgfb(d);
    let o = transform::scale(&img, nx as f32 / den as f32, ny as f32 / den as f32, method(0)).unwrap();
    let (w, h) = (out_size(d.w, nx, den), out_size(d.h, ny, den));
    let ok = shape_is(&o, w, h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for j in 0..h {
        for i in 0..w {
            let sx = (((i + 1) * den + nx - 1) / nx - 1).min(d.w - 1);
            let sy = (((j + 1) * den + ny - 1) / ny - 1).min(d.h - 1);
            for k in 0..d.c as u32 {
                chk!(same(o.data()[((j * w + i) * d.c as u32 + k) as usize], v[d.at(sx, sy, k)]), "covered pixel");
            }
        }
    }
    observe_imgf(&o);
}
#[no_mangle]
pub fn h_p12_bilinear() {
    let d = dim(0);
    let (nx, ny, den) = (cfgu(4), cfgu(5), cfgu(6));
    let (img, v) = imgf(d);
    let o = transform::scale(&img, nx as f32 / den as f32, ny as f32 / den as f32, method(1)).unwrap();
    let (w, h) = (out_size(d.w, nx, den), out_size(d.h, ny, den));
    let ok = shape_is(&o, w, h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for j in 0..h {
        for i in 0..w {
            let (px, py) = ((i * den) as i64, (j * den) as i64);
            let (x0, y0) = (px / nx as i64, py / ny as i64);
            let fx = (px % nx as i64) as f64 / nx as f64;
            let fy = (py % ny as i64) as f64 / ny as f64;
            for k in 0..d.c as u32 {
                let e = (1.0 - fx) * (1.0 - fy) * at(&v, d, x0, y0, k) + fx * (1.0 - fy) * at(&v, d, x0 + 1, y0, k) + (1.0 - fx) * fy * at(&v, d, x0, y0 + 1, k) + fx * fy * at(&v, d, x0 + 1, y0 + 1, k);
                close!(o.data()[((j * w + i) * d.c as u32 + k) as usize], e, 0.02 * spread(), "interpolated value");
                if nx == den && ny == den {
                    chk!(o.data()[d.at(i, j, k)] == v[d.at(i, j, k)] as f32, "scaling by 1 is the identity");
                }
            }
        }
    }
    observe_imgf(&o);
}
/// arbitrary factors num/den (not exactly representable)
#[no_mangle]
pub fn h_p12_any() {
    let d = dim(0);
    let (nx, ny, den, m) = (cfgu(4), cfgu(5), cfgu(6), cfg(7));
    let (fx, fy) = (nx as f32 / den as f32, ny as f32 / den as f32);
    let (img, v) = imgf(d);
    let o = transform::scale(&img, fx, fy, method(m)).unwrap();
    let (w, h) = ((d.w as f32 * fx).round() as u32, (d.h as f32 * fy).round() as u32);
    let ok = shape_is(&o, w, h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for j in 0..h {
        for i in 0..w {
            if m == 0 {
                // the factor is only near num/den, so a pixel that ends on a border may show either neighbour
                let src = |i: u32, n: u32, len: u32| {
                    let t = (i + 1) * den;
                    let lo = ((t + n - 1) / n - 1).min(len - 1);
                    (lo, if t % n == 0 { (lo + 1).min(len - 1) } else { lo })
                };
                let (xs, ys) = (src(i, nx, d.w), src(j, ny, d.h));
                let mut found = false;
                for (x, y) in [(xs.0, ys.0), (xs.1, ys.0), (xs.0, ys.1), (xs.1, ys.1)] {
                    let mut e = true;
                    for k in 0..d.c as u32 {
                        e &= o.data()[((j * w + i) * d.c as u32 + k) as usize] == v[d.at(x, y, k)] as f32;
                    }
                    found |= e;
                }
                chk!(found, "every output pixel is the input pixel that covers it");
            } else {
                let (px, py) = ((i * den) as i64, (j * den) as i64);
                let (x0, y0) = (px / nx as i64, py / ny as i64);
                let fx = (px % nx as i64) as f64 / nx as f64;
                let fy = (py % ny as i64) as f64 / ny as f64;
                for k in 0..d.c as u32 {
                    let e = (1.0 - fx) * (1.0 - fy) * at(&v, d, x0, y0, k) + fx * (1.0 - fy) * at(&v, d, x0 + 1, y0, k) + (1.0 - fx) * fy * at(&v, d, x0, y0 + 1, k) + fx * fy * at(&v, d, x0 + 1, y0 + 1, k);
                    close!(o.data()[((j * w + i) * d.c as u32 + k) as usize], e, 0.05, "interpolated value");
                }
            }
        }
    }
    observe_imgf(&o);
}
/// negative factors are errors
#[no_mangle]
pub fn h_p12_neg() {
    let d = dim(0);
    let m = cfg(4);
    let (img, _v) = imgf(d);
    let f = fbits();
    assume(f < 0.0);
    let r = match cfg(5) {
        0 => transform::scale(&img, f, 1.0, method(m)),
        1 => transform::scale(&img, 1.0, f, method(m)),
        2 => transform::scale_lanczos(&img, f, 1.0, 2),
        _ => transform::scale_lanczos(&img, 1.0, f, 2),
    };
    chk!(r.is_err(), "a negative factor is accepted");
    observe(r.is_err() as u64);
}
fn bspline(t: f64) -> f64 {
    let t = t.abs();
    if t < 1.0 {
        2.0 / 3.0 - t * t + t * t * t / 2.0
    } else if t < 2.0 {
        (2.0 - t) * (2.0 - t) * (2.0 - t) / 6.0
    } else {
        0.0
    }
}
fn lanczos(t: f64, a: f64) -> f64 {
    if t == 0.0 {
        1.0
    } else if t.abs() < a {
        let p = std::f64::consts::PI * t;
        a * p.sin() * (p / a).sin() / (p * p)
    } else {
        0.0
    }
}
#[no_mangle]
pub fn h_p13_weighted() {
    // factors nx/den, ny/den; method 2 = bicubic, 3 = lanczos 3, 4.. = scale_lanczos(size m - 4)
    let d = dim(0);
    let (nx, ny, den, m) = (cfgu(4), cfgu(5), cfgu(6), cfg(7));
    let (img, v) = imgf(d);
    let (fx, fy) = (nx as f32 / den as f32, ny as f32 / den as f32);
    let o = if m < 4 { transform::scale(&img, fx, fy, method(m)) } else { transform::scale_lanczos(&img, fx, fy, m as u32 - 4) }.unwrap();
    let (w, h) = (out_size(d.w, nx, den), out_size(d.h, ny, den));
    let ok = shape_is(&o, w, h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let a = if m == 2 { 2 } else if m == 3 { 3 } else { m - 4 };
    for j in 0..h {
        for i in 0..w {
            let (px, py) = ((i * den) as i64, (j * den) as i64);
            let (x0, y0) = (px / nx as i64, py / ny as i64);
            let dx = (px % nx as i64) as f64 / nx as f64;
            let dy = (py % ny as i64) as f64 / ny as f64;
            for k in 0..d.c as u32 {
                let mut e = 0.0;
                for p in 1 - a..a + 1 {
                    for q in 1 - a..a + 1 {
                        let r = if m == 2 { bspline(dx - p as f64) * bspline(dy - q as f64) } else { lanczos(dx - p as f64, a as f64) * lanczos(dy - q as f64, a as f64) };
                        e += r * at(&v, d, x0 + p, y0 + q, k);
                    }
                }
                close!(o.data()[((j * w + i) * d.c as u32 + k) as usize], e, 0.05 * spread(), "weighted sum");
            }
        }
    }
    observe_imgf(&o);
}
// ---------------------------------------------------------------- P14
#[no_mangle]
pub fn h_p14_shear() {
    // shears sx/den, sy/den with den a power of two
    let d = dim(0);
    let (nx, ny, den) = (cfg(4), cfg(5), cfg(6));
    let (img, v) = imgfb(d);
    let o = transform::shear(&img, nx as f32 / den as f32, ny as f32 / den as f32).unwrap();
    let ax = nx.abs() * d.h as i64; // offsets times den
    let ay = ny.abs() * d.w as i64;
    let (w, h) = (d.w + (ax / den) as u32, d.h + (ay / den) as u32);
    let ok = shape_is(&o, w, h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let c = d.c as usize;
    let mut hits: Vec<Vec<usize>> = vec![Vec::new(); (w * h) as usize];
    for y in 0..d.h as i64 {
        for x in 0..d.w as i64 {
            let mut px = x * den - nx * y;
            let mut py = y * den - ny * x;
            if nx > 0 {
                px += ax;
            }
            if ny > 0 {
                py += ay;
            }
            let (tx, ty) = (clampi(px / den, 0, w as i64 - 1), clampi(py / den, 0, h as i64 - 1));
            hits[(ty * w as i64 + tx) as usize].push((y * d.w as i64 + x) as usize);
        }
    }
    for p in 0..(w * h) as usize {
        let mut found = hits[p].is_empty();
        for k in 0..c {
            found &= o.data()[p * c + k].to_bits() == 0;
        }
        for q in &hits[p] {
            let mut e = true;
            for k in 0..c {
                e &= same(o.data()[p * c + k], v[q * c + k]);
            }
            found |= e;
        }
        chk!(found, "sheared pixel");
    }
    observe_imgf(&o);
}
/// arbitrary shears given by their bit patterns: no panic, copies only
#[no_mangle]
pub fn h_p14_any() {
    let d = dim(0);
    let (img, v) = imgfb(d);
    let o = transform::shear(&img, f32::from_bits(cfg(4) as u32), f32::from_bits(cfg(5) as u32)).unwrap();
    copies(&o, &v, d);
    observe_imgf(&o);
}
