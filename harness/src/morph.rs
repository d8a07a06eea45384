use crate::sym::*;
use imgproc_rs::image::*;
use imgproc_rs::morphology;

/// binary image with a concrete background and symbolic pixels
/// parameters from `i`: background, symbolic pixels, first, step, symbolic alpha?
fn binary(d: Dim, i: u64) -> (Image<u8>, Vec<u8>) {
    let bg = cfgu(i);
    let (ns, st, step) = (cfgu(i + 1) as usize, cfgu(i + 2) as usize, cfgu(i + 3) as usize);
    let sa = cfg(i + 4) != 0;
    let np = (d.w * d.h) as usize;
    let mut b: Vec<u8> = Vec::with_capacity(np);
    let mut s = 99u32;
    for p in 0..np {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        let (x, y) = (p as u32 % d.w, p as u32 / d.w);
        let on = match bg {
            0 => false,
            1 => true,
            2 => (x + y) % 2 == 0,
            _ => (s >> 16) & 1 == 0,
        };
        b.push(if on { 255 } else { 0 });
    }
    let ab: [u8; 2] = [0, 255];
    for k in 0..ns {
        b[(st + k * step) % np] = ab[range(2) as usize];
    }
    let mut v = Vec::with_capacity(d.n());
    for p in 0..np {
        v.push(b[p]);
        for k in 1..d.c as usize {
            v.push(if sa { u8s() } else { (p * 37 + k * 11) as u8 });
        }
    }
    (mk(d, v.clone()), v)
}
/// number of white pixels of the clipped window, and its size
fn whites(v: &[u8], d: Dim, r: i64, x: i64, y: i64) -> (u32, u32) {
    let (x0, x1) = (clampi(x - r, 0, d.w as i64), clampi(x + r, 0, d.w as i64 - 1));
    let (y0, y1) = (clampi(y - r, 0, d.h as i64), clampi(y + r, 0, d.h as i64 - 1));
    let (mut n, mut t) = (0, 0);
    for j in y0..=y1 {
        for i in x0..=x1 {
            n += (v[d.at(i as u32, j as u32, 0)] == 255) as u32;
            t += 1;
        }
    }
    (n, t)
}
fn erode_ref(v: &[u8], d: Dim, r: i64) -> Vec<u8> {
    let mut o = v.to_vec();
    for y in 0..d.h {
        for x in 0..d.w {
            let (n, t) = whites(v, d, r, x as i64, y as i64);
            o[d.at(x, y, 0)] = (n == t) as u8 * 255;
        }
    }
    o
}
fn dilate_ref(v: &[u8], d: Dim, r: i64) -> Vec<u8> {
    let mut o = v.to_vec();
    for y in 0..d.h {
        for x in 0..d.w {
            let (n, _) = whites(v, d, r, x as i64, y as i64);
            o[d.at(x, y, 0)] = (n > 0) as u8 * 255;
        }
    }
    o
}
fn compare(o: &Image<u8>, e: &[u8], d: Dim) {
    let ok = shape_is(o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    for i in 0..d.n() {
        if i % d.c as usize == 0 {
            chk!(o.data()[i] == e[i], "output pixel");
        } else {
            chk!(o.data()[i] == e[i], "alpha kept");
        }
    }
    observe_img(o);
}
// ---------------------------------------------------------------- P22, P23
/// cfg: dim, radius, background.., op
fn run(op: i64) {
    let d = dim(0);
    let r = cfg(4);
    let (img, v) = binary(d, 5);
    let res = match op {
        0 => morphology::erode(&img, r as u32),
        1 => morphology::dilate(&img, r as u32),
        2 => morphology::majority(&img, r as u32),
        3 => morphology::open(&img, r as u32),
        4 => morphology::close(&img, r as u32),
        _ => morphology::gradient(&img, r as u32),
    };
    if d.nc() != 1 {
        chk!(res.is_err(), "image that is not grayscale is an error");
        return;
    }
    let o = match res {
        Ok(o) => o,
        Err(_) => {
            chk!(false, "error on a grayscale image");
            return;
        }
    };
    let e = match op {
        0 => erode_ref(&v, d, r),
        1 => dilate_ref(&v, d, r),
        2 => {
            let mut e = v.clone();
            for y in 0..d.h {
                for x in 0..d.w {
                    let (n, t) = whites(&v, d, r, x as i64, y as i64);
                    e[d.at(x, y, 0)] = (2 * n > t) as u8 * 255;
                }
            }
            e
        }
        3 => dilate_ref(&erode_ref(&v, d, r), d, r),
        4 => erode_ref(&dilate_ref(&v, d, r), d, r),
        _ => {
            let (a, b) = (erode_ref(&v, d, r), dilate_ref(&v, d, r));
            let mut e = v.clone();
            for i in 0..d.n() {
                if i % d.c as usize == 0 {
                    e[i] = (a[i] != b[i]) as u8 * 255;
                }
            }
            e
        }
    };
    compare(&o, &e, d);
}
#[no_mangle]
pub fn h_p22_morph() {
    run(cfg(10));
}
#[no_mangle]
pub fn h_p23_morph() {
    run(cfg(10));
}
/// windows of more than 65535 pixels, looked at in a few places
/// cfg: dim, radius, background.., op
fn run_wide(op: i64) {
    let d = dim(0);
    let r = cfg(4);
    let (img, v) = binary(d, 5);
    let o = match op {
        0 => morphology::erode(&img, r as u32),
        1 => morphology::dilate(&img, r as u32),
        _ => morphology::majority(&img, r as u32),
    };
    let o = match o {
        Ok(o) => o,
        Err(_) => {
            chk!(false, "error on a grayscale image");
            return;
        }
    };
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    // the symbolic pixels are counted apart, the others are concrete
    let np = (d.w * d.h) as usize;
    let mut fixed: Vec<u8> = Vec::with_capacity(np);
    for p in 0..np {
        fixed.push(v[p * d.c as usize]);
    }
    let mut places = Vec::new();
    for k in 0..cfgu(6) as usize {
        let p = (cfgu(7) as usize + k * cfgu(8) as usize) % np;
        if !places.contains(&p) {
            places.push(p);
            fixed[p] = 0;
        }
    }
    for (x, y) in [(d.w / 2, d.h / 2), (d.w / 2 - 1, d.h / 2 + 1), (0, 0), (d.w - 1, d.h - 1), (d.w - 1, d.h / 2)] {
        let (x0, x1) = (clampi(x as i64 - r, 0, d.w as i64) as usize, clampi(x as i64 + r, 0, d.w as i64 - 1) as usize);
        let (y0, y1) = (clampi(y as i64 - r, 0, d.h as i64) as usize, clampi(y as i64 + r, 0, d.h as i64 - 1) as usize);
        let mut n = 0u32;
        for j in y0..=y1 {
            for i in x0..=x1 {
                if fixed[j * d.w as usize + i] == 255 {
                    n += 1;
                }
            }
        }
        for p in &places {
            let (i, j) = (p % d.w as usize, p / d.w as usize);
            if i >= x0 && i <= x1 && j >= y0 && j <= y1 {
                n += (v[p * d.c as usize] == 255) as u32;
            }
        }
        let t = ((x1 - x0 + 1) * (y1 - y0 + 1)) as u32;
        let e = match op {
            0 => n == t,
            1 => n > 0,
            _ => 2 * n > t,
        };
        let got = o.data()[d.at(x, y, 0)];
        chk!(got == e as u8 * 255, "output pixel");
        observe(got as u64);
    }
}
#[no_mangle]
pub fn h_p22_wide() {
    run_wide(cfg(10));
}
#[no_mangle]
pub fn h_p23_wide() {
    run_wide(cfg(10));
}
