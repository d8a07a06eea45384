use crate::sym::*;
use imgproc_rs::filter;
use imgproc_rs::image::*;

/// An image with a concrete background and `nsym` symbolic bytes; returns every value a byte can take (sorted)
/// parameters from `i`: value set, background, number of symbolic bytes, first one, distance between them
fn rank_image(d: Dim, i: u64) -> (Image<u8>, Vec<u8>, Vec<u8>) {
    let set = cfg(i);
    let bg = cfgu(i + 1);
    let (ns, st, step) = (cfgu(i + 2) as usize, cfgu(i + 3) as usize, cfgu(i + 4) as usize);
    let a: &'static [u8] = match set {
        0 => &[0, 255],
        1 => &[17, 18],
        2 => &[0, 128, 255],
        3 => &[3, 100, 101, 250],
        _ => &[0, 1, 2, 16, 31, 64, 99, 100, 126, 127, 128, 129, 181, 253, 254, 255],
    };
    let b: &'static [u8] = match bg {
        0 => &[0],
        1 => &[255],
        2 => &[17, 200],
        3 => &[5, 99, 100, 180],
        _ => &[0, 255, 128],
    };
    let n = d.n();
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let mut s = 12345u32;
    for _ in 0..n {
        s = s.wrapping_mul(1103515245).wrapping_add(12345);
        v.push(b[((s >> 16) as usize) % b.len()]);
    }
    for k in 0..ns {
        let p = (st + k * step) % n;
        v[p] = a[range(a.len() as u64) as usize];
    }
    let mut all: Vec<u8> = Vec::with_capacity(256);
    for x in 0..256usize {
        let x = x as u8;
        let mut inset = false;
        for y in a {
            inset |= *y == x;
        }
        for y in b {
            inset |= *y == x;
        }
        if inset {
            all.push(x);
        }
    }
    (mk(d, v.clone()), v, all)
}
fn window(v: &[u8], d: Dim, r: i64, x: i64, y: i64, k: u32) -> Vec<u8> {
    let mut o = Vec::with_capacity(((2 * r + 1) * (2 * r + 1)) as usize);
    for j in -r..=r {
        for i in -r..=r {
            let (p, q) = (clampi(x + i, 0, d.w as i64 - 1), clampi(y + j, 0, d.h as i64 - 1));
            o.push(v[d.at(p as u32, q as u32, k)]);
        }
    }
    o
}
// ---------------------------------------------------------------- P19
#[no_mangle]
pub fn h_p19_median() {
    let d = dim(0);
    let r = cfg(4);
    let (img, v, _) = rank_image(d, 5);
    let o = filter::median_filter(&img, r as u32).unwrap();
    let ok = shape_is(&o, d.w, d.h, d.c, d.a);
    chk!(ok, "shape");
    if !ok {
        return;
    }
    let mid = (((2 * r + 1) * (2 * r + 1)) / 2) as u32;
    for y in 0..d.h {
        for x in 0..d.w {
            for k in 0..d.c as u32 {
                let w = window(&v, d, r, x as i64, y as i64, k);
                let m = o.data()[d.at(x, y, k)];
                let (mut lt, mut le) = (0u32, 0u32);
                for p in &w {
                    lt += (*p < m) as u32;
                    le += (*p <= m) as u32;
                }
                chk!((lt <= mid) & (le > mid), "median of the window");
            }
        }
    }
    observe_img(&o);
}
// ---------------------------------------------------------------- P20
#[no_mangle]
pub fn h_p20_mean() {
    let d = dim(0);
    let r = cfg(4);
    let (img, v, all) = rank_image(d, 5);
    let alpha = cfg(10);
    let n = (2 * r + 1) * (2 * r + 1);
    match filter::alpha_trimmed_mean_filter(&img, r as u32, alpha as u32) {
        Err(_) => chk!(alpha % 2 == 1 || alpha >= n, "a valid alpha is an error"),
        Ok(o) => {
            let valid = alpha % 2 == 0 && alpha < n;
            chk!(valid, "an invalid alpha is accepted");
            let ok = shape_is(&o, d.w, d.h, d.c, d.a);
            chk!(ok, "shape");
            if !ok || !valid {
                return;
            }
            let (from, to) = (alpha / 2, n - alpha / 2);
            let len = n - alpha;
            for y in 0..d.h {
                for x in 0..d.w {
                    for k in 0..d.c as u32 {
                        let w = window(&v, d, r, x as i64, y as i64, k);
                        // the sorted window holds `key` at positions [below, below + count)
                        let mut below = 0i64;
                        let mut sum = 0i64;
                        for key in &all {
                            let mut cnt = 0i64;
                            for p in &w {
                                cnt += (*p == *key) as i64;
                            }
                            let a = clampi(below, from, to);
                            let b = clampi(below + cnt, from, to);
                            sum += (b - a) * *key as i64;
                            below += cnt;
                        }
                        // m is the mean rounded half up
                        let m = o.data()[d.at(x, y, k)] as i64;
                        let s = 2 * sum + len;
                        chk!((m * 2 * len <= s) & (s < (m + 1) * 2 * len), "rounded mean of the trimmed window");
                    }
                }
            }
            observe_img(&o);
        }
    }
}
