use crate::sym::*;
use imgproc_rs::image::*;

// ---------------------------------------------------------------- P01
#[no_mangle]
pub fn h_p01_read() {
    let d = dim(0);
    let (mut img, v) = img8(d);
    let x = coord(d.w, 0);
    let y = coord(d.h, 1);
    let c = d.c as usize;
    let p = (y * d.w + x) as usize;
    let mut ok = img.get_pixel(x, y).len() == c && img.get_pixel_unchecked(x, y).len() == c && img[p].len() == c && img.get_pixel_mut(x, y).len() == c && img.get_pixel_mut_unchecked(x, y).len() == c;
    chk!(ok, "length of a pixel");
    chk!(img.index(x, y) == p * c, "index(x, y)");
    for k in 0..c {
        let e = v[p * c + k];
        ok = (img.get_pixel(x, y)[k] == e) & (img.get_pixel_unchecked(x, y)[k] == e) & (img[p][k] == e);
        chk!(ok, "value read");
        ok = (img.get_pixel_mut(x, y)[k] == e) & (img.get_pixel_mut_unchecked(x, y)[k] == e) & (img.data()[p * c + k] == e);
        chk!(ok, "value read mutably");
        observe(img.get_pixel(x, y)[k] as u64);
    }
    for i in 0..d.n() {
        chk!(img.data()[i] == v[i] && img.data_mut()[i] == v[i], "reading leaves the image alone");
    }
}
#[no_mangle]
pub fn h_p01_write() {
    let d = dim(0);
    let (mut img, v) = img8(d);
    let x = coord(d.w, 0);
    let y = coord(d.h, 1);
    let c = d.c as usize;
    let p = (y * d.w + x) as usize;
    let px = bytes(c);
    match cfg(4) {
        0 => img.set_pixel(x, y, &px),
        1 => img.set_pixel_indexed(p, &px),
        2 => {
            let q = img.get_pixel_mut(x, y);
            for k in 0..c {
                q[k] = px[k];
            }
        }
        3 => {
            let q = img.get_pixel_mut_unchecked(x, y);
            for k in 0..c {
                q[k] = px[k];
            }
        }
        _ => {
            for k in 0..c {
                img[p][k] = px[k];
            }
        }
    }
    chk!(shape_is(&img, d.w, d.h, d.c, d.a), "shape after a write");
    for i in 0..d.n() {
        let e = if i / c == p { px[i % c] } else { v[i] };
        chk!(img.data()[i] == e, "a write changes exactly its pixel");
        observe(img.data()[i] as u64);
    }
}
#[no_mangle]
pub fn h_p01_oob() {
    let d = dim(0);
    let (mut img, _v) = img8(d);
    // writing anywhere in a large image is too much: around its far edges
    let (x, y) = if large() && cfg(4) == 2 { (coord(0, 0), coord(0, 1)) } else { (u32s(), u32s()) };
    let px = bytes(d.c as usize);
    panics_iff((x >= d.w) | (y >= d.h));
    match cfg(4) {
        0 => {
            let _ = img.get_pixel(x, y).len();
        }
        1 => {
            let _ = img.get_pixel_mut(x, y).len();
        }
        2 => img.set_pixel(x, y, &px),
        _ => {
            let _ = img.get_subimage(x, y, 0, 0);
        }
    }
    returned();
    cover!("in range");
}
#[no_mangle]
pub fn h_p01_len() {
    let d = dim(0);
    let (mut img, v) = img8(d);
    let n = cfg(4) as usize;
    let px = bytes(n);
    panics_iff(n != d.c as usize);
    if cfg(5) == 0 {
        img.set_pixel(0, 0, &px);
    } else {
        img.set_pixel_indexed(0, &px);
    }
    returned();
    for i in d.c as usize..d.n() {
        chk!(img.data()[i] == v[i], "other pixels");
    }
}
// ---------------------------------------------------------------- P02
#[no_mangle]
pub fn h_p02_ctor() {
    let d = dim(0);
    let v = contents(d.n());
    let c = d.c as usize;
    let img: Image<u8> = match cfg(4) {
        0 => Image::from_slice(d.w, d.h, d.c, d.a, &v),
        1 => Image::from_vec(d.w, d.h, d.c, d.a, v.clone()),
        2 => {
            let mut vv: Vec<Vec<u8>> = Vec::with_capacity(d.n() / c);
            for i in 0..d.n() / c {
                vv.push(v[i * c..i * c + c].to_vec());
            }
            Image::from_vec_of_vec(d.w, d.h, d.c, d.a, vv)
        }
        3 => {
            let mut vv: Vec<&[u8]> = Vec::with_capacity(d.n() / c);
            for i in 0..d.n() / c {
                vv.push(&v[i * c..i * c + c]);
            }
            Image::from_vec_of_slice(d.w, d.h, d.c, d.a, vv)
        }
        4 => Image::blank(d.info()),
        _ => Image::empty(d.info()),
    };
    let i = img.info();
    chk!(i.width == d.w && i.height == d.h && i.channels == d.c && i.alpha == d.a, "info");
    let n = if cfg(4) == 5 { 0 } else { d.n() };
    chk!(img.data().len() == n, "number of values");
    if img.data().len() == n {
        for k in 0..n {
            chk!(img.data()[k] == if cfg(4) == 4 { 0 } else { v[k] }, "values");
            observe(img.data()[k] as u64);
        }
    }
}
#[no_mangle]
pub fn h_p02_sizes() {
    let w = u32s();
    let h = u32s();
    let c = if cfg(0) == 1 { cfg(1) as u8 } else { u8s() };
    let a = range(2) == 1;
    let i = ImageInfo::new(w, h, c, a);
    let px = w as u64 * h as u64;
    let full = px as u128 * c as u128;
    if cfg(0) == 0 {
        assume(px <= u32::MAX as u64);
        chk!(i.size() as u64 == px, "size");
    } else if cfg(0) == 1 {
        assume(full <= u32::MAX as u128 && px <= u32::MAX as u64);
        chk!(i.full_size() as u128 == full, "full size");
    } else {
        assume(!(a && c == 0));
        chk!(i.channels_non_alpha() == if a { c - 1 } else { c }, "non-alpha channels");
        chk!(i.wh() == (w, h) && i.whc() == (w, h, c) && i.whca() == (w, h, c, a), "tuples");
        chk!(i.width == w && i.height == h && i.channels == c && i.alpha == a, "fields");
    }
}
// ---------------------------------------------------------------- P03
fn check_sub(s: &SubImage<u8>, w: u32, h: u32, d: Dim, e: &dyn Fn(u32, u32, u32) -> u8) {
    let i = s.info();
    chk!(i.width == w && i.height == h && i.channels == d.c && i.alpha == d.a, "sub-image shape");
    chk!(s.data().len() == (w * h) as usize, "sub-image pixel count");
    if s.data().len() != (w * h) as usize {
        return;
    }
    let flat = s.to_vec();
    chk!(flat.len() == (w * h) as usize * d.c as usize, "flattened length");
    for y in 0..h {
        for x in 0..w {
            let p = s.get_pixel(x, y);
            chk!(p.len() == d.c as usize, "pixel length");
            for k in 0..d.c as u32 {
                let v = e(x, y, k);
                chk!(p[k as usize] == v, "pixel by coordinates");
                chk!(flat[((y * w + x) * d.c as u32 + k) as usize] == v, "pixel in the flattened data");
                chk!(s[(y * w + x) as usize][k as usize] == v, "pixel by index");
                observe(p[k as usize] as u64);
            }
        }
    }
}
#[no_mangle]
pub fn h_p03_sub() {
    let d = dim(0);
    let (img, v) = img8(d);
    let x = coord(d.w, 0);
    let y = coord(d.h, 1);
    let (w, h) = if large() { (cfgu(38) + range(cfg(39) as u64) as u32, cfgu(40) + range(cfg(41) as u64) as u32) } else { (range(d.w as u64 + 1) as u32, range(d.h as u64 + 1) as u32) };
    assume((x + w <= d.w) & (y + h <= d.h));
    let (w, h) = (concrete(w as u64) as u32, concrete(h as u64) as u32);
    let (x, y) = if large() { (concrete(x as u64) as u32, concrete(y as u64) as u32) } else { (x, y) };
    let s = img.get_subimage(x, y, w, h);
    check_sub(&s, w, h, d, &|i, j, k| v[d.at(x + i, y + j, k)]);
}
#[no_mangle]
pub fn h_p03_n1() {
    let d = dim(0);
    let (img, v) = img8(d);
    let n = cfgu(4);
    let vert = cfg(5) != 0;
    let x = concrete(coord(d.w, 0) as u64) as u32;
    let y = concrete(coord(d.h, 1) as u64) as u32;
    let s = img.get_neighborhood_1d(x, y, n, vert);
    let (w, h) = if vert { (1, n) } else { (n, 1) };
    check_sub(&s, w, h, d, &|i, j, k| {
        let o = (i + j) as i64 - (n / 2) as i64;
        let (dx, dy) = if vert { (0, o) } else { (o, 0) };
        let sx = clampi(x as i64 + dx, 0, d.w as i64 - 1) as u32;
        let sy = clampi(y as i64 + dy, 0, d.h as i64 - 1) as u32;
        v[d.at(sx, sy, k)]
    });
}
#[no_mangle]
pub fn h_p03_n2() {
    let d = dim(0);
    let (img, v) = img8(d);
    let n = cfgu(4);
    let x = concrete(coord(d.w, 0) as u64) as u32;
    let y = concrete(coord(d.h, 1) as u64) as u32;
    let s = img.get_neighborhood_2d(x, y, n);
    check_sub(&s, n, n, d, &|i, j, k| {
        let sx = clampi(x as i64 + i as i64 - (n / 2) as i64, 0, d.w as i64 - 1) as u32;
        let sy = clampi(y as i64 + j as i64 - (n / 2) as i64, 0, d.h as i64 - 1) as u32;
        v[d.at(sx, sy, k)]
    });
}
// ---------------------------------------------------------------- P04
fn p04_item(d: Dim, v: &[u8], n: usize, item: Option<(u32, u32, &[u8])>) {
    let total = (d.w * d.h) as usize;
    match item {
        None => chk!(n >= total, "iteration ends early"),
        Some((x, y, p)) => {
            chk!(n < total, "iteration does not end");
            if n < total {
                chk!(x == n as u32 % d.w && y == n as u32 / d.w, "coordinates");
                chk!(p.len() == d.c as usize, "pixel length");
                for k in 0..d.c as usize {
                    chk!(p[k] == v[n * d.c as usize + k], "pixel");
                }
            }
        }
    }
}
/// the other ways of using the iterator after `a` steps: nth, count, last, fold, collect, skip, step_by, a clone
#[no_mangle]
pub fn h_p04_ways() {
    let d = dim(0);
    let (img, v) = img8(d);
    let total = (d.w * d.h) as usize;
    let (way, b) = (cfg(4), cfg(5) as usize);
    for a in 0..total + 2 {
        let left = if a < total { total - a } else { 0 };
        let mut it = (&img).into_iter();
        for _ in 0..a {
            it.next();
        }
        match way {
            0 => {
                p04_item(d, &v, a + b, it.nth(b));
                let l = if total > a + b + 1 { total - a - b - 1 } else { 0 };
                chk!(it.size_hint() == (l, Some(l)), "size hint after nth");
                p04_item(d, &v, a + b + 1, it.next());
            }
            1 => chk!(it.count() == left, "count"),
            2 => {
                let e = if left == 0 { total } else { total - 1 };
                p04_item(d, &v, e, it.last());
            }
            3 => {
                let mut n = a;
                let f = it.fold(0usize, |k, i| {
                    p04_item(d, &v, n, Some(i));
                    n += 1;
                    k + 1
                });
                chk!(f == left, "fold");
            }
            4 => {
                let all: Vec<(u32, u32, &[u8])> = it.collect();
                chk!(all.len() == left, "collect");
                for (k, i) in all.into_iter().enumerate() {
                    p04_item(d, &v, a + k, Some(i));
                }
            }
            5 => {
                let mut k = a + b;
                let mut s = it.skip(b);
                while k < total + b + 2 {
                    p04_item(d, &v, k, s.next());
                    k += 1;
                }
            }
            6 => {
                let mut k = a;
                for i in it.step_by(b + 1) {
                    p04_item(d, &v, k, Some(i));
                    k += b + 1;
                }
                chk!(k >= total, "step_by ends early");
            }
            7 => {
                let mut c = it.clone();
                it.next();
                p04_item(d, &v, a, c.next());
                p04_item(d, &v, a + 1, it.next());
            }
            _ => {
                let n = it.by_ref().take(b).count();
                chk!(n == core::cmp::min(b, left), "take");
                p04_item(d, &v, a + b, it.next());
            }
        }
    }
}
#[no_mangle]
pub fn h_p04_iter() {
    let d = dim(0);
    let (img, v) = img8(d);
    let total = (d.w * d.h) as usize;
    let mut it = (&img).into_iter();
    for n in 0..total + 2 {
        let left = if n < total { total - n } else { 0 };
        chk!(it.size_hint() == (left, Some(left)), "size hint");
        match it.next() {
            None => chk!(n >= total, "iteration ends early"),
            Some((x, y, p)) => {
                chk!(n < total, "iteration does not end");
                if n < total {
                    chk!(x == n as u32 % d.w && y == n as u32 / d.w, "coordinates");
                    chk!(p.len() == d.c as usize, "pixel length");
                    for k in 0..d.c as usize {
                        chk!(p[k] == v[n * d.c as usize + k], "pixel");
                        observe(p[k] as u64);
                    }
                }
            }
        }
    }
}
