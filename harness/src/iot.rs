//! Reading and writing against the stand-in codec (P38).
use crate::sym::*;
use image::{stub, ColorType};
use imgproc_rs::image::*;
use imgproc_rs::io;

fn color(i: u64) -> (ColorType, u8, Option<(u8, bool)>) {
    match i {
        0 => (ColorType::L8, 1, Some((1, false))),
        1 => (ColorType::La8, 2, Some((2, true))),
        2 => (ColorType::Rgb8, 3, Some((3, false))),
        3 => (ColorType::Rgba8, 4, Some((4, true))),
        4 => (ColorType::Bgr8, 3, Some((3, false))),
        5 => (ColorType::Bgra8, 4, Some((4, true))),
        6 => (ColorType::L16, 2, None),
        7 => (ColorType::La16, 4, None),
        8 => (ColorType::Rgb16, 6, None),
        _ => (ColorType::Rgba16, 8, None),
    }
}
#[no_mangle]
pub fn h_p38_read() {
    let (w, h) = (cfgu(0), cfgu(1));
    let (ct, bpp, want) = color(concrete(range(10)));
    let mode = concrete(range(3)) as u32;
    let v = contents((w * h) as usize * bpp as usize);
    stub::set_next(mode, Some(stub::Decoded { w, h, color: ct, bytes: v.clone() }));
    let r = io::read("in/put.png");
    chk!(stub::opened() == 1 && stub::path() == b"in/put.png", "the named file is opened");
    match r {
        Err(_) => chk!(mode != 0 || want.is_none(), "a supported image is read"),
        Ok(o) => {
            chk!(mode == 0 && want.is_some(), "a failure or an unsupported colour type is an error");
            if let Some((c, a)) = want {
                let ok = shape_is(&o, w, h, c, a);
                chk!(ok, "dimensions, channels and alpha flag of the decoded image");
                if ok {
                    for i in 0..v.len() {
                        chk!(o.data()[i] == v[i], "the decoded bytes in order");
                    }
                    observe_img(&o);
                }
            }
        }
    }
}
/// cfg 4: the difference of the data length to width * height * channels
#[no_mangle]
pub fn h_p38_write() {
    let d = dim(0);
    let n = d.n() as i64 + cfg(4);
    let v = contents(n as usize);
    let img = Image::from_vec(d.w, d.h, d.c, d.a, v.clone());
    let fail = concrete(range(2)) as u32;
    stub::set_save(fail);
    let r = io::write(&img, "out/put.png");
    let want = match (d.c, d.a) {
        (1, false) => Some(ColorType::L8),
        (2, true) => Some(ColorType::La8),
        (3, false) => Some(ColorType::Rgb8),
        (4, true) => Some(ColorType::Rgba8),
        _ => None,
    };
    let good = want.is_some() && cfg(4) == 0;
    match r {
        Err(_) => {
            chk!(!good || fail == 1, "a supported image is written");
            chk!(stub::saves() == 0, "nothing is written on an error");
        }
        Ok(()) => {
            chk!(good && fail == 0, "an unsupported layout, undersized data or an encoder failure is an error");
            chk!(stub::saves() == 1, "written once");
            chk!(stub::path() == b"out/put.png", "the named file is written");
            if let Some(s) = stub::saved() {
                let ok = s.w == d.w && s.h == d.h && s.bytes.len() == v.len() && Some(s.color) == want;
                chk!(ok, "dimensions and colour type");
                if ok {
                    for i in 0..v.len() {
                        chk!(s.bytes[i] == v[i], "the image's bytes in order");
                        observe(s.bytes[i] as u64);
                    }
                }
            }
        }
    }
}
