//! Harness functions: each states one property over the real crate, with every input symbolic.
#![allow(clippy::all)]
#[macro_use]
pub mod sym;
macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static TABLE: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
pub mod chan;
pub mod image;
pub mod transform;
pub mod maps;
pub mod filt;
pub mod rank;
pub mod morph;
pub mod color;
pub mod tone;
pub mod util;
pub mod bilateral;
#[cfg(not(feature = "realimage"))]
pub mod iot;
harnesses! {
    image::h_p01_read, image::h_p01_write, image::h_p01_oob, image::h_p01_len,
    image::h_p02_ctor, image::h_p02_sizes,
    image::h_p03_sub, image::h_p03_n1, image::h_p03_n2,
    image::h_p04_iter, image::h_p04_ways,
    transform::h_p07_crop, transform::h_p07_cropf, transform::h_p08_overlay, transform::h_p08_super, transform::h_p08_weight,
    transform::h_p09_translate, transform::h_p09_translatef, transform::h_p10_reflect, transform::h_p10_reflectf,
    transform::h_p11_quarter, transform::h_p11_any, transform::h_p11_angle,
    transform::h_p12_nearest, transform::h_p12_bilinear, transform::h_p12_any, transform::h_p12_neg,
    maps::h_p05_channels, maps::h_p05_pixels, maps::h_p05_apply, maps::h_p05_wrong, maps::h_p05_edit, maps::h_p05_pixel, maps::h_p05_pixelf,
    maps::h_p06_round, maps::h_p06_wide, maps::h_p06_nearest, maps::h_p06_nearest64, maps::h_p06_shifted, maps::h_p06_scale, maps::h_p06_channels,
    filt::h_p15_1d, filt::h_p15_sep, filt::h_p16_2d, filt::h_p16_linear, filt::h_p16_len, filt::h_p16_box, filt::h_p16_weighted,
    filt::h_p16_named, filt::h_p16_gauss, filt::h_p17_grad, filt::h_p17_weight, filt::h_p17_small, filt::h_p17_mask, filt::h_p18_thresh, filt::h_p21_residual, filt::h_p21_normalize, filt::h_p21_gray,
    rank::h_p19_median, rank::h_p20_mean, morph::h_p22_morph, morph::h_p23_morph, morph::h_p22_wide, morph::h_p23_wide,
    color::h_p24_gray, color::h_p24_grayf, color::h_p25_forward, color::h_p25_inverse, color::h_p25_round, color::h_p25_gray, color::h_p26,
    color::h_p27_lin, color::h_p27_mat, color::h_p27_gray, color::h_p27_lab, color::h_p27_round,
    tone::h_p28_brightness, tone::h_p29_saturation, tone::h_p30_gain, tone::h_p30_contrast, tone::h_p30_args, tone::h_p30_gamma,
    tone::h_p31_percentiles, tone::h_p31_many, tone::h_p31_equalize, tone::h_p31_args, tone::h_p39_lab, tone::h_p39_args,
    util::h_p32_table, util::h_p32_large, util::h_p33_mul, util::h_p33_mulf, util::h_p33_extreme, util::h_p33_coords, util::h_p33_distance, util::h_p33_lookup, util::h_p33_weights, util::h_p33_args, filt::h_p33_apply,
    util::h_p34_kernel, util::h_p34_even, util::h_p36_simd, util::h_p36_deinterleave,
    bilateral::h_p35_flat, bilateral::h_p35_average, bilateral::h_p35_args,
    transform::h_p13_weighted, transform::h_p14_shear, transform::h_p14_any,
}
#[cfg(not(feature = "realimage"))]
pub static IO: &[(&str, fn())] = &[("h_p38_read", iot::h_p38_read), ("h_p38_write", iot::h_p38_write)];
#[cfg(feature = "realimage")]
pub static IO: &[(&str, fn())] = &[];
