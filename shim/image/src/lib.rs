//! Stand-in for the codec crate: decoding returns what a harness prepared, encoding records what
//! it was given. Covers the items that imgproc-rs uses.
pub mod stub {
    use crate::ColorType;
    pub struct Decoded {
        pub w: u32,
        pub h: u32,
        pub color: ColorType,
        pub bytes: Vec<u8>,
    }
    /// outcome of the next `open`/`decode`: 0 image, 1 open fails, 2 decode fails
    pub static mut MODE: u32 = 0;
    pub static mut NEXT: Option<Decoded> = None;
    /// outcome of the next `save`: 0 recorded, 1 fails
    pub static mut SAVE_MODE: u32 = 0;
    pub static mut SAVES: u32 = 0;
    pub static mut SAVED: Option<Decoded> = None;
    pub static mut OPENED: u32 = 0;
    /// the path given to the last `open` or `save`
    pub static mut PATH: Vec<u8> = Vec::new();
    pub fn note<P: AsRef<std::path::Path>>(p: P) {
        unsafe { PATH = p.as_ref().as_os_str().as_encoded_bytes().to_vec() }
    }
    #[allow(static_mut_refs)]
    pub fn path() -> Vec<u8> {
        unsafe { PATH.clone() }
    }
    pub fn opened() -> u32 {
        unsafe { OPENED }
    }
    pub fn set_next(mode: u32, d: Option<Decoded>) {
        unsafe {
            MODE = mode;
            NEXT = d;
        }
    }
    pub fn set_save(mode: u32) {
        unsafe { SAVE_MODE = mode }
    }
    pub fn saves() -> u32 {
        unsafe { SAVES }
    }
    #[allow(static_mut_refs)]
    pub fn saved() -> Option<Decoded> {
        unsafe { SAVED.take() }
    }
}
pub mod error {
    #[derive(Debug)]
    pub enum ImageError {
        Decoding(String),
        Encoding(String),
        IoError(std::io::Error),
    }
    impl From<std::io::Error> for ImageError {
        fn from(e: std::io::Error) -> Self {
            ImageError::IoError(e)
        }
    }
    impl std::fmt::Display for ImageError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("image error")
        }
    }
    impl std::error::Error for ImageError {}
    pub type ImageResult<T> = Result<T, ImageError>;
}
pub use error::{ImageError, ImageResult};

#[derive(Copy, PartialEq, Eq, Debug, Clone, Hash)]
#[non_exhaustive]
pub enum ColorType {
    L8,
    La8,
    Rgb8,
    Rgba8,
    L16,
    La16,
    Rgb16,
    Rgba16,
    Bgr8,
    Bgra8,
}
impl ColorType {
    pub fn bytes_per_pixel(self) -> u8 {
        match self {
            ColorType::L8 => 1,
            ColorType::L16 | ColorType::La8 => 2,
            ColorType::Rgb8 | ColorType::Bgr8 => 3,
            ColorType::Rgba8 | ColorType::Bgra8 | ColorType::La16 => 4,
            ColorType::Rgb16 => 6,
            ColorType::Rgba16 => 8,
        }
    }
    pub fn has_alpha(self) -> bool {
        matches!(self, ColorType::La8 | ColorType::Rgba8 | ColorType::La16 | ColorType::Rgba16 | ColorType::Bgra8)
    }
    pub fn channel_count(self) -> u8 {
        match self {
            ColorType::L8 | ColorType::L16 => 1,
            ColorType::La8 | ColorType::La16 => 2,
            ColorType::Rgb8 | ColorType::Bgr8 | ColorType::Rgb16 => 3,
            _ => 4,
        }
    }
}
pub struct DynamicImage(stub::Decoded);
impl DynamicImage {
    pub fn color(&self) -> ColorType {
        self.0.color
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.0.bytes
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        self.0.bytes.clone()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        self.0.bytes
    }
}
pub trait GenericImageView {
    fn dimensions(&self) -> (u32, u32);
    fn width(&self) -> u32 {
        self.dimensions().0
    }
    fn height(&self) -> u32 {
        self.dimensions().1
    }
}
impl GenericImageView for DynamicImage {
    fn dimensions(&self) -> (u32, u32) {
        (self.0.w, self.0.h)
    }
}
pub mod io {
    use crate::{stub, DynamicImage, ImageError};
    pub struct Reader(());
    impl Reader {
        pub fn open<P: AsRef<std::path::Path>>(path: P) -> std::io::Result<Reader> {
            stub::note(path);
            unsafe { stub::OPENED += 1 };
            if unsafe { stub::MODE } == 1 {
                return Err(std::io::Error::from(std::io::ErrorKind::NotFound));
            }
            Ok(Reader(()))
        }
        #[allow(static_mut_refs)]
        pub fn decode(self) -> Result<DynamicImage, ImageError> {
            if unsafe { stub::MODE } == 2 {
                return Err(ImageError::Decoding(String::new()));
            }
            match unsafe { stub::NEXT.take() } {
                Some(d) => Ok(DynamicImage(d)),
                None => Err(ImageError::Decoding(String::new())),
            }
        }
    }
}
pub trait Pixel {
    type Subpixel;
    const CHANNEL_COUNT: u8;
    const COLOR_TYPE: ColorType;
}
macro_rules! px {
    ($n:ident, $c:literal, $t:ident) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $n<T>(pub [T; $c]);
        impl Pixel for $n<u8> {
            type Subpixel = u8;
            const CHANNEL_COUNT: u8 = $c;
            const COLOR_TYPE: ColorType = ColorType::$t;
        }
    };
}
px!(Luma, 1, L8);
px!(LumaA, 2, La8);
px!(Rgb, 3, Rgb8);
px!(Rgba, 4, Rgba8);
px!(Bgr, 3, Bgr8);
px!(Bgra, 4, Bgra8);
pub struct ImageBuffer<P, C> {
    w: u32,
    h: u32,
    data: C,
    _p: std::marker::PhantomData<P>,
}
impl<P: Pixel, C: std::ops::Deref<Target = [u8]>> ImageBuffer<P, C> {
    pub fn from_raw(w: u32, h: u32, data: C) -> Option<Self> {
        let n = (w as usize).checked_mul(h as usize)?.checked_mul(P::CHANNEL_COUNT as usize)?;
        if n <= data.len() {
            Some(ImageBuffer { w, h, data, _p: std::marker::PhantomData })
        } else {
            None
        }
    }
    pub fn save<Q: AsRef<std::path::Path>>(&self, path: Q) -> ImageResult<()> {
        save_buffer(path, &self.data, self.w, self.h, P::COLOR_TYPE)
    }
}
pub fn save_buffer<Q: AsRef<std::path::Path>>(path: Q, buf: &[u8], w: u32, h: u32, color: ColorType) -> ImageResult<()> {
    stub::note(path);
    if unsafe { stub::SAVE_MODE } == 1 {
        return Err(ImageError::Encoding(String::new()));
    }
    unsafe {
        stub::SAVES += 1;
        stub::SAVED = Some(stub::Decoded { w, h, color, bytes: buf.to_vec() });
    }
    Ok(())
}
pub fn open<P: AsRef<std::path::Path>>(path: P) -> ImageResult<DynamicImage> {
    io::Reader::open(path)?.decode()
}
