//! Names the generic entry points of av-metrics at concrete types, so that the
//! compiler monomorphises them and the MIR driver can see what they resolve to.
//! Nothing in this crate is ever executed.
#![allow(dead_code, clippy::all)]
use av_metrics::video::decode::{convert_chroma_data, Decoder, VideoDetails};
use av_metrics::video::*;
use std::error::Error;

type R<T> = Result<T, Box<dyn Error>>;

/// A decoder about which nothing is known.
pub struct Dec {
    pub state: u64,
}
extern "Rust" {
    fn opaque_depth(d: &Dec) -> usize;
    fn opaque_details(d: &Dec) -> VideoDetails;
}
fn opaque_read<T: Pixel>(_d: &mut Dec) -> Option<Frame<T>> {
    loop {}
}
impl Decoder for Dec {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        opaque_read::<T>(self)
    }
    fn get_bit_depth(&self) -> usize {
        unsafe { opaque_depth(self) }
    }
    fn get_video_details(&self) -> VideoDetails {
        unsafe { opaque_details(self) }
    }
}
fn opaque_progress(_n: usize) {
    loop {}
}
pub fn cb(n: usize) {
    opaque_progress(n)
}

macro_rules! roots {
    ($($f:ident, $v:ident, $m:ident, $r:ty;)*) => { $(
        pub mod $m {
            use super::*;
            pub fn frame_u8(a: &Frame<u8>, b: &Frame<u8>, d: usize, c: ChromaSampling) -> R<$r> { $f(a, b, d, c) }
            pub fn frame_u16(a: &Frame<u16>, b: &Frame<u16>, d: usize, c: ChromaSampling) -> R<$r> { $f(a, b, d, c) }
            pub fn video(a: &mut Dec, b: &mut Dec, l: Option<usize>) -> R<$r> { $v(a, b, l, cb) }
        }
    )* };
}
use av_metrics::video::{ciede::*, psnr::*, psnr_hvs::*, ssim::*};
fn calculate_frame_apsnr<T: Pixel>(a: &Frame<T>, b: &Frame<T>, d: usize, c: ChromaSampling) -> R<PlanarMetrics> {
    calculate_frame_psnr(a, b, d, c)
}
roots! {
    calculate_frame_psnr, calculate_video_psnr, r_psnr, PlanarMetrics;
    calculate_frame_apsnr, calculate_video_apsnr, r_apsnr, PlanarMetrics;
    calculate_frame_psnr_hvs, calculate_video_psnr_hvs, r_psnr_hvs, PlanarMetrics;
    calculate_frame_ssim, calculate_video_ssim, r_ssim, PlanarMetrics;
    calculate_frame_msssim, calculate_video_msssim, r_msssim, PlanarMetrics;
    calculate_frame_ciede, calculate_video_ciede, r_ciede, f64;
    calculate_frame_ciede_nosimd, calculate_video_ciede_nosimd, r_ciede_nosimd, f64;
}

pub fn convert_u8(p: &mut Plane<u8>, c: ChromaSamplePosition, d: usize, s: &[u8], st: usize, bw: usize) {
    convert_chroma_data(p, c, d, s, st, bw)
}
pub fn convert_u16(p: &mut Plane<u16>, c: ChromaSamplePosition, d: usize, s: &[u8], st: usize, bw: usize) {
    convert_chroma_data(p, c, d, s, st, bw)
}
pub fn specific_u8(d: &mut Dec, n: usize) -> Option<Frame<u8>> {
    d.read_specific_frame::<u8>(n)
}
pub fn specific_u16(d: &mut Dec, n: usize) -> Option<Frame<u16>> {
    d.read_specific_frame::<u16>(n)
}

pub mod r_y4m {
    use super::*;
    use av_metrics_decoders::Y4MDecoder;
    use std::fs::File;
    use std::io::BufReader;
    type D = Y4MDecoder<BufReader<File>>;
    pub fn read_u8(d: &mut D) -> Option<Frame<u8>> { d.read_video_frame::<u8>() }
    pub fn read_u16(d: &mut D) -> Option<Frame<u16>> { d.read_video_frame::<u16>() }
    pub fn specific_u8(d: &mut D, n: usize) -> Option<Frame<u8>> { d.read_specific_frame::<u8>(n) }
    pub fn specific_u16(d: &mut D, n: usize) -> Option<Frame<u16>> { d.read_specific_frame::<u16>(n) }
    pub fn details(d: &D) -> VideoDetails { d.get_video_details() }
    pub fn depth(d: &D) -> usize { d.get_bit_depth() }
    pub fn open(p: &str) -> Result<D, String> { av_metrics_decoders::y4m::new_decoder_from_file(p) }
}

#[cfg(feature = "ffmpeg")]
pub mod r_ffmpeg {
    use super::*;
    use av_metrics_decoders::FfmpegDecoder as D;
    pub fn read_u8(d: &mut D) -> Option<Frame<u8>> { d.read_video_frame::<u8>() }
    pub fn read_u16(d: &mut D) -> Option<Frame<u16>> { d.read_video_frame::<u16>() }
    pub fn specific_u8(d: &mut D, n: usize) -> Option<Frame<u8>> { d.read_specific_frame::<u8>(n) }
    pub fn specific_u16(d: &mut D, n: usize) -> Option<Frame<u16>> { d.read_specific_frame::<u16>(n) }
    pub fn details(d: &D) -> VideoDetails { d.get_video_details() }
    pub fn depth(d: &D) -> usize { d.get_bit_depth() }
    pub fn open(p: &str) -> Result<D, String> { D::new(p) }
}
