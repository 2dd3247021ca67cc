#![allow(dead_code, unused_imports)]
use av_metrics::video::decode::*;
use av_metrics::video::*;
use av_metrics::video::{ciede::*, psnr::*, psnr_hvs::*, ssim::*};
use v_frame::frame::Frame;
use v_frame::plane::Plane;
use v_frame::prelude::*;

/// A generated video.
struct Src {
    w: usize,
    h: usize,
    depth: usize,
    cs: ChromaSampling,
    /// what the n-th read yields: a frame number, or nothing
    script: Box<dyn Fn(usize) -> Option<usize> + Send>,
    /// size of a frame
    size: Box<dyn Fn(usize) -> (usize, usize) + Send>,
    seed: u64,
    reads: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    wide: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}

fn src(n: usize, w: usize, h: usize, depth: usize, cs: ChromaSampling) -> Src {
    Src {
        w,
        h,
        depth,
        cs,
        script: Box::new(move |k| if k < n { Some(k) } else { None }),
        size: Box::new(move |_| (w, h)),
        seed: 1,
        reads: Default::default(),
        wide: Default::default(),
    }
}

fn noise(seed: u64, p: u64, x: u64, y: u64) -> u64 {
    let mut z = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (p << 40) ^ (y << 20) ^ x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn frame<T: Pixel>(w: usize, h: usize, cs: ChromaSampling, depth: usize, seed: u64) -> Frame<T> {
    let mut f: Frame<T> = Frame::new_with_padding(w, h, cs, 0);
    for p in 0..3 {
        fill(&mut f, p, |x, y| noise(seed, p as u64, x as u64, y as u64) as usize & ((1 << depth) - 1));
    }
    f
}

fn fill<T: Pixel>(f: &mut Frame<T>, p: usize, g: impl Fn(usize, usize) -> usize) {
    let (w, h, s) = (f.planes[p].cfg.width, f.planes[p].cfg.height, f.planes[p].cfg.stride);
    let d = f.planes[p].data_origin_mut();
    for y in 0..h {
        for x in 0..w {
            d[y * s + x] = T::cast_from(g(x, y) as u16);
        }
    }
}

impl Decoder for Src {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        use std::sync::atomic::Ordering::SeqCst;
        let k = self.reads.fetch_add(1, SeqCst);
        if std::mem::size_of::<T>() == 2 {
            self.wide.fetch_add(1, SeqCst);
        }
        let n = (self.script)(k)?;
        let (w, h) = (self.size)(n);
        Some(frame(w, h, self.cs, self.depth.min(8 * std::mem::size_of::<T>()), self.seed.wrapping_add(1000 * n as u64)))
    }
    fn get_bit_depth(&self) -> usize {
        self.depth
    }
    fn get_video_details(&self) -> VideoDetails {
        VideoDetails {
            width: self.w,
            height: self.h,
            bit_depth: self.depth,
            chroma_sampling: self.cs,
            ..Default::default()
        }
    }
}

fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
