//! Instantiates the generic entry points of the library for the harness' decoder. A crate of its
//! own, so that the atomic operations of the instantiated library code can be instrumented without
//! instrumenting the harness.
use av_metrics::video::decode::*;
use av_metrics::video::*;
use std::error::Error;
use std::mem::ManuallyDrop;

pub trait Source: Send {
    fn read8(&mut self) -> Option<Frame<u8>>;
    fn read16(&mut self) -> Option<Frame<u16>>;
    fn details(&self) -> VideoDetails;
}
pub struct Dec(pub Box<dyn Source>);
fn cast<A: Pixel, B: Pixel>(f: Option<Frame<A>>) -> Option<Frame<B>> {
    assert_eq!(std::any::TypeId::of::<A>(), std::any::TypeId::of::<B>());
    let f = ManuallyDrop::new(f);
    // the types are the same
    unsafe { std::mem::transmute_copy::<Option<Frame<A>>, Option<Frame<B>>>(&f) }
}
impl Decoder for Dec {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        if std::mem::size_of::<T>() == 1 {
            cast(self.0.read8())
        } else {
            cast(self.0.read16())
        }
    }
    fn get_bit_depth(&self) -> usize {
        self.0.details().bit_depth
    }
    fn get_video_details(&self) -> VideoDetails {
        self.0.details()
    }
}
#[derive(Clone, Copy)]
pub enum Which {
    Psnr,
    Apsnr,
    Hvs,
    Ssim,
    Msssim,
    Ciede,
    CiedeScalar,
}
pub type Callback = Box<dyn Fn(usize) + Send>;
pub fn call(m: Which, a: &mut Dec, b: &mut Dec, limit: Option<usize>, cb: Callback) -> Result<Vec<f64>, Box<dyn Error>> {
    let pl = |p: PlanarMetrics| vec![p.y, p.u, p.v, p.avg];
    Ok(match m {
        Which::Psnr => pl(psnr::calculate_video_psnr(a, b, limit, cb)?),
        Which::Apsnr => pl(psnr::calculate_video_apsnr(a, b, limit, cb)?),
        Which::Hvs => pl(psnr_hvs::calculate_video_psnr_hvs(a, b, limit, cb)?),
        Which::Ssim => pl(ssim::calculate_video_ssim(a, b, limit, cb)?),
        Which::Msssim => pl(ssim::calculate_video_msssim(a, b, limit, cb)?),
        Which::Ciede => vec![ciede::calculate_video_ciede(a, b, limit, cb)?],
        Which::CiedeScalar => vec![ciede::calculate_video_ciede_nosimd(a, b, limit, cb)?],
    })
}

pub fn single8(m: Which, a: &Frame<u8>, b: &Frame<u8>, depth: usize, cs: ChromaSampling) -> Result<Vec<f64>, Box<dyn Error>> {
    single(m, a, b, depth, cs)
}
pub fn single16(m: Which, a: &Frame<u16>, b: &Frame<u16>, depth: usize, cs: ChromaSampling) -> Result<Vec<f64>, Box<dyn Error>> {
    single(m, a, b, depth, cs)
}
fn single<T: Pixel>(m: Which, a: &Frame<T>, b: &Frame<T>, depth: usize, cs: ChromaSampling) -> Result<Vec<f64>, Box<dyn Error>> {
    let pl = |p: PlanarMetrics| vec![p.y, p.u, p.v, p.avg];
    Ok(match m {
        Which::Psnr | Which::Apsnr => pl(psnr::calculate_frame_psnr(a, b, depth, cs)?),
        Which::Hvs => pl(psnr_hvs::calculate_frame_psnr_hvs(a, b, depth, cs)?),
        Which::Ssim => pl(ssim::calculate_frame_ssim(a, b, depth, cs)?),
        Which::Msssim => pl(ssim::calculate_frame_msssim(a, b, depth, cs)?),
        Which::Ciede => vec![ciede::calculate_frame_ciede(a, b, depth, cs)?],
        Which::CiedeScalar => vec![ciede::calculate_frame_ciede_nosimd(a, b, depth, cs)?],
    })
}
