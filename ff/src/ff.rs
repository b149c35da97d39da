//! C26: the ffmpeg decoder on streams of many codecs, containers, formats, orders and lengths.
use crate::common::*;
use crate::y4m::{expected, read_one, read_sized, stream, Got, Scratch};
use av_metrics::video::decode::Decoder;
use av_metrics::video::ChromaSamplePosition as Pos;
use av_metrics_decoders::FfmpegDecoder;
use ffmpeg_the_third::ffi::*;
use std::cell::Cell;
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn viol(ctx: &mut Ctx, what: &str, case: &str) {
    ctx.violation(format!("{{\"what\":{},\"case\":{}}}", jesc(what), jesc(case)));
}

// ------------------------------------------------------------------ calls that never return
static CUR: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(vec![]);
fn watch() {
    CUR.lock().unwrap().resize(64, None);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let id = std::env::args().nth(1).unwrap_or_default();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for c in CUR.lock().unwrap().iter().flatten() {
            if c.0.elapsed().as_secs() >= 40 {
                println!("  the end of the stream is never reached: {}", c.1);
                let p = crate::harness::write_replay(&root, &id, &[format!("{{\"what\":\"the end of the stream is never reached\",\"case\":{}}}", jesc(&c.1))]);
                println!("VIOLATION property={id} replay={p}");
                std::process::exit(1);
            }
        }
    });
}
fn timed<R>(ctx: &Ctx, case: &str, f: impl FnOnce() -> R) -> R {
    CUR.lock().unwrap()[ctx.id] = Some((Instant::now(), case.to_string()));
    let r = f();
    CUR.lock().unwrap()[ctx.id] = None;
    r
}

// ------------------------------------------------------------------ injected read errors
thread_local! {
    /// reads of this thread left before every read fails (MAX: never)
    static READS: Cell<usize> = const { Cell::new(usize::MAX) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}
/// # Safety
/// as read(2)
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    let fail = READS.try_with(|r| {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        match r.get() {
            usize::MAX => false,
            0 => true,
            k => {
                r.set(k - 1);
                false
            }
        }
    });
    if fail == Ok(true) {
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

// ------------------------------------------------------------------ encoding
#[derive(Clone, Copy)]
struct Codec {
    name: &'static str,
    conts: &'static [&'static str],
    fmts: &'static [(Cs, usize)],
    lossless: bool,
    opts: &'static [(&'static str, &'static str)],
    max_b: usize,
    gops: &'static [i32],
    /// full range (yuvj) formats
    j: bool,
}
const A8: &[(Cs, usize)] = &[(Cs::Cs420, 8), (Cs::Cs422, 8), (Cs::Cs444, 8)];
const A810: &[(Cs, usize)] = &[(Cs::Cs420, 8), (Cs::Cs422, 8), (Cs::Cs444, 8), (Cs::Cs420, 10), (Cs::Cs422, 10), (Cs::Cs444, 10)];
const ALL: &[(Cs, usize)] =
    &[(Cs::Cs420, 8), (Cs::Cs422, 8), (Cs::Cs444, 8), (Cs::Cs420, 10), (Cs::Cs422, 10), (Cs::Cs444, 10), (Cs::Cs420, 12), (Cs::Cs422, 12), (Cs::Cs444, 12)];
const F420: &[(Cs, usize)] = &[(Cs::Cs420, 8)];
const F422: &[(Cs, usize)] = &[(Cs::Cs422, 8)];
const M422: &[(Cs, usize)] = &[(Cs::Cs420, 8), (Cs::Cs422, 8)];
#[rustfmt::skip]
const CODECS: &[Codec] = &[
    Codec { name: "rawvideo", conts: &["nut"], fmts: ALL, lossless: true, opts: &[], max_b: 0, gops: &[1], j: false },
    Codec { name: "ffv1", conts: &["nut", "matroska", "avi", "mov"], fmts: ALL, lossless: true, opts: &[], max_b: 0, gops: &[1], j: false },
    Codec { name: "ffvhuff", conts: &["nut", "avi"], fmts: ALL, lossless: true, opts: &[], max_b: 0, gops: &[1], j: false },
    Codec { name: "huffyuv", conts: &["avi"], fmts: F422, lossless: true, opts: &[], max_b: 0, gops: &[1], j: false },
    Codec { name: "utvideo", conts: &["avi", "matroska"], fmts: A8, lossless: true, opts: &[], max_b: 0, gops: &[1], j: false },
    Codec { name: "magicyuv", conts: &["avi"], fmts: A8, lossless: true, opts: &[], max_b: 0, gops: &[1], j: false },
    Codec { name: "libopenjpeg", conts: &["nut"], fmts: ALL, lossless: true, opts: &[("cinema_mode", "off"), ("irreversible", "0")], max_b: 0, gops: &[1], j: false },
    Codec { name: "libx264", conts: &["matroska", "mp4", "mpegts", "h264", "nut"], fmts: A810, lossless: true, opts: &[("qp", "0"), ("preset", "veryfast"), ("sc_threshold", "0"), ("b_strategy", "0"), ("rc-lookahead", "0")], max_b: 3, gops: &[1, 4, 12], j: false },
    Codec { name: "libx265", conts: &["matroska", "mpegts"], fmts: &[(Cs::Cs420, 8), (Cs::Cs422, 10), (Cs::Cs444, 12)], lossless: true, opts: &[("x265-params", "lossless=1:pools=none:frame-threads=1:log-level=none:b-adapt=0:scenecut=0:rc-lookahead=4"), ("preset", "ultrafast")], max_b: 2, gops: &[8], j: false },
    Codec { name: "libvpx-vp9", conts: &["webm", "ivf"], fmts: ALL, lossless: true, opts: &[("lossless", "1"), ("auto-alt-ref", "1"), ("lag-in-frames", "5"), ("deadline", "good"), ("cpu-used", "5"), ("arnr-strength", "3"), ("arnr-maxframes", "5")], max_b: 0, gops: &[1, 12], j: false },
    Codec { name: "libaom-av1", conts: &["matroska", "obu"], fmts: &[(Cs::Cs420, 8), (Cs::Cs444, 10)], lossless: true, opts: &[("aom-params", "lossless=1"), ("cpu-used", "8"), ("lag-in-frames", "5"), ("row-mt", "0")], max_b: 0, gops: &[12], j: false },
    Codec { name: "libvpx", conts: &["webm", "ivf"], fmts: F420, lossless: false, opts: &[("auto-alt-ref", "1"), ("lag-in-frames", "5"), ("deadline", "good"), ("cpu-used", "5"), ("arnr-strength", "3"), ("arnr-maxframes", "5")], max_b: 0, gops: &[12], j: false },
    Codec { name: "mpeg1video", conts: &["mpeg", "mpeg1video"], fmts: F420, lossless: false, opts: &[], max_b: 2, gops: &[1, 4, 12], j: false },
    Codec { name: "mpeg2video", conts: &["mpegts", "matroska", "vob", "mpeg2video"], fmts: M422, lossless: false, opts: &[], max_b: 3, gops: &[1, 4, 12], j: false },
    Codec { name: "mpeg4", conts: &["avi", "mp4", "matroska", "m4v"], fmts: F420, lossless: false, opts: &[], max_b: 3, gops: &[1, 4, 12], j: false },
    Codec { name: "libxvid", conts: &["avi", "nut"], fmts: F420, lossless: false, opts: &[], max_b: 2, gops: &[12], j: false },
    Codec { name: "libtheora", conts: &["ogg", "matroska"], fmts: A8, lossless: false, opts: &[], max_b: 0, gops: &[1, 12], j: false },
    Codec { name: "mjpeg", conts: &["avi", "mov", "mjpeg"], fmts: A8, lossless: false, opts: &[], max_b: 0, gops: &[1], j: true },
    Codec { name: "wmv2", conts: &["asf", "avi"], fmts: F420, lossless: false, opts: &[], max_b: 0, gops: &[12], j: false },
    Codec { name: "flv", conts: &["flv"], fmts: F420, lossless: false, opts: &[], max_b: 0, gops: &[12], j: false },
    Codec { name: "snow", conts: &["nut"], fmts: &[(Cs::Cs420, 8), (Cs::Cs444, 8)], lossless: false, opts: &[], max_b: 0, gops: &[12], j: false },
    Codec { name: "prores_ks", conts: &["mov"], fmts: &[(Cs::Cs422, 10), (Cs::Cs444, 10)], lossless: false, opts: &[], max_b: 0, gops: &[1], j: false },
];
#[derive(Clone)]
struct Spec {
    c: &'static Codec,
    cont: &'static str,
    cs: Cs,
    depth: usize,
    w: usize,
    h: usize,
    n: usize,
    gop: i32,
    b: usize,
    /// 0 none, 1 audio interleaved, 2 audio stream first, 3 audio outlasts the video
    audio: usize,
    /// picture times are multiples of this; some containers store empty packets in between
    gap: usize,
    /// after this many pictures, the times jump ahead
    jump: usize,
}
impl Spec {
    fn show(&self) -> String {
        format!("{} in {} {}x{} {} {}bit, {} pictures, gop {}, {} B, audio {}, times x{} jump after {}", self.c.name, self.cont, self.w, self.h, cs_name(self.cs), self.depth, self.n, self.gop, self.b, self.audio, self.gap, self.jump)
    }
    fn pics(&self) -> Vec<Pic> {
        (0..self.n).map(|i| Pat::Noise(i as u32 + 1).pic(self.w, self.h, self.cs, self.depth)).collect()
    }
    fn fmt(&self) -> AVPixelFormat {
        use AVPixelFormat::*;
        match (self.cs, self.depth, self.c.j) {
            (Cs::Cs420, 8, false) => AV_PIX_FMT_YUV420P,
            (Cs::Cs422, 8, false) => AV_PIX_FMT_YUV422P,
            (Cs::Cs444, 8, false) => AV_PIX_FMT_YUV444P,
            (Cs::Cs420, 8, true) => AV_PIX_FMT_YUVJ420P,
            (Cs::Cs422, 8, true) => AV_PIX_FMT_YUVJ422P,
            (Cs::Cs444, 8, true) => AV_PIX_FMT_YUVJ444P,
            (Cs::Cs420, 10, _) => AV_PIX_FMT_YUV420P10LE,
            (Cs::Cs422, 10, _) => AV_PIX_FMT_YUV422P10LE,
            (Cs::Cs444, 10, _) => AV_PIX_FMT_YUV444P10LE,
            (Cs::Cs420, 12, _) => AV_PIX_FMT_YUV420P12LE,
            (Cs::Cs422, 12, _) => AV_PIX_FMT_YUV422P12LE,
            (Cs::Cs444, 12, _) => AV_PIX_FMT_YUV444P12LE,
            _ => AV_PIX_FMT_NONE,
        }
    }
}
struct Enc {
    oc: *mut AVFormatContext,
    cx: *mut AVCodecContext,
    pk: *mut AVPacket,
}
impl Drop for Enc {
    fn drop(&mut self) {
        unsafe {
            av_packet_free(&mut self.pk);
            avcodec_free_context(&mut self.cx);
            if !self.oc.is_null() {
                avio_closep(&mut (*self.oc).pb);
                avformat_free_context(self.oc);
            }
        }
    }
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
/// Err: this combination cannot be encoded
fn encode(s: &Spec, path: &Path) -> Result<(), String> {
    let pics = s.pics();
    unsafe {
        let mut e = Enc { oc: null_mut(), cx: null_mut(), pk: av_packet_alloc() };
        let p = cs(path.to_str().unwrap());
        let ok = |r: i32, what: &str| if r < 0 { Err(format!("{what}: {r}")) } else { Ok(()) };
        ok(avformat_alloc_output_context2(&mut e.oc, null_mut(), cs(s.cont).as_ptr(), p.as_ptr()), "container")?;
        let codec = avcodec_find_encoder_by_name(cs(s.c.name).as_ptr());
        if codec.is_null() {
            return Err("no such encoder".into());
        }
        let add_audio = |oc: *mut AVFormatContext| {
            let st = avformat_new_stream(oc, null());
            let cp = (*st).codecpar;
            (*cp).codec_type = AVMediaType::AVMEDIA_TYPE_AUDIO;
            (*cp).codec_id = AVCodecID::AV_CODEC_ID_PCM_S16LE;
            (*cp).format = AVSampleFormat::AV_SAMPLE_FMT_S16 as i32;
            (*cp).sample_rate = 8000;
            av_channel_layout_default(&mut (*cp).ch_layout, 1);
            (*cp).block_align = 2;
            (*cp).bits_per_coded_sample = 16;
            (*cp).bit_rate = 128000;
            (*st).time_base = AVRational { num: 1, den: 8000 };
            (*st).index
        };
        let mut ai = -1;
        if s.audio == 2 {
            ai = add_audio(e.oc);
        }
        let st = avformat_new_stream(e.oc, null());
        let vi = (*st).index;
        if matches!(s.audio, 1 | 3) {
            ai = add_audio(e.oc);
        }
        e.cx = avcodec_alloc_context3(codec);
        let cx = e.cx;
        (*cx).width = s.w as i32;
        (*cx).height = s.h as i32;
        (*cx).pix_fmt = s.fmt();
        (*cx).time_base = AVRational { num: 1, den: 25 };
        (*cx).framerate = AVRational { num: 25, den: 1 };
        (*cx).gop_size = s.gop;
        (*cx).max_b_frames = s.b as i32;
        (*cx).thread_count = 1;
        (*cx).strict_std_compliance = -2;
        (*cx).bit_rate = 2_000_000;
        if (*(*e.oc).oformat).flags & AVFMT_GLOBALHEADER as i32 != 0 {
            (*cx).flags |= AV_CODEC_FLAG_GLOBAL_HEADER as i32;
        }
        let mut d = null_mut();
        for (k, v) in s.c.opts {
            av_dict_set(&mut d, cs(k).as_ptr(), cs(v).as_ptr(), 0);
        }
        let r = avcodec_open2(cx, codec, &mut d);
        av_dict_free(&mut d);
        ok(r, "open")?;
        ok(avcodec_parameters_from_context((*st).codecpar, cx), "parameters")?;
        (*st).time_base = (*cx).time_base;
        (*st).avg_frame_rate = (*cx).framerate;
        ok(avio_open(&mut (*e.oc).pb, p.as_ptr(), AVIO_FLAG_WRITE as i32), "create")?;
        ok(avformat_write_header(e.oc, null_mut()), "header")?;
        let pk = e.pk;
        let oc = e.oc;
        let sound = |i: usize| {
            if ai < 0 {
                return 0;
            }
            let q = av_packet_alloc();
            av_new_packet(q, 640);
            std::ptr::write_bytes((*q).data, 0, 640);
            (*q).stream_index = ai;
            (*q).pts = i as i64 * 320;
            (*q).dts = (*q).pts;
            (*q).duration = 320;
            (*q).flags |= AV_PKT_FLAG_KEY as i32;
            let ast = *(*oc).streams.add(ai as usize);
            av_packet_rescale_ts(q, AVRational { num: 1, den: 8000 }, (*ast).time_base);
            let r = av_interleaved_write_frame(oc, q);
            let mut q = q;
            av_packet_free(&mut q);
            r
        };
        let drain = || -> Result<(), String> { loop {
            match avcodec_receive_packet(cx, pk) {
                r if r == -libc::EAGAIN || r == AVERROR_EOF => return Ok(()),
                r => ok(r, "encode")?,
            }
            av_packet_rescale_ts(pk, (*cx).time_base, (*st).time_base);
            (*pk).stream_index = vi;
            ok(av_interleaved_write_frame(oc, pk), "write")?;
        }};
        for (i, p) in pics.iter().enumerate() {
            let mut f = av_frame_alloc();
            (*f).width = s.w as i32;
            (*f).height = s.h as i32;
            (*f).format = s.fmt() as i32;
            (*f).pts = (i * s.gap + if i > s.jump { 5 } else { 0 }) as i64;
            av_frame_get_buffer(f, 0);
            for k in 0..3 {
                for y in 0..p.p[k].h {
                    let row = (*f).data[k].offset((*f).linesize[k] as isize * y as isize);
                    for x in 0..p.p[k].w {
                        let v = p.p[k].at(x, y);
                        if s.depth > 8 {
                            *(row as *mut u16).add(x) = v;
                        } else {
                            *row.add(x) = v as u8;
                        }
                    }
                }
            }
            let r = avcodec_send_frame(cx, f);
            av_frame_free(&mut f);
            ok(r, "send")?;
            ok(sound(i), "audio")?;
            drain()?;
        }
        avcodec_send_frame(cx, null());
        drain()?;
        if s.audio == 3 {
            for i in s.n..s.n + 60 {
                ok(sound(i), "audio")?;
            }
        }
        ok(av_write_trailer(oc), "trailer")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ reference decoding
struct Ref {
    /// in output order
    pics: Vec<Pic>,
    pts: Vec<i64>,
    bad: usize,
}
fn ref_decode(path: &Path) -> Result<Ref, String> {
    unsafe {
        let mut ic = null_mut();
        let p = cs(path.to_str().unwrap());
        if avformat_open_input(&mut ic, p.as_ptr(), null(), null_mut()) < 0 {
            return Err("open".into());
        }
        struct G(*mut AVFormatContext, *mut AVCodecContext, *mut AVPacket, *mut AVFrame);
        impl Drop for G {
            fn drop(&mut self) {
                unsafe {
                    av_frame_free(&mut self.3);
                    av_packet_free(&mut self.2);
                    avcodec_free_context(&mut self.1);
                    avformat_close_input(&mut self.0);
                }
            }
        }
        let mut g = G(ic, null_mut(), av_packet_alloc(), av_frame_alloc());
        if avformat_find_stream_info(ic, null_mut()) < 0 {
            return Err("info".into());
        }
        let mut codec = null();
        let si = av_find_best_stream(ic, AVMediaType::AVMEDIA_TYPE_VIDEO, -1, -1, &mut codec as *mut _ as *mut _, 0);
        if si < 0 {
            return Err("no video".into());
        }
        let st = *(*ic).streams.add(si as usize);
        g.1 = avcodec_alloc_context3(codec);
        let cx = g.1;
        avcodec_parameters_to_context(cx, (*st).codecpar);
        (*cx).thread_count = 1;
        (*cx).pkt_timebase = (*st).time_base;
        if avcodec_open2(cx, codec, null_mut()) < 0 {
            return Err("codec".into());
        }
        let (pk, fr) = (g.2, g.3);
        let mut out = Ref { pics: vec![], pts: vec![], bad: 0 };
        let mut take = || -> Result<bool, String> {
            match avcodec_receive_frame(cx, fr) {
                0 => {}
                r if r == -libc::EAGAIN || r == AVERROR_EOF => return Ok(false),
                _ => {
                    out.bad += 1;
                    return Ok(false);
                }
            }
            out.pts.push((*fr).best_effort_timestamp);
            out.pics.push(pic_of(fr)?);
            Ok(true)
        };
        loop {
            match av_read_frame(ic, pk) {
                0 => {
                    if (*pk).stream_index == si && (*pk).size > 0 {
                        loop {
                            let r = avcodec_send_packet(cx, pk);
                            while take()? {}
                            if r != -libc::EAGAIN {
                                break;
                            }
                        }
                    }
                    av_packet_unref(pk);
                }
                _ => break,
            }
        }
        avcodec_send_packet(cx, null());
        while take()? {}
        Ok(out)
    }
}
unsafe fn pic_of(f: *const AVFrame) -> Result<Pic, String> {
    let d = av_pix_fmt_desc_get(std::mem::transmute::<i32, AVPixelFormat>((*f).format));
    let depth = (*d).comp[0].depth as usize;
    let c = match ((*d).log2_chroma_w, (*d).log2_chroma_h) {
        (1, 1) => Cs::Cs420,
        (1, 0) => Cs::Cs422,
        (0, 0) => Cs::Cs444,
        _ => return Err("pixel format".into()),
    };
    if (*d).nb_components != 3 {
        return Err("pixel format".into());
    }
    Ok(Pic::new((*f).width as usize, (*f).height as usize, c, depth, |p, x, y| {
        let row = (*f).data[p].offset((*f).linesize[p] as isize * y as isize);
        if depth > 8 {
            *(row as *const u16).add(x)
        } else {
            *row.add(x) as u16
        }
    }))
}

// ------------------------------------------------------------------ the decoder under test
thread_local! {
    /// what the decoder opened last declares
    static DECLARED: Cell<Option<(Cs, usize)>> = const { Cell::new(None) };
}
/// all pictures up to the end, which must be final
fn all(path: &Path, most: usize) -> Result<(Vec<Pic>, Pos), String> {
    run(path, most, |d| read_one(d, None))
}
fn run(path: &Path, most: usize, read: impl Fn(&mut FfmpegDecoder) -> Got) -> Result<(Vec<Pic>, Pos), String> {
    let mut d = guard(|| FfmpegDecoder::new(path)).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("open: {e}"))?;
    let info = d.get_video_details();
    let pos = info.chroma_sample_position;
    DECLARED.set([Cs::Cs420, Cs::Cs422, Cs::Cs444].into_iter().find(|c| *c == info.chroma_sampling).map(|c| (c, info.bit_depth)));
    let mut v = vec![];
    loop {
        match read(&mut d) {
            Got::Frame(p) => v.push(p),
            Got::End => break,
            Got::Bad(e) => return Err(format!("picture {}: {e}", v.len())),
        }
        if v.len() > most {
            return Err(format!("more than {most} pictures"));
        }
    }
    for _ in 0..3 {
        if !matches!(read(&mut d), Got::End) {
            return Err("a picture after the end".into());
        }
    }
    Ok((v, pos))
}
fn same(got: &[Pic], want: &[Pic]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} pictures instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            if let Some(j) = want.iter().position(|w| g == w) {
                return Err(format!("picture {j} is delivered as picture {i}"));
            }
            return Err(format!("picture {i} differs"));
        }
    }
    Ok(())
}
/// VERIF: is the sampling grid the decoder declares the one of the pixel format?
fn siting(s: &Spec, pos: Pos) -> Result<(), String> {
    let want = if s.cs == Cs::Cs422 && !s.c.j { Pos::Vertical } else { Pos::Colocated };
    if pos != want {
        return Err(format!("declares chroma {pos:?}"));
    }
    Ok(())
}
fn hash(p: &[Pic]) -> u64 {
    let mut v = vec![p.len() as u64];
    for p in p {
        for k in &p.p {
            v.extend(k.d.iter().take(64).map(|x| *x as u64));
        }
    }
    h64(&v) | 1
}
static SKIPPED: AtomicUsize = AtomicUsize::new(0);
static UNORDERED: AtomicUsize = AtomicUsize::new(0);
static INEXACT: AtomicUsize = AtomicUsize::new(0);

fn one(ctx: &mut Ctx, s: &Spec, file: &Path) {
    let verbose = std::env::var("FF_VERBOSE").is_ok();
    if let Err(e) = encode(s, file) {
        if verbose {
            eprintln!("refused: {}: {e}", s.show());
        }
        SKIPPED.fetch_add(1, SeqCst);
        return;
    }
    let Ok(r) = ref_decode(file) else {
        if verbose {
            eprintln!("undecodable: {}", s.show());
        }
        SKIPPED.fetch_add(1, SeqCst);
        return;
    };
    if r.pics.iter().any(|p| (p.p[0].w, p.p[0].h, p.cs, p.depth) != (s.w, s.h, s.cs, s.depth)) {
        if verbose {
            eprintln!("changed: {}", s.show());
        }
        SKIPPED.fetch_add(1, SeqCst);
        return;
    }
    if r.pts.iter().all(|p| *p != AV_NOPTS_VALUE) && r.pts.windows(2).any(|w| w[0] >= w[1]) {
        UNORDERED.fetch_add(1, SeqCst);
        if verbose {
            eprintln!("unordered: {} {:?}", s.show(), r.pts);
        }
    }
    let src = s.pics();
    if s.c.lossless && r.pics != src {
        INEXACT.fetch_add(1, SeqCst);
        if verbose {
            eprintln!("inexact: {} ({:?})", s.show(), same(&r.pics, &src));
        }
    }
    let case = s.show();
    match timed(ctx, &case, || all(file, s.n + 8)) {
        Err(e) if e.starts_with("open:") && s.n == 0 => ctx.count(0),
        Err(e) => viol(ctx, &e, &case),
        Ok((got, pos)) => {
            let want: Vec<Pic> = r.pics.iter().map(|p| expected(p, pos)).collect();
            ctx.count(hash(&got) ^ h64(&[s.n as u64, s.b as u64, s.gop as u64, case.len() as u64]));
            ctx.sample(|| format!("{{\"case\":{},\"outcome\":{}}}", jesc(&case), jesc(&format!("{} pictures", got.len()))));
            if let Err(e) = same(&got, &want).and_then(|_| siting(s, pos)) {
                viol(ctx, &e, &case);
            }
        }
    }
}

pub fn c23(r: &Run) {
    unsafe { av_log_set_level(AV_LOG_QUIET as i32) };
    watch();
    crate::y4m::c23(r);
    let d = Scratch::new("c23ff");
    histories(r, &d);
}
pub fn c26(r: &Run) {
    unsafe { av_log_set_level(AV_LOG_QUIET as i32) };
    watch();
    let t = r.thorough;
    let d = Scratch::new("c26");
    let mut specs: Vec<Spec> = vec![];
    for c in CODECS {
        for cont in c.conts {
            for &(cs, depth) in c.fmts {
                let heavy = matches!(c.name, "libx265" | "libaom-av1");
                let sizes: &[(usize, usize)] = if heavy { &[(32, 18)] } else { &[(16, 16), (34, 18), (33, 17)] };
                for &(w, h) in sizes {
                    for n in 0..=if t { 16 } else { 9 } {
                        for &gop in c.gops {
                            for b in 0..=c.max_b {
                                if heavy && !t && n % 3 != 1 {
                                    continue;
                                }
                                let spec = Spec { c, cont, cs, depth, w, h, n, gop, b, audio: 0, gap: 1, jump: usize::MAX };
                                specs.push(spec.clone());
                                if (w, gop) == (16, *c.gops.last().unwrap()) && b == c.max_b && (cs, depth) == c.fmts[0] {
                                    for (gap, jump) in [(2, 99), (3, 99), (1, 0), (1, 1), (1, 2), (2, 3)] {
                                        specs.push(Spec { gap, jump, ..spec.clone() });
                                    }
                                    for audio in 1..=3 {
                                        specs.push(Spec { audio, ..spec.clone() });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // long streams
    for (name, cont) in [("ffv1", "nut"), ("ffvhuff", "avi"), ("libx264", "matroska"), ("libx264", "mpegts"), ("mpeg4", "avi"), ("mjpeg", "mjpeg"), ("libvpx-vp9", "webm")] {
        let c = CODECS.iter().find(|c| c.name == name).unwrap();
        for n in if t { vec![255, 256, 257, 300, 1100] } else { vec![257, 300] } {
            specs.push(Spec { c, cont, cs: c.fmts[0].0, depth: c.fmts[0].1, w: 16, h: 16, n, gop: *c.gops.last().unwrap(), b: c.max_b.min(2), audio: 0, gap: 1, jump: usize::MAX });
        }
    }
    if std::env::var("FF_FAULTS").is_ok() {
        specs.clear();
    }
    // all small sizes
    let (mw, mh) = if t { (70, 20) } else { (36, 6) };
    for name in ["rawvideo", "ffv1", "ffvhuff"] {
        let c = CODECS.iter().find(|c| c.name == name).unwrap();
        for &(cs, depth) in c.fmts {
            for w in 1..=mw {
                for h in 1..=mh {
                    specs.push(Spec { c, cont: "nut", cs, depth, w, h, n: 2, gop: 1, b: 0, audio: 0, gap: 1, jump: usize::MAX });
                }
            }
        }
    }
    r.par(&specs, None, |ctx, s| {
        let f = d.0.join(format!("{}.bin", ctx.id));
        let _ = std::fs::remove_file(&f);
        one(ctx, s, &f);
    });
    println!("C26: codecs at {:.0} s", r.sh.t0.elapsed().as_secs_f64());
    // y4m: the same pictures as were stored, all sizes
    let mut ys = vec![];
    for space in crate::y4m::SPACES {
        if space.1 != Cs::Cs400 {
            for w in 1..=mw {
                for h in 1..=mh {
                    ys.push((space, w, h, 2));
                }
            }
            for n in 0..=12 {
                ys.push((space, 17, 5, n));
            }
        }
    }
    r.par(&ys, None, |ctx, (sp, w, h, n)| {
        let f = d.0.join(format!("{}.y4m", ctx.id));
        let pics: Vec<Pic> = (0..*n).map(|i| Pat::Noise(i as u32 + 1).pic(*w, *h, sp.1, sp.2)).collect();
        std::fs::write(&f, stream(&format!("YUV4MPEG2 W{w} H{h} F25:1 Ip A1:1 C{}\n", sp.0), "FRAME\n", &pics)).unwrap();
        let case = format!("y4m {} {w}x{h} {n} pictures", sp.0);
        match timed(ctx, &case, || all(&f, n + 4)) {
            Err(e) if e.starts_with("open:") && *n == 0 => ctx.count(0),
            Err(e) => viol(ctx, &e, &case),
            Ok((got, pos)) => {
                ctx.count(hash(&got));
                let want: Vec<Pic> = pics.iter().map(|p| expected(p, pos)).collect();
                let sit = if sp.1 == Cs::Cs422 && pos != Pos::Vertical { Err(format!("declares chroma {pos:?}")) } else { Ok(()) };
                if let Err(e) = same(&got, &want).and_then(|_| sit) {
                    viol(ctx, &e, &case);
                }
            }
        }
    });
    println!("C26: sizes at {:.0} s", r.sh.t0.elapsed().as_secs_f64());
    changes(r, &d);
    println!("C26: changes at {:.0} s", r.sh.t0.elapsed().as_secs_f64());
    histories(r, &d);
    faults(r, &d);
    let note = format!("combinations the encoders refuse or change: {}; out of order in the reference: {}; not exact in the reference: {}", SKIPPED.load(SeqCst), UNORDERED.load(SeqCst), INEXACT.load(SeqCst));
    println!("C26: {note}");
    r.sh.inner.lock().unwrap().notes.push(note);
}
/// streams whose pictures change in size or pixel format on the way: two (three) streams joined
fn changes(r: &Run, d: &Scratch) {
    const RAW: &[(&str, &str)] = &[("mjpeg", "mjpeg"), ("libx264", "h264"), ("libx264", "mpegts"), ("mpeg2video", "mpeg2video"), ("mpeg2video", "mpegts"), ("mpeg1video", "mpeg1video"), ("mpeg4", "m4v"), ("libx265", "mpegts"), ("libaom-av1", "obu")];
    let mut tasks: Vec<(Vec<Spec>, usize)> = vec![];
    for &(name, cont) in RAW {
        let c = CODECS.iter().find(|c| c.name == name).unwrap();
        let heavy = matches!(name, "libx265" | "libaom-av1");
        let sizes: &[(usize, usize)] = if heavy { &[(32, 18), (64, 34)] } else { &[(32, 16), (16, 32), (48, 32), (34, 18), (16, 16)] };
        let mut kinds = vec![];
        for &(w, h) in sizes {
            for (k, &(cs, depth)) in c.fmts.iter().enumerate() {
                if !heavy || k < 2 || r.thorough {
                    kinds.push((w, h, cs, depth));
                }
            }
        }
        let spec = |k: (usize, usize, Cs, usize), n: usize, b: i32| Spec { c, cont, cs: k.2, depth: k.3, w: k.0, h: k.1, n, gop: *c.gops.last().unwrap(), b: (b as usize).min(c.max_b), audio: 0, gap: 1, jump: usize::MAX };
        for &a in &kinds {
            for &z in &kinds {
                for b in 0..=c.max_b.min(if r.thorough && !heavy { 2 } else { 1 }) {
                    tasks.push((vec![spec(a, 4, b as i32), spec(z, 3, b as i32)], tasks.len()));
                    if !heavy && (a.2, a.3) == (z.2, z.3) {
                        tasks.push((vec![spec(a, 4, b as i32), spec(z, 3, b as i32), spec(a, 2, b as i32)], tasks.len()));
                    }
                }
            }
        }
    }
    r.par(&tasks, None, |ctx, (parts, _)| {
        let f = d.0.join(format!("join{}", ctx.id));
        let mut bytes = vec![];
        for s in parts {
            let _ = std::fs::remove_file(&f);
            if encode(s, &f).is_err() {
                SKIPPED.fetch_add(1, SeqCst);
                return;
            }
            bytes.extend(std::fs::read(&f).unwrap());
        }
        std::fs::write(&f, &bytes).unwrap();
        let case = format!("joined: {}", parts.iter().map(|s| s.show()).collect::<Vec<_>>().join(" + "));
        let Ok(w) = ref_decode(&f) else {
            SKIPPED.fetch_add(1, SeqCst);
            return;
        };
        match timed(ctx, &case, || run(&f, 40, |d| read_sized(d))) {
            Err(e) => viol(ctx, &e, &case),
            Ok((got, pos)) => {
                // the stream ends where its pictures stop being of the declared kind
                let kind = DECLARED.get().unwrap();
                let want: Vec<Pic> = w.pics.iter().take_while(|p| (p.cs, p.depth) == kind).map(|p| expected(p, pos)).collect();
                ctx.count(hash(&got) ^ h64(&[case.len() as u64, got.len() as u64]));
                if let Err(e) = same(&got, &want) {
                    viol(ctx, &e, &case);
                }
            }
        }
    });
}
/// all sequences of reads of the next and of a numbered picture, next to the position model
fn histories(r: &Run, d: &Scratch) {
    const OPS: [Option<usize>; 5] = [None, Some(0), Some(1), Some(3), Some(usize::MAX)];
    let all = crate::video::seqs(OPS.len(), if r.thorough { 5 } else { 4 });
    let mut files = vec![];
    for (name, cont) in [("ffv1", "nut"), ("libx264", "matroska"), ("libvpx-vp9", "ivf"), ("utvideo", "avi"), ("ffv1", "matroska")] {
        let c = CODECS.iter().find(|c| c.name == name).unwrap();
        for n in 1..=5 {
            let p = d.0.join(format!("hist-{name}-{cont}-{n}"));
            let cs = if name == "utvideo" { Cs::Cs422 } else { Cs::Cs420 };
            let depth = if (name, cont) == ("ffv1", "matroska") { 10 } else { 8 };
            let s = Spec { c, cont, cs, depth, w: 16, h: 16, n, gop: 12, b: c.max_b.min(2), audio: 0, gap: 1, jump: usize::MAX };
            if encode(&s, &p).is_ok() {
                files.push((s, p));
            }
        }
    }
    let tasks: Vec<(usize, &[Vec<usize>])> = (0..files.len()).flat_map(|i| all.chunks(25).map(move |c| (i, c))).collect();
    r.par(&tasks, None, |ctx, (i, ch)| {
        let (s, p) = &files[*i];
        for seq in ch.iter() {
            let ops: Vec<Option<usize>> = seq.iter().map(|o| OPS[*o]).collect();
            let case = format!("{}, reads {}", s.show(), ops.iter().map(|o| o.map_or("next".into(), |k| format!("frame({k})"))).collect::<Vec<_>>().join(" "));
            let res = timed(ctx, &case, || -> Result<(), String> {
                let mut dec = guard(|| FfmpegDecoder::new(p)).map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("open: {e}"))?;
                let pos = dec.get_video_details().chroma_sample_position;
                let want: Vec<Pic> = s.pics().iter().map(|p| expected(p, pos)).collect();
                let mut at = 0usize;
                for (j, o) in ops.iter().enumerate() {
                    let idx = at.saturating_add(o.unwrap_or(0));
                    at = idx.saturating_add(1).min(want.len());
                    match (read_one(&mut dec, *o), want.get(idx)) {
                        (Got::Frame(p), Some(w)) if p == *w => {}
                        (Got::End, None) => {}
                        (g, w) => {
                            let got = match &g {
                                Got::Frame(p) => want.iter().position(|w| w == p).map_or("another picture".into(), |k| format!("picture {k}")),
                                Got::End => "the end".into(),
                                Got::Bad(e) => e.clone(),
                            };
                            return Err(format!("step {j}: {got} where {} is due", w.map_or("the end".into(), |_| format!("picture {idx}"))));
                        }
                    }
                }
                Ok(())
            });
            ctx.count(h64(&[26, *i as u64, seq.iter().fold(0, |h, o| h * 5 + *o as u64)]));
            if let Err(e) = res {
                viol(ctx, &e, &case);
            }
        }
    });
}
/// cut at every byte, and unreadable from every read on: what was delivered is a beginning of what the
/// reference delivers, and the end is reached
fn faults(r: &Run, d: &Scratch) {
    let t = r.thorough;
    let pick = [("ffv1", "nut"), ("ffv1", "matroska"), ("ffv1", "avi"), ("libx264", "mpegts"), ("libx264", "h264"), ("libx264", "mp4"), ("mpeg4", "avi"), ("mpeg2video", "vob"), ("rawvideo", "nut"), ("libvpx-vp9", "ivf"), ("y4m", "y4m")];
    let mut files: Vec<(String, PathBuf, Vec<u8>, usize)> = vec![];
    for (i, (name, cont)) in pick.iter().enumerate() {
        let p = d.0.join(format!("fault{i}"));
        let (w, h, n) = (16, 8, 4);
        if *name == "y4m" {
            let pics: Vec<Pic> = (0..n).map(|i| Pat::Noise(i as u32 + 1).pic(w, h, Cs::Cs420, 8)).collect();
            std::fs::write(&p, stream(&format!("YUV4MPEG2 W{w} H{h} F25:1 Ip A1:1 C420jpeg\n"), "FRAME\n", &pics)).unwrap();
        } else {
            let c = CODECS.iter().find(|c| c.name == *name).unwrap();
            let s = Spec { c, cont, cs: Cs::Cs420, depth: 8, w, h, n, gop: 12, b: c.max_b.min(2), audio: 0, gap: 1, jump: usize::MAX };
            if let Err(e) = encode(&s, &p) {
                r.sh.inner.lock().unwrap().notes.push(format!("{}: {e}", s.show()));
                continue;
            }
        }
        let b = std::fs::read(&p).unwrap();
        files.push((format!("{name} in {cont}"), p, b, n));
    }
    let mut cuts: Vec<(usize, usize)> = vec![];
    for (i, f) in files.iter().enumerate() {
        for k in 0..f.2.len() {
            if t || f.2.len() < 4000 || k % 7 == 0 {
                cuts.push((i, k));
            }
        }
    }
    r.par(&cuts, None, |ctx, (i, k)| {
        let (name, _, b, n) = &files[*i];
        let f = d.0.join(format!("cut{}", ctx.id));
        std::fs::write(&f, &b[..*k]).unwrap();
        let case = format!("{name} cut after {k} of {} bytes", b.len());
        match timed(ctx, &case, || all(&f, n + 4)) {
            Err(e) if e.starts_with("open:") => ctx.count(0),
            Err(e) => viol(ctx, &e, &case),
            Ok((got, _)) => {
                ctx.count(h64(&[*i as u64, *k as u64]) | 1);
                if let Ok(w) = ref_decode(&f) {
                    if w.pics.len() != got.len() {
                        viol(ctx, &format!("{} pictures instead of {}", got.len(), w.pics.len()), &case);
                    }
                }
            }
        }
    });
    println!("C26: cuts at {:.0} s", r.sh.t0.elapsed().as_secs_f64());
    // read errors
    let big: Vec<(usize, usize)> = (0..files.len()).flat_map(|i| (0..if t { 4000 } else { 400 }).map(move |k| (i, k))).collect();
    let done: Vec<AtomicUsize> = files.iter().map(|_| AtomicUsize::new(usize::MAX)).collect();
    let wide: Vec<PathBuf> = files
        .iter()
        .map(|f| {
            // large enough to need many reads
            let p = f.1.with_extension("wide");
            let parts: Vec<&str> = f.0.split(" in ").collect();
            if parts[0] == "y4m" {
                let pics: Vec<Pic> = (0..12).map(|i| Pat::Noise(i as u32 + 1).pic(160, 120, Cs::Cs420, 8)).collect();
                std::fs::write(&p, stream("YUV4MPEG2 W160 H120 F25:1 Ip A1:1 C420jpeg\n", "FRAME\n", &pics)).unwrap();
            } else {
                let c = CODECS.iter().find(|c| c.name == parts[0]).unwrap();
                let cont = c.conts.iter().find(|x| **x == parts[1]).unwrap();
                let _ = encode(&Spec { c, cont, cs: Cs::Cs420, depth: 8, w: 160, h: 120, n: 12, gop: 12, b: c.max_b.min(2), audio: 0, gap: 1, jump: usize::MAX }, &p);
            }
            p
        })
        .collect();
    r.par(&big, None, |ctx, (i, k)| {
        if *k > done[*i].load(SeqCst) {
            return;
        }
        let case = format!("{} unreadable from read {k} on", files[*i].0);
        COUNT.set(0);
        READS.set(*k);
        let out = timed(ctx, &case, || all(&wide[*i], 40));
        READS.set(usize::MAX);
        if COUNT.get() <= *k {
            done[*i].fetch_min(*k, SeqCst);
        }
        match out {
            Err(e) if e.starts_with("open:") => ctx.count(0),
            Err(e) => viol(ctx, &e, &case),
            Ok((got, pos)) => {
                ctx.count(h64(&[77, *i as u64, got.len() as u64]) | 1);
                if let Ok(w) = ref_decode(&wide[*i]) {
                    let w: Vec<Pic> = w.pics.iter().map(|p| expected(p, pos)).collect();
                    let m = got.len().min(w.len());
                    // the last pictures may be damaged, and pictures that refer to missing ones reordered
                    let sure = m.saturating_sub(4);
                    if got.len() > w.len() || got[..sure] != w[..sure] {
                        viol(ctx, "the pictures before the unreadable part differ", &case);
                    }
                }
            }
        }
    });
}
