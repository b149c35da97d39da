//! C20-C23 and C27: decoding y4m, chroma realignment, damaged input, frame numbers, piecewise input.
use crate::common::*;
use crate::frames::viol;
use crate::video::{seqs, Clip};
use av_metrics::video::decode::*;
use av_metrics::video::*;
use av_metrics_decoders::y4m::{new_decoder_from_file, new_decoder_from_stdin};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::Arc;

/// name, chroma sampling, depth, siting
#[rustfmt::skip]
pub const SPACES: [(&str, Cs, usize, ChromaSamplePosition); 14] = {
    use ChromaSamplePosition::*;
    [
        ("mono", Cs::Cs400, 8, Unknown), ("mono12", Cs::Cs400, 12, Unknown),
        ("420jpeg", Cs::Cs420, 8, Bilateral), ("420paldv", Cs::Cs420, 8, Interpolated), ("420mpeg2", Cs::Cs420, 8, Vertical),
        ("420", Cs::Cs420, 8, Colocated), ("420p10", Cs::Cs420, 10, Colocated), ("420p12", Cs::Cs420, 12, Colocated),
        ("422", Cs::Cs422, 8, Vertical), ("422p10", Cs::Cs422, 10, Vertical), ("422p12", Cs::Cs422, 12, Vertical),
        ("444", Cs::Cs444, 8, Colocated), ("444p10", Cs::Cs444, 10, Colocated), ("444p12", Cs::Cs444, 12, Colocated),
    ]
};
pub fn realign_row(row: &[u16], depth: usize) -> Vec<u16> {
    let n = row.len() as i64;
    let at = |x: i64| row[x.clamp(0, n - 1) as usize] as i64;
    (0..n)
        .map(|x| {
            let s = 4 * at(x - 2) - 17 * at(x - 1) + 114 * at(x) + 35 * at(x + 1) - 9 * at(x + 2) + at(x + 3);
            ((s + 64) >> 7).clamp(0, (1 << depth) - 1) as u16
        })
        .collect()
}
/// what a decoder has to deliver for the stored picture
pub fn expected(p: &Pic, pos: ChromaSamplePosition) -> Pic {
    let mut q = p.clone();
    if pos == ChromaSamplePosition::Vertical {
        for k in 1..3 {
            let img = &p.p[k];
            q.p[k].d = (0..img.h).flat_map(|y| realign_row(&img.d[y * img.w..][..img.w], p.depth)).collect();
        }
    }
    q
}
pub fn payload(p: &Pic) -> Vec<u8> {
    let mut o = vec![];
    for img in &p.p {
        for &v in &img.d {
            o.push(v as u8);
            if p.depth > 8 {
                o.push((v >> 8) as u8);
            }
        }
    }
    o
}
pub fn stream(header: &str, marker: &str, pics: &[Pic]) -> Vec<u8> {
    let mut o = header.as_bytes().to_vec();
    for p in pics {
        o.extend_from_slice(marker.as_bytes());
        o.extend_from_slice(&payload(p));
    }
    o
}
/// Visible samples of a decoded frame; Err if its geometry is not that of the picture
pub fn grab<T: Pixel>(f: &Frame<T>, w: usize, h: usize, cs: Cs, depth: usize) -> Result<Pic, String> {
    let (cw, ch) = chroma_dims(cs, w, h);
    let mut p = Pic { depth, cs, p: std::array::from_fn(|_| Img { w: 0, h: 0, d: vec![] }) };
    for (i, (w, h)) in [(w, h), (cw, ch), (cw, ch)].into_iter().enumerate() {
        let c = &f.planes[i].cfg;
        if (c.width, c.height) != (w, h) && !(w * h == 0 && c.width * c.height == 0) {
            return Err(format!("plane {i} is {}x{} instead of {w}x{h}", c.width, c.height));
        }
        let mut d = vec![];
        for y in 0..h {
            let o = (c.yorigin + y) * c.stride + c.xorigin;
            for v in &f.planes[i].data[o..o + w] {
                d.push(u16::cast_from(*v));
            }
        }
        p.p[i] = Img { w, h, d };
    }
    Ok(p)
}
/// what a stream of reads gave
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Frame(Pic),
    End,
    Bad(String),
}
pub fn show(g: &Got) -> String {
    match g {
        Got::Frame(p) => format!("frame {}x{} y={:?}.. u={:?}..", p.p[0].w, p.p[0].h, &p.p[0].d[..p.p[0].d.len().min(8)], &p.p[1].d[..p.p[1].d.len().min(8)]),
        o => format!("{o:?}"),
    }
}
pub fn read_one<D: Decoder>(d: &mut D, number: Option<usize>) -> Got {
    let i = d.get_video_details();
    read_as(d, number, i, |_| (i.width, i.height))
}
/// pictures of any size
pub fn read_sized<D: Decoder>(d: &mut D) -> Got {
    let i = d.get_video_details();
    read_as(d, None, i, |size| size)
}
fn got<T: Pixel>(f: Option<Frame<T>>, i: &VideoDetails, size: impl Fn((usize, usize)) -> (usize, usize)) -> Got {
    match f {
        None => Got::End,
        Some(f) => {
            let (w, h) = size((f.planes[0].cfg.width, f.planes[0].cfg.height));
            match grab(&f, w, h, i.chroma_sampling, i.bit_depth) {
                Ok(p) => Got::Frame(p),
                Err(e) => Got::Bad(e),
            }
        }
    }
}
/// 16-bit samples, whatever the bit depth
fn read_wide<D: Decoder>(d: &mut D) -> Got {
    let i = d.get_video_details();
    guard(|| got(d.read_video_frame::<u16>(), &i, |_| (i.width, i.height))).unwrap_or_else(|p| Got::Bad(format!("panic: {p}")))
}
fn read_as<D: Decoder>(d: &mut D, number: Option<usize>, i: VideoDetails, size: impl Fn((usize, usize)) -> (usize, usize)) -> Got {
    fn go<D: Decoder, T: Pixel>(d: &mut D, number: Option<usize>, i: VideoDetails, size: impl Fn((usize, usize)) -> (usize, usize)) -> Got {
        let f = match number {
            None => d.read_video_frame::<T>(),
            Some(k) => d.read_specific_frame::<T>(k),
        };
        got(f, &i, size)
    }
    guard(|| if d.get_bit_depth() > 8 { go::<D, u16>(d, number, i, size) } else { go::<D, u8>(d, number, i, size) }).unwrap_or_else(|p| Got::Bad(format!("panic: {p}")))
}
/// A scratch directory that is removed when dropped
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(id: &str) -> Scratch {
        let base = ["/dev/shm", "/tmp"].iter().find(|d| std::fs::metadata(d).is_ok_and(|m| !m.permissions().readonly())).unwrap_or(&"/tmp");
        let p = PathBuf::from(base).join(format!("seq-{id}-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&p);
        Scratch(p)
    }
    pub fn file(&self, id: usize) -> PathBuf {
        self.0.join(format!("{id}.y4m"))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn put(p: &PathBuf, b: &[u8]) {
    std::fs::write(p, b).expect("scratch file");
}

// ------------------------------------------------------------------ C20
pub fn c20(r: &Run) {
    let sc = Scratch::new("c20");
    let (wm, hm) = if r.thorough { (70, 20) } else { (36, 10) };
    let mut t = vec![];
    for w in 1..=wm {
        for h in 1..=hm {
            t.push((w, h));
        }
    }
    t.extend([(352, 288), (640, 3), (2, 300), (129, 65), (1030, 5)]);
    if r.thorough {
        t.extend([(1920, 1080), (4099, 2), (3, 2100)]);
    }
    // header variants: (text between magic and colour space as a function), marker
    r.par(&t, Some(1), |c, &(w, h)| {
        let path = sc.file(c.id);
        for (si, &(name, cs, depth, pos)) in SPACES.iter().enumerate() {
            for n in (0..=3usize).chain((w == 3 && h == 2 || w == 70 && h == 3).then_some(300)) {
                for variant in 0..if w <= 5 && h <= 4 || (w, h) == (16, 8) { 7 } else { 1 } {
                    let pics: Vec<Pic> = (0..n).map(|k| if (k + w) % 3 == 2 { Pat::Checker } else { Pat::Noise(k as u32 + 1) }.pic(w, h, cs, depth)).collect();
                    let (fnum, fden) = [(30, 1), (30000, 1001), (24, 1), (1, 1), (25, 1), (0, 0), (60, 1)][variant];
                    let header = match variant {
                        0 => format!("YUV4MPEG2 W{w} H{h} F{fnum}:{fden} C{name}\n"),
                        1 => format!("YUV4MPEG2 C{name} H{h} F{fnum}:{fden} Ip A1:1 W{w} XYSCSS=420JPEG Xfoo\n"),
                        2 => format!("YUV4MPEG2 W{w} H{h} F{fnum}:{fden} It A0:0 C{name}\n"),
                        3 => format!("YUV4MPEG2  W{w}  H{h} F{fnum}:{fden} C{name} \n"),
                        4 => format!("YUV4MPEG2 W{w} H{h} C{name}\n"), // no frame rate: 25:1
                        5 => format!("YUV4MPEG2 W{w} H{h} F{fnum}:{fden} C{name}\n"),
                        _ => {
                            if name != "420" {
                                continue;
                            }
                            format!("YUV4MPEG2 W{w} H{h} F{fnum}:{fden}\n") // no colour space: 4:2:0
                        }
                    };
                    let marker = ["FRAME\n", "FRAME Ip\n", "FRAME\n", "FRAME XA B C\n", "FRAME\n", "FRAME I1p\n", "FRAME\n"][variant];
                    put(&path, &stream(&header, marker, &pics));
                    let case = || format!("header {header:?} marker {marker:?} {n} frames");
                    c.count(h64(&[20, w as u64, h as u64, si as u64, n as u64, variant as u64]));
                    let mut d = match guard(|| new_decoder_from_file(&path)) {
                        Ok(Ok(d)) => d,
                        Ok(Err(e)) => {
                            viol(c, "valid stream rejected", case(), e, "a decoder".into());
                            continue;
                        }
                        Err(p) => {
                            viol(c, "panic", case(), p, "a decoder".into());
                            continue;
                        }
                    };
                    let i = d.get_video_details();
                    let meta = (i.width, i.height, i.bit_depth, i.chroma_sampling, i.chroma_sample_position, i.time_base.num, i.time_base.den, d.get_bit_depth());
                    let want = (w, h, depth, cs, pos, fden as u64, fnum as u64, depth);
                    if meta != want {
                        viol(c, "details", case(), format!("{meta:?}"), format!("{want:?}"));
                    }
                    for k in 0..n + 2 {
                        // samples of 8 bits also fit the wider sample type
                        let wide = depth == 8 && (n == 2 || k % 3 == 2);
                        let got = if wide { read_wide(&mut d) } else { read_one(&mut d, None) };
                        let want = pics.get(k).map_or(Got::End, |p| Got::Frame(expected(p, pos)));
                        c.trans(1);
                        if got != want {
                            viol(c, "decoded frame", format!("{} read {k}{}", case(), if wide { " as 16-bit samples" } else { "" }), show(&got), show(&want));
                            break;
                        }
                    }
                    c.sample(|| format!("{{\"case\":{}}}", jesc(&case())));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C21
pub fn c21(r: &Run) {
    use ChromaSamplePosition::*;
    let wm = if r.thorough { 160 } else { 70 };
    let t: Vec<usize> = (1..=wm).chain([127, 128, 129, 255, 256, 257, 640, 1025]).chain(r.thorough.then_some(4099)).collect();
    fn one<T: Pixel>(c: &mut Ctx, img: &Img, depth: usize, bytes: usize, extra: usize, pos: ChromaSamplePosition, lay: Layout, what: &dyn Fn() -> String) {
        let (w, h) = (img.w, img.h);
        let stride = w * bytes + extra * bytes;
        // exactly the bytes that belong to the source rows; the gap between rows holds poison
        let mut src = vec![0xA5u8; stride * (h - 1) + w * bytes];
        for y in 0..h {
            for x in 0..w {
                let v = img.at(x, y);
                src[y * stride + x * bytes] = v as u8;
                if bytes == 2 {
                    src[y * stride + x * 2 + 1] = (v >> 8) as u8;
                }
            }
        }
        let mark = |i: usize| (hash3(9, i, 0, 0) & ((1 << depth) - 1)) as u16;
        let blank = Img { w, h, d: vec![1; w * h] };
        let mut plane: Plane<T> = mk_plane(&blank, (1, 1), lay, &mark);
        let before = plane.clone();
        let res = guard(|| convert_chroma_data(&mut plane, pos, depth, &src, stride, bytes));
        let key = h64(&[21, w as u64, h as u64, depth as u64, bytes as u64, extra as u64, pos as u64, h64(&img.d.iter().map(|&v| v as u64).collect::<Vec<_>>()), h64(&format!("{lay:?}").bytes().map(|b| b as u64).collect::<Vec<_>>())]);
        c.count(key);
        let case = || format!("{w}x{h} {depth}bit bytes {bytes} source stride {stride} siting {pos:?} plane {lay:?} content {}", what());
        if let Err(p) = res {
            viol(c, "panic", case(), p, "filtered rows".into());
            return;
        }
        if plane.cfg != before.cfg {
            viol(c, "plane geometry changed", case(), format!("{:?}", plane.cfg), format!("{:?}", before.cfg));
            return;
        }
        let cfg = &plane.cfg;
        for (i, (n, o)) in plane.data.iter().zip(before.data.iter()).enumerate() {
            let (x, y) = ((i % cfg.stride) as i64 - cfg.xorigin as i64, (i / cfg.stride) as i64 - cfg.yorigin as i64);
            let inside = x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h;
            let n = u16::cast_from(*n);
            if !inside {
                if n != u16::cast_from(*o) {
                    viol(c, "write outside the visible plane", case(), format!("sample at ({x},{y}) became {n}"), "unchanged".into());
                    return;
                }
                continue;
            }
            let row = &img.d[y as usize * w..][..w];
            let want = if pos == Vertical {
                let at = |k: i64| row[(x + k).clamp(0, w as i64 - 1) as usize] as i64;
                ((4 * at(-2) - 17 * at(-1) + 114 * at(0) + 35 * at(1) - 9 * at(2) + at(3) + 64) >> 7).clamp(0, (1 << depth) - 1) as u16
            } else {
                row[x as usize]
            };
            if n != want {
                viol(c, "wrong sample", case(), format!("({x},{y}) = {n}"), format!("{want}"));
                return;
            }
        }
    }
    fn any(c: &mut Ctx, img: &Img, depth: usize, extra: usize, pos: ChromaSamplePosition, lay: Layout, what: &dyn Fn() -> String) {
        if depth > 8 {
            one::<u16>(c, img, depth, 2, extra, pos, lay, what)
        } else {
            one::<u8>(c, img, depth, 1, extra, pos, lay, what)
        }
    }
    let thorough = r.thorough;
    r.par(&t, Some(1), |c, &w| {
        for h in [1usize, 2, 3, 5, 130] {
            if h > 5 && w > 20 || w > wm && h > 2 {
                continue;
            }
            for depth in [8, 10, 12] {
                let max = (1u16 << depth) - 1;
                // strides, layouts, sitings
                for pat in [Pat::Noise(1), Pat::Checker, Pat::HGrad] {
                    let img = Img::new(w, h, |x, y| pat.at(1, x, y, depth));
                    for extra in [0, 1, 3, 8, 61] {
                        for pos in [Vertical, Unknown, Colocated, Bilateral, Interpolated] {
                            for lay in LAYOUTS {
                                any(c, &img, depth, extra, pos, lay, &|| format!("{pat:?}"));
                            }
                        }
                    }
                }
                // an impulse at every position, on every background level
                for x0 in 0..w {
                    if w > 24 && x0 > 6 && x0 + 7 < w {
                        continue;
                    }
                    for (bg, fg) in [(0, max), (max, 0), (max / 2, max), (max / 2, 0)] {
                        let img = Img::new(w, h, |x, y| if x == x0 && y == h - 1 { fg } else { bg });
                        any(c, &img, depth, 2, Vertical, Layout::New, &|| format!("impulse {fg} on {bg} at {x0}"));
                    }
                }
            }
        }
    });
    // all short rows over an alphabet of levels: every clamping and edge combination
    let n = if thorough { 8 } else { 6 };
    let mut rows: Vec<Vec<usize>> = seqs(4, n);
    rows.sort_by_key(|r| std::cmp::Reverse(r.len()));
    let chunks: Vec<&[Vec<usize>]> = rows.chunks(256).collect();
    r.par(&chunks, Some(1), |c, rows| {
        for row in rows.iter() {
            for depth in [8, 10, 12] {
                let max = (1u16 << depth) - 1;
                let lv = [0, max, max / 3, max - 2];
                let img = Img { w: row.len(), h: 1, d: row.iter().map(|&i| lv[i]).collect() };
                any(c, &img, depth, 0, Vertical, Layout::New, &|| format!("{:?}", img.d));
            }
        }
    });
    // every sample level, constant and as a step
    let t: Vec<usize> = vec![8, 10, 12];
    r.par(&t, Some(1), |c, &depth| {
        let max = (1u16 << depth) - 1;
        for v in 0..=max {
            for pos in [Vertical, Colocated] {
                let img = Img::new(9, 2, |x, y| if x >= 4 + y { v } else { max - v });
                any(c, &img, depth, 1, pos, Layout::Pad(5, 2), &|| format!("step {v}"));
                let img = Img::new(7, 1, |_, _| v);
                any(c, &img, depth, 0, pos, Layout::Tight, &|| format!("flat {v}"));
            }
        }
    });
}

// ------------------------------------------------------------------ C22
/// Reference reader of y4m bytes: Err = damaged header; frames = payloads up to the first damage or the end
struct RefStream {
    w: usize,
    h: usize,
    space: usize,
    frames: Vec<Pic>,
}
fn ref_parse(b: &[u8]) -> Option<RefStream> {
    let end = b.iter().take(1024).position(|&c| c == b'\n')?;
    let line = &b[..end];
    if !line.starts_with(b"YUV4MPEG2 ") {
        return None;
    }
    let num = |v: &[u8]| -> Option<usize> { std::str::from_utf8(v).ok()?.parse().ok() };
    let (mut w, mut h, mut space) = (0, 0, 5usize);
    for p in line[10..].split(|&c| c == b' ') {
        if p.is_empty() {
            continue;
        }
        match p[0] {
            b'W' => w = num(&p[1..])?,
            b'H' => h = num(&p[1..])?,
            b'C' => space = SPACES.iter().position(|s| s.0.as_bytes() == &p[1..])?,
            b'F' | b'A' => {
                let k = p.iter().position(|&c| c == b':')?;
                num(&p[1..k])?;
                num(&p[k + 1..])?;
            }
            _ => {}
        }
    }
    if w == 0 || h == 0 {
        return None;
    }
    let (_, cs, depth, _) = SPACES[space];
    let (cw, ch) = chroma_dims(cs, w, h);
    let bytes = if depth > 8 { 2 } else { 1 };
    let size = (w * h + 2 * cw * ch) * bytes;
    if size > 1 << 30 {
        return None;
    }
    let mut pos = end + 1;
    let mut frames = vec![];
    while let Some(k) = b[pos..].iter().take(1024).position(|&c| c == b'\n') {
        let m = &b[pos..pos + k];
        if !(m == b"FRAME" || m.starts_with(b"FRAME ")) || pos + k + 1 + size > b.len() {
            break;
        }
        pos += k + 1;
        let s: Vec<u16> = b[pos..pos + size].chunks(bytes).map(|c| c[0] as u16 | if bytes == 2 { (c[1] as u16) << 8 } else { 0 }).collect();
        pos += size;
        let pic = Pic {
            depth,
            cs,
            p: [
                Img { w, h, d: s[..w * h].to_vec() },
                Img { w: cw, h: ch, d: s[w * h..w * h + cw * ch].to_vec() },
                Img { w: cw, h: ch, d: s[w * h + cw * ch..].to_vec() },
            ],
        };
        frames.push(pic);
    }
    Some(RefStream { w, h, space, frames })
}
pub fn c22(r: &Run) {
    let sc = Scratch::new("c22");
    let mut streams = vec![];
    for &(name, cs, depth, _) in &SPACES {
        for (w, h, n) in if r.thorough { vec![(5, 3, 3), (1, 1, 2), (8, 2, 2), (16, 9, 2)] } else { vec![(5, 3, 2), (2, 1, 2)] } {
            let pics: Vec<Pic> = (0..n).map(|k| Pat::Noise(k + 3).pic(w, h, cs, depth)).collect();
            streams.push(stream(&format!("YUV4MPEG2 W{w} H{h} F30:1 Ip A1:1 C{name} Xc\n"), "FRAME\n", &pics));
            streams.push(stream(&format!("YUV4MPEG2 W{w} H{h} F24:1 C{name}\n"), "FRAME Ip\n", &pics));
        }
    }
    // samples that look like markers
    let mut p = Pat::Zero.pic(8, 8, Cs::Cs420, 8);
    for (i, v) in b"FRAME\nYUV4MPEG2 FRAME \nFRAME\n".iter().enumerate() {
        p.p[0].d[i] = *v as u16;
        let n = p.p[2].d.len();
        p.p[2].d[(i + n - 6) % n] = b"FRAME\n"[i % 6] as u16;
    }
    streams.push(stream("YUV4MPEG2 W8 H8 F30:1\n", "FRAME\n", &[p.clone(), p.clone(), p]));
    // larger than the buffers of the reader; and many frames
    let small = streams.len();
    for (name, cs, depth) in [("444", Cs::Cs444, 8), ("422p10", Cs::Cs422, 10)] {
        let pics: Vec<Pic> = (0..3).map(|k| Pat::Noise(k + 3).pic(100, 90, cs, depth)).collect();
        streams.push(stream(&format!("YUV4MPEG2 W100 H90 F30:1 C{name}\n"), "FRAME\n", &pics));
    }
    let pics: Vec<Pic> = (0..300).map(|k| Pat::Noise(k + 3).pic(4, 3, Cs::Cs420, 8)).collect();
    streams.push(stream("YUV4MPEG2 W4 H3 F30:1 C420\n", "FRAME\n", &pics));
    // (stream, kind): cut at t, or replace byte
    let mut t = vec![];
    for (i, s) in streams.iter().enumerate().skip(small) {
        let marks: Vec<usize> = (0..s.len() - 5).filter(|&k| &s[k..k + 6] == b"FRAME\n").collect();
        for k in 0..=s.len() {
            let near = marks.iter().filter(|&&m| marks.len() < 9 || m % 50 == 0).any(|&m| k + 9 > m && k < m + 9);
            if near || k % 97 == 0 || (k + 2) % 4096 < 4 || k + 9 > s.len() {
                t.push((i, k, false));
            }
        }
        for &m in marks.iter().filter(|&&m| marks.len() < 9 || m % 50 == 0) {
            for k in m..m + 6 {
                t.push((i, k, true));
            }
        }
    }
    for (i, s) in streams.iter().enumerate().take(small) {
        for k in 0..=s.len() {
            t.push((i, k, false));
        }
        for k in 0..s.len() {
            t.push((i, k, true));
        }
    }
    let sample_vals: Vec<u8> = if r.thorough { (0..=255).step_by(5).collect() } else { vec![0, 10, 32, 70, 255] };
    r.par(&t, Some(1), |c, &(i, k, change)| {
        let s = &streams[i];
        let path = sc.file(c.id);
        let head = s.iter().position(|&b| b == b'\n').unwrap() + 1;
        let mut go = |b: &[u8], what: &dyn Fn() -> String| {
            put(&path, b);
            c.count(h64(&[22, i as u64, k as u64, change as u64, b.get(k).copied().unwrap_or(0) as u64]));
            let want = ref_parse(b);
            let case = || format!("stream {i} {:?} {}", String::from_utf8_lossy(&s[..head]), what());
            let dec = guard(|| new_decoder_from_file(&path));
            let mut d = match dec {
                Err(p) => return viol(c, "panic", case(), p, "an error".into()),
                Ok(Err(e)) => {
                    if want.is_some() {
                        viol(c, "intact header rejected", case(), e, "a decoder".into());
                    }
                    return;
                }
                Ok(Ok(d)) => d,
            };
            let Some(want) = want else {
                // a decoder that tolerates the damage must not deliver anything
                let got = read_one(&mut d, None);
                if got != Got::End {
                    viol(c, "frame from a damaged header", case(), show(&got), "an error or the end".into());
                }
                return;
            };
            let info = guard(|| d.get_video_details());
            let sp = SPACES[want.space];
            match info {
                Ok(v) if (v.width, v.height, v.bit_depth, v.chroma_sampling) == (want.w, want.h, sp.2, sp.1) => {}
                o => return viol(c, "details", case(), format!("{o:?}"), format!("{}x{} {}", want.w, want.h, sp.0)),
            }
            for k in 0..=want.frames.len() {
                let got = read_one(&mut d, None);
                let w = want.frames.get(k).map_or(Got::End, |p| Got::Frame(expected(p, sp.3)));
                c.trans(1);
                if got != w {
                    return viol(c, "damaged stream", format!("{} read {k}", case()), show(&got), show(&w));
                }
            }
            // reading on must neither panic nor return a frame of another shape
            for _ in 0..3 {
                if let Got::Bad(e) = read_one(&mut d, None) {
                    return viol(c, "reading past the damage", case(), e, "the end".into());
                }
            }
        };
        if !change {
            go(&s[..k], &|| format!("cut after {k} of {} bytes", s.len()));
        } else {
            let mut b = s.clone();
            let near_marker = k < head || s[k.saturating_sub(8)..(k + 8).min(s.len())].windows(5).any(|w| w == b"FRAME");
            let vals: Vec<u8> = if near_marker { (0..=255).collect() } else { sample_vals.clone() };
            for v in vals {
                b[k] = v;
                go(&b, &|| format!("byte {k} ({:?}) replaced by {v}", s[k] as char));
            }
        }
    });
}

// ------------------------------------------------------------------ C23
pub fn c23(r: &Run) {
    let sc = Scratch::new("c23");
    const OPS: [Option<usize>; 6] = [None, Some(0), Some(1), Some(2), Some(5), Some(usize::MAX)];
    // numbers of frames and skips around what a byte holds
    const FAR: [Option<usize>; 12] = [None, Some(0), Some(1), Some(100), Some(254), Some(255), Some(256), Some(257), Some(511), Some(598), Some(599), Some(600)];
    let depth = if r.thorough { 7 } else { 5 };
    let all: Vec<Vec<Option<usize>>> = seqs(OPS.len(), depth).iter().map(|s| s.iter().map(|&o| OPS[o]).collect()).collect();
    let far: Vec<Vec<Option<usize>>> = seqs(FAR.len(), if r.thorough { 4 } else { 3 }).iter().map(|s| s.iter().map(|&o| FAR[o]).collect()).collect();
    let mut t = vec![];
    for kind in 0..4usize {
        for n in 0..=if r.thorough { 6 } else { 5 } {
            for ch in all.chunks(64) {
                t.push((kind, n, ch));
            }
        }
        for ch in far.chunks(64) {
            t.push((kind, 600, ch));
        }
    }
    r.par(&t, Some(1), |c, &(kind, n, ch)| {
        let (name, cs, d, pos) = SPACES[[5usize, 9, 0, 5][kind]];
        let pics: Vec<Pic> = (0..n).map(|k| Pat::Noise(k as u32 + 1).pic(5, 3, cs, d)).collect();
        let path = sc.file(c.id);
        put(&path, &stream(&format!("YUV4MPEG2 W5 H3 F30:1 C{name}\n"), "FRAME\n", &pics));
        fn walk<D: Decoder>(c: &mut Ctx, dec: &mut D, s: &[Option<usize>], want: &[Pic], tag: u64, case: &dyn Fn() -> String) {
            let mut at = 0usize;
            for (j, &o) in s.iter().enumerate() {
                let idx = at.saturating_add(o.unwrap_or(0));
                let w = want.get(idx).map_or(Got::End, |p| Got::Frame(p.clone()));
                let got = read_one(dec, o);
                c.trans(1);
                at = idx.saturating_add(1).min(want.len());
                c.count(h64(&[23, tag, want.len() as u64, at as u64, o.map_or(77, |o| o as u64)]));
                if got != w {
                    return viol(c, "read history", format!("{} step {j}: {:?}", case(), o), show(&got), show(&w));
                }
            }
        }
        let want: Vec<Pic> = pics.iter().map(|p| expected(p, pos)).collect();
        for s in ch {
            let case = || format!("decoder {kind} clip of {n} frames, reads {:?}", s.iter().map(|&o| o.map_or("next".into(), |k| format!("frame({k})"))).collect::<Vec<_>>());
            if kind < 3 {
                match guard(|| new_decoder_from_file(&path)) {
                    Ok(Ok(mut dec)) => walk(c, &mut dec, s, &want, kind as u64, &case),
                    o => viol(c, "valid stream rejected", case(), format!("{:?}", o.map(|r| r.err())), "a decoder".into()),
                }
            } else {
                if n == 0 {
                    continue;
                }
                let mut clip = Clip::new(pics.iter().cloned().map(Arc::new).collect());
                walk(c, &mut clip, s, &pics, 3, &case);
            }
            c.sample(|| format!("{{\"case\":{}}}", jesc(&case())));
        }
    });
}

// ------------------------------------------------------------------ C27
/// Child: decode standard input and print one line per frame.
pub fn stdin_child() {
    let line = |g: &Got| match g {
        Got::Frame(p) => format!("F {} {:?}", p.p[0].w, p.p.iter().map(|i| h64(&i.d.iter().map(|&v| v as u64).collect::<Vec<_>>())).collect::<Vec<_>>()),
        Got::End => "E".into(),
        Got::Bad(e) => format!("B {e}"),
    };
    match guard(new_decoder_from_stdin) {
        Err(p) => println!("panic {p}"),
        Ok(Err(e)) => println!("err {e}"),
        Ok(Ok(mut d)) => {
            let i = d.get_video_details();
            println!("D {} {} {} {:?} {:?} {:?}", i.width, i.height, i.bit_depth, i.chroma_sampling, i.chroma_sample_position, i.time_base);
            for _ in 0..6 {
                let g = read_one(&mut d, None);
                println!("{}", line(&g));
                if g == Got::End {
                    break;
                }
            }
        }
    }
}
fn file_lines(path: &PathBuf) -> String {
    let mut o = String::new();
    match guard(|| new_decoder_from_file(path)) {
        Err(p) => o = format!("panic {p}\n"),
        Ok(Err(e)) => o = format!("err {e}\n"),
        Ok(Ok(mut d)) => {
            let i = d.get_video_details();
            o += &format!("D {} {} {} {:?} {:?} {:?}\n", i.width, i.height, i.bit_depth, i.chroma_sampling, i.chroma_sample_position, i.time_base);
            for _ in 0..6 {
                let g = read_one(&mut d, None);
                o += &match &g {
                    Got::Frame(p) => format!("F {} {:?}\n", p.p[0].w, p.p.iter().map(|i| h64(&i.d.iter().map(|&v| v as u64).collect::<Vec<_>>())).collect::<Vec<_>>()),
                    Got::End => "E\n".into(),
                    Got::Bad(e) => format!("B {e}\n"),
                };
                if g == Got::End {
                    break;
                }
            }
        }
    }
    o
}
/// Feed the pieces through a pipe, each only after the previous one has been taken out of it.
fn feed(pieces: &[&[u8]]) -> Result<String, String> {
    use std::os::fd::AsRawFd;
    use std::process::{Command, Stdio};
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg("stdin-child").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut w = ch.stdin.take().unwrap();
    let t0 = std::time::Instant::now();
    let mut res = Ok(());
    'out: for p in pieces {
        if p.is_empty() {
            continue;
        }
        if w.write_all(p).is_err() {
            break; // the reader is gone; what it printed decides
        }
        loop {
            let mut n: libc::c_int = 0;
            // SAFETY: FIONREAD writes one int
            unsafe { libc::ioctl(w.as_raw_fd(), libc::FIONREAD, &mut n) };
            if n == 0 {
                break;
            }
            if t0.elapsed().as_secs() > 20 {
                res = Err("the reader stopped reading".to_string());
                break 'out;
            }
            if matches!(ch.try_wait(), Ok(Some(_))) {
                break 'out;
            }
            std::thread::yield_now();
        }
    }
    drop(w);
    if res.is_err() {
        let _ = ch.kill();
    }
    let mut o = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut o);
    let _ = ch.wait();
    res.map(|_| o)
}
pub fn c27(r: &Run) {
    let sc = Scratch::new("c27");
    let mut streams = vec![];
    let spaces: Vec<usize> = if r.thorough { (0..14).collect() } else { vec![0, 5, 9] };
    for &s in &spaces {
        let (name, cs, depth, _) = SPACES[s];
        for n in [0, 1, 3] {
            let pics: Vec<Pic> = (0..n).map(|k| Pat::Noise(k + 3).pic(4, 3, cs, depth)).collect();
            streams.push(stream(&format!("YUV4MPEG2 W4 H3 F30:1 C{name}\n"), "FRAME\n", &pics));
        }
    }
    // larger than the buffers of the reader and of the pipe
    let big = vec![Pat::Noise(1).pic(150, 101, Cs::Cs420, 8), Pat::Noise(2).pic(150, 101, Cs::Cs420, 8)];
    streams.push(stream("YUV4MPEG2 W150 H101 F30:1 C420\n", "FRAME\n", &big));
    let big = vec![Pat::Noise(1).pic(400, 300, Cs::Cs444, 8), Pat::Noise(2).pic(400, 300, Cs::Cs444, 8)];
    streams.push(stream("YUV4MPEG2 W400 H300 F30:1 C444\n", "FRAME\n", &big));
    let wants: Vec<String> = streams
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let p = sc.0.join(format!("want{i}.y4m"));
            put(&p, s);
            file_lines(&p)
        })
        .collect();
    let mut t: Vec<(usize, Vec<usize>)> = vec![]; // cut positions
    for (i, s) in streams.iter().enumerate() {
        let n = s.len();
        if n > 4000 {
            for size in [1000usize, 4096, 8191, 8192, 8193, 22_000, 65_536, n] {
                t.push((i, (1..n).filter(|k| k % size == 0).collect()));
            }
            for k in [1, 30, 31, 36, 37, 8191, 8192, 8193, n / 2, n - 1] {
                t.push((i, vec![k]));
            }
            continue;
        }
        t.push((i, vec![]));
        for k in 1..n {
            t.push((i, vec![k]));
        }
        for size in 1..=if r.thorough { n } else { 12 } {
            t.push((i, (1..n).filter(|k| k % size == 0).collect()));
        }
        if r.thorough && n < 130 {
            for k in 1..n {
                for l in k + 1..n {
                    t.push((i, vec![k, l]));
                }
            }
        }
    }
    r.par(&t, None, |c, (i, cuts)| {
        let s = &streams[*i];
        let mut pieces = vec![];
        let mut a = 0;
        for &k in cuts.iter().chain([&s.len()]) {
            pieces.push(&s[a..k]);
            a = k;
        }
        let got = feed(&pieces);
        c.trans(pieces.len());
        c.count(h64(&[27, *i as u64, h64(&cuts.iter().map(|&v| v as u64).collect::<Vec<_>>())]));
        let case = || format!("stream {i} of {} bytes cut at {:?}", s.len(), &cuts[..cuts.len().min(20)]);
        c.sample(|| format!("{{\"case\":{},\"read\":{}}}", jesc(&case()), jesc(&wants[*i])));
        match got {
            Ok(o) if o == wants[*i] => {}
            Ok(o) => viol(c, "standard input decodes differently", case(), o, wants[*i].clone()),
            Err(e) => viol(c, "standard input", case(), e, wants[*i].clone()),
        }
    });
}
