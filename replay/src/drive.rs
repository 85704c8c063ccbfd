//! Runs the library through every public entry point and renders what it
//! returns in one canonical text form.
use crate::util::*;
use nom_exif::*;
use std::result::Result;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Mem,
    Seek,
    Unseek,
    /// short reads of pseudo-random length up to the given bound
    Chunk(u64, usize),
    SeekChunk(u64, usize),
    AMem,
    ASeek,
    AUnseek,
    AChunk(u64, usize),
}
pub const SYNC: &[Mode] = &[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::Chunk(1, 97), Mode::SeekChunk(2, 700)];
pub const ALL: &[Mode] = &[
    Mode::Mem,
    Mode::Seek,
    Mode::Unseek,
    Mode::Chunk(1, 97),
    Mode::Chunk(5, 1),
    Mode::SeekChunk(2, 700),
    Mode::AMem,
    Mode::ASeek,
    Mode::AUnseek,
    Mode::AChunk(3, 97),
    Mode::AChunk(9, 9000),
];

pub struct Chunky {
    pub c: Cursor<Vec<u8>>,
    pub seed: u64,
    pub max: usize,
    pub read: usize,
}
impl Chunky {
    pub fn new(d: Vec<u8>, seed: u64, max: usize) -> Chunky {
        Chunky { c: Cursor::new(d), seed, max, read: 0 }
    }
    fn next(&mut self, cap: usize) -> usize {
        if self.max == 0 {
            return cap;
        }
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (((self.seed >> 33) as usize % self.max) + 1).min(cap)
    }
}
impl Read for Chunky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.next(b.len());
        let k = self.c.read(&mut b[..n])?;
        self.read += k;
        Ok(k)
    }
}
impl Seek for Chunky {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}
pub struct AChunky(pub Chunky);
impl tokio::io::AsyncRead for AChunky {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let n = self.0.next(b.remaining());
        let mut t = vec![0; n];
        let k = self.0.c.read(&mut t)?;
        b.put_slice(&t[..k]);
        self.0.read += k;
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncSeek for AChunky {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> std::io::Result<()> {
        self.0.c.seek(p).map(|_| ())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        Poll::Ready(Ok(self.0.c.position()))
    }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}
thread_local! { static RT: tokio::runtime::Runtime = rt(); }
pub fn block<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|r| r.block_on(f))
}

pub fn err_name(e: &Error) -> String {
    match e {
        Error::Io(x) => format!("Io({:?})", x.kind()),
        Error::UnsupportedFormat => "UnsupportedFormat".into(),
        Error::ExifNotFound => "ExifNotFound".into(),
        Error::TrackNotFound => "TrackNotFound".into(),
        Error::Malformed { kind, .. } => format!("Malformed({kind:?})"),
        Error::UnexpectedEof { .. } => "UnexpectedEof".into(),
        _ => "Other".into(),
    }
}

pub fn entry_err(e: &EntryError) -> String {
    match e {
        EntryError::Truncated { .. } => "Truncated".into(),
        EntryError::InvalidShape { format, count } => format!("InvalidShape({format},{count})"),
        EntryError::InvalidValue(_) => "InvalidValue".into(),
        _ => "Other".into(),
    }
}

pub fn canon(v: &EntryValue) -> String {
    fn arr<T: std::fmt::Display>(n: &str, v: impl Iterator<Item = T>) -> String {
        format!("{n}[{}]", v.map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
    match v {
        EntryValue::Text(s) => format!("Text({s:?})"),
        EntryValue::URational(r) => format!("URational({}/{})", r.numerator(), r.denominator()),
        EntryValue::IRational(r) => format!("IRational({}/{})", r.numerator(), r.denominator()),
        EntryValue::U8(v) => format!("U8({v})"),
        EntryValue::U16(v) => format!("U16({v})"),
        EntryValue::U32(v) => format!("U32({v})"),
        EntryValue::U64(v) => format!("U64({v})"),
        EntryValue::I8(v) => format!("I8({v})"),
        EntryValue::I16(v) => format!("I16({v})"),
        EntryValue::I32(v) => format!("I32({v})"),
        EntryValue::I64(v) => format!("I64({v})"),
        EntryValue::F32(v) => format!("F32({:08x})", v.to_bits()),
        EntryValue::F64(v) => format!("F64({:016x})", v.to_bits()),
        EntryValue::DateTime(d) => format!("DateTime({} {})", d.naive_local().format("%Y-%m-%d %H:%M:%S"), d.offset().local_minus_utc()),
        EntryValue::NaiveDateTime(d) => format!("NaiveDateTime({})", d.format("%Y-%m-%d %H:%M:%S")),
        EntryValue::Undefined(v) => format!("Undefined({})", hex(v)),
        EntryValue::URationalArray(v) => arr("URationalArray", v.iter().map(|r| format!("{}/{}", r.numerator(), r.denominator()))),
        EntryValue::IRationalArray(v) => arr("IRationalArray", v.iter().map(|r| format!("{}/{}", r.numerator(), r.denominator()))),
        EntryValue::U8Array(v) => format!("U8Array({})", hex(v)),
        EntryValue::U16Array(v) => arr("U16Array", v.iter()),
        EntryValue::U32Array(v) => arr("U32Array", v.iter()),
        _ => "OtherValue".into(),
    }
}
pub fn line(ifd: usize, code: u16, r: Result<&EntryValue, &EntryError>) -> String {
    match r {
        Ok(v) => format!("{ifd} {code:04x} {}", canon(v)),
        Err(e) => format!("{ifd} {code:04x} !{}", entry_err(e)),
    }
}
pub fn entry_line(e: &ExifIterEntry) -> String {
    line(e.ifd().as_usize(), e.tag().code(), e.result())
}
pub const MAX_ENTRIES: usize = 400_000;
pub fn iter_lines(it: ExifIter) -> Vec<String> {
    let mut v = vec![];
    for e in it {
        v.push(entry_line(&e));
        if v.len() > MAX_ENTRIES {
            v.push("TOO MANY ENTRIES".into());
            break;
        }
    }
    v
}
pub fn gps_text(g: &GPSInfo) -> String {
    let l = |x: &LatLng| {
        format!(
            "{}/{} {}/{} {}/{}",
            x.degrees.numerator(),
            x.degrees.denominator(),
            x.minutes.numerator(),
            x.minutes.denominator(),
            x.seconds.numerator(),
            x.seconds.denominator()
        )
    };
    let a = match g.altitude {
        Altitude::Unknown => "unknown".into(),
        Altitude::AboveSeaLevel(r) => format!("+{}/{}", r.numerator(), r.denominator()),
        Altitude::BelowSeaLevel(r) => format!("-{}/{}", r.numerator(), r.denominator()),
    };
    let s = match &g.speed {
        None => "none".into(),
        Some(s) => format!("{} {}/{}", s.unit.as_char(), s.value.numerator(), s.value.denominator()),
    };
    format!(
        "{} {} {} {} alt={a} speed={s}",
        g.latitude_ref.as_char(),
        l(&g.latitude),
        g.longitude_ref.as_char(),
        l(&g.longitude)
    )
}
pub fn gps_res(r: &Result<Option<GPSInfo>, Error>) -> String {
    match r {
        Ok(None) => "none".into(),
        Ok(Some(g)) => gps_text(g),
        Err(e) => format!("ERR {}", err_name(e)),
    }
}
/// `ERR …` or `gps=… track=…` followed by one line for each entry.
pub fn show_iter(r: Result<ExifIter, Error>) -> String {
    match r {
        Err(e) => format!("ERR {}", err_name(&e)),
        Ok(it) => {
            let mut s = format!("gps={} track={}\n", gps_res(&it.parse_gps()), it.has_embedded_track());
            for l in iter_lines(it) {
                s.push_str(&l);
                s.push('\n');
            }
            s
        }
    }
}
pub fn show_track(r: Result<TrackInfo, Error>) -> String {
    match r {
        Err(e) => format!("ERR {}", err_name(&e)),
        Ok(t) => track_text(&t),
    }
}
pub fn track_text(t: &TrackInfo) -> String {
    let mut v: Vec<String> = t.iter().map(|(k, v)| format!("{k}={}", canon(v))).collect();
    v.sort();
    let mut s = v.join("\n");
    s.push_str(&format!("\ngps={}\n", t.gps_info().map(gps_text).unwrap_or("none".into())));
    s
}
fn sync_src(d: &[u8], m: Mode) -> Option<Result<MediaSource<Chunky>, Error>> {
    Some(match m {
        Mode::Seek => MediaSource::seekable(Chunky::new(d.to_vec(), 0, 0)),
        Mode::Unseek => MediaSource::unseekable(Chunky::new(d.to_vec(), 0, 0)),
        Mode::Chunk(s, x) => MediaSource::unseekable(Chunky::new(d.to_vec(), s, x)),
        Mode::SeekChunk(s, x) => MediaSource::seekable(Chunky::new(d.to_vec(), s, x)),
        _ => return None,
    })
}
async fn async_src(d: &[u8], m: Mode) -> Result<AsyncMediaSource<AChunky>, Error> {
    match m {
        Mode::ASeek => AsyncMediaSource::seekable(AChunky(Chunky::new(d.to_vec(), 0, 0))).await,
        Mode::AUnseek => AsyncMediaSource::unseekable(AChunky(Chunky::new(d.to_vec(), 0, 0))).await,
        Mode::AChunk(s, x) => AsyncMediaSource::unseekable(AChunky(Chunky::new(d.to_vec(), s, x))).await,
        _ => unreachable!(),
    }
}
pub fn exif_with(p: &mut MediaParser, d: &[u8], m: Mode) -> Result<ExifIter, Error> {
    match m {
        Mode::Mem => p.parse_exif(MediaSource::from_memory(d.to_vec())?),
        Mode::AMem => block(async { p.parse_exif_async(AsyncMediaSource::from_memory(d.to_vec())?).await }),
        Mode::ASeek | Mode::AUnseek | Mode::AChunk(..) => block(async { p.parse_exif_async(async_src(d, m).await?).await }),
        _ => p.parse_exif(sync_src(d, m).unwrap()?),
    }
}
pub fn exif(d: &[u8], m: Mode) -> Result<ExifIter, Error> {
    exif_with(&mut MediaParser::new(), d, m)
}
pub fn track_with(p: &mut MediaParser, d: &[u8], m: Mode) -> Result<TrackInfo, Error> {
    match m {
        Mode::Mem => p.parse_track(MediaSource::from_memory(d.to_vec())?),
        Mode::AMem => block(async { p.parse_track_async(AsyncMediaSource::from_memory(d.to_vec())?).await }),
        Mode::ASeek | Mode::AUnseek | Mode::AChunk(..) => block(async { p.parse_track_async(async_src(d, m).await?).await }),
        _ => p.parse_track(sync_src(d, m).unwrap()?),
    }
}
pub fn track(d: &[u8], m: Mode) -> Result<TrackInfo, Error> {
    track_with(&mut MediaParser::new(), d, m)
}
pub fn meta_with(p: &mut MediaParser, d: &[u8], m: Mode) -> Result<ImageMetadata<ExifIter>, Error> {
    match m {
        Mode::Mem => p.parse_image_metadata(MediaSource::from_memory(d.to_vec())?),
        Mode::AMem => block(async { p.parse_image_metadata_async(AsyncMediaSource::from_memory(d.to_vec())?).await }),
        Mode::ASeek | Mode::AUnseek | Mode::AChunk(..) => block(async { p.parse_image_metadata_async(async_src(d, m).await?).await }),
        _ => p.parse_image_metadata(sync_src(d, m).unwrap()?),
    }
}
pub fn text_pairs(m: &ImageMetadata<ExifIter>) -> String {
    match &m.format {
        Some(ImageFormatMetadata::Png(t)) => t.iter().map(|(k, v)| format!("{k:?}={v:?}\n")).collect(),
        Some(_) => "other format".into(),
        None => "no format\n".into(),
    }
}
pub fn show_meta(r: Result<ImageMetadata<ExifIter>, Error>) -> String {
    match r {
        Err(e) => format!("ERR {}", err_name(&e)),
        Ok(m) => {
            let t = text_pairs(&m);
            format!("{t}{}", m.exif.map(|x| show_iter(Ok(x))).unwrap_or("no exif".into()))
        }
    }
}
pub fn meta(d: &[u8], m: Mode) -> Result<ImageMetadata<ExifIter>, Error> {
    meta_with(&mut MediaParser::new(), d, m)
}
pub fn kind(d: &[u8], m: Mode) -> String {
    let f = |r: Result<MediaKind, Error>| match r {
        Ok(k) => format!("{k:?}"),
        Err(e) => format!("ERR {}", err_name(&e)),
    };
    match m {
        Mode::Mem => f(MediaSource::from_memory(d.to_vec()).map(|m| m.kind())),
        Mode::AMem => f(AsyncMediaSource::from_memory(d.to_vec()).map(|m| m.kind())),
        Mode::ASeek | Mode::AUnseek | Mode::AChunk(..) => f(block(async { async_src(d, m).await.map(|m| m.kind()) })),
        _ => f(sync_src(d, m).unwrap().map(|m| m.kind())),
    }
}
/// Everything the library says about the bytes in one mode.
pub fn everything(d: &[u8], m: Mode) -> String {
    let k = kind(d, m);
    let mut s = format!("kind {k}\n");
    if k.starts_with("ERR") {
        return s;
    }
    s.push_str(&format!("exif {}\n", show_iter(exif(d, m))));
    s.push_str(&format!("meta {}\n", show_meta(meta(d, m))));
    let asy = matches!(m, Mode::AMem | Mode::ASeek | Mode::AUnseek | Mode::AChunk(..));
    if !(asy && k == "Image") {
        s.push_str(&format!("track {}\n", show_track(track(d, m))));
    }
    s
}
/// Which kind of error it was may differ between modes (a failed seek is an
/// I/O error, a missing byte an unexpected end).
pub fn normalize(s: &str) -> String {
    s.lines()
        .map(|l| match l.find("ERR ") {
            Some(i) if !l.contains("UnsupportedFormat") => format!("{}ERR\n", &l[..i]),
            _ => format!("{l}\n"),
        })
        .collect()
}
