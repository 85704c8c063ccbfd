//! P10, P11, P12, P13, P16 and P17.
use crate::drive::*;
use crate::exifs::{cr3_of, jpeg_with};
use crate::isom::*;
use crate::jpegs::motion;
use crate::pngs::*;
use crate::tiff::*;
use crate::util::*;
use crate::webm::webm;
use nom_exif::*;
use std::result::Result;

/// A RAF file: header, then a JPEG preview.
pub fn raf(r: &mut Rng, block: &[u8]) -> Vec<u8> {
    let mut v = b"FUJIFILMCCD-RAW 0201FF119503X-T1\0".to_vec();
    v.resize(60, 0);
    v.raw(b"0100").raw(&r.bytes(20));
    let at = 88 + r.below(200);
    v.b32(at as u32);
    v.resize(at, 0);
    v.raw(&jpeg_with(block));
    v
}
fn tiff_any(r: &mut Rng) -> Vec<u8> {
    let clean = r.chance(80);
    let o = GenOpts { clean, max_entries: 12, gps: true, dates: true };
    generate(r, &o)
}
pub const KINDS: usize = 9;
/// A generated file of any of the supported formats.
pub fn any_file(r: &mut Rng) -> (usize, Vec<u8>) {
    let k = r.below(KINDS);
    (k, file_of(r, k))
}
pub fn file_of(r: &mut Rng, k: usize) -> Vec<u8> {
    match k {
        0 => {
            let mut t = tiff_any(r);
            if r.chance(30) {
                let n = r.range(100, 60000);
                let b = r.bytes(n);
                t.raw(&b);
            }
            t
        }
        1 => {
            // JPEG with segments before and after the Exif segment
            let t = tiff_any(r);
            let mut v = vec![0xFF, 0xD8];
            let seg = |v: &mut Vec<u8>, m: u8, d: &[u8]| {
                v.raw(&[0xFF, m]).b16(d.len() as u16 + 2).raw(d);
            };
            for _ in 0..r.below(4) {
                let n = if r.chance(30) { r.range(5000, 65000) } else { r.below(300) };
                let d = r.bytes(n);
                let m = *r.pick(&[0xE0, 0xE2, 0xED, 0xFE, 0xDB]);
                seg(&mut v, m, &d);
            }
            if t.len() < 65000 && r.chance(90) {
                let mut d = b"Exif\0\0".to_vec();
                d.raw(&t);
                seg(&mut v, 0xE1, &d);
            }
            if r.chance(40) {
                let d = r.bytes(2000);
                seg(&mut v, 0xE2, &d);
            }
            seg(&mut v, 0xDA, &[1, 2, 3]);
            let n = r.below(30000);
            let d = r.bytes(n);
            v.raw(&d).raw(&[0xFF, 0xD9]);
            v
        }
        2 => png(r, false).file,
        3 => heif(r, false).file,
        4 => {
            let o = GenOpts { clean: true, max_entries: 6, gps: true, dates: false };
            let (a, b) = (generate(r, &o), generate(r, &o));
            cr3_of(&[(&b"CMT1"[..], a), (&b"CMT2"[..], b)])
        }
        5 => movie(r).file,
        6 => webm(r).file,
        7 => {
            let t = tiff_any(r);
            raf(r, &t)
        }
        _ => motion(r).file,
    }
}
pub fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..r.range(1, 6) {
        if d.is_empty() {
            return;
        }
        let hot = if r.chance(60) { d.len().min(2000) } else { d.len() };
        let p = r.below(hot);
        match r.below(12) {
            0 => d[p] = r.u8(),
            1 => d[p] ^= 1 << r.below(8),
            2 => d[p] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            3 | 4 => {
                let v = *r.pick(&[0u32, 1, 7, 8, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xffff_fff8, 0x0001_0000, 0x4000_0000]);
                let b = if r.chance(50) { v.to_be_bytes() } else { v.to_le_bytes() };
                for (i, x) in b.iter().enumerate() {
                    if p + i < d.len() {
                        d[p + i] = *x;
                    }
                }
            }
            5 => {
                let v = *r.pick(&[0u16, 1, 0x7fff, 0x8000, 0xffff, 0xfffe, 12]);
                let b = if r.chance(50) { v.to_be_bytes() } else { v.to_le_bytes() };
                for (i, x) in b.iter().enumerate() {
                    if p + i < d.len() {
                        d[p + i] = *x;
                    }
                }
            }
            6 => d.truncate(p),
            7 => {
                let n = r.below(40).min(d.len() - p);
                d.drain(p..p + n);
            }
            8 => {
                let n = r.below(40);
                let b = if r.chance(50) { vec![0; n] } else { r.bytes(n) };
                d.splice(p..p, b);
            }
            9 => {
                let q = r.below(d.len());
                let n = r.below(64).min(d.len() - p).min(d.len() - q);
                let b = d[q..q + n].to_vec();
                d[p..p + n].copy_from_slice(&b);
            }
            10 => {
                // an all-ones 64-bit field
                for i in 0..8 {
                    if p + i < d.len() {
                        d[p + i] = if r.chance(90) { 0xff } else { 0x7f };
                    }
                }
            }
            _ => {
                // an offset that points back into the file
                let v = r.below(d.len()) as u32;
                let b = if r.chance(50) { v.to_be_bytes() } else { v.to_le_bytes() };
                for (i, x) in b.iter().enumerate() {
                    if p + i < d.len() {
                        d[p + i] = *x;
                    }
                }
            }
        }
    }
}
/// Replaces some of the decimal numbers that appear between quotes, or
/// anywhere, by numbers at the limits of the integer types.
fn text_numbers(r: &mut Rng, d: &mut Vec<u8>) {
    const BIG: &[&str] = &["18446744073709551615", "18446744073709551614", "9223372036854775808", "9223372036854775807", "18446744073709551616", "4294967295", "4294967296", "0", "1", "-1", "99999999999999999999999", "+5", "9223372036854775800", ""];
    let mut out = Vec::with_capacity(d.len() + 100);
    let p = *r.pick(&[30, 60, 100]);
    let mut i = 0;
    while i < d.len() {
        if d[i].is_ascii_digit() && i > 0 && (d[i - 1] == b'"' || d[i - 1] == b'+' || d[i - 1] == b'-') && r.chance(p) {
            while i < d.len() && d[i].is_ascii_digit() {
                i += 1;
            }
            out.extend(r.pick(BIG).as_bytes());
        } else {
            out.push(d[i]);
            i += 1;
        }
    }
    *d = out;
}
/// Gives one or two boxes a size close to what its header and the fields it
/// starts with take, and sometimes cuts the box to it.
fn box_sizes(r: &mut Rng, d: &mut Vec<u8>) {
    const T: &[&[u8]] = &[
        b"ftyp", b"meta", b"iinf", b"infe", b"iloc", b"mdat", b"moov", b"mvhd", b"trak", b"tkhd", b"mdia", b"hdlr", b"keys", b"ilst", b"data", b"udta", b"\xa9xyz", b"uuid", b"CMT1", b"idat", b"mdta", b"pitm", b"free",
    ];
    for _ in 0..r.range(1, 2) {
        let t = *r.pick(T);
        let at: Vec<usize> = (4..d.len().saturating_sub(4)).filter(|i| d[*i..*i + 4] == *t).collect();
        if at.is_empty() {
            continue;
        }
        let p = *r.pick(&at);
        let n = if r.chance(85) { r.below(40) } else { r.below(120) };
        if r.chance(15) {
            // the 64-bit form
            d.splice(p + 4..p + 4, (n as u64).to_be_bytes());
            d[p - 4..p].copy_from_slice(&1u32.to_be_bytes());
        } else {
            let old = u32::from_be_bytes([d[p - 4], d[p - 3], d[p - 2], d[p - 1]]) as usize;
            d[p - 4..p].copy_from_slice(&(n as u32).to_be_bytes());
            if r.chance(40) && n >= 8 && old > n && p - 4 + old <= d.len() {
                d.drain(p - 4 + n..p - 4 + old);
            }
        }
    }
}
pub fn samples(limit: usize) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir("/repo/testdata")
        .into_iter()
        .flatten()
        .filter_map(|e| e.ok())
        .filter(|e| e.metadata().map(|m| m.is_file() && m.len() < limit as u64).unwrap_or(false))
        .filter_map(|e| Some((e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).ok()?)))
        .filter(|e| !e.0.ends_with(".txt"))
        .collect();
    v.sort();
    v
}

// ------------------------------------------------------------------- P10
/// A streamed TIFF may leave out the thumbnail's directory.
fn without_thumbnail(s: &str) -> String {
    s.lines().filter(|l| !l.starts_with("1 ")).map(|l| format!("{l}\n")).collect()
}
fn agree(c: &mut Case, k: usize, d: &[u8], modes: &[Mode], key: &str) {
    c.input(d);
    let tiff = k == 0 || d.starts_with(b"II*\0") || d.starts_with(b"MM\0*");
    let f = |m: Mode| {
        let s = normalize(&everything(d, m));
        if tiff {
            without_thumbnail(&s)
        } else {
            s
        }
    };
    let base = f(Mode::Mem);
    for m in modes {
        let s = f(*m);
        let asy = matches!(m, Mode::AMem | Mode::ASeek | Mode::AUnseek | Mode::AChunk(..));
        // asynchronous track parsing of images is documented as absent
        let want = if asy && base.starts_with("kind Image") { base.split("\ntrack ").next().unwrap().trim_end().to_string() + "\n" } else if asy { base.trim_end().to_string() + "\n" } else { base.clone() };
        let s = if asy { s.trim_end().to_string() + "\n" } else { s };
        if !c.same(key, &format!("{m:?}"), &want, &s) {
            return;
        }
    }
    if !base.contains("exif ERR") || base.contains("track") && !base.contains("track ERR") {
        c.tally("inputs parsed without an error");
    }
}
/// A file in which byte `p` of what follows the head lies exactly where the first loaded buffer ends.
fn at_edge(r: &mut Rng, k: usize) -> Option<Vec<u8>> {
    let first: usize = 128 + 8192 + if r.chance(20) { 16384 } else { 0 };
    let mut d = file_of(r, k);
    let head = match k {
        1 | 8 => 2,
        2 => 33,
        3..=5 => u32::from_be_bytes(d.get(..4)?.try_into().unwrap()) as usize,
        6 => {
            let l = *d.get(4)?;
            if l & 0x80 == 0 {
                return None;
            }
            5 + (l & 0x7f) as usize
        }
        7 => 88,
        _ => return None,
    };
    if head > d.len() {
        return None;
    }
    let near = if r.chance(50) { 40 } else { 3000 };
    let p = r.below((d.len() - head).min(near) + 1);
    let n = first.checked_sub(head + p)?;
    let mut f = Vec::new();
    match k {
        1 | 8 if (4..65000).contains(&n) => {
            f.raw(&[0xFF, 0xE2]).b16(n as u16 - 2);
        }
        2 if n >= 12 => {
            f.b32(n as u32 - 12).raw(b"npAd");
        }
        3..=5 if n >= 8 => {
            f.b32(n as u32).raw(b"free");
        }
        6 if n >= 9 => {
            f.raw(&[0xEC, 0x01]).raw(&(n as u64 - 9).to_be_bytes()[1..]);
        }
        7 => {
            let at = u32::from_be_bytes(d[84..88].try_into().unwrap()) as usize + n;
            d[84..88].copy_from_slice(&(at as u32).to_be_bytes());
        }
        _ => return None,
    }
    f.resize(n, 0);
    d.splice(head..head, f);
    if r.chance(50) {
        let n = r.below(30000);
        let b = r.bytes(n);
        d.raw(&b);
    }
    Some(d)
}
/// A TIFF file whose directories and values lie around the place where the first loaded buffer ends.
fn tiff_at_edge(r: &mut Rng) -> Vec<u8> {
    let be = r.chance(50);
    let edge: usize = 128 + 8192 + if r.chance(20) { 16384 } else { 0 };
    let mut d = vec![];
    d.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(0, be);
    d.resize(edge + 1200, 0);
    let put16 = |d: &mut Vec<u8>, at: usize, v: usize| d[at..at + 2].copy_from_slice(&if be { (v as u16).to_be_bytes() } else { (v as u16).to_le_bytes() });
    let put32 = |d: &mut Vec<u8>, at: usize, v: usize| d[at..at + 4].copy_from_slice(&if be { (v as u32).to_be_bytes() } else { (v as u32).to_le_bytes() });
    // where directories and values go, so that they do not overlap
    let near = |r: &mut Rng, n: usize| edge + 24 - r.below(n + 48);
    let n0 = r.range(1, 8);
    let n1 = r.range(1, 6);
    let size = |n: usize| 2 + 12 * n + 4;
    let (at0, at1) = match r.below(3) {
        0 => (near(r, size(n0)), 16),
        1 => (16, near(r, size(n1))),
        _ => {
            let a = near(r, size(n0));
            (a, a + size(n0))
        }
    };
    let mut val = if r.chance(50) { 600 } else { edge + 500 };
    // how the second directory is reached: Exif, GPS or the chain
    let (gps, chain) = (r.chance(40), r.chance(10));
    // and the file needs nothing past the edge but at its end
    let few = r.chance(40);
    put32(&mut d, 4, at0);
    if chain {
        put32(&mut d, at0 + 2 + 12 * n0, at1);
    }
    for (at, n, k) in [(at0, n0, 0), (at1, n1, 1)] {
        put16(&mut d, at, n);
        for i in 0..n {
            let e = at + 2 + 12 * i;
            if k == 0 && i + 1 == n && !chain {
                put16(&mut d, e, if gps { 0x8825 } else { 0x8769 });
                put16(&mut d, e + 2, 4);
                put32(&mut d, e + 4, 1);
                put32(&mut d, e + 8, at1);
            } else {
                let t = if few && !(k == 1 && i == 0) { r.range(1, 4) } else { r.range(1, 40) };
                let tags: [usize; 8] = if k == 1 && gps { [0, 0x1d, 0x1b, 0x12, 5, 6, 7, 8] } else { [0x010e, 0x010f, 0x0110, 0x0131, 0x013b, 0x8298, 0x9286, 0xa420] };
                put16(&mut d, e, tags[i]);
                put16(&mut d, e + 2, 2);
                put32(&mut d, e + 4, t);
                let v = if t <= 4 { e + 8 } else { val };
                if t > 4 {
                    put32(&mut d, e + 8, val);
                    val += t;
                }
                for j in 0..t - 1 {
                    d[v + j] = b'a' + (v + i + j) as u8 % 26;
                }
            }
        }
    }
    d
}
fn some_modes(r: &mut Rng) -> Vec<Mode> {
    let a = r.u64();
    let b = r.range(1, 20000);
    vec![Mode::Seek, Mode::Unseek, *r.pick(&[Mode::AMem, Mode::ASeek, Mode::AUnseek]), if r.chance(50) { Mode::Chunk(a, b) } else { Mode::SeekChunk(a, b) }, Mode::AChunk(a, b)]
}
pub fn p10(x: &mut Ctx) {
    for (k, name) in ["tiff", "jpeg", "png", "heif", "cr3", "movie", "webm", "raf", "motion-photo"].iter().enumerate() {
        x.suite(&format!("modes-{name}"), 260, |c| {
            let d = file_of(&mut c.r, k);
            if d.len() <= 128 && k != 2 {
                return;
            }
            let m = some_modes(&mut c.r);
            agree(c, k, &d, &m, "modes");
        });
    }
    for (k, name) in ["jpeg", "png", "heif", "cr3", "movie", "webm", "raf", "motion-photo"].iter().enumerate() {
        x.suite(&format!("modes-edge-{name}"), 200, |c| {
            if let Some(d) = at_edge(&mut c.r, k + 1) {
                let m = [Mode::Seek, Mode::Unseek, *c.r.pick(&[Mode::AMem, Mode::ASeek, Mode::AUnseek])];
                agree(c, k + 1, &d, &m, "modes-edge");
            }
        });
    }
    x.suite("modes-edge-tiff", 400, |c| {
        let d = tiff_at_edge(&mut c.r);
        let m = [Mode::Seek, Mode::Unseek, *c.r.pick(&[Mode::AMem, Mode::ASeek, Mode::AUnseek])];
        agree(c, 0, &d, &m, "modes-edge");
    });
    // a sub-directory pointer of zero, in a file long enough for a directory to be read there
    x.suite("modes-zero-pointer", 4, |c| {
        let be = c.r.chance(50);
        let mut d = vec![];
        d.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(16, be);
        d.resize(16, 0);
        d.e16(2, be).e16(0x0110, be).e16(2, be).e32(3, be).raw(b"ab\0\0").e16(if c.r.chance(50) { 0x8769 } else { 0x8825 }, be).e16(4, be).e32(1, be).e32(0, be);
        d.resize(260_000, 0);
        agree(c, 0, &d, &[Mode::Seek, Mode::Unseek, Mode::AUnseek], "modes");
    });
    x.suite("modes-mutated", 1500, |c| {
        let (k, mut d) = any_file(&mut c.r);
        if c.r.chance(50) {
            mutate(&mut c.r, &mut d);
        } else {
            let n = c.r.below(d.len() + 1);
            d.truncate(n);
        }
        if d.len() <= 128 {
            return;
        }
        let m = some_modes(&mut c.r);
        agree(c, k, &d, &m, "modes-mutated");
    });
    for (name, d) in samples(1_000_000) {
        x.suite(&format!("modes-sample-{name}"), 1, |c| {
            if d.len() <= 128 {
                return;
            }
            let m = some_modes(&mut c.r);
            agree(c, 99, &d, &m, "modes-sample");
        });
    }
    // one-byte reads
    x.suite("one-byte-reads", 60, |c| {
        let (k, d) = any_file(&mut c.r);
        if d.len() <= 128 || d.len() > 20000 {
            return;
        }
        agree(c, k, &d, &[Mode::Chunk(1, 1), Mode::AChunk(1, 1)], "modes");
    });
    // path-based helpers
    x.suite("paths", 120, |c| {
        let (_, d) = any_file(&mut c.r);
        if d.len() <= 128 {
            return;
        }
        c.input(&d);
        let dir = std::env::temp_dir().join(format!("nom-exif-replay-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join("input.bin");
        std::fs::write(&p, &d).unwrap();
        let a = normalize(&format!(
            "{}{}{}",
            show_iter(read_exif_iter(&p)),
            show_track(read_track(&p)),
            match read_exif(&p) {
                Err(e) => format!("ERR {}", err_name(&e)),
                Ok(e) => format!("{} entries\n", e.iter().count()),
            }
        ));
        let b = normalize(&format!(
            "{}{}{}",
            show_iter(exif(&d, Mode::Seek)),
            show_track(track(&d, Mode::Seek)),
            match exif(&d, Mode::Seek) {
                Err(e) => format!("ERR {}", err_name(&e)),
                Ok(e) => format!("{} entries\n", Exif::from(e).iter().count()),
            }
        ));
        c.same("paths", "read_* helpers", &b, &a);
        let m = |r: Result<Metadata, Error>| match r {
            Ok(Metadata::Exif(e)) => format!("exif {}", e.iter().count()),
            Ok(Metadata::Track(t)) => format!("track {}", track_text(&t)),
            Err(e) => format!("ERR {}", err_name(&e)),
        };
        let (fp, fb) = (m(read_metadata(&p)), m(read_metadata_from_bytes(d.clone())));
        c.same("paths", "read_metadata", &normalize(&fb), &normalize(&fp));
        c.same("bytes", "read_exif_iter_from_bytes", &normalize(&show_iter(exif(&d, Mode::Mem))), &normalize(&show_iter(read_exif_iter_from_bytes(d.clone()))));
        c.same("bytes", "read_track_from_bytes", &normalize(&show_track(track(&d, Mode::Mem))), &normalize(&show_track(read_track_from_bytes(d.clone()))));
        let _ = std::fs::remove_file(&p);
        let _ = std::fs::remove_dir(&dir);
    });
    // streams of at most 128 bytes
    x.suite("tiny-stream", 1, |c| {
        let d = simple("tiny", false);
        agree(c, 0, &d, &[Mode::Unseek], "tiny-stream");
    });
}

// ------------------------------------------------------------------- P11
/// A HEIF whose Exif item starts inside what a first read covers, some way
/// behind the boxes, and ends beyond it.
fn far_heif(r: &mut Rng) -> Vec<u8> {
    let exif = {
        let mut e = vec![];
        e.b32(6).raw(b"Exif\0\0").raw(&simple(&format!("far-{}", r.below(1000)), r.chance(50)));
        let n = r.range(0, 60_000);
        e.extend(vec![0x33; n]);
        e
    };
    let gap = r.below(5000);
    let ftyp = bx(b"ftyp", b"heic\0\0\0\0mif1heic", false);
    let mut iinf = vec![0, 0, 0, 0, 0, 1];
    iinf.raw(&bx(b"infe", &[2, 0, 0, 0, 0, 1, 0, 0, b'E', b'x', b'i', b'f', 0], false));
    let meta = |off: u32| {
        let mut iloc = vec![0, 0, 0, 0, 0x44, 0, 0, 1, 0, 1, 0, 0, 0, 1];
        iloc.b32(off).b32(exif.len() as u32);
        let mut m = vec![0; 4];
        m.raw(&bx(b"iinf", &iinf, false)).raw(&bx(b"iloc", &iloc, false));
        bx(b"meta", &m, false)
    };
    let off = ftyp.len() + meta(0).len() + 8 + gap + 8;
    let mut f = ftyp;
    f.raw(&meta(off as u32)).raw(&bx(b"free", &vec![0; gap], false));
    f.raw(&bx(b"mdat", &exif, false));
    f
}
pub fn p11(x: &mut Ctx) {
    const MS: &[Mode] = &[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::Chunk(3, 900), Mode::AMem, Mode::ASeek, Mode::AChunk(7, 3000)];
    x.suite("histories", 900, |c| {
        let mut p = MediaParser::new();
        // results kept while the parser goes on, with what they must read
        let mut kept: Vec<(ExifIter, String)> = vec![];
        let mut tracks: Vec<(TrackInfo, String)> = vec![];
        let mut trace = String::new();
        let pool: Vec<Vec<u8>> = (0..4)
            .map(|_| {
                let (_, mut d) = any_file(&mut c.r);
                if c.r.chance(15) {
                    d = far_heif(&mut c.r);
                }
                match c.r.below(8) {
                    0 => mutate(&mut c.r, &mut d),
                    1 => {
                        let n = c.r.below(d.len() + 1);
                        d.truncate(n)
                    }
                    2 => d = c.r.bytes(300),
                    3 if d.starts_with(b"\x89PNG") => {}
                    _ => {}
                }
                d
            })
            .collect();
        for step in 0..c.r.range(2, 9) {
            let d = c.r.pick(&pool).clone();
            c.input(&d);
            let m = *c.r.pick(MS);
            let op = c.r.below(3);
            trace.push_str(&format!("{op}/{m:?}/{} ", d.len()));
            let key = format!("step {step} ({trace})");
            match op {
                0 => {
                    let want = show_iter(exif(&d, m));
                    match exif_with(&mut p, &d, m) {
                        Err(e) => {
                            c.same("reuse", &key, &want, &format!("ERR {}", err_name(&e)));
                        }
                        Ok(it) => {
                            if c.r.chance(60) {
                                kept.push((it.clone(), want.clone()));
                            }
                            if c.r.chance(70) {
                                c.same("reuse", &key, &want, &show_iter(Ok(it)));
                            } else {
                                kept.push((it, want));
                            }
                        }
                    }
                }
                1 => {
                    let want = show_track(track(&d, m));
                    match track_with(&mut p, &d, m) {
                        Err(e) => {
                            c.same("reuse", &key, &want, &format!("ERR {}", err_name(&e)));
                        }
                        Ok(t) => {
                            c.same("reuse", &key, &want, &track_text(&t));
                            tracks.push((t, want));
                        }
                    }
                }
                _ => {
                    let want = show_meta(meta(&d, m));
                    let mut r = meta_with(&mut p, &d, m);
                    if let Ok(md) = &mut r {
                        if c.r.chance(50) {
                            if let Some(it) = &md.exif {
                                let w = show_iter(exif(&d, m));
                                kept.push((it.clone(), w));
                            }
                        }
                    }
                    c.same("reuse", &key, &want, &show_meta(r));
                }
            }
            if c.r.chance(30) && !kept.is_empty() {
                // drop some results, so that their buffers may be recycled
                let i = c.r.below(kept.len());
                let (it, w) = kept.swap_remove(i);
                c.same("kept", &format!("a result read after {trace}"), &w, &show_iter(Ok(it)));
            }
        }
        for (it, w) in kept {
            c.same("kept", &format!("a result read at the end of {trace}"), &w, &show_iter(Ok(it)));
        }
        for (t, w) in tracks {
            c.same("kept", &format!("track info read at the end of {trace}"), &w, &track_text(&t));
        }
    });
    // a parse that ends with a part of the buffer consumed must not shift the next one
    x.suite("consumed-prefix", 300, |c| {
        let mut p = MediaParser::new();
        for step in 0..3 {
            let d = if step == 0 { far_heif(&mut c.r) } else { any_file(&mut c.r).1 };
            let m = *c.r.pick(MS);
            c.input(&d);
            let key = format!("step {step} {m:?}");
            match c.r.below(3) {
                0 => c.same("reuse", &key, &show_iter(exif(&d, m)), &show_iter(exif_with(&mut p, &d, m))),
                1 => c.same("reuse", &key, &show_track(track(&d, m)), &show_track(track_with(&mut p, &d, m))),
                _ => c.same("reuse", &key, &show_meta(meta(&d, m)), &show_meta(meta_with(&mut p, &d, m))),
            };
        }
    });
    // a very large source first: what is cached afterwards must not leak into later parses
    x.suite("large-then-small", 25, |c| {
        let mut p = MediaParser::new();
        let mut big = heif(&mut c.r, false).file;
        let n = c.r.range(4 << 20, 6 << 20);
        big.raw(&bx(b"mdat", &vec![0x5a; n], false));
        let mut kept = vec![];
        for _ in 0..4 {
            let d = if c.r.chance(40) { big.clone() } else { any_file(&mut c.r).1 };
            let m = *c.r.pick(MS);
            c.input(&d[..d.len().min(200_000)]);
            let want = show_iter(exif(&d, m));
            match exif_with(&mut p, &d, m) {
                Ok(i) => kept.push((i, want)),
                Err(e) => {
                    c.same("reuse", "large", &want, &format!("ERR {}", err_name(&e)));
                }
            }
        }
        for (it, w) in kept {
            c.same("kept", "large", &w, &show_iter(Ok(it)));
        }
    });
}

// ------------------------------------------------------------------- P12
pub fn p12(x: &mut Ctx) {
    // generous: buffers grow by doubling, values are copied out of them
    let bound = |len: usize| 64 * len + (1 << 20);
    let run = |c: &mut Case, d: &[u8], m: Mode| {
        c.input(d);
        for op in 0..3 {
            let data = d.to_vec();
            let ((), peak) = peak_of(|| match op {
                0 => {
                    if let Ok(it) = exif(&data, m) {
                        let _ = it.parse_gps();
                        for e in it {
                            std::hint::black_box(&e);
                        }
                    }
                }
                1 => drop(track(&data, m)),
                _ => drop(meta(&data, m)),
            });
            let b = bound(d.len());
            if !c.check(peak <= b, "memory", || format!("{m:?} operation {op}: {peak} bytes allocated for an input of {} bytes (allowed {b})", d.len())) {
                return;
            }
        }
    };
    x.suite("declared-sizes", 2500, |c| {
        let (_, mut d) = any_file(&mut c.r);
        let sizes = c.r.chance(80);
        for _ in 0..c.r.range(1, 3) {
            if !sizes || d.len() < 16 {
                mutate(&mut c.r, &mut d);
                continue;
            }
            // a 16-, 32- or 64-bit field anywhere in the file's structure
            let hot = d.len().min(if c.r.chance(70) { 1200 } else { d.len() }) - 8;
            let p = c.r.below(hot.max(1));
            let v: u64 = *c.r.pick(&[u64::MAX, 0x7fff_ffff, 0x3fff_ffff, 0x0fff_ffff, 0x3fff_0000, 0x7fff_ffff_ffff_ffff, 0x0100_0000, 0xffff, 0x4000_0000]);
            match c.r.below(4) {
                0 => d[p..p + 4].copy_from_slice(&(v as u32).to_be_bytes()),
                1 => d[p..p + 4].copy_from_slice(&(v as u32).to_le_bytes()),
                2 => d[p..p + 2].copy_from_slice(&(v as u16).to_be_bytes()),
                _ => d[p..p + 8].copy_from_slice(&v.to_be_bytes()),
            }
        }
        let m = *c.r.pick(&[Mode::Mem, Mode::Unseek, Mode::Seek, Mode::Chunk(5, 4000), Mode::ASeek]);
        run(c, &d, m);
    });
    // the size fields of known structures, one at a time, at every boundary value
    x.suite("known-fields", 1200, |c| {
        let r = &mut c.r;
        let v = *r.pick(&[u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x4000_0000, 0x3fff_ffff, 0x3000_0000, 0x1000_0000, 0x0100_0000]);
        let mut d = vec![];
        match r.below(14) {
            0 => {
                d.raw(&bx(b"ftyp", b"heic\0\0\0\0mif1heic", false)).b32(v).raw(b"meta").raw(&[0; 40]);
            }
            1 => {
                d.raw(&bx(b"ftyp", b"heic\0\0\0\0mif1heic", false)).b32(1).raw(b"meta").b64(v as u64 * 3).raw(&[0; 40]);
            }
            2 => {
                let mut iloc = vec![r.below(3) as u8, 0, 0, 0, 0x44, 0];
                iloc.b32(v).raw(&[1; 60]);
                let mut m = vec![0; 4];
                m.raw(&bx(b"iloc", &iloc, false));
                d.raw(&bx(b"ftyp", b"heic\0\0\0\0mif1heic", false)).raw(&bx(b"meta", &m, false)).raw(&[0; 200]);
            }
            3 => {
                let mut iinf = vec![r.below(2) as u8, 0, 0, 0];
                iinf.b32(v).raw(&[1; 60]);
                let mut m = vec![0; 4];
                m.raw(&bx(b"iinf", &iinf, false));
                d.raw(&bx(b"ftyp", b"heic\0\0\0\0mif1heic", false)).raw(&bx(b"meta", &m, false)).raw(&[0; 200]);
            }
            4 => {
                let mut keys = vec![0; 4];
                keys.b32(v).b32(v).raw(b"mdtacom.apple").raw(&[0; 40]);
                let mut m = bx(b"keys", &keys, false);
                m.raw(&bx(b"ilst", &[0; 8], false));
                d.raw(&bx(b"ftyp", b"qt  \0\0\0\0qt  ", false)).raw(&bx(b"moov", &bx(b"meta", &m, false), false)).raw(&[0; 200]);
            }
            5 => {
                let mut it = vec![];
                it.b32(v).b32(1).b32(v).raw(b"data").b32(1).b32(0).raw(b"x");
                let mut keys = vec![0; 4];
                keys.b32(1).b32(20).raw(b"mdtacom.appleab");
                let mut m = bx(b"keys", &keys, false);
                m.raw(&bx(b"ilst", &it, false));
                d.raw(&bx(b"ftyp", b"qt  \0\0\0\0qt  ", false)).raw(&bx(b"moov", &bx(b"meta", &m, false), false)).raw(&[0; 200]);
            }
            6 => {
                d.raw(b"\x89PNG\r\n\x1a\n").b32(13).raw(b"IHDR").raw(&[0; 17]).b32(v).raw(*r.pick(&[&b"tEXt"[..], b"eXIf", b"IDAT", b"IEND"])).raw(&[0; 200]);
            }
            7 => {
                // one TIFF entry with a huge count
                let fmt = r.range(1, 12) as u16;
                d.raw(b"II*\0").e32(8, false).e16(1, false).e16(0x010f, false).e16(fmt, false).e32(v, false).e32(30, false).e32(0, false).raw(&[7; 300]);
            }
            8 => {
                d.raw(b"II*\0").e32(v, false).raw(&[7; 300]);
            }
            9 => {
                d.raw(&[0x1A, 0x45, 0xDF, 0xA3, 0x08]).b32(v).raw(&[0; 300]);
            }
            10 => {
                d.raw(&[0x1A, 0x45, 0xDF, 0xA3, 0x87, 0x42, 0x82, 0x84, b'w', b'e', b'b', b'm', 0x18, 0x53, 0x80, 0x67, 0x01, 0, 0, 0]).b32(v);
                d.raw(*r.pick(&[&[0x15, 0x49, 0xA9, 0x66, 0x08][..], &[0x11, 0x4D, 0x9B, 0x74, 0x08], &[0x1F, 0x43, 0xB6, 0x75, 0x08]])).b32(v).raw(&[0; 300]);
            }
            11 => {
                let mut u = vec![0x85u8, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
                u.b32(v).raw(b"CMT1").raw(&[0; 20]);
                d.raw(&bx(b"ftyp", b"crx \0\0\0\x01crx isom", false)).raw(&bx(b"moov", &bx(b"uuid", &u, false), false)).raw(&[0; 300]);
            }
            12 => {
                d.raw(b"FUJIFILMCCD-RAW ").raw(&[b' '; 68]).b32(v).raw(&[0; 300]);
            }
            _ => {
                d.raw(&bx(b"ftyp", b"mp42\0\0\0\0isommp42", false)).b32(v).raw(*r.pick(&[&b"moov"[..], b"mdat", b"free"])).raw(&[0; 300]);
            }
        }
        let m = *r.pick(&[Mode::Mem, Mode::Unseek, Mode::Seek, Mode::Chunk(5, 400), Mode::ASeek, Mode::AUnseek]);
        run(c, &d, m);
    });
    // a stream that ends or fails anywhere: a result or an error, and a skip is exact
    x.suite("early-end", 800, |c| {
        let (_, mut d) = any_file(&mut c.r);
        let n = c.r.below(d.len() + 1);
        d.truncate(n);
        let m = *c.r.pick(&[Mode::Unseek, Mode::Seek, Mode::Chunk(5, 4000), Mode::ASeek, Mode::AUnseek]);
        run(c, &d, m);
    });
    x.suite("read-errors", 500, |c| {
        let (_, d) = any_file(&mut c.r);
        c.input(&d);
        let at = c.r.below(d.len() + 1);
        let seek = c.r.chance(50);
        let f = Failing { c: std::io::Cursor::new(d.clone()), at, kind: *c.r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::ConnectionReset]) };
        let r = if seek { MediaSource::seekable(f).and_then(|s| MediaParser::new().parse_exif(s)) } else { MediaSource::unseekable(f).and_then(|s| MediaParser::new().parse_exif(s)) };
        let want = exif(&d, Mode::Unseek);
        // the failure is reported unless the data needed came before it
        match r {
            Err(e) => {
                let n = err_name(&e);
                let failed = n.starts_with("Io(");
                let w = want.as_ref().err().map(err_name).unwrap_or_default();
                c.check(failed || n == w, "read-errors", || format!("reading fails at {at} of {}: {n}; without the failure {w:?}", d.len()));
            }
            Ok(it) => {
                let a = show_iter(Ok(it));
                let b = show_iter(want);
                // the search for an embedded track goes on behind the Exif data
                let cut = |s: &str| s.split_once('\n').map(|x| x.1.to_string()).unwrap_or_default();
                c.same("read-errors", &format!("reading fails at {at} of {}", d.len()), &cut(&b), &cut(&a));
            }
        }
    });
    // items behind long stretches that are skipped: every skip must be exact
    x.suite("skips", 150, |c| {
        let r = &mut c.r;
        let id = format!("far-{}", r.below(100000));
        let gap = *r.pick(&[8192usize, 16384, 16385, 20000, 100_000, 1 << 20]) + r.below(3);
        let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
        f.raw(&chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]));
        for _ in 0..r.range(1, 3) {
            let n = if r.chance(50) { gap } else { r.below(30000) };
            f.raw(&chunk(b"IDAT", &vec![0x11; n]));
        }
        f.raw(&chunk(b"eXIf", &simple(&id, true))).raw(&chunk(b"IEND", b""));
        let a = r.u64();
        let mx = r.range(1, 30000);
        c.input(&f[..f.len().min(200_000)]);
        for m in [Mode::Seek, Mode::Unseek, Mode::Chunk(a, mx), Mode::SeekChunk(a, mx), Mode::ASeek, Mode::AUnseek, Mode::AChunk(a, mx)] {
            let g = exif(&f, m).map(description).unwrap_or_else(|e| err_name(&e));
            if !c.check(g == id, "skips", || format!("{m:?}: expected {id}, got {g}")) {
                return;
            }
        }
    });
}
pub struct Failing {
    c: std::io::Cursor<Vec<u8>>,
    at: usize,
    kind: std::io::ErrorKind,
}
impl std::io::Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let p = self.c.position() as usize;
        if p >= self.at {
            return Err(self.kind.into());
        }
        let n = b.len().min(self.at - p);
        self.c.read(&mut b[..n])
    }
}
impl std::io::Seek for Failing {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

// ------------------------------------------------------------------- P13
fn edge(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        4 => i64::MAX as u64 + r.below(3) as u64,
        5 => r.below(300) as u64,
        _ => r.u64(),
    }
}
fn value(r: &mut Rng) -> EntryValue {
    let e = edge(r);
    let rat = |r: &mut Rng| (edge(r) as u32, edge(r) as u32);
    match r.below(19) {
        0 => EntryValue::Text(String::from_utf8_lossy(&r.bytes(5)).into()),
        1 => {
            let (a, b) = rat(r);
            EntryValue::URational(URational::new(a, b))
        }
        2 => {
            let (a, b) = rat(r);
            EntryValue::IRational(IRational::new(a as i32, b as i32))
        }
        3 => EntryValue::U8(e as u8),
        4 => EntryValue::U16(e as u16),
        5 => EntryValue::U32(e as u32),
        6 => EntryValue::U64(e),
        7 => EntryValue::I8(e as i8),
        8 => EntryValue::I16(e as i16),
        9 => EntryValue::I32(e as i32),
        10 => EntryValue::I64(e as i64),
        11 => EntryValue::F32(f32::from_bits(e as u32)),
        12 => EntryValue::F64(f64::from_bits(e)),
        13 => EntryValue::Undefined(r.bytes(4)),
        14 => EntryValue::URationalArray((0..r.below(4)).map(|_| { let (a, b) = rat(r); URational::new(a, b) }).collect()),
        15 => EntryValue::IRationalArray((0..r.below(4)).map(|_| { let (a, b) = rat(r); IRational::new(a as i32, b as i32) }).collect()),
        16 => EntryValue::U8Array(r.bytes(3)),
        17 => EntryValue::U16Array((0..r.below(4)).map(|_| r.u16()).collect()),
        _ => EntryValue::U32Array((0..r.below(4)).map(|_| r.u32()).collect()),
    }
}
pub fn p13(x: &mut Ctx) {
    x.suite("accessors", 60_000, |c| {
        let v = value(&mut c.r);
        c.input(format!("{v:?}").as_bytes());
        let int: Option<i128> = match &v {
            EntryValue::U8(n) => Some(*n as i128),
            EntryValue::U16(n) => Some(*n as i128),
            EntryValue::U32(n) => Some(*n as i128),
            EntryValue::U64(n) => Some(*n as i128),
            EntryValue::I8(n) => Some(*n as i128),
            EntryValue::I16(n) => Some(*n as i128),
            EntryValue::I32(n) => Some(*n as i128),
            EntryValue::I64(n) => Some(*n as i128),
            _ => None,
        };
        let want_i = int.filter(|n| *n >= i64::MIN as i128 && *n <= i64::MAX as i128);
        c.check(v.try_as_integer().map(|n| n as i128) == want_i, "try_as_integer", || format!("{v:?}: {:?}", v.try_as_integer()));
        let frac = |n: f64, d: f64| if d == 0.0 { None } else { Some(n / d) };
        let want_f = match &v {
            EntryValue::F32(f) => Some(*f as f64),
            EntryValue::F64(f) => Some(*f),
            EntryValue::URational(q) => frac(q.numerator() as f64, q.denominator() as f64),
            EntryValue::IRational(q) => frac(q.numerator() as f64, q.denominator() as f64),
            _ => want_i.map(|n| n as i64 as f64),
        };
        let same = |a: Option<f64>, b: Option<f64>| match (a, b) {
            (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (a, b) => a.is_none() && b.is_none(),
        };
        c.check(same(v.try_as_float(), want_f), "try_as_float", || format!("{v:?}: {:?}, expected {want_f:?}", v.try_as_float()));
        // an exact accessor answers for its own variant and no other
        macro_rules! own {
            ($name:ident, $var:ident) => {
                let want = if let EntryValue::$var(n) = &v { Some(format!("{n:?}")) } else { None };
                let got = v.$name().map(|n| format!("{n:?}"));
                c.check(got == want, stringify!($name), || format!("{v:?}: {got:?}"));
            };
        }
        own!(as_str, Text);
        own!(as_u8, U8);
        own!(as_i8, I8);
        own!(as_u16, U16);
        own!(as_i16, I16);
        own!(as_u32, U32);
        own!(as_i32, I32);
        own!(as_u64, U64);
        own!(as_i64, I64);
        own!(as_f64, F64);
        own!(as_urational, URational);
        own!(as_irational, IRational);
        own!(as_urational_slice, URationalArray);
        own!(as_irational_slice, IRationalArray);
        own!(as_u8_slice, U8Array);
        own!(as_u16_slice, U16Array);
        own!(as_u32_slice, U32Array);
        own!(as_undefined, Undefined);
        let d = v.as_datetime().is_some();
        c.check(d == matches!(v, EntryValue::DateTime(_) | EntryValue::NaiveDateTime(_)), "as_datetime", || format!("{v:?}"));
        // formatting is total
        std::hint::black_box(format!("{v}{v:?}"));
    });
    x.suite("rationals", 20_000, |c| {
        let (n, d) = (edge(&mut c.r) as i32, edge(&mut c.r) as i32);
        let s = IRational::new(n, d);
        c.input(format!("{s:?}").as_bytes());
        let got = URational::try_from(s).ok().map(|u| (u.numerator() as i64, u.denominator() as i64));
        let want = if n < 0 || d < 0 { None } else { Some((n as i64, d as i64)) };
        c.check(got == want, "unsigned", || format!("{n}/{d}: {got:?}"));
        c.check(s.numerator() == n && s.denominator() == d, "parts", || format!("{n}/{d}"));
        let u = URational::new(n as u32, d as u32);
        let f = u.to_f64().map(f64::to_bits);
        let w = if d == 0 { None } else { Some((n as u32 as f64 / d as u32 as f64).to_bits()) };
        c.check(f == w, "to_f64", || format!("{u:?}"));
    });
    x.suite("from", 5_000, |c| {
        let e = edge(&mut c.r);
        c.input(&e.to_be_bytes());
        let ok = EntryValue::from(e as u8) == EntryValue::U8(e as u8)
            && EntryValue::from(e as u16) == EntryValue::U16(e as u16)
            && EntryValue::from(e as u32) == EntryValue::U32(e as u32)
            && EntryValue::from(e) == EntryValue::U64(e)
            && EntryValue::from(e as i8) == EntryValue::I8(e as i8)
            && EntryValue::from(e as i16) == EntryValue::I16(e as i16)
            && EntryValue::from(e as i32) == EntryValue::I32(e as i32)
            && EntryValue::from(e as i64) == EntryValue::I64(e as i64)
            && matches!(EntryValue::from(f64::from_bits(e)), EntryValue::F64(f) if f.to_bits() == e)
            && matches!(EntryValue::from(f32::from_bits(e as u32)), EntryValue::F32(f) if f.to_bits() == e as u32)
            && EntryValue::from("x") == EntryValue::Text("x".into());
        c.check(ok, "from", || format!("{e}"));
    });
    // date-times
    x.suite("datetimes", 5_000, |c| {
        let secs = c.r.below(4_000_000_000) as i64 - 1_000_000_000;
        let off = c.r.below(2 * 86399) as i32 - 86399;
        let off2 = c.r.below(2 * 86399) as i32 - 86399;
        c.input(&[&secs.to_be_bytes()[..], &off.to_be_bytes()[..]].concat());
        let fo = chrono::FixedOffset::east_opt(off).unwrap();
        let f2 = chrono::FixedOffset::east_opt(off2).unwrap();
        let u = chrono::DateTime::from_timestamp(secs, 0).unwrap();
        let aware = u.with_timezone(&fo);
        let naive = u.naive_utc();
        let a = EntryValue::DateTime(aware).as_datetime();
        let ok = matches!(a, Some(ExifDateTime::Aware(x)) if x == aware && x.offset() == aware.offset());
        c.check(ok, "aware", || format!("{aware:?}"));
        if let Some(x) = a {
            c.check(x.aware() == Some(aware), "aware()", || format!("{aware:?}"));
            c.check(x.into_naive() == naive + chrono::Duration::seconds(off as i64), "into_naive", || format!("{aware:?} {:?}", x.into_naive()));
            c.check(x.or_offset(f2) == aware && *x.or_offset(f2).offset() == fo, "or_offset", || format!("{aware:?}"));
        }
        let n = EntryValue::NaiveDateTime(naive).as_datetime();
        c.check(matches!(n, Some(ExifDateTime::Naive(x)) if x == naive), "naive", || format!("{naive:?}"));
        if let Some(x) = n {
            c.check(x.aware().is_none() && x.into_naive() == naive, "naive()", || format!("{naive:?}"));
            let y = x.or_offset(f2);
            c.check(y.timestamp() == secs - off2 as i64 && *y.offset() == f2, "or_offset", || format!("{naive:?} {y:?}"));
        }
        let v: EntryValue = (naive, Some(fo)).into();
        c.check(matches!(v, EntryValue::DateTime(d) if d.timestamp() == secs - off as i64 && *d.offset() == fo), "from-pair", || format!("{v:?}"));
        let v: EntryValue = (naive, None).into();
        c.check(v == EntryValue::NaiveDateTime(naive), "from-pair", || format!("{v:?}"));
    });
    // text: every byte string, through a text entry of a TIFF file
    x.suite("text", 6_000, |c| {
        let r = &mut c.r;
        let n = r.range(5, 40);
        let b: Vec<u8> = match r.below(4) {
            0 => r.bytes(n),
            1 => {
                let k = r.below(n);
                let mut v = r.ascii(n);
                v[k] = 0;
                v
            }
            2 => "zwölf Boxkämpfer jagen – 日本語".bytes().cycle().skip(r.below(5)).take(n).collect(),
            _ => {
                let mut v = vec![0; r.below(4)];
                v.raw(&r.ascii(n));
                v.push(0xe9);
                v
            }
        };
        let mut d = b"MM\0*\0\0\0\x08\0\x01\x01\x0e\0\x02".to_vec();
        d.b32(b.len() as u32).b32(26).b32(0).raw(&b);
        d.resize(d.len().max(140), 0);
        c.input(&d);
        let rest: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).take_while(|x| *x != 0).collect();
        let want = String::from_utf8(rest.clone()).unwrap_or_else(|_| rest.iter().map(|x| *x as char).collect());
        let got = exif(&d, Mode::Mem).ok().and_then(|mut i| i.next()).and_then(|e| e.value().and_then(|v| v.as_str().map(String::from)));
        c.check(got.as_deref() == Some(&want), "text", || format!("{b:02x?}: expected {want:?}, got {got:?}"));
    });
}

// ------------------------------------------------------------------- P16
fn exercise(d: &[u8], m: Mode) {
    std::hint::black_box(everything(d, m));
    if let Ok(it) = exif(d, m) {
        let mut half = it.clone();
        let _ = half.next();
        let again = half.clone_rewound();
        std::hint::black_box(format!("{:?}", again));
        let e: Exif = it.into();
        for x in e.iter().take(5000) {
            std::hint::black_box(format!("{} {:?} {}", x.tag, x.value, x.value));
            std::hint::black_box((x.value.try_as_float(), x.value.try_as_integer(), x.value.as_datetime()));
        }
        std::hint::black_box((e.get(ExifTag::Make).cloned(), e.get_by_code(IfdIndex::MAIN, 0x8769).cloned(), format!("{:?}", e.errors())));
        if let Some(g) = e.gps_info() {
            std::hint::black_box((g.to_iso6709(), g.latitude_decimal(), g.longitude_decimal(), g.altitude_meters(), format!("{g:?}")));
        }
        for e in half.take(3) {
            let _ = e.into_result();
        }
    }
    if let Ok(t) = track(d, m) {
        std::hint::black_box(format!("{t:?}"));
        for (k, v) in t.iter() {
            std::hint::black_box(format!("{k} {v}"));
        }
        if let Some(g) = t.gps_info() {
            std::hint::black_box((g.to_iso6709(), g.latitude_decimal(), g.longitude_decimal()));
        }
    }
    if let Ok(md) = meta(d, m) {
        let e: ImageMetadata<Exif> = md.into();
        std::hint::black_box(format!("{e:?}"));
    }
}
const FUZZ: &[Mode] = &[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::Chunk(1, 700), Mode::AMem, Mode::ASeek, Mode::AChunk(2, 5000)];
pub fn p16(x: &mut Ctx) {
    x.suite("mutated", 9000, |c| {
        let (_, mut d) = any_file(&mut c.r);
        mutate(&mut c.r, &mut d);
        c.input(&d);
        let m = *c.r.pick(FUZZ);
        exercise(&d, m);
    });
    x.suite("truncated", 1500, |c| {
        let (_, mut d) = any_file(&mut c.r);
        let n = c.r.below(d.len() + 1);
        d.truncate(n);
        c.input(&d);
        let m = *c.r.pick(FUZZ);
        exercise(&d, m);
    });
    let s = samples(70_000);
    if !s.is_empty() {
        x.suite("samples-mutated", 1500, |c| {
            let mut d = c.r.pick(&s).1.clone();
            mutate(&mut c.r, &mut d);
            c.input(&d);
            let m = *c.r.pick(FUZZ);
            exercise(&d, m);
        });
    }
    x.suite("noise", 2000, |c| {
        let magics: &[&[u8]] = &[b"II*\0", b"MM\0*", b"\xff\xd8\xff\xe1", b"\x89PNG\r\n\x1a\n", b"\0\0\0\x18ftypheic", b"\0\0\0\x10ftypqt  ", b"\0\0\0\x10ftypcrx ", b"\x1aE\xdf\xa3", b"FUJIFILMCCD-RAW ", b""];
        let mut d = c.r.pick(magics).to_vec();
        let n = c.r.below(600);
        let b = c.r.bytes(n);
        d.raw(&b);
        c.input(&d);
        let m = *c.r.pick(FUZZ);
        exercise(&d, m);
    });
    // decimal numbers written as text (XMP attributes, coordinates, dates) at the limits
    x.suite("text-numbers", 1800, |c| {
        let mut d = match c.r.below(4) {
            0 => movie(&mut c.r).file,
            1 => tiff_any(&mut c.r),
            _ => motion(&mut c.r).file,
        };
        text_numbers(&mut c.r, &mut d);
        c.input(&d);
        let m = *c.r.pick(FUZZ);
        exercise(&d, m);
    });
    // boxes whose size fields are at the limits of what their headers need
    x.suite("box-sizes", 2500, |c| {
        let mut d = match c.r.below(3) {
            0 => heif(&mut c.r, false).file,
            1 => movie(&mut c.r).file,
            _ => file_of(&mut c.r, 4),
        };
        box_sizes(&mut c.r, &mut d);
        c.input(&d);
        let m = *c.r.pick(FUZZ);
        exercise(&d, m);
    });
    // directories that refer to each other, to themselves, or nest deeply
    x.suite("directory-graphs", 1200, |c| {
        let r = &mut c.r;
        let be = r.chance(50);
        let n = r.range(1, 40);
        let per = r.range(1, 6);
        let size = 2 + 12 * per + 4;
        let mut d = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
        d.e32(8, be);
        let start = 8;
        for _ in 0..n {
            d.e16(per as u16, be);
            for _ in 0..per {
                let tag = *r.pick(&[0x8769u16, 0x8825, 0x8769, 0x8825, 0x010f, 0xa005, 0x014a]);
                let to = (start + size * r.below(n + 1)) as u32 - if r.chance(10) { r.below(7) as u32 } else { 0 };
                d.e16(tag, be).e16(4, be).e32(1, be).e32(to, be);
            }
            let next = if r.chance(60) { (start + size * r.below(n)) as u32 } else { 0 };
            d.e32(next, be);
        }
        c.input(&d);
        let m = *c.r.pick(FUZZ);
        exercise(&d, m);
        let p = png_with(&d);
        exercise(&p, Mode::Unseek);
    });
    // decimal degrees and ISO 6709 in both directions
    x.suite("coordinates", 4000, |c| {
        let b = c.r.u64();
        let v = match c.r.below(4) {
            0 => f64::from_bits(b),
            1 => b as i64 as f64 / 1e17,
            2 => *c.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 90.0, 180.0, 1e300, 4294967295.0, 4294967296.0, 5e-324]),
            _ => b as f64,
        };
        c.input(&v.to_bits().to_be_bytes());
        if let Ok(l) = LatLng::try_from_decimal_degrees(v) {
            std::hint::black_box((l.to_decimal_degrees(), format!("{l:?}")));
        }
        let n = c.r.below(24);
        let s: String = (0..n).map(|_| *c.r.pick(&['+', '-', '.', '0', '1', '9', '/', 'C', 'R', 'S', 'é', ' ', '8'])).collect();
        if let Ok(g) = s.parse::<GPSInfo>() {
            std::hint::black_box((g.to_iso6709(), g.latitude_decimal()));
        }
    });
}
use crate::exifs::png_with;

// ------------------------------------------------------------------- P17
/// A file that is a HEIF image, a CR3 image and a movie at once; the brands
/// decide which of them is read.
fn hybrid(brands: &[u8], wide: bool) -> Vec<u8> {
    let mut f = vec![];
    if wide {
        f.raw(&bx(b"wide", b"", false));
    } else {
        f.raw(&bx(b"ftyp", brands, false));
    }
    let at = f.len();
    let exif = {
        let mut e = vec![];
        e.b32(6).raw(b"Exif\0\0").raw(&simple("heif", true));
        e
    };
    let meta = |off: u32| {
        let mut iinf = vec![0, 0, 0, 0, 0, 1];
        iinf.raw(&bx(b"infe", &[2, 0, 0, 0, 0, 1, 0, 0, b'E', b'x', b'i', b'f', 0], false));
        let mut iloc = vec![0, 0, 0, 0, 0x44, 0, 0, 1, 0, 1, 0, 0, 0, 1];
        iloc.b32(off).b32(exif.len() as u32);
        let mut m = vec![0; 4];
        m.raw(&bx(b"iinf", &iinf, false)).raw(&bx(b"iloc", &iloc, false));
        bx(b"meta", &m, false)
    };
    let mut u = vec![0x85u8, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
    u.raw(&bx(b"CMT1", &simple("cr3", true), false));
    let mut mv = vec![0, 0, 0, 0];
    mv.b32(1000).b32(0).b32(1000).b32(4711).raw(&[0; 76]).b32(2);
    let mut moov = bx(b"mvhd", &mv, false);
    moov.raw(&bx(b"uuid", &u, false));
    let moov = bx(b"moov", &moov, false);
    let len = meta(0).len();
    let off = at + len + moov.len() + 8;
    f.raw(&meta(off as u32)).raw(&moov).raw(&bx(b"mdat", &exif, false));
    f
}
pub fn p17(x: &mut Ctx) {
    const QT: &[&[u8; 4]] = &[b"qt  ", b"mqt "];
    const AVIF: &[&[u8; 4]] = &[b"avif", b"avis", b"avio"];
    const HEIF: &[&[u8; 4]] = &[b"heic", b"heix", b"hevc", b"heim", b"heis", b"hevm", b"hevs", b"mif1", b"MiHE", b"miaf", b"MiHB"];
    const MP4: &[&[u8; 4]] = &[b"3g2a", b"3g2b", b"3g2c", b"3ge6", b"3ge7", b"3gg6", b"3gp4", b"3gp5", b"3gp6", b"3gs7", b"avc1", b"mp41", b"mp42", b"iso2", b"isom", b"vfj1", b"XAVC"];
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum K {
        Movie,
        Heif,
        Cr3,
    }
    x.suite("brands", 6000, |c| {
        let r = &mut c.r;
        let pick = |r: &mut Rng| -> (Vec<u8>, Option<K>, u8) {
            match r.below(6) {
                0 => (r.pick(QT).to_vec(), Some(K::Movie), 0),
                1 => (r.pick(AVIF).to_vec(), Some(K::Heif), 1),
                2 => (r.pick(HEIF).to_vec(), Some(K::Heif), 2),
                3 => (r.pick(MP4).to_vec(), Some(K::Movie), 3),
                4 => (b"crx ".to_vec(), Some(K::Cr3), 9),
                _ => (r.pick(&[&b"XXXX"[..], b"\0\0\0\0", b"jpx ", b"M4A ", b"dash", b"Heic", b"HEIC", b"qt\0\0", b"f4v "]).to_vec(), None, 9),
            }
        };
        let (major, mut kind, _) = pick(r);
        let mut brands = major.clone();
        brands.b32(*r.pick(&[0u32, 1, 512, 0x20050300]));
        // compatible brands in order of precedence: QuickTime, AVIF, HEIF, MP4
        let mut best = (255u8, None);
        for _ in 0..r.below(6) {
            let (b, k, pri) = pick(r);
            if pri < best.0 && pri < 9 {
                best = (pri, k);
            }
            brands.raw(&b);
        }
        if kind.is_none() {
            // an unknown file with a media data box counts as a movie
            kind = best.1;
        }
        let f = hybrid(&brands, false);
        c.input(&f);
        for m in [Mode::Mem, Mode::Unseek, Mode::AUnseek] {
            let seen = self::kind(&f, m);
            let Some(k) = kind else {
                // decided by the media data box, which a stream's first bytes may not show
                continue;
            };
            let want = if k == K::Movie { "Track" } else { "Image" };
            if !c.check(seen == want, "kind", || format!("{m:?}: brands {:?}: expected {want}, got {seen}", String::from_utf8_lossy(&brands))) {
                return;
            }
            if m == Mode::AUnseek {
                continue;
            }
            let e = exif(&f, m).map(description).unwrap_or_else(|e| err_name(&e));
            let t = track(&f, m).map(|t| t.get(TrackInfoTag::DurationMs).map(canon).unwrap_or_default()).unwrap_or_else(|e| err_name(&e));
            let (we, wt) = match k {
                K::Movie => ("ExifNotFound", "U64(4711)"),
                K::Heif => ("heif", "TrackNotFound"),
                K::Cr3 => ("cr3", "TrackNotFound"),
            };
            if !c.check(e == we && t == wt, "dispatch", || format!("{m:?}: brands {:?}: expected {we} and {wt}, got {e} and {t}", String::from_utf8_lossy(&brands))) {
                return;
            }
        }
    });
    // file signatures with single-bit and single-byte near misses
    x.suite("signatures", 8000, |c| {
        let r = &mut c.r;
        let t = simple("x", r.chance(50));
        let (k, mut d) = match r.below(6) {
            0 => ("tiff", { let mut t = t.clone(); t.resize(200, 0); t }),
            1 => ("jpeg", jpeg_with(&t)),
            2 => ("png", png_with(&t)),
            3 => ("raf", raf(r, &t)),
            4 => ("webm", { let mut h = vec![0x1A, 0x45, 0xDF, 0xA3, 0x9F, 0x42, 0x82, 0x84]; h.raw(b"webm"); h.resize(36, 0xEC); h.truncate(12); h.raw(&[0xEC, 0x96]); h.resize(36, 0); h.raw(&[0x18, 0x53, 0x80, 0x67, 0xff]); h.resize(200, 0); h }),
            _ => ("mov", hybrid(b"qt  \0\0\0\0qt  ", false)),
        };
        let sig: Vec<usize> = match k {
            "tiff" => (0..4).collect(),
            "jpeg" => (0..2).collect(),
            "png" => (0..8).collect(),
            "raf" => (0..16).collect(),
            "webm" => (0..4).collect(),
            _ => (4..8).collect(),
        };
        let broken = r.chance(70);
        if broken {
            let p = *r.pick(&sig);
            if r.chance(60) {
                d[p] ^= 1 << r.below(8);
            } else {
                let b = r.u8();
                if d[p] == b {
                    return;
                }
                d[p] = b;
            }
        }
        c.input(&d);
        let want = if broken { "ERR UnsupportedFormat" } else if k == "webm" || k == "mov" { "Track" } else { "Image" };
        for m in [Mode::Mem, Mode::Unseek, Mode::Seek, Mode::AMem, Mode::AUnseek] {
            let g = kind(&d, m);
            if !c.check(g == want, "signature", || format!("{m:?}: {k}, broken: {broken}: expected {want}, got {g}")) {
                return;
            }
        }
    });
    // other content behind a signature changes nothing
    x.suite("content", 3000, |c| {
        let (k, mut d) = any_file(&mut c.r);
        let n = d.len();
        if n < 200 {
            return;
        }
        for _ in 0..20 {
            let p = c.r.range(128, n - 1);
            let other = file_of(&mut c.r, 0);
            let m = (n - p).min(other.len()).min(64);
            d[p..p + m].copy_from_slice(&other[..m]);
        }
        c.input(&d);
        let want = if k == 5 || k == 6 { "Track" } else { "Image" };
        let g = kind(&d, Mode::Mem);
        c.check(g == want, "content", || format!("format {k}: expected {want}, got {g}"));
    });
    // images are refused by track parsing, movies by Exif parsing
    x.suite("refusals", 1500, |c| {
        let (k, d) = any_file(&mut c.r);
        if d.len() <= 128 {
            return;
        }
        c.input(&d);
        for m in [Mode::Mem, Mode::Seek, Mode::Unseek] {
            if k == 5 || k == 6 {
                let e = exif(&d, m).err().map(|e| err_name(&e));
                c.check(e.as_deref() == Some("ExifNotFound"), "refusal", || format!("{m:?}: Exif of a movie: {e:?}"));
                let e = meta(&d, m).err().map(|e| err_name(&e));
                c.check(e.as_deref() == Some("ExifNotFound"), "refusal", || format!("{m:?}: image metadata of a movie: {e:?}"));
            } else if k != 8 {
                let e = track(&d, m).err().map(|e| err_name(&e));
                c.check(e.as_deref() == Some("TrackNotFound"), "refusal", || format!("{m:?}: track of an image (format {k}): {e:?}"));
            }
        }
    });
}
