//! P09: PNG chunk streams.
use crate::drive::*;
use crate::tiff::*;
use crate::util::*;
use nom_exif::*;
use std::result::Result;

pub fn chunk(t: &[u8], d: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    v.b32(d.len() as u32).raw(t).raw(d).raw(&[0xde, 0xad, 0xbe, 0xef]);
    v
}
pub struct Png {
    pub file: Vec<u8>,
    pub texts: Vec<(String, String)>,
    /// description of the Exif block used
    pub exif: Option<String>,
}
fn hexes(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut s = vec![];
    for (i, b) in d.iter().enumerate() {
        if i % 36 == 35 {
            s.push(b'\n');
        }
        let t = if r.chance(50) { format!("{b:02x}") } else { format!("{b:02X}") };
        s.raw(t.as_bytes());
    }
    s
}
pub fn png(r: &mut Rng, big: bool) -> Png {
    let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
    f.raw(&chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]));
    let (mut texts, mut best): (Vec<(String, String)>, (u8, Option<String>)) = (vec![], (0, None));
    let latin = |d: &[u8]| d.iter().map(|b| *b as char).collect::<String>();
    for i in 0..r.below(12) {
        match r.below(12) {
            0 | 1 => {
                let id = format!("eXIf-{i}-{}", r.below(100000));
                let b = simple(&id, r.chance(50));
                f.raw(&chunk(b"eXIf", &b));
                best = (3, Some(id));
            }
            2 | 3 => {
                let app1 = r.chance(50);
                let (key, pri) = if app1 { ("Raw profile type APP1", 2u8) } else { ("Raw profile type exif", 1) };
                let id = format!("raw-{i}-{}", r.below(100000));
                let mut b = simple(&id, r.chance(50));
                if app1 && r.chance(60) {
                    b = [b"Exif\0\0".to_vec(), b].concat();
                }
                let mut h = hexes(r, &b);
                let bad = r.below(10);
                match bad {
                    0 => {
                        h.pop();
                    }
                    1 => h.push(b'g'),
                    2 => h = hexes(r, b"not a tiff header at all"),
                    3 => h.clear(),
                    _ => {}
                }
                let mut v = b"\n".to_vec();
                v.raw(if app1 { b"generic profile" } else { b"exif" }).raw(format!("\n    {}\n", b.len()).as_bytes()).raw(&h).raw(b"\n");
                let mut d = key.as_bytes().to_vec();
                d.push(0);
                d.raw(&v);
                f.raw(&chunk(b"tEXt", &d));
                texts.push((key.into(), latin(&v)));
                // the same rank does not replace an earlier one
                if bad > 3 && pri > best.0 {
                    best = (pri, Some(id));
                }
            }
            4 | 5 | 6 => {
                let n = r.below(12);
                let k: Vec<u8> = (0..n).map(|_| r.range(1, 255) as u8).collect();
                let m = if r.chance(10) { r.range(9000, 30000) } else { r.below(40) };
                let v = r.bytes(m);
                let mut d = k.clone();
                d.push(0);
                d.raw(&v);
                f.raw(&chunk(b"tEXt", &d));
                texts.push((latin(&k), latin(&v)));
            }
            7 => {
                // no separator
                let n = r.below(30);
                let k: Vec<u8> = (0..n).map(|_| r.range(1, 255) as u8).collect();
                f.raw(&chunk(b"tEXt", &k));
            }
            8 if big => {
                // over (or just at) the cap of one chunk
                let n = (1usize << 20) - 1 + r.below(3);
                let mut d = b"big\0".to_vec();
                d.resize(n, b'x');
                f.raw(&chunk(b"tEXt", &d));
                if n <= 1 << 20 {
                    texts.push(("big".into(), "x".repeat(n - 4)));
                }
            }
            _ => {
                let t: &[u8] = *r.pick(&[&b"IDAT"[..], b"zTXt", b"iTXt", b"pHYs", b"tIME", b"TEXT", b"eXIF", b"text", b"exif"]);
                let n = if r.chance(25) { r.range(8000, 60000) } else { r.below(200) };
                // bodies that look like chunks
                let mut d = vec![];
                while d.len() < n {
                    if r.chance(40) {
                        d.raw(&chunk(b"tEXt", b"decoy\0decoy"));
                        d.raw(&chunk(b"eXIf", &simple("decoy", true)));
                    } else {
                        let k = r.below(300);
                        let x = r.bytes(k);
                        d.raw(&x);
                    }
                }
                f.raw(&chunk(t, &d));
            }
        }
    }
    f.raw(&chunk(b"IEND", b""));
    if r.chance(30) {
        f.raw(&chunk(b"tEXt", b"after\0the end"));
        f.raw(&chunk(b"eXIf", &simple("after", true)));
    }
    Png { file: f, texts, exif: best.1 }
}
pub fn lines_of(p: &Png) -> String {
    if p.texts.is_empty() && p.exif.is_none() {
        return "ERR ExifNotFound".into(); // documented: neither text nor Exif
    }
    let t: String = p.texts.iter().map(|(k, v)| format!("{k:?}={v:?}\n")).collect();
    format!("{t}exif {:?}", p.exif)
}
pub fn description(it: ExifIter) -> String {
    it.filter(|e| e.tag().code() == 0x010e).filter_map(|e| e.value().and_then(|v| v.as_str().map(String::from))).next().unwrap_or("?".into())
}
pub fn got(r: Result<ImageMetadata<ExifIter>, Error>) -> String {
    match r {
        Err(e) => format!("ERR {}", err_name(&e)),
        Ok(m) => {
            let t = match &m.format {
                None => String::new(),
                _ => text_pairs(&m),
            };
            format!("{t}exif {:?}", m.exif.map(description))
        }
    }
}
pub fn p09(x: &mut Ctx) {
    const MODES: &[Mode] = &[Mode::Mem, Mode::Unseek, Mode::Seek, Mode::Chunk(4, 3000), Mode::AMem, Mode::ASeek, Mode::AChunk(4, 3000)];
    let one = |c: &mut Case, p: &Png| {
        c.input(&p.file);
        for m in MODES {
            if !c.same("png", &format!("{m:?}"), &lines_of(p), &got(meta(&p.file, *m))) {
                return;
            }
            let e = exif(&p.file, *m);
            let g = match e {
                Err(Error::ExifNotFound) => None,
                Err(e) => Some(err_name(&e)),
                Ok(i) => Some(description(i)),
            };
            if !c.check(g == p.exif, "png-exif", || format!("{m:?} parse_exif: expected {:?}, got {g:?}", p.exif)) {
                return;
            }
        }
    };
    x.suite("png", 2500, |c| {
        let p = png(&mut c.r, false);
        one(c, &p);
        if p.exif.is_some() {
            c.tally("files with Exif");
        }
        if !p.texts.is_empty() {
            c.tally("files with text");
        }
    });
    x.suite("png-large-text", 12, |c| {
        let p = png(&mut c.r, true);
        one(c, &p);
    });
    // 17 chunks of one MiB: the entry that would exceed 16 MiB is left out, later smaller ones are kept
    x.suite("png-total", 1, |c| {
        let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
        f.raw(&chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]));
        let mut texts = vec![];
        let mut total = 0usize;
        for i in 0..17 {
            let mut d = format!("k{i}\0").into_bytes();
            d.resize(1 << 20, b'a');
            f.raw(&chunk(b"tEXt", &d));
            if total + d.len() - 1 <= 16 << 20 {
                total += d.len() - 1;
                texts.push((format!("k{i}"), "a".repeat(d.len() - 1 - format!("k{i}").len())));
            }
        }
        // exactly up to the cap, then one byte over, then an empty entry
        let left = (16 << 20) - total;
        for n in [left + 1, left, 1] {
            let mut d = b"z\0".to_vec();
            if n == 0 {
                continue;
            }
            d.resize(n + 1, b'q');
            f.raw(&chunk(b"tEXt", &d));
            if total + n <= 16 << 20 {
                total += n;
                texts.push(("z".into(), "q".repeat(n - 1)));
            }
        }
        f.raw(&chunk(b"IEND", b""));
        let p = Png { file: f, texts, exif: None };
        c.input(&p.file[..64]);
        for m in [Mode::Mem, Mode::Unseek, Mode::AUnseek] {
            c.same("png-total", &format!("{m:?}"), &lines_of(&p), &got(meta(&p.file, m)));
        }
    });
    // the accessors of the collected text
    x.suite("accessors", 1500, |c| {
        let mut p = png(&mut c.r, false);
        // repeat some keys
        for _ in 0..c.r.below(3) {
            if p.texts.is_empty() {
                break;
            }
            let (k, _) = c.r.pick(&p.texts).clone();
            let kb: Vec<u8> = k.chars().map(|x| x as u32 as u8).collect();
            let v = format!("again {}", c.r.below(1000));
            let end = 8 + 25;
            let at = end;
            let ch = chunk(b"tEXt", &[&kb[..], b"\0", v.as_bytes()].concat());
            if k.starts_with("Raw") {
                continue;
            }
            p.file.splice(at..at, ch);
            p.texts.insert(0, (k, v));
        }
        c.input(&p.file);
        let Ok(m) = meta(&p.file, Mode::Mem) else {
            c.check(p.texts.is_empty(), "accessors", || "refused".into());
            return;
        };
        let Some(ImageFormatMetadata::Png(t)) = m.format else {
            c.check(p.texts.is_empty(), "accessors", || "no text reported".into());
            return;
        };
        for (k, _) in &p.texts {
            let all: Vec<&str> = p.texts.iter().filter(|x| x.0 == *k).map(|x| x.1.as_str()).collect();
            c.check(t.get(k) == Some(all[0]), "get", || format!("get({k:?})"));
            let g: Vec<&str> = t.get_all(k).collect();
            c.check(g == all, "get_all", || format!("get_all({k:?}): expected {all:?}, got {g:?}"));
        }
        let g: Vec<(&str, &str)> = t.iter().collect();
        let w: Vec<(&str, &str)> = p.texts.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        c.check(g == w, "iter", || "order or content of iter".into());
        c.check(t.get("no such keyword at all").is_none(), "get", || "unknown keyword found".into());
    });
    // a stream that ends inside the chunk sequence never yields text that is not there
    x.suite("truncated", 1500, |c| {
        let p = png(&mut c.r, false);
        let cut = c.r.range(8, p.file.len());
        let f = &p.file[..cut];
        c.input(f);
        if let Ok(m) = meta(f, Mode::Mem) {
            if let Some(ImageFormatMetadata::Png(t)) = &m.format {
                let ok = t.iter().zip(&p.texts).all(|(a, b)| a.0 == b.0 && a.1 == b.1) && t.iter().count() <= p.texts.len();
                c.check(ok, "truncated", || "text the file does not hold".into());
            }
        }
    });
}
