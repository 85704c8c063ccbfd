//! P08: EBML documents.
use crate::drive::*;
use crate::isom::got_lines;
use crate::util::*;
use std::result::Result;

/// The identifier (which carries its own length marker) as stored.
fn id_bytes(id: u32) -> Vec<u8> {
    let b = id.to_be_bytes();
    b[b.iter().position(|x| *x != 0).unwrap()..].to_vec()
}
/// A size as a variable-length integer of `w` bytes.
pub fn vint(n: u64, w: usize) -> Vec<u8> {
    let v = n | 1u64 << (7 * w);
    v.to_be_bytes()[8 - w..].to_vec()
}
fn min_width(n: u64) -> usize {
    (1..=8).find(|w| n < (1u64 << (7 * w)) - 1).unwrap()
}
pub fn el(r: &mut Rng, id: u32, body: &[u8]) -> Vec<u8> {
    let lo = min_width(body.len() as u64);
    let w = if r.chance(50) { lo } else { r.range(lo, 8) };
    let mut v = id_bytes(id);
    v.raw(&vint(body.len() as u64, w)).raw(body);
    v
}
fn uint(r: &mut Rng, id: u32, n: u64) -> Vec<u8> {
    let lo = (1..=8).find(|w| *w == 8 || n < 1u64 << (8 * w)).unwrap();
    let w = if r.chance(60) { lo } else { r.range(lo, 8) };
    el(r, id, &n.to_be_bytes()[8 - w..])
}
/// Void, CRC and unknown elements whose bodies look like elements.
fn noise(r: &mut Rng, top: bool) -> Vec<u8> {
    let id = *r.pick(&[0xECu32, 0xBF, 0x7BA9, 0x4D80, 0x2AD7B2, 0x1043A770, 0x1941A469, 0x536E, 0x86]);
    let n = if top && r.chance(10) { r.range(9000, 40000) } else { r.below(50) };
    let mut d = vec![];
    while d.len() < n {
        match r.below(5) {
            0 => { d.raw(&[0xB0, 0x82, 0x01, 0x02, 0xBA, 0x82, 0x03, 0x04]); }
            1 => { d.raw(&[0x44, 0x89, 0x84, 0x40, 0, 0, 0]); }
            2 => { d.raw(&[0xAE, 0x88, 0xE0, 0x86, 0xB0, 0x81, 9, 0xBA, 0x81, 9]); }
            3 => { d.raw(&[0x15, 0x49, 0xA9, 0x66, 0x87, 0x44, 0x89, 0x84, 0x40, 0, 0, 0]); }
            _ => d.push(r.u8()),
        }
    }
    el(r, id, &d)
}
fn mix(r: &mut Rng, mut parts: Vec<Vec<u8>>, top: bool) -> Vec<u8> {
    for _ in 0..r.below(4) {
        let n = noise(r, top);
        parts.push(n);
    }
    r.shuffle(&mut parts);
    parts.concat()
}
pub struct Webm {
    pub file: Vec<u8>,
    pub ms: Option<f64>,
    /// the duration is one whose multiplication cannot round
    pub exact: bool,
    pub date: Option<i64>,
    pub size: (u64, u64),
}
pub fn webm(r: &mut Rng) -> Webm {
    // EBML head
    let doc: &[u8] = if r.chance(50) { b"webm" } else { b"matroska" };
    let mut head = vec![];
    for (id, v) in [(0x4286u32, 1u64), (0x42F7, 1), (0x42F2, 4), (0x42F3, 8)] {
        if r.chance(60) {
            head.push(uint(r, id, v));
        }
    }
    head.push(el(r, 0x4282, doc));
    r.shuffle(&mut head);
    let mut file = el(r, 0x1A45DFA3, &head.concat());
    // Info
    let scale = match r.below(4) {
        0 => None,
        1 => Some(1_000_000u64),
        2 => Some(*r.pick(&[1000u64, 1, 100_000, 1_000_000_000])),
        _ => Some(1 + r.below(5_000_000) as u64),
    };
    let s = scale.unwrap_or(1_000_000);
    let (mut dur, mut bytes) = (None, vec![]);
    if r.chance(85) {
        if r.chance(50) {
            let d = if r.chance(60) { r.below(5_000_000) as f64 } else { r.below(10_000_000) as f64 / 7.0 };
            dur = Some(d);
            bytes = d.to_be_bytes().to_vec();
        } else {
            let d = if r.chance(60) { r.below(5_000_000) as f32 } else { r.below(10_000_000) as f32 / 7.0 };
            dur = Some(d as f64);
            bytes = d.to_be_bytes().to_vec();
        }
    }
    let date = if r.chance(60) { Some(if r.chance(80) { (r.below(1_500_000_000) as i64) * 1_000_000_000 } else { -(r.below(900_000_000) as i64) * 1_000_000_000 }) } else { None };
    let mut info = vec![];
    if let Some(x) = scale {
        info.push(uint(r, 0x2AD7B1, x));
    }
    if dur.is_some() {
        info.push(el(r, 0x4489, &bytes));
    }
    if let Some(d) = date {
        info.push(el(r, 0x4461, &d.to_be_bytes()));
    }
    let body = mix(r, info, false);
    let info = el(r, 0x1549A966, &body);
    // Tracks
    let mut tracks = vec![];
    let mut size = (0, 0);
    for i in 0..r.below(4) {
        let video = r.chance(60);
        let mut parts = vec![uint(r, 0xD7, i as u64 + 1), uint(r, 0x83, if video { 1 } else { 2 })];
        if video {
            let (w, h) = (1 + r.below(70000) as u64, 1 + r.below(70000) as u64);
            if size == (0, 0) {
                size = (w, h);
            }
            let mut vs = vec![uint(r, 0xB0, w), uint(r, 0xBA, h)];
            if r.chance(40) {
                vs.push(uint(r, 0x54B0, 1 + w)); // display width
                vs.push(uint(r, 0x54BA, 1 + h));
            }
            let b = mix(r, vs, false);
            parts.push(el(r, 0xE0, &b));
        } else {
            let mut a = vec![0xB5, 0x84];
            a.raw(&44100f32.to_be_bytes());
            parts.push(el(r, 0xE1, &a));
        }
        let b = mix(r, parts, false);
        tracks.push(el(r, 0xAE, &b));
    }
    for _ in 0..r.below(2) {
        let at = r.below(tracks.len() + 1);
        tracks.insert(at, noise(r, false));
    }
    let tracks = el(r, 0x1654AE6B, &tracks.concat());
    // Segment
    let cluster = |r: &mut Rng| {
        let n = if r.chance(30) { r.range(10000, 60000) } else { r.below(400) };
        let d = r.bytes(n);
        el(r, 0x1F43B675, &d)
    };
    let mut order: Vec<(u32, Vec<u8>)> = vec![(0x1549A966, info), (0x1654AE6B, tracks)];
    for _ in 0..r.below(3) {
        let n = noise(r, true);
        order.push((0, n));
    }
    r.shuffle(&mut order);
    for _ in 0..r.below(3) {
        let at = r.below(order.len() + 1);
        let c = cluster(r);
        order.insert(at, (0, c));
    }
    if r.chance(60) {
        // A seek head of a fixed size in front (or somewhere): positions counted from the segment's data
        let at = if r.chance(70) { 0 } else { r.below(order.len() + 1) };
        let which: Vec<u32> = match r.below(4) {
            0 => vec![0x1549A966],
            1 => vec![0x1654AE6B],
            _ => vec![0x1654AE6B, 0x1549A966],
        };
        let void = if r.chance(50) { vec![0xEC, 0x83, 1, 2, 3] } else { vec![] };
        let sh_len = 4 + 2 + which.len() * (2 + 1 + 2 + 1 + 4 + 2 + 1 + 8) + void.len();
        let mut body = vec![];
        for (k, id) in which.iter().enumerate() {
            let mut pos = 0;
            for (i, (x, b)) in order.iter().enumerate() {
                if i >= at && x == id {
                    pos += sh_len;
                    break;
                }
                if x == id {
                    break;
                }
                pos += b.len();
            }
            let mut e = vec![];
            let mut sid = vec![0x53, 0xAB, 0x84];
            sid.b32(*id);
            let mut sp = vec![0x53, 0xAC, 0x88];
            sp.b64(pos as u64);
            if r.chance(30) && pos != 0 {
                e.raw(&sp).raw(&sid);
            } else {
                e.raw(&sid).raw(&sp);
            }
            let mut s = vec![0x4D, 0xBB, 0x80 | e.len() as u8];
            s.raw(&e);
            if k == 0 {
                body.raw(&void);
            }
            body.raw(&s);
        }
        let mut sh = vec![0x11, 0x4D, 0x9B, 0x74];
        sh.raw(&vint(body.len() as u64, 2)).raw(&body);
        assert_eq!(sh.len(), sh_len);
        order.insert(at, (1, sh));
    }
    let seg: Vec<u8> = order.iter().flat_map(|x| x.1.clone()).collect();
    let mut head = id_bytes(0x18538067);
    if r.chance(20) {
        head.raw(&[0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]); // unknown size
    } else {
        let w = r.range(min_width(seg.len() as u64), 8);
        head.raw(&vint(seg.len() as u64, w));
    }
    if r.chance(30) {
        let n = el(r, 0xEC, &[0; 9]);
        let _ = n; // nothing may stand between the head and the segment
    }
    file.raw(&head).raw(&seg);
    let ms = dur.map(|d| d * s as f64 / 1e6);
    let exact = s == 1_000_000 && dur.map_or(true, |d| d.fract() == 0.0);
    Webm { file, ms, exact, date, size }
}
fn want_of(w: &Webm, got: &str) -> Result<(), String> {
    let mut ms = None;
    let mut rest = vec![];
    for l in got.lines() {
        match l.strip_prefix("DurationMs=U64(") {
            Some(n) => ms = n.trim_end_matches(')').parse::<u64>().ok(),
            None => rest.push(l.to_string()),
        }
    }
    let want_ms = w.ms.unwrap_or(0.0);
    let ok = match ms {
        None => false,
        Some(m) if w.exact => m as f64 == want_ms,
        Some(m) => (m as f64 - want_ms.floor()).abs() <= if (want_ms - want_ms.round()).abs() < 1e-3 { 1.0 } else { 0.0 },
    };
    if !ok {
        return Err(format!("duration: expected {want_ms}, got {ms:?}"));
    }
    let mut want = vec![format!("Height=U32({})", w.size.1), format!("Width=U32({})", w.size.0)];
    if let Some(d) = w.date {
        let t = chrono::DateTime::from_timestamp(978_307_200 + d / 1_000_000_000, 0).unwrap();
        want.push(format!("CreateDate=DateTime({} 0)", t.format("%Y-%m-%d %H:%M:%S")));
    }
    want.sort();
    rest.sort();
    if want != rest {
        return Err(format!("expected {want:?}, got {rest:?}"));
    }
    Ok(())
}
pub fn p08(x: &mut Ctx) {
    x.suite("webm", 5000, |c| {
        let w = webm(&mut c.r);
        if w.file.len() <= 128 {
            return; // streams of up to 128 bytes: see P10's known finding
        }
        c.input(&w.file);
        for m in [Mode::Mem, Mode::Unseek, Mode::Seek, Mode::AMem, Mode::ASeek, Mode::AUnseek] {
            match track(&w.file, m) {
                Err(e) => {
                    c.fail("webm-refused", format!("{m:?}: {}", err_name(&e)));
                    return;
                }
                Ok(t) => {
                    if let Err(e) = want_of(&w, &got_lines(&t)) {
                        c.fail("webm", format!("{m:?}: {e}"));
                        return;
                    }
                }
            }
        }
        if w.size.0 > 0 {
            c.tally("documents with a video track");
        }
    });
    // a document that ends early reports nothing it did not declare
    x.suite("truncated", 2500, |c| {
        let w = webm(&mut c.r);
        let cut = c.r.range(8, w.file.len());
        let f = &w.file[..cut];
        c.input(f);
        if let Ok(t) = track(f, Mode::Mem) {
            let lines = got_lines(&t);
            let bad = lines.lines().find(|l| {
                let zero = ["DurationMs=U64(0)", "Width=U32(0)", "Height=U32(0)"].contains(l);
                let a = l.strip_prefix("DurationMs=U64(").and_then(|n| n.trim_end_matches(')').parse::<u64>().ok());
                let date = w.date.map(|d| {
                    let t = chrono::DateTime::from_timestamp(978_307_200 + d / 1_000_000_000, 0).unwrap();
                    format!("CreateDate=DateTime({} 0)", t.format("%Y-%m-%d %H:%M:%S"))
                });
                let near = a.map_or(false, |a| (a as f64 - w.ms.unwrap_or(-9.0)).abs() <= 1.0);
                !(zero || near || **l == format!("Width=U32({})", w.size.0) || **l == format!("Height=U32({})", w.size.1) || date.as_deref() == Some(l))
            });
            c.check(bad.is_none(), "truncated", || format!("{bad:?} is not declared: {:?} {:?} {:?}", w.ms, w.date, w.size));
        }
    });
    // every width of a size field: the element behind is found
    x.suite("vints", 2000, |c| {
        let r = &mut c.r;
        let n = *r.pick(&[0usize, 1, 126, 127, 128, 129, 5000, 16382, 16383, 16384, 16385]);
        let w = r.range(min_width(n as u64), 8);
        let mut info = vec![0xEC];
        info.raw(&vint(n as u64, w)).raw(&vec![0xB0; n]);
        let d = r.below(1_000_000) as f64;
        info.raw(&[0x44, 0x89, 0x88]).raw(&d.to_be_bytes());
        let mut f = el(r, 0x1A45DFA3, &[0x42, 0x82, 0x84, b'w', b'e', b'b', b'm']);
        let mut seg = id_bytes(0x1549A966);
        let wi = r.range(min_width(info.len() as u64), 8);
        seg.raw(&vint(info.len() as u64, wi)).raw(&info);
        let t = el(r, 0x1654AE6B, &[0xEC, 0x80]);
        seg.raw(&t);
        f.raw(&id_bytes(0x18538067)).raw(&vint(seg.len() as u64, 8)).raw(&seg);
        c.input(&f);
        let got = track(&f, Mode::Mem).map(|t| got_lines(&t)).unwrap_or_else(|e| err_name(&e));
        c.check(got.contains(&format!("DurationMs=U64({})", d as u64)), "vint", || format!("size {n} in {w} bytes, duration {d}: {got:?}"));
    });
}
