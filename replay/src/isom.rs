//! P06 and P07: boxes of the ISO base media format.
use crate::drive::*;
use crate::tiff::*;
use crate::util::*;
use nom_exif::*;
use std::result::Result;

/// A box with a 32-bit or (`big`) a 64-bit size field.
pub fn bx(t: &[u8], body: &[u8], big: bool) -> Vec<u8> {
    let mut v = vec![];
    if big {
        v.b32(1).raw(t).b64(body.len() as u64 + 16).raw(body);
    } else {
        v.b32(body.len() as u32 + 8).raw(t).raw(body);
    }
    v
}
pub fn rbx(r: &mut Rng, t: &[u8], body: &[u8]) -> Vec<u8> {
    let big = r.chance(20);
    bx(t, body, big)
}
pub fn full(r: &mut Rng, t: &[u8], version: u8, body: &[u8]) -> Vec<u8> {
    let mut b = vec![version];
    let f = r.bytes(3);
    b.raw(&f).raw(body);
    rbx(r, t, &b)
}
fn filler(r: &mut Rng) -> Vec<u8> {
    let t: &[u8] = *r.pick(&[&b"free"[..], b"skip", b"wide", b"udtx", b"abcd", b"\xa9xyz", b"uuid"]);
    let n = if r.chance(10) { r.range(9000, 40000) } else { r.below(60) };
    // filler bodies are made to look like boxes
    let mut d = vec![];
    while d.len() < n {
        if r.chance(30) {
            let t: &[u8] = *r.pick(&[&b"meta"[..], b"moov", b"mvhd", b"iloc", b"Exif", b"CMT1", b"iinf", b"trak"]);
            d.b32(r.below(80) as u32).raw(t);
        } else {
            d.push(r.u8());
        }
    }
    rbx(r, t, &d)
}

// ------------------------------------------------------------------ HEIF
pub struct Heif {
    pub file: Vec<u8>,
    /// identification of the block, or why there is none
    pub want: Want,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
    Block(String),
    /// any error
    Error,
    NotFound,
}
fn sized(v: &mut Vec<u8>, size: usize, x: u64) {
    match size {
        4 => {
            v.b32(x as u32);
        }
        8 => {
            v.b64(x);
        }
        _ => {}
    }
}
pub fn heif(r: &mut Rng, multi: bool) -> Heif {
    let id = format!("heif-{}", r.below(1_000_000));
    let mut exif = vec![];
    exif.b32(6).raw(b"Exif\0\0").raw(&simple(&id, r.chance(50)));
    let decoy = {
        let mut d = vec![];
        d.b32(6).raw(b"Exif\0\0").raw(&simple("decoy", r.chance(50)));
        d
    };
    let brand: &[u8] = *r.pick(&[&b"heic"[..], b"mif1", b"avif", b"heix"]);
    let mut f = brand.to_vec();
    f.b32(0).raw(b"mif1").raw(if brand == b"avif" { b"avif" } else { b"heic" });
    let ftyp = bx(b"ftyp", &f, false);

    // items
    let n = r.range(1, 6);
    let exif_at = r.below(n);
    let mut ids: Vec<u32> = (1..=40).collect();
    r.shuffle(&mut ids);
    let iloc_v = r.below(3) as u8;
    if iloc_v == 2 && r.chance(60) {
        // 32-bit item ids, some of them equal in their low halves
        let low = r.u16() as u32;
        for (k, i) in ids.iter_mut().enumerate() {
            if r.chance(50) {
                *i = ((k as u32 + 1) << 16) + if r.chance(50) { low } else { r.u16() as u32 };
            }
        }
    }
    let (osz, lsz, bsz) = (if r.chance(80) { 4 } else { 8 }, if r.chance(70) { 4 } else { 8 }, *r.pick(&[0usize, 4, 8]));
    let isz = if iloc_v > 0 { *r.pick(&[0usize, 4, 8]) } else { 0 };
    let iinf_v = r.below(2) as u8;
    let fault = if r.chance(15) { r.range(1, 5) } else { 0 };

    // iinf
    let mut infos = vec![];
    for i in 0..n {
        let v = if r.chance(70) && ids[i] < 65536 { 2 } else { 3 };
        let mut b = vec![];
        if v == 3 {
            b.b32(ids[i]);
        } else {
            b.b16(ids[i] as u16);
        }
        b.b16(0);
        let t: &[u8] = if i == exif_at {
            if fault == 1 { b"exif" } else { b"Exif" }
        } else {
            *r.pick(&[&b"hvc1"[..], b"mime", b"grid", b"xxxx", b"tmap"])
        };
        b.raw(t);
        let name = if r.chance(50) { b"Exif".to_vec() } else { let k = r.below(5); r.ascii(k) };
        b.raw(&name).raw(&[0]);
        if t == b"mime" {
            b.raw(b"application/rdf+xml\0");
            if r.chance(50) {
                b.raw(b"\0");
            }
        }
        infos.push(full(r, b"infe", v, &b));
    }
    let mut iinf = vec![];
    if iinf_v == 0 {
        iinf.b16(n as u16);
    } else {
        iinf.b32(n as u32);
    }
    for i in &infos {
        iinf.raw(i);
    }
    let iinf = full(r, b"iinf", iinf_v, &iinf);

    // mdat: pieces with gaps
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut body = vec![];
    let mut at = vec![(0usize, 0usize); n];
    for i in &order {
        let g = if r.chance(15) { r.range(500, 30000) } else { r.below(40) };
        let gap = r.bytes(g);
        body.raw(&gap);
        let d = if *i == exif_at { exif.clone() } else { decoy.clone() };
        at[*i] = (body.len(), d.len());
        body.raw(&d);
    }
    let g = r.below(200) + 150;
    body.raw(&r.bytes(g));

    let mdat_big = r.chance(20);
    let mdat = bx(b"mdat", &body, mdat_big);
    let mdat_head = if mdat_big { 16 } else { 8 };
    let mdat_first = r.chance(20);
    let (f1, f2, f3) = (
        if r.chance(40) { filler(r) } else { vec![] },
        if r.chance(40) { filler(r) } else { vec![] },
        if r.chance(40) { filler(r) } else { vec![] },
    );
    let meta_order: Vec<usize> = {
        let mut v: Vec<usize> = (0..5).collect();
        r.shuffle(&mut v);
        v
    };
    let pads: Vec<Vec<u8>> = (0..2).map(|_| if r.chance(50) { filler(r) } else { vec![] }).collect();
    let (m_big, i_big) = (r.chance(20), r.chance(20));
    let flags = r.bytes(3);
    let iloc_flags = r.bytes(3);
    let bases: Vec<u64> = (0..n).map(|_| if bsz == 0 { 0 } else { r.below(400) as u64 }).collect();
    let method = if fault == 2 && iloc_v > 0 { r.range(1, 2) as u16 } else { 0 };
    let big_off = r.u64();
    let mut item_order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut item_order);
    let missing = fault == 3;
    let split = r.range(1, exif.len() - 1);
    let index_junk = r.u64();
    let build = |mdat_pos: usize| -> Vec<u8> {
        let mut b = vec![];
        b.push((osz << 4 | lsz) as u8);
        b.push((bsz << 4 | isz) as u8);
        let cnt = n - missing as usize;
        if iloc_v < 2 {
            b.b16(cnt as u16);
        } else {
            b.b32(cnt as u32);
        }
        for &i in &item_order {
            if missing && i == exif_at {
                continue;
            }
            if iloc_v < 2 {
                b.b16(ids[i] as u16);
            } else {
                b.b32(ids[i]);
            }
            if iloc_v >= 1 {
                b.b16(if i == exif_at { method } else { 0 });
            }
            b.b16(0);
            let pos = (mdat_pos + mdat_head + at[i].0) as u64;
            // the base may lie behind the data only when the offset can wrap; keep it below
            let base = bases[i].min(pos);
            let mut off = pos - base;
            let mut len = at[i].1 as u64;
            if fault == 4 && i == exif_at {
                // a range outside the file
                if osz == 8 && big_off & 1 == 0 {
                    off = u64::MAX - (big_off >> 60);
                } else {
                    off = (mdat_pos + mdat.len()) as u64 + 100_000;
                }
            }
            if fault == 5 && i == exif_at {
                len += if lsz == 8 { u64::MAX / 2 } else { 0x7000_0000 };
            }
            sized(&mut b, bsz, base);
            if multi && i == exif_at {
                b.b16(2);
                sized(&mut b, isz, index_junk);
                sized(&mut b, osz, off);
                sized(&mut b, lsz, split as u64);
                sized(&mut b, isz, index_junk);
                sized(&mut b, osz, off + split as u64);
                sized(&mut b, lsz, len - split as u64);
            } else {
                b.b16(1);
                sized(&mut b, isz, index_junk);
                sized(&mut b, osz, off);
                sized(&mut b, lsz, len);
            }
        }
        let mut full_iloc = vec![iloc_v];
        full_iloc.raw(&iloc_flags).raw(&b);
        let iloc = bx(b"iloc", &full_iloc, i_big);
        let mut m = vec![0u8];
        m.raw(&flags);
        for o in &meta_order {
            match o {
                0 => m.raw(&iinf),
                1 => m.raw(&iloc),
                2 => m.raw(&bx(b"hdlr", b"\0\0\0\0\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0", false)),
                3 => m.raw(&pads[0]),
                _ => m.raw(&pads[1]),
            };
        }
        bx(b"meta", &m, m_big)
    };
    let meta_len = build(0).len();
    let mut v = ftyp;
    v.raw(&f1);
    let mdat_pos;
    if mdat_first {
        mdat_pos = v.len();
        v.raw(&mdat).raw(&f2);
        v.raw(&build(mdat_pos));
    } else {
        mdat_pos = v.len() + meta_len + f2.len();
        let m = build(mdat_pos);
        v.raw(&m).raw(&f2).raw(&mdat);
    }
    v.raw(&f3);
    let want = match fault {
        1 | 3 => Want::Error,
        2 if method != 0 => Want::Error,
        4 | 5 => Want::Error,
        _ => Want::Block(id),
    };
    Heif { file: v, want }
}
/// The ImageDescription of the block the library used.
pub fn block_of(r: Result<ExifIter, Error>) -> Want {
    match r {
        Err(Error::ExifNotFound) => Want::NotFound,
        Err(_) => Want::Error,
        Ok(it) => {
            let l: Vec<String> = iter_lines(it);
            let d = l.iter().find(|l| l.starts_with("0 010e Text(")).cloned().unwrap_or(format!("no description in {} entries", l.len()));
            Want::Block(d.trim_start_matches("0 010e Text(\"").trim_end_matches("\")").to_string())
        }
    }
}

pub fn p06(x: &mut Ctx) {
    x.suite("heif", 3000, |c| {
        let h = heif(&mut c.r, false);
        c.input(&h.file);
        for m in [Mode::Mem, Mode::Unseek, Mode::Seek, Mode::ASeek, Mode::AUnseek] {
            let got = block_of(exif(&h.file, m));
            let ok = match &h.want {
                Want::Error => matches!(got, Want::Error | Want::NotFound),
                w => got == *w,
            };
            if !c.check(ok, "heif-block", || format!("{m:?}: expected {:?}, got {got:?}", h.want)) {
                return;
            }
        }
        c.tally(if matches!(h.want, Want::Block(_)) { "HEIF files with Exif" } else { "HEIF files with a broken declaration" });
    });
    x.suite("heif-multi-extent", 1, |c| {
        let mut r = Rng::new(7);
        let h = loop {
            let h = heif(&mut r, true);
            if matches!(h.want, Want::Block(_)) {
                break h;
            }
        };
        c.input(&h.file);
        let got = block_of(exif(&h.file, Mode::Mem));
        c.check(got == h.want, "heif-multi-extent", || format!("an Exif item stored in two extents: expected {:?}, got {got:?}", h.want));
    });
    x.suite("cr3", 2000, |c| {
        let mut blocks = vec![];
        let mut used: Vec<(u8, String)> = vec![];
        let r = &mut c.r;
        let n = r.below(7);
        let mut have = [false; 4];
        for _ in 0..n {
            let k = r.range(1, 4);
            if r.chance(25) {
                blocks.push(filler(r));
                continue;
            }
            if have[k - 1] {
                continue;
            }
            have[k - 1] = true;
            let id = format!("cmt{k}-{}", r.below(100000));
            let b = simple(&id, r.chance(50));
            let t = format!("CMT{k}");
            let body = if k == 1 && r.chance(10) { b"not a tiff block at all".to_vec() } else { b };
            if k <= 2 && body.starts_with(b"not") {
                used.push((0, String::new()));
            } else if k <= 2 {
                used.push((k as u8, id));
            }
            blocks.push(rbx(r, t.as_bytes(), &body));
        }
        used.retain(|u| u.0 != 0);
        used.sort();
        if used.is_empty() && have[2] {
            return; // a file with maker notes only: not settled by the property
        }
        let uuid: Vec<u8> = [&[0x85u8, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48][..], &blocks.concat()].concat();
        let canon = rbx(r, b"uuid", &uuid);
        let mut inner = vec![];
        let other = {
            let mut d = r.bytes(16);
            let decoy = simple("decoy", true);
            d.raw(&bx(b"CMT1", &decoy, false));
            rbx(r, b"uuid", &d)
        };
        if r.chance(40) {
            inner.raw(&other);
        }
        if r.chance(30) {
            inner.raw(&rbx(r, b"uuid", b"short"));
        }
        if r.chance(40) {
            inner.raw(&filler(r));
        }
        let with_canon = r.chance(93);
        if with_canon {
            inner.raw(&canon);
        }
        if r.chance(40) {
            inner.raw(&filler(r));
        }
        let moov = rbx(r, b"moov", &inner);
        let mut v = bx(b"ftyp", b"crx \0\0\0\x01crx isom", false);
        if r.chance(40) {
            v.raw(&filler(r));
        }
        if r.chance(10) {
            let n = r.below(30000);
            let d = r.bytes(n);
            v.raw(&rbx(r, b"mdat", &d));
        }
        v.raw(&moov);
        v.raw(&bx(b"mdat", &vec![0; 300], false));
        c.input(&v);
        let want: Vec<String> = if !with_canon { vec![] } else { used.iter().map(|u| u.1.clone()).collect() };
        for m in [Mode::Mem, Mode::Unseek, Mode::AMem, Mode::AUnseek] {
            match exif(&v, m) {
                Err(e) => {
                    // without CMT1 the first of the others is the primary block
                    c.check(want.is_empty(), "cr3", || format!("{m:?}: expected blocks {want:?}, got {}", err_name(&e)));
                }
                Ok(it) => {
                    // the first block's description; the second's is a duplicate of the same directory and tag
                    let l = iter_lines(it);
                    let got: Vec<&String> = l.iter().filter(|l| l.contains(" 010e ")).collect();
                    let ok = !want.is_empty() && got.len() == 1 && *got[0] == format!("0 010e Text({:?})", want[0]);
                    if !c.check(ok, "cr3", || format!("{m:?}: expected blocks {want:?}, got {got:?}")) {
                        return;
                    }
                }
            }
        }
    });
    // which bytes of which block: the second block's own entries
    x.suite("cr3-two-blocks", 600, |c| {
        let o = GenOpts { clean: true, max_entries: 6, gps: true, dates: false };
        let (a, b) = (generate(&mut c.r, &o), generate(&mut c.r, &o));
        let (Some(sa), Some(sb)) = (spec_tiff(&a), spec_tiff(&b)) else { return };
        if sa.ambiguous || sb.ambiguous {
            return;
        }
        let have = if c.r.chance(70) { 3 } else { c.r.below(4) };
        let notes = if c.r.chance(50) { b"makernotes".to_vec() } else { crate::tiff::simple("maker note", c.r.chance(50)) };
        let mut blocks = vec![];
        if have & 1 != 0 {
            blocks.push(rbx(&mut c.r, b"CMT1", &a));
        }
        if have & 2 != 0 {
            blocks.push(rbx(&mut c.r, b"CMT2", &b));
        }
        if have == 0 || c.r.chance(70) {
            blocks.push(rbx(&mut c.r, b"CMT3", &notes));
        }
        c.r.shuffle(&mut blocks);
        let uuid: Vec<u8> = [&[0x85u8, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48][..], &blocks.concat()].concat();
        let mut v = bx(b"ftyp", b"crx \0\0\0\x01crx isom", false);
        v.raw(&bx(b"moov", &bx(b"uuid", &uuid, false), false)).raw(&bx(b"mdat", &vec![0; 200], false));
        c.input(&v);
        let mut seen: std::collections::HashSet<(usize, u16)> = Default::default();
        let mut want = vec![];
        for (k, s) in [sa, sb].into_iter().enumerate() {
            if have & (1 << k) == 0 {
                continue;
            }
            let first = want.is_empty();
            for e in s.entries {
                let v = matches!(e.v, SV::V(_) | SV::Any);
                if first || !seen.contains(&(e.ifd, e.tag)) {
                    if v {
                        seen.insert((e.ifd, e.tag));
                    }
                    want.push(e);
                }
            }
        }
        if have == 0 {
            let r = exif(&v, Mode::Mem);
            c.check(r.is_err(), "cr3-maker-notes", || "the maker notes were taken for Exif data".into());
            return;
        }
        match exif(&v, Mode::Mem) {
            Err(e) => c.fail("cr3-entries", err_name(&e)),
            Ok(it) => {
                if let Err(e) = compare(&want, &iter_lines(it)) {
                    c.fail("cr3-entries", e);
                }
            }
        }
    });
}

// ------------------------------------------------------------------ movies
pub struct Movie {
    pub file: Vec<u8>,
    /// tag name and canonical value
    pub want: Vec<(String, String)>,
    pub gps: Option<String>,
}
fn date1904(s: u64) -> String {
    let d = chrono::NaiveDate::from_ymd_opt(1904, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap() + chrono::Duration::seconds(s as i64);
    format!("DateTime({} 0)", d.format("%Y-%m-%d %H:%M:%S"))
}
fn mvhd(r: &mut Rng, want: &mut Vec<(String, String)>) -> Vec<u8> {
    let v = r.below(2) as u8;
    let ts = if r.chance(95) { *r.pick(&[1u32, 90, 600, 1000, 30000, 44100, 90000]) } else { 1 + (r.u32() >> 1) };
    let created = if v == 1 && r.chance(20) { r.below(20_000_000_000) as u64 } else { r.u32() as u64 };
    let dur = if v == 1 && r.chance(20) { r.below(1 << 40) as u64 } else if r.chance(20) { r.u32() as u64 } else { r.below(4_000_000) as u64 };
    let mut b = vec![];
    if v == 1 {
        b.b64(created).b64(r.u64()).b32(ts).b64(dur);
    } else {
        b.b32(created as u32).b32(r.u32()).b32(ts).b32(dur as u32);
    }
    b.raw(&r.bytes(76)).b32(3);
    want.push(("DurationMs".into(), format!("U64({})", dur as u128 * 1000 / ts as u128)));
    want.push(("CreateDate".into(), date1904(created)));
    full(r, b"mvhd", v, &b)
}
fn hdlr(r: &mut Rng, kind: &[u8]) -> Vec<u8> {
    let mut b = vec![0, 0, 0, 0];
    let m: &[u8] = *r.pick(&[&b"mhlr"[..], b"\0\0\0\0"]);
    b.raw(m).raw(kind).raw(&[0; 12]).raw(b"name\0");
    // `hdlr` is addressed without its version and flags by readers that skip them
    rbx(r, b"hdlr", &b)
}
fn trak(r: &mut Rng, kind: &[u8], w: u16, h: u16) -> Vec<u8> {
    let v = r.below(2) as u8;
    let mut b = vec![];
    if v == 1 {
        b.b64(r.u64()).b64(r.u64()).b32(1).b32(0).b64(r.u64());
    } else {
        b.b32(r.u32()).b32(r.u32()).b32(1).b32(0).b32(r.u32());
    }
    b.b64(0).b16(0).b16(0).b16(0).b16(0).raw(&r.bytes(36));
    b.b16(w).b16(r.u16()).b16(h).b16(r.u16());
    let tkhd = full(r, b"tkhd", v, &b);
    let mut mdia = vec![];
    for k in 0..4 {
        if k == 2 {
            mdia.raw(&hdlr(r, kind));
        } else if r.chance(50) {
            mdia.raw(&filler(r));
        }
    }
    let mdia = rbx(r, b"mdia", &mdia);
    let mut parts = vec![tkhd, mdia];
    if r.chance(50) {
        parts.push(filler(r));
    }
    r.shuffle(&mut parts);
    rbx(r, b"trak", &parts.concat())
}
fn iso_location(r: &mut Rng) -> (String, String) {
    let (la, lo) = (r.below(90_000_000) as f64 / 1e6, r.below(180_000_000) as f64 / 1e6);
    let (s, w) = (r.chance(50), r.chance(50));
    let d = r.range(1, 6);
    let text = format!("{}{:0wl$.d$}{}{:0wo$.d$}/", if s { '-' } else { '+' }, la, if w { '-' } else { '+' }, lo, wl = d + 3, wo = d + 4, d = d);
    let p = |x: f64| format!("{x:.d$}").parse::<f64>().unwrap();
    let sg = |n: bool, x: f64| if n { -x } else { x };
    (text, format!("{:.4} {:.4}", sg(s, p(la)) + 0.0, sg(w, p(lo)) + 0.0))
}
/// A track that has no readable handler: no media box, a media box without a
/// handler, a handler too short for a type, or boxes that do not fit.
fn trak_without_handler(r: &mut Rng) -> Vec<u8> {
    let mut mdia = vec![];
    match r.below(6) {
        0 => {}
        1 => {
            mdia.raw(&bx(b"minf", &[0; 20], false)).raw(&filler_plain(r));
        }
        2 => {
            let n = r.below(12);
            mdia.raw(&bx(b"hdlr", &vec![0; n], false));
        }
        // a box that claims to be larger than its parent
        3 => {
            mdia.b32(0x7000_0000 + r.below(1000) as u32).raw(b"minf").raw(&[0; 9]);
        }
        // a box smaller than its own header
        4 => {
            mdia.b32(r.range(2, 7) as u32).raw(b"minf").raw(&[0; 9]);
        }
        // no whole header
        _ => {
            let n = r.range(1, 7);
            mdia.raw(&vec![0x55; n]);
        }
    }
    let mut b = vec![];
    b.b32(r.u32()).b32(r.u32()).b32(1).b32(0).b32(r.u32());
    b.b64(0).b64(0).raw(&[0; 36]).b32(1 << 16).b32(1 << 16);
    let mut t = full(r, b"tkhd", 0, &b);
    if r.chance(85) {
        t.raw(&bx(b"mdia", &mdia, false));
    }
    rbx(r, b"trak", &t)
}
pub fn movie(r: &mut Rng) -> Movie {
    let mut want = vec![];
    let mut gps = None;
    let mut parts = vec![];
    if r.chance(93) {
        parts.push(mvhd(r, &mut want));
    }
    let n = r.below(4);
    let mut video: Option<(u16, u16)> = None;
    let mut traks = vec![];
    for _ in 0..n {
        if r.chance(12) {
            traks.push(trak_without_handler(r));
        }
        let k: &[u8] = *r.pick(&[&b"vide"[..], b"soun", b"meta", b"hint"]);
        let (w, h) = (r.u16(), r.u16());
        traks.push(trak(r, k, w, h));
        if k == b"vide" && video.is_none() {
            video = Some((w, h));
        }
    }
    if let Some((w, h)) = video {
        want.push(("Width".into(), format!("U32({w})")));
        want.push(("Height".into(), format!("U32({h})")));
    }
    let mut meta_loc = false;
    if r.chance(70) {
        let keys: [(&str, &str); 6] = [
            ("com.apple.quicktime.make", "Make"),
            ("com.apple.quicktime.model", "Model"),
            ("com.apple.quicktime.software", "Software"),
            ("com.apple.quicktime.author", "Author"),
            ("com.apple.quicktime.location.ISO6709", "GpsIso6709"),
            ("com.apple.quicktime.creationdate", "CreateDate"),
        ];
        let mut ks: Vec<(String, String)> = keys.iter().map(|k| (k.0.to_string(), k.1.to_string())).collect();
        for i in 0..r.below(4) {
            ks.push((format!("com.example.key{i}"), String::new()));
        }
        r.shuffle(&mut ks);
        let k = r.below(ks.len() + 1);
        ks.truncate(k);
        let mut kb = vec![];
        kb.b32(ks.len() as u32);
        for (k, _) in &ks {
            kb.b32(k.len() as u32 + 8).raw(b"mdta").raw(k.as_bytes());
        }
        let keybox = full(r, b"keys", 0, &kb);
        let mut items: Vec<usize> = (0..ks.len()).filter(|_| r.chance(85)).collect();
        if r.chance(50) {
            r.shuffle(&mut items);
        }
        let mut ib = vec![];
        for i in items {
            let (key, tag) = &ks[i];
            let mut d = vec![];
            if tag.is_empty() {
                // values of other kinds, some of them unsupported
                let (code, n) = *r.pick(&[(0u32, 5usize), (1, 3), (13, 40), (21, 4), (22, 1), (23, 4), (24, 8), (65, 1), (77, 8), (21, 5)]);
                d.b32(code).b32(0).raw(&r.bytes(n));
            } else if tag == "GpsIso6709" {
                let (t, g) = iso_location(r);
                d.b32(1).b32(0).raw(t.as_bytes());
                want.push((tag.clone(), format!("Text({t:?})")));
                gps = Some(g);
                meta_loc = true;
            } else if tag == "CreateDate" {
                let o = r.range(0, 26) as i32 - 12;
                let (y, mo, da, h, mi, s) = (r.range(1970, 2050), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60));
                let colon = if r.chance(50) { ":" } else { "" };
                let t = format!("{y:04}-{mo:02}-{da:02}T{h:02}:{mi:02}:{s:02}{}{:02}{colon}00", if o < 0 { '-' } else { '+' }, o.abs());
                d.b32(1).b32(0).raw(t.as_bytes());
                want.retain(|w| w.0 != "CreateDate");
                want.push((tag.clone(), format!("DateTime({y:04}-{mo:02}-{da:02} {h:02}:{mi:02}:{s:02} {})", o * 3600)));
            } else {
                let mut t: String = String::from_utf8(r.ascii(12)).unwrap();
                if r.chance(30) {
                    t.push_str(" é日本 ");
                }
                d.b32(1).b32(0).raw(t.as_bytes());
                want.push((tag.clone(), format!("Text({t:?})")));
            }
            let _ = key;
            let mut item = vec![];
            item.b32(d.len() as u32 + 16).b32(i as u32 + 1).b32(d.len() as u32 + 8).raw(b"data").raw(&d);
            ib.raw(&item);
        }
        let ilst = rbx(r, b"ilst", &ib);
        let mut mp = vec![keybox, ilst, hdlr(r, b"mdta")];
        r.shuffle(&mut mp);
        parts.push(rbx(r, b"meta", &mp.concat()));
    }
    if r.chance(40) {
        let mut u = vec![];
        if r.chance(40) {
            u.raw(&filler_plain(r));
        }
        if !meta_loc && r.chance(70) {
            let (t, g) = iso_location(r);
            let mut d = vec![];
            d.b16(t.len() as u16).b16(0x15c7).raw(t.as_bytes());
            u.raw(&rbx(r, b"\xa9xyz", &d));
            want.push(("GpsIso6709".into(), format!("Text({t:?})")));
            gps = Some(g);
        }
        if r.chance(40) {
            u.raw(&filler_plain(r));
        }
        if r.chance(40) {
            u.b32(0);
        }
        parts.push(rbx(r, b"udta", &u));
    }
    for _ in 0..r.below(3) {
        parts.push(filler(r));
    }
    r.shuffle(&mut parts);
    // the tracks keep their order: they are inserted at random places
    let mut pos: Vec<usize> = traks.iter().map(|_| r.below(parts.len() + 1)).collect();
    pos.sort();
    for (t, p) in traks.into_iter().zip(pos).rev() {
        parts.insert(p, t);
    }
    let moov = rbx(r, b"moov", &parts.concat());
    let brand: &[u8] = *r.pick(&[&b"qt  "[..], b"mp42", b"isom", b"3gp4"]);
    let mut f = brand.to_vec();
    f.b32(0x200);
    if brand == b"qt  " {
        f.raw(b"qt  ");
    } else {
        f.raw(b"isommp42");
    }
    let mut v = bx(b"ftyp", &f, false);
    let n = if r.chance(30) { r.range(5000, 60000) } else { r.range(120, 600) };
    let data = r.bytes(n);
    let mdat = rbx(r, b"mdat", &data);
    if r.chance(50) {
        v.raw(&mdat);
    }
    if r.chance(30) {
        v.raw(&filler(r));
    }
    v.raw(&moov);
    v.raw(&mdat);
    Movie { file: v, want, gps }
}
fn filler_plain(r: &mut Rng) -> Vec<u8> {
    let n = r.below(30);
    let d = r.bytes(n);
    rbx(r, b"abcd", &d)
}
pub fn movie_lines(m: &Movie) -> String {
    let mut v: Vec<String> = m.want.iter().map(|(k, x)| format!("{k}={x}")).collect();
    v.sort();
    v.join("\n")
}
pub fn got_lines(t: &TrackInfo) -> String {
    let mut v: Vec<String> = t.iter().map(|(k, v)| format!("{k}={}", canon(v))).collect();
    v.sort();
    v.join("\n")
}
pub fn p07(x: &mut Ctx) {
    x.suite("movies", 5000, |c| {
        let m = movie(&mut c.r);
        c.input(&m.file);
        for mode in [Mode::Mem, Mode::Unseek, Mode::Seek, Mode::AMem, Mode::ASeek, Mode::AUnseek] {
            match track(&m.file, mode) {
                Err(e) => {
                    c.fail("movie-refused", format!("{mode:?}: {}", err_name(&e)));
                    return;
                }
                Ok(t) => {
                    if !c.same("movie", &format!("{mode:?}"), &movie_lines(&m), &got_lines(&t)) {
                        return;
                    }
                    let g = t.gps_info().map(|g| format!("{:.4} {:.4}", g.latitude_decimal().unwrap_or(f64::NAN), g.longitude_decimal().unwrap_or(f64::NAN)));
                    let near = match (&g, &m.gps) {
                        (Some(a), Some(b)) => a.split(' ').zip(b.split(' ')).all(|(p, q)| (p.parse::<f64>().unwrap() - q.parse::<f64>().unwrap()).abs() < 0.0002),
                        (a, b) => a == b,
                    };
                    c.check(near, "location", || format!("expected {:?}, got {g:?}", m.gps));
                    // `get` agrees with `iter`
                    for tag in [
                        TrackInfoTag::Make, TrackInfoTag::Model, TrackInfoTag::Software, TrackInfoTag::CreateDate, TrackInfoTag::DurationMs,
                        TrackInfoTag::Width, TrackInfoTag::Height, TrackInfoTag::GpsIso6709, TrackInfoTag::Author,
                    ] {
                        let a = t.get(tag).map(canon);
                        let b = m.want.iter().find(|w| w.0 == tag.to_string()).map(|w| w.1.clone());
                        c.check(a == b, "get", || format!("{tag}: {a:?} {b:?}"));
                    }
                }
            }
        }
        if !m.want.is_empty() {
            c.tally("movies with declared metadata");
        }
    });
    // every duration and time scale
    x.suite("durations", 3000, |c| {
        let ts = match c.r.below(3) {
            0 => 1 + c.r.below(2000) as u32,
            1 => (c.r.u32()).max(1),
            _ => *c.r.pick(&[600, 1000, 30000, 24000, 90000]),
        };
        let dur = c.r.u32();
        let mut b = vec![0, 0, 0, 0];
        b.b32(1000).b32(0).b32(ts).b32(dur).raw(&[0; 76]).b32(2);
        let mut v = bx(b"ftyp", b"mp42\0\0\0\0isommp42", false);
        v.raw(&bx(b"moov", &bx(b"mvhd", &b, false), false)).raw(&bx(b"mdat", &[0; 100], false));
        c.input(&v);
        match track(&v, Mode::Mem) {
            Err(e) => c.fail("duration", err_name(&e)),
            Ok(t) => {
                let want = format!("U64({})", dur as u128 * 1000 / ts as u128);
                let got = t.get(TrackInfoTag::DurationMs).map(canon);
                c.check(got.as_deref() == Some(&want), "duration", || format!("{dur} at {ts}: expected {want}, got {got:?}"));
            }
        }
    });
    // nothing of a broken header is reported from elsewhere
    x.suite("truncated", 1500, |c| {
        let m = movie(&mut c.r);
        let cut = c.r.range(16, m.file.len());
        let f = &m.file[..cut];
        c.input(f);
        if let Ok(t) = track(f, Mode::Mem) {
            for (k, v) in t.iter() {
                let line = (k.to_string(), canon(v));
                c.check(m.want.contains(&line), "truncated", || format!("{line:?} is not what the file declares: {:?}", m.want));
            }
        }
    });
}
