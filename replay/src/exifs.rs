//! P01, P02, P03, P14, P15, P18: what an Exif block yields.
use crate::drive::*;
use crate::tiff::*;
use crate::util::*;
use nom_exif::*;
use std::result::Result;

pub fn jpeg_with(block: &[u8]) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8, 0xff, 0xe1];
    v.b16((block.len() + 8) as u16).raw(b"Exif\0\0").raw(block);
    v.raw(&[0xff, 0xdb, 0, 4, 1, 2, 0xff, 0xda, 0, 2]).raw(&[0x55; 160]).raw(&[0xff, 0xd9]);
    v
}
pub fn png_with(block: &[u8]) -> Vec<u8> {
    let mut v = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut chunk = |t: &[u8], d: &[u8]| {
        v.b32(d.len() as u32).raw(t).raw(d).b32(0);
    };
    chunk(b"IHDR", &[0; 13]);
    chunk(b"eXIf", block);
    chunk(b"IEND", &[]);
    v
}
fn hold(c: &mut Case, block: &[u8]) -> Vec<u8> {
    if block.len() < 65000 && c.r.chance(60) {
        jpeg_with(block)
    } else {
        png_with(block)
    }
}
/// One block through the library against the specification.
fn against_spec(c: &mut Case, block: &[u8], values: bool, order: bool, gps: bool) {
    let file = hold(c, block);
    c.input(&file);
    let spec = spec_tiff(block);
    let got = exif(&file, Mode::Mem);
    match (spec, got) {
        (None, Err(_)) => c.tally("malformed blocks"),
        (None, Ok(_)) => c.fail("malformed-accepted", "a block without a valid header and first directory was accepted".into()),
        (Some(_), Err(e)) => c.fail("block-refused", format!("well-formed block refused: {}", err_name(&e))),
        (Some(s), Ok(it)) => {
            if s.deepest > 7 || s.ambiguous {
                return;
            }
            c.tally("blocks compared");
            if gps {
                if let Some(g) = &s.gps {
                    let got = gps_res(&it.parse_gps());
                    c.same("gps", "GPS information", g, &got);
                    if g != "none" {
                        c.tally("blocks with GPS data");
                    }
                }
            }
            let lines = iter_lines(it);
            if order {
                let want: Vec<String> = s.entries.iter().map(|e| format!("{} {:04x}", e.ifd, e.tag)).collect();
                let have: Vec<String> = lines.iter().map(|l| l.split(' ').take(2).collect::<Vec<_>>().join(" ")).collect();
                c.same("order", "sequence of (directory, tag)", &want.join("\n"), &have.join("\n"));
            }
            if values {
                if let Err(e) = compare(&s.entries, &lines) {
                    c.fail("value", e);
                }
            }
        }
    }
}

pub fn p01(x: &mut Ctx) {
    x.suite("random-blocks", 6000, |c| {
        let o = GenOpts { clean: false, max_entries: c.r.range(1, 14), gps: false, dates: false };
        let b = generate(&mut c.r, &o);
        against_spec(c, &b, true, false, false);
    });
    // one entry, every format, small counts, both byte orders, inline and at
    // an offset, exactly at and one past the end of the block
    x.suite("single-entry", 6000, |c| {
        let be = c.r.chance(50);
        let fmt = if c.r.chance(85) { c.r.range(1, 12) as u16 } else { [0u16, 13, 14, 0x0100, 0x0c00, 65535][c.r.below(6)] };
        let size = if (1..=12).contains(&fmt) { [0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8][fmt as usize] } else { 1 };
        let count = match c.r.below(10) {
            0 => c.r.u32(),
            1 => 0,
            2 => 0x2000_0000 + c.r.below(3) as u32,
            3 => 0x8000_0000,
            4 => 0x4000_0001,
            _ => c.r.range(1, 9) as u32,
        };
        let tag = if c.r.chance(50) { 0x9286u16 } else { c.r.range(1, 0xffff) as u16 };
        let tag = if matches!(tag, 0x8769 | 0x8825 | 0x9003 | 0x9004 | 0x0132 | 0x9010..=0x9012) { 0x9286 } else { tag };
        let need = (count as usize * size).min(64);
        let mut v = vec![];
        v.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(8, be).e16(1, be);
        v.e16(tag, be).e16(fmt, be).e32(count, be);
        let base = 8 + 2 + 12 + 4;
        let pre = c.r.below(7);
        let off = match c.r.below(12) {
            0 => c.r.u32(),
            1 => base as u32 + pre as u32 + 1,
            2 => c.r.below(base) as u32,
            _ => base as u32 + pre as u32,
        };
        if count as usize * size <= 4 {
            let f = c.r.bytes(4);
            v.raw(&f);
        } else {
            v.e32(off, be);
        }
        v.e32(0, be);
        let tail = c.r.bytes(pre + need);
        v.raw(&tail);
        against_spec(c, &v, true, false, false);
    });
    // a broken entry never disturbs its neighbours: the block with one entry
    // damaged yields the other entries unchanged
    x.suite("neighbours", 1500, |c| {
        let o = GenOpts { clean: true, max_entries: 10, gps: false, dates: false };
        let b = generate(&mut c.r, &o);
        let be = b[0] == b'M';
        let rd = Rd { d: &b, be };
        let Some(off) = rd.u32(4) else { return };
        let off = off as usize;
        let n = rd.u16(off).unwrap_or(0) as usize;
        if n == 0 {
            return;
        }
        let i = c.r.below(n);
        let p = off + 2 + 12 * i;
        let tag = rd.u16(p).unwrap();
        if matches!(tag, 0x8769 | 0x8825) {
            return;
        }
        let mut m = b.clone();
        match c.r.below(3) {
            0 => {
                let mut f = vec![];
                f.e16([0u16, 13, 99, 0xffff][c.r.below(4)], be);
                m[p + 2..p + 4].copy_from_slice(&f);
            }
            1 => {
                let mut f = vec![];
                f.e32(c.r.u32(), be);
                m[p + 4..p + 8].copy_from_slice(&f);
            }
            _ => {
                let mut f = vec![];
                f.e32(c.r.u32(), be);
                m[p + 8..p + 12].copy_from_slice(&f);
            }
        }
        against_spec(c, &m, true, true, false);
    });
}

pub fn p02(x: &mut Ctx) {
    x.suite("random-trees", 8000, |c| {
        let o = GenOpts { clean: false, max_entries: c.r.range(1, 10), gps: c.r.chance(50), dates: false };
        let b = generate(&mut c.r, &o);
        against_spec(c, &b, false, true, false);
    });
    // next-directory chains, with duplicates, cycles and a link that ends the block
    x.suite("chains", 1500, |c| {
        let be = c.r.chance(50);
        let k = c.r.range(1, 8);
        let mut v = vec![];
        v.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(8, be);
        let mut at = vec![];
        let mut pos = 8;
        let ns: Vec<usize> = (0..k).map(|_| c.r.below(4)).collect();
        for n in &ns {
            at.push(pos);
            pos += 2 + 12 * n + 4;
        }
        let end = pos;
        for (i, n) in ns.iter().enumerate() {
            v.e16(*n as u16, be);
            for _ in 0..*n {
                let t = [0x010eu16, 0x010f, 0x0112, 0xfe00, 0x8769, 0x8825][c.r.below(6)];
                if t == 0x8769 || t == 0x8825 {
                    let to = if c.r.chance(90) { at[c.r.below(k)] } else { end - c.r.below(5) };
                    v.e16(t, be).e16(4, be).e32(1, be).e32(to as u32, be);
                } else {
                    let f = if c.r.chance(85) { 3 } else { 77 };
                    v.e16(t, be).e16(f, be).e32(1, be).e32(c.r.u32(), be);
                }
            }
            let nx = match c.r.below(10) {
                0 => 0,
                1 => at[c.r.below(k)] as u32,
                2 => (end - c.r.below(4)) as u32,
                _ => at.get(i + 1).copied().unwrap_or(0) as u32,
            };
            v.e32(nx, be);
        }
        against_spec(c, &v, true, true, false);
    });
    // a whole TIFF file
    x.suite("tiff-files", 2000, |c| {
        let o = GenOpts { clean: true, max_entries: 8, gps: true, dates: true };
        let b = generate(&mut c.r, &o);
        c.input(&b);
        let Some(s) = spec_tiff(&b) else { return };
        if s.ambiguous {
            return;
        }
        match exif(&b, Mode::Mem) {
            Err(e) => c.fail("tiff-refused", format!("TIFF file refused: {}", err_name(&e))),
            Ok(it) => {
                if let Err(e) = compare(&s.entries, &iter_lines(it)) {
                    c.fail("tiff-entries", e);
                }
            }
        }
    });
    // the 65535-entry directory and one longer than the block
    x.suite("huge-directory", 12, |c| {
        let be = c.r.chance(50);
        let n = [65535usize, 65534, 4096, 1][c.r.below(4)];
        let mut v = vec![];
        v.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(8, be).e16(n as u16, be);
        for i in 0..n {
            v.e16((i as u16).max(1), be).e16(3, be).e32(1, be).e32(i as u32, be);
        }
        if c.r.chance(50) {
            v.e32(0, be);
        } else {
            let k = c.r.range(1, 14);
            v.truncate(v.len() - k);
        }
        let f = png_with(&v);
        c.input(&f[..f.len().min(4000)]);
        let s = spec_tiff(&v);
        match (s, exif(&f, Mode::Mem)) {
            (None, Err(_)) => {}
            (Some(s), Ok(it)) => {
                let sub: Vec<SEntry> = s.entries.into_iter().filter(|e| !matches!(e.tag, 0x8769 | 0x8825)).collect();
                let l: Vec<String> = iter_lines(it).into_iter().filter(|l| !l.starts_with("0 8769") && !l.starts_with("0 8825")).collect();
                if let Err(e) = compare(&sub, &l) {
                    c.fail("huge", e);
                }
            }
            (s, g) => c.fail("huge", format!("spec {:?} library {:?}", s.is_some(), g.is_ok())),
        }
    });
}

pub fn cr3_of(blocks: &[(&[u8], Vec<u8>)]) -> Vec<u8> {
    let bx = |t: &[u8], d: &[u8]| {
        let mut v = vec![];
        v.b32(d.len() as u32 + 8).raw(t).raw(d);
        v
    };
    let mut uuid = vec![0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
    for (t, b) in blocks {
        uuid.extend(bx(t, b));
    }
    let mut v = bx(b"ftyp", b"crx \0\0\0\x01crx isom");
    v.extend(bx(b"moov", &[bx(b"uuid", &uuid), bx(b"mvhd", &[0; 100])].concat()));
    v.extend(bx(b"mdat", &[0; 64]));
    v
}

pub fn p03(x: &mut Ctx) {
    x.suite("views", 3000, |c| {
        let o = GenOpts { clean: c.r.chance(40), max_entries: c.r.range(1, 8), gps: true, dates: true };
        let b = generate(&mut c.r, &o);
        let cr3 = c.r.chance(35);
        let file = if cr3 {
            let b2 = generate(&mut c.r, &o);
            let mut bl: Vec<(&[u8], Vec<u8>)> = vec![(b"CMT1", b)];
            if c.r.chance(85) {
                bl.push((b"CMT2", b2));
            }
            if c.r.chance(30) {
                bl.push((b"CMT3", simple("makernote", true)));
            }
            cr3_of(&bl)
        } else {
            hold(c, &b)
        };
        c.input(&file);
        let Ok(it) = exif(&file, Mode::Mem) else {
            c.tally("refused");
            return;
        };
        let Ok(fresh) = exif(&file, Mode::Mem) else {
            c.fail("unstable", "second parse failed".into());
            return;
        };
        let all = iter_lines(fresh);
        c.tally(if cr3 { "CR3 sources" } else { "single-block sources" });
        let g0 = gps_res(&it.parse_gps());
        let flag0 = it.has_embedded_track();
        let mut it = it;
        // steps over the history: next / gps / flag / clone / rewind
        let mut pos = 0usize;
        for step in 0..c.r.range(3, 30) {
            match c.r.below(10) {
                0 => {
                    let g = gps_res(&it.parse_gps());
                    c.same("gps-changes", &format!("parse_gps at step {step}, position {pos}"), &g0, &g);
                }
                1 => {
                    let f = it.has_embedded_track();
                    c.check(f == flag0, "flag-changes", || format!("flag became {f}"));
                }
                2 => {
                    let l = iter_lines(it.clone());
                    c.same("clone", &format!("clone taken at {pos}"), &all.join("\n"), &l.join("\n"));
                }
                3 => {
                    let l = iter_lines(it.clone_rewound());
                    c.same("clone-rewound", &format!("clone_rewound at {pos}"), &all.join("\n"), &l.join("\n"));
                }
                4 => {
                    it.rewind();
                    pos = 0;
                }
                _ => {
                    let e = it.next().map(|e| entry_line(&e));
                    let want = all.get(pos).cloned();
                    if !c.check(e == want, "history", || format!("entry {pos} at step {step}: expected {want:?}, got {e:?}")) {
                        return;
                    }
                    if want.is_some() {
                        pos += 1;
                    }
                }
            }
        }
        // the eager form taken here: exactly the entries still to come
        let rest = &all[pos..];
        let eager: Exif = it.into();
        let g = eager.gps_info().map(gps_text).unwrap_or("none".into());
        let want_g = if g0.starts_with("ERR") { "none".to_string() } else { g0.clone() };
        c.same("eager-gps", "gps of the eager form", &want_g, &g);
        c.check(eager.has_embedded_track() == flag0, "eager-flag", || "flag differs in the eager form".into());
        let mut want: Vec<String> = rest.iter().filter(|l| !is_err(l)).cloned().collect();
        want.sort();
        let mut have: Vec<String> = eager.iter().map(|e| line(e.ifd.as_usize(), e.tag.code(), Ok(e.value))).collect();
        have.sort();
        c.same("eager-values", &format!("values of the eager form taken at {pos}"), &want.join("\n"), &have.join("\n"));
        let want: Vec<String> = rest.iter().filter(|l| is_err(l)).cloned().collect();
        let have: Vec<String> = eager.errors().iter().map(|(i, t, e)| line(i.as_usize(), t.code(), Err(e))).collect();
        c.same("eager-errors", "errors of the eager form", &want.join("\n"), &have.join("\n"));
        for e in eager.iter() {
            let v = eager.get_by_code(e.ifd, e.tag.code());
            c.check(v == Some(e.value) || format!("{v:?}") == format!("{:?}", Some(e.value)), "lookup", || format!("get_by_code {:?} {:?} gives {v:?}", e.ifd, e.tag));
            if let Some(t) = e.tag.tag() {
                let a = eager.get_in(e.ifd, t);
                c.check(format!("{a:?}") == format!("{v:?}"), "lookup", || format!("get_in {:?} {t:?} gives {a:?}", e.ifd));
                if e.ifd == IfdIndex::MAIN {
                    let a = eager.get(t);
                    c.check(format!("{a:?}") == format!("{v:?}"), "lookup", || format!("get {t:?} gives {a:?}"));
                }
            }
        }
        // tags that are absent are not found
        for code in [0x010eu16, 0x9003, 0x0112, 0xfe01, 0x8769] {
            for i in 0..3 {
                let want = rest.iter().find(|l| l.starts_with(&format!("{i} {code:04x} ")) && !is_err(l));
                let got = eager.get_by_code(IfdIndex::new(i), code).map(|v| format!("{i} {code:04x} {}", canon(v)));
                c.check(want == got.as_ref(), "lookup", || format!("{i}/{code:04x}: want {want:?} got {got:?}"));
            }
        }
    });
    // CR3 against the specification of its blocks
    x.suite("cr3-blocks", 800, |c| {
        let o = GenOpts { clean: true, max_entries: 6, gps: false, dates: true };
        let (b1, b2) = (generate(&mut c.r, &o), generate(&mut c.r, &o));
        let file = cr3_of(&[(b"CMT1", b1.clone()), (b"CMT2", b2.clone()), (b"CMT3", simple("mk", false))]);
        c.input(&file);
        let (Some(s1), Some(s2)) = (spec_tiff(&b1), spec_tiff(&b2)) else { return };
        if s1.ambiguous || s2.ambiguous || s1.entries.iter().chain(&s2.entries).any(|e| e.v == SV::Any) {
            return;
        }
        let mut want = s1.entries.clone();
        let seen: std::collections::HashSet<_> = want.iter().filter(|e| e.v != SV::E).map(|e| (e.ifd, e.tag)).collect();
        // a duplicate pointer hides only its own line; compare when blocks share none
        if s2.entries.iter().any(|e| seen.contains(&(e.ifd, e.tag))) {
            c.tally("blocks sharing tags");
            want.extend(s2.entries.iter().filter(|e| !seen.contains(&(e.ifd, e.tag))).cloned());
        } else {
            want.extend(s2.entries.clone());
        }
        match exif(&file, Mode::Mem) {
            Err(e) => c.fail("cr3-refused", err_name(&e)),
            Ok(it) => {
                if let Err(e) = compare(&want, &iter_lines(it)) {
                    c.fail("cr3-entries", e);
                }
            }
        }
    });
}

pub fn p18(x: &mut Ctx) {
    x.suite("date-entries", 5000, |c| {
        let o = GenOpts { clean: true, max_entries: 3, gps: false, dates: true };
        let b = generate(&mut c.r, &o);
        against_spec(c, &b, true, false, false);
    });
    // IFD0 with ModifyDate, Exif directory with the others, every subset of offsets
    x.suite("offsets", 6000, |c| {
        let be = c.r.chance(50);
        let mut es: Vec<(u16, Vec<u8>)> = vec![];
        for t in [0x9003u16, 0x9004] {
            if c.r.chance(80) {
                es.push((t, date_text(&mut c.r)));
            }
        }
        for t in [0x9010u16, 0x9011, 0x9012] {
            if c.r.chance(45) {
                es.push((t, tz_text(&mut c.r)));
            }
        }
        if c.r.chance(25) {
            es.push((0x010e, b"text\0".to_vec()));
        }
        c.r.shuffle(&mut es);
        let md = date_text(&mut c.r);
        let first = c.r.chance(50);
        let with_sub = c.r.chance(92);
        let mut v = vec![];
        v.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(8, be);
        v.e16(if with_sub { 2 } else { 1 }, be);
        let n0 = if with_sub { 2 } else { 1 };
        let sub = 8 + 2 + 12 * n0 + 4;
        let heap = sub + if with_sub { 2 + 12 * es.len() + 4 } else { 0 };
        let mut data = vec![];
        let mut put = |v: &mut Vec<u8>, t: u16, d: &[u8]| {
            v.e16(t, be).e16(2, be).e32(d.len() as u32, be);
            if d.len() > 4 {
                v.e32((heap + data.len()) as u32, be);
                data.extend_from_slice(d);
            } else {
                let mut f = d.to_vec();
                f.resize(4, 0);
                v.raw(&f);
            }
        };
        let ptr = |v: &mut Vec<u8>| {
            v.e16(0x8769, be).e16(4, be).e32(1, be).e32(sub as u32, be);
        };
        if first && with_sub {
            ptr(&mut v);
        }
        put(&mut v, 0x0132, &md);
        if !first && with_sub {
            ptr(&mut v);
        }
        v.e32(0, be);
        if with_sub {
            v.e16(es.len() as u16, be);
            for (t, d) in &es {
                put(&mut v, *t, d);
            }
            v.e32(0, be);
        }
        v.extend(data);
        against_spec(c, &v, true, true, false);
    });
    x.suite("accessors", 3000, |c| {
        use chrono::*;
        let n = NaiveDate::from_ymd_opt(c.r.range(1, 9999) as i32, c.r.range(1, 12) as u32, c.r.range(1, 28) as u32)
            .unwrap()
            .and_hms_opt(c.r.below(24) as u32, c.r.below(60) as u32, c.r.below(60) as u32)
            .unwrap();
        let off = |r: &mut Rng| FixedOffset::east_opt(r.range(0, 2 * 86399) as i32 - 86399).unwrap();
        let (o1, o2) = (off(&mut c.r), off(&mut c.r));
        c.input(format!("{n} {o1} {o2}").as_bytes());
        let a = n.and_local_timezone(o1).unwrap();
        let ev = EntryValue::DateTime(a);
        let d = ev.as_datetime();
        c.check(d == Some(ExifDateTime::Aware(a)), "as_datetime", || format!("{d:?}"));
        let d = ExifDateTime::Aware(a);
        c.check(d.aware().map(|x| (x, x.offset().local_minus_utc())) == Some((a, o1.local_minus_utc())), "aware", || format!("{:?}", d.aware()));
        c.check(d.into_naive() == n, "into_naive", || format!("{n} {:?}", d.into_naive()));
        let r = d.or_offset(o2);
        c.check(r == a && *r.offset() == o1, "or_offset", || format!("{r:?}"));
        let d = ExifDateTime::Naive(n);
        c.check(d.aware().is_none() && d.into_naive() == n, "naive", || format!("{d:?}"));
        let r = d.or_offset(o2);
        c.check(r.naive_local() == n && *r.offset() == o2, "or_offset-naive", || format!("{r:?}"));
        let ev = EntryValue::NaiveDateTime(n);
        c.check(ev.as_datetime() == Some(ExifDateTime::Naive(n)), "as_datetime-naive", || format!("{ev:?}"));
        for v in [EntryValue::U8(1), EntryValue::Text("2020:01:01 00:00:00".into()), EntryValue::U64(7)] {
            c.check(v.as_datetime().is_none(), "as_datetime-other", || format!("{v:?}"));
        }
    });
}

pub fn p14(x: &mut Ctx) {
    x.suite("gps-directories", 5000, |c| {
        let o = GenOpts { clean: c.r.chance(60), max_entries: 4, gps: true, dates: false };
        let b = generate(&mut c.r, &o);
        against_spec(c, &b, false, false, true);
    });
    // GPS directory in the second block of a CR3 file, at an offset that also
    // exists in the first
    x.suite("gps-in-cr3", 600, |c| {
        let o = GenOpts { clean: true, max_entries: 4, gps: true, dates: false };
        let (b1, b2) = (generate(&mut c.r, &o), generate(&mut c.r, &o));
        let (Some(s1), Some(s2)) = (spec_tiff(&b1), spec_tiff(&b2)) else { return };
        let file = cr3_of(&[(b"CMT1", b1), (b"CMT2", b2)]);
        c.input(&file);
        let want = match (&s1.gps, &s2.gps) {
            (Some(a), _) if a != "none" => a.clone(),
            (Some(_), Some(b)) => {
                let dup = s1.entries.iter().any(|e| e.tag == 0x8825);
                if dup {
                    return;
                }
                b.clone()
            }
            _ => return,
        };
        if let Ok(it) = exif(&file, Mode::Mem) {
            let g = gps_res(&it.parse_gps());
            c.same("gps-block", "GPS of a two-block source", &want, &g);
        }
    });
    let rat = |r: &mut Rng| {
        let d = if r.chance(85) { [1u32, 10, 100, 1000, 3600, 7][r.below(6)] } else { r.u32() };
        URational::new(if r.chance(80) { r.below(100000) as u32 } else { r.u32() }, d)
    };
    x.suite("decimal", 5000, |c| {
        let l = LatLng::new(rat(&mut c.r), rat(&mut c.r), rat(&mut c.r));
        c.input(format!("{l:?}").as_bytes());
        let f = |r: URational| (r.denominator() != 0).then(|| r.numerator() as f64 / r.denominator() as f64);
        let want = (|| Some(f(l.degrees)? + f(l.minutes)? / 60.0 + f(l.seconds)? / 3600.0))();
        let got = l.to_decimal_degrees();
        c.check(
            match (want, got) {
                (None, None) => true,
                (Some(a), Some(b)) => (a - b).abs() <= 1e-9 * a.abs().max(1.0),
                _ => false,
            },
            "to_decimal",
            || format!("{l:?}: {got:?}, expected {want:?}"),
        );
        let alt = match c.r.below(3) {
            0 => Altitude::Unknown,
            1 => Altitude::AboveSeaLevel(rat(&mut c.r)),
            _ => Altitude::BelowSeaLevel(rat(&mut c.r)),
        };
        let (s, w) = (c.r.chance(50), c.r.chance(50));
        let g = GPSInfo {
            latitude_ref: if s { LatRef::South } else { LatRef::North },
            latitude: l,
            longitude_ref: if w { LonRef::West } else { LonRef::East },
            longitude: l,
            altitude: alt,
            speed: None,
        };
        let sg = |neg: bool, v: Option<f64>| v.map(|x| if neg { -x } else { x });
        c.check(g.latitude_decimal() == sg(s, got), "latitude_decimal", || format!("{g:?}"));
        c.check(g.longitude_decimal() == sg(w, got), "longitude_decimal", || format!("{g:?}"));
        let m = match alt {
            Altitude::Unknown => None,
            Altitude::AboveSeaLevel(r) => f(r),
            Altitude::BelowSeaLevel(r) => f(r).map(|x| -x),
        };
        c.check(g.altitude_meters() == m && alt.meters() == m, "altitude", || format!("{alt:?} {:?}", g.altitude_meters()));
        let mag = match alt {
            Altitude::Unknown => None,
            Altitude::AboveSeaLevel(r) | Altitude::BelowSeaLevel(r) => Some(r),
        };
        c.check(alt.magnitude() == mag, "magnitude", || format!("{alt:?}"));
    });
    x.suite("from-decimal", 8000, |c| {
        let v = match c.r.below(10) {
            0 => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 180.0000001, -180.1, 1e300, -1e9, 4294967297.5][c.r.below(8)],
            1 => [0.0, -0.0, 180.0, -180.0, 59.999999, 0.99999999, 1.0 / 3.0, f64::MIN_POSITIVE][c.r.below(8)],
            2 => f64::from_bits(c.r.u64()),
            3 => c.r.below(181) as f64 - if c.r.chance(50) { 1e-9 } else { 0.0 },
            _ => (c.r.below(360_000_000) as f64 / 1e6) - 180.0,
        };
        c.input(&v.to_be_bytes());
        let r = LatLng::try_from_decimal_degrees(v);
        if !v.is_finite() || v.abs() > 180.0 {
            c.check(r.is_err(), "range", || format!("{v} accepted as {r:?}"));
            return;
        }
        match r {
            Err(e) => c.fail("range", format!("{v} refused: {e}")),
            Ok(l) => {
                let back = l.to_decimal_degrees().unwrap_or(f64::NAN);
                // half a hundredth of an arc second, with floating slack
                c.check((back - v.abs()).abs() <= 0.00500001 / 3600.0 + 1e-12, "roundtrip", || format!("{v} -> {l:?} -> {back}"));
            }
        }
    });
    x.suite("iso6709", 4000, |c| {
        // one in eight lies on the equator, a meridian or a pole
        let dec = |r: &mut Rng, lim: usize| {
            let d = if r.below(8) == 0 { [0, lim / 2, lim][r.below(3)] as f64 } else { r.below(lim * 1_000_000) as f64 / 1e6 };
            LatLng::try_from_decimal_degrees(d).unwrap()
        };
        let alt = match c.r.below(4) {
            0 => Altitude::Unknown,
            1 => Altitude::AboveSeaLevel(URational::new(c.r.below(9_000_000) as u32, 1000)),
            2 => Altitude::BelowSeaLevel(URational::new(c.r.below(900_000) as u32, 1000)),
            _ => Altitude::AboveSeaLevel(URational::new(c.r.below(9000) as u32, 1)),
        };
        let g = GPSInfo {
            latitude_ref: if c.r.chance(50) { LatRef::North } else { LatRef::South },
            latitude: dec(&mut c.r, 90),
            longitude_ref: if c.r.chance(50) { LonRef::East } else { LonRef::West },
            longitude: dec(&mut c.r, 180),
            altitude: alt,
            speed: None,
        };
        let s = g.to_iso6709();
        c.input(s.as_bytes());
        let back: Result<GPSInfo, _> = s.parse();
        match back {
            Err(e) => c.fail("reparse", format!("{s}: {e}")),
            Ok(b) => {
                let close = |x: Option<f64>, y: Option<f64>, t: f64| (x.unwrap_or(0.0) - y.unwrap_or(0.0)).abs() <= t;
                // five decimals are printed, then seconds are rounded to hundredths
                c.check(close(b.latitude_decimal(), g.latitude_decimal(), 0.8e-5), "reparse-lat", || format!("{s}: {:?} vs {:?}", b.latitude_decimal(), g.latitude_decimal()));
                c.check(close(b.longitude_decimal(), g.longitude_decimal(), 0.8e-5), "reparse-lon", || format!("{s}: {:?} vs {:?}", b.longitude_decimal(), g.longitude_decimal()));
                // the sign printed is the reference read back (a minus zero has none)
                if g.latitude_ref == LatRef::North || !s.starts_with("-00.00000") {
                    c.check(b.latitude_ref == g.latitude_ref, "reparse-ns", || format!("{s}: {:?}", b.latitude_ref));
                }
                if g.longitude_ref == LonRef::East || !s.contains("-000.00000") {
                    c.check(b.longitude_ref == g.longitude_ref, "reparse-ew", || format!("{s}: {:?}", b.longitude_ref));
                }
                if !matches!(b.altitude, Altitude::Unknown) {
                    c.check(std::mem::discriminant(&b.altitude) == std::mem::discriminant(&g.altitude), "reparse-updown", || format!("{s}: {:?}", b.altitude));
                }
                c.check(close(b.altitude_meters(), g.altitude_meters(), 0.0021), "reparse-alt", || format!("{s}: {:?} vs {:?}", b.altitude_meters(), g.altitude_meters()));
            }
        }
    });
    x.suite("letters", 1, |c| {
        c.input(b"letters");
        for ch in (0u32..0x500).filter_map(char::from_u32) {
            let l = match ch {
                'N' | 'n' => Some(LatRef::North),
                'S' | 's' => Some(LatRef::South),
                _ => None,
            };
            c.check(LatRef::from_char(ch) == l, "latref", || format!("{ch:?}"));
            let l = match ch {
                'E' | 'e' => Some(LonRef::East),
                'W' | 'w' => Some(LonRef::West),
                _ => None,
            };
            c.check(LonRef::from_char(ch) == l, "lonref", || format!("{ch:?}"));
            let l = match ch {
                'K' | 'k' => Some(SpeedUnit::KmPerHour),
                'M' | 'm' => Some(SpeedUnit::MilesPerHour),
                'N' | 'n' => Some(SpeedUnit::Knots),
                _ => None,
            };
            c.check(SpeedUnit::from_char(ch) == l, "speedunit", || format!("{ch:?}"));
        }
        c.check(LatRef::North.as_char() == 'N' && LatRef::South.as_char() == 'S' && LonRef::East.as_char() == 'E' && LonRef::West.as_char() == 'W', "as_char", || "letters".into());
        c.check(SpeedUnit::KmPerHour.as_char() == 'K' && SpeedUnit::MilesPerHour.as_char() == 'M' && SpeedUnit::Knots.as_char() == 'N', "as_char", || "letters".into());
        c.check(LatRef::North.sign() == 1.0 && LatRef::South.sign() == -1.0 && LonRef::East.sign() == 1.0 && LonRef::West.sign() == -1.0, "sign", || "signs".into());
    });
}

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/tags_gen.rs"));
pub fn p15(x: &mut Ctx) {
    x.suite("all-codes", 1, |c| {
        c.input(b"all 65536 tag codes");
        let mut names = std::collections::HashMap::new();
        let mut codes = std::collections::HashMap::new();
        for (t, ident) in ALL_TAGS {
            c.ctx.evals += 1;
            if let Some(o) = codes.insert(t.code(), ident) {
                c.fail("duplicate-code", format!("{o} and {ident} share code {:04x}", t.code()));
            }
            if let Some(o) = names.insert(t.name(), ident) {
                c.fail("duplicate-name", format!("{o} and {ident} share name {}", t.name()));
            }
            let back = ExifTag::from_code(t.code());
            c.check(back == Some(*t), "code-roundtrip", || format!("{ident}: code {:04x} gives {back:?}", t.code()));
            let back: Result<ExifTag, _> = t.name().parse();
            c.check(back.as_ref().ok() == Some(t), "name-roundtrip", || format!("{ident}: name {} gives {back:?}", t.name()));
            c.check(t.to_string() == t.name(), "display", || format!("{ident}: {t}"));
            let tc: TagOrCode = t.code().into();
            c.check(tc == TagOrCode::Tag(*t) && tc.code() == t.code() && tc.tag() == Some(*t), "tag-or-code", || format!("{ident}: {tc:?}"));
        }
        for code in 0..=u16::MAX {
            c.ctx.evals += 1;
            let t = ExifTag::from_code(code);
            c.check(t.is_some() == codes.contains_key(&code), "recognised", || format!("code {code:04x} gives {t:?}, known tag {:?}", codes.get(&code)));
            if let Some(t) = t {
                c.check(t.code() == code, "code", || format!("code {code:04x} gives {t:?} with code {:04x}", t.code()));
            }
            let tc = TagOrCode::from(code);
            c.check(tc.code() == code && tc.tag() == t, "tag-or-code", || format!("{code:04x}: {tc:?}"));
            if t.is_none() {
                c.check(tc == TagOrCode::Unknown(code), "tag-or-code", || format!("{code:04x}: {tc:?}"));
            }
        }
        // the codes the Exif and TIFF standards give these names
        for (name, code) in STANDARD {
            let t: Result<ExifTag, _> = name.parse();
            c.check(t.as_ref().map(|t| t.code()).ok() == Some(*code), "standard", || format!("{name}: expected {code:04x}, got {t:?}"));
        }
    });
    x.suite("other-names", 4000, |c| {
        let (t, _) = c.r.pick(ALL_TAGS);
        let mut n: Vec<char> = t.name().chars().collect();
        match c.r.below(6) {
            0 => n.push(' '),
            1 => {
                n.pop();
            }
            2 => n.insert(0, ' '),
            3 => {
                let i = c.r.below(n.len());
                n[i] = if n[i].is_ascii_lowercase() { n[i].to_ascii_uppercase() } else { n[i].to_ascii_lowercase() };
            }
            4 => {
                let i = c.r.below(n.len());
                n[i] = 'é'
            }
            _ => n = c.r.ascii(6).iter().map(|b| *b as char).collect(),
        }
        let s: String = n.into_iter().collect();
        c.input(s.as_bytes());
        let r: Result<ExifTag, _> = s.parse();
        let known = ALL_TAGS.iter().find(|(t, _)| t.name() == s).map(|x| x.0);
        c.check(r.as_ref().ok().copied() == known, "unknown-name", || format!("{s:?} gives {r:?}"));
    });
}
/// Whether an entry line is an error entry.
pub fn is_err(l: &str) -> bool {
    l.split(' ').nth(2).map_or(false, |x| x.starts_with('!'))
}
