//! P04 and P05: JPEG segments and Motion Photo trailers.
use crate::drive::*;
use crate::isom::*;
use crate::tiff::*;
use crate::util::*;
use nom_exif::*;

const XMP: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";

#[derive(Clone, Debug, PartialEq)]
enum J {
    Eof,
    Bad,
    None,
    Block(Vec<u8>),
}
/// The walk the property describes.
fn spec_jpeg(d: &[u8]) -> J {
    let mut p = 0;
    loop {
        let Some(m) = d.get(p) else { return J::Eof };
        if *m != 0xff {
            return J::Bad;
        }
        let Some(k) = d.get(p + 1) else { return J::Eof };
        if *k == 0xd8 {
            p += 2;
            continue;
        }
        if d.len() < p + 4 {
            return J::Eof;
        }
        let n = u16::from_be_bytes([d[p + 2], d[p + 3]]) as usize;
        if n < 2 {
            return J::Bad;
        }
        if d.len() < p + 2 + n {
            return J::Eof;
        }
        let pay = &d[p + 4..p + 2 + n];
        if *k == 0xe1 && pay.starts_with(b"Exif\0\0") {
            return if pay.len() > 6 { J::Block(pay[6..].to_vec()) } else { J::None };
        }
        if *k == 0xda {
            return J::None;
        }
        p += 2 + n;
    }
}
fn seg(v: &mut Vec<u8>, m: u8, pay: &[u8]) {
    v.raw(&[0xff, m]).b16(pay.len() as u16 + 2).raw(pay);
}
fn any_segment(r: &mut Rng, v: &mut Vec<u8>) {
    let m = *r.pick(&[0xe0u8, 0xe1, 0xe1, 0xe1, 0xe2, 0xed, 0xef, 0xdb, 0xc4, 0xc0, 0xc2, 0xdd, 0xfe, 0xd8, 0xd9, 0xd0, 0x01]);
    if m == 0xd8 {
        v.raw(&[0xff, 0xd8]);
        return;
    }
    let n = match r.below(12) {
        0 => 65533,
        1 => r.range(5000, 60000),
        2 => 0,
        _ => r.below(80),
    };
    let mut p = match r.below(6) {
        // another Exif payload in a segment of another kind
        0 if m != 0xe1 => [b"Exif\0\0".to_vec(), simple("other-kind", true)].concat(),
        // almost the identifier
        1 => {
            let s: &[u8] = *r.pick(&[&b"Exif\0"[..], b"Exif\0\x01", b"exif\0\0", b" Exif\0\0", b"Exif", b"Exif \0", b"EXIF\0\0", b"Exi"]);
            let mut p = s.to_vec();
            if p.len() > 5 {
                p.raw(&simple("almost", true));
            }
            p
        }
        2 => [XMP, b"<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"/>"].concat(),
        3 => {
            // marker bytes inside the payload
            let mut p = r.bytes(n);
            let s = [&[0xff, 0xe1, 0x00, 0x40][..], b"Exif\0\0", &simple("inner", false), &[0xff, 0xda, 0, 2]].concat();
            let k = p.len().min(s.len());
            p[..k].copy_from_slice(&s[..k]);
            p
        }
        _ => r.bytes(n),
    };
    if m == 0xe1 && p.starts_with(b"Exif\0\0") {
        p[0] = b'X';
    }
    p.truncate(65533);
    seg(v, m, &p);
}

pub fn p04(x: &mut Ctx) {
    x.suite("segments", 4000, |c| {
        let r = &mut c.r;
        let mut v = vec![0xff, 0xd8];
        let pre = r.below(6);
        for _ in 0..pre {
            any_segment(r, &mut v);
        }
        let want_exif = r.chance(80);
        if want_exif {
            let p = if r.chance(4) { vec![] } else { simple(&format!("first-{}", r.below(100000)), r.chance(50)) };
            seg(&mut v, 0xe1, &[b"Exif\0\0", &p[..]].concat());
        }
        for _ in 0..r.below(4) {
            any_segment(r, &mut v);
        }
        if r.chance(40) {
            seg(&mut v, 0xe1, &[b"Exif\0\0", &simple("second", true)[..]].concat());
        }
        let end = r.below(10);
        match end {
            0 => {
                // a segment length below two
                v.raw(&[0xff, 0xe1]).b16(r.below(2) as u16).raw(&[7; 200]);
            }
            1 => {
                // a missing marker prefix
                v.push(*r.pick(&[0u8, 0xd8, 0xe1, 0xfe]));
                v.raw(&[0xe1; 200]);
            }
            2 => {}
            _ => {
                seg(&mut v, 0xda, &[1, 2, 3, 4]);
                let n = r.below(300) + 130;
                let d = r.bytes(n);
                v.raw(&d);
                // Exif behind the start of scan does not count
                if r.chance(60) {
                    seg(&mut v, 0xe1, &[b"Exif\0\0", &simple("behind", true)[..]].concat());
                    v.raw(&[0; 100]);
                }
            }
        }
        if r.chance(10) {
            let k = r.below(v.len().min(400));
            v.truncate(v.len() - k);
        }
        if r.chance(10) {
            let k = r.range(2, v.len() - 1);
            v[k] = r.u8();
        }
        c.input(&v);
        let want = spec_jpeg(&v);
        c.tally(match &want {
            J::Eof => "data ends first",
            J::Bad => "malformed segment",
            J::None => "no Exif before start of scan",
            J::Block(_) => "Exif found",
        });
        let modes: &[Mode] = if v.len() > 160 { &[Mode::Mem, Mode::Unseek, Mode::Chunk(3, 61), Mode::AMem, Mode::AUnseek] } else { &[Mode::Mem] };
        for m in modes {
            // too short to be recognised as a JPEG at all
            if kind(&v, *m) != "Image" {
                continue;
            }
            let got = exif(&v, *m);
            let ok = match (&want, &got) {
                (J::Eof, Err(Error::UnexpectedEof { .. })) => true,
                (J::Eof, Err(Error::Io(e))) => e.kind() == std::io::ErrorKind::UnexpectedEof,
                (J::Bad, Err(Error::Malformed { .. })) => true,
                (J::None, Err(Error::ExifNotFound)) => true,
                (J::Block(b), g) => match (spec_tiff(b), g) {
                    (None, Err(_)) => true,
                    (Some(s), Ok(it)) => {
                        let l = iter_lines(it.clone_rewound());
                        match compare(&s.entries, &l) {
                            Ok(()) => true,
                            Err(_) => s.ambiguous,
                        }
                    }
                    _ => false,
                },
                _ => false,
            };
            let g = got.map(|it| iter_lines(it)).map_err(|e| err_name(&e));
            if !c.check(ok, "segment", || format!("{m:?}: expected {}, got {g:?}", match &want { J::Block(b) => format!("the block {}", short(&hex(b), 200)), w => format!("{w:?}") })) {
                return;
            }
        }
    });
}

pub struct Motion {
    pub file: Vec<u8>,
    pub trailer: Option<Vec<u8>>,
    pub declared: Option<u64>,
}
fn xmp_of(r: &mut Rng, len: u64, declared: &mut Option<u64>) -> Vec<u8> {
    let mut a = String::new();
    let gate = match r.below(10) {
        0 => None,
        1 => Some("GCamera:MotionPhoto=\"0\""),
        2 => Some("GCamera:MicroVideo=\"1\""),
        3 => Some("GCamera:MotionPhoto=\"10\""),
        _ => Some("GCamera:MotionPhoto=\"1\""),
    };
    let open = matches!(gate, Some(g) if g.ends_with("=\"1\""));
    let mut attrs: Vec<String> = vec![];
    if let Some(g) = gate {
        attrs.push(g.to_string());
    }
    attrs.push("GCamera:MotionPhotoVersion=\"1\"".into());
    let style = r.below(5);
    let mut from_attr = None;
    if style == 0 || style == 2 || r.chance(10) {
        attrs.push(format!("GCamera:MotionPhotoOffset=\"{len}\""));
        from_attr = Some(len);
        if r.chance(30) {
            attrs.push(format!("GCamera:MicroVideoOffset=\"{}\"", len + 5));
        }
    } else if style == 1 {
        attrs.push(format!("GCamera:MicroVideoOffset=\"{len}\""));
        from_attr = Some(len);
    }
    r.shuffle(&mut attrs);
    a.push_str("<x:xmpmeta><rdf:RDF><rdf:Description ");
    a.push_str(&attrs.join(" "));
    a.push('>');
    let mut from_dir = None;
    if style >= 2 {
        let split = r.below(3) as u64; // items behind the video
        let mut rest = len;
        a.push_str("<Container:Directory><rdf:Seq>");
        let primary = format!("<rdf:li><Container:Item Item:Mime=\"image/jpeg\" Item:Semantic=\"Primary\" Item:Length=\"0\" Item:Padding=\"{}\"/></rdf:li>", r.below(50));
        if r.chance(80) {
            a.push_str(&primary);
        }
        if r.chance(30) {
            a.push_str(&format!("<rdf:li><Container:Item Item:Mime=\"image/jpeg\" Item:Semantic=\"GainMap\" Item:Length=\"{}\"/></rdf:li>", r.below(500)));
        }
        let mut lens = vec![];
        for _ in 0..split {
            let l = r.below((rest / 3) as usize + 1) as u64;
            let pad = if r.chance(50) { r.below((rest / 8) as usize + 1) as u64 } else { 0 };
            lens.push((l, pad));
        }
        // the video itself takes what is left
        let mut pads: Vec<u64> = vec![];
        let mut sum = 0;
        for (l, p) in &lens {
            sum += l;
            pads.push(*p);
        }
        // padding of the last item does not count: move paddings to the items before it
        let k = lens.len();
        let counted: u64 = pads.iter().take(k).sum();
        rest -= (sum + counted).min(rest);
        let total = rest + sum + counted;
        let sem = if r.chance(70) { "Item:Semantic=\"MotionPhoto\" Item:Mime=\"video/mp4\"" } else if r.chance(50) { "Item:Semantic=\"MotionPhoto\"" } else { "Item:Mime=\"video/mp4\"" };
        let mut items = vec![];
        let ignored = r.below(90);
        // item i carries padding pads[i] except the last, whose padding is ignored
        let padtext = |p: u64| if p == 0 { String::new() } else { format!(" Item:Padding=\"{p}\"") };
        if k == 0 {
            items.push(format!("<Container:Item {sem} Item:Length=\"{rest}\" Item:Padding=\"{ignored}\"/>"));
        } else {
            items.push(format!("<Container:Item {sem} Item:Length=\"{rest}\"{}/>", padtext(pads[0])));
            for i in 0..k {
                let p = if i + 1 == k { ignored as u64 } else { pads[i + 1] };
                items.push(format!("<Container:Item Item:Mime=\"image/jpeg\" Item:Semantic=\"Depth\" Item:Length=\"{}\"{}/>", lens[i].0, padtext(p)));
            }
        }
        for i in items {
            a.push_str(&format!("<rdf:li>{i}</rdf:li>"));
        }
        a.push_str("</rdf:Seq></Container:Directory>");
        from_dir = Some(total);
    }
    a.push_str("</rdf:Description></rdf:RDF></x:xmpmeta>");
    if declared.is_none() && open {
        *declared = from_dir.or(from_attr);
    }
    [XMP, a.as_bytes()].concat()
}
/// A JPEG that may carry a video behind the image.
pub fn motion(r: &mut Rng) -> Motion {
    let m = movie(r);
    let trailer = m.file;
    let extra = r.below(40);
    let len = trailer.len() as u64;
    let mut v = vec![0xff, 0xd8];
    let with_exif = r.chance(90);
    if r.chance(30) {
        seg(&mut v, 0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
    }
    let mut declared = None;
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut p = vec![];
    if with_exif {
        let mut b = simple("photo", r.chance(50));
        if r.chance(50) {
            let n = r.below(60000);
            b.extend(vec![0x11; n]);
        }
        seg(&mut p, 0xe1, &[b"Exif\0\0", &b[..]].concat());
        parts.push(std::mem::take(&mut p));
    }
    for _ in 0..r.below(3) {
        // segments that push the declaration further on
        let n = if r.chance(50) { r.range(1000, 40000) } else { r.below(100) };
        seg(&mut p, 0xe2, &r.bytes(n));
        parts.push(std::mem::take(&mut p));
    }
    let n_xmp = if r.chance(80) { r.range(1, 2) } else { 0 };
    for _ in 0..n_xmp {
        let wrong = r.chance(8);
        let l = if wrong { len + (1u64 << 32) } else { len };
        let x = xmp_of(r, l, &mut declared);
        let at = r.below(2);
        // keep the order in which declarations are made: append
        let _ = at;
        seg(&mut p, 0xe1, &x);
        parts.push(std::mem::take(&mut p));
        if r.chance(30) {
            seg(&mut p, 0xe1, b"http://ns.adobe.com/xmp/extension/\0 GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"77\"");
            parts.push(std::mem::take(&mut p));
        }
    }
    v.extend(parts.concat());
    seg(&mut v, 0xdb, &[0; 65]);
    seg(&mut v, 0xda, &[1, 1, 0]);
    let n = r.range(150, 3000);
    v.raw(&r.bytes(n));
    // a declaration behind the start of scan does not count
    if r.chance(30) {
        let mut none = Some(0);
        let x = xmp_of(r, 99, &mut none);
        seg(&mut v, 0xe1, &x);
    }
    v.raw(&[0xff, 0xd9]);
    v.raw(&vec![0; extra]);
    v.raw(&trailer);
    Motion { file: v, trailer: Some(trailer), declared }
}

pub fn p05(x: &mut Ctx) {
    // the image in front of the trailer may be large
    x.suite("motion-large", 3, |c| {
        let (m, n) = loop {
            let m = motion(&mut c.r);
            if let (Some(n), Some(t)) = (m.declared, &m.trailer) {
                if n as usize == t.len() && !show_track(track(t, Mode::Mem)).starts_with("ERR") {
                    break (m, n as usize);
                }
            }
        };
        let at = m.file.len() - n;
        let fill = vec![0u8; [17 << 20, 33 << 20, 65 << 20][c.r.below(3)] + c.r.below(9000)];
        let f = [&m.file[..at], &fill[..], &m.file[at..]].concat();
        c.input(&m.file);
        let want = show_track(track(&m.file[at..], Mode::Mem));
        for mode in [Mode::Mem, Mode::Seek, Mode::Unseek] {
            c.same("trailer", &format!("{mode:?} with {} bytes in front", fill.len()), &want, &show_track(track(&f, mode)));
        }
    });
    x.suite("motion-photos", 2500, |c| {
        let m = motion(&mut c.r);
        c.input(&m.file);
        let modes: &[Mode] = &[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::Chunk(11, 3000)];
        let want = m.declared.is_some();
        for mode in [Mode::AMem, Mode::ASeek, Mode::AUnseek] {
            if let Ok(it) = exif(&m.file, mode) {
                let got = it.has_embedded_track();
                c.check(got == want, "flag", || format!("{mode:?}: flag is {got}, declared length is {:?}", m.declared));
            }
        }
        for mode in modes {
            if let Ok(it) = exif(&m.file, *mode) {
                let got = it.has_embedded_track();
                c.check(got == want, "flag", || format!("{mode:?}: flag is {got}, declared length is {:?}", m.declared));
                let e: Exif = it.into();
                c.check(e.has_embedded_track() == want, "flag-eager", || format!("{mode:?}"));
            }
            let got = show_track(track(&m.file, *mode));
            match m.declared {
                Some(n) if n as usize <= m.file.len() => {
                    let t = &m.file[m.file.len() - n as usize..];
                    let want = show_track(track(t, Mode::Mem));
                    if want.starts_with("ERR") {
                        c.check(got.starts_with("ERR"), "trailer", || format!("{mode:?}: {got}"));
                    } else {
                        c.same("trailer", &format!("{mode:?}"), &want, &got);
                    }
                    c.tally("trailers parsed");
                }
                d => {
                    c.check(got == "ERR TrackNotFound", "no-trailer", || format!("{mode:?}: declared {d:?}, got {got}"));
                    c.tally("without trailer");
                }
            }
        }
    });
}
