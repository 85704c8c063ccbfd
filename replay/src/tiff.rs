//! An independent reading of the TIFF/Exif block format (the oracle), and a
//! generator of blocks.
use crate::util::*;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum SV {
    /// canonical text of the value
    V(String),
    /// error
    E,
    /// cannot be told from the property's text alone (lenient time parsing)
    Any,
}
#[derive(Clone, Debug)]
pub struct SEntry {
    pub ifd: usize,
    pub tag: u16,
    pub v: SV,
    /// raw bytes of the value, format and count, for the GPS reading
    pub raw: Option<(u16, u32, Vec<u8>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub entries: Vec<SEntry>,
    /// `None`: not determined here
    pub gps: Option<String>,
    pub deepest: usize,
    /// the text does not determine the order or choice of some entry
    pub ambiguous: bool,
}
pub struct Rd<'a> {
    pub d: &'a [u8],
    pub be: bool,
}
impl Rd<'_> {
    pub fn u16(&self, p: usize) -> Option<u16> {
        let b = self.d.get(p..p.checked_add(2)?)?;
        Some(if self.be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) })
    }
    pub fn u32(&self, p: usize) -> Option<u32> {
        let b = self.d.get(p..p.checked_add(4)?)?;
        let a = [b[0], b[1], b[2], b[3]];
        Some(if self.be { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) })
    }
}
const SIZES: [usize; 13] = [0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8];
pub fn text_of(b: &[u8]) -> String {
    let s = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    let t = &b[s..];
    let e = t.iter().position(|x| *x == 0).unwrap_or(t.len());
    match std::str::from_utf8(&t[..e]) {
        Ok(s) => s.to_string(),
        Err(_) => t[..e].iter().map(|c| *c as char).collect(),
    }
}
/// `YYYY:MM:DD hh:mm:ss` in its strict form: `Some(Some(..))` a valid time,
/// `Some(None)` certainly none, `None` a form a lenient reader might accept.
pub fn strict_time(s: &str) -> Option<Option<String>> {
    let b = s.as_bytes();
    let shape = b.len() == 19
        && b.iter().enumerate().all(|(i, c)| match i {
            4 | 7 | 13 | 16 => *c == b':',
            10 => *c == b' ',
            _ => c.is_ascii_digit(),
        });
    if !shape {
        // no digit at all or letters only: certainly not a time
        if !b.iter().any(|c| c.is_ascii_digit()) {
            return Some(None);
        }
        return None;
    }
    let n = |a: usize, z: usize| s[a..z].parse::<u32>().unwrap();
    let (y, mo, d, h, mi, se) = (n(0, 4), n(5, 7), n(8, 10), n(11, 13), n(14, 16), n(17, 19));
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if se == 60 {
        return None;
    }
    if mo < 1 || mo > 12 || d < 1 || d > dim[mo as usize - 1] || h > 23 || mi > 59 || se > 59 {
        return Some(None);
    }
    Some(Some(format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{se:02}")))
}
/// Offset text `+hh:mm` in seconds; `Some(None)`: certainly invalid.
pub fn strict_tz(s: &str) -> Option<Option<i32>> {
    let b = s.as_bytes();
    // a missing last digit is completed with a zero
    let b6: Vec<u8> = if b.len() == 5 && b[3] == b':' { [b, b"0"].concat() } else { b.to_vec() };
    if b6.len() == 6
        && (b6[0] == b'+' || b6[0] == b'-')
        && b6[3] == b':'
        && [1, 2, 4, 5].iter().all(|i| b6[*i].is_ascii_digit())
    {
        let h = (b6[1] - b'0') as i32 * 10 + (b6[2] - b'0') as i32;
        let m = (b6[4] - b'0') as i32 * 10 + (b6[5] - b'0') as i32;
        if m > 59 {
            return Some(None);
        }
        if h > 23 {
            return None;
        }
        let v = h * 3600 + m * 60;
        return Some(Some(if b6[0] == b'-' { -v } else { v }));
    }
    if !b.iter().any(|c| c.is_ascii_digit()) && !s.to_ascii_lowercase().contains(['z', 'u', 'g']) {
        return Some(None);
    }
    None
}
/// What one decoded value must be.
pub fn spec_value(rd: &Rd, tag: u16, fmt: u16, count: u32, data: &[u8], tz: &Tz) -> SV {
    if count == 0 {
        return SV::E;
    }
    if matches!(tag, 0x9003 | 0x9004 | 0x0132) {
        let s = text_of(data);
        return match strict_time(&s) {
            None => SV::Any,
            Some(None) => SV::E,
            Some(Some(t)) => match tz {
                Tz::None => SV::V(format!("NaiveDateTime({t})")),
                Tz::Text(z) => match strict_tz(z) {
                    Some(Some(o)) => SV::V(format!("DateTime({t} {o})")),
                    Some(None) => SV::V(format!("NaiveDateTime({t})")),
                    None => SV::Any,
                },
            },
        };
    }
    let v = Rd { d: data, be: rd.be };
    let n = count as usize;
    let list = |name: &str, items: Vec<String>| SV::V(format!("{name}[{}]", items.join(",")));
    match fmt {
        1 if n == 1 => SV::V(format!("U8({})", data[0])),
        1 => SV::V(format!("U8Array({})", hex(data))),
        2 => SV::V(format!("Text({:?})", text_of(data))),
        3 if n == 1 => SV::V(format!("U16({})", v.u16(0).unwrap())),
        3 => list("U16Array", (0..n).map(|i| v.u16(2 * i).unwrap().to_string()).collect()),
        4 if n == 1 => SV::V(format!("U32({})", v.u32(0).unwrap())),
        4 => list("U32Array", (0..n).map(|i| v.u32(4 * i).unwrap().to_string()).collect()),
        5 | 10 => {
            let one = |i: usize| {
                let (a, b) = (v.u32(8 * i).unwrap(), v.u32(8 * i + 4).unwrap());
                if fmt == 5 {
                    format!("{a}/{b}")
                } else {
                    format!("{}/{}", a as i32, b as i32)
                }
            };
            let name = if fmt == 5 { "URational" } else { "IRational" };
            if n == 1 {
                SV::V(format!("{name}({})", one(0)))
            } else {
                list(&format!("{name}Array"), (0..n).map(one).collect())
            }
        }
        7 => SV::V(format!("Undefined({})", hex(data))),
        6 | 8 | 9 | 11 | 12 if n != 1 => SV::E,
        6 => SV::V(format!("I8({})", data[0] as i8)),
        8 => SV::V(format!("I16({})", v.u16(0).unwrap() as i16)),
        9 => SV::V(format!("I32({})", v.u32(0).unwrap() as i32)),
        11 => SV::V(format!("F32({:08x})", v.u32(0).unwrap())),
        12 => {
            let (a, b) = (v.u32(0).unwrap() as u64, v.u32(4).unwrap() as u64);
            SV::V(format!("F64({:016x})", if rd.be { a << 32 | b } else { b << 32 | a }))
        }
        _ => SV::E,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tz {
    None,
    Text(String),
}
struct Raw {
    tag: u16,
    fmt: u16,
    count: u32,
    field: u32,
    /// `None`: invalid format or outside the block
    data: Option<(usize, usize)>,
}
fn raw_entry(rd: &Rd, p: usize) -> Raw {
    let (tag, fmt, count, field) = (rd.u16(p).unwrap(), rd.u16(p + 2).unwrap(), rd.u32(p + 4).unwrap(), rd.u32(p + 8).unwrap());
    let data = if (1..=12).contains(&fmt) {
        let size = count as usize * SIZES[fmt as usize];
        let at = if size <= 4 { p + 8 } else { field as usize };
        (at + size <= rd.d.len()).then_some((at, size))
    } else {
        None
    };
    Raw { tag, fmt, count, field, data }
}
/// A directory can be entered when its entry table lies inside the block.
fn enterable(rd: &Rd, off: usize) -> Option<usize> {
    if off >= rd.d.len() {
        return None;
    }
    let n = rd.u16(off)? as usize;
    (off + 2 + 12 * n <= rd.d.len()).then_some(n)
}
pub fn find_tz(rd: &Rd, ifd0: usize, n0: usize) -> Option<Tz> {
    let Some(e) = (0..n0).map(|i| raw_entry(rd, ifd0 + 2 + 12 * i)).find(|e| e.tag == 0x8769) else {
        return Some(Tz::None);
    };
    if e.data.is_none() {
        return Some(Tz::None);
    }
    let off = e.field as usize;
    let Some(n) = enterable(rd, off) else { return Some(Tz::None) };
    let mut general = Tz::None;
    for i in 0..n {
        let e = raw_entry(rd, off + 2 + 12 * i);
        if e.tag == 0 {
            return Some(general);
        }
        if matches!(e.tag, 0x9010..=0x9012) {
            let (Some((a, s)), 2) = (e.data, e.fmt) else { return None };
            if e.count == 0 {
                return None;
            }
            let t = Tz::Text(text_of(&rd.d[a..a + s]));
            if e.tag == 0x9010 {
                general = t;
            } else {
                return Some(t);
            }
        }
    }
    Some(general)
}
struct Walk<'a> {
    rd: Rd<'a>,
    tz: Option<Tz>,
    visited: HashSet<usize>,
    out: Vec<SEntry>,
    seen: HashSet<(usize, u16)>,
    depth: usize,
    anys: HashSet<(usize, u16)>,
    ambiguous: bool,
    gps_at: Option<Result<usize, ()>>,
}
impl Walk<'_> {
    fn dir(&mut self, off: usize, n: usize, mut idx: usize, gps: bool, depth: usize) {
        self.depth = self.depth.max(depth);
        let (mut off, mut n, mut gps) = (off, n, gps);
        loop {
            let mut ended = false;
            for i in 0..n {
                let e = raw_entry(&self.rd, off + 2 + 12 * i);
                if e.tag == 0 && !gps {
                    ended = true;
                    break;
                }
                let key = (idx, e.tag);
                self.ambiguous |= self.anys.contains(&key);
                let Some((at, size)) = e.data else {
                    if e.tag == 0x8825 && self.gps_at.is_none() {
                        self.gps_at = Some(Err(()));
                    }
                    if !self.seen.contains(&key) {
                        self.push(idx, e.tag, SV::E, None);
                    }
                    continue;
                };
                if e.tag == 0x8769 || e.tag == 0x8825 {
                    let sub = e.field as usize;
                    if let Some(k) = enterable(&self.rd, sub) {
                        if self.visited.insert(sub) {
                            if self.seen.insert(key) {
                                self.push(idx, e.tag, SV::V(format!("U32({})", e.field)), None);
                                if e.tag == 0x8825 && self.gps_at.is_none() {
                                    self.gps_at = Some(Ok(sub));
                                }
                            }
                            self.dir(sub, k, idx, e.tag == 0x8825, depth + 1);
                        }
                        continue;
                    }
                }
                let data = self.rd.d[at..at + size].to_vec();
                let v = match &self.tz {
                    Some(tz) => spec_value(&self.rd, e.tag, e.fmt, e.count, &data, tz),
                    None => match spec_value(&self.rd, e.tag, e.fmt, e.count, &data, &Tz::None) {
                        SV::V(s) if s.starts_with("Naive") => SV::Any,
                        v => v,
                    },
                };
                if self.seen.contains(&key) {
                    continue;
                }
                match v {
                    SV::E => {}
                    // whether this one claims its tag is not known here
                    SV::Any => {
                        self.seen.insert(key);
                        self.anys.insert(key);
                    }
                    SV::V(_) => {
                        self.seen.insert(key);
                    }
                }
                if e.tag == 0x8825 && self.gps_at.is_none() {
                    self.gps_at = Some(Err(()));
                }
                self.push(idx, e.tag, v, Some((e.fmt, e.count, data)));
            }
            if ended {
                return;
            }
            let Some(next) = self.rd.u32(off + 2 + 12 * n) else { return };
            let next = next as usize;
            if next == 0 {
                return;
            }
            let Some(k) = enterable(&self.rd, next) else { return };
            if !self.visited.insert(next) {
                return;
            }
            off = next;
            n = k;
            idx += 1;
            gps = false;
        }
    }
    fn push(&mut self, ifd: usize, tag: u16, v: SV, raw: Option<(u16, u32, Vec<u8>)>) {
        self.out.push(SEntry { ifd, tag, v, raw });
    }
}
/// `None`: the block itself is malformed and must be an error.
pub fn spec_tiff(d: &[u8]) -> Option<Spec> {
    let be = match d.get(..2)? {
        b"MM" => true,
        b"II" => false,
        _ => return None,
    };
    let rd = Rd { d, be };
    if rd.u16(2)? != 0x2a {
        return None;
    }
    let off = rd.u32(4)? as usize;
    let n = enterable(&rd, off)?;
    let tz = find_tz(&rd, off, n);
    let mut w = Walk { rd, tz, visited: HashSet::new(), out: vec![], seen: HashSet::new(), depth: 0, anys: HashSet::new(), ambiguous: false, gps_at: None };
    w.dir(off, n, 0, false, 1);
    let gps = match w.gps_at {
        None => Some("none".to_string()),
        Some(Err(())) => None,
        Some(Ok(at)) => spec_gps(d, be, at),
    };
    Some(Spec { entries: w.out, gps, deepest: w.depth, ambiguous: w.ambiguous })
}
/// The GPS reading; `None` when the directory has duplicates.
pub fn spec_gps(d: &[u8], be: bool, at: usize) -> Option<String> {
    let rd = Rd { d, be };
    let n = enterable(&rd, at)?;
    let mut tags = HashSet::new();
    let (mut lr, mut la, mut or, mut lo, mut ar, mut av, mut su, mut sv) = (None, None, None, None, None, None, None, None);
    let mut any = false;
    for i in 0..n {
        let e = raw_entry(&rd, at + 2 + 12 * i);
        if !tags.insert(e.tag) {
            return None;
        }
        // whether an unknown tag counts as GPS data does not matter here
        if e.tag <= 0x1e {
            any = true;
        } else {
            return None;
        }
        let Some((a, s)) = e.data else { continue };
        if e.count == 0 {
            continue;
        }
        let b = &d[a..a + s];
        let v = Rd { d: b, be };
        let ch = |ok: &str| {
            if e.fmt != 2 {
                return None;
            }
            let c = text_of(b).chars().next()?;
            ok.contains(c.to_ascii_uppercase()).then_some(c.to_ascii_uppercase())
        };
        let rats = || -> Option<Vec<(u32, u32)>> {
            if e.fmt != 5 && e.fmt != 10 {
                return None;
            }
            let r: Vec<(u32, u32)> = (0..e.count as usize).map(|i| (v.u32(8 * i).unwrap(), v.u32(8 * i + 4).unwrap())).collect();
            if e.fmt == 10 && r.iter().take(3).any(|(x, y)| (*x as i32) < 0 || (*y as i32) < 0) {
                return None;
            }
            Some(r)
        };
        let dms = || rats().filter(|r| r.len() >= 3).map(|r| format!("{}/{} {}/{} {}/{}", r[0].0, r[0].1, r[1].0, r[1].1, r[2].0, r[2].1));
        let one = || rats().filter(|r| r.len() == 1).map(|r| format!("{}/{}", r[0].0, r[0].1));
        match e.tag {
            1 => lr = ch("NS"),
            2 => la = dms(),
            3 => or = ch("EW"),
            4 => lo = dms(),
            5 => ar = (e.fmt == 1 && e.count == 1).then(|| b[0]),
            6 => av = one(),
            0xc => su = ch("KMN"),
            0xd => sv = one(),
            _ => {}
        }
    }
    if !any {
        return Some("none".into());
    }
    let zero = || "0/0 0/0 0/0".to_string();
    let alt = match (ar, av) {
        (Some(0), Some(v)) => format!("+{v}"),
        (Some(1), Some(v)) => format!("-{v}"),
        _ => "unknown".into(),
    };
    let speed = match (su, sv) {
        (Some(u), Some(v)) => format!("{u} {v}"),
        _ => "none".into(),
    };
    Some(format!(
        "{} {} {} {} alt={alt} speed={speed}",
        lr.unwrap_or('N'),
        la.unwrap_or_else(zero),
        or.unwrap_or('E'),
        lo.unwrap_or_else(zero)
    ))
}
/// Compare the library's lines (`ifd tag value`) with the specification.
pub fn compare(spec: &[SEntry], lines: &[String]) -> Result<(), String> {
    for i in 0..spec.len().max(lines.len()) {
        let (Some(s), Some(l)) = (spec.get(i), lines.get(i)) else {
            return Err(format!(
                "entry {i}: expected {:?}, got {:?} ({} entries expected, {} returned)",
                spec.get(i),
                lines.get(i),
                spec.len(),
                lines.len()
            ));
        };
        let head = format!("{} {:04x} ", s.ifd, s.tag);
        let ok = match &s.v {
            SV::Any => l.starts_with(&head),
            SV::E => l.starts_with(&format!("{head}!")),
            SV::V(v) => *l == format!("{head}{v}"),
        };
        if !ok {
            return Err(format!("entry {i}: expected {}{:?}, got {}", head, s.v, short(l, 600)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generator
pub struct GenOpts {
    /// every value inside the block, no cycles, nesting of a TIFF file
    pub clean: bool,
    pub max_entries: usize,
    pub gps: bool,
    pub dates: bool,
}
const TAGS: &[u16] = &[
    0x010e, 0x010f, 0x0110, 0x0112, 0x011a, 0x011b, 0x0128, 0x0131, 0x8298, 0x829a, 0x829d, 0x8827, 0x9000, 0x9101, 0x9201, 0x9202, 0x920a,
    0x927c, 0x9286, 0xa001, 0xa002, 0xa003, 0xa005, 0xa20e, 0xa432, 0xa433, 0xa434, 0x0001, 0x0002, 0x0100, 0x0101, 0x0201, 0x0202, 0x4321,
    0xfffe, 0x0000, 0x9010, 0x9011, 0x9012,
];
fn text_value(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = match r.below(5) {
        0 => r.bytes(n),
        1 => {
            let mut v = r.ascii(n);
            for b in v.iter_mut() {
                if r.chance(10) {
                    *b = 0
                }
            }
            v
        }
        2 => "é€日本αß".bytes().cycle().take(n).collect(),
        _ => r.ascii(n),
    };
    if r.chance(50) && n > 0 {
        v[n - 1] = 0;
    }
    if r.chance(10) && n > 1 {
        v[0] = 0;
    }
    v
}
pub fn date_text(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => b"not a time at all!!\0".to_vec(),
        1 => format!("{:04}:{:02}:{:02} {:02}:{:02}:{:02}\0", r.below(3000), r.below(14), r.below(33), r.below(26), r.below(62), r.below(60)).into_bytes(),
        _ => format!("{:04}:{:02}:{:02} {:02}:{:02}:{:02}\0", r.range(1, 2999), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60)).into_bytes(),
    }
}
pub fn tz_text(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => b"garbage\0".to_vec(),
        1 => format!("{}{:02}:{}\0", if r.chance(50) { '+' } else { '-' }, r.below(24), r.below(6)).into_bytes(),
        2 => b"      \0".to_vec(),
        _ => format!("{}{:02}:{:02}\0", if r.chance(50) { '+' } else { '-' }, r.below(15), r.below(60)).into_bytes(),
    }
}
struct Ent {
    tag: u16,
    fmt: u16,
    count: u32,
    data: Vec<u8>,
    link: Option<usize>,
    bad: bool,
}
fn ent(tag: u16, fmt: u16, data: Vec<u8>) -> Ent {
    let s = SIZES[fmt as usize];
    Ent { tag, fmt, count: (data.len() / s) as u32, data, link: None, bad: false }
}
fn rand_ent(r: &mut Rng, tag: u16, o: &GenOpts) -> Ent {
    let fmt = r.range(1, 12) as u16;
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(5, 40),
        2 | 3 => r.range(2, 5),
        _ => 1,
    };
    let n = if fmt == 2 { r.below(24) } else { n };
    let size = n * SIZES[fmt as usize];
    let data = if fmt == 2 { text_value(r, size) } else { r.bytes(size) };
    let mut e = ent(tag, fmt, data);
    e.count = n as u32;
    if !o.clean && r.chance(6) {
        match r.below(4) {
            0 => e.fmt = [0u16, 13, 14, 255, 256, 0x8001, 65535][r.below(7)],
            1 => {
                e.count = r.u32();
                e.bad = true
            }
            2 => e.bad = true,
            _ => e.count = 0,
        }
    }
    e
}
/// A random block with several directories. The layout (order of directories
/// and values, gaps) is random too.
pub fn generate(r: &mut Rng, o: &GenOpts) -> Vec<u8> {
    let be = r.chance(50);
    let dirs = r.range(1, if o.clean { 4 } else { 6 });
    // dir 0 is IFD0; other dirs are linked from somewhere
    let mut ds: Vec<Vec<Ent>> = vec![];
    let mut role: Vec<u8> = vec![]; // 0 plain, 1 exif, 2 gps
    for i in 0..dirs {
        let rl = if i == 0 { 0 } else { r.below(3) as u8 };
        role.push(rl);
        let n = r.below(o.max_entries + 1);
        let mut es = vec![];
        for _ in 0..n {
            let tag = if r.chance(80) { *r.pick(TAGS) } else { r.u16() };
            let tag = if rl == 2 && r.chance(70) { r.below(0x1f) as u16 } else { tag };
            let tag = if tag == 0x8769 || tag == 0x8825 || (tag == 0 && rl != 2 && (o.clean || r.chance(85))) { 0x9286 } else { tag };
            if matches!(tag, 0x9003 | 0x9004 | 0x0132 | 0x9010..=0x9012) && !o.dates {
                continue;
            }
            es.push(rand_ent(r, tag, o));
        }
        if rl == 1 && o.dates {
            for t in [0x9003u16, 0x9004, 0x0132] {
                if r.chance(70) {
                    es.push(ent(t, 2, date_text(r)));
                }
            }
            for t in [0x9010u16, 0x9011, 0x9012] {
                es.retain(|e| e.tag != t);
                if r.chance(35) {
                    es.push(ent(t, 2, tz_text(r)));
                }
            }
            r.shuffle(&mut es);
        }
        if rl == 2 && o.gps {
            es.retain(|e| e.tag > 0x1e || !r.chance(100));
            es.clear();
            let rat = |r: &mut Rng, n: usize, fmt: u16, be: bool| {
                let mut v = vec![];
                for _ in 0..2 * n {
                    let mut x = if r.chance(70) { r.below(5000) as u32 } else { r.u32() };
                    if fmt == 10 && r.chance(80) {
                        x &= 0x7fff_ffff
                    }
                    v.e32(x, be);
                }
                v
            };
            for (t, p) in [(0u16, 60), (1, 85), (2, 90), (3, 85), (4, 90), (5, 70), (6, 70), (0xc, 60), (0xd, 60), (7, 30), (0x1d, 30)] {
                if !r.chance(p) {
                    continue;
                }
                let e = match t {
                    1 | 3 | 0xc => {
                        let c = *r.pick(if t == 1 { b"NSnsX" } else if t == 3 { b"EWewX" } else { b"KMNkX" });
                        let d = if r.chance(10) { vec![0, c] } else { vec![c, 0] };
                        ent(t, if r.chance(92) { 2 } else { 1 }, d)
                    }
                    2 | 4 => {
                        let f = if r.chance(75) { 5 } else { 10 };
                        let n = if r.chance(85) { 3 } else { r.range(1, 5) };
                        ent(t, f, rat(r, n, f, be))
                    }
                    5 => ent(5, if r.chance(90) { 1 } else { 7 }, vec![r.below(3) as u8]),
                    6 | 0xd => {
                        let f = if r.chance(75) { 5 } else { 10 };
                        let n = if r.chance(90) { 1 } else { 2 };
                        ent(t, f, rat(r, n, f, be))
                    }
                    0 => ent(0, 1, vec![2, 3, 0, 0]),
                    _ => rand_ent(r, t, o),
                };
                es.push(e);
            }
            r.shuffle(&mut es);
        }
        ds.push(es);
    }
    let mut next: Vec<Option<usize>> = vec![None; dirs];
    for i in 1..dirs {
        let from = if o.clean { 0 } else { r.below(i) };
        if role[i] == 0 && !o.clean {
            next[from] = Some(i);
        } else if role[i] == 0 {
            next[0] = next[0].or(Some(i));
        } else {
            let tag = if role[i] == 1 { 0x8769 } else { 0x8825 };
            let from = if o.clean && (r.chance(70) || ds[from].iter().any(|e| e.tag == tag)) { 0 } else { from };
            if o.clean && ds[from].iter().any(|e| e.tag == tag) {
                continue;
            }
            let at = r.below(ds[from].len() + 1);
            ds[from].insert(at, Ent { tag, fmt: 4, count: 1, data: vec![0; 4], link: Some(i), bad: false });
        }
    }
    if !o.clean && r.chance(30) {
        // cycles and shared directories
        let from = r.below(dirs);
        let to = r.below(dirs);
        if r.chance(50) {
            next[from] = Some(to);
        } else {
            let at = r.below(ds[from].len() + 1);
            let tag = if r.chance(50) { 0x8769 } else { 0x8825 };
            ds[from].insert(at, Ent { tag, fmt: 4, count: 1, data: vec![0; 4], link: Some(to), bad: false });
        }
    }
    // layout
    enum Piece {
        Dir(usize),
        Val(usize, usize),
    }
    let mut pieces = vec![];
    for (i, es) in ds.iter().enumerate() {
        pieces.push(Piece::Dir(i));
        for (j, e) in es.iter().enumerate() {
            if e.data.len() > 4 {
                pieces.push(Piece::Val(i, j));
            }
        }
    }
    if r.chance(75) {
        r.shuffle(&mut pieces);
    }
    let mut pos = 8;
    let mut dir_at = vec![0; dirs];
    let mut val_at = std::collections::HashMap::new();
    for p in &pieces {
        if r.chance(20) {
            pos += r.below(9);
        }
        match p {
            Piece::Dir(i) => {
                dir_at[*i] = pos;
                pos += 2 + 12 * ds[*i].len() + 4;
            }
            Piece::Val(i, j) => {
                val_at.insert((*i, *j), pos);
                pos += ds[*i][*j].data.len();
            }
        }
    }
    if r.chance(30) {
        pos += r.below(20);
    }
    let mut out = vec![0u8; pos];
    let fill = r.u8();
    for b in out.iter_mut().skip(8) {
        *b = fill;
    }
    let mut h = vec![];
    h.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(dir_at[0] as u32, be);
    out[..8].copy_from_slice(&h);
    for (i, es) in ds.iter().enumerate() {
        let mut t = vec![];
        t.e16(es.len() as u16, be);
        for (j, e) in es.iter().enumerate() {
            t.e16(e.tag, be).e16(e.fmt, be).e32(e.count, be);
            if let Some(l) = e.link {
                t.e32(dir_at[l] as u32, be);
            } else if let Some(a) = val_at.get(&(i, j)) {
                let a = if e.bad {
                    match r.below(4) {
                        0 => r.u32(),
                        1 => pos as u32 - (e.data.len() as u32) + 1,
                        2 => pos as u32,
                        _ => *a as u32,
                    }
                } else {
                    *a as u32
                };
                t.e32(a, be);
                let a = val_at[&(i, j)];
                out[a..a + e.data.len()].copy_from_slice(&e.data);
            } else {
                let mut f = e.data.clone();
                f.resize(4, if r.chance(50) { 0 } else { r.u8() });
                t.raw(&f);
            }
        }
        let nx = match next[i] {
            Some(x) => dir_at[x] as u32,
            None if !o.clean && r.chance(5) => r.u32(),
            None => 0,
        };
        t.e32(nx, be);
        out[dir_at[i]..dir_at[i] + t.len()].copy_from_slice(&t);
    }
    if !o.clean && r.chance(15) {
        // the link of the directory at the very end, or a cut
        let cut = r.below(out.len() / 4 + 1);
        out.truncate(out.len() - cut);
    }
    if !o.clean && r.chance(20) {
        for _ in 0..r.range(1, 4) {
            let p = r.below(out.len());
            if p >= 8 || r.chance(10) {
                out[p] = if r.chance(50) { r.u8() } else { [0, 1, 0xff][r.below(3)] };
            }
        }
    }
    out
}
/// A small valid block whose ImageDescription names it.
pub fn simple(id: &str, be: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut t = id.as_bytes().to_vec();
    t.push(0);
    v.raw(if be { b"MM" } else { b"II" }).e16(0x2a, be).e32(8, be);
    v.e16(2, be);
    v.e16(0x010e, be).e16(2, be).e32(t.len() as u32, be);
    if t.len() > 4 {
        v.e32(8 + 2 + 24 + 4, be);
    } else {
        let mut f = t.clone();
        f.resize(4, 0);
        v.raw(&f);
    }
    v.e16(0x0112, be).e16(3, be).e32(1, be).e16(7, be).e16(0, be);
    v.e32(0, be);
    if t.len() > 4 {
        v.raw(&t);
    }
    v
}
