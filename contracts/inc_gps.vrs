//@item src/exif/gps.rs struct GPSInfo
//@item src/exif/gps.rs struct LatLng | derive(Clone, Copy)
//@item src/exif/gps.rs enum LatRef | derive(Clone, Copy)
//@item src/exif/gps.rs enum LonRef | derive(Clone, Copy)
//@item src/exif/gps.rs enum Altitude | derive(Clone, Copy)
//@item src/exif/gps.rs enum SpeedUnit | derive(Clone, Copy)
//@item src/exif/gps.rs struct Speed | derive(Clone, Copy)

// ---------------------------------------------------------------- what a GPS directory says (Exif 2.3, 4.6.6)
pub open spec fn lat_ref(c: Option<char>) -> Option<LatRef> { match c { Some(c) => if c == 'N' || c == 'n' { Some(LatRef::North) } else if c == 'S' || c == 's' { Some(LatRef::South) } else { None }, None => None } }
pub open spec fn lon_ref(c: Option<char>) -> Option<LonRef> { match c { Some(c) => if c == 'E' || c == 'e' { Some(LonRef::East) } else if c == 'W' || c == 'w' { Some(LonRef::West) } else { None }, None => None } }
pub open spec fn speed_unit(c: Option<char>) -> Option<SpeedUnit> { match c { Some(c) => if c == 'K' || c == 'k' { Some(SpeedUnit::KmPerHour) } else if c == 'M' || c == 'm' { Some(SpeedUnit::MilesPerHour) } else if c == 'N' || c == 'n' { Some(SpeedUnit::Knots) } else { None }, None => None } }
pub open spec fn first_char(t: Seq<char>) -> Option<char> { if t.len() == 0 { None } else { Some(t[0]) } }
pub open spec fn to_urat(r: IRational) -> Option<URational> { if r.numerator < 0 || r.denominator < 0 { None } else { Some(Rational { numerator: r.numerator as u32, denominator: r.denominator as u32 }) } }
pub open spec fn latlng_u(v: Seq<URational>) -> Option<LatLng> { if v.len() < 3 { None } else { Some(LatLng { degrees: v[0], minutes: v[1], seconds: v[2] }) } }
pub open spec fn latlng_i(v: Seq<IRational>) -> Option<LatLng> {
    if v.len() < 3 { None } else { match (to_urat(v[0]), to_urat(v[1]), to_urat(v[2])) { (Some(a), Some(b), Some(c)) => Some(LatLng { degrees: a, minutes: b, seconds: c }), _ => None } }
}
pub open spec fn ent_char(code: u16, en: Ent) -> Option<char> { match ent_text(code, en) { Some(t) => first_char(t), None => None } }
pub open spec fn ent_u8(en: Ent) -> Option<u8> { match en { Ent::Val { f, n, data } => if f == DataFormat::U8 && n == 1 { Some(data[0]) } else { None }, _ => None } }
/// one rational, unsigned or signed and not negative
pub open spec fn ent_rat(x: Dir, en: Ent) -> Option<URational> {
    match en { Ent::Val { f, n, data } => if n != 1 { None } else if f == DataFormat::URational { Some(urat(x.e, data, 0)) } else if f == DataFormat::IRational { to_urat(irat(x.e, data, 0)) } else { None }, _ => None }
}
/// the outer None: not a list of rationals
pub open spec fn ent_latlng(x: Dir, en: Ent) -> Option<Option<LatLng>> {
    match en { Ent::Val { f, n, data } => if n < 2 { None }
        else if f == DataFormat::URational { Some(latlng_u(Seq::new(n as nat, |k: int| urat(x.e, data, k)))) }
        else if f == DataFormat::IRational { Some(latlng_i(Seq::new(n as nat, |k: int| irat(x.e, data, k)))) } else { None }, _ => None }
}
pub ghost struct Acc { pub latref: Option<LatRef>, pub lat: Option<LatLng>, pub lonref: Option<LonRef>, pub lon: Option<LatLng>, pub altref: Option<u8>, pub alt: Option<URational>, pub su: Option<SpeedUnit>, pub sp: Option<URational>, pub has: bool }
pub open spec fn known(code: u16) -> bool { exists|t: ExifTag| #[trigger] tcode(t) == code }
pub open spec fn or_keep<T>(a: Option<Option<T>>, b: Option<T>) -> Option<T> { match a { Some(v) => v, None => b } }
pub open spec fn or_old<T>(a: Option<T>, b: Option<T>) -> Option<T> { match a { Some(v) => Some(v), None => b } }
pub open spec fn gps_step(a: Acc, x: Dir, code: u16, en: Ent) -> Acc {
    let b = Acc { has: true, ..a };
    if !known(code) { a }
    else if code == 1 { Acc { latref: lat_ref(ent_char(code, en)), ..b } }
    else if code == 2 { Acc { lat: or_keep(ent_latlng(x, en), a.lat), ..b } }
    else if code == 3 { Acc { lonref: lon_ref(ent_char(code, en)), ..b } }
    else if code == 4 { Acc { lon: or_keep(ent_latlng(x, en), a.lon), ..b } }
    else if code == 5 { Acc { altref: ent_u8(en), ..b } }
    else if code == 6 { Acc { alt: or_old(ent_rat(x, en), a.alt), ..b } }
    else if code == 12 { Acc { su: speed_unit(ent_char(code, en)), ..b } }
    else if code == 13 { Acc { sp: or_old(ent_rat(x, en), a.sp), ..b } }
    else { b }
}
pub open spec fn gps_fold(x: Dir, a: Acc) -> Acc decreases x.n + 2 - x.k {
    if x.k > x.n { a } else { match dstep(x).1 {
        DRes::End => a,
        DRes::Next(_) => gps_fold(dstep(x).0, a),
        DRes::Ent(code, en) => gps_fold(dstep(x).0, gps_step(a, x, code, en)),
    } }
}
pub open spec fn acc0() -> Acc { Acc { latref: None, lat: None, lonref: None, lon: None, altref: None, alt: None, su: None, sp: None, has: false } }
pub open spec fn no_angle() -> LatLng { let z = Rational { numerator: 0u32, denominator: 0u32 }; LatLng { degrees: z, minutes: z, seconds: z } }
/// the position a GPS directory states; None when it states nothing
pub open spec fn gps_info_of(x: Dir) -> Option<GPSInfo> {
    let a = gps_fold(x, acc0());
    if !a.has { None } else { Some(GPSInfo {
        latitude_ref: match a.latref { Some(r) => r, None => LatRef::North }, latitude: match a.lat { Some(v) => v, None => no_angle() },
        longitude_ref: match a.lonref { Some(r) => r, None => LonRef::East }, longitude: match a.lon { Some(v) => v, None => no_angle() },
        altitude: match a.alt { Some(v) => if a.altref == Some(0u8) { Altitude::AboveSeaLevel(v) } else if a.altref == Some(1u8) { Altitude::BelowSeaLevel(v) } else { Altitude::Unknown }, None => Altitude::Unknown },
        speed: match (a.su, a.sp) { (Some(unit), Some(value)) => Some(Speed { unit, value }), _ => None },
    }) }
}
