#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include bytes.rs
use nom::{IResult, Parser, Needed, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number::Endianness};
verus! {
global size_of usize == 8;
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@item src/error.rs enum ConvertError
//@include inc_ifd.vrs
//@include inc_gps.vrs
//@stub tags src/exif/tags.rs impl TagOrCode :: tag
//@stub access src/values.rs impl < T : Copy > Rational < T > :: new
//@stub access src/values.rs impl TryFrom < IRational > for URational :: try_from
//@stub ifd src/exif/exif_iter.rs impl Iterator for IfdIter :: next
/// std: the first character of a text
#[verifier::external_body]
pub fn v_first_char(s: &String) -> (r: Option<char>) ensures r == first_char(s@) { s.chars().next() }
pub proof fn gps_codes()
    ensures forall|t: ExifTag| #[trigger] tcode(t) == 1 <==> t == ExifTag::GPSLatitudeRef, forall|t: ExifTag| #[trigger] tcode(t) == 2 <==> t == ExifTag::GPSLatitude,
        forall|t: ExifTag| #[trigger] tcode(t) == 3 <==> t == ExifTag::GPSLongitudeRef, forall|t: ExifTag| #[trigger] tcode(t) == 4 <==> t == ExifTag::GPSLongitude,
        forall|t: ExifTag| #[trigger] tcode(t) == 5 <==> t == ExifTag::GPSAltitudeRef, forall|t: ExifTag| #[trigger] tcode(t) == 6 <==> t == ExifTag::GPSAltitude,
        forall|t: ExifTag| #[trigger] tcode(t) == 12 <==> t == ExifTag::GPSSpeedRef, forall|t: ExifTag| #[trigger] tcode(t) == 13 <==> t == ExifTag::GPSSpeed,
{ reveal(tcode); }

// ---------------------------------------------------------------- letters, angles
//@fn src/exif/gps.rs impl LatRef :: from_char
//@spec
    ensures res == lat_ref(Some(c))
//@end
//@fn src/exif/gps.rs impl LatRef :: as_char
//@spec
    ensures lat_ref(Some(res)) == Some(self)
//@end
//@fn src/exif/gps.rs impl LonRef :: from_char
//@spec
    ensures res == lon_ref(Some(c))
//@end
//@fn src/exif/gps.rs impl LonRef :: as_char
//@spec
    ensures lon_ref(Some(res)) == Some(self)
//@end
//@fn src/exif/gps.rs impl SpeedUnit :: from_char
//@spec
    ensures res == speed_unit(Some(c))
//@end
//@fn src/exif/gps.rs impl SpeedUnit :: as_char
//@spec
    ensures speed_unit(Some(res)) == Some(self)
//@end
//@fn src/exif/gps.rs impl Altitude :: magnitude
//@spec
    ensures res == (match *self { Altitude::Unknown => None::<URational>, Altitude::AboveSeaLevel(r) => Some(r), Altitude::BelowSeaLevel(r) => Some(r) })
//@end
//@fn src/exif/gps.rs impl LatLng :: new
//@spec
    ensures res == (LatLng { degrees, minutes, seconds })
//@end
//@fn src/exif/gps.rs impl TryFrom < & [ URational ] > for LatLng :: try_from
//@wrap none
//@rename latlng_from_u
//@subst `Self::Error` => `Error`
//@subst `Self {` => `LatLng {`
//@subst `Result<Self,` => `Result<LatLng,`
//@spec
    ensures match latlng_u(value@) { Some(l) => res == Ok::<LatLng, Error>(l), None => res is Err }
//@end
//@fn src/exif/gps.rs impl TryFrom < & [ IRational ] > for LatLng :: try_from
//@wrap none
//@rename latlng_from_i
//@subst `Self::Error` => `Error`
//@subst `Self {` => `LatLng {`
//@subst `Result<Self,` => `Result<LatLng,`
//@closure 0
|e: ConvertError| -> (o: Error)
//@spec
    ensures match latlng_i(value@) { Some(l) => res == Ok::<LatLng, Error>(l), None => res is Err }
//@end
//@fn src/exif/gps.rs impl TryFrom < & Vec < URational > > for LatLng :: try_from
//@wrap none
//@rename latlng_from_uvec
//@subst `Self::Error` => `Error`
//@subst `Result<Self,` => `Result<LatLng,`
//@subst `Self::try_from` => `latlng_from_u`
//@spec
    ensures match latlng_u(value@) { Some(l) => res == Ok::<LatLng, Error>(l), None => res is Err }
//@end
//@fn src/exif/gps.rs impl TryFrom < & Vec < IRational > > for LatLng :: try_from
//@wrap none
//@rename latlng_from_ivec
//@subst `Self::Error` => `Error`
//@subst `Result<Self,` => `Result<LatLng,`
//@subst `Self::try_from` => `latlng_from_i`
//@spec
    ensures match latlng_i(value@) { Some(l) => res == Ok::<LatLng, Error>(l), None => res is Err }
//@end

// ---------------------------------------------------------------- entries
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_u8
//@spec
    ensures res == e_u8(*self)
//@end
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_char
//@subst `s.chars().next()` => `v_first_char(s)`
//@spec
    ensures res == e_char(*self)
//@end
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_irational
//@spec
    ensures match *self { IfdEntry::Entry(EntryValue::IRational(v)) => (res matches Some(r) && *r == v), _ => res is None }
//@end
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_irational_slice
//@spec
    ensures match *self { IfdEntry::Entry(EntryValue::IRationalArray(v)) => (res matches Some(r) && r@ == v@), _ => res is None }
//@end
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_urational
//@spec
    ensures match *self { IfdEntry::Entry(EntryValue::URational(v)) => (res matches Some(r) && *r == v), _ => res is None }
//@end
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_urational_slice
//@spec
    ensures match *self { IfdEntry::Entry(EntryValue::URationalArray(v)) => (res matches Some(r) && r@ == v@), _ => res is None }
//@end

// ---------------------------------------------------------------- the GPS directory
/// the same, of a decoded entry
pub open spec fn e_u8(r: IfdEntry) -> Option<u8> { match r { IfdEntry::Entry(EntryValue::U8(v)) => Some(v), _ => None } }
pub open spec fn e_char(r: IfdEntry) -> Option<char> { match r { IfdEntry::Entry(EntryValue::Text(s)) => first_char(s@), _ => None } }
pub open spec fn e_rat(r: IfdEntry) -> Option<URational> { match r { IfdEntry::Entry(EntryValue::URational(v)) => Some(v), IfdEntry::Entry(EntryValue::IRational(v)) => to_urat(v), _ => None } }
pub open spec fn e_latlng(r: IfdEntry) -> Option<Option<LatLng>> { match r { IfdEntry::Entry(EntryValue::URationalArray(v)) => Some(latlng_u(v@)), IfdEntry::Entry(EntryValue::IRationalArray(v)) => Some(latlng_i(v@)), _ => None } }
pub proof fn ent_forms(x: Dir, code: u16, en: Ent, r: IfdEntry)
    requires ent_is(x, code, en, r), !is_date_tag(code),
    ensures e_u8(r) == ent_u8(en), e_char(r) == ent_char(code, en), e_rat(r) == ent_rat(x, en), e_latlng(r) == ent_latlng(x, en)
{
    match r {
        IfdEntry::Entry(EntryValue::URationalArray(v)) => { if let Ent::Val { f, n, data } = en { assert(v@ =~= Seq::new(n as nat, |k: int| urat(x.e, data, k))); } }
        IfdEntry::Entry(EntryValue::IRationalArray(v)) => { if let Ent::Val { f, n, data } = en { assert(v@ =~= Seq::new(n as nat, |k: int| irat(x.e, data, k))); } }
        _ => {}
    }
}
/// `gps_step` for an entry as it was decoded
pub open spec fn gps_put(a: Acc, t: ExifTag, r: IfdEntry) -> Acc {
    let b = Acc { has: true, ..a };
    match t {
        ExifTag::GPSLatitudeRef => Acc { latref: lat_ref(e_char(r)), ..b },
        ExifTag::GPSLatitude => Acc { lat: or_keep(e_latlng(r), a.lat), ..b },
        ExifTag::GPSLongitudeRef => Acc { lonref: lon_ref(e_char(r)), ..b },
        ExifTag::GPSLongitude => Acc { lon: or_keep(e_latlng(r), a.lon), ..b },
        ExifTag::GPSAltitudeRef => Acc { altref: e_u8(r), ..b },
        ExifTag::GPSAltitude => Acc { alt: or_old(e_rat(r), a.alt), ..b },
        ExifTag::GPSSpeedRef => Acc { su: speed_unit(e_char(r)), ..b },
        ExifTag::GPSSpeed => Acc { sp: or_old(e_rat(r), a.sp), ..b },
        _ => b,
    }
}
pub proof fn put_is_step(a: Acc, x: Dir, code: u16, en: Ent, r: IfdEntry, t: TagOrCode)
    requires ent_is(x, code, en, r), tc_ok(t), tc_code(t) == code,
    ensures match t { TagOrCode::Tag(t) => gps_step(a, x, code, en) == gps_put(a, t, r), TagOrCode::Unknown(_) => gps_step(a, x, code, en) == a }
{
    gps_codes();
    if !is_date_tag(code) { ent_forms(x, code, en, r); }
    if let TagOrCode::Tag(t) = t { assert(known(code)) by { assert(tcode(t) == code); } }
}
pub proof fn fold_step(x: Dir, a: Acc)
    ensures gps_fold(x, a) == (if x.k > x.n { a } else { match dstep(x).1 { DRes::End => a, DRes::Next(_) => gps_fold(dstep(x).0, a), DRes::Ent(code, en) => gps_fold(dstep(x).0, gps_step(a, x, code, en)) } }),
        x.k > x.n ==> dstep(x).1 is End && dstep(x).0 == x, x.k <= x.n ==> dstep(x).0 == (Dir { k: x.k + 1, ..x })
{}
pub fn v_latlng_default() -> (r: LatLng) ensures r == no_angle() { LatLng { degrees: Rational { numerator: 0, denominator: 0 }, minutes: Rational { numerator: 0, denominator: 0 }, seconds: Rational { numerator: 0, denominator: 0 } } }
//@fn src/exif/exif_iter.rs impl IfdIter :: parse_gps_info
//@presubst `use crate::exif::gps::{Altitude, LatRef, LonRef, Speed, SpeedUnit};` => ``
//@presubst `for (tag, entry) in self {` => `loop { let Some((tag, entry)) = self.next() else { break; };`
//@presubst `latitude.unwrap_or_default()` => `latitude.unwrap_or(v_latlng_default())`
//@presubst `longitude.unwrap_or_default()` => `longitude.unwrap_or(v_latlng_default())`
//@presubst `entry.as_urational_slice() { latitude = LatLng::try_from(v).ok();` => `entry.as_urational_slice() { latitude = latlng_from_uvec(v).ok();`
//@presubst `entry.as_irational_slice() { latitude = LatLng::try_from(v).ok();` => `entry.as_irational_slice() { latitude = latlng_from_ivec(v).ok();`
//@presubst `entry.as_urational_slice() { longitude = LatLng::try_from(v).ok();` => `entry.as_urational_slice() { longitude = latlng_from_uvec(v).ok();`
//@presubst `entry.as_irational_slice() { longitude = LatLng::try_from(v).ok();` => `entry.as_irational_slice() { longitude = latlng_from_ivec(v).ok();`
//@closure 0
|x: TagOrCode| -> (o: Option<ExifTag>) ensures o == (match x { TagOrCode::Tag(t) => Some(t), TagOrCode::Unknown(_) => None })
//@at start
    hide(value_is); hide(ent_is); hide(ent); hide(dir_ok); hide(gps_step); hide(dstep); hide(gps_fold); hide(tc_ok); hide(tc_code);
    let ghost x0 = self.dir();
//@loop 0
    invariant_except_break gps_fold(x0, acc0()) == gps_fold(self.dir(), Acc { latref: latitude_ref, lat: latitude, lonref: longitude_ref, lon: longitude, altref: altitude_ref, alt: altitude_value, su: speed_unit, sp: speed_value, has: has_data }),
    invariant self.wf(), self.ifd_idx < usize::MAX,
    ensures gps_fold(x0, acc0()) == (Acc { latref: latitude_ref, lat: latitude, lonref: longitude_ref, lon: longitude, altref: altitude_ref, alt: altitude_value, su: speed_unit, sp: speed_value, has: has_data }),
    decreases self.dir().n + 2 - self.dir().k
//@at loop 0 start
    let ghost x = self.dir(); let ghost a = Acc { latref: latitude_ref, lat: latitude, lonref: longitude_ref, lon: longitude, altref: altitude_ref, alt: altitude_value, su: speed_unit, sp: speed_value, has: has_data };
    proof { fold_step(x, a); }
//@at before `let Some(tag) = tag`
    let ghost tc = match tag { Some(t) => t, None => TagOrCode::Unknown(0) };
    proof { if let DRes::Ent(code, en) = dstep(x).1 { put_is_step(a, x, code, en, entry, tc); } }
//@at loop 0 end
    proof { let b = gps_put(a, tag, entry); assert(latitude_ref == b.latref); assert(latitude == b.lat); assert(longitude_ref == b.lonref); assert(longitude == b.lon); assert(altitude_ref == b.altref); assert(altitude_value == b.alt); assert(speed_unit == b.su); assert(speed_value == b.sp); assert(has_data == b.has); }
//@spec
    requires old(self).wf(), old(self).ifd_idx < usize::MAX,
    ensures res == gps_info_of(old(self).dir())
//@end
} // verus!
fn main() {}
