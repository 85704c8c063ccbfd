#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
use nom::{s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number::Endianness};
verus! {
global size_of usize == 8;
broadcast use seq_slices;
//@bconsts
//@include inc_values.vrs
//@item src/values.rs enum ExifDateTime | derive(Clone, Copy)
//@item src/error.rs enum ConvertError
//@fn src/values.rs impl EntryValue :: as_u8
//@spec
    ensures match self { EntryValue::U8(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_i8
//@spec
    ensures match self { EntryValue::I8(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_u16
//@spec
    ensures match self { EntryValue::U16(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_i16
//@spec
    ensures match self { EntryValue::I16(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_u64
//@spec
    ensures match self { EntryValue::U64(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_u32
//@spec
    ensures match self { EntryValue::U32(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_i32
//@spec
    ensures match self { EntryValue::I32(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_i64
//@spec
    ensures match self { EntryValue::I64(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_f64
//@spec
    ensures match self { EntryValue::F64(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_urational
//@spec
    ensures match self { EntryValue::URational(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_irational
//@spec
    ensures match self { EntryValue::IRational(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_urational_slice
//@spec
    ensures match self { EntryValue::URationalArray(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_irational_slice
//@spec
    ensures match self { EntryValue::IRationalArray(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_u8_slice
//@spec
    ensures match self { EntryValue::U8Array(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_u16_slice
//@spec
    ensures match self { EntryValue::U16Array(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_u32_slice
//@spec
    ensures match self { EntryValue::U32Array(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_undefined
//@spec
    ensures match self { EntryValue::Undefined(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_str
//@spec
    ensures match self { EntryValue::Text(x) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
/// std's checked integer conversion
pub fn v_i64_from_u64(v: u64) -> (r: Result<i64, ()>) ensures v <= i64::MAX ==> r == Ok::<i64, ()>(v as i64), v > i64::MAX ==> r is Err { if v <= i64::MAX as u64 { Ok(v as i64) } else { Err(()) } }
//@fn src/values.rs impl EntryValue :: try_as_integer
//@subst `i64::try_from(*v)` => `v_i64_from_u64(*v)`
//@spec
    ensures match self { EntryValue::U8(x) => res == Some(*x as i64), EntryValue::U16(x) => res == Some(*x as i64), EntryValue::U32(x) => res == Some(*x as i64), EntryValue::U64(x) => if *x <= i64::MAX { res == Some(*x as i64) } else { res is None }, EntryValue::I8(x) => res == Some(*x as i64), EntryValue::I16(x) => res == Some(*x as i64), EntryValue::I32(x) => res == Some(*x as i64), EntryValue::I64(x) => res == Some(*x), _ => res is None }
//@end
//@fn src/values.rs impl EntryValue :: as_datetime
//@spec
    ensures match self { EntryValue::DateTime(x) => res == Some(ExifDateTime::Aware(*x)), EntryValue::NaiveDateTime(x) => res == Some(ExifDateTime::Naive(*x)), _ => res is None }
//@end
//@fn src/values.rs impl From < u8 > for EntryValue :: from
//@wrap none
//@rename from_U8
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::U8(value)
//@end
//@fn src/values.rs impl From < u16 > for EntryValue :: from
//@wrap none
//@rename from_U16
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::U16(value)
//@end
//@fn src/values.rs impl From < u32 > for EntryValue :: from
//@wrap none
//@rename from_U32
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::U32(value)
//@end
//@fn src/values.rs impl From < u64 > for EntryValue :: from
//@wrap none
//@rename from_U64
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::U64(value)
//@end
//@fn src/values.rs impl From < i8 > for EntryValue :: from
//@wrap none
//@rename from_I8
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::I8(value)
//@end
//@fn src/values.rs impl From < i16 > for EntryValue :: from
//@wrap none
//@rename from_I16
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::I16(value)
//@end
//@fn src/values.rs impl From < i32 > for EntryValue :: from
//@wrap none
//@rename from_I32
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::I32(value)
//@end
//@fn src/values.rs impl From < i64 > for EntryValue :: from
//@wrap none
//@rename from_I64
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::I64(value)
//@end
//@fn src/values.rs impl From < f32 > for EntryValue :: from
//@wrap none
//@rename from_F32
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::F32(value)
//@end
//@fn src/values.rs impl From < f64 > for EntryValue :: from
//@wrap none
//@rename from_F64
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::F64(value)
//@end
//@fn src/values.rs impl From < String > for EntryValue :: from
//@wrap none
//@rename from_Text
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::Text(value)
//@end
//@fn src/values.rs impl From < DateTime < FixedOffset > > for EntryValue :: from
//@wrap none
//@rename from_DateTime
//@subst `Self` => `EntryValue`
//@spec
    ensures res == EntryValue::DateTime(value)
//@end

//@fn src/values.rs impl ExifDateTime :: aware
//@spec
    ensures match *self { ExifDateTime::Aware(d) => res == Some(d), ExifDateTime::Naive(_) => res is None }
//@end
//@fn src/values.rs impl < T : Copy > Rational < T > :: new
//@spec
    ensures res == (Rational { numerator, denominator })
//@end
//@fn src/values.rs impl < T : Copy > Rational < T > :: numerator
//@spec
    ensures res == self.numerator
//@end
//@fn src/values.rs impl < T : Copy > Rational < T > :: denominator
//@spec
    ensures res == self.denominator
//@end
//@fn src/values.rs impl TryFrom < IRational > for URational :: try_from
//@wrap impl Rational<u32>
//@subst `Self::Error` => `ConvertError`
//@subst `crate::ConvertError` => `ConvertError`
//@spec
    ensures value.numerator < 0 || value.denominator < 0 ==> res is Err,
        value.numerator >= 0 && value.denominator >= 0 ==> (res matches Ok(u) && u.numerator == value.numerator && u.denominator == value.denominator)
//@end
} // verus!
fn main() {}
