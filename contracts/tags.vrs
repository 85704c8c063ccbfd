#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include common.rs
verus! {
broadcast use seq_slices;
//@bconsts
//@item src/exif/tags.rs enum ExifTag | derive(Clone, Copy, PartialEq, Eq, Structural) | repr(u16)
//@item src/exif/tags.rs enum TagOrCode | derive(Clone, Copy, PartialEq, Eq, Structural)

#[verifier::opaque]
pub open spec fn tcode(t: ExifTag) -> u16 { t as u16 }
//@fn src/exif/tags.rs impl ExifTag :: code
//@at start
    reveal(tcode);
//@spec
    ensures res == tcode(self)
//@end

//@fn src/exif/tags.rs impl ExifTag :: from_code
//@spec
    ensures match res { Some(t) => tcode(t) == code, None => forall|t: ExifTag| #[trigger] tcode(t) != code }
//@end

//@fn src/exif/tags.rs impl TagOrCode :: tag
//@spec
    ensures match self { TagOrCode::Tag(t) => res == Some(*t), TagOrCode::Unknown(_) => res is None }
//@end
//@fn src/exif/tags.rs impl TagOrCode :: code
//@spec
    ensures res == (match self { TagOrCode::Tag(t) => tcode(*t), TagOrCode::Unknown(c) => *c })
//@end
//@fn src/exif/tags.rs impl From < u16 > for TagOrCode :: from
//@wrap impl TagOrCode
//@spec
    ensures match res { TagOrCode::Tag(t) => tcode(t) == v, TagOrCode::Unknown(c) => c == v && forall|t: ExifTag| #[trigger] tcode(t) != v }
//@end
} // verus!
fn main() {}
