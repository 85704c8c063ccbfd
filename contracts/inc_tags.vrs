//@item src/exif/tags.rs enum ExifTag | derive(Clone, Copy, PartialEq, Eq, Structural) | repr(u16)
//@item src/exif/tags.rs enum TagOrCode | derive(Clone, Copy, PartialEq, Eq, Structural)
#[verifier::opaque]
pub open spec fn tcode(t: ExifTag) -> u16 { t as u16 }
