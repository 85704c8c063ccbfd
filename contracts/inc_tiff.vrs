//@item src/exif/exif_exif.rs struct TiffHeader | derive(Clone, Copy)
pub ghost enum HdrR { Inc, Bad, Ok(Endianness, int) }
pub open spec fn tiff_hdr(d: Seq<u8>) -> HdrR {
    if d.len() == 0 { HdrR::Inc }
    else if d[0] != 0x4D && d[0] != 0x49 { HdrR::Bad }
    else if d.len() < 2 { HdrR::Inc }
    else if d[1] != d[0] { HdrR::Bad }
    else { let e = if d[0] == 0x4D { Endianness::Big } else { Endianness::Little };
        if d.len() < 4 { HdrR::Inc }
        else if s16(e, d.skip(2)) != 0x2a { HdrR::Bad }
        else if d.len() < 8 { HdrR::Inc }
        else { HdrR::Ok(e, s32(e, d.skip(4))) } }
}
/// Exif item data: four bytes, "Exif\0\0", then TIFF data
pub open spec fn item_tiff(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() >= 10 && s.subrange(4, 10) =~= exif_id() { Some(s.skip(10)) } else { None } }
pub open spec fn exif_id() -> Seq<u8> { seq![0x45u8, 0x78u8, 0x69u8, 0x66u8, 0u8, 0u8] }
pub open spec fn data_is<'a>(d: Option<&'a [u8]>, s: Option<Seq<u8>>) -> bool { match s { None => d is None, Some(x) => d matches Some(y) && y@ == x } }
