// ---- which format the leading bytes identify
//@item src/file.rs enum MediaMime | derive(Clone, Copy)
//@item src/file.rs enum MediaMimeImage | derive(Clone, Copy)
//@item src/file.rs enum MediaMimeTrack | derive(Clone, Copy)
/// the bytes of `t` occur in `s`
pub open spec fn has_sub(s: Seq<u8>, t: Seq<u8>) -> bool { exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t }
// four-character codes, in ASCII
#[verifier::opaque]
pub open spec fn qt_brand(b: Seq<u8>) -> bool { b == seq![0x71u8, 0x74u8, 0x20u8, 0x20u8] || b == seq![0x6du8, 0x71u8, 0x74u8, 0x20u8] } // "qt  ", "mqt "
#[verifier::opaque]
pub open spec fn avif_brand(b: Seq<u8>) -> bool { b == seq![0x61u8, 0x76u8, 0x69u8, 0x66u8] || b == seq![0x61u8, 0x76u8, 0x69u8, 0x73u8] || b == seq![0x61u8, 0x76u8, 0x69u8, 0x6fu8] } // avif avis avio
#[verifier::opaque]
pub open spec fn heic_brand(b: Seq<u8>) -> bool { // heic heix heim heis
    b == seq![0x68u8, 0x65u8, 0x69u8, 0x63u8] || b == seq![0x68u8, 0x65u8, 0x69u8, 0x78u8] || b == seq![0x68u8, 0x65u8, 0x69u8, 0x6du8] || b == seq![0x68u8, 0x65u8, 0x69u8, 0x73u8]
}
#[verifier::opaque]
pub open spec fn heif_brand(b: Seq<u8>) -> bool { // the above, and hevc hevm hevs mif1 MiHE miaf MiHB
    heic_brand(b) || b == seq![0x68u8, 0x65u8, 0x76u8, 0x63u8] || b == seq![0x68u8, 0x65u8, 0x76u8, 0x6du8] || b == seq![0x68u8, 0x65u8, 0x76u8, 0x73u8]
    || b == seq![0x6du8, 0x69u8, 0x66u8, 0x31u8] || b == seq![0x4du8, 0x69u8, 0x48u8, 0x45u8] || b == seq![0x6du8, 0x69u8, 0x61u8, 0x66u8] || b == seq![0x4du8, 0x69u8, 0x48u8, 0x42u8]
}
pub open spec fn threegp(b: Seq<u8>) -> bool { seq![0x33u8, 0x67u8, 0x70u8].is_prefix_of(b) } // 3gp..
#[verifier::opaque]
pub open spec fn mp4_brand(b: Seq<u8>) -> bool {
    b == seq![0x33u8, 0x67u8, 0x32u8, 0x61u8] || b == seq![0x33u8, 0x67u8, 0x32u8, 0x62u8] || b == seq![0x33u8, 0x67u8, 0x32u8, 0x63u8] // 3g2a 3g2b 3g2c
    || b == seq![0x33u8, 0x67u8, 0x65u8, 0x36u8] || b == seq![0x33u8, 0x67u8, 0x65u8, 0x37u8] || b == seq![0x33u8, 0x67u8, 0x67u8, 0x36u8] // 3ge6 3ge7 3gg6
    || b == seq![0x33u8, 0x67u8, 0x70u8, 0x34u8] || b == seq![0x33u8, 0x67u8, 0x70u8, 0x35u8] || b == seq![0x33u8, 0x67u8, 0x70u8, 0x36u8] // 3gp4 3gp5 3gp6
    || b == seq![0x33u8, 0x67u8, 0x73u8, 0x37u8] || b == seq![0x61u8, 0x76u8, 0x63u8, 0x31u8] || b == seq![0x6du8, 0x70u8, 0x34u8, 0x31u8] // 3gs7 avc1 mp41
    || b == seq![0x6du8, 0x70u8, 0x34u8, 0x32u8] || b == seq![0x69u8, 0x73u8, 0x6fu8, 0x32u8] || b == seq![0x69u8, 0x73u8, 0x6fu8, 0x6du8] // mp42 iso2 isom
    || b == seq![0x76u8, 0x66u8, 0x6au8, 0x31u8] || b == seq![0x58u8, 0x41u8, 0x56u8, 0x43u8] // vfj1 XAVC
}
#[verifier::opaque]
pub open spec fn cr3_brand(b: Seq<u8>) -> bool { b == seq![0x63u8, 0x72u8, 0x78u8, 0x20u8] } // "crx "
pub open spec fn qt() -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| qt_brand(b) }
pub open spec fn avif() -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| avif_brand(b) }
pub open spec fn heic() -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| heic_brand(b) }
pub open spec fn heif() -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| heif_brand(b) }
pub open spec fn mp4() -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| mp4_brand(b) }
pub open spec fn cr3() -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| cr3_brand(b) }
/// some brand of a family occurs among the compatible brands
#[verifier::opaque]
pub open spec fn compat(p: spec_fn(Seq<u8>) -> bool, s: Seq<u8>) -> bool { exists|b: Seq<u8>| #[trigger] p(b) && has_sub(s, b) }
pub open spec fn is_mdat() -> spec_fn(Hd, Seq<u8>) -> bool { |h: Hd, r: Seq<u8>| h.ty == "mdat"@ }
pub open spec fn img(i: MediaMimeImage) -> Option<MediaMime> { Some(MediaMime::Image(i)) }
pub open spec fn trk(t: MediaMimeTrack) -> Option<MediaMime> { Some(MediaMime::Track(t)) }
pub open spec fn mp4_kind(major: Seq<u8>) -> Option<MediaMime> { if threegp(major) { trk(MediaMimeTrack::_3gpp) } else { trk(MediaMimeTrack::Mp4) } }
/// by major brand, then by compatible brands, then by the presence of media data
pub open spec fn by_brand(body: Seq<u8>, whole: Seq<u8>) -> Option<MediaMime> {
    let major = body.take(4);
    if qt_brand(major) { trk(MediaMimeTrack::QuickTime) }
    else if avif_brand(major) { img(MediaMimeImage::Avif) }
    else if heic_brand(major) { img(MediaMimeImage::Heic) }
    else if heif_brand(major) { img(MediaMimeImage::Heif) }
    else if mp4_brand(major) { mp4_kind(major) }
    else if cr3_brand(major) { img(MediaMimeImage::Cr3) }
    else if compat(qt(), body) { trk(MediaMimeTrack::QuickTime) }
    else if compat(avif(), body) { img(MediaMimeImage::Avif) }
    else if compat(heif(), body) { img(MediaMimeImage::Heif) }
    else if compat(mp4(), body) { mp4_kind(major) }
    else if trav(is_mdat(), whole) is Stop { trk(MediaMimeTrack::Mp4) }
    else { None }
}
/// ISO base media: an `ftyp` box, or a bare `wide` atom in front of media data
pub open spec fn bmff(s: Seq<u8>) -> Option<MediaMime> {
    match bx(s) {
        Hdr::H(h) => {
            let b = s.take(h.size).skip(h.hlen);
            if h.ty == "ftyp"@ { if b.len() < 4 { None } else { by_brand(b, s) } }
            else if h.ty == "wide"@ && trav(is_mdat(), s) is Stop { trk(MediaMimeTrack::QuickTime) }
            else { None } },
        _ => None,
    }
}
pub open spec fn png_sig() -> Seq<u8> { seq![0x89u8, 0x50u8, 0x4eu8, 0x47u8, 0x0du8, 0x0au8, 0x1au8, 0x0au8] }
pub open spec fn raf_sig() -> Seq<u8> { seq![0x46u8, 0x55u8, 0x4au8, 0x49u8, 0x46u8, 0x49u8, 0x4cu8, 0x4du8, 0x43u8, 0x43u8, 0x44u8, 0x2du8, 0x52u8, 0x41u8, 0x57u8, 0x20u8] } // "FUJIFILMCCD-RAW "
pub open spec fn jpeg_sig(s: Seq<u8>) -> bool { s.len() >= 2 && s[0] == 0xFF && s[1] == 0xD8 }
/// the format of a file that starts with `s`
pub open spec fn mime_of(s: Seq<u8>) -> Option<MediaMime> {
    if bmff(s) is Some { bmff(s) }
    else if doc_type(s, 0) is T { if doc_type(s, 0)->T_0 == "webm"@ { trk(MediaMimeTrack::Webm) } else { trk(MediaMimeTrack::Matroska) } }
    else if tiff_hdr(s) is Ok { img(MediaMimeImage::Tiff) }
    else if png_sig().is_prefix_of(s) { img(MediaMimeImage::Png) }
    else if jpeg_sig(s) { img(MediaMimeImage::Jpeg) }
    else if raf_sig().is_prefix_of(s) { img(MediaMimeImage::Raf) }
    else { None }
}
