// ---------------------------------------------------------------- Motion Photo declarations in XMP
/// the place of the first occurrence
pub open spec fn occurs_at(h: Seq<u8>, n: Seq<u8>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n }
#[verifier::opaque]
pub open spec fn find(h: Seq<u8>, n: Seq<u8>) -> Option<int> {
    if exists|i: int| occurs_at(h, n, i) { Some(choose|i: int| #[trigger] occurs_at(h, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs_at(h, n, j)) } else { None }
}
/// `i` is the first index holding `b`
pub open spec fn first(h: Seq<u8>, b: u8, i: int) -> bool { 0 <= i < h.len() && h[i] == b && forall|j: int| 0 <= j < i ==> h[j] != b }
#[verifier::opaque]
pub open spec fn upto(h: Seq<u8>, b: u8) -> Option<Seq<u8>> { if h.contains(b) { Some(h.take(choose|i: int| first(h, b, i))) } else { None } }
pub open spec fn eq_quote() -> Seq<u8> { seq![0x3Du8, 0x22u8] }
/// the value of the first attribute of that name: what stands between its quotes
#[verifier::opaque]
pub open spec fn attr(x: Seq<u8>, name: Seq<u8>) -> Option<Seq<u8>> {
    match find(x, name + eq_quote()) { Some(i) => upto(x.skip(i + name.len() + 2), 0x22), None => None }
}
#[verifier::opaque]
pub open spec fn attr_is(x: Seq<u8>, name: Seq<u8>, value: Seq<u8>) -> bool { find(x, name + eq_quote() + value + seq![0x22u8]) is Some }
pub open spec fn is_digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn dec(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * dec(s.drop_last()) + (s.last() - 0x30) } }
/// a decimal number of 64 bits, as std parses it
#[verifier::opaque]
pub open spec fn u64_text(s: Seq<u8>) -> Option<u64> {
    let d = if s.len() > 0 && s[0] == 0x2B { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])) && dec(d) <= u64::MAX { Some(dec(d) as u64) } else { None }
}
pub open spec fn num_attr(x: Seq<u8>, name: Seq<u8>) -> Option<u64> { match attr(x, name) { Some(v) => u64_text(v), None => None } }
/// the tags of the container directory from `pos` on
#[verifier::opaque]
pub open spec fn tags(dir: Seq<u8>, pos: int) -> Option<Seq<Seq<u8>>> decreases dir.len() - pos {
    if !(0 <= pos <= dir.len()) { None } else {
    match find(dir.skip(pos), item_tag()) {
        None => Some(Seq::empty()),
        Some(i) => match upto(dir.skip(pos + i), 0x3E) {
            None => None,
            Some(t) => if t.len() > 0 && i >= 0 && pos + i + t.len() <= dir.len() { match tags(dir, pos + i + t.len()) { Some(r) => Some(seq![t] + r), None => None } } else { None },
        },
    }}
}
pub open spec fn is_motion(t: Seq<u8>) -> bool { attr(t, n_semantic()) == Some(v_motion()) || attr(t, n_mime()) == Some(v_mp4()) }
/// the motion-photo item and all behind it; the last one's padding is not part of the file
#[verifier::opaque]
pub open spec fn sum_from(items: Seq<Seq<u8>>, k: int) -> Option<int> decreases items.len() - k {
    if !(0 <= k < items.len()) { Some(0) } else {
    match (num_attr(items[k], n_length()), sum_from(items, k + 1)) {
        (Some(l), Some(r)) => Some(l + (if k == items.len() - 1 { 0 } else { match num_attr(items[k], n_padding()) { Some(p) => p as int, None => 0 } }) + r),
        _ => None,
    }}
}
/// the sum for the first motion-photo item
pub open spec fn of_items(ts: Seq<Seq<u8>>) -> Option<u64> {
    if exists|k: int| first_motion(ts, k) { match sum_from(ts, choose|k: int| first_motion(ts, k)) { Some(t) => if t <= u64::MAX { Some(t as u64) } else { None }, None => None } } else { None }
}
#[verifier::opaque]
pub open spec fn container(x: Seq<u8>) -> Option<u64> {
    match find(x, dir_open()) { None => None, Some(a) => match find(x.skip(a), dir_close()) { None => None, Some(n) =>
        match tags(x.subrange(a, a + n), 0) { None => None, Some(ts) => of_items(ts) } } }
}
pub open spec fn first_motion(ts: Seq<Seq<u8>>, k: int) -> bool { 0 <= k < ts.len() && is_motion(ts[k]) && forall|j: int| 0 <= j < k ==> !is_motion(#[trigger] ts[j]) }
/// the trailer length an XMP packet declares
pub open spec fn declared(x: Seq<u8>) -> Option<u64> {
    if !attr_is(x, n_photo(), seq![0x31u8]) && !attr_is(x, n_video(), seq![0x31u8]) { None }
    else { match container(x) { Some(n) => Some(n), None => match attr(x, n_photo_off()) { Some(v) => u64_text(v), None => num_attr(x, n_video_off()) } } }
}
pub open spec fn is_xmp(p: Seq<u8>) -> bool { xmp_ns().is_prefix_of(p) }
pub ghost enum Scan { More, No, Found(u64) }
/// the first declaration in an XMP segment before the image data
pub open spec fn scan(s: Seq<u8>) -> Scan decreases s.len() {
    match seg(s) {
        Seg::Inc => Scan::More,
        Seg::Bad => Scan::No,
        Seg::Seg { code, payload, next } =>
            if code == 0xDA { Scan::No }
            else if code == 0xE1 && is_xmp(payload) && declared(payload.skip(29)) is Some { Scan::Found(declared(payload.skip(29))->0) }
            else if 0 < next <= s.len() { scan(s.skip(next)) } else { Scan::No },
    }
}
pub open spec fn item_tag() -> Seq<u8> { seq![60u8, 67u8, 111u8, 110u8, 116u8, 97u8, 105u8, 110u8, 101u8, 114u8, 58u8, 73u8, 116u8, 101u8, 109u8] }
pub open spec fn dir_open() -> Seq<u8> { seq![60u8, 67u8, 111u8, 110u8, 116u8, 97u8, 105u8, 110u8, 101u8, 114u8, 58u8, 68u8, 105u8, 114u8, 101u8, 99u8, 116u8, 111u8, 114u8, 121u8] }
pub open spec fn dir_close() -> Seq<u8> { seq![60u8, 47u8, 67u8, 111u8, 110u8, 116u8, 97u8, 105u8, 110u8, 101u8, 114u8, 58u8, 68u8, 105u8, 114u8, 101u8, 99u8, 116u8, 111u8, 114u8, 121u8, 62u8] }
pub open spec fn n_semantic() -> Seq<u8> { seq![73u8, 116u8, 101u8, 109u8, 58u8, 83u8, 101u8, 109u8, 97u8, 110u8, 116u8, 105u8, 99u8] }
pub open spec fn n_mime() -> Seq<u8> { seq![73u8, 116u8, 101u8, 109u8, 58u8, 77u8, 105u8, 109u8, 101u8] }
pub open spec fn n_length() -> Seq<u8> { seq![73u8, 116u8, 101u8, 109u8, 58u8, 76u8, 101u8, 110u8, 103u8, 116u8, 104u8] }
pub open spec fn n_padding() -> Seq<u8> { seq![73u8, 116u8, 101u8, 109u8, 58u8, 80u8, 97u8, 100u8, 100u8, 105u8, 110u8, 103u8] }
pub open spec fn v_motion() -> Seq<u8> { seq![77u8, 111u8, 116u8, 105u8, 111u8, 110u8, 80u8, 104u8, 111u8, 116u8, 111u8] }
pub open spec fn v_mp4() -> Seq<u8> { seq![118u8, 105u8, 100u8, 101u8, 111u8, 47u8, 109u8, 112u8, 52u8] }
pub open spec fn n_photo() -> Seq<u8> { seq![71u8, 67u8, 97u8, 109u8, 101u8, 114u8, 97u8, 58u8, 77u8, 111u8, 116u8, 105u8, 111u8, 110u8, 80u8, 104u8, 111u8, 116u8, 111u8] }
pub open spec fn n_video() -> Seq<u8> { seq![71u8, 67u8, 97u8, 109u8, 101u8, 114u8, 97u8, 58u8, 77u8, 105u8, 99u8, 114u8, 111u8, 86u8, 105u8, 100u8, 101u8, 111u8] }
pub open spec fn n_photo_off() -> Seq<u8> { seq![71u8, 67u8, 97u8, 109u8, 101u8, 114u8, 97u8, 58u8, 77u8, 111u8, 116u8, 105u8, 111u8, 110u8, 80u8, 104u8, 111u8, 116u8, 111u8, 79u8, 102u8, 102u8, 115u8, 101u8, 116u8] }
pub open spec fn n_video_off() -> Seq<u8> { seq![71u8, 67u8, 97u8, 109u8, 101u8, 114u8, 97u8, 58u8, 77u8, 105u8, 99u8, 114u8, 111u8, 86u8, 105u8, 100u8, 101u8, 111u8, 79u8, 102u8, 102u8, 115u8, 101u8, 116u8] }
pub open spec fn xmp_ns() -> Seq<u8> { seq![104u8, 116u8, 116u8, 112u8, 58u8, 47u8, 47u8, 110u8, 115u8, 46u8, 97u8, 100u8, 111u8, 98u8, 101u8, 46u8, 99u8, 111u8, 109u8, 47u8, 120u8, 97u8, 112u8, 47u8, 49u8, 46u8, 48u8, 47u8, 0u8] }
