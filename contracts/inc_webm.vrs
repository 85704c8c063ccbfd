// ---- Matroska / WebM: what a file says about its movie
pub ghost enum Out<T> { Need, Bad, V(T) }
pub open spec fn left_of(b: Seq<u8>, p: int) -> int { if p <= b.len() { b.len() - p } else { 0 } }
/// an unsigned element's value kept in 32 bits; 0 when it cannot be read
pub open spec fn dim(b: Seq<u8>, id: int) -> Out<u32> { match el_find(id_is(id), b, 0) { ElF::Need => Out::Need, ElF::Bad => Out::Bad, ElF::At(h, a) => Out::V(match uint_of(b.skip(a), h.size) { Some(v) => (v as u64) as u32, None => 0u32 }) } }
/// PixelWidth and PixelHeight of a Video element; both have to be there, and not both zero
pub open spec fn video(b: Seq<u8>) -> Out<Option<(u32, u32)>> {
    match dim(b, 0xB0) { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(w) => match dim(b, 0xBA) { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(h) =>
        Out::V(if w == 0 && h == 0 { None } else { Some((w, h)) }) } }
}
/// the first Video element of a track entry that lies inside of it
pub open spec fn track(b: Seq<u8>, p: int) -> Out<Option<(u32, u32)>> decreases left_of(b, p) {
    if p < 0 || p >= b.len() { Out::V(None) } else { match el(b.skip(p)) { Elr::Need => Out::Need, Elr::Bad => Out::Bad, Elr::E(h) => { let a = p + h.hlen;
        if h.id == 0xE0 && a + h.size <= b.len() { video(b.subrange(a, a + h.size)) } else if h.hlen + h.size > 0 { track(b, a + h.size) } else { Out::Bad } } } }
}
/// a track entry with a picture
pub open spec fn entry_video() -> spec_fn(Seq<u8>) -> Option<(u32, u32)> {
    |s: Seq<u8>| match el(s) { Elr::E(h) => if h.id == 0xAE && h.hlen + h.size <= s.len() { match track(s.subrange(h.hlen, h.hlen + h.size), 0) { Out::V(Some(x)) => Some(x), _ => None } } else { None }, _ => None }
}
/// the length of the element at the start of `s`, as far as it is there
pub open spec fn skip_el() -> spec_fn(Seq<u8>) -> Option<int> { |s: Seq<u8>| match el(s) { Elr::E(h) => Some(if h.hlen + h.size <= s.len() { h.hlen + h.size } else { s.len() as int }), _ => None } }
/// the first place where `g` succeeds, skipping what `f` skips
pub open spec fn till<T>(g: spec_fn(Seq<u8>) -> Option<T>, f: spec_fn(Seq<u8>) -> Option<int>, s: Seq<u8>) -> Option<T> decreases s.len() {
    match g(s) { Some(t) => Some(t), None => match f(s) { Some(n) => if 0 < n <= s.len() { till(g, f, s.skip(n)) } else { None }, None => None } }
}
/// the picture of the first video track of the Tracks element at `pos`
#[verifier::opaque]
pub open spec fn tracks(s: Seq<u8>, pos: int) -> Out<Option<(u32, u32)>> {
    if pos < 0 || pos >= s.len() { Out::Need } else { match el(s.skip(pos)) { Elr::Need => Out::Need, Elr::Bad => Out::Bad, Elr::E(h) => { let a = pos + h.hlen;
        if s.len() - a < h.size { Out::Need } else { Out::V(till(entry_video(), skip_el(), s.subrange(a, a + h.size))) } } } }
}
/// SegmentInfo; dates count nanoseconds from 2001-01-01 UTC
pub ghost struct SI { pub scale: int, pub dur: f64, pub date: Option<int> }
pub open spec fn si0() -> SI { SI { scale: 1_000_000, dur: fzero(), date: None } }
pub open spec fn info_body(b: Seq<u8>, p: int, acc: SI) -> Out<SI> decreases left_of(b, p) {
    if p < 0 || p >= b.len() { Out::V(acc) } else { match el(b.skip(p)) { Elr::Need => Out::Need, Elr::Bad => Out::Bad, Elr::E(h) => { let a = p + h.hlen; let d = b.skip(a);
        let acc2 = if h.id == 0x2AD7B1 { match uint_of(d, h.size) { Some(v) => SI { scale: v, ..acc }, None => acc } }
            else if h.id == 0x4489 { match float_of(d, h.size) { Some(v) => SI { dur: v, ..acc }, None => acc } }
            else if h.id == 0x4461 { match uint_of(d, h.size) { Some(v) => SI { date: Some(((v as u64) as i64) + 978_307_200_000_000_000), ..acc }, None => acc } }
            else { acc };
        if h.hlen + h.size > 0 { info_body(b, a + h.size, acc2) } else { Out::Bad } } } }
}
/// the Info element at `pos`; `V(None)` when its content breaks off
#[verifier::opaque]
pub open spec fn info(s: Seq<u8>, pos: int) -> Out<Option<SI>> {
    if pos < 0 || pos >= s.len() { Out::Need } else { match el(s.skip(pos)) { Elr::Need => Out::Need, Elr::Bad => Out::Bad, Elr::E(h) => { let a = pos + h.hlen;
        if s.len() - a < h.size { Out::Need } else { match info_body(s.subrange(a, a + h.size), 0, si0()) { Out::Need => Out::V(None), Out::Bad => Out::Bad, Out::V(i) => Out::V(Some(i)) } } } } }
}
/// one entry of a seek head: (id, position), and where the next one starts
pub ghost enum SE { Need, Bad, Skip, E(u32, u64) }
pub open spec fn seek_done(id: u32, pos: u64) -> SE { if id == 0xFF || pos == 0 { SE::Skip } else { SE::E(id, pos) } }
pub open spec fn seek_fields(b: Seq<u8>, p: int, id: u32, pos: u64) -> SE decreases left_of(b, p) {
    if p < 0 || p >= b.len() { seek_done(id, pos) } else { match vint(b.skip(p), true) { VI::Need => SE::Need, VI::Bad => SE::Bad, VI::V(k, n) => match vint(b.skip(p + n), false) { VI::Need => SE::Need, VI::Bad => SE::Bad, VI::V(size, m) => { let a = p + n + m;
        if k == 0x53AB { match vint(b.skip(a), true) { VI::Need => SE::Need, VI::Bad => SE::Bad, VI::V(x, l) => { let id2 = (x as u64) as u32; if id2 != 0xFF && pos != 0 { SE::E(id2, pos) } else if n + m + l > 0 { seek_fields(b, a + l, id2, pos) } else { SE::Bad } } } }
        else if k == 0x53AC { match uint_of(b.skip(a), size) { None => SE::Skip, Some(v) => { let pos2 = v as u64; if id != 0xFF && pos2 != 0 { SE::E(id, pos2) } else if n + m + size > 0 { seek_fields(b, a + size, id, pos2) } else { SE::Bad } } } }
        else { SE::Skip } } } } }
}
pub open spec fn seek_entry(b: Seq<u8>, p: int) -> (SE, int) {
    match vint(b.skip(p), true) { VI::Need => (SE::Need, p), VI::Bad => (SE::Bad, p), VI::V(k, n) => match vint(b.skip(p + n), false) { VI::Need => (SE::Need, p), VI::Bad => (SE::Bad, p), VI::V(size, m) => { let a = p + n + m;
        if b.len() - a < size { (SE::Need, p) } else if k != 0x4DBB { (SE::Skip, a + size) } else { (seek_fields(b.subrange(a, a + size), 0, 0xFF, 0), a + size) } } } }
}
pub open spec fn seek_head(b: Seq<u8>, p: int, m: Map<u32, u64>) -> Out<Map<u32, u64>> decreases left_of(b, p) {
    if p < 0 || p >= b.len() { Out::V(m) } else { let (e, q) = seek_entry(b, p); match e { SE::Need => Out::Need, SE::Bad => Out::Bad,
        SE::Skip => if q > p { seek_head(b, q, m) } else { Out::Bad },
        SE::E(id, pos) => if q > p { seek_head(b, q, m.insert(id, pos)) } else { Out::Bad } } }
}
pub open spec fn sat64(x: int) -> u64 { if x > u64::MAX { u64::MAX } else { x as u64 } }
/// the positions in the segment's seek head; None when there is none that can be read
#[verifier::opaque]
pub open spec fn seek_map(s: Seq<u8>, pos: int) -> Option<Map<u32, u64>> {
    let r = s.skip(pos); match el_find(id_is(0x114D9B74), r, 0) { ElF::At(h, a) => if r.len() - a < h.size { None } else { match seek_head(r.subrange(a, a + h.size), 0, Map::empty()) { Out::V(m) => Some(m.map_values(|v: u64| sat64(v + pos))), _ => None } }, _ => None }
}
/// the element `id` right from `pos` on, seen from its header
pub open spec fn scan(s: Seq<u8>, pos: int, id: int) -> Out<int> { match el_find(id_is(id), s.skip(pos), 0) { ElF::Need => Out::Need, ElF::Bad => Out::Bad, ElF::At(h, a) => Out::V(pos + a - h.hlen) } }
pub ghost struct Webm { pub doc: Seq<char>, pub info: Option<SI>, pub size: Option<(u32, u32)> }
/// where a seek head points at `id`
pub open spec fn seek_to(m: Option<Map<u32, u64>>, id: u32) -> Option<int> { match m { None => None, Some(m) => if m.contains_key(id) { Some(m[id] as int) } else { None } } }
pub open spec fn webm(s: Seq<u8>) -> Out<Webm> {
    match doc_type(s, 0) { Doc::Need => Out::Need, Doc::Bad => Out::Bad, Doc::T(doc, a) => match el(s.skip(a)) { Elr::Need => Out::Need, Elr::Bad => Out::Bad, Elr::E(h) => if h.id != 0x18538067 { Out::Bad } else {
        let pos = a + h.hlen; let sk = seek_map(s, pos);
        // what the seek head points at comes first, in this order
        let i1 = match seek_to(sk, 0x1549A966) { None => Out::V(None), Some(q) => info(s, q) };
        match i1 { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(i1) => {
        let t1 = match seek_to(sk, 0x1654AE6B) { None => Out::V(None), Some(q) => tracks(s, q) };
        match t1 { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(t1) => {
        // and what it does not give is searched for
        let i2 = if i1 is Some { Out::V(i1) } else { match scan(s, pos, 0x1549A966) { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(q) => info(s.skip(q), 0) } };
        match i2 { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(i2) => {
        let t2 = if t1 is Some { Out::V(t1) } else { match scan(s, pos, 0x1654AE6B) { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(q) => tracks(s.skip(q), 0) } };
        match t2 { Out::Need => Out::Need, Out::Bad => Out::Bad, Out::V(t2) => Out::V(Webm { doc, info: i2, size: t2 }) } } } } } } } } } }
}
