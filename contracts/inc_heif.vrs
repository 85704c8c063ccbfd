// ---- HEIF item boxes: specification (ISO/IEC 14496-12, 8.11)
/// a big-endian number of `n` bytes
pub open spec fn num(n: int, s: Seq<u8>) -> PR<int> {
    if s.len() < n { PR::Inc } else { PR::Ok(if n == 1 { s[0] as int } else if n == 2 { s16be(s) } else if n == 4 { s32be(s) } else { s64be(s) }, s.skip(n)) }
}
/// a field whose width in bytes is declared elsewhere
pub open spec fn wnum(w: int, s: Seq<u8>) -> PR<int> { if w == 4 { num(4, s) } else if w == 8 { num(8, s) } else if w == 0 { PR::Ok(0, s) } else { PR::Bad } }
pub ghost struct Sizes { pub offset: int, pub length: int, pub base: int, pub index: int }
/// offset and length of an extent
pub open spec fn extent(z: Sizes, s: Seq<u8>) -> PR<(int, int)> {
    match wnum(z.index, s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(_, s1) =>
    match wnum(z.offset, s1) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(o, s2) =>
    match wnum(z.length, s2) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(l, s3) => PR::Ok((o, l), s3) } } }
}
pub ghost struct Loc { pub id: int, pub method: int, pub base: int, pub extents: Seq<(int, int)> }
pub open spec fn ext_f(z: Sizes) -> spec_fn(Seq<u8>) -> PR<(int, int)> { |s: Seq<u8>| extent(z, s) }
/// one item of the item-location box; a construction method that is not known counts as a file offset
pub open spec fn loc(ver: int, z: Sizes, s: Seq<u8>) -> PR<Loc> {
    match num(if ver < 2 { 2 } else { 4 }, s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(id, s1) =>
    match (if ver >= 1 { num(2, s1) } else { PR::Ok(0, s1) }) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(m, s2) =>
    match num(2, s2) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(_, s3) =>
    match wnum(z.base, s3) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(base, s4) =>
    match num(2, s4) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(n, s5) =>
        if n > 32 { PR::Bad } else { match rep(ext_f(z), n, s5) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(x, s6) =>
            PR::Ok(Loc { id, method: if m % 16 == 1 { 1 } else if m % 16 == 2 { 2 } else { 0 }, base, extents: x }, s6) } } } } } } }
}
pub open spec fn loc_f(ver: int, z: Sizes) -> spec_fn(Seq<u8>) -> PR<Loc> { |s: Seq<u8>| loc(ver, z, s) }
pub open spec fn iloc_sizes(s: Seq<u8>) -> Sizes { Sizes { offset: s[0] as int / 16, length: s[0] as int % 16, base: s[1] as int / 16, index: s[1] as int % 16 } }
pub open spec fn iloc_of(ver: int, s: Seq<u8>) -> PR<Seq<Loc>> {
    if s.len() < 2 { PR::Inc } else { match num(if ver < 2 { 2 } else { 4 }, s.skip(2)) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(n, s1) => rep(loc_f(ver, iloc_sizes(s)), n, s1) } }
}
/// the item with number `id` (the last one, should there be several)
pub open spec fn loc_with(l: Seq<Loc>, id: int) -> Option<Loc> decreases l.len() {
    if l.len() == 0 { None } else if l.last().id == id { Some(l.last()) } else { loc_with(l.drop_last(), id) }
}
/// method, position and length of an item's data: its first extent behind the base offset
pub open spec fn loc_range(l: Seq<Loc>, id: int) -> Option<(int, int, int)> {
    match loc_with(l, id) { None => None, Some(x) => if x.extents.len() == 0 || x.base + x.extents[0].0 > u64::MAX { None } else { Some((x.method, x.base + x.extents[0].0, x.extents[0].1)) } }
}
// ---- item information
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn utf8_dec(s: Seq<u8>) -> Seq<char>;
pub axiom fn utf8_empty() ensures utf8_ok(Seq::empty()), utf8_dec(Seq::empty()) == Seq::<char>::empty();
/// position of the first zero byte, the length if there is none
pub open spec fn zero_at(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s[0] == 0 { 0 } else { 1 + zero_at(s.skip(1)) } }
pub open spec fn cstr(s: Seq<u8>) -> PR<Seq<char>> {
    let k = zero_at(s);
    if k >= s.len() { PR::Inc } else if !utf8_ok(s.take(k)) { PR::Bad } else { PR::Ok(utf8_dec(s.take(k)), s.skip(k + 1)) }
}
/// an item: its number and what it is, by type (or name where there are no types)
pub open spec fn infe(ver: int, s: Seq<u8>) -> PR<(int, Seq<char>)> {
    match num(if ver > 2 { 4 } else { 2 }, s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(id, s1) =>
    match num(2, s1) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(_, s2) =>
    if ver >= 2 {
        if s2.len() < 4 { PR::Inc } else if !utf8_ok(s2.take(4)) { PR::Bad } else {
            let ty = utf8_dec(s2.take(4));
            match cstr(s2.skip(4)) { PR::Ok(_, s3) => match infe_rest(ty == "mime"@, ty == "uri"@, s3) { PR::Ok(_, s4) => PR::Ok((id, ty), s4), PR::Inc => PR::Inc, PR::Bad => PR::Bad }, _ => PR::Bad } }
    } else {
        match cstr(s2) { PR::Ok(name, s3) => match infe_rest(true, false, s3) { PR::Ok(_, s4) => PR::Ok((id, name), s4), PR::Inc => PR::Inc, PR::Bad => PR::Bad }, _ => PR::Bad }
    } } }
}
/// content type and encoding, and URI
pub open spec fn infe_rest(mime: bool, uri: bool, s: Seq<u8>) -> PR<()> {
    match (if mime { match cstr(s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(_, s1) => if s1.len() == 0 { PR::Ok((), s1) } else { match cstr(s1) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(_, s2) => PR::Ok((), s2) } } } } else { PR::Ok((), s) }) {
        PR::Inc => PR::Inc, PR::Bad => PR::Bad,
        PR::Ok(_, s3) => if uri { match cstr(s3) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(_, s4) => PR::Ok((), s4) } } else { PR::Ok((), s3) },
    }
}
/// a full box at the head of `s`, its body as `f` (of the version) says
pub open spec fn boxed_as<T>(f: spec_fn(int, Seq<u8>) -> PR<T>, s: Seq<u8>) -> PR<T> {
    match fhdr(s) {
        FHdr::Inc => PR::Inc, FHdr::Bad => PR::Bad,
        FHdr::F(h) => if h.h.size - h.hlen > max_body() { PR::Bad } else if s.len() < h.h.size { PR::Inc }
            else { match f(h.version, s.subrange(h.hlen, h.h.size)) { PR::Ok(t, _) => PR::Ok(t, s.skip(h.h.size)), e => e } },
    }
}
pub open spec fn infe_f() -> spec_fn(Seq<u8>) -> PR<(int, Seq<char>)> { |s: Seq<u8>| boxed_as(|v: int, b: Seq<u8>| infe(v, b), s) }
pub open spec fn iinf_of(ver: int, s: Seq<u8>) -> PR<Seq<(int, Seq<char>)>> {
    match num(if ver > 0 { 4 } else { 2 }, s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(n, s1) => rep(infe_f(), n, s1) }
}
/// the number of the item of type `ty` (the last one, should there be several)
pub open spec fn item_of(l: Seq<(int, Seq<char>)>, ty: Seq<char>) -> Option<int> decreases l.len() {
    if l.len() == 0 { None } else if l.last().1 == ty { Some(l.last().0) } else { item_of(l.drop_last(), ty) }
}

// ---- the meta box: boxes one after the other; of several of a type the last one counts
pub open spec fn bx_pr(s: Seq<u8>) -> PR<(Seq<u8>, Hd)> {
    if s.len() == 0 { PR::Bad } else { match bx(s) { Hdr::Inc => PR::Inc, Hdr::Bad => PR::Bad, Hdr::H(h) => PR::Ok((s.take(h.size), h), s.skip(h.size)) } }
}
pub open spec fn bx_f() -> spec_fn(Seq<u8>) -> PR<(Seq<u8>, Hd)> { |s: Seq<u8>| bx_pr(s) }
pub open spec fn last_of(l: Seq<(Seq<u8>, Hd)>, ty: Seq<char>) -> Option<Seq<u8>> decreases l.len() {
    if l.len() == 0 { None } else if l.last().1.ty == ty { Some(l.last().0) } else { last_of(l.drop_last(), ty) }
}
pub open spec fn opt_boxed<T>(f: spec_fn(int, Seq<u8>) -> PR<T>, b: Option<Seq<u8>>) -> PR<Option<T>> {
    match b { None => PR::Ok(None, Seq::empty()), Some(b) => match boxed_as(f, b) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(t, r) => PR::Ok(Some(t), r) } }
}
pub open spec fn iinf_f() -> spec_fn(int, Seq<u8>) -> PR<Seq<(int, Seq<char>)>> { |v: int, b: Seq<u8>| iinf_of(v, b) }
pub open spec fn iloc_f() -> spec_fn(int, Seq<u8>) -> PR<Seq<Loc>> { |v: int, b: Seq<u8>| iloc_of(v, b) }
pub ghost struct Meta { pub items: Option<Seq<(int, Seq<char>)>>, pub locs: Option<Seq<Loc>> }
pub open spec fn meta_of(s: Seq<u8>) -> PR<Meta> {
    match rep0(bx_f(), s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(l, rest) =>
        match opt_boxed(iinf_f(), last_of(l, "iinf"@)) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(items, _) =>
        match opt_boxed(iloc_f(), last_of(l, "iloc"@)) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(locs, _) => PR::Ok(Meta { items, locs }, rest) } } }
}
pub open spec fn meta_f() -> spec_fn(int, Seq<u8>) -> PR<Meta> { |v: int, b: Seq<u8>| meta_of(b) }
/// where the Exif item is: from the item information to the item location
pub open spec fn exif_range(m: Meta) -> Option<(int, int)> {
    match m.items { None => None, Some(l) => match item_of(l, "Exif"@) { None => None, Some(id) => match m.locs { None => None, Some(k) => match loc_range(k, id) {
        None => None, Some((method, start, len)) => if start + len > u64::MAX || method != 0 { None } else { Some((start, start + len)) } } } } }
}
/// the file's meta box: `ftyp` first, then the first `meta` box
pub open spec fn file_meta(s: Seq<u8>) -> PR<Option<Meta>> {
    match bx(s) { Hdr::Inc => PR::Inc, Hdr::Bad => PR::Bad, Hdr::H(h) =>
        if h.ty != "ftyp"@ { PR::Bad } else { match find_path(s.skip(h.size), path_parts("meta"@)) {
            Fnd::Inc => PR::Inc, Fnd::Bad => PR::Bad, Fnd::No => PR::Ok(None, Seq::empty()),
            Fnd::At(b, _, _) => match boxed_as(meta_f(), b) { PR::Inc => PR::Inc, PR::Bad => PR::Bad, PR::Ok(m, _) => PR::Ok(Some(m), Seq::empty()) } } } }
}
