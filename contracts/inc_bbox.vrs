// ---- ISO base media boxes: specification (ISO/IEC 14496-12, 4.2)
/// text of a box type: its four bytes as Latin-1
pub open spec fn latin1(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
pub ghost struct Hd { pub size: int, pub ty: Seq<char>, pub hlen: int }
pub ghost enum Hdr { Inc, Bad, H(Hd) }
/// a box header at the head of `s`: size, type, and the 64-bit size if size is 1
pub open spec fn hdr(s: Seq<u8>) -> Hdr {
    if s.len() < 8 { Hdr::Inc }
    else { let n = s32be(s); let ty = latin1(s.subrange(4, 8));
        if n == 1 { if s.len() < 16 { Hdr::Inc } else if s64be(s.skip(8)) < 16 { Hdr::Bad } else { Hdr::H(Hd { size: s64be(s.skip(8)), ty, hlen: 16 }) } }
        else if n < 8 { Hdr::Bad }
        else { Hdr::H(Hd { size: n, ty, hlen: 8 }) } }
}
/// a whole box at the head of `s`
pub open spec fn bx(s: Seq<u8>) -> Hdr { match hdr(s) { Hdr::H(h) => if s.len() < h.size { Hdr::Inc } else { Hdr::H(h) }, x => x } }
/// a full box header: version and flags follow
pub ghost struct FHd { pub h: Hd, pub version: int, pub flags: int, pub hlen: int }
pub ghost enum FHdr { Inc, Bad, F(FHd) }
pub open spec fn fhdr(s: Seq<u8>) -> FHdr {
    match hdr(s) {
        Hdr::Inc => FHdr::Inc, Hdr::Bad => FHdr::Bad,
        Hdr::H(h) => if s.len() < h.hlen + 4 { FHdr::Inc } else if h.size < h.hlen + 4 { FHdr::Bad }
            else { FHdr::F(FHd { h, version: s[h.hlen] as int, flags: s24be(s.skip(h.hlen + 1)), hlen: h.hlen + 4 }) },
    }
}
/// the first box of type `ty` among the boxes `s` consists of
pub ghost enum Fnd { Inc, Bad, No, At(Seq<u8>, Hd, Seq<u8>) } // whole box, header, what follows
pub open spec fn find_ty(s: Seq<u8>, ty: Seq<char>) -> Fnd decreases s.len() {
    if s.len() == 0 { Fnd::No }
    else { match bx(s) {
        Hdr::Inc => Fnd::Inc, Hdr::Bad => Fnd::Bad,
        Hdr::H(h) => if h.ty == ty { Fnd::At(s.take(h.size), h, s.skip(h.size)) } else if 0 < h.size <= s.len() { find_ty(s.skip(h.size), ty) } else { Fnd::Bad },
    } }
}
/// the body of a box
pub open spec fn body(b: Seq<u8>, h: Hd) -> Seq<u8> { b.skip(h.hlen) }
/// a path of box types, outermost first
pub open spec fn find_path(s: Seq<u8>, path: Seq<Seq<char>>) -> Fnd decreases path.len() {
    if path.len() == 0 { Fnd::No }
    else { match find_ty(s, path[0]) {
        Fnd::At(b, h, rest) => if path.len() == 1 { Fnd::At(b, h, rest) } else { find_path(body(b, h), path.skip(1)) },
        x => x,
    } }
}
/// the components of a path, empty ones dropped
pub open spec fn path_parts(p: Seq<char>) -> Seq<Seq<char>> decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else if p.contains('/') { let k = p.index_of_first('/')->0; if 0 <= k < p.len() { if k == 0 { path_parts(p.skip(1)) } else { seq![p.take(k)] + path_parts(p.skip(k + 1)) } } else { Seq::empty() } }
    else { seq![p] }
}
pub open spec fn hd_is(x: BoxHeader, h: Hd) -> bool { x.box_size == h.size && x.box_type@ == h.ty && x.header_size == h.hlen }
pub open spec fn hd_of(x: BoxHeader) -> Hd { Hd { size: x.box_size as int, ty: x.box_type@, hlen: x.header_size as int } }
/// the holder of a whole box `b` with header `h`
pub open spec fn holds(x: BoxHolder<'_>, b: Seq<u8>, h: Hd) -> bool { hd_is(x.header, h) && x.data@ == b && h.hlen <= b.len() && b.len() == h.size }
pub open spec fn found<'a>(res: IResult<&'a [u8], Option<BoxHolder<'a>>>, f: Fnd) -> bool {
    match f {
        Fnd::Inc => is_inc(res), Fnd::Bad => is_error(res),
        Fnd::No => res matches Ok((_, None)),
        Fnd::At(b, h, _) => res matches Ok((_, Some(x))) && holds(x, b, h),
    }
}
//@item src/bbox.rs struct BoxHeader
//@item src/bbox.rs struct FullBoxHeader
//@item src/bbox.rs struct BoxHolder
//@item src/bbox.rs type BoxResult
impl BoxHeader { pub open spec fn wf(&self) -> bool { self.box_size >= self.header_size } }
impl FullBoxHeader { pub open spec fn wf(&self) -> bool { self.box_size >= self.header_size } }
impl<'a> BoxHolder<'a> { pub open spec fn wf(&self) -> bool { self.header.wf() && self.data@.len() == self.header.box_size } }

// ---- box lists, and walks with a predicate
pub open spec fn four_zeros() -> Seq<u8> { seq![0u8, 0u8, 0u8, 0u8] }
/// the boxes `s` consists of up to its end or a final 32-bit zero; None if malformed
pub open spec fn box_list(s: Seq<u8>) -> Option<Seq<(Seq<u8>, Hd)>> decreases s.len() {
    if s.len() == 0 || s == four_zeros() { Some(Seq::empty()) }
    else { match bx(s) {
        Hdr::H(h) => if 0 < h.size <= s.len() { match box_list(s.skip(h.size)) { Some(l) => Some(seq![(s.take(h.size), h)] + l), None => None } } else { None },
        _ => None,
    } }
}
pub open spec fn all_hold(v: Seq<BoxHolder<'_>>, l: Seq<(Seq<u8>, Hd)>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].wf() && holds(v[i], l[i].0, l[i].1) }
/// the predicate runs on every header and answers as `g` of the header and what follows it
pub open spec fn hdecides<'a, F: Fn(&BoxHeader, &'a [u8]) -> bool>(f: F, g: spec_fn(Hd, Seq<u8>) -> bool) -> bool {
    (forall|x: &BoxHeader, r: &'a [u8]| x.wf() ==> #[trigger] f.requires((x, r)))
    && (forall|x: &BoxHeader, r: &'a [u8], b: bool, h: Hd| #![trigger f.ensures((x, r), b), hd_is(*x, h)] f.ensures((x, r), b) && hd_is(*x, h) ==> b == !g(h, r@))
}
pub ghost enum Trav { Inc, Bad, Stop(Hd, Seq<u8>) }
/// walk over the headers in `s`, skipping bodies, to the first one `g` holds for
pub open spec fn trav(g: spec_fn(Hd, Seq<u8>) -> bool, s: Seq<u8>) -> Trav decreases s.len() {
    match hdr(s) {
        Hdr::Inc => Trav::Inc, Hdr::Bad => Trav::Bad,
        Hdr::H(h) => {
            let rem = s.skip(h.hlen);
            if g(h, rem) { Trav::Stop(h, rem) }
            else if rem.len() < h.size - h.hlen { Trav::Inc }
            else if 0 < h.size <= s.len() { trav(g, s.skip(h.size)) } else { Trav::Bad } },
    }
}
/// the predicate runs on every whole box and answers as `g` of it
pub open spec fn bdecides<'a, F: Fn(&BoxHolder<'a>) -> bool>(f: F, g: spec_fn(Seq<u8>, Hd) -> bool) -> bool {
    (forall|x: &BoxHolder<'a>| x.wf() ==> #[trigger] f.requires((x,)))
    && (forall|x: &BoxHolder<'a>, b: bool, h: Hd| #![trigger f.ensures((x,), b), hd_is(x.header, h)] x.wf() && f.ensures((x,), b) && hd_is(x.header, h) ==> b == !g(x.data@, h))
}
/// the first of the boxes `s` consists of that `g` holds for
pub open spec fn trav_while(g: spec_fn(Seq<u8>, Hd) -> bool, s: Seq<u8>) -> Fnd decreases s.len() {
    if s.len() == 0 { Fnd::No }
    else { match bx(s) {
        Hdr::Inc => Fnd::Inc, Hdr::Bad => Fnd::Bad,
        Hdr::H(h) => if g(s.take(h.size), h) { Fnd::At(s.take(h.size), h, s.skip(h.size)) } else if 0 < h.size <= s.len() { trav_while(g, s.skip(h.size)) } else { Fnd::Bad },
    } }
}
// ---- full boxes: version and flags, then a body each kind parses in its own way
pub open spec fn fh_is(x: FullBoxHeader, f: FHd) -> bool { x.box_size == f.h.size && x.box_type@ == f.h.ty && x.header_size == f.hlen && x.version == f.version && x.flags == f.flags && x.wf() }
pub trait ParseBody<O>: Sized {
    /// what parsing a body has to give
    spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], O>) -> bool;
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], O>)
        requires header.wf(),
        ensures Self::body_post(body@, header, r);
}
pub open spec fn max_body() -> int { 2000int * 1024 * 1024 }
/// parsing a full box: its body, and nothing behind it, is parsed as `T` says
//@item src/bbox.rs const MAX_BODY_LEN
pub open spec fn boxed<'a, O, T: ParseBody<O>>(s: Seq<u8>, r: IResult<&'a [u8], O>) -> bool {
    match fhdr(s) {
        FHdr::Inc => is_inc(r), FHdr::Bad => is_error(r),
        FHdr::F(f) => if f.h.size - f.hlen > max_body() { is_error(r) }
            else if s.len() < f.h.size { is_inc(r) }
            else { exists|x: FullBoxHeader, r2: IResult<&'a [u8], O>| fh_is(x, f) && #[trigger] T::body_post(s.subrange(f.hlen, f.h.size), x, r2)
                && (match r2 { Ok((_, o)) => r matches Ok((rem, o2)) && o2 == o && rem@ == s.skip(f.h.size), Err(e) => r == Err::<(&'a [u8], O), _>(e) }) },
    }
}
