#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
use nom::{bytes::streaming, combinator::{fail, map_res}, error::context, number, IResult, Needed, Parser, is_inc, is_inc_n, is_error, is_failure, s16be, s24be, s32be, s64be};
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_bbox.vrs
//@stub ifd src/error.rs nom_err_to_malformed
/// std: the bytes as characters
#[verifier::external_body]
pub fn v_latin1(v: &[u8]) -> (r: String) ensures r@ == latin1(v@)
{ v.iter().map(|b| *b as char).collect::<String>() }

//@fn src/bbox.rs impl BoxHeader :: parse
//@presubst `res.iter().map(|b| b.as_char()).collect::<String>()` => `v_latin1(res)`
//@closure 0
|res: &'a [u8]| -> (o: Result<String, ()>) ensures o is Ok, o->Ok_0@ == latin1(res@)
//@spec
    ensures match hdr(input@) {
        Hdr::Inc => is_inc(res), Hdr::Bad => is_error(res),
        Hdr::H(h) => res matches Ok((rem, x)) && hd_is(x, h) && rem@ == input@.skip(h.hlen) && x.wf(),
    }
//@end
//@fn src/bbox.rs impl BoxHeader :: body_size
//@spec
    requires self.wf()
    ensures res == self.box_size - self.header_size
//@end
//@fn src/bbox.rs impl FullBoxHeader :: parse
//@spec
    ensures match fhdr(input@) {
        FHdr::Inc => is_inc(res), FHdr::Bad => is_error(res),
        FHdr::F(f) => res matches Ok((rem, x)) && x.box_size == f.h.size && x.box_type@ == f.h.ty && x.header_size == f.hlen && x.version == f.version && x.flags == f.flags && rem@ == input@.skip(f.hlen) && x.wf(),
    }
//@end
//@fn src/bbox.rs impl FullBoxHeader :: body_size
//@spec
    requires self.wf()
    ensures res == self.box_size - self.header_size
//@end
//@fn src/bbox.rs impl<'a> BoxHolder<'a> :: parse
//@spec
    ensures match bx(input@) {
        Hdr::Inc => is_inc(res), Hdr::Bad => is_error(res),
        Hdr::H(h) => res matches Ok((rem, x)) && holds(x, input@.take(h.size), h) && rem@ == input@.skip(h.size) && x.wf() && rem@.len() < input@.len(),
    }
//@end
//@fn src/bbox.rs impl<'a> BoxHolder<'a> :: box_type
//@spec
    ensures res@ == self.header.box_type@
//@end
//@fn src/bbox.rs impl<'a> BoxHolder<'a> :: header_size
//@spec
    ensures res == self.header.header_size
//@end
//@fn src/bbox.rs impl<'a> BoxHolder<'a> :: body_data
//@spec
    requires self.wf()
    ensures res@ == self.data@.skip(self.header.header_size as int)
//@end
//@fn src/bbox.rs find_box_by_type
//@loop 0
    invariant find_ty(remain@, box_type@) == find_ty(input@, box_type@)
    decreases remain@.len()
//@spec
    ensures found(res, find_ty(input@, box_type@)), res matches Ok((_, Some(x))) ==> x.wf()
//@end

/// std: split at '/', without empty components
#[verifier::external_body]
pub fn v_path_parts<'p>(p: &'p str) -> (r: Vec<&'p str>) ensures r@.len() == path_parts(p@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == path_parts(p@)[i] && r@[i]@.len() > 0
{ p.split('/').filter(|x| !x.is_empty()).collect() }

//@fn src/bbox.rs to_boxes
//@presubst `let mut res = Vec::new();` => `let mut res: Vec<BoxHolder<'_>> = Vec::new(); let ghost mut d: Seq<(Seq<u8>, Hd)> = Seq::empty();`
//@at loop 0 start
        let ghost r0 = remain@;
//@at before `break`
        assert(remain@.len() == 0 || remain@ =~= four_zeros());
//@at before `remain = rem;`
        proof { match bx(r0) { Hdr::H(h) => {
            let e = (r0.take(h.size), h);
            let d0 = d; d = d.push(e);
            if box_list(r0.skip(h.size)) is Some { let l = box_list(r0.skip(h.size))->0; assert(d0 + (seq![e] + l) =~= d + l); }
        }, _ => {} } }
//@closure 0
|e: nom::Err<nom::error::Error<&[u8]>>| -> (o: Error)
//@loop 0
    invariant forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i].wf(),
        all_hold(res@, d), box_list(input@) == (match box_list(remain@) { Some(l) => Some(d + l), None => None }),
    ensures all_hold(res@, d), box_list(input@) == Some(d + Seq::<(Seq<u8>, Hd)>::empty()),
    decreases remain@.len()
//@spec
    ensures match box_list(input@) { None => res is Err, Some(l) => res matches Ok(v) && all_hold(v@, l) }
//@end

//@fn src/bbox.rs travel_while
//@subst `mut predicate: F` => `Ghost(g): Ghost<spec_fn(Seq<u8>, Hd) -> bool>, predicate: F`
//@subst `F: FnMut` => `F: Fn`
//@loop 0
    invariant trav_while(g, remain@) == trav_while(g, input@), bdecides(predicate, g)
    decreases remain@.len()
//@spec
    requires bdecides(predicate, g)
    ensures found(res, trav_while(g, input@)), res matches Ok((_, Some(x))) ==> x.wf()
//@end
//@fn src/bbox.rs travel_header
//@subst `mut predicate: F` => `Ghost(g): Ghost<spec_fn(Hd, Seq<u8>) -> bool>, predicate: F`
//@subst `F: FnMut` => `F: Fn`
//@presubst `break Ok((rem, header));` => `return Ok((rem, header));`
//@at loop 0 start
        let ghost r0 = remain@;
//@at before `remain = & remain[`
        assert(r0.skip(header.header_size as int).skip(header.box_size - header.header_size) =~= r0.skip(header.box_size as int));
//@loop 0
    invariant trav(g, remain@) == trav(g, input@), hdecides(predicate, g)
    decreases remain@.len()
//@spec
    requires hdecides(predicate, g)
    ensures match trav(g, input@) { Trav::Inc => is_inc(res), Trav::Bad => is_error(res), Trav::Stop(h, rem) => res matches Ok((r, x)) && hd_is(x, h) && r@ == rem && x.wf() }
//@end
//@fn src/bbox.rs find_box
//@presubst `for box_type in path.split('/').filter(|x| !x.is_empty()) {` => `let parts = v_path_parts(path); let mut vk: usize = 0; while vk < parts.len() { let box_type = parts[vk]; vk += 1;`
//@presubst `(remain, bbox) = (rem, Some(b));` => `remain = rem; bbox = Some(b);`
//@at before loop 0
    assert(path_parts(path@).skip(0) =~= path_parts(path@));
//@at loop 0 start
        let ghost pp = path_parts(path@); let ghost d0 = data@; let ghost k0 = vk as int;
        assert(pp.skip(k0)[0] == pp[k0]); assert(pp.skip(k0).skip(1) =~= pp.skip(k0 + 1));
//@loop 0
    invariant vk <= parts@.len(), parts@.len() == path_parts(path@).len(), forall|i: int| 0 <= i < parts@.len() ==> (#[trigger] parts@[i])@ == path_parts(path@)[i] && parts@[i]@.len() > 0,
        vk == parts@.len() && vk > 0 ==> (find_path(input@, path_parts(path@)) matches Fnd::At(b, h, _) && bbox matches Some(x) && holds(x, b, h) && x.wf()),
        vk == 0 ==> bbox is None,
        vk < parts@.len() ==> find_path(input@, path_parts(path@)) == find_path(data@, path_parts(path@).skip(vk as int)),
    decreases parts@.len() - vk
//@spec
    ensures found(res, find_path(input@, path_parts(path@))), res matches Ok((_, Some(x))) ==> x.wf()
//@end

/// the blanket implementation's only method, as a generic function: a blanket
/// impl over a trait parameter confuses the verifier's trait resolution elsewhere
//@fn src/bbox.rs impl<O, T: ParseBody<O>> ParseBox<O> for T :: parse_box
//@wrap none
//@sig fn parse_box<O, T: ParseBody<O>>(input: &[u8]) -> (res: IResult<&[u8], O>)
//@subst `Self :: parse_body` => `T :: parse_body`
//@spec
    ensures boxed::<O, T>(input@, res)
//@end
} // verus!
fn main() {}
