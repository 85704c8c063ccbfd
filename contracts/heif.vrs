#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use core::ops::Range;
//@include nom.rs
//@include common.rs
//@include hashmap.rs
use vmap::{mview, VKey};
use nom::{number::Endianness, bytes, bytes::streaming, combinator::{cond, fail, map_res}, error::context, multi::{many_m_n, many_n, many0, many_0, PR, rep, rep0, views, agrees}, number::{self, streaming::{be_u16, be_u32, be_u64, be_u8}}, IResult, till, Needed, Parser, is_inc, is_inc_n, is_error, is_failure, s16, s32, s16be, s24be, s32be, s64be};
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_bbox.vrs
//@include inc_heif.vrs
//@include inc_tiff.vrs
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: parse
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: box_type
//@stub bbox src/bbox.rs find_box
//@stub bbox src/bbox.rs impl<O, T: ParseBody<O>> ParseBox<O> for T :: parse_box
//@item src/bbox/iloc.rs enum ConstructionMethod | derive(Clone, Copy)
//@item src/bbox/iloc.rs struct ItemLocationExtent
//@item src/bbox/iloc.rs struct ItemLocation
//@item src/bbox/iloc.rs struct IlocBox
//@item src/bbox/iloc.rs const MAX_ILOC_EXTENTS_PER_ITEM
pub open spec fn method_n(m: ConstructionMethod) -> int { match m { ConstructionMethod::FileOffset => 0, ConstructionMethod::IdatOffset => 1, ConstructionMethod::ItemOffset => 2 } }
pub open spec fn ext_v() -> spec_fn(ItemLocationExtent) -> (int, int) { |x: ItemLocationExtent| (x.offset as int, x.length as int) }
pub open spec fn loc_v() -> spec_fn(ItemLocation) -> Loc { |x: ItemLocation| Loc { id: x.id as int, method: method_n(x.construction_method), base: x.base_offset as int, extents: views(x.extents@, ext_v()) } }

//@fn src/bbox/iloc.rs impl From<u8> for ConstructionMethod :: from
//@wrap impl ConstructionMethod
//@spec
    ensures method_n(res) == (if value == 1 { 1int } else if value == 2 { 2 } else { 0 })
//@end
//@fn src/bbox/iloc.rs parse_base_offset
//@closure 0
|x: u32| -> (o: Result<u64, ()>) ensures o == Ok::<u64, ()>(x as u64)
//@spec
    ensures agrees(wnum(size as int, remain@), res, |x: u64| x as int)
//@end

pub open spec fn szs(o: u8, l: u8, b: u8, i: u8) -> Sizes { Sizes { offset: o as int, length: l as int, base: b as int, index: i as int } }
proof fn collected(m: Seq<(u32, ItemLocation)>, v: Seq<ItemLocation>)
    requires m.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] m[i] == (v[i].id, v[i])
    ensures forall|id: u32| match loc_with(views(v, loc_v()), id as int) { None => !(#[trigger] mview(m).contains_key(id)), Some(x) => mview(m).contains_key(id) && loc_v()(mview(m)[id]) == x }
    decreases v.len()
{
    if v.len() > 0 {
        collected(m.drop_last(), v.drop_last());
        assert(views(v, loc_v()).drop_last() =~= views(v.drop_last(), loc_v()));
        assert(views(v, loc_v()).last() == loc_v()(v.last()));
        assert(m.last() == (v.last().id, v.last()));
        assert forall|id: u32| match loc_with(views(v, loc_v()), id as int) { None => !(#[trigger] mview(m).contains_key(id)), Some(x) => mview(m).contains_key(id) && loc_v()(mview(m)[id]) == x } by {
            let b = mview(m.drop_last()).contains_key(id);
            assert(views(v, loc_v()).len() == v.len());
            assert(m.last().0.kv() == v.last().id);
        }
    } else { assert(mview(m) =~= Map::empty()); }
}
//@fn src/bbox/iloc.rs impl ParseBody<IlocBox> for IlocBox :: parse_body
//@wrap none
//@rename iloc_parse_body
//@sig fn iloc_parse_body<'a>(remain: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], IlocBox>)
//@presubst `many_m_n(item_count as usize, item_count as usize, |remain|` => `many_n::<_, ItemLocation, Loc>(item_count as usize, item_count as usize, Ghost(loc_f(version as int, szs(offset_size, length_size, base_offset_size, index_size))), Ghost(loc_v()), |remain|`
//@presubst `many_m_n(extent_count as usize, extent_count as usize, |remain|` => `many_n::<_, ItemLocationExtent, (int, int)>(extent_count as usize, extent_count as usize, Ghost(ext_f(szs(offset_size, length_size, base_offset_size, index_size))), Ghost(ext_v()), |remain|`
//@presubst `let (remain, item_id) = if` => `proof { reveal(loc); reveal(num); } let (remain, item_id) = if`
//@presubst `let (remain, item_count) = if` => `proof { reveal(num); assert(remain@ =~= h0.skip(2)); assert(iloc_sizes(h0) == szs(offset_size, length_size, base_offset_size, index_size)); } let (remain, item_count) = if`
//@presubst `let (remain, index) =` => `proof { reveal(extent); } let (remain, index) =`
//@at start
hide(loc); hide(extent); hide(rep); hide(loc_with); hide(num); hide(wnum); let ghost h0 = remain@; 
assert(forall|x: u8| #![trigger x >> 4i32] x >> 4i32 == x / 16) by (bit_vector);
assert(forall|x: u8| #![trigger x & 0xF] x & 0xF == x % 16) by (bit_vector);
assert(forall|x: u16| #![trigger x & 0xF] x & 0xF == x % 16) by (bit_vector);
//@presubst `fail::<_, (), _>()` => `fail::<()>()`
//@presubst `Ok((remain, IlocBox {` => `let ghost iv = items@; let m = HashMap::collect(items, |x| (x.id, x)); proof { collected(m.v@, iv); } Ok((remain, IlocBox {`
//@presubst `items: items.into_iter().map(|x| (x.id, x)).collect(),` => `items: m,`
//@closure 0
|res: u8| -> (o: Result<(u8, u8), ()>) ensures o == Ok::<(u8, u8), ()>((res / 16, res % 16))
//@closure 1
|res: u8| -> (o: Result<(u8, u8), ()>) ensures o == Ok::<(u8, u8), ()>((res / 16, res % 16))
//@closure 2
|x: u16| -> (o: Result<u32, ()>) ensures o == Ok::<u32, ()>(x as u32)
//@closure 3
|remain: &'a [u8]| -> (o: IResult<&'a [u8], ItemLocation>) ensures agrees(loc(version as int, szs(offset_size, length_size, base_offset_size, index_size), remain@), o, loc_v())
//@closure 4
|x: u16| -> (o: Result<u32, ()>) ensures o == Ok::<u32, ()>(x as u32)
//@closure 5
|res: u16| -> (o: Result<u8, ()>) ensures o == Ok::<u8, ()>((res % 16) as u8)
//@closure 6
|remain: &'a [u8]| -> (o: IResult<&'a [u8], ItemLocationExtent>) ensures agrees(extent(szs(offset_size, length_size, base_offset_size, index_size), remain@), o, ext_v())
//@closure 7
|x: ItemLocation| -> (o: (u32, ItemLocation)) ensures o == (x.id, x)
//@spec
    requires header.wf()
    ensures iloc_post(remain@, header, res)
//@end
pub open spec fn locs_are(m: HashMap<u32, ItemLocation>, l: Seq<Loc>) -> bool {
    forall|id: u32| match loc_with(l, id as int) { None => !(#[trigger] m@.contains_key(id)), Some(x) => m@.contains_key(id) && loc_v()(m@[id]) == x }
}
pub open spec fn iloc_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], IlocBox>) -> bool {
    match iloc_of(header.version as int, body) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, x)) && m@ == rest && locs_are(x.items, l) }
}
//@fn src/bbox/iloc.rs impl IlocBox :: item_offset_len
//@closure 0
|item: &ItemLocation| -> (o: Option<(ConstructionMethod, u64, u64)>) ensures match o { None => item.extents@.len() == 0 || item.base_offset + item.extents@[0].offset > u64::MAX, Some((m, a, n)) => item.extents@.len() > 0 && m == item.construction_method && a == item.base_offset + item.extents@[0].offset && n == item.extents@[0].length }
//@spec
    ensures forall|l: Seq<Loc>| #[trigger] locs_are(self.items, l) ==> match loc_range(l, id as int) { None => res is None, Some((m, a, n)) => res matches Some((rm, ra, rn)) && method_n(rm) == m && ra == a && rn == n }
//@end

/// std's String::from_utf8
pub struct FromUtf8Error;
#[verifier::external_body]
pub fn v_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures utf8_ok(v@) ==> (r matches Ok(s) && s@ == utf8_dec(v@)), !utf8_ok(v@) ==> r is Err
{ String::from_utf8(v).map_err(|_| FromUtf8Error) }
proof fn zero_at_is(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != 0, k < s.len() ==> s[k] == 0
    ensures zero_at(s) == k
    decreases k
{ if k > 0 { zero_at_is(s.skip(1), k - 1); } }
//@fn src/utils.rs parse_cstr
//@subst `String::from_utf8` => `v_from_utf8`
//@subst `nom :: bytes` => `bytes`
//@presubst `let (remain, s) = map_res(nom::bytes::streaming::take_till(|b| b == 0),` => `let tp = |b| b == 0; let r0 = map_res(nom::bytes::streaming::take_till(tp),`
//@presubst `.parse(input)?;` => `.parse(input); let (remain, s) = r0?;`
//@presubst `Ok("".to_owned())` => `proof { assert(bs@ =~= Seq::<u8>::empty()); } Ok(String::new())`
//@at before `let (remain, s) = r0`
    proof { assert forall|k: int| #[trigger] till(tp, input@, k) implies zero_at(input@) == k by { assert forall|j: int| 0 <= j < k implies input@[j] != 0 by { assert(call_ensures(tp, (input@[j],), false)); } zero_at_is(input@, k); } utf8_empty(); assert(input@.take(0) =~= Seq::<u8>::empty()); }
//@closure 0
|b: u8| -> (o: bool) ensures o == (b == 0)
//@closure 1
|bs: &'a [u8]| -> (o: Result<String, FromUtf8Error>) ensures match o { Ok(s) => utf8_ok(bs@) && s@ == utf8_dec(bs@), Err(_) => !utf8_ok(bs@) }
//@at start
    proof { utf8_empty(); }
//@sig fn parse_cstr<'a>(input: &'a [u8]) -> (res: IResult<&'a [u8], String>)
//@spec
    ensures agrees(cstr(input@), res, |x: String| x@)
//@end

// ---- item information
//@item src/bbox/iinf.rs struct InfeBox
//@item src/bbox/iinf.rs struct IinfBox
pub open spec fn infe_v() -> spec_fn(InfeBox) -> (int, Seq<char>) { |x: InfeBox| (x.id as int, key_of(x)) }
pub open spec fn key_of(x: InfeBox) -> Seq<char> { match x.item_type { Some(t) => t@, None => x.item_name@ } }
pub fn v_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }
//@fn src/bbox/iinf.rs impl ParseBody<InfeBox> for InfeBox :: parse_body
//@wrap none
//@sig fn infe_parse_body<'a>(remain: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], InfeBox>)
//@subst `String::from_utf8` => `v_from_utf8`
//@presubst `item_type.as_ref().unwrap() == "mime"` => `v_is(item_type.as_ref().unwrap(), "mime")`
//@presubst `item_type.as_ref().unwrap() == "uri"` => `v_is(item_type.as_ref().unwrap(), "uri")`
//@presubst `fail::<_, (), _>()` => `fail::<()>()`
//@closure 0
|x: u16| -> (o: Result<u32, ()>) ensures o == Ok::<u32, ()>(x as u32)
//@closure 1
|res: &'a [u8]| -> (o: Result<String, FromUtf8Error>) ensures match o { Ok(s) => utf8_ok(res@) && s@ == utf8_dec(res@), Err(_) => !utf8_ok(res@) }
//@closure 2
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: nom::Err<nom::error::Error<&'a [u8]>>) ensures e is Incomplete ==> o is Error, !(e is Incomplete) ==> o == e
//@spec
    requires header.wf()
    ensures infe_post(remain@, header, res)
//@end
pub open spec fn infe_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], InfeBox>) -> bool { agrees(infe(header.version as int, body), r, infe_v()) }
//@fn src/bbox/iinf.rs impl InfeBox :: key
//@spec
    ensures res@ == key_of(*self)
//@end

/// the trait's method, with the contract `infe_parse_body` is verified against above
impl ParseBody<InfeBox> for InfeBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], InfeBox>) -> bool { infe_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], InfeBox>) { unimplemented!() }
}
pub open spec fn items_are(m: Map<Seq<char>, InfeBox>, l: Seq<(int, Seq<char>)>) -> bool {
    forall|ty: Seq<char>| match item_of(l, ty) { None => !(#[trigger] m.contains_key(ty)), Some(id) => m.contains_key(ty) && m[ty].id == id }
}
proof fn collected_infe(m: Seq<(String, InfeBox)>, v: Seq<InfeBox>)
    requires m.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] m[i]).0@ == key_of(v[i]) && m[i].1 == v[i]
    ensures items_are(mview(m), views(v, infe_v()))
    decreases v.len()
{
    if v.len() > 0 {
        collected_infe(m.drop_last(), v.drop_last());
        assert(views(v, infe_v()).drop_last() =~= views(v.drop_last(), infe_v()));
        assert(views(v, infe_v()).last() == infe_v()(v.last()));
        assert(m.last().0@ == key_of(v.last()) && m.last().1 == v.last());
        assert forall|ty: Seq<char>| match item_of(views(v, infe_v()), ty) { None => !(#[trigger] mview(m).contains_key(ty)), Some(id) => mview(m).contains_key(ty) && mview(m)[ty].id == id } by {
            let b = mview(m.drop_last()).contains_key(ty);
            assert(views(v, infe_v()).len() == v.len());
            assert(m.last().0.kv() == m.last().0@);
        }
    } else { assert(mview(m) =~= Map::empty()); }
}
pub open spec fn iinf_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], IinfBox>) -> bool {
    match iinf_of(header.version as int, body) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, x)) && m@ == rest && items_are(x.entries@, l) }
}
//@fn src/bbox/iinf.rs impl ParseBody<IinfBox> for IinfBox :: parse_body
//@wrap none
//@sig fn iinf_parse_body<'a>(remain: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], IinfBox>)
//@presubst `many_m_n(item_count as usize, item_count as usize, InfeBox::parse_box)` => `many_n::<_, InfeBox, (int, Seq<char>)>(item_count as usize, item_count as usize, Ghost(infe_f()), Ghost(infe_v()), parse_box::<InfeBox, InfeBox>)`
//@presubst `let entries = entries.into_iter().map(|e| (e.key().to_owned(), e)).collect::<HashMap<_, _>>();` => `let ghost iv = entries@; let entries = HashMap::collect(entries, |e| (e.key().clone(), e)); proof { collected_infe(entries.v@, iv); }`
//@closure 0
|x: u16| -> (o: Result<u32, ()>) ensures o == Ok::<u32, ()>(x as u32)
//@closure 1
|e: InfeBox| -> (o: (String, InfeBox)) ensures o.0@ == key_of(e) && o.1 == e
//@at start
    proof { infe_boxed(); }
//@spec
    requires header.wf()
    ensures iinf_post(remain@, header, res)
//@end
proof fn infe_boxed()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], InfeBox>| #[trigger] boxed::<InfeBox, InfeBox>(s, r) ==> agrees(infe_f()(s), r, infe_v())
{ }
impl ParseBody<IinfBox> for IinfBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], IinfBox>) -> bool { iinf_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], IinfBox>) { unimplemented!() }
}
//@fn src/bbox/iinf.rs impl IinfBox :: get_infe
//@spec
    ensures match res { None => !self.entries@.contains_key(item_type@), Some(x) => self.entries@.contains_key(item_type@) && self.entries@[item_type@] == *x }
//@end
impl ParseBody<IlocBox> for IlocBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], IlocBox>) -> bool { iloc_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], IlocBox>) { unimplemented!() }
}

// ---- the meta box
pub trait OptResX<T, E> { fn v_transpose(self) -> (r: Result<Option<T>, E>) ensures r == tr_(self.ors()); spec fn ors(self) -> Option<Result<T, E>>; }
pub open spec fn tr_<T, E>(s: Option<Result<T, E>>) -> Result<Option<T>, E> { match s { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
impl<T, E> OptResX<T, E> for Option<Result<T, E>> {
    open spec fn ors(self) -> Option<Result<T, E>> { self }
    fn v_transpose(self) -> (r: Result<Option<T>, E>) { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
//@item src/bbox/meta.rs struct MetaBox
pub open spec fn meta_is(x: MetaBox, m: Meta) -> bool {
    (match m.items { None => x.iinf is None, Some(l) => x.iinf matches Some(y) && items_are(y.entries@, l) })
    && (match m.locs { None => x.iloc is None, Some(l) => x.iloc matches Some(y) && locs_are(y.items, l) })
}
pub open spec fn meta_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], MetaBox>) -> bool {
    match meta_of(body) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, x)) && meta_is(x, l) }
}
pub open spec fn bh_v<'a>() -> spec_fn(BoxHolder<'a>) -> (Seq<u8>, Hd) { |x: BoxHolder<'a>| (x.data@, Hd { size: x.header.box_size as int, ty: x.header.box_type@, hlen: x.header.header_size as int }) }
proof fn collected_bx(m: Seq<(String, BoxHolder<'_>)>, v: Seq<BoxHolder<'_>>)
    requires m.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] m[i]).0@ == v[i].header.box_type@ && m[i].1 == v[i]
    ensures forall|ty: Seq<char>| match last_of(views(v, bh_v()), ty) { None => !(#[trigger] mview(m).contains_key(ty)), Some(b) => mview(m).contains_key(ty) && mview(m)[ty].data@ == b }
    decreases v.len()
{
    if v.len() > 0 {
        collected_bx(m.drop_last(), v.drop_last());
        assert(views(v, bh_v()).drop_last() =~= views(v.drop_last(), bh_v()));
        assert(views(v, bh_v()).last() == bh_v()(v.last()));
        assert(m.last().0@ == v.last().header.box_type@ && m.last().1 == v.last());
        assert forall|ty: Seq<char>| match last_of(views(v, bh_v()), ty) { None => !(#[trigger] mview(m).contains_key(ty)), Some(b) => mview(m).contains_key(ty) && mview(m)[ty].data@ == b } by {
            let b = mview(m.drop_last()).contains_key(ty);
            assert(views(v, bh_v()).len() == v.len());
            assert(m.last().0.kv() == m.last().0@);
        }
    } else { assert(mview(m) =~= Map::empty()); }
}
proof fn boxed_iinf()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], IinfBox>| #[trigger] boxed::<IinfBox, IinfBox>(s, r) ==> match boxed_as(iinf_f(), s) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, x)) && items_are(x.entries@, l) }
{ }
proof fn boxed_iloc()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], IlocBox>| #[trigger] boxed::<IlocBox, IlocBox>(s, r) ==> match boxed_as(iloc_f(), s) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, x)) && locs_are(x.items, l) }
{ }
//@fn src/bbox/meta.rs impl ParseBody<MetaBox> for MetaBox :: parse_body
//@wrap none
//@sig fn meta_parse_body<'a>(remain: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], MetaBox>)
//@presubst `many0(` => `many_0::<_, BoxHolder<'a>, (Seq<u8>, Hd)>(Ghost(bx_f()), Ghost(bh_v()), `
//@presubst `fail::<_, (), _>()` => `fail::<()>()`
//@presubst `let boxes = boxes.into_iter().map(|b| (b.header.box_type.to_owned(), b)).collect::<HashMap<_, _>>();` => `let ghost iv = boxes@; let boxes = HashMap::collect(boxes, |b| (b.header.box_type.clone(), b)); proof { collected_bx(boxes.v@, iv); }`
//@presubst `.transpose()` => `.v_transpose()`
//@subst `IinfBox :: parse_box` => `parse_box::<_, IinfBox>`
//@subst `IlocBox :: parse_box` => `parse_box::<_, IlocBox>`
//@closure 0
|remain: &'a [u8]| -> (o: IResult<&'a [u8], BoxHolder<'a>>) ensures agrees(bx_pr(remain@), o, bh_v()), o matches Ok((m, _)) ==> m@.len() < remain@.len()
//@closure 1
|b: BoxHolder<'a>| -> (o: (String, BoxHolder<'a>)) ensures o.0@ == b.header.box_type@ && o.1 == b
//@closure 2
|iinf: &BoxHolder<'a>| -> (o: IResult<&'a [u8], IinfBox>) ensures boxed::<IinfBox, IinfBox>(iinf.data@, o)
//@closure 3
|x: (&'a [u8], IinfBox)| -> (o: IinfBox) ensures o == x.1
//@closure 4
|iloc: &BoxHolder<'a>| -> (o: IResult<&'a [u8], IlocBox>) ensures boxed::<IlocBox, IlocBox>(iloc.data@, o)
//@closure 5
|x: (&'a [u8], IlocBox)| -> (o: IlocBox) ensures o == x.1
//@at start
    proof { boxed_iinf(); boxed_iloc(); }
//@spec
    requires header.wf()
    ensures meta_post(remain@, header, res)
//@end
impl ParseBody<MetaBox> for MetaBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], MetaBox>) -> bool { meta_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], MetaBox>) { unimplemented!() }
}

//@fn src/bbox/meta.rs impl MetaBox :: exif_data_offset
//@closure 0
|iinf: &'s IinfBox| -> (o: Option<&'s InfeBox>) ensures match o { None => !iinf.entries@.contains_key("Exif"@), Some(x) => iinf.entries@.contains_key("Exif"@) && iinf.entries@["Exif"@] == *x }
//@closure 1
|exif_infe: &'s InfeBox| -> (o: Option<(ConstructionMethod, u64, u64)>) ensures loc_ans(self.iloc, exif_infe.id as int, o)
//@closure 2
|iloc: &'s IlocBox| -> (o: Option<(ConstructionMethod, u64, u64)>) ensures loc_ans(Some(*iloc), exif_infe.id as int, o)
//@closure 3
|t: (ConstructionMethod, u64, u64)| -> (o: Option<Range<usize>>) ensures match o { None => t.1 + t.2 > u64::MAX || method_n(t.0) != 0, Some(r) => t.1 + t.2 <= u64::MAX && method_n(t.0) == 0 && r.start == t.1 && r.end == t.1 + t.2 }
//@presubst `|(construction_method, offset, length)| {` => `|t| { let (construction_method, offset, length) = t;`
//@sig fn exif_data_offset<'s>(&'s self) -> (res: Option<Range<usize>>)
//@spec
    ensures forall|m: Meta| #[trigger] meta_is(*self, m) ==> match exif_range(m) { None => res is None, Some((a, b)) => a <= b && (res matches Some(r) && r.start == a && r.end == b) }
//@end
pub open spec fn loc_ans(b: Option<IlocBox>, id: int, o: Option<(ConstructionMethod, u64, u64)>) -> bool {
    match b { None => o is None, Some(x) => forall|l: Seq<Loc>| #[trigger] locs_are(x.items, l) ==> match loc_range(l, id) { None => o is None, Some((m, a, n)) => o matches Some((rm, ra, rn)) && method_n(rm) == m && ra == a && rn == n } }
}

// ---- heif.rs
//@item src/exif/exif_exif.rs const EXIF_IDENT | bytes
//@include inc_perr.vrs
//@fn src/error.rs nom_error_to_parsing_error_with_state
//@presubst `e.code.description().to_string()` => `vmsg()`
//@subst `n.get()` => `n`
//@spec
    ensures e is Incomplete ==> res.err is Need, !(e is Incomplete) ==> res.err is Failed, res.state == state
//@end
//@fn src/error.rs impl ParsingErrorState :: new
//@spec
    ensures res.err == err, res.state == state
//@end
//@fn src/exif/exif_exif.rs check_exif_header2
//@spec
    ensures match item_tiff(i@) { None => res is Err, Some(d) => res matches Ok((m, _)) && m@ == d }
//@end
proof fn boxed_meta()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], MetaBox>| #[trigger] boxed::<MetaBox, MetaBox>(s, r) ==> match boxed_as(meta_f(), s) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(m, rest) => r matches Ok((_, x)) && meta_is(x, m) }
{ }
//@fn src/heif.rs parse_meta_box
//@presubst `bbox.box_type() != "ftyp"` => `!v_is(&bbox.header.box_type, "ftyp")`
//@subst `MetaBox :: parse_box` => `parse_box::<_, MetaBox>`
//@at start
    proof { boxed_meta(); }
//@spec
    ensures match file_meta(input@) { PR::Inc => is_inc(res), PR::Bad => is_error(res), PR::Ok(None, _) => res matches Ok((_, None)), PR::Ok(Some(m), _) => res matches Ok((_, Some(x))) && meta_is(x, m) }
//@end
pub fn v_range_len(r: &Range<usize>) -> (n: usize) ensures r.start <= r.end ==> n == r.end - r.start { if r.start < r.end { r.end - r.start } else { 0 } }
pub open spec fn heif_extract<'a>(state: Option<ParsingState>, buf: Seq<u8>, r: Result<(Option<&'a [u8]>, Option<ParsingState>), ParsingErrorState>) -> bool {
    match state {
        Some(ParsingState::HeifExifSize(n)) => if buf.len() < n { p_need(r, state) } else { r matches Ok((d, s)) && s == state && data_is(d, item_tiff(buf.take(n as int))) },
        None => match file_meta(buf) {
            PR::Inc => p_need(r, None), PR::Bad => p_fail(r),
            PR::Ok(None, _) => r matches Ok((None, None)),
            PR::Ok(Some(m), _) => match exif_range(m) {
                None => p_fail(r),
                Some((a, b)) => if b > buf.len() { p_skip(r, a, Some(ParsingState::HeifExifSize((b - a) as usize))) } else { r matches Ok((d, s)) && s is None && data_is(d, item_tiff(buf.subrange(a, b))) },
            },
        },
        _ => p_fail(r),
    }
}
//@fn src/heif.rs extract_exif_data
//@sig fn heif_extract_exif_data<'a>(state: Option<ParsingState>, buf: &'a [u8]) -> (res: Result<(Option<&'a [u8]>, Option<ParsingState>), ParsingErrorState>)
//@subst `nom :: bytes` => `bytes`
//@presubst `range.len()` => `v_range_len(&range)`
//@closure 0
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: ParsingErrorState) ensures e is Incomplete ==> o.err is Need, !(e is Incomplete) ==> o.err is Failed, o.state == state
//@closure 1
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: ParsingErrorState) ensures e is Incomplete ==> o.err is Need, !(e is Incomplete) ==> o.err is Failed, o.state == state
//@closure 2
|x: &'a [u8]| -> (o: Option<&'a [u8]>) ensures data_is(o, item_tiff(x@))
//@closure 3
|x: (&'a [u8], ())| -> (o: &'a [u8]) ensures o == x.0
//@spec
    ensures heif_extract(state, buf@, res)
//@end
} // verus!
fn main() {}
