// ---- EBML (RFC 8794): variable-length integers and element headers
/// leading zero bits of a byte
pub open spec fn lead(b: u8) -> int { if b >= 128 { 0 } else if b >= 64 { 1 } else if b >= 32 { 2 } else if b >= 16 { 3 } else if b >= 8 { 4 } else if b >= 4 { 5 } else if b >= 2 { 6 } else if b >= 1 { 7 } else { 8 } }
/// the length marker in the first of `n` bytes
pub open spec fn mark(n: int) -> int { if n == 1 { 128 } else if n == 2 { 64 } else if n == 3 { 32 } else if n == 4 { 16 } else if n == 5 { 8 } else if n == 6 { 4 } else if n == 7 { 2 } else { 1 } }
/// a big-endian number of any width
pub open spec fn be_val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { be_val(s.drop_last()) * 256 + s.last() } }
pub ghost enum VI { Need, Bad, V(int, int) } // value, width
#[verifier::opaque]
pub open spec fn vint(s: Seq<u8>, marker: bool) -> VI {
    if s.len() == 0 { VI::Need } else {
        let n = lead(s[0]) + 1;
        if n > s.len() { VI::Need } else if n > 8 { VI::Bad }
        else { VI::V(be_val(if marker { s.take(n) } else { s.take(n).update(0, (s[0] - mark(n)) as u8) }), n) }
    }
}
pub ghost struct El { pub id: int, pub size: int, pub hlen: int }
pub ghost enum Elr { Need, Bad, E(El) }
/// an element header: the id with its marker, then the size of the data
#[verifier::opaque]
pub open spec fn el(s: Seq<u8>) -> Elr {
    match vint(s, true) { VI::Need => Elr::Need, VI::Bad => Elr::Bad, VI::V(id, n) => match vint(s.skip(n), false) {
        VI::Need => Elr::Need, VI::Bad => Elr::Bad, VI::V(size, m) => Elr::E(El { id, size, hlen: n + m }) } }
}
/// the first element, of those that follow one another from `p`, whose id `stop` accepts; and where its data starts
pub ghost enum ElF { Need, Bad, At(El, int) }
pub open spec fn el_find(stop: spec_fn(int) -> bool, s: Seq<u8>, p: int) -> ElF decreases s.len() - p {
    if p < 0 || p >= s.len() { ElF::Need } else { match el(s.skip(p)) { Elr::Need => ElF::Need, Elr::Bad => ElF::Bad, Elr::E(h) =>
        if stop(h.id) { ElF::At(h, p + h.hlen) } else if s.len() - (p + h.hlen) < h.size { ElF::Need } else if h.hlen + h.size > 0 { el_find(stop, s, p + h.hlen + h.size) } else { ElF::Bad } } }
}
pub open spec fn id_is(id: int) -> spec_fn(int) -> bool { |x: int| x == id }
/// up to the first zero byte
pub open spec fn to_zero(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 || s[0] == 0 { Seq::empty() } else { seq![s[0]] + to_zero(s.skip(1)) } }
pub ghost enum Doc { Need, Bad, T(Seq<char>, int) }
/// the document type in an EBML header at `p`, and where the header ends
pub open spec fn doc_type(s: Seq<u8>, p: int) -> Doc {
    match el(s.skip(p)) { Elr::Need => Doc::Need, Elr::Bad => Doc::Bad, Elr::E(h) =>
        if h.id != 0x1A45DFA3 { Doc::Bad } else if s.len() - (p + h.hlen) < h.size { Doc::Need } else {
            let b = s.subrange(p + h.hlen, p + h.hlen + h.size);
            match el_find(id_is(0x4282), b, 0) { ElF::At(d, a) => if b.len() - a < d.size { Doc::Bad } else { Doc::T(latin1(to_zero(b.subrange(a, a + d.size))), p + h.hlen + h.size) }, _ => Doc::Bad } } }
}
/// the value of an unsigned element
#[verifier::opaque]
pub open spec fn uint_of(s: Seq<u8>, n: int) -> Option<int> { if s.len() < n || n < 1 || n > 8 { None } else { Some(be_val(s.take(n))) } }
/// the value of a float element
#[verifier::opaque]
pub open spec fn float_of(s: Seq<u8>, n: int) -> Option<f64> { if s.len() < n { None } else if n == 4 { Some(cur_f32(s32be(s))) } else if n == 8 { Some(cur_f64(s64be(s))) } else { None } }
pub proof fn be_pos(s: Seq<u8>) ensures be_val(s) >= 0 decreases s.len() { if s.len() > 0 { be_pos(s.drop_last()); } }
pub proof fn vint_len(s: Seq<u8>, marker: bool) ensures vint(s, marker) matches VI::V(v, n) ==> 1 <= n <= 8 && n <= s.len() && v >= 0 { reveal(vint); if s.len() > 0 { let n = lead(s[0]) + 1; be_pos(if marker { s.take(n) } else { s.take(n).update(0, (s[0] - mark(n)) as u8) }); } }
pub proof fn el_len(s: Seq<u8>) ensures el(s) matches Elr::E(h) ==> 2 <= h.hlen <= 16 && h.hlen <= s.len() && h.size >= 0 { reveal(el); vint_len(s, true); match vint(s, true) { VI::V(_, n) => { vint_len(s.skip(n), false); }, _ => {} } }
/// an element that was found lies behind its header, in `s`
pub proof fn find_at(stop: spec_fn(int) -> bool, s: Seq<u8>, p: int)
    ensures el_find(stop, s, p) matches ElF::At(h, a) ==> 2 <= h.hlen && p + h.hlen <= a && a <= s.len()
    decreases s.len() - p
{ if 0 <= p < s.len() { el_len(s.skip(p)); match el(s.skip(p)) { Elr::E(h) => { if !stop(h.id) && s.len() - (p + h.hlen) >= h.size { find_at(stop, s, p + h.hlen + h.size); } }, _ => {} } } }
