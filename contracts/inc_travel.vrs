//@item src/exif/travel.rs struct IfdHeaderTravel
//@item src/exif/travel.rs struct EntryInfo

// ---------------------------------------------------------------- which parts of a TIFF have to be loaded
pub ghost enum TE { Need, Skip, Sub(int, u16) }
/// one entry, at `p`
#[verifier::opaque]
pub open spec fn te(d: Seq<u8>, e: Endianness, gps: bool, p: int) -> TE {
    if p + 12 > d.len() { TE::Need } else {
        let tag = s16(e, d.skip(p)) as u16; let fmt = s16(e, d.skip(p + 2)) as u16; let n = s32(e, d.skip(p + 4)) as u32; let vo = s32(e, d.skip(p + 8));
        if tag == 0 && !gps { TE::Skip } else { match fmt_of(fmt) { None => TE::Skip, Some(f) => {
            if n * comp_size(f) > 4 && vo + n * comp_size(f) > d.len() { TE::Need }
            else if (tag == 0x8769 || tag == 0x8825) && vo > 0 { if vo + 2 > d.len() { TE::Need } else { TE::Sub(vo, tag) } }
            else { TE::Skip } } } }
    }
}
/// the sub-directories of the first `k` entries; `None` when data is missing
pub open spec fn tsubs(d: Seq<u8>, e: Endianness, gps: bool, o: int, k: int) -> Option<Seq<(int, u16)>> decreases k {
    if k <= 0 { Some(Seq::empty()) } else { match tsubs(d, e, gps, o, k - 1) { None => None, Some(s) => match te(d, e, gps, o + 2 + 12 * (k - 1)) { TE::Need => None, TE::Skip => Some(s), TE::Sub(a, t) => Some(s.push((a, t))) } } }
}
pub open spec fn dsubs(d: Seq<u8>, e: Endianness, gps: bool, o: int) -> Option<Seq<(int, u16)>> { if dir_ok(d, e, o) { tsubs(d, e, gps, o, s16(e, d.skip(o))) } else { None } }
pub ghost enum TR { Ok(Set<(usize, bool)>), Need, Fail }
pub open spec fn tkey(s: (int, u16)) -> (usize, bool) { (s.0 as usize, s.1 == 0x8825) }
/// visiting a directory and, depth first, what it refers to
pub open spec fn trav(d: Seq<u8>, e: Endianness, gps: bool, o: int, depth: nat, vis: Set<(usize, bool)>) -> TR decreases 3 - depth, 1int, 0int {
    if depth >= 3 { TR::Fail } else { match dsubs(d, e, gps, o) { None => TR::Need, Some(s) => tfold(d, e, s, 0, depth, vis) } }
}
pub open spec fn tfold(d: Seq<u8>, e: Endianness, s: Seq<(int, u16)>, i: int, depth: nat, vis: Set<(usize, bool)>) -> TR decreases 3 - depth, 0int, s.len() - i {
    if i < 0 || i >= s.len() || depth >= 3 { TR::Ok(vis) }
    else if vis.contains(tkey(s[i])) { tfold(d, e, s, i + 1, depth, vis) }
    else { match trav(d, e, s[i].1 == 0x8825, s[i].0, depth + 1, vis.insert(tkey(s[i]))) { TR::Ok(v) => tfold(d, e, s, i + 1, depth, v), r => r } }
}
impl<'a> IfdHeaderTravel<'a> {
    pub open spec fn gps(&self) -> bool { tc_code(self.tag) == 0x8825 }
    pub open spec fn wf(&self) -> bool { tc_ok(self.tag) && self.offset <= 0xffff_ffff && self.endian !is Native }
    pub open spec fn visit(&self, depth: nat, vis: Set<(usize, bool)>) -> TR { trav(self.data@, self.endian, self.gps(), self.offset as int, depth, vis) }
}
pub open spec fn sub_is<'a>(x: IfdHeaderTravel<'a>, s: (int, u16), y: IfdHeaderTravel<'a>) -> bool { y.data@ == x.data@ && y.endian == x.endian && y.offset == s.0 && tc_ok(y.tag) && tc_code(y.tag) == s.1 && 0 <= s.0 <= 0xffff_ffff }
pub open spec fn prefix(v: Seq<u8>, w: Seq<u8>) -> bool { v.len() <= w.len() && v == w.take(v.len() as int) }

pub proof fn num_ext(e: Endianness, v: Seq<u8>, w: Seq<u8>, p: int)
    requires prefix(v, w), 0 <= p,
    ensures p + 2 <= v.len() ==> s16(e, v.skip(p)) == s16(e, w.skip(p)), p + 4 <= v.len() ==> s32(e, v.skip(p)) == s32(e, w.skip(p)),
{
    assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by { assert(v[i] == w.take(v.len() as int)[i]); }
    if p + 4 <= v.len() { assert(v.skip(p)[0] == w.skip(p)[0] && v.skip(p)[1] == w.skip(p)[1] && v.skip(p)[2] == w.skip(p)[2] && v.skip(p)[3] == w.skip(p)[3]); }
    if p + 2 <= v.len() { assert(v.skip(p)[0] == w.skip(p)[0] && v.skip(p)[1] == w.skip(p)[1]); }
}
/// what is not missing in a part of the file is the same in all of it
pub proof fn te_ext(v: Seq<u8>, w: Seq<u8>, e: Endianness, gps: bool, p: int)
    requires prefix(v, w), 0 <= p, te(v, e, gps, p) !is Need,
    ensures te(w, e, gps, p) == te(v, e, gps, p)
{ reveal(te); num_ext(e, v, w, p); num_ext(e, v, w, p + 2); num_ext(e, v, w, p + 4); num_ext(e, v, w, p + 8); }
pub proof fn dir_ext(v: Seq<u8>, w: Seq<u8>, e: Endianness, o: int)
    requires prefix(v, w), 0 <= o, dir_ok(v, e, o),
    ensures dir_ok(w, e, o), s16(e, w.skip(o)) == s16(e, v.skip(o))
{ num_ext(e, v, w, o); }
pub proof fn tsubs_ext(v: Seq<u8>, w: Seq<u8>, e: Endianness, gps: bool, o: int, k: int)
    requires prefix(v, w), 0 <= o, tsubs(v, e, gps, o, k) is Some,
    ensures tsubs(w, e, gps, o, k) == tsubs(v, e, gps, o, k)
    decreases k
{ if k > 0 { tsubs_ext(v, w, e, gps, o, k - 1); te_ext(v, w, e, gps, o + 2 + 12 * (k - 1)); } }
/// where the sub-directories found lie
pub proof fn tsubs_bound(d: Seq<u8>, e: Endianness, gps: bool, o: int, k: int)
    ensures tsubs(d, e, gps, o, k) matches Some(s) ==> forall|i: int| 0 <= i < s.len() ==> 0 < (#[trigger] s[i]).0 <= 0xffff_ffff
    decreases k
{ if k > 0 { tsubs_bound(d, e, gps, o, k - 1); reveal(te); num_bounds(); } }
pub proof fn tsubs_none(d: Seq<u8>, e: Endianness, gps: bool, o: int, k: int, n: int)
    requires k <= n, tsubs(d, e, gps, o, k) is None,
    ensures tsubs(d, e, gps, o, n) is None
    decreases n - k
{ if k < n { tsubs_none(d, e, gps, o, k, n - 1); } }
pub proof fn trav_ext(v: Seq<u8>, w: Seq<u8>, e: Endianness, gps: bool, o: int, depth: nat, vis: Set<(usize, bool)>)
    requires prefix(v, w), 0 <= o, trav(v, e, gps, o, depth, vis) !is Need,
    ensures trav(w, e, gps, o, depth, vis) == trav(v, e, gps, o, depth, vis)
    decreases 3 - depth, 1int, 0int
{
    if depth < 3 {
        dir_ext(v, w, e, o);
        let n = s16(e, v.skip(o));
        tsubs_ext(v, w, e, gps, o, n);
        tsubs_bound(v, e, gps, o, n);
        tfold_ext(v, w, e, tsubs(v, e, gps, o, n)->0, 0, depth, vis);
    }
}
pub proof fn tfold_ext(v: Seq<u8>, w: Seq<u8>, e: Endianness, s: Seq<(int, u16)>, i: int, depth: nat, vis: Set<(usize, bool)>)
    requires prefix(v, w), depth < 3, 0 <= i, tfold(v, e, s, i, depth, vis) !is Need, forall|j: int| 0 <= j < s.len() ==> 0 < (#[trigger] s[j]).0 <= 0xffff_ffff,
    ensures tfold(w, e, s, i, depth, vis) == tfold(v, e, s, i, depth, vis)
    decreases 3 - depth, 0int, s.len() - i
{
    if i < s.len() {
        if vis.contains(tkey(s[i])) { tfold_ext(v, w, e, s, i + 1, depth, vis); }
        else {
            let r = trav(v, e, s[i].1 == 0x8825, s[i].0, depth + 1, vis.insert(tkey(s[i])));
            trav_ext(v, w, e, s[i].1 == 0x8825, s[i].0, depth + 1, vis.insert(tkey(s[i])));
            if let TR::Ok(x) = r { tfold_ext(v, w, e, s, i + 1, depth, x); }
        }
    }
}
/// a directory all of whose data is there, and whose sub-directories are among `vis`
pub open spec fn settled(d: Seq<u8>, e: Endianness, o: int, gps: bool, vis: Set<(usize, bool)>) -> bool {
    dsubs(d, e, gps, o) matches Some(s) && forall|i: int| 0 <= i < s.len() ==> vis.contains(tkey(#[trigger] s[i]))
}
pub open spec fn settled_since(d: Seq<u8>, e: Endianness, a: Set<(usize, bool)>, b: Set<(usize, bool)>) -> bool {
    a.subset_of(b) && forall|x: (usize, bool)| #[trigger] b.contains(x) && !a.contains(x) ==> settled(d, e, x.0 as int, x.1, b)
}
pub proof fn trav_closed(d: Seq<u8>, e: Endianness, gps: bool, o: int, depth: nat, vis: Set<(usize, bool)>)
    requires depth < 3,
    ensures trav(d, e, gps, o, depth, vis) matches TR::Ok(v) ==> settled_since(d, e, vis, v) && settled(d, e, o, gps, v)
    decreases 3 - depth, 1int, 0int
{
    if let Some(s) = dsubs(d, e, gps, o) {
        tsubs_bound(d, e, gps, o, s16(e, d.skip(o)));
        tfold_closed(d, e, s, 0, depth, vis);
    }
}
pub proof fn tfold_closed(d: Seq<u8>, e: Endianness, s: Seq<(int, u16)>, i: int, depth: nat, vis: Set<(usize, bool)>)
    requires depth < 3, 0 <= i, forall|j: int| 0 <= j < s.len() ==> 0 < (#[trigger] s[j]).0 <= 0xffff_ffff,
    ensures tfold(d, e, s, i, depth, vis) matches TR::Ok(v) ==> settled_since(d, e, vis, v) && (forall|j: int| i <= j < s.len() ==> v.contains(tkey(#[trigger] s[j])))
    decreases 3 - depth, 0int, s.len() - i
{
    if i < s.len() {
        if vis.contains(tkey(s[i])) { tfold_closed(d, e, s, i + 1, depth, vis); }
        else {
            let k = tkey(s[i]);
            let r = trav(d, e, s[i].1 == 0x8825, s[i].0, depth + 1, vis.insert(k));
            if depth + 1 < 3 { trav_closed(d, e, s[i].1 == 0x8825, s[i].0, depth + 1, vis.insert(k)); }
            if let TR::Ok(x) = r {
                tfold_closed(d, e, s, i + 1, depth, x);
                if let TR::Ok(v) = tfold(d, e, s, i + 1, depth, x) {
                    assert forall|y: (usize, bool)| #[trigger] v.contains(y) && !vis.contains(y) implies settled(d, e, y.0 as int, y.1, v) by {
                        if x.contains(y) { if y == k { assert(settled(d, e, y.0 as int, y.1, x)); } else { assert(!vis.insert(k).contains(y)); assert(settled(d, e, y.0 as int, y.1, x)); } }
                    }
                    assert(x.contains(k));
                }
            }
        }
    }
}
/// what a reader of the whole file gets out of every entry of a settled directory, it gets out of the loaded part
pub proof fn loaded_entries(v: Seq<u8>, w: Seq<u8>, e: Endianness, gps: bool, o: int, n: int, k: int)
    requires prefix(v, w), 0 <= o, 0 <= k < n, tsubs(v, e, gps, o, n) is Some,
    ensures ({ let p = o + 2 + 12 * k; let t = te(v, e, gps, p);
        t !is Need && (match t { TE::Sub(a, tag) => tsubs(v, e, gps, o, n)->0.contains((a, tag)) && (dir_ok(v, e, a) ==> ent(v, e, gps, p) == ent(w, e, gps, p) && ent(v, e, gps, p) == Ent::Sub { off: a }), _ => ent(v, e, gps, p) == ent(w, e, gps, p) && ent(v, e, gps, p) !is Sub && ent(v, e, gps, p) !is Short }) })
    decreases n
{
    let p = o + 2 + 12 * k;
    if k < n - 1 { loaded_entries(v, w, e, gps, o, n - 1, k); let s = tsubs(v, e, gps, o, n - 1)->0; if let TE::Sub(a, tag) = te(v, e, gps, p) { let i = s.index_of((a, tag)); assert(tsubs(v, e, gps, o, n)->0[i] == (a, tag)); } }
    else {
        reveal(te); num_bounds(); te_ext(v, w, e, gps, p);
        num_ext(e, v, w, p); num_ext(e, v, w, p + 2); num_ext(e, v, w, p + 4); num_ext(e, v, w, p + 8);
        if let TE::Sub(a, tag) = te(v, e, gps, p) { let s = tsubs(v, e, gps, o, n)->0; assert(s[s.len() - 1] == (a, tag)); if dir_ok(v, e, a) { dir_ext(v, w, e, a); } }
        let n2 = s32(e, v.skip(p + 4)); let vo = s32(e, v.skip(p + 8));
        if let Some(f) = fmt_of(s16(e, v.skip(p + 2)) as u16) { let size = (n2 as u32) * comp_size(f);
            if size <= 4 { assert(v.subrange(p + 8, p + 8 + size) =~= w.subrange(p + 8, p + 8 + size)); } else if vo + size <= v.len() { assert(v.subrange(vo, vo + size) =~= w.subrange(vo, vo + size)); } }
    }
}
/// Once the pre-scan has succeeded on what is loaded, no directory it reached reads differently in the whole file,
/// and every sub-directory such a directory refers to is one it reached.
pub proof fn travelled(v: Seq<u8>, w: Seq<u8>, e: Endianness, o: int, vis: Set<(usize, bool)>)
    requires prefix(v, w), 0 <= o, trav(v, e, false, o, 0, Set::empty()) == TR::Ok(vis),
    ensures settled(v, e, o, false, vis), forall|x: (usize, bool)| #[trigger] vis.contains(x) ==> settled(v, e, x.0 as int, x.1, vis),
        trav(w, e, false, o, 0, Set::empty()) == TR::Ok(vis),
{
    trav_closed(v, e, false, o, 0, Set::empty());
    trav_ext(v, w, e, false, o, 0, Set::empty());
}
pub proof fn travelled_entry(v: Seq<u8>, w: Seq<u8>, e: Endianness, vis: Set<(usize, bool)>, a: int, gps: bool, k: int)
    requires prefix(v, w), 0 <= a, settled(v, e, a, gps, vis), 0 <= k < s16(e, v.skip(a)), forall|x: (usize, bool)| #[trigger] vis.contains(x) ==> settled(v, e, x.0 as int, x.1, vis),
    ensures dir_ok(v, e, a), dir_ok(w, e, a), s16(e, w.skip(a)) == s16(e, v.skip(a)), ({ let p = a + 2 + 12 * k;
        s16(e, w.skip(p)) == s16(e, v.skip(p)) && ent(v, e, gps, p) == ent(w, e, gps, p) && ent(v, e, gps, p) !is Short && (ent(v, e, gps, p) matches Ent::Sub { off } ==> vis.contains((off as usize, s16(e, v.skip(p)) == 0x8825)) && settled(v, e, off, s16(e, v.skip(p)) == 0x8825, vis)) }),
{
    dir_ext(v, w, e, a);
    let p = a + 2 + 12 * k;
    loaded_entries(v, w, e, gps, a, s16(e, v.skip(a)), k);
    num_ext(e, v, w, p);
    tsubs_bound(v, e, gps, a, s16(e, v.skip(a)));
    if let TE::Sub(off, tag) = te(v, e, gps, p) {
        let s = dsubs(v, e, gps, a)->0; let i = s.index_of((off, tag));
        assert(s[i] == (off, tag));
        assert(vis.contains(tkey(s[i])));
        assert(tag == s16(e, v.skip(p))) by { reveal(te); num_bounds(); }
        assert(off as usize as int == off);
        assert(settled(v, e, off as usize as int, tag == 0x8825, vis));
    }
}
pub proof fn tfold_step(d: Seq<u8>, e: Endianness, s: Seq<(int, u16)>, i: int, depth: nat, vis: Set<(usize, bool)>)
    requires 0 <= i < s.len(), depth < 3,
    ensures vis.contains(tkey(s[i])) ==> tfold(d, e, s, i, depth, vis) == tfold(d, e, s, i + 1, depth, vis),
        !vis.contains(tkey(s[i])) ==> tfold(d, e, s, i, depth, vis) == (match trav(d, e, s[i].1 == 0x8825, s[i].0, depth + 1, vis.insert(tkey(s[i]))) { TR::Ok(v) => tfold(d, e, s, i + 1, depth, v), r => r })
{}
