// ---------------------------------------------------------------- PNG (W3C PNG 3rd edition; ImageMagick raw profiles)
/// std: the UTF-8 encoding of a string
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn utf8_len(s: Seq<char>) ensures utf8(s).len() <= 4 * s.len();
/// Latin-1: every byte is the code point
pub open spec fn latin1(d: Seq<u8>) -> Seq<char> { Seq::new(d.len(), |i: int| d[i] as char) }
pub open spec fn first_nul(d: Seq<u8>, i: int) -> int decreases d.len() - i { if i >= d.len() { d.len() as int } else if d[i] == 0 { i } else { first_nul(d, i + 1) } }
pub open spec fn eol(s: Seq<char>, i: int) -> int decreases s.len() - i { if i >= s.len() { s.len() as int } else if s[i] == '\n' { i } else { eol(s, i + 1) } }
/// std: str::lines, one step: the line and what follows
pub open spec fn line1(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() == 0 { None } else { let i = eol(s, 0);
        if i >= s.len() { Some((s, Seq::empty())) }
        else { Some((if i > 0 && s[i - 1] == '\r' { s.take(i - 1) } else { s.take(i) }, s.skip(i + 1))) } }
}
pub open spec fn join(s: Seq<char>) -> Seq<char> decreases s.len() { match line1(s) { None => Seq::empty(), Some((l, r)) => if r.len() < s.len() { l + join(r) } else { l } } }
pub open spec fn nib(c: u8) -> Option<u8> { if 0x30 <= c <= 0x39 { Some((c - 0x30) as u8) } else if 0x61 <= c <= 0x66 { Some((c - 0x61 + 10) as u8) } else if 0x41 <= c <= 0x46 { Some((c - 0x41 + 10) as u8) } else { None } }
pub open spec fn hex_ws(c: u8) -> bool { c == 0x20 || c == 0x0A || c == 0x0D || c == 0x09 }
/// pairs of hex digits, white space anywhere
pub open spec fn hexf(s: Seq<u8>, h: Option<u8>, o: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { if h is Some { None } else { Some(o) } }
    else { match nib(s[0]) {
        Some(n) => match h { None => hexf(s.skip(1), Some(n), o), Some(x) => hexf(s.skip(1), None, o.push((x * 16 + n) as u8)) },
        None => if hex_ws(s[0]) { hexf(s.skip(1), h, o) } else { None },
    } }
}
/// a raw profile: three lines of header, then hex
#[verifier::opaque]
pub open spec fn raw_profile(s: Seq<char>) -> Option<Seq<u8>> {
    match line1(s) { None => None, Some((_, a)) => match line1(a) { None => None, Some((_, b)) => match line1(b) { None => None, Some((_, c)) => hexf(utf8(join(c)), None, Seq::empty()) } } }
}
/// what has been collected: the EXIF source, how strong it is, the text entries and their total size
pub ghost struct Pst { pub exif: Option<Seq<u8>>, pub prio: int, pub texts: Seq<(Seq<char>, Seq<char>)>, pub total: int }
pub open spec fn pst0() -> Pst { Pst { exif: None, prio: 0, texts: Seq::empty(), total: 0 } }
pub open spec fn text_max() -> int { 16int * 1024 * 1024 }
pub open spec fn pst_ok(st: Pst) -> bool { 0 <= st.total <= text_max() && 0 <= st.prio <= 3 && (st.exif is None ==> st.prio == 0) && (st.texts.len() == 0 ==> st.total == 0) }
pub open spec fn profile_prio(key: Seq<char>) -> int { if key == "Raw profile type APP1"@ { 2 } else if key == "Raw profile type exif"@ { 1 } else { 0 } }
/// the TIFF block of a raw profile, if it is one
#[verifier::opaque]
pub open spec fn legacy(key: Seq<char>, value: Seq<char>) -> Option<Seq<u8>> {
    match raw_profile(value) { None => None, Some(b) => {
        let b = if profile_prio(key) == 2 && b.len() >= 6 && b.take(6) == exif_id() { b.skip(6) } else { b };
        if b.len() >= 8 && tiff_hdr(b) is Ok { Some(b) } else { None } } }
}
/// one tEXt chunk
#[verifier::opaque]
pub open spec fn text_step(st: Pst, d: Seq<u8>) -> Pst {
    let i = first_nul(d, 0);
    if i >= d.len() { st } else {
        let k = latin1(d.take(i)); let v = latin1(d.skip(i + 1)); let p = profile_prio(k);
        let st1 = if p > 0 && p > st.prio && legacy(k, v) is Some { Pst { exif: legacy(k, v), prio: p, ..st } } else { st };
        let size = utf8(k).len() + utf8(v).len();
        if st.total + size <= text_max() { Pst { texts: st.texts.push((k, v)), total: st.total + size, ..st1 } } else { st1 } }
}
pub ghost enum PO { Need(int), Skip(int, Pst), Done(Pst) }
pub open spec fn iend() -> Seq<u8> { seq![0x49u8, 0x45u8, 0x4Eu8, 0x44u8] }
pub open spec fn exif4() -> Seq<u8> { seq![0x65u8, 0x58u8, 0x49u8, 0x66u8] }
pub open spec fn text4() -> Seq<u8> { seq![0x74u8, 0x45u8, 0x58u8, 0x74u8] }
/// the chunks of `s` from `c` on: up to IEND, to the first chunk that is not all there, or past the end in a chunk that is not looked into
pub open spec fn pwalk(s: Seq<u8>, c: int, st: Pst) -> PO decreases s.len() - c {
    let left = s.len() - c;
    if c < 0 || left < 8 { PO::Need(8 - left) } else {
        let n = s32be(s.skip(c)); let ty = s.subrange(c + 4, c + 8); let t = n + 12;
        if n < 0 || ty == iend() { PO::Done(st) }
        else if ty == exif4() { if t > left { PO::Need(t - left) } else { pwalk(s, c + t, Pst { exif: Some(s.subrange(c + 8, c + 8 + n)), prio: 3, ..st }) } }
        else if ty == text4() && n <= 1024 * 1024 { if t > left { PO::Need(t - left) } else { pwalk(s, c + t, text_step(st, s.subrange(c + 8, c + 8 + n))) } }
        else if t > left { PO::Skip(c + t, st) } else { pwalk(s, c + t, st) } }
}
pub open spec fn png_sig() -> Seq<u8> { seq![0x89u8, 0x50u8, 0x4Eu8, 0x47u8, 0x0Du8, 0x0Au8, 0x1Au8, 0x0Au8] }
pub open spec fn shift(o: PO, n: int) -> PO { match o { PO::Skip(x, st) => PO::Skip(x + n, st), x => x } }
/// what a walk has settled does not depend on the bytes that follow
pub proof fn pwalk_grow(s: Seq<u8>, m: Seq<u8>, c: int, st: Pst)
    requires 0 <= c
    ensures match pwalk(s, c, st) {
        PO::Done(x) => pwalk(s + m, c, st) == PO::Done(x),
        PO::Skip(n, x) => n > s.len() && (s.len() + m.len() < n ==> pwalk(s + m, c, st) == PO::Skip(n, x)),
        PO::Need(k) => k > 0 && (m.len() < k ==> pwalk(s + m, c, st) == PO::Need(k - m.len())) }
    decreases s.len() - c
{
    let left = s.len() - c;
    if left >= 8 {
        let w = s + m;
        assert(w.subrange(c + 4, c + 8) =~= s.subrange(c + 4, c + 8));
        assert(s32be(w.skip(c)) == s32be(s.skip(c))) by { assert(forall|i: int| 0 <= i < 4 ==> w.skip(c)[i] == s.skip(c)[i]); }
        let n = s32be(s.skip(c)); let t = n + 12;
        assert(0 <= n);
        if t <= left {
            assert(w.subrange(c + 8, c + 8 + n) =~= s.subrange(c + 8, c + 8 + n));
            pwalk_grow(s, m, c + t, Pst { exif: Some(s.subrange(c + 8, c + 8 + n)), prio: 3, ..st });
            pwalk_grow(s, m, c + t, text_step(st, s.subrange(c + 8, c + 8 + n)));
            pwalk_grow(s, m, c + t, st);
        }
    }
}
/// dropping what comes before the cursor changes nothing but where the bytes are counted from
pub proof fn pwalk_shift(s: Seq<u8>, n: int, c: int, st: Pst)
    requires 0 <= n <= s.len(), 0 <= c
    ensures pwalk(s, n + c, st) == shift(pwalk(s.skip(n), c, st), n)
    decreases s.len() - n - c
{
    let r = s.skip(n); let left = r.len() - c;
    if left >= 8 {
        assert(r.skip(c) =~= s.skip(n + c));
        assert(r.subrange(c + 4, c + 8) =~= s.subrange(n + c + 4, n + c + 8));
        let k = s32be(r.skip(c)); let t = k + 12;
        assert(0 <= k);
        if t <= left {
            assert(r.subrange(c + 8, c + 8 + k) =~= s.subrange(n + c + 8, n + c + 8 + k));
            pwalk_shift(s, n, c + t, Pst { exif: Some(r.subrange(c + 8, c + 8 + k)), prio: 3, ..st });
            pwalk_shift(s, n, c + t, text_step(st, r.subrange(c + 8, c + 8 + k)));
            pwalk_shift(s, n, c + t, st);
        }
    }
}
/// A walk that asked to skip, resumed at the place it asked for with what it had collected, answers as the walk over everything does.
pub proof fn pwalk_resume(s: Seq<u8>, m: Seq<u8>, c: int, st: Pst)
    requires 0 <= c
    ensures pwalk(s, c, st) matches PO::Skip(n, x) ==> (n <= s.len() + m.len() ==> pwalk(s + m, c, st) == shift(pwalk((s + m).skip(n), 0, x), n))
    decreases s.len() - c
{
    let left = s.len() - c;
    if left >= 8 {
        let w = s + m;
        assert(w.subrange(c + 4, c + 8) =~= s.subrange(c + 4, c + 8));
        assert(s32be(w.skip(c)) == s32be(s.skip(c))) by { assert(forall|i: int| 0 <= i < 4 ==> w.skip(c)[i] == s.skip(c)[i]); }
        let n = s32be(s.skip(c)); let t = n + 12;
        assert(0 <= n);
        if t <= left {
            assert(w.subrange(c + 8, c + 8 + n) =~= s.subrange(c + 8, c + 8 + n));
            pwalk_resume(s, m, c + t, Pst { exif: Some(s.subrange(c + 8, c + 8 + n)), prio: 3, ..st });
            pwalk_resume(s, m, c + t, text_step(st, s.subrange(c + 8, c + 8 + n)));
            pwalk_resume(s, m, c + t, st);
        } else if c + t <= w.len() { pwalk_shift(w, c + t, 0, st); }
    }
}
/// std: a slice is at most isize::MAX bytes
pub axiom fn slice_max(s: &[u8]) ensures s@.len() <= isize::MAX;
