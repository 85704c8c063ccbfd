// Verified stand-in for the parts of `nom` 8 the extracted code uses.  Every function
// below has a body that Verus verifies against its own contract; that the real nom
// behaves the same way is checked by the shim-conformance harness (see DESIGN.md).
pub mod nom {
    use vstd::prelude::*;
    verus! {
    pub enum Needed { Unknown, Size(usize) }
    impl Needed {
        pub fn new(n: usize) -> (r: Needed)
            ensures r == (if n == 0 { Needed::Unknown } else { Needed::Size(n) })
        { if n == 0 { Needed::Unknown } else { Needed::Size(n) } }
    }
    pub enum Err<E> { Incomplete(Needed), Error(E), Failure(E) }
    impl<E> Err<E> { pub fn is_incomplete(&self) -> (r: bool) ensures r == (*self is Incomplete) { match self { Err::Incomplete(_) => true, _ => false } } }
    pub type IResult<I, O, E = error::Error<I>> = Result<(I, O), Err<E>>;

    pub open spec fn is_inc<O, E>(r: Result<O, Err<E>>) -> bool { r matches Err(Err::Incomplete(_)) }
    pub open spec fn is_inc_n<O, E>(r: Result<O, Err<E>>, n: int) -> bool {
        r matches Err(Err::Incomplete(Needed::Size(k))) && k == n
    }
    pub open spec fn is_error<O, E>(r: Result<O, Err<E>>) -> bool { r matches Err(Err::Error(_)) }
    pub open spec fn is_failure<O, E>(r: Result<O, Err<E>>) -> bool { r matches Err(Err::Failure(_)) }

    pub mod error {
        use vstd::prelude::*;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub enum ErrorKind { Tag, Fail, Eof, Verify, MapRes, Alt, Other }
        pub struct Error<I> { pub input: I, pub code: ErrorKind }
        /// the message is dropped: an error carries none
        pub fn context<P>(msg: &'static str, p: P) -> (r: P) ensures r == p { p }
        pub fn make_error<I>(input: I, code: ErrorKind) -> (r: Error<I>) ensures r.input == input, r.code == code { Error { input, code } }
    }
    use error::{Error, ErrorKind};

    pub trait Parser<'a>: Sized {
        type Output;
        spec fn pre(&self) -> bool;
        spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Self::Output>) -> bool;
        fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Self::Output>)
            requires old(self).pre(),
            ensures old(self).post(input, r), *final(self) == *old(self);
    }
    impl<'a, O, F: Fn(&'a [u8]) -> IResult<&'a [u8], O>> Parser<'a> for F {
        type Output = O;
        open spec fn pre(&self) -> bool { forall|i: &'a [u8]| #[trigger] call_requires(*self, (i,)) }
        open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], O>) -> bool { call_ensures(*self, (input,), r) }
        fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], O>) { (self)(input) }
    }
    impl<'a, A: Parser<'a>, B: Parser<'a>> Parser<'a> for (A, B) {
        type Output = (A::Output, B::Output);
        open spec fn pre(&self) -> bool { self.0.pre() && self.1.pre() }
        open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Self::Output>) -> bool {
            (match r { Err(e) => self.0.post(input, Err(e)), _ => false })
            || (exists|m: &'a [u8], a: A::Output| #[trigger] self.0.post(input, Ok((m, a))) &&
                (match r { Ok((rem, (aa, b))) => a == aa && self.1.post(m, Ok((rem, b))), Err(e) => self.1.post(m, Err(e)) }))
        }
        fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Self::Output>) {
            let (m, a) = self.0.parse(input)?;
            let (n, b) = self.1.parse(m)?;
            Ok((n, (a, b)))
        }
    }
    impl<'a, A: Parser<'a>, B: Parser<'a>, C: Parser<'a>> Parser<'a> for (A, B, C) {
        type Output = (A::Output, B::Output, C::Output);
        open spec fn pre(&self) -> bool { self.0.pre() && self.1.pre() && self.2.pre() }
        open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Self::Output>) -> bool {
            (match r { Err(e) => self.0.post(input, Err(e)), _ => false })
            || (exists|m: &'a [u8], a: A::Output| #[trigger] self.0.post(input, Ok((m, a))) &&
                ((match r { Err(e) => self.1.post(m, Err(e)), _ => false })
                || (exists|m2: &'a [u8], b: B::Output| #[trigger] self.1.post(m, Ok((m2, b))) &&
                    (match r { Ok((rem, (aa, bb, c))) => a == aa && b == bb && self.2.post(m2, Ok((rem, c))), Err(e) => self.2.post(m2, Err(e)) }))))
        }
        fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Self::Output>) {
            let (m, a) = self.0.parse(input)?;
            let (m2, b) = self.1.parse(m)?;
            let (n, c) = self.2.parse(m2)?;
            Ok((n, (a, b, c)))
        }
    }
    impl<'a, A: Parser<'a>, B: Parser<'a>, C: Parser<'a>, D: Parser<'a>> Parser<'a> for (A, B, C, D) {
        type Output = (A::Output, B::Output, C::Output, D::Output);
        open spec fn pre(&self) -> bool { self.0.pre() && self.1.pre() && self.2.pre() && self.3.pre() }
        open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Self::Output>) -> bool {
            (match r { Err(e) => self.0.post(input, Err(e)), _ => false })
            || (exists|m: &'a [u8], a: A::Output| #[trigger] self.0.post(input, Ok((m, a))) &&
                ((match r { Err(e) => self.1.post(m, Err(e)), _ => false })
                || (exists|m2: &'a [u8], b: B::Output| #[trigger] self.1.post(m, Ok((m2, b))) &&
                  ((match r { Err(e) => self.2.post(m2, Err(e)), _ => false })
                  || (exists|m3: &'a [u8], c: C::Output| #[trigger] self.2.post(m2, Ok((m3, c))) &&
                    (match r { Ok((rem, (aa, bb, cc, d))) => a == aa && b == bb && c == cc && self.3.post(m3, Ok((rem, d))), Err(e) => self.3.post(m3, Err(e)) }))))))
        }
        fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Self::Output>) {
            let (m, a) = self.0.parse(input)?;
            let (m2, b) = self.1.parse(m)?;
            let (m3, c) = self.2.parse(m2)?;
            let (n, d) = self.3.parse(m3)?;
            Ok((n, (a, b, c, d)))
        }
    }

    // ---- integers from bytes (spec)
    pub open spec fn s16be(s: Seq<u8>) -> int { s[0] * 256 + s[1] }
    pub open spec fn s16le(s: Seq<u8>) -> int { s[1] * 256 + s[0] }
    pub open spec fn s32be(s: Seq<u8>) -> int { s[0] * 0x100_0000 + s[1] * 0x1_0000 + s[2] * 0x100 + s[3] }
    pub open spec fn s32le(s: Seq<u8>) -> int { s[3] * 0x100_0000 + s[2] * 0x1_0000 + s[1] * 0x100 + s[0] }
    pub open spec fn s24be(s: Seq<u8>) -> int { s[0] * 0x1_0000 + s[1] * 0x100 + s[2] }
    pub open spec fn s64be(s: Seq<u8>) -> int { s32be(s) * 0x1_0000_0000 + s32be(s.skip(4)) }
    pub open spec fn s64le(s: Seq<u8>) -> int { s32le(s.skip(4)) * 0x1_0000_0000 + s32le(s) }
    pub open spec fn s64(e: number::Endianness, s: Seq<u8>) -> int { if e is Little { s64le(s) } else { s64be(s) } }
    pub open spec fn s16(e: number::Endianness, s: Seq<u8>) -> int { if e is Little { s16le(s) } else { s16be(s) } }
    pub open spec fn s32(e: number::Endianness, s: Seq<u8>) -> int { if e is Little { s32le(s) } else { s32be(s) } }

    // Ok: consumed n bytes
    pub open spec fn num_stream<'a, T>(n: int, i: &'a [u8], r: IResult<&'a [u8], T>) -> bool {
        if i@.len() < n { is_inc_n(r, n - i@.len()) } else { r matches Ok((rem, _)) && rem@ == i@.skip(n) }
    }
    pub open spec fn num_complete<'a, T>(n: int, i: &'a [u8], r: IResult<&'a [u8], T>) -> bool {
        if i@.len() < n { is_error(r) } else { r matches Ok((rem, _)) && rem@ == i@.skip(n) }
    }

    pub trait ToUsize: Sized {
        spec fn sp(self) -> int;
        fn to_usize(self) -> (r: usize) ensures r == self.sp();
    }
    impl ToUsize for u8 { open spec fn sp(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self as usize } }
    impl ToUsize for u16 { open spec fn sp(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self as usize } }
    impl ToUsize for u32 { open spec fn sp(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self as usize } }
    impl ToUsize for u64 { open spec fn sp(self) -> int { self as usize as int } fn to_usize(self) -> (r: usize) { self as usize } }
    impl ToUsize for usize { open spec fn sp(self) -> int { self as int } fn to_usize(self) -> (r: usize) { self } }

    pub open spec fn take_stream<'a>(n: int, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
        if i@.len() < n { is_inc_n(r, n - i@.len()) }
        else { r matches Ok((rem, o)) && rem@ == i@.skip(n) && o@ == i@.take(n) }
    }
    pub open spec fn take_complete<'a>(n: int, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
        if i@.len() < n { is_error(r) }
        else { r matches Ok((rem, o)) && rem@ == i@.skip(n) && o@ == i@.take(n) }
    }
    /// the first `n` bytes are the same
    pub open spec fn agree(a: Seq<u8>, b: Seq<u8>, n: int) -> bool { forall|k: int| 0 <= k < n ==> a[k] == b[k] }
    pub open spec fn tag_stream<'a>(t: Seq<u8>, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
        if i@.len() >= t.len() {
            if agree(i@, t, t.len() as int) { r matches Ok((rem, o)) && rem@ == i@.skip(t.len() as int) && o@ == t } else { is_error(r) }
        } else {
            if agree(i@, t, i@.len() as int) { is_inc_n(r, t.len() - i@.len()) } else { is_error(r) }
        }
    }
    pub open spec fn tag_complete<'a>(t: Seq<u8>, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
        if i@.len() >= t.len() && agree(i@, t, t.len() as int) { r matches Ok((rem, o)) && rem@ == i@.skip(t.len() as int) && o@ == t } else { is_error(r) }
    }
    pub fn eq_upto(a: &[u8], b: &[u8], n: usize) -> (r: bool)
        requires n <= a@.len(), n <= b@.len(),
        ensures r == agree(a@, b@, n as int),
    {
        let mut k: usize = 0;
        while k < n
            invariant k <= n, n <= a@.len(), n <= b@.len(), agree(a@, b@, k as int),
            decreases n - k,
        {
            if a[k] != b[k] { return false; }
            k += 1;
        }
        true
    }

    /// length of the longest prefix of `s` on which `p` is false
    pub open spec fn till<P: Fn(u8) -> bool>(p: P, s: Seq<u8>, k: int) -> bool {
        0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> #[trigger] call_ensures(p, (s[j],), false)) && (k < s.len() ==> call_ensures(p, (s[k],), true))
    }
    pub mod bytes {
        pub mod streaming {
            use vstd::prelude::*;
            use super::super::{*, error::*};
            pub open spec fn take_till_post<'a, P: Fn(u8) -> bool>(p: P, i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool {
                exists|k: int| #[trigger] till(p, i@, k) && (if k < i@.len() { r matches Ok((rem, o)) && rem@ == i@.skip(k) && o@ == i@.take(k) } else { is_inc(r) })
            }
            pub fn take_till<'a, P: Fn(u8) -> bool>(p: P) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
                requires forall|b: u8| #[trigger] call_requires(p, (b,)),
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] call_ensures(f, (i,), r) ==> take_till_post(p, i, r)
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], &'a [u8]>)
                    requires forall|b: u8| #[trigger] call_requires(p, (b,)),
                    ensures take_till_post(p, i, r)
                {
                    let mut k: usize = 0;
                    while k < i.len()
                        invariant k <= i@.len(), forall|b: u8| #[trigger] call_requires(p, (b,)), forall|j: int| 0 <= j < k ==> #[trigger] call_ensures(p, (i@[j],), false),
                        decreases i@.len() - k
                    {
                        if p(i[k]) { assert(till(p, i@, k as int)); return Ok((&i[k..], &i[..k])); }
                        k += 1;
                    }
                    assert(till(p, i@, k as int));
                    Err(Err::Incomplete(Needed::new(1)))
                }
            }
            pub fn take<'a, C: ToUsize>(n: C) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] call_ensures(f, (i,), r) ==> take_stream(n.sp(), i, r)
            {
                let n = n.to_usize();
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], &'a [u8]>) ensures take_stream(n as int, i, r) {
                    if i.len() < n { Err(Err::Incomplete(Needed::new(n - i.len()))) } else { Ok((&i[n..], &i[..n])) }
                }
            }
            pub fn tag<'a, 't>(t: &'t [u8]) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]> + use<'a, 't>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] call_ensures(f, (i,), r) ==> tag_stream(t@, i, r)
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], &'a [u8]>) ensures tag_stream(t@, i, r) {
                    if i.len() >= t.len() {
                        if eq_upto(i, t, t.len()) { assert(i@.take(t@.len() as int) =~= t@); Ok((&i[t.len()..], &i[..t.len()])) } else { Err(Err::Error(Error { input: i, code: ErrorKind::Tag })) }
                    } else if eq_upto(i, t, i.len()) { Err(Err::Incomplete(Needed::new(t.len() - i.len()))) }
                    else { Err(Err::Error(Error { input: i, code: ErrorKind::Tag })) }
                }
            }
        }
        pub mod complete {
            use vstd::prelude::*;
            use super::super::{*, error::*};
            /// `take` where a function value is needed
            pub struct TakeP { pub n: usize }
            pub fn take_p<C: ToUsize>(n: C) -> (r: TakeP) ensures r.n == n.sp() { TakeP { n: n.to_usize() } }
            impl<'a> Parser<'a> for TakeP {
                type Output = &'a [u8];
                open spec fn pre(&self) -> bool { true }
                open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], &'a [u8]>) -> bool { take_complete(self.n as int, input, r) }
                fn parse(&mut self, i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>) { let n = self.n; if i.len() < n { Err(Err::Error(Error { input: i, code: ErrorKind::Eof })) } else { Ok((&i[n..], &i[..n])) } }
            }
            pub fn take<'a, C: ToUsize>(n: C) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] call_ensures(f, (i,), r) ==> take_complete(n.sp(), i, r)
            {
                let n = n.to_usize();
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], &'a [u8]>) ensures take_complete(n as int, i, r) {
                    if i.len() < n { Err(Err::Error(Error { input: i, code: ErrorKind::Eof })) } else { Ok((&i[n..], &i[..n])) }
                }
            }
            pub fn tag<'a, 't>(t: &'t [u8]) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]> + use<'a, 't>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] call_ensures(f, (i,), r) ==> tag_complete(t@, i, r)
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], &'a [u8]>) ensures tag_complete(t@, i, r) {
                    if i.len() >= t.len() && eq_upto(i, t, t.len()) { assert(i@.take(t@.len() as int) =~= t@); Ok((&i[t.len()..], &i[..t.len()])) } else { Err(Err::Error(Error { input: i, code: ErrorKind::Tag })) }
                }
            }
        }
    }
    pub mod number {
        use vstd::prelude::*;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub enum Endianness { Big, Little, Native }
        pub mod streaming {
            use vstd::prelude::*;
            use super::super::{*, error::*};
            use super::Endianness;
            pub fn u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
                ensures num_stream(1, i, r), r matches Ok((_, v)) ==> v == i@[0]
            { if i.len() < 1 { Err(Err::Incomplete(Needed::new(1))) } else { Ok((&i[1..], i[0])) } }
            pub fn be_u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
                ensures num_stream(1, i, r), r matches Ok((_, v)) ==> v == i@[0]
            { if i.len() < 1 { Err(Err::Incomplete(Needed::new(1))) } else { Ok((&i[1..], i[0])) } }
            pub fn be_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
                ensures num_stream(2, i, r), r matches Ok((_, v)) ==> v == s16be(i@)
            { if i.len() < 2 { Err(Err::Incomplete(Needed::new(2 - i.len()))) } else { Ok((&i[2..], i[0] as u16 * 256 + i[1] as u16)) } }
            pub fn le_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
                ensures num_stream(2, i, r), r matches Ok((_, v)) ==> v == s16le(i@)
            { if i.len() < 2 { Err(Err::Incomplete(Needed::new(2 - i.len()))) } else { Ok((&i[2..], i[1] as u16 * 256 + i[0] as u16)) } }
            pub fn be_u32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
                ensures num_stream(4, i, r), r matches Ok((_, v)) ==> v == s32be(i@)
            { if i.len() < 4 { Err(Err::Incomplete(Needed::new(4 - i.len()))) } else { Ok((&i[4..], i[0] as u32 * 0x100_0000 + i[1] as u32 * 0x1_0000 + i[2] as u32 * 0x100 + i[3] as u32)) } }
            pub fn be_u24<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
                ensures num_stream(3, i, r), r matches Ok((_, v)) ==> v == s24be(i@)
            { if i.len() < 3 { Err(Err::Incomplete(Needed::new(3 - i.len()))) } else { Ok((&i[3..], i[0] as u32 * 0x1_0000 + i[1] as u32 * 0x100 + i[2] as u32)) } }
            pub fn le_u32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
                ensures num_stream(4, i, r), r matches Ok((_, v)) ==> v == s32le(i@)
            { if i.len() < 4 { Err(Err::Incomplete(Needed::new(4 - i.len()))) } else { Ok((&i[4..], i[3] as u32 * 0x100_0000 + i[2] as u32 * 0x1_0000 + i[1] as u32 * 0x100 + i[0] as u32)) } }
            pub fn be_u64<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u64>)
                ensures num_stream(8, i, r), r matches Ok((_, v)) ==> v == s64be(i@)
            { if i.len() < 8 { Err(Err::Incomplete(Needed::new(8 - i.len()))) } else {
                let hi = i[0] as u32 * 0x100_0000 + i[1] as u32 * 0x1_0000 + i[2] as u32 * 0x100 + i[3] as u32;
                let lo = i[4] as u32 * 0x100_0000 + i[5] as u32 * 0x1_0000 + i[6] as u32 * 0x100 + i[7] as u32;
                Ok((&i[8..], hi as u64 * 0x1_0000_0000 + lo as u64)) } }
            pub fn u16<'a>(e: Endianness) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], u16>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], u16>| #[trigger] call_ensures(f, (i,), r) ==> num_stream(2, i, r) && (r matches Ok((_, v)) ==> v == s16(e, i@))
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], u16>) ensures num_stream(2, i, r) && (r matches Ok((_, v)) ==> v == s16(e, i@))
                { match e { Endianness::Little => le_u16(i), _ => be_u16(i) } }
            }
            pub fn u32<'a>(e: Endianness) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], u32>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], u32>| #[trigger] call_ensures(f, (i,), r) ==> num_stream(4, i, r) && (r matches Ok((_, v)) ==> v == s32(e, i@))
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], u32>) ensures num_stream(4, i, r) && (r matches Ok((_, v)) ==> v == s32(e, i@))
                { match e { Endianness::Little => le_u32(i), _ => be_u32(i) } }
            }
        }
        pub mod complete {
            use vstd::prelude::*;
            use super::super::{*, error::*};
            use super::Endianness;
            pub open spec fn strict<'a, T>(s: IResult<&'a [u8], T>, i: &'a [u8], r: IResult<&'a [u8], T>) -> bool {
                s is Ok ==> r == s && s is Err ==> is_error(r)
            }
            fn eof<'a, T>(i: &'a [u8], r: IResult<&'a [u8], T>) -> (o: IResult<&'a [u8], T>)
                ensures r is Ok ==> o == r, r is Err ==> is_error(o)
            { match r { Ok(x) => Ok(x), Err(_) => Err(Err::Error(Error { input: i, code: ErrorKind::Eof })) } }
            pub fn u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
                ensures num_complete(1, i, r), r matches Ok((_, v)) ==> v == i@[0]
            { eof(i, super::streaming::u8(i)) }
            pub fn be_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
                ensures num_complete(2, i, r), r matches Ok((_, v)) ==> v == s16be(i@)
            { eof(i, super::streaming::be_u16(i)) }
            pub fn le_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
                ensures num_complete(2, i, r), r matches Ok((_, v)) ==> v == s16le(i@)
            { eof(i, super::streaming::le_u16(i)) }
            pub fn be_u32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
                ensures num_complete(4, i, r), r matches Ok((_, v)) ==> v == s32be(i@)
            { eof(i, super::streaming::be_u32(i)) }
            pub fn le_u32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
                ensures num_complete(4, i, r), r matches Ok((_, v)) ==> v == s32le(i@)
            { eof(i, super::streaming::le_u32(i)) }
            pub fn be_u64<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u64>)
                ensures num_complete(8, i, r), r matches Ok((_, v)) ==> v == s64be(i@)
            { eof(i, super::streaming::be_u64(i)) }
            pub fn be_u24<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u32>)
                ensures num_complete(3, i, r), r matches Ok((_, v)) ==> v == s24be(i@)
            { eof(i, super::streaming::be_u24(i)) }
            pub fn be_i16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], i16>)
                ensures num_complete(2, i, r), r matches Ok((_, v)) ==> v == (s16be(i@) as u16) as i16
            { match be_u16(i) { Ok((m, v)) => Ok((m, v as i16)), Err(e) => Err(e) } }
            pub fn be_i24<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], i32>)
                ensures num_complete(3, i, r), r matches Ok((_, v)) ==> v == (if s24be(i@) >= 0x80_0000 { s24be(i@) - 0x100_0000 } else { s24be(i@) })
            { match be_u24(i) { Ok((m, v)) => Ok((m, if v >= 0x80_0000 { v as i32 - 0x100_0000 } else { v as i32 })), Err(e) => Err(e) } }
            pub fn be_i32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], i32>)
                ensures num_complete(4, i, r), r matches Ok((_, v)) ==> v == (s32be(i@) as u32) as i32
            { match be_u32(i) { Ok((m, v)) => Ok((m, v as i32)), Err(e) => Err(e) } }
            pub fn be_i64<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], i64>)
                ensures num_complete(8, i, r), r matches Ok((_, v)) ==> v == (s64be(i@) as u64) as i64
            { match be_u64(i) { Ok((m, v)) => Ok((m, v as i64)), Err(e) => Err(e) } }
            pub fn u16<'a>(e: Endianness) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], u16>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], u16>| #[trigger] call_ensures(f, (i,), r) ==> num_complete(2, i, r) && (r matches Ok((_, v)) ==> v == s16(e, i@))
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], u16>) ensures num_complete(2, i, r) && (r matches Ok((_, v)) ==> v == s16(e, i@))
                { match e { Endianness::Little => le_u16(i), _ => be_u16(i) } }
            }
            pub fn u32<'a>(e: Endianness) -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], u32>)
                ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                    forall|i: &'a [u8], r: IResult<&'a [u8], u32>| #[trigger] call_ensures(f, (i,), r) ==> num_complete(4, i, r) && (r matches Ok((_, v)) ==> v == s32(e, i@))
            {
                move |i: &'a [u8]| -> (r: IResult<&'a [u8], u32>) ensures num_complete(4, i, r) && (r matches Ok((_, v)) ==> v == s32(e, i@))
                { match e { Endianness::Little => le_u32(i), _ => be_u32(i) } }
            }
        }
    }
    pub mod combinator {
        use vstd::prelude::*;
        use super::{*, error::*};
        pub fn fail<'a, O>() -> (f: impl Fn(&'a [u8]) -> IResult<&'a [u8], O>)
            ensures forall|i: &'a [u8]| #[trigger] call_requires(f, (i,)),
                forall|i: &'a [u8], r: IResult<&'a [u8], O>| #[trigger] call_ensures(f, (i,), r) ==> is_error(r)
        {
            |i: &'a [u8]| -> (r: IResult<&'a [u8], O>) ensures is_error(r) { Err(Err::Error(Error { input: i, code: ErrorKind::Fail })) }
        }
        pub open spec fn map_post<'a, P: Parser<'a>, O2, G: Fn(P::Output) -> O2>(p: P, g: G, input: &'a [u8], m: &'a [u8], o2: O2) -> bool {
            exists|o: P::Output| #[trigger] p.post(input, Ok((m, o))) && call_ensures(g, (o,), o2)
        }
        pub struct Map<P, G, O2> { pub p: P, pub g: G, pub o: core::marker::PhantomData<O2> }
        pub fn map<'a, P: Parser<'a>, O2, G: Fn(P::Output) -> O2>(p: P, g: G) -> (r: Map<P, G, O2>) ensures r.p == p, r.g == g { Map { p, g, o: core::marker::PhantomData } }
        impl<'a, P: Parser<'a>, O2, G: Fn(P::Output) -> O2> Parser<'a> for Map<P, G, O2> {
            type Output = O2;
            open spec fn pre(&self) -> bool { self.p.pre() && forall|o: P::Output| #[trigger] call_requires(self.g, (o,)) }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], O2>) -> bool {
                match r { Ok((m, o2)) => map_post(self.p, self.g, input, m, o2), Err(e) => self.p.post(input, Err(e)) }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], O2>) {
                let ghost s = *self;
                match self.p.parse(input) { Ok((m, o)) => { let o2 = (self.g)(o); assert(map_post(s.p, s.g, input, m, o2)); let r: IResult<&'a [u8], O2> = Ok((m, o2)); assert(s.post(input, r)); r } Err(e) => { assert(s.p.post(input, Err(e))); Err(e) } }
            }
        }
        pub open spec fn map_res_ok<'a, P: Parser<'a>, O2, E2, G: Fn(P::Output) -> Result<O2, E2>>(p: P, g: G, input: &'a [u8], m: &'a [u8], o2: O2) -> bool {
            exists|o: P::Output| #[trigger] p.post(input, Ok((m, o))) && call_ensures(g, (o,), Ok(o2))
        }
        pub open spec fn map_res_err<'a, P: Parser<'a>, O2, E2, G: Fn(P::Output) -> Result<O2, E2>>(p: P, g: G, input: &'a [u8]) -> bool {
            exists|m: &'a [u8], o: P::Output, e2: E2| #[trigger] p.post(input, Ok((m, o))) && #[trigger] call_ensures(g, (o,), Err(e2))
        }
        pub struct MapRes<P, G, O2, E2> { pub p: P, pub g: G, pub o: core::marker::PhantomData<(O2, E2)> }
        pub fn map_res<'a, P: Parser<'a>, O2, E2, G: Fn(P::Output) -> Result<O2, E2>>(p: P, g: G) -> (r: MapRes<P, G, O2, E2>) ensures r.p == p, r.g == g { MapRes { p, g, o: core::marker::PhantomData } }
        impl<'a, P: Parser<'a>, O2, E2, G: Fn(P::Output) -> Result<O2, E2>> Parser<'a> for MapRes<P, G, O2, E2> {
            type Output = O2;
            open spec fn pre(&self) -> bool { self.p.pre() && forall|o: P::Output| #[trigger] call_requires(self.g, (o,)) }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], O2>) -> bool {
                match r { Ok((m, o2)) => map_res_ok::<P, O2, E2, G>(self.p, self.g, input, m, o2), Err(e) => self.p.post(input, Err(e)) || (e is Error && map_res_err::<P, O2, E2, G>(self.p, self.g, input)) }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], O2>) {
                let ghost s = *self;
                match self.p.parse(input) {
                    Ok((m, o)) => match (self.g)(o) {
                        Ok(o2) => { assert(map_res_ok::<P, O2, E2, G>(s.p, s.g, input, m, o2)); let r: IResult<&'a [u8], O2> = Ok((m, o2)); assert(s.post(input, r)); r }
                        Err(e2) => { assert(s.p.post(input, Ok((m, o))) && call_ensures(s.g, (o,), Err(e2))); assert(map_res_err::<P, O2, E2, G>(s.p, s.g, input)); Err(Err::Error(Error { input, code: ErrorKind::MapRes })) }
                    }
                    Err(e) => { assert(s.p.post(input, Err(e))); Err(e) }
                }
            }
        }
        pub open spec fn flat_mid<'a, P: Parser<'a>, H: Parser<'a>, G: Fn(P::Output) -> H>(p: P, g: G, input: &'a [u8], m: &'a [u8], o: P::Output, h: H) -> bool {
            p.post(input, Ok((m, o))) && call_ensures(g, (o,), h)
        }
        /// a parser made from what the first one gave
        pub struct FlatMap<P, G, H> { pub p: P, pub g: G, pub h: core::marker::PhantomData<H> }
        pub fn flat_map<'a, P: Parser<'a>, H: Parser<'a>, G: Fn(P::Output) -> H>(p: P, g: G) -> (r: FlatMap<P, G, H>) ensures r.p == p, r.g == g { FlatMap { p, g, h: core::marker::PhantomData } }
        impl<'a, P: Parser<'a>, H: Parser<'a>, G: Fn(P::Output) -> H> Parser<'a> for FlatMap<P, G, H> {
            type Output = H::Output;
            open spec fn pre(&self) -> bool { self.p.pre() && (forall|o: P::Output| #[trigger] call_requires(self.g, (o,))) && (forall|o: P::Output, h: H| #[trigger] call_ensures(self.g, (o,), h) ==> h.pre()) }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], H::Output>) -> bool {
                (match r { Err(e) => self.p.post(input, Err(e)), _ => false })
                || (exists|m: &'a [u8], o: P::Output, h: H| #[trigger] flat_mid(self.p, self.g, input, m, o, h) && h.post(m, r))
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], H::Output>) {
                let ghost s = *self;
                match self.p.parse(input) {
                    Ok((m, o)) => { let ghost o0 = o; let mut h = (self.g)(o); let ghost h0 = h; let r = h.parse(m); assert(flat_mid(s.p, s.g, input, m, o0, h0)); r }
                    Err(e) => { assert(s.p.post(input, Err(e))); Err(e) }
                }
            }
        }
        pub struct Verify<P, G> { pub p: P, pub g: G }
        pub fn verify<'a, P: Parser<'a>, G: Fn(&P::Output) -> bool>(p: P, g: G) -> (r: Verify<P, G>) ensures r == (Verify { p, g }) { Verify { p, g } }
        impl<'a, P: Parser<'a>, G: Fn(&P::Output) -> bool> Parser<'a> for Verify<P, G> {
            type Output = P::Output;
            open spec fn pre(&self) -> bool { self.p.pre() && forall|o: P::Output| #[trigger] call_requires(self.g, (&o,)) }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], P::Output>) -> bool {
                match r {
                    Ok((m, o)) => self.p.post(input, r) && call_ensures(self.g, (&o,), true),
                    Err(e) => self.p.post(input, Err(e)) || (e is Error && exists|m: &'a [u8], o: P::Output| #[trigger] self.p.post(input, Ok((m, o))) && call_ensures(self.g, (&o,), false)),
                }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], P::Output>) {
                match self.p.parse(input) { Ok((m, o)) => if (self.g)(&o) { Ok((m, o)) } else { Err(Err::Error(Error { input, code: ErrorKind::Verify })) }, Err(e) => Err(e) }
            }
        }
        pub struct Cond<P> { pub b: bool, pub p: P }
        pub fn cond<'a, P: Parser<'a>>(b: bool, p: P) -> (r: Cond<P>) ensures r == (Cond { b, p }) { Cond { b, p } }
        impl<'a, P: Parser<'a>> Parser<'a> for Cond<P> {
            type Output = Option<P::Output>;
            open spec fn pre(&self) -> bool { self.p.pre() }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Option<P::Output>>) -> bool {
                if !self.b { r == Ok::<(&'a [u8], Option<P::Output>), Err<Error<&'a [u8]>>>((input, None)) }
                else { match r { Ok((m, Some(o))) => self.p.post(input, Ok((m, o))), Ok((_, None)) => false, Err(e) => self.p.post(input, Err(e)) } }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Option<P::Output>>) {
                if self.b { match self.p.parse(input) { Ok((m, o)) => Ok((m, Some(o))), Err(e) => Err(e) } } else { Ok((input, None)) }
            }
        }
    }
    pub mod branch {
        use vstd::prelude::*;
        use super::{*, error::*};
        pub struct Alt<T> { pub t: T }
        pub fn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }
        impl<'a, A: Parser<'a>, B: Parser<'a, Output = A::Output>> Parser<'a> for Alt<(A, B)> {
            type Output = A::Output;
            open spec fn pre(&self) -> bool { self.t.0.pre() && self.t.1.pre() }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], A::Output>) -> bool {
                (!is_error(r) && self.t.0.post(input, r))
                || (exists|e: Error<&'a [u8]>| #[trigger] self.t.0.post(input, Err(Err::Error(e))) &&
                    (if is_error(r) { exists|e2: Error<&'a [u8]>| #[trigger] self.t.1.post(input, Err(Err::Error(e2))) } else { self.t.1.post(input, r) }))
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], A::Output>) {
                let ghost s = *self;
                match self.t.0.parse(input) { Err(Err::Error(e)) => { assert(s.t.0.post(input, Err(Err::Error(e)))); let r = self.t.1.parse(input); assert(s.t.1.post(input, r)); proof { if is_error(r) { let e2 = r->Err_0->Error_0; assert(s.t.1.post(input, Err(Err::Error(e2)))); } } r } x => x }
            }
        }
    }
    pub mod error_ext { }
    pub mod multi {
        use vstd::prelude::*;
        use super::{*, error::*};
        /// `ins` is a run of successful applications of `p` that yields `v`
        pub open spec fn chain<'a, P: Parser<'a>>(p: P, ins: Seq<&'a [u8]>, v: Seq<P::Output>) -> bool {
            ins.len() == v.len() + 1 && forall|k: int| 0 <= k < v.len() ==> #[trigger] p.post(ins[k], Ok((ins[k + 1], v[k]))) && ins[k + 1]@.len() != ins[k]@.len()
        }
        /// zero or more; stops at the first recoverable error
        pub struct Many0<P> { pub p: P }
        pub fn many0<'a, P: Parser<'a>>(p: P) -> (r: Many0<P>) ensures r == (Many0 { p }) { Many0 { p } }
        impl<'a, P: Parser<'a>> Parser<'a> for Many0<P> {
            type Output = Vec<P::Output>;
            open spec fn pre(&self) -> bool { self.p.pre() && forall|i: &'a [u8], m: &'a [u8], o: P::Output| #[trigger] self.p.post(i, Ok((m, o))) ==> m@.len() <= i@.len() }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>) -> bool {
                match r {
                    Ok((m, v)) => exists|ins: Seq<&'a [u8]>| #[trigger] chain(self.p, ins, v@) && ins[0] == input && ins.last() == m && exists|e: Error<&'a [u8]>| #[trigger] self.p.post(m, Err(Err::Error(e))),
                    Err(e) => exists|ins: Seq<&'a [u8]>, v: Seq<P::Output>| #[trigger] chain(self.p, ins, v) && ins[0] == input && (
                        match e {
                            Err::Error(_) => exists|m: &'a [u8], o: P::Output| #[trigger] self.p.post(ins.last(), Ok((m, o))) && m@.len() == ins.last()@.len(),
                            _ => self.p.post(ins.last(), Err(e)),
                        }),
                }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Vec<P::Output>>) {
                let mut i = input;
                let mut res: Vec<P::Output> = Vec::new();
                let ghost mut ins: Seq<&'a [u8]> = seq![input];
                loop
                    invariant chain(self.p, ins, res@), ins[0] == input, ins.last() == i, self.pre(), *self == *old(self),
                    decreases i@.len()
                {
                    match self.p.parse(i) {
                        Ok((m, o)) => {
                            if m.len() == i.len() { return Err(Err::Error(Error { input: i, code: ErrorKind::Other })); }
                            let ghost v0 = res@; let ghost ins0 = ins; assert(self.p.post(i, Ok((m, o))));
                            res.push(o);
                            proof { ins = ins.push(m); assert forall|k: int| 0 <= k < res@.len() implies #[trigger] self.p.post(ins[k], Ok((ins[k + 1], res@[k]))) && ins[k + 1]@.len() != ins[k]@.len() by { if k < v0.len() { assert(self.p.post(ins0[k], Ok((ins0[k + 1], v0[k])))); assert(ins[k] == ins0[k] && ins[k + 1] == ins0[k + 1] && res@[k] == v0[k]); } else { assert(ins[k] == i && ins[k + 1] == m && res@[k] == o); assert(self.p.post(i, Ok((m, o)))); } } }
                            i = m;
                        }
                        Err(Err::Error(e)) => {
                            assert(old(self).p.post(i, Err(Err::Error(e))));
                            let r: IResult<&'a [u8], Vec<P::Output>> = Ok((i, res)); let ghost v = r->Ok_0.1;
                            assert(chain(old(self).p, ins, v@)); assert(exists|e: Error<&'a [u8]>| #[trigger] old(self).p.post(i, Err(Err::Error(e))));
                            return r;
                        }
                        Err(e) => { return Err(e); }
                    }
                }
            }
        }
        // ---- what repeating a parser means on byte strings
        pub ghost enum PR<T> { Inc, Bad, Ok(T, Seq<u8>) }
        pub open spec fn agrees<'a, O, T>(s: PR<T>, r: IResult<&'a [u8], O>, v: spec_fn(O) -> T) -> bool {
            match s { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(t, rest) => r matches Ok((m, o)) && m@ == rest && v(o) == t }
        }
        /// `n` times `f`, each time consuming something
        pub open spec fn rep<T>(f: spec_fn(Seq<u8>) -> PR<T>, n: int, s: Seq<u8>) -> PR<Seq<T>> decreases n {
            if n <= 0 { PR::Ok(Seq::empty(), s) }
            else { match f(s) { PR::Inc => PR::Inc, PR::Bad => PR::Bad,
                PR::Ok(t, r) => if r.len() == s.len() { PR::Bad } else { match rep(f, n - 1, r) { PR::Ok(l, r2) => PR::Ok(seq![t] + l, r2), e => e } } } }
        }
        /// `f` until it refuses
        pub open spec fn rep0<T>(f: spec_fn(Seq<u8>) -> PR<T>, s: Seq<u8>) -> PR<Seq<T>> decreases s.len() {
            match f(s) { PR::Inc => PR::Inc, PR::Bad => PR::Ok(Seq::empty(), s),
                PR::Ok(t, r) => if r.len() >= s.len() { PR::Bad } else { match rep0(f, r) { PR::Ok(l, r2) => PR::Ok(seq![t] + l, r2), e => e } } }
        }
        pub open spec fn views<O, T>(v: Seq<O>, f: spec_fn(O) -> T) -> Seq<T> { Seq::new(v.len(), |i: int| f(v[i])) }
        pub proof fn rep_chain<'a, P: Parser<'a>, T>(p: P, f: spec_fn(Seq<u8>) -> PR<T>, vw: spec_fn(P::Output) -> T, ins: Seq<&'a [u8]>, v: Seq<P::Output>, n: int)
            requires chain(p, ins, v), v.len() <= n, forall|i: &'a [u8], r: IResult<&'a [u8], P::Output>| #[trigger] p.post(i, r) ==> agrees(f(i@), r, vw),
            ensures rep(f, n, ins[0]@) == (match rep(f, n - v.len(), ins.last()@) { PR::Ok(l, r2) => PR::Ok(views(v, vw) + l, r2), e => e })
            decreases v.len()
        {
            if v.len() == 0 { assert(views(v, vw) =~= Seq::empty()); assert(rep(f, n, ins[0]@) matches PR::Ok(l, _) ==> views(v, vw) + l =~= l); }
            else {
                assert(p.post(ins[0], Ok((ins[1], v[0]))));
                let ins2 = ins.skip(1); let v2 = v.skip(1);
                assert(chain(p, ins2, v2)) by { assert forall|k: int| 0 <= k < v2.len() implies #[trigger] p.post(ins2[k], Ok((ins2[k + 1], v2[k]))) && ins2[k + 1]@.len() != ins2[k]@.len() by { assert(p.post(ins[k + 1], Ok((ins[k + 1 + 1], v[k + 1])))); } }
                rep_chain(p, f, vw, ins2, v2, n - 1);
                assert(ins2.last() == ins.last());
                assert(views(v, vw) =~= seq![vw(v[0])] + views(v2, vw));
                match rep(f, n - v.len(), ins.last()@) { PR::Ok(l, r2) => { assert(seq![vw(v[0])] + (views(v2, vw) + l) =~= views(v, vw) + l); }, _ => {} }
            }
        }
        /// many_m_n(n, n, p) repeats what `p` does n times
        pub proof fn rep_many<'a, P: Parser<'a>, T>(p: P, f: spec_fn(Seq<u8>) -> PR<T>, vw: spec_fn(P::Output) -> T, n: usize, input: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>)
            requires (ManyMN { min: n, max: n, p }).post(input, r), forall|i: &'a [u8], r: IResult<&'a [u8], P::Output>| #[trigger] p.post(i, r) ==> agrees(f(i@), r, vw),
            ensures match rep(f, n as int, input@) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, v)) && m@ == rest && views(v@, vw) == l }
        {
            match r {
                Ok((m, v)) => {
                    let ins = choose|ins: Seq<&'a [u8]>| #[trigger] chain(p, ins, v@) && ins[0] == input && ins.last() == m;
                    rep_chain(p, f, vw, ins, v@, n as int);
                    assert(views(v@, vw) + Seq::<T>::empty() =~= views(v@, vw));
                }
                Err(e) => {
                    let (ins, v) = choose|ins: Seq<&'a [u8]>, v: Seq<P::Output>| #[trigger] chain(p, ins, v) && ins[0] == input && v.len() < n && (
                        match e {
                            Err::Error(_) => (v.len() < n && exists|e2: Error<&'a [u8]>| #[trigger] p.post(ins.last(), Err(Err::Error(e2)))) || exists|m: &'a [u8], o: P::Output| #[trigger] p.post(ins.last(), Ok((m, o))) && m@.len() == ins.last()@.len(),
                            _ => p.post(ins.last(), Err(e)),
                        });
                    rep_chain(p, f, vw, ins, v, n as int);
                }
            }
        }
        /// many0(p) repeats what `p` does until it refuses
        pub proof fn rep0_chain<'a, P: Parser<'a>, T>(p: P, f: spec_fn(Seq<u8>) -> PR<T>, vw: spec_fn(P::Output) -> T, ins: Seq<&'a [u8]>, v: Seq<P::Output>)
            requires chain(p, ins, v), forall|i: &'a [u8], r: IResult<&'a [u8], P::Output>| #[trigger] p.post(i, r) ==> agrees(f(i@), r, vw) && (r matches Ok((m, _)) ==> m@.len() < i@.len()),
            ensures rep0(f, ins[0]@) == (match rep0(f, ins.last()@) { PR::Ok(l, r2) => PR::Ok(views(v, vw) + l, r2), e => e })
            decreases v.len()
        {
            if v.len() == 0 { assert(views(v, vw) =~= Seq::empty()); assert(rep0(f, ins[0]@) matches PR::Ok(l, _) ==> views(v, vw) + l =~= l); }
            else {
                assert(p.post(ins[0], Ok((ins[1], v[0]))));
                let ins2 = ins.skip(1); let v2 = v.skip(1);
                assert(chain(p, ins2, v2)) by { assert forall|k: int| 0 <= k < v2.len() implies #[trigger] p.post(ins2[k], Ok((ins2[k + 1], v2[k]))) && ins2[k + 1]@.len() != ins2[k]@.len() by { assert(p.post(ins[k + 1], Ok((ins[k + 1 + 1], v[k + 1])))); } }
                rep0_chain(p, f, vw, ins2, v2);
                assert(ins2.last() == ins.last());
                assert(views(v, vw) =~= seq![vw(v[0])] + views(v2, vw));
                match rep0(f, ins.last()@) { PR::Ok(l, r2) => { assert(seq![vw(v[0])] + (views(v2, vw) + l) =~= views(v, vw) + l); }, _ => {} }
            }
        }
        pub proof fn rep0_many<'a, P: Parser<'a>, T>(p: P, f: spec_fn(Seq<u8>) -> PR<T>, vw: spec_fn(P::Output) -> T, input: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>)
            requires (Many0 { p }).post(input, r), forall|i: &'a [u8], r: IResult<&'a [u8], P::Output>| #[trigger] p.post(i, r) ==> agrees(f(i@), r, vw) && (r matches Ok((m, _)) ==> m@.len() < i@.len()),
            ensures match rep0(f, input@) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, v)) && m@ == rest && views(v@, vw) == l }
        {
            match r {
                Ok((m, v)) => {
                    let ins = choose|ins: Seq<&'a [u8]>| #[trigger] chain(p, ins, v@) && ins[0] == input && ins.last() == m && exists|e: Error<&'a [u8]>| #[trigger] p.post(m, Err(Err::Error(e)));
                    rep0_chain(p, f, vw, ins, v@);
                    assert(views(v@, vw) + Seq::<T>::empty() =~= views(v@, vw));
                }
                Err(e) => {
                    let (ins, v) = choose|ins: Seq<&'a [u8]>, v: Seq<P::Output>| #[trigger] chain(p, ins, v) && ins[0] == input && (
                        match e {
                            Err::Error(_) => exists|m: &'a [u8], o: P::Output| #[trigger] p.post(ins.last(), Ok((m, o))) && m@.len() == ins.last()@.len(),
                            _ => p.post(ins.last(), Err(e)),
                        });
                    rep0_chain(p, f, vw, ins, v);
                }
            }
        }
        pub struct ManyMN<P> { pub min: usize, pub max: usize, pub p: P }
        pub fn many_m_n<'a, P: Parser<'a>>(min: usize, max: usize, p: P) -> (r: ManyMN<P>) ensures r == (ManyMN { min, max, p }) { ManyMN { min, max, p } }
        impl<'a, P: Parser<'a>> Parser<'a> for ManyMN<P> {
            type Output = Vec<P::Output>;
            open spec fn pre(&self) -> bool { self.p.pre() }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>) -> bool {
                if self.min > self.max { is_failure(r) } else {
                match r {
                    Ok((m, v)) => v@.len() <= self.max && exists|ins: Seq<&'a [u8]>| #[trigger] chain(self.p, ins, v@) && ins[0] == input && ins.last() == m
                        && (v@.len() < self.max ==> v@.len() >= self.min && exists|e: Error<&'a [u8]>| #[trigger] self.p.post(m, Err(Err::Error(e)))),
                    Err(e) => exists|ins: Seq<&'a [u8]>, v: Seq<P::Output>| #[trigger] chain(self.p, ins, v) && ins[0] == input && v.len() < self.max && (
                        match e {
                            Err::Error(_) => (v.len() < self.min && exists|e2: Error<&'a [u8]>| #[trigger] self.p.post(ins.last(), Err(Err::Error(e2)))) || exists|m: &'a [u8], o: P::Output| #[trigger] self.p.post(ins.last(), Ok((m, o))) && m@.len() == ins.last()@.len(),
                            _ => self.p.post(ins.last(), Err(e)),
                        }),
                } }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Vec<P::Output>>) {
                if self.min > self.max { return Err(Err::Failure(Error { input, code: ErrorKind::Other })); }
                let mut i = input;
                let mut res: Vec<P::Output> = Vec::new();
                let mut count: usize = 0;
                let ghost mut ins: Seq<&'a [u8]> = seq![input];
                while count < self.max
                    invariant count <= self.max, res@.len() == count, chain(self.p, ins, res@), ins[0] == input, ins.last() == i, self.p.pre(), *self == *old(self), self.min <= self.max
                    decreases self.max - count
                {
                    match self.p.parse(i) {
                        Ok((m, o)) => {
                            if m.len() == i.len() { return Err(Err::Error(Error { input: i, code: ErrorKind::Other })); }
                            let ghost ins0 = ins;
                            let ghost v0 = res@; assert(self.p.post(i, Ok((m, o))));
                            res.push(o);
                            proof {
                                ins = ins.push(m);
                                assert(chain(self.p, ins, res@)) by {
                                    assert forall|k: int| 0 <= k < res@.len() implies #[trigger] self.p.post(ins[k], Ok((ins[k + 1], res@[k]))) && ins[k + 1]@.len() != ins[k]@.len() by {
                                        if k < v0.len() { assert(self.p.post(ins0[k], Ok((ins0[k + 1], v0[k])))); assert(ins[k] == ins0[k] && ins[k + 1] == ins0[k + 1] && res@[k] == v0[k]); } else { assert(ins[k] == i && ins[k + 1] == m && res@[k] == o); assert(self.p.post(i, Ok((m, o)))); }
                                    }
                                }
                            }
                            i = m;
                        }
                        Err(Err::Error(e)) => {
                            if count < self.min { return Err(Err::Error(e)); }
                            return Ok((i, res));
                        }
                        Err(e) => { return Err(e); }
                    }
                    count += 1;
                }
                Ok((i, res))
            }
        }
        /// what a parser does, said on byte strings
        pub open spec fn does<'a, P: Parser<'a>, T>(p: P, f: spec_fn(Seq<u8>) -> PR<T>, vw: spec_fn(P::Output) -> T) -> bool {
            forall|i: &'a [u8], r: IResult<&'a [u8], P::Output>| #[trigger] p.post(i, r) ==> agrees(f(i@), r, vw)
        }
        pub open spec fn shrinks<'a, P: Parser<'a>>(p: P) -> bool {
            forall|i: &'a [u8], m: &'a [u8], o: P::Output| #[trigger] p.post(i, Ok((m, o))) ==> m@.len() < i@.len()
        }
        /// `many_m_n(n, n, p)` and `many0(p)` where `f` says what `p` does
        #[verifier::reject_recursive_types(P)]
        pub struct RepN<'a, P: Parser<'a>, T> { pub q: ManyMN<P>, pub f: Ghost<(spec_fn(Seq<u8>) -> PR<T>, spec_fn(P::Output) -> T)>, pub ph: core::marker::PhantomData<&'a ()> }
        pub fn many_n<'a, P: Parser<'a, Output = O>, O, T>(min: usize, max: usize, Ghost(f): Ghost<spec_fn(Seq<u8>) -> PR<T>>, Ghost(vw): Ghost<spec_fn(O) -> T>, p: P) -> (r: RepN<'a, P, T>)
            requires p.pre(), min == max, does(p, f, vw)
            ensures r == (RepN { q: ManyMN { min, max, p }, f: Ghost((f, vw)), ph: core::marker::PhantomData }), r.pre()
        { RepN { q: ManyMN { min, max, p }, f: Ghost((f, vw)), ph: core::marker::PhantomData } }
        impl<'a, P: Parser<'a>, T> Parser<'a> for RepN<'a, P, T> {
            type Output = Vec<P::Output>;
            open spec fn pre(&self) -> bool { self.q.p.pre() && self.q.min == self.q.max && does(self.q.p, self.f@.0, self.f@.1) }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>) -> bool {
                match rep(self.f@.0, self.q.max as int, input@) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, v)) && m@ == rest && views(v@, self.f@.1) == l }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Vec<P::Output>>) {
                let r = self.q.parse(input);
                proof { rep_many(self.q.p, self.f@.0, self.f@.1, self.q.max, input, r); }
                r
            }
        }
        #[verifier::reject_recursive_types(P)]
        pub struct Rep0<'a, P: Parser<'a>, T> { pub q: Many0<P>, pub f: Ghost<(spec_fn(Seq<u8>) -> PR<T>, spec_fn(P::Output) -> T)>, pub ph: core::marker::PhantomData<&'a ()> }
        pub fn many_0<'a, P: Parser<'a, Output = O>, O, T>(Ghost(f): Ghost<spec_fn(Seq<u8>) -> PR<T>>, Ghost(vw): Ghost<spec_fn(O) -> T>, p: P) -> (r: Rep0<'a, P, T>)
            requires p.pre(), does(p, f, vw), shrinks(p)
            ensures r == (Rep0 { q: Many0 { p }, f: Ghost((f, vw)), ph: core::marker::PhantomData }), r.pre()
        { Rep0 { q: Many0 { p }, f: Ghost((f, vw)), ph: core::marker::PhantomData } }
        impl<'a, P: Parser<'a>, T> Parser<'a> for Rep0<'a, P, T> {
            type Output = Vec<P::Output>;
            open spec fn pre(&self) -> bool { self.q.p.pre() && does(self.q.p, self.f@.0, self.f@.1) && shrinks(self.q.p) }
            open spec fn post(&self, input: &'a [u8], r: IResult<&'a [u8], Vec<P::Output>>) -> bool {
                match rep0(self.f@.0, input@) { PR::Inc => is_inc(r), PR::Bad => is_error(r), PR::Ok(l, rest) => r matches Ok((m, v)) && m@ == rest && views(v@, self.f@.1) == l }
            }
            fn parse(&mut self, input: &'a [u8]) -> (r: IResult<&'a [u8], Vec<P::Output>>) {
                let r = self.q.parse(input);
                proof { rep0_many(self.q.p, self.f@.0, self.f@.1, input, r); }
                r
            }
        }
    }
    }
}
