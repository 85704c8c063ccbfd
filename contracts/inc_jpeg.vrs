//@item src/jpeg.rs struct Segment
//@item src/jpeg.rs enum MarkerCode | derive(Clone, Copy) | repr(u8)
pub ghost enum Seg { Inc, Bad, Seg { code: u8, payload: Seq<u8>, next: int } }
/// one marker segment at the head of `s`
pub open spec fn seg(s: Seq<u8>) -> Seg {
    if s.len() == 0 { Seg::Inc }
    else if s[0] != 0xFF { Seg::Bad }
    else if s.len() < 2 { Seg::Inc }
    else if s[1] == 0xD8 { Seg::Seg { code: 0xD8, payload: Seq::empty(), next: 2 } }
    else if s.len() < 4 { Seg::Inc }
    else { let n = s16be(s.skip(2));
        if n < 2 { Seg::Bad } else if s.len() < 2 + n { Seg::Inc }
        else { Seg::Seg { code: s[1], payload: s.subrange(4, 2 + n), next: 2 + n } } }
}
pub open spec fn seg_res(marker_code: u8, s: Seq<u8>) -> Seg {
    if marker_code == 0xD8 { Seg::Seg { code: 0xD8, payload: Seq::empty(), next: 0 } }
    else if s.len() < 2 { Seg::Inc }
    else { let n = s16be(s); if n < 2 { Seg::Bad } else if s.len() < n { Seg::Inc } else { Seg::Seg { code: marker_code, payload: s.subrange(2, n), next: n } } }
}

