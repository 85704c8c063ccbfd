// ---- the EBML types, and what the functions over a cursor answer
//@item src/ebml/vint.rs struct VInt
//@item src/ebml/vint.rs enum ParseVIntFailed
//@item src/ebml/element.rs enum ParseEBMLFailed | sub `Box<dyn std::error::Error + Send + Sync>` => `VMsg`
//@item src/ebml/element.rs enum TopElementId | derive(Clone, Copy)
//@item src/ebml/element.rs enum EBMLHeaderId | derive(Clone, Copy)
//@item src/ebml/element.rs struct ElementHeader | derive(Clone)
pub open spec fn el_is(x: ElementHeader, h: El) -> bool { x.id == h.id && x.data_size == h.size && x.header_size == h.hlen && h.size < 0x100_0000_0000_0000 }
pub open spec fn cmoved(a: Cursor<&[u8]>, b: Cursor<&[u8]>, at: int) -> bool { a.data() == b.data() && a.at() == at }
/// what a search for an element gives; the cursor is at the data of the element found
pub open spec fn el_found(r: Result<ElementHeader, ParseEBMLFailed>, c: Cursor<&[u8]>, f: ElF) -> bool {
    match f { ElF::Need => r matches Err(ParseEBMLFailed::Need(_)), ElF::Bad => r matches Err(ParseEBMLFailed::InvalidEBMLFile(_)), ElF::At(h, a) => r matches Ok(x) && el_is(x, h) && c.at() == a && a <= c.data().len() }
}
pub open spec fn decides<F: Fn(&ElementHeader) -> bool>(f: F, g: spec_fn(int) -> bool) -> bool {
    (forall|x: &ElementHeader| #[trigger] f.requires((x,))) && (forall|x: &ElementHeader, b: bool| #[trigger] f.ensures((x,), b) ==> b == !g(x.id as int))
}
