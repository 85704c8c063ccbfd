// ---------------------------------------------------------------- everything there is to read
pub proof fn step_item(s: St)
    requires st_wf(s),
    ensures match tstep(s) { Tr::Yield(t, i) => dir_wf(i.x) && i.x.k < i.x.n && 0 <= i.x.idx <= 0x1_0000_0000 && dstep(i.x).1 == DRes::Ent(i.code, i.en)
            && t.stack.len() > 0 && (Dir { idx: 0, code: None, off: 0, n: 0, k: 0, ..t.stack.last() }) == (Dir { idx: 0, code: None, off: 0, n: 0, k: 0, ..i.x })
            && (if good(i) { !s.seen.contains(key_of(i)) && t.seen == s.seen.insert(key_of(i)) } else { t.seen == s.seen }),
        Tr::Go(t) => t.seen == s.seen, Tr::Done => true }
{
    step_wf(s); vis_bound(s.vis);
    if s.stack.len() > 0 {
        let x = cut(s.stack).last();
        assert(dir_small(x, s.vis)) by { if s.stack.len() > 8 { assert(x == s.stack[0]); } else { assert(x == s.stack[s.stack.len() - 1]); } }
        dstep_wf(x);
    }
}
pub open spec fn good(i: Item) -> bool { ent_good(i.x, i.code, i.en) }
pub open spec fn key_of(i: Item) -> (usize, u16) { (i.x.idx as usize, i.code) }
/// what one entry of the walk is known to be
pub proof fn run_item(s: St)
    requires st_wf(s),
    ensures run(s).1 is None ==> run(s).0.seen == s.seen, run(s).1 matches Some(i) ==> ({ let t = run(s).0; st_wf(t) && less(t, s)
            && dir_wf(i.x) && i.x.k < i.x.n && 0 <= i.x.idx <= 0x1_0000_0000 && dstep(i.x).1 == DRes::Ent(i.code, i.en)
            && t.stack.len() > 0 && (Dir { idx: 0, code: None, off: 0, n: 0, k: 0, ..t.stack.last() }) == (Dir { idx: 0, code: None, off: 0, n: 0, k: 0, ..i.x })
            && (if good(i) { !s.seen.contains(key_of(i)) && t.seen == s.seen.insert(key_of(i)) } else { t.seen == s.seen }) })
    decreases s.blocks.len() - s.cur, room(s), left(s.stack)
{ hide(enter); step_wf(s); step_item(s); run_step(s); if let Tr::Go(t) = tstep(s) { run_item(t); } }
/// the entries still to be read, in the order they come
pub open spec fn items(s: St) -> Seq<Item>
    decreases s.blocks.len() - s.cur, room(s), left(s.stack) via items_end
{
    if !st_wf(s) { arbitrary() } else { match run(s) { (t, Some(i)) => seq![i] + items(t), (_, None) => seq![] } }
}
#[via_fn]
proof fn items_end(s: St) { if st_wf(s) { run_item(s); let r = run(s); assert(r.1 is Some ==> less(r.0, s)); } }
/// no two values have the same directory and tag
pub proof fn items_once(s: St)
    requires st_wf(s),
    ensures forall|k: int| 0 <= k < items(s).len() && good(#[trigger] items(s)[k]) ==> !s.seen.contains(key_of(items(s)[k])),
        forall|j: int, k: int| 0 <= j < k < items(s).len() && good(#[trigger] items(s)[j]) && good(#[trigger] items(s)[k]) ==> key_of(items(s)[j]) != key_of(items(s)[k]),
        forall|k: int| 0 <= k < items(s).len() ==> 0 <= (#[trigger] items(s)[k]).x.idx <= 0x1_0000_0000,
    decreases s.blocks.len() - s.cur, room(s), left(s.stack)
{
    run_item(s);
    if let (t, Some(i)) = run(s) {
        items_once(t);
        let r = items(t);
        assert(items(s) =~= seq![i] + r);
        assert forall|k: int| 0 < k < items(s).len() implies #[trigger] items(s)[k] == r[k - 1] by {}
    }
}
/// the first entry with a given tag, and the state behind it
pub open spec fn find_code(s: St, c: u16) -> (St, Option<Item>)
    decreases s.blocks.len() - s.cur, room(s), left(s.stack) via find_ends
{
    if !st_wf(s) { arbitrary() } else { match run(s) { (t, Some(i)) => if i.code == c { (t, Some(i)) } else { find_code(t, c) }, (t, None) => (t, None) } }
}
#[via_fn]
proof fn find_ends(s: St, c: u16) { if st_wf(s) { run_item(s); let r = run(s); assert(r.1 is Some ==> less(r.0, s)); } }
