/// Verified stand-in for `std::collections::HashMap` (a list of pairs; the last one with a key counts).
pub mod vmap {
use vstd::prelude::*;
verus! {
pub trait VKey: Sized { type KV; spec fn kv(&self) -> Self::KV; }
impl VKey for u16 { type KV = u16; open spec fn kv(&self) -> u16 { *self } }
impl VKey for u32 { type KV = u32; open spec fn kv(&self) -> u32 { *self } }
impl VKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
/// what a key can be looked up by
pub trait VQ<K: VKey> { spec fn qv(&self) -> K::KV; fn same(&self, o: &K) -> (r: bool) ensures r == (self.qv() == o.kv()); }
impl VQ<u16> for u16 { open spec fn qv(&self) -> u16 { *self } fn same(&self, o: &u16) -> (r: bool) { *self == *o } }
impl VQ<u32> for u32 { open spec fn qv(&self) -> u32 { *self } fn same(&self, o: &u32) -> (r: bool) { *self == *o } }
impl VQ<String> for str { open spec fn qv(&self) -> Seq<char> { self@ } fn same(&self, o: &String) -> (r: bool) { self == o.as_str() } }
pub struct HashMap<K, V> { pub v: Vec<(K, V)> }
pub open spec fn mview<K: VKey, V>(s: Seq<(K, V)>) -> Map<K::KV, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { mview(s.drop_last()).insert(s.last().0.kv(), s.last().1) } }
impl<K: VKey, V> View for HashMap<K, V> { type V = Map<K::KV, V>; open spec fn view(&self) -> Map<K::KV, V> { mview(self.v@) } }
proof fn mview_push<K: VKey, V>(s: Seq<(K, V)>, k: K, v: V) ensures mview(s.push((k, v))) == mview(s).insert(k.kv(), v) { assert(s.push((k, v)).drop_last() =~= s); }
proof fn mview_at<K: VKey, V>(s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(), forall|j: int| i < j < s.len() ==> s[j].0.kv() != s[i].0.kv(),
    ensures mview(s).contains_key(s[i].0.kv()), mview(s)[s[i].0.kv()] == s[i].1
    decreases s.len()
{ if i < s.len() - 1 { assert(s.last() == s[s.len() - 1]); assert(s.drop_last()[i] == s[i]); mview_at(s.drop_last(), i); } }
proof fn mview_no<K: VKey, V>(s: Seq<(K, V)>, k: K::KV)
    requires forall|j: int| 0 <= j < s.len() ==> s[j].0.kv() != k,
    ensures !mview(s).contains_key(k)
    decreases s.len()
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|j: int| 0 <= j < s.drop_last().len() implies s.drop_last()[j].0.kv() != k by { assert(s.drop_last()[j] == s[j]); } mview_no(s.drop_last(), k); } }
proof fn mview_map<K: VKey, V, F: Fn(V) -> V>(a: Seq<(K, V)>, b: Seq<(K, V)>, f: F)
    requires a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> a[i].0 == (#[trigger] b[i]).0 && f.ensures((a[i].1,), b[i].1)
    ensures mview(a).dom() == mview(b).dom(), forall|k: K::KV| #[trigger] mview(a).contains_key(k) ==> f.ensures((mview(a)[k],), mview(b)[k])
    decreases a.len()
{
    if a.len() > 0 {
        assert(a[a.len() - 1] == a.last() && b[b.len() - 1] == b.last());
        assert forall|i: int| 0 <= i < b.drop_last().len() implies a.drop_last()[i].0 == (#[trigger] b.drop_last()[i]).0 && f.ensures((a.drop_last()[i].1,), b.drop_last()[i].1) by { assert(b.drop_last()[i] == b[i]); }
        mview_map(a.drop_last(), b.drop_last(), f);
        assert(mview(a).dom() =~= mview(b).dom());
    } else { assert(mview(a).dom() =~= mview(b).dom()); }
}
impl<K: VKey, V> HashMap<K, V> {
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { HashMap { v: Vec::new() } }
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k.kv(), v) { proof { mview_push(self.v@, k, v); } self.v.push((k, v)); }
    pub fn get<Q: VQ<K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(k.qv()) && self@[k.qv()] == *v, None => !self@.contains_key(k.qv()) } {
        let mut i: usize = self.v.len();
        while i > 0 invariant i <= self.v@.len(), forall|j: int| i <= j < self.v@.len() ==> self.v@[j].0.kv() != k.qv(), decreases i {
            i -= 1;
            if k.same(&self.v[i].0) { proof { mview_at(self.v@, i as int); } return Some(&self.v[i].1); }
        }
        proof { mview_no(self.v@, k.qv()); }
        None
    }
    pub fn contains_key<Q: VQ<K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.qv()) { match self.get(k) { Some(_) => true, None => false } }
    pub fn remove<Q: VQ<K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.qv()) {
        let mut w: Vec<(K, V)> = Vec::new();
        let mut r: Option<V> = None;
        let ghost v0 = self.v@;
        let ghost mut i = 0int;
        proof { assert(mview(v0.take(0)).remove(k.qv()) =~= Map::empty()); }
        while self.v.len() > 0
            invariant 0 <= i <= v0.len(), self.v@ == v0.skip(i), mview(w@) == mview(v0.take(i)).remove(k.qv()),
            decreases self.v@.len()
        {
            let x = self.v.remove(0);
            assert(x == v0[i]);
            assert(v0.take(i + 1).drop_last() =~= v0.take(i));
            assert(v0.take(i + 1).last() == x);
            assert(self.v@ =~= v0.skip(i + 1));
            let ghost m0 = mview(v0.take(i));
            if k.same(&x.0) { r = Some(x.1); assert(m0.insert(k.qv(), x.1).remove(k.qv()) =~= m0.remove(k.qv())); }
            else { proof { mview_push(w@, x.0, x.1); } let ghost k0 = x.0.kv(); let ghost v1 = x.1; w.push(x); assert(m0.insert(k0, v1).remove(k.qv()) =~= m0.remove(k.qv()).insert(k0, v1)); }
            proof { i = i + 1; }
        }
        proof { assert(v0.take(i) =~= v0); }
        self.v = w;
        r
    }
    /// one pair after the other, in order
    pub fn v_next(&mut self) -> (r: Option<(K, V)>) ensures match r { None => old(self).v@.len() == 0 && *final(self) == *old(self), Some(x) => old(self).v@.len() > 0 && x == old(self).v@[0] && final(self).v@ == old(self).v@.skip(1) }
    { if self.v.len() == 0 { None } else { let x = self.v.remove(0); assert(self.v@ =~= old(self).v@.skip(1)); Some(x) } }
    pub fn extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) {
        let mut o = o;
        let ghost o0 = o.v@; let ghost s0 = self@;
        let ghost mut i = 0int;
        proof { assert(s0.union_prefer_right(mview(o0.take(0))) =~= s0); }
        while o.v.len() > 0
            invariant 0 <= i <= o0.len(), o.v@ == o0.skip(i), self@ == s0.union_prefer_right(mview(o0.take(i))),
            decreases o.v@.len()
        {
            let x = o.v.remove(0);
            assert(x == o0[i]);
            assert(o0.take(i + 1).drop_last() =~= o0.take(i));
            assert(o0.take(i + 1).last() == x);
            assert(o.v@ =~= o0.skip(i + 1));
            let ghost k0 = x.0.kv(); let ghost v1 = x.1;
            self.insert(x.0, x.1);
            assert(s0.union_prefer_right(mview(o0.take(i)).insert(k0, v1)) =~= s0.union_prefer_right(mview(o0.take(i))).insert(k0, v1));
            proof { i = i + 1; }
        }
        proof { assert(o0.take(i) =~= o0); }
    }
    /// every value is replaced
    pub fn v_values_mut<F: Fn(V) -> V>(&mut self, f: F) where V: Copy
        requires forall|x: V| #[trigger] f.requires((x,)),
        ensures final(self)@.dom() == old(self)@.dom(), forall|k: K::KV| #[trigger] old(self)@.contains_key(k) ==> f.ensures((old(self)@[k],), final(self)@[k])
    {
        let mut w: Vec<(K, V)> = Vec::new();
        let ghost v0 = self.v@;
        while self.v.len() > 0
            invariant w@.len() + self.v@.len() == v0.len(), self.v@ == v0.skip(w@.len() as int), forall|x: V| #[trigger] f.requires((x,)), forall|i: int| 0 <= i < w@.len() ==> v0[i].0 == (#[trigger] w@[i]).0 && f.ensures((v0[i].1,), w@[i].1),
            decreases self.v@.len()
        {
            let ghost k = w@.len() as int;
            let x = self.v.remove(0);
            assert(x == v0[k]);
            w.push((x.0, f(x.1)));
            assert(self.v@ =~= v0.skip(k + 1));
        }
        proof { mview_map(v0, w@, f); }
        self.v = w;
    }
    /// what collecting pairs gives: each is inserted, in order
    pub fn collect<T, F: Fn(T) -> (K, V)>(v: Vec<T>, f: F) -> (r: Self)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r.v@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r.v@[i])
    {
        let mut r: Vec<(K, V)> = Vec::new();
        let ghost v0 = v@;
        let mut it = v;
        while it.len() > 0
            invariant r@.len() + it@.len() == v0.len(), it@ == v0.skip(r@.len() as int), forall|x: T| #[trigger] f.requires((x,)), forall|i: int| 0 <= i < r@.len() ==> f.ensures((v0[i],), #[trigger] r@[i]),
            decreases it@.len()
        {
            let ghost k = r@.len() as int;
            let x = it.remove(0);
            assert(x == v0[k]);
            r.push(f(x));
            assert(it@ =~= v0.skip(k + 1));
        }
        HashMap { v: r }
    }
}
}
}
pub use vmap::HashMap;
