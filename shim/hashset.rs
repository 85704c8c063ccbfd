/// Verified stand-in for `std::collections::HashSet` (a list without duplicates).
pub mod vset {
use vstd::prelude::*;
verus! {
pub trait VKey: Sized { fn same(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
impl VKey for usize { fn same(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VKey for (usize, u16) { fn same(&self, o: &Self) -> (r: bool) { self.0 == o.0 && self.1 == o.1 } }
pub struct HashSet<T> { pub v: Vec<T> }
impl<T> View for HashSet<T> { type V = Set<T>; open spec fn view(&self) -> Set<T> { self.v@.to_set() } }
impl<T: VKey> HashSet<T> {
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { let r = HashSet { v: Vec::new() }; assert(r@ =~= Set::<T>::empty()); r }
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) {
        let mut k: usize = 0;
        while k < self.v.len() invariant k <= self.v@.len(), forall|j: int| 0 <= j < k ==> self.v@[j] != *x, decreases self.v@.len() - k {
            if self.v[k].same(x) { assert(self.v@[k as int] == *x); return true; }
            k += 1;
        }
        false
    }
    pub fn insert(&mut self, x: T) -> (r: bool) ensures r == !old(self)@.contains(x), final(self)@ == old(self)@.insert(x) {
        let ghost v0 = self.v@;
        if self.contains(&x) { assert(v0.to_set() =~= v0.to_set().insert(x)); return false; }
        self.v.push(x);
        proof { assert forall|y: T| self.v@.to_set().contains(y) == v0.to_set().insert(x).contains(y) by { if v0.contains(y) { let i = v0.index_of(y); assert(self.v@[i] == y); } if y == x { assert(self.v@[v0.len() as int] == x); } if self.v@.contains(y) { let i = self.v@.index_of(y); if i < v0.len() { assert(v0[i] == y); } } } }
        assert(self.v@.to_set() =~= v0.to_set().insert(x));
        true
    }
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { self.v = Vec::new(); assert(self@ =~= Set::<T>::empty()); }
}
}
}
pub use vset::*;
