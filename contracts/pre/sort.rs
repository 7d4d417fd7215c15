// ---------------------------------------------------------------- Vec::sort_by, Ord::max

/// TRUSTED: sort_by is a function of the contents and the comparison; it keeps the elements, and orders them when the
/// comparison is a total preorder on them. (With an inconsistent comparison std may also panic; assumed not to happen.)
pub uninterp spec fn sorted_seq<T>(s: Seq<T>, c: spec_fn(T, T) -> core::cmp::Ordering) -> Seq<T>;
pub open spec fn preorder<T>(s: Seq<T>, c: spec_fn(T, T) -> core::cmp::Ordering) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] c(s[i], s[j]) == core::cmp::Ordering::Greater <==> c(s[j], s[i]) == core::cmp::Ordering::Less)
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) != core::cmp::Ordering::Greater && #[trigger] c(s[j], s[k]) != core::cmp::Ordering::Greater
        ==> c(s[i], s[k]) != core::cmp::Ordering::Greater
}
pub axiom fn ax_sorted_elems<T>(s: Seq<T>, c: spec_fn(T, T) -> core::cmp::Ordering)
    ensures sorted_seq(s, c).len() == s.len(), sorted_seq(s, c).to_multiset() == s.to_multiset();
pub axiom fn ax_sorted_order<T>(s: Seq<T>, c: spec_fn(T, T) -> core::cmp::Ordering)
    requires preorder(s, c)
    ensures forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] c(sorted_seq(s, c)[i], sorted_seq(s, c)[j]) != core::cmp::Ordering::Greater;
pub trait VxSort<T> {
    spec fn so(&self) -> Seq<T>;
    fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F, c: Ghost<spec_fn(T, T) -> core::cmp::Ordering>)
        requires forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
            forall|a: T, b: T, y: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), y) ==> y == (c@)(a, b)
        ensures final(self).so() == sorted_seq(old(self).so(), c@);
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn so(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F, c: Ghost<spec_fn(T, T) -> core::cmp::Ordering>) { unimplemented!() }
}
