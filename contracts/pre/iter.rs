// ---------------------------------------------------------------- iterators
// TRUSTED: the eager, order-preserving semantics of std's (and rayon's indexed parallel) iterator adaptors on
// side-effect-free closures. It<T> is the sequence of items still to come.
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
pub type SplitWhitespace<'a> = It<&'a str>;

pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub broadcast proof fn lemma_refs<'a, T>(s: Seq<T>, i: int)
    ensures #![trigger refs::<'a, T>(s)[i]] #![trigger s[i], refs::<'a, T>(s)] 0 <= i < s.len() ==> refs::<'a, T>(s)[i] == &s[i]
{ }
pub broadcast proof fn lemma_refs_len<'a, T>(s: Seq<T>) ensures (#[trigger] refs::<'a, T>(s)).len() == s.len() { }
pub broadcast proof fn lemma_keep_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] p(x) == q(x)
    ensures #[trigger] keep(s, p) == #[trigger] keep(s, q)
    decreases s.len()
{ if s.len() > 0 { lemma_keep_ext(s.drop_last(), p, q); let x = s.last(); assert(p(x) == q(x)); } }
/// what is left after the first k elements
#[verifier::opaque]
pub open spec fn rest<T>(s: Seq<T>, k: int) -> Seq<T> { if k <= s.len() { s.skip(k) } else { Seq::empty() } }
pub broadcast proof fn lemma_rest_rest<T>(s: Seq<T>, i: int, j: int)
    ensures 0 <= i && 0 <= j ==> (#[trigger] rest(rest(s, i), j)) == rest(s, i + j)
{ reveal(rest); if 0 <= i && 0 <= j { assert(rest(rest(s, i), j) =~= rest(s, i + j)); } }
pub broadcast proof fn lemma_rest_len<T>(s: Seq<T>, i: int)
    ensures 0 <= i ==> (#[trigger] rest(s, i)).len() == (if i <= s.len() { s.len() - i } else { 0 })
{ reveal(rest); }
pub broadcast proof fn lemma_rest_at<T>(s: Seq<T>, i: int, k: int)
    ensures 0 <= i && 0 <= k && i + k < s.len() ==> (#[trigger] rest(s, i)[k]) == s[i + k]
{ reveal(rest); }
pub broadcast proof fn lemma_rest_0<T>(s: Seq<T>) ensures (#[trigger] rest(s, 0)) == s
{ reveal(rest); assert(s.skip(0) =~= s); }
pub open spec fn ok_seq<T, E>(r: Result<T, E>) -> Seq<T> { match r { Ok(x) => seq![x], Err(_) => seq![] } }
pub broadcast proof fn lemma_oks<T, E>(s: Seq<Result<T, E>>, g: spec_fn(Result<T, E>) -> Seq<T>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_ok(),
        forall|x: Result<T, E>| #[trigger] g(x) == ok_seq(x),
    ensures (#[trigger] flat(s.map_values(g))) == Seq::new(s.len(), |i: int| s[i]->Ok_0)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_oks(s.drop_last(), g);
        assert(s.map_values(g).drop_last() =~= s.drop_last().map_values(g));
        assert(s.last().is_ok());
    }
    assert(flat(s.map_values(g)) =~= Seq::new(s.len(), |i: int| s[i]->Ok_0));
}
pub broadcast proof fn lemma_somes<T>(s: Seq<Option<T>>, g: spec_fn(Option<T>) -> Seq<T>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_some(),
        forall|x: Option<T>| #[trigger] g(x) == opt_seq(x),
    ensures (#[trigger] flat(s.map_values(g))) == Seq::new(s.len(), |i: int| s[i].unwrap())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_somes(s.drop_last(), g);
        assert(s.map_values(g).drop_last() =~= s.drop_last().map_values(g));
        assert(s.last().is_some());
    }
    assert(flat(s.map_values(g)) =~= Seq::new(s.len(), |i: int| s[i].unwrap()));
}
pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int)
    ensures n == s.len() ==> (#[trigger] s.take(n)) == s
{ if n == s.len() { assert(s.take(n) =~= s); } }
pub broadcast group g_iter { lemma_oks, lemma_take_all, lemma_rest_rest, lemma_rest_len, lemma_rest_at, lemma_rest_0, lemma_refs, lemma_refs_len, lemma_keep_ext, lemma_find_ext }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => seq![] } }
/// the elements of s that satisfy p, in order
pub open spec fn keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if p(s.last()) { keep(s.drop_last(), p).push(s.last()) } else { keep(s.drop_last(), p) }
}
pub open spec fn find_first<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Option<T> decreases s.len() {
    if s.len() == 0 { None } else if p(s[0]) { Some(s[0]) } else { find_first(s.subrange(1, s.len() as int), p) }
}

pub broadcast proof fn lemma_find_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] p(x) == q(x)
    ensures #[trigger] find_first(s, p) == #[trigger] find_first(s, q)
    decreases s.len()
{ if s.len() > 0 { lemma_find_ext(s.subrange(1, s.len() as int), p, q); let x = s[0]; assert(p(x) == q(x)); } }

pub trait VxIter<'a> { type Item; spec fn items_spec(&'a self) -> Seq<Self::Item>;
    fn vx_iter(&'a self) -> (r: It<Self::Item>) ensures r@ == self.items_spec(); }
fn vx_refs<'a, T>(s: &'a [T]) -> (r: It<&'a T>) ensures r@ == refs::<'a, T>(s@) {
    let mut v: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@ =~= refs::<'a, T>(s@.take(i as int))
        decreases s@.len() - i
    { v.push(&s[i]); i = i + 1; }
    proof { assert(s@.take(i as int) =~= s@); }
    It { v }
}
impl<'a, T: 'a> VxIter<'a> for Vec<T> { type Item = &'a T; open spec fn items_spec(&'a self) -> Seq<&'a T> { refs(self@) }
    fn vx_iter(&'a self) -> (r: It<&'a T>) { vx_refs(self.as_slice()) } }
impl<'a, T: 'a> VxIter<'a> for [T] { type Item = &'a T; open spec fn items_spec(&'a self) -> Seq<&'a T> { refs(self@) }
    fn vx_iter(&'a self) -> (r: It<&'a T>) { vx_refs(self) } }

pub trait VxIntoIter { type Item; spec fn into_items(self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: It<Self::Item>) where Self: Sized ensures r@ == self.into_items(); }
impl<T> VxIntoIter for Vec<T> { type Item = T; open spec fn into_items(self) -> Seq<T> { self@ }
    fn vx_into_iter(self) -> (r: It<T>) { It { v: self } } }
impl<T> VxIntoIter for It<T> { type Item = T; open spec fn into_items(self) -> Seq<T> { self@ }
    fn vx_into_iter(self) -> (r: It<T>) { self } }
impl<'a, T> VxIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn into_items(self) -> Seq<&'a T> { refs(self@) }
    fn vx_into_iter(self) -> (r: It<&'a T>) { vx_refs(self.as_slice()) } }
impl<'a, T> VxIntoIter for &'a [T] { type Item = &'a T; open spec fn into_items(self) -> Seq<&'a T> { refs(self@) }
    fn vx_into_iter(self) -> (r: It<&'a T>) { vx_refs(self) } }
impl<T> VxIntoIter for Option<T> { type Item = T; open spec fn into_items(self) -> Seq<T> { opt_seq(self) }
    fn vx_into_iter(self) -> (r: It<T>) { let mut v = Vec::new(); match self { Some(x) => { v.push(x); } None => {} } proof { assert(v@ =~= opt_seq(self)); } It { v } } }
impl VxIntoIter for core::ops::Range<u32> { type Item = u32;
    open spec fn into_items(self) -> Seq<u32> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as u32) } else { Seq::empty() } }
    fn vx_into_iter(self) -> (r: It<u32>) {
        let (mut i, mut v) = (self.start, Vec::new());
        while i < self.end
            invariant self.start <= self.end ==> self.start <= i <= self.end, self.start > self.end ==> i == self.start,
                v@ =~= (if self.start <= self.end { Seq::new((i - self.start) as nat, |k: int| (self.start + k) as u32) } else { Seq::empty() })
            decreases self.end - i
        { v.push(i); i = i + 1; }
        It { v }
    } }
impl VxIntoIter for core::ops::Range<usize> { type Item = usize;
    open spec fn into_items(self) -> Seq<usize> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as usize) } else { Seq::empty() } }
    fn vx_into_iter(self) -> (r: It<usize>) {
        let (mut i, mut v) = (self.start, Vec::new());
        while i < self.end
            invariant self.start <= self.end ==> self.start <= i <= self.end, self.start > self.end ==> i == self.start,
                v@ =~= (if self.start <= self.end { Seq::new((i - self.start) as nat, |k: int| (self.start + k) as usize) } else { Seq::empty() })
            decreases self.end - i
        { v.push(i); i = i + 1; }
        It { v }
    } }
pub fn vx_for<I: VxIntoIter>(i: I) -> (r: It<I::Item>) ensures r@ == i.into_items() { i.vx_into_iter() }

/// what flat_map may return
pub trait VxFlat: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; fn vx_items(self) -> (r: Vec<Self::Item>) ensures r@ == self.items(); }
impl<T> VxFlat for Option<T> { type Item = T; open spec fn items(self) -> Seq<T> { opt_seq(self) } fn vx_items(self) -> (r: Vec<T>) { self.vx_into_iter().v } }
impl<T> VxFlat for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } fn vx_items(self) -> (r: Vec<T>) { self } }
impl<T> VxFlat for It<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } fn vx_items(self) -> (r: Vec<T>) { self.v } }
impl<'a, T> VxFlat for &'a Vec<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { refs(self@) } fn vx_items(self) -> (r: Vec<&'a T>) { vx_refs(self.as_slice()).v } }

pub trait VxFrom<T>: Sized { spec fn is_from(s: Seq<T>, c: Self) -> bool; fn vx_from_items(v: Vec<T>) -> (r: Self) ensures Self::is_from(v@, r); }
impl<T> VxFrom<T> for Vec<T> { open spec fn is_from(s: Seq<T>, c: Vec<T>) -> bool { c@ == s } fn vx_from_items(v: Vec<T>) -> (r: Self) { v } }
impl VxFrom<char> for String { open spec fn is_from(s: Seq<char>, c: String) -> bool { c@ == s } #[verifier::external_body] fn vx_from_items(v: Vec<char>) -> (r: Self) { v.into_iter().collect() } }
impl<T> VxFrom<Option<T>> for Option<Vec<T>> {
    open spec fn is_from(s: Seq<Option<T>>, c: Option<Vec<T>>) -> bool {
        match c {
            Some(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_some())
                && v@ == Seq::new(s.len(), |i: int| s[i].unwrap()),
            None => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).is_none(),
        }
    }
    fn vx_from_items(v: Vec<Option<T>>) -> (r: Self) {
        let ghost s = v@;
        let mut it = It { v };
        let mut o: Vec<T> = Vec::new();
        while it.v.len() > 0
            invariant s == v@, o@.len() <= s.len(), it@ == s.skip(o@.len() as int), forall|i: int| 0 <= i < o@.len() ==> s[i] == Some(#[trigger] o@[i])
            decreases it@.len()
        { match it.vx_pop() { Some(x) => { o.push(x); } None => { proof { assert(s[o@.len() as int].is_none()); } return None; } } }
        proof { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).is_some() by { let y = o@[i]; }
            assert(o@ =~= Seq::new(s.len(), |i: int| s[i].unwrap())); }
        Some(o)
    }
}
impl<T, E> VxFrom<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn is_from(s: Seq<Result<T, E>>, c: Result<Vec<T>, E>) -> bool {
        match c {
            Ok(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_ok())
                && v@ == Seq::new(s.len(), |i: int| s[i]->Ok_0),
            Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == Result::<T, E>::Err(e)
                && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).is_ok(),
        }
    }
    fn vx_from_items(v: Vec<Result<T, E>>) -> (r: Self) {
        let ghost s = v@;
        let mut it = It { v };
        let mut o: Vec<T> = Vec::new();
        while it.v.len() > 0
            invariant s == v@, o@.len() <= s.len(), it@ == s.skip(o@.len() as int), forall|i: int| 0 <= i < o@.len() ==> s[i] == Result::<T, E>::Ok(#[trigger] o@[i])
            decreases it@.len()
        { match it.vx_pop() { Ok(x) => { o.push(x); } Err(e) => {
            proof { assert(s[o@.len() as int] == Result::<T, E>::Err(e)); assert forall|j: int| 0 <= j < o@.len() implies (#[trigger] s[j]).is_ok() by { let y = o@[j]; } }
            return Err(e); } } }
        proof { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).is_ok() by { let y = o@[i]; }
            assert(o@ =~= Seq::new(s.len(), |i: int| s[i]->Ok_0)); }
        Ok(o)
    }
}
/// what sum computes; a sum outside the type's range is a fault
pub trait VxSum<T>: Sized { spec fn sum_max(s: Seq<T>) -> bool; spec fn is_sum(s: Seq<T>, r: Self) -> bool;
    fn vx_sum(v: Vec<T>) -> (r: Self) requires Self::sum_max(v@) ensures Self::is_sum(v@, r); }
pub open spec fn total(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
pub proof fn lemma_total_mono(s: Seq<int>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i]
    ensures total(s.take(k)) <= total(s)
    decreases s.len()
{ if k < s.len() { assert(s.drop_last().take(k) =~= s.take(k)); lemma_total_mono(s.drop_last(), k); } else { assert(s.take(k) =~= s); } }
impl<'a> VxSum<&'a usize> for usize {
    open spec fn sum_max(s: Seq<&'a usize>) -> bool { total(s.map_values(|x: &'a usize| *x as int)) <= usize::MAX }
    open spec fn is_sum(s: Seq<&'a usize>, r: usize) -> bool { r == total(s.map_values(|x: &'a usize| *x as int)) }
    fn vx_sum(v: Vec<&'a usize>) -> (r: usize) {
        let ghost f = |x: &'a usize| *x as int;
        let (mut i, mut t): (usize, usize) = (0, 0);
        proof { assert(v@.take(0).map_values(f) =~= Seq::<int>::empty()); }
        while i < v.len()
            invariant i <= v@.len(), t == total(v@.take(i as int).map_values(f)), f == (|x: &'a usize| *x as int), total(v@.map_values(f)) <= usize::MAX
            decreases v@.len() - i
        {
            proof {
                let m = v@.map_values(f);
                assert(v@.take(i + 1).map_values(f) =~= m.take(i + 1));
                assert(v@.take(i as int).map_values(f) =~= m.take(i as int));
                assert(m.take(i + 1).drop_last() =~= m.take(i as int));
                lemma_total_mono(m, i + 1);
            }
            t = t + *v[i];
            i = i + 1;
        }
        proof { assert(v@.take(i as int) =~= v@); }
        t
    }
}
/// the abstraction under which fold's accumulator is specified
pub trait VxAbs { type A; spec fn abs(self) -> Self::A; }
impl VxAbs for String { type A = Seq<char>; open spec fn abs(self) -> Seq<char> { self@ } }

pub open spec fn fold_abs<T, A>(s: Seq<T>, a: A, g: spec_fn(A, T) -> A) -> A decreases s.len() {
    if s.len() == 0 { a } else { g(fold_abs(s.drop_last(), a, g), s.last()) }
}

pub trait VxPair<A, B>: Sized { spec fn one(self) -> A; spec fn two(self) -> B; fn vx_pair(self) -> (r: (A, B)) ensures r.0 == self.one(), r.1 == self.two(); }
impl<A, B> VxPair<A, B> for (A, B) { open spec fn one(self) -> A { self.0 } open spec fn two(self) -> B { self.1 } fn vx_pair(self) -> (r: (A, B)) { self } }
pub proof fn lemma_keep_next<T>(s: Seq<T>, k: int, p: spec_fn(T) -> bool)
    requires 0 <= k < s.len()
    ensures keep(s.take(k + 1), p) == (if p(s[k]) { keep(s.take(k), p).push(s[k]) } else { keep(s.take(k), p) })
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lemma_flat_next<T, U>(s: Seq<T>, k: int, g: spec_fn(T) -> Seq<U>)
    requires 0 <= k < s.len()
    ensures flat(s.take(k + 1).map_values(g)) == flat(s.take(k).map_values(g)) + g(s[k])
{ assert(s.take(k + 1).map_values(g).drop_last() =~= s.take(k).map_values(g)); }
impl<T> It<T> {
    fn vx_pop(&mut self) -> (r: T) requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1)
    { let r = self.v.remove(0); proof { assert(self@ =~= old(self)@.skip(1)); } r }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() {
        self.v.len()
    }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r == (if old(self)@.len() > 0 { Some(old(self)@[0]) } else { None }),
            final(self)@ == rest(old(self)@, 1)
    {
        let ghost s = self@;
        reveal(rest);
        if self.v.len() > 0 { Some(self.vx_pop()) } else { proof { assert(rest(s, 1) =~= s); } None }
    }
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(),
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<U> = Vec::new();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), v@.len() == k, forall|i: int| 0 <= i < k ==> f.ensures((s[i],), #[trigger] v@[i])
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            v.push(f(x));
            proof { k = k + 1; }
        }
        
        It { v }
    }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), b) ==> b == (p@)(self@[i])
        ensures r@ == keep(self@, p@)
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<T> = Vec::new();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), b) ==> b == (p@)(s[i]), v@ == keep(s.take(k), p@)
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            proof { lemma_keep_next(s, k, p@); } if f(&x) { v.push(x); }
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        It { v }
    }
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), b) ==> b == (p@)(self@[i])
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> (p@)(#[trigger] self@[i]),
            r@.len() < self@.len() ==> !(p@)(self@[r@.len() as int])
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<T> = Vec::new();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), b) ==> b == (p@)(s[i]), v@.len() == k, v@ =~= s.take(k), forall|i: int| 0 <= i < k ==> (p@)(#[trigger] s[i])
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            if !f(&x) { return It { v }; } v.push(x);
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        It { v }
    }
    pub fn partition<F: Fn(&T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: (Vec<T>, Vec<T>))
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), b) ==> b == (p@)(self@[i])
        ensures r.0@ == keep(self@, p@), r.1@ == keep(self@, |x: T| !(p@)(x))
    {
        let ghost s = self@;
        let mut it = self;
        let (mut a, mut b): (Vec<T>, Vec<T>) = (Vec::new(), Vec::new()); let ghost q = |x: T| !(p@)(x);
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), b) ==> b == (p@)(s[i]), q == (|x: T| !(p@)(x)), a@ == keep(s.take(k), p@), b@ == keep(s.take(k), q)
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            proof { lemma_keep_next(s, k, p@); lemma_keep_next(s, k, q); } if f(&x) { a.push(x); } else { b.push(x); }
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        (a, b)
    }
    pub fn flat_map<O: VxFlat, F: Fn(T) -> O>(self, f: F, g: Ghost<spec_fn(T) -> Seq<O::Item>>) -> (r: It<O::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, y: O| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), y) ==> y.items() == (g@)(self@[i])
        ensures r@ == flat(self@.map_values(g@))
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<O::Item> = Vec::new();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s); assert(s.take(0).map_values(g@) =~= Seq::empty()); }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int, y: O| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), y) ==> y.items() == (g@)(s[i]), v@ == flat(s.take(k).map_values(g@))
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            let y = f(x); let mut o = y.vx_items(); proof { lemma_flat_next(s, k, g@); } v.append(&mut o);
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        It { v }
    }
    /// flat_map again, with a fact that each call of the closure establishes
    pub fn flat_map_with<O: VxFlat, F: Fn(T) -> O>(self, f: F, g: Ghost<spec_fn(T) -> Seq<O::Item>>, h: Ghost<spec_fn(T) -> bool>) -> (r: It<O::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, y: O| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), y) ==> y.items() == (g@)(self@[i]) && (h@)(self@[i])
        ensures r@ == flat(self@.map_values(g@)), forall|i: int| 0 <= i < self@.len() ==> (h@)(#[trigger] self@[i])
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<O::Item> = Vec::new();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s); assert(s.take(0).map_values(g@) =~= Seq::empty()); }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int, y: O| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), y) ==> y.items() == (g@)(s[i]) && (h@)(s[i]), v@ == flat(s.take(k).map_values(g@)), forall|i: int| 0 <= i < k ==> (h@)(#[trigger] s[i])
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            let y = f(x); let mut o = y.vx_items(); proof { lemma_flat_next(s, k, g@); } v.append(&mut o);
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        It { v }
    }
    /// flat_map again, with the closure's results as a sequence of their own
    pub fn flat_map_rel<O: VxFlat, F: Fn(T) -> O>(self, f: F) -> (r: It<O::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures exists|outs: Seq<O>| r@ == flat(outs.map_values(|o: O| o.items())) && #[trigger] outs.len() == self@.len()
            && forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] outs[i])
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<O::Item> = Vec::new();
        let ghost mut outs: Seq<O> = Seq::empty();
        let ghost g = |o: O| o.items();
        proof { assert(s.skip(0) =~= s); assert(outs.map_values(g) =~= Seq::empty()); }
        while it.v.len() > 0
            invariant s == self@, outs.len() <= s.len(), it@ == s.skip(outs.len() as int), g == (|o: O| o.items()), v@ == flat(outs.map_values(g)),
                forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                forall|i: int| 0 <= i < outs.len() ==> f.ensures((s[i],), #[trigger] outs[i])
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[outs.len() as int]); assert(s.skip(outs.len() as int).skip(1) =~= s.skip(outs.len() as int + 1)); }
            let y = f(x);
            let ghost before = outs;
            proof { outs = outs.push(y); assert(outs.map_values(g).drop_last() =~= before.map_values(g)); }
            let mut o = y.vx_items();
            v.append(&mut o);
                    }
        It { v }
    }
    pub fn unzip<A, B, CA: VxFrom<A>, CB: VxFrom<B>>(self) -> (r: (CA, CB)) where T: VxPair<A, B>
        ensures CA::is_from(self@.map_values(|x: T| x.one()), r.0), CB::is_from(self@.map_values(|x: T| x.two()), r.1)
    {
        let ghost s = self@;
        let mut it = self;
        let (mut a, mut b): (Vec<A>, Vec<B>) = (Vec::new(), Vec::new()); let ghost f = |x: T| x.one(); let ghost g = |x: T| x.two();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), f == (|x: T| x.one()), g == (|x: T| x.two()), a@ =~= s.take(k).map_values(f), b@ =~= s.take(k).map_values(g)
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            let (y, z) = x.vx_pair(); a.push(y); b.push(z);
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        (CA::vx_from_items(a), CB::vx_from_items(b))
    }
    pub fn fold<B: VxAbs, F: Fn(B, T) -> B>(self, init: B, f: F, g: Ghost<spec_fn(B::A, T) -> B::A>) -> (r: B)
        requires forall|i: int, acc: B| 0 <= i < self@.len() ==> #[trigger] f.requires((acc, self@[i])),
            forall|i: int, acc: B, y: B| 0 <= i < self@.len() && #[trigger] f.ensures((acc, self@[i]), y) ==> y.abs() == (g@)(acc.abs(), self@[i])
        ensures r.abs() == fold_abs(self@, init.abs(), g@)
    {
        let ghost s = self@;
        let mut it = self;
        let mut acc = init;
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int, acc: B| 0 <= i < s.len() ==> #[trigger] f.requires((acc, s[i])), forall|i: int, acc: B, y: B| 0 <= i < s.len() && #[trigger] f.ensures((acc, s[i]), y) ==> y.abs() == (g@)(acc.abs(), s[i]), acc.abs() == fold_abs(s.take(k), init.abs(), g@)
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            proof { assert(s.take(k + 1).drop_last() =~= s.take(k)); } acc = f(acc, x);
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        acc
    }
    pub fn find<F: Fn(&T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), b) ==> b == (p@)(self@[i])
        ensures r == find_first(self@, p@)
    {
        let ghost s = self@;
        let mut it = self;
        
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), b) ==> b == (p@)(s[i]), find_first(s, p@) == find_first(s.skip(k), p@)
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            proof { assert(s.skip(k).subrange(1, s.skip(k).len() as int) =~= s.skip(k + 1)); } if f(&x) { return Some(x); }
            proof { k = k + 1; }
        }
        
        None
    }
    pub fn position<F: Fn(T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), b) ==> b == (p@)(self@[i])
        ensures match r {
            Some(k) => k < self@.len() && (p@)(self@[k as int]) && forall|i: int| 0 <= i < k ==> !(p@)(#[trigger] self@[i]),
            None => forall|i: int| 0 <= i < self@.len() ==> !(p@)(#[trigger] self@[i]),
        }
    {
        let ghost s = self@;
        let mut it = self;
        let mut n: usize = 0; proof { vstd::std_specs::vec::axiom_spec_len(&it.v); }
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), b) ==> b == (p@)(s[i]), n == k, forall|i: int| 0 <= i < k ==> !(p@)(#[trigger] s[i]), s.len() <= usize::MAX
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            if f(x) { return Some(n); } n = n + 1;
            proof { k = k + 1; }
        }
        
        None
    }
    pub fn all<F: Fn(T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), b) ==> b == (p@)(self@[i])
        ensures r == (forall|i: int| 0 <= i < self@.len() ==> (p@)(#[trigger] self@[i]))
    {
        let ghost s = self@;
        let mut it = self;
        
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), b) ==> b == (p@)(s[i]), forall|i: int| 0 <= i < k ==> (p@)(#[trigger] s[i])
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            if !f(x) { return false; }
            proof { k = k + 1; }
        }
        
        true
    }
    pub fn any<F: Fn(T) -> bool>(self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, b: bool| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), b) ==> b == (p@)(self@[i])
        ensures r == (exists|i: int| 0 <= i < self@.len() && (p@)(#[trigger] self@[i]))
    {
        let ghost s = self@;
        let mut it = self;
        
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), b) ==> b == (p@)(s[i]), forall|i: int| 0 <= i < k ==> !(p@)(#[trigger] s[i])
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            if f(x) { return true; }
            proof { k = k + 1; }
        }
        
        false
    }
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<(usize, T)> = Vec::new(); let mut n: usize = 0; proof { vstd::std_specs::vec::axiom_spec_len(&it.v); }
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), n == k, s.len() <= usize::MAX, v@ =~= Seq::new(k as nat, |i: int| (i as usize, s[i]))
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            v.push((n, x)); n = n + 1;
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        It { v }
    }
    pub fn skip(self, n: usize) -> (r: It<T>)
        ensures r@ == (if n <= self@.len() { self@.subrange(n as int, self@.len() as int) } else { Seq::empty() })
    {
        let ghost s = self@;
        let mut it = self;
        let mut i: usize = 0;
        proof { assert(s.skip(0) =~= s); }
        while i < n && it.v.len() > 0
            invariant s == self@, i <= n, i <= s.len(), it@ == s.skip(i as int)
            decreases n - i
        {
            let x = it.vx_pop();
            proof { assert(s.skip(i as int).skip(1) =~= s.skip(i + 1)); }
            i = i + 1;
        }
        proof { if n <= s.len() { assert(i == n); assert(s.skip(n as int) =~= s.subrange(n as int, s.len() as int)); } else { assert(it@ =~= Seq::empty()); } }
        it
    }
    pub fn take(self, n: usize) -> (r: It<T>)
        ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ })
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        proof { assert(s.skip(0) =~= s); }
        while i < n && it.v.len() > 0
            invariant s == self@, i <= n, i <= s.len(), it@ == s.skip(i as int), v@ =~= s.take(i as int)
            decreases n - i
        {
            v.push(it.vx_pop());
            proof { assert(s.skip(i as int).skip(1) =~= s.skip(i + 1)); }
            i = i + 1;
        }
        proof { if n > s.len() { assert(s.take(i as int) =~= s); } }
        It { v }
    }
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None }) {
        let mut it = self; it.v.pop()
    }
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures r == (if n < old(self)@.len() { Some(old(self)@[n as int]) } else { None }), final(self)@ == rest(old(self)@, n + 1)
    {
        let ghost s = self@;
        let mut i: usize = 0;
        proof { assert(s.skip(0) =~= s); reveal(rest); }
        while i < n && self.v.len() > 0
            invariant i <= n, i <= s.len(), self@ == s.skip(i as int)
            decreases n - i
        {
            let x = self.vx_pop();
            proof { assert(s.skip(i as int).skip(1) =~= s.skip(i + 1)); }
            i = i + 1;
        }
        if self.v.len() > 0 { let r = self.vx_pop(); proof { assert(s.skip(i as int).skip(1) =~= s.skip(n + 1)); } Some(r) }
        else { proof { assert(self@ =~= rest(s, n + 1)); } None }
    }
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<T> = Vec::new();
        while it.v.len() > 0
            invariant s == self@, it@.len() + v@.len() == s.len(), it@ =~= s.take(it@.len() as int), v@ =~= s.reverse().take(v@.len() as int)
            decreases it@.len()
        { let x = it.v.pop(); match x { Some(x) => { v.push(x); } None => {} } }
        proof { assert(v@ =~= s.reverse()); }
        It { v }
    }
    pub fn chain(self, o: It<T>) -> (r: It<T>) ensures r@ == self@ + o@ {
        let (mut a, mut b) = (self.v, o.v); a.append(&mut b); It { v: a }
    }
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r@ == Seq::new(if self@.len() <= o@.len() { self@.len() } else { o@.len() }, |i: int| (self@[i], o@[i]))
    {
        let ghost (s, t) = (self@, o@);
        let (mut a, mut b) = (self, o);
        let mut v: Vec<(T, U)> = Vec::new();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s); assert(t.skip(0) =~= t); }
        while a.v.len() > 0 && b.v.len() > 0
            invariant s == self@, t == o@, 0 <= k <= s.len(), k <= t.len(), a@ == s.skip(k), b@ == t.skip(k), v@ =~= Seq::new(k as nat, |i: int| (s[i], t[i]))
            decreases a@.len()
        {
            let (x, y) = (a.vx_pop(), b.vx_pop());
            proof { assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(t.skip(k).skip(1) =~= t.skip(k + 1)); }
            v.push((x, y));
            proof { k = k + 1; }
        }
        It { v }
    }
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F, g: Ghost<spec_fn(T) -> Option<U>>) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, y: Option<U>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), y) ==> y == (g@)(self@[i])
        ensures match r {
            Some(u) => exists|i: int| 0 <= i < self@.len() && (g@)(#[trigger] self@[i]) == Some(u),
            None => forall|i: int| 0 <= i < self@.len() ==> (g@)(#[trigger] self@[i]).is_none(),
        }
    {
        let ghost s = self@;
        let mut it = self;
        
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s);  }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), forall|i: int, y: Option<U>| 0 <= i < s.len() && #[trigger] f.ensures((s[i],), y) ==> y == (g@)(s[i]), forall|i: int| 0 <= i < k ==> (g@)(#[trigger] s[i]).is_none()
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            match f(x) { Some(u) => { return Some(u); } None => {} }
            proof { k = k + 1; }
        }
        
        None
    }
    pub fn vx_flatten(self) -> (r: It<T::Item>) where T: VxFlat
        ensures r@ == flat(self@.map_values(|x: T| x.items()))
    {
        let ghost s = self@;
        let mut it = self;
        let mut v: Vec<T::Item> = Vec::new(); let ghost g = |x: T| x.items();
        let ghost mut k: int = 0;
        proof { assert(s.skip(0) =~= s); assert(s.take(0).map_values(g) =~= Seq::empty()); }
        while it.v.len() > 0
            invariant s == self@, 0 <= k <= s.len(), it@ == s.skip(k), g == (|x: T| x.items()), v@ == flat(s.take(k).map_values(g))
            decreases it@.len()
        {
            let x = it.vx_pop();
            proof { assert(x == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
            let mut o = x.vx_items(); proof { lemma_flat_next(s, k, g); } v.append(&mut o);
            proof { k = k + 1; }
        }
        proof { assert(s.take(k) =~= s); }
        It { v }
    }
    pub fn sum<S: VxSum<T>>(self) -> (r: S)
        requires S::sum_max(self@)
        ensures S::is_sum(self@, r)
    {
        S::vx_sum(self.v)
    }
    pub fn collect<C: VxFrom<T>>(self) -> (r: C) ensures C::is_from(self@, r) {
        C::vx_from_items(self.v)
    }
}
/// a for loop: the items left, and all of them
#[verifier::reject_recursive_types(T)]
pub struct Cur<T> { it: It<T>, n: usize, all: Ghost<Seq<T>> }
impl<T> View for Cur<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.all@ } }
impl<T> Cur<T> {
    pub closed spec fn wf(self, i: int) -> bool { 0 <= i <= self@.len() && self.it@ == self@.skip(i) && self.n == self@.len() }
    pub fn len(&self) -> (r: usize) requires self.wf(0) ensures r == self@.len() { self.n }
    pub fn at(&mut self, i: usize) -> (r: T)
        requires old(self).wf(i as int), i < old(self)@.len()
        ensures r == old(self)@[i as int], final(self)@ == old(self)@, final(self).wf(i + 1)
    { let r = self.it.vx_pop(); proof { assert(old(self)@.skip(i as int).skip(1) =~= old(self)@.skip(i + 1)); } r }
}
pub fn vx_cur<I: VxIntoIter>(i: I) -> (r: Cur<I::Item>) ensures r@ == i.into_items(), r.wf(0) {
    let it = i.vx_into_iter();
    let n = it.len();
    let ghost s = it@;
    proof { assert(s.skip(0) =~= s); }
    Cur { it, n, all: Ghost(s) }
}
pub trait VxExtend<T> { spec fn xv(&self) -> Seq<T>;
    fn vx_extend<I: VxIntoIter<Item = T>>(&mut self, i: I) ensures final(self).xv() == old(self).xv() + i.into_items(); }
impl<T> VxExtend<T> for Vec<T> { open spec fn xv(&self) -> Seq<T> { self@ }
    fn vx_extend<I: VxIntoIter<Item = T>>(&mut self, i: I) { let mut it = i.vx_into_iter(); self.append(&mut it.v); } }
