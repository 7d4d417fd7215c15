// ---------------------------------------------------------------- strings and vectors as values
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
/// TRUSTED: a String (a Vec) is determined by its contents.
pub broadcast axiom fn ax_string_of(s: String)
    ensures #[trigger] string_of(s@) == s;
pub broadcast axiom fn ax_vec_of<T>(v: Vec<T>)
    ensures #[trigger] vec_of(v@) == v;
/// TRUSTED: there is an empty Vec.
pub broadcast axiom fn ax_vec_empty<T>()
    ensures (#[trigger] vec_of(Seq::<T>::empty()))@ == Seq::<T>::empty();
pub broadcast group g_core { ax_vec_empty, ax_string_of, ax_vec_of }

// ---------------------------------------------------------------- clone
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for String { fn vx_clone(&self) -> (r: Self) { let r = self.clone(); proof { ax_string_of(r); ax_string_of(*self); } r } }
fn vx_clones<T: VxClone>(s: &[T]) -> (v: Vec<T>) ensures v@ == s@ {
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), v@ =~= s@.take(i as int)
        decreases s@.len() - i
    { v.push(s[i].vx_clone()); i = i + 1; }
    proof { assert(s@.take(i as int) =~= s@); }
    v
}
impl<T: VxClone> VxClone for Vec<T> { fn vx_clone(&self) -> (r: Self) { let v = vx_clones(self.as_slice()); proof { ax_vec_of(*self); ax_vec_of(v); } v } }
impl<T: VxClone> VxClone for Option<T> { fn vx_clone(&self) -> (r: Self) { match self { Some(x) => Some(x.vx_clone()), None => None } } }
impl<'a, T> VxClone for &'a T { fn vx_clone(&self) -> (r: Self) { *self } }
impl<'a> VxClone for &'a str { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for usize { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for i32 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for u32 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for u8 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for bool { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for char { fn vx_clone(&self) -> (r: Self) { *self } }
impl<A: VxClone, B: VxClone> VxClone for (A, B) { fn vx_clone(&self) -> (r: Self) { (self.0.vx_clone(), self.1.vx_clone()) } }
pub trait VxToVec<T> { spec fn tv(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv(); }
impl<T: VxClone> VxToVec<T> for [T] { open spec fn tv(&self) -> Seq<T> { self@ } fn vx_to_vec(&self) -> (r: Vec<T>) { vx_clones(self) } }
impl<T: VxClone> VxToVec<T> for Vec<T> { open spec fn tv(&self) -> Seq<T> { self@ } fn vx_to_vec(&self) -> (r: Vec<T>) { vx_clones(self.as_slice()) } }

// ---------------------------------------------------------------- equality (std PartialEq)
pub trait VxEq<B: ?Sized> {
    spec fn speq(&self, b: &B) -> bool;
    fn eqx(&self, b: &B) -> (r: bool) ensures r == self.speq(b);
}
pub fn vx_eq<A: ?Sized + VxEq<B>, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.speq(b) { a.eqx(b) }
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) {
    let (n, m) = (a.unicode_len(), b.unicode_len());
    if n != m { return false; }
    let mut i: usize = 0;
    while i < n
        invariant n == a@.len(), n == b@.len(), i <= n, forall|j: int| 0 <= j < i ==> a@[j] == b@[j]
        decreases n - i
    { if a.get_char(i) != b.get_char(i) { return false; } i = i + 1; }
    proof { assert(a@ =~= b@); }
    true
}
impl VxEq<str> for str { open spec fn speq(&self, b: &str) -> bool { self@ == b@ } fn eqx(&self, b: &str) -> (r: bool) { vx_str_eq(self, b) } }
impl VxEq<String> for str { open spec fn speq(&self, b: &String) -> bool { self@ == b@ } fn eqx(&self, b: &String) -> (r: bool) { vx_str_eq(self, b.as_str()) } }
impl VxEq<str> for String { open spec fn speq(&self, b: &str) -> bool { self@ == b@ } fn eqx(&self, b: &str) -> (r: bool) { vx_str_eq(self.as_str(), b) } }
impl VxEq<String> for String { open spec fn speq(&self, b: &String) -> bool { self@ == b@ } fn eqx(&self, b: &String) -> (r: bool) { vx_str_eq(self.as_str(), b.as_str()) } }
impl<'a, 'b, A: ?Sized + VxEq<B>, B: ?Sized> VxEq<&'b B> for &'a A {
    open spec fn speq(&self, b: &&'b B) -> bool { (**self).speq(*b) }
    fn eqx(&self, b: &&'b B) -> (r: bool) { (**self).eqx(*b) }
}
impl VxEq<usize> for usize { open spec fn speq(&self, b: &usize) -> bool { *self == *b } fn eqx(&self, b: &usize) -> (r: bool) { *self == *b } }
impl VxEq<char> for char { open spec fn speq(&self, b: &char) -> bool { *self == *b } fn eqx(&self, b: &char) -> (r: bool) { *self == *b } }
impl VxEq<u8> for u8 { open spec fn speq(&self, b: &u8) -> bool { *self == *b } fn eqx(&self, b: &u8) -> (r: bool) { *self == *b } }
impl VxEq<u32> for u32 { open spec fn speq(&self, b: &u32) -> bool { *self == *b } fn eqx(&self, b: &u32) -> (r: bool) { *self == *b } }
impl VxEq<i32> for i32 { open spec fn speq(&self, b: &i32) -> bool { *self == *b } fn eqx(&self, b: &i32) -> (r: bool) { *self == *b } }
impl VxEq<u64> for u64 { open spec fn speq(&self, b: &u64) -> bool { *self == *b } fn eqx(&self, b: &u64) -> (r: bool) { *self == *b } }
impl<A: VxEq<A>> VxEq<Option<A>> for Option<A> {
    open spec fn speq(&self, b: &Option<A>) -> bool {
        match (*self, *b) { (Some(x), Some(y)) => x.speq(&y), (None, None) => true, _ => false }
    }
    fn eqx(&self, b: &Option<A>) -> (r: bool) { match (self, b) { (Some(x), Some(y)) => x.eqx(y), (None, None) => true, _ => false } }
}
impl<A: VxEq<A>, B: VxEq<B>> VxEq<(A, B)> for (A, B) {
    open spec fn speq(&self, b: &(A, B)) -> bool { self.0.speq(&b.0) && self.1.speq(&b.1) }
    fn eqx(&self, b: &(A, B)) -> (r: bool) { self.0.eqx(&b.0) && self.1.eqx(&b.1) }
}
impl<const N: usize> VxEq<[char; N]> for [char; N] {
    open spec fn speq(&self, b: &[char; N]) -> bool { self@ =~= b@ }
    fn eqx(&self, b: &[char; N]) -> (r: bool) {
        let mut i: usize = 0;
        while i < N
            invariant i <= N, forall|j: int| 0 <= j < i ==> self@[j] == b@[j]
            decreases N - i
        { if self[i] != b[i] { return false; } i = i + 1; }
        true
    }
}

// ---------------------------------------------------------------- conversions
pub trait VxInto<T> { spec fn into_spec(self, r: T) -> bool; fn vx_into(self) -> (r: T) where Self: Sized ensures self.into_spec(r); }
impl<'a> VxInto<String> for &'a str { open spec fn into_spec(self, r: String) -> bool { r@ == self@ } fn vx_into(self) -> (r: String) { vx_string_from(self) } }
impl VxInto<String> for String { open spec fn into_spec(self, r: String) -> bool { r == self } fn vx_into(self) -> (r: String) { self } }
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// &s[..], &s[a..b], ...: panics when out of range, so being in range is a precondition
pub trait VxAll { type Out: ?Sized; spec fn all_is(&self, o: &Self::Out) -> bool; fn vx_all(&self) -> (r: &Self::Out) ensures self.all_is(r); }
impl VxAll for String { type Out = str; open spec fn all_is(&self, o: &str) -> bool { o@ == self@ } fn vx_all(&self) -> (r: &str) { self.as_str() } }
impl VxAll for str { type Out = str; open spec fn all_is(&self, o: &str) -> bool { o@ == self@ } fn vx_all(&self) -> (r: &str) { self } }
impl<T> VxAll for Vec<T> { type Out = [T]; open spec fn all_is(&self, o: &[T]) -> bool { o@ == self@ } fn vx_all(&self) -> (r: &[T]) { self.as_slice() } }
pub trait VxSlice<T> {
    spec fn sl(&self) -> Seq<T>;
    fn vx_to(&self, b: usize) -> (r: &[T]) requires b <= self.sl().len() ensures r@ == self.sl().take(b as int);
    fn vx_from(&self, a: usize) -> (r: &[T]) requires a <= self.sl().len() ensures r@ == self.sl().skip(a as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.sl().len() ensures r@ == self.sl().subrange(a as int, b as int);
}
impl<T> VxSlice<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_to(&self, b: usize) -> (r: &[T]) { proof { assert(self@.subrange(0, b as int) =~= self@.take(b as int)); } vstd::slice::slice_subrange(self.as_slice(), 0, b) }
    fn vx_from(&self, a: usize) -> (r: &[T]) { proof { assert(self@.subrange(a as int, self@.len() as int) =~= self@.skip(a as int)); } vstd::slice::slice_subrange(self.as_slice(), a, self.len()) }
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self.as_slice(), a, b) }
}
impl<T> VxSlice<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_to(&self, b: usize) -> (r: &[T]) { proof { assert(self@.subrange(0, b as int) =~= self@.take(b as int)); } vstd::slice::slice_subrange(self, 0, b) }
    fn vx_from(&self, a: usize) -> (r: &[T]) { proof { assert(self@.subrange(a as int, self@.len() as int) =~= self@.skip(a as int)); } vstd::slice::slice_subrange(self, a, self.len()) }
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, b) }
}
pub trait VxAsStr { fn vx_as_str(&self) -> &str; }
impl VxAsStr for String { fn vx_as_str(&self) -> (r: &str) ensures r@ == self@ { self.as_str() } }

#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b { }

// ---------------------------------------------------------------- options
pub trait VxOpt<T> { spec fn opt_spec(self) -> Option<T>; }
pub trait VxCloned<T> { fn vx_cloned(self) -> (r: Option<T>); }
impl<'a, T: VxClone> VxCloned<T> for Option<&'a T> {
    fn vx_cloned(self) -> (r: Option<T>)
        ensures r == (match self { Some(x) => Some(*x), None => None })
    { match self { Some(x) => Some(x.vx_clone()), None => None } }
}
pub trait VxDefault: Sized { spec fn is_default(r: Self) -> bool; fn dflt() -> (r: Self) ensures Self::is_default(r); }
impl VxDefault for String { open spec fn is_default(r: Self) -> bool { r@ == Seq::<char>::empty() } fn dflt() -> (r: Self) { String::new() } }
pub trait VxUnwrapDefault<T> { fn vx_unwrap_or_default(self) -> (r: T); }
impl<T: VxDefault> VxUnwrapDefault<T> for Option<T> {
    fn vx_unwrap_or_default(self) -> (r: T)
        ensures match self { Some(x) => r == x, None => T::is_default(r) }
    { match self { Some(x) => x, None => T::dflt() } }
}
pub trait VxUnwrapOr<T> { spec fn or_spec(self, d: T) -> T; fn vx_unwrap_or(self, d: T) -> (r: T) where Self: Sized ensures r == self.or_spec(d); }
impl<T> VxUnwrapOr<T> for Option<T> {
    open spec fn or_spec(self, d: T) -> T { match self { Some(x) => x, None => d } }
    fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } }
}
impl<T, E> VxUnwrapOr<T> for Result<T, E> {
    open spec fn or_spec(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } }
    fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } }
}
// ---------------------------------------------------------------- Ord::max and min
pub trait VxOrd: Sized { spec fn max_spec(self, o: Self) -> Self; spec fn min_spec(self, o: Self) -> Self;
    fn vx_max(self, o: Self) -> (r: Self) ensures r == self.max_spec(o);
    fn vx_min(self, o: Self) -> (r: Self) ensures r == self.min_spec(o); }
impl VxOrd for usize {
    open spec fn max_spec(self, o: usize) -> usize { if self >= o { self } else { o } }
    open spec fn min_spec(self, o: usize) -> usize { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> (r: usize) { if self >= o { self } else { o } }
    fn vx_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
}
impl VxOrd for u32 {
    open spec fn max_spec(self, o: u32) -> u32 { if self >= o { self } else { o } }
    open spec fn min_spec(self, o: u32) -> u32 { if self <= o { self } else { o } }
    fn vx_max(self, o: u32) -> (r: u32) { if self >= o { self } else { o } }
    fn vx_min(self, o: u32) -> (r: u32) { if self <= o { self } else { o } }
}
impl VxOrd for i32 {
    open spec fn max_spec(self, o: i32) -> i32 { if self >= o { self } else { o } }
    open spec fn min_spec(self, o: i32) -> i32 { if self <= o { self } else { o } }
    fn vx_max(self, o: i32) -> (r: i32) { if self >= o { self } else { o } }
    fn vx_min(self, o: i32) -> (r: i32) { if self <= o { self } else { o } }
}
impl VxOrd for u8 {
    open spec fn max_spec(self, o: u8) -> u8 { if self >= o { self } else { o } }
    open spec fn min_spec(self, o: u8) -> u8 { if self <= o { self } else { o } }
    fn vx_max(self, o: u8) -> (r: u8) { if self >= o { self } else { o } }
    fn vx_min(self, o: u8) -> (r: u8) { if self <= o { self } else { o } }
}
impl VxOrd for u64 {
    open spec fn max_spec(self, o: u64) -> u64 { if self >= o { self } else { o } }
    open spec fn min_spec(self, o: u64) -> u64 { if self <= o { self } else { o } }
    fn vx_max(self, o: u64) -> (r: u64) { if self >= o { self } else { o } }
    fn vx_min(self, o: u64) -> (r: u64) { if self <= o { self } else { o } }
}
// ---------------------------------------------------------------- Option combinators (their bodies are verified)
pub trait VxOrElse<T>: Sized { spec fn oe(self) -> Option<T>;
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.oe().is_none() ==> f.requires(())
        ensures self.oe().is_some() ==> r == self.oe(), self.oe().is_none() ==> f.ensures((), r);
}
impl<T> VxOrElse<T> for Option<T> {
    open spec fn oe(self) -> Option<T> { self }
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { match self { Some(x) => Some(x), None => f() } }
}
