// ---------------------------------------------------------------- further std operations
// TRUSTED, and used by no function of the current tree: they keep a changed function within the verifier's reach.
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](a: Option<T>, f: F) -> (r: Option<T>)
    requires a is Some ==> f.requires((&a->0,))
    ensures match a { Some(x) => (r == Some(x) && f.ensures((&x,), true)) || (r is None && f.ensures((&x,), false)), None => r is None };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> f.requires((a->0,))
    ensures match a { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,))
    ensures match a { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](a: Option<T>, d: D, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,)), a is None ==> d.requires(())
    ensures match a { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](a: Result<T, E>, f: F) -> (r: T)
    requires a is Err ==> f.requires((a->Err_0,))
    ensures match a { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a is Ok ==> f.requires((a->Ok_0,))
    ensures match a { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification[ core::cmp::Ordering::reverse ](a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less });
pub assume_specification[ core::cmp::Ordering::then ](a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (if a == core::cmp::Ordering::Equal { b } else { a });
pub assume_specification<T>[ core::mem::replace::<T> ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification[ i32::abs ](a: i32) -> (r: i32) requires a > i32::MIN ensures r == (if a >= 0 { a as int } else { -a });
#[verifier::external_body] pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == b@[0] + 256 * b@[1] + 65536 * b@[2] + 16777216 * b@[3] { unimplemented!() }
#[verifier::external_body] pub fn vx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == b@[3] + 256 * b@[2] + 65536 * b@[1] + 16777216 * b@[0] { unimplemented!() }
#[verifier::external_body] pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == b@[0] + 256 * b@[1] { unimplemented!() }
#[verifier::external_body] pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r == b@[1] + 256 * b@[0] { unimplemented!() }
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9');
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == (*c as u32 <= 127);
pub assume_specification[ char::to_ascii_uppercase ](c: &char) -> (r: char) ensures r == ascii_up(*c);
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r == ascii_low(*c);
pub assume_specification[ u8::is_ascii_graphic ](c: &u8) -> (r: bool) ensures r == (33 <= *c <= 126);
pub assume_specification[ u8::is_ascii_whitespace ](c: &u8) -> (r: bool) ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification[ u8::is_ascii ](c: &u8) -> (r: bool) ensures r == (*c <= 127);
/// contains: of an element in a list, of a text in a text
pub trait VxContains<P> { spec fn has(&self, p: P) -> bool; fn vx_contains(&self, p: P) -> (r: bool) ensures r == self.has(p); }
impl<'a, T: VxEq<T>> VxContains<&'a T> for [T] { open spec fn has(&self, p: &'a T) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i].speq(p) }
    fn vx_contains(&self, p: &'a T) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] self@[j].speq(p)) decreases self@.len() - i
        { if self[i].eqx(p) { return true; } i = i + 1; }
        false
    } }
impl<'a, T: VxEq<T>> VxContains<&'a T> for Vec<T> { open spec fn has(&self, p: &'a T) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i].speq(p) }
    fn vx_contains(&self, p: &'a T) -> (r: bool) { self.as_slice().vx_contains(p) } }
impl<P: VxPat> VxContains<P> for str { open spec fn has(&self, p: P) -> bool { holds(self@, p.pat()) } #[verifier::external_body] fn vx_contains(&self, p: P) -> (r: bool) { unimplemented!() } }
impl<P: VxPat> VxContains<P> for String { open spec fn has(&self, p: P) -> bool { holds(self@, p.pat()) } #[verifier::external_body] fn vx_contains(&self, p: P) -> (r: bool) { unimplemented!() } }
pub trait VxSwap<T> { spec fn swv(&self) -> Seq<T>;
    fn vx_swap(&mut self, a: usize, b: usize) requires a < old(self).swv().len(), b < old(self).swv().len()
        ensures final(self).swv() == old(self).swv().update(a as int, old(self).swv()[b as int]).update(b as int, old(self).swv()[a as int]); }
impl<T> VxSwap<T> for Vec<T> { open spec fn swv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_swap(&mut self, a: usize, b: usize) { unimplemented!() } }
impl<T> VxSwap<T> for [T] { open spec fn swv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_swap(&mut self, a: usize, b: usize) { unimplemented!() } }
pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub fn replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { core::mem::replace(a, b) }
