// ---------------------------------------------------------------- further operations on texts
// TRUSTED, and used by no function of the current tree: they keep a changed function within the verifier's reach.
pub uninterp spec fn is_white(c: char) -> bool;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn replaced(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
pub open spec fn drop_front(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s[0]) { drop_front(s.skip(1), p) } else { s }
}
pub open spec fn drop_back(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && p(s.last()) { drop_back(s.drop_last(), p) } else { s }
}
/// code of the lower-case form of an ASCII letter, else of the character itself
pub open spec fn ascii_low(c: char) -> char { if 'A' <= c <= 'Z' { (c as u8 + 32) as u8 as char } else { c } }
pub open spec fn ascii_up(c: char) -> char { if 'a' <= c <= 'z' { (c as u8 - 32) as u8 as char } else { c } }
pub open spec fn white() -> spec_fn(char) -> bool { |c: char| is_white(c) }
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn finishes(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn holds(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub trait VxPat: Sized { spec fn pat(self) -> Seq<char>; }
impl VxPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl<'a> VxPat for &'a str { open spec fn pat(self) -> Seq<char> { self@ } }
impl<'a> VxPat for &'a String { open spec fn pat(self) -> Seq<char> { self@ } }
impl<'a, 'b> VxPat for &'a &'b str { open spec fn pat(self) -> Seq<char> { self@ } }
pub trait VxStr {
    spec fn st(&self) -> Seq<char>;
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == drop_back(drop_front(self.st(), white()), white());
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == drop_front(self.st(), white());
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == drop_back(self.st(), white());
    fn vx_trim_matches<'a>(&'a self, p: char) -> (r: &'a str) ensures r@ == drop_back(drop_front(self.st(), |c: char| c == p), |c: char| c == p);
    fn vx_trim_start_matches<'a>(&'a self, p: char) -> (r: &'a str) ensures r@ == drop_front(self.st(), |c: char| c == p);
    fn vx_trim_end_matches<'a>(&'a self, p: char) -> (r: &'a str) ensures r@ == drop_back(self.st(), |c: char| c == p);
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == begins(self.st(), p.pat());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == finishes(self.st(), p.pat());
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(t) => begins(self.st(), p.pat()) && t@ == self.st().skip(p.pat().len() as int), None => !begins(self.st(), p.pat()) };
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r { Some(t) => finishes(self.st(), p.pat()) && t@ == self.st().take(self.st().len() - p.pat().len()), None => !finishes(self.st(), p.pat()) };
    fn vx_split_once<'a>(&'a self, p: char) -> (r: Option<(&'a str, &'a str)>)
        ensures match r {
            Some((a, b)) => self.st() == a@.push(p) + b@ && !a@.contains(p),
            None => !self.st().contains(p) };
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool)
        ensures r == (self.st().map_values(|c: char| ascii_low(c)) =~= o@.map_values(|c: char| ascii_low(c)));
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == self.st().map_values(|c: char| ascii_low(c));
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == self.st().map_values(|c: char| ascii_up(c));
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.st());
    fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) ensures r@ == replaced(self.st(), p.pat(), t@);
}
macro_rules! vstr { ($t:ty) => { verus!{
    impl VxStr for $t {
        open spec fn st(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_matches<'a>(&'a self, p: char) -> (r: &'a str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_start_matches<'a>(&'a self, p: char) -> (r: &'a str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_end_matches<'a>(&'a self, p: char) -> (r: &'a str) { unimplemented!() }
        #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn vx_split_once<'a>(&'a self, p: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
        #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
    }
} } }
vstr!(str);
vstr!(String);
impl<'a> VxEq<&'a str> for String { open spec fn speq(&self, b: &&'a str) -> bool { self@ == b@ } fn eqx(&self, b: &&'a str) -> (r: bool) { vx_str_eq(self.as_str(), b) } }
impl<'a> VxEq<String> for &'a str { open spec fn speq(&self, b: &String) -> bool { self@ == b@ } fn eqx(&self, b: &String) -> (r: bool) { vx_str_eq(self, b.as_str()) } }
impl<'a> VxEq<str> for &'a str { open spec fn speq(&self, b: &str) -> bool { self@ == b@ } fn eqx(&self, b: &str) -> (r: bool) { vx_str_eq(self, b) } }
/// the elements that differ from the one kept before them
pub open spec fn deduped<T: VxEq<T>>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let r = deduped(s.drop_last()); if r.len() > 0 && s.last().speq(&r.last()) { r } else { r.push(s.last()) } }
}
pub trait VxDedupV<T> { spec fn dv(&self) -> Seq<T>; spec fn dd(&self) -> Seq<T>; fn vx_dedup(&mut self) ensures final(self).dv() == old(self).dd(); }
impl<T: VxEq<T>> VxDedupV<T> for Vec<T> { open spec fn dv(&self) -> Seq<T> { self@ } open spec fn dd(&self) -> Seq<T> { deduped(self@) }
    #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() } }
