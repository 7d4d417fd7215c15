// ---------------------------------------------------------------- text input
// TRUSTED: what std's str functions cut out of a text. Number syntax and lower-casing are uninterpreted functions of the text.
/// the pieces between the occurrences of c
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] }
    else if s.last() == c { split_on(s.drop_last(), c).push(Seq::empty()) }
    else { let p = split_on(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
/// lines end with \n or \r\n; a last line without an end counts if it is not empty
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> {
    let p = split_on(s, '\n');
    let ended = p.drop_last().map_values(|l: Seq<char>| strip_cr(l));
    if p.last().len() == 0 { ended } else { ended.push(p.last()) }
}
pub proof fn lemma_split_len(s: Seq<char>, c: char)
    ensures 0 < split_on(s, c).len() <= s.len() + 1
    decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
/// a text has at most one line more than characters
pub proof fn lemma_lines_len(s: Seq<char>) ensures lines_of(s).len() <= s.len() + 1 { lemma_split_len(s, '\n'); }
pub uninterp spec fn words_of(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn f_parse(s: Seq<char>) -> Option<F32>;
pub uninterp spec fn i_parse(s: Seq<char>) -> Option<i32>;
pub uninterp spec fn u_parse(s: Seq<char>) -> Option<usize>;
pub open spec fn texts<'a>(s: Seq<&'a str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VxFromStr: Sized { type Err; spec fn parsed(s: Seq<char>) -> Option<Self>; }
#[verifier::external_body] pub struct ParseNumError { }
impl VxFromStr for F32 { type Err = ParseNumError; open spec fn parsed(s: Seq<char>) -> Option<F32> { f_parse(s) } }
impl VxFromStr for i32 { type Err = ParseNumError; open spec fn parsed(s: Seq<char>) -> Option<i32> { i_parse(s) } }
impl VxFromStr for usize { type Err = ParseNumError; open spec fn parsed(s: Seq<char>) -> Option<usize> { u_parse(s) } }
macro_rules! vnum { ($t:ty, $f:ident) => { verus!{ pub uninterp spec fn $f(s: Seq<char>) -> Option<$t>;
    impl VxFromStr for $t { type Err = ParseNumError; open spec fn parsed(s: Seq<char>) -> Option<$t> { $f(s) } } } } }
vnum!(u8, u8_parse); vnum!(u16, u16_parse); vnum!(u32, u32_parse); vnum!(u64, u64_parse); vnum!(i64, i64_parse);
pub trait VxText {
    spec fn txt(&self) -> Seq<char>;
    fn vx_lines<'a>(&'a self) -> (r: It<&'a str>) ensures texts(r@) == lines_of(self.txt());
    fn vx_chars(&self) -> (r: It<char>) ensures r@ == self.txt();
    fn vx_split<'a>(&'a self, c: char) -> (r: It<&'a str>) ensures texts(r@) == split_on(self.txt(), c);
    fn vx_split_whitespace<'a>(&'a self) -> (r: It<&'a str>) ensures texts(r@) == words_of(self.txt());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.txt());
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>)
        ensures match r { Ok(v) => T::parsed(self.txt()) == Some(v), Err(_) => T::parsed(self.txt()).is_none() };
}
macro_rules! vtext { ($t:ty) => { verus!{
    impl VxText for $t {
        open spec fn txt(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn vx_lines<'a>(&'a self) -> (r: It<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn vx_chars(&self) -> (r: It<char>) { unimplemented!() }
        #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: It<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn vx_split_whitespace<'a>(&'a self) -> (r: It<&'a str>) { unimplemented!() }
        #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { unimplemented!() }
    }
} } }
vtext!(str);
vtext!(String);
pub broadcast proof fn lemma_texts(s: Seq<&str>, i: int)
    ensures 0 <= i < s.len() ==> (#[trigger] texts(s)[i]) == s[i]@
{ }
pub broadcast proof fn lemma_texts_len(s: Seq<&str>) ensures (#[trigger] texts(s)).len() == s.len() { }
pub broadcast proof fn lemma_texts_rest(s: Seq<&str>, k: int)
    ensures 0 <= k ==> #[trigger] texts(rest(s, k)) == rest(texts(s), k)
{ reveal(rest); if 0 <= k { assert(texts(rest(s, k)) =~= rest(texts(s), k)); } }
pub broadcast group g_strs { lemma_texts, lemma_texts_len, lemma_texts_rest }

// ---------------------------------------------------------------- Vec::last_mut
pub trait VxLastMut<T> {
    spec fn lv(&self) -> Seq<T>;
    fn vx_last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures match r {
            None => old(self).lv().len() == 0 && final(self).lv() == old(self).lv(),
            Some(m) => old(self).lv().len() > 0 && *m == old(self).lv().last() && final(self).lv() == old(self).lv().drop_last().push(*final(m)),
        };
}
impl<T> VxLastMut<T> for Vec<T> {
    open spec fn lv(&self) -> Seq<T> { self@ }
    fn vx_last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>) { let n = self.len(); if n == 0 { None } else { Some(&mut self[n - 1]) } }
}
