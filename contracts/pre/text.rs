// ---------------------------------------------------------------- text formatting
/// TRUSTED: decimal and float texts of std's Display are uninterpreted functions of the value
pub uninterp spec fn dec(i: int) -> Seq<char>;
pub uninterp spec fn f_disp(a: F32) -> Seq<char>;
pub trait VxDisplay { spec fn disp(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp();
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) ensures final(f)@ == old(f)@ + self.disp(); }
macro_rules! disp { ($t:ty, $self:ident, $e:expr) => { verus!{
    impl VxDisplay for $t { open spec fn disp(&$self) -> Seq<char> { $e }
        #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
} } }
macro_rules! disp_text { ($t:ty) => { verus!{
    impl VxDisplay for $t { open spec fn disp(&self) -> Seq<char> { self.view() }
        fn vx_to_string(&self) -> (r: String) { vx_string_from(self.vx_sref()) }
        #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { unimplemented!() } }
} } }
pub trait VxSref { spec fn sr(&self) -> Seq<char>; fn vx_sref(&self) -> (r: &str) ensures r@ == self.sr(); }
impl VxSref for str { open spec fn sr(&self) -> Seq<char> { self@ } fn vx_sref(&self) -> (r: &str) { self } }
impl VxSref for String { open spec fn sr(&self) -> Seq<char> { self@ } fn vx_sref(&self) -> (r: &str) { self.as_str() } }
disp_text!(str);
disp_text!(String);
disp!(i32, self, dec(*self as int));
disp!(u32, self, dec(*self as int));
disp!(usize, self, dec(*self as int));
disp!(F32, self, f_disp(*self));
impl<'a, T: ?Sized + VxDisplay> VxDisplay for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() }
    fn fmt(&self, f: &mut Formatter) -> (r: FmtResult) { (**self).fmt(f) } }
pub struct FmtResult { }
#[verifier::external_body]
pub struct Formatter<'a> { s: &'a str }
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Formatter<'a> {
    #[verifier::external_body] pub fn vx_new() -> (r: Formatter<'a>) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub struct Fmt { s: String }
impl View for Fmt { type V = Seq<char>; closed spec fn view(&self) -> Seq<char> { self.s@ } }
impl Fmt {
    pub fn new() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { Fmt { s: String::new() } }
    pub fn lit(self, t: &str) -> (r: Fmt) ensures r@ == self@ + t@ { let mut s = self.s; s.append(t); Fmt { s } }
    pub fn arg<T: ?Sized + VxDisplay>(self, t: &T) -> (r: Fmt) ensures r@ == self@ + t.disp() { let mut s = self.s; s.append(t.vx_to_string().as_str()); Fmt { s } }
    #[verifier::external_body] pub fn opaque(self) -> (r: Fmt) { unimplemented!() }
    pub fn done(self) -> (r: String) ensures r@ == self@ { self.s }
}
/// a + b on strings
pub fn vx_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { let mut s = a; s.append(b); s }
pub fn vx_string_is_empty(a: &String) -> (r: bool) ensures r == (a@.len() == 0) { a.as_str().unicode_len() == 0 }
/// the texts of all elements one after the other
pub open spec fn cats<T>(s: Seq<T>, h: spec_fn(T) -> Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { cats(s.drop_last(), h) + h(s.last()) }
}
pub broadcast proof fn lemma_fold_cats<'a, T>(s: Seq<T>, g: spec_fn(Seq<char>, &'a T) -> Seq<char>, h: spec_fn(T) -> Seq<char>)
    requires forall|acc: Seq<char>, x: T| (#[trigger] g(acc, &x)) =~= acc + h(x)
    ensures (#[trigger] fold_abs(refs::<'a, T>(s), Seq::<char>::empty(), g)) == #[trigger] cats(s, h)
    decreases s.len()
{
    if s.len() > 0 {
        assert(refs::<'a, T>(s).drop_last() =~= refs::<'a, T>(s.drop_last()));
        lemma_fold_cats(s.drop_last(), g, h);
        let x = s.last();
        assert(g(cats(s.drop_last(), h), &x) =~= cats(s.drop_last(), h) + h(x));
    } else {
        assert(refs::<'a, T>(s) =~= Seq::empty());
    }
}
pub broadcast group g_text { lemma_fold_cats }
pub trait VxPow: Sized { spec fn as_int(self) -> int; spec fn max() -> int;
    fn vx_pow(self, e: u32) -> (r: Self)
        requires vstd::arithmetic::power::pow(self.as_int(), e as nat) <= Self::max()
        ensures r.as_int() == vstd::arithmetic::power::pow(self.as_int(), e as nat); }
impl VxPow for u32 { open spec fn as_int(self) -> int { self as int } open spec fn max() -> int { u32::MAX as int }
    fn vx_pow(self, e: u32) -> (r: u32) {
        let (mut r, mut i): (u32, u32) = (1, 0);
        proof { vstd::arithmetic::power::lemma_pow0(self as int); }
        while i < e
            invariant i <= e, r == vstd::arithmetic::power::pow(self as int, i as nat), vstd::arithmetic::power::pow(self as int, e as nat) <= u32::MAX
            decreases e - i
        {
            proof {
                assert(vstd::arithmetic::power::pow(self as int, (i + 1) as nat) == self as int * vstd::arithmetic::power::pow(self as int, i as nat)) by { reveal(vstd::arithmetic::power::pow); }
                if self > 0 { vstd::arithmetic::power::lemma_pow_increases(self as nat, (i + 1) as nat, e as nat); }
                else { assert(0int * vstd::arithmetic::power::pow(self as int, i as nat) == 0); }
                assert(r * self == self as int * r) by (nonlinear_arith);
            }
            r = r * self; i = i + 1;
        }
        r
    } }
impl VxPow for usize { open spec fn as_int(self) -> int { self as int } open spec fn max() -> int { usize::MAX as int }
    fn vx_pow(self, e: u32) -> (r: usize) {
        let (mut r, mut i): (usize, u32) = (1, 0);
        proof { vstd::arithmetic::power::lemma_pow0(self as int); }
        while i < e
            invariant i <= e, r == vstd::arithmetic::power::pow(self as int, i as nat), vstd::arithmetic::power::pow(self as int, e as nat) <= usize::MAX
            decreases e - i
        {
            proof {
                assert(vstd::arithmetic::power::pow(self as int, (i + 1) as nat) == self as int * vstd::arithmetic::power::pow(self as int, i as nat)) by { reveal(vstd::arithmetic::power::pow); }
                if self > 0 { vstd::arithmetic::power::lemma_pow_increases(self as nat, (i + 1) as nat, e as nat); }
                else { assert(0int * vstd::arithmetic::power::pow(self as int, i as nat) == 0); }
                assert(r * self == self as int * r) by (nonlinear_arith);
            }
            r = r * self; i = i + 1;
        }
        r
    } }
