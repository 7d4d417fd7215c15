// ---------------------------------------------------------------- nom 5 parsers over bytes
// TRUSTED: the fixed-width complete parsers of nom. A parser takes its width or fails; what it yields is fixed by those bytes.
pub struct NomErr { }
fn vx_rest<'a>(i: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= i@.len() ensures r@ == i@.skip(n as int) { i.vx_from(n) }
pub type IResult<I, O> = Result<(I, O), NomErr>;
pub trait VxParser: Sized {
    type O;
    spec fn width(&self) -> int;
    spec fn yields(&self, b: Seq<u8>, o: Self::O) -> bool;
    proof fn pos(&self) ensures self.width() >= 0;
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], Self::O>)
        ensures match r {
            Ok(p) => i@.len() >= self.width() && p.0@ == i@.skip(self.width()) && self.yields(i@.take(self.width()), p.1),
            Err(_) => i@.len() < self.width(),
        };
}
/// little-endian, as a number
pub open spec fn le(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { b[0] as int + 256 * le(b.skip(1)) } }
pub open spec fn le32(b: Seq<u8>, k: int) -> int { b[k] as int + 256 * (b[k + 1] as int) + 65536 * (b[k + 2] as int) + 16777216 * (b[k + 3] as int) }
pub struct LeU8 { }
pub struct LeU16 { }
pub struct LeU32 { }
pub struct AnyChar { }
#[allow(non_upper_case_globals)] pub const le_u8: LeU8 = LeU8 { };
#[allow(non_upper_case_globals)] pub const le_u16: LeU16 = LeU16 { };
#[allow(non_upper_case_globals)] pub const le_u32: LeU32 = LeU32 { };
#[allow(non_upper_case_globals)] pub const anychar: AnyChar = AnyChar { };
impl VxParser for LeU8 { proof fn pos(&self) { } type O = u8; open spec fn width(&self) -> int { 1 } open spec fn yields(&self, b: Seq<u8>, o: u8) -> bool { o == b[0] }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], u8>) { if i.len() < 1 { return Err(NomErr { }); } Ok((vx_rest(i, 1), i[0])) } }
impl VxParser for LeU16 { proof fn pos(&self) { } type O = u16; open spec fn width(&self) -> int { 2 } open spec fn yields(&self, b: Seq<u8>, o: u16) -> bool { o == b[0] as int + 256 * (b[1] as int) }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], u16>) { if i.len() < 2 { return Err(NomErr { }); } Ok((vx_rest(i, 2), i[0] as u16 + 256 * (i[1] as u16))) } }
impl VxParser for LeU32 { proof fn pos(&self) { } type O = u32; open spec fn width(&self) -> int { 4 } open spec fn yields(&self, b: Seq<u8>, o: u32) -> bool { o == le32(b, 0) }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], u32>) {
        if i.len() < 4 { return Err(NomErr { }); }
        Ok((vx_rest(i, 4), i[0] as u32 + 256 * (i[1] as u32) + 65536 * (i[2] as u32) + 16777216 * (i[3] as u32))) } }
/// a byte read as a character
impl VxParser for AnyChar { proof fn pos(&self) { } type O = char; open spec fn width(&self) -> int { 1 } open spec fn yields(&self, b: Seq<u8>, o: char) -> bool { o == b[0] as char }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], char>) { if i.len() < 1 { return Err(NomErr { }); } Ok((vx_rest(i, 1), i[0] as char)) } }
pub struct Count<P> { pub p: P, pub n: usize }
pub fn count<P: VxParser>(p: P, n: usize) -> (r: Count<P>) ensures r.p == p, r.n == n { Count { p, n } }
impl<P: VxParser> VxParser for Count<P> { proof fn pos(&self) { self.p.pos(); assert(self.n * self.p.width() >= 0) by (nonlinear_arith) requires self.n >= 0, self.p.width() >= 0; }
    type O = Vec<P::O>; open spec fn width(&self) -> int { self.n * self.p.width() }
    open spec fn yields(&self, b: Seq<u8>, o: Vec<P::O>) -> bool {
        o@.len() == self.n && forall|k: int| 0 <= k < self.n ==> self.p.yields(b.subrange(k * self.p.width(), (k + 1) * self.p.width()), #[trigger] o@[k])
    }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], Vec<P::O>>) {
        let ghost w = self.p.width();
        let mut v: Vec<P::O> = Vec::new();
        let mut cur = i;
        let mut k: usize = 0;
        proof { self.p.pos(); assert(0 * w == 0) by (nonlinear_arith); assert(i@.skip(0) =~= i@); }
        while k < self.n
            invariant w == self.p.width(), w >= 0, k <= self.n, v@.len() == k, 0 <= k * w <= i@.len(), cur@ == i@.skip(k * w),
                forall|j: int| 0 <= j < k ==> self.p.yields(i@.subrange(j * w, (j + 1) * w), #[trigger] v@[j])
            decreases self.n - k
        {
            proof { assert((k + 1) * w == k * w + w) by (nonlinear_arith); assert((k + 1) * w <= self.n * w) by (nonlinear_arith) requires k + 1 <= self.n, w >= 0; }
            match self.p.vx_run(cur) {
                Err(e) => { return Err(e); }
                Ok((n, o)) => {
                    proof { assert(cur@.take(w) =~= i@.subrange(k * w, (k + 1) * w)); assert(n@ =~= i@.skip((k + 1) * w)); }
                    v.push(o); cur = n; k = k + 1;
                }
            }
        }
        proof {
            let t = i@.take(self.n * w);
            assert forall|j: int| 0 <= j < self.n implies self.p.yields(t.subrange(j * w, (j + 1) * w), #[trigger] v@[j]) by {
                assert(0 <= j * w && j * w <= (j + 1) * w && (j + 1) * w <= self.n * w) by (nonlinear_arith) requires 0 <= j < self.n, w >= 0;
                assert(t.subrange(j * w, (j + 1) * w) =~= i@.subrange(j * w, (j + 1) * w));
            }
        }
        Ok((cur, v))
    } }
pub struct Tuple<T> { pub t: T }
pub fn tuple<T>(t: T) -> (r: Tuple<T>) ensures r.t == t { Tuple { t } }
impl<A: VxParser, B: VxParser, C: VxParser> VxParser for Tuple<(A, B, C)> { proof fn pos(&self) { self.t.0.pos(); self.t.1.pos(); self.t.2.pos(); } type O = (A::O, B::O, C::O);
    open spec fn width(&self) -> int { self.t.0.width() + self.t.1.width() + self.t.2.width() }
    open spec fn yields(&self, b: Seq<u8>, o: (A::O, B::O, C::O)) -> bool {
        let a0 = self.t.0.width(); let a1 = a0 + self.t.1.width(); let a2 = a1 + self.t.2.width();
        self.t.0.yields(b.subrange(0, a0), o.0) && self.t.1.yields(b.subrange(a0, a1), o.1) && self.t.2.yields(b.subrange(a1, a2), o.2)
    }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], (A::O, B::O, C::O)>) {
        let (wa, wb, wc) = (Ghost(self.t.0.width()), Ghost(self.t.1.width()), Ghost(self.t.2.width()));
        proof { self.t.0.pos(); self.t.1.pos(); self.t.2.pos(); }
        match self.t.0.vx_run(i) { Err(e) => Err(e), Ok((i1, a)) => match self.t.1.vx_run(i1) { Err(e) => Err(e), Ok((i2, b)) => match self.t.2.vx_run(i2) { Err(e) => Err(e), Ok((i3, c)) => {
            proof {
                let w = i@.take(wa@ + wb@ + wc@);
                assert(i@.take(wa@) =~= w.subrange(0, wa@));
                assert(i1@.take(wb@) =~= w.subrange(wa@, wa@ + wb@));
                assert(i2@.take(wc@) =~= w.subrange(wa@ + wb@, wa@ + wb@ + wc@));
                assert(i3@ =~= i@.skip(wa@ + wb@ + wc@));
            }
            Ok((i3, (a, b, c)))
        } } } } } }
impl<A: VxParser, B: VxParser, C: VxParser, D: VxParser, E: VxParser, F: VxParser, G: VxParser> VxParser for Tuple<(A, B, C, D, E, F, G)> { proof fn pos(&self) { self.t.0.pos(); self.t.1.pos(); self.t.2.pos(); self.t.3.pos(); self.t.4.pos(); self.t.5.pos(); self.t.6.pos(); }
    type O = (A::O, B::O, C::O, D::O, E::O, F::O, G::O);
    open spec fn width(&self) -> int { self.t.0.width() + self.t.1.width() + self.t.2.width() + self.t.3.width() + self.t.4.width() + self.t.5.width() + self.t.6.width() }
    open spec fn yields(&self, b: Seq<u8>, o: (A::O, B::O, C::O, D::O, E::O, F::O, G::O)) -> bool {
        let a0 = self.t.0.width(); let a1 = a0 + self.t.1.width(); let a2 = a1 + self.t.2.width(); let a3 = a2 + self.t.3.width();
        let a4 = a3 + self.t.4.width(); let a5 = a4 + self.t.5.width(); let a6 = a5 + self.t.6.width();
        self.t.0.yields(b.subrange(0, a0), o.0) && self.t.1.yields(b.subrange(a0, a1), o.1) && self.t.2.yields(b.subrange(a1, a2), o.2)
        && self.t.3.yields(b.subrange(a2, a3), o.3) && self.t.4.yields(b.subrange(a3, a4), o.4) && self.t.5.yields(b.subrange(a4, a5), o.5)
        && self.t.6.yields(b.subrange(a5, a6), o.6)
    }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], (A::O, B::O, C::O, D::O, E::O, F::O, G::O)>) {
        proof { self.pos(); self.t.0.pos(); self.t.1.pos(); self.t.2.pos(); self.t.3.pos(); self.t.4.pos(); self.t.5.pos(); self.t.6.pos(); }
        let ghost w0 = self.t.0.width(); let ghost w1 = w0 + self.t.1.width(); let ghost w2 = w1 + self.t.2.width(); let ghost w3 = w2 + self.t.3.width();
        let ghost w4 = w3 + self.t.4.width(); let ghost w5 = w4 + self.t.5.width(); let ghost w6 = w5 + self.t.6.width();
        let ghost w = i@.take(w6);
        let (i0, a) = match self.t.0.vx_run(i) { Err(e) => { return Err(e); } Ok(p) => p };
        let (i1, b) = match self.t.1.vx_run(i0) { Err(e) => { return Err(e); } Ok(p) => p };
        proof { assert(i1@ =~= i@.skip(w1)); }
        let (i2, c) = match self.t.2.vx_run(i1) { Err(e) => { return Err(e); } Ok(p) => p };
        proof { assert(i2@ =~= i@.skip(w2)); }
        let (i3, d) = match self.t.3.vx_run(i2) { Err(e) => { return Err(e); } Ok(p) => p };
        proof { assert(i3@ =~= i@.skip(w3)); }
        let (i4, x) = match self.t.4.vx_run(i3) { Err(e) => { return Err(e); } Ok(p) => p };
        proof { assert(i4@ =~= i@.skip(w4)); }
        let (i5, y) = match self.t.5.vx_run(i4) { Err(e) => { return Err(e); } Ok(p) => p };
        proof { assert(i5@ =~= i@.skip(w5)); }
        let (i6, z) = match self.t.6.vx_run(i5) { Err(e) => { return Err(e); } Ok(p) => p };
        proof {
            assert(i6@ =~= i@.skip(w6));
            assert(i@.take(w0) =~= w.subrange(0, w0)); assert(i0@.take(w1 - w0) =~= w.subrange(w0, w1));
            assert(i1@.take(w2 - w1) =~= w.subrange(w1, w2)); assert(i2@.take(w3 - w2) =~= w.subrange(w2, w3));
            assert(i3@.take(w4 - w3) =~= w.subrange(w3, w4)); assert(i4@.take(w5 - w4) =~= w.subrange(w4, w5));
            assert(i5@.take(w6 - w5) =~= w.subrange(w5, w6));
        }
        Ok((i6, (a, b, c, d, x, y, z)))
    } }

// ---------------------------------------------------------------- arrays and bytes
pub fn vx_char_from(b: u8) -> (r: char) ensures r == b as char { b as char }
pub trait VxCopyFrom<T> { spec fn cv(&self) -> Seq<T>;
    fn vx_copy_from_slice(&mut self, o: &[T]) requires old(self).cv().len() == o@.len() ensures final(self).cv() == o@; }
impl<T, const N: usize> VxCopyFrom<T> for [T; N] { open spec fn cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_copy_from_slice(&mut self, o: &[T]) { unimplemented!() } }
impl<T, const N: usize> VxSlice<T> for [T; N] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vx_to(&self, b: usize) -> (r: &[T]) { self.as_slice().vx_to(b) }
    fn vx_from(&self, a: usize) -> (r: &[T]) { self.as_slice().vx_from(a) }
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { self.as_slice().vx_range(a, b) }
}
#[verifier::external_body]
pub fn vx_vec_from<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
/// an allocation the input cannot justify is a fault: no request may exceed the limit
pub uninterp spec fn alloc_limit() -> int;
#[verifier::external_body]
pub fn vx_repeat(a: u8, n: usize) -> (r: Vec<u8>)
    requires n <= alloc_limit()
    ensures r@ == Seq::new(n as nat, |i: int| a)
{ unimplemented!() }

// ---------------------------------------------------------------- files
// TRUSTED: a file's content does not change while the function runs; io_ok says the operating system can open and read it.
#[verifier::external_body] pub struct IoError { }
pub uninterp spec fn disk(path: Seq<char>) -> Seq<u8>;
pub uninterp spec fn io_ok(path: Seq<char>) -> bool;
#[verifier::external_body] pub struct File { }
#[verifier::external_body] pub struct Metadata { }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait VxBuf { spec fn bv(&self) -> Seq<u8>; }
impl<const N: usize> VxBuf for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl File {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body]
    pub fn open(path: &str) -> (r: Result<File, IoError>)
        ensures match r { Ok(f) => f.bytes() == disk(path@) && f.pos() == 0 && f.ok() == io_ok(path@) && disk(path@).len() <= i64::MAX, Err(_) => !io_ok(path@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, IoError>)
        ensures final(self).bytes() == old(self).bytes(), final(self).ok() == old(self).ok(),
            r.is_err() ==> !old(self).ok() || (p matches SeekFrom::Start(x) && x > i64::MAX),
            r.is_ok() ==> (p matches SeekFrom::Start(x) ==> final(self).pos() == x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact<B: VxBuf>(&mut self, b: &mut B) -> (r: Result<(), IoError>)
        ensures final(self).bytes() == old(self).bytes(), final(self).ok() == old(self).ok(), final(b).bv().len() == old(b).bv().len(),
            r.is_ok() ==> old(self).pos() + old(b).bv().len() <= old(self).bytes().len()
                && final(b).bv() == old(self).bytes().subrange(old(self).pos(), old(self).pos() + old(b).bv().len())
                && final(self).pos() == old(self).pos() + old(b).bv().len(),
            r.is_err() ==> !old(self).ok() || old(self).pos() + old(b).bv().len() > old(self).bytes().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, IoError>)
        ensures r.is_err() ==> !self.ok(), r.is_ok() ==> r->Ok_0.size() == self.bytes().len()
    { unimplemented!() }
}
impl Metadata {
    pub uninterp spec fn size(&self) -> int;
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
}
/// std::fs::read
#[verifier::external_body]
pub fn read(path: &str) -> (r: Result<Vec<u8>, IoError>)
    ensures match r { Ok(v) => v@ == disk(path@), Err(_) => !io_ok(path@) }
{ unimplemented!() }
#[verifier::external_body] pub struct Instant { }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
