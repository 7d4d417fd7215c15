// ---------------------------------------------------------------- f32 and glam as uninterpreted operations
// f32 arithmetic is never treated as mathematical: every operation is an uninterpreted function of its operands, so a
// contract that mentions it demands that the code performs exactly these operations on exactly these operands.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { x: f32 }
pub uninterp spec fn f_lit(bits: u32) -> F32;
pub uninterp spec fn f_add(a: F32, b: F32) -> F32;
pub uninterp spec fn f_sub(a: F32, b: F32) -> F32;
pub uninterp spec fn f_mul(a: F32, b: F32) -> F32;
pub uninterp spec fn f_div(a: F32, b: F32) -> F32;
pub uninterp spec fn f_neg(a: F32) -> F32;
pub uninterp spec fn f_eq(a: F32, b: F32) -> bool;
pub uninterp spec fn f_cmp(a: F32, b: F32) -> Option<core::cmp::Ordering>;
pub uninterp spec fn f_abs(a: F32) -> F32;
pub uninterp spec fn f_signum(a: F32) -> F32;
pub uninterp spec fn f_cos(a: F32) -> F32;
pub uninterp spec fn f_atan2(a: F32, b: F32) -> F32;
pub uninterp spec fn f_to_radians(a: F32) -> F32;
pub uninterp spec fn f_is_finite(a: F32) -> bool;
pub uninterp spec fn f_to_i32(a: F32) -> i32;
pub uninterp spec fn f_of_int(a: int) -> F32;
pub open spec fn f_lt(a: F32, b: F32) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Less) }
pub open spec fn f_gt(a: F32, b: F32) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Greater) }
pub open spec fn f_ge(a: F32, b: F32) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Greater) || f_cmp(a, b) == Some(core::cmp::Ordering::Equal) }
pub open spec fn f_le(a: F32, b: F32) -> bool { f_cmp(a, b) == Some(core::cmp::Ordering::Less) || f_cmp(a, b) == Some(core::cmp::Ordering::Equal) }
/// PROVED by Kani (harness f32_eq_laws): IEEE equality is symmetric and transitive
pub broadcast axiom fn ax_f_eq_sym(a: F32, b: F32) ensures #[trigger] f_eq(a, b) == f_eq(b, a);
pub broadcast group g_float { ax_f_eq_sym }
pub axiom fn ax_f_eq_trans(a: F32, b: F32, c: F32) ensures f_eq(a, b) && f_eq(b, c) ==> f_eq(a, c);
pub open spec fn f_nan(a: F32) -> bool { f_cmp(a, a).is_none() }
/// PROVED by Kani (harness f32_cmp_laws): values that are not NaN are totally ordered
pub axiom fn ax_f_cmp(a: F32, b: F32, c: F32)
    ensures !f_nan(a) && !f_nan(b) ==> f_cmp(a, b).is_some(),
        f_cmp(a, b) == Some(core::cmp::Ordering::Greater) <==> f_cmp(b, a) == Some(core::cmp::Ordering::Less),
        f_le(a, b) && f_le(b, c) ==> f_le(a, c);
impl VxAbs for Vec3 { type A = Vec3; open spec fn abs(self) -> Vec3 { self } }
impl F32 {
    #[verifier::external_body] pub fn lit(bits: u32) -> (r: F32) ensures r == f_lit(bits) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F32) ensures r == f_abs(self) { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: F32) ensures r == f_signum(self) { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: F32) ensures r == f_cos(self) { unimplemented!() }
    #[verifier::external_body] pub fn atan2(self, o: F32) -> (r: F32) ensures r == f_atan2(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn to_radians(self) -> (r: F32) ensures r == f_to_radians(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == f_is_finite(self) { unimplemented!() }
}
impl VxClone for F32 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxEq<F32> for F32 { open spec fn speq(&self, b: &F32) -> bool { f_eq(*self, *b) } #[verifier::external_body] fn eqx(&self, b: &F32) -> (r: bool) { unimplemented!() } }
macro_rules! f_op { ($tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $f:ident) => { verus!{
    impl vstd::std_specs::ops::$sp<F32> for F32 {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, o: F32) -> bool { true }
        open spec fn $ss(self, o: F32) -> F32 { $f(self, o) }
    }
    impl core::ops::$tr for F32 { type Output = F32; #[verifier::external_body] fn $m(self, o: F32) -> F32 { unimplemented!() } }
} } }
f_op!(Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, f_add);
f_op!(Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, f_sub);
f_op!(Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, f_mul);
f_op!(Rem, rem, RemSpecImpl, obeys_rem_spec, rem_req, rem_spec, f_rem);
f_op!(Div, div, DivSpecImpl, obeys_div_spec, div_req, div_spec, f_div);
impl vstd::std_specs::ops::NegSpecImpl for F32 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F32 { f_neg(self) }
}
impl core::ops::Neg for F32 { type Output = F32; #[verifier::external_body] fn neg(self) -> F32 { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { f_eq(*self, *o) }
}
impl PartialEq for F32 { #[verifier::external_body] fn eq(&self, o: &F32) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F32 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F32) -> Option<core::cmp::Ordering> { f_cmp(*self, *o) }
}
impl PartialOrd for F32 { #[verifier::external_body] fn partial_cmp(&self, o: &F32) -> Option<core::cmp::Ordering> { unimplemented!() } }
pub trait VxAsF32 { spec fn as_f32_spec(self) -> F32; fn as_f32(self) -> (r: F32) where Self: Sized ensures r == self.as_f32_spec(); }
impl VxAsF32 for usize { open spec fn as_f32_spec(self) -> F32 { f_of_int(self as int) } #[verifier::external_body] fn as_f32(self) -> (r: F32) { unimplemented!() } }
impl VxAsF32 for u32 { open spec fn as_f32_spec(self) -> F32 { f_of_int(self as int) } #[verifier::external_body] fn as_f32(self) -> (r: F32) { unimplemented!() } }
pub fn vx_as_f32<A: VxAsF32>(a: A) -> (r: F32) ensures r == a.as_f32_spec() { a.as_f32() }
#[verifier::external_body]
pub fn vx_f32_to_i32(a: F32) -> (r: i32) ensures r == f_to_i32(a) { unimplemented!() }

// ---------------------------------------------------------------- glam
// A glam vector is determined by its components; new/default/x/y/z/set_x../== construct, project and compare them (PROVED by
// Kani, harness vec3_components, on the pinned glam with its scalar back end; the SSE back end is trusted to compute the same lanes).
#[derive(Clone, Copy)]
pub struct Vec3 { pub cx: F32, pub cy: F32, pub cz: F32 }
#[derive(Clone, Copy)]
pub struct Vec2 { pub cx: F32, pub cy: F32 }
pub uninterp spec fn v_add(a: Vec3, b: Vec3) -> Vec3;
pub uninterp spec fn v_sub(a: Vec3, b: Vec3) -> Vec3;
pub uninterp spec fn v_neg(a: Vec3) -> Vec3;
pub uninterp spec fn v_scale(a: Vec3, b: F32) -> Vec3;
pub uninterp spec fn v_divs(a: Vec3, b: F32) -> Vec3;
pub uninterp spec fn v_dot(a: Vec3, b: Vec3) -> F32;
pub uninterp spec fn v_cross(a: Vec3, b: Vec3) -> Vec3;
pub uninterp spec fn v_normalize(a: Vec3) -> Vec3;
pub open spec fn v_eq(a: Vec3, b: Vec3) -> bool { f_eq(a.cx, b.cx) && f_eq(a.cy, b.cy) && f_eq(a.cz, b.cz) }
pub open spec fn v3(x: F32, y: F32, z: F32) -> Vec3 { Vec3 { cx: x, cy: y, cz: z } }
pub open spec fn v_zero() -> Vec3 { v3(f_lit(0), f_lit(0), f_lit(0)) }
pub open spec fn v2(x: F32, y: F32) -> Vec2 { Vec2 { cx: x, cy: y } }
impl Vec3 {
    pub fn new(x: F32, y: F32, z: F32) -> (r: Vec3) ensures r == v3(x, y, z) { Vec3 { cx: x, cy: y, cz: z } }
    pub fn default() -> (r: Vec3) ensures r == v_zero() { Vec3 { cx: F32::lit(0), cy: F32::lit(0), cz: F32::lit(0) } }
    pub fn x(self) -> (r: F32) ensures r == self.cx { self.cx }
    pub fn y(self) -> (r: F32) ensures r == self.cy { self.cy }
    pub fn z(self) -> (r: F32) ensures r == self.cz { self.cz }
    pub fn set_x(&mut self, v: F32) ensures *final(self) == v3(v, old(self).cy, old(self).cz) { self.cx = v; }
    pub fn set_y(&mut self, v: F32) ensures *final(self) == v3(old(self).cx, v, old(self).cz) { self.cy = v; }
    pub fn set_z(&mut self, v: F32) ensures *final(self) == v3(old(self).cx, old(self).cy, v) { self.cz = v; }
    #[verifier::external_body] pub fn dot(self, o: Vec3) -> (r: F32) ensures r == v_dot(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn cross(self, o: Vec3) -> (r: Vec3) ensures r == v_cross(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn normalize(self) -> (r: Vec3) ensures r == v_normalize(self) { unimplemented!() }
}
impl VxClone for Vec3 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for Vec2 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxEq<Vec3> for Vec3 { open spec fn speq(&self, b: &Vec3) -> bool { v_eq(*self, *b) } #[verifier::external_body] fn eqx(&self, b: &Vec3) -> (r: bool) { unimplemented!() } }
impl VxEq<Vec2> for Vec2 { open spec fn speq(&self, b: &Vec2) -> bool { f_eq(self.cx, b.cx) && f_eq(self.cy, b.cy) } #[verifier::external_body] fn eqx(&self, b: &Vec2) -> (r: bool) { unimplemented!() } }
macro_rules! v_op { ($t:ty, $o:ty, $tr:ident, $m:ident, $sp:ident, $ob:ident, $rq:ident, $ss:ident, $f:ident) => { verus!{
    impl vstd::std_specs::ops::$sp<$o> for $t {
        open spec fn $ob() -> bool { true }
        open spec fn $rq(self, o: $o) -> bool { true }
        open spec fn $ss(self, o: $o) -> $t { $f(self, o) }
    }
    impl core::ops::$tr<$o> for $t { type Output = $t; #[verifier::external_body] fn $m(self, o: $o) -> $t { unimplemented!() } }
} } }
v_op!(Vec3, Vec3, Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, v_add);
v_op!(Vec3, Vec3, Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, v_sub);
v_op!(Vec3, F32, Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, v_scale);
v_op!(Vec3, F32, Div, div, DivSpecImpl, obeys_div_spec, div_req, div_spec, v_divs);
pub uninterp spec fn w_add(a: Vec2, b: Vec2) -> Vec2;
pub uninterp spec fn w_div(a: Vec2, b: Vec2) -> Vec2;
v_op!(Vec2, Vec2, Add, add, AddSpecImpl, obeys_add_spec, add_req, add_spec, w_add);
v_op!(Vec2, Vec2, Div, div, DivSpecImpl, obeys_div_spec, div_req, div_spec, w_div);
impl vstd::std_specs::ops::NegSpecImpl for Vec3 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Vec3 { v_neg(self) }
}
impl core::ops::Neg for Vec3 { type Output = Vec3; #[verifier::external_body] fn neg(self) -> Vec3 { unimplemented!() } }
impl Vec2 {
    pub fn new(x: F32, y: F32) -> (r: Vec2) ensures r == v2(x, y) { Vec2 { cx: x, cy: y } }
    pub fn x(self) -> (r: F32) ensures r == self.cx { self.cx }
    pub fn y(self) -> (r: F32) ensures r == self.cy { self.cy }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Mat2 { x: f32 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Quat { x: f32 }
pub uninterp spec fn m_from_angle(a: F32) -> Mat2;
pub uninterp spec fn m_mul(m: Mat2, v: Vec2) -> Vec2;
pub uninterp spec fn q_axis_angle(a: Vec3, t: F32) -> Quat;
pub uninterp spec fn q_mul(q: Quat, v: Vec3) -> Vec3;
impl Mat2 { #[verifier::external_body] pub fn from_angle(a: F32) -> (r: Mat2) ensures r == m_from_angle(a) { unimplemented!() } }
impl Quat { #[verifier::external_body] pub fn from_axis_angle(a: Vec3, t: F32) -> (r: Quat) ensures r == q_axis_angle(a, t) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Vec2> for Mat2 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Vec2) -> bool { true }
    open spec fn mul_spec(self, o: Vec2) -> Vec2 { m_mul(self, o) }
}
impl core::ops::Mul<Vec2> for Mat2 { type Output = Vec2; #[verifier::external_body] fn mul(self, o: Vec2) -> Vec2 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Vec3> for Quat {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Vec3) -> bool { true }
    open spec fn mul_spec(self, o: Vec3) -> Vec3 { q_mul(self, o) }
}
impl core::ops::Mul<Vec3> for Quat { type Output = Vec3; #[verifier::external_body] fn mul(self, o: Vec3) -> Vec3 { unimplemented!() } }
// further operations, uninterpreted: the current code does not use them; a change that does is judged by its obligations
pub uninterp spec fn f_sqrt(a: F32) -> F32;
pub uninterp spec fn f_sin(a: F32) -> F32;
pub uninterp spec fn f_tan(a: F32) -> F32;
pub uninterp spec fn f_floor(a: F32) -> F32;
pub uninterp spec fn f_ceil(a: F32) -> F32;
pub uninterp spec fn f_round(a: F32) -> F32;
pub uninterp spec fn f_trunc(a: F32) -> F32;
pub uninterp spec fn f_fract(a: F32) -> F32;
pub uninterp spec fn f_acos(a: F32) -> F32;
pub uninterp spec fn f_asin(a: F32) -> F32;
pub uninterp spec fn f_atan(a: F32) -> F32;
pub uninterp spec fn f_exp(a: F32) -> F32;
pub uninterp spec fn f_ln(a: F32) -> F32;
pub uninterp spec fn f_to_degrees(a: F32) -> F32;
pub uninterp spec fn f_recip(a: F32) -> F32;
pub uninterp spec fn f_max(a: F32, b: F32) -> F32;
pub uninterp spec fn f_min(a: F32, b: F32) -> F32;
pub uninterp spec fn f_powf(a: F32, b: F32) -> F32;
pub uninterp spec fn f_hypot(a: F32, b: F32) -> F32;
pub uninterp spec fn f_rem_euclid(a: F32, b: F32) -> F32;
pub uninterp spec fn f_rem(a: F32, b: F32) -> F32;
pub uninterp spec fn f_is_inf(a: F32) -> bool;
impl F32 {
    #[verifier::external_body] pub fn sqrt(self) -> (r: F32) ensures r == f_sqrt(self) { unimplemented!() }
    #[verifier::external_body] pub fn sin(self) -> (r: F32) ensures r == f_sin(self) { unimplemented!() }
    #[verifier::external_body] pub fn tan(self) -> (r: F32) ensures r == f_tan(self) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F32) ensures r == f_floor(self) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F32) ensures r == f_ceil(self) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F32) ensures r == f_round(self) { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: F32) ensures r == f_trunc(self) { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: F32) ensures r == f_fract(self) { unimplemented!() }
    #[verifier::external_body] pub fn acos(self) -> (r: F32) ensures r == f_acos(self) { unimplemented!() }
    #[verifier::external_body] pub fn asin(self) -> (r: F32) ensures r == f_asin(self) { unimplemented!() }
    #[verifier::external_body] pub fn atan(self) -> (r: F32) ensures r == f_atan(self) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: F32) ensures r == f_exp(self) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: F32) ensures r == f_ln(self) { unimplemented!() }
    #[verifier::external_body] pub fn to_degrees(self) -> (r: F32) ensures r == f_to_degrees(self) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: F32) ensures r == f_recip(self) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, o: F32) -> (r: F32) ensures r == f_powf(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn hypot(self, o: F32) -> (r: F32) ensures r == f_hypot(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn rem_euclid(self, o: F32) -> (r: F32) ensures r == f_rem_euclid(self, o) { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == f_nan(self) { unimplemented!() }
    pub fn max(self, o: F32) -> (r: F32) ensures r == f_max(self, o) { self.vx_max(o) }
    pub fn min(self, o: F32) -> (r: F32) ensures r == f_min(self, o) { self.vx_min(o) }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == f_is_inf(self) { unimplemented!() }
}
impl VxOrd for F32 {
    open spec fn max_spec(self, o: F32) -> F32 { f_max(self, o) }
    open spec fn min_spec(self, o: F32) -> F32 { f_min(self, o) }
    #[verifier::external_body] fn vx_max(self, o: F32) -> (r: F32) { unimplemented!() }
    #[verifier::external_body] fn vx_min(self, o: F32) -> (r: F32) { unimplemented!() }
}
pub uninterp spec fn v_len(a: Vec3) -> F32;
pub uninterp spec fn v_len2(a: Vec3) -> F32;
pub uninterp spec fn v_min(a: Vec3, b: Vec3) -> Vec3;
pub uninterp spec fn v_max(a: Vec3, b: Vec3) -> Vec3;
pub uninterp spec fn v_lerp(a: Vec3, b: Vec3, t: F32) -> Vec3;
pub uninterp spec fn w_sub(a: Vec2, b: Vec2) -> Vec2;
pub uninterp spec fn w_mul(a: Vec2, b: Vec2) -> Vec2;
pub uninterp spec fn w_scale(a: Vec2, b: F32) -> Vec2;
pub uninterp spec fn w_neg(a: Vec2) -> Vec2;
impl Vec3 {
    #[verifier::external_body] pub fn length(self) -> (r: F32) ensures r == v_len(self) { unimplemented!() }
    #[verifier::external_body] pub fn length_squared(self) -> (r: F32) ensures r == v_len2(self) { unimplemented!() }
    #[verifier::external_body] pub fn lerp(self, o: Vec3, t: F32) -> (r: Vec3) ensures r == v_lerp(self, o, t) { unimplemented!() }
    pub fn splat(v: F32) -> (r: Vec3) ensures r == v3(v, v, v) { Vec3 { cx: v, cy: v, cz: v } }
    pub fn zero() -> (r: Vec3) ensures r == v_zero() { Vec3 { cx: F32::lit(0), cy: F32::lit(0), cz: F32::lit(0) } }
}
v_op!(Vec2, Vec2, Sub, sub, SubSpecImpl, obeys_sub_spec, sub_req, sub_spec, w_sub);
v_op!(Vec2, Vec2, Mul, mul, MulSpecImpl, obeys_mul_spec, mul_req, mul_spec, w_mul);
impl VxOrd for Vec3 {
    open spec fn max_spec(self, o: Vec3) -> Vec3 { v_max(self, o) }
    open spec fn min_spec(self, o: Vec3) -> Vec3 { v_min(self, o) }
    #[verifier::external_body] fn vx_max(self, o: Vec3) -> (r: Vec3) { unimplemented!() }
    #[verifier::external_body] fn vx_min(self, o: Vec3) -> (r: Vec3) { unimplemented!() }
}
