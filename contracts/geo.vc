@unit geo
@pre core textops stdops iter map float strs sort dedup
@root
pub use map::quake::types::entity::Entity;
pub use map::quake::types::brush::Brush;
pub use map::quake::types::brush_plane::*;
pub use core::cmp::Ordering;
use map::types::uv::UV;
pub use types::vertex::Vertex;
use types::texture::*;
use types::color::Color;
pub type Face = geo_builder::brush_plane::geometry::Geometry;
pub type Solid = geo_builder::brush::geometry::Geometry;
pub type Shape = geo_builder::entity::geometry::Geometry;

pub open spec fn prop(e: Entity, k: Seq<char>) -> Option<Seq<char>> {
    if e.properties@.contains_key(k) { Some(e.properties@[k]@) } else { None }
}
pub open spec fn opt_text(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
// ------------------------------------------------------------------ planes
/// unit normal and distance of a plane
pub open spec fn pn(p: BrushPlane) -> Vec3 { v_normalize(v_cross(v_sub(p.v2, p.v0), v_sub(p.v1, p.v0))) }
pub open spec fn pd(p: BrushPlane) -> F32 { v_dot(pn(p), p.v0) }
pub open spec fn eps() -> F32 { 0.001 }
// ------------------------------------------------------------------ G01
pub open spec fn triple(p0: BrushPlane, p1: BrushPlane, p2: BrushPlane) -> F32 { v_dot(v_cross(pn(p0), pn(p1)), pn(p2)) }
/// the common point of three planes that cross positively
pub open spec fn crossing(p0: BrushPlane, p1: BrushPlane, p2: BrushPlane) -> Option<Vec3> {
    let d = triple(p0, p1, p2);
    if f_ge(d, eps()) && f_is_finite(d) {
        Some(v_divs(v_add(v_add(v_scale(v_cross(pn(p1), pn(p2)), pd(p0)), v_scale(v_cross(pn(p2), pn(p0)), pd(p1))), v_scale(v_cross(pn(p0), pn(p1)), pd(p2))), d))
    } else { None }
}
pub open spec fn outside(v: Vec3, p: BrushPlane) -> bool {
    f_gt(v_dot(pn(p), v), pd(p)) && f_gt(f_sub(v_dot(pn(p), v), pd(p)), eps())
}
pub open spec fn in_hull(v: Vec3, hull: Seq<BrushPlane>) -> bool { forall|i: int| 0 <= i < hull.len() ==> !outside(v, #[trigger] hull[i]) }
/// the corner three planes of a brush give its first one
pub open spec fn corner_at(planes: Seq<BrushPlane>, p: BrushPlane, p1: BrushPlane, p2: BrushPlane) -> Option<Vec3> {
    match crossing(p, p1, p2) { Some(v) => if in_hull(v, planes) { Some(v) } else { None }, None => None }
}
// ------------------------------------------------------------------ G05
pub open spec fn phong(e: Entity) -> bool { prop(e, "_phong"@) == Some("1"@) }
/// the threshold a readable angle sets on the cosine
pub open spec fn threshold(a: Option<Seq<char>>) -> Option<F32> {
    match a {
        Some(t) => match f_parse(t) { Some(x) => Some(f_cos(f_mul(f_add(x, 0.01), 0.017_453_3))), None => None },
        None => None,
    }
}
pub open spec fn admits(p0: BrushPlane, p: BrushPlane, th: F32) -> bool { f_gt(v_dot(pn(p0), pn(p)), th) }
pub open spec fn phong_of(p0: BrushPlane, p1: BrushPlane, p2: BrushPlane, a: Option<Seq<char>>) -> Vec3 {
    match threshold(a) {
        Some(th) => {
            let n = if admits(p0, p1, th) { v_add(pn(p0), pn(p1)) } else { pn(p0) };
            v_normalize(if admits(p0, p2, th) { v_add(n, pn(p2)) } else { n })
        },
        None => v_normalize(v_add(v_add(pn(p0), pn(p1)), pn(p2))),
    }
}
pub open spec fn normal_of(e: Entity, p0: BrushPlane, p1: BrushPlane, p2: BrushPlane) -> Vec3 {
    if phong(e) { phong_of(p0, p1, p2, prop(e, "_phong_angle"@)) } else { pn(p0) }
}
// ------------------------------------------------------------------ G03, G04
pub open spec fn du(p: BrushPlane) -> F32 { v_dot(pn(p), v3(0.0, 0.0, 1.0)) }
pub open spec fn dr(p: BrushPlane) -> F32 { v_dot(pn(p), v3(0.0, 1.0, 0.0)) }
pub open spec fn df(p: BrushPlane) -> F32 { v_dot(pn(p), v3(1.0, 0.0, 0.0)) }
pub enum Facing { Z, Y, X, Nowhere }
/// the dominant axis of the normal: z before y before x on ties
pub open spec fn facing(p: BrushPlane) -> Facing {
    let (u, r, f) = (f_abs(du(p)), f_abs(dr(p)), f_abs(df(p)));
    if f_ge(u, r) && f_ge(u, f) { Facing::Z } else if f_ge(r, u) && f_ge(r, f) { Facing::Y } else if f_ge(f, u) && f_ge(f, r) { Facing::X } else { Facing::Nowhere }
}
/// PROVED by Kani (harness triple_finite, on the pinned glam, all bit patterns): NaN and infinity carry through products and sums, so a finite triple product has a finite normal,
/// and the components of a finite vector are comparable
pub axiom fn ax_facing(p0: BrushPlane, p1: BrushPlane, p2: BrushPlane)
    requires f_is_finite(triple(p0, p1, p2))
    ensures facing(p0) != Facing::Nowhere;
pub open spec fn tex_size(t: Texture) -> Vec2 { v2(f_of_int(t.width as int), f_of_int(t.height as int)) }
pub open spec fn projected(v: Vec3, p: BrushPlane) -> Vec2 {
    match facing(p) { Facing::Z => v2(v.cx, f_neg(v.cy)), Facing::Y => v2(v.cx, f_neg(v.cz)), _ => v2(v.cy, f_neg(v.cz)) }
}
pub open spec fn uv_of(v: Vec3, p: BrushPlane, t: Texture) -> Vec2 {
    match p.uv {
        UV::Quake(q) => w_add(
            w_div(w_div(m_mul(m_from_angle(f_to_radians(p.rotation)), projected(v, p)), tex_size(t)), p.scale),
            w_div(v2(q.u, q.v), tex_size(t))),
        UV::Valve(q) => w_add(
            w_div(w_div(v2(v_dot(q.u_axis, v), v_dot(q.v_axis, v)), tex_size(t)), p.scale),
            w_div(v2(q.u_offset, q.v_offset), tex_size(t))),
    }
}
/// direction and sign a standard plane's facing sets
pub open spec fn tangent_dir(p: BrushPlane) -> (Vec3, F32) {
    match facing(p) {
        Facing::Z => (v3(1.0, 0.0, 0.0), f_signum(du(p))),
        Facing::Y => (v3(1.0, 0.0, 0.0), f_neg(f_signum(dr(p)))),
        _ => (v3(0.0, 1.0, 0.0), f_signum(df(p))),
    }
}
pub open spec fn tangent_of(p: BrushPlane) -> (Vec3, F32) {
    match p.uv {
        UV::Quake(_) => {
            let (v, s) = tangent_dir(p);
            (q_mul(q_axis_angle(pn(p), f_mul(f_neg(f_to_radians(p.rotation)), s)), v), f_mul(s, f_signum(p.scale.cy)))
        },
        UV::Valve(q) => (q.u_axis, f_neg(f_signum(v_dot(v_cross(pn(p), q.u_axis), q.v_axis)))),
    }
}
// ------------------------------------------------------------------ a face
pub open spec fn opt_uv(t: Option<Texture>, v: Vec3, p: BrushPlane) -> Option<Vec2> {
    match t { Some(t) => Some(uv_of(v, p, t)), None => None }
}
pub open spec fn color_of(p: BrushPlane) -> Option<Color> { match p.extra { ExtraData::Daikatana(_, c) => Some(c), _ => None } }
pub open spec fn corner(t: Option<Texture>, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane, p1: BrushPlane, p2: BrushPlane) -> Option<Vertex> {
    match corner_at(planes, p, p1, p2) {
        Some(v) => Some(Vertex { vertex: v, normal: normal_of(e, p, p1, p2), tangent: tangent_of(p), uv: opt_uv(t, v, p), color: color_of(p) }),
        None => None,
    }
}
/// the corners found for one first neighbour, and for all
pub open spec fn found_row(t: Option<Texture>, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane, p1: BrushPlane) -> Seq<Vertex> {
    flat(refs(planes).map_values(|p2: &BrushPlane| opt_seq(corner(t, e, planes, p, p1, *p2))))
}
pub open spec fn found(t: Option<Texture>, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane) -> Seq<Vertex> {
    flat(refs(planes).map_values(|p1: &BrushPlane| found_row(t, e, planes, p, *p1)))
}
pub open spec fn same_spot() -> spec_fn(Vertex, Vertex) -> bool { |a: Vertex, b: Vertex| v_eq(a.vertex, b.vertex) }
pub open spec fn smooth(v: Vertex, ph: bool) -> Vertex { if ph { Vertex { normal: v_normalize(v.normal), ..v } } else { v } }
/// each corner once
pub open spec fn corners(s: Seq<Vertex>, ph: bool) -> Seq<Vertex> { last_ix(s, same_spot(), s.len() as int).map_values(|i: int| smooth(s[i], ph)) }
pub open spec fn one_corner(s: Seq<Vertex>, ph: bool, i: int) -> Option<Vertex> {
    if last_of(s, same_spot(), i) { Some(smooth(s[i], ph)) } else { None }
}
// ------------------------------------------------------------------ G06
pub open spec fn count(n: nat) -> F32 { f_of_int(if n >= 1 { n as int } else { 1 }) }
pub open spec fn mean_vertices(s: Seq<Vertex>) -> Vec3 {
    v_divs(fold_abs(refs(s), v_zero(), |a: Vec3, x: &Vertex| v_add(a, x.vertex)), count(s.len()))
}
pub open spec fn mean_faces(s: Seq<Face>) -> Vec3 {
    v_divs(fold_abs(refs(s), v_zero(), |a: Vec3, x: &Face| v_add(a, x.center)), count(s.len()))
}
pub open spec fn mean_solids(s: Seq<Solid>) -> Vec3 {
    v_divs(fold_abs(refs(s), v_zero(), |a: Vec3, x: &Solid| v_add(a, x.center)), count(s.len()))
}
// ------------------------------------------------------------------ G02
pub open spec fn u_dir(p: BrushPlane) -> Vec3 { v_normalize(v_sub(p.v1, p.v0)) }
pub open spec fn v_dir(p: BrushPlane) -> Vec3 { v_cross(pn(p), u_dir(p)) }
pub open spec fn angle(p: BrushPlane, v: Vertex) -> F32 { f_atan2(v_dot(v.vertex, v_dir(p)), v_dot(v.vertex, u_dir(p))) }
pub open spec fn by_angle(p: BrushPlane) -> spec_fn(Vertex, Vertex) -> Ordering {
    |a: Vertex, b: Vertex| match f_cmp(angle(p, b), angle(p, a)) { Some(o) => o, None => Ordering::Equal }
}
pub open spec fn out_of(c: Vec3) -> spec_fn(Vertex) -> Vertex { |v: Vertex| Vertex { vertex: v_sub(v.vertex, c), ..v } }
pub open spec fn back_to(c: Vec3) -> spec_fn(Vertex) -> Vertex { |v: Vertex| Vertex { vertex: v_add(v.vertex, c), ..v } }
/// the corners about the centre, in winding order
pub open spec fn wound(s: Seq<Vertex>, p: BrushPlane) -> Seq<Vertex> { sorted_seq(s.map_values(out_of(mean_vertices(s))), by_angle(p)) }
pub open spec fn fan(n: int) -> Seq<usize> decreases n {
    if n < 3 { Seq::empty() } else { fan(n - 1) + seq![0usize, (n - 2) as usize, (n - 1) as usize] }
}
pub open spec fn fan_row(i: int) -> Seq<usize> { seq![0usize, (i + 1) as usize, (i + 2) as usize] }
pub open spec fn fan_rows(n: int) -> Seq<Seq<usize>> { Seq::new(n as nat, |i: int| fan_row(i)) }
pub proof fn lemma_fan(n: int)
    requires 2 <= n
    ensures flat(fan_rows(n - 2)) == fan(n)
    decreases n
{
    if n == 2 { assert(fan_rows(0) =~= Seq::empty()); } else {
        lemma_fan(n - 1);
        assert(fan_rows(n - 2).drop_last() =~= fan_rows(n - 3));
    }
}
pub broadcast proof fn lemma_last_of<'a>(s: Seq<Vertex>, k: int, n: int, p: spec_fn(&'a Vertex) -> bool)
    requires 1 <= k <= n, n == s.len(), forall|x: &'a Vertex| #[trigger] p(x) == v_eq(x.vertex, s[k - 1].vertex)
    ensures (#[trigger] find_first(refs::<'a, Vertex>(s).subrange(k, n), p)).is_none() == last_of(s, same_spot(), k - 1)
{
    let sub = refs::<'a, Vertex>(s).subrange(k, n);
    lemma_find_first(sub, p);
    assert forall|j: int| k - 1 < j < n implies #[trigger] p(&s[j]) == p(sub[j - k]) by { assert(sub[j - k] == refs::<'a, Vertex>(s)[j]); }
    if last_of(s, same_spot(), k - 1) {
        assert forall|i: int| 0 <= i < sub.len() implies !p(#[trigger] sub[i]) by { assert(!same_spot()(s[i + k], s[k - 1])); assert(sub[i] == &s[i + k]); }
    } else {
        let j = choose|j: int| k - 1 < j < n && same_spot()(#[trigger] s[j], s[k - 1]);
        assert(p(&s[j]));
        assert(p(sub[j - k]));
    }
}
pub open spec fn corner_rows(s: Seq<Vertex>, ph: bool) -> Seq<Seq<Vertex>> { Seq::new(s.len(), |i: int| opt_seq(one_corner(s, ph, i))) }
pub proof fn lemma_corners(s: Seq<Vertex>, ph: bool)
    ensures flat(corner_rows(s, ph)) == corners(s, ph)
{
    let e = corner_rows(s, ph);
    lemma_distinct_flat(s, same_spot(), |v: Vertex| smooth(v, ph), e, s.len() as int);
    assert(e.take(s.len() as int) =~= e);
    assert(corners(s, ph) =~= last_ix(s, same_spot(), s.len() as int).map_values(|i: int| (|v: Vertex| smooth(v, ph))(s[i])));
}
pub open spec fn known(ti: TextureInfo, p: BrushPlane) -> Option<Texture> {
    if ti.0@.contains_key(p.texture@) { Some(ti.0@[p.texture@]) } else { None }
}
pub open spec fn face_corners(ti: TextureInfo, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane) -> Seq<Vertex> {
    corners(found(known(ti, p), e, planes, p), phong(e))
}
pub open spec fn face_is(r: Face, ti: TextureInfo, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane) -> bool {
    let s = face_corners(ti, e, planes, p);
    &&& r.center == mean_vertices(s)
    &&& r.vertices@ == wound(s, p).map_values(back_to(r.center))
    &&& r.indices@ == fan(r.vertices@.len() as int)
    &&& r.texture == (if known(ti, p).is_some() { Some(p.texture) } else { None })
}
pub open spec fn solid_is(r: Solid, ti: TextureInfo, e: Entity, b: Brush) -> bool {
    &&& r.plane_geometry@.len() == b.planes@.len()
    &&& forall|i: int| 0 <= i < b.planes@.len() ==> face_is(#[trigger] r.plane_geometry@[i], ti, e, b.planes@, b.planes@[i])
    &&& r.center == mean_faces(r.plane_geometry@)
}
/// the k-th word of an origin text; a missing or unreadable one is zero
pub open spec fn origin_comp(t: Seq<char>, k: int) -> F32 {
    let w = split_on(t, ' ');
    if k < w.len() { match f_parse(w[k]) { Some(x) => x, None => 0.0 } } else { 0.0 }
}
/// PROVED by Kani on the real std code (kani/: parse_zero)
pub axiom fn ax_parse_zero() ensures f_parse("0.0"@) == Some(0.0);
pub open spec fn shape_is(r: Shape, ti: TextureInfo, e: Entity) -> bool {
    &&& r.brush_geometry@.len() == e.brushes@.len()
    &&& forall|i: int| 0 <= i < e.brushes@.len() ==> solid_is(#[trigger] r.brush_geometry@[i], ti, e, e.brushes@[i])
    &&& r.center == (match prop(e, "origin"@) {
        Some(t) => v3(origin_comp(t, 0), origin_comp(t, 1), origin_comp(t, 2)),
        None => mean_solids(r.brush_geometry@),
    })
}
// ------------------------------------------------------------------ what G01 and G02 claim, from the definitions above
/// each point the planes imply is a corner, each corner is such a point, and no two corners coincide
#[verifier::opaque]
pub open spec fn corners_exact(s: Seq<Vertex>, planes: Seq<BrushPlane>, p: BrushPlane) -> bool {
    &&& forall|i: int, j: int| 0 <= i < planes.len() && 0 <= j < planes.len() && (#[trigger] corner_at(planes, p, planes[i], planes[j])).is_some()
        ==> exists|k: int| 0 <= k < s.len() && same_point((#[trigger] s[k]).vertex, corner_at(planes, p, planes[i], planes[j]).unwrap())
    &&& forall|k: int| 0 <= k < s.len() ==> exists|i: int, j: int| 0 <= i < planes.len() && 0 <= j < planes.len() && #[trigger] corner_at(planes, p, planes[i], planes[j]) == Some((#[trigger] s[k]).vertex)
    &&& forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < s.len() && k != l ==> !v_eq((#[trigger] s[k]).vertex, (#[trigger] s[l]).vertex)
}
pub open spec fn same_point(a: Vec3, b: Vec3) -> bool { a == b || v_eq(a, b) }
proof fn lemma_found_has(t: Option<Texture>, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane, i: int, j: int) -> (m: int)
    requires 0 <= i < planes.len(), 0 <= j < planes.len(), corner_at(planes, p, planes[i], planes[j]).is_some()
    ensures 0 <= m < found(t, e, planes, p).len(), found(t, e, planes, p)[m] == corner(t, e, planes, p, planes[i], planes[j]).unwrap()
{
    let row = refs(planes).map_values(|p2: &BrushPlane| opt_seq(corner(t, e, planes, p, planes[i], *p2)));
    assert(row[j] == opt_seq(corner(t, e, planes, p, planes[i], planes[j])));
    let k = lemma_flat_has(row, j, 0);
    let all = refs(planes).map_values(|p1: &BrushPlane| found_row(t, e, planes, p, *p1));
    assert(all[i] == found_row(t, e, planes, p, planes[i]));
    lemma_flat_has(all, i, k)
}
proof fn lemma_found_from(t: Option<Texture>, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane, m: int) -> (r: (int, int))
    requires 0 <= m < found(t, e, planes, p).len()
    ensures 0 <= r.0 < planes.len(), 0 <= r.1 < planes.len(), corner(t, e, planes, p, planes[r.0], planes[r.1]) == Some(found(t, e, planes, p)[m])
{
    let all = refs(planes).map_values(|p1: &BrushPlane| found_row(t, e, planes, p, *p1));
    let (i, k) = lemma_flat_from(all, m);
    assert(all[i] == found_row(t, e, planes, p, planes[i]));
    let row = refs(planes).map_values(|p2: &BrushPlane| opt_seq(corner(t, e, planes, p, planes[i], *p2)));
    let (j, z) = lemma_flat_from(row, k);
    assert(row[j] == opt_seq(corner(t, e, planes, p, planes[i], planes[j])));
    (i, j)
}
pub proof fn lemma_g01(t: Option<Texture>, e: Entity, planes: Seq<BrushPlane>, p: BrushPlane, ph: bool)
    ensures corners_exact(corners(found(t, e, planes, p), ph), planes, p)
{
    reveal(corners_exact);
    let f = found(t, e, planes, p);
    let n = f.len() as int;
    let ix = last_ix(f, same_spot(), n);
    let s = corners(f, ph);
    lemma_last_ix(f, same_spot(), n);
    assert forall|a: int, b: int, c: int| 0 <= a < n && 0 <= b < n && 0 <= c < n && #[trigger] same_spot()(f[a], f[b]) && #[trigger] same_spot()(f[b], f[c]) implies same_spot()(f[a], f[c]) by {
        ax_f_eq_trans(f[a].vertex.cx, f[b].vertex.cx, f[c].vertex.cx);
        ax_f_eq_trans(f[a].vertex.cy, f[b].vertex.cy, f[c].vertex.cy);
        ax_f_eq_trans(f[a].vertex.cz, f[b].vertex.cz, f[c].vertex.cz);
    }
    assert forall|i: int, j: int| 0 <= i < planes.len() && 0 <= j < planes.len() && (#[trigger] corner_at(planes, p, planes[i], planes[j])).is_some()
        implies exists|k: int| 0 <= k < s.len() && same_point((#[trigger] s[k]).vertex, corner_at(planes, p, planes[i], planes[j]).unwrap()) by {
        let m = lemma_found_has(t, e, planes, p, i, j);
        let l = lemma_last_exists(f, same_spot(), m);
        assert(ix.contains(l));
        let k = choose|k: int| 0 <= k < ix.len() && ix[k] == l;
        assert(s[k].vertex == f[l].vertex);
    }
    assert forall|k: int| 0 <= k < s.len() implies exists|i: int, j: int| 0 <= i < planes.len() && 0 <= j < planes.len() && #[trigger] corner_at(planes, p, planes[i], planes[j]) == Some((#[trigger] s[k]).vertex) by {
        let (i, j) = lemma_found_from(t, e, planes, p, ix[k]);
        assert(corner_at(planes, p, planes[i], planes[j]) == Some(s[k].vertex));
    }
    assert forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < s.len() && k != l implies !v_eq((#[trigger] s[k]).vertex, (#[trigger] s[l]).vertex) by {
        assert(ix[k] != ix[l]);
        assert(last_of(f, same_spot(), ix[k]) && last_of(f, same_spot(), ix[l]));
        if ix[k] < ix[l] { assert(!same_spot()(f[ix[l]], f[ix[k]])); } else { assert(!same_spot()(f[ix[k]], f[ix[l]])); }
    }
}
/// n - 2 triangles, the i-th joining 0, i + 1 and i + 2; none below three corners
#[verifier::opaque]
pub open spec fn fan_exact(ix: Seq<usize>, n: int) -> bool {
    &&& ix.len() == (if n < 3 { 0 } else { 3 * (n - 2) })
    &&& forall|k: int| 0 <= k < ix.len() ==> #[trigger] ix[k] < n && ix[k] == (if k % 3 == 0 { 0 } else { k / 3 + k % 3 })
}
pub proof fn lemma_g02_fan(n: int)
    requires 0 <= n <= usize::MAX
    ensures fan_exact(fan(n), n)
    decreases n
{
    reveal(fan_exact);
    if n >= 3 {
        lemma_g02_fan(n - 1);
        assert(fan(n).len() == 3 * (n - 2));
        assert forall|k: int| 0 <= k < fan(n).len() implies #[trigger] fan(n)[k] < n && fan(n)[k] == (if k % 3 == 0 { 0 } else { k / 3 + k % 3 }) by {
            if k < 3 * (n - 3) { assert(fan(n)[k] == fan(n - 1)[k]); }
        }
    }
}
/// the corners about the centre, none lost or added, by falling angle
#[verifier::opaque]
pub open spec fn wound_exact(w: Seq<Vertex>, about: Seq<Vertex>, p: BrushPlane) -> bool {
    &&& w.to_multiset() == about.to_multiset()
    &&& (forall|i: int| 0 <= i < about.len() ==> !f_nan(angle(p, #[trigger] about[i])))
        ==> forall|i: int, j: int| 0 <= i < j < w.len() ==> f_ge(angle(p, #[trigger] w[i]), angle(p, #[trigger] w[j]))
}
pub proof fn lemma_g02_order(s: Seq<Vertex>, p: BrushPlane)
    ensures ({ let about = s.map_values(out_of(mean_vertices(s))); wound_exact(wound(s, p), about, p) })
{
    reveal(wound_exact);
    let about = s.map_values(out_of(mean_vertices(s)));
    let c = by_angle(p);
    let w = wound(s, p);
    ax_sorted_elems(about, c);
    if forall|i: int| 0 <= i < about.len() ==> !f_nan(angle(p, #[trigger] about[i])) {
        assert forall|i: int, j: int| 0 <= i < about.len() && 0 <= j < about.len() implies (#[trigger] c(about[i], about[j]) == Ordering::Greater <==> c(about[j], about[i]) == Ordering::Less) by {
            ax_f_cmp(angle(p, about[j]), angle(p, about[i]), angle(p, about[i]));
            ax_f_cmp(angle(p, about[i]), angle(p, about[j]), angle(p, about[i]));
        }
        assert forall|i: int, j: int, k: int| 0 <= i < about.len() && 0 <= j < about.len() && 0 <= k < about.len() && #[trigger] c(about[i], about[j]) != Ordering::Greater && #[trigger] c(about[j], about[k]) != Ordering::Greater
            implies c(about[i], about[k]) != Ordering::Greater by {
            ax_f_cmp(angle(p, about[k]), angle(p, about[j]), angle(p, about[i]));
            ax_f_cmp(angle(p, about[j]), angle(p, about[i]), angle(p, about[i]));
            ax_f_cmp(angle(p, about[k]), angle(p, about[i]), angle(p, about[i]));
        }
        ax_sorted_order(about, c);
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies f_ge(angle(p, #[trigger] w[i]), angle(p, #[trigger] w[j])) by {
            assert(c(w[i], w[j]) != Ordering::Greater);
            assert(w.to_multiset().contains(w[i]) && w.to_multiset().contains(w[j])) by { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(w.contains(w[i]) && w.contains(w[j])); }
            assert(about.contains(w[i]) && about.contains(w[j])) by { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
            assert(!f_nan(angle(p, w[i])) && !f_nan(angle(p, w[j])));
            ax_f_cmp(angle(p, w[j]), angle(p, w[i]), angle(p, w[i]));
            ax_f_cmp(angle(p, w[i]), angle(p, w[j]), angle(p, w[j]));
            assert(f_cmp(angle(p, w[j]), angle(p, w[i])).is_some());
        }
    }
}
@file lib.rs
@types QuarchitectError
@file types.rs
@types *
@file types/color.rs
@types *
@file types/texture.rs
@types TextureInfo Texture
@fn Texture::new
@props G03
@ensures r.width == width, r.height == height,
@fn Texture::size
@props G03
@ensures r == tex_size(*self),
@file types/vertex.rs
@types *
@raw
impl VxAbs for Vertex { type A = Vertex; open spec fn abs(self) -> Vertex { self } }
@fn Vertex::new
@ensures r == (Vertex { vertex, normal, tangent, uv, color }),
@file map/mod.rs
@file map/types/mod.rs
@file map/types/uv.rs
@types *
@file map/quake/mod.rs
@file map/quake/types/mod.rs
@file map/quake/types/brush.rs
@types *
@file map/quake/types/brush_plane.rs
@types *
@fn BrushPlane::normal
@ensures r == pn(*self),
@fn BrushPlane::dist
@ensures r == pd(*self),
@file map/quake/types/entity.rs
@types *
@fn Entity::get_property
@ensures opt_text(r) == prop(*self, name@),
@file geo_builder/mod.rs
@fn run
@props G06 S08
@ensures
r@.len() == entities@.len(),
forall|i: int| 0 <= i < entities@.len() ==> shape_is(#[trigger] r@[i], *textures, entities@[i]),
@closure 0
@c_params &Entity
@c_out y: Shape
@c_ensures shape_is(y, *textures, *$0)
@file geo_builder/entity/mod.rs
@fn build
@props G06
@ensures shape_is(r, *textures, *entity),
@proof start
ax_parse_zero();
@closure 0
@c_params &Brush
@c_out y: Solid
@c_ensures solid_is(y, *textures, *entity, *$0)
@closure 1
@c_params Vec3 ;; &Solid
@c_out y: Vec3
@c_spec @abs v_add($0, $1.center)
@file geo_builder/entity/geometry.rs
@types *
@fn Geometry::new
@ensures r.center == center, r.brush_geometry == brush_geometry,
@file geo_builder/brush/mod.rs
@fn build
@props G06
@ensures solid_is(r, *textures, *entity, *brush),
@closure 0
@c_params &BrushPlane
@c_out y: Face
@c_ensures face_is(y, *textures, *entity, brush.planes@, *$0)
@closure 1
@c_params Vec3 ;; &Face
@c_out y: Vec3
@c_spec @abs v_add($0, $1.center)
@file geo_builder/brush/geometry.rs
@types *
@fn Geometry::new
@ensures r.center == center, r.plane_geometry == plane_geometry,
@file geo_builder/brush_plane/geometry.rs
@types *
@fn Geometry::new
@ensures r.center == center, r.vertices == vertices, r.indices == indices, r.texture == texture,
@file geo_builder/brush_plane/vertices.rs
@fn intersect_brush_planes
@props G01
@ensures r == crossing(*p0, *p1, *p2),
@fn vertex_in_hull
@props G01
@ensures r == in_hull(vertex, hull@),
@loop 0
@invariant
vx_it0@ == refs::<BrushPlane>(hull@),
forall|i: int| 0 <= i < vx_i0 ==> !outside(vertex, #[trigger] hull@[i]),
@file geo_builder/brush_plane/normals.rs
@fn vertex_normal
@props G05
@ensures r == normal_of(*entity, *p0, *p1, *p2),
@fn phong_normal
@props G05
@ensures r == phong_of(*p0, *p1, *p2, opt_text(phong_angle)),
@file geo_builder/brush_plane/tangents.rs
@fn vertex_tangent
@props G04
@requires facing(*brush_plane) != Facing::Nowhere,
@ensures r == tangent_of(*brush_plane),
@fn standard_tangent
@props G04
@requires facing(*brush_plane) != Facing::Nowhere, brush_plane.uv is Quake,
@ensures r == tangent_of(*brush_plane),
@fn valve_tangent
@props G04
@requires brush_plane.uv is Valve,
@ensures r == tangent_of(*brush_plane),
@file geo_builder/brush_plane/uvs.rs
@fn vertex_uv
@props G03
@requires facing(*brush_plane) != Facing::Nowhere,
@ensures r == uv_of(vertex, *brush_plane, *texture),
@fn standard_uv
@props G03
@requires facing(*brush_plane) != Facing::Nowhere, brush_plane.uv is Quake,
@ensures r == uv_of(vertex, *brush_plane, *texture),
@fn valve_uv
@props G03
@requires brush_plane.uv is Valve,
@ensures r == uv_of(vertex, *brush_plane, *texture),
@file geo_builder/brush_plane/mod.rs
@fn build_plane_vertex
@props G01 G03 G04 G05
@ensures
r == corner((match texture_info { Some(t) => Some(*t), None => None }), *entity, planes@, *plane, *p1, *p2),
@proof start
if crossing(*plane, *p1, *p2).is_some() { ax_facing(*plane, *p1, *p2); }
@fn build
@props G01 G02 G03 G04 G05 G06
@ensures
face_is(r, *vx_p0, *entity, planes@, *plane),
corners_exact(face_corners(*vx_p0, *entity, planes@, *plane), planes@, *plane),
wound_exact(wound(face_corners(*vx_p0, *entity, planes@, *plane), *plane), face_corners(*vx_p0, *entity, planes@, *plane).map_values(out_of(r.center)), *plane),
fan_exact(r.indices@, r.vertices@.len() as int),
@proof ghost start
broadcast use lemma_last_of;
@proof let plane_vertices
assert(plane_vertices@ == want(refs(planes@).map_values(|p1: &BrushPlane| found_row(known(*vx_p0, *plane), *entity, planes@, *plane, *p1))));
@proof let unique_vertices
lemma_corners(plane_vertices@, phong(*entity));
assert(unique_vertices@ == want(corner_rows(plane_vertices@, phong(*entity))));
@proof ghost loop 0 pre
let ghost lv0: Seq<Vertex> = local_vertices@;
@loop 0
@invariant
local_vertices@.len() == lv0.len(),
forall|i: int| 0 <= i < vx_i0 ==> #[trigger] local_vertices@[i] == out_of(center)(lv0[i]),
forall|i: int| vx_i0 <= i < lv0.len() ==> #[trigger] local_vertices@[i] == lv0[i],
@proof loop 0 post
assert(local_vertices@ =~= lv0.map_values(out_of(center)));
@proof ghost loop 1 pre
let ghost wv0: Seq<Vertex> = world_vertices@;
@loop 1
@invariant
world_vertices@.len() == wv0.len(),
forall|i: int| 0 <= i < vx_i1 ==> #[trigger] world_vertices@[i] == back_to(center)(wv0[i]),
forall|i: int| vx_i1 <= i < wv0.len() ==> #[trigger] world_vertices@[i] == wv0[i],
@proof loop 1 post
assert(world_vertices@ =~= wv0.map_values(back_to(center)));
@proof let indices
lemma_g01(known(*vx_p0, *plane), *entity, planes@, *plane, phong(*entity));
lemma_g02_order(face_corners(*vx_p0, *entity, planes@, *plane), *plane);
lemma_g02_fan(world_vertices@.len() as int);
if world_vertices@.len() >= 3 { lemma_fan(world_vertices@.len() as int); assert(indices@ == want(fan_rows(world_vertices@.len() - 2))); }
@closure 0
@c_params &BrushPlane
@c_out y: It<Vertex>
@c_spec @items found_row((match texture_info { Some(t) => Some(*t), None => None }), *entity, planes@, *plane, *$0)
@c_proof
assert(want(refs(planes@).map_values(|p2: &BrushPlane| opt_seq(corner((match texture_info { Some(t) => Some(*t), None => None }), *entity, planes@, *plane, *p1, *p2)))) == found_row((match texture_info { Some(t) => Some(*t), None => None }), *entity, planes@, *plane, *p1));
@closure 1
@c_params &BrushPlane
@c_out y: Option<Vertex>
@c_spec @items opt_seq(corner((match texture_info { Some(t) => Some(*t), None => None }), *entity, planes@, *plane, *p1, *$0))
@closure 2
@c_params (usize, &Vertex)
@c_out y: Option<Vertex>
@c_requires $0.0 < plane_vertices@.len(), *$0.1 == plane_vertices@[$0.0 as int]
@c_spec @items opt_seq(one_corner(plane_vertices@, phong(*entity), $0.0 as int))
@closure 3
@c_params &&Vertex
@c_out y: bool
@c_spec v_eq($0.vertex, vertex.vertex)
@closure 4
@c_params Vertex ;; &Vertex
@c_out y: Vertex
@c_spec @abs (if v_eq($1.vertex, $0.vertex) { Vertex { normal: $1.normal, ..$0 } } else { $0 })
@closure 5
@c_params Vec3 ;; &Vertex
@c_out y: Vec3
@c_spec @abs v_add($0, $1.vertex)
@closure 6
@c_params &Vertex ;; &Vertex
@c_out y: Ordering
@c_ensures y == by_angle(*plane)(*$0, *$1)
@ghost sort_by 0 Ghost(by_angle(*plane))
@closure 7
@c_params usize
@c_out y: Vec<usize>
@c_requires $0 + 2 < world_vertices@.len()
@c_spec @view seq![0usize, ($0 + 1) as usize, ($0 + 2) as usize]
