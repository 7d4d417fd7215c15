@unit scene
@pre core textops stdops iter map float text strs sort lemmas seqops dedup
@dyn std::iter::Iterator<Item = &str> => crate::pre::It<&str>
@dyn Fn(&&crate::geo_builder::brush::Geometry) -> bool => crate::SolidPred
@dyn Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool => crate::FacePred
@dyn Fn(usize, &Vertex, &[&Vertex]) -> bool => crate::VertexPred
@root
pub use map::quake::types::entity::Entity;
pub use game_data::types::entity::EntityData;
pub use game_data::types::component_type::ComponentType;
pub use game_data::types::entity_type::EntityType;
pub use game_data::types::point_data::*;
pub use game_data::types::brush_data::BrushData;
pub use game_data::types::properties::*;
pub use game_data::types::visual_type::VisualType;
pub use game_data::types::collision_type::CollisionType;
pub use game_data::types::worldspawn_layer::WorldspawnLayer;
pub use game_data::forge::property::PropertyData;
pub use types::vertex::Vertex;
pub use types::texture::TextureBlacklist;
pub use types::color::Color;
pub use scene_tree::types::collision_geometry::*;
pub use scene_tree::types::visual_geometry::*;
pub use scene_tree::types::actor::Actor;
pub use scene_tree::types::scene_tree::*;
pub type Game = game_data::types::game_data::GameData;
pub type Def = game_data::types::entity::Entity;
pub type ForgeGame = game_data::forge::game_data::GameData;
pub type ForgeDef = game_data::forge::entity::Entity;
pub type ForgeProp = game_data::forge::property::Property;
pub type MapFace = map::quake::types::brush_plane::BrushPlane;
pub type MapBrush = map::quake::types::brush::Brush;
pub type Face = geo_builder::brush_plane::geometry::Geometry;
pub type Solid = geo_builder::brush::geometry::Geometry;
pub type Shape = geo_builder::entity::geometry::Geometry;

pub open spec fn prop(e: Entity, k: Seq<char>) -> Option<String> {
    if e.properties@.contains_key(k) { Some(e.properties@[k]) } else { None }
}
// ------------------------------------------------------------------ S02
/// the first definition of a class
pub open spec fn def_of(g: Game, e: Entity) -> Option<Def> {
    match prop(e, "classname"@) {
        Some(c) => match find_first(refs(g.entities@), |d: &Def| d.classname@ == c@) { Some(d) => Some(*d), None => None },
        None => None,
    }
}
pub open spec fn point_of(d: Def) -> PointData { match d.data { EntityData::Point(p) => p, EntityData::Brush(p, _) => p } }
pub open spec fn type_of(g: Game, e: Entity) -> EntityType {
    match def_of(g, e) { Some(d) => point_of(d).entity_type, None => EntityType::Placeholder }
}
pub open spec fn script_of(c: ComponentType) -> Option<String> { match c { ComponentType::Script(s) => Some(string_of(s@)), ComponentType::None => None } }
pub open spec fn component_of(g: Game, e: Entity) -> Option<String> {
    match def_of(g, e) { Some(d) => script_of(point_of(d).component_type), None => None }
}
pub open spec fn mode_of(g: Game, e: Entity) -> PropertyApplicationType {
    match def_of(g, e) { Some(d) => point_of(d).property_application_type, None => PropertyApplicationType::Properties }
}
// ------------------------------------------------------------------ S03
pub open spec fn comp(t: Seq<char>, k: int) -> Option<F32> { let w = split_on(t, ' '); if k < w.len() { f_parse(w[k]) } else { None } }
pub open spec fn vector_in(t: Seq<char>) -> Option<Vec3> {
    match (comp(t, 0), comp(t, 1), comp(t, 2)) { (Some(x), Some(y), Some(z)) => Some(v3(x, y, z)), _ => None }
}
pub open spec fn color_in(t: Seq<char>) -> Option<Color> {
    match (comp(t, 0), comp(t, 1), comp(t, 2)) { (Some(r), Some(g), Some(b)) => Some(Color { r, g, b }), _ => None }
}
pub open spec fn or_else<T>(t: Option<String>, f: spec_fn(Seq<char>) -> Option<T>, d: T) -> T {
    match t { Some(s) => match f(s@) { Some(v) => v, None => d }, None => d }
}
/// the declared type, from the map's text where it parses as that type
pub open spec fn typed(d: PropertyData, t: Option<String>) -> Property {
    match d {
        PropertyData::Integer(d) => Property::Integer(or_else(t, |s: Seq<char>| i_parse(s), d)),
        PropertyData::Float(d) => Property::Float(or_else(t, |s: Seq<char>| f_parse(s), d)),
        PropertyData::Vector3(d) => Property::Vector3(or_else(t, |s: Seq<char>| vector_in(s), d)),
        PropertyData::String(d) => Property::String(match t { Some(s) => s, None => d }),
        PropertyData::Color(d) => Property::Color(or_else(t, |s: Seq<char>| color_in(s), d)),
        PropertyData::Choices(_, d) => Property::Choices(or_else(t, |s: Seq<char>| i_parse(s), d)),
        PropertyData::Flags(_, d) => Property::Flags(or_else(t, |s: Seq<char>| i_parse(s), d)),
        PropertyData::TargetSource => Property::TargetSource,
        PropertyData::TargetDestination => Property::TargetDestination,
    }
}
pub type Props = Map<Seq<char>, Property>;
pub open spec fn with_int(m: Props, e: Entity, k: Seq<char>) -> Props {
    match prop(e, k) { Some(s) => match i_parse(s@) { Some(v) => m.insert(k, Property::Integer(v)), None => m }, None => m }
}
pub open spec fn with_text(m: Props, e: Entity, k: Seq<char>) -> Props {
    match prop(e, k) { Some(s) => m.insert(k, Property::String(s)), None => m }
}
pub open spec fn internal(e: Entity) -> Props {
    with_text(with_text(with_int(with_int(Map::empty(), e, "_tb_id"@), e, "_tb_group"@), e, "_tb_type"@), e, "_tb_name"@)
}
pub open spec fn declared(e: Entity, ps: Seq<ForgeProp>, n: int) -> Props decreases n {
    if n <= 0 { internal(e) } else { declared(e, ps, n - 1).insert(ps[n - 1].name@, typed(ps[n - 1].data, prop(e, ps[n - 1].name@))) }
}
pub open spec fn forge_of(g: ForgeGame, e: Entity) -> Option<ForgeDef> {
    match prop(e, "classname"@) {
        Some(c) => match find_first(refs(g.definitions@), |d: &ForgeDef| d.class_name@ == c@) { Some(d) => Some(*d), None => None },
        None => None,
    }
}
pub open spec fn props_of(g: ForgeGame, e: Entity) -> Props {
    match forge_of(g, e) { Some(d) => declared(e, d.properties@, d.properties@.len() as int), None => Map::empty() }
}
pub open spec fn names(ps: Seq<ForgeProp>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ps[i]).name@ == k }
/// the last declaration of its name
pub open spec fn last_decl(ps: Seq<ForgeProp>, n: int, i: int) -> bool { forall|j: int| i < j < n ==> (#[trigger] ps[j]).name@ != ps[i].name@ }
#[verifier::opaque]
pub open spec fn declared_exact(m: Props, base: Props, e: Entity, ps: Seq<ForgeProp>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n && #[trigger] last_decl(ps, n, i) ==> m.contains_key(ps[i].name@) && m[ps[i].name@] == typed(ps[i].data, prop(e, ps[i].name@))
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) && !names(ps, n, k) ==> base.contains_key(k) && m[k] == base[k]
    &&& forall|k: Seq<char>| #[trigger] base.contains_key(k) ==> m.contains_key(k)
}
/// exactly the declared names and what the editor's own properties hold; a declared name has its declared type
pub open spec fn props_exact(m: Props, g: ForgeGame, e: Entity) -> bool {
    match forge_of(g, e) {
        None => m == Map::<Seq<char>, Property>::empty(),
        Some(d) => declared_exact(m, internal(e), e, d.properties@, d.properties@.len() as int),
    }
}
pub proof fn lemma_declared(e: Entity, ps: Seq<ForgeProp>, n: int)
    requires 0 <= n <= ps.len()
    ensures declared_exact(declared(e, ps, n), internal(e), e, ps, n)
    decreases n
{
    hide(internal);
    hide(typed);
    reveal(declared_exact);
    let m = declared(e, ps, n);
    if n > 0 {
        lemma_declared(e, ps, n - 1);
        let o = declared(e, ps, n - 1);
        let x = ps[n - 1].name@;
        assert(m == o.insert(x, typed(ps[n - 1].data, prop(e, x))));
        assert forall|i: int| 0 <= i < n && #[trigger] last_decl(ps, n, i) implies m.contains_key(ps[i].name@) && m[ps[i].name@] == typed(ps[i].data, prop(e, ps[i].name@)) by {
            if i < n - 1 { assert(ps[n - 1].name@ != ps[i].name@); assert(last_decl(ps, n - 1, i)); }
        }
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) && !names(ps, n, k) implies internal(e).contains_key(k) && m[k] == internal(e)[k] by {
            assert(k != ps[n - 1].name@);
            assert(!names(ps, n - 1, k));
            assert(o.contains_key(k));
        }
    }
}
pub proof fn lemma_s03(g: ForgeGame, e: Entity) ensures props_exact(props_of(g, e), g, e) {
    hide(internal);
    if let Some(d) = forge_of(g, e) { lemma_declared(e, d.properties@, d.properties@.len() as int); }
}
// ------------------------------------------------------------------ vertices
pub type Rel = spec_fn(Vertex, Vertex) -> bool;
pub open spec fn same_v(a: Vertex, b: Vertex) -> bool {
    v_eq(a.vertex, b.vertex) && v_eq(a.normal, b.normal) && a.tangent.speq(&b.tangent) && a.uv.speq(&b.uv) && a.color.speq(&b.color)
}
/// equal in every attribute
pub open spec fn same_eq() -> Rel { |a: Vertex, b: Vertex| same_v(a, b) }
/// at the same position
pub open spec fn place_eq() -> Rel { |a: Vertex, b: Vertex| v_eq(a.vertex, b.vertex) }
pub open spec fn is_rel(r: Rel) -> bool { r == same_eq() || r == place_eq() }
pub proof fn lemma_judges()
    ensures forall|p: VertexPred| judges(p, same_eq()) || judges(p, place_eq()) ==> #[trigger] good_pred(p),
        forall|p: VertexPred| #![trigger rel_of(p)] (judges(p, same_eq()) ==> rel_of(p) == same_eq()) && (judges(p, place_eq()) ==> rel_of(p) == place_eq())
{
    assert forall|p: VertexPred, r: Rel| #[trigger] judges(p, r) implies rel_of(p) == r by { lemma_rel_of(p, r); }
}
pub open spec fn none_before(r: Rel, i: int, v: Vertex, vs: Seq<Vertex>) -> bool { forall|j: int| 0 <= j < i && j < vs.len() ==> !r(#[trigger] vs[j], v) }
pub open spec fn vals<'a>(s: Seq<&'a Vertex>) -> Seq<Vertex> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_vals<'a>(s: Seq<&'a Vertex>, i: int)
    ensures #![trigger vals(s)[i]] #![trigger s[i], vals(s)] 0 <= i < s.len() ==> vals(s)[i] == *s[i]
{ }
pub broadcast proof fn lemma_vals_len<'a>(s: Seq<&'a Vertex>) ensures (#[trigger] vals(s)).len() == s.len() { }
pub broadcast proof fn lemma_vals_refs<'a>(s: Seq<Vertex>) ensures #[trigger] vals(refs::<'a, Vertex>(s)) == s { assert(vals(refs::<'a, Vertex>(s)) =~= s); }
pub broadcast group g_vals { lemma_vals, lemma_vals_len, lemma_vals_refs }
pub proof fn lemma_same_sym(a: Vertex, b: Vertex) ensures same_v(a, b) == same_v(b, a) { }
pub proof fn lemma_same_trans(a: Vertex, b: Vertex, c: Vertex) requires same_v(a, b), same_v(b, c) ensures same_v(a, c) {
    lemma_v_trans(a.vertex, b.vertex, c.vertex);
    lemma_v_trans(a.normal, b.normal, c.normal);
    lemma_v_trans(a.tangent.0, b.tangent.0, c.tangent.0);
    ax_f_eq_trans(a.tangent.1, b.tangent.1, c.tangent.1);
    if let (Some(x), Some(y), Some(z)) = (a.uv, b.uv, c.uv) { ax_f_eq_trans(x.cx, y.cx, z.cx); ax_f_eq_trans(x.cy, y.cy, z.cy); }
    if let (Some(x), Some(y), Some(z)) = (a.color, b.color, c.color) { ax_f_eq_trans(x.r, y.r, z.r); ax_f_eq_trans(x.g, y.g, z.g); ax_f_eq_trans(x.b, y.b, z.b); }
}
pub proof fn lemma_v_trans(a: Vec3, b: Vec3, c: Vec3) ensures v_eq(a, b) && v_eq(b, c) ==> v_eq(a, c) {
    ax_f_eq_trans(a.cx, b.cx, c.cx);
    ax_f_eq_trans(a.cy, b.cy, c.cy);
    ax_f_eq_trans(a.cz, b.cz, c.cz);
}
pub proof fn lemma_equivalence(s: Seq<Vertex>, r: Rel) requires is_rel(r) ensures equivalence(s, r) {
    reveal(equivalence);
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && #[trigger] r(s[a], s[b]) implies r(s[b], s[a]) by { lemma_same_sym(s[a], s[b]); }
    assert forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len() && #[trigger] r(s[a], s[b]) && #[trigger] r(s[b], s[c]) implies r(s[a], s[c]) by {
        if r == same_eq() { lemma_same_trans(s[a], s[b], s[c]); } else { lemma_v_trans(s[a].vertex, s[b].vertex, s[c].vertex); }
    }
}
/// what a vertex predicate answers: does the vertex lack an equal one before it?
pub open spec fn judges(p: VertexPred, r: Rel) -> bool {
    forall|i: usize, v: &Vertex, vs: &[&Vertex]| #[trigger] p.ok(i as int, *v, vals(vs@)) == none_before(r, i as int, *v, vals(vs@))
}
pub open spec fn rel_of(p: VertexPred) -> Rel { choose|r: Rel| judges(p, r) }
/// TRUSTED: a slice that holds one given reference exists
pub axiom fn ax_one<'a>(a: &'a Vertex) -> (s: &'a [&'a Vertex]) ensures s@ == seq![a];
pub proof fn lemma_rel_of(p: VertexPred, r: Rel) requires judges(p, r) ensures rel_of(p) == r {
    let q = rel_of(p);
    assert(judges(p, q));
    assert forall|a: Vertex, b: Vertex| #[trigger] q(a, b) == r(a, b) by {
        let sl = ax_one(&a);
        let vs = vals(sl@);
        assert(vs =~= seq![a]);
        assert(vs[0] == a);
        let i = 1usize;
        assert(p.ok(i as int, *(&b), vals(sl@)) == none_before(q, 1, b, vs));
        assert(p.ok(i as int, *(&b), vals(sl@)) == none_before(r, 1, b, vs));
    }
    assert(q =~= r);
}
// ------------------------------------------------------------------ vertices and the indices that refer to them
pub ghost struct Part { pub v: Seq<Vertex>, pub i: Seq<usize> }
pub open spec fn in_range(ix: Seq<usize>, n: int) -> bool { forall|k: int| 0 <= k < ix.len() ==> 0 <= #[trigger] ix[k] < n }
pub open spec fn shift(ix: Seq<usize>, n: int) -> Seq<usize> { ix.map_values(|k: usize| (k + n) as usize) }
pub open spec fn part_vs(ps: Seq<Part>) -> Seq<Seq<Vertex>> { ps.map_values(|p: Part| p.v) }
pub open spec fn shifted(ps: Seq<Part>) -> Seq<Seq<usize>> { Seq::new(ps.len(), |k: int| shift(ps[k].i, off(part_vs(ps), k))) }
/// parts joined: vertices one part after another, indices moved to where their part's vertices now are
pub open spec fn joined(ps: Seq<Part>) -> Part { Part { v: flat(part_vs(ps)), i: flat(shifted(ps)) } }
pub open spec fn place_in(k: Seq<int>, x: int) -> int { k.index_of(x) }
/// duplicates removed: the first of equal vertices stays, indices follow it
pub open spec fn unique_part(p: Part, r: Rel) -> Part {
    let k = first_ix(p.v, r, p.v.len() as int);
    Part { v: k.map_values(|i: int| p.v[i]), i: p.i.map_values(|x: usize| place_in(k, root(p.v, r, x as int)) as usize) }
}
pub open spec fn face_part(f: Face) -> Part { Part { v: f.vertices@, i: f.indices@ } }
pub open spec fn faces_part(fs: Seq<Face>) -> Part { joined(fs.map_values(|f: Face| face_part(f))) }
pub open spec fn solid_part(b: Solid, q: spec_fn(Face) -> bool, r: Option<Rel>) -> Part {
    let p = faces_part(keep(b.plane_geometry@, q));
    match r { Some(r) => unique_part(p, r), None => p }
}
pub open spec fn shape_part(e: Shape, pb: spec_fn(Solid) -> bool, q: spec_fn(Face) -> bool, r: Option<Rel>) -> Part {
    joined(keep(e.brush_geometry@, pb).map_values(|b: Solid| solid_part(b, q, r)))
}
pub open spec fn face_ok(f: Face) -> bool { in_range(f.indices@, f.vertices@.len() as int) }
pub open spec fn solid_ok(b: Solid) -> bool { forall|i: int| 0 <= i < b.plane_geometry@.len() ==> face_ok(#[trigger] b.plane_geometry@[i]) }
/// every face's indices refer to its vertices
pub open spec fn shape_ok(e: Shape) -> bool { forall|i: int| 0 <= i < e.brush_geometry@.len() ==> solid_ok(#[trigger] e.brush_geometry@[i]) }
pub open spec fn every_face() -> spec_fn(Face) -> bool { |f: Face| true }
pub open spec fn every_solid() -> spec_fn(Solid) -> bool { |b: Solid| true }
pub open spec fn face_test(p: Option<&FacePred>) -> spec_fn(Face) -> bool { match p { Some(p) => |f: Face| p.ok(f), None => every_face() } }
pub open spec fn solid_test(p: Option<&SolidPred>) -> spec_fn(Solid) -> bool { match p { Some(p) => |b: Solid| p.ok(b), None => every_solid() } }
pub open spec fn rel_in(p: Option<&VertexPred>) -> Option<Rel> { match p { Some(p) => Some(rel_of(*p)), None => None } }
pub open spec fn good_pred(p: VertexPred) -> bool { is_rel(rel_of(p)) && judges(p, rel_of(p)) }
pub proof fn lemma_first_len(s: Seq<Vertex>, r: Rel, n: int) requires 0 <= n <= s.len() ensures first_ix(s, r, n).len() <= n { lemma_first_ix(s, r, n); }
pub open spec fn kept_as(a: Seq<usize>, k: Seq<int>) -> bool { a.len() == k.len() && forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] == k[j] }
/// where a reference to vertex x points once the vertices below i have been looked at
pub open spec fn moved(s: Seq<Vertex>, r: Rel, i: int, x: int) -> int { if x < i { root(s, r, x) } else { x } }
/// a vertex with an equal one before it: exactly one kept vertex equals it
pub proof fn lemma_seen(s: Seq<Vertex>, r: Rel, i: int) -> (p: int)
    requires 0 <= i < s.len(), is_rel(r), !first_of(s, r, i)
    ensures ({ let k = first_ix(s, r, i);
        &&& 0 <= p < k.len() && k[p] == root(s, r, i) && r(s[k[p]], s[i])
        &&& forall|q: int| 0 <= q < k.len() && r(s[#[trigger] k[q]], s[i]) ==> k[q] == root(s, r, i) })
{
    lemma_equivalence(s, r);
    lemma_root(s, r, i);
    lemma_first_ix(s, r, i);
    let k = first_ix(s, r, i);
    assert(k.contains(root(s, r, i)));
    choose|p: int| 0 <= p < k.len() && k[p] == root(s, r, i)
}
/// the place of a kept element
pub proof fn lemma_place(s: Seq<Vertex>, r: Rel, n: int, x: int)
    requires 0 <= n <= s.len(), 0 <= x < n, is_rel(r)
    ensures ({ let k = first_ix(s, r, n); let y = root(s, r, x); let p = place_in(k, y);
        &&& 0 <= y <= x && first_of(s, r, y)
        &&& 0 <= p < k.len() && k[p] == y
        &&& forall|q: int| 0 <= q < k.len() && #[trigger] k[q] == y ==> q == p
        &&& is_or(r, s[y], s[x]) })
{
    lemma_equivalence(s, r);
    lemma_root(s, r, x);
    lemma_first_ix(s, r, n);
    let k = first_ix(s, r, n);
    let y = root(s, r, x);
    assert(k.contains(y));
    let p = place_in(k, y);
    assert(0 <= p < k.len() && k[p] == y);
    assert forall|q: int| 0 <= q < k.len() && #[trigger] k[q] == y implies q == p by { if q < p { assert(k[q] < k[p]); } else if p < q { assert(k[p] < k[q]); } }
}
pub proof fn lemma_place_all(s: Seq<Vertex>, r: Rel, ix: Seq<usize>)
    requires is_rel(r), in_range(ix, s.len() as int)
    ensures forall|t: int| 0 <= t < ix.len() ==> placed(s, r, #[trigger] ix[t] as int)
{ assert forall|t: int| 0 <= t < ix.len() implies placed(s, r, #[trigger] ix[t] as int) by { lemma_place(s, r, s.len() as int, ix[t] as int); } }
pub open spec fn placed(s: Seq<Vertex>, r: Rel, x: int) -> bool {
    let k = first_ix(s, r, s.len() as int); let y = root(s, r, x); let p = place_in(k, y);
    &&& 0 <= y <= x && first_of(s, r, y)
    &&& 0 <= p < k.len() && k[p] == y
    &&& forall|q: int| 0 <= q < k.len() && #[trigger] k[q] == y ==> q == p
    &&& is_or(r, s[y], s[x])
}
pub proof fn lemma_root_le(s: Seq<Vertex>, r: Rel) requires is_rel(r) ensures forall|x: int| 0 <= x < s.len() ==> 0 <= #[trigger] root(s, r, x) <= x {
    lemma_equivalence(s, r);
    assert forall|x: int| 0 <= x < s.len() implies 0 <= #[trigger] root(s, r, x) <= x by { lemma_root(s, r, x); }
}
pub proof fn lemma_unique_range(p: Part, r: Rel)
    requires is_rel(r), in_range(p.i, p.v.len() as int)
    ensures in_range(unique_part(p, r).i, unique_part(p, r).v.len() as int)
{
    let u = unique_part(p, r);
    assert forall|k: int| 0 <= k < u.i.len() implies 0 <= #[trigger] u.i[k] < u.v.len() by { lemma_place(p.v, r, p.v.len() as int, p.i[k] as int); lemma_first_len(p.v, r, p.v.len() as int); }
}
pub proof fn lemma_joined_range(ps: Seq<Part>)
    requires forall|k: int| 0 <= k < ps.len() ==> in_range((#[trigger] ps[k]).i, ps[k].v.len() as int), joined(ps).v.len() <= usize::MAX
    ensures in_range(joined(ps).i, joined(ps).v.len() as int)
{
    let j = joined(ps);
    assert forall|m: int| 0 <= m < j.i.len() implies 0 <= #[trigger] j.i[m] < j.v.len() by {
        let (a, b) = lemma_flat_from(shifted(ps), m);
        assert(in_range(ps[a].i, ps[a].v.len() as int));
        lemma_off_at(part_vs(ps), a, ps[a].i[b] as int);
    }
}
pub proof fn lemma_vals_rows<'a>(rows: Seq<Seq<&'a Vertex>>)
    ensures vals(flat(rows)) == flat(rows.map_values(|s: Seq<&'a Vertex>| vals(s)))
    decreases rows.len()
{
    broadcast use g_vals;
    let m = rows.map_values(|s: Seq<&'a Vertex>| vals(s));
    if rows.len() > 0 {
        lemma_vals_rows(rows.drop_last());
        assert(m.drop_last() =~= rows.drop_last().map_values(|s: Seq<&'a Vertex>| vals(s)));
    }
    assert(vals(flat(rows)) =~= flat(m));
}
// ------------------------------------------------------------------ S04, S06: what the indices draw
/// the vertices the indices draw, three by three
pub open spec fn look(p: Part) -> Seq<Vertex> { p.i.map_values(|k: usize| p.v[k as int]) }
pub open spec fn face_rows(fs: Seq<Face>) -> Seq<Seq<Vertex>> { fs.map_values(|f: Face| look(face_part(f))) }
pub open spec fn faces_drawn(fs: Seq<Face>) -> Seq<Vertex> { flat(face_rows(fs)) }
/// what the chosen faces of the chosen brushes draw, in order
pub open spec fn drawn(e: Shape, pb: spec_fn(Solid) -> bool, q: spec_fn(Face) -> bool) -> Seq<Vertex> {
    flat(keep(e.brush_geometry@, pb).map_values(|b: Solid| faces_drawn(keep(b.plane_geometry@, q))))
}
pub open spec fn agree(a: Seq<Vertex>, b: Seq<Vertex>, r: Rel) -> bool { a.len() == b.len() && forall|t: int| 0 <= t < a.len() ==> #[trigger] is_or(r, a[t], b[t]) }
pub open spec fn no_repeat(v: Seq<Vertex>, r: Rel) -> bool { forall|k: int, l: int| 0 <= k < l < v.len() ==> !r(#[trigger] v[k], #[trigger] v[l]) }
/// the vertices of each chosen brush
pub open spec fn blocks(e: Shape, pb: spec_fn(Solid) -> bool, q: spec_fn(Face) -> bool, r: Rel) -> Seq<Seq<Vertex>> {
    keep(e.brush_geometry@, pb).map_values(|b: Solid| solid_part(b, q, Some(r)).v)
}
/// the indices refer to vertices and draw what the chosen faces draw; no brush has equal vertices
#[verifier::opaque]
pub open spec fn part_exact(p: Part, e: Shape, pb: spec_fn(Solid) -> bool, q: spec_fn(Face) -> bool, r: Rel) -> bool {
    &&& in_range(p.i, p.v.len() as int)
    &&& agree(look(p), drawn(e, pb, q), r)
    &&& p.v == flat(blocks(e, pb, q, r))
    &&& forall|k: int| 0 <= k < blocks(e, pb, q, r).len() ==> no_repeat(#[trigger] blocks(e, pb, q, r)[k], r)
}
pub open spec fn small_faces(b: Solid, q: spec_fn(Face) -> bool) -> bool { faces_part(keep(b.plane_geometry@, q)).v.len() <= usize::MAX }
pub proof fn lemma_look_joined(ps: Seq<Part>)
    requires forall|k: int| 0 <= k < ps.len() ==> in_range((#[trigger] ps[k]).i, ps[k].v.len() as int), joined(ps).v.len() <= usize::MAX
    ensures look(joined(ps)) == flat(ps.map_values(|p: Part| look(p)))
{
    let j = joined(ps);
    let rows = ps.map_values(|p: Part| look(p));
    lemma_flat_len(shifted(ps), rows);
    assert forall|m: int| 0 <= m < j.i.len() implies #[trigger] look(j)[m] == flat(rows)[m] by {
        let (a, b) = lemma_flat_at(shifted(ps), rows, m);
        assert(in_range(ps[a].i, ps[a].v.len() as int));
        lemma_off_at(part_vs(ps), a, ps[a].i[b] as int);
    }
    assert(look(j) =~= flat(rows));
}
pub proof fn lemma_look_unique(p: Part, r: Rel)
    requires is_rel(r), in_range(p.i, p.v.len() as int), p.v.len() <= usize::MAX
    ensures agree(look(unique_part(p, r)), look(p), r), no_repeat(unique_part(p, r).v, r), in_range(unique_part(p, r).i, unique_part(p, r).v.len() as int)
{
    let u = unique_part(p, r);
    let n = p.v.len() as int;
    lemma_unique_range(p, r);
    lemma_first_ix(p.v, r, n);
    assert forall|t: int| 0 <= t < look(u).len() implies #[trigger] is_or(r, look(u)[t], look(p)[t]) by { lemma_place(p.v, r, n, p.i[t] as int); lemma_first_len(p.v, r, n); }
    assert forall|k: int, l: int| 0 <= k < l < u.v.len() implies !r(#[trigger] u.v[k], #[trigger] u.v[l]) by {
        let f = first_ix(p.v, r, n);
        assert(f[k] < f[l] && first_of(p.v, r, f[l]));
        assert(!r(p.v[f[k]], p.v[f[l]]));
    }
}
pub proof fn lemma_agree_flat(a: Seq<Seq<Vertex>>, b: Seq<Seq<Vertex>>, r: Rel)
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> agree(#[trigger] a[k], b[k], r)
    ensures agree(flat(a), flat(b), r)
    decreases a.len()
{
    if a.len() > 0 {
        lemma_agree_flat(a.drop_last(), b.drop_last(), r);
        let (x, y) = (flat(a.drop_last()), flat(b.drop_last()));
        assert(agree(a.last(), b.last(), r));
        assert forall|t: int| 0 <= t < flat(a).len() implies #[trigger] is_or(r, flat(a)[t], flat(b)[t]) by {
            if t < x.len() { assert(is_or(r, x[t], y[t])); } else { assert(is_or(r, a.last()[t - x.len()], b.last()[t - x.len()])); }
        }
    }
}
pub proof fn lemma_solid(b: Solid, q: spec_fn(Face) -> bool, r: Rel)
    requires solid_ok(b), is_rel(r), small_faces(b, q)
    ensures ({ let p = solid_part(b, q, Some(r));
        in_range(p.i, p.v.len() as int) && agree(look(p), faces_drawn(keep(b.plane_geometry@, q)), r) && no_repeat(p.v, r) })
{
    let fs = keep(b.plane_geometry@, q);
    let ps = fs.map_values(|f: Face| face_part(f));
    assert forall|k: int| 0 <= k < ps.len() implies in_range((#[trigger] ps[k]).i, ps[k].v.len() as int) by { let i = lemma_keep_in(b.plane_geometry@, q, k); assert(face_ok(b.plane_geometry@[i])); }
    lemma_joined_range(ps);
    lemma_look_joined(ps);
    assert(ps.map_values(|p: Part| look(p)) =~= face_rows(fs));
    lemma_look_unique(joined(ps), r);
}
pub proof fn lemma_shape(e: Shape, pb: spec_fn(Solid) -> bool, q: spec_fn(Face) -> bool, r: Rel)
    requires shape_ok(e), is_rel(r), shape_part(e, pb, q, Some(r)).v.len() <= usize::MAX,
        forall|k: int| 0 <= k < keep(e.brush_geometry@, pb).len() ==> small_faces(#[trigger] keep(e.brush_geometry@, pb)[k], q)
    ensures part_exact(shape_part(e, pb, q, Some(r)), e, pb, q, r)
{
    reveal(part_exact);
    let bs = keep(e.brush_geometry@, pb);
    let ps = bs.map_values(|b: Solid| solid_part(b, q, Some(r)));
    let want = bs.map_values(|b: Solid| faces_drawn(keep(b.plane_geometry@, q)));
    assert forall|k: int| 0 <= k < bs.len() implies in_range((#[trigger] ps[k]).i, ps[k].v.len() as int) && agree(look(ps[k]), want[k], r) && no_repeat(ps[k].v, r) by {
        let i = lemma_keep_in(e.brush_geometry@, pb, k);
        assert(solid_ok(e.brush_geometry@[i]));
        lemma_solid(bs[k], q, r);
    }
    lemma_joined_range(ps);
    lemma_look_joined(ps);
    let rows = ps.map_values(|p: Part| look(p));
    assert forall|k: int| 0 <= k < rows.len() implies agree(#[trigger] rows[k], want[k], r) by { assert(in_range(ps[k].i, ps[k].v.len() as int)); }
    lemma_agree_flat(rows, want, r);
    assert(part_vs(ps) =~= blocks(e, pb, q, r));
    assert forall|k: int| 0 <= k < blocks(e, pb, q, r).len() implies no_repeat(#[trigger] blocks(e, pb, q, r)[k], r) by { assert(in_range(ps[k].i, ps[k].v.len() as int)); }
}
// ------------------------------------------------------------------ S06
pub open spec fn corner_rows(b: Solid) -> Seq<Seq<Vec3>> { b.plane_geometry@.map_values(|f: Face| f.vertices@.map_values(|v: Vertex| v.vertex)) }
pub open spec fn corner_positions(b: Solid) -> Seq<Vec3> { flat(corner_rows(b)) }
pub open spec fn same_place() -> spec_fn(Vec3, Vec3) -> bool { |a: Vec3, b: Vec3| v_eq(b, a) }
pub open spec fn convex_of(b: Solid) -> ConvexCollision { ConvexCollision { center: b.center, points: vec_of(distinct(corner_positions(b), same_place())) } }
/// a shape at the brush's centre that holds each distinct corner position exactly once
pub open spec fn convex_exact(c: ConvexCollision, b: Solid) -> bool { c.center == b.center && once_each(c.points@, corner_positions(b), same_place()) }
pub open spec fn convexes(e: Shape) -> CollisionGeometry { CollisionGeometry::Convex(vec_of(e.brush_geometry@.map_values(|b: Solid| convex_of(b)))) }
pub proof fn lemma_convex(b: Solid) ensures once_each(distinct(corner_positions(b), same_place()), corner_positions(b), same_place()) {
    let s = corner_positions(b);
    let r = same_place();
    assert forall|a: int, b: int, c: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= c < s.len() && #[trigger] r(s[a], s[b]) && #[trigger] r(s[b], s[c]) implies r(s[a], s[c]) by { lemma_v_trans(s[c], s[b], s[a]); }
    lemma_once_each(s, r);
}
pub open spec fn concave_part(e: Shape) -> Part { shape_part(e, every_solid(), every_face(), Some(place_eq())) }
pub open spec fn places(vs: Seq<Vertex>) -> Seq<Vec3> { vs.map_values(|v: Vertex| v.vertex) }
pub open spec fn concave(e: Shape) -> CollisionGeometry {
    let p = concave_part(e);
    if p.v.len() == 0 { CollisionGeometry::None } else {
        CollisionGeometry::Concave(vec_of(seq![ConcaveCollision { center: e.center, vertices: vec_of(places(p.v)), indices: vec_of(p.i) }]))
    }
}
/// one shape at the entity's centre that draws all faces of all brushes, positions not repeated within a brush; none without vertices
pub open spec fn concave_exact(c: CollisionGeometry, e: Shape) -> bool {
    let p = concave_part(e);
    &&& part_exact(p, e, every_solid(), every_face(), place_eq())
    &&& (match c {
        CollisionGeometry::None => p.v.len() == 0,
        CollisionGeometry::Concave(s) => p.v.len() > 0 && s@.len() == 1 && s@[0].center == e.center && s@[0].vertices@ == places(p.v) && s@[0].indices@ == p.i,
        CollisionGeometry::Convex(_) => false,
    })
}
pub open spec fn convexes_exact(c: CollisionGeometry, e: Shape) -> bool {
    match c {
        CollisionGeometry::Convex(s) => s@.len() == e.brush_geometry@.len() && forall|i: int| 0 <= i < s@.len() ==> convex_exact(#[trigger] s@[i], e.brush_geometry@[i]),
        _ => false,
    }
}
pub open spec fn collision_exact(c: CollisionGeometry, t: CollisionType, e: Shape) -> bool {
    match t { CollisionType::None => c is None, CollisionType::Convex => convexes_exact(c, e), CollisionType::Concave => concave_exact(c, e) }
}
pub open spec fn brush_data(g: Game, e: Entity) -> Option<BrushData> {
    match def_of(g, e) { Some(d) => match d.data { EntityData::Point(_) => None, EntityData::Brush(_, b) => Some(b) }, None => None }
}
pub open spec fn collision(t: CollisionType, s: Shape) -> CollisionGeometry {
    match t { CollisionType::None => CollisionGeometry::None, CollisionType::Convex => convexes(s), CollisionType::Concave => concave(s) }
}
pub open spec fn collision_of(g: Game, e: Entity, s: Shape) -> CollisionGeometry {
    match brush_data(g, e) { Some(b) => collision(b.collision_type, s), None => CollisionGeometry::None }
}
// ------------------------------------------------------------------ predicates as function objects
/// TRUSTED: a reference to a side-effect-free function object
#[verifier::external_body]
pub struct VertexPred { x: u8 }
impl VertexPred {
    pub uninterp spec fn ok(&self, i: int, v: Vertex, vs: Seq<Vertex>) -> bool;
    #[verifier::external_body]
    pub fn of<F: Fn(usize, &Vertex, &[&Vertex]) -> bool>(f: F) -> (r: VertexPred)
        requires forall|i: usize, v: &Vertex, vs: &[&Vertex]| #[trigger] f.requires((i, v, vs))
        ensures forall|i: usize, v: &Vertex, vs: &[&Vertex]| f.ensures((i, v, vs), #[trigger] r.ok(i as int, *v, vals(vs@)))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, i: usize, v: &Vertex, vs: &[&Vertex]) -> (r: bool) ensures r == self.ok(i as int, *v, vals(vs@))
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SolidPred { x: u8 }
impl SolidPred {
    pub uninterp spec fn ok(&self, x: Solid) -> bool;
    #[verifier::external_body]
    pub fn of<F: Fn(&&Solid) -> bool>(f: F) -> (r: SolidPred)
        requires forall|x: &&Solid| #[trigger] f.requires((x,))
        ensures forall|x: &&Solid| f.ensures((x,), #[trigger] r.ok(**x))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, x: &&Solid) -> (r: bool) ensures r == self.ok(**x)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct FacePred { x: u8 }
impl FacePred {
    pub uninterp spec fn ok(&self, x: Face) -> bool;
    #[verifier::external_body]
    pub fn of<F: Fn(&&Face) -> bool>(f: F) -> (r: FacePred)
        requires forall|x: &&Face| #[trigger] f.requires((x,))
        ensures forall|x: &&Face| f.ensures((x,), #[trigger] r.ok(**x))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, x: &&Face) -> (r: bool) ensures r == self.ok(**x)
    { unimplemented!() }
}
// ------------------------------------------------------------------ S04, S05: mesh surfaces
pub open spec fn listed(l: Seq<String>, t: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == t }
/// a face without a texture, or whose texture is not on the brush blacklist
pub open spec fn face_shown(f: Face, bl: TextureBlacklist) -> bool { match f.texture { Some(t) => !listed(bl.brush@, t@), None => true } }
pub open spec fn solid_shown(b: Solid, bl: TextureBlacklist) -> bool { exists|i: int| 0 <= i < b.plane_geometry@.len() && face_shown(#[trigger] b.plane_geometry@[i], bl) }
/// brushes with at least one face off the brush blacklist
pub open spec fn shown(bl: TextureBlacklist) -> spec_fn(Solid) -> bool { |b: Solid| solid_shown(b, bl) }
/// faces bearing this texture
pub open spec fn bearing(t: Option<String>) -> spec_fn(Face) -> bool { |f: Face| f.texture == t }
pub proof fn lemma_texture(a: Option<String>, b: Option<String>) ensures a.speq(&b) == (a == b) {
    if let (Some(a), Some(b)) = (a, b) { assert(string_of(a@) == a && string_of(b@) == b); }
}
pub proof fn lemma_uvs(u: Option<Vec<Vec2>>, s: Seq<Option<Vec2>>, vs: Seq<Vertex>)
    requires <Option<Vec<Vec2>> as VxFrom<Option<Vec2>>>::is_from(s, u), s.len() == vs.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == vs[i].uv
    ensures u == uvs_in(vs)
{
    assert(s =~= vs.map_values(|v: Vertex| v.uv));
    match u {
        Some(u) => {
            assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).uv.is_some() && u@[i] == vs[i].uv.unwrap() by { assert(s[i].is_some()); }
            assert(u@ =~= vs.map_values(|v: Vertex| v.uv.unwrap()));
        },
        None => { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).is_none(); assert(vs[i].uv.is_none()); },
    }
}
pub proof fn lemma_colors(u: Option<Vec<Color>>, s: Seq<Option<Color>>, vs: Seq<Vertex>)
    requires <Option<Vec<Color>> as VxFrom<Option<Color>>>::is_from(s, u), s.len() == vs.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == vs[i].color
    ensures u == colors_in(vs)
{
    assert(s =~= vs.map_values(|v: Vertex| v.color));
    match u {
        Some(u) => {
            assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).color.is_some() && u@[i] == vs[i].color.unwrap() by { assert(s[i].is_some()); }
            assert(u@ =~= vs.map_values(|v: Vertex| v.color.unwrap()));
        },
        None => { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).is_none(); assert(vs[i].color.is_none()); },
    }
}
pub proof fn lemma_solid_test(q: spec_fn(Solid) -> bool)
    ensures forall|p: &SolidPred| (forall|b: Solid| #[trigger] p.ok(b) == q(b)) ==> #[trigger] solid_test(Some(p)) == q
{ assert forall|p: &SolidPred| (forall|b: Solid| #[trigger] p.ok(b) == q(b)) implies #[trigger] solid_test(Some(p)) == q by { assert(solid_test(Some(p)) =~= q); } }
pub proof fn lemma_face_test(q: spec_fn(Face) -> bool)
    ensures forall|p: &FacePred| (forall|f: Face| #[trigger] p.ok(f) == q(f)) ==> #[trigger] face_test(Some(p)) == q
{ assert forall|p: &FacePred| (forall|f: Face| #[trigger] p.ok(f) == q(f)) implies #[trigger] face_test(Some(p)) == q by { assert(face_test(Some(p)) =~= q); } }
pub open spec fn surface_part(t: Option<String>, e: Shape, bl: TextureBlacklist) -> Part { shape_part(e, shown(bl), bearing(t), Some(same_eq())) }
pub open spec fn all_uv(vs: Seq<Vertex>) -> bool { forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).uv.is_some() }
pub open spec fn all_color(vs: Seq<Vertex>) -> bool { forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).color.is_some() }
pub open spec fn uvs_in(vs: Seq<Vertex>) -> Option<Vec<Vec2>> { if all_uv(vs) { Some(vec_of(vs.map_values(|v: Vertex| v.uv.unwrap()))) } else { None } }
pub open spec fn colors_in(vs: Seq<Vertex>) -> Option<Vec<Color>> { if all_color(vs) { Some(vec_of(vs.map_values(|v: Vertex| v.color.unwrap()))) } else { None } }
pub open spec fn surface_with(t: Option<String>, p: Part) -> MeshSurface {
    MeshSurface {
        texture: t,
        vertices: vec_of(p.v.map_values(|v: Vertex| v.vertex)),
        normals: vec_of(p.v.map_values(|v: Vertex| v.normal)),
        tangents: vec_of(p.v.map_values(|v: Vertex| v.tangent)),
        uvs: uvs_in(p.v),
        colors: colors_in(p.v),
        indices: vec_of(p.i),
    }
}
/// the surface of one texture: none if it has no vertices
pub open spec fn surface(t: Option<String>, e: Shape, bl: TextureBlacklist) -> Option<MeshSurface> {
    let p = surface_part(t, e, bl);
    if p.v.len() == 0 { None } else { Some(surface_with(t, p)) }
}
/// S04: the lists of a surface are the attributes of vs, in order
pub open spec fn lists_exact(s: MeshSurface, vs: Seq<Vertex>) -> bool {
    let n = vs.len();
    &&& s.vertices@.len() == n && s.normals@.len() == n && s.tangents@.len() == n
    &&& (match s.uvs { Some(u) => all_uv(vs) && u@.len() == n && forall|i: int| 0 <= i < n ==> Some(#[trigger] u@[i]) == vs[i].uv, None => !all_uv(vs) })
    &&& (match s.colors { Some(u) => all_color(vs) && u@.len() == n && forall|i: int| 0 <= i < n ==> Some(#[trigger] u@[i]) == vs[i].color, None => !all_color(vs) })
    &&& forall|i: int| 0 <= i < n ==> #[trigger] s.vertices@[i] == vs[i].vertex
    &&& forall|i: int| 0 <= i < n ==> #[trigger] s.normals@[i] == vs[i].normal
    &&& forall|i: int| 0 <= i < n ==> #[trigger] s.tangents@[i] == vs[i].tangent
}
/// S04, S05: a surface of texture t draws the faces bearing t of the brushes shown, in order; equal vertices of a brush are one
pub open spec fn surface_exact(s: MeshSurface, t: Option<String>, e: Shape, bl: TextureBlacklist) -> bool {
    let p = surface_part(t, e, bl);
    &&& s.texture == t
    &&& p.v.len() > 0
    &&& s.indices@ == p.i
    &&& lists_exact(s, p.v)
    &&& part_exact(p, e, shown(bl), bearing(t), same_eq())
}
// ------------------------------------------------------------------ S05: which surfaces an entity has
pub type Named = (usize, String);
/// the texture names on an entity's faces, in file order
pub open spec fn names_on(e: Entity) -> Seq<String> { flat(e.brushes@.map_values(|b: MapBrush| b.planes@.map_values(|p: MapFace| p.texture))) }
pub open spec fn numbered(s: Seq<String>) -> Seq<Named> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
/// the name does not occur again and is not on the face blacklist
pub open spec fn takes(s: Seq<String>, bl: TextureBlacklist) -> spec_fn(Named) -> bool { |x: Named| !again(s, x) && !listed(bl.plane@, x.1@) }
pub open spec fn again(s: Seq<String>, x: Named) -> bool { exists|j: int| x.0 < j < s.len() && (#[trigger] s[j])@ == x.1@ }
pub open spec fn chosen(e: Entity, bl: TextureBlacklist) -> Seq<String> { keep(numbered(names_on(e)), takes(names_on(e), bl)).map_values(|x: Named| x.1) }
/// each name of s that is not listed once, nothing else
#[verifier::opaque]
pub open spec fn each_once(d: Seq<String>, s: Seq<String>, l: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && !listed(l, (#[trigger] s[i])@) ==> d.contains(s[i])
    &&& forall|k: int| 0 <= k < d.len() ==> s.contains(#[trigger] d[k]) && !listed(l, d[k]@)
    &&& forall|k: int, m: int| 0 <= k < m < d.len() ==> #[trigger] d[k] != #[trigger] d[m]
}
/// the surfaces tried: one per chosen texture, then the faces without one
pub open spec fn tried(e: Entity, bl: TextureBlacklist) -> Seq<Option<String>> { chosen(e, bl).map_values(|t: String| Some(t)).push(None) }
pub open spec fn one_surface(s: Shape, bl: TextureBlacklist) -> spec_fn(Option<String>) -> Seq<MeshSurface> { |t: Option<String>| opt_seq(surface(t, s, bl)) }
pub open spec fn surfaces(e: Entity, s: Shape, bl: TextureBlacklist) -> Seq<MeshSurface> { flat(tried(e, bl).map_values(one_surface(s, bl))) }
pub open spec fn visual(e: Entity, s: Shape, d: BrushData, bl: TextureBlacklist) -> VisualGeometry {
    match d.visual_type {
        VisualType::Mesh => if surfaces(e, s, bl).len() == 0 { VisualGeometry::None } else { VisualGeometry::Mesh(VisualMesh { surfaces: vec_of(surfaces(e, s, bl)) }) },
        VisualType::None => VisualGeometry::None,
    }
}
pub open spec fn visual_of(g: Game, bl: TextureBlacklist, e: Entity, s: Shape) -> VisualGeometry {
    match brush_data(g, e) { Some(d) => visual(e, s, d, bl), None => VisualGeometry::None }
}
pub open spec fn ts_in(f: Seq<Option<String>>, t: Option<String>) -> bool { f.contains(t) }
/// the textures the surfaces show, one surface each, in the order of f; a texture is left out only when it has no vertices
#[verifier::opaque]
pub open spec fn surfaces_exact(m: Seq<MeshSurface>, f: Seq<Option<String>>, s: Shape, bl: TextureBlacklist) -> bool {
    let has = |t: Option<String>| surface_part(t, s, bl).v.len() > 0;
    &&& m.map_values(|x: MeshSurface| x.texture) == keep(f, has)
    &&& forall|k: int| 0 <= k < m.len() ==> surface_exact(#[trigger] m[k], m[k].texture, s, bl)
}
/// S05
pub open spec fn visual_exact(v: VisualGeometry, g: Game, bl: TextureBlacklist, e: Entity, s: Shape) -> bool {
    let mesh = match brush_data(g, e) { Some(d) => d.visual_type is Mesh, None => false };
    &&& mesh ==> each_once(chosen(e, bl), names_on(e), bl.plane@)
    &&& (match v {
        VisualGeometry::Mesh(m) => mesh && m.surfaces@.len() > 0 && surfaces_exact(m.surfaces@, tried(e, bl), s, bl),
        VisualGeometry::None => !mesh || surfaces_exact(Seq::empty(), tried(e, bl), s, bl),
    })
}
pub open spec fn exact_if_any(s: Shape, bl: TextureBlacklist) -> spec_fn(Option<String>) -> bool {
    |t: Option<String>| match surface(t, s, bl) { Some(x) => surface_exact(x, t, s, bl), None => true }
}
pub proof fn lemma_keep_order(s: Seq<String>, p: spec_fn(Named) -> bool, n: int)
    requires 0 <= n <= s.len(), s.len() <= usize::MAX
    ensures ({ let d = keep(numbered(s).take(n), p);
        &&& forall|k: int| 0 <= k < d.len() ==> (#[trigger] d[k]).0 < n && d[k].1 == s[d[k].0 as int] && p(d[k])
        &&& forall|k: int, m: int| 0 <= k < m < d.len() ==> (#[trigger] d[k]).0 < (#[trigger] d[m]).0
        &&& forall|i: int| 0 <= i < n && p(#[trigger] numbered(s)[i]) ==> d.contains(numbered(s)[i]) })
    decreases n
{
    let a = numbered(s);
    let d = keep(a.take(n), p);
    if n > 0 {
        lemma_keep_order(s, p, n - 1);
        assert(a.take(n).drop_last() =~= a.take(n - 1));
        assert(a.take(n).last() == a[n - 1]);
        let o = keep(a.take(n - 1), p);
        assert forall|i: int| 0 <= i < n && p(#[trigger] a[i]) implies d.contains(a[i]) by {
            if i < n - 1 { assert(o.contains(a[i])); let k = choose|k: int| 0 <= k < o.len() && o[k] == a[i]; assert(d[k] == a[i]); }
            else { assert(d[o.len() as int] == a[i]); }
        }
    } else { assert(a.take(0) =~= Seq::empty()); }
}
/// looking further on for the name
pub proof fn lemma_again(s: Seq<String>, x: Named)
    ensures forall|p: spec_fn(&String) -> bool| (forall|y: &String| #[trigger] p(y) == (y@ == x.1@)) && x.0 < s.len() ==> #[trigger] find_first(refs(s).subrange(x.0 + 1, s.len() as int), p).is_none() == !again(s, x)
{
    assert forall|p: spec_fn(&String) -> bool| (forall|y: &String| #[trigger] p(y) == (y@ == x.1@)) && x.0 < s.len() implies #[trigger] find_first(refs(s).subrange(x.0 + 1, s.len() as int), p).is_none() == !again(s, x) by {
        let t = refs(s).subrange(x.0 + 1, s.len() as int);
        lemma_find_first(t, p);
        if again(s, x) { let j = choose|j: int| x.0 < j < s.len() && (#[trigger] s[j])@ == x.1@; assert(t[j - x.0 - 1] == &s[j]); assert(p(t[j - x.0 - 1])); }
        else { assert forall|k: int| 0 <= k < t.len() implies !p(#[trigger] t[k]) by { assert(t[k] == &s[x.0 + 1 + k]); assert(s[x.0 + 1 + k]@ != x.1@); } }
    }
}
pub proof fn lemma_last_named(s: Seq<String>, i: int) -> (j: int)
    requires 0 <= i < s.len() <= usize::MAX
    ensures i <= j < s.len(), s[j]@ == s[i]@, !again(s, numbered(s)[j])
    decreases s.len() - i
{
    if again(s, numbered(s)[i]) { let k = choose|k: int| i < k < s.len() && (#[trigger] s[k])@ == s[i]@; lemma_last_named(s, k) } else { i }
}
pub proof fn lemma_chosen(e: Entity, bl: TextureBlacklist)
    requires names_on(e).len() <= usize::MAX
    ensures each_once(chosen(e, bl), names_on(e), bl.plane@)
{
    reveal(each_once);
    let s = names_on(e);
    let a = numbered(s);
    let p = takes(s, bl);
    let q = keep(a, p);
    let d = chosen(e, bl);
    lemma_keep_order(s, p, s.len() as int);
    assert(a.take(s.len() as int) =~= a);
    assert forall|i: int| 0 <= i < s.len() && !listed(bl.plane@, (#[trigger] s[i])@) implies d.contains(s[i]) by {
        let j = lemma_last_named(s, i);
        lemma_texture(Some(s[j]), Some(s[i]));
        assert(p(a[j]));
        assert(q.contains(a[j]));
        let k = choose|k: int| 0 <= k < q.len() && q[k] == a[j];
        assert(d[k] == s[i]);
    }
    assert forall|k: int| 0 <= k < d.len() implies s.contains(#[trigger] d[k]) && !listed(bl.plane@, d[k]@) by { assert(p(q[k])); assert(s[q[k].0 as int] == d[k]); }
    assert forall|k: int, m: int| 0 <= k < m < d.len() implies #[trigger] d[k] != #[trigger] d[m] by {
        assert(q[k].0 < q[m].0);
        assert(!again(s, q[k]));
        assert(s[q[m].0 as int]@ == q[m].1@);
    }
}
pub proof fn lemma_surfaces(f: Seq<Option<String>>, s: Shape, bl: TextureBlacklist)
    requires forall|i: int| 0 <= i < f.len() ==> exact_if_any(s, bl)(#[trigger] f[i])
    ensures surfaces_exact(flat(f.map_values(one_surface(s, bl))), f, s, bl)
    decreases f.len()
{
    reveal(surfaces_exact);
    let m = flat(f.map_values(one_surface(s, bl)));
    let has = |t: Option<String>| surface_part(t, s, bl).v.len() > 0;
    if f.len() > 0 {
        let g = f.drop_last();
        lemma_surfaces(g, s, bl);
        assert(f.map_values(one_surface(s, bl)).drop_last() =~= g.map_values(one_surface(s, bl)));
        let x = surface(f.last(), s, bl);
        assert(f[f.len() - 1] == f.last());
    }
    assert(m.map_values(|x: MeshSurface| x.texture) =~= keep(f, has));
}
// ------------------------------------------------------------------ S07: worldspawn layers
pub open spec fn named_layer(t: Seq<char>) -> spec_fn(WorldspawnLayer) -> bool { |l: WorldspawnLayer| l.texture@ == t }
/// the layer definitions that name this texture
pub open spec fn layers_for(g: Game, t: Seq<char>) -> Seq<WorldspawnLayer> { keep(g.worldspawn_layers@, named_layer(t)) }
/// all brushes of the layer, centred at the origin
pub open spec fn layer_shape(bs: Seq<Solid>) -> Shape { geo_builder::entity::geometry::Geometry { center: v_zero(), brush_geometry: vec_of(bs) } }
pub open spec fn no_blacklist() -> TextureBlacklist { TextureBlacklist { brush: vec_of(Seq::empty()), plane: vec_of(Seq::empty()) } }
pub open spec fn layer_visual(l: WorldspawnLayer, t: Seq<char>, bs: Seq<Solid>) -> VisualGeometry {
    match l.visual_type {
        VisualType::None => VisualGeometry::None,
        VisualType::Mesh => match surface(Some(string_of(t)), layer_shape(bs), no_blacklist()) { Some(m) => VisualGeometry::Mesh(VisualMesh { surfaces: vec_of(seq![m]) }), None => VisualGeometry::None },
    }
}
pub open spec fn layer_collision(l: WorldspawnLayer, bs: Seq<Solid>) -> CollisionGeometry { collision(l.collision_type, layer_shape(bs)) }
/// one surface that draws the layer's faces bearing the texture; none if there is no such vertex
pub open spec fn layer_visual_exact(v: VisualGeometry, l: WorldspawnLayer, t: Seq<char>, bs: Seq<Solid>) -> bool {
    let p = surface_part(Some(string_of(t)), layer_shape(bs), no_blacklist());
    match v {
        VisualGeometry::None => l.visual_type is None || p.v.len() == 0,
        VisualGeometry::Mesh(m) => {
            &&& l.visual_type is Mesh
            &&& m.surfaces@.len() == 1 && m.surfaces@[0].texture == Some(string_of(t)) && m.surfaces@[0].indices@ == p.i && lists_exact(m.surfaces@[0], p.v)
            &&& in_range(p.i, p.v.len() as int)
            &&& agree(look(p), drawn(layer_shape(bs), every_solid(), bearing(Some(string_of(t)))), same_eq())
        },
    }
}
pub open spec fn solids_ok(bs: Seq<Solid>) -> bool { forall|i: int| 0 <= i < bs.len() ==> solid_ok(#[trigger] bs[i]) }
pub proof fn lemma_all_shown(bs: Seq<Solid>, q: spec_fn(Face) -> bool)
    ensures flat(keep(bs, shown(no_blacklist())).map_values(|b: Solid| faces_drawn(keep(b.plane_geometry@, q)))) == flat(keep(bs, every_solid()).map_values(|b: Solid| faces_drawn(keep(b.plane_geometry@, q))))
    decreases bs.len()
{
    let f = |b: Solid| faces_drawn(keep(b.plane_geometry@, q));
    let k = keep(bs, shown(no_blacklist()));
    let a = keep(bs, every_solid());
    if bs.len() > 0 {
        let d = bs.drop_last();
        lemma_all_shown(d, q);
        let b = bs.last();
        assert(a.map_values(f).drop_last() =~= keep(d, every_solid()).map_values(f));
        assert(a.map_values(f).last() == f(b));
        if solid_shown(b, no_blacklist()) {
            assert(k.map_values(f).drop_last() =~= keep(d, shown(no_blacklist())).map_values(f));
            assert(k.map_values(f).last() == f(b));
        } else {
            if b.plane_geometry@.len() > 0 { assert(face_shown(b.plane_geometry@[0], no_blacklist())); }
            assert(keep(b.plane_geometry@, q) =~= Seq::empty());
            assert(face_rows(Seq::<Face>::empty()) =~= Seq::empty());
            assert(f(b) =~= Seq::empty());
            assert(flat(a.map_values(f)) =~= flat(k.map_values(f)));
        }
    }
}
pub open spec fn opt_visual(at: Vec3, v: VisualGeometry) -> Seq<SceneTreeNode> {
    match v { VisualGeometry::None => Seq::empty(), v => seq![SceneTreeNode { origin: at, data: SceneTreeType::VisualGeometry(v) }] }
}
pub open spec fn opt_collision(at: Vec3, c: CollisionGeometry) -> Seq<SceneTreeNode> {
    match c { CollisionGeometry::None => Seq::empty(), c => seq![SceneTreeNode { origin: at, data: SceneTreeType::CollisionGeometry(c) }] }
}
pub open spec fn layer_parts(l: WorldspawnLayer, t: Seq<char>, bs: Seq<Solid>) -> Seq<SceneTreeNode> {
    opt_visual(v_zero(), layer_visual(l, t, bs)) + opt_collision(v_zero(), layer_collision(l, bs))
}
pub open spec fn layer_node(g: Game, t: Seq<char>, bs: Seq<Solid>) -> Option<SceneTreeNode> {
    let ls = layers_for(g, t);
    if ls.len() != 1 { None } else {
        let l = ls[0];
        let parts = layer_parts(l, t, bs);
        if parts.len() == 0 { None } else {
            Some(SceneTreeNode { origin: v_zero(), data: SceneTreeType::Actor(
                Actor { name: l.name, entity_type: l.entity_type, component_class: script_of(l.component_type), property_application_type: PropertyApplicationType::Properties, properties: Properties(hash_of(Map::empty())) },
                vec_of(parts)) })
        }
    }
}
/// S07
pub open spec fn layer_exact(n: Option<SceneTreeNode>, g: Game, t: Seq<char>, bs: Seq<Solid>) -> bool {
    let ls = layers_for(g, t);
    let l = ls[0];
    match n {
        Some(n) => {
            &&& ls.len() == 1
            &&& n == layer_node(g, t, bs)->Some_0
            &&& layer_visual_exact(layer_visual(l, t, bs), l, t, bs)
            &&& collision_exact(layer_collision(l, bs), l.collision_type, layer_shape(bs))
        },
        None => ls.len() != 1 || layer_visual(l, t, bs) is None && layer_visual_exact(VisualGeometry::None, l, t, bs) && layer_collision(l, bs) is None && collision_exact(CollisionGeometry::None, l.collision_type, layer_shape(bs)),
    }
}
// ------------------------------------------------------------------ S01, S02: the tree
pub type Datum = (Entity, Shape);
pub ghost struct World { pub g: Game, pub f: ForgeGame, pub bl: TextureBlacklist, pub es: Seq<Datum> }
/// S02: what an entity's node says
pub open spec fn name_of(e: Entity) -> String { match prop(e, "classname"@) { Some(c) => c, None => string_of(Seq::empty()) } }
pub open spec fn actor_of(w: World, e: Entity) -> Actor {
    Actor { name: name_of(e), entity_type: type_of(w.g, e), component_class: component_of(w.g, e), property_application_type: mode_of(w.g, e), properties: Properties(hash_of(props_of(w.f, e))) }
}
/// the entity names the group that e declares
pub open spec fn in_group(e: Entity) -> spec_fn(Datum) -> bool { |d: Datum| prop(d.0, "_tb_group"@).is_some() && prop(d.0, "_tb_group"@) == prop(e, "_tb_id"@) }
/// the places from 1 on whose entity satisfies p, in file order
pub open spec fn from_one(es: Seq<Datum>, p: spec_fn(Datum) -> bool, n: int) -> Seq<int> decreases n {
    if n <= 1 { Seq::empty() } else if p(es[n - 1]) { from_one(es, p, n - 1).push(n - 1) } else { from_one(es, p, n - 1) }
}
pub open spec fn members(w: World, e: Entity) -> Seq<int> { from_one(w.es, in_group(e), w.es.len() as int) }
pub proof fn lemma_from_one(es: Seq<Datum>, p: spec_fn(Datum) -> bool, n: int)
    requires 1 <= n <= es.len()
    ensures
        keep(refs(es).subrange(1, n), by_ref(p)) == from_one(es, p, n).map_values(|j: int| &es[j]),
        forall|k: int| 0 <= k < from_one(es, p, n).len() ==> 1 <= #[trigger] from_one(es, p, n)[k] < n,
    decreases n
{
    let s = refs(es).subrange(1, n);
    if n > 1 {
        lemma_from_one(es, p, n - 1);
        assert(s.drop_last() =~= refs(es).subrange(1, n - 1));
        assert(s.last() == &es[n - 1]);
    }
    assert(keep(s, by_ref(p)) =~= from_one(es, p, n).map_values(|j: int| &es[j]));
}
/// its own geometry, at its centre
pub open spec fn own(w: World, d: Datum) -> Seq<SceneTreeNode> {
    opt_visual(d.1.center, visual_of(w.g, w.bl, d.0, d.1)) + opt_collision(d.1.center, collision_of(w.g, d.0, d.1))
}
/// n is the node of entity d under something at -origin: its settings, its own geometry, then the members of its group
pub open spec fn node_is(n: SceneTreeNode, w: World, d: Datum, origin: Vec3) -> bool decreases n {
    &&& n.origin == v_add(origin, d.1.center)
    &&& (match n.data {
        SceneTreeType::Actor(a, ch) => {
            let o = own(w, d);
            let m = members(w, d.0);
            &&& a == actor_of(w, d.0)
            &&& ch@.len() == o.len() + m.len()
            &&& forall|k: int| 0 <= k < o.len() ==> #[trigger] ch@[k] == o[k]
            &&& forall|k: int| #![trigger ch@[k]] o.len() <= k < ch@.len() ==> node_is(ch@[k], w, w.es[m[k - o.len()]], v_neg(d.1.center))
        },
        _ => false,
    })
}
/// a group some entity declares
pub open spec fn declared_group(es: Seq<Datum>, g: String) -> bool { exists|j: int| 0 <= j < es.len() && prop((#[trigger] es[j]).0, "_tb_id"@) == Some(g) }
/// the entity names no group, or one that no entity declares
pub open spec fn at_top(es: Seq<Datum>) -> spec_fn(Datum) -> bool { |d: Datum| match prop(d.0, "_tb_group"@) { Some(g) => !declared_group(es, g), None => true } }
pub open spec fn tops(w: World) -> Seq<int> { from_one(w.es, at_top(w.es), w.es.len() as int) }
pub type Layers = Map<Seq<char>, Vec<Solid>>;
pub open spec fn layers_ok(m: Layers) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> solids_ok(m[k]@) }
/// the nodes of the layers, in the order of their texture names
pub open spec fn layer_nodes(w: World, m: Layers) -> Seq<SceneTreeNode> {
    flat(btree_keys(m).map_values(|t: Seq<char>| opt_seq(layer_node(w.g, t, m[t]@))))
}
/// S07 for every layer
pub open spec fn layers_exact(w: World, m: Layers) -> bool { forall|t: Seq<char>| #[trigger] m.contains_key(t) ==> layer_exact(layer_node(w.g, t, m[t]@), w.g, t, m[t]@) }
pub type Layer<'a> = (&'a String, &'a Vec<Solid>);
pub open spec fn layer_items<'a>(g: Game) -> spec_fn(Layer<'a>) -> Seq<SceneTreeNode> { |x: Layer<'a>| opt_seq(layer_node(g, x.0@, x.1@)) }
pub open spec fn layer_fact<'a>(g: Game) -> spec_fn(Layer<'a>) -> bool { |x: Layer<'a>| layer_exact(layer_node(g, x.0@, x.1@), g, x.0@, x.1@) }
/// worldspawn, the layers, then the entities without a parent
pub open spec fn tree_is(r: Seq<SceneTreeNode>, w: World, m: Layers) -> bool {
    let a = if w.es.len() > 0 { 1int } else { 0 };
    let l = layer_nodes(w, m);
    let t = tops(w);
    &&& in_key_order(btree_keys(m), m)
    &&& r.len() == a + l.len() + t.len()
    &&& a == 1 ==> node_is(r[0], w, w.es[0], v_zero())
    &&& forall|k: int| #![trigger r[k]] a <= k < a + l.len() ==> r[k] == l[k - a]
    &&& forall|k: int| #![trigger r[k]] a + l.len() <= k < r.len() ==> node_is(r[k], w, w.es[t[k - a - l.len()]], v_zero())
}
// ------------------------------------------------------------------ S01: every entity is placed exactly once
/// no two entities declare the same group
pub open spec fn distinct_ids(w: World) -> bool {
    forall|i: int, j: int| #![trigger w.es[i], w.es[j]] 0 <= i < w.es.len() && 0 <= j < w.es.len() && prop(w.es[i].0, "_tb_id"@).is_some()
        && prop(w.es[i].0, "_tb_id"@) == prop(w.es[j].0, "_tb_id"@) ==> i == j
}
/// entity j is in the group that entity i declares
pub open spec fn member_of(w: World, i: int, j: int) -> bool { 0 <= i < w.es.len() && 1 <= j < w.es.len() && (in_group(w.es[i].0))(w.es[j]) }
/// group links lead downwards: no entity is in its own group, directly or through others
pub open spec fn acyclic(w: World, rank: spec_fn(int) -> nat) -> bool { forall|i: int, j: int| #[trigger] member_of(w, i, j) ==> rank(i) < rank(j) }
/// p walks down the tree from the top level to entity i: worldspawn or an entity without a parent, then members of the one before
pub open spec fn leads_to(w: World, p: Seq<int>, i: int) -> bool decreases p.len() {
    p.len() > 0 && p.last() == i && (if p.len() == 1 { i == 0 && w.es.len() > 0 || tops(w).contains(i) } else {
        0 <= p.drop_last().last() < w.es.len() && members(w, w.es[p.drop_last().last()].0).contains(i) && leads_to(w, p.drop_last(), p.drop_last().last()) })
}
/// the places listed are exactly those that satisfy p, each once, in file order
pub proof fn lemma_listed(es: Seq<Datum>, p: spec_fn(Datum) -> bool, n: int)
    requires n <= es.len()
    ensures
        forall|i: int| #[trigger] from_one(es, p, n).contains(i) <==> 1 <= i < n && p(es[i]),
        forall|a: int, b: int| 0 <= a < b < from_one(es, p, n).len() ==> #[trigger] from_one(es, p, n)[a] < #[trigger] from_one(es, p, n)[b],
    decreases n
{
    let f = from_one(es, p, n);
    if n > 1 {
        lemma_listed(es, p, n - 1);
        let g = from_one(es, p, n - 1);
        assert forall|i: int| #[trigger] f.contains(i) <==> 1 <= i < n && p(es[i]) by {
            if 1 <= i < n && p(es[i]) {
                if i == n - 1 { assert(f[g.len() as int] == i); } else { assert(g.contains(i)); let k = choose|k: int| 0 <= k < g.len() && g[k] == i; assert(f[k] == i); }
            }
            if f.contains(i) { let k = choose|k: int| 0 <= k < f.len() && f[k] == i; if k < g.len() { assert(g[k] == i); assert(g.contains(i)); } }
        }
        assert forall|a: int, b: int| 0 <= a < b < f.len() implies #[trigger] f[a] < #[trigger] f[b] by {
            assert(g[a] == f[a]);
            assert(g.contains(g[a]));
            if b < g.len() { assert(g[b] == f[b]); }
        }
    }
}
/// S01: with distinct group ids and acyclic links exactly one walk leads to each entity; it is [i] exactly if the entity is
/// worldspawn, names no group, or names one that no entity declares, and otherwise its parent declares the group it names
pub proof fn lemma_s01(w: World, rank: spec_fn(int) -> nat, i: int) -> (p: Seq<int>)
    requires distinct_ids(w), acyclic(w, rank), 0 <= i < w.es.len()
    ensures
        leads_to(w, p, i),
        forall|q: Seq<int>| #[trigger] leads_to(w, q, i) ==> q == p,
        p.len() == 1 <==> i == 0 || (at_top(w.es))(w.es[i]),
        p.len() > 1 ==> 0 <= p[p.len() - 2] < w.es.len() && prop(w.es[i].0, "_tb_group"@).is_some() && prop(w.es[p[p.len() - 2]].0, "_tb_id"@) == prop(w.es[i].0, "_tb_group"@),
    decreases rank(i)
{
    lemma_listed(w.es, at_top(w.es), w.es.len() as int);
    assert forall|j: int, k: int| 0 <= j < w.es.len() implies #[trigger] members(w, w.es[j].0).contains(k) == member_of(w, j, k) by { lemma_listed(w.es, in_group(w.es[j].0), w.es.len() as int); }
    if i == 0 || (at_top(w.es))(w.es[i]) {
        let p = seq![i];
        assert forall|q: Seq<int>| #[trigger] leads_to(w, q, i) implies q == p by {
            if q.len() > 1 {
                let j = q.drop_last().last();
                assert(member_of(w, j, i));
                assert(prop(w.es[j].0, "_tb_id"@) == prop(w.es[i].0, "_tb_group"@));
            }
            assert(q =~= p);
        }
        p
    } else {
        let g = prop(w.es[i].0, "_tb_group"@)->Some_0;
        let j = choose|j: int| 0 <= j < w.es.len() && prop((#[trigger] w.es[j]).0, "_tb_id"@) == Some(g);
        assert(member_of(w, j, i));
        let up = lemma_s01(w, rank, j);
        let p = up.push(i);
        assert(p.drop_last() =~= up);
        assert forall|q: Seq<int>| #[trigger] leads_to(w, q, i) implies q == p by {
            if q.len() == 1 { assert(tops(w).contains(i)); }
            let k = q.drop_last().last();
            assert(member_of(w, k, i));
            assert(prop(w.es[k].0, "_tb_id"@) == prop(w.es[j].0, "_tb_id"@));
            assert(k == j);
            assert(leads_to(w, q.drop_last(), j));
            assert(q =~= q.drop_last().push(i));
        }
        assert(p[p.len() - 2] == up.last());
        p
    }
}
/// the children of a node
pub open spec fn below(n: SceneTreeNode) -> Seq<SceneTreeNode> { match n.data { SceneTreeType::Actor(_, ch) => ch@, _ => Seq::empty() } }
/// the node that the tree has for the walk p
pub open spec fn found_at(w: World, m: Layers, r: Seq<SceneTreeNode>, p: Seq<int>) -> SceneTreeNode decreases p.len() {
    if p.len() <= 1 {
        if p[0] == 0 { r[0] } else { r[1 + layer_nodes(w, m).len() + tops(w).index_of(p[0])] }
    } else {
        let d = w.es[p[p.len() - 2]];
        below(found_at(w, m, r, p.drop_last()))[own(w, d).len() + members(w, d.0).index_of(p.last())]
    }
}
/// S01: what the tree has there is that entity's node, standing at its centre, or at its centre minus its parent's
pub proof fn lemma_s01_place(w: World, m: Layers, r: Seq<SceneTreeNode>, p: Seq<int>)
    requires tree_is(r, w, m), p.len() > 0, leads_to(w, p, p.last())
    ensures
        0 <= p.last() < w.es.len(),
        node_is(found_at(w, m, r, p), w, w.es[p.last()], if p.len() == 1 { v_zero() } else { v_neg(w.es[p[p.len() - 2]].1.center) }),
    decreases p.len()
{
    hide(layer_nodes); hide(in_key_order); hide(own); hide(actor_of); hide(from_one);
    let i = p.last();
    lemma_listed(w.es, at_top(w.es), w.es.len() as int);
    if p.len() == 1 {
        if i != 0 {
            let k = tops(w).index_of(i);
            assert(tops(w).contains(i));
            assert(tops(w)[k] == i);
            let at = 1 + layer_nodes(w, m).len() + k;
            assert(node_is(r[at], w, w.es[tops(w)[at - 1 - layer_nodes(w, m).len()]], v_zero()));
        }
    } else {
        lemma_s01_place(w, m, r, p.drop_last());
        let j = p.drop_last().last();
        let d = w.es[j];
        lemma_listed(w.es, in_group(d.0), w.es.len() as int);
        let ms = members(w, d.0);
        let k = ms.index_of(i);
        assert(ms.contains(i));
        assert(ms[k] == i);
        let n = found_at(w, m, r, p.drop_last());
        let o = own(w, d).len();
        let ch = n.data->Actor_1;
        let at = o + k;
        assert(node_is(ch@[at], w, w.es[ms[at - o]], v_neg(d.1.center)));
    }
}
// ------------------------------------------------------------------ S08: the tree is determined by what it is built from
pub proof fn lemma_s08_node(a: SceneTreeNode, b: SceneTreeNode, w: World, d: Datum, origin: Vec3)
    requires node_is(a, w, d, origin), node_is(b, w, d, origin)
    ensures a == b
    decreases a
{
    broadcast use ax_vec_of;
    let o = own(w, d);
    let m = members(w, d.0);
    let ca = a.data->Actor_1;
    let cb = b.data->Actor_1;
    assert forall|k: int| 0 <= k < ca@.len() implies ca@[k] == cb@[k] by {
        if k >= o.len() { lemma_s08_node(ca@[k], cb@[k], w, w.es[m[k - o.len()]], v_neg(d.1.center)); } else { assert(ca@[k] == o[k]); assert(cb@[k] == o[k]); }
    }
    assert(ca@ =~= cb@);
    assert(vec_of(ca@) == ca && vec_of(cb@) == cb);
}
/// S08: two trees of the same entities, layers and configuration are equal
pub proof fn lemma_s08(a: Seq<SceneTreeNode>, b: Seq<SceneTreeNode>, w: World, m: Layers)
    requires tree_is(a, w, m), tree_is(b, w, m)
    ensures a == b
{
    hide(node_is); hide(layer_nodes); hide(tops); hide(in_key_order);
    let n = if w.es.len() > 0 { 1int } else { 0 };
    let l = layer_nodes(w, m);
    let t = tops(w);
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
        if k < n { lemma_s08_node(a[0], b[0], w, w.es[0], v_zero()); }
        else if k < n + l.len() { assert(a[k] == l[k - n]); assert(b[k] == l[k - n]); }
        else {
            let j = k - n - l.len();
            assert(node_is(a[k], w, w.es[t[j]], v_zero()));
            assert(node_is(b[k], w, w.es[t[j]], v_zero()));
            lemma_s08_node(a[k], b[k], w, w.es[t[j]], v_zero());
        }
    }
    assert(a =~= b);
}
/// what the map of layers is walked as, told by its keys
pub proof fn lemma_layers<'a>(w: World, m: &'a BTreeMap<String, Vec<Solid>>)
    ensures layer_nodes(w, m@) == flat(m.items_spec().map_values(layer_items(w.g))),
        (forall|i: int| 0 <= i < m.items_spec().len() ==> (layer_fact(w.g))(#[trigger] m.items_spec()[i])) ==> layers_exact(w, m@),
        in_key_order(btree_keys(m@), m@),
        layers_ok(m@) ==> forall|i: int| 0 <= i < m.items_spec().len() ==> solids_ok((#[trigger] m.items_spec()[i]).1@),
{
    broadcast use ax_btree_keys;
    let ks = btree_keys(m@);
    let it = m.items_spec();
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] it[i].0@ == ks[i] && it[i].1 == m@[ks[i]] by { assert(string_of(ks[i])@ == ks[i]); }
    assert(it.map_values(layer_items(w.g)) =~= ks.map_values(|t: Seq<char>| opt_seq(layer_node(w.g, t, m@[t]@))));
    if forall|i: int| 0 <= i < it.len() ==> (layer_fact(w.g))(#[trigger] it[i]) {
        assert forall|t: Seq<char>| #[trigger] m@.contains_key(t) implies layer_exact(layer_node(w.g, t, m@[t]@), w.g, t, m@[t]@) by {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == t;
            assert((layer_fact(w.g))(it[i]));
            assert(it[i].0@ == ks[i]);
        }
    }
    if layers_ok(m@) {
        assert forall|i: int| 0 <= i < it.len() implies solids_ok((#[trigger] it[i]).1@) by { assert(it[i].1 == m@[ks[i]]); assert(m@.contains_key(ks[i])); }
    }
}
@file lib.rs
@types QuarchitectError
@file types.rs
@types *
@file types/color.rs
@types *
@deriveeq Color
@fn Color::new
@ret c
@ensures c.r == r, c.g == g, c.b == b,
@file types/texture.rs
@types *
@fn TextureBlacklist::default
@ensures r.brush@ == Seq::<String>::empty(), r.plane@ == Seq::<String>::empty(),
@fn TextureBlacklist::new
@props S05
@ensures r.brush == brush, r.plane == plane,
@fn TextureBlacklist::is_blacklisted_brush
@props S05
@ensures r == listed(self.brush@, texture@),
@loop 0
@invariant
vx_it0@ == refs(self.brush@),
forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] self.brush@[i])@ != texture@,
@fn TextureBlacklist::is_blacklisted_plane
@props S05
@ensures r == listed(self.plane@, texture@),
@loop 0
@invariant
vx_it0@ == refs(self.plane@),
forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] self.plane@[i])@ != texture@,
@file types/vertex.rs
@types *
@file map/mod.rs
@file map/types/mod.rs
@file map/types/uv.rs
@types *
@file map/quake/mod.rs
@file map/quake/types/mod.rs
@file map/quake/types/brush.rs
@types *
@file map/quake/types/brush_plane.rs
@types *
@file map/quake/types/entity.rs
@types *
@file geo_builder/mod.rs
@file geo_builder/entity/mod.rs
@file geo_builder/entity/geometry.rs
@types *
@fn Geometry::new
@ensures r.center == center, r.brush_geometry == brush_geometry,
@file geo_builder/brush/mod.rs
@file geo_builder/brush/geometry.rs
@types *
@file geo_builder/brush_plane/mod.rs
@file geo_builder/brush_plane/geometry.rs
@types *
@file game_data/mod.rs
@file game_data/types/mod.rs
@file game_data/types/brush_data.rs
@types *
@fn BrushData::new
@props S05 S06
@ensures r.visual_type == visual_type, r.collision_type == collision_type,
@fn BrushData::default
@props S05 S06
@ensures r.visual_type is None, r.collision_type is None,
@file game_data/types/collision_type.rs
@types *
@file game_data/types/component_type.rs
@types *
@file game_data/types/entity.rs
@types *
@fn Entity::point
@props S02
@ensures
r.classname == classname,
r.data is Point && r.data->Point_0 == (crate::game_data::types::point_data::PointData { entity_type, component_type, property_application_type, properties }),
@fn Entity::brush
@props S02 S05 S06
@ensures
r.classname == classname,
r.data is Brush && r.data->Brush_0 == (crate::game_data::types::point_data::PointData { entity_type, component_type, property_application_type, properties }),
r.data->Brush_1.visual_type == visual_type, r.data->Brush_1.collision_type == collision_type,
@file game_data/types/entity_type.rs
@types *
@fn EntityType::class
@props S02
@ensures r is Class && r->Class_0@ == class_name@,
@fn EntityType::prefab
@props S02
@ensures r is Prefab && r->Prefab_0@ == prefab_name@,
@file game_data/types/game_data.rs
@types *
@file game_data/types/point_data.rs
@types *
@fn PointData::new
@props S02
@ensures r.entity_type == entity_type, r.component_type == component_type, r.property_application_type == property_application_type, r.properties == properties,
@file game_data/types/properties.rs
@types *
@fn Properties::new
@ensures r.0 == properties,
@fn Properties::default
@ensures r.0@ == Map::<Seq<char>, Property>::empty(),
@file game_data/types/visual_type.rs
@types *
@file game_data/types/worldspawn_layer.rs
@types *
@fn WorldspawnLayer::new
@props S07
@ensures r.name == name, r.texture == texture, r.entity_type == entity_type, r.component_type == component_type, r.visual_type == visual_type, r.collision_type == collision_type,
@file game_data/forge/mod.rs
@file game_data/forge/choice.rs
@types *
@file game_data/forge/metadata.rs
@types *
@file game_data/forge/property.rs
@types *
@file game_data/forge/entity.rs
@types *
@file game_data/forge/game_data.rs
@types *
@file scene_tree/types.rs
@file scene_tree/types/collision_geometry.rs
@types *
@fn CollisionGeometry::convex
@ensures r == CollisionGeometry::Convex(shapes),
@fn CollisionGeometry::concave
@ensures r == CollisionGeometry::Concave(shapes),
@fn ConvexCollision::new
@ensures r.center == center, r.points == points,
@fn ConcaveCollision::new
@ensures r.center == center, r.vertices == vertices, r.indices == indices,
@file scene_tree/types/visual_geometry.rs
@types *
@fn VisualMesh::new
@ensures r.surfaces == surfaces,
@fn MeshSurface::new
@ensures r.texture == texture, r.vertices == vertices, r.normals == normals, r.tangents == tangents, r.uvs == uvs, r.colors == colors, r.indices == indices,
@file scene_tree/types/actor.rs
@types *
@fn Actor::new
@ensures r == (Actor { name, entity_type, component_class, property_application_type, properties }),
@file scene_tree/types/scene_tree.rs
@types *
@fn SceneTreeNode::entity
@ensures r.origin == origin, (match r.data { SceneTreeType::Actor(a, c) => a == (Actor { name, entity_type: actor_type, component_class, property_application_type, properties }) && c == children, _ => false }),
@fn SceneTreeNode::visual_geometry
@ensures r.origin == origin, r.data == SceneTreeType::VisualGeometry(visual_geometry),
@fn SceneTreeNode::collision_geometry
@ensures r.origin == origin, r.data == SceneTreeType::CollisionGeometry(collision_geometry),
@file scene_tree/mod.rs
@fn get_entity_convex_collision
@props S06
@ensures
r == convexes(*entity_geometry),
convexes_exact(r, *entity_geometry),
@proof ghost start
broadcast use lemma_later_b;
@proof let convex_shapes
assert(convex_shapes@ =~= entity_geometry.brush_geometry@.map_values(|b: Solid| convex_of(b)));
@closure 0
@c_params &Solid
@c_out y: ConvexCollision
@c_ensures y == convex_of(*$0), convex_exact(y, *$0)
@c_proof
lemma_convex(*$0);
@proof let points
assert(points@ == want(corner_rows(*brush_geometry)));
@proof ghost letbefore points#2
let ghost pts: Seq<Vec3> = points@;
@proof let points#2
lemma_kept_rows(pts, same_place());
assert(points@ == want(kept_rows(pts, same_place())));
@closure 1
@c_params &Face
@c_out y: It<Vec3>
@c_spec @items $0.vertices@.map_values(|v: Vertex| v.vertex)
@closure 2
@c_params &Vertex
@c_out y: Vec3
@c_ensures y == $0.vertex
@closure 3
@c_params (usize, &Vec3)
@c_out y: Option<Vec3>
@c_requires $0.0 < points@.len(), *$0.1 == points@[$0.0 as int]
@c_spec @items opt_seq(if last_of(points@, same_place(), $0.0 as int) { Some(points@[$0.0 as int]) } else { None })
@closure 4
@c_params &&Vec3
@c_out y: bool
@c_spec v_eq(*vertex, **$0)
@fn get_entity_collision_geometry
@props S06
@requires shape_ok(*entity_geometry),
@ensures
r == collision_of(*quarchitect_game_data, *entity, *entity_geometry),
(match brush_data(*quarchitect_game_data, *entity) { Some(b) => collision_exact(r, b.collision_type, *entity_geometry), None => r is None }),
@closure 0
@c_params &&Def
@c_out y: bool
@c_spec $0.classname@ == classname@
@fn get_entity_concave_collision
@props S06
@requires shape_ok(*entity_geometry),
@ensures r == concave(*entity_geometry), concave_exact(r, *entity_geometry),
@proof ghost start
broadcast use g_vals;
@proof start
lemma_judges();
@proof let collision_vertices
assert(collision_vertices@ =~= places(concave_part(*entity_geometry).v));
@proof let concave_shapes
assert(concave_shapes@ =~= seq![ConcaveCollision { center: entity_geometry.center, vertices: vec_of(places(concave_part(*entity_geometry).v)), indices: vec_of(concave_part(*entity_geometry).i) }]);
@closure 0
@c_params &&Vertex
@c_out y: Vec3
@c_ensures y == $0.vertex
@fn filter_vertices
@props S04 S06
@requires
good_pred(*predicate),
in_range(indices@, vertices@.len() as int),
@ensures
vals(r.0@) == unique_part(Part { v: vals(vertices@), i: indices@ }, rel_of(*predicate)).v,
r.1@ == unique_part(Part { v: vals(vertices@), i: indices@ }, rel_of(*predicate)).i,
@proof ghost start
broadcast use {g_vals, lemma_somes};
let ghost vs = vals(vertices@);
let ghost rel = rel_of(*predicate);
let ghost ix: Seq<usize> = indices@;
let ghost n = vertices@.len() as int;
@loop 0
@invariant
vx_it0@ == Seq::new(vertices@.len(), |i: int| (i as usize, &vertices@[i])),
kept_as(new_indices@, first_ix(vs, rel, vx_i0 as int)),
new_vertices@.len() == new_indices@.len(),
forall|k: int| 0 <= k < new_vertices@.len() ==> *(#[trigger] new_vertices@[k]) == vs[new_indices@[k] as int],
indices@.len() == ix.len(),
forall|t: int| 0 <= t < ix.len() ==> #[trigger] indices@[t] == moved(vs, rel, vx_i0 as int, ix[t] as int),
@proof loop 0 begin
lemma_equivalence(vs, rel);
lemma_root(vs, rel, vx_i0 as int);
lemma_first_ix(vs, rel, vx_i0 as int);
lemma_root_le(vs, rel);
@proof letbefore position
let p = lemma_seen(vs, rel, i as int);
assert(new_indices@[p] == root(vs, rel, i as int));
assert(*new_vertices@[p] == vs[root(vs, rel, i as int)]);
@proof let position
assert(position == root(vs, rel, i as int));
@proof letbefore indices#2
lemma_place_all(vs, rel, ix);
assert forall|t: int| 0 <= t < ix.len() implies new_indices@[place_in(first_ix(vs, rel, n), root(vs, rel, ix[t] as int))] == #[trigger] indices@[t] by { assert(placed(vs, rel, ix[t] as int)); }
@proof let indices#2
assert(indices@ =~= unique_part(Part { v: vs, i: ix }, rel).i);
assert(vals(new_vertices@) =~= unique_part(Part { v: vs, i: ix }, rel).v);
@closure 0
@c_params &&Vertex
@c_out y: bool
@c_spec same_v(**$0, **vertex)
@closure 1
@c_out y: Option<usize>
@c_ensures (match y { Some(k) => k < new_vertices@.len() && v_eq(new_vertices@[k as int].vertex, vertex.vertex), None => forall|j: int| 0 <= j < new_vertices@.len() ==> !v_eq((#[trigger] new_vertices@[j]).vertex, vertex.vertex) })
@closure 2
@c_params &&Vertex
@c_out y: bool
@c_spec v_eq($0.vertex, vertex.vertex)
@closure 3
@c_params usize
@c_out y: usize
@c_requires $0 < new_indices@.len()
@c_ensures y == new_indices@[$0 as int]
@closure 4
@c_params &usize
@c_out y: usize
@c_ensures y == (if *$0 == i { position } else { *$0 })
@closure 5
@c_params &usize
@c_out y: Option<usize>
@c_ensures (match y { Some(k) => k < new_indices@.len() && new_indices@[k as int] == *$0, None => forall|j: int| 0 <= j < new_indices@.len() ==> #[trigger] new_indices@[j] != *$0 })
@rename flat_map 0 flat_map_rel
@closure 6
@c_params &usize
@c_out y: bool
@c_spec *$0 == *index
@fn build_brush_entity_texture_surface
@props S04 S05
@rettype impl Fn(Option<String>) -> Option<MeshSurface> + 'a
@requires shape_ok(*entity_geometry),
@ensures
forall|t: Option<String>| #[trigger] r.requires((t,)),
forall|t: Option<String>, y: Option<MeshSurface>| #[trigger] r.ensures((t,), y) ==> y == surface(t, *entity_geometry, *texture_blacklist)
    && (match y { Some(s) => surface_exact(s, t, *entity_geometry, *texture_blacklist), None => true }),
@closure 0
@c_params Option<String>
@c_out y: Option<MeshSurface>
@c_ensures y == surface($0, *entity_geometry, *texture_blacklist), (match y { Some(s) => surface_exact(s, $0, *entity_geometry, *texture_blacklist), None => true })
@c_proof ghost
broadcast use g_vals;
proof { lemma_judges(); lemma_solid_test(shown(*texture_blacklist)); lemma_face_test(bearing($0)); }
let ghost part = surface_part($0, *entity_geometry, *texture_blacklist);
@proof let verts
assert(verts@ =~= part.v.map_values(|v: Vertex| v.vertex));
@proof let normals
assert(normals@ =~= part.v.map_values(|v: Vertex| v.normal));
@proof let tangents
assert(tangents@ =~= part.v.map_values(|v: Vertex| v.tangent));
@proof let uvs
assert forall|s: Seq<Option<Vec2>>| #[trigger] <Option<Vec<Vec2>> as VxFrom<Option<Vec2>>>::is_from(s, uvs) && s.len() == part.v.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == part.v[i].uv) implies uvs == uvs_in(part.v) by { lemma_uvs(uvs, s, part.v); }
@proof let colors
assert forall|s: Seq<Option<Color>>| #[trigger] <Option<Vec<Color>> as VxFrom<Option<Color>>>::is_from(s, colors) && s.len() == part.v.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == part.v[i].color) implies colors == colors_in(part.v) by { lemma_colors(colors, s, part.v); }
@proof let mesh_surface
assert(indices@ == part.i);
assert(mesh_surface == surface_with(mesh_surface.texture, part));
@closure 1
@c_params &&Vertex
@c_out y: Vec3
@c_ensures y == $0.vertex
@closure 2
@c_params &&Vertex
@c_out y: Vec3
@c_ensures y == $0.normal
@closure 3
@c_params &&Vertex
@c_out y: (Vec3, F32)
@c_ensures y == $0.tangent
@closure 4
@c_params &&Vertex
@c_out y: Option<Vec2>
@c_ensures y == $0.uv
@closure 5
@c_params &&Vertex
@c_out y: Option<Color>
@c_ensures y == $0.color
@fn get_brush_entity_visual_geometry
@props S05
@requires shape_ok(*entity_geometry),
@ensures
r == visual(*entity, *entity_geometry, *brush_data, *texture_blacklist),
brush_data.visual_type is Mesh ==> each_once(chosen(*entity, *texture_blacklist), names_on(*entity), texture_blacklist.plane@),
(match r {
    VisualGeometry::Mesh(m) => m.surfaces@.len() > 0 && surfaces_exact(m.surfaces@, tried(*entity, *texture_blacklist), *entity_geometry, *texture_blacklist),
    VisualGeometry::None => brush_data.visual_type is None || surfaces_exact(Seq::empty(), tried(*entity, *texture_blacklist), *entity_geometry, *texture_blacklist),
}),
@closure 0
@c_params &MapBrush
@c_out y: It<String>
@c_spec @items $0.planes@.map_values(|p: MapFace| p.texture)
@closure 1
@c_params &MapFace
@c_out y: String
@c_ensures y == $0.texture
@arg map 1 |x: String| -> (y: Option<String>) ensures y == Some(x) { $a(x) }
@ghost filter 0 Ghost(takes(names_on(*entity), *texture_blacklist))
@rename flat_map 1 flat_map_with
@ghost flat_map 1 Ghost(one_surface(*entity_geometry, *texture_blacklist)), Ghost(exact_if_any(*entity_geometry, *texture_blacklist))
@proof let textures
assert(textures@ == want(entity.brushes@.map_values(|b: MapBrush| b.planes@.map_values(|p: MapFace| p.texture))));
assert(textures.len() <= usize::MAX);
lemma_chosen(*entity, *texture_blacklist);
@proof let textures#2
assert(textures@ =~= chosen(*entity, *texture_blacklist).map_values(|t: String| Some(t)));
@proof letbefore mesh_surfaces
assert(textures@ =~= tried(*entity, *texture_blacklist));
@proof let mesh_surfaces
assert(mesh_surfaces@ == surfaces(*entity, *entity_geometry, *texture_blacklist));
lemma_surfaces(tried(*entity, *texture_blacklist), *entity_geometry, *texture_blacklist);
@fn get_entity_visual_geometry
@props S05
@requires shape_ok(*entity_geometry),
@ensures
r == visual_of(*quarchitect_game_data, *texture_blacklist, *entity, *entity_geometry),
visual_exact(r, *quarchitect_game_data, *texture_blacklist, *entity, *entity_geometry),
@closure 0
@c_params &&Def
@c_out y: bool
@c_spec $0.classname@ == classname@
@fn get_worldspawn_layer_visual_geometry
@props S07
@requires solids_ok(brush_geometry@),
@ensures 
r == layer_visual(*worldspawn_layer, texture@, brush_geometry@),
layer_visual_exact(r, *worldspawn_layer, texture@, brush_geometry@),
@proof ghost start
let ghost shape = layer_shape(brush_geometry@);
@proof tail
reveal(part_exact);
lemma_all_shown(brush_geometry@, bearing(Some(string_of(texture@))));
assert(worldspawn_layer.visual_type is Mesh ==> vec_of(brush_geometry@)@ == brush_geometry@);
assert(vx_tail is Mesh ==> vx_tail->Mesh_0.surfaces@ =~= seq![vx_tail->Mesh_0.surfaces@[0]]);
@fn get_worldspawn_layer_collision_geometry
@props S07
@requires solids_ok(brush_geometry@),
@ensures r == layer_collision(*worldspawn_layer, brush_geometry@), collision_exact(r, worldspawn_layer.collision_type, layer_shape(brush_geometry@)),
@fn build_worldspawn_layer
@props S07
@proof ghost start
hide(layer_visual_exact);
hide(collision_exact);
hide(layer_visual);
hide(layer_collision);
hide(surface);
@rettype impl Fn((&String, &Vec<crate::geo_builder::brush::Geometry>)) -> Option<SceneTreeNode> + 'a
@ensures
forall|l: (&String, &Vec<Solid>)| solids_ok(l.1@) ==> #[trigger] r.requires((l,)),
forall|l: (&String, &Vec<Solid>), y: Option<SceneTreeNode>| #[trigger] r.ensures((l,), y) ==> y == layer_node(*quarchitect_game_data, l.0@, l.1@) && layer_exact(y, *quarchitect_game_data, l.0@, l.1@),
@closure 0
@c_params (&String, &Vec<Solid>)
@c_out y: Option<SceneTreeNode>
@c_requires solids_ok($0.1@)
@c_ensures y == layer_node(*quarchitect_game_data, $0.0@, $0.1@), layer_exact(y, *quarchitect_game_data, $0.0@, $0.1@)
@c_proof ghost
let ghost t = $0.0@;
let ghost bs = $0.1@;
proof { lemma_keep_refs(quarchitect_game_data.worldspawn_layers@, named_layer(t)); }
@c_tail
if layers_for(*quarchitect_game_data, t).len() == 1 { assert(children@ =~= layer_parts(layers_for(*quarchitect_game_data, t)[0], t, bs)); }
@proof let layer_data#2
assert(*layer_data == layers_for(*quarchitect_game_data, t)[0]);
@proof letbefore collision_geometry
assert(children@ =~= opt_visual(v_zero(), layer_visual(*layer_data, t, bs)));
@closure 1
@c_params &&WorldspawnLayer
@c_out y: bool
@c_ensures y == named_layer(layer_texture@)(**$0)
@ghost filter 0 Ghost(by_ref(named_layer(layer_texture@)))
@fn run
@props S01 S02 S07 S08
@requires
forall|i: int| 0 <= i < entity_data@.len() ==> shape_ok((#[trigger] entity_data@[i]).1),
layers_ok(worldspawn_layers@),
@ensures
tree_is(r@, World { g: *quarchitect_game_data, f: *forge_game_data, bl: *texture_blacklist, es: entity_data@ }, worldspawn_layers@),
layers_exact(World { g: *quarchitect_game_data, f: *forge_game_data, bl: *texture_blacklist, es: entity_data@ }, worldspawn_layers@),
@closure 0
@c_params &&Datum
@c_out y: bool
@c_ensures y == at_top(entity_data@)(**$0)
@ghost filter 0 Ghost(by_ref(at_top(entity_data@)))
@closure 1
@c_params &Datum
@c_out y: bool
@c_spec prop($0.0, "_tb_id"@) == Some(*group)
@c_proof
lemma_texture(prop($0.0, "_tb_id"@), Some(*group));
@rename flat_map 0 flat_map_rel
@rename flat_map 2 flat_map_rel
@rename flat_map 1 flat_map_with
@ghost flat_map 1 Ghost(layer_items(*quarchitect_game_data)), Ghost(layer_fact(*quarchitect_game_data))
@proof ghost start
hide(node_is);
hide(layer_exact);
hide(layer_node);
hide(shape_ok);
hide(solids_ok);
broadcast use lemma_somes;
let ghost w = World { g: *quarchitect_game_data, f: *forge_game_data, bl: *texture_blacklist, es: entity_data@ };
@proof start
lemma_layers(w, worldspawn_layers);
if entity_data@.len() >= 1 { lemma_from_one(entity_data@, at_top(entity_data@), entity_data@.len() as int); }
else { assert(tops(w) =~= Seq::empty()); }
@fn build_entity
@props S01 S02
@attr #[verifier::exec_allows_no_decreases_clause]
@rettype impl Fn(&'a (Entity, entity::Geometry)) -> Option<SceneTreeNode> + 'a
@requires forall|i: int| 0 <= i < entity_data@.len() ==> shape_ok((#[trigger] entity_data@[i]).1),
@ensures
forall|d: &Datum| shape_ok(d.1) ==> #[trigger] r.requires((d,)),
forall|d: &Datum, y: Option<SceneTreeNode>| #[trigger] r.ensures((d,), y) ==> y.is_some() && node_is(y.unwrap(), World { g: *quarchitect_game_data, f: *forge_game_data, bl: *texture_blacklist, es: entity_data@ }, *d, origin),
@closure 0
@c_params &(Entity, entity::Geometry)
@c_out y: Option<SceneTreeNode>
@c_requires shape_ok($0.1)
@c_ensures y.is_some(), node_is(y.unwrap(), World { g: *quarchitect_game_data, f: *forge_game_data, bl: *texture_blacklist, es: entity_data@ }, *$0, origin)
@closure 1
@c_params &&Datum
@c_out y: bool
@c_ensures y == in_group(*entity)(**$0)
@c_proof
lemma_texture(prop($0.0, "_tb_group"@), prop(*entity, "_tb_id"@));
@ghost filter 0 Ghost(by_ref(in_group(*entity)))
@rename flat_map 0 flat_map_rel
@proof ghost start
hide(visual_of);
hide(collision_of);
hide(type_of);
hide(component_of);
hide(mode_of);
hide(props_of);
hide(shape_ok);
broadcast use lemma_somes;
let ghost w = World { g: *quarchitect_game_data, f: *forge_game_data, bl: *texture_blacklist, es: entity_data@ };
@proof letbefore child_entities
if entity_data@.len() >= 1 { lemma_from_one(entity_data@, in_group(*entity), entity_data@.len() as int); }
else { assert(members(w, *entity) =~= Seq::empty()); }
@proof let child_entities
assert(child_entities@.len() == members(w, *entity).len());
@fn gather_entity_geometry
@props S04 S06
@requires
shape_ok(*entity_geometry),
(match vertex_predicate { Some(p) => good_pred(*p), None => true }),
@ensures
vals(r.0@) == shape_part(*entity_geometry, solid_test(brush_predicate), face_test(plane_predicate), rel_in(vertex_predicate)).v,
r.1@ == shape_part(*entity_geometry, solid_test(brush_predicate), face_test(plane_predicate), rel_in(vertex_predicate)).i,
vertex_predicate.is_some() ==> part_exact(shape_part(*entity_geometry, solid_test(brush_predicate), face_test(plane_predicate), rel_in(vertex_predicate)), *entity_geometry, solid_test(brush_predicate), face_test(plane_predicate), rel_in(vertex_predicate).unwrap()),
@proof tail
if let Some(p) = vertex_predicate {
    assert forall|k: int| 0 <= k < bs.len() implies small_faces(#[trigger] bs[k], ftest) by { assert(vals(brush_geometry@[k].0@) == ps[k].v); }
    assert(vertices.len() <= usize::MAX);
    lemma_shape(*entity_geometry, test, ftest, rel_of(*p));
}
@proof ghost start
broadcast use g_vals;
let ghost test = solid_test(brush_predicate);
let ghost ftest = face_test(plane_predicate);
let ghost orel = rel_in(vertex_predicate);
let ghost bs = keep(entity_geometry.brush_geometry@, test);
let ghost ps = bs.map_values(|b: Solid| solid_part(b, ftest, orel));
@proof start
lemma_keep_refs(entity_geometry.brush_geometry@, test);
assert forall|k: int| 0 <= k < bs.len() implies solid_ok(#[trigger] bs[k]) by { let i = lemma_keep_in(entity_geometry.brush_geometry@, test, k); }
@arg filter 0 |x: &&Solid| -> (y: bool) ensures y == test(**x) { ($a).call(x) }
@ghost filter 0 Ghost(by_ref(test))
@closure 0
@c_dyn crate::SolidPred
@c_params &&Solid
@c_out y: bool
@c_ensures y
@closure 1
@c_params &'a Solid
@c_out y: (Vec<&'a Vertex>, Vec<usize>)
@c_requires solid_ok(*$0)
@c_ensures vals(y.0@) == solid_part(*$0, ftest, orel).v, y.1@ == solid_part(*$0, ftest, orel).i, in_range(y.1@, y.0@.len() as int), small_faces(*$0, ftest)
@proof let brush_geometry
assert forall|k: int| 0 <= k < bs.len() implies vals((#[trigger] brush_geometry@[k]).0@) == ps[k].v && brush_geometry@[k].1@ == ps[k].i && in_range(ps[k].i, ps[k].v.len() as int) && small_faces(bs[k], ftest) by { assert(solid_ok(bs[k])); }
@closure 2
@c_params &(Vec<&'a Vertex>, Vec<usize>)
@c_out y: Vec<&'a Vertex>
@c_spec @items $0.0@
@proof let vertices
let rows = brush_geometry@.map_values(|p: (Vec<&Vertex>, Vec<usize>)| p.0@);
assert(vertices@ == want(rows));
lemma_vals_rows(rows);
assert(rows.map_values(|s: Seq<&Vertex>| vals(s)) =~= part_vs(ps));
@closure 3
@c_lift entity_moved
@c_caps index_offset: &mut usize = &mut index_offset
@c_params &(Vec<&Vertex>, Vec<usize>)
@c_out y: It<usize>
@c_requires *old(index_offset) + $0.0@.len() <= usize::MAX, in_range($0.1@, $0.0@.len() as int)
@c_ensures y@ =~= shift($0.1@, *old(index_offset) as int), *final(index_offset) == *old(index_offset) + $0.0@.len()
@c_inv vx_src3@ == refs(brush_geometry@), index_offset == off(part_vs(ps), vx_j3 as int), forall|k: int| 0 <= k < vx_j3 ==> (#[trigger] vx_out3@[k])@ == shift(ps[k].i, off(part_vs(ps), k)),
@proof lift 3 begin
lemma_off(part_vs(ps), vx_j3 as int + 1);
assert(vertices.len() <= usize::MAX);
assert(brush_geometry@[vx_j3 as int].0@.len() == ps[vx_j3 as int].v.len());
assert(part_vs(ps)[vx_j3 as int] == ps[vx_j3 as int].v);
@proof let indices
assert(indices@ == want(shifted(ps)));
@closure 4
@c_params usize
@c_out y: usize
@c_requires $0 + index_offset <= usize::MAX
@c_ensures y == $0 + index_offset
@fn gather_brush_geometry
@props S04 S06
@requires
solid_ok(*brush_geometry),
(match vertex_predicate { Some(p) => good_pred(*p), None => true }),
@ensures
vals(r.0@) == solid_part(*brush_geometry, face_test(plane_predicate), rel_in(vertex_predicate)).v,
r.1@ == solid_part(*brush_geometry, face_test(plane_predicate), rel_in(vertex_predicate)).i,
in_range(r.1@, r.0@.len() as int),
small_faces(*brush_geometry, face_test(plane_predicate)),
@proof ghost start
broadcast use g_vals;
let ghost test = face_test(plane_predicate);
let ghost fs = keep(brush_geometry.plane_geometry@, test);
let ghost ps = fs.map_values(|f: Face| face_part(f));
@proof start
lemma_keep_refs(brush_geometry.plane_geometry@, test);
assert forall|k: int| 0 <= k < fs.len() implies face_ok(#[trigger] fs[k]) by { let i = lemma_keep_in(brush_geometry.plane_geometry@, test, k); }
@arg filter 0 |x: &&Face| -> (y: bool) ensures y == test(**x) { ($a).call(x) }
@ghost filter 0 Ghost(by_ref(test))
@arg filter 1 |x: &&Face| -> (y: bool) ensures y == test(**x) { ($a).call(x) }
@ghost filter 1 Ghost(by_ref(test))
@closure 0
@c_dyn crate::FacePred
@c_params &&Face
@c_out y: bool
@c_ensures y
@closure 1
@c_params &'a Face
@c_out y: &'a Vec<Vertex>
@c_spec @items refs($0.vertices@)
@proof let vertices
let rows = refs(fs).map_values(|f: &Face| refs(f.vertices@));
assert(vertices@ == want(rows));
lemma_vals_rows(rows);
assert(rows.map_values(|s: Seq<&Vertex>| vals(s)) =~= part_vs(ps));
assert(vertices.len() <= usize::MAX);
lemma_joined_range(ps);
@closure 2
@c_lift brush_moved
@c_caps index_offset: &mut usize = &mut index_offset
@c_params &Face
@c_out y: It<usize>
@c_requires *old(index_offset) + $0.vertices@.len() <= usize::MAX, face_ok(*$0)
@c_ensures y@ =~= shift($0.indices@, *old(index_offset) as int), *final(index_offset) == *old(index_offset) + $0.vertices@.len()
@c_inv vx_src2@ == refs(fs), index_offset == off(part_vs(ps), vx_j2 as int), forall|k: int| 0 <= k < vx_j2 ==> (#[trigger] vx_out2@[k])@ == shift(ps[k].i, off(part_vs(ps), k)),
@proof lift 2 begin
lemma_off(part_vs(ps), vx_j2 as int + 1);
assert(vertices.len() <= usize::MAX);
assert(part_vs(ps)[vx_j2 as int] == ps[vx_j2 as int].v);
assert(face_ok(fs[vx_j2 as int]));
@closure 3
@c_params usize
@c_out y: usize
@c_requires $0 + index_offset <= usize::MAX
@c_ensures y == $0 + index_offset
@proof let indices#2
assert(indices@ == want(shifted(ps)));
@proof tail
if let Some(p) = vertex_predicate { lemma_unique_range(Part { v: joined(ps).v, i: joined(ps).i }, rel_of(*p)); }
@fn get_entity_type
@props S02
@ensures r == type_of(*quarchitect_game_data, *entity),
@closure 0
@c_params &&Def
@c_out y: bool
@c_spec $0.classname@ == classname@
@fn get_entity_component_class
@props S02
@ensures r == component_of(*quarchitect_game_data, *entity),
@closure 0
@c_params &&Def
@c_out y: bool
@c_spec $0.classname@ == classname@
@fn get_entity_property_application_type
@props S02
@ensures r == mode_of(*quarchitect_game_data, *entity),
@closure 0
@c_params &&Def
@c_out y: bool
@c_spec $0.classname@ == classname@
@fn get_entity_properties
@props S03
@ensures
r.0@ == props_of(*forge_game_data, *entity),
props_exact(r.0@, *forge_game_data, *entity),
@proof start
lemma_s03(*forge_game_data, *entity);
@closure 0
@c_params &&ForgeDef
@c_out y: bool
@c_spec (match classname { Some(c) => $0.class_name@ == c@, None => false })
@closure 1
@c_lift add_integer
@c_caps properties: &mut HashMap<String, Property> = &mut properties ;; entity: &Entity
@c_params &str
@c_out y: ()
@c_ensures final(properties)@ == with_int(old(properties)@, *entity, $0@)
@closure 2
@c_params &String
@c_out y: Result<i32, ParseNumError>
@c_ensures (match y { Ok(v) => i_parse($0@) == Some(v), Err(_) => i_parse($0@).is_none() })
@closure 3
@c_lift add_text
@c_caps properties: &mut HashMap<String, Property> = &mut properties ;; entity: &Entity
@c_params &str
@c_out y: ()
@c_ensures final(properties)@ == with_text(old(properties)@, *entity, $0@)
@closure 4
@c_params &String
@c_out y: Result<i32, ParseNumError>
@c_ensures (match y { Ok(v) => i_parse($0@) == Some(v), Err(_) => i_parse($0@).is_none() })
@closure 5
@c_params &String
@c_out y: Result<F32, ParseNumError>
@c_ensures (match y { Ok(v) => f_parse($0@) == Some(v), Err(_) => f_parse($0@).is_none() })
@loop 0
@invariant
vx_it0@ == refs(forge_entity.properties@),
properties@ == declared(*entity, forge_entity.properties@, vx_i0 as int),
@fn parse_vector3_property
@props S03
@ensures r == vector_in(value@),
@fn parse_color_property
@props S03
@ensures r == color_in(value@),
@fn parse_float
@props S03
@ensures
r == (if old(comps)@.len() > 0 { f_parse(old(comps)@[0]@) } else { None }),
final(comps)@ == rest(old(comps)@, 1),
@file scene_tree/predicates/mod.rs
@file scene_tree/predicates/brush.rs
@fn not_blacklisted
@props S05
@rettype impl Fn(&&crate::geo_builder::brush::Geometry) -> bool + 'a
@ensures
forall|b: &&Solid| #[trigger] r.requires((b,)),
forall|b: &&Solid, y: bool| #[trigger] r.ensures((b,), y) ==> y == solid_shown(**b, *texture_blacklist),
@closure 0
@c_params &&Solid
@c_out y: bool
@c_ensures y == solid_shown(**$0, *texture_blacklist)
@loop 0
@invariant
vx_it0@ == refs(brush_geometry.plane_geometry@),
forall|i: int| 0 <= i < vx_i0 ==> !face_shown(#[trigger] brush_geometry.plane_geometry@[i], *texture_blacklist),
@file scene_tree/predicates/plane.rs
@fn has_texture
@props S05
@rettype impl Fn(&&crate::geo_builder::brush_plane::Geometry) -> bool + 'a
@ensures
forall|b: &&Face| #[trigger] r.requires((b,)),
forall|b: &&Face, y: bool| #[trigger] r.ensures((b,), y) ==> y == bearing(*texture)(**b),
@closure 0
@c_params &&Face
@c_out y: bool
@c_ensures y == bearing(*texture)(**$0)
@c_proof
lemma_texture($0.texture, *texture);
@file scene_tree/predicates/texture.rs
@fn unique
@props S05
@rettype impl Fn(&(usize, String)) -> bool + 'a
@ensures
forall|b: &Named| b.0 < usize::MAX ==> #[trigger] r.requires((b,)),
forall|b: &Named, y: bool| #[trigger] r.ensures((b,), y) ==> y == !again(textures@, *b),
@closure 0
@c_params &(usize, String)
@c_out y: bool
@c_requires $0.0 < usize::MAX
@c_ensures y == !again(textures@, *$0)
@c_proof
lemma_again(textures@, *$0);
@closure 1
@c_params &&String
@c_out y: bool
@c_spec $0@ == texture@
@fn not_blacklisted
@props S05
@rettype impl Fn(&(usize, String)) -> bool + 'a
@ensures
forall|b: &Named| #[trigger] r.requires((b,)),
forall|b: &Named, y: bool| #[trigger] r.ensures((b,), y) ==> y == !listed(texture_blacklist.plane@, b.1@),
@closure 0
@c_params &(usize, String)
@c_out y: bool
@c_ensures y == !listed(texture_blacklist.plane@, $0.1@)
@fn unique_not_blacklisted
@props S05
@rettype impl Fn(&(usize, String)) -> bool + 'a
@ensures
forall|b: &Named| b.0 < usize::MAX ==> #[trigger] r.requires((b,)),
forall|b: &Named, y: bool| #[trigger] r.ensures((b,), y) ==> y == takes(textures@, *texture_blacklist)(*b),
@closure 0
@c_params &(usize, String)
@c_out y: bool
@c_requires $0.0 < usize::MAX
@c_ensures y == takes(textures@, *texture_blacklist)(*$0)
@file scene_tree/predicates/vertex.rs
@fn same
@props S04
@ensures r == same_v(*a, *b),
@fn unique
@props S04
@ensures r == none_before(same_eq(), i as int, *vertex, vals(vertices@)),
@proof ghost start
broadcast use g_vals;
@closure 0
@c_params &&Vertex
@c_out y: bool
@c_spec same_v(**$0, *vertex)
@fn unique_position
@props S06
@ensures r == none_before(place_eq(), i as int, *vertex, vals(vertices@)),
@proof ghost start
broadcast use g_vals;
@closure 0
@c_params &&Vertex
@c_out y: bool
@c_spec v_eq($0.vertex, vertex.vertex)
