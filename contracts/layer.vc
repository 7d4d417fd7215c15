@unit layer
@pre core textops stdops iter map float lemmas
@root
/// the classname of an entity
pub open spec fn prop(e: map::quake::types::entity::Entity, k: Seq<char>) -> Option<Seq<char>> {
    if e.properties@.contains_key(k) { Some(e.properties@[k]@) } else { None }
}
pub type Datum = (map::quake::types::entity::Entity, geo_builder::entity::geometry::Geometry);
pub open spec fn is_ws(d: Datum) -> bool { prop(d.0, "classname"@) == Some("worldspawn"@) }
pub open spec fn bears(p: geo_builder::brush_plane::geometry::Geometry, layer: Seq<char>) -> bool {
    p.texture.is_some() && p.texture.unwrap()@ == layer
}
pub open spec fn in_layer(b: geo_builder::brush::geometry::Geometry, layer: Seq<char>) -> bool {
    forall|i: int| 0 <= i < b.plane_geometry@.len() ==> bears(#[trigger] b.plane_geometry@[i], layer)
}
pub open spec fn water(b: geo_builder::brush::geometry::Geometry) -> bool { in_layer(b, "*water0"@) }
pub open spec fn slime(b: geo_builder::brush::geometry::Geometry) -> bool { in_layer(b, "*slime0"@) }
pub open spec fn spawns(d: Seq<Datum>) -> Seq<Datum> { keep(d, |d: Datum| is_ws(d)) }
/// L01: what the entities d become: the one worldspawn first, less its liquid brushes, then the others; and the liquid brushes by layer
pub open spec fn split_is(es: Seq<Datum>, m: Map<Seq<char>, Vec<geo_builder::brush::geometry::Geometry>>, d: Seq<Datum>) -> bool {
    let ws = spawns(d);
    let rest = keep(d, |d: Datum| !is_ws(d));
    let bg = ws[0].1.brush_geometry@;
    &&& ws.len() == 1
    &&& es.len() == 1 + rest.len()
    &&& es[0].0 == ws[0].0
    &&& es[0].1.center == ws[0].1.center
    &&& es.subrange(1, es.len() as int) == rest
    &&& es[0].1.brush_geometry@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b) && !slime(b))
    &&& m.dom() == set!["*water0"@, "*slime0"@]
    &&& m["*water0"@]@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| water(b))
    &&& m["*slime0"@]@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b) && slime(b))
}
@file lib.rs
@types QuarchitectError
@file map/mod.rs
@file map/quake/mod.rs
@file map/quake/types/mod.rs
@file map/quake/types/brush_plane.rs
@types *
@file map/quake/types/brush.rs
@types *
@file map/types/mod.rs
@file map/types/uv.rs
@types *
@file types/color.rs
@types *
@file map/quake/types/entity.rs
@types *
@fn Entity::get_property
@ensures
r.is_some() == prop(*self, name@).is_some(),
r.is_some() ==> r.unwrap()@ == prop(*self, name@).unwrap(),
@file types/vertex.rs
@types *
@file types.rs
@types *
@file geo_builder/mod.rs
@file geo_builder/brush_plane/mod.rs
@file geo_builder/brush_plane/geometry.rs
@types *
@file geo_builder/brush/mod.rs
@file geo_builder/brush/geometry.rs
@types *
@file geo_builder/entity/mod.rs
@file geo_builder/entity/geometry.rs
@types *
@file layer_filter/mod.rs
@fn brush_geometry_by_layer
@rettype impl Fn(&geo_builder::brush::Geometry) -> bool + '_
@ensures
forall|b: &geo_builder::brush::geometry::Geometry| #[trigger] r.requires((b,)),
forall|b: &geo_builder::brush::geometry::Geometry, y: bool| #[trigger] r.ensures((b,), y) ==> y == in_layer(*b, layer@),
@closure 0
@c_params &geo_builder::brush::geometry::Geometry
@c_out y: bool
@c_ensures y == in_layer(*$0, layer@)
@closure 1
@c_params &geo_builder::brush_plane::geometry::Geometry
@c_out z: bool
@c_spec bears(*$0, layer@)
@fn run
@props L01 M04
@ensures
match r {
    Ok(o) => split_is(o.0@, o.1@, entity_data@),
    Err(_) => spawns(entity_data@).len() != 1,
},
@closure 0
@c_params &Datum
@c_out y: bool
@c_spec is_ws(*$0)
@ghost partition 1 Ghost(|b: geo_builder::brush::geometry::Geometry| in_layer(b, layer_texture@))
@proof ghost start
let ghost data0 = entity_data@;
let ghost bg = spawns(data0)[0].1.brush_geometry@;
@loop 0
@invariant
vx_it0@.len() == 2,
vx_it0@[0]@ == "*water0"@,
vx_it0@[1]@ == "*slime0"@,
vx_i0 == 0 ==> worldspawn_brush_geo@ == bg && worldspawn_layers@ == Map::<Seq<char>, Vec<geo_builder::brush::geometry::Geometry>>::empty(),
vx_i0 == 1 ==> worldspawn_brush_geo@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b)) && worldspawn_layers@.dom() == set!["*water0"@]
    && worldspawn_layers@["*water0"@]@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| water(b)),
vx_i0 == 2 ==> worldspawn_brush_geo@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b) && !slime(b)) && worldspawn_layers@.dom() == set!["*water0"@, "*slime0"@]
    && worldspawn_layers@["*water0"@]@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| water(b))
    && worldspawn_layers@["*slime0"@]@ == keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b) && slime(b)),
@proof loop 0 begin
reveal_strlit("*water0");
reveal_strlit("*slime0");
assert("*water0"@[1] != "*slime0"@[1]);
lemma_keep_keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b), |b: geo_builder::brush::geometry::Geometry| !slime(b));
lemma_keep_keep(bg, |b: geo_builder::brush::geometry::Geometry| !water(b), |b: geo_builder::brush::geometry::Geometry| slime(b));
@proof loop 0 end
assert(worldspawn_layers@.dom() =~= (if vx_i0 == 1 { set!["*water0"@] } else { set!["*water0"@, "*slime0"@] }));
@proof tail
assert(vx_tail->Ok_0.0@.subrange(1, vx_tail->Ok_0.0@.len() as int) =~= keep(data0, |d: Datum| !is_ws(d)));
