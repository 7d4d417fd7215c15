@unit lib
@pre core textops stdops iter map float text strs sort lemmas seqops dedup osfile
@import map
@import geo
@import layer
@import scene
@import diff
@root
pub use map::quake::types::entity::Entity;
pub use map::quake::tokenizer::Token;
pub use map::quake::types::brush::Brush;
pub use map::quake::types::brush_plane::BrushPlane;
pub type Shape = geo_builder::entity::geometry::Geometry;
pub type Solid = geo_builder::brush::geometry::Geometry;
pub type Face = geo_builder::brush_plane::geometry::Geometry;
pub type Datum = (Entity, Shape);
pub type Layers = Map<Seq<char>, Vec<Solid>>;
pub type Node = scene_tree::types::scene_tree::SceneTreeNode;
/// the configuration an import runs under
pub ghost struct Setup { pub ti: types::texture::TextureInfo, pub bl: types::texture::TextureBlacklist, pub f: game_data::forge::game_data::GameData, pub g: game_data::types::game_data::GameData }
pub open spec fn setup_of(c: Config) -> Setup { Setup { ti: c.texture_info, bl: c.texture_blacklist, f: c.forge_game_data, g: c.quarchitect_game_data } }
pub open spec fn world(c: Setup, es: Seq<Datum>) -> spec_scene::World { spec_scene::World { g: c.g, f: c.f, bl: c.bl, es } }
pub use spec_map::toks_are;
pub use spec_diff::is_diff;
/// the diff of two texts has been printed
pub open spec fn diff_shown(ta: Seq<char>, tb: Seq<char>) -> bool {
    exists|d: map::quake::tokenizer::Diff, a: Seq<Token>, b: Seq<Token>| #[trigger] is_diff(d, a, b) && printed(d) && toks_are(a, ta) && toks_are(b, tb)
}
/// G01 to G06
pub open spec fn shapes_are(gs: Seq<Shape>, ti: types::texture::TextureInfo, es: Seq<Entity>) -> bool {
    gs.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> spec_geo::shape_is(#[trigger] gs[i], ti, es[i])
}
pub open spec fn couple(es: Seq<Entity>, gs: Seq<Shape>) -> Seq<Datum> { Seq::new(es.len(), |i: int| (es[i], gs[i])) }
/// the entities that a text holds, with their geometry
pub open spec fn data_are(d: Seq<Datum>, ts: Seq<Token>, es: Seq<Entity>, gs: Seq<Shape>, text: Seq<char>, c: Setup) -> bool {
    &&& toks_are(ts, text)
    &&& spec_map::parsed(ts).is_some()
    &&& spec_map::ents_are(es, spec_map::parsed(ts).unwrap().ents)
    &&& shapes_are(gs, c.ti, es)
    &&& d == couple(es, gs)
}
pub open spec fn data_of(d: Seq<Datum>, text: Seq<char>, c: Setup) -> bool { exists|ts: Seq<Token>, es: Seq<Entity>, gs: Seq<Shape>| #[trigger] data_are(d, ts, es, gs, text, c) }
/// what an import of a text gives
pub open spec fn tree_of(r: Seq<Node>, d: Seq<Datum>, es: Seq<Datum>, m: Layers, text: Seq<char>, c: Setup) -> bool {
    &&& data_of(d, text, c)
    &&& spec_layer::split_is(es, m, d)
    &&& spec_scene::tree_is(r, world(c, es), m)
}
pub open spec fn built(r: Seq<Node>, text: Seq<char>, c: Setup) -> bool { exists|d: Seq<Datum>, es: Seq<Datum>, m: Layers| #[trigger] tree_of(r, d, es, m, text, c) }
/// the text is faulty, or has not exactly one worldspawn
pub open spec fn refused(text: Seq<char>, c: Setup) -> bool {
    ||| exists|ts: Seq<Token>| #[trigger] toks_are(ts, text) && spec_map::parsed(ts).is_none()
    ||| exists|d: Seq<Datum>| #[trigger] data_of(d, text, c) && spec_layer::spawns(d).len() != 1
}
// ------------------------------------------------------------------ what the stages guarantee to the next
proof fn lemma_kept<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < keep(s, p).len() ==> s.contains(#[trigger] keep(s, p)[i]) && p(keep(s, p)[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_kept(s.drop_last(), p);
        let k = keep(s, p);
        assert forall|i: int| 0 <= i < k.len() implies s.contains(#[trigger] k[i]) && p(k[i]) by {
            if p(s.last()) && i == k.len() - 1 { assert(k[i] == s[s.len() - 1]); } else {
                let d = keep(s.drop_last(), p);
                assert(k[i] == d[i]);
                let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == d[i];
                assert(s[j] == d[i]);
            }
        }
    }
}
pub open spec fn all_ok(d: Seq<Datum>) -> bool { forall|i: int| 0 <= i < d.len() ==> spec_scene::shape_ok((#[trigger] d[i]).1) }
/// every index of a built shape refers to a vertex
pub proof fn lemma_built_ok(g: Shape, ti: types::texture::TextureInfo, e: Entity)
    requires spec_geo::shape_is(g, ti, e)
    ensures spec_scene::shape_ok(g)
{
    assert forall|i: int| 0 <= i < g.brush_geometry@.len() implies spec_scene::solid_ok(#[trigger] g.brush_geometry@[i]) by {
        let b = g.brush_geometry@[i];
        assert(spec_geo::solid_is(b, ti, e, e.brushes@[i]));
        assert forall|j: int| 0 <= j < b.plane_geometry@.len() implies spec_scene::face_ok(#[trigger] b.plane_geometry@[j]) by {
            let f = b.plane_geometry@[j];
            assert(spec_geo::face_is(f, ti, e, e.brushes@[i].planes@, e.brushes@[i].planes@[j]));
            assert(f.vertices.len() <= usize::MAX);
            spec_geo::lemma_g02_fan(f.vertices@.len() as int);
            reveal(spec_geo::fan_exact);
            assert forall|k: int| 0 <= k < f.indices@.len() implies 0 <= #[trigger] f.indices@[k] < f.vertices@.len() by {}
        }
    }
}
pub proof fn lemma_data_ok(gs: Seq<Shape>, ti: types::texture::TextureInfo, es: Seq<Entity>)
    requires shapes_are(gs, ti, es)
    ensures all_ok(couple(es, gs))
{
    assert forall|i: int| 0 <= i < couple(es, gs).len() implies spec_scene::shape_ok((#[trigger] couple(es, gs)[i]).1) by {
        lemma_built_ok(gs[i], ti, es[i]);
    }
}
proof fn lemma_part_ok(bs: Seq<Solid>, g: Shape, p: spec_fn(Solid) -> bool)
    requires spec_scene::shape_ok(g), bs == keep(g.brush_geometry@, p)
    ensures spec_scene::solids_ok(bs)
{
    lemma_kept(g.brush_geometry@, p);
    assert forall|i: int| 0 <= i < bs.len() implies spec_scene::solid_ok(#[trigger] bs[i]) by {
        let j = choose|j: int| 0 <= j < g.brush_geometry@.len() && g.brush_geometry@[j] == bs[i];
        assert(spec_scene::solid_ok(g.brush_geometry@[j]));
    }
}
pub proof fn lemma_split_ok(es: Seq<Datum>, m: Layers, d: Seq<Datum>)
    requires all_ok(d), spec_layer::split_is(es, m, d)
    ensures all_ok(es), spec_scene::layers_ok(m)
{
    let ws = spec_layer::spawns(d);
    let isw = |d: Datum| spec_layer::is_ws(d);
    let not = |d: Datum| !spec_layer::is_ws(d);
    lemma_kept(d, isw);
    lemma_kept(d, not);
    let j = choose|j: int| 0 <= j < d.len() && d[j] == ws[0];
    assert(spec_scene::shape_ok(d[j].1));
    let g = ws[0].1;
    lemma_part_ok(es[0].1.brush_geometry@, g, |b: Solid| !spec_layer::water(b) && !spec_layer::slime(b));
    lemma_part_ok(m["*water0"@]@, g, |b: Solid| spec_layer::water(b));
    lemma_part_ok(m["*slime0"@]@, g, |b: Solid| !spec_layer::water(b) && spec_layer::slime(b));
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies spec_scene::solids_ok(m[k]@) by { assert(m.dom().contains(k)); }
    assert forall|i: int| 0 <= i < es.len() implies spec_scene::shape_ok((#[trigger] es[i]).1) by {
        if i == 0 {
            assert(spec_scene::solids_ok(es[0].1.brush_geometry@));
        } else {
            assert(es[i] == es.subrange(1, es.len() as int)[i - 1]);
            let k = choose|k: int| 0 <= k < d.len() && d[k] == es[i];
            assert(spec_scene::shape_ok(d[k].1));
        }
    }
}
// ------------------------------------------------------------------ S08: every stage's result is determined by what goes into it
proof fn same_vec<T>(a: Vec<T>, b: Vec<T>) requires a@ == b@ ensures a == b { broadcast use ax_vec_of; assert(vec_of(a@) == a && vec_of(b@) == b); }
proof fn same_text(a: String, b: String) requires a@ == b@ ensures a == b { broadcast use ax_string_of; assert(string_of(a@) == a && string_of(b@) == b); }
proof fn lemma_tok(a: Token, b: Token, l: Seq<char>)
    requires spec_map::tok_is(a, l), spec_map::tok_is(b, l)
    ensures a == b
{
    match (a, b) {
        (Token::Comment(x), Token::Comment(y)) => same_text(x, y),
        (Token::BrushPlane(x), Token::BrushPlane(y)) => same_text(x, y),
        (Token::Unrecognized(x), Token::Unrecognized(y)) => same_text(x, y),
        (Token::Property(x), Token::Property(y)) => { same_text(x.key, y.key); same_text(x.value, y.value); },
        _ => {},
    }
}
proof fn lemma_toks(a: Seq<Token>, b: Seq<Token>, text: Seq<char>)
    requires toks_are(a, text), toks_are(b, text)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { lemma_tok(a[i], b[i], lines_of(text)[i]); }
    assert(a =~= b);
}
proof fn lemma_plane(a: BrushPlane, b: BrushPlane, l: Seq<char>)
    requires spec_map::plane_is(a, l), spec_map::plane_is(b, l)
    ensures a == b
{
    same_text(a.texture, b.texture);
}
proof fn lemma_brush(a: Brush, b: Brush, s: Seq<Seq<char>>)
    requires spec_map::brush_is(a, s), spec_map::brush_is(b, s)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.planes@.len() implies a.planes@[i] == b.planes@[i] by { lemma_plane(a.planes@[i], b.planes@[i], s[i]); }
    assert(a.planes@ =~= b.planes@);
    same_vec(a.planes, b.planes);
}
proof fn lemma_ent(a: Entity, b: Entity, s: spec_map::EnS)
    requires spec_map::ent_is(a, s), spec_map::ent_is(b, s)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.brushes@.len() implies a.brushes@[i] == b.brushes@[i] by { lemma_brush(a.brushes@[i], b.brushes@[i], s.brushes[i]); }
    assert(a.brushes@ =~= b.brushes@);
    same_vec(a.brushes, b.brushes);
    assert forall|k: Seq<char>| a.properties@.contains_key(k) implies a.properties@[k] == b.properties@[k] by {
        assert(b.properties@.contains_key(k));
        same_text(a.properties@[k], b.properties@[k]);
    }
    assert(a.properties@ =~= b.properties@);
    assert(hash_of::<String, String>(a.properties@) == a.properties);
    assert(hash_of::<String, String>(b.properties@) == b.properties);
}
proof fn lemma_ents(a: Seq<Entity>, b: Seq<Entity>, s: Seq<spec_map::EnS>)
    requires spec_map::ents_are(a, s), spec_map::ents_are(b, s)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { lemma_ent(a[i], b[i], s[i]); }
    assert(a =~= b);
}
proof fn lemma_face(a: Face, b: Face, ti: types::texture::TextureInfo, e: Entity, ps: Seq<BrushPlane>, p: BrushPlane)
    requires spec_geo::face_is(a, ti, e, ps, p), spec_geo::face_is(b, ti, e, ps, p)
    ensures a == b
{
    same_vec(a.vertices, b.vertices);
    same_vec(a.indices, b.indices);
}
proof fn lemma_solid(a: Solid, b: Solid, ti: types::texture::TextureInfo, e: Entity, br: Brush)
    requires spec_geo::solid_is(a, ti, e, br), spec_geo::solid_is(b, ti, e, br)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.plane_geometry@.len() implies a.plane_geometry@[i] == b.plane_geometry@[i] by { lemma_face(a.plane_geometry@[i], b.plane_geometry@[i], ti, e, br.planes@, br.planes@[i]); }
    assert(a.plane_geometry@ =~= b.plane_geometry@);
    same_vec(a.plane_geometry, b.plane_geometry);
}
proof fn lemma_shape(a: Shape, b: Shape, ti: types::texture::TextureInfo, e: Entity)
    requires spec_geo::shape_is(a, ti, e), spec_geo::shape_is(b, ti, e)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.brush_geometry@.len() implies a.brush_geometry@[i] == b.brush_geometry@[i] by { lemma_solid(a.brush_geometry@[i], b.brush_geometry@[i], ti, e, e.brushes@[i]); }
    assert(a.brush_geometry@ =~= b.brush_geometry@);
    same_vec(a.brush_geometry, b.brush_geometry);
}
proof fn lemma_shapes(a: Seq<Shape>, b: Seq<Shape>, ti: types::texture::TextureInfo, es: Seq<Entity>)
    requires shapes_are(a, ti, es), shapes_are(b, ti, es)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { lemma_shape(a[i], b[i], ti, es[i]); }
    assert(a =~= b);
}
pub proof fn lemma_data(a: Seq<Datum>, b: Seq<Datum>, text: Seq<char>, c: Setup)
    requires data_of(a, text, c), data_of(b, text, c)
    ensures a == b
{
    hide(spec_map::parsed); hide(spec_map::ents_are); hide(spec_map::tok_is); hide(spec_geo::shape_is);
    let (ts, es, gs) = choose|ts: Seq<Token>, es: Seq<Entity>, gs: Seq<Shape>| data_are(a, ts, es, gs, text, c);
    let (ts2, es2, gs2) = choose|ts: Seq<Token>, es: Seq<Entity>, gs: Seq<Shape>| data_are(b, ts, es, gs, text, c);
    lemma_toks(ts, ts2, text);
    lemma_ents(es, es2, spec_map::parsed(ts).unwrap().ents);
    lemma_shapes(gs, gs2, c.ti, es);
}
pub proof fn lemma_split(e1: Seq<Datum>, m1: Layers, e2: Seq<Datum>, m2: Layers, d: Seq<Datum>)
    requires spec_layer::split_is(e1, m1, d), spec_layer::split_is(e2, m2, d)
    ensures e1 == e2, m1 == m2
{
    same_vec(e1[0].1.brush_geometry, e2[0].1.brush_geometry);
    same_vec(m1["*water0"@], m2["*water0"@]);
    same_vec(m1["*slime0"@], m2["*slime0"@]);
    assert(m1 =~= m2);
    let n = e1.len() as int;
    assert forall|i: int| 0 <= i < n implies e1[i] == e2[i] by {
        if i > 0 { assert(e1[i] == e1.subrange(1, n)[i - 1]); assert(e2[i] == e2.subrange(1, n)[i - 1]); }
    }
    assert(e1 =~= e2);
}
/// S08: what a text and a configuration build is one tree, or none
pub proof fn lemma_s08_whole(text: Seq<char>, c: Setup)
    ensures
        forall|a: Seq<Node>, b: Seq<Node>| built(a, text, c) && built(b, text, c) ==> a == b,
        forall|a: Seq<Node>| built(a, text, c) ==> !refused(text, c),
{
    hide(spec_map::parsed); hide(spec_map::ents_are); hide(spec_map::tok_is); hide(spec_geo::shape_is); hide(spec_scene::tree_is);
    assert forall|a: Seq<Node>, b: Seq<Node>| built(a, text, c) && built(b, text, c) implies a == b by {
        let (d, es, m) = choose|d: Seq<Datum>, es: Seq<Datum>, m: Layers| tree_of(a, d, es, m, text, c);
        let (d2, es2, m2) = choose|d: Seq<Datum>, es: Seq<Datum>, m: Layers| tree_of(b, d, es, m, text, c);
        lemma_data(d, d2, text, c);
        lemma_split(es, m, es2, m2, d);
        spec_scene::lemma_s08(a, b, world(c, es), m);
    }
    assert forall|a: Seq<Node>| built(a, text, c) implies !refused(text, c) by {
        let (d, es, m) = choose|d: Seq<Datum>, es: Seq<Datum>, m: Layers| tree_of(a, d, es, m, text, c);
        let (ts, e, g) = choose|ts: Seq<Token>, es: Seq<Entity>, gs: Seq<Shape>| data_are(d, ts, es, gs, text, c);
        assert forall|t: Seq<Token>| #[trigger] toks_are(t, text) implies t == ts by { lemma_toks(t, ts, text); }
        assert forall|x: Seq<Datum>| #[trigger] data_of(x, text, c) implies x == d by { lemma_data(x, d, text, c); }
    }
}
@file lib.rs
@types Config QuarchitectError
@raw
pub mod fs { pub use crate::pre::read_to_string; }
@fn Config::new
@props M04 S01 S08
@ensures r.map_file@ == map_file@, r.texture_info == texture_info, r.texture_blacklist == texture_blacklist, r.forge_game_data == forge_game_data, r.quarchitect_game_data == quarchitect_game_data,
@fn run
@props M04 S01 S08
@rettype Result<Vec<crate::scene_tree::types::scene_tree::SceneTreeNode>, crate::pre::BoxErr>
@ensures
match r {
    Ok(t) => file_text(config.map_file@).is_some() && built(t@, file_text(config.map_file@).unwrap(), setup_of(config)),
    Err(_) => match file_text(config.map_file@) { Some(t) => refused(t, setup_of(config)), None => true },
},
@proof ghost start
hide(spec_geo::shape_is);
hide(spec_scene::tree_is);
hide(spec_scene::layers_exact);
hide(spec_scene::layers_ok);
hide(spec_scene::shape_ok);
hide(spec_layer::split_is);
hide(spec_layer::spawns);
hide(spec_map::ents_are);
hide(spec_map::parsed);
hide(spec_map::tok_is);
let ghost c = setup_of(config);
let ghost path = config.map_file@;
@proof ghost let file_string
let ghost text = file_string@;
@proof let tokens
assert(toks_are(tokens@, text));
@proof let entity_geometry
assert(shapes_are(entity_geometry@, c.ti, entities@));
lemma_data_ok(entity_geometry@, c.ti, entities@);
@proof ghost let entity_geometry
let ghost es = entities@;
let ghost gs = entity_geometry@;
@proof ghost let entity_data
let ghost d = entity_data@;
@proof let entity_data
assert(d =~= couple(es, gs));
assert(data_are(d, tokens@, es, gs, text, c));
assert(data_of(d, text, c));
@proof letbefore scene_tree
lemma_split_ok(entity_data@, worldspawn_layer_data@, d);
@proof let scene_tree
assert(tree_of(scene_tree@, d, entity_data@, worldspawn_layer_data@, text, c));
@fn run_diff
@props M05
@rettype Result<(), crate::pre::BoxErr>
@shows
@ensures
r.is_ok() <==> file_text(file_a@).is_some() && file_text(file_b@).is_some(),
r.is_ok() ==> diff_shown(file_text(file_a@).unwrap(), file_text(file_b@).unwrap()),
@proof start
assert forall|t: Seq<char>| #[trigger] lines_of(t).len() <= t.len() + 1 by { lemma_lines_len(t); }
@file types.rs
@types *
@file types/color.rs
@types *
@deriveeq Color
@file types/texture.rs
@types *
@file types/vertex.rs
@types *
@file map/mod.rs
@file map/types/mod.rs
@file map/types/uv.rs
@types *
@file map/quake/mod.rs
@file map/quake/types/mod.rs
@file map/quake/types/brush.rs
@types *
@file map/quake/types/brush_plane.rs
@types *
@file map/quake/types/entity.rs
@types *
@file geo_builder/mod.rs
@from geo run
@file geo_builder/entity/mod.rs
@file geo_builder/entity/geometry.rs
@types *
@file geo_builder/brush/mod.rs
@file geo_builder/brush/geometry.rs
@types *
@file geo_builder/brush_plane/mod.rs
@file geo_builder/brush_plane/geometry.rs
@types *
@file game_data/mod.rs
@file game_data/types/mod.rs
@file game_data/types/brush_data.rs
@types *
@file game_data/types/collision_type.rs
@types *
@file game_data/types/component_type.rs
@types *
@file game_data/types/entity.rs
@types *
@file game_data/types/entity_type.rs
@types *
@file game_data/types/game_data.rs
@types *
@file game_data/types/point_data.rs
@types *
@file game_data/types/properties.rs
@types *
@file game_data/types/visual_type.rs
@types *
@file game_data/types/worldspawn_layer.rs
@types *
@file game_data/forge/mod.rs
@file game_data/forge/choice.rs
@types *
@file game_data/forge/metadata.rs
@types *
@file game_data/forge/property.rs
@types *
@file game_data/forge/entity.rs
@types *
@file game_data/forge/game_data.rs
@types *
@file scene_tree/types.rs
@file scene_tree/types/collision_geometry.rs
@types *
@file scene_tree/types/visual_geometry.rs
@types *
@file scene_tree/types/actor.rs
@types *
@file scene_tree/types/scene_tree.rs
@types *
@file map/quake/tokenizer.rs
@types Token Property Diff
@deriveeq Token
@raw
impl VxKey for Token { type KV = Token; open spec fn kv(&self) -> Token { *self } }
@from map run
@from diff diff_tokens
@file map/quake/parser.rs
@types *
@from map run
@file layer_filter/mod.rs
@from layer run
@file scene_tree/mod.rs
@from scene run
