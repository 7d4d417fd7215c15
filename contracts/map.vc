@unit map
@pre core textops stdops iter map float strs
@root
use map::quake::tokenizer::Token;
use map::quake::types::entity::Entity;
use map::quake::types::brush::Brush;
use map::quake::types::brush_plane::*;
use map::types::uv::UV;

// ------------------------------------------------------------------ M01
pub open spec fn key_of(line: Seq<char>) -> Option<Seq<char>> {
    let p = split_on(line, '"');
    if p.len() > 1 { Some(p[1]) } else { None }
}
pub open spec fn value_of(line: Seq<char>) -> Option<Seq<char>> {
    let p = split_on(line, '"');
    if p.len() > 3 { Some(p[3]) } else { None }
}
/// t is the token a line stands for
pub open spec fn toks_are(ts: Seq<Token>, text: Seq<char>) -> bool {
    ts.len() == lines_of(text).len() && forall|i: int| 0 <= i < ts.len() ==> tok_is(#[trigger] ts[i], lines_of(text)[i])
}
pub open spec fn tok_is(t: Token, line: Seq<char>) -> bool {
    let quoted = line.len() > 0 && line[0] == '"' && key_of(line).is_some() && value_of(line).is_some();
    if line.len() == 0 { t matches Token::Unrecognized(s) && s@ == line }
    else if line[0] == '/' { t matches Token::Comment(s) && s@ == line }
    else if line[0] == '{' { t is OpenBrace }
    else if line[0] == '}' { t is CloseBrace }
    else if line[0] == '(' { t matches Token::BrushPlane(s) && s@ == line }
    else if quoted { t matches Token::Property(p) && p.key@ == key_of(line).unwrap() && p.value@ == value_of(line).unwrap() }
    else { t matches Token::Unrecognized(s) && s@ == line }
}
// ------------------------------------------------------------------ M03
pub open spec fn num(w: Seq<Seq<char>>, i: int) -> Option<F32> { if 0 <= i < w.len() { f_parse(w[i]) } else { None } }
pub open spec fn int_at(w: Seq<Seq<char>>, i: int) -> Option<i32> { if 0 <= i < w.len() { i_parse(w[i]) } else { None } }
pub open spec fn p3(w: Seq<Seq<char>>, i: int) -> Option<Vec3> {
    if num(w, i).is_some() && num(w, i + 1).is_some() && num(w, i + 2).is_some() { Some(v3(num(w, i).unwrap(), num(w, i + 1).unwrap(), num(w, i + 2).unwrap())) } else { None }
}
/// the first four words after the texture tell standard from Valve
pub open spec fn standard(w: Seq<Seq<char>>) -> bool { num(w, 16).is_some() }
/// index of the rotation
pub open spec fn rot_at(w: Seq<Seq<char>>) -> int { if standard(w) { 18 } else { 28 } }
pub open spec fn trailing(w: Seq<Seq<char>>) -> int { w.len() - (rot_at(w) + 3) }
pub open spec fn surface_ok(w: Seq<Seq<char>>, k: int) -> bool { int_at(w, k).is_some() && int_at(w, k + 1).is_some() && num(w, k + 2).is_some() }
pub open spec fn surface_is(s: SurfaceData, w: Seq<Seq<char>>, k: int) -> bool {
    Some(s.surface_contents) == int_at(w, k) && Some(s.surface_flags) == int_at(w, k + 1) && Some(s.surface_value) == num(w, k + 2)
}
pub open spec fn extra_ok(w: Seq<Seq<char>>, k: int) -> bool {
    let n = w.len() - k;
    if n == 0 { true } else if n == 1 { num(w, k).is_some() } else if n == 3 { surface_ok(w, k) }
    else if n == 6 { surface_ok(w, k) && p3(w, k + 3).is_some() } else { false }
}
pub open spec fn extra_is(e: ExtraData, w: Seq<Seq<char>>, k: int) -> bool {
    let n = w.len() - k;
    if n == 0 { e is None }
    else if n == 1 { e matches ExtraData::Hexen2(x) && Some(x) == num(w, k) }
    else if n == 3 { e matches ExtraData::Quake2(s) && surface_is(s, w, k) }
    else { n == 6 && (e matches ExtraData::Daikatana(s, c) && surface_is(s, w, k) && Some(c.r) == num(w, k + 3) && Some(c.g) == num(w, k + 4) && Some(c.b) == num(w, k + 5)) }
}
pub open spec fn words_ok(w: Seq<Seq<char>>) -> bool {
    &&& p3(w, 1).is_some() && p3(w, 6).is_some() && p3(w, 11).is_some()
    &&& w.len() > 16
    &&& standard(w) ==> num(w, 17).is_some()
    &&& !standard(w) ==> p3(w, 17).is_some() && num(w, 20).is_some() && p3(w, 23).is_some() && num(w, 26).is_some()
    &&& p3(w, rot_at(w)).is_some()
    &&& extra_ok(w, rot_at(w) + 3)
}
pub open spec fn words_are(p: BrushPlane, w: Seq<Seq<char>>) -> bool {
    &&& Some(p.v0) == p3(w, 1)
    &&& Some(p.v1) == p3(w, 6)
    &&& Some(p.v2) == p3(w, 11)
    &&& p.texture@ == lower(w[15])
    &&& standard(w) ==> (p.uv matches UV::Quake(q) && Some(q.u) == num(w, 16) && Some(q.v) == num(w, 17))
    &&& !standard(w) ==> (p.uv matches UV::Valve(q) && Some(q.u_axis) == p3(w, 17) && Some(q.u_offset) == num(w, 20) && Some(q.v_axis) == p3(w, 23) && Some(q.v_offset) == num(w, 26))
    &&& Some(p.rotation) == num(w, rot_at(w))
    &&& Some(p.scale.cx) == num(w, rot_at(w) + 1) && Some(p.scale.cy) == num(w, rot_at(w) + 2)
    &&& extra_is(p.extra, w, rot_at(w) + 3)
}
pub open spec fn plane_ok(line: Seq<char>) -> bool { words_ok(words_of(line)) }
pub open spec fn plane_is(p: BrushPlane, line: Seq<char>) -> bool { words_are(p, words_of(line)) }
// ------------------------------------------------------------------ M02
pub enum Sc { File, Ent, Br }
pub struct EnS { pub props: Map<Seq<char>, Seq<char>>, pub brushes: Seq<Seq<Seq<char>>> }
pub struct St { pub sc: Sc, pub ents: Seq<EnS> }
pub open spec fn on_last<T>(s: Seq<T>, f: spec_fn(T) -> T) -> Seq<T> { s.drop_last().push(f(s.last())) }
/// None: this token is a fault in this scope
pub open spec fn step(st: St, t: Token) -> Option<St> {
    match t {
        Token::OpenBrace => match st.sc {
            Sc::File => Some(St { sc: Sc::Ent, ents: st.ents.push(EnS { props: Map::empty(), brushes: Seq::empty() }) }),
            Sc::Ent => Some(St { sc: Sc::Br, ents: on_last(st.ents, |e: EnS| EnS { brushes: e.brushes.push(Seq::empty()), ..e }) }),
            Sc::Br => None,
        },
        Token::CloseBrace => match st.sc { Sc::File => None, Sc::Ent => Some(St { sc: Sc::File, ..st }), Sc::Br => Some(St { sc: Sc::Ent, ..st }) },
        Token::Property(p) => match st.sc {
            Sc::Ent => Some(St { ents: on_last(st.ents, |e: EnS| EnS { props: e.props.insert(p.key@, p.value@), ..e }), ..st }),
            _ => None,
        },
        Token::BrushPlane(l) => match st.sc {
            Sc::Br => if plane_ok(l@) { Some(St { ents: on_last(st.ents, |e: EnS| EnS { brushes: on_last(e.brushes, |b: Seq<Seq<char>>| b.push(l@)), ..e }), ..st }) } else { None },
            _ => None,
        },
        Token::Comment(_) => Some(st),
        Token::Unrecognized(_) => Some(st),
    }
}
pub open spec fn parsed(ts: Seq<Token>) -> Option<St> decreases ts.len() {
    if ts.len() == 0 { Some(St { sc: Sc::File, ents: Seq::empty() }) } else {
        match parsed(ts.drop_last()) { None => None, Some(st) => step(st, ts.last()) }
    }
}
pub proof fn lemma_fault_stays(ts: Seq<Token>, i: int)
    requires 0 <= i <= ts.len(), parsed(ts.take(i)).is_none()
    ensures parsed(ts).is_none()
    decreases ts.len()
{
    if i == ts.len() { assert(ts.take(i) =~= ts); }
    else { assert(ts.drop_last().take(i) =~= ts.take(i)); lemma_fault_stays(ts.drop_last(), i); }
}
pub open spec fn brush_is(b: Brush, s: Seq<Seq<char>>) -> bool {
    b.planes@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> plane_is(#[trigger] b.planes@[i], s[i])
}
pub open spec fn ent_is(e: Entity, s: EnS) -> bool {
    &&& e.properties@.dom() == s.props.dom()
    &&& forall|k: Seq<char>| #[trigger] e.properties@.contains_key(k) ==> e.properties@[k]@ == s.props[k]
    &&& e.brushes@.len() == s.brushes.len()
    &&& forall|i: int| 0 <= i < s.brushes.len() ==> brush_is(#[trigger] e.brushes@[i], s.brushes[i])
}
pub open spec fn ents_are(es: Seq<Entity>, s: Seq<EnS>) -> bool {
    es.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> ent_is(#[trigger] es[i], s[i])
}
@file lib.rs
@types QuarchitectError
@file types/color.rs
@types *
@fn Color::new
@ret c
@ensures c.r == r, c.g == g, c.b == b,
@file types.rs
@types *
@file map/mod.rs
@file map/types/mod.rs
@file map/types/uv.rs
@types *
@fn UV::standard
@ensures r matches UV::Quake(q) && q.u == u && q.v == v,
@fn UV::valve
@ensures r matches UV::Valve(q) && q.u_axis == u_axis && q.u_offset == u_offset && q.v_axis == v_axis && q.v_offset == v_offset,
@fn QuakeUV::new
@ensures r.u == u, r.v == v,
@fn ValveUV::new
@ensures r.u_axis == u_axis, r.u_offset == u_offset, r.v_axis == v_axis, r.v_offset == v_offset,
@file map/quake/mod.rs
@file map/quake/types/mod.rs
@file map/quake/types/brush.rs
@types *
@fn Brush::new
@ensures r.planes@.len() == 0,
@file map/quake/types/entity.rs
@types *
@fn Entity::new
@ensures
r.properties@ == Map::<Seq<char>, String>::empty(),
r.brushes@.len() == 0,
@file map/quake/types/brush_plane.rs
@types *
@fn SurfaceData::new
@ensures r.surface_contents == surface_contents, r.surface_flags == surface_flags, r.surface_value == surface_value,
@fn ExtraData::hexen_2
@requires comps@.len() >= 1,
@ensures
match r {
    Ok(e) => e matches ExtraData::Hexen2(x) && Some(x) == num(texts(comps@), 0),
    Err(_) => num(texts(comps@), 0).is_none(),
},
@fn ExtraData::quake_2
@requires comps@.len() >= 3,
@ensures
match r {
    Ok(e) => e matches ExtraData::Quake2(s) && surface_is(s, texts(comps@), 0),
    Err(_) => !surface_ok(texts(comps@), 0),
},
@fn ExtraData::daikatana
@requires comps@.len() >= 6,
@ensures
match r {
    Ok(e) => e matches ExtraData::Daikatana(s, c) && surface_is(s, texts(comps@), 0) && Some(c.r) == num(texts(comps@), 3) && Some(c.g) == num(texts(comps@), 4) && Some(c.b) == num(texts(comps@), 5),
    Err(_) => !(surface_ok(texts(comps@), 0) && p3(texts(comps@), 3).is_some()),
},
@fn next_comp
@ensures
match r {
    Ok(w) => old(comps)@.len() > 0 && w == old(comps)@[0] && final(comps)@ == rest(old(comps)@, 1),
    Err(_) => old(comps)@.len() == 0,
},
@fn parse_number
@ensures
match r {
    Ok(x) => old(comps)@.len() > 0 && Some(x) == f_parse(old(comps)@[0]@) && final(comps)@ == rest(old(comps)@, 1),
    Err(_) => old(comps)@.len() == 0 || f_parse(old(comps)@[0]@).is_none(),
},
@fn BrushPlane::new
@props M03 M04
@ensures
match r {
    Ok(p) => plane_ok(source@) && plane_is(p, source@),
    Err(_) => !plane_ok(source@),
},
@proof ghost let comps
let ghost w0: Seq<&str> = comps@;
let ghost all: Seq<Seq<char>> = texts(w0);
@loop 0
@invariant
comps@ == rest(w0, 5 * (i as int)),
i >= 1 ==> Some(v0) == p3(all, 1),
i >= 2 ==> Some(v1) == p3(all, 6),
i >= 3 ==> Some(v2) == p3(all, 11),
@file map/quake/tokenizer.rs
@types Token Property
@raw
impl VxKey for Token { type KV = Token; open spec fn kv(&self) -> Token { *self } }
@fn Token::comment
@ensures r matches Token::Comment(s) && s@ == string@,
@fn Token::property
@ensures r matches Token::Property(p) && p.key@ == key@ && p.value@ == value@,
@fn Token::brush_plane
@ensures r matches Token::BrushPlane(s) && s@ == string@,
@fn Token::unrecognized
@ensures r matches Token::Unrecognized(s) && s@ == string@,
@fn Property::new
@ensures r.key@ == key@, r.value@ == value@,
@fn run
@props M01 M04
@ensures
toks_are(r@, file_string@),
@closure 0
@c_params &str
@c_out y: Token
@c_ensures tok_is(y, $0@)
@file map/quake/parser.rs
@types *
@fn EntityPath::new
@ensures r.entity_idx == entity_idx,
@fn PropertyPath::new
@ensures r.entity_idx == entity_idx, r.property_name == property_name,
@fn BrushPath::new
@ensures r.entity_idx == entity_idx, r.brush_idx == brush_idx,
@fn BrushPlanePath::new
@ensures r.entity_idx == entity_idx, r.brush_idx == brush_idx, r.plane_idx == plane_idx,
@fn ParseScope::file
@ensures r is File,
@fn ParseScope::entity
@ensures r matches ParseScope::Entity(p) && p.entity_idx == entity_idx,
@fn ParseScope::brush
@ensures r matches ParseScope::Brush(p) && p.entity_idx == entity_idx && p.brush_idx == brush_idx,
@fn TokenPath::entity
@fn TokenPath::property
@fn TokenPath::brush
@fn TokenPath::brush_plane
@fn run
@props M02 M04
@ensures
match r {
    Ok(o) => parsed(tokens@).is_some() && ents_are(o.1@, parsed(tokens@).unwrap().ents),
    Err(_) => parsed(tokens@).is_none(),
},
@loop 0
@invariant
vx_it0@ == refs::<Token>(tokens@),
parsed(tokens@.take(vx_i0 as int)).is_some(),
ents_are(entities@, parsed(tokens@.take(vx_i0 as int)).unwrap().ents),
match parsed(tokens@.take(vx_i0 as int)).unwrap().sc {
    Sc::File => scope is File,
    Sc::Ent => scope is Entity && entities@.len() > 0,
    Sc::Br => scope is Brush && entities@.len() > 0 && entities@.last().brushes@.len() > 0,
},
@proof loop 0 begin
assert(tokens@.take(vx_i0 as int + 1).drop_last() =~= tokens@.take(vx_i0 as int));
assert(tokens@.take(vx_i0 as int + 1).last() == tokens@[vx_i0 as int]);
if parsed(tokens@.take(vx_i0 as int + 1)).is_none() { lemma_fault_stays(tokens@, vx_i0 as int + 1); }
@proof loop 0 post
assert(tokens@.take(tokens@.len() as int) =~= tokens@);
