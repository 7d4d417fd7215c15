mod common;
use common::*;
use quarchitect::game_data::forge;
use quarchitect::game_data::{
    CollisionType, ComponentType, Entity as Def, EntityType, GameData, Properties, Property, PropertyApplicationType, VisualType, WorldspawnLayer,
};
use quarchitect::geo_builder::{brush, brush_plane, entity};
use quarchitect::map::quake::{Brush, BrushPlane, Entity, ExtraData};
use quarchitect::map::UV;
use quarchitect::scene_tree::{self, Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry};
use quarchitect::{layer_filter, Color, TextureBlacklist, Vector2, Vector3, Vertex};
use std::collections::BTreeMap;

fn main() {
    main_with(&[
        ("L01", "random entity lists with one worldspawn whose brushes mix layer, plain and unknown textures, incl. faceless brushes; non-trivial: worldspawn has a brush", l01),
        ("S01", "random forests of groups with distinct ids, members before and after their group, missing groups, members that are groups; non-trivial: an entity with a group", s01),
        ("S02", "random classnames against random definition lists with duplicates, missing, point and brush classes; non-trivial: at least one definition", s02),
        ("S03", "random property texts against every declared type and default; non-trivial: a declared property", s03),
        ("S04", "random brush entities over small pools of positions and attributes (many duplicates); non-trivial: a mesh surface exists", s04),
        ("S05", "random brush entities, textures, blacklists and definitions; non-trivial: a mesh surface exists", s05),
        ("S06", "random brush entities and collision types; non-trivial: a collision shape exists", s06),
        ("S07", "random layers and layer definitions incl. none and duplicates; non-trivial: a layer node exists", s07),
        ("S08", "random maps with many properties, groups and both layers, imported repeatedly with fresh hash seeds; non-trivial: all", s08),
    ]);
}

// ------------------------------------------------------------ data
fn v3(x: f32, y: f32, z: f32) -> Vector3 { Vector3::new(x, y, z) }
const TEX: [&str; 9] = ["a", "b", "c", "clip", "skip", "*water0", "*slime0", "lost", "hint"];
/// Names that differ from others only in case, a prefix or a suffix.
const TWIN: [&str; 17] = ["A", "a1", "cli", "CLIP", "clip2", "*water01", "*water", "skip ", "", "trigger", "nodraw", "sky1", "common/caulk", "__TB_empty", "{fence", "null", "*"];
/// Class names the importer knows no more of than of any other.
const CLASSES: [&str; 12] = ["m", "m", "m", "func_wall", "trigger_once", "func_detail", "func_group", "func_illusionary", "func_door", "info_null", "light", "M"];
fn add_junk(e: &mut Entity, r: &mut Rng) { for (k, v) in junk(r) { e.properties.entry(k.to_string()).or_insert(v.to_string()); } }
fn known(t: &str) -> bool { t != "lost" }
fn mplane(t: &str) -> BrushPlane {
    BrushPlane { v0: v3(0., 0., 0.), v1: v3(1., 0., 0.), v2: v3(0., 1., 0.), texture: t.into(), uv: UV::standard(0., 0.), rotation: 0., scale: Vector2::new(1., 1.), extra: ExtraData::None }
}
/// A small whole number; zero at times with a minus sign (equal to zero, but with other bits).
fn zero(r: &mut Rng, pool: usize) -> f32 { let x = r.below(pool) as f32; if x == 0. && r.chance(1, 6) { -0. } else { x } }
fn vertex(r: &mut Rng, pool: usize) -> Vertex {
    Vertex::new(
        v3(zero(r, pool), zero(r, 2), if r.chance(1, 20) { *r.pick(&[5.0005, 5.000001]) } else { 5.0 }),
        if r.chance(3, 4) { v3(0., 0., 1.) } else if r.chance(1, 8) { v3(0., 0., 1.0001) } else { v3(0., 1., 0.) },
        (if r.chance(1, 16) { v3(1., 0.0001, 0.) } else { v3(1., 0., 0.) }, if r.chance(3, 4) { 1. } else { -1. }),
        if r.chance(1, 12) { None } else { Some(Vector2::new(if r.chance(3, 4) { 0. } else { 0.5 }, if r.chance(7, 8) { 1. } else { *r.pick(&[0.5, 0., 0.]) })) },
        if r.chance(1, 2) { None } else { Some(Color::new(if r.chance(3, 4) { 0. } else { 1. }, if r.chance(1, 12) { *r.pick(&[0.001, 0.0001]) } else { 0. }, if r.chance(1, 12) { 0.5 } else { 0. })) },
    )
}
fn face(r: &mut Rng, t: &str, pool: usize) -> brush_plane::Geometry {
    let n = if r.chance(1, 600) { *r.pick(&[9, 17, 33, 70]) } else { *r.pick(&[0, 1, 3, 3, 4, 5, 6]) };
    let mut vs: Vec<Vertex> = (0..n).map(|_| vertex(r, pool)).collect();
    if r.chance(1, 2) { for v in vs.iter_mut() { v.uv = v.uv.or(Some(Vector2::new(0., 1.))); v.color = None; } }
    let idx = if n < 3 { vec![] } else if r.chance(2, 3) { (0..n - 2).flat_map(|i| vec![0, i + 1, i + 2]).collect() } else { (0..3 * (1 + r.below(3))).map(|_| r.below(n)).collect() };
    brush_plane::Geometry::new(v3(r.below(9) as f32, 0., 0.), vs, idx, if known(t) { Some(t.into()) } else { None })
}
/// Matching map entity and geometry.
fn brush_entity(r: &mut Rng, class: Option<&str>, tex: &[&str], max_brush: usize) -> (Entity, entity::Geometry) {
    let mut e = Entity::new();
    if let Some(c) = class { e.properties.insert("classname".into(), c.into()); }
    add_junk(&mut e, r);
    let mut gs = vec![];
    let pool = 2 + r.below(4);
    let nb = if r.chance(1, 400) { *r.pick(&[17, 34, 70]) } else { r.below(max_brush + 1) };
    for _ in 0..nb {
        let mut b = Brush::new();
        let mut fs = vec![];
        let single = r.chance(1, 3);
        let t0 = *r.pick(tex);
        let nf = if r.chance(1, 120) { *r.pick(&[7, 9, 12, 17, 33, 40, 70, 140]) } else { r.below(5) };
        for k in 0..nf {
            let t = if nf > 4 && k + 1 == nf && r.chance(1, 2) { *r.pick(tex) } else if nf > 4 { t0 } else if single { t0 } else { *r.pick(tex) };
            b.planes.push(mplane(t));
            fs.push(face(r, t, pool));
        }
        gs.push(brush::Geometry::new(v3(r.below(99) as f32, r.below(9) as f32, 1.), fs));
        e.brushes.push(b);
    }
    (e, entity::Geometry::new(v3(r.range(-9, 9) as f32, r.range(-9, 9) as f32, 2.), gs))
}
type Data = (Entity, entity::Geometry);
fn sorted_props(e: &Entity) -> Vec<(&String, &String)> { let mut p: Vec<_> = e.properties.iter().collect(); p.sort(); p }
fn show(d: &Data) -> String { format!("entity {:?} textures {:?} geometry {:?}", sorted_props(&d.0), d.0.brushes.iter().map(|b| b.planes.iter().map(|p| p.texture.clone()).collect::<Vec<_>>()).collect::<Vec<_>>(), d.1) }
fn shows(d: &[Data]) -> String { d.iter().map(show).collect::<Vec<_>>().join("\n") }
fn ent(props: &[(&str, String)], c: Vector3) -> Data {
    let mut e = Entity::new();
    for (k, v) in props { e.properties.insert(k.to_string(), v.clone()); }
    (e, entity::Geometry::new(c, vec![]))
}
fn ws() -> Data { ent(&[("classname", "worldspawn".into())], v3(0., 0., 0.)) }
fn no_forge() -> forge::GameData { forge::GameData::default() }
fn gd(entities: Vec<Def>, worldspawn_layers: Vec<WorldspawnLayer>) -> GameData { GameData { entities, worldspawn_layers } }
fn actor(n: &SceneTreeNode) -> Result<(&Actor, &Vec<SceneTreeNode>), String> {
    match &n.data { SceneTreeType::Actor(a, c) => Ok((a, c)), _ => Err("a top-level or child node is not an entity".into()) }
}
fn visual(c: &[SceneTreeNode]) -> Vec<&VisualGeometry> { c.iter().filter_map(|n| match &n.data { SceneTreeType::VisualGeometry(v) => Some(v), _ => None }).collect() }
fn collision(c: &[SceneTreeNode]) -> Vec<&CollisionGeometry> { c.iter().filter_map(|n| match &n.data { SceneTreeType::CollisionGeometry(v) => Some(v), _ => None }).collect() }
fn def(name: &str, v: VisualType, c: CollisionType) -> Def {
    Def::brush(name.into(), EntityType::class("T"), ComponentType::None, PropertyApplicationType::Properties, Properties::default(), v, c)
}
fn eqv(a: &Vertex, b: &Vertex) -> bool { a.vertex == b.vertex && a.normal == b.normal && a.tangent == b.tangent && a.uv == b.uv && a.color == b.color }

// ------------------------------------------------------------ L01
fn l01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 11);
    for _ in 0..c.n(6000, 80000) {
        let mut data: Vec<Data> = vec![];
        let n = if r.chance(1, 300) { *r.pick(&[20, 40, 140]) } else { r.below(4) };
        let at = r.below(n + 1);
        let wt: &[&str] = if r.chance(1, 2) { &["*water0", "*slime0", "a"] } else { &["*water0", "*slime0", "lost", "*water1", "*slime0", "*water01", "*WATER0", "*water", "!water0", "water0", "*slime", ""] };
        for i in 0..=n {
            let cl = *r.pick(&[Some("light"), Some("func_group"), None, Some("Worldspawn"), Some("worldspawn "), Some(""), Some("misc_worldspawn")]);
            data.push(if i == at { brush_entity(&mut r, Some("worldspawn"), wt, 6) } else { brush_entity(&mut r, cl, wt, 3) });
        }
        let text = shows(&data);
        let nb = data[at].0.brushes.len();
        // expected, on debug text of the geometries
        let d = |x: &brush::Geometry| format!("{:?}", x);
        let mut keep = vec![];
        let mut water = vec![];
        let mut slime = vec![];
        for b in &data[at].1.brush_geometry {
            let all = |t: &str| b.plane_geometry.iter().all(|p| p.texture.as_deref() == Some(t));
            if all("*water0") { water.push(d(b)) } else if all("*slime0") { slime.push(d(b)) } else { keep.push(d(b)) }
        }
        let centre = data[at].1.center;
        let rest: Vec<String> = data.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, x)| show(x)).collect();
        let wsp = format!("{:?} {}", sorted_props(&data[at].0), data[at].0.brushes.len());
        c.case(text, nb > 0, || {
            let (out, layers) = layer_filter::run(data).map_err(|e| format!("rejected: {:?}", e))?;
            if out.is_empty() { return Err("no entities left".into()); }
            if format!("{:?} {}", sorted_props(&out[0].0), out[0].0.brushes.len()) != wsp || out[0].1.center != centre { return Err("worldspawn is not first or was altered".into()); }
            let k: Vec<String> = out[0].1.brush_geometry.iter().map(d).collect();
            if k != keep { return Err(format!("worldspawn keeps {:?}, expected {:?}", k, keep)); }
            let g: Vec<String> = out[1..].iter().map(show).collect();
            if g != rest { return Err(format!("other entities are {:?}, expected {:?}", g, rest)); }
            let mut names: Vec<&str> = layers.keys().map(|s| s.as_str()).collect();
            names.sort();
            if names != ["*slime0", "*water0"] { return Err(format!("layers {:?}", names)); }
            for (t, e) in [("*water0", &water), ("*slime0", &slime)] {
                let g: Vec<String> = layers[t].iter().map(d).collect();
                if &g != e { return Err(format!("layer {} holds {:?}, expected {:?}", t, g, e)); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}

// ------------------------------------------------------------ S01
struct Ref { idx: usize, kids: Vec<Ref> }
fn ref_kids(d: &[Data], of: usize) -> Vec<Ref> {
    let id = d[of].0.properties.get("_tb_id");
    (1..d.len()).filter(|i| { let g = d[*i].0.properties.get("_tb_group"); g.is_some() && g == id }).map(|i| Ref { idx: i, kids: ref_kids(d, i) }).collect()
}
fn cmp_tree(d: &[Data], x: &Ref, n: &SceneTreeNode, origin: Vector3) -> Result<(), String> {
    let (a, c) = actor(n)?;
    let name = d[x.idx].0.properties.get("classname").cloned().unwrap_or_default();
    if a.name != name { return Err(format!("node {:?} stands where entity {} ({:?}) belongs", a.name, x.idx, name)); }
    let o = origin + d[x.idx].1.center;
    if n.origin != o { return Err(format!("entity {} stands at {:?}, expected {:?}", x.idx, n.origin, o)); }
    for k in c { if !matches!(k.data, SceneTreeType::Actor(..)) && k.origin != d[x.idx].1.center { return Err(format!("geometry of entity {} stands at {:?}, expected {:?}", x.idx, k.origin, d[x.idx].1.center)); } }
    let kids: Vec<&SceneTreeNode> = c.iter().filter(|k| matches!(k.data, SceneTreeType::Actor(..))).collect();
    if kids.len() != x.kids.len() { return Err(format!("entity {} has {} children, expected {:?}", x.idx, kids.len(), x.kids.iter().map(|k| k.idx).collect::<Vec<_>>())); }
    if let Some(f) = c.iter().position(|k| matches!(k.data, SceneTreeType::Actor(..))) {
        if c[f..].iter().any(|k| !matches!(k.data, SceneTreeType::Actor(..))) { return Err(format!("entity {}: its own geometry follows its children", x.idx)); }
    }
    for (k, m) in x.kids.iter().zip(kids) { cmp_tree(d, k, m, -d[x.idx].1.center)?; }
    Ok(())
}
fn cmp_forest(d: &[Data], tree: &[SceneTreeNode]) -> Result<(), String> {
    let roots: Vec<usize> = (0..d.len()).filter(|i| *i == 0 || match d[*i].0.properties.get("_tb_group") { None => true, Some(g) => !d.iter().any(|p| p.0.properties.get("_tb_id") == Some(g)) }).collect();
    if tree.len() != roots.len() { return Err(format!("{} top-level nodes, expected entities {:?}", tree.len(), roots)); }
    for (i, n) in roots.iter().zip(tree) { cmp_tree(d, &Ref { idx: *i, kids: ref_kids(d, *i) }, n, v3(0., 0., 0.))?; }
    Ok(())
}
fn s01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 12);
    for round in 0..c.n(8000, 100000) {
        // now and then one long chain of groups
        let chain = round % 250 == 120;
        let n = if round % 2000 == 999 { 300 } else if round % 1000 == 999 { *r.pick(&[40, 70, 140, 300]) } else if chain { *r.pick(&[9, 12, 17, 20, 33, 40, 70]) } else { r.below(if round < 3000 { 5 } else { 10 }) };
        let wide = n >= 300 && round % 2000 == 999;
        let deep = chain || r.chance(1, 3);
        // random acyclic parents: order is a random permutation, a parent precedes in that order
        let mut perm: Vec<usize> = (1..=n).collect();
        for i in (1..perm.len()).rev() { let j = r.below(i + 1); perm.swap(i, j); }
        let mut d: Vec<Data> = vec![ws()];
        let style = r.below(4);
        // distinct texts, some of them equal once trimmed, parsed or lower-cased
        let odd = ["1", "01", " 1", "1 ", "+1", "1.0", "a", "A", "", " ", "0", "-0", "00", "null", "1e0"];
        let id = |i: usize| if style == 0 && i < odd.len() { odd[i].to_string() } else { format!("{}", 10 + i * 7 % 2003) };
        let ws_id = r.chance(1, 6);
        if ws_id { d[0].0.properties.insert("_tb_id".into(), "900".into()); d[0].1.center = v3(3., 2., 1.); }
        for i in 1..=n {
            let p = perm.iter().position(|x| *x == i).unwrap();
            let mut props = vec![("classname", format!("c{}", i))];
            if r.chance(1, 20) { props.clear(); }
            if chain || r.chance(1, 2) || i % 2 == 0 { props.push(("_tb_id", id(i))); }
            if p > 0 && (chain || r.chance(2, 3)) { props.push(("_tb_group", id(perm[if deep { p - 1 } else { r.below(p) }]))); }
            else if ws_id && r.chance(1, 4) { props.push(("_tb_group", "900".into())); }
            else if r.chance(1, 12) { props.push(("_tb_group", "777".into())); }
            let mut x = ent(&props, v3(r.range(-99, 99) as f32, r.range(-99, 99) as f32, i as f32));
            add_junk(&mut x.0, &mut r);
            if r.chance(1, 60) { for k in 0..140 { x.0.properties.insert(format!("key{}", k), "1".into()); } }
            if r.chance(1, 3) { let t = brush_entity(&mut r, None, &TEX, 1); x.0.brushes = t.0.brushes; x.1.brush_geometry = t.1.brush_geometry; }
            d.push(x);
        }
        // ids that no member names need not be distinct
        if r.chance(1, 4) {
            for i in 1..=n {
                let named = match d[i].0.properties.get("_tb_id") { None => true, x => d.iter().any(|e| e.0.properties.get("_tb_group") == x) };
                if !named && r.chance(1, 2) { d[i].0.properties.insert("_tb_id".into(), "55555".into()); }
            }
        }
        // a group of a great many members
        if wide { for i in 2..=n { d[i].0.properties.remove("_tb_group"); if i != n { d[i].0.properties.insert("_tb_group".into(), "gg".into()); } } d[1].0.properties.remove("_tb_group"); d[1].0.properties.insert("_tb_id".into(), "gg".into()); }
        let defs = (1..=n).filter(|i| i % 3 != 0).map(|i| def(&format!("c{}", i), VisualType::Mesh, if i % 2 == 0 { CollisionType::Convex } else { CollisionType::Concave })).collect();
        let grouped = d.iter().any(|e| e.0.properties.contains_key("_tb_group"));
        c.case(shows(&d), grouped, || cmp_forest(&d, &scene_tree::run(&no_forge(), &gd(defs, vec![]), &TextureBlacklist::default(), &d, &BTreeMap::new())));
        if c.stop() { return; }
    }
    // top level: worldspawn, then layers in name order, then the rest
    for _ in 0..c.n(300, 3000) {
        let mut d = vec![ws()];
        for i in 0..r.below(3) { d.push(ent(&[("classname", format!("x{}", i))], v3(i as f32, 0., 0.))); }
        let mut layers = BTreeMap::new();
        for t in ["*water0", "*slime0"] { let mut g; loop { g = brush_entity(&mut r, None, &[t], 2).1.brush_geometry; if !g.is_empty() { break; } } layers.insert(t.to_string(), g); }
        let ls = ["*water0", "*slime0"].iter().map(|t| WorldspawnLayer::new(format!("L{}", t), t.to_string(), EntityType::class("W"), ComponentType::None, VisualType::None, CollisionType::Convex)).collect();
        c.case(format!("two layers\n{}", shows(&d)), true, || {
            let tree = scene_tree::run(&no_forge(), &gd(vec![], ls), &TextureBlacklist::default(), &d, &layers);
            let mut exp = vec!["worldspawn".to_string(), "L*slime0".into(), "L*water0".into()];
            exp.extend((1..d.len()).map(|i| format!("x{}", i - 1)));
            let got: Result<Vec<String>, String> = tree.iter().map(|n| actor(n).map(|a| a.0.name.clone())).collect();
            if got? == exp { Ok(()) } else { Err(format!("top level is not {:?}", exp)) }
        });
        if c.stop() { return; }
    }
    // the same through the importer itself: text in, tree out
    let file = Scratch(std::env::temp_dir().join(format!("qmap-s01-{}", std::process::id())));
    for n in [0, 1, 3, 40, 300, 1100, 4100] {
        let mut l: Vec<String> = vec!["{".into(), "\"classname\" \"worldspawn\"".into(), "}".into()];
        let mut d = vec![ws()];
        for i in 0..n {
            let (name, at) = (format!("e{}\tx{}", i, "\u{1f600}\u{e9}\u{20ac}".repeat(i % 7)), v3(r.range(-99, 99) as f32, r.range(-99, 99) as f32, i as f32));
            let o = format!("{} {} {}", at.x(), at.y(), at.z());
            let mut props = vec![("classname", name), ("origin", o), ("_tb_id", format!("{}", i))];
            if i > 0 && n < 500 && r.chance(1, 2) { props.push(("_tb_group", format!("{}", r.below(i)))); }
            l.push("{".into());
            for (k, v) in &props { l.push(format!("\"{}\" \"{}\"", k, v)); }
            l.push("}".into());
            d.push(ent(&props, at));
        }
        let text = l.join("\n");
        c.case(text.clone(), true, || {
            std::fs::write(&file.0, &text).map_err(|e| e.to_string())?;
            let cfg = quarchitect::Config::new(file.0.to_str().unwrap(), quarchitect::TextureInfo(Default::default()), TextureBlacklist::default(), no_forge(), gd(vec![], vec![]));
            cmp_forest(&d, &quarchitect::run(cfg).map_err(|e| e.to_string())?)
        });
        if c.stop() { return; }
    }
    // recorded findings: group links outside the statement's premise
    let e = |n: &str, id: &str, g: &str| { let mut p = vec![("classname", n.to_string())]; if !id.is_empty() { p.push(("_tb_id", id.into())); } if !g.is_empty() { p.push(("_tb_group", g.into())); } ent(&p, v3(0., 0., 0.)) };
    fn count(t: &[SceneTreeNode], n: &str) -> usize { t.iter().map(|x| match &x.data { SceneTreeType::Actor(a, c) => (a.name == n) as usize + count(c, n), _ => 0 }).sum() }
    for (what, d) in [("duplicate-group-id: a member of a group id declared twice is built under both", vec![ws(), e("g", "1", ""), e("h", "1", ""), e("m", "", "1")]),
                      ("cyclic-group: an entity that is its own group is built nowhere", vec![ws(), e("m", "1", "1")])] {
        let t = scene_tree::run(&no_forge(), &gd(vec![], vec![]), &TextureBlacklist::default(), &d, &BTreeMap::new());
        if count(&t, "m") != 1 { c.known.push(what.into()); }
    }
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

// ------------------------------------------------------------ S02
fn s02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 13);
    let names = ["light", "func_wall", "trigger", "Light", "", "light ", " light", "light_spot", "func", "LIGHT", "func_group", "func_detail", "info_null", "worldspawn"];
    for _ in 0..c.n(8000, 100000) {
        let nd = if r.chance(1, 300) { *r.pick(&[20, 40, 140, 300]) } else { r.below(6) };
        let mut rd = vec![];
        for i in 0..nd {
            let n = r.pick(&names).to_string();
            let et = match r.below(3) { 0 => EntityType::Placeholder, 1 => EntityType::class(&format!("C{}", i)), _ => EntityType::prefab(&format!("P{}", i)) };
            let ct = if r.chance(1, 2) { ComponentType::None } else { ComponentType::Script(if r.chance(1, 6) { "".into() } else if r.chance(1, 6) { " s.gd ".into() } else { format!("S{}", i) }) };
            let pt = *r.pick(&[PropertyApplicationType::Properties, PropertyApplicationType::Dictionary, PropertyApplicationType::Metadata]);
            let brush = r.chance(1, 2);
            rd.push((n, et, ct, pt, brush));
        }
        let defs: Vec<Def> = rd.iter().map(|(n, e, k, p, b)| if *b { Def::brush(n.clone(), e.clone(), k.clone(), *p, Properties::default(), VisualType::None, CollisionType::None) } else { Def::point(n.clone(), e.clone(), k.clone(), *p, Properties::default()) }).collect();
        let mut d = vec![ws()];
        for _ in 0..1 + r.below(3) { d.push(if r.chance(1, 10) { ent(&[], v3(0., 0., 0.)) } else { ent(&[("classname", r.pick(&names).to_string())], v3(1., 0., 0.)) }); }
        for x in d.iter_mut().skip(1) { add_junk(&mut x.0, &mut r); }
        c.case(format!("definitions {:?}\n{}", rd, shows(&d)), nd > 0, || {
            let t = scene_tree::run(&no_forge(), &gd(defs, vec![]), &TextureBlacklist::default(), &d, &BTreeMap::new());
            if t.len() != d.len() { return Err("wrong number of nodes".into()); }
            for (e, n) in d.iter().zip(&t) {
                let a = actor(n)?.0;
                let cl = e.0.properties.get("classname");
                if a.name != cl.cloned().unwrap_or_default() { return Err(format!("name {:?} for class {:?}", a.name, cl)); }
                let mut exp = (EntityType::Placeholder, None, PropertyApplicationType::Properties);
                for (i, x) in rd.iter().enumerate() { match &x.1 { EntityType::Class(n) if *n != format!("C{}", i) => return Err(format!("EntityType::class makes {:?}", n)), EntityType::Prefab(n) if *n != format!("P{}", i) => return Err(format!("EntityType::prefab makes {:?}", n)), _ => () } }
                if let Some(x) = cl.and_then(|c| rd.iter().find(|x| &x.0 == c)) { exp = (x.1.clone(), match &x.2 { ComponentType::Script(s) => Some(s.clone()), _ => None }, x.3); }
                let got = format!("{:?}", (&a.entity_type, &a.component_class, &a.property_application_type));
                if got != format!("{:?}", (&exp.0, &exp.1, &exp.2)) { return Err(format!("class {:?} has {}, expected {:?}", cl, got, exp)); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}

// ------------------------------------------------------------ S03
fn s03(c: &mut Ctx) {
    use forge::{ClassType, PropertyData as PD};
    let mut r = Rng::new(c.seed ^ 14);
    let vals = ["5", "-7", "0", "1.5", "2147483648", "-2147483648", "", "abc", "1 2 3", "1 2", "1 2 3 4", "0.5 0.25 1", "a b c", "1 b 3", " 1 2 3", "1  2 3", "+4", "1e2", "nan", "007", "1,2,3", "12 ", "255 128 0", "++4", "+-4", "-0", "+", "-", "5 ", " 5", "0x10", "1_000", "1.", ".5", "inf", "-inf", "-nan", "1e39", "1e-46", "2147483647", "-2147483649", "4294967295", "16777217", "true", "1 2 nan", "1 2 x 4", "1\t2\t3", "1 2 3 x", "x 1 2 3", "-1 -2 -3", "300 2 3", "1 2 3 ", "\u{661}", "1,5", "0,5", "false", "yes", "no", "(1 2 3)", "[1 2 3]", "#ff0000", "0 0 0", "1 0 0", "0.0", "1.0", "255", "256 0 0", "\"5\"", "5f", "1/2", "50%", "255 128 64", "2 3 4", "200 100 50", "5..", "1. 2. 3.", "1.00000005960464477539062500001", "16777217.0000000001 1 1"];
    for _ in 0..c.n(10000, 150000) {
        let np = if r.chance(1, 300) { *r.pick(&[20, 40, 140]) } else { r.below(5) };
        let mut props = vec![];
        for i in 0..np {
            let k = r.below(9);
            let dn = r.range(-50, 50);
            let f = |j: i64| (dn + j) as f32 * 0.5;
            let data = match k {
                0 => PD::Integer(dn as i32), 1 => PD::Float(f(0)), 2 => PD::Vector3(v3(f(0), f(1), f(2))), 3 => PD::String(format!("d{}", dn)),
                4 => PD::Color(Color::new(f(0), f(1), f(2))), 5 => PD::Choices((0..r.below(5)).map(|i| match (dn + i as i64) % 3 { 0 => forge::Choice::integer("n", i as i32), 1 => forge::Choice::string("n", "5"), _ => forge::Choice::float("n", 1.5) }).collect(), dn as i32), 6 => PD::Flags((0..r.below(5)).map(|i| format!("f{}", i)).collect(), dn as i32), 7 => PD::TargetSource, _ => PD::TargetDestination,
            };
            let name = if r.chance(1, 12) { "_tb_id".to_string() } else if r.chance(1, 12) { "p0".into() } else if r.chance(1, 12) { r.pick(&["_tb_group", "_tb_type", "_tb_name", "classname", "", "origin", "P0", "spawnflags", "angle", "angles", "mangle", "color", "_color", "light", "target", "targetname", "scale", "model", "message"]).to_string() } else { format!("p{}", i) };
            props.push(forge::Property::new(&name, "s", "l", data));
        }
        let others = vec![forge::Entity::new(ClassType::PointClass, vec![], "other", "", vec![forge::Property::new("q", "", "", PD::Integer(1))])];
        let mut defs = if r.chance(1, 2) { others.clone() } else { vec![] };
        let have = !r.chance(1, 8);
        if have { defs.push(forge::Entity::new(ClassType::PointClass, vec![], "k", "", props.clone())); }
        if r.chance(1, 3) { defs.push(forge::Entity::new(ClassType::PointClass, vec![], "k", "", vec![forge::Property::new("late", "", "", PD::Integer(1))])); }
        let declared = defs.iter().find(|x| x.class_name == "k").map(|x| x.properties.clone());
        let mut m = vec![("classname", "k".to_string())];
        let names = ["p0", "p1", "p2", "p3", "p4", "extra", "P0", "p1 ", "p19", "p39", "", "spawnflags", "angle", "angles", "mangle", "color", "_color", "light", "target", "targetname", "scale", "model", "message", "origin"];
        for n in &names { if r.chance(2, 3) { m.push((n, r.pick(&vals).to_string())); } }
        for n in ["_tb_type", "_tb_name"] { if r.chance(1, 4) { m.push((n, r.pick(&vals).to_string())); } }
        if r.chance(1, 4) { m.push(("_tb_id", r.pick(&["3", "x", "-1", "1.5", "", "2147483648", " 3", "+3"]).to_string())); }
        if r.chance(1, 4) { m.push(("_tb_group", r.pick(&["44", "y", " "]).to_string())); }
        let d = vec![ws(), ent(&m, v3(0., 0., 0.))];
        let get = |n: &str| d[1].0.properties.get(n).cloned();
        let mut exp: BTreeMap<String, String> = BTreeMap::new();
        if let Some(ps) = &declared {
            for n in ["_tb_id", "_tb_group"] { if let Some(i) = get(n).and_then(|v| v.parse::<i32>().ok()) { exp.insert(n.into(), format!("{:?}", Property::Integer(i))); } }
            for n in ["_tb_type", "_tb_name"] { if let Some(s) = get(n) { exp.insert(n.into(), format!("{:?}", Property::String(s))); } }
            let three = |s: &str| -> Option<[f32; 3]> { let w: Vec<&str> = s.split(' ').collect(); if w.len() < 3 { return None; } Some([w[0].parse().ok()?, w[1].parse().ok()?, w[2].parse().ok()?]) };
            for p in ps {
                let v = get(&p.name);
                let i = v.as_ref().and_then(|v| v.parse::<i32>().ok());
                let f = v.as_ref().and_then(|v| v.parse::<f32>().ok());
                let t = v.as_ref().and_then(|v| three(v));
                let x = match &p.data {
                    PD::Integer(k) => Property::Integer(i.unwrap_or(*k)), PD::Float(k) => Property::Float(f.unwrap_or(*k)),
                    PD::Vector3(k) => Property::Vector3(t.map_or(*k, |t| v3(t[0], t[1], t[2]))),
                    PD::String(k) => Property::String(v.unwrap_or(k.clone())),
                    PD::Color(k) => Property::Color(t.map_or(*k, |t| Color::new(t[0], t[1], t[2]))),
                    PD::Choices(_, k) => Property::Choices(i.unwrap_or(*k)), PD::Flags(_, k) => Property::Flags(i.unwrap_or(*k)),
                    PD::TargetSource => Property::TargetSource, PD::TargetDestination => Property::TargetDestination,
                };
                exp.insert(p.name.clone(), format!("{:?}", x));
            }
        }
        let mut desc: Vec<_> = d[1].0.properties.iter().map(|(k, v)| format!("{:?}={:?}", k, v)).collect();
        desc.sort();
        c.case(format!("map {}\ndeclared {:?}", desc.join(" "), declared), declared.map_or(false, |p| !p.is_empty()), || {
            let t = scene_tree::run(&forge::GameData::new("g".into(), vec![], defs), &gd(vec![], vec![]), &TextureBlacklist::default(), &d, &BTreeMap::new());
            // an entity in a missing group is still top level
            let n = t.get(1).ok_or("no node for the entity")?;
            let got: BTreeMap<String, String> = actor(n)?.0.properties.0.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect();
            if got == exp { Ok(()) } else { Err(format!("properties {:?}, expected {:?}", got, exp)) }
        });
        if c.stop() { return; }
    }
}

// ------------------------------------------------------------ S04, S05
/// A brush entity of many vertices: nb brushes with nv distinct corners each, on one or on seven faces.
fn large_entity(nb: usize, nv: usize) -> Data {
    let mut e = Entity::new();
    e.properties.insert("classname".into(), "m".into());
    let mut gs = vec![];
    for b in 0..nb {
        let mut m = Brush::new();
        m.planes.push(mplane("a"));
        e.brushes.push(m);
        let nf = if nv % 7 == 0 { 7 } else { 1 };
        let fs = (0..nf).map(|f| {
        let nv = nv / nf;
        // in the largest, corners come again much later
        let vs: Vec<Vertex> = (0..nv).map(|i| if nb > 1 && nv > 4000 && i > nv / 2 && i % 3 == 0 { i - nv / 2 } else if nb > 1 && nv > 4000 && i > 4500 && i % 3 == 1 { i - 3 } else { i }).map(|i| i + f * nv).map(|i| Vertex::new(v3(i as f32, b as f32, 0.), v3(0., 0., 1.), (v3(1., 0., 0.), 1.), Some(Vector2::new(0., i as f32)), None)).collect();
        let idx = (0..nv.max(2) - 2).flat_map(|i| vec![0, i + 1, i + 2]).collect();
        brush_plane::Geometry::new(v3(0., 0., 0.), vs, idx, Some("a".into())) }).collect();
        gs.push(brush::Geometry::new(v3(b as f32, 0., 0.), fs));
    }
    // and one face without a texture
    let vs = (0..3).map(|i| Vertex::new(v3(i as f32, -1., 0.), v3(0., 0., 1.), (v3(1., 0., 0.), 1.), None, None)).collect();
    gs.push(brush::Geometry::new(v3(0., 0., 1.), vec![brush_plane::Geometry::new(v3(0., 0., 0.), vs, vec![0, 1, 2], None)]));
    e.brushes.push(Brush::new());
    (e, entity::Geometry::new(v3(1., 2., 3.), gs))
}
const LARGE: [(usize, usize); 18] = [(15, 3), (31, 3), (63, 3), (64, 3), (127, 3), (255, 3), (256, 3), (1023, 3), (1, 40), (1, 301), (1, 300), (2, 140), (5, 60), (70, 5), (300, 3), (2, 4900), (2, 6001), (290, 230)];
fn large(c: &mut Ctx, ct: CollisionType) {
    for (nb, nv) in LARGE {
        let d = vec![ws(), large_entity(nb, nv)];
        c.case(format!("{} brushes of one face (seven if that divides the corners) with {} corners, and one untextured face", nb, nv), true, || {
            let t = scene_tree::run(&no_forge(), &gd(vec![def("m", VisualType::Mesh, ct)], vec![]), &TextureBlacklist::default(), &d, &BTreeMap::new());
            if ct != CollisionType::None { return check_collision(&collision(actor(&t[1])?.1), &d[1].1, Some(ct)); }
            match surfaces(&t[1])? {
                Some(s) if s.len() == 2 => {
                    for x in s { check_surface(x, &ref_faces(&d[1].1.brush_geometry, &[], x.texture.as_deref()), true)?; }
                    if s[0].texture == s[1].texture { Err("two surfaces of one texture".into()) } else { Ok(()) }
                }
                x => Err(format!("{} surfaces", x.map_or(0, |x| x.len()))) }
        });
        if c.stop() { return; }
    }
}
fn blacklist(r: &mut Rng) -> (TextureBlacklist, Vec<String>, Vec<String>) {
    let mut b = vec![]; let mut p = vec![];
    for t in TEX { if r.chance(1, 5) || t == "skip" { b.push(t.to_string()); } if r.chance(1, 6) || t == "clip" { p.push(t.to_string()); } }
    for t in TWIN { if r.chance(1, 12) { b.push(t.to_string()); } if r.chance(1, 12) { p.push(t.to_string()); } }
    if r.chance(1, 8) { b.push("*".into()); } if r.chance(1, 8) { p.push("*".into()); }
    if r.chance(1, 8) { let t = p.clone(); p.extend(t); } // names listed twice
    (TextureBlacklist::new(b.clone(), p.clone()), b, p)
}
/// Expected faces per surface: for each brush the faces, in order.
fn ref_faces<'a>(g: &'a [brush::Geometry], brush_black: &[String], tex: Option<&str>) -> Vec<Vec<&'a brush_plane::Geometry>> {
    g.iter().filter(|b| b.plane_geometry.iter().any(|p| match &p.texture { None => true, Some(t) => !brush_black.contains(t) }))
        .map(|b| b.plane_geometry.iter().filter(|p| p.texture.as_deref() == tex).collect()).collect()
}
fn soup<'a>(faces: &[Vec<&'a brush_plane::Geometry>]) -> Vec<&'a Vertex> { faces.iter().flatten().flat_map(|f| f.indices.iter().map(move |i| &f.vertices[*i])).collect() }
fn check_surface(s: &MeshSurface, faces: &[Vec<&brush_plane::Geometry>], attrs: bool) -> Result<(), String> {
    let n = s.vertices.len();
    if s.normals.len() != n || s.tangents.len() != n { return Err(format!("{} positions, {} normals, {} tangents", n, s.normals.len(), s.tangents.len())); }
    if s.uvs.as_ref().map_or(false, |u| u.len() != n) || s.colors.as_ref().map_or(false, |u| u.len() != n) { return Err("texture coordinate or colour list of another length".into()); }
    if s.indices.iter().any(|i| *i >= n) { return Err(format!("index out of range in {:?} with {} vertices", s.indices, n)); }
    let exp = soup(faces);
    let all: Vec<&Vertex> = faces.iter().flatten().flat_map(|f| f.vertices.iter()).collect();
    if exp.len() != s.indices.len() { return Err(format!("surface {:?} has {} indices, its faces {}", s.texture, s.indices.len(), exp.len())); }
    if s.uvs.is_some() != all.iter().all(|v| v.uv.is_some()) || s.colors.is_some() != all.iter().all(|v| v.color.is_some()) { return Err("texture coordinates or colours not present exactly when all vertices have them".into()); }
    for (k, (i, e)) in s.indices.iter().zip(&exp).enumerate() {
        if s.vertices[*i] != e.vertex { return Err(format!("index {} of surface {:?} gives position {:?}, expected {:?}", k, s.texture, s.vertices[*i], e.vertex)); }
        if !attrs { continue; }
        if s.normals[*i] != e.normal || s.tangents[*i] != e.tangent { return Err(format!("index {} of surface {:?}: normal {:?} tangent {:?}, expected {:?} {:?}", k, s.texture, s.normals[*i], s.tangents[*i], e.normal, e.tangent)); }
        if let Some(u) = &s.uvs { if Some(u[*i]) != e.uv { return Err(format!("index {}: texture coordinate {:?}, expected {:?}", k, u[*i], e.uv)); } }
        if let Some(u) = &s.colors { if Some(u[*i]) != e.color { return Err(format!("index {}: colour {:?}, expected {:?}", k, u[*i], e.color)); } }
    }
    if attrs {
        let mut distinct = 0;
        for b in faces {
            let mut seen: Vec<&Vertex> = vec![];
            for v in b.iter().flat_map(|f| f.vertices.iter()) { if !seen.iter().any(|w| eqv(v, w)) { seen.push(v); } }
            distinct += seen.len();
        }
        if distinct != n { return Err(format!("surface {:?} has {} vertices, its brushes have {} distinct ones", s.texture, n, distinct)); }
    }
    Ok(())
}
fn surfaces(n: &SceneTreeNode) -> Result<Option<&Vec<MeshSurface>>, String> {
    let v = visual(actor(n)?.1);
    match v.as_slice() { [] => Ok(None), [VisualGeometry::Mesh(m)] => Ok(Some(&m.surfaces)), x => Err(format!("{} visual geometries", x.len())) }
}
fn mesh_case(c: &mut Ctx, r: &mut Rng, s05: bool) {
    let k = 3 + r.below(TEX.len() - 3);
    let mut tex: Vec<&str> = if s05 { TEX.to_vec() } else { TEX[..k].to_vec() };
    if r.chance(1, 6) { for _ in 0..3 { tex.push(*r.pick(&TWIN)); } }
    let cl = *r.pick(&CLASSES);
    let data = brush_entity(r, Some(cl), &tex, 4);
    let (bl, bb, bp) = blacklist(r);
    let defs: Vec<Def> = if !s05 { vec![def(cl, VisualType::Mesh, CollisionType::None)] } else {
        match r.below(8) {
            0 => vec![], 1 => vec![Def::point(cl.into(), EntityType::Placeholder, ComponentType::None, PropertyApplicationType::Properties, Properties::default())],
            2 => vec![def(cl, VisualType::None, CollisionType::Convex)],
            3 => vec![def("n", VisualType::None, CollisionType::Convex), def(cl, VisualType::Mesh, CollisionType::Convex), def(cl, VisualType::None, CollisionType::None)],
            _ => vec![def(cl, VisualType::Mesh, CollisionType::None)],
        }
    };
    let mesh = defs.iter().find(|d| d.classname == cl).map_or(false, |d| matches!(&d.data, quarchitect::game_data::EntityData::Brush(_, b) if b.visual_type == VisualType::Mesh));
    let d = vec![ws(), data];
    let mut expect: Vec<(Option<String>, Vec<Vec<&brush_plane::Geometry>>)> = vec![];
    let mut seen: Vec<Option<String>> = vec![None];
    for t in d[1].0.brushes.iter().flat_map(|b| b.planes.iter()) { let t = Some(t.texture.clone()); if !seen.contains(&t) { seen.push(t); } }
    if mesh {
        for t in seen {
            if let Some(t) = &t { if bp.contains(t) { continue; } }
            let f = ref_faces(&d[1].1.brush_geometry, &bb, t.as_deref());
            if f.iter().flatten().any(|f| !f.vertices.is_empty()) { expect.push((t, f)); }
        }
    }
    c.case(format!("brush blacklist {:?} face blacklist {:?} definitions {:?}\n{}", bb, bp, defs, show(&d[1])), !expect.is_empty(), || {
        let t = scene_tree::run(&no_forge(), &gd(defs, vec![]), &bl, &d, &BTreeMap::new());
        if t.len() != 2 { return Err("wrong number of nodes".into()); }
        let got = surfaces(&t[1])?;
        let none = vec![];
        if got.map_or(false, |g| g.is_empty()) { return Err("an empty mesh".into()); }
        let got = got.unwrap_or(&none);
        if s05 {
            let mut a: Vec<_> = got.iter().map(|s| s.texture.clone()).collect();
            let mut b: Vec<_> = expect.iter().map(|s| s.0.clone()).collect();
            a.sort(); b.sort();
            if a != b { return Err(format!("surfaces for {:?}, expected {:?}", a, b)); }
        }
        for s in got {
            match expect.iter().find(|e| e.0 == s.texture) {
                Some(e) => check_surface(s, &e.1, !s05)?,
                None => return Err(format!("unexpected surface {:?}", s.texture)),
            }
        }
        Ok(())
    });
}
fn s04(c: &mut Ctx) { large(c, CollisionType::None); let mut r = Rng::new(c.seed ^ 15); for _ in 0..c.n(6000, 80000) { mesh_case(c, &mut r, false); if c.stop() { return; } } }
fn s05(c: &mut Ctx) { large(c, CollisionType::None); let mut r = Rng::new(c.seed ^ 16); for _ in 0..c.n(6000, 80000) { mesh_case(c, &mut r, true); if c.stop() { return; } } }

// ------------------------------------------------------------ S06
fn check_collision(got: &[&CollisionGeometry], g: &entity::Geometry, ct: Option<CollisionType>) -> Result<(), String> {
    match ct {
        None | Some(CollisionType::None) => if got.is_empty() { Ok(()) } else { Err(format!("collision geometry {:?} where there should be none", got)) },
        Some(CollisionType::Convex) => {
            let shapes = match got { [CollisionGeometry::Convex(s)] => s, x => return Err(format!("expected convex shapes, got {:?}", x)) };
            if shapes.len() != g.brush_geometry.len() { return Err(format!("{} convex shapes for {} brushes", shapes.len(), g.brush_geometry.len())); }
            for (s, b) in shapes.iter().zip(&g.brush_geometry) {
                if s.center != b.center { return Err(format!("shape at {:?}, brush at {:?}", s.center, b.center)); }
                let all: Vec<Vector3> = b.plane_geometry.iter().flat_map(|p| p.vertices.iter().map(|v| v.vertex)).collect();
                for p in &all { if s.points.iter().filter(|q| *q == p).count() != 1 { return Err(format!("corner {:?} is not exactly once among {:?}", p, s.points)); } }
                for q in &s.points { if !all.contains(q) { return Err(format!("point {:?} is no corner of the brush", q)); } }
            }
            Ok(())
        }
        Some(CollisionType::Concave) => {
            let all: usize = g.brush_geometry.iter().map(|b| b.plane_geometry.iter().map(|p| p.vertices.len()).sum::<usize>()).sum();
            if all == 0 { return if got.is_empty() { Ok(()) } else { Err("concave geometry without vertices".into()) }; }
            let shapes = match got { [CollisionGeometry::Concave(s)] => s, x => return Err(format!("expected a concave shape, got {:?}", x)) };
            if shapes.len() != 1 { return Err(format!("{} concave shapes", shapes.len())); }
            let s = &shapes[0];
            if s.center != g.center { return Err(format!("shape at {:?}, entity at {:?}", s.center, g.center)); }
            let faces: Vec<Vec<&brush_plane::Geometry>> = g.brush_geometry.iter().map(|b| b.plane_geometry.iter().collect()).collect();
            let exp = soup(&faces);
            if exp.len() != s.indices.len() { return Err(format!("{} indices, faces have {}", s.indices.len(), exp.len())); }
            for (i, e) in s.indices.iter().zip(&exp) {
                if s.vertices.get(*i) != Some(&e.vertex) { return Err(format!("index {} gives {:?}, expected {:?}", i, s.vertices.get(*i), e.vertex)); }
            }
            let mut distinct = 0;
            for b in &faces { let mut seen: Vec<Vector3> = vec![]; for v in b.iter().flat_map(|f| f.vertices.iter()) { if !seen.contains(&v.vertex) { seen.push(v.vertex); } } distinct += seen.len(); }
            if distinct != s.vertices.len() { return Err(format!("{} vertices, brushes have {} distinct positions", s.vertices.len(), distinct)); }
            Ok(())
        }
    }
}
fn s06(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 17);
    large(c, CollisionType::Concave);
    large(c, CollisionType::Convex);
    for _ in 0..c.n(8000, 100000) {
        let m = *r.pick(&CLASSES);
        let class = *r.pick(&[Some(m), Some(m), Some(m), Some(m), Some("p"), Some("u"), None]);
        let tex: &[&str] = if r.chance(1, 6) { &TWIN } else { &TEX };
        let data = brush_entity(&mut r, class, tex, 4);
        let ct = *r.pick(&[CollisionType::Convex, CollisionType::Concave, CollisionType::Convex, CollisionType::Concave, CollisionType::None]);
        let defs = vec![Def::point("p".into(), EntityType::Placeholder, ComponentType::None, PropertyApplicationType::Properties, Properties::default()), def(m, *r.pick(&[VisualType::None, VisualType::Mesh]), ct), def(m, VisualType::None, CollisionType::Convex)];
        let exp = if class == Some(m) { Some(ct) } else { None };
        let d = vec![ws(), data];
        let (bl, bb, bp) = blacklist(&mut r);
        c.case(format!("collision {:?} blacklists {:?} {:?}\n{}", exp, bb, bp, show(&d[1])), exp.map_or(false, |x| x != CollisionType::None) && !d[1].1.brush_geometry.is_empty(), || {
            let t = scene_tree::run(&no_forge(), &gd(defs, vec![]), &bl, &d, &BTreeMap::new());
            if t.len() != 2 { return Err("wrong number of nodes".into()); }
            check_collision(&collision(actor(&t[1])?.1), &d[1].1, exp)
        });
        if c.stop() { return; }
    }
}

// ------------------------------------------------------------ S07
fn s07(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 18);
    for _ in 0..c.n(6000, 80000) {
        let mut layers = BTreeMap::new();
        for t in ["*slime0", "*water0"] { if r.chance(7, 8) { let pure = r.chance(2, 3); let ts: &[&str] = if pure { &[t] } else { &["*water0", "*slime0", "a", "lost", "*water01", "*slime"] }; layers.insert(t.to_string(), brush_entity(&mut r, None, ts, 3).1.brush_geometry); } }
        let nd = if r.chance(1, 60) { 12 } else { r.below(4) };
        let mut ls = vec![];
        for i in 0..nd {
            let ct = if r.chance(1, 2) { ComponentType::None } else { ComponentType::Script(if r.chance(1, 6) { String::new() } else { format!("s{}", i) }) };
            ls.push(WorldspawnLayer { name: if r.chance(1, 8) { r.pick(&["", " ", "worldspawn", "*water0", "Layer"]).to_string() } else { format!("n{}", i) }, texture: r.pick(&["*water0", "*slime0", "*slime0", "*water0", "*lava0", "water0", "*Water0", "*water0 ", "*water", "*slime01", ""]).to_string(), entity_type: if r.chance(1, 2) { EntityType::Class("c".into()) } else { EntityType::Prefab("p".into()) }, component_type: ct,
                visual_type: *r.pick(&[VisualType::Mesh, VisualType::Mesh, VisualType::None]), collision_type: *r.pick(&[CollisionType::None, CollisionType::Convex, CollisionType::Concave]) });
        }
        if !ls.is_empty() && r.chance(1, 8) { let i = r.below(ls.len()); let l = ls[i].clone(); ls.push(l); } // the same definition twice
        let mut exp = vec![];
        for (t, g) in &layers {
            let m: Vec<&WorldspawnLayer> = ls.iter().filter(|l| &l.texture == t).collect();
            if m.len() != 1 { continue; }
            let faces = ref_faces(g, &[], Some(t));
            let vis = m[0].visual_type == VisualType::Mesh && faces.iter().flatten().any(|f| !f.vertices.is_empty());
            let col = match m[0].collision_type { CollisionType::None => false, CollisionType::Convex => true, CollisionType::Concave => g.iter().any(|b| b.plane_geometry.iter().any(|p| !p.vertices.is_empty())) };
            if vis || col { exp.push((t.clone(), m[0].clone(), faces, vis, entity::Geometry::new(v3(0., 0., 0.), g.clone()))); }
        }
        let given: Vec<WorldspawnLayer> = ls.iter().map(|l| WorldspawnLayer::new(l.name.clone(), l.texture.clone(), l.entity_type.clone(), l.component_type.clone(), l.visual_type, l.collision_type)).collect();
        let d = vec![ws(), ent(&[("classname", "tail".into())], v3(1., 1., 1.))];
        let (bl, _, _) = blacklist(&mut r);
        c.case(format!("layers {:?}\ndefinitions {:?}", layers, ls), !exp.is_empty(), || {
            let t = scene_tree::run(&no_forge(), &gd(vec![], given), &bl, &d, &layers);
            if t.len() != 2 + exp.len() { return Err(format!("{} layer nodes, expected those of {:?}", t.len() as i64 - 2, exp.iter().map(|e| &e.0).collect::<Vec<_>>())); }
            for (n, (tex, l, faces, vis, g)) in t[1..].iter().zip(&exp) {
                let (a, ch) = actor(n)?;
                if a.name != l.name { return Err(format!("layer {} is named {:?}, expected {:?}", tex, a.name, l.name)); }
                if n.origin != v3(0., 0., 0.) || ch.iter().any(|k| k.origin != v3(0., 0., 0.)) { return Err(format!("layer {} stands at {:?}, its geometry at {:?}", tex, n.origin, ch.iter().map(|k| k.origin).collect::<Vec<_>>())); }
                if format!("{:?}", a.entity_type) != format!("{:?}", l.entity_type) { return Err(format!("layer {} has type {:?}", tex, a.entity_type)); }
                let ec = match &l.component_type { ComponentType::Script(s) => Some(s.clone()), _ => None };
                if a.component_class != ec { return Err(format!("layer {} has component {:?}", tex, a.component_class)); }
                match (surfaces(n)?, vis) {
                    (None, false) => (),
                    (Some(s), true) => {
                        if s.len() != 1 || s[0].texture.as_ref() != Some(tex) { return Err(format!("layer {} has surfaces {:?}", tex, s.iter().map(|s| &s.texture).collect::<Vec<_>>())); }
                        check_surface(&s[0], faces, true)?;
                    }
                    (x, _) => return Err(format!("layer {} visual geometry present: {}, expected: {}", tex, x.is_some(), vis)),
                }
                check_collision(&collision(ch), g, Some(l.collision_type))?;
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}

// ------------------------------------------------------------ S08
fn canon(n: &SceneTreeNode, o: &mut String) {
    o.push_str(&format!("<{:?} ", n.origin));
    match &n.data {
        SceneTreeType::Actor(a, c) => {
            let p: BTreeMap<_, _> = a.properties.0.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect();
            o.push_str(&format!("{:?} {:?} {:?} {:?} {:?}", a.name, a.entity_type, a.component_class, a.property_application_type, p));
            for k in c { canon(k, o); }
        }
        x => o.push_str(&format!("{:?}", x)),
    }
    o.push('>');
}
fn s08_map(r: &mut Rng) -> String {
    let mut s = String::new();
    let br = |r: &mut Rng, s: &mut String, t: &[&str]| {
        if r.chance(1, 3) {
            // planes facing every way: coordinates that rounding would change
            s.push_str("{\n");
            let o = [r.f(-90., 90.), r.f(-90., 90.), r.f(-90., 90.)];
            let n = 10 + r.below(10);
            for k in 0..n {
                let z = 1. - (2 * k + 1) as f32 / n as f32;
                let (a, w) = (k as f32 * 2.4 + r.f(0., 0.3), (1. - z * z).sqrt());
                let d = [w * a.cos(), w * a.sin(), z];
                let u = [-a.sin(), a.cos(), 0.];
                let v = [d[1] * u[2] - d[2] * u[1], d[2] * u[0] - d[0] * u[2], d[0] * u[1] - d[1] * u[0]];
                let q = |i: f32, j: f32| { let c = |k: usize| o[k] + 20. * d[k] + i * u[k] + j * v[k]; format!("( {} {} {} )", c(0), c(1), c(2)) };
                s.push_str(&format!("{} {} {} {} 0 0 0 1 1\n", q(0., 0.), q(0., 9.), q(9., 0.), r.pick(t)));
            }
            s.push_str("}\n");
            return;
        }
        let (x, y, z) = (r.range(-64, 64), r.range(-64, 64), r.range(-64, 64));
        let (a, b, d) = (x + r.range(1, 64), y + r.range(1, 64), z + r.range(1, 64));
        s.push_str("{\n");
        if r.chance(1, 2) {
            // a corner cut off by a slanted plane: coordinates that are not whole
            let (p, q, w) = (r.range(1, 5), r.range(1, 5), r.range(1, 5));
            let (p, q, w) = (a as f64 - p as f64 / 7.0, b as f64 - q as f64 / 7.0, d as f64 - w as f64 / 7.0);
            s.push_str(&format!("( {p:.3} {b} {d} ) ( {a} {b} {w:.3} ) ( {a} {q:.3} {d} ) {} 0 0 0 1 1\n", r.pick(t)));
        }
        for f in [
            format!("( {x} {y} {z} ) ( {x} {} {z} ) ( {x} {y} {} )", y + 1, z + 1), format!("( {x} {y} {z} ) ( {x} {y} {} ) ( {} {y} {z} )", z + 1, x + 1),
            format!("( {x} {y} {z} ) ( {} {y} {z} ) ( {x} {} {z} )", x + 1, y + 1), format!("( {a} {b} {d} ) ( {a} {} {d} ) ( {} {b} {d} )", b + 1, a + 1),
            format!("( {a} {b} {d} ) ( {} {b} {d} ) ( {a} {b} {} )", a + 1, d + 1), format!("( {a} {b} {d} ) ( {a} {b} {} ) ( {a} {} {d} )", d + 1, b + 1),
        ] { s.push_str(&format!("{f} {} {}\n", r.pick(t), r.pick(&["0 0 0 1 1", "3 -4 30 0.7 1", "[ 1 0 0 3 ] [ 0 -1 0 4 ] 0 1 1", "[ 0.6 0.8 0 3 ] [ 0 0 -1 4 ] 12 0.3 1"]))); }
        s.push_str("}\n");
    };
    s.push_str("{\n\"classname\" \"worldspawn\"\n");
    br(r, &mut s, &["a", "b", "c", "hint", "wall"]);
    br(r, &mut s, &["*water0"]);
    br(r, &mut s, &["*slime0"]);
    s.push_str("}\n");
    for i in 0..2 + r.below(4) {
        s.push_str(&format!("{{\n\"classname\" \"func_wall\"\n\"_tb_id\" \"{}\"\n\"k{}\" \"v\"\n\"k{}\" \"v\"\n", i + 1, r.below(9), r.below(9)));
        if i > 0 && r.chance(1, 2) { s.push_str(&format!("\"_tb_group\" \"{}\"\n", 1 + r.below(i))); }
        br(r, &mut s, &["a", "b", "c", "hint", "wall"]);
        s.push_str("}\n");
    }
    s
}
fn s08_import(text: &str, file: Option<&std::path::Path>) -> Result<(String, Vec<String>), String> {
    use quarchitect::map::quake::{parser, tokenizer};
    // the texture sizes belong to the configuration, which may differ from one import to the next
    let size = 16 << (text.len() % 4);
    let mut ti = std::collections::HashMap::new();
    for t in ["a", "b", "c", "hint", "wall", "*water0", "*slime0"] { ti.insert(t.to_string(), quarchitect::Texture::new(size, 64)); }
    let fp: Vec<forge::Property> = (0..9).map(|i| forge::Property::new(&format!("k{}", i), "", "", forge::PropertyData::String("d".into()))).collect();
    let fg = forge::GameData::new("g".into(), vec![], vec![forge::Entity::new(forge::ClassType::SolidClass, vec![], "func_wall", "", fp)]);
    let ls = ["*water0", "*slime0"].iter().map(|t| WorldspawnLayer::new(format!("L{}", t), t.to_string(), EntityType::class("W"), ComponentType::None, VisualType::Mesh, CollisionType::Concave)).collect();
    let defs = vec![def("worldspawn", VisualType::Mesh, CollisionType::Convex), def("func_wall", VisualType::Mesh, CollisionType::Concave)];
    let (info, black) = (quarchitect::TextureInfo(ti), TextureBlacklist::new(vec!["hint".into()], vec!["c".into()]));
    let tree = match file {
        Some(p) => {
            std::fs::write(p, text).map_err(|e| e.to_string())?;
            quarchitect::run(quarchitect::Config::new(p.to_str().unwrap(), info, black, fg, gd(defs, ls))).map_err(|e| e.to_string())?
        }
        None => {
            let toks = tokenizer::run(text.to_string());
            let (_, es) = parser::run(&toks).map_err(|e| format!("{:?}", e))?;
            let geo = quarchitect::geo_builder::run(&info, &es);
            let (data, layers) = layer_filter::run(es.into_iter().zip(geo).collect()).map_err(|e| format!("{:?}", e))?;
            scene_tree::run(&fg, &gd(defs, ls), &black, &data, &layers)
        }
    };
    let mut o = String::new();
    for n in &tree { canon(n, &mut o); }
    Ok((o, tree.iter().map(|n| actor(n).map(|a| a.0.name.clone()).unwrap_or_default()).collect()))
}
/// The same import in a process of its own, with another number of worker threads.
fn s08_elsewhere(text: &str, threads: usize) -> Result<String, String> {
    let f = Scratch(std::env::temp_dir().join(format!("qmap-s08-{}", std::process::id())));
    let o = Scratch(std::env::temp_dir().join(format!("qmap-s08-{}-out", std::process::id())));
    let e = |e: std::io::Error| e.to_string();
    std::fs::write(&f.0, text).map_err(e)?;
    let a: Vec<String> = std::env::args().collect();
    let st = std::process::Command::new(std::env::current_exe().map_err(e)?).args(&a[1..4.min(a.len())]).arg("quick")
        .env("QV_S08_MAP", &f.0).env("QV_S08_OUT", &o.0).env("RAYON_NUM_THREADS", threads.to_string())
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().map_err(e)?;
    if !st.success() { return Err("the import in another process failed".into()); }
    std::fs::read_to_string(&o.0).map_err(e)
}
fn s08(c: &mut Ctx) {
    if let (Some(m), Some(o)) = (std::env::var_os("QV_S08_MAP"), std::env::var_os("QV_S08_OUT")) {
        let r = s08_import(&std::fs::read_to_string(m).unwrap(), None);
        std::fs::write(o, match r { Ok((t, _)) => t, Err(e) => format!("error {}", e) }).unwrap();
        std::process::exit(0);
    }
    let mut r = Rng::new(c.seed ^ 19);
    let file = Scratch(std::env::temp_dir().join(format!("qmap-s08-{}-in", std::process::id())));
    for round in 0..c.n(60, 600) {
        let m = s08_map(&mut r);
        c.case(m.clone(), true, || {
            let (first, names) = s08_import(&m, None)?;
            if names.len() < 3 || names[1] != "L*slime0" || names[2] != "L*water0" { return Err(format!("top level is {:?}: layers not in the order of their textures", names)); }
            for _ in 0..12 {
                let (x, _) = s08_import(&m, None)?;
                if x != first { return Err(format!("two imports differ:\n{}\n{}", first, x)); }
            }
            // the whole import of a file, with another file under the same name in between
            let other = m.replace("\"v\"", "\"w\"").replace("64 ", "63 ");
            for t in [&m, &other, &m] {
                let (x, _) = s08_import(t, Some(&file.0))?;
                let y = if *t == m { first.clone() } else { s08_import(t, None)?.0 };
                if x != y { return Err(format!("importing the file and importing its text differ:\n{}\n{}", x, y)); }
            }
            for t in [1, 2 + round % 7] {
                let x = s08_elsewhere(&m, t)?;
                if x != first { return Err(format!("imports by two processes differ (the other one had {} threads):\n{}\n{}", t, first, x)); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}
