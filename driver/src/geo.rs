mod common;
use common::*;
use quarchitect::geo_builder::{self, brush_plane, entity};
use quarchitect::map::quake::{Brush, BrushPlane, Entity, ExtraData};
use quarchitect::map::UV;
use quarchitect::{Color, Texture, TextureInfo, Vector2, Vector3};
use std::collections::HashMap;

fn main() {
    main_with(&[
        ("G01", "random brushes (integer boxes, wedges, cut corners at, just inside and just outside the tolerance, prisms, redundant, degenerate and shallow planes, shuffled); non-trivial: some face has a corner", g01),
        ("G02", "faces of random brushes (boxes, prisms of up to 12 sides, cut boxes), planes shuffled and points rotated; non-trivial: a face with at least 3 corners", g02),
        ("G03", "faces of random brushes with random standard and Valve mappings, incl. 45 degree ties; non-trivial: textured corner", g03),
        ("G04", "faces of random brushes with random rotations and mirrored scales; non-trivial: a face with a corner", g04),
        ("G05", "random brushes under all kinds of _phong and _phong_angle values; non-trivial: _phong is 1", g05),
        ("G06", "random maps of entities with and without origin, brushes without faces, entities without brushes; non-trivial: at least one brush", g06),
    ]);
}

type V = [f64; 3];
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn mul(a: V, s: f64) -> V { [a[0] * s, a[1] * s, a[2] * s] }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn len(a: V) -> f64 { dot(a, a).sqrt() }
fn unit(a: V) -> V { mul(a, 1.0 / len(a)) }
fn g(v: Vector3) -> V { [v.x() as f64, v.y() as f64, v.z() as f64] }
fn close(a: V, b: V, e: f64) -> bool { len(sub(a, b)) <= e * (1.0 + len(a).max(len(b)) * 1e-3) }
fn normal(p: &BrushPlane) -> V { unit(cross(sub(g(p.v2), g(p.v0)), sub(g(p.v1), g(p.v0)))) }
fn dist(p: &BrushPlane) -> f64 { dot(normal(p), g(p.v0)) }
fn v3(x: f32, y: f32, z: f32) -> Vector3 { Vector3::new(x, y, z) }

fn desc_plane(p: &BrushPlane) -> String {
    let q = |v: Vector3| format!("( {} {} {} )", v.x(), v.y(), v.z());
    let uv = match &p.uv {
        UV::Quake(u) => format!("{} {}", u.u, u.v),
        UV::Valve(u) => format!("[ {} {} {} {} ] [ {} {} {} {} ]", u.u_axis.x(), u.u_axis.y(), u.u_axis.z(), u.u_offset, u.v_axis.x(), u.v_axis.y(), u.v_axis.z(), u.v_offset),
    };
    format!("{} {} {} {} {} {} {} {}", q(p.v0), q(p.v1), q(p.v2), p.texture, uv, p.rotation, p.scale.x(), p.scale.y())
}
fn desc(e: &Entity) -> String {
    let mut props: Vec<_> = e.properties.iter().map(|(k, v)| format!("\"{}\" \"{}\"", k, v)).collect();
    props.sort();
    let b: Vec<String> = e.brushes.iter().map(|b| format!("{{\n{}\n}}", b.planes.iter().map(desc_plane).collect::<Vec<_>>().join("\n"))).collect();
    format!("{{\n{}\n{}\n}}", props.join("\n"), b.join("\n"))
}
fn plane(v0: Vector3, v1: Vector3, v2: Vector3) -> BrushPlane {
    BrushPlane { v0, v1, v2, texture: "wall".into(), uv: UV::standard(0.0, 0.0), rotation: 0.0, scale: Vector2::new(1.0, 1.0), extra: ExtraData::None }
}
/// The plane n.x = d with outward normal n through a point p on it; k picks the point triple.
fn plane_at(n: V, p: V, k: usize) -> BrushPlane {
    let h = if n[0].abs() < 0.6 * len(n) { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    let a = unit(cross(n, h));
    let b = unit(cross(a, n));
    let t = k as f64 * 0.7;
    let u = add(mul(a, t.cos()), mul(b, t.sin()));
    let w = unit(cross(u, n)); // u x w = -n direction: normal is (v2-v0)x(v1-v0)
    let q = |v: V| v3(v[0] as f32, v[1] as f32, v[2] as f32);
    // (v2-v0) x (v1-v0) = w' x u ; want n
    let (v1, v2) = (add(p, mul(u, 8.0)), add(p, mul(w, 8.0)));
    let pl = plane(q(p), q(v1), q(v2));
    if dot(normal(&pl), n) > 0.0 { pl } else { plane(q(p), q(v2), q(v1)) }
}
/// Axis plane with exact integer points.
fn axis_plane(ax: usize, pos: bool, at: f32, r: &mut Rng) -> BrushPlane {
    let (b, d) = (r.range(-3, 3) as f32, r.range(-3, 3) as f32);
    let e = [(ax + 1) % 3, (ax + 2) % 3];
    let mk = |x: f32, y: f32| { let mut c = [0.0; 3]; c[ax] = at; c[e[0]] = x; c[e[1]] = y; v3(c[0], c[1], c[2]) };
    let s = r.range(1, 4) as f32;
    let (p0, pa, pb) = (mk(b, d), mk(b + s, d), mk(b, d + s));
    let pl = plane(p0, pa, pb);
    let want = if pos { 1.0 } else { -1.0 };
    if normal(&pl)[ax] * want > 0.0 { pl } else { plane(p0, pb, pa) }
}
fn daik(r: f32, g: f32, b: f32) -> ExtraData {
    let t: Vec<String> = [r, g, b].iter().map(|x| x.to_string()).collect();
    match ExtraData::daikatana(vec!["1", "2", "3", &t[0], &t[1], &t[2]]) { Ok(x) => x, Err(_) => panic!("a Daikatana colour is rejected") }
}
fn shuffle<T>(v: &mut Vec<T>, r: &mut Rng) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }
fn rbox(r: &mut Rng) -> Vec<BrushPlane> {
    let mut ps = vec![];
    for ax in 0..3 {
        let lo = r.range(-12, 10);
        // mostly whole numbers; at times a side far thinner than a unit, still exact in f32
        let thin = *r.pick(&[1.0, 1.0, 1.0, 0.0625, 0.015625, 0.0078125]);
        let hi = lo as f32 + r.range(1, 9) as f32 * thin;
        ps.push(axis_plane(ax, false, lo as f32, r));
        ps.push(axis_plane(ax, true, hi, r));
    }
    ps
}
/// A box of whole-numbered sides far from the origin; the sides are exact in f32. Now and then with a
/// further side a sixteenth of a unit inside or outside of one of them.
fn far_box(r: &mut Rng) -> Vec<BrushPlane> {
    let mut ps = vec![];
    for ax in 0..3 {
        let o = *r.pick(&[0, 1024, -1024, 4096, -4096, 5000, 8192, -8192]);
        let lo = o + r.range(-12, 10);
        let hi = lo + r.range(1, 9);
        ps.push(axis_plane(ax, false, lo as f32, r));
        ps.push(axis_plane(ax, true, hi as f32, r));
        if r.chance(1, 4) { let at = hi as f32 + *r.pick(&[-0.0625, 0.0625]); ps.push(axis_plane(ax, true, at, r)); }
    }
    ps
}
fn prism(r: &mut Rng, n: usize) -> Vec<BrushPlane> {
    let mut ps = vec![];
    let c = [r.range(-8, 8) as f64, r.range(-8, 8) as f64, 0.0];
    let off = r.f(0.0, 1.0) as f64;
    for i in 0..n {
        let a = (i as f64 + off + 0.3 * r.f(0.0, 1.0) as f64) / n as f64 * std::f64::consts::TAU;
        let nn = [a.cos(), a.sin(), 0.0];
        let k = r.below(9);
        ps.push(plane_at(nn, add(c, mul(nn, 6.0)), k));
    }
    ps.push(axis_plane(2, false, -4.0, r));
    ps.push(axis_plane(2, true, r.range(1, 9) as f32, r));
    ps
}
/// Rarely, a brush of many sides.
fn many(r: &mut Rng) -> Option<Vec<BrushPlane>> {
    if !r.chance(1, 250) { return None; }
    let n = *r.pick(&[11, 13, 17, 24, 31, 34, 40]);
    let mut p = prism(r, n);
    shuffle(&mut p, r);
    Some(p)
}
/// Regular prism: neighbouring sides meet at exactly 360/n degrees (up to rounding).
fn regular(r: &mut Rng, n: usize) -> Vec<BrushPlane> {
    let mut ps = vec![];
    for i in 0..n {
        let a = i as f64 / n as f64 * std::f64::consts::TAU;
        let k = r.below(9);
        ps.push(plane_at([a.cos(), a.sin(), 0.0], [6.0 * a.cos(), 6.0 * a.sin(), 0.0], k));
    }
    ps.push(axis_plane(2, false, -4.0, r));
    ps.push(axis_plane(2, true, 4.0, r));
    ps
}
fn brush(r: &mut Rng) -> Vec<BrushPlane> {
    if let Some(p) = many(r) { return p; }
    let mut ps = match r.below(10) {
        0..=3 => rbox(r),
        4 | 5 => { let n = 3 + r.below(6); prism(r, n) }
        6 => {
            // box with one corner cut by a slanted plane
            let mut ps = rbox(r);
            let n = unit([r.range(-3, 3) as f64 + 0.5, r.range(-3, 3) as f64 + 0.5, r.range(-3, 3) as f64 + 0.5]);
            let s: V = [0, 1, 2].map(|ax| { let i = if n[ax] > 0.0 { 2 * ax + 1 } else { 2 * ax }; g(ps[i].v0)[ax] });
            let k = r.below(9);
            ps.push(plane_at(n, sub(s, mul(n, r.f(0.2, 1.0) as f64)), k));
            ps
        }
        7 => {
            // plane just inside or outside the hull tolerance at a corner
            let mut ps = rbox(r);
            let n = unit([1.0, 1.0, 1.0]);
            let s: V = [0, 1, 2].map(|ax| g(ps[2 * ax + 1].v0)[ax]);
            let k = r.below(9);
            let d = *r.pick(&[0.0, 0.0004, 0.003, -0.0004, -0.003, 0.01, 0.05]);
            ps.push(plane_at(n, sub(s, mul(n, d)), k));
            ps
        }
        8 => {
            // shallow crossing: two nearly parallel planes
            let mut ps = rbox(r);
            let t = *r.pick(&[0.0003, 0.0007, 0.0015, 0.002, 0.004, 0.05]);
            let ax = 1;
            let at = g(ps[2 * ax + 1].v0)[ax];
            let lo = g(ps[0].v0)[0]; let hi = g(ps[1].v0)[0];
            let k = r.below(9);
            ps.push(plane_at(unit([t, 1.0, 0.0]), [(lo + hi) / 2.0, at, 0.0], k));
            ps
        }
        _ => {
            // random directions around the origin
            let n = 4 + r.below(5);
            (0..n).map(|_| { let d = unit([r.f(-1.0, 1.0) as f64, r.f(-1.0, 1.0) as f64, r.f(-1.0, 1.0) as f64 + 0.01]); let k = r.below(9); plane_at(d, mul(d, 3.0 + r.below(5) as f64), k) }).collect()
        }
    };
    if r.chance(1, 12) { shuffle(&mut ps, r); let n = 2 + r.below(4); ps.truncate(n); } // open
    if r.chance(1, 6) { let i = r.below(ps.len()); let p = &ps[i]; let q = plane(p.v0, p.v1, p.v2); ps.push(q); } // redundant
    if r.chance(1, 8) { let a = v3(r.range(-4, 4) as f32, 1.0, 2.0); let b = v3(1.0, r.range(-4, 4) as f32, 2.0); let q = match r.below(3) { 0 => plane(a, a, a), 1 => plane(a, b, a), _ => plane(a, b, b) }; ps.push(q); } // degenerate
    shuffle(&mut ps, r);
    ps
}
const CLASSES: [&str; 8] = ["func_wall", "worldspawn", "func_detail", "trigger_once", "func_group", "func_rotating", "func_detail_wall", "info_null"];
fn ent(ps: Vec<BrushPlane>, props: &[(&str, &str)]) -> Entity {
    let mut e = Entity::new();
    let mut b = Brush::new();
    b.planes = ps;
    e.brushes.push(b);
    for (k, v) in props { e.properties.insert(k.to_string(), v.to_string()); }
    if e.brushes[0].planes.len() % 2 == 0 { e.properties.insert("classname".into(), CLASSES[e.brushes[0].planes.len() / 2 % CLASSES.len()].into()); }
    e
}
fn info() -> TextureInfo { sized(0) }
/// The same names with sizes of another texture set.
fn sized(k: u32) -> TextureInfo {
    let mut m = HashMap::new();
    m.insert("wall".to_string(), Texture::new(64 << k, 32));
    m.insert("floor".to_string(), Texture::new(16, 128 >> k));
    m.insert("zero".to_string(), Texture::new(0, 0));
    m.insert("big".to_string(), Texture::new(70000, 196608));
    m.insert("GRASS".to_string(), Texture::new(8, 8));
    m.insert("stone ".to_string(), Texture::new(8, 8));
    m.insert("square".to_string(), Texture::new(64, 64));
    m.insert("{dot".to_string(), Texture::new(1, 1));
    m.insert("sky1".to_string(), Texture::new(64, 64));
    m.insert("trigger".to_string(), Texture::new(64, 64));
    TextureInfo(m)
}
fn build(e: &Entity) -> entity::Geometry {
    let mut one = vec![];
    std::mem::swap(&mut one, &mut vec![clone_ent(e)]);
    geo_builder::run(&info(), &one).pop().unwrap()
}
fn build_sized(e: &Entity, k: u32) -> entity::Geometry { geo_builder::run(&sized(k), &[clone_ent(e)]).pop().unwrap() }
fn clone_plane(p: &BrushPlane) -> BrushPlane {
    BrushPlane {
        v0: p.v0, v1: p.v1, v2: p.v2, texture: p.texture.clone(),
        uv: match &p.uv { UV::Quake(u) => UV::standard(u.u, u.v), UV::Valve(u) => UV::valve(u.u_axis, u.u_offset, u.v_axis, u.v_offset) },
        rotation: p.rotation, scale: p.scale,
        extra: match &p.extra { ExtraData::None => ExtraData::None, ExtraData::Hexen2(x) => ExtraData::Hexen2(*x), ExtraData::Daikatana(_, c) => daik(c.r, c.g, c.b), _ => panic!() },
    }
}
fn clone_ent(e: &Entity) -> Entity {
    let mut o = Entity::new();
    o.properties = e.properties.clone();
    for b in &e.brushes { let mut n = Brush::new(); n.planes = b.planes.iter().map(clone_plane).collect(); o.brushes.push(n); }
    o
}

/// Corner candidates of face i: (point, j, k); and points too close to a tolerance to call.
fn corners(ps: &[BrushPlane], i: usize, exact: bool) -> (Vec<(V, usize, usize)>, Vec<V>, bool) {
    let mut sure = vec![];
    let mut maybe = vec![];
    let mut vague = false;
    let ok = |p: &BrushPlane| len(cross(sub(g(p.v2), g(p.v0)), sub(g(p.v1), g(p.v0)))) > 0.0;
    if !ok(&ps[i]) { return (sure, maybe, vague); }
    let n0 = normal(&ps[i]);
    for j in 0..ps.len() {
        for k in 0..ps.len() {
            if !ok(&ps[j]) || !ok(&ps[k]) { continue; }
            let (n1, n2) = (normal(&ps[j]), normal(&ps[k]));
            let den = dot(cross(n0, n1), n2);
            if den < 0.0009 { continue; }
            let pt = mul(add(add(mul(cross(n1, n2), dist(&ps[i])), mul(cross(n2, n0), dist(&ps[j]))), mul(cross(n0, n1), dist(&ps[k]))), 1.0 / den);
            let mut state = if den < 0.0011 { 1 } else { 2 };
            // rounding of a shallow crossing grows as 1/den
            let slop = if exact { 5e-4 } else { 3e-4 + 3e-6 * len(pt).max(10.0) / den };
            for h in ps.iter().filter(|h| ok(h)) {
                let out = dot(normal(h), pt) - dist(h);
                if out > 0.001 + slop { state = 0; break; }
                if out > 0.001 - slop { state = 1; }
            }
            match state { 2 => sure.push((pt, j, k)), 1 => { maybe.push(pt); vague = true }, _ => () }
        }
    }
    (sure, maybe, vague)
}
fn cluster(ps: &[V], e: f64) -> Vec<V> {
    let mut o: Vec<V> = vec![];
    for p in ps { if !o.iter().any(|q| len(sub(*p, *q)) < e) { o.push(*p); } }
    o
}

fn g01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for round in 0..c.n(4000, 60000) {
        if !c.within(25, 300) { return; }
        let exact = round % 3 == 0 && round % 400 != 399;
        let ps = if round % 400 == 399 { let n = *r.pick(&[24, 34, 40, 50]); let mut p = prism(&mut r, n); shuffle(&mut p, &mut r); p } else if exact { let mut p = if r.chance(1, 4) { far_box(&mut r) } else { rbox(&mut r) }; if r.chance(1, 3) { let i = r.below(6); let q = clone_plane(&p[i]); p.push(q); } shuffle(&mut p, &mut r); p } else { brush(&mut r) };
        let e = ent(ps, &junk(&mut r));
        let geo = std::panic::catch_unwind(|| build(&e));
        let some = geo.as_ref().map_or(true, |g| g.brush_geometry[0].plane_geometry.iter().any(|p| !p.vertices.is_empty()));
        c.case(desc(&e), some, || {
            let geo = geo.map_err(|_| "the real code panicked")?;
            let ps = &e.brushes[0].planes;
            for i in 0..ps.len() {
                let got: Vec<V> = geo.brush_geometry[0].plane_geometry[i].vertices.iter().map(|v| g(v.vertex)).collect();
                let (sure, maybe, vague) = corners(ps, i, exact);
                let tol = 0.02;
                let exp: Vec<V> = cluster(&sure.iter().map(|s| s.0).collect::<Vec<_>>(), 1e-4);
                for x in &exp { if !got.iter().any(|y| close(*x, *y, tol)) { return Err(format!("face {} lacks corner {:?}; it has {:?}", i, x, got)); } }
                for y in &got { if !exp.iter().chain(&maybe).any(|x| close(*x, *y, if vague { 0.1 } else { tol })) { return Err(format!("face {} has corner {:?}, expected only {:?}", i, y, exp)); } }
                if exact && got.len() != exp.len() { return Err(format!("face {} has {} corners {:?}, expected {:?}", i, got.len(), got, exp)); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}

fn g02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 2);
    for round in 0..c.n(4000, 60000) {
        if !c.within(25, 300) { return; }
        let ps = if round % 200 == 199 { let n = *r.pick(&[24, 34, 40, 66]); let mut p = prism(&mut r, n); shuffle(&mut p, &mut r); p } else { match r.below(4) { 0 => rbox(&mut r), 1 | 2 => { let n = 3 + r.below(9); let mut p = prism(&mut r, n); shuffle(&mut p, &mut r); p } _ => brush(&mut r) } };
        let e = ent(ps, &junk(&mut r));
        let mut big = false;
        let geo = std::panic::catch_unwind(|| build(&e));
        if let Ok(g) = &geo { big = g.brush_geometry[0].plane_geometry.iter().any(|p| p.vertices.len() > 2); }
        c.case(desc(&e), big, || {
            let geo = geo.map_err(|_| "the real code panicked")?;
            for (pl, f) in e.brushes[0].planes.iter().zip(&geo.brush_geometry[0].plane_geometry) {
                let n = f.vertices.len();
                let fan: Vec<usize> = (0..n.saturating_sub(2)).flat_map(|i| vec![0, i + 1, i + 2]).collect();
                if f.indices != fan { return Err(format!("{} corners with indices {:?}", n, f.indices)); }
                if n < 3 { continue; }
                let pts: Vec<V> = f.vertices.iter().map(|v| g(v.vertex)).collect();
                let ctr = mul(pts.iter().fold([0.0; 3], |a, b| add(a, *b)), 1.0 / n as f64);
                let u = unit(sub(g(pl.v1), g(pl.v0)));
                let v = cross(normal(pl), u);
                let ang: Vec<Option<f64>> = pts.iter().map(|p| { let d = sub(*p, ctr); if len(d) < 1e-3 { None } else { Some(dot(d, v).atan2(dot(d, u))) } }).collect();
                for w in ang.windows(2) {
                    if let (Some(a), Some(b)) = (w[0], w[1]) {
                        let pi = std::f64::consts::PI;
                        if a.abs() > pi - 1e-3 || b.abs() > pi - 1e-3 { continue; } // may round to either end
                        if b > a + 1e-3 { return Err(format!("corners {:?} stand at angles {:?}", pts, ang)); }
                    }
                }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}

fn tie_plane(r: &mut Rng) -> BrushPlane {
    // planes whose normal has two or three equal components
    let q = *r.pick(&[[1.0, 0.0, 1.0], [0.0, 1.0, 1.0], [1.0, 1.0, 0.0], [-1.0, 0.0, 1.0], [1.0, -1.0, 0.0], [0.0, 1.0, -1.0], [1.0, 1.0, 1.0], [-1.0, 1.0, 1.0]]);
    let k = 0;
    plane_at(unit(q), mul(unit(q), 5.0), k)
}
fn decorate(ps: &mut Vec<BrushPlane>, r: &mut Rng) {
    for p in ps.iter_mut() {
        p.texture = r.pick(&["wall", "wall", "wall", "floor", "floor", "unknown", "*wall", "Wall", "wall ", "square", "{dot", "", "textures/wall", "wall2", "trigger", "clip", "origin", "nodraw", "null", "sky1", "__TB_empty", "zero", "big", "grass", "stone"]).to_string();
        p.rotation = *r.pick(&[0.0, 0.0, 30.0, 45.0, -90.0, 12.5, 180.0, 90.0, 270.0, 360.0, 405.0, -450.0, 1000.0]);
        p.scale = Vector2::new(*r.pick(&[1.0, 2.0, -1.0, 0.5, 0.25, 0.001, 64.0]), *r.pick(&[1.0, -2.0, 3.0, 0.5, -0.5, 0.001, -64.0]));
        p.uv = if r.chance(1, 2) { UV::standard(r.range(-32, 32) as f32, r.range(-32, 32) as f32) } else {
            UV::valve(v3(r.range(-3, 3) as f32, r.range(-3, 3) as f32, r.range(-3, 3) as f32), r.range(-16, 16) as f32, v3(r.range(-3, 3) as f32 + 0.5, r.range(-3, 3) as f32, r.range(-3, 3) as f32), r.range(-16, 16) as f32)
        };
        if r.chance(1, 10) {
            let o = *r.pick(&[256.0, -300.0, 1024.0, 2048.0, -5000.0, 40000.0]);
            let k = r.range(-9, 9) as f32;
            p.uv = if r.chance(1, 2) { if r.chance(1, 2) { UV::standard(o, k) } else { UV::standard(k, o) } } else { let (a, b) = (v3(1.0, 0.0, r.range(0, 2) as f32), v3(0.0, -1.0, 0.0)); if r.chance(1, 2) { UV::valve(a, o, b, k) } else { UV::valve(a, k, b, o) } };
            p.scale = Vector2::new(*r.pick(&[1.0, -1.0, 2.0]), *r.pick(&[1.0, -1.0, 2.0]));
        }
        if r.chance(1, 12) { p.scale = Vector2::new(1.0, *r.pick(&[0.0, -0.0])); }
        if r.chance(1, 5) { p.extra = ExtraData::Hexen2(1.0); }
        if r.chance(1, 5) { p.extra = daik(*r.pick(&[0.0, 0.0, 0.5, 1.0, -1.0]), *r.pick(&[0.0, 0.0, 1.0]), *r.pick(&[0.0, 0.0, 0.25])); if r.chance(1, 4) { p.extra = daik(1.0, 1.0, 1.0); } }
    }
}
/// f32 normal as a plane defines it, for exact ties between components
fn n32(p: &BrushPlane) -> V { g((p.v2 - p.v0).cross(p.v1 - p.v0).normalize()) }
fn dominant(n: V) -> usize {
    let a = n.map(|x| x.abs());
    if a[2] >= a[1] && a[2] >= a[0] { 2 } else if a[1] >= a[2] && a[1] >= a[0] { 1 } else { 0 }
}
fn fuzzy_dominant(n: V) -> bool {
    let mut a = n.map(|x| x.abs());
    a.sort_by(|x, y| y.partial_cmp(x).unwrap());
    a[0] - a[1] < 1e-6 && a[0] != a[1]
}
fn with_faces(c: &mut Ctx, salt: u64, f: fn(&BrushPlane, &brush_plane::Geometry, u32) -> Result<(), String>) {
    let mut r = Rng::new(c.seed ^ salt);
    for _ in 0..c.n(4000, 60000) {
        if !c.within(25, 300) { return; }
        let mut ps = if r.chance(1, 4) { let mut p = rbox(&mut r); for q in p.iter_mut() { *q = plane_at(normal(q), mul(normal(q), 9.0), 0); } p.push(tie_plane(&mut r)); p } else { brush(&mut r) };
        decorate(&mut ps, &mut r);
        let e = ent(ps, &junk(&mut r));
        let k = r.below(4) as u32;
        // nothing of another texture set or entity is left over
        let geo = std::panic::catch_unwind(|| { if k > 1 { build_sized(&e, 3 - k); } build_sized(&e, k) });
        let some = geo.as_ref().map_or(true, |g| g.brush_geometry[0].plane_geometry.iter().any(|p| !p.vertices.is_empty()));
        c.case(format!("wall is {} wide, floor {} high\n{}", 64 << k, 128 >> k, desc(&e)), some, || {
            let geo = geo.map_err(|_| "the real code panicked")?;
            for (p, q) in e.brushes[0].planes.iter().zip(&geo.brush_geometry[0].plane_geometry) { f(p, q, k)?; }
            Ok(())
        });
        if c.stop() { return; }
    }
}
fn g03(c: &mut Ctx) {
    with_faces(c, 3, |p, f, set| {
        let size = match p.texture.as_str() { "wall" => Some(((64 << set) as f64, 32.0)), "floor" => Some((16.0, (128 >> set) as f64)), "square" | "sky1" | "trigger" => Some((64.0, 64.0)), "{dot" => Some((1.0, 1.0)), "big" => Some((70000.0, 196608.0)), "zero" => Some((0.0, 0.0)), _ => None };
        for v in &f.vertices {
            let (w, h) = match (size, v.uv) {
                (None, None) => continue,
                (Some(s), Some(_)) => s,
                _ => return Err(format!("texture {:?} has coordinates {:?}", p.texture, v.uv)),
            };
            let uv = v.uv.unwrap();
            // a size of zero divides by zero
            if w == 0.0 { if uv.x().is_finite() || uv.y().is_finite() { return Err(format!("a texture of size zero gives coordinates {:?}", uv)); } continue; }
            let x = g(v.vertex);
            let n = n32(p);
            if fuzzy_dominant(n) { continue; }
            let (sx, sy) = (p.scale.x() as f64, p.scale.y() as f64);
            let e = match &p.uv {
                UV::Quake(q) => {
                    let (a, b) = match dominant(n) { 2 => (x[0], -x[1]), 1 => (x[0], -x[2]), _ => (x[1], -x[2]) };
                    let t = (p.rotation as f64).to_radians();
                    let (a, b) = (a * t.cos() - b * t.sin(), a * t.sin() + b * t.cos());
                    (a / w / sx + q.u as f64 / w, b / h / sy + q.v as f64 / h)
                }
                UV::Valve(q) => (dot(g(q.u_axis), x) / w / sx + q.u_offset as f64 / w, dot(g(q.v_axis), x) / h / sy + q.v_offset as f64 / h),
            };
            if (uv.x() as f64 - e.0).abs() > 1e-3 * (1.0 + e.0.abs()) || (uv.y() as f64 - e.1).abs() > 1e-3 * (1.0 + e.1.abs()) {
                return Err(format!("corner {:?} of {} has texture coordinates {:?}, expected {:?}", x, desc_plane(p), uv, e));
            }
        }
        Ok(())
    });
}
fn sg(x: f64) -> f64 { if x.is_sign_negative() { -1.0 } else { 1.0 } }
fn g04(c: &mut Ctx) {
    with_faces(c, 4, |p, f, _| {
        for v in &f.vertices {
            let n = n32(p);
            let (t, s) = (g(v.tangent.0), v.tangent.1 as f64);
            let (et, es) = match &p.uv {
                UV::Quake(_) => {
                    if fuzzy_dominant(n) { continue; }
                    let (d, sign) = match dominant(n) { 2 => ([1.0, 0.0, 0.0], sg(n[2])), 1 => ([1.0, 0.0, 0.0], -sg(n[1])), _ => ([0.0, 1.0, 0.0], sg(n[0])) };
                    let a = -(p.rotation as f64).to_radians() * sign;
                    // Rodrigues
                    let t = add(add(mul(d, a.cos()), mul(cross(n, d), a.sin())), mul(n, dot(n, d) * (1.0 - a.cos())));
                    (t, sign * sg(p.scale.y() as f64))
                }
                UV::Valve(q) => {
                    let k = dot(cross(n, g(q.u_axis)), g(q.v_axis));
                    if k.abs() < 1e-4 { if t == g(q.u_axis) { continue; } }
                    (g(q.u_axis), -sg(k))
                }
            };
            if !close(t, et, 1e-3) || s != es { return Err(format!("corner of {} has tangent {:?} {}, expected {:?} {}", desc_plane(p), t, s, et, es)); }
        }
        Ok(())
    });
}
fn g05(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 5);
    for _ in 0..c.n(4000, 60000) {
        if !c.within(25, 300) { return; }
        let ps = match r.below(4) { 0 | 1 => { let n = 3 + r.below(10); prism(&mut r, n) } 2 => if r.chance(1, 2) { rbox(&mut r) } else { let n = *r.pick(&[3, 4, 6, 8, 12]); regular(&mut r, n) }, _ => brush(&mut r) };
        let phong = *r.pick(&["1", "1", "1", "1", "1", "1", "0", "2", "", "true", " 1", "-", "1 ", "1.0", "01", "+1", "yes", "11"]);
        let angle = *r.pick(&["-", "30", "45", "89", "89.5", "89.995", "89.98", "90", "90.005", "91", "60", "120", "0", "180", "abc", "", "1e1", " 45", "50", "-30", "-45", "-90", "-120", "45.0", "44.98", "45.02", "60.02", "59.98", "181", "200", "270", "315", "360", "405", "450", "45 ", "45deg", "nan", "inf", "-inf", "+45", ".5", "0.01", "179.99", "45,5", "89,9"]);
        let mut props = vec![];
        if phong != "-" { props.push(("_phong", phong)); }
        if angle != "-" { props.push(("_phong_angle", angle)); }
        // keys of like names mean nothing
        for k in ["phong", "phong_angle", "_Phong", "_phong ", "_phong_angle2", "angle", "_phongangle"] { if r.chance(1, 12) { props.push((k, *r.pick(&["1", "30", "0"]))); } }
        props.extend(junk(&mut r));
        let e = ent(ps, &props);
        let odd = r.below(8);
        c.case(desc(&e), phong == "1", || {
            // an entity of the same brushes under other settings comes first
            let mut other = clone_ent(&e);
            for (k, v) in [("_phong", ["1", "0"]), ("_phong_angle", ["1", "179"])] { if odd & 1 != 0 { other.properties.insert(k.into(), v[(odd >> 1) & 1].into()); } }
            let geo = geo_builder::run(&info(), &[other, clone_ent(&e)]).pop().unwrap();
            let ps = &e.brushes[0].planes;
            for i in 0..ps.len() {
                let f = &geo.brush_geometry[0].plane_geometry[i];
                if f.vertices.is_empty() { continue; }
                let (sure, maybe, vague) = corners(ps, i, false);
                let n0 = normal(&ps[i]);
                for v in &f.vertices {
                    let got = g(v.normal);
                    if phong != "1" {
                        if !close(got, n0, 1e-3) { return Err(format!("flat corner {:?} of face {} has normal {:?}, expected {:?}", v.vertex, i, got, n0)); }
                        continue;
                    }
                    if vague && maybe.iter().any(|m| close(*m, g(v.vertex), 0.05)) { continue; }
                    let near: Vec<_> = sure.iter().filter(|s| close(s.0, g(v.vertex), 0.02)).collect();
                    if near.is_empty() { continue; }
                    let mut cand = vec![];
                    let mut unsure = false;
                    for (_, j, k) in near {
                        let mut n = n0;
                        for m in [normal(&ps[*j]), normal(&ps[*k])] {
                            match angle.parse::<f32>() {
                                Ok(a) if angle != "-" => {
                                    let th = ((a as f64 + 0.01) * 0.0174533).cos();
                                    if (dot(n0, m) - th).abs() < 1e-5 { unsure = true; }
                                    if dot(n0, m) > th { n = add(n, m); }
                                }
                                _ => n = add(n, m),
                            }
                        }
                        cand.push(unit(n));
                    }
                    if !unsure && !cand.iter().any(|x| close(*x, got, 2e-3)) { return Err(format!("phong corner {:?} of face {} has normal {:?}, expected one of {:?}", v.vertex, i, got, cand)); }
                }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}
fn mean(v: &[V]) -> V { if v.is_empty() { [0.0; 3] } else { mul(v.iter().fold([0.0; 3], |a, b| add(a, *b)), 1.0 / v.len() as f64) } }
fn g06(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 6);
    for round in 0..c.n(2500, 40000) {
        if !c.within(25, 300) { return; }
        let mut es = vec![];
        let (ne, nb) = match round % 500 { 100 => (40, 2), 200 => (140, 1), 300 => (1, 40), 350 => (300, 1), 400 => (1, 150), 450 => (70, 3), 0 => (1100, 0), _ => (1 + r.below(4), 3) };
        for _ in 0..ne {
            let mut e = Entity::new();
            for _ in 0..if ne > 4 { r.below(nb + 1) } else if nb > 3 { nb } else { r.below(4) } {
                let mut b = Brush::new();
                b.planes = if r.chance(1, 6) { vec![] } else if r.chance(1, 6) { let mut p = rbox(&mut r); p.truncate(2); p } else { brush(&mut r) };
                decorate(&mut b.planes, &mut r);
                if r.chance(1, 9) { for p in b.planes.iter_mut() { p.texture = "zero".into(); } }
                e.brushes.push(b);
            }
            for (k, v) in junk(&mut r) { e.properties.insert(k.to_string(), v.to_string()); }
            if r.chance(1, 2) { e.properties.insert("classname".into(), r.pick(&CLASSES).to_string()); }
            if r.chance(1, 2) { e.properties.insert("origin".into(), r.pick(&["1 2 3", "-4 5.5 6e1", "7", "8 9", "", "a b c", "1 b 3", " 1 2 3", "1  2 3", "1 2 3 4", "0 0 0", "1,2,3", "1, 2, 3", "1\t2\t3", "1 2 3 ", "-0 -0 5", "1e2 -2e1 .5", "1 2", "x 2 3", "1 2 z", "(1 2 3)", "65536 -70000 3", "5.. 1 2", "1 5.. 2", "1 2 3..", "1. .5 3.e1", "1f 2f 3f", "++1 +2 3", "1_0 2 3", "0x1 2 3", "1;2;3", "[1 2 3]", "#1 2 3"]).to_string()); }
            es.push(e);
        }
        let text = es.iter().map(desc).collect::<Vec<_>>().join("\n");
        c.case(text, es.iter().any(|e| !e.brushes.is_empty()), || {
            let geo = geo_builder::run(&info(), &es);
            if geo.len() != es.len() { return Err(format!("{} entities give {} geometries", es.len(), geo.len())); }
            for (i, (e, ge)) in es.iter().zip(&geo).enumerate() {
                if e.brushes.len() != ge.brush_geometry.len() { return Err(format!("entity {}: {} brushes give {} geometries", i, e.brushes.len(), ge.brush_geometry.len())); }
                for (j, (b, gb)) in e.brushes.iter().zip(&ge.brush_geometry).enumerate() {
                    if b.planes.len() != gb.plane_geometry.len() { return Err(format!("entity {} brush {}: {} planes give {} faces", i, j, b.planes.len(), gb.plane_geometry.len())); }
                    for (k, (p, f)) in b.planes.iter().zip(&gb.plane_geometry).enumerate() {
                        let et = if ["wall", "floor", "square", "{dot", "zero", "sky1", "trigger", "big"].contains(&p.texture.as_str()) { Some(p.texture.clone()) } else { None };
                        if f.texture != et { return Err(format!("entity {} brush {} face {}: texture {:?}, expected {:?}", i, j, k, f.texture, et)); }
                        let m = mean(&f.vertices.iter().map(|v| g(v.vertex)).collect::<Vec<_>>());
                        if !close(g(f.center), m, 1e-2) { return Err(format!("entity {} brush {} face {}: centre {:?}, expected {:?}", i, j, k, f.center, m)); }
                        let col = match &p.extra { ExtraData::Daikatana(_, c) => Some((c.r, c.g, c.b)), _ => None };
                        if f.vertices.iter().any(|v| v.color.map(|c| (c.r, c.g, c.b)) != col) { return Err(format!("face {}: colour only where the plane has one", k)); }
                    }
                    let m = mean(&gb.plane_geometry.iter().map(|f| g(f.center)).collect::<Vec<_>>());
                    if !close(g(gb.center), m, 1e-2) { return Err(format!("entity {} brush {}: centre {:?}, expected {:?}", i, j, gb.center, m)); }
                }
                let exp = match e.properties.get("origin") {
                    Some(o) => {
                        let w: Vec<&str> = o.split(' ').collect();
                        let k = |i: usize| w.get(i).and_then(|s| s.parse::<f32>().ok()).unwrap_or(0.0) as f64;
                        [k(0), k(1), k(2)]
                    }
                    None => mean(&ge.brush_geometry.iter().map(|b| g(b.center)).collect::<Vec<_>>()),
                };
                if !close(g(ge.center), exp, 1e-2) { return Err(format!("entity {}: centre {:?}, expected {:?}", i, ge.center, exp)); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
    let _ = Color::default();
}
