mod common;
use common::*;
use quarchitect::game_data::forge::{Choice, ChoiceData, ClassType, Entity, GameData, Metadata, Property, PropertyData};
use quarchitect::game_data::{CollisionType, ComponentType, EntityType, VisualType};
use quarchitect::{Color, Vector3};

fn main() {
    main_with(&[
        ("F01", "random game data over all property, metadata and choice types, 0..5 of each list; non-trivial: at least one entity with a property", f01),
        ("F02", "flag lists of 0..32 names with single-bit, random and extreme defaults; non-trivial: at least one flag", f02),
        ("F03", "every value of every enumeration and every valid code", f03),
    ]);
}
fn s(r: &mut Rng) -> String { r.pick(&["", "a", "foo bar", "x_1", "\u{e9}", "0", "tab\t", "(q)", "[", "longer name here", ":", "%{}", "Info_Player", "ABC", " lead", "trail ", "\"q\"", "two\nlines", "\\", "//", "\u{130}", "5", "-1.50", "a,b", "@x", "1 : 2"]).to_string() }
fn long(r: &mut Rng) -> String { if r.chance(1, 60) { "x".repeat(*r.pick(&[30, 63, 65, 127, 130, 257, 1030])) } else { s(r) } }
fn num(r: &mut Rng) -> f32 { *r.pick(&[0.0, 1.0, -1.0, 0.5, 6.282, -0.0, 1e10, 0.1, 255.0, 100.0, 1.25e-3, 16777216.0, 123456.79, 1e21, f32::MAX, f32::MIN_POSITIVE, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.3, 1.0 / 3.0, -2.5]) }
fn col(r: &mut Rng) -> Color { let mut k = || *r.pick(&[0.0, 1.0, 0.2, 0.4, 0.6, 0.25, 0.5, 0.75, 0.999, 2.0, -1.0, 0.1, 0.3, 0.9, 1.0 / 255.0, 127.5 / 255.0, 254.9 / 255.0, 100.0, 1e10, f32::NAN, -0.0, 1e-6]); Color::new(k(), k(), k()) }
fn v3(r: &mut Rng) -> Vector3 { Vector3::new(num(r), num(r), num(r)) }
fn rcol(c: &Color) -> String { [c.r, c.g, c.b].map(|x| ((x * 255.0) as i32).to_string()).join(" ") }
fn rval(d: &ChoiceData) -> String { match d { ChoiceData::Integer(i) => i.to_string(), ChoiceData::Float(f) => f.to_string(), ChoiceData::String(s) => s.clone() } }
fn rchoice(c: &Choice) -> String {
    let v = match &c.value { ChoiceData::String(s) => ["\"", s, "\""].concat(), x => rval(x) };
    [v, " : \"".into(), c.name.clone(), "\"".into()].concat()
}
fn rv(v: &Vector3, sep: &str) -> String { [v.x(), v.y(), v.z()].map(|x| x.to_string()).join(sep) }
fn rprop(p: &Property) -> String {
    let head = |t: &str, d: String| [&p.name, "(", t, ") : \"", &p.short_description, "\" : ", &d, " : \"", &p.long_description, "\""].concat();
    let q = |x: String| ["\"", &x, "\""].concat();
    match &p.data {
        PropertyData::Integer(i) => head("integer", i.to_string()),
        PropertyData::Float(f) => head("float", f.to_string()),
        PropertyData::Vector3(v) => head("string", q(rv(v, " "))),
        PropertyData::String(v) => head("string", q(v.clone())),
        PropertyData::Color(v) => head("color255", q(rcol(v))),
        PropertyData::Choices(cs, d) => {
            let l: Vec<String> = cs.iter().map(|c| ["\t\t", &rchoice(c), "\n"].concat()).collect();
            [&p.name, "(choices) : \"", &p.short_description, "\" : \"", &rval(&cs[*d as usize].value), "\" =\n\t[\n", &l.concat(), "\t]"].concat()
        }
        PropertyData::Flags(fs, d) => {
            let mut l = String::new();
            for (i, f) in fs.iter().enumerate() { l += &["\t\t", &(1u64 << i).to_string(), " : \"", f, "\" : ", if (*d as u32 as u64) & (1u64 << i) != 0 { "1" } else { "0" }, "\n"].concat(); }
            [&p.name, "(flags) =\n\t[\n", &l, "\t]"].concat()
        }
        PropertyData::TargetSource => [&p.name, "(target_source) : \"", &p.short_description, "\" : : \"", &p.long_description, "\""].concat(),
        PropertyData::TargetDestination => [&p.name, "(target_destination) : \"", &p.short_description, "\" : : \"", &p.long_description, "\""].concat(),
    }
}
fn rmeta(m: &Metadata) -> String {
    match m {
        // an empty base name does not separate from an empty prefix: names are non-empty here
        Metadata::Base(b) => ["base(", &b.join(", "), ")"].concat(),
        Metadata::Color(c) => ["color(", &rcol(c), ")"].concat(),
        Metadata::Size(a, b) => ["size(", &rv(a, ", "), ", ", &rv(b, ", "), ")"].concat(),
    }
}
fn rent(e: &Entity) -> String {
    let mut o = String::from(match e.class_type { ClassType::BaseClass => "@BaseClass ", ClassType::PointClass => "@PointClass ", ClassType::SolidClass => "@SolidClass " });
    for m in &e.metadata { o += &rmeta(m); o += " "; }
    o += &["= ", &e.class_name, " : \"", &e.description, "\"\n[\n"].concat();
    for p in &e.properties { o += "\t"; o += &rprop(p); o += "\n"; }
    o + "]"
}
fn rgd(g: &GameData) -> String {
    let mut o = ["// ", &g.name, "\n\n"].concat();
    for i in &g.includes { o += &["@include \"", i, "\"\n"].concat(); }
    o += "\n";
    for e in &g.definitions { o += &rent(e); o += "\n\n"; }
    o
}
fn prop(r: &mut Rng) -> Property {
    let data = match r.below(9) {
        0 => PropertyData::Integer(*r.pick(&[0, 5, -5, i32::MAX, i32::MIN])), 1 => PropertyData::Float(num(r)), 2 => PropertyData::Vector3(v3(r)), 3 => PropertyData::String(s(r)), 4 => PropertyData::Color(col(r)),
        5 => { let n = 1 + if r.chance(1, 12) { r.below(70) } else { r.below(4) }; let cs = (0..n).map(|_| match r.below(3) { 0 => Choice::integer(&s(r), r.range(-9, 9) as i32), 1 => Choice::float(&s(r), num(r)), _ => Choice::string(&s(r), &s(r)) }).collect(); PropertyData::Choices(cs, r.below(n) as i32) }
        6 => { let n = if r.chance(1, 6) { r.below(33) } else { r.below(6) }; PropertyData::Flags((0..n).map(|_| s(r)).collect(), r.next() as i32) }
        7 => PropertyData::TargetSource, _ => PropertyData::TargetDestination,
    };
    Property::new(&long(r), &long(r), &long(r), data)
}
/// mostly short lists, now and then a long one
fn cnt(r: &mut Rng, n: usize) -> usize { if r.chance(1, 800) { r.below(300) } else if r.chance(1, 40) { r.below(50) } else { r.below(n) } }
fn f01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 31);
    let dir = std::env::temp_dir().join(format!("qfgd-f01-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    f01_cases(c, &mut r, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}
/// the constructors keep what they are given
fn made(r: &mut Rng) -> Result<(), String> {
    fn bits(v: &Vector3) -> [u32; 3] { [v.x().to_bits(), v.y().to_bits(), v.z().to_bits()] }
    let (a, b, k, t) = (v3(r), v3(r), col(r), [long(r), long(r), long(r)]);
    let e = |what: &str, got: String| Err(format!("{} makes {} of {:?} {:?} {:?} {:?}", what, got, a, b, k, t));
    let x = Metadata::size(a, b);
    match &x { Metadata::Size(p, q) if bits(p) == bits(&a) && bits(q) == bits(&b) => (), _ => return e("Metadata::size", format!("{:?}", x)) }
    let x = Metadata::color(k);
    match &x { Metadata::Color(c) if [c.r, c.g, c.b].map(f32::to_bits) == [k.r, k.g, k.b].map(f32::to_bits) => (), _ => return e("Metadata::color", format!("{:?}", x)) }
    let l: Vec<String> = (0..r.below(5)).map(|_| s(r)).collect();
    let x = Metadata::base(l.clone());
    match &x { Metadata::Base(m) if *m == l => (), _ => return e("Metadata::base", format!("{:?} from {:?}", x, l)) }
    let (i, f) = (r.next() as i32, num(r));
    let x = Choice::integer(&t[0], i);
    match &x.value { ChoiceData::Integer(j) if *j == i && x.name == t[0] => (), _ => return e("Choice::integer", format!("{:?}", x)) }
    let x = Choice::float(&t[0], f);
    match &x.value { ChoiceData::Float(j) if j.to_bits() == f.to_bits() && x.name == t[0] => (), _ => return e("Choice::float", format!("{:?}", x)) }
    let x = Choice::string(&t[0], &t[1]);
    match &x.value { ChoiceData::String(j) if *j == t[1] && x.name == t[0] => (), _ => return e("Choice::string", format!("{:?}", x)) }
    let x = Property::new(&t[0], &t[1], &t[2], PropertyData::Integer(i));
    match &x.data { PropertyData::Integer(j) if *j == i && [&x.name, &x.short_description, &x.long_description] == [&t[0], &t[1], &t[2]] => (), _ => return e("Property::new", format!("{:?}", x)) }
    let ms: Vec<Metadata> = (0..r.below(4)).map(|i| Metadata::Base(vec![format!("b{}", i % 2)])).collect();
    let ps: Vec<Property> = (0..r.below(4)).map(|i| Property { name: format!("p{}", i % 2), short_description: s(r), long_description: s(r), data: PropertyData::Integer(i as i32) }).collect();
    let (mt, pt) = (format!("{:?}", ms), format!("{:?}", ps));
    let x = Entity::new(ClassType::SolidClass, ms, &t[0], &t[1], ps);
    if !matches!(x.class_type, ClassType::SolidClass) || x.class_name != t[0] || x.description != t[1] || format!("{:?}", x.metadata) != mt || format!("{:?}", x.properties) != pt { return e("Entity::new", format!("{:?}", x)); }
    let x = GameData::new(t[0].clone(), l.clone(), vec![x.clone(), x]);
    if x.name != t[0] || x.includes != l || x.definitions.len() != 2 { return e("GameData::new", format!("{:?}", x)); }
    Ok(())
}
fn f01_cases(c: &mut Ctx, r: &mut Rng, dir: &std::path::Path) {
    for round in 0..c.n(15000, 200000) {
        let ents: Vec<Entity> = (0..cnt(r, 4)).map(|_| {
            let md = (0..cnt(r, 4)).map(|_| match r.below(3) { 0 => Metadata::Base((0..cnt(r, 4)).map(|i| format!("B{}{}", i, s(r))).collect()), 1 => Metadata::Color(col(r)), _ => Metadata::Size(v3(r), v3(r)) }).collect();
            let ps = (0..cnt(r, 5)).map(|_| prop(r)).collect();
            let ct = *r.pick(&[ClassType::BaseClass, ClassType::PointClass, ClassType::SolidClass]);
            Entity::new(ct, md, &long(r), &long(r), ps)
        }).collect();
        let g = GameData::new(s(r), (0..cnt(r, 4)).map(|_| s(r)).collect(), ents);
        c.case(format!("{:?}", g), g.definitions.iter().any(|e| !e.properties.is_empty()), || {
            for e in &g.definitions {
                for p in &e.properties { if p.to_string() != rprop(p) { return Err(format!("property text {:?}, expected {:?}", p.to_string(), rprop(p))); } }
                for m in &e.metadata { if m.to_string() != rmeta(m) { return Err(format!("metadata text {:?}, expected {:?}", m.to_string(), rmeta(m))); } }
                if e.to_string() != rent(e) { return Err(format!("entity text {:?}, expected {:?}", e.to_string(), rent(e))); }
            }
            if g.to_string() != rgd(&g) { return Err(format!("text {:?}, expected {:?}", g.to_string(), rgd(&g))); }
            if round % 10 == 3 { made(r)?; }
            if round % 40 == 7 {
                // saving: over an older file, longer or shorter, or to a new one
                let f = dir.join(format!("{}.fgd", round % 3));
                if g.save(f.to_str().unwrap().to_string()).is_err() { return Err("saving fails".into()); }
                let t = std::fs::read(&f).map_err(|e| e.to_string())?;
                if t != rgd(&g).into_bytes() { return Err(format!("the saved file holds {:?}, expected {:?}", String::from_utf8_lossy(&t), rgd(&g))); }
                if g.save(dir.join("no/such/place").to_str().unwrap().to_string()).is_ok() { return Err("saving to a folder that does not exist is reported as a success".into()); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}
fn f02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 32);
    for round in 0..c.n(6000, 80000) {
        let n = if round < 66 { round % 33 } else { r.below(33) };
        let d = match round % 4 { 0 => 1i32.wrapping_shl(r.below(32) as u32), 1 => r.next() as i32, 2 => *r.pick(&[0, -1, i32::MIN, i32::MAX]), _ => !(1i32.wrapping_shl(r.below(32) as u32)) };
        let fs: Vec<String> = (0..n).map(|i| if r.chance(1, 4) { s(&mut r) } else { format!("f{}{}", i, s(&mut r)) }).collect();
        let p = Property::new("p", "s", "l", PropertyData::Flags(fs.clone(), d));
        c.case(format!("flags {:?} default {}", fs, d), n > 0, || { let t = p.to_string(); if t == rprop(&p) { Ok(()) } else { Err(format!("text {:?}, expected {:?}", t, rprop(&p))) } });
        if c.stop() { return; }
    }
}
fn f03(c: &mut Ctx) {
    let mut one = |what: &str, got: i64, exp: i64| c.case(what.to_string(), true, || if got == exp { Ok(()) } else { Err(format!("code {}, expected {}", got, exp)) });
    one("class base", ClassType::BaseClass.into(), 0); one("class point", ClassType::PointClass.into(), 1); one("class solid", ClassType::SolidClass.into(), 2);
    one("visual none", VisualType::None.into(), 0); one("visual mesh", VisualType::Mesh.into(), 1);
    one("collision none", CollisionType::None.into(), 0); one("collision convex", CollisionType::Convex.into(), 1); one("collision concave", CollisionType::Concave.into(), 2);
    one("component none", ComponentType::None.into(), 0); one("component script", ComponentType::Script("x".into()).into(), 1);
    one("entity placeholder", EntityType::Placeholder.into(), 0); one("entity class", EntityType::class("c").into(), 1); one("entity prefab", EntityType::prefab("p").into(), 2);
    one("metadata base", i32::from(Metadata::base(vec![])) as i64, 0); one("metadata color", i32::from(Metadata::color(Color::default())) as i64, 1); one("metadata size", i32::from(Metadata::size(Vector3::default(), Vector3::default())) as i64, 2);
    for i in 0..3i64 {
        one(&format!("class code {} there and back", i), ClassType::from(i).into(), i);
        one(&format!("collision code {} there and back", i), CollisionType::from(i).into(), i);
        if i < 2 { one(&format!("visual code {} there and back", i), VisualType::from(i).into(), i); }
    }
}
