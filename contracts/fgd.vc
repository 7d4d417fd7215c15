@unit fgd
@pre core textops stdops iter map float text strs lemmas osfile
@root
use game_data::forge::choice::{Choice, ChoiceData};
use game_data::forge::metadata::Metadata;
use game_data::forge::property::{Property, PropertyData};
pub type Ent = game_data::forge::entity::Entity;
pub type ClassT = game_data::forge::entity::ClassType;
pub type GameD = game_data::forge::game_data::GameData;

// ---- the FGD syntax
pub open spec fn color_text(c: Color) -> Seq<char> {
    dec(f_to_i32(f_mul(c.r, 255.0)) as int) + " "@ + dec(f_to_i32(f_mul(c.g, 255.0)) as int) + " "@ + dec(f_to_i32(f_mul(c.b, 255.0)) as int)
}
pub open spec fn value_text(d: ChoiceData) -> Seq<char> {
    match d { ChoiceData::Integer(i) => dec(i as int), ChoiceData::Float(f) => f_disp(f), ChoiceData::String(s) => s@ }
}
pub open spec fn choice_text(c: Choice) -> Seq<char> {
    (match c.value { ChoiceData::String(s) => "\""@ + s@ + "\""@, v => value_text(v) }) + " : \""@ + c.name@ + "\""@
}
pub open spec fn choice_line(c: Choice) -> Seq<char> { "\t\t"@ + choice_text(c) + "\n"@ }
/// 2^i
pub open spec fn bit(i: int) -> int { vstd::arithmetic::power::pow(2, i as nat) }
pub open spec fn bit_set(default: i32, i: int) -> bool { default as u32 & (bit(i) as u32) > 0 }
pub open spec fn flag_line(name: Seq<char>, i: int, default: i32) -> Seq<char> {
    "\t\t"@ + dec(bit(i)) + " : \""@ + name + "\" : "@ + dec(if bit_set(default, i) { 1 } else { 0 }) + "\n"@
}
pub open spec fn flag_lines(s: Seq<String>, default: i32) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flag_lines(s.drop_last(), default) + flag_line(s.last()@, s.len() - 1, default) }
}
pub open spec fn head(p: Property, kind: Seq<char>) -> Seq<char> { p.name@ + kind + p.short_description@ }
pub open spec fn tail(p: Property, sep: Seq<char>) -> Seq<char> { sep + p.long_description@ + "\""@ }
pub open spec fn property_text(p: Property) -> Seq<char> {
    match p.data {
        PropertyData::Integer(i) => head(p, "(integer) : \""@) + "\" : "@ + dec(i as int) + tail(p, " : \""@),
        PropertyData::Float(f) => head(p, "(float) : \""@) + "\" : "@ + f_disp(f) + tail(p, " : \""@),
        PropertyData::Vector3(v) => head(p, "(string) : \""@) + "\" : \""@ + f_disp(v.cx) + " "@ + f_disp(v.cy) + " "@ + f_disp(v.cz) + tail(p, "\" : \""@),
        PropertyData::String(s) => head(p, "(string) : \""@) + "\" : \""@ + s@ + tail(p, "\" : \""@),
        PropertyData::Color(c) => head(p, "(color255) : \""@) + "\" : \""@ + color_text(c) + tail(p, "\" : \""@),
        PropertyData::Choices(cs, d) => head(p, "(choices) : \""@) + "\" : \""@ + value_text(cs@[d as int].value) + "\" =\n\t[\n"@ + cats(cs@, |c: Choice| choice_line(c)) + "\t]"@,
        PropertyData::Flags(fs, d) => p.name@ + "(flags) =\n\t[\n"@ + flag_lines(fs@, d) + "\t]"@,
        PropertyData::TargetSource => head(p, "(target_source) : \""@) + tail(p, "\" : : \""@),
        PropertyData::TargetDestination => head(p, "(target_destination) : \""@) + tail(p, "\" : : \""@),
    }
}
/// what a formattable property must satisfy: at most 32 flags, a choices default that names a choice
pub open spec fn property_ok(p: Property) -> bool {
    match p.data {
        PropertyData::Choices(cs, d) => 0 <= d < cs@.len(),
        PropertyData::Flags(fs, d) => fs@.len() <= 32,
        _ => true,
    }
}
/// base classes separated by a comma and a blank (an empty text so far has nothing to be separated from)
pub open spec fn base_list(s: Seq<String>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let front = base_list(s.drop_last());
        (if front.len() == 0 { front } else { front + ", "@ }) + s.last()@
    }
}
pub open spec fn v3_text(v: Vec3) -> Seq<char> { f_disp(v.cx) + ", "@ + f_disp(v.cy) + ", "@ + f_disp(v.cz) }
pub open spec fn metadata_text(m: Metadata) -> Seq<char> {
    match m {
        Metadata::Base(b) => "base("@ + base_list(b@) + ")"@,
        Metadata::Color(c) => "color("@ + color_text(c) + ")"@,
        Metadata::Size(a, b) => "size("@ + v3_text(a) + ", "@ + v3_text(b) + ")"@,
    }
}
pub open spec fn class_text(c: ClassT) -> Seq<char> {
    match c { ClassT::BaseClass => "@BaseClass"@, ClassT::PointClass => "@PointClass"@, ClassT::SolidClass => "@SolidClass"@ }
}
pub open spec fn entity_text(e: Ent) -> Seq<char> {
    class_text(e.class_type) + " "@ + cats(e.metadata@, |m: Metadata| metadata_text(m) + " "@) + "= "@ + e.class_name@ + " : \""@ + e.description@
        + "\"\n[\n"@ + cats(e.properties@, |p: Property| "\t"@ + property_text(p) + "\n"@) + "]"@
}
pub open spec fn entity_ok(e: Ent) -> bool { forall|i: int| 0 <= i < e.properties@.len() ==> property_ok(#[trigger] e.properties@[i]) }
pub open spec fn game_data_text(g: GameD) -> Seq<char> {
    "// "@ + g.name@ + "\n\n"@ + cats(g.includes@, |i: String| "@include \""@ + i@ + "\"\n"@) + "\n"@
        + cats(g.definitions@, |e: Ent| entity_text(e) + "\n\n"@)
}
pub broadcast proof fn lemma_fold_flags<'a>(s: Seq<String>, it: Seq<(usize, &'a String)>, default: i32, g: spec_fn(Seq<char>, (usize, &'a String)) -> Seq<char>)
    requires it.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] it[i]) == (i as usize, &s[i]), s.len() <= 32,
        forall|acc: Seq<char>, x: (usize, &'a String)| 0 <= x.0 < 32 ==> (#[trigger] g(acc, x)) =~= acc + flag_line(x.1@, x.0 as int, default)
    ensures #[trigger] fold_abs(it, Seq::<char>::empty(), g) == #[trigger] flag_lines(s, default)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_fold_flags(s.drop_last(), it.drop_last(), default, g);
        assert(it.last() == ((s.len() - 1) as usize, &s.last()));
    }
}
pub proof fn lemma_fold_base<'a>(s: Seq<String>, g: spec_fn(Seq<char>, &'a String) -> Seq<char>)
    requires forall|acc: Seq<char>, x: &'a String| (#[trigger] g(acc, x)) =~= (if acc.len() == 0 { acc } else { acc + ", "@ }) + x@
    ensures fold_abs(refs::<'a, String>(s), Seq::<char>::empty(), g) == base_list(s)
    decreases s.len()
{
    if s.len() > 0 {
        assert(refs::<'a, String>(s).drop_last() =~= refs::<'a, String>(s.drop_last()));
        lemma_fold_base(s.drop_last(), g);
        let x = &s.last();
        assert(g(base_list(s.drop_last()), x) =~= (if base_list(s.drop_last()).len() == 0 { base_list(s.drop_last()) } else { base_list(s.drop_last()) + ", "@ }) + x@);
    } else { assert(refs::<'a, String>(s) =~= Seq::empty()); }
}
/// the powers of two a flags property can print
pub proof fn lemma_bits(i: int)
    requires 0 <= i < 32
    ensures bit(i) <= u32::MAX, bit(i) == (1u32 << i) as int
{
    vstd::arithmetic::power2::lemma_pow2(i as nat);
    vstd::arithmetic::power2::lemma_pow2_strictly_increases(i as nat, 32);
    vstd::arithmetic::power2::lemma2_to64();
    vstd::bits::lemma_u32_shl_is_mul(1, i as u32);
}
@file lib.rs
@file types.rs
@types *
@file types/color.rs
@types *
@fn Color::to_string
@props F01
@cast i32 vx_f32_to_i32
@ensures r@ =~= color_text(*self),
@file game_data/mod.rs
@file game_data/types/mod.rs
@file game_data/types/visual_type.rs
@types *
@fn VisualType::into
@props F03
@ensures r == (match self { VisualType::None => 0i64, VisualType::Mesh => 1 }),
@fn VisualType::from
@props F03
@requires 0 <= i <= 1
@ensures r == (if i == 0 { VisualType::None } else { VisualType::Mesh }),
@file game_data/types/collision_type.rs
@types *
@fn CollisionType::into
@props F03
@ensures r == (match self { CollisionType::None => 0i64, CollisionType::Convex => 1, CollisionType::Concave => 2 }),
@fn CollisionType::from
@props F03
@requires 0 <= i <= 2
@ensures r == (if i == 0 { CollisionType::None } else if i == 1 { CollisionType::Convex } else { CollisionType::Concave }),
@file game_data/types/component_type.rs
@types *
@fn ComponentType::into
@props F03
@ensures r == (match self { ComponentType::None => 0i64, ComponentType::Script(_) => 1 }),
@file game_data/types/entity_type.rs
@types *
@fn EntityType::into
@props F03
@ensures r == (match self { EntityType::Placeholder => 0i64, EntityType::Class(_) => 1, EntityType::Prefab(_) => 2 }),
@file game_data/forge/mod.rs
@file game_data/forge/choice.rs
@types *
@raw
impl ChoiceData {
    /// std: to_string of a Display type is what fmt writes into an empty formatter
    pub fn vx_to_string(&self) -> (r: String) ensures r@ =~= value_text(*self) { let mut f = Formatter::vx_new(); self.fmt(&mut f); f.vx_text() }
}
@fn Choice::integer
@props F01
@ensures r.name@ == name@ && r.value == ChoiceData::Integer(value),
@fn Choice::float
@props F01
@ensures r.name@ == name@ && r.value == ChoiceData::Float(value),
@fn Choice::string
@props F01
@ensures r.name@ == name@ && r.value is String && r.value->String_0@ == value@,
@fn ChoiceData::Display::fmt
@props F01
@rettype FmtResult
@ensures final(f)@ == old(f)@ + value_text(*self),
@fn Choice::to_string
@props F01
@ensures r@ =~= choice_text(*self),
@file game_data/forge/metadata.rs
@types *
@fn Metadata::base
@props F01
@ensures r == Metadata::Base(base_classes),
@fn Metadata::color
@props F01
@ensures r == Metadata::Color(color),
@fn Metadata::size
@props F01
@ensures r == Metadata::Size(min, max),
@fn i32::from
@props F03
@ensures r == (match metadata { Metadata::Base(_) => 0i32, Metadata::Color(_) => 1, Metadata::Size(_, _) => 2 }),
@fn Metadata::to_string
@props F01
@stradd
@ensures r@ =~= metadata_text(*self),
@closure 0
@c_params String ;; &String
@c_out y: String
@c_spec @abs (if $0.len() == 0 { $0 } else { $0 + ", "@ }) + $1@
@proof start
if let Metadata::Base(b) = self { lemma_fold_base(b@, |acc: Seq<char>, x: &String| (if acc.len() == 0 { acc } else { acc + ", "@ }) + x@); }
@file game_data/forge/property.rs
@types *
@fn Property::new
@props F01
@ensures r.name@ == name@, r.short_description@ == short_description@, r.long_description@ == long_description@, r.data == data,
@fn Property::to_string
@props F01 F02
@stradd
@requires property_ok(*self)
@ensures r@ =~= property_text(*self),
@closure 0
@c_params String ;; &Choice
@c_out y: String
@c_spec @abs $0 + choice_line(*$1)
@closure 1
@c_params String ;; (usize, &String)
@c_out y: String
@c_requires $1.0 < 32
@c_spec @abs $0 + flag_line($1.1@, $1.0 as int, *default)
@c_proof lemma_bits($1.0 as int);
@proof start
broadcast use lemma_fold_flags;
reveal_strlit("");
assert(""@ =~= Seq::<char>::empty());
@file game_data/forge/entity.rs
@types *
@fn ClassType::into
@props F03
@ensures r == (match self { ClassType::BaseClass => 0i64, ClassType::PointClass => 1, ClassType::SolidClass => 2 }),
@fn ClassType::from
@props F03
@requires 0 <= val <= 2
@ensures r == (if val == 0 { ClassType::BaseClass } else if val == 1 { ClassType::PointClass } else { ClassType::SolidClass }),
@fn Entity::new
@props F01
@ensures r.class_type == class_type, r.metadata == metadata, r.class_name@ == class_name@, r.description@ == description@, r.properties == properties,
@fn Entity::to_string
@props F01
@stradd
@requires entity_ok(*self)
@ensures r@ =~= entity_text(*self),
@closure 0
@c_params String ;; &Metadata
@c_out y: String
@c_spec @abs $0 + (metadata_text(*$1) + " "@)
@closure 1
@c_params String ;; &Property
@c_out y: String
@c_requires property_ok(*$1)
@c_spec @abs $0 + ("\t"@ + property_text(*$1) + "\n"@)
@file game_data/forge/game_data.rs
@types *
@fn GameData::new
@props F01
@ensures r.name == name, r.includes == includes, r.definitions == definitions,
@fn GameData::default
@props F01
@ensures r.name@.len() == 0, r.includes@.len() == 0, r.definitions@.len() == 0,
@fn GameData::save
@props F01
@rettype Result<(), crate::pre::OsError>
@requires
forall|i: int| 0 <= i < self.definitions@.len() ==> entity_ok(#[trigger] self.definitions@[i]),
forall|p: Seq<char>, t: Seq<char>| #[trigger] crate::pre::may_write(p, t) <==> p == file@ && t == game_data_text(*self),
@ensures r.is_ok() ==> crate::pre::written(file@, game_data_text(*self)),
@fn GameData::to_string
@props F01
@stradd
@requires forall|i: int| 0 <= i < self.definitions@.len() ==> entity_ok(#[trigger] self.definitions@[i])
@ensures r@ =~= game_data_text(*self),
@closure 0
@c_params String ;; &Entity
@c_out y: String
@c_requires entity_ok(*$1)
@c_spec @abs $0 + (entity_text(*$1) + "\n\n"@)
@closure 1
@c_params String ;; &String
@c_out y: String
@c_spec @abs $0 + ("@include \""@ + $1@ + "\"\n"@)
