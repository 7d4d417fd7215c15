@unit wad
@pre core textops stdops iter float strs text bytes lemmas
@value wad_magic => crate::wad::header::MagicP {}
@value color::parser => crate::wad::color::ColorP {}
@root
use wad::color::Color;
use wad::entry::Entry;
use wad::header::Header;
use wad::mip_texture::MipTexture;
use wad::mip_level::MipLevel;
use wad::palette::Palette;
use wad::TextureIndexed;
global size_of usize == 8;

pub proof fn lemma_name(b: Seq<u8>, lo: int, full: Seq<char>, name: Seq<char>)
    requires 0 <= lo, lo + 16 <= b.len(), full.len() == 16,
        forall|k: int| 0 <= k < 16 ==> #[trigger] full[k] == b[lo + k] as char,
        name.len() <= 16, name == full.take(name.len() as int),
        forall|k: int| 0 <= k < name.len() ==> #[trigger] full[k] != '\0',
        name.len() < 16 ==> full[name.len() as int] == '\0',
    ensures name == name_of(b.subrange(lo, lo + 16))
{
    let l = latin(b.subrange(lo, lo + 16));
    assert(l =~= full);
    lemma_cstr(l, name.len() as int);
}
/// bytes as characters
pub open spec fn latin(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
/// everything before the first zero
pub open spec fn cstr(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || s[0] == '\0' { Seq::empty() } else { seq![s[0]] + cstr(s.skip(1)) }
}
pub proof fn lemma_cstr(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> s[i] != '\0', n < s.len() ==> s[n] == '\0'
    ensures cstr(s) == s.take(n)
    decreases n
{
    if n > 0 {
        lemma_cstr(s.skip(1), n - 1);
        assert(seq![s[0]] + s.skip(1).take(n - 1) =~= s.take(n));
    } else { assert(s.take(0) =~= Seq::empty()); }
}
pub open spec fn color_at(b: Seq<u8>, k: int) -> Color { Color(b[3 * k], b[3 * k + 1], b[3 * k + 2]) }
pub open spec fn header_is(h: Header, b: Seq<u8>) -> bool {
    h.magic@ == latin(b.take(4)) && h.num_entries == le32(b, 4) && h.dir_offset == le32(b, 8)
}
pub open spec fn name_of(b: Seq<u8>) -> Seq<char> { cstr(latin(b)) }
pub open spec fn entry_is(e: Entry, b: Seq<u8>) -> bool {
    &&& e.offset == le32(b, 0) && e.dsize == le32(b, 4) && e.size == le32(b, 8)
    &&& e.entry_type == b[12] as char && e.cmprs == b[13]
    &&& e.name@ == name_of(b.subrange(16, 32))
}
pub open spec fn texture_is(t: MipTexture, b: Seq<u8>) -> bool {
    &&& t.name@ == lower(name_of(b.take(16)))
    &&& t.width == le32(b, 16) && t.height == le32(b, 20)
    &&& t.offset1 == le32(b, 24) && t.offset2 == le32(b, 28) && t.offset4 == le32(b, 32) && t.offset8 == le32(b, 36)
}
pub open spec fn palette_is(p: Palette, b: Seq<u8>) -> bool { forall|k: int| 0 <= k < 256 ==> #[trigger] p.0@[k] == color_at(b, k) }
/// pixels looked up in a palette
pub open spec fn looked(o: Seq<Color>, px: Seq<u8>, pal: [Color; 256]) -> bool {
    o.len() == px.len() && forall|k: int| 0 <= k < px.len() ==> #[trigger] o[k] == pal@[px[k] as int]
}
pub open spec fn looked_opt(o: Option<Vec<Color>>, px: Option<MipLevel>, pal: [Color; 256]) -> bool {
    match px { Some(l) => o.is_some() && looked(o.unwrap()@, l.0@, pal), None => o.is_none() }
}
pub open spec fn rgb_is(r: wad::mip_data::MipDataRGB, i: wad::mip_data::MipDataIndexed, p: Palette) -> bool {
    looked(r.mip0@, i.mip0.0@, p.0) && looked_opt(r.mip1, i.mip1, p.0) && looked_opt(r.mip2, i.mip2, p.0) && looked_opt(r.mip3, i.mip3, p.0)
}
/// the bytes of the i-th directory entry
pub open spec fn dir_at(d: Seq<u8>, at: int, i: int) -> Seq<u8> { d.subrange(at + 32 * i, at + 32 * i + 32) }
pub open spec fn listed(n: Seq<char>, w: Option<Vec<String>>) -> bool {
    match w { None => true, Some(v) => exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k])@ == n }
}
/// a texture entry that was asked for
pub open spec fn wants(b: Seq<u8>, w: Option<Vec<String>>) -> bool {
    (b[12] as char == 'C' || b[12] as char == 'D') && listed(name_of(b.subrange(16, 32)), w)
}
/// the numbers of the wanted entries among the first n, in order
pub open spec fn picks(d: Seq<u8>, at: int, w: Option<Vec<String>>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() }
    else if wants(dir_at(d, at, n - 1), w) { picks(d, at, w, n - 1).push(n - 1) }
    else { picks(d, at, w, n - 1) }
}
pub open spec fn entries_are(es: Seq<Entry>, d: Seq<u8>, at: int, p: Seq<int>) -> bool {
    es.len() == p.len() && forall|k: int| 0 <= k < p.len() ==> entry_is(#[trigger] es[k], dir_at(d, at, p[k]))
}
pub open spec fn one_entry(y: Option<Entry>, d: Seq<u8>, at: int, w: Option<Vec<String>>, i: int) -> bool {
    match y {
        Some(e) => wants(dir_at(d, at, i), w) && entry_is(e, dir_at(d, at, i)),
        None => !wants(dir_at(d, at, i), w),
    }
}
pub proof fn lemma_picks(s: Seq<Option<Entry>>, d: Seq<u8>, at: int, w: Option<Vec<String>>)
    requires forall|i: int| 0 <= i < s.len() ==> one_entry(#[trigger] s[i], d, at, w, i)
    ensures entries_are(flat(s.map_values(|x: Option<Entry>| x.items())), d, at, picks(d, at, w, s.len() as int))
    decreases s.len()
{
    let f = |x: Option<Entry>| x.items();
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_picks(t, d, at, w);
        assert(s.map_values(f).drop_last() =~= t.map_values(f));
        let i = s.len() - 1;
        assert(one_entry(s[i], d, at, w, i));
        assert(s.map_values(f).last() == opt_seq(s[i]));
    }
}
pub open spec fn tex_at(d: Seq<u8>, at: int) -> Seq<u8> { d.subrange(at, at + 40) }
pub open spec fn one_texture(y: Result<MipTexture, String>, d: Seq<u8>, at: int) -> bool {
    y.is_ok() && texture_in(y->Ok_0, d, at)
}
/// the header of a texture that starts at a place in the file
pub open spec fn texture_in(t: MipTexture, d: Seq<u8>, at: int) -> bool { at + 40 <= d.len() && texture_is(t, tex_at(d, at)) }
pub open spec fn textures_in(ts: Seq<MipTexture>, d: Seq<u8>, es: Seq<Entry>) -> bool {
    ts.len() == es.len() && forall|k: int| 0 <= k < es.len() ==> texture_in(#[trigger] ts[k], d, es[k].offset as int)
}
/// pixels of level k of a w x h texture: a quarter per level, rounded down each time
pub open spec fn area(n: int, k: int) -> int decreases k { if k <= 0 { n } else { area(n, k - 1) / 4 } }
pub open spec fn level_is(l: Option<MipLevel>, b: Seq<u8>, from: int, n: int) -> bool {
    l.is_some() && l.unwrap().0@ == b.subrange(from, from + n)
}
pub open spec fn mips_are(m: wad::mip_data::MipDataIndexed, d: Seq<u8>, at: int, n: int, levels: int) -> bool {
    let s1 = n / 4; let s2 = s1 / 4; let s3 = s2 / 4;
    &&& m.mip0.0@ == d.subrange(at, at + n)
    &&& if levels > 1 { level_is(m.mip1, d, at + n, s1) } else { m.mip1.is_none() }
    &&& if levels > 2 { level_is(m.mip2, d, at + n + s1, s2) } else { m.mip2.is_none() }
    &&& if levels > 3 { level_is(m.mip3, d, at + n + s1 + s2, s3) } else { m.mip3.is_none() }
}
pub open spec fn mips_len(n: int, levels: int) -> int {
    n + (if levels > 1 { n / 4 } else { 0 }) + (if levels > 2 { n / 4 / 4 } else { 0 }) + (if levels > 3 { n / 4 / 4 / 4 } else { 0 })
}
/// where a WAD3 texture's palette starts
pub open spec fn pal_at(e: Entry, t: MipTexture) -> int {
    e.offset + t.offset8 + (t.width * t.height) / 4 / 4 / 4 + 2
}
/// the texture's data lies inside the file
pub open spec fn data_fits(d: Seq<u8>, e: Entry, t: MipTexture, wad3: bool, levels: int) -> bool {
    &&& e.offset + t.offset1 + mips_len(t.width * t.height, levels) <= d.len()
    &&& wad3 ==> pal_at(e, t) + 768 <= d.len()
}
pub open spec fn data_is(p: (wad::mip_data::MipDataIndexed, Option<Palette>), d: Seq<u8>, e: Entry, t: MipTexture, wad3: bool, levels: int) -> bool {
    &&& data_fits(d, e, t, wad3, levels)
    &&& mips_are(p.0, d, e.offset + t.offset1, t.width * t.height, levels)
    &&& match p.1 { Some(q) => wad3 && palette_is(q, d.skip(pal_at(e, t))), None => !wad3 }
}
pub open spec fn at_of(d: Seq<u8>) -> int { le32(d, 8) }
pub open spec fn magic_ok(d: Seq<u8>) -> bool {
    d[0] as char == 'W' && d[1] as char == 'A' && d[2] as char == 'D' && (d[3] as char == '2' || d[3] as char == '3')
}
pub open spec fn is_wad3(d: Seq<u8>) -> bool { d[3] as char == '3' }
/// entry e's texture lies inside the file, with its header, pixels and palette
pub open spec fn tex_ok(d: Seq<u8>, e: Seq<u8>, levels: int) -> bool {
    let o = le32(e, 0);
    let h = tex_at(d, o);
    let n = le32(h, 16) * le32(h, 20);
    &&& o + 40 <= d.len()
    &&& o + le32(h, 24) + mips_len(n, levels) <= d.len()
    &&& is_wad3(d) ==> o + le32(h, 36) + n / 4 / 4 / 4 + 2 + 768 <= d.len()
}
/// the picked entries of a WAD
pub open spec fn chosen(d: Seq<u8>, w: Option<Vec<String>>) -> Seq<int> { picks(d, le32(d, 8), w, le32(d, 4)) }
pub open spec fn wad_ok(d: Seq<u8>, w: Option<Vec<String>>, levels: int) -> bool {
    &&& d.len() >= 12 && magic_ok(d)
    &&& le32(d, 4) > 0 ==> le32(d, 8) + 32 * le32(d, 4) <= d.len()
    &&& forall|k: int| 0 <= k < chosen(d, w).len() ==> tex_ok(d, dir_at(d, le32(d, 8), #[trigger] chosen(d, w)[k]), levels)
}
pub open spec fn tex_is(t: TextureIndexed, d: Seq<u8>, e: Seq<u8>, levels: int) -> bool {
    let o = le32(e, 0);
    let h = tex_at(d, o);
    let n = le32(h, 16) * le32(h, 20);
    &&& texture_is(t.mip_texture, h)
    &&& mips_are(t.mip_data, d, o + le32(h, 24), n, levels)
    &&& match t.palette {
        Some(q) => is_wad3(d) && palette_is(q, d.skip(o + le32(h, 36) + n / 4 / 4 / 4 + 2)),
        None => !is_wad3(d),
    }
}
pub open spec fn wad_is(ts: Seq<TextureIndexed>, d: Seq<u8>, w: Option<Vec<String>>, levels: int) -> bool {
    &&& ts.len() == chosen(d, w).len()
    &&& forall|k: int| 0 <= k < ts.len() ==> tex_is(#[trigger] ts[k], d, dir_at(d, le32(d, 8), chosen(d, w)[k]), levels)
}
pub proof fn lemma_mul32(a: u32, b: u32) ensures 0 <= a * b <= u64::MAX
{ assert(0 <= a * b <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff_ffff; }
pub proof fn lemma_total(s: Seq<usize>, n: int, levels: int)
    requires 1 <= levels <= 4, n >= 0, s.len() == levels, s[0] == n, levels > 1 ==> s[1] == n / 4, levels > 2 ==> s[2] == n / 4 / 4, levels > 3 ==> s[3] == n / 4 / 4 / 4
    ensures total(refs(s).map_values(|x: &usize| *x as int)) == mips_len(n, levels), mips_len(n, levels) <= 2 * n
{
    let t = refs(s).map_values(|x: &usize| *x as int);
    reveal_with_fuel(total, 5);
    assert(t.len() == levels);
    assert(t[0] == n);
    if levels == 1 { assert(t.drop_last() =~= Seq::empty()); }
    else if levels == 2 { assert(t.drop_last().drop_last() =~= Seq::empty()); }
    else if levels == 3 { assert(t.drop_last().drop_last().drop_last() =~= Seq::empty()); }
    else { assert(t.drop_last().drop_last().drop_last().drop_last() =~= Seq::empty()); }
}
pub proof fn lemma_tex(d: Seq<u8>, e: Entry, b: Seq<u8>, t: MipTexture, levels: int)
    requires entry_is(e, b), texture_in(t, d, e.offset as int)
    ensures tex_ok(d, b, levels) == data_fits(d, e, t, is_wad3(d), levels)
{ }
@file wad/mod.rs
@file wad/color.rs
@types *
@raw
pub struct ColorP { }
impl VxParser for ColorP { proof fn pos(&self) { } type O = Color; open spec fn width(&self) -> int { 3 } open spec fn yields(&self, b: Seq<u8>, o: Color) -> bool { o == color_at(b, 0) }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], Color>) { parser(i) } }
@fn parser
@props W01
@ensures
match r {
    Ok(p) => i@.len() >= 3 && p.0@ == i@.skip(3) && p.1 == color_at(i@, 0),
    Err(_) => i@.len() < 3,
},
@file wad/entry.rs
@types *
@fn parser
@props W01
@ensures
match r {
    Ok(p) => i@.len() >= 32 && p.0@ == i@.skip(32) && entry_is(p.1, i@.take(32)),
    Err(_) => i@.len() < 32,
},
@proof ghost let name
let ghost full: Seq<char> = name@;
@closure 0
@c_params &char
@c_out y: bool
@c_spec *$0 != '\0'
@proof tail
lemma_name(i0@.take(32), 16, full, vx_tail->Ok_0.1.name@);
@proof ghost start
let ghost i0 = i;
@file wad/palette.rs
@types *
@fn parser
@props W01
@ensures
match r {
    Ok(p) => i@.len() >= 768 && p.0@ == i@.skip(768) && palette_is(p.1, i@),
    Err(_) => i@.len() < 768,
},
@fn read_palette
@props W01 W04
@ensures
match r {
    Ok(p) => disk(palette_file@).len() >= 768 && palette_is(p, disk(palette_file@)),
    Err(_) => !io_ok(palette_file@) || disk(palette_file@).len() < 768,
},
@file wad/header.rs
@types *
@raw
pub struct MagicP { }
impl VxParser for MagicP { proof fn pos(&self) { } type O = Vec<char>; open spec fn width(&self) -> int { 4 } open spec fn yields(&self, b: Seq<u8>, o: Vec<char>) -> bool { o@ == latin(b) }
    fn vx_run<'a>(&self, i: &'a [u8]) -> (r: IResult<&'a [u8], Vec<char>>) { wad_magic(i) } }
@fn wad_magic
@ensures
match r {
    Ok(p) => i@.len() >= 4 && p.0@ == i@.skip(4) && p.1@ == latin(i@.take(4)),
    Err(_) => i@.len() < 4,
},
@fn parser
@props W01
@ensures
match r {
    Ok(p) => i@.len() >= 12 && p.0@ == i@.skip(12) && header_is(p.1, i@.take(12)),
    Err(_) => i@.len() < 12,
},
@file wad/mip_level.rs
@types *
@fn MipLevel::new
@ensures r.0@ == colors@,
@fn parser
@props W01
@rettype impl Fn(&[u8]) -> IResult<&[u8], MipLevel> + 'a
@ensures
forall|i: &[u8]| #[trigger] r.requires((i,)),
forall|i: &[u8], y: IResult<&[u8], MipLevel>| #[trigger] r.ensures((i,), y) ==> match y {
    Ok(p) => i@.len() >= texture_size && p.0@ == i@.skip(texture_size as int) && (p.1).0@ == i@.take(texture_size as int),
    Err(_) => i@.len() < texture_size,
},
@proof ghost letbefore i
let ghost i0: &[u8] = i;
@proof let o
assert(o@ =~= i0@.take(texture_size as int));
@closure 0
@c_params &[u8]
@c_out y: IResult<&[u8], MipLevel>
@c_ensures match y {
    Ok(p) => i@.len() >= texture_size && p.0@ == i@.skip(texture_size as int) && (p.1).0@ == i@.take(texture_size as int),
    Err(_) => i@.len() < texture_size,
}
@file wad/mip_texture.rs
@types *
@fn parser
@props W01
@ensures
match r {
    Ok(p) => i@.len() >= 40 && p.0@ == i@.skip(40) && texture_is(p.1, i@.take(40)),
    Err(_) => i@.len() < 40,
},
@proof ghost start
let ghost i0: &[u8] = i;
@proof ghost let name
let ghost full: Seq<char> = name@;
@proof ghost let name#2
let ghost cut: Seq<char> = name@;
@proof tail
lemma_name(i0@.take(40), 0, full, cut);
assert(i0@.take(40).subrange(0, 16) =~= i0@.take(40).take(16));
@closure 0
@c_params &char
@c_out y: bool
@c_spec *$0 != '\0'
@file wad/mip_data.rs
@types *
@fn MipDataIndexed::into_rgb
@props W05
@ensures rgb_is(r, self, *palette),
@fn MipDataRGB::from_indexed
@props W05
@ensures rgb_is(r, mip_data, *vx_p1),
@closure 0
@c_params MipLevel
@c_out y: Vec<Color>
@c_ensures looked(y@, $0.0@, *palette)
@closure 1
@c_params &u8
@c_out z: Color
@c_ensures z == palette@[*$0 as int]
@file wad/mod.rs
@types WadType TextureIndexed TextureRGB HEADER_BYTES ENTRY_BYTES MIPTEX_BYTES
@fn TextureIndexed::new
@ensures r.mip_texture == mip_texture, r.mip_data == mip_data, r.palette == palette,
@fn TextureIndexed::into_rgb
@props W05
@ensures
match r {
    Ok(t) => {
        &&& self.palette.is_some() || palette.is_some()
        &&& t.mip_texture == self.mip_texture
        &&& rgb_is(t.mip_data, self.mip_data, if self.palette.is_some() { self.palette.unwrap() } else { palette.unwrap() })
    },
    Err(_) => self.palette.is_none() && palette.is_none(),
},
@fn TextureRGB::from_indexed
@props W05
@ensures r.mip_texture == i.mip_texture, rgb_is(r.mip_data, i.mip_data, *palette),
@fn read_header
@props W02 W04
@requires old(wad_file).pos() == 0,
@ensures
final(wad_file).bytes() == old(wad_file).bytes(), final(wad_file).ok() == old(wad_file).ok(),
match r {
    Ok(h) => old(wad_file).bytes().len() >= 12 && header_is(h, old(wad_file).bytes().take(12)),
    Err(_) => !old(wad_file).ok() || old(wad_file).bytes().len() < 12,
},
@fn read_directory
@props W02 W04
@ensures
final(wad_file).bytes() == old(wad_file).bytes(), final(wad_file).ok() == old(wad_file).ok(),
match r {
    Ok(es) => {
        let d = old(wad_file).bytes();
        &&& header.num_entries > 0 ==> header.dir_offset + 32 * header.num_entries <= d.len()
        &&& entries_are(es@, d, header.dir_offset as int, picks(d, header.dir_offset as int, *whitelist, header.num_entries as int))
    },
    Err(_) => !old(wad_file).ok() || (header.num_entries > 0 && header.dir_offset + 32 * header.num_entries > old(wad_file).bytes().len()),
},
@closure 0
@c_params u32
@c_out y: Result<Option<Entry>, String>
@c_lift read_one_entry
@c_caps wad_file: &mut File ;; header: &header::Header ;; whitelist: &Option<Vec<String>>
@c_ensures
final(wad_file).bytes() == old(wad_file).bytes(), final(wad_file).ok() == old(wad_file).ok(),
match y {
    Ok(e) => header.dir_offset + 32 * $0 + 32 <= old(wad_file).bytes().len() && one_entry(e, old(wad_file).bytes(), header.dir_offset as int, *whitelist, $0 as int),
    Err(_) => !old(wad_file).ok() || header.dir_offset + 32 * $0 + 32 > old(wad_file).bytes().len(),
}
@c_inv
wad_file.bytes() == d0, wad_file.ok() == ok0, vx_src0@.len() == header.num_entries,
forall|k: int| 0 <= k < vx_src0@.len() ==> #[trigger] vx_src0@[k] == k,
forall|k: int| 0 <= k < vx_j0 ==> match #[trigger] vx_out0@[k] {
    Ok(e) => header.dir_offset + 32 * k + 32 <= d0.len() && one_entry(e, d0, header.dir_offset as int, *whitelist, k),
    Err(_) => !ok0 || header.dir_offset + 32 * k + 32 > d0.len(),
},
@proof ghost start
let ghost d0: Seq<u8> = wad_file.bytes();
let ghost ok0: bool = wad_file.ok();
@closure 1
@c_params &String
@c_out z: bool
@c_spec $0@ == entry.name@
@proof letbefore entries#2
if entries.is_ok() {
    let vs = entries->Ok_0@;
    lemma_picks(vs, d0, header.dir_offset as int, *whitelist);
    if header.num_entries > 0 { let k = header.num_entries - 1; assert(one_entry(vs[k], d0, header.dir_offset as int, *whitelist, k)); }
}
@fn read_mip_textures
@props W02 W04
@ensures
match r {
    Ok(ts) => textures_in(ts@, old(wad_file).bytes(), directory@),
    Err(_) => !old(wad_file).ok() || exists|k: int| 0 <= k < directory@.len() && (#[trigger] directory@[k]).offset + 40 > old(wad_file).bytes().len(),
},
@proof ghost start
let ghost d0: Seq<u8> = wad_file.bytes();
let ghost ok0: bool = wad_file.ok();
@closure 0
@c_params &Entry
@c_out y: Result<MipTexture, String>
@c_lift read_one_texture
@c_caps wad_file: &mut File
@c_ensures
final(wad_file).bytes() == old(wad_file).bytes(), final(wad_file).ok() == old(wad_file).ok(),
y.is_ok() ==> one_texture(y, old(wad_file).bytes(), $0.offset as int),
y.is_err() ==> !old(wad_file).ok() || $0.offset + 40 > old(wad_file).bytes().len(),
@c_inv
wad_file.bytes() == d0, wad_file.ok() == ok0, vx_src0@ == refs::<Entry>(directory@),
forall|k: int| 0 <= k < vx_j0 ==> (#[trigger] vx_out0@[k]).is_ok() ==> one_texture(vx_out0@[k], d0, directory@[k].offset as int),
forall|k: int| 0 <= k < vx_j0 ==> (#[trigger] vx_out0@[k]).is_err() ==> !ok0 || directory@[k].offset + 40 > d0.len(),
@closure 1
@c_params &Result<MipTexture, String>
@c_out z: Option<&String>
@c_spec match $0 { Err(err) => Some(err), Ok(_) => None }
@closure 2
@c_params Result<MipTexture, String>
@c_out z: Option<MipTexture>
@c_spec @items ok_seq($0)
@proof letbefore mip_textures#2
assert forall|i: int| 0 <= i < mip_textures@.len() implies (#[trigger] mip_textures@[i]).is_ok() by { assert(refs(mip_textures@)[i] == &mip_textures@[i]); }
@fn read_mip_data
@props W03 W04
@requires
1 <= mip_levels <= 4,
directory@.len() == mip_textures@.len(),
alloc_limit() >= 2 * disk(wad_file@).len() + 1024,
@ensures
match r {
    Ok(ds) => ds@.len() == directory@.len() && forall|k: int| 0 <= k < directory@.len() ==>
        data_is(#[trigger] ds@[k], disk(wad_file@), directory@[k], mip_textures@[k], wad_type is WAD3, mip_levels as int),
    Err(_) => !io_ok(wad_file@) || exists|k: int| 0 <= k < directory@.len()
        && !data_fits(disk(wad_file@), #[trigger] directory@[k], mip_textures@[k], wad_type is WAD3, mip_levels as int),
},
@closure 0
@c_params (&Entry, &MipTexture)
@c_out y: Result<(MipDataIndexed, Option<Palette>), String>
@c_ensures
match y {
    Ok(p) => data_is(p, disk(wad_file@), *$0.0, *$0.1, wad_type is WAD3, mip_levels as int),
    Err(_) => !io_ok(wad_file@) || !data_fits(disk(wad_file@), *$0.0, *$0.1, wad_type is WAD3, mip_levels as int),
}
@closure 1
@c_params &Result<(MipDataIndexed, Option<Palette>), String>
@c_out z: Option<&String>
@c_spec match $0 { Err(err) => Some(err), Ok(_) => None }
@closure 2
@c_params Result<(MipDataIndexed, Option<Palette>), String>
@c_out z: Option<(MipDataIndexed, Option<Palette>)>
@c_spec @items ok_seq($0)
@proof letbefore size0
lemma_mul32(miptex.width, miptex.height);
@proof letbefore total_size
lemma_total(sizes@, size0 as int, mip_levels as int);
@proof ghost start
let ghost d: Seq<u8> = disk(wad_file@);
@proof let mipdata
let at = entry.offset + miptex.offset1;
assert(mipdata.mip0.0@ =~= d.subrange(at, at + size0));
if mip_levels > 1 { assert(mipdata.mip1.unwrap().0@ =~= d.subrange(at + size0, at + size0 + size1)); }
if mip_levels > 2 { assert(mipdata.mip2.unwrap().0@ =~= d.subrange(at + size0 + size1, at + size0 + size1 + size2)); }
if mip_levels > 3 { assert(mipdata.mip3.unwrap().0@ =~= d.subrange(at + size0 + size1 + size2, at + size0 + size1 + size2 + size3)); }
assert(mips_are(mipdata, d, at, size0 as int, mip_levels as int));
@proof let texture_palette
assert(palette_is(texture_palette, d.skip(pal_at(*entry, *miptex)))) by {
    assert forall|k: int| 0 <= k < 256 implies color_at(palette_buf@, k) == color_at(d.skip(pal_at(*entry, *miptex)), k) by { }
}
@proof letbefore mip_data#2
assert forall|i: int| 0 <= i < mip_data@.len() implies (#[trigger] mip_data@[i]).is_ok() by { assert(refs(mip_data@)[i] == &mip_data@[i]); }
@fn read_textures
@props W02 W03 W04
@requires
1 <= mip_levels <= 4,
alloc_limit() >= 2 * disk(wad_file@).len() + 1024,
@ensures
match r {
    Ok(ts) => wad_ok(disk(wad_file@), whitelist, mip_levels as int) && wad_is(ts@, disk(wad_file@), whitelist, mip_levels as int),
    Err(_) => !io_ok(wad_file@) || !wad_ok(disk(wad_file@), whitelist, mip_levels as int),
},
@closure 0
@c_params (MipTexture, (MipDataIndexed, Option<Palette>))
@c_out y: TextureIndexed
@c_ensures y.mip_texture == $0.0, y.mip_data == ($0.1).0, y.palette == ($0.1).1
@proof ghost start
let ghost d: Seq<u8> = disk(wad_file@);
@proof let wad_type
assert(header.magic@ =~= latin(d.take(4)));
assert(header.magic@[0] == d[0] as char && header.magic@[1] == d[1] as char && header.magic@[2] == d[2] as char && header.magic@[3] == d[3] as char);
@proof let directory
let es = directory@;
assert forall|k: int| 0 <= k < es.len() implies (tex_ok(d, dir_at(d, le32(d, 8), chosen(d, whitelist)[k]), mip_levels as int) ==> (#[trigger] es[k]).offset + 40 <= d.len()) by { }
@proof let mip_textures
let es = directory@;
let tx = mip_textures@;
assert forall|k: int| 0 <= k < es.len() implies tex_ok(d, dir_at(d, le32(d, 8), chosen(d, whitelist)[k]), mip_levels as int) == data_fits(d, #[trigger] es[k], tx[k], is_wad3(d), mip_levels as int) by {
    assert(texture_in(tx[k], d, es[k].offset as int));
    lemma_tex(d, es[k], dir_at(d, le32(d, 8), chosen(d, whitelist)[k]), tx[k], mip_levels as int);
}
@proof tail
let ts = vx_tail->Ok_0@;
assert forall|k: int| 0 <= k < ts.len() implies tex_is(#[trigger] ts[k], d, dir_at(d, le32(d, 8), chosen(d, whitelist)[k]), mip_levels as int) by {
    assert(data_is(md[k], d, es[k], tx[k], is_wad3(d), mip_levels as int));
    assert(texture_in(tx[k], d, es[k].offset as int));
}
assert forall|k: int| 0 <= k < chosen(d, whitelist).len() implies tex_ok(d, dir_at(d, le32(d, 8), #[trigger] chosen(d, whitelist)[k]), mip_levels as int) by {
    assert(data_is(md[k], d, es[k], tx[k], is_wad3(d), mip_levels as int));
}
@proof ghost let mip_data
let ghost md: Seq<(MipDataIndexed, Option<Palette>)> = mip_data@;
let ghost tx: Seq<MipTexture> = mip_textures@;
let ghost es: Seq<Entry> = directory@;
