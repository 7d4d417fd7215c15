mod common;
use common::*;
use quarchitect::wad::{self, entry, header, mip_level, mip_texture, palette, Color, MipDataIndexed, TextureIndexed};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    main_with(&[
        ("W01", "random record bytes (all zero positions, high bytes, extremes) and every shorter length; non-trivial: a full-length record", w01),
        ("W02", "random WAD2/WAD3 files: directory anywhere, mixed entry types, duplicate names, whitelists; non-trivial: a texture is selected", w02),
        ("W03", "random texture sizes (incl. odd, zero, non-square), offsets and mip counts; non-trivial: a texture with pixels", w03),
        ("W04", "well-formed files truncated at every length and with every header, directory and texture field set to extreme values, palettes of every length; non-trivial: file of at least 12 bytes", w04),
        ("W05", "random mip contents and palettes in all four combinations of own and supplied palette; non-trivial: a pixel exists", w05),
    ]);
}

fn hex(b: &[u8]) -> String { b.iter().take(2000).map(|x| format!("{:02x}", x)).collect() }
fn le(b: &[u8]) -> u32 { b[0] as u32 + b[1] as u32 * 256 + b[2] as u32 * 65536 + b[3] as u32 * 16777216 }
fn latin(b: &[u8]) -> String { b.iter().take_while(|c| **c != 0).map(|c| char::from_u32(*c as u32).unwrap()).collect() }
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(4);
    (0..n).map(|i| match mode { 0 => r.next() as u8, 1 => i as u8, 2 => *r.pick(&[0u8, 255, 127, 128, 1]), _ => if r.chance(1, 8) { 0 } else { 65 + r.below(58) as u8 } }).collect()
}
fn w01(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 21);
    let sc = Scratch::new("w01");
    for round in 0..c.n(12000, 150000) {
        let kind = round % 5;
        let full = [12, 32, 40, 768, r.below(40)][kind];
        let n = if r.chance(1, 4) { r.below(full + 1) } else { full + r.below(3) };
        let n = if kind == 3 && r.chance(1, 6) { *r.pick(&[1024, 1536, 771, 800, 2048]) } else { n };
        let b = bytes(&mut r, n);
        c.case(format!("{} {}", ["header", "entry", "texture", "palette", "mip"][kind], hex(&b)), n >= full, || {
            macro_rules! short { ($r:expr) => { match $r { Ok(x) => { if n < full { return Err("too few bytes accepted".into()); } x } Err(_) => return if n < full { Ok(()) } else { Err("enough bytes rejected".into()) } } } }
            let bad = |s: String| -> Result<(), String> { Err(format!("decoded {}", s)) };
            match kind {
                0 => { let (rest, h) = short!(header::parser(&b)); let m: Vec<char> = b[..4].iter().map(|x| *x as char).collect();
                    if h.magic.to_vec() != m || h.num_entries != le(&b[4..]) || h.dir_offset != le(&b[8..]) || rest != &b[12..] { return bad(format!("{:?}", h)); } }
                1 => { let (rest, e) = short!(entry::parser(&b));
                    if e.offset != le(&b[0..]) || e.dsize != le(&b[4..]) || e.size != le(&b[8..]) || e.entry_type != b[12] as char || e.cmprs != b[13] || e.name != latin(&b[16..32]) || rest != &b[32..] { return bad(format!("{:?}", e)); } }
                2 => { let (rest, t) = short!(mip_texture::parser(&b));
                    if t.name != latin(&b[..16]).to_lowercase() || t.width != le(&b[16..]) || t.height != le(&b[20..]) || t.offset1 != le(&b[24..]) || t.offset2 != le(&b[28..]) || t.offset4 != le(&b[32..]) || t.offset8 != le(&b[36..]) || rest != &b[40..] { return bad(format!("{:?}", t)); } }
                3 => { let (_, p) = short!(palette::parser(&b));
                    for i in 0..256 { let Color(x, y, z) = p.0[i]; if (x, y, z) != (b[3 * i], b[3 * i + 1], b[3 * i + 2]) { return bad(format!("colour {} as {:?}", i, p.0[i])); } }
                    let q = palette::read_palette(&sc.put(&b)).map_err(|e| format!("a file of {} bytes is rejected: {}", n, e))?;
                    if let Some(i) = (0..256).find(|i| (q.0[*i].0, q.0[*i].1, q.0[*i].2) != (p.0[*i].0, p.0[*i].1, p.0[*i].2)) { return bad(format!("colour {} of the file as {:?}", i, q.0[i])); } }
                _ => { let (rest, m) = short!(mip_level::parser(full)(&b)); if m.0 != &b[..full] || rest != &b[full..] { return bad(format!("{:?}", m)); } }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}

#[derive(Clone, Debug)]
struct Tex { name: Vec<u8>, mname: Vec<u8>, typ: u8, w: u32, h: u32, data: Vec<u8>, pal: Vec<u8>, off1: u32 }
impl Tex { fn same(&self, o: &Tex) -> bool { self.mname == o.mname && (self.w, self.h, self.off1) == (o.w, o.h, o.off1) && self.data == o.data && self.pal == o.pal } }
/// Sometimes repeats a texture right after itself.
fn twins(r: &mut Rng, ts: &mut Vec<Tex>) { if !ts.is_empty() && r.chance(1, 5) { let i = r.below(ts.len()); let t = ts[i].clone(); ts.insert(i, t); } }
fn names(r: &mut Rng) -> Vec<u8> { r.pick(&["wall", "WALL", "floor", "sky", "*lava0", "a", "sixteen_chars_xx", "sixteen_chars_xy", "fifteen_chars_x", "m\u{e9}t", "{grate", "+0light", "-0x", "~lamp", "!water", " wall", "wall ", "wal", "wall2", "", "\u{1}"]).bytes().take(16).collect() }
fn tex(r: &mut Rng, sizes: &[u32]) -> Tex {
    let (w, h) = (*r.pick(sizes), *r.pick(sizes));
    let s0 = (w * h) as usize;
    let total = s0 + s0 / 4 + s0 / 4 / 4 + s0 / 4 / 4 / 4;
    Tex { name: names(r), mname: names(r), typ: *r.pick(&[b'C', b'D', b'C', b'D', b'@', b'B', b'E', b'c', 0]), w, h, data: (0..total).map(|_| r.next() as u8).collect(), pal: (0..768).map(|_| r.next() as u8).collect(), off1: 40 + *r.pick(&[0, 0, 0, 7]) }
}
fn field(n: &[u8]) -> Vec<u8> { let mut v = n.to_vec(); v.resize(16, 0); v }
/// (file, directory offset, texture offsets)
fn wad_file(r: &mut Rng, magic: &[u8; 4], ts: &[Tex]) -> (Vec<u8>, usize, Vec<usize>) {
    let w = |v: &mut Vec<u8>, x: u32| v.extend(x.to_le_bytes());
    let mut blobs = vec![];
    for t in ts {
        let s0 = (t.w * t.h) as usize;
        let s = [s0, s0 / 4, s0 / 4 / 4, s0 / 4 / 4 / 4];
        let mut b = field(&t.mname);
        if r.chance(1, 3) { for k in t.mname.len() + 1..16 { b[k] = 77; } } // junk after the terminator
        w(&mut b, t.w); w(&mut b, t.h);
        let mut o = t.off1;
        for k in 0..4 { w(&mut b, o); o += s[k] as u32; }
        b.resize(t.off1 as usize, 0xAA);
        b.extend(&t.data);
        b.extend([0, 1]);
        b.extend(&t.pal);
        b.extend([9, 9]);
        blobs.push(b);
    }
    let first = r.chance(1, 3);
    let gap = r.below(5);
    let mut f = magic.to_vec();
    w(&mut f, ts.len() as u32);
    let body: usize = blobs.iter().map(|b| b.len()).sum();
    let dir = if first { 12 + gap } else { 12 + gap + body };
    w(&mut f, dir as u32);
    f.resize(12 + gap, 0x55);
    let mut order: Vec<usize> = (0..ts.len()).collect();
    for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j); }
    let base = if first { dir + 32 * ts.len() } else { 12 + gap };
    let mut offs = vec![0; ts.len()];
    let mut o = base;
    for i in &order { offs[*i] = o; o += blobs[*i].len(); }
    // now and then two directory entries name one and the same lump
    for i in 1..ts.len() { if ts[i].same(&ts[i - 1]) && r.chance(2, 3) { offs[i] = offs[i - 1]; } }
    let mut d = vec![];
    for (i, t) in ts.iter().enumerate() {
        // sizes, compression and padding play no part in reading
        let odd = r.chance(1, 4);
        let size = blobs[i].len() as u32;
        w(&mut d, offs[i] as u32);
        w(&mut d, if odd { *r.pick(&[0, 1, size / 2, size + 4, u32::MAX]) } else { size });
        w(&mut d, if odd { *r.pick(&[0, 1, size, size + 1, u32::MAX]) } else { size });
        d.push(t.typ);
        if odd { d.push(*r.pick(&[0, 1, 2, 255])); d.extend([r.next() as u8, r.next() as u8]); } else { d.extend([0, 0, 0]); }
        let mut n = field(&t.name);
        if r.chance(1, 3) { for k in t.name.len() + 1..16 { n[k] = 88; } }
        d.extend(n);
    }
    if first { f.extend(&d); }
    for i in &order { f.extend(&blobs[*i]); }
    if !first { f.extend(&d); }
    (f, dir, offs)
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch { let p = std::env::temp_dir().join(format!("qwad-{}-{}", tag, std::process::id())); Scratch(p) }
    fn put(&self, b: &[u8]) -> String { std::fs::write(&self.0, b).unwrap(); self.0.to_str().unwrap().to_string() }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn check_tex(got: &[TextureIndexed], exp: &[&Tex], m: usize, wad3: bool, data: bool) -> Result<(), String> {
    let names: Vec<_> = got.iter().map(|t| t.mip_texture.name.clone()).collect();
    if got.len() != exp.len() { return Err(format!("read {:?}, expected {} textures", names, exp.len())); }
    for (i, (g, t)) in got.iter().zip(exp).enumerate() {
        if g.mip_texture.name != latin(&t.mname).to_lowercase() || g.mip_texture.width != t.w || g.mip_texture.height != t.h { return Err(format!("texture {} is {:?}, expected {:?} {}x{}", i, g.mip_texture, latin(&t.mname), t.w, t.h)); }
        if !data { continue; }
        let s0 = (t.w * t.h) as usize;
        let s = [s0, s0 / 4, s0 / 4 / 4, s0 / 4 / 4 / 4];
        let lv = [Some(&g.mip_data.mip0), g.mip_data.mip1.as_ref(), g.mip_data.mip2.as_ref(), g.mip_data.mip3.as_ref()];
        let mut o = 0;
        for k in 0..4 {
            match lv[k] {
                None => if k < m { return Err(format!("texture {}: level {} missing with {} levels requested", i, k, m)); },
                Some(l) => {
                    if k >= m { return Err(format!("texture {}: level {} present with {} levels requested", i, k, m)); }
                    if l.0 != &t.data[o..o + s[k]] { return Err(format!("texture {}: level {} has wrong bytes ({} of them, expected {})", i, k, l.0.len(), s[k])); }
                }
            }
            o += s[k];
        }
        match (&g.palette, wad3) {
            (None, false) => (),
            (Some(p), true) => for j in 0..256 { let Color(x, y, z) = p.0[j]; if [x, y, z] != t.pal[3 * j..3 * j + 3] { return Err(format!("texture {}: palette colour {} is {:?}", i, j, p.0[j])); } },
            (p, _) => return Err(format!("texture {}: palette present: {}", i, p.is_some())),
        }
    }
    Ok(())
}
fn w02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 22);
    let sc = Scratch::new("w02");
    for round in 0..c.n(2500, 30000) {
        if !c.within(30, 300) { return; }
        let wad3 = r.chance(1, 2);
        let big = round % 500 == 250;
        let nt = if big { *r.pick(&[34, 70, 130, 260, 300]) } else { r.below(6) };
        let mut ts: Vec<Tex> = (0..nt).map(|_| tex(&mut r, if big { &[1, 8, 16, 32] } else { &[1, 2, 4, 8] })).collect();
        twins(&mut r, &mut ts);
        let (f, _, _) = wad_file(&mut r, if wad3 { b"WAD3" } else { b"WAD2" }, &ts);
        let wl: Option<Vec<String>> = if r.chance(1, 3) { None } else { Some((0..r.below(5)).map(|_| latin(&names(&mut r))).collect()) };
        let exp: Vec<&Tex> = ts.iter().filter(|t| t.typ == b'C' || t.typ == b'D').filter(|t| wl.as_ref().map_or(true, |w| w.contains(&latin(&t.name)))).collect();
        let m = 1 + r.below(4);
        c.case(format!("whitelist {:?} mips {} file {}", wl, m, hex(&f)), !exp.is_empty(), || {
            let got = wad::read_textures(&sc.put(&f), wl.clone(), m).map_err(|e| format!("rejected: {}", e))?;
            check_tex(&got, &exp, m, wad3, true)
        });
        if c.stop() { return; }
    }
    // very many entries, the texture among the last
    for n in [32768, 65536, 70000u32] {
        let mut t = tex(&mut r, &[8]);
        t.typ = b'D';
        let (mut f, dir, offs) = wad_file(&mut r, b"WAD2", &[t.clone()]);
        let e = f[dir..dir + 32].to_vec();
        let mut other = e.clone();
        other[12] = b'@';
        let d = f.len() as u32;
        for i in 0..n { f.extend(if i == n - 1 { &e } else { &other }); }
        f.splice(4..12, n.to_le_bytes().into_iter().chain(d.to_le_bytes()));
        c.case(format!("{} entries, only the last a texture: {:?}, at {:?}", n, t.mname, offs), true, || {
            let got = wad::read_textures(&sc.put(&f), None, 4).map_err(|e| format!("rejected: {}", e))?;
            check_tex(&got, &[&t], 4, false, true)
        });
        if c.stop() { return; }
    }
}
fn w03(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 23);
    let sc = Scratch::new("w03");
    for round in 0..c.n(2500, 30000) {
        if !c.within(30, 300) { return; }
        let wad3 = r.chance(1, 2);
        let mut ts: Vec<Tex> = (0..1 + r.below(3)).map(|_| tex(&mut r, if round % 100 == 50 { &[64, 128, 255, 256, 300, 512, 1024] } else { &[0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 32] })).collect();
        twins(&mut r, &mut ts);
        for t in ts.iter_mut() { t.typ = b'C'; }
        let (f, _, _) = wad_file(&mut r, if wad3 { b"WAD3" } else { b"WAD2" }, &ts);
        let m = 1 + r.below(4);
        let exp: Vec<&Tex> = ts.iter().collect();
        c.case(format!("mips {} sizes {:?} file {}", m, ts.iter().map(|t| (t.w, t.h)).collect::<Vec<_>>(), hex(&f)), ts.iter().any(|t| t.w * t.h > 0), || {
            let got = wad::read_textures(&sc.put(&f), None, m).map_err(|e| format!("rejected: {}", e))?;
            check_tex(&got, &exp, m, wad3, true)
        });
        if c.stop() { return; }
    }
    // sides beyond 16 bits, more than 2^24 pixels
    for (w, h) in [(70000, 2), (3, 65537), (4100, 4100)] {
        let mut t = tex(&mut r, &[0]);
        let s0 = (w * h) as usize;
        let total = s0 + s0 / 4 + s0 / 4 / 4 + s0 / 4 / 4 / 4;
        t.w = w; t.h = h; t.typ = b'C';
        t.data = (0..total).map(|i| (i ^ (i >> 8) ^ (i >> 16)) as u8).collect();
        let (f, _, _) = wad_file(&mut r, b"WAD3", &[t.clone()]);
        c.case(format!("a texture of {} x {}", w, h), true, || {
            let got = wad::read_textures(&sc.put(&f), None, 4).map_err(|e| format!("rejected: {}", e))?;
            check_tex(&got, &[&t], 4, true, true)
        });
        if c.stop() { return; }
    }
}
/// Does the statement demand an error for this file?
fn must_fail(f: &[u8], m: usize, wl: &Option<Vec<String>>) -> bool {
    let n = f.len() as u64;
    if n < 12 { return true; }
    let wad3 = match &f[..4] { b"WAD2" => false, b"WAD3" => true, _ => return true };
    let (num, dir) = (le(&f[4..]) as u64, le(&f[8..]) as u64);
    if num > 0 && dir + 32 * num > n { return true; }
    for i in 0..num {
        let e = &f[(dir + 32 * i) as usize..];
        if e[12] != b'C' && e[12] != b'D' { continue; }
        if let Some(w) = wl { if !w.contains(&latin(&e[16..32])) { continue; } }
        let off = le(e) as u64;
        if off + 40 > n { return true; }
        let t = &f[off as usize..];
        let (w, h, o1, o8) = (le(&t[16..]) as u64, le(&t[20..]) as u64, le(&t[24..]) as u64, le(&t[36..]) as u64);
        let s0 = w as u128 * h as u128;
        let s = [s0, s0 / 4, s0 / 16, s0 / 64];
        let tot: u128 = s[..m].iter().sum();
        if tot > 0 && (off + o1) as u128 + tot > n as u128 { return true; }
        if wad3 && off as u128 + o8 as u128 + s[3] + 2 + 768 > n as u128 { return true; }
    }
    false
}
fn w04_case(c: &mut Ctx, sc: &Scratch, f: &[u8], m: usize, wl: Option<Vec<String>>) {
    let bad = must_fail(f, m, &wl);
    c.case(format!("mips {} whitelist {:?} file ({} bytes) {}", m, wl, f.len(), hex(f)), f.len() >= 12, || {
        match catch_unwind(AssertUnwindSafe(|| wad::read_textures(&sc.put(f), wl, m).map(|v| v.len()))) {
            Err(p) => Err(format!("panic: {:?}", p.downcast_ref::<String>())),
            Ok(Ok(k)) => if bad { Err(format!("corrupt file accepted with {} textures", k)) } else { Ok(()) },
            Ok(Err(e)) => if bad { Ok(()) } else { Err(format!("sound file rejected: {}", e)) },
        }
    });
}
fn w04(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 24);
    let sc = Scratch::new("w04");
    c.case("no such file".into(), false, || if wad::read_textures("/nonexistent/x.wad", None, 1).is_err() && palette::read_palette("/nonexistent/x.lmp").is_err() { Ok(()) } else { Err("missing file accepted".into()) });
    for round in 0..c.n(40, 600) {
        if !c.within(40, 400) { return; }
        let wad3 = round % 2 == 0;
        let mut ts: Vec<Tex> = (0..1 + r.below(2)).map(|_| tex(&mut r, &[1, 2, 4])).collect();
        ts[0].typ = b'C';
        let (f, dir, offs) = wad_file(&mut r, if wad3 { b"WAD3" } else { b"WAD2" }, &ts);
        let m = 1 + r.below(4);
        w04_case(c, &sc, &f, m, None);
        for n in 0..f.len() { if n < 60 || n % 7 == 0 || n + 60 > f.len() { w04_case(c, &sc, &f[..n], m, None); } }
        let mut spots = vec![0, 4, 8];
        for i in 0..ts.len() { for k in [0, 4, 8, 12] { spots.push(dir + 32 * i + k); } for k in [16, 20, 24, 28, 32, 36] { spots.push(offs[i] + k); } }
        for s in spots {
            for v in [0u32, 1, 255, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, f.len() as u32, f.len() as u32 - 1, f.len() as u32 - 40, f.len() as u32 - 32, 46341, 1000, 0x43000000, 67] {
                let mut g = f.clone();
                g[s..s + 4].copy_from_slice(&v.to_le_bytes());
                w04_case(c, &sc, &g, m, None);
                if r.chance(1, 6) { // two cooperating fields
                    let s2 = offs[0] + *r.pick(&[16usize, 20, 24, 36]);
                    g[s2..s2 + 4].copy_from_slice(&r.pick(&[0u32, 0xffffffff, 0x10000, 3]).to_le_bytes());
                    w04_case(c, &sc, &g, m, None);
                }
                if c.stop() { return; }
            }
        }
        for _ in 0..40 {
            let mut g = f.clone();
            for _ in 0..1 + r.below(4) { let i = r.below(g.len()); g[i] = r.next() as u8; }
            w04_case(c, &sc, &g, m, if r.chance(1, 3) { Some(vec!["wall".into(), "a".into()]) } else { None });
        }
        if c.stop() { return; }
    }
    for n in (0..800).step_by(1) {
        let b = bytes(&mut r, n);
        c.case(format!("palette file of {} bytes", n), n >= 12, || {
            let p = palette::read_palette(&sc.put(&b));
            match p { Ok(_) if n < 768 => Err("short palette accepted".into()), Err(e) if n >= 768 => Err(format!("rejected: {}", e)), Ok(p) => { let Color(x, y, z) = p.0[255]; if [x, y, z] == b[765..768] { Ok(()) } else { Err("last colour".into()) } } _ => Ok(()) }
        });
        if c.stop() { return; }
    }
}
fn w05(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 25);
    for round in 0..c.n(4000, 40000) {
        let pal = |r: &mut Rng| { let mut p = [Color(0, 0, 0); 256]; for x in p.iter_mut() { *x = Color(r.next() as u8, r.next() as u8, r.next() as u8); } palette::Palette(p) };
        let (own, given) = (round % 2 == 0, round / 2 % 2 == 0);
        let (po, pg) = (pal(&mut r), pal(&mut r));
        let mut po = po;
        if round % 16 == 4 { po.0 = [Color(0, 0, 0); 256]; }
        let sz = r.below(40);
        let name = *r.pick(&["n", "{grate", "*water", "+0light", "-1x", "~lamp", "!lava", "sky", "", "{", "N"]);
        let mut lv = |on: bool, n: usize| if on { Some((0..n).map(|_| if r.chance(1, 12) { *r.pick(&[0, 255]) } else { r.next() as u8 }).collect::<Vec<u8>>()) } else { None };
        let k = round / 4 % 4;
        let d = [lv(true, sz), lv(k > 0, sz / 4), lv(k > 1, sz / 16), lv(k > 2, sz / 64)];
        let l = |i: usize| d[i].clone().map(mip_level::MipLevel::new);
        let t = TextureIndexed::new(
            wad::MipTexture { name: name.into(), width: 3, height: 5, offset1: 1, offset2: 2, offset4: 4, offset8: 8 },
            MipDataIndexed { mip0: l(0).unwrap(), mip1: l(1), mip2: l(2), mip3: l(3) }, if own { Some(po) } else { None });
        c.case(format!("own palette {} supplied {} levels {:?} name {:?} seed {} round {}", own, given, d, name, 25, round), sz > 0, || {
            let got = t.into_rgb(if given { Some(pg) } else { None });
            let p = if own { po } else if given { pg } else { return if got.is_err() { Ok(()) } else { Err("accepted without any palette".into()) } };
            let got = got.map_err(|e| format!("rejected: {}", e))?;
            let m = &got.mip_texture;
            if (m.name.as_str(), m.width, m.height, m.offset1, m.offset2, m.offset4, m.offset8) != (name, 3, 5, 1, 2, 4, 8) { return Err(format!("header changed: {:?}", m)); }
            let g = [Some(&got.mip_data.mip0), got.mip_data.mip1.as_ref(), got.mip_data.mip2.as_ref(), got.mip_data.mip3.as_ref()];
            for i in 0..4 {
                let a: Option<Vec<(u8, u8, u8)>> = g[i].map(|v| v.iter().map(|c| (c.0, c.1, c.2)).collect());
                let e: Option<Vec<(u8, u8, u8)>> = d[i].as_ref().map(|v| v.iter().map(|x| { let q = p.0[*x as usize]; (q.0, q.1, q.2) }).collect());
                if a != e { return Err(format!("level {}: {:?}, expected {:?}", i, a, e)); }
            }
            Ok(())
        });
        if c.stop() { return; }
    }
}
