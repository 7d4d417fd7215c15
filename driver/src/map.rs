mod common;
use common::*;
use quarchitect::map::quake::{parser, tokenizer, tokenizer::Token, BrushPlane, Entity, ExtraData};
use quarchitect::map::UV;
use quarchitect::{geo_builder, layer_filter, Texture, TextureInfo};

fn main() {
    main_with(&[
        ("M01", "all texts of up to 5 characters over {\" / { } ( a space LF CR}, then random longer lines; non-trivial: at least one non-empty line", m01),
        ("M02", "all token sequences up to length 5 over an alphabet of 8 tokens, then random longer ones; non-trivial: opens at least one entity", m02),
        ("M03", "plane lines with pairwise different random numbers, both formats, 0..8 trailing values; non-trivial: all (each has at least 14 fields)", m03),
        ("M04", "random valid maps with random faults (dropped, swapped, garbled lines and words, truncations, missing or repeated worldspawn); non-trivial: text with a plane line", m04),
        ("M05", "all pairs of token lists up to length 5 over 3 letters, then random longer ones; non-trivial: both lists non-empty and different", m05),
    ]);
}

/// Counts on both sides of the sizes at which a table, a narrow integer or a buffer would end.
const SIZES: [usize; 20] = [15, 17, 31, 33, 63, 65, 99, 101, 127, 129, 255, 257, 300, 511, 513, 1001, 1025, 2049, 4097, 5001];
const ODD: [char; 17] = ['\u{feff}', '\u{a0}', '\u{85}', '\u{2028}', '\u{b}', '\u{c}', '\u{0}', '\u{1b}', '\u{200b}', '\u{3000}', '\u{301}', '\u{1f600}', '\t', '\u{201c}', '\u{ff0f}', '\\', '\'' ];

// ---------------------------------------------------------------- M01
fn ref_lines(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '\n' {
            if cur.ends_with('\r') { cur.pop(); }
            out.push(std::mem::take(&mut cur));
        } else { cur.push(c); }
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
fn ref_token(l: &str) -> Token {
    let cs: Vec<char> = l.chars().collect();
    if cs.is_empty() { return Token::Unrecognized(String::new()); }
    match cs[0] {
        '/' => Token::Comment(l.into()),
        '{' => Token::OpenBrace,
        '}' => Token::CloseBrace,
        '(' => Token::BrushPlane(l.into()),
        '"' => {
            // positions of the quotes: key between 1st and 2nd, value between 3rd and 4th (or end of line)
            let q: Vec<usize> = (0..cs.len()).filter(|i| cs[*i] == '"').collect();
            if q.len() < 3 { return Token::Unrecognized(l.into()); }
            let key: String = cs[q[0] + 1..q[1]].iter().collect();
            let end = if q.len() > 3 { q[3] } else { cs.len() };
            let value: String = cs[q[2] + 1..end].iter().collect();
            Token::Property(tokenizer::Property { key, value })
        }
        _ => Token::Unrecognized(l.into()),
    }
}
fn m01_case(c: &mut Ctx, s: String) {
    let exp: Vec<Token> = ref_lines(&s).iter().map(|l| ref_token(l)).collect();
    c.case(s.clone(), s.chars().any(|c| c != '\n' && c != '\r'), || {
        let got = tokenizer::run(s);
        if got == exp { Ok(()) } else { Err(format!("tokens {:?}, expected {:?}", got, exp)) }
    });
}
fn m01(c: &mut Ctx) {
    let al: Vec<char> = "\"/{}(a \n\r".chars().collect();
    for len in 0..=c.n(5, 6) {
        let mut ix = vec![0usize; len];
        loop {
            m01_case(c, ix.iter().map(|i| al[*i]).collect());
            if c.stop() { return; }
            let mut k = 0;
            while k < len { ix[k] += 1; if ix[k] < al.len() { break; } ix[k] = 0; k += 1; }
            if k == len { break; }
        }
    }
    let mut r = Rng::new(c.seed);
    let pool = ["\"", "\"", "/", "//", "{", "}", "(", ")", "a", "key", " ", "\n", "\r\n", "\r", "é", "\t", "\"classname\" \"worldspawn\"\n", "[", "\\", ";", "#", "'", "0", "-", "\u{7f}", "_", "*"];
    for _ in 0..c.n(30000, 400000) {
        let n = r.below(12);
        let s: String = (0..n).map(|_| *r.pick(&pool)).collect();
        m01_case(c, s);
        if c.stop() { return; }
    }
    // characters that other readers treat as space, mark or line end, anywhere in a line
    for ch in ODD {
        for line in ["", "// c", "{", "}", "( 1 2", "\"k\" \"v\"", "x"] {
            let cs: Vec<char> = line.chars().collect();
            for at in 0..=cs.len() {
                let mut t = cs.clone();
                t.insert(at, ch);
                let t: String = t.iter().collect();
                m01_case(c, t.clone());
                m01_case(c, format!("{{\n{}\n}}", t));
            }
        }
    }
    // long lines, and texts of many lines
    for n in SIZES.iter().copied().chain([70000]) {
        let long: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
        m01_case(c, format!("//{l}\nx{l}\n({l}\n\"{l}\" \"v\"\n\"k\" \"{l}\"\n\"k\"{l}\"v\"\n{{{l}\n}}{l}\n", l = long));
        let lines: Vec<String> = (0..n).map(|i| match r.below(5) { 0 => format!("// {}", i), 1 => format!("\"k{}\" \"v\"", i), 2 => format!("( {}", i), 3 => format!("{}", i), _ => r.pick(&["{", "}", ""]).to_string() }).collect();
        m01_case(c, lines.join("\n"));
        if c.stop() { return; }
    }
    // every ASCII first character, alone and followed by text
    for b in 0..=255u8 {
        let ch = b as char;
        for t in ["", "x", "\"", " \"a\" \"b\"", "/"] { m01_case(c, format!("{}{}", ch, t)); m01_case(c, format!("  {}{}", ch, t)); }
    }
}

// ---------------------------------------------------------------- M02
#[derive(Clone, Debug, PartialEq)]
struct RE { props: Vec<(String, String)>, brushes: Vec<Vec<String>> }
fn plane_line(tag: &str) -> String { format!("( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) {} 0 0 0 1 1", tag) }
/// Recursive reference: None = a scope error.
fn ref_parse(t: &[Token]) -> Option<Vec<RE>> {
    let mut i = 0;
    let mut out = vec![];
    while i < t.len() {
        match &t[i] {
            Token::OpenBrace => {
                i += 1;
                let mut e = RE { props: vec![], brushes: vec![] };
                'ent: while i < t.len() {
                    match &t[i] {
                        Token::OpenBrace => {
                            i += 1;
                            let mut b = vec![];
                            while i < t.len() {
                                match &t[i] {
                                    Token::BrushPlane(l) => b.push(l.split_whitespace().nth(15).unwrap_or("?").to_string()),
                                    Token::CloseBrace => break,
                                    Token::OpenBrace | Token::Property(_) => return None,
                                    _ => (),
                                }
                                i += 1;
                            }
                            e.brushes.push(b);
                            if i == t.len() { break 'ent; }
                        }
                        Token::CloseBrace => break,
                        Token::Property(p) => {
                            e.props.retain(|x| x.0 != p.key);
                            e.props.push((p.key.clone(), p.value.clone()));
                        }
                        Token::BrushPlane(_) => return None,
                        _ => (),
                    }
                    i += 1;
                }
                e.props.sort();
                out.push(e);
            }
            Token::CloseBrace | Token::Property(_) | Token::BrushPlane(_) => return None,
            _ => (),
        }
        i += 1;
    }
    Some(out)
}
fn abs(es: &[Entity]) -> Vec<RE> {
    es.iter().map(|e| {
        let mut props: Vec<(String, String)> = e.properties.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        props.sort();
        RE { props, brushes: e.brushes.iter().map(|b| b.planes.iter().map(|p| p.texture.clone()).collect()).collect() }
    }).collect()
}
fn m02_case(c: &mut Ctx, t: Vec<Token>) {
    let exp = ref_parse(&t);
    c.case(format!("{:?}", t), t.contains(&Token::OpenBrace), || {
        match (parser::run(&t), &exp) {
            (Ok((_, es)), Some(x)) => { let g = abs(&es); if &g == x { Ok(()) } else { Err(format!("entities {:?}, expected {:?}", g, x)) } }
            (Ok((_, es)), None) => Err(format!("accepted as {:?}, but a token stands outside its scope", abs(&es))),
            (Err(e), Some(x)) => Err(format!("rejected with {:?}, expected {:?}", e, x)),
            (Err(_), None) => Ok(()),
        }
    });
}
fn m02_tok(k: usize, pos: usize) -> Token {
    let p = |k: &str, v: &str| Token::Property(tokenizer::Property { key: k.into(), value: v.into() });
    match k {
        0 => Token::OpenBrace, 1 => Token::CloseBrace,
        2 => p("k1", &format!("v{}", pos)), 3 => p("k2", &format!("w{}", pos)),
        4 => Token::BrushPlane(plane_line(&format!("t{}", pos))),
        5 => Token::BrushPlane(plane_line("same")),
        6 => Token::Comment("// c".into()), _ => Token::Unrecognized("junk".into()),
    }
}
fn m02_prop(k: &str, v: &str) -> Token { Token::Property(tokenizer::Property { key: k.into(), value: v.into() }) }
fn m02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed ^ 77);
    // large maps: many entities, brushes, planes, properties
    for n in SIZES.iter().copied().filter(|n| *n < 600) {
        let mut t = vec![];
        for e in 0..n {
            t.push(Token::OpenBrace);
            t.push(m02_prop("n", &format!("{}", e)));
            if r.chance(1, 3) { t.extend([Token::OpenBrace, Token::BrushPlane(plane_line(&format!("t{}", e))), Token::CloseBrace]); }
            t.push(Token::CloseBrace);
        }
        m02_case(c, t);
        let mut t = vec![Token::OpenBrace];
        for b in 0..n {
            t.push(Token::OpenBrace);
            for k in 0..r.below(3) { t.push(Token::BrushPlane(plane_line(&format!("t{}_{}", b, k)))); }
            t.push(Token::CloseBrace);
            if r.chance(1, 4) { t.push(m02_prop("late", &format!("{}", b))); }
        }
        t.push(Token::CloseBrace);
        m02_case(c, t);
        let mut t = vec![Token::OpenBrace, Token::OpenBrace];
        for k in 0..n { t.push(Token::BrushPlane(plane_line(&format!("t{}", k)))); }
        t.extend([Token::CloseBrace, Token::CloseBrace]);
        m02_case(c, t);
        let mut t = vec![Token::OpenBrace];
        for k in 0..n { t.push(m02_prop(&format!("k{}", k), &format!("v{}", k))); }
        t.push(Token::CloseBrace);
        m02_case(c, t);
        if c.stop() { return; }
    }
    // repeated keys, empty keys and values, keys that differ only in case or space
    let words = ["", "k", "K", " k", "k ", "classname", "Classname", "origin", "0", "v", "a b"];
    for _ in 0..c.n(3000, 30000) {
        let mut t = vec![Token::OpenBrace];
        for _ in 0..1 + r.below(5) {
            t.push(m02_prop(r.pick(&words), r.pick(&words)));
            if r.chance(1, 6) { t.extend([Token::OpenBrace, Token::CloseBrace]); }
        }
        t.push(Token::CloseBrace);
        m02_case(c, t);
        if c.stop() { return; }
    }
    for len in 0..=c.n(5, 6) {
        let mut ix = vec![0usize; len];
        loop {
            m02_case(c, ix.iter().enumerate().map(|(p, i)| m02_tok(*i, p)).collect());
            if c.stop() { return; }
            let mut k = 0;
            while k < len { ix[k] += 1; if ix[k] < 8 { break; } ix[k] = 0; k += 1; }
            if k == len { break; }
        }
    }
    let mut r = Rng::new(c.seed);
    for _ in 0..c.n(20000, 300000) {
        let n = 4 + r.below(40);
        let mut depth = 0;
        let mut t = vec![];
        for p in 0..n {
            let k = if r.chance(1, 60) { r.below(8) } else {
                match depth { 0 => *r.pick(&[0, 0, 0, 6, 7]), 1 => *r.pick(&[0, 0, 1, 2, 3, 2, 6, 7]), _ => *r.pick(&[1, 4, 4, 5, 5, 6, 7]) }
            };
            if k == 0 { depth += 1 } else if k == 1 { depth -= 1 }
            if depth < 0 { depth = 0 } if depth > 2 { depth = 2 }
            t.push(m02_tok(k, p));
        }
        m02_case(c, t);
        if c.stop() { return; }
    }
}

// ---------------------------------------------------------------- M03
fn near(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }
// the first two are rounded differently by way of f64
const SPECIAL: [&str; 26] = ["1.00000005960464477539062500001", "16777217.0000000001", "5.e1", "0000.50", "nan", "-nan", "inf", "-inf", "infinity", "NaN", "0", "-0", "-0.0", "1e38", "1e39", "-1e39", "1e-46", "131073", "-131073", "16777217", "99999999", "+5", ".5", "5.", "0.1", "1e10"];
fn m03(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for round in 0..c.n(20000, 300000) {
        let valve = r.chance(1, 2);
        let nextra = if round < 200 { round % 9 } else { *r.pick(&[0, 0, 1, 3, 6, 2, 4, 5, 7, 8]) };
        let mut num = |int: bool| -> (String, f32) {
            let s = if int && round % 4 == 3 && r.chance(1, 3) { r.pick(&["0", "-1", "1", "255", "256", "32768", "65536", "16777217", "2147483647", "-2147483648", "+7", "007"]).to_string() }
                else if int || r.chance(1, 2) { format!("{}", r.range(-4000, 4000)) }
                else if round % 4 == 3 && r.chance(1, 6) { r.pick(&SPECIAL).to_string() }
                else if r.chance(1, 10) { format!("{}e{}", r.range(-99, 99), r.range(-3, 3)) }
                else if r.chance(1, 3) { format!("{}.{:06}", r.range(-9, 9), r.range(0, 999999)) }
                else { format!("{}.{}", r.range(-400, 400), r.range(0, 999)) };
            let v = s.parse::<f32>().unwrap();
            (s, v)
        };
        let mut words: Vec<String> = vec![];
        let mut pts = vec![];
        for _ in 0..3 {
            let (x, y, z) = (num(false), num(false), num(false));
            words.extend(["(".into(), x.0, y.0, z.0, ")".into()]);
            pts.push((x.1, y.1, z.1));
        }
        let mut uvn: Vec<f32> = vec![];
        let mut uvw: Vec<String> = vec![];
        if valve {
            for _ in 0..2 {
                uvw.push("[".into());
                for _ in 0..4 { let n = num(false); uvw.push(n.0); uvn.push(n.1); }
                uvw.push("]".into());
            }
        } else { for _ in 0..2 { let n = num(false); uvw.push(n.0); uvn.push(n.1); } }
        let tail: Vec<(String, f32)> = (0..3).map(|_| num(false)).collect();
        let extra: Vec<(String, f32)> = (0..nextra).map(|i| num(i < 2 && nextra > 1)).collect();
        let tex = format!("{}{}", r.pick(&["Tex", "WALL_", "*Lava", "a", "SKY+0", "ünïÄ", "A/B\\C", "-0LAMP", "{GRATE", "\u{130}", "12", "a.b", "__TB_empty"]), r.below(99));
        let tex = if round % 50 == 7 { tex.repeat(1 + r.below(60)) } else { tex };
        words.push(tex.clone());
        words.extend(uvw);
        words.extend(tail.iter().map(|t| t.0.clone()));
        words.extend(extra.iter().map(|t| t.0.clone()));
        // any white space separates
        let sep = if round % 40 == 9 { *r.pick(&["\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", " \u{a0}\t"]) } else { *r.pick(&[" ", "  ", "\t"]) };
        let line = words.join(sep);
        let ex: Vec<f32> = extra.iter().map(|e| e.1).collect();
        c.case(line.clone(), true, || {
            let got = match BrushPlane::new(&line) {
                Ok(g) => g,
                Err(e) => return if [0, 1, 3, 6].contains(&nextra) { Err(format!("rejected: {:?}", e)) } else { Ok(()) },
            };
            if ![0, 1, 3, 6].contains(&nextra) { return Err(format!("{} trailing values accepted: {:?}", nextra, got)); }
            for (i, (v, p)) in [got.v0, got.v1, got.v2].iter().zip(&pts).enumerate() {
                if !(near(v.x(), p.0) && near(v.y(), p.1) && near(v.z(), p.2)) { return Err(format!("point {} is {:?}, expected {:?}", i, v, p)); }
            }
            if got.texture != tex.to_lowercase() { return Err(format!("texture {:?}", got.texture)); }
            match (&got.uv, valve) {
                (UV::Quake(q), false) => if !(near(q.u, uvn[0]) && near(q.v, uvn[1])) { return Err(format!("offsets {:?}, expected {:?}", q, uvn)); },
                (UV::Valve(v), true) => {
                    let g = [v.u_axis.x(), v.u_axis.y(), v.u_axis.z(), v.u_offset, v.v_axis.x(), v.v_axis.y(), v.v_axis.z(), v.v_offset];
                    if !g.iter().zip(&uvn).all(|(a, b)| near(*a, *b)) { return Err(format!("axes {:?}, expected {:?}", g, uvn)); }
                }
                _ => return Err(format!("wrong texture format: {:?}", got.uv)),
            }
            if !near(got.rotation, tail[0].1) || !near(got.scale.x(), tail[1].1) || !near(got.scale.y(), tail[2].1) {
                return Err(format!("rotation {} scale {:?}, expected {:?}", got.rotation, got.scale, tail));
            }
            let int = |i: usize| extra[i].0.parse::<i32>().unwrap();
            let sd = |s: &i32, f: &i32, v: &f32| *s == int(0) && *f == int(1) && near(*v, ex[2]);
            let ok = match (&got.extra, nextra) {
                (ExtraData::None, 0) => true,
                (ExtraData::Hexen2(x), 1) => near(*x, ex[0]),
                (ExtraData::Quake2(s), 3) => sd(&s.surface_contents, &s.surface_flags, &s.surface_value),
                (ExtraData::Daikatana(s, col), 6) => sd(&s.surface_contents, &s.surface_flags, &s.surface_value) && near(col.r, ex[3]) && near(col.g, ex[4]) && near(col.b, ex[5]),
                _ => false,
            };
            if ok { Ok(()) } else { Err(format!("extra data {:?}, expected {:?}", got.extra, ex)) }
        });
        if c.stop() { return; }
    }
}

// ---------------------------------------------------------------- M04
const WRONG: [&str; 41] = ["//", "//x", "0,", "1,", "x", "1e", "--1", "nan", "99999999999", "2147483648", "-2147483649", "inf", "-0", "+1", "0.5", ")", "]", "1_0", "", "++1", "+-1", "1,5", "1f", "0x10", "[1", "[0", "1]", "(1", "1)", "+", ".", "e1", "1.", "4294967295", "4294967296", "-4294967296", "\u{ff11}", "1;", "1/2", "5..", "TRUE"];
fn plane_ok(l: &str) -> bool {
    let w: Vec<&str> = l.split_whitespace().collect();
    let isf = |i: usize| w.get(i).map_or(false, |s| s.parse::<f32>().is_ok());
    for p in 0..3 { for k in 1..4 { if !isf(p * 5 + k) { return false; } } }
    // texture at 15, mapping from 16
    if w.len() <= 16 { return false; }
    let next = if w[16].parse::<f32>().is_ok() { if !isf(17) { return false; } 18 }
        else { for k in [17, 18, 19, 20, 23, 24, 25, 26] { if !isf(k) { return false; } } 28 };
    for k in 0..3 { if !isf(next + k) { return false; } }
    let rest: &[&str] = if w.len() > next + 3 { &w[next + 3..] } else { &[] };
    let isi = |s: &str| s.parse::<i32>().is_ok();
    let f = |s: &str| s.parse::<f32>().is_ok();
    match rest.len() {
        0 => true, 1 => f(rest[0]),
        3 | 6 => isi(rest[0]) && isi(rest[1]) && rest[2..].iter().all(|x| f(x)),
        _ => false,
    }
}
/// Expected outcome for a map text: does it parse, and does it have one worldspawn?
fn ref_accept(text: &str) -> (bool, bool) {
    let toks: Vec<Token> = ref_lines(text).iter().map(|l| ref_token(l)).collect();
    let planes_ok = toks.iter().all(|t| match t { Token::BrushPlane(l) => plane_ok(l), _ => true });
    match ref_parse(&toks) {
        Some(es) if planes_ok => {
            let n = es.iter().filter(|e| e.props.iter().any(|(k, v)| k == "classname" && v == "worldspawn")).count();
            (true, n == 1)
        }
        _ => (false, false),
    }
}
pub fn box_brush(r: &mut Rng) -> Vec<String> {
    let (x, y, z) = (r.range(-64, 64), r.range(-64, 64), r.range(-64, 64));
    let (a, b, d) = (x + r.range(1, 64), y + r.range(1, 64), z + r.range(1, 64));
    let t = ["wall", "*water0", "sky", "*slime0"];
    let mut o = vec!["{".to_string()];
    for f in [
        format!("( {x} {y} {z} ) ( {x} {} {z} ) ( {x} {y} {} )", y + 1, z + 1),
        format!("( {x} {y} {z} ) ( {x} {y} {} ) ( {} {y} {z} )", z + 1, x + 1),
        format!("( {x} {y} {z} ) ( {} {y} {z} ) ( {x} {} {z} )", x + 1, y + 1),
        format!("( {a} {b} {d} ) ( {a} {} {d} ) ( {} {b} {d} )", b + 1, a + 1),
        format!("( {a} {b} {d} ) ( {} {b} {d} ) ( {a} {b} {} )", a + 1, d + 1),
        format!("( {a} {b} {d} ) ( {a} {b} {} ) ( {a} {} {d} )", d + 1, b + 1),
    ] {
        let uv = if r.chance(1, 2) { "0 0 0 1 1" } else { "[ 1 0 0 3 ] [ 0 -1 0 4 ] 0 1 1" };
        let ex = *r.pick(&["", "", " 1", " 0 0 0", " 1 2 3 0.5 0.25 1"]);
        o.push(format!("{f} {} {uv}{ex}", r.pick(&t)));
    }
    o.push("}".into());
    o
}
struct Scratch(std::path::PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn import(path: &std::path::Path) -> Result<usize, String> {
    use quarchitect::{game_data, Config, TextureBlacklist};
    let mut ti = std::collections::HashMap::new();
    ti.insert("wall".to_string(), Texture::new(64, 64));
    let cfg = Config::new(path.to_str().unwrap(), TextureInfo(ti), TextureBlacklist::default(), game_data::forge::GameData::default(), game_data::GameData { entities: vec![], worldspawn_layers: vec![] });
    quarchitect::run(cfg).map(|n| n.len()).map_err(|e| e.to_string())
}
fn m04(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let file = Scratch(std::env::temp_dir().join(format!("qmap-m04-{}", std::process::id())));
    c.case("a map file that does not exist".into(), false, || if import(std::path::Path::new("/nonexistent/x.map")).is_err() { Ok(()) } else { Err("missing file accepted".into()) });
    // maps of many entities, brushes and planes are as valid as small ones
    for n in [33, 130, 260, 1100] {
        let mut l: Vec<String> = vec!["{".into(), "\"classname\" \"worldspawn\"".into()];
        for _ in 0..n.min(260) { l.extend(["{".to_string(), "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1".into(), "}".into()]); }
        l.push("}".into());
        for i in 0..n { l.extend(["{".to_string(), format!("\"classname\" \"light{}\"", i), "}".into()]); }
        let text = l.join("\n");
        c.case(text.clone(), true, || {
            std::fs::write(&file.0, &text).map_err(|e| e.to_string())?;
            match import(&file.0) { Ok(k) if k == n + 1 => Ok(()), x => Err(format!("{} entities imported as {:?}", n + 1, x)) }
        });
    }
    // one file after the other under one name: each is read as it stands
    for (t, k) in [("{\n\"classname\" \"worldspawn\"\n}\n{\n\"a\" \"b\"\n}", 2), ("{\n\"classname\" \"worldspawn\"\n\"aa\" \"bb\"\n}\n", 1), ("{\n\"classname\" \"worldspawn\"\n}\n{\n\"a\" \"b\"\n}", 2)] {
        c.case(format!("over the file before it:\n{}", t), true, || {
            std::fs::write(&file.0, t).map_err(|e| e.to_string())?;
            match import(&file.0) { Ok(x) if x == k => Ok(()), x => Err(format!("{} entities imported as {:?}", k, x)) }
        });
    }
    let junk = ["{", "}", "\"a", "\"a\"", "\"a\" \"b", "\"a\" \"b\"", "( 0 0 0", "(", "()", "( a b c ) d", "// x", "", "zz", "\"classname\" \"worldspawn\"", "\"classname\" \"Worldspawn\"", "\"classname\" \"worldspawn \"", "\"Classname\" \"worldspawn\"", "\"classname\" \"\"",
        "( 0 0 0 ) ( 0 0 0 ) ( 0 0 0 ) t 0 0 0 1 1", "( nan inf 0 ) ( 1 0 0 ) ( 0 1e30 0 ) t 0 0 0 1 1", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) t [ 1 0 0 ] 0 1 1"];
    // every word of a plane line in turn is something else
    let mut fixed: Vec<Vec<String>> = vec![];
    for l in ["( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1 7", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall 0 0 0 1 1 1 2 3", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) wall [ 1 0 0 3 ] [ 0 -1 0 4 ] 0 1 1 1 2 3 0.5 0.25 1"] {
        let w: Vec<&str> = l.split(' ').collect();
        for k in 0..w.len() { for x in WRONG {
            let mut w = w.clone();
            w[k] = x;
            fixed.push(vec!["{".into(), "\"classname\" \"worldspawn\"".into(), "{".into(), w.join(" "), "}".into(), "}".into()]);
        } }
        for x in WRONG { fixed.push(vec!["{".into(), "\"classname\" \"worldspawn\"".into(), "{".into(), format!("{} {}", l, x), "}".into(), "}".into()]); }
        for x in ["// grid", "// 1", "//TX1", "//TX2 1 2", "1 2 3 // y", "# z", "; 5"] { fixed.push(vec!["{".into(), "\"classname\" \"worldspawn\"".into(), "{".into(), format!("{} {}", l, x), "}".into(), "}".into()]); }
    }
    for round in 0..c.n(15000, 250000) + fixed.len() {
        let mut lines: Vec<String> = vec![];
        let ws = if r.chance(1, 8) { r.below(3) } else { 1 };
        for _ in 0..ws {
            lines.extend(["{".to_string(), "\"classname\" \"worldspawn\"".into()]);
            for _ in 0..r.below(3) { lines.extend(box_brush(&mut r)); }
            lines.push("}".into());
        }
        for _ in 0..r.below(3) {
            lines.extend(["{".to_string(), format!("\"classname\" \"{}\"", r.pick(&["light", "func_group", "func_wall"])), "\"origin\" \"1 2 3\"".into()]);
            if r.chance(1, 2) { lines.extend(box_brush(&mut r)); }
            lines.push("}".into());
        }
        let faults = if round % 4 == 0 { 0 } else { 1 + r.below(3) };
        let faults = match fixed.pop() { Some(l) => { lines = l; 0 } None => faults };
        for _ in 0..faults {
            if lines.is_empty() { break; }
            let i = r.below(lines.len());
            match r.below(8) {
                0 => { lines.remove(i); }
                1 => lines.insert(i, r.pick(&junk).to_string()),
                2 => { let j = r.below(lines.len()); lines.swap(i, j); }
                3 => lines.truncate(i),
                4 => { let l = lines[i].clone(); lines.insert(i, l); }
                5 => { let mut w: Vec<String> = lines[i].split(' ').map(|s| s.into()).collect(); let k = r.below(w.len()); w.remove(k); lines[i] = w.join(" "); }
                6 => { let mut w: Vec<String> = lines[i].split(' ').map(|s| s.into()).collect(); let k = r.below(w.len()); w[k] = r.pick(&WRONG).to_string(); lines[i] = w.join(" "); }
                _ => { let n = r.below(lines[i].chars().count() + 1); lines[i] = lines[i].chars().take(n).collect(); }
            }
        }
        let text = lines.join("\n");
        let (parses, single) = ref_accept(&text);
        c.case(text.clone(), text.contains('('), || {
            let toks = tokenizer::run(text.clone());
            let ents = match parser::run(&toks) {
                Err(e) => return if parses { Err(format!("valid text rejected: {:?}", e)) } else { Ok(()) },
                Ok((_, e)) => e,
            };
            if !parses { return Err("faulty text accepted".into()); }
            if round % 16 == 0 {
                std::fs::write(&file.0, &text).map_err(|e| e.to_string())?;
                match (import(&file.0), single) { (Ok(_), true) | (Err(_), false) => (), (x, _) => return Err(format!("one worldspawn: {}, the file imports as {:?}", single, x)) }
            }
            let mut ti = std::collections::HashMap::new();
            ti.insert("wall".to_string(), Texture::new(64, 64));
            let geo = geo_builder::run(&TextureInfo(ti), &ents);
            match (layer_filter::run(ents.into_iter().zip(geo).collect()), single) {
                (Ok(_), true) | (Err(_), false) => Ok(()),
                (Ok(_), false) => Err("missing or repeated worldspawn accepted".into()),
                (Err(e), true) => Err(format!("valid text rejected: {:?}", e)),
            }
        });
        if c.stop() { return; }
    }
}

// ---------------------------------------------------------------- M05
fn lcs(a: &[usize], b: &[usize]) -> usize {
    // independent row-wise formulation
    let mut row = vec![0usize; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for j in 0..b.len() {
            let keep = row[j + 1];
            row[j + 1] = if *x == b[j] { diag + 1 } else { row[j + 1].max(row[j]) };
            diag = keep;
        }
    }
    row[b.len()]
}
const M05_NEAR: usize = 9000000;
/// lines that differ only in case, blanks, kind or the way a number is written
fn m05_near(k: usize) -> Token {
    let prop = |key: &str, value: &str| Token::Property(tokenizer::Property { key: key.into(), value: value.into() });
    let com = |s: &str| Token::Comment(s.into());
    let pl = |s: &str| Token::BrushPlane(s.into());
    let un = |s: &str| Token::Unrecognized(s.into());
    match k {
        0 => com("// a"), 1 => com("// a "), 2 => com("// A"), 3 => com("/// a"), 4 => com("//  a"), 5 => com("//a"),
        6 => prop("k", "1 2"), 7 => prop("K", "1 2"), 8 => prop("k", "1  2"), 9 => prop("k", "1.0 2"), 10 => prop("k ", "1 2"), 11 => prop("k", "1 2 "), 12 => prop("k", ""), 13 => prop("", "k"),
        14 => pl("( 0 0 0 ) a 1"), 15 => pl("( 0 0 0 ) A 1"), 16 => pl("( 0  0 0 ) a 1"), 17 => pl("( 0 0 0 ) a 1.0"), 18 => pl("( 0 0 0 ) a 1 "), 19 => pl("( -0 0 0 ) a 1"),
        20 => un(" "), _ => un("\t"),
    }
}
fn m05_tok(k: usize) -> Token {
    match k { 0 => Token::OpenBrace, 1 => Token::Comment("x".into()), 2 => Token::Property(tokenizer::Property { key: "k".into(), value: "v".into() }), 3 => Token::Comment("y".into()), 4 => Token::CloseBrace, 5 => Token::Property(tokenizer::Property { key: "k".into(), value: "V".into() }), 6 => Token::Property(tokenizer::Property { key: "v".into(), value: "k".into() }), 7 => Token::Unrecognized("x".into()), 8 => Token::Unrecognized("( 9".into()), 9 => Token::Unrecognized(String::new()), k if k >= M05_NEAR && k < M05_NEAR + 22 => m05_near(k - M05_NEAR), _ => Token::BrushPlane(format!("( {}", k)) }
}
fn m05_case(c: &mut Ctx, a: &[usize], b: &[usize]) {
    let best = lcs(a, b);
    c.case(format!("a={:?} b={:?}", a, b), !a.is_empty() && !b.is_empty() && a != b, || {
        let ta: Vec<Token> = a.iter().map(|k| m05_tok(*k)).collect();
        let tb: Vec<Token> = b.iter().map(|k| m05_tok(*k)).collect();
        let d = tokenizer::diff_tokens(&ta, &tb);
        // positions by address
        let pos = |v: &[Token], t: &Token| v.iter().position(|x| std::ptr::eq(x, t));
        let rem: Option<Vec<usize>> = d.removed.iter().map(|t| pos(&ta, t)).collect();
        let add: Option<Vec<usize>> = d.added.iter().map(|t| pos(&tb, t)).collect();
        let show = || format!("removed {:?} added {:?}", d.removed, d.added);
        let (rem, add) = match (rem, add) { (Some(r), Some(a)) => (r, a), _ => return Err(format!("a listed line is not from its file: {}", show())) };
        if rem.windows(2).any(|w| w[0] >= w[1]) || add.windows(2).any(|w| w[0] >= w[1]) { return Err(format!("not in file order: {}", show())); }
        let ka: Vec<usize> = (0..a.len()).filter(|i| !rem.contains(i)).map(|i| a[i]).collect();
        let kb: Vec<usize> = (0..b.len()).filter(|i| !add.contains(i)).map(|i| b[i]).collect();
        if ka != kb { return Err(format!("applying it to the first does not give the second: {}", show())); }
        if ka.len() != best { return Err(format!("keeps {} lines, {} possible: {}", ka.len(), best, show())); }
        Ok(())
    });
}
/// what run_diff prints for two files, in a process of its own; None: it reports an error
fn m05_printed(a: &std::path::Path, b: &std::path::Path) -> Result<Option<String>, String> {
    let v: Vec<String> = std::env::args().collect();
    let o = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?).args(&v[1..4.min(v.len())]).arg("quick")
        .env("QV_DIFF_A", a).env("QV_DIFF_B", b).stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    match o.status.code() { Some(0) => Ok(Some(String::from_utf8_lossy(&o.stdout).into())), Some(17) => Ok(None), x => Err(format!("comparing two files ends with {:?}", x)) }
}
fn m05_files(c: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("qmap-m05-{}", std::process::id()));
    std::fs::create_dir(&dir).unwrap();
    let mut r = Rng::new(c.seed ^ 5);
    let lines = ["{", "}", "\"k\" \"v\"", "// x", "( 0 0 0 ) ( 1 0 0 ) ( 0 1 0 ) a 0 0 0 1 1", "", "junk", "\"k\" \"w\""];
    for round in 0..c.n(40, 300) {
        let mut text = || (0..r.below(if round % 9 == 0 { 60 } else { 9 })).map(|_| format!("{}\n", r.pick(&lines))).collect::<String>();
        let (ta, tb) = (text(), text());
        let (pa, pb) = (dir.join("a"), dir.join(if round % 5 == 4 { "missing" } else { "b" }));
        std::fs::write(&pa, &ta).unwrap();
        std::fs::write(dir.join("b"), &tb).unwrap();
        c.case(format!("files {:?} and {:?}", ta, tb), ta != tb, || {
            let (a, b) = (tokenizer::run(ta.clone()), tokenizer::run(tb.clone()));
            let exp = format!("{:#?}", tokenizer::diff_tokens(&a, &b));
            if round % 5 == 4 {
                for (x, y) in [(&pa, &pb), (&pb, &pa)] { if m05_printed(x, y)?.is_some() { return Err("a file that is not there is no error".into()); } }
                return Ok(());
            }
            match m05_printed(&pa, &pb)? { None => Err("comparing two readable files fails".into()), Some(t) if t.contains(&exp) => Ok(()), Some(t) => Err(format!("printed {:?}, expected {:?}", t, exp)) }
        });
        if c.stop() { break; }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
fn m05(c: &mut Ctx) {
    if let (Ok(a), Ok(b)) = (std::env::var("QV_DIFF_A"), std::env::var("QV_DIFF_B")) {
        std::process::exit(if quarchitect::run_diff(&a, &b).is_ok() { 0 } else { 17 });
    }
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..c.n(4, 5) {
        let mut nx = vec![];
        for l in &last { for k in 0..3 { let mut m = l.clone(); m.push(k); nx.push(m); } }
        lists.extend(nx.clone());
        last = nx;
    }
    for a in &lists { for b in &lists { m05_case(c, a, b); if c.stop() { return; } } }
    let mut r = Rng::new(c.seed);
    // long files with few and with many changes
    for (n, k) in [(40, 3), (70, 5), (130, 2), (140, 40), (270, 4), (300, 300)] {
        for _ in 0..c.n(2, 20) {
            let a: Vec<usize> = (0..n).map(|_| r.below(k)).collect();
            let mut b = a.clone();
            for _ in 0..r.below(n) { if r.chance(1, 2) { let i = r.below(b.len() + 1); b.insert(i, r.below(k)); } else if !b.is_empty() { let i = r.below(b.len()); b.remove(i); } }
            m05_case(c, &a, &b);
            m05_case(c, &a, &a);
            m05_case(c, &a, &[]);
            m05_case(c, &[], &b);
            if c.stop() { return; }
        }
    }
    // long files, edited every few lines
    for n in [280, 1100, 4300] {
        let a: Vec<usize> = (0..n).map(|i| if r.chance(1, 4) { r.below(10) } else { 10 + i }).collect();
        let mut b = vec![];
        for x in &a { match r.below(12) { 0 => (), 1 => { b.push(*x); b.push(r.below(10)); } 2 => b.push(100000 + *x), _ => b.push(*x) } }
        m05_case(c, &a, &b);
        m05_case(c, &b, &a);
        m05_case(c, &a, &a);
        if c.stop() { return; }
    }
    for _ in 0..c.n(4000, 60000) {
        let k = 2 + r.below(11);
        let a: Vec<usize> = (0..r.below(20)).map(|_| r.below(k)).collect();
        let mut b: Vec<usize>;
        if r.chance(1, 2) { b = a.clone(); for _ in 0..r.below(6) { if b.is_empty() || r.chance(1, 2) { let i = r.below(b.len() + 1); b.insert(i, r.below(k)); } else { let i = r.below(b.len()); b.remove(i); } } }
        else { b = (0..r.below(20)).map(|_| r.below(k)).collect(); }
        m05_case(c, &a, &b);
        if c.stop() { return; }
    }
    // lines that are nearly the same
    for _ in 0..c.n(3000, 30000) {
        let base = *r.pick(&[0, 6, 14, 20]);
        let mut one = |r: &mut Rng| match r.below(8) { 0 => 9, 1 => 0, _ => M05_NEAR + (base + r.below(6)).min(21) };
        let a: Vec<usize> = (0..1 + r.below(5)).map(|_| one(&mut r)).collect();
        let mut b = a.clone();
        for _ in 0..1 + r.below(2) { let i = r.below(b.len()); b[i] = one(&mut r); }
        m05_case(c, &a, &b);
        if c.stop() { return; }
    }
    m05_files(c);
}
