// Shared by the replay drivers: seeded generator, case bookkeeping, JSON output.
#![allow(dead_code)]
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn f(&mut self, a: f32, b: f32) -> f32 { a + (b - a) * ((self.next() >> 40) as f32 / (1u64 << 24) as f32) }
}

/// Properties editors and games attach to any entity; none of them means anything to the importer.
pub fn junk(r: &mut Rng) -> Vec<(&'static str, &'static str)> {
    const KEYS: [(&str, &[&str]); 26] = [
        ("_tb_type", &["_tb_layer", "_tb_group", ""]), ("_tb_name", &["Default Layer", "g 1", ""]), ("_tb_layer", &["1", "2", "10"]), ("_tb_linked_group_id", &["1", "{a-b}"]),
        ("_tb_layer_sort_index", &["0"]), ("_tb_layer_hidden", &["1"]), ("_tb_layer_locked", &["1"]), ("_tb_layer_omit_from_export", &["1"]), ("_tb_transformation", &["1 0 0 5 0 1 0 5 0 0 1 5 0 0 0 1"]), ("_tb_textures", &["a;b"]),
        ("spawnflags", &["0", "1", "2048", "-1"]), ("angle", &["0", "90", "-1", "-2", "360"]), ("angles", &["0 90 0"]), ("mangle", &["10 20 30"]), ("targetname", &["t1"]), ("target", &["t1"]),
        ("_minlight", &["64"]), ("light", &["300"]), ("wad", &["a.wad;b.wad"]), ("message", &["hi", ""]), ("scale", &["2"]), ("mapversion", &["220"]), ("_scale", &["32"]), ("model", &["*1"]), ("_shadow", &["1"]), ("", &["", "x"]),
    ];
    if !r.chance(1, 3) { return vec![]; }
    (0..1 + r.below(3)).map(|_| { let (k, v) = *r.pick(&KEYS); (k, *r.pick(v)) }).collect()
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<(String, String)>,
    pub cur: Option<String>,
    pub known: Vec<String>,
    pub t0: std::time::Instant,
    next_sample: u64,
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

impl Ctx {
    pub fn stop(&self) -> bool { self.fail.is_some() }
    /// Time budget in seconds (quick, thorough) still left?
    pub fn within(&self, quick: u64, thorough: u64) -> bool {
        self.fail.is_none() && self.t0.elapsed().as_secs() < if self.thorough { thorough } else { quick }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else if quick >= 1000 { (quick * 5).min(thorough) } else { quick } }
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, input: String, nontrivial: bool, f: F) {
        if self.fail.is_some() { return; }
        self.evals += 1;
        if nontrivial { self.distinct.insert(hash(&input)); }
        if self.evals >= self.next_sample && self.samples.len() < 6 && nontrivial {
            self.next_sample = self.evals * 7 + 3;
            self.samples.push(input.chars().take(600).collect());
        }
        if let Some(c) = &self.cur { let _ = std::fs::write(c, &input); }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => (),
            Ok(Err(m)) => self.fail = Some((input, m)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail = Some((input, format!("the real code panicked: {}", m)));
            }
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// args: ID OUT.json SEED TIER [CURFILE]
pub fn main_with(checks: &[(&str, &str, fn(&mut Ctx))]) {
    let a: Vec<String> = std::env::args().collect();
    let id = a[1].clone();
    std::panic::set_hook(Box::new(|_| ()));
    let mut ctx = Ctx {
        id: id.clone(), seed: a[3].parse().unwrap_or(1), thorough: a[4] == "thorough",
        evals: 0, distinct: HashSet::new(), samples: vec![], fail: None,
        cur: a.get(5).cloned(), known: vec![], t0: std::time::Instant::now(), next_sample: 1,
    };
    let (_, rule, f) = checks.iter().find(|c| c.0 == id).expect("unknown id");
    f(&mut ctx);
    let fail = match &ctx.fail {
        None => "null".to_string(),
        Some((i, m)) => format!("{{\"input\": {}, \"what\": {}}}", js(i), js(m)),
    };
    let out = format!(
        "{{\"property\": {}, \"seed\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"known\": [{}], \"failure\": {}}}\n",
        js(&id), ctx.seed, ctx.evals, ctx.distinct.len(), js(rule),
        ctx.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        ctx.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), fail);
    std::fs::write(&a[2], out).unwrap();
    std::process::exit(if ctx.fail.is_some() { 1 } else { 0 });
}
