//! The contract files: a line-oriented overlay that attaches Verus specifications to functions of /repo.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct ClosureC {
    pub params: Vec<String>,
    pub out: Option<(String, String)>,
    pub requires: String,
    pub ensures: String,
    pub spec: Option<String>,
    pub proof: String,
    /// proof before the closure body's last expression
    pub tail: String,
    pub dynt: Option<String>,
    /// the closure becomes a function of its own, its captures become parameters
    pub lift: Option<String>,
    pub caps: Vec<(String, String)>,
    /// captures passed as something else than themselves: name -> argument
    pub capargs: BTreeMap<String, String>,
    pub inv: String,
}
#[derive(Default, Debug, Clone)]
pub struct LoopC {
    pub invariant: String,
    pub decreases: String,
    pub ensures: String,
}
#[derive(Default, Debug, Clone)]
pub struct FnC {
    pub name: String,
    pub ret: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub trusted: Option<String>,
    pub closures: BTreeMap<usize, ClosureC>,
    pub loops: BTreeMap<usize, LoopC>,
    pub proofs: Vec<(String, String)>,
    pub ghosts: Vec<(String, usize, String)>,
    pub args: Vec<(String, usize, String)>,
    pub renames: Vec<(String, usize, String)>,
    pub attrs: Vec<String>,
    pub params: BTreeMap<String, String>,
    pub rettype: Option<String>,
    pub generics: Option<String>,
    pub casts: Vec<(String, String)>,
    pub props: Vec<String>,
    pub stradd: bool,
    /// what this function prints is part of its contract
    pub shows: bool,
}
#[derive(Default, Debug, Clone)]
pub struct FileC {
    pub path: String,
    pub types: Vec<String>,
    /// types whose derived PartialEq is used
    pub deriveeq: Vec<String>,
    pub raw: String,
    pub fns: Vec<FnC>,
    /// the units whose specifications this file's functions are stated in
    pub spec: Vec<String>,
}
#[derive(Default, Debug, Clone)]
pub struct Unit {
    pub name: String,
    pub pre: Vec<String>,
    pub root: String,
    pub dyns: Vec<(String, String)>,
    pub values: Vec<(String, String)>,
    /// other units whose contracts are assumed here (they are proved there): name, specification text
    pub specs: Vec<(String, String)>,
    pub files: Vec<FileC>,
}

pub fn parse(text: &str, dir: &std::path::Path) -> Unit {
    let mut u = Unit::default();
    let mut imported: BTreeMap<String, Unit> = BTreeMap::new();
    // (directive, args, body)
    let mut items: Vec<(String, String, String)> = Vec::new();
    for line in text.lines() {
        if line.starts_with("//@@") {
            continue;
        }
        if let Some(rest) = line.strip_prefix('@') {
            let mut it = rest.splitn(2, char::is_whitespace);
            let d = it.next().unwrap().to_string();
            let a = it.next().unwrap_or("").trim().to_string();
            items.push((d, a, String::new()));
        } else if let Some(l) = items.last_mut() {
            l.2.push_str(line);
            l.2.push('\n');
        }
    }
    let mut cl: usize = 0;
    let mut lp: usize = 0;
    for (d, a, b) in items {
        macro_rules! f {
            () => {
                u.files.last_mut().expect("no @file").fns.last_mut().expect("no @fn")
            };
        }
        let text = if a.is_empty() { b.clone() } else { format!("{}\n{}", a, b) };
        match d.as_str() {
            "unit" => u.name = a,
            "pre" => u.pre = a.split_whitespace().map(String::from).collect(),
            "root" => u.root.push_str(&b),
            "dyn" => {
                let mut it = a.splitn(2, "=>");
                let k = it.next().unwrap().trim().to_string();
                u.dyns.push((k, it.next().unwrap().trim().to_string()));
            }
            "value" => {
                let mut it = a.splitn(2, "=>");
                let k = it.next().unwrap().trim().to_string();
                u.values.push((k, it.next().unwrap().trim().to_string()));
            }
            "import" => {
                let t = std::fs::read_to_string(dir.join(format!("{}.vc", a))).expect("imported unit");
                let v = parse(&t, dir);
                u.specs.push((a.clone(), v.root.clone()));
                u.dyns.extend(v.dyns.clone());
                imported.insert(a, v);
            }
            // @from UNIT FN...: the contracts those functions have in UNIT
            "from" => {
                let mut it = a.split_whitespace();
                let un = it.next().unwrap().to_string();
                let v = &imported[&un];
                let cur = u.files.last_mut().unwrap();
                let src = v.files.iter().find(|f| f.path == cur.path).expect("file of the imported unit");
                cur.spec.push(un.clone());
                for n in it {
                    let f = src.fns.iter().find(|f| f.name == n).expect("function of the imported unit");
                    assert!(f.trusted.is_none());
                    cur.fns.push(FnC {
                        name: f.name.clone(),
                        ret: f.ret.clone(),
                        requires: f.requires.clone(),
                        ensures: f.ensures.clone(),
                        rettype: f.rettype.clone(),
                        generics: f.generics.clone(),
                        params: f.params.clone(),
                        trusted: Some(format!("proved in unit {}", un)),
                        ..Default::default()
                    });
                }
            }
            "file" => u.files.push(FileC { path: a, ..Default::default() }),
            "types" => u.files.last_mut().unwrap().types.extend(a.split_whitespace().map(String::from)),
            "deriveeq" => u.files.last_mut().unwrap().deriveeq.extend(a.split_whitespace().map(String::from)),
            "raw" => u.files.last_mut().unwrap().raw.push_str(&b),
            "fn" => u.files.last_mut().unwrap().fns.push(FnC { name: a, ret: "r".into(), ..Default::default() }),
            "ret" => f!().ret = a,
            "requires" => f!().requires = text,
            "ensures" => f!().ensures = text,
            "decreases" => f!().decreases = text,
            "trusted" => f!().trusted = Some(text.trim().to_string()),
            "attr" => f!().attrs.push(text),
            "props" => f!().props = a.split_whitespace().map(String::from).collect(),
            "param" => {
                let mut it = a.splitn(2, ':');
                let k = it.next().unwrap().trim().to_string();
                f!().params.insert(k, it.next().unwrap().trim().to_string());
            }
            "rettype" => f!().rettype = Some(text),
            "generics" => f!().generics = Some(text),
            "cast" => {
                let mut it = a.split_whitespace();
                f!().casts.push((it.next().unwrap().into(), it.next().unwrap().into()));
            }
            "closure" => {
                cl = a.trim().parse().expect("closure ordinal");
                f!().closures.insert(cl, ClosureC::default());
            }
            "c_params" => {
                f!().closures.get_mut(&cl).unwrap().params =
                    text.trim().split(";;").map(|s| s.trim().to_string()).collect()
            }
            "c_out" => {
                let mut it = a.splitn(2, ':');
                let k = it.next().unwrap().trim().to_string();
                f!().closures.get_mut(&cl).unwrap().out = Some((k, it.next().unwrap().trim().to_string()));
            }
            "c_lift" => f!().closures.get_mut(&cl).unwrap().lift = Some(a),
            "c_caps" => {
                let c = f!().closures.get_mut(&cl).unwrap();
                for s in text.trim().split(";;") {
                    let mut it = s.splitn(2, ':');
                    let n = it.next().unwrap().trim().to_string();
                    let t = it.next().unwrap().trim();
                    // NAME: TYPE = ARGUMENT
                    let t = match t.split_once('=') {
                        Some((t, a)) => {
                            c.capargs.insert(n.clone(), a.trim().to_string());
                            t.trim()
                        }
                        None => t,
                    };
                    c.caps.push((n, t.to_string()));
                }
            }
            "c_inv" => f!().closures.get_mut(&cl).unwrap().inv = text,
            "c_requires" => f!().closures.get_mut(&cl).unwrap().requires = text,
            "c_ensures" => f!().closures.get_mut(&cl).unwrap().ensures = text,
            "c_spec" => f!().closures.get_mut(&cl).unwrap().spec = Some(text),
            "c_dyn" => f!().closures.get_mut(&cl).unwrap().dynt = Some(a),
            "arg" => {
                let mut it = a.splitn(3, char::is_whitespace);
                let m = it.next().unwrap().to_string();
                let n: usize = it.next().unwrap().parse().unwrap();
                let t = format!("{}\n{}", it.next().unwrap_or(""), b);
                f!().args.push((m, n, t));
            }
            "rename" => {
                let mut it = a.split_whitespace();
                let m = it.next().unwrap().to_string();
                let n: usize = it.next().unwrap().parse().unwrap();
                f!().renames.push((m, n, it.next().unwrap().to_string()));
            }
            "c_tail" => f!().closures.get_mut(&cl).unwrap().tail = text,
            "c_proof" => f!().closures.get_mut(&cl).unwrap().proof = text,
            "loop" => {
                lp = a.trim().parse().expect("loop ordinal");
                f!().loops.insert(lp, LoopC::default());
            }
            "invariant" => f!().loops.get_mut(&lp).unwrap().invariant = text,
            "l_decreases" => f!().loops.get_mut(&lp).unwrap().decreases = text,
            "l_ensures" => f!().loops.get_mut(&lp).unwrap().ensures = text,
            "proof" => f!().proofs.push((a, b)),
            "ghost" => {
                let mut it = a.splitn(3, char::is_whitespace);
                let m = it.next().unwrap().to_string();
                let n: usize = it.next().unwrap().parse().unwrap();
                let t = format!("{}\n{}", it.next().unwrap_or(""), b);
                f!().ghosts.push((m, n, t));
            }
            "stradd" => f!().stradd = true,
            "shows" => f!().shows = true,
            "note" => (),
            _ => panic!("unknown directive @{}", d),
        }
    }
    u
}
