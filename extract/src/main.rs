//! Extracts functions of /repo's crate into a single Verus file and attaches the contracts of one unit to them.
//! usage: extract SRC_DIR CONTRACT_FILE PRE_DIR OUT_RS OUT_MAP [--demote path::fn]... [--shape FILE] [--record]
mod contract;
mod print;
mod xform;

use contract::*;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit::Visit;
use xform::*;

pub struct FileAst {
    pub ast: syn::File,
    pub modpath: Vec<String>,
}

fn modpath(p: &str) -> Vec<String> {
    let p = p.trim_end_matches(".rs");
    let mut v: Vec<String> = p.split('/').map(String::from).collect();
    if v.last().map(|s| s.as_str()) == Some("mod") {
        v.pop();
    }
    if v == ["lib"] {
        v.clear();
    }
    v
}

fn self_name(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => t.to_token_stream().to_string(),
    }
}

struct Found {
    generics: syn::Generics,
    self_ty: Option<syn::Type>,
    trait_name: Option<String>,
    sig: syn::Signature,
    block: syn::Block,
}

fn find_fn(ast: &syn::File, name: &str) -> Option<Found> {
    let parts: Vec<&str> = name.split("::").collect();
    for item in &ast.items {
        match item {
            syn::Item::Fn(f) if parts.len() == 1 && f.sig.ident == parts[0] => {
                return Some(Found {
                    generics: Default::default(),
                    self_ty: None,
                    trait_name: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                })
            }
            syn::Item::Impl(i) if parts.len() >= 2 => {
                let sn = self_name(&i.self_ty);
                let tn = i.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', ""));
                // Type::fn or Type::Trait::fn
                if sn != parts[0] {
                    continue;
                }
                if parts.len() == 3 && tn.as_deref() != Some(parts[1]) {
                    continue;
                }
                for it in &i.items {
                    if let syn::ImplItem::Fn(m) = it {
                        if m.sig.ident == parts[parts.len() - 1] {
                            return Some(Found {
                                generics: i.generics.clone(),
                                self_ty: Some((*i.self_ty).clone()),
                                trait_name: tn,
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                            });
                        }
                    }
                }
            }
            _ => (),
        }
    }
    None
}

fn ts(text: &str) -> Result<TokenStream, String> {
    text.parse::<TokenStream>().map_err(|e| format!("contract text: {}: {}", e, text)).map(spec_floats)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = &args[1];
    let ctext = std::fs::read_to_string(&args[2]).expect("contract file");
    let predir = &args[3];
    let mut demote: BTreeSet<String> = BTreeSet::new();
    let mut shape_file: Option<String> = None;
    let mut record = false;
    let mut i = 6;
    while i < args.len() {
        match args[i].as_str() {
            "--demote" => {
                demote.insert(args[i + 1].clone());
                i += 1;
            }
            "--shape" => {
                shape_file = Some(args[i + 1].clone());
                i += 1;
            }
            "--record" => record = true,
            x => panic!("arg {}", x),
        }
        i += 1;
    }
    let unit = contract::parse(&ctext, std::path::Path::new(&args[2]).parent().unwrap());
    let mut shapes: serde_json::Map<String, serde_json::Value> = shape_file
        .as_ref()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_default();

    let mut out = Out { text: String::new(), line: 1 };
    let mut map: Vec<serde_json::Value> = Vec::new();
    let mut notes: Vec<String> = Vec::new();

    out.push("#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unreachable_code, non_camel_case_types, unused_must_use, mismatched_lifetime_syntaxes, unused_doc_comments, unused_attributes)]\n");
    out.push("use vstd::prelude::*;\n");
    let mut groups: Vec<String> = Vec::new();
    out.push("pub mod pre {\nuse vstd::prelude::*;\nuse super::pre;\nverus! {\n");
    for p in &unit.pre {
        let t = std::fs::read_to_string(format!("{}/{}.rs", predir, p)).expect("prelude");
        if t.contains(&format!("pub broadcast group g_{} ", p)) {
            groups.push(format!("crate::pre::g_{}", p));
        }
        out.push(&format!("// ---- prelude {}\n", p));
        out.push(&t);
    }
    out.push("} // verus!\n}\npub use pre::*;\n");
    let uses = if groups.is_empty() { String::new() } else { format!("broadcast use {{{}}};\n", groups.join(", ")) };
    if !unit.root.trim().is_empty() {
        out.push("pub mod spec {\nuse vstd::prelude::*;\nuse crate::pre::*;\nuse crate::*;\nverus! {\n");
        out.push(&uses);
        out.push(&raw_floats(&unit.root));
        out.push("}\n}\n");
    } else {
        out.push("pub mod spec {}\n");
    }
    out.push("pub use spec::*;\n");
    for (n, root) in &unit.specs {
        out.push(&format!("pub mod spec_{} {{\nuse vstd::prelude::*;\nuse crate::pre::*;\nuse crate::*;\nverus! {{\n", n));
        out.push(&uses);
        out.push(&raw_floats(root));
        out.push("}\n}\n");
    }

    // Module tree
    let mut asts: BTreeMap<Vec<String>, (usize, Option<syn::File>)> = BTreeMap::new();
    for (k, f) in unit.files.iter().enumerate() {
        let p = format!("{}/{}", src, f.path);
        let ast = match std::fs::read_to_string(&p) {
            Ok(t) => match syn::parse_file(&t) {
                Ok(a) => Some(a),
                Err(e) => {
                    notes.push(format!("{}: does not parse: {}", f.path, e));
                    None
                }
            },
            Err(e) => {
                notes.push(format!("{}: {}", f.path, e));
                None
            }
        };
        asts.insert(modpath(&f.path), (k, ast));
    }
    // functions with dyn parameters, float constants
    let mut dynfns: HashMap<String, Vec<Option<String>>> = HashMap::new();
    let mut consts: HashMap<String, syn::Expr> = HashMap::new();
    for (_, (_, ast)) in &asts {
        if let Some(ast) = ast {
            for item in &ast.items {
                match item {
                    syn::Item::Fn(f) => {
                        let v: Vec<Option<String>> =
                            f.sig.inputs.iter().map(|a| match a {
                                syn::FnArg::Typed(t) => dyn_of(&t.ty, &unit.dyns),
                                _ => None,
                            }).collect();
                        if v.iter().any(|x| x.is_some()) {
                            dynfns.insert(f.sig.ident.to_string(), v);
                        }
                    }
                    syn::Item::Const(c) => {
                        consts.insert(c.ident.to_string(), (*c.expr).clone());
                    }
                    _ => (),
                }
            }
        }
    }
    let mods: BTreeSet<Vec<String>> = asts.keys().cloned().collect();
    let all_names: BTreeSet<String> = unit
        .files
        .iter()
        .flat_map(|f| f.fns.iter().map(|x| x.name.rsplit("::").next().unwrap().to_string()))
        .collect();

    let mut fatal: Vec<String> = Vec::new();
    emit_mod(&[], &asts, &mods, &unit, &demote, &mut shapes, record, &mut out, &mut map, &mut notes, &mut fatal, &dynfns, &consts, &all_names, &uses);
    out.push("fn main() {}\n");
    std::fs::write(&args[4], &out.text).unwrap();
    let j = serde_json::json!({"unit": unit.name, "functions": map, "notes": notes, "fatal": fatal});
    std::fs::write(&args[5], serde_json::to_string_pretty(&j).unwrap()).unwrap();
    if record {
        if let Some(f) = shape_file {
            let sorted: BTreeMap<_, _> = shapes.into_iter().collect();
            std::fs::write(f, serde_json::to_string_pretty(&sorted).unwrap() + "\n").unwrap();
        }
    }
    if !fatal.is_empty() {
        for f in fatal {
            eprintln!("extract: {}", f);
        }
        std::process::exit(3);
    }
}

pub struct Out {
    pub text: String,
    pub line: usize,
}
impl Out {
    fn push(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.text.push_str(s);
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_mod(
    path: &[String],
    asts: &BTreeMap<Vec<String>, (usize, Option<syn::File>)>,
    mods: &BTreeSet<Vec<String>>,
    unit: &Unit,
    demote: &BTreeSet<String>,
    shapes: &mut serde_json::Map<String, serde_json::Value>,
    record: bool,
    out: &mut Out,
    map: &mut Vec<serde_json::Value>,
    notes: &mut Vec<String>,
    fatal: &mut Vec<String>,
    dynfns: &HashMap<String, Vec<Option<String>>>,
    consts: &HashMap<String, syn::Expr>,
    all_names: &BTreeSet<String>,
    uses: &str,
) {
    // children
    let children: BTreeSet<String> =
        mods.iter().filter(|m| m.len() > path.len() && m.starts_with(path)).map(|m| m[path.len()].clone()).collect();
    for c in &children {
        let mut p = path.to_vec();
        p.push(c.clone());
        let mut sp = asts.get(&p).map_or(vec![], |(k, _)| unit.files[*k].spec.iter().map(|u| format!("spec_{}", u)).collect());
        if sp.is_empty() {
            sp.push("spec".to_string());
        }
        let sp = sp.iter().map(|u| format!("use crate::{}::*;\n", u)).collect::<String>();
        out.push(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::pre::*;\n{}", c, sp));
        emit_mod(&p, asts, mods, unit, demote, shapes, record, out, map, notes, fatal, dynfns, consts, all_names, uses);
        out.push("}\n");
    }
    let (k, ast) = match asts.get(path) {
        Some(x) => x,
        None => return,
    };
    let fc = &unit.files[*k];
    let ast = match ast {
        Some(a) => a,
        None => {
            fatal.push(format!("{} missing or unparsable", fc.path));
            return;
        }
    };
    // uses
    let mut declared: BTreeSet<String> = BTreeSet::new();
    for item in &ast.items {
        if let syn::Item::Mod(m) = item {
            declared.insert(m.ident.to_string());
        }
    }
    let mut seen_use: BTreeSet<String> = BTreeSet::new();
    for item in &ast.items {
        if let syn::Item::Use(u) = item {
            let mut flat = Vec::new();
            flatten_use(&u.tree, &mut Vec::new(), &mut flat);
            for (segs, rename) in flat {
                if use_ok(&segs, path, mods, &children, &declared, unit, asts) {
                    let mut t = segs.join("::");
                    if let Some(r) = rename {
                        t = format!("{} as {}", t, r);
                    }
                    if seen_use.insert(t.clone()) {
                        out.push(&format!("pub use {};\n", t));
                    }
                }
            }
        }
    }
    out.push("verus! {\n");
    out.push(uses);
    // types
    let wanted = |n: &str| fc.types.iter().any(|t| t == "*" || t == n);
    for item in &ast.items {
        match item {
            syn::Item::Struct(s) if wanted(&s.ident.to_string()) => {
                let mut s = s.clone();
                let (copy, clone) = derives(&s.attrs);
                let eq = fc.deriveeq.contains(&s.ident.to_string()) && derives_eq(&s.attrs);
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = syn::parse_quote!(pub);
                    f.attrs.clear();
                }
                let mut x = Xf::types_only(&unit.dyns);
                syn::visit_mut::VisitMut::visit_item_struct_mut(&mut x, &mut s);
                emit_type(out, &s.ident, &s.generics, s.to_token_stream(), copy, clone);
                if eq {
                    // derived PartialEq compares field by field
                    let id = &s.ident;
                    let fs: Vec<TokenStream> = s.fields.iter().enumerate().map(|(n, f)| match &f.ident {
                        Some(i) => i.to_token_stream(),
                        None => syn::Index::from(n).to_token_stream(),
                    }).collect();
                    out.push(&print::print(quote!(impl crate::pre::VxEq<#id> for #id {
                        open spec fn speq(&self, b: &#id) -> bool { #(self.#fs.speq(&b.#fs))&&* }
                        fn eqx(&self, b: &#id) -> (r: bool) { #(self.#fs.eqx(&b.#fs))&&* }
                    })));
                    out.push("\n");
                }
            }
            syn::Item::Enum(s) if wanted(&s.ident.to_string()) => {
                let mut s = s.clone();
                let (copy, clone) = derives(&s.attrs);
                let eq = fc.deriveeq.contains(&s.ident.to_string()) && derives_eq(&s.attrs);
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                let mut x = Xf::types_only(&unit.dyns);
                syn::visit_mut::VisitMut::visit_item_enum_mut(&mut x, &mut s);
                emit_type(out, &s.ident, &s.generics, s.to_token_stream(), copy, clone);
                if eq {
                    // TRUSTED: derived PartialEq of an enum without floats is structural equality
                    let id = &s.ident;
                    out.push(&print::print(quote!(impl crate::pre::VxEq<#id> for #id {
                        open spec fn speq(&self, b: &#id) -> bool { *self == *b }
                        #[verifier::external_body]
                        fn eqx(&self, b: &#id) -> (r: bool) { unimplemented!() }
                    })));
                    out.push("\n");
                }
            }
            syn::Item::Type(t) if wanted(&t.ident.to_string()) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = syn::parse_quote!(pub);
                let mut x = Xf::types_only(&unit.dyns);
                syn::visit_mut::VisitMut::visit_item_type_mut(&mut x, &mut t);
                out.push(&print::print(t.to_token_stream()));
                out.push("\n");
            }
            syn::Item::Const(c) if wanted(&c.ident.to_string()) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                out.push(&print::print(c.to_token_stream()));
                out.push("\n");
            }
            _ => (),
        }
    }
    if !fc.raw.trim().is_empty() {
        out.push("// ---- contract text\n");
        out.push(&raw_floats(&fc.raw));
    }
    // functions
    for f in &fc.fns {
        let key = format!("{}::{}", path.join("::"), f.name);
        let found = match find_fn(ast, &f.name) {
            Some(x) => x,
            None => {
                map.push(serde_json::json!({"fn": key, "status": "missing", "reason": "function not found at its anchor", "line0": 0, "line1": 0}));
                continue;
            }
        };
        let forced = demote.contains(&key);
        let mut sh = shape(&found.block, &found.sig);
        let old = if record { None } else { shapes.get(&key).map(|v| v["texts"].clone()) };
        let shape_ok = record
            || match shapes.get(&key) {
                Some(v) => ["params", "closures", "loops"].iter().all(|k| v[*k] == sh[*k]),
                None => true,
            };
        if record {
            sh["texts"] = xform::texts(f, &found.block);
        }
        if record {
            shapes.insert(key.clone(), sh.clone());
        }
        let mut status = if f.trusted.is_some() { "trusted" } else { "verify" };
        let mut reason = f.trusted.clone().unwrap_or_default();
        if forced && status == "verify" {
            status = "demoted";
            reason = "outside the verifier's reach in this tree".into();
        }
        if !shape_ok && status == "verify" {
            status = "demoted";
            reason = format!("lost anchor: shape {} (contract written for {})", sh, { let mut o = shapes.get(&key).unwrap().clone(); o.as_object_mut().unwrap().remove("texts"); o });
        }
        let start = out.line;
        let mut info;
        match gen_fn(f, &found, path, unit, status == "verify", dynfns, consts, old.as_ref()) {
            Ok((text, callees)) => {
                info = callees;
                out.push(&text);
            }
            Err(e) => {
                status = "demoted";
                reason = e;
                match gen_fn(f, &found, path, unit, false, dynfns, consts, old.as_ref()) {
                    Ok((text, callees)) => {
                        info = callees;
                        out.push(&text);
                    }
                    Err(e2) => {
                        info = Default::default();
                        notes.push(format!("{}: {}", key, e2));
                    }
                }
            }
        }
        info.retain(|c| all_names.contains(c.rsplit("::").next().unwrap()));
        let clauses = clause_count(f);
        map.push(serde_json::json!({"fn": key, "file": fc.path, "status": status, "reason": reason,
            "line0": start, "line1": out.line, "callees": info, "clauses": clauses, "props": f.props,
            "src_line": found.sig.ident.span().start().line}));
    }
    out.push("} // verus!\n");
}

fn clause_count(f: &FnC) -> usize {
    fn n(t: &str) -> usize {
        // top-level commas separate clauses
        match t.parse::<TokenStream>() {
            Ok(ts) => {
                let mut c = 0;
                let mut last_comma = true;
                for t in ts {
                    let is = matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',');
                    if !is && last_comma {
                        c += 1;
                    }
                    last_comma = is;
                }
                c
            }
            Err(_) => 0,
        }
    }
    let mut c = n(&f.requires) + n(&f.ensures);
    for l in f.loops.values() {
        c += n(&l.invariant) + n(&l.decreases) + n(&l.ensures);
    }
    for l in f.closures.values() {
        c += n(&l.requires) + n(&l.ensures) + l.spec.is_some() as usize;
    }
    c
}

fn derives(attrs: &[syn::Attribute]) -> (bool, bool) {
    let t: String = attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
    let has = |w: &str| t.split(|c: char| !c.is_alphanumeric()).any(|x| x == w);
    (has("Copy"), has("Clone"))
}

fn derives_eq(attrs: &[syn::Attribute]) -> bool {
    let t: String = attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
    t.split(|c: char| !c.is_alphanumeric()).any(|x| x == "PartialEq")
}

fn emit_type(out: &mut Out, id: &syn::Ident, g: &syn::Generics, toks: TokenStream, copy: bool, clone: bool) {
    if copy {
        out.push("#[derive(Clone, Copy)]\n");
    }
    out.push(&print::print(toks));
    out.push("\n");
    if clone {
        let (ig, tg, wc) = g.split_for_impl();
        let t = quote!(impl #ig crate::pre::VxClone for #id #tg #wc {
            #[verifier::external_body]
            fn vx_clone(&self) -> (r: Self) { unimplemented!() }
        });
        out.push(&print::print(t));
        out.push("\n");
    }
}

fn flatten_use(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>)>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten_use(&p.tree, pre, out);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None));
        }
        syn::UseTree::Rename(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string())));
        }
        syn::UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, None));
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, pre, out);
            }
        }
    }
}

fn use_ok(
    segs: &[String],
    path: &[String],
    mods: &BTreeSet<Vec<String>>,
    children: &BTreeSet<String>,
    declared: &BTreeSet<String>,
    unit: &Unit,
    asts: &BTreeMap<Vec<String>, (usize, Option<syn::File>)>,
) -> bool {
    if segs.is_empty() {
        return false;
    }
    // absolute module path of the target
    let mut abs: Vec<String> = match segs[0].as_str() {
        "crate" => vec![],
        "super" => path[..path.len() - 1].to_vec(),
        "self" => path.to_vec(),
        x if declared.contains(x) => {
            if !children.contains(x) {
                return false;
            }
            let mut p = path.to_vec();
            p.push(x.into());
            p
        }
        _ => {
            let mut p = path.to_vec();
            p.push(segs[0].clone());
            if mods.iter().any(|m| m.starts_with(&p)) { p } else { return false }
        }
    };
    let rest = &segs[1..];
    if rest.is_empty() {
        return true;
    }
    resolve(&mut abs, rest, mods, unit, asts, 0)
}

fn resolve(
    abs: &mut Vec<String>,
    rest: &[String],
    mods: &BTreeSet<Vec<String>>,
    unit: &Unit,
    asts: &BTreeMap<Vec<String>, (usize, Option<syn::File>)>,
    depth: usize,
) -> bool {
    if depth > 10 {
        return false;
    }
    if rest.is_empty() || rest[0] == "*" {
        return true;
    }
    if rest[0] == "super" {
        abs.pop();
        return resolve(abs, &rest[1..], mods, unit, asts, depth + 1);
    }
    let mut sub = abs.clone();
    sub.push(rest[0].clone());
    if mods.iter().any(|m| m.starts_with(&sub)) {
        return resolve(&mut sub, &rest[1..], mods, unit, asts, depth + 1);
    }
    // an item of module abs
    let (k, ast) = match asts.get(abs.as_slice()) {
        Some((k, Some(a))) => (k, a),
        _ => return false,
    };
    let fc = &unit.files[*k];
    for item in &ast.items {
        match item {
            syn::Item::Struct(s) if s.ident == rest[0] => {
                return fc.types.iter().any(|t| t == "*" || *t == rest[0])
            }
            syn::Item::Enum(s) if s.ident == rest[0] => return fc.types.iter().any(|t| t == "*" || *t == rest[0]),
            syn::Item::Type(s) if s.ident == rest[0] => return fc.types.iter().any(|t| t == "*" || *t == rest[0]),
            syn::Item::Fn(f) if f.sig.ident == rest[0] => return fc.fns.iter().any(|x| x.name == rest[0]),
            syn::Item::Use(u) => {
                let mut flat = Vec::new();
                flatten_use(&u.tree, &mut Vec::new(), &mut flat);
                for (segs, rn) in flat {
                    let nm = rn.unwrap_or_else(|| segs.last().cloned().unwrap_or_default());
                    if nm == rest[0] {
                        let declared: BTreeSet<String> = ast
                            .items
                            .iter()
                            .filter_map(|i| if let syn::Item::Mod(m) = i { Some(m.ident.to_string()) } else { None })
                            .collect();
                        let children: BTreeSet<String> = mods
                            .iter()
                            .filter(|m| m.len() > abs.len() && m.starts_with(abs))
                            .map(|m| m[abs.len()].clone())
                            .collect();
                        return use_ok(&segs, abs, mods, &children, &declared, unit, asts);
                    }
                }
            }
            _ => (),
        }
    }
    false
}

struct Shape {
    closures: Vec<usize>,
    loops: Vec<String>,
}
impl<'a> Visit<'a> for Shape {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closures.push(c.inputs.len());
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_for_loop(&mut self, c: &'a syn::ExprForLoop) {
        self.loops.push("for".into());
        syn::visit::visit_expr_for_loop(self, c);
    }
    fn visit_expr_while(&mut self, c: &'a syn::ExprWhile) {
        self.loops.push("while".into());
        syn::visit::visit_expr_while(self, c);
    }
    fn visit_expr_loop(&mut self, c: &'a syn::ExprLoop) {
        self.loops.push("loop".into());
        syn::visit::visit_expr_loop(self, c);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n != "format" && n != "vec" && n != "assert" {
            return;
        }
        if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            for a in &args {
                let mut sub = Shape { closures: vec![], loops: vec![] };
                sub.visit_expr(a);
                self.closures.extend(sub.closures);
                self.loops.extend(sub.loops);
            }
        }
    }
}
fn shape(b: &syn::Block, sig: &syn::Signature) -> serde_json::Value {
    let mut s = Shape { closures: vec![], loops: vec![] };
    s.visit_block(b);
    serde_json::json!({"params": sig.inputs.len(), "closures": s.closures, "loops": s.loops})
}

fn rename_fn(n: &str) -> String {
    match n {
        "to_string" => "vx_to_string".into(),
        "into" => "vx_into".into(),
        x => x.into(),
    }
}

fn gen_fn(
    f: &FnC,
    found: &Found,
    path: &[String],
    unit: &Unit,
    verify: bool,
    dynfns: &HashMap<String, Vec<Option<String>>>,
    consts: &HashMap<String, syn::Expr>,
    old: Option<&serde_json::Value>,
) -> Result<(String, BTreeSet<String>), String> {
    let _ = path;
    let mut sig = found.sig.clone();
    let mut block = found.block.clone();
    let mut x = Xf::new(f, &block, unit, dynfns, consts, old);
    let callees = callees(&block);
    // signature
    let mut prefix: Vec<syn::Stmt> = Vec::new();
    for (n, a) in sig.inputs.iter_mut().enumerate() {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Ident(id) = &mut *t.pat {
                if id.mutability.is_some() {
                    let i = id.ident.clone();
                    prefix.push(syn::parse_quote!(let mut #i = #i;));
                    id.mutability = None;
                }
            } else {
                let id = quote::format_ident!("vx_p{}", n);
                let pat = t.pat.clone();
                prefix.push(syn::parse_quote!(let #pat = #id;));
                *t.pat = syn::parse_quote!(#id);
            }
            let nm = t.pat.to_token_stream().to_string();
            if let Some(d) = dyn_of(&t.ty, &unit.dyns) {
                x.dynparams.insert(nm.clone(), d);
            }
            if let Some(ty) = f.params.get(&nm) {
                *t.ty = syn::Type::Verbatim(ts(ty)?);
            }
        }
    }
    syn::visit_mut::VisitMut::visit_signature_mut(&mut x, &mut sig);
    if verify {
        let mut stmts = prefix;
        stmts.append(&mut block.stmts);
        block.stmts = stmts;
        syn::visit_mut::VisitMut::visit_block_mut(&mut x, &mut block);
        x.finish()?;
        let rt = match &sig.output {
            syn::ReturnType::Type(_, t) if !matches!(&**t, syn::Type::ImplTrait(_)) => Some(t.to_token_stream()),
            _ => None,
        };
        x.apply_start_tail(&mut block, rt)?;
    }
    let name = quote::format_ident!("{}", rename_fn(&sig.ident.to_string()));
    let gen = match &f.generics {
        Some(g) => ts(g)?,
        None => sig.generics.params.to_token_stream(),
    };
    let gen = if gen.is_empty() { quote!() } else { quote!(< #gen >) };
    let wc = &sig.generics.where_clause;
    let inputs = &sig.inputs;
    let ret = match (&f.rettype, &sig.output) {
        (Some(t), _) => Some(ts(t)?),
        (None, syn::ReturnType::Type(_, t)) => Some(t.to_token_stream()),
        _ => None,
    };
    let rid = quote::format_ident!("{}", f.ret);
    let retts = match &ret {
        Some(t) => quote!(-> (#rid : #t)),
        None => quote!(),
    };
    let mut text = String::new();
    let has_loops = !x.loops.is_empty() || !x.lifted.is_empty();
    if verify {
        for l in &x.lifted {
            text.push_str("#[verifier::loop_isolation(false)]\n");
            text.push_str(&print::print(l.clone()));
            text.push('\n');
        }
    }
    if verify {
        if has_loops {
            text.push_str("#[verifier::loop_isolation(false)]\n");
        }
    } else {
        text.push_str("#[verifier::external_body]\n");
    }
    for a in &f.attrs {
        text.push_str(a);
        text.push('\n');
    }
    text.push_str(&print::print(quote!(pub fn #name #gen (#inputs) #retts #wc)));
    text.push('\n');
    if !f.requires.trim().is_empty() {
        text.push_str(&format!("requires\n{}\n", clause(&f.requires)?));
    }
    if !f.ensures.trim().is_empty() {
        text.push_str(&format!("ensures\n{}\n", clause(&f.ensures)?));
    }
    if !f.decreases.trim().is_empty() {
        text.push_str(&format!("decreases {}\n", print::print(ts(&f.decreases)?)));
    }
    if verify {
        text.push_str(&print::print(block.to_token_stream()));
    } else {
        let is_impl = matches!(&sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::ImplTrait(_)));
        if is_impl {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                if let syn::Type::ImplTrait(it) = &**t {
                    let b = it.bounds.iter().find_map(|b| match b {
                        syn::TypeParamBound::Trait(t) => Some(t),
                        _ => None,
                    });
                    if let Some(b) = b {
                        let seg = b.path.segments.last().unwrap();
                        if let syn::PathArguments::Parenthesized(p) = &seg.arguments {
                            let tys = &p.inputs;
                            let names: Vec<_> = (0..tys.len()).map(|i| quote::format_ident!("_a{}", i)).collect();
                            let tys: Vec<_> = tys.iter().collect();
                            text.push_str(&print::print(quote!({ move |#(#names : #tys),*| unimplemented!() })));
                        } else {
                            return Err("impl trait return".into());
                        }
                    }
                }
            }
        } else {
            text.push_str("{ unimplemented!() }");
        }
    }
    text.push('\n');
    if let Some(st) = &found.self_ty {
        let g = &found.generics;
        let (ig, _, wc) = g.split_for_impl();
        let foreign = matches!(self_name(st).as_str(), "i32" | "i64");
        let _ = &found.trait_name;
        if !foreign {
            let mut st = st.clone();
            syn::visit_mut::VisitMut::visit_type_mut(&mut Xf::types_only(&unit.dyns), &mut st);
            let head = print::print(quote!(impl #ig #st #wc));
            text = format!("{} {{\n{}}}\n", head, text);
        } else {
            text = text.replace("Self", &self_name(st));
        }
    }
    Ok((text, callees))
}

fn clause(t: &str) -> Result<String, String> {
    // one clause per line where the text breaks lines; floats rewritten
    let mut out = String::new();
    let toks = ts(t)?;
    let mut cur = TokenStream::new();
    for tok in toks {
        let is = matches!(&tok, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',');
        cur.extend(std::iter::once(tok));
        if is {
            out.push_str("  ");
            out.push_str(print::print(cur.clone()).trim());
            out.push('\n');
            cur = TokenStream::new();
        }
    }
    if !cur.is_empty() {
        out.push_str("  ");
        out.push_str(print::print(cur).trim());
        out.push_str(",\n");
    }
    Ok(out)
}
