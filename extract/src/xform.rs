//! The body transformation: replaces what Verus has no specification for by calls to the prelude, and splices contracts in.
use crate::contract::*;
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{Expr, Pat, Stmt};

type Pos = (usize, usize);
fn pos(s: proc_macro2::Span) -> Pos {
    (s.start().line, s.start().column)
}

pub fn float_bits(text: &str) -> Option<u32> {
    let t = text.trim_end_matches("f32").trim_end_matches('_');
    if !t.contains('.') && !text.ends_with("f32") {
        return None;
    }
    t.replace('_', "").parse::<f32>().ok().map(|f| f.to_bits())
}

/// float literals of specification text
pub fn spec_floats(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), spec_floats(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n).into()
            }
            TokenTree::Literal(l) => match float_bits(&l.to_string()) {
                Some(b) => quote!(crate::pre::f_lit(#b)),
                None => TokenTree::Literal(l).into(),
            },
            t => TokenStream::from(t),
        })
        .collect()
}

/// float literals of raw contract text, outside string literals and comments
pub fn raw_floats(t: &str) -> String {
    let mut out = String::new();
    for line in t.lines() {
        let c: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut instr = false;
        while i < c.len() {
            if c[i] == '"' && (i == 0 || c[i - 1] != '\\') {
                instr = !instr;
            }
            if !instr && c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
                out.extend(&c[i..]);
                break;
            }
            if !instr && c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_' || c[i - 1] == '.')) {
                let mut j = i;
                while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_' || (c[j] == '.' && j + 1 < c.len() && c[j + 1].is_ascii_digit())) {
                    j += 1;
                }
                let lit: String = c[i..j].iter().collect();
                match float_bits(&lit) {
                    Some(b) => out.push_str(&format!("crate::pre::f_lit({}u32)", b)),
                    None => out.push_str(&lit),
                }
                i = j;
                continue;
            }
            out.push(c[i]);
            i += 1;
        }
        out.push('\n');
    }
    out
}

pub fn ts(text: &str) -> Result<TokenStream, String> {
    text.parse::<TokenStream>().map_err(|e| format!("contract text: {}: {}", e, text)).map(spec_floats)
}

pub fn dyn_of(ty: &syn::Type, dyns: &[(String, String)]) -> Option<String> {
    struct V<'a>(&'a [(String, String)], Option<String>);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_type_trait_object(&mut self, t: &'b syn::TypeTraitObject) {
            let s = t.bounds.to_token_stream().to_string();
            for (k, v) in self.0 {
                if norm(k) == norm(&s) {
                    self.1 = Some(v.clone());
                }
            }
        }
    }
    let mut v = V(dyns, None);
    v.visit_type(ty);
    v.1
}
fn norm(s: &str) -> String {
    s.split_whitespace().collect::<String>()
}

#[derive(Default)]
pub struct Numbering {
    closures: Vec<(Pos, String)>,
    loops: Vec<Pos>,
    methods: Vec<(Pos, String, String)>,
}
fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in norm(s).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:08x}", (h ^ (h >> 32)) as u32)
}
/// which recorded ordinal each present position gets: equal text first, the rest in order
fn assign(now: &[String], old: &[String]) -> Vec<usize> {
    if now.len() != old.len() {
        return (0..now.len()).collect();
    }
    let mut taken = vec![false; old.len()];
    let mut out = vec![usize::MAX; now.len()];
    // a text at its recorded place stays there
    for i in 0..now.len() {
        if now[i] == old[i] {
            out[i] = i;
            taken[i] = true;
        }
    }
    for i in 0..now.len() {
        if out[i] == usize::MAX {
            if let Some(k) = (0..old.len()).find(|k| !taken[*k] && old[*k] == now[i]) {
                out[i] = k;
                taken[k] = true;
            }
        }
    }
    for i in 0..now.len() {
        if out[i] == usize::MAX {
            let k = (0..old.len()).find(|k| !taken[*k]).unwrap();
            out[i] = k;
            taken[k] = true;
        }
    }
    out
}
/// fingerprints of the closures and of the calls a contract refers to, in order of position
pub fn texts(fc: &FnC, b: &syn::Block) -> serde_json::Value {
    let mut n = Numbering::default();
    n.visit_block(b);
    n.closures.sort();
    n.methods.sort();
    let mut m: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    let named: Vec<&String> = fc.ghosts.iter().map(|g| &g.0).chain(fc.args.iter().map(|g| &g.0)).chain(fc.renames.iter().map(|g| &g.0)).collect();
    for (_, name, t) in &n.methods {
        if named.contains(&name) {
            m.entry(name.clone()).or_default().push(fnv(t));
        }
    }
    serde_json::json!({"closures": n.closures.iter().map(|c| fnv(&c.1)).collect::<Vec<_>>(), "calls": m})
}
impl<'a> Visit<'a> for Numbering {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closures.push((pos(c.or1_token.span()), c.to_token_stream().to_string()));
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_for_loop(&mut self, c: &'a syn::ExprForLoop) {
        self.loops.push(pos(c.for_token.span()));
        syn::visit::visit_expr_for_loop(self, c);
    }
    fn visit_expr_while(&mut self, c: &'a syn::ExprWhile) {
        self.loops.push(pos(c.while_token.span()));
        syn::visit::visit_expr_while(self, c);
    }
    fn visit_expr_loop(&mut self, c: &'a syn::ExprLoop) {
        self.loops.push(pos(c.loop_token.span()));
        syn::visit::visit_expr_loop(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.methods.push((pos(m.method.span()), m.method.to_string(), m.args.to_token_stream().to_string()));
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n != "format" && n != "vec" && n != "assert" {
            return;
        }
        if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
            for a in &args {
                // positions survive because the tokens keep their spans
                let mut sub = Numbering::default();
                sub.visit_expr(a);
                self.closures.extend(sub.closures);
                self.loops.extend(sub.loops);
                self.methods.extend(sub.methods);
            }
        }
    }
}

pub fn callees(b: &syn::Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            let n = p.path.segments.len();
            if let Some(s) = p.path.segments.last() {
                let q = if n > 1 { p.path.segments[n - 2].ident.to_string() } else { String::new() };
                if q.is_empty() || matches!(q.as_str(), "self" | "super" | "crate" | "Self") {
                    self.0.insert(s.ident.to_string());
                } else {
                    self.0.insert(format!("{}::{}", q, s.ident));
                }
            }
            syn::visit::visit_expr_path(self, p);
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            self.0.insert(m.method.to_string());
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for a in &args {
                    self.visit_expr(a);
                }
            }
        }
    }
    let mut v = V(BTreeSet::new());
    v.visit_block(b);
    v.0
}

pub struct Xf<'a> {
    fc: Option<&'a FnC>,
    dyns: &'a [(String, String)],
    values: &'a [(String, String)],
    pub lifted: Vec<TokenStream>,
    lets: std::collections::HashMap<String, usize>,
    /// let-bound closures that became functions: name -> (closure ordinal, arguments for the captures)
    letfns: HashMap<String, (usize, TokenStream)>,
    /// parameters that are function objects
    pub dynparams: HashMap<String, String>,
    dynfns: Option<&'a HashMap<String, Vec<Option<String>>>>,
    consts: Option<&'a HashMap<String, Expr>>,
    closures: HashMap<Pos, usize>,
    pub loops: HashMap<Pos, usize>,
    methods: HashMap<Pos, (String, usize)>,
    used: BTreeSet<String>,
    errs: Vec<String>,
    fresh: usize,
}

fn rename_method(n: &str) -> Option<&'static str> {
    Some(match n {
        "iter" => "vx_iter",
        "par_iter" => "vx_iter",
        "into_iter" => "vx_into_iter",
        "chars" => "vx_chars",
        "lines" => "vx_lines",
        "split" => "vx_split",
        "split_whitespace" => "vx_split_whitespace",
        "parse" => "vx_parse",
        "to_lowercase" => "vx_to_lowercase",
        "to_string" => "vx_to_string",
        "into" => "vx_into",
        "clone" => "vx_clone",
        "to_vec" => "vx_to_vec",
        "cloned" => "vx_cloned",
        "copied" => "vx_cloned",
        "unwrap_or_default" => "vx_unwrap_or_default",
        "unwrap_or" => "vx_unwrap_or",
        "sort_by" => "vx_sort_by",
        "append" => "vx_append",
        "reverse" => "vx_reverse",
        "resize" => "vx_resize",
        "insert_at" => "vx_insert_at",
        "last_mut" => "vx_last_mut",
        "as_str" => "vx_as_str",
        "copy_from_slice" => "vx_copy_from_slice",
        "pow" => "vx_pow",
        "flatten" => "vx_flatten",
        "max" => "vx_max",
        "min" => "vx_min",
        "or_else" => "vx_or_else",
        "contains" => "vx_contains",
        "extend" => "vx_extend",
        "swap" => "vx_swap",
        "trim" => "vx_trim",
        "trim_start" => "vx_trim_start",
        "trim_end" => "vx_trim_end",
        "trim_matches" => "vx_trim_matches",
        "trim_start_matches" => "vx_trim_start_matches",
        "trim_end_matches" => "vx_trim_end_matches",
        "starts_with" => "vx_starts_with",
        "ends_with" => "vx_ends_with",
        "strip_prefix" => "vx_strip_prefix",
        "strip_suffix" => "vx_strip_suffix",
        "split_once" => "vx_split_once",
        "eq_ignore_ascii_case" => "vx_eq_ignore_ascii_case",
        "to_ascii_lowercase" => "vx_to_ascii_lowercase",
        "to_ascii_uppercase" => "vx_to_ascii_uppercase",
        "to_uppercase" => "vx_to_uppercase",
        "replace" => "vx_replace",
        "dedup" => "vx_dedup",
        _ => return None,
    })
}

impl<'a> Xf<'a> {
    pub fn types_only(dyns: &'a [(String, String)]) -> Xf<'a> {
        Xf {
            fc: None,
            dyns,
            values: &[],
            lifted: vec![],
            lets: Default::default(),
            letfns: HashMap::new(),
            dynparams: HashMap::new(),
            dynfns: None,
            consts: None,
            closures: HashMap::new(),
            loops: HashMap::new(),
            methods: HashMap::new(),
            used: BTreeSet::new(),
            errs: vec![],
            fresh: 0,
        }
    }
    pub fn new(
        fc: &'a FnC,
        b: &syn::Block,
        unit: &'a Unit,
        dynfns: &'a HashMap<String, Vec<Option<String>>>,
        consts: &'a HashMap<String, Expr>,
        old: Option<&serde_json::Value>,
    ) -> Xf<'a> {
        let strs = |v: &serde_json::Value| -> Vec<String> { v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()) };
        let mut n = Numbering::default();
        CURRENT.with(|c| *c.borrow_mut() = fc.name.clone());
        n.visit_block(b);
        // format arguments are not visited by syn, so closures inside macros are not supported
        n.closures.sort();
        n.loops.sort();
        n.methods.sort();
        let mut x = Xf::types_only(&unit.dyns);
        x.fc = Some(fc);
        x.values = &unit.values;
        x.dynfns = Some(dynfns);
        x.consts = Some(consts);
        let now: Vec<String> = n.closures.iter().map(|c| fnv(&c.1)).collect();
        let order = assign(&now, &old.map_or(vec![], |o| strs(&o["closures"])));
        for (i, (p, _)) in n.closures.iter().enumerate() {
            x.closures.insert(*p, order[i]);
        }
        for (i, p) in n.loops.iter().enumerate() {
            x.loops.insert(*p, i);
        }
        let mut calls: HashMap<String, Vec<(Pos, String)>> = HashMap::new();
        for (p, m, t) in n.methods {
            calls.entry(m).or_default().push((p, fnv(&t)));
        }
        for (m, v) in calls {
            let now: Vec<String> = v.iter().map(|c| c.1.clone()).collect();
            let order = assign(&now, &old.map_or(vec![], |o| strs(&o["calls"][&m])));
            for (i, (p, _)) in v.iter().enumerate() {
                x.methods.insert(*p, (m.clone(), order[i]));
            }
        }
        x
    }
    pub fn finish(&mut self) -> Result<(), String> {
        let fc = self.fc.unwrap();
        for k in fc.closures.keys() {
            if !self.used.contains(&format!("closure {}", k)) {
                self.errs.push(format!("lost anchor: closure {}", k));
            }
        }
        for k in fc.loops.keys() {
            if !self.used.contains(&format!("loop {}", k)) {
                self.errs.push(format!("lost anchor: loop {}", k));
            }
        }
        for (m, k, _) in fc.ghosts.iter() {
            if !self.used.contains(&format!("ghost {} {}", m, k)) {
                self.errs.push(format!("lost anchor: call {} of {}", k, m));
            }
        }
        for (m, k, _) in fc.args.iter() {
            if !self.used.contains(&format!("arg {} {}", m, k)) {
                self.errs.push(format!("lost anchor: call {} of {}", k, m));
            }
        }
        for (m, k, _) in fc.renames.iter() {
            if !self.used.contains(&format!("rename {} {}", m, k)) {
                self.errs.push(format!("lost anchor: call {} of {}", k, m));
            }
        }
        for (a, _) in fc.proofs.iter() {
            if a.starts_with("let") && !self.used.contains(&format!("proof {}", a)) {
                self.errs.push(format!("lost anchor: {}", a));
            }
        }
        if self.errs.is_empty() {
            Ok(())
        } else {
            Err(self.errs.join("; "))
        }
    }
    fn proof(&mut self, anchor: &str) -> TokenStream {
        let mut out = TokenStream::new();
        if let Some(fc) = self.fc {
            for (a, t) in &fc.proofs {
                if a == anchor {
                    match ts(t) {
                        Ok(t) => out.extend(quote!(proof { #t })),
                        Err(e) => self.errs.push(e),
                    }
                    self.used.insert(format!("proof {}", a));
                }
            }
            // bin/vacuity: an assertion that must fail at the end of every function and loop body
            if vacuity() && (anchor == "tail" || anchor.ends_with(" end")) {
                out.extend(quote!(proof { assert(1int == 2int); }));
            }
        }
        out
    }
    /// raw statements (ghost declarations)
    fn ghost_stmts(&mut self, anchor: &str) -> TokenStream {
        let mut out = TokenStream::new();
        if let Some(fc) = self.fc {
            for (a, t) in &fc.proofs {
                if a == &format!("ghost {}", anchor) {
                    match ts(t) {
                        Ok(t) => out.extend(t),
                        Err(e) => self.errs.push(e),
                    }
                    self.used.insert(format!("proof {}", a));
                }
            }
        }
        out
    }
    pub fn apply_start_tail(&mut self, b: &mut syn::Block, ret: Option<TokenStream>) -> Result<(), String> {
        let g = self.ghost_stmts("start");
        let p = self.proof("start");
        if !(g.is_empty() && p.is_empty()) {
            b.stmts.insert(0, verb(quote!(#g #p)));
        }
        let p = self.proof("tail");
        let own = self.fc.map_or(false, |f| f.proofs.iter().any(|(a, _)| a == "tail"));
        if vacuity() && !own && before(self.fc.map_or("", |f| f.name.as_str())) {
            let n = b.stmts.len().saturating_sub(1);
            b.stmts.insert(n, verb(p));
        } else if !p.is_empty() {
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => {
                    b.stmts.push(verb(match &ret { Some(t) => quote!(let vx_tail: #t = #e; #p vx_tail), None => quote!(let vx_tail = #e; #p vx_tail) }));
                }
                Some(s) => {
                    b.stmts.push(s);
                    b.stmts.push(verb(p));
                }
                None => return Err("empty body".into()),
            }
        }
        if self.errs.is_empty() { Ok(()) } else { Err(self.errs.join("; ")) }
    }
    fn expr_of(&mut self, t: TokenStream) -> Expr {
        Expr::Verbatim(t)
    }
    fn fresh(&mut self, p: &str) -> syn::Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", p, self.fresh - 1)
    }

    fn do_macro(&mut self, m: &syn::Macro) -> Option<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "println" | "eprintln" | "print" | "eprint" => Some(quote!(())),
            "format" => {
                let args = m
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let mut it = args.into_iter();
                let f = match it.next()? {
                    Expr::Lit(l) => match l.lit {
                        syn::Lit::Str(s) => s.value(),
                        _ => return None,
                    },
                    _ => return None,
                };
                let mut rest: Vec<Expr> = it.collect();
                for e in rest.iter_mut() {
                    self.visit_expr_mut(e);
                }
                let mut pieces: Vec<TokenStream> = Vec::new();
                let mut cur = String::new();
                let mut n = 0;
                let cs: Vec<char> = f.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                        cur.push('{');
                        i += 2;
                    } else if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                        cur.push('}');
                        i += 2;
                    } else if cs[i] == '{' {
                        let mut j = i + 1;
                        let mut spec = String::new();
                        while j < cs.len() && cs[j] != '}' {
                            spec.push(cs[j]);
                            j += 1;
                        }
                        if !cur.is_empty() {
                            let c = std::mem::take(&mut cur);
                            pieces.push(quote!(.lit(#c)));
                        }
                        if spec.is_empty() && n < rest.len() {
                            let e = &rest[n];
                            n += 1;
                            pieces.push(quote!(.arg(&(#e))));
                        } else if spec.starts_with(':') && n < rest.len() {
                            n += 1;
                            pieces.push(quote!(.opaque()));
                        } else {
                            return None;
                        }
                        i = j + 1;
                    } else {
                        cur.push(cs[i]);
                        i += 1;
                    }
                }
                if !cur.is_empty() {
                    pieces.push(quote!(.lit(#cur)));
                }
                Some(quote!(crate::pre::Fmt::new() #(#pieces)* .done()))
            }
            "assert" => {
                let args = m
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let mut e = args.into_iter().next()?;
                self.visit_expr_mut(&mut e);
                Some(quote!(crate::pre::vx_assert(#e)))
            }
            "panic" | "unreachable" => Some(quote!(crate::pre::vx_panic())),
            "vec" => {
                if m.tokens.clone().into_iter().any(|t| matches!(&t, TokenTree::Punct(p) if p.as_char()==';')) {
                    struct Rep(Expr, Expr);
                    impl syn::parse::Parse for Rep {
                        fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                            let a = i.parse()?;
                            i.parse::<syn::Token![;]>()?;
                            Ok(Rep(a, i.parse()?))
                        }
                    }
                    let mut r: Rep = m.parse_body().ok()?;
                    self.visit_expr_mut(&mut r.0);
                    self.visit_expr_mut(&mut r.1);
                    let (a, b) = (r.0, r.1);
                    return Some(quote!(crate::pre::vx_repeat(#a, #b)));
                }
                let mut args = m
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                for e in args.iter_mut() {
                    self.visit_expr_mut(e);
                }
                Some(quote!(vec![#args]))
            }
            _ => None,
        }
    }

    /// string and array literals in patterns become guards
    fn fix_pat(&mut self, p: &mut Pat, guards: &mut Vec<TokenStream>) {
        match p {
            Pat::Lit(l) => {
                if let syn::Lit::Str(s) = &l.lit {
                    let id = self.fresh("s");
                    let s = s.clone();
                    *p = syn::parse_quote!(#id);
                    guards.push(quote!(crate::pre::vx_eq(#id, #s)));
                }
            }
            Pat::Slice(s) => {
                if s.elems.iter().all(|e| matches!(e, Pat::Lit(_))) {
                    let id = self.fresh("s");
                    let e = s.elems.clone();
                    *p = syn::parse_quote!(#id);
                    guards.push(quote!(crate::pre::vx_eq(&#id, &[#e])));
                }
            }
            Pat::TupleStruct(t) => {
                for e in t.elems.iter_mut() {
                    self.fix_pat(e, guards);
                }
            }
            Pat::Tuple(t) => {
                for e in t.elems.iter_mut() {
                    self.fix_pat(e, guards);
                }
            }
            Pat::Reference(r) => self.fix_pat(&mut r.pat, guards),
            Pat::Paren(r) => self.fix_pat(&mut r.pat, guards),
            Pat::Or(r) => {
                for e in r.cases.iter_mut() {
                    let n = guards.len();
                    self.fix_pat(e, guards);
                    if guards.len() != n {
                        self.errs.push("string literal in an or-pattern".into());
                    }
                }
            }
            _ => (),
        }
    }

    /// recv.map(closure) with a closure that mutates its captures: a function plus a loop over the items, in order
    /// the closure as a function of its own; returns the arguments for its captures
    fn lift_fn(&mut self, c: &syn::ExprClosure, cc: &ClosureC, k: usize) -> Result<TokenStream, String> {
        let mut c = c.clone();
        let by_ref: Vec<String> = cc.caps.iter().filter(|(n, _)| cc.capargs.get(n).map_or(false, |a| a.starts_with("&mut"))).map(|(n, _)| n.clone()).collect();
        if !by_ref.is_empty() {
            let mut d = DerefCaps { names: &by_ref, bad: false };
            d.visit_expr_mut(&mut c.body);
            if d.bad {
                return Err(format!("lost anchor: closure {} holds a mutable capture in a closure", k));
            }
        }
        for i in c.inputs.iter_mut() {
            self.visit_pat_mut(i);
        }
        self.visit_expr_mut(&mut c.body);
        let names = param_names(&c, k);
        let mut ps: Vec<TokenStream> = Vec::new();
        let mut args = TokenStream::new();
        for (n, t) in &cc.caps {
            let id = format_ident!("{}", n);
            let t = ts(t)?;
            ps.push(quote!(#id: #t));
            match cc.capargs.get(n) {
                Some(a) => {
                    let a = ts(a)?;
                    args.extend(quote!(#a,))
                }
                None => args.extend(quote!(#id,)),
            }
        }
        let mut pre = TokenStream::new();
        for (n, (id, pat)) in names.iter().enumerate() {
            let t = ts(cc.params.get(n).ok_or("lifted closure needs @c_params")?)?;
            ps.push(quote!(#id: #t));
            if let Some(p) = pat {
                pre.extend(quote!(let #p = #id;));
            }
        }
        let (on, ot) = cc.out.as_ref().ok_or("lifted closure needs @c_out")?;
        let (on, ot) = (format_ident!("{}", on), ts(ot)?);
        let req = if cc.requires.trim().is_empty() { quote!() } else { let r = subst(&cc.requires, &names)?; quote!(requires #r) };
        let ens = if cc.ensures.trim().is_empty() { quote!() } else { let r = subst(&cc.ensures, &names)?; quote!(ensures #r) };
        let proof = if cc.proof.trim().is_empty() { quote!() } else { closure_proof(&cc.proof, &names)? };
        let f = ts(cc.lift.as_ref().unwrap())?;
        let body = &c.body;
        self.lifted.push(quote!(pub fn #f(#(#ps),*) -> (#on: #ot) #req #ens { #pre #proof #body }));
        Ok(args)
    }
    /// the adaptor (map or flat_map) over a lifted closure, as a loop
    fn lift_loop(&mut self, cc: &ClosureC, k: usize, recv: &Expr, args: &TokenStream, flat: bool) -> Result<TokenStream, String> {
        let f = ts(cc.lift.as_ref().unwrap().split('<').next().unwrap())?;
        let ot = ts(&cc.out.as_ref().ok_or("lifted closure needs @c_out")?.1)?;
        let (vs, vo, vj) = (format_ident!("vx_src{}", k), format_ident!("vx_out{}", k), format_ident!("vx_j{}", k));
        let (vg, vn) = (format_ident!("vx_all{}", k), format_ident!("vx_m{}", k));
        let inv = ts(&cc.inv)?;
        let gpre = self.ghost_stmts(&format!("lift {} pre", k));
        let begin = self.proof(&format!("lift {} begin", k));
        let end = self.proof(&format!("lift {} end", k));
        let post = self.proof(&format!("lift {} post", k));
        let fin = if flat { quote!(crate::pre::vx_for(#vo).vx_flatten()) } else { quote!(#vo.vx_into_iter()) };
        Ok(quote!({
            let mut #vs = crate::pre::vx_cur(#recv);
            let ghost #vg = #vs@;
            let #vn = #vs.len();
            #gpre
            let mut #vo: Vec<#ot> = Vec::new();
            let mut #vj: usize = 0;
            while #vj < #vn
                invariant #vs@ == #vg, #vs.wf(#vj as int), #vn == #vs@.len(), #vj <= #vs@.len(), #vo@.len() == #vj, #inv
                decreases #vs@.len() - #vj
            {
                #begin
                let vx_x = #vs.at(#vj);
                #vj = #vj + 1;
                let vx_y = #f(#args vx_x);
                #vo.push(vx_y);
                #end
            }
            #post
            #fin
        }))
    }

    fn wrap_dyn(&mut self, a: &mut Expr, d: &str) {
        let t = ts(d).unwrap();
        match a {
            Expr::Reference(r) => {
                let e = &r.expr;
                if matches!(**e, Expr::Path(_)) && e.to_token_stream().to_string().find("::").is_none() {
                    return; // a local that already is one
                }
                let n = quote!(&#t::of(#e));
                *a = Expr::Verbatim(n);
            }
            Expr::Call(c) if c.func.to_token_stream().to_string() == "Some" => {
                let mut inner = c.args[0].clone();
                self.wrap_dyn(&mut inner, d);
                *a = Expr::Verbatim(quote!(Some(#inner)));
            }
            _ => (),
        }
    }
}

/// names held by mutable reference: x becomes (*x); a move closure inside takes the value x has there
struct DerefCaps<'a> {
    names: &'a [String],
    bad: bool,
}
impl<'a> VisitMut for DerefCaps<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if self.names.contains(&i.to_string()) {
                        let i = i.clone();
                        *e = syn::parse_quote!((*#i));
                    }
                }
            }
            Expr::Closure(c) => {
                struct Uses<'b>(&'b [String], Vec<syn::Ident>);
                impl<'b, 'c> Visit<'c> for Uses<'b> {
                    fn visit_expr_path(&mut self, p: &'c syn::ExprPath) {
                        if let Some(i) = p.path.get_ident() {
                            if self.0.contains(&i.to_string()) && !self.1.contains(i) {
                                self.1.push(i.clone());
                            }
                        }
                    }
                }
                let mut u = Uses(self.names, vec![]);
                u.visit_expr(&c.body);
                if !u.1.is_empty() {
                    if c.capture.is_none() {
                        self.bad = true;
                        return;
                    }
                    let lets = u.1.iter().map(|i| quote!(let #i = *#i;));
                    let c = &*c;
                    *e = syn::parse_quote!({ #(#lets)* #c });
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn verb(t: TokenStream) -> Stmt {
    Stmt::Expr(Expr::Verbatim(t), None)
}

fn compound(o: &syn::BinOp) -> Option<TokenStream> {
    Some(match o {
        syn::BinOp::AddAssign(_) => quote!(+),
        syn::BinOp::SubAssign(_) => quote!(-),
        syn::BinOp::MulAssign(_) => quote!(*),
        syn::BinOp::DivAssign(_) => quote!(/),
        _ => return None,
    })
}
/// evaluating it twice has no effect
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}

fn is_simple_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Char(_) | syn::Lit::Bool(_) | syn::Lit::Byte(_)),
        Expr::Unary(u) => is_simple_lit(&u.expr),
        Expr::Paren(p) => is_simple_lit(&p.expr),
        _ => false,
    }
}

/// The value a print statement shows: one placeholder and nothing else. None: a fixed text.
fn shown(m: &syn::Macro) -> Result<Option<Expr>, String> {
    let args: Vec<Expr> =
        m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).map_err(|e| e.to_string())?.into_iter().collect();
    let text = match args.first() {
        None => return Ok(None),
        Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
        _ => return Err("print of an unusual form".into()),
    };
    if !text.contains('{') {
        return Ok(None);
    }
    let inner = text.trim_end_matches('\n').strip_prefix('{').and_then(|t| t.strip_suffix('}')).unwrap_or("{");
    let (name, style) = inner.split_once(':').unwrap_or((inner, ""));
    if style == "#?" && name.is_empty() && args.len() == 2 {
        Ok(Some(args[1].clone()))
    } else if style == "#?" && args.len() == 1 && syn::parse_str::<syn::Ident>(name).is_ok() {
        Ok(Some(syn::parse_str::<Expr>(name).unwrap()))
    } else {
        Err("print of an unusual form".into())
    }
}

impl<'a> VisitMut for Xf<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if first == "std" || first == "core" || first == "nom" || first == "glam" {
            let n = p.segments.len();
            let last = p.segments.last().unwrap().clone();
            let mut q: syn::Path = syn::parse_quote!(crate::pre);
            // keep Type::assoc
            if n >= 2 {
                let prev = &p.segments[n - 2];
                let pi = prev.ident.to_string();
                if pi.chars().next().unwrap().is_uppercase() {
                    q.segments.push(prev.clone());
                }
            }
            q.segments.push(last);
            *p = q;
        }
        if p.segments.len() == 2 && matches!(first.as_str(), "u16" | "u32") {
            let n = p.segments[1].ident.to_string();
            if n == "from_le_bytes" || n == "from_be_bytes" {
                let f = format_ident!("vx_{}_{}", first, n);
                *p = syn::parse_quote!(crate::pre::#f);
            }
        }
        for s in p.segments.iter_mut() {
            if s.ident == "f32" {
                s.ident = format_ident!("F32");
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::TraitObject(o) = t {
            let mut d = self.dyns.iter().find(|(k, _)| norm(k) == norm(&o.bounds.to_token_stream().to_string()));
            let s = norm(&o.bounds.to_token_stream().to_string());
            if d.is_none() {
                d = self.dyns.iter().find(|(k, _)| s.ends_with(&norm(k)));
            }
            if let Some((_, v)) = d {
                *t = syn::Type::Verbatim(v.parse().unwrap());
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let count = stmts.len();
        for (nth, mut s) in stmts.into_iter().enumerate() {
            // dropped: diagnostics
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if matches!(n.as_str(), "println" | "eprintln" | "print" | "eprint") {
                    if self.fc.map_or(false, |f| f.shows) && matches!(n.as_str(), "println" | "print") {
                        match shown(&m.mac) {
                            Ok(Some(mut e)) => {
                                self.visit_expr_mut(&mut e);
                                b.stmts.push(Stmt::Expr(Expr::Verbatim(quote!(crate::pre::vx_show(&(#e)))), Some(Default::default())));
                            }
                            Ok(None) => (),
                            Err(x) => self.errs.push(x),
                        }
                    }
                    continue;
                }
                match self.do_macro(&m.mac.clone()) {
                    Some(t) => {
                        // a diverging last statement has every type
                        let semi = if nth + 1 == count && matches!(n.as_str(), "panic" | "unreachable") { None } else { m.semi_token };
                        b.stmts.push(Stmt::Expr(Expr::Verbatim(t), semi));
                    }
                    None => {
                        self.errs.push(format!("macro {}", n));
                    }
                }
                continue;
            }
            // let (x, y);
            if let Stmt::Local(l) = &s {
                if l.init.is_none() {
                    if let Pat::Tuple(t) = &l.pat {
                        for e in &t.elems {
                            b.stmts.push(syn::parse_quote!(let #e;));
                        }
                        continue;
                    }
                }
            }
            // a let-bound closure that becomes a function
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        let k = self.closures.get(&pos(c.or1_token.span())).copied();
                        let cc = match (self.fc, k) {
                            (Some(fc), Some(k)) => fc.closures.get(&k).cloned(),
                            _ => None,
                        };
                        if let Some(cc) = cc.filter(|c| c.lift.is_some()) {
                            let k = k.unwrap();
                            self.used.insert(format!("closure {}", k));
                            match self.lift_fn(&c.clone(), &cc, k) {
                                Ok(a) => {
                                    self.letfns.insert(i.ident.to_string(), (k, a));
                                }
                                Err(x) => self.errs.push(x),
                            }
                            continue;
                        }
                    }
                }
            }
            let mut after: Option<(TokenStream, TokenStream)> = None;
            if let Stmt::Local(l) = &s {
                let mut p = &l.pat;
                if let Pat::Type(t) = p {
                    p = &t.pat;
                }
                let mut names: Vec<String> = vec![];
                match p {
                    Pat::Ident(i) => names.push(i.ident.to_string()),
                    Pat::Tuple(t) => {
                        for e in &t.elems {
                            if let Pat::Ident(i) = e {
                                names.push(i.ident.to_string())
                            }
                        }
                    }
                    _ => (),
                }
                for n in &names {
                    // the k-th let of this name: NAME, NAME#2, NAME#3, ...
                    let k = self.lets.entry(n.clone()).or_insert(0);
                    *k += 1;
                    let n = if *k == 1 { n.clone() } else { format!("{}#{}", n, k) };
                    let g = self.ghost_stmts(&format!("letbefore {}", n));
                    let t = self.proof(&format!("letbefore {}", n));
                    if !t.is_empty() || !g.is_empty() {
                        b.stmts.push(verb(quote!(#g #t)));
                    }
                    let g = self.ghost_stmts(&format!("let {}", n));
                    let t = self.proof(&format!("let {}", n));
                    if !t.is_empty() || !g.is_empty() {
                        after = Some((g, t));
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Expr(Expr::Verbatim(_), None) = &s {
                // loops desugared to a block need no semicolon
            }
            b.stmts.push(s);
            if let Some((g, t)) = after {
                b.stmts.push(verb(quote!(#g #t)));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            // `?` in a function whose error is a boxed dyn Error: the error is converted
            Expr::Try(t) if self.fc.map_or(false, |f| f.rettype.as_deref().map_or(false, |r| r.contains("BoxErr"))) => {
                self.visit_expr_mut(&mut t.expr);
                let x = &t.expr;
                *e = self.expr_of(quote!((match #x { Ok(vx_ok) => vx_ok, Err(vx_err) => return Err(crate::pre::vx_boxed(vx_err)) })));
            }
            Expr::Closure(c) => {
                let k = self.closures.get(&pos(c.or1_token.span())).copied();
                for i in c.inputs.iter_mut() {
                    self.visit_pat_mut(i);
                }
                self.visit_expr_mut(&mut c.body);
                let cc = match (self.fc, k) {
                    (Some(fc), Some(k)) => {
                        if fc.closures.contains_key(&k) {
                            self.used.insert(format!("closure {}", k));
                        }
                        fc.closures.get(&k)
                    }
                    _ => None,
                };
                if let Some(cc) = cc {
                    match closure_tokens(c, cc, k.unwrap()) {
                        Ok(t) => *e = self.expr_of(t),
                        Err(x) => self.errs.push(x),
                    }
                } else {
                    // plain closure: pattern parameters move into the body
                    let mut pre = TokenStream::new();
                    let mut ps: Vec<TokenStream> = Vec::new();
                    for (n, p) in c.inputs.iter().enumerate() {
                        let (pat, ty) = match p {
                            Pat::Type(t) => ((*t.pat).clone(), Some(t.ty.clone())),
                            p => (p.clone(), None),
                        };
                        if matches!(pat, Pat::Ident(_)) {
                            ps.push(p.to_token_stream());
                        } else {
                            let id = format_ident!("vx_c{}_{}", k.unwrap_or(99), n);
                            pre.extend(quote!(let #pat = #id;));
                            ps.push(match ty {
                                Some(t) => quote!(#id: #t),
                                None => quote!(#id),
                            });
                        }
                    }
                    if !pre.is_empty() {
                        let mv = &c.capture;
                        let b = &c.body;
                        *e = Expr::Verbatim(quote!(#mv |#(#ps),*| { #pre #b }));
                    }
                }
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.loops.get(&pos(f.for_token.span())).copied();
                let lc = match (self.fc, k) {
                    (Some(fc), Some(k)) => {
                        if fc.loops.contains_key(&k) {
                            self.used.insert(format!("loop {}", k));
                        }
                        fc.loops.get(&k).cloned()
                    }
                    _ => None,
                }
                .unwrap_or_default();
                let k = k.unwrap_or(99);
                if f.label.is_some() {
                    self.errs.push("labelled loop".into());
                }
                let mut head = (*f.expr).clone();
                let pat = (*f.pat).clone();
                self.visit_block_mut(&mut f.body);
                let body = &f.body.stmts;
                let inv = match ts(&lc.invariant) {
                    Ok(t) => t,
                    Err(x) => {
                        self.errs.push(x);
                        return;
                    }
                };
                let gpre = self.ghost_stmts(&format!("loop {} pre", k));
                let pre = self.proof(&format!("loop {} pre", k));
                let begin = self.proof(&format!("loop {} begin", k));
                let gbegin = self.ghost_stmts(&format!("loop {} begin", k));
                let end = self.proof(&format!("loop {} end", k));
                let post = self.proof(&format!("loop {} post", k));
                let vi = format_ident!("vx_i{}", k);
                let vit = format_ident!("vx_it{}", k);
                let (vg, vn) = (format_ident!("vx_its{}", k), format_ident!("vx_n{}", k));
                // mutable iteration
                let place: Option<Expr> = match &head {
                    Expr::MethodCall(m) if m.method == "iter_mut" => Some((*m.receiver).clone()),
                    Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
                    _ => None,
                };
                let mut h = &head;
                while let Expr::Paren(p) = h {
                    h = &p.expr;
                }
                let t = if let Some(mut pl) = place {
                    self.visit_expr_mut(&mut pl);
                    quote!({
                        #gpre #pre
                        let mut #vi: usize = 0;
                        while #vi < #pl.len()
                            invariant #vi <= #pl@.len(), #inv
                            decreases #pl@.len() - #vi
                        {
                            #gbegin #begin
                            let #pat = &mut #pl[#vi];
                            #vi = #vi + 1;
                            #(#body)*
                            #end
                        }
                        #post
                    })
                } else if let Expr::Range(r) = h {
                    let mut r = r.clone();
                    visit_mut::visit_expr_range_mut(self, &mut r);
                    // a..=b as a..b + 1; that b + 1 does not overflow is an obligation
                    if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                        if let Some(z) = &r.end {
                            r.end = Some(Box::new(Expr::Verbatim(quote!((#z + 1)))));
                        }
                        r.limits = syn::RangeLimits::HalfOpen(Default::default());
                    }
                    let (a, z) = (&r.start, &r.end);
                    quote!({
                        #gpre #pre
                        for #pat in #a .. (#z)
                            invariant #inv
                        {
                            #gbegin #begin
                            #(#body)*
                            #end
                        }
                        #post
                    })
                } else {
                    self.visit_expr_mut(&mut head);
                    quote!({
                        #gpre
                        let mut #vit = crate::pre::vx_cur(#head);
                        let ghost #vg = #vit@;
                        let #vn = #vit.len();
                        #pre
                        let mut #vi: usize = 0;
                        while #vi < #vn
                            invariant #vit@ == #vg, #vit.wf(#vi as int), #vn == #vit@.len(), #vi <= #vit@.len(), #inv
                            decreases #vit@.len() - #vi
                        {
                            #gbegin #begin
                            let #pat = #vit.at(#vi);
                            #vi = #vi + 1;
                            #(#body)*
                            #end
                        }
                        #post
                    })
                };
                *e = Expr::Verbatim(t);
                return;
            }
            Expr::While(w) => {
                let k = self.loops.get(&pos(w.while_token.span())).copied();
                let lc = match (self.fc, k) {
                    (Some(fc), Some(k)) => {
                        if fc.loops.contains_key(&k) {
                            self.used.insert(format!("loop {}", k));
                        }
                        fc.loops.get(&k).cloned()
                    }
                    _ => None,
                }
                .unwrap_or_default();
                let k = k.unwrap_or(99);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (inv, dec) = match (ts(&lc.invariant), ts(&lc.decreases)) {
                    (Ok(a), Ok(b)) => (a, b),
                    _ => {
                        self.errs.push("loop contract text".into());
                        return;
                    }
                };
                let gpre = self.ghost_stmts(&format!("loop {} pre", k));
                let pre = self.proof(&format!("loop {} pre", k));
                let begin = self.proof(&format!("loop {} begin", k));
                let end = self.proof(&format!("loop {} end", k));
                let post = self.proof(&format!("loop {} post", k));
                let cond = &w.cond;
                let body = &w.body.stmts;
                let invt = if inv.is_empty() { quote!() } else { quote!(invariant #inv) };
                let dect = if dec.is_empty() { quote!() } else { quote!(decreases #dec) };
                *e = Expr::Verbatim(quote!({
                    #gpre #pre
                    while #cond #invt #dect { #begin #(#body)* #end }
                    #post
                }));
                return;
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    let mut g = Vec::new();
                    self.fix_pat(&mut a.pat, &mut g);
                    if !g.is_empty() {
                        let old = a.guard.take().map(|(_, e)| e);
                        let t = match old {
                            Some(mut o) => {
                                self.visit_expr_mut(&mut o);
                                quote!(#(#g &&)* (#o))
                            }
                            None => quote!(#(#g)&&*),
                        };
                        a.guard = Some((Default::default(), Box::new(Expr::Verbatim(t))));
                        self.visit_pat_mut(&mut a.pat);
                        self.visit_expr_mut(&mut a.body);
                    } else {
                        self.visit_arm_mut(a);
                    }
                }
                self.visit_expr_mut(&mut m.expr);
                return;
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut g = Vec::new();
                    self.fix_pat(&mut l.pat, &mut g);
                    if !g.is_empty() {
                        let mut ex = (*l.expr).clone();
                        self.visit_expr_mut(&mut ex);
                        let pat = l.pat.clone();
                        self.visit_block_mut(&mut i.then_branch);
                        let th = i.then_branch.clone();
                        let el = match &mut i.else_branch {
                            Some((_, e)) => {
                                self.visit_expr_mut(e);
                                quote!(#e)
                            }
                            None => quote!({}),
                        };
                        *e = Expr::Verbatim(quote!(match #ex { #pat if #(#g)&&* => #th, _ => #el }));
                        return;
                    }
                }
            }
            // &x[a..b]
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = &*ix.index {
                        let mut base = (*ix.expr).clone();
                        self.visit_expr_mut(&mut base);
                        let mut rg = rg.clone();
                        visit_mut::visit_expr_range_mut(self, &mut rg);
                        let t = match (&rg.start, &rg.end) {
                            (None, None) => quote!((#base).vx_all()),
                            (None, Some(b)) => quote!((#base).vx_to(#b)),
                            (Some(a), None) => quote!((#base).vx_from(#a)),
                            (Some(a), Some(b)) => quote!((#base).vx_range(#a, #b)),
                        };
                        *e = Expr::Verbatim(t);
                        return;
                    }
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match self.do_macro(&m.mac.clone()) {
                    Some(t) => *e = Expr::Verbatim(t),
                    None => self.errs.push(format!("macro {}", n)),
                }
                return;
            }
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some(c) = self.consts.and_then(|c| c.get(&n)) {
                        if matches!(c, Expr::Lit(l) if matches!(l.lit, syn::Lit::Float(_))) {
                            let mut c = c.clone();
                            self.visit_expr_mut(&mut c);
                            *e = c;
                            return;
                        }
                    }
                }
                let s = norm(&p.path.to_token_stream().to_string());
                match s.as_str() {
                    "String::from" => {
                        *e = Expr::Verbatim(quote!(crate::pre::vx_string_from));
                        return;
                    }
                    "Vec::from" => {
                        *e = Expr::Verbatim(quote!(crate::pre::vx_vec_from));
                        return;
                    }
                    "char::from" => {
                        *e = Expr::Verbatim(quote!(crate::pre::vx_char_from));
                        return;
                    }
                    _ => (),
                }
            }
            _ => (),
        }
        if let Expr::MethodCall(m) = e {
            if let Some(Expr::Closure(c)) = m.args.last() {
                let k = self.closures.get(&pos(c.or1_token.span())).copied();
                let cc = match (self.fc, k) {
                    (Some(fc), Some(k)) => fc.closures.get(&k).cloned(),
                    _ => None,
                };
                if let Some(cc) = cc {
                    if cc.lift.is_some() {
                        let k = k.unwrap();
                        self.used.insert(format!("closure {}", k));
                        let mut recv = (*m.receiver).clone();
                        let c = c.clone();
                        let flat = m.method == "flat_map";
                        if !(flat || m.method == "map") || m.args.len() != 1 {
                            self.errs.push("lost anchor: lifted closure".into());
                        }
                        self.visit_expr_mut(&mut recv);
                        match self.lift_fn(&c, &cc, k).and_then(|a| self.lift_loop(&cc, k, &recv, &a, flat)) {
                            Ok(t) => *e = Expr::Verbatim(t),
                            Err(x) => self.errs.push(x),
                        }
                        return;
                    }
                }
            }
            // a let-bound closure that became a function, passed on
            if let (true, Some(Expr::Path(p))) = (m.method == "map" || m.method == "flat_map", m.args.first()) {
                let hit = p.path.get_ident().and_then(|i| self.letfns.get(&i.to_string())).cloned();
                if let Some((k, args)) = hit {
                    let cc = self.fc.unwrap().closures[&k].clone();
                    let mut recv = (*m.receiver).clone();
                    let flat = m.method == "flat_map";
                    self.visit_expr_mut(&mut recv);
                    match self.lift_loop(&cc, k, &recv, &args, flat) {
                        Ok(t) => *e = Expr::Verbatim(t),
                        Err(x) => self.errs.push(x),
                    }
                    return;
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(i) = p.path.get_ident().map(|i| i.to_string()) {
                    if let Some((k, args)) = self.letfns.get(&i).cloned() {
                        let cc = self.fc.unwrap().closures[&k].clone();
                        let f = ts(cc.lift.as_ref().unwrap().split('<').next().unwrap()).unwrap_or_default();
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        let a = &c.args;
                        *e = Expr::Verbatim(quote!(#f(#args #a)));
                        return;
                    }
                    if self.dynparams.contains_key(&i) {
                        for a in c.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        let (f, a) = (&c.func, &c.args);
                        *e = Expr::Verbatim(quote!(#f.call(#a)));
                        return;
                    }
                }
            }
        }
        // nom::combinator(..)(input)
        let mut nomcall = false;
        if let Expr::Call(c) = e {
            if let Expr::Call(f) = &*c.func {
                if let Expr::Path(p) = &*f.func {
                    nomcall = p.path.segments.first().map_or(false, |s| s.ident == "nom");
                }
            }
            fn subst_value(a: &mut Expr, values: &[(String, String)]) {
                match a {
                    Expr::Path(_) => {
                        let s = norm(&a.to_token_stream().to_string());
                        if let Some((_, v)) = values.iter().find(|(k, _)| *k == s) {
                            *a = Expr::Verbatim(v.parse().unwrap());
                        }
                    }
                    Expr::Tuple(t) => {
                        for e in t.elems.iter_mut() {
                            subst_value(e, values);
                        }
                    }
                    _ => (),
                }
            }
            for a in c.args.iter_mut() {
                subst_value(a, self.values);
            }
        }
        let mut dynparams: Option<Vec<Option<String>>> = None;
        let mut arg0: Option<(String, usize, String)> = None;
        let mut ghost: Option<(String, usize, String)> = None;
        let mut renamed: Option<(String, usize, String)> = None;
        let mut clos_ghost: Option<TokenStream> = None;
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    dynparams = self.dynfns.and_then(|d| d.get(&n)).cloned();
                }
            }
            Expr::MethodCall(m) => {
                if let (Some(fc), Some((nm, k))) = (self.fc, self.methods.get(&pos(m.method.span())).cloned()) {
                    arg0 = fc.args.iter().find(|(a, b, _)| *a == nm && *b == k).cloned();
                    renamed = fc.renames.iter().find(|(a, b, _)| *a == nm && *b == k).cloned();
                    ghost = fc.ghosts.iter().find(|(a, b, _)| *a == nm && *b == k).cloned();
                    // a closure argument with a specification function
                    if let Some(Expr::Closure(c)) = m.args.last() {
                        if let Some(k) = self.closures.get(&pos(c.or1_token.span())) {
                            if let Some(cc) = fc.closures.get(k) {
                                if let Some(sp) = &cc.spec {
                                    match closure_ghost(c, cc, *k, sp, &m.method.to_string()) {
                                        Ok(t) => clos_ghost = Some(t),
                                        Err(x) => self.errs.push(x),
                                    }
                                }
                            }
                        }
                    }
                }
            }
            _ => (),
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Lit(l) => {
                if let syn::Lit::Float(f) = &l.lit {
                    if let Ok(v) = f.base10_digits().parse::<f32>() {
                        let b = v.to_bits();
                        *e = Expr::Verbatim(quote!(crate::pre::F32::lit(#b)));
                    }
                }
            }
            Expr::Cast(c) => {
                let t = norm(&c.ty.to_token_stream().to_string());
                let x = &c.expr;
                if t == "F32" {
                    *e = Expr::Verbatim(quote!(crate::pre::vx_as_f32(#x)));
                } else if let Some((_, f)) = self.fc.and_then(|fc| fc.casts.iter().find(|(k, _)| *k == t)) {
                    let f = format_ident!("{}", f);
                    *e = Expr::Verbatim(quote!(crate::pre::#f(#x)));
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Add(_)) && self.fc.map_or(false, |f| f.stradd) => {
                let (l, r) = (&b.left, &b.right);
                *e = Expr::Verbatim(quote!(crate::pre::vx_concat(#l, #r)));
            }
            Expr::Binary(b) if compound(&b.op).is_some() && is_place(&b.left) => {
                // a op= b is a = a op b for the operand types here (primitive integers, f32, glam vectors)
                let (l, r, o) = (&b.left, &b.right, compound(&b.op).unwrap());
                *e = Expr::Verbatim(quote!(#l = #l #o (#r)));
            }
            Expr::Binary(b) => {
                let ne = matches!(b.op, syn::BinOp::Ne(_));
                if (ne || matches!(b.op, syn::BinOp::Eq(_))) && !is_simple_lit(&b.left) && !is_simple_lit(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    let t = quote!(crate::pre::vx_eq(&(#l), &(#r)));
                    *e = Expr::Verbatim(if ne { quote!((!#t)) } else { t });
                }
            }
            Expr::Call(c) if nomcall => {
                let (f, a) = (&c.func, &c.args);
                *e = Expr::Verbatim(quote!((#f).vx_run(#a)));
            }
            Expr::Call(c) => {
                if let Some(d) = dynparams {
                    for (a, d) in c.args.iter_mut().zip(d) {
                        if let Some(d) = d {
                            self.wrap_dyn(a, &d);
                        }
                    }
                }
            }
            Expr::Reference(r) => {
                // a closure taken as a function object
                if let Expr::Verbatim(v) = &*r.expr {
                    let s = v.to_string();
                    if s.starts_with("vx_dyn_marker !") {
                        let inner: TokenStream = v.clone().into_iter().skip(2).collect();
                        if let Some(TokenTree::Group(g)) = inner.into_iter().next() {
                            let t = g.stream();
                            *e = Expr::Verbatim(quote!(&#t));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // a range used as an iterator
                let range = match &*m.receiver { Expr::Paren(p) => matches!(&*p.expr, Expr::Range(_)), _ => false };
                if range {
                    let r = &m.receiver;
                    m.receiver = Box::new(Expr::Verbatim(quote!(crate::pre::vx_for(#r))));
                }
                if let Some(r) = rename_method(&n) {
                    m.method = format_ident!("{}", r);
                }
                // map.entry(k).or_insert(v), the returned reference unused
                let dflt = match (n.as_str(), m.args.first()) {
                    ("or_insert", Some(a)) => Some(a.clone()),
                    ("or_insert_with", Some(Expr::Closure(c))) if c.inputs.is_empty() && !matches!(&*c.body, Expr::Block(_)) => Some((*c.body).clone()),
                    _ => None,
                };
                if let (Some(d), Expr::MethodCall(en)) = (dflt, &*m.receiver) {
                    if en.method == "entry" && en.args.len() == 1 {
                        let (r, k) = (&en.receiver, &en.args[0]);
                        *e = Expr::Verbatim(quote!(#r.vx_entry_or_insert(#k, #d)));
                        return;
                    }
                }
                if let Some((a, k, t)) = renamed {
                    m.method = format_ident!("{}", t);
                    self.used.insert(format!("rename {} {}", a, k));
                }
                if let Some((a, k, t)) = arg0 {
                    let orig = m.args.first().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                    match ts(&t.replace("$a", &orig)) {
                        Ok(t) => {
                            if m.args.is_empty() {
                                m.args.push(Expr::Verbatim(t));
                            } else {
                                m.args[0] = Expr::Verbatim(t);
                            }
                        }
                        Err(x) => self.errs.push(x),
                    }
                    self.used.insert(format!("arg {} {}", a, k));
                }
                if let Some(t) = clos_ghost {
                    m.args.push(Expr::Verbatim(t));
                }
                if let Some((a, k, t)) = ghost {
                    match ts(&t) {
                        Ok(t) => m.args.push(Expr::Verbatim(t)),
                        Err(x) => self.errs.push(x),
                    }
                    self.used.insert(format!("ghost {} {}", a, k));
                }
            }
            _ => (),
        }
    }
}

fn param_names(c: &syn::ExprClosure, k: usize) -> Vec<(syn::Ident, Option<Pat>)> {
    c.inputs
        .iter()
        .enumerate()
        .map(|(n, p)| {
            let pat = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            match &pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => {
                    (i.ident.clone(), None)
                }
                _ => (format_ident!("vx_c{}_{}", k, n), Some(pat)),
            }
        })
        .collect()
}

fn subst(text: &str, names: &[(syn::Ident, Option<Pat>)]) -> Result<TokenStream, String> {
    let mut t = text.to_string();
    for (n, (id, _)) in names.iter().enumerate() {
        t = t.replace(&format!("${}", n), &id.to_string());
    }
    ts(&t)
}

/// @c_proof: a proof block, or with "ghost" first, ghost statements visible in the rest of the closure
fn closure_proof(text: &str, names: &[(syn::Ident, Option<Pat>)]) -> Result<TokenStream, String> {
    match text.trim().strip_prefix("ghost\n") {
        Some(t) => subst(t, names),
        None => {
            let p = subst(text, names)?;
            Ok(quote!(proof { #p }))
        }
    }
}

fn closure_tokens(c: &syn::ExprClosure, cc: &ClosureC, k: usize) -> Result<TokenStream, String> {
    let names = param_names(c, k);
    if !cc.params.is_empty() && cc.params.len() != names.len() {
        return Err(format!("lost anchor: closure {} has {} parameters", k, names.len()));
    }
    let mut ps: Vec<TokenStream> = Vec::new();
    let mut pre = TokenStream::new();
    for (n, (id, pat)) in names.iter().enumerate() {
        let ty = if n < cc.params.len() && !cc.params[n].is_empty() {
            Some(ts(&cc.params[n])?)
        } else if let Pat::Type(t) = &c.inputs[n] {
            Some(t.ty.to_token_stream())
        } else {
            None
        };
        ps.push(match ty {
            Some(t) => quote!(#id: #t),
            None => quote!(#id),
        });
        if let Some(p) = pat {
            pre.extend(quote!(let #p = #id;));
        }
    }
    let out = match &cc.out {
        Some((n, t)) => {
            let n = format_ident!("{}", n);
            let t = ts(t)?;
            quote!(-> (#n : #t))
        }
        None => c.output.to_token_stream(),
    };
    let req = if cc.requires.trim().is_empty() {
        quote!()
    } else {
        let r = subst(&cc.requires, &names)?;
        quote!(requires #r)
    };
    let ens_text = if !cc.ensures.trim().is_empty() {
        subst(&cc.ensures, &names)?
    } else if let Some(s) = &cc.spec {
        let s = s.trim();
        let (view, s) = match (s.strip_prefix("@view"), s.strip_prefix("@items"), s.strip_prefix("@abs")) {
            (Some(r), _, _) => (1, r),
            (_, Some(r), _) => (2, r),
            (_, _, Some(r)) => (3, r),
            _ => (0, s),
        };
        let y = format_ident!("{}", cc.out.as_ref().ok_or("closure spec needs @c_out")?.0);
        let e = subst(s, &names)?;
        match view {
            1 => quote!(#y@ == (#e)),
            2 => {
                let eq: TokenStream = "=~=".parse().unwrap();
                quote!(#y.items() #eq (#e))
            }
            3 => {
                let a = &names[0].0;
                let eq: TokenStream = "=~=".parse().unwrap();
                quote!(#y.abs() #eq ({ let #a = #a.abs(); #e }))
            }
            _ => quote!(#y == (#e)),
        }
    } else {
        quote!()
    };
    let ens = if ens_text.is_empty() { quote!() } else { quote!(ensures #ens_text) };
    let mv = &c.capture;
    let mut body = c.body.clone();
    if !cc.tail.trim().is_empty() {
        let p = subst(&cc.tail, &names)?;
        match &mut *body {
            Expr::Block(b) => {
                let last = b.block.stmts.pop();
                match last {
                    Some(Stmt::Expr(e, None)) => b.block.stmts.push(verb(quote!(proof { #p } #e))),
                    _ => return Err(format!("lost anchor: closure {} has no last expression", k)),
                }
            }
            _ => return Err(format!("lost anchor: closure {} has no block", k)),
        }
    }
    let proof = if cc.proof.trim().is_empty() {
        quote!()
    } else {
        closure_proof(&cc.proof, &names)?
    };
    let t = if vacuity() {
        let v = quote!(proof { assert(1int == 2int); });
        if before(&CURRENT.with(|c| c.borrow().clone())) {
            quote!(#mv |#(#ps),*| #out #req #ens { #pre #proof #v #body })
        } else {
            quote!(#mv |#(#ps),*| #out #req #ens { #pre #proof let vx_c = #body; #v vx_c })
        }
    } else {
        quote!(#mv |#(#ps),*| #out #req #ens { #pre #proof #body })
    };
    Ok(match &cc.dynt {
        Some(d) => {
            let d = ts(d)?;
            quote!(vx_dyn_marker!(#d::of(#t)))
        }
        None => t,
    })
}

fn closure_ghost(c: &syn::ExprClosure, cc: &ClosureC, k: usize, sp: &str, method: &str) -> Result<TokenStream, String> {
    let names = param_names(c, k);
    let s = sp.trim();
    let s = s.strip_prefix("@view").or_else(|| s.strip_prefix("@items")).or_else(|| s.strip_prefix("@abs")).unwrap_or(s);
    let abs = sp.trim().starts_with("@abs");
    let mut e = subst(s, &names)?;
    let by_ref = matches!(method, "filter" | "partition" | "find" | "take_while");
    let mut ps: Vec<TokenStream> = Vec::new();
    for (n, (id, _)) in names.iter().enumerate() {
        let txt = cc.params.get(n).ok_or("closure spec needs @c_params")?.trim();
        if abs && n == 0 {
            let t = ts(txt)?;
            ps.push(quote!(#id: <#t as crate::pre::VxAbs>::A));
        } else if by_ref {
            let t = ts(txt.strip_prefix('&').ok_or("closure parameter is not a reference")?)?;
            let o = format_ident!("vx_o_{}", id);
            ps.push(quote!(#o: #t));
            e = quote!({ let #id = &#o; #e });
        } else {
            let t = ts(txt)?;
            ps.push(quote!(#id: #t));
        }
    }
    Ok(quote!(Ghost(|#(#ps),*| #e)))
}

/// functions whose value cannot be named before it is returned (bin/vacuity finds them)
fn before(f: &str) -> bool {
    std::env::var("QV_VACUITY").map_or(false, |v| v.split(',').any(|x| x == f || x.ends_with(&format!("::{}", f))))
}
thread_local! { static CURRENT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn vacuity() -> bool {
    std::env::var_os("QV_VACUITY").is_some()
}
