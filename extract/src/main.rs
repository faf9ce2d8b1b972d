//! vextract: mechanical extraction of functions and types from /repo into one Verus file.
//!
//! usage: vextract <repo> <contracts-dir> <unit.vrs> <out.rs> <report.json>
//!
//! A unit is Verus text with directives (lines starting with `//@`):
//!   //@include FILE               splice contracts-dir/FILE
//!   //@type FILE NAME             emit the struct/enum/type alias NAME of FILE
//!   //@path [FILE] A::B => NAME   what the path A::B (in items of FILE) is called in this unit
//!   //@source NAME              the method NAME returns an iterator
//!   //@const FILE NAME            emit a string/integer constant of FILE
//!   //@fn FILE PATH [ret=NAME] [as=NAME] [nolit] [rlimit=N] [isolate]
//!       contract text (requires/ensures/decreases)
//!   //@loop N [acc=TYPE]          annotation of the N-th loop (source order, after desugaring)
//!   //@at start|end|loopN.before|loopN.start|loopN.end|loopN.after|sortN.before|sortN.after     ghost code
//!   //@at scope.X.end            ghost code at the end of the block that declares local X
//!   //@closure NAME [-> TYPE]     contract text of the local closure NAME (TYPE if it declares none)
//!   //@subst A => B               textual substitution on the printed function
//!   //@end
//! PATH: `f`, `Type::f`, `Trait for Type::f`, `trait Trait::f`.
mod desugar;
use desugar::Desugar;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

fn iterator_item(t: &Type) -> Option<Type> {
    let Type::ImplTrait(i) = t else { return None };
    i.bounds.iter().find_map(|b| {
        let TypeParamBound::Trait(b) = b else { return None };
        let s = b.path.segments.last()?;
        let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
        if s.ident != "Iterator" {
            return None;
        }
        a.args.iter().find_map(|x| match x {
            GenericArgument::AssocType(y) if y.ident == "Item" => Some(y.ty.clone()),
            _ => None,
        })
    })
}

pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub ret: String,
    pub as_name: Option<String>,
    pub nolit: bool,
    pub nohoist: bool,
    /// verifier attributes (resource limit, loop isolation)
    pub attrs: String,
    pub free: bool,
    /// `format!` of plain placeholders is concatenation
    pub fmt: bool,
    pub nth: usize,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub accs: BTreeMap<usize, String>,
    pub ats: BTreeMap<String, String>,
    pub substs: Vec<(String, String)>,
    pub keep: BTreeSet<String>,
    pub sorts: BTreeMap<usize, String>,
    pub closures: BTreeMap<String, String>,
    pub closure_types: BTreeMap<String, String>,
}

struct Ex {
    repo: PathBuf,
    contracts: PathBuf,
    files: HashMap<String, File>,
    report_fns: Vec<Value>,
    report_types: Vec<Value>,
    errors: Vec<Value>,
    consts: BTreeSet<String>,
    known: BTreeSet<String>,
    opaque: Vec<String>,
    paths: Vec<(Option<String>, Vec<String>, String)>,
}

fn fn_names(text: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut prev = "";
    for tok in text.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
        if prev == "fn" && !tok.is_empty() {
            let _ = out.insert(tok.to_owned());
        }
        if !tok.is_empty() {
            prev = tok;
        }
    }
    out
}

impl Ex {
    fn file(&mut self, rel: &str) -> std::result::Result<&File, String> {
        if !self.files.contains_key(rel) {
            let p = self.repo.join(rel);
            let t = fs::read_to_string(&p).map_err(|e| format!("{rel}: {e}"))?;
            let f = syn::parse_file(&t).map_err(|e| format!("{rel}: {e}"))?;
            let _ = self.files.insert(rel.to_owned(), f);
        }
        Ok(&self.files[rel])
    }

    fn expand_includes(&self, text: &str) -> String {
        let mut out = String::new();
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let t = fs::read_to_string(self.contracts.join(f.trim())).expect("include");
                out.push_str(&self.expand_includes(&t));
            } else {
                out.push_str(l);
            }
            out.push('\n');
        }
        out
    }

    fn process(&mut self, text: &str) -> String {
        let text = self.expand_includes(text);
        self.known = fn_names(&text);
        // fns and consts are "known" before any is emitted
        for l in text.lines() {
            if let Some(r) = l.trim().strip_prefix("//@fn ") {
                let mut parts = r.split_whitespace();
                let _ = parts.next();
                let rest: Vec<&str> = parts.filter(|p| !p.contains('=') && *p != "nolit" && *p != "isolate" && *p != "nohoist" && *p != "free" && *p != "fmt").collect();
                let path = rest.join(" ");
                let name = path.rsplit("::").next().unwrap_or("").to_owned();
                let _ = self.known.insert(name);
            }
            if let Some(r) = l.trim().strip_prefix("//@const ") {
                if let Some(n) = r.split_whitespace().nth(1) {
                    let _ = self.consts.insert(n.to_owned());
                }
            }
        }
        desugar::XSRC.with(|x| x.borrow_mut().extend(text.lines().filter_map(|l| l.trim().strip_prefix("//@source ")).flat_map(|l| l.split_whitespace().map(|w| w.to_owned()))));
        let mut out = String::new();
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].trim();
            if l.starts_with("//@source ") {
            } else if let Some(r) = l.strip_prefix("//@path ") {
                let (a, b) = r.split_once("=>").expect("path");
                let w: Vec<&str> = a.split_whitespace().collect();
                let from = w.last().unwrap().split("::").map(|s| s.to_owned()).collect();
                self.paths.push(((w.len() > 1).then(|| w[0].to_owned()), from, b.trim().to_owned()));
            } else if let Some(r) = l.strip_prefix("//@type ") {
                let w: Vec<&str> = r.split_whitespace().collect();
                match self.emit_type(w[0], w[1]) {
                    Ok(t) => {
                        // as=NEW / sub=A:B: rename identifiers (two types of one name in one unit)
                        let mut t = t;
                        for o in &w[2..] {
                            if let Some(n) = o.strip_prefix("as=") {
                                t = rename_word(&t, w[1], n);
                            } else if let Some(x) = o.strip_prefix("sub=") {
                                for ab in x.split(',') {
                                    let (a, b) = ab.split_once(':').expect("sub");
                                    t = rename_word(&t, a, b);
                                }
                            }
                        }
                        out.push_str(&t)
                    }
                    Err(e) => self.errors.push(json!({"kind":"lost-type","what":w[1],"file":w[0],"msg":e})),
                }
            } else if let Some(r) = l.strip_prefix("//@opaque ") {
                for name in r.split_whitespace() {
                    out.push_str(&format!("#[verifier::external_body] pub struct {name} {{ _p: u8 }}\n"));
                    out.push_str(&eq_impl(name));
                    self.opaque.push(name.to_owned());
                }
            } else if let Some(r) = l.strip_prefix("//@const ") {
                let w: Vec<&str> = r.split_whitespace().collect();
                match self.emit_const(w[0], w[1]) {
                    Ok(t) => out.push_str(&t),
                    Err(e) => self.errors.push(json!({"kind":"lost-const","what":w[1],"file":w[0],"msg":e})),
                }
            } else if let Some(r) = l.strip_prefix("//@fn ") {
                let mut spec = parse_fn_head(r);
                let mut section = "contract".to_owned();
                i += 1;
                while i < lines.len() && lines[i].trim() != "//@end" {
                    let t = lines[i].trim();
                    if let Some(r) = t.strip_prefix("//@loop ") {
                        let mut w = r.split_whitespace();
                        let n: usize = w.next().unwrap().parse().unwrap();
                        let rest = w.collect::<Vec<_>>().join(" ");
                        if let Some(a) = rest.strip_prefix("acc=") {
                            let _ = spec.accs.insert(n, a.to_owned());
                        }
                        let _ = spec.loops.entry(n).or_default();
                        section = format!("loop:{n}");
                    } else if let Some(r) = t.strip_prefix("//@at ") {
                        section = format!("at:{}", r.trim());
                    } else if let Some(r) = t.strip_prefix("//@closure ") {
                        let (n, t) = r.split_once("->").unwrap_or((r, ""));
                        if !t.trim().is_empty() {
                            let _ = spec.closure_types.insert(n.trim().to_owned(), t.trim().to_owned());
                        }
                        section = format!("closure:{}", n.trim());
                    } else if let Some(r) = t.strip_prefix("//@subst ") {
                        let (a, b) = r.split_once("=>").expect("subst");
                        spec.substs.push((a.trim().to_owned(), b.trim().to_owned()));
                    } else if let Some(r) = t.strip_prefix("//@sort ") {
                        let (n, c) = r.trim().split_once(' ').expect("sort");
                        let _ = spec.sorts.insert(n.parse().expect("sort"), c.trim().to_owned());
                    } else if let Some(r) = t.strip_prefix("//@keep ") {
                        spec.keep.extend(r.split_whitespace().map(|s| s.to_owned()));
                    } else {
                        let dst = if section == "contract" {
                            &mut spec.contract
                        } else if let Some(n) = section.strip_prefix("closure:") {
                            spec.closures.entry(n.to_owned()).or_default()
                        } else if let Some(n) = section.strip_prefix("loop:") {
                            spec.loops.get_mut(&n.parse::<usize>().unwrap()).unwrap()
                        } else {
                            spec.ats.entry(section["at:".len()..].to_owned()).or_default()
                        };
                        dst.push_str(lines[i]);
                        dst.push('\n');
                    }
                    i += 1;
                }
                match self.emit_fn(&spec) {
                    Ok(t) => {
                        out.push_str(&format!("// VFN-BEGIN {}\n", spec.path));
                        out.push_str(&t);
                        out.push_str("// VFN-END\n");
                    }
                    Err(e) => self.errors.push(json!({"kind":"lost-anchor","what":spec.path,"file":spec.file,"msg":e})),
                }
            } else {
                out.push_str(lines[i]);
                out.push('\n');
            }
            i += 1;
        }
        out
    }

    fn emit_const(&mut self, file: &str, name: &str) -> std::result::Result<String, String> {
        let f = self.file(file)?;
        for it in all_items(&f.items) {
            if let Item::Const(c) = it {
                if c.ident == name {
                    let e = c.expr.to_token_stream().to_string();
                    return Ok(match &*c.expr {
                        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => format!(
                            "pub open spec fn {name}_spec() -> Seq<char> {{ {e}@ }}\n#[verifier::external_body] pub fn {name}() -> (r: &'static String) ensures r@ == {e}@ {{ unimplemented!() }}\n"
                        ),
                        _ => return Err("non-literal const".into()),
                    });
                }
            }
        }
        Err("const not found".into())
    }

    fn use_paths(&self, file: &str) {
        let v = self.paths.iter().filter(|p| p.0.as_deref().is_none_or(|f| f == file)).map(|p| (p.1.clone(), p.2.clone())).collect();
        desugar::PATHS.with(|m| *m.borrow_mut() = v);
    }

    fn emit_type(&mut self, file: &str, name: &str) -> std::result::Result<String, String> {
        self.use_paths(file);
        let f = self.file(file)?.clone();
        for it in all_items(&f.items) {
            let (ident, attrs) = match it {
                Item::Struct(s) => (&s.ident, &s.attrs),
                Item::Enum(s) => (&s.ident, &s.attrs),
                Item::Type(s) => (&s.ident, &s.attrs),
                _ => continue,
            };
            if ident != name {
                continue;
            }
            let derives = derives(attrs);
            let mut it2 = it.clone();
            let mut d = Desugar::for_types();
            match &mut it2 {
                Item::Struct(s) => {
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                    }
                }
                Item::Enum(e) => {
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in e.variants.iter_mut() {
                        v.attrs.clear();
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                }
                Item::Type(t) => {
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                }
                _ => {}
            }
            d.visit_item_mut(&mut it2);
            let generic = match &it2 {
                Item::Struct(s) => !s.generics.params.is_empty(),
                Item::Enum(s) => !s.generics.params.is_empty(),
                _ => true,
            };
            let mut text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it2.clone()] });
            if derives.contains("PartialEq") && !generic {
                text.push_str(&eq_impl(name));
            }
            if matches!(&it2, Item::Struct(_)) && derives.contains("Copy") {
                text = format!("#[derive(Clone, Copy)]\n{text}");
            }
            if let Item::Enum(e) = &it2 {
                if derives.contains("PartialOrd") && e.variants.iter().all(|v| v.fields.is_empty()) {
                    let mut arms = String::new();
                    for (k, v) in e.variants.iter().enumerate() {
                        // an explicit discriminant decides a derived order
                        if let Some((_, d)) = &v.discriminant {
                            arms.push_str(&format!("{name}::{} => {}int, ", v.ident, d.to_token_stream()));
                        } else {
                            arms.push_str(&format!("{name}::{} => {k}int, ", v.ident));
                        }
                    }
                    text.push_str(&format!(
                        "impl VOrd for {name} {{ open spec fn vkey(self) -> int {{ match self {{ {arms} }} }} }}\n"
                    ));
                    text.push_str(&format!("impl PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {{ Some(if self.vkey() < o.vkey() {{ core::cmp::Ordering::Less }} else if self.vkey() == o.vkey() {{ core::cmp::Ordering::Equal }} else {{ core::cmp::Ordering::Greater }}) }} }}\nimpl PartialOrd for {name} {{ #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) {{ unimplemented!() }} }}\n"));
                    text = format!("#[derive(Clone, Copy)]\n{text}");
                } else if e.variants.iter().all(|v| v.fields.is_empty()) && derives.contains("Copy") {
                    text = format!("#[derive(Clone, Copy)]\n{text}");
                }
                if derives.contains("Default") {
                    // #[default] variant
                    if let Item::Enum(orig) = it {
                        for v in &orig.variants {
                            if v.attrs.iter().any(|a| a.path().is_ident("default")) {
                                text.push_str(&format!(
                                    "pub open spec fn {}_default() -> {name} {{ {name}::{} }}\n",
                                    name, v.ident
                                ));
                            }
                        }
                    }
                }
            }
            self.report_types.push(json!({"file":file,"type":name,"derives":derives.iter().collect::<Vec<_>>()}));
            return Ok(text);
        }
        Err("type not found".into())
    }

    fn emit_fn(&mut self, spec: &FnSpec) -> std::result::Result<String, String> {
        self.use_paths(&spec.file);
        let f = self.file(&spec.file)?.clone();
        let found = find_fn_nth(&f.items, &spec.path, spec.nth).ok_or_else(|| "function not found".to_owned())?;
        let Found { mut sig, mut block, mut self_ty, generics, trait_path: _, line, end_line } = found;
        if sig.asyncness.is_some() {
            return Err("async".into());
        }
        let src_tokens = quote!(#sig #block).to_string();
        // 1. inline uncontracted helpers of the same file
        let mut inl = desugar::Inliner {
            items: &f.items,
            self_ty: self_ty.as_ref().map(|t| type_name(t)),
            known: &self.known,
            depth: 0,
            inlined: vec![],
            current: sig.ident.to_string(),
        };
        inl.visit_block_mut(&mut block);
        let inlined = inl.inlined.clone();
        desugar::MutClosures.visit_block_mut(&mut block);
        // ghost code wanted at the end of a variable's scope
        struct Scopes(BTreeMap<String, bool>);
        impl VisitMut for Scopes {
            fn visit_block_mut(&mut self, b: &mut Block) {
                visit_mut::visit_block_mut(self, b);
                for (n, done) in self.0.iter_mut() {
                    let binds = |s: &Stmt| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(i) if i.ident == n.as_str()) || matches!(&l.pat, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(i) if i.ident == n.as_str())));
                    if *done || !b.stmts.iter().any(binds) {
                        continue;
                    }
                    *done = true;
                    let key = format!("scope.{n}.end");
                    let at = match b.stmts.last() {
                        Some(Stmt::Expr(_, None)) => b.stmts.len() - 1,
                        _ => b.stmts.len(),
                    };
                    b.stmts.insert(at, parse_quote!(__vat!(#key);));
                }
            }
        }
        let mut sc = Scopes(spec.ats.keys().filter_map(|k| k.strip_prefix("scope.")?.strip_suffix(".end")).map(|n| (n.to_owned(), false)).collect());
        sc.visit_block_mut(&mut block);
        if let Some((n, _)) = sc.0.iter().find(|(_, d)| !**d) {
            return Err(format!("no variable {n} to place ghost code at"));
        }
        // ghost code wanted after a call that is a statement of its own, `call.NAME.K`, or after the first binding of a variable, `let.NAME`
        struct Calls<'a>(&'a BTreeMap<String, String>, BTreeMap<String, usize>);
        impl VisitMut for Calls<'_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut out = vec![];
                for mut s in b.stmts.drain(..) {
                    self.visit_stmt_mut(&mut s);
                    let name = match &s {
                        Stmt::Expr(Expr::Call(c), Some(_)) => match &*c.func { Expr::Path(p) => p.path.segments.last().map(|x| x.ident.to_string()), _ => None },
                        _ => None,
                    };
                    let bound = match &s {
                        Stmt::Local(l) => match &l.pat { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None },
                        _ => None,
                    };
                    out.push(s);
                    if let Some(n) = bound {
                        let key = format!("let.{n}");
                        if self.0.contains_key(&key) && self.1.insert(key.clone(), 1).is_none() {
                            out.push(parse_quote!(__vat!(#key);));
                        }
                    }
                    if let Some(n) = name {
                        let k = self.1.entry(n.clone()).or_insert(0);
                        let key = format!("call.{n}.{k}");
                        *k += 1;
                        if self.0.contains_key(&key) {
                            out.push(parse_quote!(__vat!(#key);));
                        }
                    }
                }
                b.stmts = out;
            }
        }
        Calls(&spec.ats, BTreeMap::new()).visit_block_mut(&mut block);
        // 2. desugar
        let mut d = Desugar::new(self.consts.clone(), spec.accs.clone(), spec.keep.clone());
        d.fmt = spec.fmt;
        d.closure_types = spec.closure_types.clone();
        d.sorts = spec.sorts.clone();
        d.visit_signature_mut(&mut sig);
        d.visit_block_mut(&mut block);
        if let Some(e) = d.error {
            return Err(e);
        }
        // `mut self`: a local copy (the contract speaks of the argument)
        if let Some(FnArg::Receiver(rc)) = sig.inputs.first_mut() {
            if rc.reference.is_none() && rc.mutability.take().is_some() {
                struct R;
                impl VisitMut for R {
                    fn visit_ident_mut(&mut self, i: &mut Ident) {
                        if i == "self" { *i = Ident::new("__self", i.span()); }
                    }
                }
                R.visit_block_mut(&mut block);
                let this = Ident::new("self", proc_macro2::Span::call_site());
                block.stmts.insert(0, parse_quote!(let mut __self = #this;));
            }
        }
        if spec.free {
            let mut st = self_ty.take().ok_or("free: not a method")?;
            Desugar::for_types().visit_type_mut(&mut st);
            let Some(FnArg::Receiver(rc)) = sig.inputs.first().cloned() else { return Err("free: no receiver".into()) };
            let new: FnArg = match (&rc.reference, &rc.mutability) {
                (Some(_), None) => parse_quote!(self_: &'sf #st),
                (Some(_), Some(_)) => parse_quote!(self_: &'sf mut #st),
                _ => parse_quote!(self_: #st),
            };
            sig.inputs[0] = new;
            if rc.reference.is_some() {
                sig.generics.params.insert(0, parse_quote!('sf));
                struct L;
                impl VisitMut for L {
                    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
                        if t.lifetime.is_none() { t.lifetime = Some(parse_quote!('sf)); }
                        visit_mut::visit_type_reference_mut(self, t);
                    }
                }
                L.visit_return_type_mut(&mut sig.output);
            }
            struct R;
            impl VisitMut for R {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "self" { *i = Ident::new("self_", i.span()); }
                }
            }
            R.visit_block_mut(&mut block);
        }
        // markers
        let mut stmts: Vec<Stmt> = vec![];
        stmts.push(parse_quote!(__vfn!();));
        stmts.push(parse_quote!(__vat!("start");));
        let tail_wrap = spec.ats.contains_key("end");
        if tail_wrap {
            let mut body = block.stmts.clone();
            match body.pop() {
                Some(Stmt::Expr(e, None)) => {
                    stmts.extend(body);
                    stmts.push(parse_quote!(let __ret = #e;));
                    stmts.push(parse_quote!(__vat!("end");));
                    stmts.push(Stmt::Expr(parse_quote!(__ret), None));
                }
                Some(s) => {
                    stmts.extend(body);
                    stmts.push(s);
                    stmts.push(parse_quote!(__vat!("end");));
                }
                None => stmts.push(parse_quote!(__vat!("end");)),
            }
        } else {
            stmts.extend(block.stmts.clone());
        }
        // `-> impl Iterator<Item = T>`: the items, as a sequence
        if let ReturnType::Type(_, t) = &mut sig.output {
            if let Some(i) = iterator_item(t) {
                **t = parse_quote!(Vec<#i>);
            }
        }
        let ret_ty = match &sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some(ty_string(t)),
        };
        sig.output = ReturnType::Default;
        let wc = sig.generics.where_clause.take().map(|w| { let mut w = w.to_token_stream().to_string(); if !w.trim_end().ends_with(',') { w.push(','); } format!(" {w}") }).unwrap_or_default();
        sig.constness = None;
        if let Some(n) = &spec.as_name {
            sig.ident = Ident::new(n, sig.ident.span());
        }
        let item: Item = if let Some(st) = &self_ty {
            let mut st = st.clone();
            let mut g = generics.clone();
            let mut dt = Desugar::for_types();
            dt.visit_type_mut(&mut st);
            dt.visit_generics_mut(&mut g);
            let (ig, _, wc) = g.split_for_impl();
            parse_quote!(impl #ig #st #wc { pub #sig { #(#stmts)* } })
        } else {
            parse_quote!(pub #sig { #(#stmts)* })
        };
        let mut text = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![item] });
        let trusted = std::env::var("VEXTRACT_TRUST").unwrap_or_default().split(',').any(|t| t == spec.path);
        // contract
        let ret = ret_ty.as_ref().map(|t| format!(" -> ({}: {})", spec.ret, t)).unwrap_or_default() + &wc;
        let pos = text.find("__vfn!();").ok_or("marker")?;
        let brace = text[..pos].rfind('{').ok_or("brace")?;
        if trusted {
            let head = text[..brace].trim_end().to_owned();
            let at = head.rfind("pub fn ").ok_or("pub fn")?;
            let close = if self_ty.is_some() { "}\n" } else { "" };
            let t = format!("{}#[verifier::external_body] {}{}\n{}\n{{ unimplemented!() }}\n{close}", &head[..at], &head[at..], ret, spec.contract);
            self.report_fns.push(json!({"file": spec.file, "fn": spec.path, "emitted": sig.ident.to_string(), "lines": [line, end_line], "trusted": true,
                "loops": d.loops.iter().map(|k| k.name()).collect::<Vec<_>>(), "unannotated_loops": [], "rewrites": d.rewrites, "inlined": inlined, "tokens_hash": format!("{:016x}", fnv(&src_tokens))}));
            return Ok(t);
        }
        let at = text[..brace].rfind("pub fn ").ok_or("pub fn")?;
        let brace = brace + spec.attrs.len();
        let pos = pos + spec.attrs.len();
        text.insert_str(at, &spec.attrs);
        text = format!("{}{}\n{}\n{{{}", text[..brace].trim_end(), ret, spec.contract, &text[pos + "__vfn!();".len()..]);
        // literal reveals
        let mut start = String::new();
        if std::env::var_os("VEXTRACT_VACUITY").is_some() {
            start.push_str("assert(false);\n");
        }
        if !spec.nolit {
            let mut lits: BTreeSet<String> = d.lits.clone();
            lits.extend(contract_lits(&spec.contract));
            for c in spec.loops.values().chain(spec.ats.values()) {
                lits.extend(contract_lits(c));
            }
            if !lits.is_empty() {
                start.push_str("proof {");
                for l in &lits {
                    start.push_str(&format!(" reveal_strlit({l}); let ghost _ = {l}@.len();"));
                }
                start.push_str(" }\n");
            }
        }
        // `hide` is a header: it goes first
        let (hides, rest): (Vec<&str>, Vec<&str>) = spec.ats.get("start").map(|s| s.as_str()).unwrap_or("").lines().partition(|l| l.trim_start().starts_with("hide("));
        start = format!("{}\n{start}{}\n", hides.join("\n"), rest.join("\n"));
        text = text.replace("__vat!(\"start\");", &start);
        for (k, c) in &d.sort_checks {
            text = text.replace(&format!("__vat!(\"{k}\");"), c);
            for w in ["before", "after"] {
                let key = format!("{k}.{w}");
                text = text.replace(&format!("__vat!(\"{key}\");"), spec.ats.get(&key).map(|s| s.as_str()).unwrap_or(""));
            }
        }
        for (k, c) in spec.ats.iter().filter(|(k, _)| k.starts_with("scope.") || k.starts_with("call.") || k.starts_with("let.")) {
            text = text.replace(&format!("__vat!(\"{k}\");"), c);
        }
        if tail_wrap {
            text = text.replace("__vat!(\"end\");", &spec.ats["end"]);
        }
        for n in &d.closures {
            let m = format!("__vclosure!(\"{n}\");");
            let Some(pos) = text.find(&m) else { return Err(format!("closure marker {n} lost")) };
            let brace = text[..pos].rfind('{').ok_or("brace")?;
            let rest = text[pos + m.len()..].to_owned();
            match spec.closures.get(n) {
                None => text = format!("{{{}", &rest).replacen('{', &format!("{}{{", &text[..brace]), 1),
                Some(c) => {
                    let head = text[..brace].trim_end().to_owned();
                    let arrow = head.rfind("-> ").ok_or("closure without a return type")?;
                    text = format!("{}-> (result: {})\n{}\n{{{}", &head[..arrow], &head[arrow + 3..], c, rest);
                }
            }
        }
        for n in spec.closures.keys() {
            if !d.closures.contains(n) {
                return Err(format!("closure {n} has a contract but is not there"));
            }
        }
        let mut unannotated = vec![];
        for (n, kind) in d.loops.iter().enumerate() {
            let m = format!("__vloop!({n});");
            let Some(pos) = text.find(&m) else { return Err(format!("loop marker {n} lost")) };
            let brace = text[..pos].rfind('{').ok_or("brace")?;
            let ann = spec.loops.get(&n).cloned().unwrap_or_else(|| {
                unannotated.push(n);
                String::new()
            });
            // lines `except_break …` hold at the loop head only
            let (exc, ann): (Vec<&str>, Vec<&str>) = ann.lines().partition(|l| l.trim_start().starts_with("except_break "));
            let exc: String = exc.iter().map(|l| l.trim_start().trim_start_matches("except_break ").to_owned() + "\n").collect();
            let ann: String = ann.iter().map(|l| format!("{l}\n")).collect();
            let auto = kind.auto_invariant(n);
            let ann = if auto.is_empty() {
                ann
            } else {
                format!("invariant {auto}\n{}\n", strip_invariant(&ann)) + &kind.auto_decreases(n)
            };
            let ann = if exc.is_empty() { ann } else { format!("invariant_except_break {exc}{ann}") };
            text = format!("{}\n{}\n{{{}", text[..brace].trim_end(), ann, &text[pos + m.len()..]);
            for w in ["before", "start", "end", "after"] {
                let key = format!("loop{n}.{w}");
                let m = format!("__vat!(\"{key}\");");
                text = text.replace(&m, spec.ats.get(&key).map(|s| s.as_str()).unwrap_or(""));
            }
        }
        for n in spec.loops.keys() {
            if *n >= d.loops.len() {
                return Err(format!("loop {n} annotated but the function has {} loops", d.loops.len()));
            }
        }
        for (a, b) in &spec.substs {
            text = text.replace(a.as_str(), b.as_str());
        }
        self.report_fns.push(json!({
            "file": spec.file, "fn": spec.path, "emitted": sig.ident.to_string(),
            "lines": [line, end_line],
            "loops": d.loops.iter().map(|k| k.name()).collect::<Vec<_>>(),
            "unannotated_loops": unannotated,
            "rewrites": d.rewrites, "inlined": inlined,
            "tokens_hash": format!("{:016x}", fnv(&src_tokens)),
        }));
        if !d.hoisted.is_empty() && !spec.nohoist {
            let h = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: d.hoisted.clone() });
            text = format!("{h}{text}");
        }
        Ok(text)
    }
}

fn eq_impl(name: &str) -> String {
    format!("impl PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\nimpl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n")
}

fn rename_word(t: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut w = String::new();
    for c in t.chars().chain(std::iter::once('\n')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            out.push_str(if w == a { b } else { &w });
            w.clear();
            out.push(c);
        }
    }
    out
}

fn strip_invariant(a: &str) -> String {
    let t = a.trim_start();
    t.strip_prefix("invariant").unwrap_or(t).to_owned()
}

fn contract_lits(t: &str) -> Vec<String> {
    // "..."@ occurrences
    let mut out = vec![];
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != '"' {
                if b[j] == '\\' {
                    j += 1;
                }
                j += 1;
            }
            if j + 1 < b.len() && b[j + 1] == '@' {
                out.push(b[i..=j].iter().collect());
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    out
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn ty_string(t: &Type) -> String {
    let f: File = parse_quote!(type X = #t;);
    let s = prettyplease::unparse(&f);
    s.trim().trim_start_matches("type X =").trim_end_matches(';').trim().to_owned()
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(s) = m.path.segments.last() {
                    let _ = out.insert(s.ident.to_string());
                }
                Ok(())
            });
        }
    }
    out
}

fn parse_fn_head(r: &str) -> FnSpec {
    let mut w = r.split_whitespace();
    let file = w.next().unwrap().to_owned();
    let mut path: Vec<String> = vec![];
    let mut ret = "r".to_owned();
    let mut as_name = None;
    let mut nolit = false;
    let mut nohoist = false;
    let mut attrs = String::from("#[verifier::spinoff_prover] ");
    let mut free = false;
    let mut fmt = false;
    let mut nth = 0;
    for t in w {
        if let Some(x) = t.strip_prefix("ret=") {
            ret = x.to_owned();
        } else if let Some(x) = t.strip_prefix("as=") {
            as_name = Some(x.to_owned());
        } else if let Some(x) = t.strip_prefix("nth=") {
            nth = x.parse().expect("nth");
        } else if let Some(x) = t.strip_prefix("rlimit=") {
            attrs.push_str(&format!("#[verifier::rlimit({x})] "));
        } else if t == "isolate" {
            attrs.push_str("#[verifier::loop_isolation(true)] ");
        } else if t == "nohoist" {
            nohoist = true;
        } else if t == "free" {
            free = true;
        } else if t == "fmt" {
            fmt = true;
        } else if t == "nolit" {
            nolit = true;
        } else {
            path.push(t.to_owned());
        }
    }
    FnSpec {
        file,
        path: path.join(" "),
        ret,
        as_name,
        nolit,
        nohoist, free, fmt, nth, attrs,
        contract: String::new(),
        loops: BTreeMap::new(),
        accs: BTreeMap::new(),
        sorts: BTreeMap::new(),
        closures: BTreeMap::new(),
        closure_types: BTreeMap::new(),
        ats: BTreeMap::new(),
        substs: vec![],
        keep: BTreeSet::new(),
    }
}

pub fn all_items(items: &[Item]) -> Vec<&Item> {
    let mut out = vec![];
    for i in items {
        if let Item::Mod(m) = i {
            let test = m.attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"));
            if !test {
                if let Some((_, c)) = &m.content {
                    out.extend(all_items(c));
                }
            }
        } else {
            out.push(i);
        }
    }
    out
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<Type>,
    pub generics: Generics,
    pub trait_path: Option<String>,
    pub line: usize,
    pub end_line: usize,
}

fn span_lines(ts: TokenStream) -> (usize, usize) {
    let mut lo = usize::MAX;
    let mut hi = 0;
    for t in ts {
        lo = lo.min(t.span().start().line);
        hi = hi.max(t.span().end().line);
    }
    (lo, hi)
}

pub fn find_fn(items: &[Item], path: &str) -> Option<Found> {
    find_fn_nth(items, path, 0)
}

pub fn find_fn_nth(items: &[Item], path: &str, nth: usize) -> Option<Found> {
    let mut skip = nth;
    let (ty, name) = match path.rsplit_once("::") {
        Some((t, n)) => (Some(t.trim()), n.trim()),
        None => (None, path.trim()),
    };
    for it in all_items(items) {
        match (it, ty) {
            (Item::Fn(f), None) if f.sig.ident == name => {
                let (line, end_line) = span_lines(f.to_token_stream());
                return Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None, generics: Generics::default(), trait_path: None, line, end_line });
            }
            (Item::Trait(t), Some(tn)) if tn.strip_prefix("trait ").is_some_and(|x| t.ident == x) => {
                for m in &t.items {
                    if let TraitItem::Fn(m) = m {
                        if m.sig.ident == name {
                            if let Some(b) = &m.default {
                                let (line, end_line) = span_lines(m.to_token_stream());
                                return Some(Found { sig: m.sig.clone(), block: b.clone(), self_ty: None, generics: Generics::default(), trait_path: Some(t.ident.to_string()), line, end_line });
                            }
                        }
                    }
                }
            }
            (Item::Impl(im), Some(tn)) => {
                let (want_trait, want_ty) = match tn.split_once(" for ") {
                    Some((a, b)) => (Some(a.trim().replace(' ', "")), b.trim()),
                    None => (None, tn),
                };
                if type_name(&im.self_ty) != want_ty && ty_string(&im.self_ty).replace(' ', "") != want_ty.replace(' ', "") {
                    continue;
                }
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().map(|s| s.to_token_stream().to_string().replace(' ', "")).unwrap_or_default());
                if tr != want_trait {
                    continue;
                }
                for m in &im.items {
                    if let ImplItem::Fn(m) = m {
                        if m.sig.ident == name {
                            if skip > 0 {
                                skip -= 1;
                                continue;
                            }
                            let (line, end_line) = span_lines(m.to_token_stream());
                            return Some(Found { sig: m.sig.clone(), block: m.block.clone(), self_ty: Some((*im.self_ty).clone()), generics: im.generics.clone(), trait_path: tr, line, end_line });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ex = Ex {
        repo: PathBuf::from(&a[1]),
        contracts: PathBuf::from(&a[2]),
        files: HashMap::new(),
        report_fns: vec![],
        report_types: vec![],
        errors: vec![],
        consts: BTreeSet::new(),
        known: BTreeSet::new(),
        opaque: vec![],
        paths: vec![],
    };
    let unit = fs::read_to_string(&a[3]).expect("unit");
    let out = ex.process(&unit);
    fs::write(Path::new(&a[4]), out).expect("write");
    let rep = json!({"functions": ex.report_fns, "types": ex.report_types, "errors": ex.errors, "opaque": ex.opaque});
    fs::write(Path::new(&a[5]), serde_json::to_string_pretty(&rep).unwrap()).expect("write");
}
