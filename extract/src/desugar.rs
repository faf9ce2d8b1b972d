//! The rewrites. Each is meaning-preserving on the subset it accepts; each application is
//! counted in the report. What is not accepted is left alone, so that rustc/Verus rejects
//! it and the proof is reported undecided, never wrong.
use crate::{all_items, find_fn, type_name};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug)]
pub enum LoopKind {
    While,
    Loop,
    Seq(&'static str),
    Range,
    /// over the elements of a vector, in place
    Mut,
}
impl LoopKind {
    pub fn name(&self) -> String {
        match self {
            LoopKind::While => "while".into(),
            LoopKind::Loop => "loop".into(),
            LoopKind::Seq(k) => format!("seq:{k}"),
            LoopKind::Range => "range".into(),
            LoopKind::Mut => "mut".into(),
        }
    }
    pub fn auto_invariant(&self, n: usize) -> String {
        match self {
            LoopKind::Seq(_) => format!("__i{n} <= __s{n}@.len(),"),
            LoopKind::Range => format!("__b{n} <= __i{n}, __i{n} <= __e{n} || __i{n} == __b{n},"),
            LoopKind::Mut => format!("__i{n} <= __n{n},"),
            _ => String::new(),
        }
    }
    pub fn auto_decreases(&self, n: usize) -> String {
        match self {
            LoopKind::Seq(_) => format!("decreases __s{n}@.len() - __i{n}\n"),
            LoopKind::Range => format!("decreases __e{n} - __i{n}\n"),
            LoopKind::Mut => format!("decreases __n{n} - __i{n}\n"),
            _ => String::new(),
        }
    }
}

pub struct Desugar {
    pub loops: Vec<LoopKind>,
    pub lits: BTreeSet<String>,
    pub rewrites: BTreeMap<String, usize>,
    pub consts: BTreeSet<String>,
    pub accs: BTreeMap<usize, String>,
    pub keep: BTreeSet<String>,
    /// the order claimed for the n-th sort: a spec function of two elements
    pub sorts: BTreeMap<usize, String>,
    nsort: usize,
    pub sort_checks: BTreeMap<String, String>,
    pub error: Option<String>,
    pub hoisted: Vec<Item>,
    /// local closures with a declared result type
    pub closures: Vec<String>,
    pub closure_types: BTreeMap<String, String>,
    /// calls seen so far that take closures, by callee
    call_occ: BTreeMap<String, usize>,
    rcollect: BTreeSet<usize>,
    fresh: usize,
    types_only: bool,
    /// `format!` of plain placeholders is concatenation
    pub fmt: bool,
}

thread_local! { pub static PATHS: std::cell::RefCell<Vec<(Vec<String>, String)>> = const { std::cell::RefCell::new(vec![]) };
    /// methods (of the code) that return an iterator: `//@source`
    pub static XSRC: std::cell::RefCell<BTreeSet<String>> = const { std::cell::RefCell::new(BTreeSet::new()) }; }

const SOURCES: &[&str] = &["iter", "into_iter", "keys", "values", "into_keys", "into_values", "chars", "lines", "drain", "iter_seq", "components", "unique"];
const ADAPTERS: &[&str] = &["map", "filter", "filter_map", "cloned", "copied", "enumerate", "flat_map", "flatten"];
/// e of `Ok(e?)`
fn ok_try(b: &Expr) -> Option<&Expr> {
    let b = match b {
        Expr::Block(k) => match k.block.stmts.as_slice() {
            [Stmt::Expr(e, None)] => e,
            _ => return None,
        },
        e => e,
    };
    match b {
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => match &c.args[0] {
            Expr::Try(t) => Some(&t.expr),
            _ => None,
        },
        _ => None,
    }
}
const TERMINALS: &[&str] = &["collect", "partition", "any", "all", "find", "find_map", "count", "for_each", "last", "position", "max", "min", "fold", "try_fold", "nth"];
const OPTS: &[&str] = &[
    "map", "and_then", "is_some_and", "map_or", "map_or_else", "unwrap_or_else", "or_else", "filter", "map_err", "ok_or", "ok_or_else", "is_none_or", "inspect",
];

impl Desugar {
    pub fn new(consts: BTreeSet<String>, accs: BTreeMap<usize, String>, keep: BTreeSet<String>) -> Self {
        Desugar { loops: vec![], lits: BTreeSet::new(), rewrites: BTreeMap::new(), consts, accs, keep, sorts: BTreeMap::new(), nsort: 0, sort_checks: BTreeMap::new(), error: None, hoisted: vec![], closures: vec![], closure_types: BTreeMap::new(), call_occ: BTreeMap::new(), rcollect: BTreeSet::new(), fresh: 0, types_only: false, fmt: false }
    }
    pub fn for_types() -> Self {
        let mut d = Self::new(BTreeSet::new(), BTreeMap::new(), BTreeSet::new());
        d.types_only = true;
        d
    }
    fn count(&mut self, k: &str) {
        *self.rewrites.entry(k.to_owned()).or_default() += 1;
    }
    fn new_loop(&mut self, k: LoopKind) -> usize {
        self.loops.push(k);
        self.loops.len() - 1
    }
    fn fresh(&mut self) -> Ident {
        self.fresh += 1;
        format_ident!("__t{}", self.fresh)
    }
}

/// the leading statements and the value of a (nested) block
fn peel(e: &Expr) -> (Vec<Stmt>, Expr) {
    if let Expr::Block(b) = e {
        if b.label.is_none() {
            if let Some((Stmt::Expr(t, None), pre)) = b.block.stmts.split_last() {
                if pre.iter().all(|s| matches!(s, Stmt::Local(_))) {
                    let (more, tail) = peel(t);
                    return (pre.iter().cloned().chain(more).collect(), tail);
                }
            }
        }
    }
    (vec![], e.clone())
}

/// closure or path applied to an argument expression
enum Fun {
    Closure(Pat, Expr),
    Path(Expr),
}
impl Fun {
    fn of(e: &Expr) -> Option<Fun> {
        match e {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let body = no_return(&c.body)?;
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone();
                }
                Some(Fun::Closure(p, body))
            }
            Expr::Path(_) => Some(Fun::Path(e.clone())),
            _ => None,
        }
    }
    fn apply(&self, arg: TokenStream) -> TokenStream {
        match self {
            Fun::Closure(p, b) => quote!({ let #p = #arg; #b }),
            Fun::Path(f) => {
                let s = f.to_token_stream().to_string().replace(' ', "");
                if s == "String::from" || s == "ToOwned::to_owned" || s == "Clone::clone" || s == "ToString::to_string" {
                    quote!((#arg).vclone())
                } else if s.ends_with("::as_str") || s.ends_with("::as_ref") || s == "String::as_str" {
                    quote!((#arg).as_str())
                } else {
                    quote!(#f(#arg))
                }
            }
        }
    }
}

/// does the closure body contain return / ? / break / continue
/// `format!("a{}b{x}", y)` as `vcat(vcat(vcat("a", &y.vdisplay()), "b"), &x.vdisplay())`; `None` if a placeholder has a format spec
fn concat_of(t: &TokenStream) -> Option<Expr> {
    let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()).ok()?;
    let mut args = args.into_iter();
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.next() else { return None };
    let f = f.value();
    let mut parts: Vec<Expr> = vec![];
    let mut cur = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { let _ = it.next(); cur.push('{'); }
            '}' if it.peek() == Some(&'}') => { let _ = it.next(); cur.push('}'); }
            '{' => {
                let mut name = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => name.push(c),
                    }
                }
                if !cur.is_empty() {
                    let l = std::mem::take(&mut cur);
                    parts.push(parse_quote!(#l));
                }
                let a: Expr = if name.is_empty() { args.next()? } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.starts_with(|c: char| c.is_numeric()) { let i = format_ident!("{}", name); parse_quote!(#i) } else { return None };
                parts.push(parse_quote!(&(#a).vdisplay()));
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        parts.push(parse_quote!(#cur));
    }
    if args.next().is_some() {
        return None;
    }
    let mut it = parts.into_iter();
    let first = it.next()?;
    let mut e: Expr = match it.next() { Some(b) => parse_quote!(vcat(#first, #b)), None => parse_quote!(vcat(vempty(), #first)) };
    for p in it {
        e = parse_quote!(vcat(&#e, #p));
    }
    Some(e)
}

fn has_effect(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr_assign(&mut self, _: &'a ExprAssign) {
            self.0 = true;
        }
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) {
                self.0 = true;
            }
            visit::visit_expr_binary(self, b);
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut f = F(false);
    f.visit_expr(e);
    f.0
}

fn has_control(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// the closure or function body without `return`, if it can be had; None also for `?`
fn no_return(e: &Expr) -> Option<Expr> {
    if !has_control(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Block(b) if b.label.is_none() => {
            let b = elim_returns(&b.block.stmts)?;
            let e: Expr = parse_quote!({ #(#b)* });
            if has_control(&e) { None } else { Some(e) }
        }
        Expr::Match(_) | Expr::If(_) => {
            let b = elim_returns(&[Stmt::Expr(e.clone(), None)])?;
            let e: Expr = parse_quote!({ #(#b)* });
            if has_control(&e) { None } else { Some(e) }
        }
        _ => None,
    }
}

fn stmt_has_control(s: &Stmt) -> bool {
    let b: Block = parse_quote!({ #s });
    has_control(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
}
fn diverges(b: &[Stmt]) -> bool {
    match b.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => match &i.else_branch {
            Some((_, e)) => diverges(&i.then_branch.stmts) && match &**e { Expr::Block(b) => diverges(&b.block.stmts), e @ Expr::If(_) => diverges(&[Stmt::Expr(e.clone(), None)]), _ => false },
            None => false,
        },
        _ => false,
    }
}
fn as_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
/// statements of a body with value, `return`s turned into branches (no duplication of the continuation)
fn elim_returns(st: &[Stmt]) -> Option<Vec<Stmt>> {
    let Some(k) = st.iter().position(stmt_has_control) else { return Some(st.to_vec()) };
    let mut out = st[..k].to_vec();
    let rest = &st[k + 1..];
    let tail = rest.is_empty();
    let seq = |b: &[Stmt]| -> Option<Vec<Stmt>> {
        if diverges(b) {
            elim_returns(b)
        } else {
            let mut v = b.to_vec();
            if !tail {
                if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            v.extend_from_slice(rest);
            elim_returns(&v)
        }
    };
    match &st[k] {
        Stmt::Expr(Expr::Return(r), _) => {
            let e: Expr = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
            if has_control(&e) {
                return None;
            }
            out.push(Stmt::Expr(e, None));
        }
        Stmt::Expr(Expr::If(i), _) if !has_control(&i.cond) => {
            let els: Vec<Stmt> = match &i.else_branch {
                Some((_, e)) => as_stmts(e),
                None => vec![],
            };
            if !tail && !diverges(&i.then_branch.stmts) && !diverges(&els) {
                return None;
            }
            let (t, e) = (seq(&i.then_branch.stmts)?, seq(&els)?);
            let c = &i.cond;
            out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#e)* }), None));
        }
        Stmt::Expr(Expr::Match(m), _) if !has_control(&m.expr) => {
            let live = m.arms.iter().filter(|a| !diverges(&as_stmts(&a.body))).count();
            if !tail && live > 1 {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let b = seq(&as_stmts(&a.body))?;
                a.body = parse_quote!({ #(#b)* });
                a.comma = Some(Default::default());
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
        }
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() && tail => {
            let b = elim_returns(&b.block.stmts)?;
            out.push(Stmt::Expr(parse_quote!({ #(#b)* }), None));
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let p = &l.pat;
            if let Some((_, d)) = &init.diverge {
                let e = &init.expr;
                if has_control(e) {
                    return None;
                }
                let d = elim_returns(&as_stmts(d))?;
                let r = elim_returns(rest)?;
                out.push(Stmt::Expr(parse_quote!(match #e { #p => { #(#r)* } _ => { #(#d)* } }), None));
            } else if let Expr::Match(m) = &*init.expr {
                let live = m.arms.iter().filter(|a| !diverges(&as_stmts(&a.body))).count();
                if live != 1 || has_control(&m.expr) {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let st = as_stmts(&a.body);
                    let b = if diverges(&st) {
                        elim_returns(&st)?
                    } else {
                        let e = &a.body;
                        let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #e;)];
                        v.extend_from_slice(rest);
                        elim_returns(&v)?
                    };
                    a.body = parse_quote!({ #(#b)* });
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
            } else {
                return None;
            }
        }
        _ => return None,
    }
    Some(out)
}

/// in a closure that returns an Option, `let p = e?;` is `let Some(p) = e else { return None; };`
fn opt_try(e: &mut Expr) {
    let Expr::Closure(c) = e else { return };
    let Expr::Block(b) = &mut *c.body else { return };
    for st in b.block.stmts.iter_mut() {
        if let Stmt::Local(l) = st {
            if let Some(i) = &mut l.init {
                if i.diverge.is_none() {
                    if let Expr::Try(t) = &*i.expr {
                        if !has_control(&t.expr) {
                            let (p, x) = (&l.pat, &t.expr);
                            *st = parse_quote!(let Some(#p) = #x else { return None; };);
                        }
                    }
                }
            }
        }
    }
}

/// `?` in the closure of a `try_fold`: leave the loop, the accumulator holds the error
struct TryFold(Ident, bool);
impl VisitMut for TryFold {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            if has_control(e) {
                self.1 = true;
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let (x, z) = (&t.expr, &self.0);
            *e = parse_quote!(match #x { Ok(__ok) => __ok, Err(__er) => { #z = Err(__er); break; } });
        }
    }
}

/// `?` on a Result inside a closure body that is run inside a loop: leave the loop with the error
struct TryBreak(Ident, bool);
impl VisitMut for TryBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            if has_control(e) {
                self.1 = true;
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let (x, z) = (&t.expr, &self.0);
            *e = parse_quote!(match #x { Ok(__ok) => __ok, Err(__er) => { #z = Some(__er); break; } });
        }
    }
}

struct Chain {
    source: Expr,
    adapters: Vec<(String, Option<Expr>)>,
}

fn as_chain(e: &Expr) -> Option<Chain> {
    match e {
        Expr::Paren(p) => as_chain(&p.expr),
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            if SOURCES.contains(&name.as_str()) || XSRC.with(|x| x.borrow().contains(&name)) {
                // a source; `.into_iter()` on a chain is the chain
                if name == "into_iter" || name == "iter" {
                    if let Some(c) = as_chain(&m.receiver) {
                        return Some(c);
                    }
                }
                return Some(Chain { source: e.clone(), adapters: vec![] });
            }
            if ADAPTERS.contains(&name.as_str()) {
                let mut c = as_chain(&m.receiver)?;
                c.adapters.push((name, m.args.first().cloned()));
                return Some(c);
            }
            None
        }
        _ => None,
    }
}

impl Desugar {
    /// source expression of a loop, as an expression yielding a Vec of items
    fn source(&mut self, src: &Expr) -> TokenStream {
        if let Expr::MethodCall(m) = src {
            let name = m.method.to_string();
            if name == "iter" {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                return quote!(#r.viter());
            }
            if name == "into_iter" {
                let mut r = (*m.receiver).clone();
                self.visit_expr_mut(&mut r);
                return quote!(#r.vinto());
            }
        }
        let mut s = src.clone();
        self.visit_expr_mut(&mut s);
        quote!((#s).vinto())
    }

    /// builds the nested statements for the adapters, calling `fin` with the final item
    fn adapt(&mut self, n: usize, item: Ident, adapters: &[(String, Option<Expr>)], fin: &mut dyn FnMut(&mut Desugar, Ident) -> Option<TokenStream>) -> Option<TokenStream> {
        let Some((name, arg)) = adapters.first() else {
            return fin(self, item);
        };
        let rest = &adapters[1..];
        let mut arg = arg.clone();
        let x = self.fresh();
        match name.as_str() {
            "cloned" | "copied" => {
                let r = self.adapt(n, x.clone(), rest, fin)?;
                Some(quote!(let #x = (*#item).vclone(); #r))
            }
            "enumerate" => {
                let i = format_ident!("__i{}", n);
                let r = self.adapt(n, x.clone(), rest, fin)?;
                Some(quote!(let #x = (#i - 1, #item); #r))
            }
            "map" => {
                if self.rcollect.contains(&n) {
                    if let Some(Expr::Closure(c)) = arg.as_mut() {
                        if has_control(&c.body) {
                            let mut tb = TryBreak(format_ident!("__z{}", n), false);
                            tb.visit_expr_mut(&mut c.body);
                            if tb.1 {
                                return None;
                            }
                        }
                    }
                }
                self.visit_expr_mut(arg.as_mut()?);
                let f = Fun::of(arg.as_ref()?)?;
                let r = self.adapt(n, x.clone(), rest, fin)?;
                let a = f.apply(quote!(#item));
                Some(quote!(let #x = #a; #r))
            }
            "filter" => {
                self.visit_expr_mut(arg.as_mut()?);
                let f = Fun::of(arg.as_ref()?)?;
                let r = self.adapt(n, item.clone(), rest, fin)?;
                let a = f.apply(quote!(&#item));
                Some(quote!(let #x = #a; if #x { #r }))
            }
            "filter_map" => {
                opt_try(arg.as_mut()?);
                self.visit_expr_mut(arg.as_mut()?);
                let f = Fun::of(arg.as_ref()?)?;
                let r = self.adapt(n, x.clone(), rest, fin)?;
                let a = f.apply(quote!(#item));
                let o = self.fresh();
                Some(quote!(let #o = #a; if let Some(#x) = #o { #r }))
            }
            "flat_map" | "flatten" => {
                let inner = if name == "flatten" {
                    quote!(#item)
                } else {
                    // the closure body may itself be a chain without terminal
                    let Expr::Closure(c) = arg.as_ref()? else {
                        let f = Fun::of(arg.as_ref()?)?;
                        let a = f.apply(quote!(#item));
                        return self.nested(quote!(#a), vec![], rest, fin);
                    };
                    if has_control(&c.body) {
                        return None;
                    }
                    let p = &c.inputs[0];
                    // `{ let …; chain }`: the statements run once per outer element
                    let (pre, tail) = peel(&c.body);
                    if let Some(ch) = as_chain(&tail) {
                        let mut pre = pre;
                        for st in &mut pre {
                            self.visit_stmt_mut(st);
                        }
                        let src = self.source(&ch.source);
                        let mut ad = ch.adapters.clone();
                        ad.extend_from_slice(rest);
                        let r = self.nested(src, ad, &[], fin)?;
                        return Some(quote!(let #p = #item; #(#pre)* #r));
                    }
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    quote!({ let #p = #item; #b })
                };
                self.nested(quote!((#inner).vinto()), vec![], rest, fin)
            }
            _ => None,
        }
    }

    fn nested(&mut self, src: TokenStream, pre: Vec<(String, Option<Expr>)>, rest: &[(String, Option<Expr>)], fin: &mut dyn FnMut(&mut Desugar, Ident) -> Option<TokenStream>) -> Option<TokenStream> {
        let n = self.new_loop(LoopKind::Seq("flat"));
        let mut ad = pre;
        ad.extend_from_slice(rest);
        let item = format_ident!("__x{}", n);
        let body = self.adapt(n, item.clone(), &ad, fin)?;
        Some(self.loop_text(n, src, item, body))
    }

    fn loop_text(&mut self, n: usize, src: TokenStream, item: Ident, body: TokenStream) -> TokenStream {
        let s = format_ident!("__s{}", n);
        let i = format_ident!("__i{}", n);
        let nl = Lit::Int(LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
        let (st, en, af) = (format!("loop{n}.start"), format!("loop{n}.end"), format!("loop{n}.after"));
        let bf = format!("loop{n}.before");
        quote! {
            let #s = #src;
            let mut #i: usize = 0;
            __vat!(#bf);
            while #i < #s.len() {
                __vloop!(#nl);
                let #item = vtake(&#s, #i);
                #i = #i + 1;
                __vat!(#st);
                #body
                __vat!(#en);
            }
            __vat!(#af);
        }
    }

    /// `chain.terminal(...)`
    fn try_chain(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let term = m.method.to_string();
        if !TERMINALS.contains(&term.as_str()) || self.keep.contains(&term) {
            return None;
        }
        let ch = match as_chain(&m.receiver) {
            Some(c) => c,
            None => {
                // an iterator held in a variable: `x.map(..).collect()`
                let mut ad = vec![];
                let mut r: &Expr = &m.receiver;
                loop {
                    match r {
                        Expr::MethodCall(mc) if ADAPTERS.contains(&mc.method.to_string().as_str()) => {
                            ad.insert(0, (mc.method.to_string(), mc.args.first().cloned()));
                            r = &mc.receiver;
                        }
                        _ => break,
                    }
                }
                let closure_arg = matches!(m.args.first(), Some(Expr::Closure(_)));
                if !matches!(r, Expr::Path(_)) || (ad.is_empty() && !closure_arg && term != "collect") {
                    return None;
                }
                Chain { source: r.clone(), adapters: ad }
            }
        };
        if term == "nth" {
            if !ch.adapters.is_empty() {
                return None;
            }
            let src = self.source(&ch.source);
            let mut k = m.args.first()?.clone();
            self.visit_expr_mut(&mut k);
            self.count("iterator .nth()");
            return Some(parse_quote!(vnth(&#src, #k)));
        }
        let save = (self.loops.clone(), self.rewrites.clone(), self.fresh, self.lits.clone());
        let kind: &'static str = TERMINALS.iter().find(|t| **t == term).copied()?;
        let n = self.new_loop(LoopKind::Seq(kind));
        let acc = format_ident!("__a{}", n);
        let tf: Option<Type> = m.turbofish.as_ref().and_then(|t| match t.args.first() { Some(GenericArgument::Type(t)) => Some(t.clone()), _ => None });
        let acct: Option<Type> = self.accs.get(&n).and_then(|t| parse_str(t).ok());
        let rc: Option<(Type, Type)> = if term == "collect" { acct.as_ref().or(tf.as_ref()).and_then(result_args) } else { None };
        let is_rc = rc.is_some();
        if is_rc {
            let _ = self.rcollect.insert(n);
        }
        let src = self.source(&ch.source);
        let item = format_ident!("__x{}", n);
        let mut targ = m.args.first().cloned();
        let mut targ2 = m.args.iter().nth(1).cloned();
        let folds = term == "fold" || term == "try_fold";
        if folds {
            targ = None;
        }
        let acc2 = acc.clone();
        let i = format_ident!("__i{}", n);
        let term2 = term.clone();
        let mut fin = move |d: &mut Desugar, x: Ident| -> Option<TokenStream> {
            if let Some(a) = targ.as_mut() {
                if term2 == "find_map" {
                    opt_try(a);
                }
                d.visit_expr_mut(a);
            }
            Some(match term2.as_str() {
                "collect" if is_rc => {
                    let z = format_ident!("__z{}", n);
                    quote!(match #x { Ok(__ok) => { #acc2.vpush(__ok); } Err(__er) => { #z = Some(__er); break; } })
                }
                "collect" => quote!(#acc2.vpush(#x);),
                "fold" | "try_fold" => {
                    let Some(Expr::Closure(c)) = targ2.as_mut() else { return None };
                    if c.inputs.len() != 2 {
                        return None;
                    }
                    let try_ = term2 == "try_fold";
                    if try_ {
                        let mut tf = TryFold(acc2.clone(), false);
                        tf.visit_expr_mut(&mut c.body);
                        if tf.1 {
                            return None;
                        }
                    }
                    d.visit_expr_mut(&mut c.body);
                    let body = no_return(&c.body)?;
                    let pat = |p: &Pat| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    let (p0, p1) = (pat(&c.inputs[0]), pat(&c.inputs[1]));
                    if try_ {
                        let o = d.fresh();
                        quote!(#acc2 = match #acc2 { Ok(#o) => { let #p0 = #o; let #p1 = #x; #body } Err(__er) => Err(__er) }; if #acc2.is_err() { break; })
                    } else {
                        quote!(#acc2 = { let #p0 = #acc2; let #p1 = #x; #body };)
                    }
                }
                "max" | "min" => {
                    let f = format_ident!("v{}", term2);
                    quote!(#acc2 = Some(match #acc2 { None => #x, Some(__p) => __p.#f(#x) });)
                }
                "count" => quote!(#acc2 = #acc2 + 1;),
                "last" => quote!(#acc2 = Some(#x);),
                "partition" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(&#x));
                    let z = format_ident!("__z{}", n);
                    quote!(if #a { #acc2.vpush(#x); } else { #z.vpush(#x); })
                }
                "for_each" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(#x));
                    quote!(#a;)
                }
                "any" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(#x));
                    quote!(if #a { #acc2 = true; break; })
                }
                "all" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(#x));
                    quote!(if !(#a) { #acc2 = false; break; })
                }
                "find" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(&#x));
                    quote!(if #a { #acc2 = Some(#x); break; })
                }
                "position" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(#x));
                    quote!(if #a { #acc2 = Some(#i - 1); break; })
                }
                "find_map" => {
                    let a = Fun::of(targ.as_ref()?)?.apply(quote!(#x));
                    let o = d.fresh();
                    quote!(let #o = #a; if #o.is_some() { #acc2 = #o; break; })
                }
                _ => return None,
            })
        };
        let body = self.adapt(n, item.clone(), &ch.adapters, &mut fin);
        let Some(body) = body else {
            self.loops = save.0;
            self.rewrites = save.1;
            self.fresh = save.2;
            self.lits = save.3;
            return None;
        };
        let ty: Option<TokenStream> = self.accs.get(&n).and_then(|t| t.parse().ok());
        let init = match term.as_str() {
            "collect" if is_rc => {
                let (mut t, mut e) = rc.clone()?;
                self.visit_type_mut(&mut t);
                self.visit_type_mut(&mut e);
                let z = format_ident!("__z{}", n);
                quote!(let mut #acc: #t = VCollect::vnew(); let mut #z: Option<#e> = None;)
            }
            "collect" => {
                let t = ty.or_else(|| {
                    m.turbofish.as_ref().map(|t| {
                        let mut a = t.args.first().cloned().unwrap();
                        self.visit_generic_argument_mut(&mut a);
                        a.to_token_stream()
                    })
                });
                let t = t.unwrap_or(quote!(Vec<_>));
                quote!(let mut #acc: #t = VCollect::vnew();)
            }
            "partition" => {
                let t = ty.unwrap_or(quote!(Vec<_>));
                let z = format_ident!("__z{}", n);
                quote!(let mut #acc: #t = VCollect::vnew(); let mut #z: #t = VCollect::vnew();)
            }
            "fold" | "try_fold" => {
                let mut a = m.args.first()?.clone();
                self.visit_expr_mut(&mut a);
                if term == "fold" {
                    match ty { Some(t) => quote!(let mut #acc: #t = #a;), None => quote!(let mut #acc = #a;) }
                } else {
                    let t = ty.unwrap_or(quote!(Result<_, _>));
                    quote!(let mut #acc: #t = Ok(#a);)
                }
            }
            "any" => quote!(let mut #acc = false;),
            "all" => quote!(let mut #acc = true;),
            "count" => quote!(let mut #acc: usize = 0;),
            "for_each" => quote!(),
            _ => {
                let t = ty.unwrap_or(quote!(Option<_>));
                quote!(let mut #acc: #t = None;)
            }
        };
        let l = self.loop_text(n, src, item, body);
        self.count(&format!("iterator chain .{term}() to loop"));
        let z = format_ident!("__z{}", n);
        let res = if term == "for_each" { quote!() } else if is_rc { quote!(match #z { None => Ok(#acc), Some(__er) => Err(__er) }) } else if term == "partition" { quote!((#acc, #z)) } else { quote!(#acc) };
        Some(parse_quote!({ #init #l #res }))
    }

    fn option_call(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !OPTS.contains(&name.as_str()) || self.keep.contains(&name) {
            return None;
        }
        let r = &m.receiver;
        let a0 = m.args.first()?;
        let z = |e: &Expr| -> Option<TokenStream> {
            match e {
                Expr::Closure(c) if c.inputs.is_empty() && !has_control(&c.body) => {
                    let b = &c.body;
                    Some(quote!(#b))
                }
                Expr::Path(p) => Some(quote!(#p())),
                _ => None,
            }
        };
        let x = self.fresh();
        let out: Expr = match name.as_str() {
            "map" => {
                let b = Fun::of(a0)?.apply(quote!(#x));
                parse_quote!(match #r { Some(#x) => Some(#b), None => None })
            }
            // a Result made by ok_or or map_err, and a closure of the form |x| Ok(e?)
            "and_then" if matches!(&**r, Expr::MethodCall(q) if ["ok_or", "ok_or_else", "map_err"].contains(&q.method.to_string().as_str())) || matches!(a0, Expr::Closure(c) if ok_try(&c.body).is_some()) => {
                let Expr::Closure(c) = a0 else { return None };
                let e = ok_try(&c.body)?;
                if c.inputs.len() != 1 || has_control(e) {
                    return None;
                }
                let p = &c.inputs[0];
                let y = self.fresh();
                parse_quote!(match #r { Ok(#p) => match #e { Ok(#y) => Ok(#y), Err(#y) => Err(From::from(#y)) }, Err(#y) => Err(#y) })
            }
            "and_then" => {
                let b = Fun::of(a0)?.apply(quote!(#x));
                parse_quote!(match #r { Some(#x) => #b, None => None })
            }
            "is_some_and" => {
                let b = Fun::of(a0)?.apply(quote!(#x));
                parse_quote!(match #r { Some(#x) => #b, None => false })
            }
            "is_none_or" => {
                let b = Fun::of(a0)?.apply(quote!(#x));
                parse_quote!(match #r { Some(#x) => #b, None => true })
            }
            "filter" => {
                let b = Fun::of(a0)?.apply(quote!(&#x));
                parse_quote!(match #r { Some(#x) => if #b { Some(#x) } else { None }, None => None })
            }
            "inspect" => {
                let b = Fun::of(a0)?.apply(quote!(&#x));
                parse_quote!(match #r { Some(#x) => { #b; Some(#x) }, None => None })
            }
            "map_or" => {
                let b = Fun::of(m.args.iter().nth(1)?)?.apply(quote!(#x));
                let d = self.fresh();
                parse_quote!({ let #d = #a0; match #r { Some(#x) => #b, None => #d } })
            }
            "map_or_else" => {
                let b = Fun::of(m.args.iter().nth(1)?)?.apply(quote!(#x));
                let d = z(a0)?;
                parse_quote!(match #r { Some(#x) => #b, None => #d })
            }
            "unwrap_or_else" => {
                let d = z(a0)?;
                parse_quote!(match #r { Some(#x) => #x, None => #d })
            }
            "or_else" => {
                let d = z(a0)?;
                parse_quote!(match #r { Some(#x) => Some(#x), None => #d })
            }
            "ok_or" => {
                let d = self.fresh();
                parse_quote!({ let #d = #a0; match #r { Some(#x) => Ok(#x), None => Err(#d) } })
            }
            "ok_or_else" => {
                let d = z(a0)?;
                parse_quote!(match #r { Some(#x) => Ok(#x), None => Err(#d) })
            }
            "map_err" => {
                let b = Fun::of(a0)?.apply(quote!(#x));
                parse_quote!(match #r { Ok(__ok) => Ok(__ok), Err(#x) => Err(#b) })
            }
            _ => return None,
        };
        self.count(&format!("combinator .{name}() to match"));
        Some(out)
    }

    fn is_const(&self, p: &Path) -> bool {
        p.segments.last().is_some_and(|s| self.consts.contains(&s.ident.to_string()))
    }

    fn lit_pats(&mut self, p: &mut Pat, guards: &mut Vec<TokenStream>) {
        struct V<'a> {
            d: &'a mut Desugar,
            guards: &'a mut Vec<TokenStream>,
        }
        impl VisitMut for V<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                match p {
                    Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                        let x = self.d.fresh();
                        let _ = self.d.lits.insert(s.to_token_stream().to_string());
                        self.guards.push(quote!(#x.veqs(lit(#s))));
                        *p = parse_quote!(#x);
                    }
                    Pat::Ident(i) if i.subpat.is_none() && self.d.consts.contains(&i.ident.to_string()) => {
                        let c = i.ident.clone();
                        let x = self.d.fresh();
                        self.guards.push(quote!(#x.veqs(#c())));
                        *p = parse_quote!(#x);
                    }
                    Pat::Path(pp) if self.d.is_const(&pp.path) => {
                        let c = pp.path.segments.last().unwrap().ident.clone();
                        let x = self.d.fresh();
                        self.guards.push(quote!(#x.veqs(#c())));
                        *p = parse_quote!(#x);
                    }
                    _ => visit_mut::visit_pat_mut(self, p),
                }
            }
        }
        V { d: self, guards }.visit_pat_mut(p);
    }
}

/// Result<C, E> -> (C, E)
fn result_args(t: &Type) -> Option<(Type, Type)> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "Result" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let v: Vec<Type> = a.args.iter().filter_map(|a| match a { GenericArgument::Type(t) => Some(t.clone()), _ => None }).collect();
    let e: Type = v.get(1).cloned().unwrap_or(parse_quote!(_));
    Some((v.first()?.clone(), e))
}

fn has_str_pat(p: &Pat, consts: &BTreeSet<String>) -> bool {
    struct V<'a>(bool, &'a BTreeSet<String>);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_pat(&mut self, p: &'a Pat) {
            match p {
                Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => self.0 = true,
                Pat::Ident(i) if self.1.contains(&i.ident.to_string()) => self.0 = true,
                Pat::Path(pp) if pp.path.segments.last().is_some_and(|s| self.1.contains(&s.ident.to_string())) => self.0 = true,
                _ => visit::visit_pat(self, p),
            }
        }
    }
    use syn::visit;
    let mut v = V(false, consts);
    v.visit_pat(p);
    v.0
}

const PRIMS: &[&str] = &["usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "char", "str"];

impl VisitMut for Desugar {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // names declared for this unit
        PATHS.with(|m| {
            for (from, to) in m.borrow().iter() {
                if p.segments.len() >= from.len() && p.segments.iter().zip(from).all(|(s, f)| s.ident == f.as_str()) {
                    let mut segs: Vec<PathSegment> = p.segments.iter().skip(from.len() - 1).cloned().collect();
                    segs[0].ident = Ident::new(to, segs[0].ident.span());
                    p.segments = segs.into_iter().collect();
                    p.leading_colon = None;
                    return;
                }
            }
        });
        // drop module prefixes
        while p.segments.len() > 1 {
            let s = p.segments[0].ident.to_string();
            let first = s.chars().next().unwrap_or('A');
            if (first.is_lowercase() || s == "crate" || s == "self" || s == "super") && !PRIMS.contains(&s.as_str()) {
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                p.segments = rest.into_iter().collect();
                p.leading_colon = None;
            } else {
                break;
            }
        }
        if p.segments.len() == 1 && p.segments[0].ident == "str" {
            p.segments[0].ident = format_ident!("String");
        }
    }

    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if let Some(r) = s.strip_prefix("r#") {
            *i = format_ident!("{}_", r);
        }
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Slice(s) = t {
            let e = &s.elem;
            *t = parse_quote!(Vec<#e>);
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // statement-level rewrites
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    match n.as_str() {
                        "trace" | "debug" | "info" | "warn" | "error" | "println" | "eprintln" | "log_error" | "log_warn" | "log_info" | "log_success" => {
                            self.count("logging/printing statement dropped");
                        }
                        _ => {
                            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                            out.push(Stmt::Expr(e, m.semi_token.or_else(|| Some(Default::default())).filter(|_| m.semi_token.is_some())));
                        }
                    }
                }
                Stmt::Expr(Expr::Assign(a), Some(_)) if matches!(*a.left, Expr::Infer(_)) => {
                    let r = a.right;
                    self.count("`_ = e` to `let _ = e`");
                    out.push(parse_quote!(let _ = #r;));
                }
                Stmt::Local(mut l) => {
                    l.attrs.clear();
                    if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
                        if let Expr::MethodCall(m) = &mut *init.expr {
                            if m.method == "collect" && m.turbofish.is_none() && m.args.is_empty() {
                                let t = &pt.ty;
                                m.turbofish = Some(parse_quote!(::<#t>));
                            }
                        }
                    }
                    let name = match &l.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None };
                    if let (Some(n), Some(init)) = (name, &mut l.init) {
                        if let Expr::Closure(c) = &mut *init.expr {
                            if let Some(t) = self.closure_types.get(&n) {
                                if matches!(c.output, ReturnType::Default) {
                                    if let Ok(t) = syn::parse_str::<Type>(t) {
                                        let b = &c.body;
                                        let nb: Expr = parse_quote!({ #b });
                                        c.output = parse_quote!(-> #t);
                                        c.body = Box::new(nb);
                                    }
                                }
                            }
                            if let (ReturnType::Type(..), Expr::Block(b)) = (&c.output, &mut *c.body) {
                                b.block.stmts.insert(0, parse_quote!(__vclosure!(#n);));
                                self.closures.push(n);
                            }
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Struct(mut st)) => {
                    st.attrs.clear();
                    st.vis = parse_quote!(pub);
                    for f in st.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                    }
                    let mut it = Item::Struct(st);
                    Desugar::for_types().visit_item_mut(&mut it);
                    self.count("local struct hoisted");
                    self.hoisted.push(it);
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        // string literals in patterns become guards
        let consts = self.consts.clone();
        if m.arms.iter().any(|a| has_str_pat(&a.pat, &consts)) {
            self.count("string pattern to guard");
            let mut arms = vec![];
            for a in m.arms.drain(..) {
                let alts: Vec<Pat> = match &a.pat {
                    Pat::Or(o) if has_str_pat(&a.pat, &consts) => o.cases.iter().cloned().collect(),
                    p => vec![p.clone()],
                };
                for p in alts {
                    let mut arm = a.clone();
                    let mut p = p;
                    let mut guards = vec![];
                    self.lit_pats(&mut p, &mut guards);
                    arm.pat = p;
                    if !guards.is_empty() {
                        if let Some((_, g)) = &arm.guard {
                            guards.push(quote!((#g)));
                        }
                        let g: Expr = parse_quote!(#(#guards)&&*);
                        arm.guard = Some((Default::default(), Box::new(g)));
                    }
                    arms.push(arm);
                }
            }
            m.arms = arms;
        }
        visit_mut::visit_expr_match_mut(self, m);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.types_only {
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        // x.iter_mut().find(f): the place where f holds, then the element there
        if let Expr::MethodCall(m) = e {
            if let (true, 1, Expr::MethodCall(r)) = (m.method == "find", m.args.len(), &*m.receiver) {
                if r.method == "iter_mut" && matches!(&*r.receiver, Expr::Path(_) | Expr::Field(_)) {
                    let (x, f, i) = (&r.receiver, &m.args[0], self.fresh());
                    let mut n: Expr = parse_quote!(match #x.iter().position(#f) { Some(#i) => Some(#x.vat_mut(#i)), None => None });
                    self.count(".iter_mut().find() to .position() and element access");
                    self.visit_expr_mut(&mut n);
                    *e = n;
                    return;
                }
            }
            // x.get_or_insert_with(T::new): the value made before is the same
            if m.method == "get_or_insert_with" && m.args.len() == 1 {
                if let Expr::Path(p) = &m.args[0] {
                    let p = p.clone();
                    m.method = format_ident!("vget_or_insert");
                    m.args[0] = parse_quote!(#p());
                    self.count(".get_or_insert_with(T::new)");
                }
            }
        }
        if let Expr::Match(m) = e {
            if let Some(mut n) = slice_match(m) {
                self.count("match on slice patterns to comparison of lengths");
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        // `a &= b`, `a |= b` (both sides are evaluated; a trait of the prelude gives them meaning on bool)
        if let Expr::Binary(b) = e {
            let f = match b.op {
                BinOp::BitAndAssign(_) => Some(format_ident!("vband")),
                BinOp::BitOrAssign(_) => Some(format_ident!("vbor")),
                _ => None,
            };
            if let Some(f) = f {
                self.count("`&=`, `|=` to assignments");
                let (l, r) = (&b.left, &b.right);
                let mut n: Expr = parse_quote!({ let __v = #r; #l = #f(#l, __v); });
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        // `chain.unique()`: collect, then keep the first of each
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" {
                if let Expr::MethodCall(ch) = &*m.receiver {
                    if ch.method == "chain" && ch.args.len() == 1 && as_chain(&ch.receiver).is_some() && as_chain(&ch.args[0]).is_some() {
                        self.count(".chain().collect() to collect and extend");
                        let (a, b) = (&ch.receiver, &ch.args[0]);
                        let v = format_ident!("__c{}", self.fresh);
                        self.fresh += 1;
                        let mut n: Expr = parse_quote!({ let mut #v = #a.collect::<Vec<_>>(); #v.extend(#b); #v });
                        self.visit_expr_mut(&mut n);
                        *e = n;
                        return;
                    }
                }
            }
            if m.method == "unique" && m.args.is_empty() && as_chain(&m.receiver).is_some() {
                let r = &m.receiver;
                self.count(".unique() to a call on the collected sequence");
                *e = parse_quote!((#r.collect::<Vec<_>>()).vunique());
            }
        }
        // pre-order: chains, for loops, macros
        if let Some(n) = self.try_chain(e) {
            *e = n;
            return;
        }
        match e {
            Expr::ForLoop(f) => {
                let pat = (*f.pat).clone();
                // range
                let mut src = (*f.expr).clone();
                if let Expr::Paren(p) = &src {
                    src = (*p.expr).clone();
                }
                if let Expr::Range(r) = &src {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        let n = self.new_loop(LoopKind::Range);
                        let (mut a, mut b) = ((**a).clone(), (**b).clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        let mut body = f.body.clone();
                        self.visit_block_mut(&mut body);
                        let st = unit_stmts(&body);
                        let (i, en, be) = (format_ident!("__i{}", n), format_ident!("__e{}", n), format_ident!("__b{}", n));
                        let nl = Lit::Int(LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
                        let (s0, s1, s2) = (format!("loop{n}.start"), format!("loop{n}.end"), format!("loop{n}.after"));
                        self.count("range for loop to while loop");
                        *e = parse_quote!({
                            let #be = #a; let #en = #b; let mut #i = #be;
                            while #i < #en { __vloop!(#nl); let #pat = #i; #i = #i + 1; __vat!(#s0); #st __vat!(#s1); }
                            __vat!(#s2);
                        });
                        return;
                    }
                }
                if let Some((recv, kind)) = mut_source(&src) {
                    let mut recv = recv;
                    let n = self.new_loop(if kind == "iter_mut" { LoopKind::Mut } else { LoopKind::Seq("values_mut") });
                    self.visit_expr_mut(&mut recv);
                    let mut body = f.body.clone();
                    self.visit_block_mut(&mut body);
                    let st = unit_stmts(&body);
                    self.count("in-place loop to indexed while loop");
                    if kind == "iter_mut" {
                        let (i, en) = (format_ident!("__i{}", n), format_ident!("__n{}", n));
                        let nl = Lit::Int(LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
                        let (s0, s1, s2) = (format!("loop{n}.start"), format!("loop{n}.end"), format!("loop{n}.after"));
                        *e = parse_quote!({
                            let #en = #recv.len(); let mut #i: usize = 0;
                            while #i < #en { __vloop!(#nl); __vat!(#s0); let #pat = #recv.vat_mut(#i); #i = #i + 1; #st __vat!(#s1); }
                            __vat!(#s2);
                        });
                    } else {
                        let item = format_ident!("__x{}", n);
                        let body = quote!(let #pat = #recv.vat_key_mut(&#item); #st);
                        let l = self.loop_text(n, quote!(#recv.vkeys_owned()), item, body);
                        *e = parse_quote!({ #l });
                    }
                    return;
                }
                let n = self.new_loop(LoopKind::Seq("for"));
                let (pat, derefs) = strip_refs(pat);
                let item = format_ident!("__x{}", n);
                let (srct, adapters) = match as_chain(&src) {
                    Some(c) => (self.source(&c.source), c.adapters),
                    None => {
                        let mut s = src.clone();
                        self.visit_expr_mut(&mut s);
                        (quote!((#s).vinto()), vec![])
                    }
                };
                let mut fbody = f.body.clone();
                let mut fin = move |d: &mut Desugar, x: Ident| -> Option<TokenStream> {
                    d.visit_block_mut(&mut fbody);
                    let st = unit_stmts(&fbody);
                    Some(quote!(let #pat = #x; #derefs #st))
                };
                match self.adapt(n, item.clone(), &adapters, &mut fin) {
                    Some(b) => {
                        let l = self.loop_text(n, srct, item, b);
                        self.count("for loop to indexed while loop");
                        *e = parse_quote!({ #l });
                    }
                    None => self.error = Some("unsupported iterator chain in for loop".into()),
                }
                return;
            }
            Expr::While(w) => {
                let n = self.new_loop(LoopKind::While);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                mark(&mut w.body, n);
                let s2 = format!("loop{n}.after");
                let w = w.clone();
                *e = parse_quote!({ #w __vat!(#s2); });
                return;
            }
            Expr::Loop(w) => {
                let n = self.new_loop(LoopKind::Loop);
                self.visit_block_mut(&mut w.body);
                mark(&mut w.body, n);
                return;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                match name.as_str() {
                    "format" => {
                        self.count("format!() to unconstrained string");
                        if self.fmt {
                            if let Some(x) = concat_of(&m.mac.tokens) {
                                self.count("format!() of plain placeholders to concatenation");
                                *e = x;
                                visit_mut::visit_expr_mut(self, e);
                                return;
                            }
                        }
                        // arguments with effects are evaluated
                        let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.mac.tokens.clone()).map(|p| p.into_iter().collect::<Vec<_>>()).unwrap_or_default();
                        let mut pre: Vec<Expr> = args.into_iter().skip(1).filter(has_effect).collect();
                        for x in pre.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        *e = if pre.is_empty() { parse_quote!(vformat()) } else { parse_quote!({ #(let _ = #pre;)* vformat() }) };
                        return;
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        *e = parse_quote!(vunreachable());
                        return;
                    }
                    "json" => {
                        let parser = |i: parse::ParseStream| -> Result<Vec<(Expr, Expr)>> {
                            let c;
                            let _ = braced!(c in i);
                            let mut v = vec![];
                            while !c.is_empty() {
                                let k: Expr = c.parse()?;
                                let _: Token![:] = c.parse()?;
                                let x: Expr = c.parse()?;
                                let _: Option<Token![,]> = c.parse()?;
                                v.push((k, x));
                            }
                            Ok(v)
                        };
                        if let Ok(kv) = parser.parse2(m.mac.tokens.clone()) {
                            self.count("json!({..}) to an object built key by key");
                            let mut n: Expr = parse_quote!(vjson_new());
                            for (k, x) in kv {
                                n = parse_quote!(vjson_put(#n, #k, (#x).vjson()));
                            }
                            n = parse_quote!(vjson_obj(#n));
                            self.visit_expr_mut(&mut n);
                            *e = n;
                        }
                        return;
                    }
                    "matches" => {
                        let parser = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                            let ex: Expr = i.parse()?;
                            let _: Token![,] = i.parse()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) {
                                let _: Token![if] = i.parse()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _: Option<Token![,]> = i.parse()?;
                            Ok((ex, p, g))
                        };
                        if let Ok((x, p, g)) = parser.parse2(m.mac.tokens.clone()) {
                            self.count("matches!() to match");
                            let g = g.map(|g| quote!(if #g));
                            let mut n: Expr = parse_quote!(match #x { #p #g => true, _ => false });
                            self.visit_expr_mut(&mut n);
                            *e = n;
                        }
                        return;
                    }
                    "vec" => {
                        if let Ok(items) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.mac.tokens.clone()) {
                            let mut items: Vec<Expr> = items.into_iter().collect();
                            for x in items.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            m.mac.tokens = quote!(#(#items),*);
                        }
                        return;
                    }
                    "__vloop" | "__vat" => return,
                    _ => return,
                }
            }
            Expr::MethodCall(m) if m.method == "retain" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(_)) && !self.keep.contains("retain") => {
                let dst = m.receiver.clone();
                let mut c = match &m.args[0] { Expr::Closure(c) => c.clone(), _ => return };
                if c.inputs.len() == 2 {
                    let (a, b) = (c.inputs[0].clone(), c.inputs[1].clone());
                    c.inputs = Punctuated::new();
                    c.inputs.push(parse_quote!((#a, #b)));
                }
                self.count(".retain() to filtered copy");
                let mut n: Expr = parse_quote!({ #dst = #dst.clone().into_iter().filter(#c).collect(); });
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            Expr::MethodCall(m) if m.method == "for_each" && mut_source(&m.receiver).is_some() && matches!(m.args.first(), Some(Expr::Closure(c)) if c.inputs.len() == 1) => {
                let (src, c) = ((*m.receiver).clone(), match &m.args[0] { Expr::Closure(c) => c.clone(), _ => return });
                let (p, b) = (c.inputs[0].clone(), (*c.body).clone());
                let mut n: Expr = parse_quote!(for #p in #src { #b; });
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" | "sort_by_cached_key") && self.sorts.contains_key(&self.nsort) => {
                let claim: Expr = match parse_str(&self.sorts[&self.nsort]) { Ok(c) => c, Err(x) => { self.error = Some(format!("sort claim: {x}")); return; } };
                let at = format!("sort{}", self.nsort);
                let ct = self.sorts[&self.nsort].clone();
                self.nsort += 1;
                self.count("sort to: sorted permutation; comparator checked against the claimed order on arbitrary elements");
                let name = m.method.to_string();
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                let check: TokenStream = if name == "sort" || name == "sort_unstable" {
                    { let _ = self.sort_checks.insert(at.clone(), format!("assert({ct}(*__p, *__q) == __p.vsle(__q));")); quote!(__vat!(#at);) }
                } else {
                    let Some(Expr::Closure(c)) = m.args.first() else { self.error = Some("sort: no closure".into()); return; };
                    let mut c = c.clone();
                    for p in c.inputs.iter_mut() { if let Pat::Type(t) = p { *p = (*t.pat).clone(); } }
                    let b = &mut *c.body;
                    self.visit_expr_mut(b);
                    let b = &*b;
                    if name.contains("key") {
                        let p = &c.inputs[0];
                        let _ = self.sort_checks.insert(at.clone(), format!("assert({ct}(*__p, *__q) == __k1.vsle(&__k2));"));
                        quote!(let __k1 = { let #p = __p; #b }; let __k2 = { let #p = __q; #b }; __vat!(#at);)
                    } else {
                        let (p, q) = (&c.inputs[0], &c.inputs[1]);
                        let _ = self.sort_checks.insert(at.clone(), format!("assert({ct}(*__p, *__q) == (__o != core::cmp::Ordering::Greater));"));
                        quote!(let __o = { let #p = __p; let #q = __q; #b }; __vat!(#at);)
                    }
                };
                let (bf, af) = (format!("{at}.before"), format!("{at}.after"));
                *e = parse_quote!({ { let __p = #recv.vany(); let __q = #recv.vany(); #check } __vat!(#bf); #recv.vsort_by(Ghost(|__l, __r| #claim(__l, __r))); __vat!(#af); });
                return;
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" | "sort_by_cached_key") && !self.keep.contains(&m.method.to_string()) => {
                self.nsort += 1;
                self.count("sort to: some permutation");
                m.method = format_ident!("vsort");
                m.args.clear();
            }
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 && !self.keep.contains("extend") => {
                let dst = m.receiver.clone();
                let arg = m.args[0].clone();
                self.count(".extend() to loop");
                let x = self.fresh();
                let mut n: Expr = if matches!(*dst, Expr::MethodCall(_)) {
                    let r = format_ident!("__r{}", self.loops.len());
                    parse_quote!({ let #r = #dst; for #x in #arg { #r.vpush(#x); } })
                } else {
                    parse_quote!(for #x in #arg { #dst.vpush(#x); })
                };
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let _ = self.lits.insert(s.to_token_stream().to_string());
                *e = parse_quote!(lit(#s));
            }
            Expr::Path(p) if p.qself.is_none() && self.is_const(&p.path) => {
                let n = p.path.segments.last().unwrap().ident.clone();
                *e = parse_quote!(#n());
            }
            Expr::Reference(r) => {
                // &[] / &*x pass through
                r.attrs.clear();
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.keep.contains(&name) {
                    // a constructor given as a function: a closure whose result is known to be what it makes
                    for (i, a) in m.args.iter_mut().enumerate() {
                        let Expr::Path(p) = &*a else { continue };
                        let ctor = p.path.segments.len() > 1 && p.path.segments.last().is_some_and(|s| s.ident.to_string().starts_with(char::is_uppercase));
                        if !ctor {
                            continue;
                        }
                        let occ = self.call_occ.entry(name.clone()).or_insert(0);
                        let key = format!("{name}.{occ}.{i}");
                        *occ += 1;
                        let Some(t) = self.closure_types.get(&key).and_then(|t| syn::parse_str::<Type>(t).ok()) else { continue };
                        let p = p.path.clone();
                        *a = parse_quote!(|__c| -> #t { __vclosure!(#key); #p(__c) });
                        self.closures.push(key);
                    }
                    return;
                }
                if let Expr::MethodCall(inner) = &*m.receiver {
                    if inner.method == "entry" && inner.args.len() == 1 {
                        let (r, k) = (&inner.receiver, &inner.args[0]);
                        let new: Option<Expr> = match (name.as_str(), m.args.first()) {
                            ("or_default", _) => Some(parse_quote!(#r.ventry_or_default(#k))),
                            ("or_insert", Some(a)) => Some(parse_quote!(#r.ventry_or_insert(#k, #a))),
                            ("or_insert_with", Some(Expr::Closure(c))) if c.inputs.is_empty() && !has_control(&c.body) => {
                                let b = &c.body;
                                Some(parse_quote!(#r.ventry_or_insert(#k, #b)))
                            }
                            ("or_insert_with", Some(Expr::Path(p))) => {
                                let p = p.to_token_stream().to_string().replace(' ', "");
                                if p == "Vec::new" {
                                    Some(parse_quote!(#r.ventry_or_insert(#k, Vec::new())))
                                } else if p.ends_with("::new") || p.ends_with("::default") {
                                    Some(parse_quote!(#r.ventry_or_default(#k)))
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        };
                        if let Some(n) = new {
                            self.count("map entry() call to one call");
                            *e = n;
                            return;
                        }
                    }
                }
                match name.as_str() {
                    "then" if m.args.len() == 1 => {
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.is_empty() && !has_control(&c.body) {
                                let (r, b) = (&m.receiver, &c.body);
                                *e = parse_quote!(if #r { Some(#b) } else { None });
                            }
                        }
                    }
                    "clone" | "to_owned" => m.method = format_ident!("vclone"),
                    "expect" => {
                        m.method = format_ident!("vunwrap");
                        m.args.clear();
                    }
                    "unwrap" => m.method = format_ident!("vunwrap"),
                    "as_deref" => m.method = format_ident!("vas_deref"),
                    "unwrap_or_default" => m.method = format_ident!("vunwrap_or_default"),
                    "cloned" | "copied" => m.method = format_ident!("vcloned"),
                    "iter" => m.method = format_ident!("viter"),
                    "then_some" => m.method = format_ident!("vthen_some"),
                    "drain" if m.args.len() == 1 && matches!(&m.args[0], Expr::Range(r) if r.start.is_none() && r.end.is_none()) => {
                        m.method = format_ident!("vdrain");
                        m.args.clear();
                    }
                    "flatten" if m.args.is_empty() => m.method = format_ident!("vflatten"),
                    "as_slice" => m.method = format_ident!("vas_slice"),
                    "max" if m.args.len() == 1 => m.method = format_ident!("vmax"),
                    "min" if m.args.len() == 1 => m.method = format_ident!("vmin"),
                    "contains" => m.method = format_ident!("vcontains"),
                    "clone_from" => {
                        let r = &m.receiver;
                        let a = &m.args[0];
                        self.count(".clone_from() to assignment");
                        *e = parse_quote!(#r = (#a).vclone());
                    }
                    _ => {
                        let mm = m.clone();
                        if let Some(n) = self.option_call(&mm) {
                            *e = n;
                        }
                    }
                }
            }
            Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                if s == "Default::default" {
                    c.func = parse_quote!(VDefault::vdefault);
                } else if let Some((n, a)) = match &*c.func {
                    // f(a)(b): a function that returns a function is declared with all its arguments
                    Expr::Call(i) => match &*i.func {
                        Expr::Path(p) => p.path.get_ident().map(|n| (n.clone(), i.args.clone())),
                        _ => None,
                    },
                    _ => None,
                } {
                    let n = format_ident!("vcurried_{n}");
                    let b = &c.args;
                    *e = if a.is_empty() { parse_quote!(#n(#b)) } else { parse_quote!(#n(#a, #b)) };
                } else if s == "String::new" {
                    c.func = parse_quote!(vstring_new);
                } else if s == "String::from" && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!((#a).vclone());
                } else if c.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                    // closures given to a function under contract: `//@closure callee.call.argument`
                    let occ = self.call_occ.entry(s.clone()).or_insert(0);
                    let call = *occ;
                    *occ += 1;
                    for (i, a) in c.args.iter_mut().enumerate() {
                        let Expr::Closure(cl) = a else { continue };
                        let key = format!("{s}.{call}.{i}");
                        let Some(t) = self.closure_types.get(&key) else { continue };
                        let Ok(t) = syn::parse_str::<Type>(t) else { continue };
                        let b = &cl.body;
                        let nb: Expr = parse_quote!({ __vclosure!(#key); #b });
                        cl.output = parse_quote!(-> #t);
                        cl.body = Box::new(nb);
                        self.closures.push(key);
                    }
                }
            }
            _ => {}
        }
    }
}

fn unit_stmts(b: &Block) -> TokenStream {
    let mut out = TokenStream::new();
    for s in &b.stmts {
        match s {
            Stmt::Expr(e, None) => out.extend(quote!(#e;)),
            s => out.extend(s.to_token_stream()),
        }
    }
    out
}

fn mark(b: &mut Block, n: usize) {
    let nl = Lit::Int(LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
    let (s0, s1) = (format!("loop{n}.start"), format!("loop{n}.end"));
    let st = unit_stmts(b);
    *b = parse_quote!({ __vloop!(#nl); __vat!(#s0); #st __vat!(#s1); });
}

// ---------------------------------------------------------------------------------------
/// Inlines calls to helpers of the same file that have no contract in the unit.
pub struct Inliner<'a> {
    pub items: &'a [Item],
    pub self_ty: Option<String>,
    pub known: &'a BTreeSet<String>,
    pub depth: usize,
    pub inlined: Vec<String>,
    pub current: String,
}

/// Replaces the statement-calls of a closure that changes what it captures (`let mut f = |a, b| {..};`) by its body.
pub struct MutClosures;
impl VisitMut for MutClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            if let Some((name, params, body)) = mut_closure(&b.stmts[k]) {
                let mut body_ids = Ids(BTreeSet::new());
                body_ids.tokens(body.to_token_stream());
                let mut bound = Bound(BTreeSet::new());
                for s in &mut b.stmts[k + 1..] {
                    bound.visit_stmt_mut(s);
                }
                let mut own = Bound(BTreeSet::new());
                for q in &params {
                    own.visit_pat_mut(&mut q.clone());
                }
                let clash = bound.0.iter().any(|n| body_ids.0.contains(n) && !own.0.contains(n));
                let mut uses = CallUses { name: name.clone(), params, body, other: false, n: 0, apply: false };
                for s in &mut b.stmts[k + 1..] {
                    uses.visit_stmt_mut(s);
                }
                if !clash && !uses.other && uses.n > 0 {
                    uses.apply = true;
                    for s in &mut b.stmts[k + 1..] {
                        uses.visit_stmt_mut(s);
                    }
                    let _ = b.stmts.remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }
}
fn mut_closure(s: &Stmt) -> Option<(Ident, Vec<Pat>, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let Pat::Ident(i) = &l.pat else { return None };
    let Expr::Closure(c) = &*l.init.as_ref()?.expr else { return None };
    // a closure that changes something: it is `mut`, or is handed a `&mut`
    if i.mutability.is_none() && !c.inputs.iter().any(|p| mut_param(p).is_some()) {
        return None;
    }
    if c.capture.is_some() {
        return None;
    }
    Some((i.ident.clone(), c.inputs.iter().cloned().collect(), no_return(&c.body)?))
}
/// the name of a parameter `p: &mut T`
fn mut_param(p: &Pat) -> Option<Ident> {
    let Pat::Type(t) = p else { return None };
    let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) else { return None };
    r.mutability.map(|_| i.ident.clone())
}
/// the variable of an argument `&mut x`
fn mut_arg(e: &Expr) -> Option<Ident> {
    let Expr::Reference(r) = e else { return None };
    let _ = r.mutability?;
    if let Expr::Path(p) = &*r.expr { p.path.get_ident().cloned() } else { None }
}
struct Rename(Ident, Ident);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.0 {
            *i = self.1.clone();
        }
    }
}
struct Ids(BTreeSet<String>);
impl Ids {
    fn tokens(&mut self, t: TokenStream) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    let _ = self.0.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
        }
    }
}
struct Bound(BTreeSet<String>);
impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let _ = self.0.insert(p.ident.to_string());
        visit_mut::visit_pat_ident_mut(self, p);
    }
}
struct CallUses {
    name: Ident,
    params: Vec<Pat>,
    body: Expr,
    other: bool,
    n: usize,
    apply: bool,
}
impl VisitMut for CallUses {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::Call(c), Some(_)) = s {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.params.len() {
                self.n += 1;
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if self.apply {
                    let mut body = self.body.clone();
                    // `&mut x` for a parameter: the body works on x itself
                    let (p, a): (Vec<&Pat>, Vec<&Expr>) = self.params.iter().zip(c.args.iter()).filter(|(p, a)| match (mut_param(p), mut_arg(a)) {
                        (Some(p), Some(a)) => { if p != a { Rename(p, a).visit_expr_mut(&mut body); } false }
                        _ => true,
                    }).unzip();
                    let st = match &body {
                        Expr::Block(b) => unit_stmts(&b.block),
                        e => quote!(#e;),
                    };
                    // parameters are bound all at once, after every argument is evaluated
                    let pats: Vec<TokenStream> = p.iter().map(|q| match *q { Pat::Type(t) => t.pat.to_token_stream(), q => q.to_token_stream() }).collect();
                    let tys: Vec<TokenStream> = p.iter().map(|q| match *q { Pat::Type(t) => t.ty.to_token_stream(), _ => quote!(_) }).collect();
                    *s = parse_quote!({ let (#(#pats,)*): (#(#tys,)*) = (#(#a,)*); #st });
                }
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident(&self.name) {
            self.other = true;
        }
    }
}

fn block_has_control(b: &Block) -> bool {
    has_control(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: b.clone() }))
}

impl Inliner<'_> {
    fn body(&mut self, path: &str, args: &[Expr], recv: Option<&Expr>) -> Option<Expr> {
        if self.depth >= 3 {
            return None;
        }
        let name = path.rsplit("::").next().unwrap().to_owned();
        if self.known.contains(&name) || name == self.current {
            return None;
        }
        let f = find_fn(self.items, path)?;
        if f.sig.asyncness.is_some() {
            return None;
        }
        let mut fblock = f.block.clone();
        if block_has_control(&fblock) {
            fblock.stmts = elim_returns(&fblock.stmts)?;
            if block_has_control(&fblock) {
                return None;
            }
        }
        let generic = f.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Type(_)));
        let mut pats = vec![];
        let mut tys = vec![];
        let mut vals: Vec<Expr> = vec![];
        let mut ai = args.iter();
        let mut rename_self = false;
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let rv = recv.cloned().or_else(|| ai.next().cloned())?;
                    let is_self = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        rename_self = true;
                        pats.push(quote!(__self));
                        tys.push(quote!(_));
                        let rv: Expr = if r.reference.is_none() { rv } else if r.mutability.is_some() { parse_quote!(&mut #rv) } else { parse_quote!(&#rv) };
                        vals.push(rv);
                    }
                }
                FnArg::Typed(t) => {
                    pats.push(t.pat.to_token_stream());
                    let mut ty = (*t.ty).clone();
                    strip_lifetimes(&mut ty);
                    if matches!(*t.ty, Type::ImplTrait(_)) || generic {
                        tys.push(quote!(_));
                    } else {
                        tys.push(ty.to_token_stream());
                    }
                    vals.push(ai.next().cloned()?);
                }
            }
        }
        let mut block = fblock;
        for s in block.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                l.attrs.clear();
            }
        }
        if rename_self {
            struct R;
            impl VisitMut for R {
                fn visit_ident_mut(&mut self, i: &mut Ident) {
                    if i == "self" {
                        *i = format_ident!("__self");
                    }
                }
            }
            R.visit_block_mut(&mut block);
        }
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        self.inlined.push(path.to_owned());
        let st = &block.stmts;
        Some(match pats.len() {
            0 => parse_quote!({ #(#st)* }),
            1 => {
                let (p, t, v) = (&pats[0], &tys[0], &vals[0]);
                parse_quote!({ let #p: #t = #v; #(#st)* })
            }
            _ => parse_quote!({ let (#(#pats),*): (#(#tys),*) = (#(#vals),*); #(#st)* }),
        })
    }
}

fn strip_lifetimes(t: &mut Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    V.visit_type_mut(t);
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let repl = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if segs.len() == 1 {
                        self.body(&segs[0], &args, None)
                    } else if segs.len() == 2 && (segs[0] == "Self" || Some(&segs[0]) == self.self_ty.as_ref()) {
                        let t = self.self_ty.clone();
                        t.and_then(|t| self.body(&format!("{t}::{}", segs[1]), &args, None))
                    } else if segs.len() == 2 && segs[0] == "self" {
                        self.body(&segs[1], &args, None)
                    } else {
                        None
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    let recv = (*m.receiver).clone();
                    let name = m.method.to_string();
                    let t = self.self_ty.clone();
                    t.and_then(|t| self.body(&format!("{t}::{name}"), &args, Some(&recv)))
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(r) = repl {
            *e = r;
        }
    }
}

#[allow(dead_code)]
fn _unused(i: &[Item]) {
    let _ = all_items(i);
    let _ = type_name;
}

/// `(&a, b)` becomes `(a, b)` followed by `let a = *a;`
fn strip_refs(mut pat: Pat) -> (Pat, TokenStream) {
    struct S(TokenStream);
    impl VisitMut for S {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                if let Pat::Ident(i) = &*r.pat {
                    let id = i.ident.clone();
                    self.0.extend(quote!(let #id = *#id;));
                    *p = Pat::Ident(i.clone());
                    return;
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    let mut s = S(TokenStream::new());
    s.visit_pat_mut(&mut pat);
    (pat, s.0)
}

/// `X.iter_mut()`, `X.values_mut()`, `&mut X`
fn mut_source(e: &Expr) -> Option<(Expr, &'static str)> {
    match e {
        Expr::MethodCall(m) if m.method == "iter_mut" => Some(((*m.receiver).clone(), "iter_mut")),
        Expr::MethodCall(m) if m.method == "values_mut" => Some(((*m.receiver).clone(), "values_mut")),
        Expr::Reference(r) if r.mutability.is_some() => Some(((*r.expr).clone(), "iter_mut")),
        _ => None,
    }
}

/// `match x { [] => a, [p] => b, q => c }` on a variable: a chain of length tests
fn slice_match(m: &ExprMatch) -> Option<Expr> {
    let x = &m.expr;
    if !matches!(&**x, Expr::Path(_)) || !m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) {
        return None;
    }
    let mut out: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        if a.guard.is_some() {
            return None;
        }
        let b = &a.body;
        out = Some(match &a.pat {
            Pat::Slice(s) => {
                if s.elems.iter().any(|p| !matches!(p, Pat::Ident(i) if i.subpat.is_none()) && !matches!(p, Pat::Wild(_))) {
                    return None;
                }
                let n = s.elems.len();
                let binds: Vec<Stmt> = s.elems.iter().enumerate().filter(|(_, p)| !matches!(p, Pat::Wild(_))).map(|(k, p)| parse_quote!(let #p = &#x[#k];)).collect();
                let r = out?;
                parse_quote!(if #x.len() == #n { #(#binds)* #b } else { #r })
            }
            Pat::Ident(i) if out.is_none() && i.subpat.is_none() => parse_quote!({ let #i = #x; #b }),
            Pat::Wild(_) if out.is_none() => parse_quote!({ #b }),
            _ => return None,
        });
    }
    out
}
