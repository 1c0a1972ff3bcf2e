//! Counted, meaning-preserving rewrites that bring an expanded function body
//! into the subset Verus accepts. Each rewrite has a name in the report.

use crate::Counts;
use proc_macro2::{Delimiter, Group, Literal, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Ident, Item, Pat, Stmt};

#[derive(Default, Clone)]
pub struct Flags {
    /// rewrite float operators into calls of the float model
    pub float: bool,
    /// append the ghost trace argument to protocol calls
    pub trace: BTreeSet<(String, usize)>,
    /// `&x[a..b]` may index a str: turn it into a call of the slice model
    pub strslice: bool,
    /// `for` loops are spelled out as `into_iter` and `next`
    pub iter: bool,
}

pub struct Norm<'a> {
    pub counts: &'a mut Counts,
    pub flags: Flags,
    pub fresh: usize,
    pub iters: usize,
    /// variables that hold a float
    pub floats: BTreeSet<String>,
    /// what a function of the source returns: 'O'ption or 'R'esult (only where the name is unambiguous)
    pub kinds: BTreeMap<String, char>,
}

fn is_float_ty(t: &syn::Type) -> bool {
    let s = t.to_token_stream().to_string();
    s == "f64" || s == "f32"
}

fn is_float(e: &Expr, names: &BTreeSet<String>) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| names.contains(&i.to_string())),
        Expr::Paren(p) => is_float(&p.expr, names),
        Expr::Group(p) => is_float(&p.expr, names),
        Expr::Unary(u) => is_float(&u.expr, names),
        Expr::Cast(c) => is_float_ty(&c.ty),
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Float(_)),
        Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_)) && (is_float(&b.left, names) || is_float(&b.right, names))
        }
        Expr::MethodCall(m) => m.method.to_string().starts_with("vx_as_f"),
        Expr::If(i) => match (i.then_branch.stmts.last(), &i.else_branch) {
            (Some(Stmt::Expr(t, None)), Some((_, x))) => is_float(t, names) || is_float(x, names),
            _ => false,
        },
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(t, None)) if is_float(t, names)),
        Expr::Call(c) => {
            matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| ["vx_fmul", "vx_fdiv", "vx_fneg", "vx_flit"].contains(&i.to_string().as_str())))
        }
        _ => false,
    }
}

/// the variables of a function that hold floats, as far as the text shows
pub fn float_names(sig: &syn::Signature, b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_local(&mut self, l: &'ast syn::Local) {
            let (pat, typed) = match &l.pat {
                Pat::Type(t) => (&*t.pat, is_float_ty(&t.ty)),
                p => (p, false),
            };
            if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
                if typed || is_float(&init.expr, &self.0) {
                    self.0.insert(i.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
            if m.expr.to_token_stream().to_string().contains("POW10") {
                for a in &m.arms {
                    for i in pat_binds(&a.pat) {
                        self.0.insert(i.to_string());
                    }
                }
            }
            syn::visit::visit_expr_match(self, m);
        }
    }
    let mut v = V(BTreeSet::new());
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            if let (Pat::Ident(p), true) = (&*t.pat, is_float_ty(&t.ty)) {
                v.0.insert(p.ident.to_string());
            }
        }
    }
    v.visit_block(b);
    v.0
}

/// 1 << 63 and the like
fn shl_const(b: &syn::ExprBinary) -> Option<Expr> {
    let (Expr::Lit(l), Expr::Lit(r)) = (&*b.left, &*b.right) else { return None };
    let (syn::Lit::Int(l), syn::Lit::Int(r)) = (&l.lit, &r.lit) else { return None };
    let (n, k): (u128, u32) = (l.base10_parse().ok()?, r.base10_parse().ok()?);
    if k > 63 || n == 0 || n << k > u64::MAX as u128 {
        return None;
    }
    syn::parse_str(&format!("{}{}", n << k, l.suffix())).ok()
}

/// 'O' or 'R' for an expression that is visibly an Option or a Result
fn kind_of(e: &Expr, kinds: &BTreeMap<String, char>) -> Option<char> {
    match e {
        Expr::Paren(p) => kind_of(&p.expr, kinds),
        Expr::Path(p) => p.path.is_ident("None").then_some('O'),
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return None };
            let n = p.path.segments.last()?.ident.to_string();
            match n.as_str() {
                "Some" | "from_u32" => Some('O'),
                "Ok" | "Err" | "try_from" => Some('R'),
                _ => kinds.get(&n).copied(),
            }
        }
        Expr::Match(m) => m.arms.iter().find_map(|a| kind_of(&a.body, kinds)),
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "map" | "and_then" | "or_else" | "or" | "cloned" | "copied" => kind_of(&m.receiver, kinds),
                "ok_or" | "ok_or_else" | "map_err" | "try_into" | "parse" => Some('R'),
                "filter" | "ok" | "err" | "as_ref" | "as_mut" | "first" | "last" | "get" | "get_mut" | "pop" | "to_digit" | "take" => Some('O'),
                x if x.starts_with("checked_") => Some('O'),
                _ => kinds.get(&n).copied(),
            }
        }
        _ => None,
    }
}

fn leaves(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// F(x) for a closure or a function name F; None when F is neither
fn apply(f: &Expr, x: &Ident) -> Option<Expr> {
    match f {
        Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body) => {
            let p = match &c.inputs[0] {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            let b = &c.body;
            Some(match p {
                Pat::Wild(_) => parse_quote!(#b),
                _ => parse_quote!({ let #p = #x; #b }),
            })
        }
        Expr::Path(_) => Some(parse_quote!(#f(#x))),
        _ => None,
    }
}

/// F() for a closure or a function name F
fn thunk(f: &Expr) -> Option<Expr> {
    match f {
        Expr::Closure(c) if c.inputs.is_empty() && !leaves(&c.body) => {
            let b = &c.body;
            Some(parse_quote!(#b))
        }
        Expr::Path(_) => Some(parse_quote!(#f())),
        _ => None,
    }
}

/// `x.map(|v| e)` and its relatives as a `match`
fn combinator(m: &syn::ExprMethodCall, kinds: &BTreeMap<String, char>) -> Option<Expr> {
    let name = m.method.to_string();
    let x = &m.receiver;
    let v: Ident = Ident::new("__v", Span::call_site());
    let a: Vec<&Expr> = m.args.iter().collect();
    let closure = a.iter().any(|e| matches!(e, Expr::Closure(_)));
    let k = match (name.as_str(), a.len()) {
        ("is_some_and" | "is_none_or" | "ok_or_else" | "filter", 1) => 'O',
        ("map_err" | "is_ok_and", 1) => 'R',
        ("map" | "and_then" | "or_else" | "unwrap_or_else", 1) | ("map_or" | "map_or_else", 2) => {
            if !closure && !matches!(a.last(), Some(Expr::Path(_))) {
                return None;
            }
            kind_of(x, kinds)?
        }
        _ => return None,
    };
    Some(match (k, name.as_str()) {
        ('O', "map") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Some(__v) => Some(#e), None => None })
        }
        ('O', "and_then") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Some(__v) => #e, None => None })
        }
        ('O', "or_else") => {
            let e = thunk(a[0])?;
            parse_quote!(match #x { Some(__v) => Some(__v), None => #e })
        }
        ('O', "unwrap_or_else") => {
            let e = thunk(a[0])?;
            parse_quote!(match #x { Some(__v) => __v, None => #e })
        }
        ('O', "ok_or_else") => {
            let e = thunk(a[0])?;
            parse_quote!(match #x { Some(__v) => Ok(__v), None => Err(#e) })
        }
        ('O', "is_some_and") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Some(__v) => #e, None => false })
        }
        ('O', "is_none_or") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Some(__v) => #e, None => true })
        }
        ('O', "filter") => {
            let Expr::Closure(c) = a[0] else { return None };
            let p = c.inputs.first()?;
            let b = &c.body;
            if leaves(b) {
                return None;
            }
            parse_quote!(match #x { Some(__v) => { let __k = { let #p = &__v; #b }; if __k { Some(__v) } else { None } } None => None })
        }
        ('O', "map_or") => {
            let (d, e) = (a[0], apply(a[1], &v)?);
            if !matches!(d, Expr::Lit(_) | Expr::Path(_)) {
                return None;
            }
            parse_quote!(match #x { Some(__v) => #e, None => #d })
        }
        ('O', "map_or_else") => {
            let (d, e) = (thunk(a[0])?, apply(a[1], &v)?);
            parse_quote!(match #x { Some(__v) => #e, None => #d })
        }
        ('R', "map") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Ok(__v) => Ok(#e), Err(__e) => Err(__e) })
        }
        ('R', "and_then") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Ok(__v) => #e, Err(__e) => Err(__e) })
        }
        ('R', "map_err") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Ok(__w) => Ok(__w), Err(__v) => Err(#e) })
        }
        ('R', "or_else") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Ok(__w) => Ok(__w), Err(__v) => #e })
        }
        ('R', "unwrap_or_else") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Ok(__w) => __w, Err(__v) => #e })
        }
        ('R', "is_ok_and") => {
            let e = apply(a[0], &v)?;
            parse_quote!(match #x { Ok(__v) => #e, Err(_) => false })
        }
        ('R', "map_or") => {
            let (d, e) = (a[0], apply(a[1], &v)?);
            if !matches!(d, Expr::Lit(_) | Expr::Path(_)) {
                return None;
            }
            parse_quote!(match #x { Ok(__v) => #e, Err(_) => #d })
        }
        _ => return None,
    })
}

fn is_path(e: &Expr, name: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(name))
}

pub fn pat_binds(p: &Pat) -> Vec<Ident> {
    struct V(Vec<Ident>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            let s = p.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push(p.ident.clone());
            }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

fn pat_head(p: &Pat) -> Option<String> {
    match p {
        Pat::TupleStruct(t) => Some(t.path.segments.last()?.ident.to_string()),
        Pat::Struct(t) => Some(t.path.segments.last()?.ident.to_string()),
        Pat::Path(t) => Some(t.path.segments.last()?.ident.to_string()),
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
        _ => None,
    }
}

impl<'a> Norm<'a> {
    pub fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_owned()).or_default() += 1;
    }

    fn fresh(&mut self, base: &str) -> Ident {
        self.fresh += 1;
        Ident::new(&format!("__vx_{}{}", base, self.fresh), Span::call_site())
    }

    /// replaces `&x` sub-patterns by a fresh binding; returns the `let x = *fresh;` statements
    fn deref_pat(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct R<'b, 'a> {
            n: &'b mut Norm<'a>,
            lets: Vec<Stmt>,
        }
        impl VisitMut for R<'_, '_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let Pat::Ident(id) = &*r.pat {
                        if id.subpat.is_none() && id.by_ref.is_none() {
                            let x = id.ident.clone();
                            let m = &id.mutability;
                            let f = self.n.fresh("ref");
                            self.lets.push(parse_quote!(let #m #x = *#f;));
                            *p = parse_quote!(#f);
                            self.n.count("reference pattern `&x` -> `let x = *r`");
                            return;
                        }
                    }
                    if let Pat::Wild(_) = &*r.pat {
                        *p = parse_quote!(_);
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut r = R { n: self, lets: vec![] };
        r.visit_pat_mut(p);
        r.lets
    }

    fn for_loop(&mut self, f: syn::ExprForLoop) -> Expr {
        let label = &f.label;
        let mut pat = (*f.pat).clone();
        let i = self.fresh("i");
        let body = f.body.stmts.clone();
        let mut expr = &*f.expr;
        while let Expr::Paren(p) = expr {
            expr = &p.expr;
        }
        // ranges
        if let Expr::Range(r) = expr {
            if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                self.count("`for` over a range -> `while`");
                let hi_v = self.fresh("hi");
                let cond: Expr = match r.limits {
                    syn::RangeLimits::HalfOpen(_) => parse_quote!(#i < #hi_v),
                    syn::RangeLimits::Closed(_) => parse_quote!(#i <= #hi_v),
                };
                let first: Vec<Stmt> = match &pat {
                    Pat::Wild(_) => vec![],
                    _ => vec![parse_quote!(let #pat = #i;)],
                };
                return parse_quote!({
                    let mut #i = #lo;
                    let #hi_v = #hi;
                    #label while #cond {
                        #(#first)*
                        #i += 1;
                        #(#body)*
                    }
                });
            }
        }
        if self.flags.iter {
            self.count("`for` spelled out as `into_iter` and `next`");
            self.iters += 1;
            let it = Ident::new(&format!("__it{}", self.iters), Span::call_site());
            return parse_quote!({
                let mut #it = (#expr).into_iter();
                #label loop {
                    match #it.next() {
                        Some(#pat) => { #(#body)* }
                        None => { break; }
                    }
                }
            });
        }
        // for P in &mut x[a..b]  /  x[a..b].iter_mut()
        let target = match expr {
            Expr::Reference(r) if r.mutability.is_some() => Some(&*r.expr),
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => Some(&*m.receiver),
            _ => None,
        };
        if let Some(Expr::Index(ix)) = target {
            if let Expr::Range(r) = &*ix.index {
                if let (Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.end, &r.limits) {
                    self.count("`for` over a mutable sub-slice -> `while` over its index, bounds checked first");
                    let hi_v = self.fresh("hi");
                    let lo: Expr = r.start.as_ref().map_or_else(|| parse_quote!(0), |x| (**x).clone());
                    let x = &ix.expr;
                    return parse_quote!({
                        let mut #i = #lo;
                        let #hi_v = #hi;
                        #x.vx_range(#i, #hi_v);
                        #label while #i < #hi_v {
                            let #pat = #x.vx_slot(#i);
                            #i += 1;
                            #(#body)*
                        }
                    });
                }
            }
        }
        // slice iteration, possibly .iter() / .iter().enumerate()
        let (mut recv, mut enumerate) = (expr.clone(), false);
        loop {
            match &recv {
                Expr::MethodCall(m) if m.args.is_empty() && m.method == "enumerate" => {
                    enumerate = true;
                    recv = (*m.receiver).clone();
                }
                Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => {
                    recv = (*m.receiver).clone();
                }
                Expr::Reference(r) if r.mutability.is_none() => {
                    recv = (*r.expr).clone();
                }
                _ => break,
            }
        }
        let consuming = matches!(&expr, Expr::Path(_)) && self.flags_consuming();
        if consuming || !matches!(recv, Expr::Path(_) | Expr::Field(_) | Expr::Index(_)) {
            // left as is
            let mut f2 = f.clone();
            f2.body = f.body.clone();
            return Expr::ForLoop(f2);
        }
        self.count("`for` over a slice -> `while` over its index");
        let it = self.fresh("it");
        let bind: Vec<Stmt> = if enumerate {
            match &mut pat {
                Pat::Tuple(t) if t.elems.len() == 2 => {
                    let a = t.elems[0].clone();
                    let mut b = t.elems[1].clone();
                    let lets = self.deref_pat(&mut b);
                    let mut v: Vec<Stmt> = vec![];
                    if !matches!(a, Pat::Wild(_)) {
                        v.push(parse_quote!(let #a = #i;));
                    }
                    if !matches!(b, Pat::Wild(_)) {
                        v.push(parse_quote!(let #b = &#it[#i];));
                    }
                    v.extend(lets);
                    v
                }
                _ => return Expr::ForLoop(f),
            }
        } else {
            let lets = self.deref_pat(&mut pat);
            let mut v: Vec<Stmt> = vec![];
            if !matches!(pat, Pat::Wild(_)) {
                v.push(parse_quote!(let #pat = &#it[#i];));
            }
            v.extend(lets);
            v
        };
        parse_quote!({
            let #it = &#recv[..];
            let mut #i: usize = 0;
            #label while #i < #it.len() {
                #(#bind)*
                #i += 1;
                #(#body)*
            }
        })
    }

    fn flags_consuming(&self) -> bool {
        false
    }
}

impl VisitMut for Norm<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let before = b.stmts.len();
        b.stmts.retain(|s| !matches!(s, Stmt::Item(i) if !matches!(i, Item::Use(_))));
        if b.stmts.len() != before {
            self.count("nested item hoisted out of the function body");
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        visit_mut::visit_block_mut(self, b);
        // let with reference patterns
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &mut s {
                l.attrs.clear();
                let lets = self.deref_pat(&mut l.pat);
                out.push(s);
                out.extend(lets);
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
        let lets = self.deref_pat(&mut a.pat);
        if !lets.is_empty() {
            let body = &a.body;
            a.body = parse_quote!({ #(#lets)* #body });
            if let Some((_, g)) = &mut a.guard {
                let g2 = g.clone();
                **g = parse_quote!({ #(#lets)* #g2 });
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // X.for_each(F)  ->  for x in X { F(x); }
        if let (true, Expr::MethodCall(m)) = (self.flags.iter, &*e) {
            if m.method == "for_each" && m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) {
                let (x, f) = (&m.receiver, &m.args[0]);
                self.count("`x.for_each(f)` -> `for v in x { f(v); }`");
                *e = parse_quote!(for __v in #x { #f(__v); });
            }
        }

        visit_mut::visit_expr_mut(self, e);
        match e {
            // { let expr = X; transmute::<T, T>(expr) }  ->  X
            Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 2 => {
                if let (Stmt::Local(l), Stmt::Expr(Expr::Call(c), None)) =
                    (&b.block.stmts[0], &b.block.stmts[1])
                {
                    let f = c.func.to_token_stream().to_string().replace(' ', "");
                    if f.contains("mem::transmute::<") && c.args.len() == 1 {
                        if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                            let inner = &f[f.find("::<").unwrap() + 3..f.len() - 1];
                            let same = same_halves(inner);
                            if same && is_path(&c.args[0], &pi.ident.to_string()) {
                                let x = (*init.expr).clone();
                                // a reference into a heap slot whose lifetime is extended
                                if let Expr::Reference(r) = &x {
                                    if let (true, Expr::Unary(u)) = (r.mutability.is_some(), &*r.expr) {
                                        if matches!(u.op, syn::UnOp::Deref(_)) {
                                            let y = &u.expr;
                                            self.count("transmute::<&mut T, &mut T>(&mut *x) -> vx_alias(&mut x)");
                                            *e = syn::parse_quote!(vx_alias(&mut #y));
                                            return;
                                        }
                                    }
                                }
                                self.count("identity transmute::<T, T>(e) -> e");
                                *e = x;
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Unsafe(u) => {
                if u.block.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &u.block.stmts[0] {
                        let needs = contains_unsafe_call(x);
                        if !needs {
                            self.count("`unsafe { e }` marker dropped around a safe (modelled) expression");
                            *e = x.clone();
                            return;
                        }
                    }
                }
            }
            // &mut *x.as_ptr()  ->  x.vx_deref_mut()
            Expr::Reference(r) if r.mutability.is_none() && self.flags.strslice => {
                if let Expr::Index(ix) = &*r.expr {
                    let mut i = &*ix.index;
                    while let Expr::Paren(p) = i {
                        i = &p.expr;
                    }
                    if let Expr::Range(rg) = i {
                        if matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
                            let x = &ix.expr;
                            let n: Option<Expr> = match (&rg.start, &rg.end) {
                                (Some(a), Some(b)) => Some(parse_quote!((#x).vx_slice(#a, #b))),
                                (Some(a), None) => Some(parse_quote!((#x).vx_from(#a))),
                                (None, Some(b)) => Some(parse_quote!((#x).vx_to(#b))),
                                _ => None,
                            };
                            if let Some(n) = n {
                                self.count("`&x[a..b]` -> call of the str/slice model");
                                *e = n;
                                return;
                            }
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = &*r.expr {
                    // &mut *{ out as *mut Option<Self> as *mut W }  ->  the wrapper's receiver
                    if let Expr::Block(b) = &**expr {
                        if let [Stmt::Expr(Expr::Cast(c), None)] = &b.block.stmts[..] {
                            if let (Expr::Cast(c0), syn::Type::Ptr(w)) = (&*c.expr, &*c.ty) {
                                let from = c0.ty.to_token_stream().to_string().replace(' ', "");
                                if from == "*mutOption<Self>" {
                                    let (x, w) = (&c0.expr, &w.elem);
                                    let n: Expr = parse_quote!(vx_visitor::<#w>(#x));
                                    self.count("`&mut *{ out as *mut Option<Self> as *mut W }` -> `vx_visitor::<W>(out)` (one-field wrapper model)");
                                    *e = n;
                                    return;
                                }
                            }
                        }
                    }
                    if let Expr::MethodCall(m) = &**expr {
                        if m.method == "as_ptr" && m.args.is_empty() {
                            let recv = &m.receiver;
                            let n: Expr = if self.flags.trace.contains(&("vx_deref_mut".to_owned(), 0)) {
                                parse_quote!(#recv.vx_deref_mut(Tracked(__tr)))
                            } else {
                                parse_quote!(#recv.vx_deref_mut())
                            };
                            self.count("`&mut *p.as_ptr()` -> `p.vx_deref_mut()` (pointer model)");
                            *e = n;
                            return;
                        }
                    }
                }
            }
            Expr::Lit(l) => {
                if let (true, syn::Lit::Float(f)) = (self.flags.float, &l.lit) {
                    if let Some((m, x)) = float_literal(f.base10_digits()) {
                        let m = Literal::u64_suffixed(m);
                        let x: Expr = syn::parse_str(&x.to_string()).unwrap();
                        self.count("float literal -> mantissa/exponent literal of the float model");
                        *e = parse_quote!(vx_flit(#m, #x, #f));
                    }
                    return;
                }
                if let syn::Lit::ByteStr(bs) = &l.lit {
                    let bytes = bs.value();
                    let lits = bytes.iter().map(|b| Literal::u8_suffixed(*b));
                    self.count("byte-string literal -> array literal");
                    *e = parse_quote!((&[#(#lits),*]));
                    return;
                }
            }
            Expr::MethodCall(m) => {
                // .map(Ctor)
                if m.method == "map" && m.args.len() == 1 {
                    if let Expr::Path(p) = &m.args[0] {
                        let last = p.path.segments.last().unwrap().ident.to_string();
                        if last.chars().next().unwrap().is_uppercase() {
                            let recv = &m.receiver;
                            let ctor = &p.path;
                            self.count("`.map(Constructor)` -> match");
                            *e = parse_quote!(match #recv { Ok(__v) => Ok(#ctor(__v)), Err(__e) => Err(__e) });
                            return;
                        }
                    }
                }
                if let Some(n) = combinator(m, &self.kinds) {
                    self.count("Option/Result combinator with a closure -> match");
                    *e = n;
                    // the closure bodies were normalised above
                    return;
                }
                // X.drain(..)  ->  the drain model
                if self.flags.iter && m.method == "drain" && m.args.len() == 1 {
                    if let Expr::Range(r) = &m.args[0] {
                        if r.start.is_none() && r.end.is_none() {
                            let x = &m.receiver;
                            self.count("`x.drain(..)` -> call of the drain model");
                            *e = parse_quote!(vx_drain(&mut #x));
                            return;
                        }
                    }
                }
                if self.flags.trace.contains(&(m.method.to_string(), m.args.len())) {
                    m.args.push(parse_quote!(Tracked(__tr)));
                    self.count("ghost trace argument added to a protocol call (erased at run time)");
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    const INTS: [&str; 10] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"];
                    if let (Some(t), 1) = (full.strip_suffix("::try_from"), c.args.len()) {
                        if INTS.contains(&t) {
                            let id = Ident::new(&format!("vx_try_{}", t), Span::call_site());
                            let x = &c.args[0];
                            self.count("integer try_from -> its model");
                            *e = parse_quote!(#id(#x));
                            return;
                        }
                    }
                    if full == "String::from" && c.args.len() == 1 {
                        let x = &c.args[0];
                        self.count("String::from(&str) -> its model");
                        *e = parse_quote!(vx_string_from(#x));
                        return;
                    }
                    if self.flags.trace.contains(&(name, c.args.len())) && p.path.segments.len() == 1
                        || p.path.segments.len() > 1 && self.flags.trace.contains(&(full, c.args.len())) {
                        c.args.push(parse_quote!(Tracked(__tr)));
                        self.count("ghost trace argument added to a protocol call (erased at run time)");
                    }
                }
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(f);
                return;
            }
            Expr::Match(m) => {
                // match s { "a" => A, .., _ => D }  ->  if s == "a" { A } .. else { D }
                if let Some(n) = str_match(m) {
                    self.count("`match` on string literals -> if/else chain over string equality");
                    *e = n;
                    return;
                }
                // P if g => A, .., _ => D   ->   P => if g { A } else { D }
                let by_mut = matches!(&*m.expr, Expr::Reference(r) if r.mutability.is_some())
                    || true;
                if by_mut {
                    let last_wild = matches!(m.arms.last(), Some(a) if matches!(a.pat, Pat::Wild(_)) && a.guard.is_none());
                    if last_wild {
                        let d = m.arms.last().unwrap().body.clone();
                        let heads: Vec<Option<String>> = m.arms.iter().map(|a| pat_head(&a.pat)).collect();
                        for k in 0..m.arms.len() - 1 {
                            if m.arms[k].guard.is_none() || !matches!(m.arms[k].pat, Pat::TupleStruct(_)) {
                                continue;
                            }
                            let h = heads[k].clone();
                            let clash = (k + 1..m.arms.len() - 1).any(|j| heads[j] == h || heads[j].is_none());
                            if h.is_some() && !clash {
                                let (_, g) = m.arms[k].guard.take().unwrap();
                                let a = m.arms[k].body.clone();
                                m.arms[k].body = parse_quote!(if #g { #a } else { #d });
                                if m.arms[k].comma.is_none() {
                                    m.arms[k].comma = Some(Default::default());
                                }
                                self.count("match guard on a constructor arm -> if/else with the wildcard arm");
                            }
                        }
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Shl(_)) && shl_const(b).is_some() => {
                let n = shl_const(b).unwrap();
                self.count("constant shift folded");
                *e = n;
            }
            Expr::Binary(b) if self.flags.float => {
                use syn::BinOp::*;
                let l = &b.left;
                let r = &b.right;
                let flit = |x: &Expr| matches!(x, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_flit") || p.path.is_ident("vx_fneg")));
                let new: Option<Expr> = match b.op {
                    MulAssign(_) if is_float(l, &self.floats) => Some(parse_quote!(#l = vx_fmul(#l, #r))),
                    DivAssign(_) if is_float(l, &self.floats) => Some(parse_quote!(#l = vx_fdiv(#l, #r))),
                    Eq(_) if flit(l) || flit(r) => Some(parse_quote!(vx_feq(#l, #r))),
                    Ne(_) if flit(l) || flit(r) => Some(parse_quote!(!vx_feq(#l, #r))),
                    Mul(_) if is_float(l, &self.floats) => Some(parse_quote!(vx_fmul(#l, #r))),
                    Div(_) if is_float(l, &self.floats) => Some(parse_quote!(vx_fdiv(#l, #r))),
                    _ => None,
                };
                if let Some(n) = new {
                    self.count("float operator -> call of the float model");
                    *e = n;
                    return;
                }
            }
            Expr::Unary(u) if self.flags.float => {
                if let syn::UnOp::Neg(_) = u.op {
                    if is_float(&u.expr, &self.floats) {
                        let x = &u.expr;
                        self.count("float operator -> call of the float model");
                        *e = parse_quote!(vx_fneg(#x));
                        return;
                    }
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if t == "f64" || t == "f32" {
                    let x = &c.expr;
                    let m = Ident::new(&format!("vx_as_{}", t), Span::call_site());
                    self.count("cast to a float type -> call of the float model");
                    *e = parse_quote!((#x).#m());
                    return;
                }
            }
            _ => {}
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        // crate::a::B / self::B / miniserde::a::B -> B
        let first = match p.segments.first() {
            Some(s) => s.ident.to_string(),
            None => return,
        };
        if p.segments.len() > 1 && (first == "crate" || first == "self" || first == "super" || first == "miniserde") {
            let segs: Vec<_> = p.segments.iter().cloned().collect();
            // keep Type::assoc
            let n = segs.len();
            let keep_from = if n >= 2 && segs[n - 2].ident.to_string().chars().next().unwrap().is_uppercase() {
                n - 2
            } else {
                n - 1
            };
            p.leading_colon = None;
            p.segments = segs[keep_from..].iter().cloned().collect();
            self.count("module path shortened to the item name");
        }
    }
}

fn str_lits(p: &Pat) -> Option<Vec<syn::LitStr>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![s.clone()]),
            _ => None,
        },
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_lits(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_lits(&p.pat),
        _ => None,
    }
}

fn str_match(m: &syn::ExprMatch) -> Option<Expr> {
    if !m.arms.iter().any(|a| str_lits(&a.pat).is_some()) {
        return None;
    }
    let id = Ident::new("__vx_s", Span::call_site());
    let mut acc: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        if a.guard.is_some() {
            return None;
        }
        let body = &a.body;
        match &a.pat {
            Pat::Wild(_) => acc = Some(parse_quote!({ #body })),
            p => {
                let ls = str_lits(p)?;
                let rest = acc?;
                acc = Some(parse_quote!(if #(vx_streq(#id, #ls))||* { #body } else #rest));
            }
        }
    }
    let (x, chain) = (&m.expr, acc?);
    Some(parse_quote!({ let #id = #x; #chain }))
}

/// decimal literal as (m, e) with value m * 10^e, m without trailing zeros
pub fn float_literal(s: &str) -> Option<(u64, i64)> {
    let s = s.replace('_', "").to_lowercase();
    let (num, exp) = match s.split_once('e') {
        Some((n, x)) => (n.to_owned(), x.trim_start_matches('+').parse::<i64>().ok()?),
        None => (s.clone(), 0),
    };
    let (a, b) = num.split_once('.').unwrap_or((&num, ""));
    let mut m: u64 = format!("{}{}", a, b).parse().ok()?;
    let mut x = exp - b.len() as i64;
    if m == 0 {
        return Some((0, 0));
    }
    while m % 10 == 0 {
        m /= 10;
        x += 1;
    }
    Some((m, x))
}

fn same_halves(s: &str) -> bool {
    // split at the top-level comma
    let mut depth = 0i32;
    for (i, c) in s.char_indices() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => return s[..i] == s[i + 1..],
            _ => {}
        }
    }
    false
}

fn contains_unsafe_call(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.contains("unchecked") {
                self.0 = true;
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
            let f = c.method.to_string();
            if f.contains("unchecked") || f == "assume_init" || f == "read" {
                self.0 = true;
            }
            syn::visit::visit_expr_method_call(self, c);
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// miniserde::a::B -> B in a signature of an expansion
pub struct ShortPaths;
impl VisitMut for ShortPaths {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.segments[0].ident == "miniserde" {
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(p.segments.len() - 1).cloned().collect();
        }
    }
}

/// strips attributes everywhere (doc comments, lint levels, #[cold], #[inline])
pub struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::Visibility::Inherited;
    }
}

/// token-sequence replacement, applied at every group level
pub fn map_tokens(ts: TokenStream, maps: &[(Vec<String>, TokenStream)], hits: &mut [usize]) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    'o: while i < toks.len() {
        for (mi, (pat, rep)) in maps.iter().enumerate() {
            if i + pat.len() <= toks.len()
                && pat.iter().enumerate().all(|(k, p)| match &toks[i + k] {
                    TokenTree::Group(g) => g.to_string().replace(' ', "") == p.replace(' ', ""),
                    t => t.to_string() == *p,
                })
            {
                hits[mi] += 1;
                out.extend(rep.clone());
                i += pat.len();
                continue 'o;
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let inner = map_tokens(g.stream(), maps, hits);
                out.extend([TokenTree::Group(Group::new(g.delimiter(), inner))]);
            }
            // the verifier has no raw identifiers
            TokenTree::Ident(id) if id.to_string().starts_with("r#") => {
                out.extend([TokenTree::Ident(Ident::new(&format!("raw_{}", &id.to_string()[2..]), id.span()))])
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

pub fn parse_pat_tokens(s: &str) -> Vec<String> {
    let ts: TokenStream = s.parse().unwrap_or_else(|e| panic!("bad map pattern {}: {}", s, e));
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => g.to_string(),
            t => t.to_string(),
        })
        .collect()
}

/// every variable a block binds, in source order
pub fn locals(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            let s = p.ident.to_string();
            if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

/// the renaming that gives the variables of a function the names its contract knows; empty when the two lists
/// do not correspond one to one
pub fn local_renames(now: &[String], want: &[String]) -> Vec<(String, String)> {
    if now.len() != want.len() || now == want {
        return vec![];
    }
    let mut m: BTreeMap<&String, &String> = BTreeMap::new();
    for (n, w) in now.iter().zip(want) {
        if *m.entry(n).or_insert(w) != w {
            return vec![];
        }
    }
    let out: Vec<(String, String)> = m.iter().filter(|(n, w)| n != w).map(|(n, w)| ((*n).clone(), (*w).clone())).collect();
    if out.iter().any(|(_, w)| now.contains(w)) {
        return vec![];
    }
    out
}

/// renames a set of identifiers (parameters) throughout a block
pub struct Rename(pub Vec<(String, String)>);
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        for (a, b) in &self.0 {
            if s == *a {
                *i = Ident::new(b, i.span());
                return;
            }
        }
    }
    fn visit_member_mut(&mut self, _: &mut syn::Member) {}
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        let before = f.expr.clone();
        self.visit_expr_mut(&mut f.expr);
        if f.colon_token.is_none() && f.expr != before {
            f.colon_token = Some(Default::default());
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        let before = f.pat.clone();
        self.visit_pat_mut(&mut f.pat);
        if f.colon_token.is_none() && f.pat != before {
            f.colon_token = Some(Default::default());
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
}

/// numbers the loops in pre-order and puts a marker statement first in each body
#[derive(Default)]
pub struct MarkLoops {
    pub n: usize,
    pub kinds: Vec<String>,
}
impl MarkLoops {
    fn number(s: &Stmt) -> Option<String> {
        let e = match s {
            Stmt::Expr(e, _) => e,
            _ => return None,
        };
        let b = match e {
            Expr::Loop(l) => &l.body,
            Expr::While(l) => &l.body,
            Expr::ForLoop(l) => &l.body,
            _ => return None,
        };
        match b.stmts.first() {
            Some(Stmt::Macro(m)) if m.mac.path.is_ident("vx_loop") => Some(m.mac.tokens.to_string()),
            _ => None,
        }
    }
}
impl VisitMut for MarkLoops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        let mut out = vec![];
        for (k, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let num = Self::number(&s);
            let tail_loop = k + 1 == n && matches!(s, Stmt::Expr(Expr::Loop(_), None));
            if let Some(m) = &num {
                let lit: TokenStream = m.parse().unwrap();
                out.push(parse_quote!(vx_before!(#lit);));
            }
            out.push(s);
            if let (Some(m), false) = (num, tail_loop) {
                let lit: TokenStream = m.parse().unwrap();
                out.push(parse_quote!(vx_after!(#lit);));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (kind, body) = match e {
            Expr::Loop(l) => ("loop", Some(&mut l.body)),
            Expr::While(l) => ("while", Some(&mut l.body)),
            Expr::ForLoop(l) => ("for", Some(&mut l.body)),
            _ => ("", None),
        };
        if let Some(b) = body {
            self.n += 1;
            let n = Literal::usize_unsuffixed(self.n);
            self.kinds.push(kind.to_owned());
            if let Some(Stmt::Expr(x, semi @ None)) = b.stmts.last_mut() {
                if !matches!(x, Expr::Match(_) | Expr::If(_) | Expr::Block(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                    *semi = Some(Default::default());
                }
            }
            b.stmts.insert(0, parse_quote!(vx_loop!(#n);));
            b.stmts.push(parse_quote!(vx_end!(#n);));
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

#[allow(dead_code)]
pub fn brace(ts: TokenStream) -> TokenStream {
    let g = Group::new(Delimiter::Brace, ts);
    quote!(#g)
}

/// puts `vx_proof!(k)` markers next to the innermost statements calling given names
pub struct MarkCalls {
    /// (callee name, before?, marker number)
    pub want: Vec<(String, bool, usize)>,
    pub hits: Vec<usize>,
}

fn calls_shallow(s: &Stmt, name: &str) -> bool {
    struct V<'n>(&'n str, bool);
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_block(&mut self, _: &'ast Block) {}
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == self.0 {
                    self.1 = true;
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
            if c.method == self.0 {
                self.1 = true;
            }
            syn::visit::visit_expr_method_call(self, c);
        }
    }
    let mut v = V(name, false);
    v.visit_stmt(s);
    v.1
}

impl VisitMut for MarkCalls {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let mut after: Vec<Stmt> = vec![];
            for (name, before, m) in &self.want {
                if calls_shallow(&s, name) {
                    let lit = Literal::usize_unsuffixed(*m);
                    let st: Stmt = parse_quote!(vx_proof!(#lit););
                    if *before {
                        out.push(st);
                        self.hits.push(*m);
                    } else if !(k + 1 == n && matches!(s, Stmt::Expr(_, None)))
                        && !matches!(s, Stmt::Expr(Expr::Return(_), _))
                    {
                        after.push(st);
                        self.hits.push(*m);
                    }
                }
            }
            if !after.is_empty() {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

/// serialization side: unsizing coercions to trait objects become calls of the model
pub struct SerWrap<'a> {
    pub counts: &'a mut Counts,
    pub idx: &'a crate::index::Index,
    /// the return type mentions `dyn Serialize`
    pub ret_dyn: bool,
}
impl SerWrap<'_> {
    fn wrap(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_ser"))) {
            return;
        }
        *self.counts.entry("unsizing coercion to `&dyn Serialize` -> vx_ser(..)".to_owned()).or_default() += 1;
        let x = e.clone();
        *e = parse_quote!(vx_ser(#x));
    }
}
impl VisitMut for SerWrap<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if c.args.len() == 1 => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("Fragment::Seq") || f.ends_with("Fragment::Map") {
                    let to: Ident = Ident::new(if f.ends_with("Seq") { "vx_ser_seq" } else { "vx_ser_map" }, Span::call_site());
                    if let Expr::Call(b) = &c.args[0] {
                        let g = b.func.to_token_stream().to_string().replace(' ', "");
                        if g.ends_with("Box::new") && b.args.len() == 1 {
                            let x = b.args[0].clone();
                            c.args[0] = parse_quote!(#to(#x));
                            *self.counts.entry("unsizing coercion of a boxed stream -> vx_ser_seq/vx_ser_map".to_owned()).or_default() += 1;
                        }
                    }
                } else if f == "Some" && self.ret_dyn {
                    match &mut c.args[0] {
                        Expr::Tuple(t) => {
                            if let Some(l) = t.elems.last_mut() {
                                self.wrap(l);
                            }
                        }
                        x => self.wrap(x),
                    }
                }
            }
            Expr::Struct(s) => {
                let name = s.path.segments.last().unwrap().ident.to_string();
                let fields = self.idx.struct_fields(&name);
                for f in s.fields.iter_mut() {
                    let n = f.member.to_token_stream().to_string();
                    if fields.iter().any(|(m, t)| *m == n && t.contains("dyn") && t.contains("Serialize")) {
                        f.colon_token = Some(Default::default());
                        self.wrap(&mut f.expr);
                    }
                }
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if t.contains("dyn") && t.contains("Serialize") {
                    let mut x = (*c.expr).clone();
                    self.wrap(&mut x);
                    *e = x;
                }
            }
            _ => {}
        }
    }
}
