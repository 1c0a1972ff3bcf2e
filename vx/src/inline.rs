//! Inlines private helper functions that a unit does not know (for example one
//! extracted by a refactoring), so that the contract of the caller still decides.

use crate::index::{FnEntry, Index};
use crate::Counts;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, FnArg, Ident, Pat, Stmt};

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// the call is a value: the body may not leave the caller
    Value,
    /// the call is returned by the caller: `return` and `?` of the body are the caller's
    Tail,
    /// the call is followed by `?`: a failing `return` or `?` of the body is the caller's
    Question,
}

/// what `?` hands on: Some("") for an Option, the error type for a Result
pub fn fails_with(out: &syn::ReturnType) -> Option<String> {
    let syn::ReturnType::Type(_, t) = out else { return None };
    let syn::Type::Path(p) = &**t else { return None };
    let seg = p.path.segments.last()?;
    let syn::PathArguments::AngleBracketed(a) = &seg.arguments else { return None };
    match (seg.ident.to_string().as_str(), a.args.len()) {
        ("Option", 1) => Some(String::new()),
        ("Result", 1) => Some("Error".to_owned()),
        ("Result", 2) => {
            let s = crate::index::compact(&a.args[1]);
            Some(s.rsplit("::").next().unwrap_or("").to_owned())
        }
        _ => None,
    }
}

/// every `return` of the body returns a failure
fn returns_fail(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            let ok = match r.expr.as_deref() {
                Some(Expr::Path(p)) => p.path.segments.last().map_or(false, |s| s.ident == "None"),
                Some(Expr::Call(c)) => {
                    matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Err"))
                }
                _ => false,
            };
            self.0 &= ok;
            syn::visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(true);
    v.visit_block(b);
    v.0
}

/// a by-reference `self` that is matched on: the caller's variable is borrowed there
struct BorrowSelf(bool);
impl VisitMut for BorrowSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let scrut = match e {
            Expr::Match(m) => &mut m.expr,
            Expr::Let(l) => &mut l.expr,
            _ => return,
        };
        if matches!(&**scrut, Expr::Path(p) if p.path.is_ident("self")) {
            let x = scrut.clone();
            **scrut = if self.0 { parse_quote!(&mut #x) } else { parse_quote!(&#x) };
        }
    }
}

pub struct Inliner<'a> {
    /// what a failing `?` of the function being normalised returns
    pub fails: Option<String>,
    pub idx: &'a Index,
    pub module: String,
    pub self_ty: Option<String>,
    /// names the unit defines (contracts or models): never inlined
    pub known: &'a BTreeSet<String>,
    pub counts: &'a mut Counts,
    pub inlined: Vec<String>,
    pub failed: Vec<String>,
    pub depth: usize,
    pub fresh: usize,
}

fn has_return_or_loop(b: &Block) -> (bool, bool, bool) {
    struct V {
        ret: bool,
        qm: bool,
        lp: bool,
    }
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            self.ret = true;
            syn::visit::visit_expr_return(self, r);
        }
        fn visit_expr_try(&mut self, r: &'ast syn::ExprTry) {
            self.qm = true;
            syn::visit::visit_expr_try(self, r);
        }
        fn visit_expr_loop(&mut self, r: &'ast syn::ExprLoop) {
            self.lp = true;
            syn::visit::visit_expr_loop(self, r);
        }
        fn visit_expr_while(&mut self, r: &'ast syn::ExprWhile) {
            self.lp = true;
            syn::visit::visit_expr_while(self, r);
        }
        fn visit_expr_for_loop(&mut self, r: &'ast syn::ExprForLoop) {
            self.lp = true;
            syn::visit::visit_expr_for_loop(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V { ret: false, qm: false, lp: false };
    v.visit_block(b);
    (v.ret, v.qm, v.lp)
}

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => expr_diverges(e),
        _ => false,
    }
}

fn expr_diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => {
            diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| expr_diverges(e))
        }
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| expr_diverges(&a.body)),
        _ => false,
    }
}

/// rewrites a block so that every `return e` is in tail position and becomes `e`;
/// None when that is not possible without control-flow tricks
fn tailify(b: &Block) -> Option<Block> {
    let mut stmts = b.stmts.clone();
    for k in 0..stmts.len() {
        let rest: Vec<Stmt> = stmts[k + 1..].to_vec();
        match &stmts[k] {
            Stmt::Expr(e, _) => {
                let last = k + 1 == stmts.len();
                let (r, q, _) = scan(e);
                if !r && !q {
                    continue;
                }
                if q && !r && !last {
                    return None;
                }
                let e2 = tail_expr(e, &rest, last)?;
                stmts.truncate(k);
                stmts.push(Stmt::Expr(e2, None));
                return Some(Block { brace_token: b.brace_token, stmts });
            }
            Stmt::Local(l) => {
                // let x = match e { .. => v, .. => return r };
                if let Some(init) = &l.init {
                    if init.diverge.is_some() {
                        return None;
                    }
                    let (r, q, _) = scan(&init.expr);
                    if !r && !q {
                        continue;
                    }
                    if q && !r {
                        // let p = E?;  ->  match E { Ok(p) => rest, Err(e) => Err(e) }
                        if let Expr::Try(t) = &*init.expr {
                            let (r2, q2, _) = scan(&t.expr);
                            if r2 || q2 {
                                return None;
                            }
                            let inner = tailify(&Block { brace_token: b.brace_token, stmts: rest })?;
                            let pat = &l.pat;
                            let pat = match pat {
                                Pat::Type(t) => &*t.pat,
                                p => p,
                            };
                            let x = &t.expr;
                            let e2: Expr = parse_quote!(match #x { Ok(#pat) => #inner, Err(__e) => Err(__e) });
                            stmts.truncate(k);
                            stmts.push(Stmt::Expr(e2, None));
                            return Some(Block { brace_token: b.brace_token, stmts });
                        }
                        return None;
                    }
                    if let Expr::Match(m) = &*init.expr {
                        let (rs, qs, _) = scan(&m.expr);
                        if rs || qs {
                            return None;
                        }
                        let live = m.arms.iter().filter(|a| !expr_diverges(&a.body)).count();
                        if live > 1 && (live > 8 || has_loop(&rest)) {
                            return None;
                        }
                        let mut m2 = m.clone();
                        for a in m2.arms.iter_mut() {
                            if expr_diverges(&a.body) {
                                a.body = Box::new(tail_expr(&a.body, &[], true)?);
                            } else {
                                let pat = &l.pat;
                                let rebound: Vec<String> =
                                    crate::norm::pat_binds(pat).iter().map(|i| i.to_string()).collect();
                                for id in crate::norm::pat_binds(&a.pat) {
                                    let id = id.to_string();
                                    if !rebound.contains(&id) && mentions(&rest, &id) {
                                        return None;
                                    }
                                }
                                let v = &a.body;
                                let mut ss: Vec<Stmt> = vec![parse_quote!(let #pat = #v;)];
                                ss.extend(rest.clone());
                                let inner = tailify(&Block { brace_token: b.brace_token, stmts: ss })?;
                                a.body = parse_quote!(#inner);
                            }
                            a.comma = Some(Default::default());
                        }
                        stmts.truncate(k);
                        stmts.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(Block { brace_token: b.brace_token, stmts });
                    }
                    // let p = if c { v } else { return r };
                    if let Expr::If(i) = &*init.expr {
                        if scan(&i.cond).0 || scan(&i.cond).1 {
                            return None;
                        }
                        if let Expr::Let(c) = &*i.cond {
                            if crate::norm::pat_binds(&c.pat).iter().any(|x| mentions(&rest, &x.to_string())) {
                                return None;
                            }
                        }
                        let (_, els) = i.else_branch.as_ref()?;
                        let then_e: Expr = {
                            let t = &i.then_branch;
                            parse_quote!(#t)
                        };
                        let live = [&then_e, &**els].iter().filter(|e| !expr_diverges(e)).count();
                        if live > 1 && has_loop(&rest) {
                            return None;
                        }
                        let branch = |e: &Expr| -> Option<Block> {
                            let e2: Expr = if expr_diverges(e) {
                                tail_expr(e, &[], true)?
                            } else {
                                let pat = &l.pat;
                                let mut ss: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
                                ss.extend(rest.clone());
                                let inner = tailify(&Block { brace_token: b.brace_token, stmts: ss })?;
                                parse_quote!(#inner)
                            };
                            Some(parse_quote!({ #e2 }))
                        };
                        let tb = branch(&then_e)?;
                        let eb = branch(els)?;
                        let c = &i.cond;
                        let e2: Expr = parse_quote!(if #c #tb else #eb);
                        stmts.truncate(k);
                        stmts.push(Stmt::Expr(e2, None));
                        return Some(Block { brace_token: b.brace_token, stmts });
                    }
                    // let p = { ..; v };
                    if let Expr::Block(ib) = &*init.expr {
                        if ib.label.is_none() && ib.block.stmts.len() == 1 {
                            if let Some(Stmt::Expr(e, None)) = ib.block.stmts.first() {
                                let pat = &l.pat;
                                let mut ss: Vec<Stmt> = stmts[..k].to_vec();
                                ss.push(parse_quote!(let #pat = #e;));
                                ss.extend(rest.clone());
                                return tailify(&Block { brace_token: b.brace_token, stmts: ss });
                            }
                        }
                    }
                    return None;
                }
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: b.brace_token, stmts })
}

fn scan(e: &Expr) -> (bool, bool, bool) {
    let b: Block = parse_quote!({ #e });
    has_return_or_loop(&b)
}

fn has_loop(stmts: &[Stmt]) -> bool {
    has_return_or_loop(&Block { brace_token: Default::default(), stmts: stmts.to_vec() }).2
}

fn mentions(stmts: &[Stmt], id: &str) -> bool {
    fn go(ts: proc_macro2::TokenStream, id: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Group(g) => go(g.stream(), id),
            proc_macro2::TokenTree::Ident(i) => i == id,
            _ => false,
        })
    }
    stmts.iter().any(|s| go(s.to_token_stream(), id))
}

fn block_then(b: &Block, rest: &[Stmt], last: bool) -> Option<Block> {
    let mut b2 = b.clone();
    if !last && !diverges(b) {
        if let Some(Stmt::Expr(_, semi @ None)) = b2.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        b2.stmts.extend(rest.iter().cloned());
    }
    tailify(&b2)
}

fn tail_expr(e: &Expr, rest: &[Stmt], last: bool) -> Option<Expr> {
    match e {
        Expr::Return(r) => {
            let v = r.expr.clone()?;
            let (rr, q, _) = scan(&v);
            if rr || q {
                return None;
            }
            Some(*v)
        }
        Expr::Block(b) if b.label.is_none() => {
            let bb = block_then(&b.block, rest, last)?;
            Some(parse_quote!(#bb))
        }
        Expr::If(i) => {
            let (r, q, _) = scan(&i.cond);
            if r || q {
                return None;
            }
            if let Expr::Let(l) = &*i.cond {
                if crate::norm::pat_binds(&l.pat).iter().any(|x| mentions(rest, &x.to_string())) {
                    return None;
                }
            }
            let mut i2 = i.clone();
            i2.then_branch = block_then(&i.then_branch, rest, last)?;
            i2.else_branch = match &i.else_branch {
                Some((t, e)) => Some((*t, Box::new(tail_expr_or_rest(e, rest, last)?))),
                None => {
                    if last {
                        None
                    } else {
                        let inner = tailify(&Block { brace_token: Default::default(), stmts: rest.to_vec() })?;
                        Some((Default::default(), parse_quote!(#inner)))
                    }
                }
            };
            if let Some((_, e)) = &mut i2.else_branch {
                if !matches!(**e, Expr::Block(_) | Expr::If(_)) {
                    let x = e.clone();
                    *e = parse_quote!({ #x });
                }
            }
            Some(Expr::If(i2))
        }
        Expr::Match(m) => {
            let (r, q, _) = scan(&m.expr);
            if r || q {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                if crate::norm::pat_binds(&a.pat).iter().any(|x| mentions(rest, &x.to_string())) {
                    return None;
                }
                let nb = tail_expr_or_rest(&a.body, rest, last)?;
                a.body = Box::new(nb);
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m2))
        }
        // F(match e { .. })  ->  match e { .. => F(..) }
        Expr::Call(c) if last && c.args.len() == 1 && matches!(&*c.func, Expr::Path(_)) => {
            let (r, q, _) = scan(e);
            if !r && !q {
                return Some(e.clone());
            }
            let f = &c.func;
            if let Expr::Try(t) = &c.args[0] {
                // Ok(x?)  ->  match x { Ok(v) => Ok(v), Err(e) => Err(e) }
                let (r2, q2, _) = scan(&t.expr);
                if r2 || q2 || !matches!(&**f, Expr::Path(p) if p.path.is_ident("Ok")) {
                    return None;
                }
                let x = &t.expr;
                return Some(parse_quote!(match #x { Ok(__v) => Ok(__v), Err(__e) => Err(__e) }));
            }
            let wrapped = push_call(f, &c.args[0])?;
            tail_expr(&wrapped, rest, last)
        }
        _ => {
            let (r, q, _) = scan(e);
            if r || q {
                None
            } else if last {
                Some(e.clone())
            } else {
                None
            }
        }
    }
}

/// moves a call of one argument into the branches of that argument
fn push_call(f: &Expr, e: &Expr) -> Option<Expr> {
    Some(match e {
        Expr::Return(_) => e.clone(),
        Expr::Match(m) => {
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                a.body = Box::new(push_call(f, &a.body)?);
                a.comma = Some(Default::default());
            }
            Expr::Match(m2)
        }
        Expr::If(i) => {
            let mut i2 = i.clone();
            i2.then_branch = push_block(f, &i.then_branch)?;
            let (t, els) = i.else_branch.as_ref()?;
            let mut x = push_call(f, els)?;
            if !matches!(x, Expr::Block(_) | Expr::If(_)) {
                x = parse_quote!({ #x });
            }
            i2.else_branch = Some((*t, Box::new(x)));
            Expr::If(i2)
        }
        Expr::Block(b) if b.label.is_none() => {
            let bb = push_block(f, &b.block)?;
            parse_quote!(#bb)
        }
        _ => {
            let (r, q, _) = scan(e);
            if r || q {
                return None;
            }
            parse_quote!(#f(#e))
        }
    })
}

fn push_block(f: &Expr, b: &Block) -> Option<Block> {
    let mut b2 = b.clone();
    match b2.stmts.last_mut()? {
        Stmt::Expr(e, None) => *e = push_call(f, e)?,
        Stmt::Expr(e, Some(_)) if expr_diverges(e) => {}
        _ => return None,
    }
    Some(b2)
}

fn tail_expr_or_rest(e: &Expr, rest: &[Stmt], last: bool) -> Option<Expr> {
    match e {
        Expr::Return(_) | Expr::Block(_) | Expr::If(_) | Expr::Match(_) => tail_expr(e, rest, last),
        _ => {
            if last {
                tail_expr(e, rest, true)
            } else {
                let b: Block = parse_quote!({ #e });
                let bb = block_then(&b, rest, false)?;
                Some(parse_quote!(#bb))
            }
        }
    }
}

impl Inliner<'_> {
    fn lookup(&self, name: &str, method: bool) -> Option<(String, FnEntry)> {
        if self.known.contains(name) {
            return None;
        }
        let mut hits = self.idx.fns.iter().filter(|(k, f)| {
            k.rsplit("::").next() == Some(name)
                && f.block.is_some()
                && f.trait_.is_none()
                && (if method { f.self_ty.is_some() } else { true })
        });
        let all: Vec<_> = hits.by_ref().collect();
        // prefer the same impl, then the same module
        let pick: Vec<_> = all
            .iter()
            .filter(|(_, f)| method && f.self_ty.is_some() && f.self_ty == self.self_ty && f.module == self.module)
            .collect();
        if pick.len() == 1 {
            return Some((pick[0].0.clone(), pick[0].1.clone()));
        }
        let same_mod: Vec<_> = all
            .iter()
            .filter(|(_, f)| f.module == self.module && (method == f.self_ty.is_some()))
            .collect();
        if same_mod.len() == 1 {
            return Some((same_mod[0].0.clone(), same_mod[0].1.clone()));
        }
        let free: Vec<_> = all.iter().filter(|(_, f)| !method && f.self_ty.is_none()).collect();
        if free.len() == 1 {
            return Some((free[0].0.clone(), free[0].1.clone()));
        }
        None
    }

    fn expand(&mut self, key: &str, f: &FnEntry, recv: Option<&Expr>, args: Vec<Expr>, mode: Mode) -> Option<Expr> {
        let tail = mode == Mode::Tail;
        if self.depth > 6 {
            return None;
        }
        let body = f.block.clone()?;
        let (r, q, lp) = has_return_or_loop(&body);
        let body = if r || q {
            if tail {
                body
            } else if mode == Mode::Question {
                let e = fails_with(&f.sig.output)?;
                if self.fails.as_ref() != Some(&e) || !returns_fail(&body) {
                    return None;
                }
                body
            } else {
                if lp && r {
                    // a return inside a loop cannot be restructured
                }
                tailify(&body)?
            }
        } else {
            body
        };
        let (r2, q2, _) = has_return_or_loop(&body);
        if mode == Mode::Value && (r2 || q2) {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut renames = vec![];
        let mut it = args.into_iter();
        let mut body = body;
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(rc) => {
                    let recv = recv?;
                    if let Expr::Path(p) = recv {
                        if p.path.is_ident("self") {
                            continue;
                        }
                        // other receiver: rename self
                        if let Some(id) = p.path.get_ident() {
                            if rc.reference.is_some() {
                                BorrowSelf(rc.mutability.is_some()).visit_block_mut(&mut body);
                            }
                            renames.push(("self".to_owned(), id.to_string()));
                            continue;
                        }
                    }
                    return None;
                }
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    self.fresh += 1;
                    if let Pat::Ident(pi) = &*t.pat {
                        let new = Ident::new(&format!("__vx_arg{}", self.fresh), Span::call_site());
                        let m = &pi.mutability;
                        let ty = &t.ty;
                        let tys = ty.to_token_stream().to_string();
                        // reference-typed arguments keep their inferred type
                        if tys.contains('&') || tys.contains("impl") || tys.contains('\'') {
                            lets.push(parse_quote!(let #m #new = #a;));
                        } else {
                            lets.push(parse_quote!(let #m #new: #ty = #a;));
                        }
                        renames.push((pi.ident.to_string(), new.to_string()));
                    } else {
                        let p = &t.pat;
                        lets.push(parse_quote!(let #p = #a;));
                    }
                }
            }
        }
        crate::norm::Rename(renames).visit_block_mut(&mut body);
        self.inlined.push(key.to_owned());
        *self.counts.entry("helper function inlined into its caller".to_owned()).or_default() += 1;
        self.depth += 1;
        let mut e: Expr = if lets.is_empty() {
            parse_quote!(#body)
        } else {
            let ss = &body.stmts;
            parse_quote!({ #(#lets)* #(#ss)* })
        };
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }

    fn try_expr(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let recv_ok = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self") || p.path.get_ident().is_some());
                if !recv_ok {
                    return None;
                }
                let name = m.method.to_string();
                let (k, f) = self.lookup(&name, true)?;
                if !f.is_method {
                    return None;
                }
                let r = self.expand(&k, &f, Some(&m.receiver), m.args.iter().cloned().collect(), mode);
                if r.is_none() && mode != Mode::Question {
                    self.failed.push(k);
                }
                r
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last()?.ident.to_string();
                    if !name.chars().next()?.is_lowercase() {
                        return None;
                    }
                    let assoc = p.path.segments.len() == 2 && p.path.segments[0].ident == "Self";
                    if p.path.segments.len() > 1 && !assoc {
                        let f0 = p.path.segments[0].ident.to_string();
                        if !["crate", "self", "super"].contains(&f0.as_str()) {
                            return None;
                        }
                    }
                    let (k, f) = self.lookup(&name, assoc)?;
                    if f.is_method {
                        return None;
                    }
                    let r = self.expand(&k, &f, None, c.args.iter().cloned().collect(), mode);
                    if r.is_none() && mode != Mode::Question {
                        self.failed.push(k);
                    }
                    return r;
                }
                None
            }
            _ => None,
        }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                if let Some(n) = self.try_expr(x, Mode::Tail) {
                    r.expr = Some(Box::new(n));
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            if matches!(&*t.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                visit_mut::visit_expr_mut(self, &mut t.expr);
                if let Some(n) = self.try_expr(&t.expr, Mode::Question) {
                    *t.expr = n;
                } else if let Some(n) = self.try_expr(&t.expr, Mode::Value) {
                    *t.expr = n;
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = self.try_expr(e, Mode::Value) {
            *e = n;
        }
    }
}

/// inlines a call in the tail position of a function body (returns stay returns)
pub fn inline_tail(inl: &mut Inliner, b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail_pos(inl, e);
    }
}

fn tail_pos(inl: &mut Inliner, e: &mut Expr) {
    match e {
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                tail_pos(inl, &mut a.body);
            }
        }
        Expr::If(i) => {
            inline_tail(inl, &mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                tail_pos(inl, x);
            }
        }
        Expr::Block(b) => inline_tail(inl, &mut b.block),
        _ => {
            if let Some(n) = inl.try_expr(e, Mode::Tail) {
                *e = n;
            }
        }
    }
}
