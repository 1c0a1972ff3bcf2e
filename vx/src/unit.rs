//! Processes a unit file: Verus text with `//@` directives that pull functions
//! and items out of the expanded source.

use crate::index::{FnEntry, Index};
use crate::norm::{self, Flags, MarkCalls, MarkLoops, Norm, Rename, StripAttrs};
use crate::print::{self, Marks};
use crate::{inline, Counts};
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;
use syn::{FnArg, Ident, Item, Pat, ReturnType};

#[derive(Default)]
pub struct Opts {
    pub probe: bool,
    pub dropped: BTreeSet<String>,
    /// key -> the variables the function binds in the source the contracts were written for
    pub locals: std::collections::BTreeMap<String, Vec<String>>,
}

#[derive(Default)]
pub struct FnReport {
    pub key: String,
    pub found: String,
    pub props: Vec<String>,
    pub out_start: usize,
    pub out_end: usize,
    pub loops: Vec<String>,
    pub expected_loops: usize,
    pub inlined: Vec<String>,
    pub inline_failed: Vec<String>,
    pub missing_marks: Vec<String>,
    pub dropped: bool,
}

#[derive(Default)]
pub struct Res {
    pub text: String,
    pub fns: Vec<FnReport>,
    pub lost: Vec<(String, Vec<String>)>,
    pub items: Vec<String>,
    pub counts: Counts,
    pub maps: Vec<(String, usize)>,
    pub scan: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

impl Res {
    pub fn report_json(&self) -> String {
        let fns: Vec<String> = self
            .fns
            .iter()
            .map(|f| {
                format!(
                    "{{\"key\":{},\"found\":{},\"props\":{},\"start\":{},\"end\":{},\"loops\":{},\"expected_loops\":{},\"inlined\":{},\"inline_failed\":{},\"missing_marks\":{},\"dropped\":{}}}",
                    js(&f.key), js(&f.found), jl(&f.props), f.out_start, f.out_end, jl(&f.loops), f.expected_loops,
                    jl(&f.inlined), jl(&f.inline_failed), jl(&f.missing_marks), f.dropped
                )
            })
            .collect();
        let lost: Vec<String> = self
            .lost
            .iter()
            .map(|(k, p)| format!("{{\"key\":{},\"props\":{}}}", js(k), jl(p)))
            .collect();
        let counts: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let maps: Vec<String> = self.maps.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        format!(
            "{{\"fns\":[{}],\n\"lost\":[{}],\n\"items\":{},\n\"normalised\":{{{}}},\n\"model_maps\":{{{}}}}}\n",
            fns.join(",\n"),
            lost.join(","),
            jl(&self.items),
            counts.join(","),
            maps.join(",")
        )
    }
}

struct FnSpec {
    keys: Vec<String>,
    ret: Option<String>,
    params: Option<Vec<String>>,
    float: bool,
    trace: bool,
    strslice: bool,
    iter: bool,
    ser: bool,
    attrs: Vec<String>,
    sig: Option<String>,
    name: Option<String>,
    props: Vec<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    in_loop: BTreeMap<usize, String>,
    end_loop: BTreeMap<usize, String>,
    after_loop: BTreeMap<usize, String>,
    before_loop: BTreeMap<usize, String>,
    pre: String,
    calls: Vec<(String, bool, String)>,
    self_as: Option<String>,
    subst: Vec<(Vec<String>, TokenStream)>,
}

/// `//@include FILE [K=V ..]`: with arguments `$K` is replaced and the file may be included again
fn load(path: &Path, args: &[(String, String)], seen: &mut BTreeSet<PathBuf>) -> Vec<String> {
    let p = path.canonicalize().unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
    if !seen.insert(p.clone()) && args.is_empty() {
        return vec![];
    }
    let mut out = vec![];
    for l in std::fs::read_to_string(&p).unwrap().lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let mut w = f.split_whitespace();
            let file = w.next().unwrap();
            let a: Vec<(String, String)> =
                w.filter_map(|x| x.split_once('=')).map(|(k, v)| (format!("${}", k), v.replace('~', " "))).collect();
            out.extend(load(&p.parent().unwrap().join(file), &a, seen));
        } else {
            out.push(l.to_owned());
        }
    }
    for l in out.iter_mut() {
        for (k, v) in args {
            *l = l.replace(k, v);
        }
    }
    out
}

/// `//@for A,B x,y z,w` .. `//@endfor`: the lines between, once per tuple, `$A` `$B` replaced
fn unroll(lines: Vec<String>) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
        if let Some(r) = lines[i].trim().strip_prefix("//@for ") {
            let mut w = r.split_whitespace();
            let names: Vec<&str> = w.next().unwrap().split(',').collect();
            let end = (i..lines.len()).find(|k| lines[*k].trim() == "//@endfor").expect("missing //@endfor");
            for tuple in w {
                let vals: Vec<&str> = tuple.split(',').collect();
                for l in &lines[i + 1..end] {
                    let mut l = l.clone();
                    for (n, v) in names.iter().zip(&vals) {
                        l = l.replace(&format!("${}", n), v);
                    }
                    out.push(l);
                }
            }
            i = end + 1;
        } else {
            out.push(lines[i].clone());
            i += 1;
        }
    }
    out
}

struct Ctx<'a> {
    idx: &'a Index,
    maps: Vec<(Vec<String>, TokenStream)>,
    map_names: Vec<String>,
    map_hits: Vec<usize>,
    trace: BTreeSet<(String, usize)>,
    known: BTreeSet<String>,
    res: Res,
    default_props: Vec<String>,
    fresh: usize,
    locals: std::collections::BTreeMap<String, Vec<String>>,
    dropped: BTreeSet<String>,
    probe: bool,
    /// contracts only: another unit proves these bodies
    bodies_off: bool,
}

impl Ctx<'_> {
    fn line(&self) -> usize {
        self.res.text.matches('\n').count() + 1
    }

    fn item(&mut self, rest: &str, extra: &[String]) {
        // KEY [| prefix text]
        let (key, prefix) = match rest.split_once(" | ") {
            Some((k, p)) => (k.trim(), p.trim()),
            None => (rest.trim(), ""),
        };
        let it = match self.idx.find_item(key) {
            Some((_, i)) => i.clone(),
            None => {
                let p = self.default_props.clone();
                self.res.lost.push((format!("item {}", key), p));
                return;
            }
        };
        let mut it = it;
        StripAttrs.visit_item_mut(&mut it);
        {
            let mut n = Norm { counts: &mut self.res.counts, flags: Flags { float: prefix.contains("/*float*/"), ..Flags::default() }, fresh: 0, iters: 0, floats: BTreeSet::new(), kinds: Default::default() };
            match &mut it {
                Item::Static(s) => n.visit_expr_mut(&mut s.expr),
                Item::Const(s) => n.visit_expr_mut(&mut s.expr),
                _ => n.visit_item_mut(&mut it),
            }
        }
        let mut ts = it.to_token_stream();
        if let Item::Static(s) = &it {
            // static NAME: T = E;   ->  exec static NAME: T ensures .. { E }
            let (id, ty, e) = (&s.ident, &s.ty, &s.expr);
            let e = norm::map_tokens(e.to_token_stream(), &self.maps, &mut self.map_hits);
            // *b"..." array
            let start = self.line();
            self.res.text.push_str(&format!(
                "{} exec static {}: {}\n{}\n{{ {} }}\n",
                prefix,
                id,
                ty.to_token_stream(),
                extra.join("\n"),
                e
            ));
            let end = self.line();
            self.res.items.push(key.to_owned());
            self.res.fns.push(FnReport {
                key: key.to_owned(),
                found: format!("static {}", key),
                props: self.default_props.clone(),
                out_start: start,
                out_end: end,
                ..Default::default()
            });
            return;
        }
        ts = norm::map_tokens(ts, &self.maps, &mut self.map_hits);
        self.res.text.push_str(prefix);
        self.res.text.push('\n');
        self.res.text.push_str(&print::print(ts, &Marks::default()));
        self.res.text.push('\n');
        self.res.items.push(key.to_owned());
    }

    fn find(&self, sp: &FnSpec) -> Option<(String, FnEntry)> {
        for k in &sp.keys {
            if let Some((k, f)) = self.idx.find_fn(k) {
                if f.block.is_some() {
                    return Some((k.clone(), f.clone()));
                }
            }
        }
        None
    }

    fn func(&mut self, sp: &FnSpec) {
        let (found, f) = match self.find(sp) {
            Some(x) => x,
            None => {
                self.res.lost.push((sp.keys[0].clone(), sp.props.clone()));
                return;
            }
        };
        let mut sig = f.sig.clone();
        let mut block = f.block.clone().unwrap();
        StripAttrs.visit_block_mut(&mut block);
        StripAttrs.visit_signature_mut(&mut sig);
        let mut rep = FnReport { key: sp.keys[0].clone(), found: found.clone(), props: sp.props.clone(), ..Default::default() };

        // parameter names
        let mut renames = vec![];
        if let Some(want) = &sp.params {
            let mut k = 0;
            for inp in sig.inputs.iter_mut() {
                if let FnArg::Typed(t) = inp {
                    if let Pat::Ident(pi) = &mut *t.pat {
                        if k < want.len() && pi.ident != want[k].as_str() {
                            renames.push((pi.ident.to_string(), want[k].clone()));
                            pi.ident = Ident::new(&want[k], Span::call_site());
                        }
                    } else if let Pat::Wild(_) = &*t.pat {
                        if k < want.len() {
                            let id = Ident::new(&want[k], Span::call_site());
                            t.pat = syn::parse_quote!(#id);
                        }
                    }
                    k += 1;
                }
            }
        }
        if !renames.is_empty() {
            Rename(renames).visit_block_mut(&mut block);
            *self.res.counts.entry("parameter renamed to the contract's name".to_owned()).or_default() += 1;
        }
        // local names
        if let Some(want) = self.locals.get(&found) {
            let rn = norm::local_renames(&norm::locals(&block), want);
            if !rn.is_empty() {
                Rename(rn).visit_block_mut(&mut block);
                *self.res.counts.entry("local variable renamed to the name the contract knows".to_owned()).or_default() += 1;
            }
        }
        // helper inlining
        {
            let mut inl = inline::Inliner {
                fails: inline::fails_with(&sig.output),
                idx: self.idx,
                module: f.module.clone(),
                self_ty: f.self_ty.clone(),
                known: &self.known,
                counts: &mut self.res.counts,
                inlined: vec![],
                failed: vec![],
                depth: 0,
                fresh: 0,
            };
            inline::inline_tail(&mut inl, &mut block);
            inl.visit_block_mut(&mut block);
            rep.inlined = inl.inlined;
            rep.inline_failed = inl.failed;
        }
        // normalisation
        {
            let flags = Flags {
                float: sp.float,
                trace: if sp.trace { self.trace.clone() } else { BTreeSet::new() },
                strslice: sp.strslice,
                iter: sp.iter,
            };
            let floats = if sp.float { norm::float_names(&sig, &block) } else { BTreeSet::new() };
            let mut n = Norm { counts: &mut self.res.counts, flags, fresh: 0, iters: 0, floats, kinds: self.idx.kinds() };
            n.visit_block_mut(&mut block);
            self.fresh = n.fresh;
        }
        if sp.ser {
            let out = sig.output.to_token_stream().to_string();
            let mut w = norm::SerWrap { counts: &mut self.res.counts, idx: self.idx, ret_dyn: out.contains("dyn") && out.contains("Serialize") };
            w.visit_block_mut(&mut block);
        }
        struct P;
        impl VisitMut for P {}
        // markers
        let mut ml = MarkLoops::default();
        ml.visit_block_mut(&mut block);
        rep.loops = ml.kinds.clone();
        rep.expected_loops = sp.loops.len();
        let mut marks = Marks {
            loops: sp.loops.clone(),
            in_loop: sp.in_loop.clone(),
            end_loop: sp.end_loop.clone(),
            after_loop: sp.after_loop.clone(),
            before_loop: sp.before_loop.clone(),
            ..Default::default()
        };
        let mut want = vec![];
        let mut at_tail = vec![];
        for (k, (name, before, text)) in sp.calls.iter().enumerate() {
            // `after TAIL`: the end of a body that returns nothing
            if name == "TAIL" && !*before {
                if matches!(sig.output, ReturnType::Default) {
                    if let Some(syn::Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    let lit = proc_macro2::Literal::usize_unsuffixed(k);
                    let st: syn::Stmt = syn::parse_quote!(vx_proof!(#lit););
                    block.stmts.push(st);
                    at_tail.push(k);
                }
                marks.proofs.insert(k, text.clone());
                continue;
            }
            // `before TAIL`: before the value the body ends in
            if name == "TAIL" {
                if let Some(syn::Stmt::Expr(_, None)) = block.stmts.last() {
                    let lit = proc_macro2::Literal::usize_unsuffixed(k);
                    let st: syn::Stmt = syn::parse_quote!(vx_proof!(#lit););
                    let n = block.stmts.len() - 1;
                    block.stmts.insert(n, st);
                    at_tail.push(k);
                }
                marks.proofs.insert(k, text.clone());
                continue;
            }
            want.push((name.clone(), *before, k));
            marks.proofs.insert(k, text.clone());
        }
        let mut mc = MarkCalls { want, hits: vec![] };
        mc.visit_block_mut(&mut block);
        for (k, (name, _, _)) in sp.calls.iter().enumerate() {
            if !mc.hits.contains(&k) && !at_tail.contains(&k) {
                rep.missing_marks.push(name.clone());
            }
        }
        // signature text
        let mut ts_sig;
        if let Some(s) = &sp.sig {
            ts_sig = s.clone();
        } else {
            let mut sig2 = sig.clone();
            norm::ShortPaths.visit_signature_mut(&mut sig2);
            if let Some(n) = &sp.name {
                sig2.ident = Ident::new(n, Span::call_site());
            }
            if let Some(ty) = &sp.self_as {
                // &mut self of a foreign impl: keep `self`, the unit opens its own impl
                let _ = ty;
            }
            if sp.trace {
                let a: FnArg = syn::parse_quote!(Tracked(__tr): Tracked<&mut Trace>);
                sig2.inputs.push(a);
            }
            let out = sig2.output.clone();
            sig2.output = ReturnType::Default;
            let wh = sig2.generics.where_clause.take();
            ts_sig = norm::map_tokens(sig2.to_token_stream(), &self.maps, &mut self.map_hits).to_string();
            if let ReturnType::Type(_, t) = &out {
                let t = norm::map_tokens(t.to_token_stream(), &self.maps, &mut self.map_hits);
                match &sp.ret {
                    Some(r) => ts_sig.push_str(&format!(" -> ({}: {})", r, t)),
                    None => ts_sig.push_str(&format!(" -> {}", t)),
                }
            }
            if let Some(w) = wh {
                let w = norm::map_tokens(w.to_token_stream(), &self.maps, &mut self.map_hits);
                ts_sig.push_str(&format!(" {}", w));
            }
        }
        let mut ts_body = TokenStream::new();
        for s in &block.stmts {
            s.to_tokens(&mut ts_body);
        }
        let ts_body = norm::map_tokens(ts_body, &self.maps, &mut self.map_hits);
        let mut zero = vec![0; sp.subst.len()];
        let ts_body = norm::map_tokens(ts_body, &sp.subst, &mut zero);
        for (k, z) in zero.iter().enumerate() {
            if *z > 0 {
                *self
                    .res
                    .counts
                    .entry(format!("local rewrite in {}: {} -> {}", sp.keys[0], sp.subst[k].0.join(" "), sp.subst[k].1))
                    .or_default() += z;
            }
        }
        rep.out_start = self.line();
        let dropped = self.dropped.contains(&sp.keys[0]) || self.bodies_off;
        rep.dropped = dropped;
        if dropped {
            self.res.text.push_str("#[verifier::external_body]\n");
        }
        for a in &sp.attrs {
            self.res.text.push_str(a);
            self.res.text.push('\n');
        }
        self.res.text.push_str(&ts_sig);
        self.res.text.push('\n');
        self.res.text.push_str(&sp.spec);
        self.res.text.push_str("{\n");
        if dropped {
            self.res.text.push_str("unimplemented!()");
        } else {
            self.res.text.push_str(&sp.pre);
            if self.probe {
                self.res.text.push_str("proof { assert(false); }\n");
            }
            self.res.text.push_str(&print::print(ts_body, &marks));
        }
        self.res.text.push_str("\n}\n");
        rep.out_end = self.line();
        if !self.bodies_off {
            self.res.fns.push(rep);
        }
    }
}

pub fn process(idx: &Index, path: &str, opts: &Opts) -> Res {
    let lines = unroll(load(Path::new(path), &[], &mut BTreeSet::new()));
    let mut cx = Ctx {
        idx,
        maps: vec![],
        map_names: vec![],
        map_hits: vec![],
        trace: BTreeSet::new(),
        known: BTreeSet::new(),
        res: Res::default(),
        default_props: vec![],
        fresh: 0,
        dropped: opts.dropped.clone(),
        bodies_off: false,
        locals: opts.locals.clone(),
        probe: opts.probe,
    };
    // pass 1: names the unit knows
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@fn ") {
            for k in r.split(" | ") {
                cx.known.insert(k.rsplit("::").next().unwrap().trim().to_owned());
            }
        } else if let Some(r) = t.strip_prefix("//@known ") {
            for k in r.split_whitespace() {
                cx.known.insert(k.to_owned());
            }
        } else if !t.starts_with("//") {
            if let Some(p) = t.find("fn ") {
                let name: String =
                    t[p + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !name.is_empty() {
                    cx.known.insert(name);
                }
            }
            for q in ["vx_", "core::", "std::"] {
                let _ = q;
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        let t = l.trim();
        i += 1;
        if let Some(r) = t.strip_prefix("//@map ") {
            let (a, b) = r.split_once(" => ").expect("map");
            cx.maps.push((norm::parse_pat_tokens(a), b.parse().unwrap()));
            cx.map_names.push(format!("{} => {}", a.trim(), b.trim()));
            cx.map_hits.push(0);
        } else if t.strip_prefix("//@clearmaps").is_some() {
            for (n, h) in cx.map_names.drain(..).zip(cx.map_hits.drain(..)) {
                cx.res.maps.push((n, h));
            }
            cx.maps.clear();
        } else if let Some(r) = t.strip_prefix("//@bodies ") {
            cx.bodies_off = r.trim() == "off";
        } else if let Some(r) = t.strip_prefix("//@trace ") {
            for w in r.split_whitespace() {
                let (n, k) = w.split_once('/').unwrap();
                cx.trace.insert((n.to_owned(), k.parse().unwrap()));
            }
        } else if t.starts_with("//@lemma ") {
        } else if t.strip_prefix("//@known ").is_some() {
        } else if let Some(r) = t.strip_prefix("//@props ") {
            cx.default_props = r.split_whitespace().map(str::to_owned).collect();
        } else if let Some(r) = t.strip_prefix("//@item ") {
            cx.item(r, &[]);
        } else if let Some(r) = t.strip_prefix("//@static ") {
            let mut extra = vec![];
            while lines[i].trim() != "//@end" {
                extra.push(lines[i].clone());
                i += 1;
            }
            i += 1;
            cx.item(r, &extra);
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let mut sp = FnSpec {
                keys: r.split(" | ").map(|s| s.trim().to_owned()).collect(),
                ret: None,
                params: None,
                float: false,
                trace: false,
                strslice: false,
                iter: false,
                ser: false,
                attrs: vec![],
                sig: None,
                name: None,
                props: cx.default_props.clone(),
                spec: String::new(),
                loops: BTreeMap::new(),
                in_loop: BTreeMap::new(),
                end_loop: BTreeMap::new(),
                after_loop: BTreeMap::new(),
                before_loop: BTreeMap::new(),
                pre: String::new(),
                calls: vec![],
                self_as: None,
                subst: vec![],
            };
            enum Tgt {
                Spec,
                Loop(usize),
                InLoop(usize),
                EndLoop(usize),
                AfterLoop(usize),
                BeforeLoop(usize),
                Pre,
                Call(usize),
            }
            let mut tgt = Tgt::Spec;
            loop {
                let l = lines.get(i).expect("missing //@end").clone();
                i += 1;
                let t = l.trim();
                if t == "//@end" {
                    break;
                }
                if let Some(d) = t.strip_prefix("//@") {
                    let (w, r) = d.split_once(' ').unwrap_or((d, ""));
                    let r = r.trim();
                    match w {
                        "ret" => sp.ret = Some(r.to_owned()),
                        "params" => sp.params = Some(r.split_whitespace().map(str::to_owned).collect()),
                        "flags" => {
                            for x in r.split_whitespace() {
                                match x {
                                    "float" => sp.float = true,
                                    "trace" => sp.trace = true,
                                    "ser" => sp.ser = true,
                                    "strslice" => sp.strslice = true,
                                    "iter" => sp.iter = true,
                                    _ if x.starts_with("$") => {}
                                    _ => panic!("flag {}", x),
                                }
                            }
                        }
                        "attr" => sp.attrs.push(r.to_owned()),
                        "sig" => sp.sig = Some(r.to_owned()),
                        "name" => sp.name = Some(r.to_owned()),
                        "props" => sp.props = r.split_whitespace().map(str::to_owned).collect(),
                        "loop" => tgt = Tgt::Loop(r.parse().unwrap()),
                        "in_loop" => tgt = Tgt::InLoop(r.parse().unwrap()),
                        "end_loop" => tgt = Tgt::EndLoop(r.parse().unwrap()),
                        "after_loop" => tgt = Tgt::AfterLoop(r.parse().unwrap()),
                        "before_loop" => tgt = Tgt::BeforeLoop(r.parse().unwrap()),
                        "pre" => tgt = Tgt::Pre,
                        "spec" => tgt = Tgt::Spec,
                        "after" => {
                            sp.calls.push((r.to_owned(), false, String::new()));
                            tgt = Tgt::Call(sp.calls.len() - 1);
                        }
                        "before" => {
                            sp.calls.push((r.to_owned(), true, String::new()));
                            tgt = Tgt::Call(sp.calls.len() - 1);
                        }
                        "subst" => {
                            let (a, b) = r.split_once(" => ").expect("subst");
                            sp.subst.push((norm::parse_pat_tokens(a), b.parse().unwrap()));
                        }
                        _ => panic!("unknown directive {}", w),
                    }
                    continue;
                }
                let dst = match tgt {
                    Tgt::Spec => &mut sp.spec,
                    Tgt::Pre => &mut sp.pre,
                    Tgt::Loop(n) => sp.loops.entry(n).or_default(),
                    Tgt::InLoop(n) => sp.in_loop.entry(n).or_default(),
                    Tgt::EndLoop(n) => sp.end_loop.entry(n).or_default(),
                    Tgt::BeforeLoop(n) => sp.before_loop.entry(n).or_default(),
                    Tgt::AfterLoop(n) => sp.after_loop.entry(n).or_default(),
                    Tgt::Call(k) => &mut sp.calls[k].2,
                };
                dst.push_str(&l);
                dst.push('\n');
            }
            cx.func(&sp);
        } else {
            cx.res.text.push_str(l);
            cx.res.text.push('\n');
        }
    }
    for (n, h) in cx.map_names.drain(..).zip(cx.map_hits.drain(..)) {
        cx.res.maps.push((n, h));
    }
    cx.res
}
