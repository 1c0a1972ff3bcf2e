use quote::ToTokens;
use std::collections::BTreeMap;
use syn::{Block, FnArg, ImplItem, Item, Signature, TraitItem};

#[derive(Clone)]
pub struct FnEntry {
    pub sig: Signature,
    pub block: Option<Block>,
    /// self type of the surrounding impl, printed without spaces
    pub self_ty: Option<String>,
    /// "" for inherent impls, trait name otherwise
    pub trait_: Option<String>,
    pub module: String,
    pub is_method: bool,
    pub line: usize,
}

#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, FnEntry>,
    pub items: BTreeMap<String, Item>,
}

pub fn compact(t: &impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    for i in 0..cs.len() {
        if cs[i] == ' ' {
            let p = if i > 0 { cs[i - 1] } else { ' ' };
            let n = if i + 1 < cs.len() { cs[i + 1] } else { ' ' };
            let w = |c: char| c.is_alphanumeric() || c == '_' || c == '\'';
            if w(p) && w(n) {
                out.push(' ');
            }
        } else {
            out.push(cs[i]);
        }
    }
    out
}

fn strip_generics(s: &str) -> String {
    // Deserializer<'a,'b> -> Deserializer, keep the rest verbatim otherwise
    match s.find('<') {
        Some(i) => s[..i].to_owned(),
        None => s.to_owned(),
    }
}

impl Index {
    pub fn build(file: &syn::File) -> Index {
        let mut ix = Index::default();
        for it in &file.items {
            ix.item("", "", it);
        }
        ix
    }

    fn add_fn(
        &mut self,
        key: String,
        module: &str,
        sig: &Signature,
        block: Option<&Block>,
        self_ty: Option<String>,
        trait_: Option<String>,
    ) {
        let is_method = matches!(sig.inputs.first(), Some(FnArg::Receiver(_)));
        let line = sig.ident.span().start().line;
        self.fns.insert(
            key.clone(),
            FnEntry {
                sig: sig.clone(),
                block: block.cloned(),
                self_ty,
                trait_,
                module: module.to_owned(),
                is_method,
                line,
            },
        );
        if let Some(b) = block {
            self.block(&key, module, b);
        }
    }

    fn block(&mut self, prefix: &str, module: &str, b: &Block) {
        struct V<'i>(Vec<&'i Item>);
        impl<'i> syn::visit::Visit<'i> for V<'i> {
            fn visit_item(&mut self, it: &'i Item) {
                self.0.push(it);
            }
        }
        let mut v = V(vec![]);
        syn::visit::Visit::visit_block(&mut v, b);
        for it in v.0 {
            self.item(prefix, module, it);
        }
    }

    fn item(&mut self, prefix: &str, module: &str, it: &Item) {
        let join = |n: &str| {
            if prefix.is_empty() {
                n.to_owned()
            } else {
                format!("{}::{}", prefix, n)
            }
        };
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    let p = join(&m.ident.to_string());
                    for i in items {
                        self.item(&p, &p, i);
                    }
                }
            }
            Item::Fn(f) => self.add_fn(
                join(&f.sig.ident.to_string()),
                module,
                &f.sig,
                Some(&f.block),
                None,
                None,
            ),
            Item::Impl(im) => {
                let ty = compact(&im.self_ty);
                let (head, tr) = match &im.trait_ {
                    Some((_, p, _)) => {
                        let mut p2 = p.clone();
                        // keep only the last segment of the trait path
                        let last = p2.segments.pop().unwrap().into_value();
                        (format!("<{} for {}>", compact(&last), ty), Some(compact(&last)))
                    }
                    None => (strip_generics(&ty), None),
                };
                let p = join(&head);
                for i in &im.items {
                    if let ImplItem::Fn(f) = i {
                        self.add_fn(
                            format!("{}::{}", p, f.sig.ident),
                            module,
                            &f.sig,
                            Some(&f.block),
                            Some(ty.clone()),
                            tr.clone(),
                        );
                    }
                }
                self.items.insert(format!("{}::impl", p), it.clone());
            }
            Item::Trait(t) => {
                let p = join(&t.ident.to_string());
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        self.add_fn(
                            format!("{}::{}", p, f.sig.ident),
                            module,
                            &f.sig,
                            f.default.as_ref(),
                            None,
                            Some(t.ident.to_string()),
                        );
                    }
                }
                self.items.insert(p, it.clone());
            }
            Item::Struct(s) => {
                self.items.insert(join(&s.ident.to_string()), it.clone());
            }
            Item::Enum(s) => {
                self.items.insert(join(&s.ident.to_string()), it.clone());
            }
            Item::Static(s) => {
                self.items.insert(join(&s.ident.to_string()), it.clone());
            }
            Item::Const(s) => {
                if s.ident == "_" {
                    if let syn::Expr::Block(b) = &*s.expr {
                        self.block(prefix, module, &b.block);
                    }
                } else {
                    self.items.insert(join(&s.ident.to_string()), it.clone());
                }
            }
            Item::Type(s) => {
                self.items.insert(join(&s.ident.to_string()), it.clone());
            }
            _ => {}
        }
    }

    /// exact key, else unique key with the same suffix
    pub fn find_fn(&self, key: &str) -> Option<(&String, &FnEntry)> {
        if let Some(e) = self.fns.get_key_value(key) {
            return Some(e);
        }
        let suffix = format!("::{}", key);
        let mut hits = self.fns.iter().filter(|(k, _)| k.ends_with(&suffix));
        match (hits.next(), hits.next()) {
            (Some(h), None) => Some(h),
            _ => None,
        }
    }

    pub fn find_item(&self, key: &str) -> Option<(&String, &Item)> {
        if let Some(e) = self.items.get_key_value(key) {
            return Some(e);
        }
        let suffix = format!("::{}", key);
        let mut hits = self.items.iter().filter(|(k, _)| k.ends_with(&suffix));
        match (hits.next(), hits.next()) {
            (Some(h), None) => Some(h),
            _ => None,
        }
    }

    /// (field, type) of every struct of this name
    pub fn struct_fields(&self, name: &str) -> Vec<(String, String)> {
        let mut out = vec![];
        for it in self.items.values() {
            if let Item::Struct(s) = it {
                if s.ident == name {
                    for (k, f) in s.fields.iter().enumerate() {
                        let n = f.ident.as_ref().map_or(k.to_string(), |i| i.to_string());
                        out.push((n, f.ty.to_token_stream().to_string()));
                    }
                }
            }
        }
        out
    }
}

impl Index {
    /// what the functions of the source return: 'O'ption or 'R'esult, where all of one name agree
    pub fn kinds(&self) -> BTreeMap<String, char> {
        let mut out: BTreeMap<String, Option<char>> = BTreeMap::new();
        for (k, f) in &self.fns {
            let name = k.rsplit("::").next().unwrap_or("").to_owned();
            let kind = match &f.sig.output {
                syn::ReturnType::Type(_, t) => match &**t {
                    syn::Type::Path(p) => match p.path.segments.last().map(|s| s.ident.to_string()).as_deref() {
                        Some("Option") => Some('O'),
                        Some("Result") => Some('R'),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            let e = out.entry(name).or_insert(kind);
            if *e != kind {
                *e = None;
            }
        }
        out.into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect()
    }
}
