//! Inlining of uncontracted private helpers (so an extracted helper does not need a contract).
use crate::contract::Contracts;
use quote::format_ident;
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

#[derive(Clone)]
pub struct Helper {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub owner: String, // "" free fn, type or trait name otherwise
}
pub type Helpers = HashMap<(String, String), Helper>;

pub fn collect(items: &[syn::Item]) -> Helpers {
    let mut h = HashMap::new();
    let mut add = |owner: &str, sig: &syn::Signature, b: &syn::Block| {
        h.insert((owner.to_string(), sig.ident.to_string()), Helper { sig: sig.clone(), block: b.clone(), owner: owner.to_string() });
    };
    for it in items {
        match it {
            syn::Item::Fn(f) => add("", &f.sig, &f.block),
            syn::Item::Impl(i) => {
                let t = crate::type_name(&i.self_ty);
                // conversions are reached through traits, several per type
                let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                if matches!(tr.as_str(), "From" | "TryFrom" | "Index" | "IndexMut" | "Display") {
                    continue;
                }
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        add(&t, &f.sig, &f.block);
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if let Some(b) = &f.default {
                            add(&t.ident.to_string(), &f.sig, b);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    h
}

struct HasEarly {
    ret: bool,
    ret_ok: bool,
    q: bool,
}
impl<'ast> Visit<'ast> for HasEarly {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.ret = true;
        let err = match r.expr.as_deref() {
            Some(Expr::Macro(m)) => m.mac.path.is_ident("err"),
            Some(Expr::Call(c)) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")),
            _ => false,
        };
        if !err {
            self.ret_ok = true;
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

fn early(b: &syn::Block) -> HasEarly {
    let mut v = HasEarly { ret: false, ret_ok: false, q: false };
    v.visit_block(b);
    v
}

struct Inl<'a> {
    helpers: &'a Helpers,
    cs: &'a Contracts,
    modpath: String,
    self_ty: String,
    out: &'a mut Vec<String>,
    notes: &'a mut Vec<String>,
    depth: usize,
    n: usize,
    stack: Vec<String>,
}

impl Inl<'_> {
    fn contracted(&self, owner: &str, name: &str) -> bool {
        let p = if owner.is_empty() { format!("{}::{name}", self.modpath) } else { format!("{}::{owner}::{name}", self.modpath) };
        if self.cs.fns.contains_key(&p) {
            return true;
        }
        // trait impls
        self.cs.fns.keys().any(|k| k.starts_with(&format!("{}::{owner} as ", self.modpath)) && k.ends_with(&format!("::{name}")))
    }

    fn find(&self, e: &Expr) -> Option<(Helper, Vec<Expr>, String)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let owner = match segs.len() {
                    1 => String::new(),
                    2 if segs[0] == "Self" => self.self_ty.clone(),
                    2 if segs[0] == "self" || segs[0] == "super" => String::new(),
                    2 => segs[0].clone(),
                    _ => return None,
                };
                let h = self.helpers.get(&(owner.clone(), name.clone()))?;
                if self.contracted(&owner, &name) {
                    return None;
                }
                Some((h.clone(), c.args.iter().cloned().collect(), format!("{owner}::{name}")))
            }
            Expr::MethodCall(m) => {
                let Expr::Path(p) = &*m.receiver else { return None };
                if !p.path.is_ident("self") {
                    return None;
                }
                let name = m.method.to_string();
                let h = self.helpers.get(&(self.self_ty.clone(), name.clone()))?;
                if self.contracted(&self.self_ty, &name) {
                    return None;
                }
                let mut a = vec![parse_quote!(self)];
                a.extend(m.args.iter().cloned());
                Some((h.clone(), a, format!("{}::{name}", self.self_ty)))
            }
            _ => None,
        }
    }

    fn bind(&mut self, h: &Helper, args: Vec<Expr>) -> Option<Vec<Stmt>> {
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        if !h.sig.generics.params.is_empty() && h.sig.generics.type_params().next().is_some() {
            return None;
        }
        if h.sig.inputs.len() != args.len() {
            return None;
        }
        self.n += 1;
        for (i, (p, a)) in h.sig.inputs.iter().zip(args).enumerate() {
            match p {
                syn::FnArg::Receiver(_) => {}
                syn::FnArg::Typed(t) => {
                    let id = format_ident!("__h{}_{}", self.n, i);
                    let mut ty = (*t.ty).clone();
                    strip_lifetimes(&mut ty);
                    let pat = &t.pat;
                    pre.push(parse_quote!(let #id: #ty = #a;));
                    post.push(parse_quote!(let #pat = #id;));
                }
            }
        }
        pre.extend(post);
        Some(pre)
    }
}

fn strip_lifetimes(t: &mut syn::Type) {
    struct S;
    impl VisitMut for S {
        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    S.visit_type_mut(t);
}

impl VisitMut for Inl<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth > 4 {
            return;
        }
        // h(..)?
        if let Expr::Try(t) = e {
            if let Some((h, args, nm)) = self.find(&t.expr) {
                if self.stack.contains(&nm) {
                    return;
                }
                let ea = early(&h.block);
                if ea.ret_ok {
                    self.notes.push(format!("uncontracted helper {nm} with early return"));
                    return;
                }
                if let Some(pre) = self.bind(&h, args) {
                    let mut blk = h.block.clone();
                    self.stack.push(nm.clone());
                    self.depth += 1;
                    let save = self.self_ty.clone();
                    self.visit_block_mut(&mut blk);
                    self.self_ty = save;
                    self.depth -= 1;
                    self.stack.pop();
                    let tail = match blk.stmts.pop() {
                        Some(Stmt::Expr(x, None)) => x,
                        other => {
                            blk.stmts.extend(other);
                            self.notes.push(format!("uncontracted helper {nm} without tail"));
                            return;
                        }
                    };
                    let stmts = &blk.stmts;
                    let tail = question(tail);
                    self.out.push(nm);
                    *e = parse_quote!({ #(#pre)* #(#stmts)* #tail });
                }
            }
            return;
        }
        if let Some((h, args, nm)) = self.find(e) {
            if self.stack.contains(&nm) {
                return;
            }
            let ea = early(&h.block);
            if ea.ret || ea.q {
                // resolved by the enclosing `?` rule, otherwise reported
                return;
            }
            if let Some(pre) = self.bind(&h, args) {
                let mut blk = h.block.clone();
                self.stack.push(nm.clone());
                self.depth += 1;
                self.visit_block_mut(&mut blk);
                self.depth -= 1;
                self.stack.pop();
                let stmts = &blk.stmts;
                self.out.push(nm);
                *e = parse_quote!({ #(#pre)* #(#stmts)* });
            }
        }
    }
}

/// value of `tail?`
fn question(tail: Expr) -> Expr {
    match tail {
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => {
            let a = &c.args[0];
            parse_quote!(#a)
        }
        Expr::Macro(m) if m.mac.path.is_ident("err") => parse_quote!(return #m),
        Expr::If(mut i) => {
            i.then_branch = qblock(i.then_branch);
            if let Some((t, els)) = i.else_branch {
                i.else_branch = Some((t, Box::new(question(*els))));
            }
            Expr::If(i)
        }
        Expr::Block(mut b) => {
            b.block = qblock(b.block);
            Expr::Block(b)
        }
        Expr::Match(mut m) => {
            for a in m.arms.iter_mut() {
                *a.body = question((*a.body).clone());
            }
            Expr::Match(m)
        }
        Expr::Return(r) => Expr::Return(r),
        t => parse_quote!(#t?),
    }
}
fn qblock(mut b: syn::Block) -> syn::Block {
    if let Some(Stmt::Expr(x, None)) = b.stmts.pop() {
        b.stmts.push(Stmt::Expr(question(x), None));
    }
    b
}

pub fn inline_helpers(
    b: &mut syn::Block,
    helpers: &Helpers,
    cs: &Contracts,
    modpath: &str,
    self_ty: &str,
    out: &mut Vec<String>,
    notes: &mut Vec<String>,
) {
    // `h(..)` in tail position: treat as `Ok(h(..)?)` when h returns a Result with early exits
    let mut v = Inl {
        helpers,
        cs,
        modpath: modpath.into(),
        self_ty: self_ty.into(),
        out,
        notes,
        depth: 0,
        n: 0,
        stack: vec![],
    };
    if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() {
        if let Some((h, _, _)) = v.find(x) {
            let ea = early(&h.block);
            let is_res = matches!(&h.sig.output, syn::ReturnType::Type(_, t) if crate::type_name(t) == "Result");
            if is_res && (ea.ret || ea.q) && !ea.ret_ok {
                let y = x.clone();
                *x = parse_quote!(Ok(#y?));
            }
        }
    }
    v.visit_block_mut(b);
    // anything left un-inlined
    struct Left<'a, 'b>(&'a Inl<'b>, Vec<String>);
    impl<'ast> Visit<'ast> for Left<'_, '_> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            if let Some((_, _, nm)) = self.0.find(e) {
                self.1.push(nm);
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut l = Left(&v, vec![]);
    l.visit_block(b);
    let left = l.1;
    for nm in left {
        notes.push(format!("unsupported: uncontracted helper {nm}"));
    }
}
