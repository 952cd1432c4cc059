//! Loop forms that are the same loop written differently, brought to the form the lowering knows.
//!   let mut it = E; while let Some(p) = it.next() { B }   ->  for p in E { B }      (`it` not used elsewhere)
//!   loop { if c { break; } B }                            ->  while !(c) { B }
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Norm;

fn mentions(t: &impl ToTokens, id: &str) -> bool {
    fn rec(ts: proc_macro2::TokenStream, id: &str) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == id,
            proc_macro2::TokenTree::Group(g) => rec(g.stream(), id),
            // an identifier captured by a format string
            proc_macro2::TokenTree::Literal(l) => l.to_string().contains(&format!("{{{id}")),
            _ => false,
        })
    }
    rec(t.to_token_stream(), id)
}

fn while_next(e: &Expr) -> Option<(String, Pat, syn::Block, Option<syn::Label>)> {
    let Expr::While(w) = e else { return None };
    let Expr::Let(l) = &*w.cond else { return None };
    let Pat::TupleStruct(ts) = &*l.pat else { return None };
    if ts.path.segments.last()?.ident != "Some" || ts.elems.len() != 1 {
        return None;
    }
    let Expr::MethodCall(mc) = &*l.expr else { return None };
    if mc.method != "next" || !mc.args.is_empty() {
        return None;
    }
    let Expr::Path(p) = &*mc.receiver else { return None };
    Some((p.path.get_ident()?.to_string(), ts.elems[0].clone(), w.body.clone(), w.label.clone()))
}

impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let hit = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let id = match &l.pat {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => return None,
                };
                let init = l.init.as_ref()?;
                if init.diverge.is_some() {
                    return None;
                }
                let Stmt::Expr(e, _) = &b.stmts[i + 1] else { return None };
                let (it, pat, body, label) = while_next(e)?;
                if it != id || mentions(&body, &id) || b.stmts[i + 2..].iter().any(|s| mentions(s, &id)) {
                    return None;
                }
                let src = &init.expr;
                let f: Expr = parse_quote!(#label for #pat in #src #body);
                Some(Stmt::Expr(f, None))
            })();
            if let Some(s) = hit {
                b.stmts[i] = s;
                b.stmts.remove(i + 1);
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Loop(l) = e {
            let c = match l.body.stmts.first() {
                Some(Stmt::Expr(Expr::If(i), _)) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) => match &i.then_branch.stmts[..] {
                    [Stmt::Expr(Expr::Break(b), _)] if b.expr.is_none() && b.label.is_none() => Some((*i.cond).clone()),
                    _ => None,
                },
                _ => None,
            };
            if let Some(c) = c {
                let (lbl, body) = (&l.label, &l.body.stmts[1..]);
                let nc: Expr = match &c {
                    Expr::Binary(b) => {
                        let (x, y) = (&b.left, &b.right);
                        match b.op {
                            syn::BinOp::Ge(_) => parse_quote!(#x < #y),
                            syn::BinOp::Gt(_) => parse_quote!(#x <= #y),
                            syn::BinOp::Lt(_) => parse_quote!(#x >= #y),
                            syn::BinOp::Le(_) => parse_quote!(#x > #y),
                            syn::BinOp::Eq(_) => parse_quote!(#x != #y),
                            syn::BinOp::Ne(_) => parse_quote!(#x == #y),
                            _ => parse_quote!(!(#c)),
                        }
                    }
                    _ => parse_quote!(!(#c)),
                };
                *e = parse_quote!(#lbl while #nc { #(#body)* });
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
