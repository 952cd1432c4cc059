//! iterator chains with closures -> `for` loops (same order of evaluation, laziness has no visible effect on pure adaptors)
use quote::format_ident;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

#[derive(Default)]
pub struct Chains {
    pub n: usize,
}

enum Stage {
    Map(syn::ExprClosure),
    Filter(syn::ExprClosure),
}

pub fn closure1(e: &syn::ExprMethodCall) -> Option<syn::ExprClosure> {
    if e.args.len() != 1 {
        return None;
    }
    match &e.args[0] {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            // early exits belong to the closure
            let mut x = Exits(false);
            syn::visit::Visit::visit_expr(&mut x, &c.body);
            if x.0 {
                None
            } else {
                Some(c.clone())
            }
        }
        _ => None,
    }
}
struct Exits(bool);
impl<'a> syn::visit::Visit<'a> for Exits {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn peel(e: &Expr) -> (Expr, Vec<Stage>) {
    let mut cur = e.clone();
    let mut st = vec![];
    loop {
        let next = match &cur {
            Expr::MethodCall(m) if m.method == "map" || m.method == "filter" => match closure1(m) {
                Some(c) => {
                    st.push(if m.method == "map" { Stage::Map(c) } else { Stage::Filter(c) });
                    (*m.receiver).clone()
                }
                None => break,
            },
            Expr::Paren(p) => (*p.expr).clone(),
            _ => break,
        };
        cur = next;
    }
    st.reverse();
    (cur, st)
}

impl Chains {
    fn build(&mut self, base: Expr, stages: Vec<Stage>, sink: impl FnOnce(Expr) -> Vec<Stmt>) -> Expr {
        let mut stmts: Vec<Stmt> = vec![];
        let mut pat = untype(&closure_pat("__x0"));
        let mut cur: Expr = parse_quote!(__x0);
        let mut i = 0;
        for (j, s) in stages.into_iter().enumerate() {
            match s {
                Stage::Map(c) => {
                    let p = untype(&c.inputs[0]);
                    let b = &c.body;
                    if j == 0 {
                        pat = p;
                    } else {
                        stmts.push(parse_quote!(let #p = #cur;));
                    }
                    i += 1;
                    let x = format_ident!("__x{i}");
                    stmts.push(parse_quote!(let #x = #b;));
                    cur = parse_quote!(#x);
                }
                Stage::Filter(c) => {
                    let p = untype(&c.inputs[0]);
                    let b = &c.body;
                    stmts.push(parse_quote!(let #p = &#cur;));
                    stmts.push(parse_quote!(if !(#b) { continue; }));
                }
            }
        }
        stmts.extend(sink(cur));
        parse_quote!(for #pat in #base { #(#stmts)* })
    }
    fn rewrite(&mut self, e: &Expr, tried: bool) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        match name.as_str() {
            "collect" if m.args.is_empty() => {
                let (base, st) = peel(&m.receiver);
                if st.is_empty() {
                    return None;
                }
                let mut ty: Option<syn::Type> = None;
                let mut result = false;
                if let Some(t) = &m.turbofish {
                    if let Some(syn::GenericArgument::Type(t)) = t.args.first() {
                        ty = Some(t.clone());
                        if let syn::Type::Path(p) = t {
                            let l = p.path.segments.last().unwrap();
                            if l.ident == "Result" || l.ident == "Option" {
                                result = true;
                                if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                                        ty = Some(t.clone());
                                    }
                                }
                            }
                        }
                    }
                }
                if result != tried {
                    return None;
                }
                let v = format_ident!("__v{}", self.n);
                self.n += 1;
                let is_string = matches!(&ty, Some(syn::Type::Path(p)) if p.path.is_ident("String"));
                let v2 = v.clone();
                let lp = self.build(base, st, move |x| {
                    let x: Expr = if tried { parse_quote!((#x)?) } else { x };
                    if is_string {
                        vec![parse_quote!(#v2.vpush_item(#x);)]
                    } else {
                        vec![parse_quote!(#v2.push(#x);)]
                    }
                });
                let init: Expr = if is_string { parse_quote!(String::new()) } else { parse_quote!(Vec::new()) };
                Some(match ty {
                    Some(t) => parse_quote!({ let mut #v: #t = #init; #lp #v }),
                    None => parse_quote!({ let mut #v = #init; #lp #v }),
                })
            }
            "all" | "any" => {
                let c = closure1(m)?;
                let (base, mut st) = peel(&m.receiver);
                let v = format_ident!("__v{}", self.n);
                self.n += 1;
                st.push(Stage::Map(c));
                let all = name == "all";
                let v2 = v.clone();
                let lp = self.build(base, st, move |x| {
                    if all {
                        vec![parse_quote!(if !(#x) { #v2 = false; })]
                    } else {
                        vec![parse_quote!(if #x { #v2 = true; })]
                    }
                });
                Some(if all { parse_quote!({ let mut #v = true; #lp #v }) } else { parse_quote!({ let mut #v = false; #lp #v }) })
            }
            "for_each" => {
                let c = closure1(m)?;
                let (base, mut st) = peel(&m.receiver);
                st.push(Stage::Map(c));
                Some(self.build(base, st, |_| vec![]))
            }
            _ => None,
        }
    }
}
pub fn untype(p: &syn::Pat) -> syn::Pat {
    match p {
        syn::Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

impl VisitMut for Chains {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(x) = self.rewrite(&t.expr, true) {
                *e = x;
            }
        } else if let Some(x) = self.rewrite(e, false) {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn closure_pat(n: &str) -> syn::Pat {
    let i = format_ident!("{n}");
    let c: syn::ExprClosure = parse_quote!(|#i| 0);
    c.inputs[0].clone()
}
