//! Fixed lowering rules (see DESIGN.md "Extraction"). Every rule is semantics preserving up to the
//! contract of the shim it introduces; what is dropped: error payloads, doc comments, attributes,
//! visibility, zeroization of secrets.
use crate::contract::*;
use crate::Ctx;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Lit, Pat, Stmt, Type};

pub fn note_const(ctx: &mut Ctx, name: &str, ty: &Type, e: &Expr) {
    let t = quote!(#ty).to_string();
    if t == "& str" || t == "& 'static str" {
        ctx.str_consts.insert(name.to_string());
    } else if t.starts_with("& [") || t.starts_with("& 'static [") || t.starts_with("[") {
        if let Some(v) = array_elems(e) {
            ctx.arr_consts.insert(name.to_string(), v);
        }
    } else if let Expr::Reference(r) = e {
        if matches!(&*r.expr, Expr::Struct(_)) {
            ctx.struct_consts.insert(name.to_string(), e.clone());
        }
    }
}

fn array_elems(e: &Expr) -> Option<Vec<Expr>> {
    match e {
        Expr::Reference(r) => array_elems(&r.expr),
        Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
        _ => None,
    }
}

pub fn is_scalar(ty: &syn::Type) -> bool {
    matches!(quote!(#ty).to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" | "u128" | "bool" | "char")
}

pub fn emit_const(ctx: &mut Ctx, c: &syn::ItemConst) -> Option<String> {
    let ty = &c.ty;
    let t = quote!(#ty).to_string();
    let name = &c.ident;
    if t == "& str" || t == "& 'static str" {
        if let Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
            let b = s.value().into_bytes();
            let v: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
            let sv = if v.is_empty() { "Seq::<u8>::empty()".into() } else { format!("seq![{}]", v.join(", ")) };
            return Some(format!("#[verifier::external_body] pub fn {name}() -> (r: &'static Str) ensures r@ == {sv} {{ unimplemented!() }}"));
        }
        if let Expr::Path(_) = &*c.expr {
            let e = &c.expr;
            let ens = match ctx.const_lits.get(&format!("{}::{}", ctx.cur_mod, name)) {
                Some(b) if !b.is_empty() => {
                    let v: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
                    format!("ensures r@ == seq![{}]", v.join(", "))
                }
                _ => String::new(),
            };
            return Some(format!("pub fn {name}() -> (r: &'static Str) {ens} {{ {}() }}", quote!(#e)));
        }
        return None;
    }
    if t == "[char ; 3]" || t.starts_with("[char ;") || is_scalar(ty) {
        let mut e = (*c.expr).clone();
        let mut lw = Lower::new(ctx);
        lw.visit_expr_mut(&mut e);
        return Some(crate::print::tokens(&quote!(pub const #name : #ty = #e;)));
    }
    None
}

pub struct Lower<'a> {
    pub ctx: &'a mut Ctx,
    pub notes: Vec<String>,
    local_arrs: HashMap<String, Vec<Expr>>,
    fvars: HashSet<String>,
    loops: usize,
    tmp: usize,
    assigned: Vec<Vec<String>>, // per loop, outer locals assigned
    pub calls: BTreeSet<String>,
    in_closure: usize,
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => peel(&u.expr),
        _ => e,
    }
}

fn last_seg(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn path_str(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn is_err_ctor(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let s = path_str(&p.path);
                return s.rsplit("::").nth(1).map_or(false, |t| t.ends_with("Error"));
            }
            false
        }
        Expr::Path(p) => {
            let s = path_str(&p.path);
            s.rsplit("::").nth(1).map_or(false, |t| t.ends_with("Error"))
        }
        Expr::MethodCall(m) => m.method == "into" && is_err_ctor(&m.receiver),
        _ => false,
    }
}

fn pure_arg(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => pure_arg(&f.base),
        Expr::Reference(r) => pure_arg(&r.expr),
        Expr::Paren(r) => pure_arg(&r.expr),
        Expr::MethodCall(m) => {
            matches!(
                m.method.to_string().as_str(),
                "len" | "to_string" | "to_owned" | "clone" | "code" | "as_str" | "as_ref" | "raw" | "is_empty" | "into"
            ) && m.args.is_empty()
                && pure_arg(&m.receiver)
        }
        Expr::Macro(m) => {
            if last_seg(&m.mac.path) == "format" {
                if let Some((_, args)) = parse_fmt(&m.mac.tokens) {
                    return args.iter().all(|(_, e)| pure_arg(e));
                }
            }
            false
        }
        _ => false,
    }
}

type FmtArgs = Vec<(Option<String>, Expr)>;
fn parse_fmt(ts: &proc_macro2::TokenStream) -> Option<(String, FmtArgs)> {
    use syn::parse::{ParseStream, Parser};
    let p = |i: ParseStream| -> syn::Result<(String, FmtArgs)> {
        let l: syn::LitStr = i.parse()?;
        let mut v = vec![];
        while i.peek(syn::Token![,]) {
            i.parse::<syn::Token![,]>()?;
            if i.is_empty() {
                break;
            }
            if i.peek(syn::Ident) && i.peek2(syn::Token![=]) && !i.peek2(syn::Token![==]) {
                let id: syn::Ident = i.parse()?;
                i.parse::<syn::Token![=]>()?;
                v.push((Some(id.to_string()), i.parse::<Expr>()?));
            } else {
                v.push((None, i.parse::<Expr>()?));
            }
        }
        Ok((l.value(), v))
    };
    p.parse2(ts.clone()).ok()
}

fn effects(args: &[Expr]) -> Vec<Expr> {
    let mut out = vec![];
    for a in args {
        if let Expr::Macro(m) = a {
            if last_seg(&m.mac.path) == "format" {
                if let Some((_, fa)) = parse_fmt(&m.mac.tokens) {
                    let es: Vec<Expr> = fa.into_iter().map(|x| x.1).collect();
                    out.extend(effects(&es));
                    continue;
                }
            }
        }
        if !pure_arg(a) {
            out.push(a.clone());
        }
    }
    out
}

impl<'a> Lower<'a> {
    pub fn new(ctx: &'a mut Ctx) -> Self {
        Lower {
            ctx,
            notes: vec![],
            local_arrs: HashMap::new(),
            fvars: HashSet::new(),
            loops: 0,
            tmp: 0,
            assigned: vec![],
            calls: BTreeSet::new(),
            in_closure: 0,
        }
    }

    fn unsupported(&mut self, what: &str) {
        self.notes.push(format!("unsupported: {what}"));
    }

    fn lit(&mut self, b: Vec<u8>) -> Expr {
        let n = self.ctx.lits.len();
        let k = *self.ctx.lits.entry(b).or_insert(n);
        let id = format_ident!("lit_{k}");
        parse_quote!(#id())
    }
    fn blit(&mut self, b: Vec<u8>) -> Expr {
        let n = self.ctx.blits.len();
        let k = *self.ctx.blits.entry(b).or_insert(n);
        let id = format_ident!("blit_{k}");
        parse_quote!(#id())
    }

    fn err_expr(&mut self, args: Vec<Expr>) -> Expr {
        let mut effs = effects(&args);
        for e in effs.iter_mut() {
            self.visit_expr_mut(e);
        }
        if effs.is_empty() {
            parse_quote!(vp_err())
        } else {
            parse_quote!({ #( let _ = &(#effs); )* vp_err() })
        }
    }

    fn err_ctor_args(e: &Expr) -> Vec<Expr> {
        match e {
            Expr::Call(c) => c.args.iter().cloned().collect(),
            Expr::MethodCall(m) => Self::err_ctor_args(&m.receiver),
            _ => vec![],
        }
    }

    fn fmt(&mut self, m: &syn::Macro) -> Option<Expr> {
        let (s, args) = parse_fmt(&m.tokens)?;
        let mut pieces: Vec<Expr> = vec![];
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut cur = String::new();
        let mut pos = 0;
        while i < b.len() {
            match b[i] {
                '{' if i + 1 < b.len() && b[i + 1] == '{' => {
                    cur.push('{');
                    i += 2;
                }
                '}' if i + 1 < b.len() && b[i + 1] == '}' => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let mut j = i + 1;
                    while b[j] != '}' {
                        j += 1;
                    }
                    let inner: String = b[i + 1..j].iter().collect();
                    i = j + 1;
                    if !cur.is_empty() {
                        let l = self.lit(cur.clone().into_bytes());
                        pieces.push(parse_quote!(VDisp::vdisp(#l)));
                        cur.clear();
                    }
                    let (name, spec) = match inner.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (inner.clone(), String::new()),
                    };
                    let mut e: Expr = if name.is_empty() {
                        let e = args.iter().filter(|a| a.0.is_none()).nth(pos)?.1.clone();
                        pos += 1;
                        e
                    } else if let Ok(n) = name.parse::<usize>() {
                        args.get(n)?.1.clone()
                    } else if let Some(a) = args.iter().find(|a| a.0.as_deref() == Some(&name)) {
                        a.1.clone()
                    } else {
                        let id = format_ident!("{name}");
                        parse_quote!(#id)
                    };
                    self.visit_expr_mut(&mut e);
                    let spec = spec.trim().to_string();
                    let p: Expr = if spec.is_empty() {
                        parse_quote!(VDisp::vdisp(&(#e)))
                    } else if spec == "x" {
                        parse_quote!(VHex::vhex(&(#e), 0))
                    } else if spec.starts_with('0') && spec.ends_with('x') {
                        let n: usize = spec[1..spec.len() - 1].parse().ok()?;
                        parse_quote!(VHex::vhex(&(#e), #n))
                    } else if spec.starts_with('0') && spec.len() > 1 && spec[1..].chars().all(|c| c.is_ascii_digit()) {
                        let n: usize = spec[1..].parse().ok()?;
                        parse_quote!(VDec::vdec(&(#e), #n))
                    } else {
                        parse_quote!(vp_fmt_opaque())
                    };
                    pieces.push(p);
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() || pieces.is_empty() {
            let l = self.lit(cur.into_bytes());
            pieces.push(parse_quote!(VDisp::vdisp(#l)));
        }
        let mut it = pieces.into_iter();
        let mut e = it.next().unwrap();
        for p in it {
            e = parse_quote!(vp_cat(#e, #p));
        }
        Some(e)
    }

    fn is_f(&self, e: &Expr) -> bool {
        match e {
            Expr::Cast(c) => {
                let t = &c.ty;
                let s = quote!(#t).to_string();
                s == "f32" || s == "f64"
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Float(_) => true,
                Lit::Int(i) => i.suffix() == "f32" || i.suffix() == "f64",
                _ => false,
            },
            Expr::Paren(p) => self.is_f(&p.expr),
            Expr::MethodCall(m) => {
                matches!(m.method.to_string().as_str(), "log2" | "floor" | "ceil" | "log10" | "ln" | "powi" | "log") && self.is_f(&m.receiver)
            }
            Expr::Binary(b) => {
                use syn::BinOp::*;
                matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_)) && (self.is_f(&b.left) || self.is_f(&b.right))
            }
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.fvars.contains(&i.to_string())),
            _ => false,
        }
    }

    fn lower_f(&mut self, e: &Expr) -> Option<Expr> {
        if !self.is_f(e) {
            return None;
        }
        Some(match e {
            Expr::Cast(c) => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                parse_quote!(VF32::vf32(#x))
            }
            Expr::Lit(l) => {
                let t = match &l.lit {
                    Lit::Float(f) => f.base10_digits().to_string(),
                    Lit::Int(f) => f.base10_digits().to_string(),
                    _ => unreachable!(),
                };
                let v: f64 = t.parse().ok()?;
                if v.fract() != 0.0 || v < 0.0 {
                    self.unsupported("non-integral float literal");
                    return None;
                }
                let n = v as u32;
                parse_quote!(VF32::vf32(#n))
            }
            Expr::Paren(p) => return self.lower_f(&p.expr),
            Expr::MethodCall(m) => {
                let r = self.lower_f(&m.receiver)?;
                let id = format_ident!("vp_f{}", m.method);
                parse_quote!(#id(#r))
            }
            Expr::Binary(b) => {
                use syn::BinOp::*;
                let l = self.lower_f(&b.left).unwrap_or_else(|| (*b.left).clone());
                let r = self.lower_f(&b.right).unwrap_or_else(|| (*b.right).clone());
                let id = match b.op {
                    Add(_) => "vp_fadd",
                    Sub(_) => "vp_fsub",
                    Mul(_) => "vp_fmul",
                    _ => "vp_fdiv",
                };
                let id = format_ident!("{id}");
                parse_quote!(#id(#l, #r))
            }
            e => e.clone(),
        })
    }

    fn range_call(&mut self, base: Expr, r: &syn::ExprRange) -> Expr {
        let base: Expr = match base {
            Expr::Path(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Paren(_) => base,
            b => parse_quote!((#b)),
        };
        let end: Option<Expr> = r.end.as_ref().map(|e| {
            let e = &**e;
            if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                parse_quote!((#e) + 1)
            } else {
                e.clone()
            }
        });
        match (&r.start, &end) {
            (Some(a), Some(b)) => parse_quote!(#base.vsub(#a, #b)),
            (Some(a), None) => parse_quote!(#base.vsub_from(#a)),
            (None, Some(b)) => parse_quote!(#base.vsub_to(#b)),
            (None, None) => parse_quote!(#base.vsub_from(0)),
        }
    }

    /// body-level entry point
    pub fn lower_body(
        &mut self,
        b: &mut syn::Block,
        c: &FnContract,
        map: &HashMap<String, String>,
        mut_params: &[String],
        notes: &mut Vec<String>,
        calls: &mut Vec<String>,
    ) -> Option<(usize, String)> {
        for p in mut_params.iter().rev() {
            let id = format_ident!("{p}");
            b.stmts.insert(0, parse_quote!(let mut #id = #id;));
        }
        // names bound by `let` in the original body, in order
        let mut lets = LetNames::default();
        lets.visit_block(b);
        let names = lets.names.clone();
        // local hints
        for (i, (name, _)) in c.hints.iter().enumerate() {
            if !insert_after_let(b, name, i) {
                notes.push(format!("hint lost: after {name}"));
            }
        }
        self.visit_block_mut(b);
        if !c.tail.is_empty() {
            let n = b.stmts.len();
            let pos = match b.stmts.last() {
                Some(Stmt::Expr(_, None)) => n - 1,
                _ => n,
            };
            b.stmts.insert(pos, parse_quote!(__vp_tail!();));
        }
        let mut txt = crate::print::tokens(&b.to_token_stream());
        notes.append(&mut self.notes);
        calls.extend(self.calls.iter().cloned());
        let max = c.loops.keys().max().map(|x| x + 1).unwrap_or(0);
        if max != self.loops {
            notes.push(format!("loop count changed: contract {max} source {}", self.loops));
        }
        for k in 0..self.loops {
            let l = c.loops.get(&k).cloned().unwrap_or_default();
            let mut m = map.clone();
            let missing: Vec<&String> = l.vars.iter().filter(|v| !names.contains(v)).collect();
            if !missing.is_empty() {
                let cand: Vec<&String> = self.assigned[k].iter().filter(|a| !l.vars.contains(a)).collect();
                if cand.len() == missing.len() {
                    for (a, b) in missing.iter().zip(cand.iter()) {
                        m.insert((*a).clone(), (*b).clone());
                    }
                } else {
                    notes.push(format!("loop {k}: locals {missing:?} not found"));
                }
            }
            let sub = |s: &str| -> String {
                crate::subst_idents(&s.replace("$k", &format!("__k{k}")).replace("$it", &format!("__it{k}")), &m)
            };
            // __vp_inv!(k, auto) placeholder
            for (tag, t) in [("start", &l.start), ("end", &l.end), ("after", &l.after), ("before", &l.before)] {
                let ph = format!("__vp_{tag}{k} !();");
                let ph2 = format!("__vp_{tag}{k} ! ();");
                txt = txt.replace(&ph, &sub(t)).replace(&ph2, &sub(t));
            }
            let a = format!("__vp_inv{k}");
            // `while COND {\n __vp_invK !(AUTO);`
            if let Some(p) = txt.find(&a) {
                let brace = txt[..p].rfind('{').unwrap();
                let semi = p + txt[p..].find(';').unwrap();
                let mac = txt[p..semi].to_string();
                let auto = mac.contains("auto");
                let mut inv = sub(&l.inv);
                if auto {
                    // merge automatic invariant with user's
                    let auto_inv = format!("__k{k} <= __it{k}@.len(),");
                    let (u_inv, u_dec) = split_dec(&inv);
                    let u_inv = u_inv.trim().strip_prefix("invariant").unwrap_or(u_inv.trim()).to_string();
                    let dec = if u_dec.is_empty() { format!("decreases __it{k}@.len() - __k{k},") } else { u_dec };
                    inv = format!("\n invariant {auto_inv} {u_inv}\n {dec}\n");
                } else if mac.contains("range") {
                    let auto_inv = format!("__k{k} <= __e{k} || __k{k} == __s{k},");
                    let (u_inv, u_dec) = split_dec(&inv);
                    let u_inv = u_inv.trim().strip_prefix("invariant").unwrap_or(u_inv.trim()).to_string();
                    let dec = if u_dec.is_empty() { format!("decreases __e{k} - __k{k},") } else { u_dec };
                    inv = format!("\n invariant {auto_inv} {u_inv}\n {dec}\n");
                }
                txt = format!("{} {} {{ {}", &txt[..brace], inv, &txt[semi + 1..]);
            }
        }
        for (i, (_, t)) in c.hints.iter().enumerate() {
            let t = crate::subst_idents(t, map);
            txt = txt.replace(&format!("__vp_hint{i} !();"), &t).replace(&format!("__vp_hint{i} ! ();"), &t);
        }
        txt = txt.replace("__vp_tail !();", &crate::subst_idents(&c.tail, map)).replace("__vp_tail ! ();", &crate::subst_idents(&c.tail, map));
        if !c.entry.is_empty() {
            let p = txt.find('{').unwrap();
            txt = format!("{{\n{}\n{}", crate::subst_idents(&c.entry, map), &txt[p + 1..]);
        }
        if txt.contains("__vp_") {
            notes.push("unsupported: unplaced annotation".into());
        }
        Some((self.loops, txt))
    }
}

fn semi_tail(b: &mut syn::Block) {
    if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() {
        if s.is_none() {
            *s = Some(Default::default());
        }
    }
}

fn split_dec(inv: &str) -> (String, String) {
    match inv.find("decreases") {
        Some(p) => (inv[..p].to_string(), inv[p..].to_string()),
        None => (inv.to_string(), String::new()),
    }
}

fn insert_after_let(b: &mut syn::Block, name: &str, i: usize) -> bool {
    struct V<'x>(&'x str, usize, bool);
    impl VisitMut for V<'_> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            if self.2 {
                return;
            }
            let mut pos = None;
            for (k, s) in b.stmts.iter().enumerate() {
                if let Stmt::Local(l) = s {
                    let mut ln = LetNames::default();
                    ln.visit_pat(&l.pat);
                    if ln.names.iter().any(|n| n == self.0) {
                        pos = Some(k);
                        break;
                    }
                }
            }
            if let Some(k) = pos {
                let id = format_ident!("__vp_hint{}", self.1);
                b.stmts.insert(k + 1, parse_quote!(#id!();));
                self.2 = true;
                return;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut v = V(name, i, false);
    v.visit_block_mut(b);
    v.2
}

#[derive(Default)]
struct LetNames {
    names: Vec<String>,
}
impl<'ast> Visit<'ast> for LetNames {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.names.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

#[derive(Default)]
struct Assigned {
    inner: HashSet<String>,
    out: Vec<String>,
}
fn base_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Index(i) => base_ident(&i.expr),
        Expr::Field(f) => base_ident(&f.base),
        Expr::Paren(p) => base_ident(&p.expr),
        Expr::Unary(u) => base_ident(&u.expr),
        Expr::Reference(r) => base_ident(&r.expr),
        _ => None,
    }
}
impl Assigned {
    fn add(&mut self, e: &Expr) {
        if let Some(n) = base_ident(e) {
            if !self.inner.contains(&n) && !self.out.contains(&n) {
                self.out.push(n);
            }
        }
    }
}
impl<'ast> Visit<'ast> for Assigned {
    fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
        self.add(&e.left);
        syn::visit::visit_expr_assign(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(
            e.op,
            AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | ShlAssign(_) | ShrAssign(_) | BitOrAssign(_) | BitAndAssign(_) | BitXorAssign(_)
        ) {
            self.add(&e.left);
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        if matches!(
            e.method.to_string().as_str(),
            "insert" | "vpush_item" | "shift_remove" | "sort" | "dedup" | "push" | "push_str" | "extend" | "extend_from_slice" | "remove" | "clear" | "copy_from_slice" | "clone_from_slice" | "truncate" | "pop" | "append"
        ) {
            self.add(&e.receiver);
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.inner.insert(p.ident.to_string());
    }
}

impl VisitMut for Lower<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let l = last_seg(&p.path);
            if l == "String" || l == "str" {
                *t = parse_quote!(Str);
            } else if l == "Zeroizing" {
                if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    if let Some(syn::GenericArgument::Type(x)) = a.args.first() {
                        *t = x.clone();
                    }
                }
            } else if l == "f32" || l == "f64" {
                *t = parse_quote!(F32);
            } else if p.path.segments.len() > 1 {
                let s = path_str(&p.path);
                let f = p.path.segments[0].ident.to_string();
                if (s.starts_with("serde_json") || s.starts_with("indexmap")) && !self.ctx.ext.iter().any(|x| x.split("::").next() == Some(&f)) {
                    let seg = p.path.segments.last().unwrap().clone();
                    *t = parse_quote!(#seg);
                }
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 && p.leading_colon.is_none() {
            let f = p.segments[0].ident.to_string();
            if self.ctx.ext.iter().any(|x| x.split("::").next() == Some(&f)) {
                *p = parse_quote!(crate::vp::ext::#p);
            }
        }
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = std::mem::take(&mut b.stmts);
        let n_stmts = old.len();
        for (i_stmt, mut s) in old.into_iter().enumerate() {
            match &mut s {
                Stmt::Item(syn::Item::Const(c)) => {
                    let ty = &c.ty;
                    let t = quote!(#ty).to_string();
                    if t.starts_with("& [") || t.starts_with("& 'static [") || t.starts_with('[') {
                        if let Some(v) = array_elems(&c.expr) {
                            self.local_arrs.insert(c.ident.to_string(), v);
                            continue;
                        }
                    }
                    let id = &c.ident;
                    let e = &c.expr;
                    let mut st: Stmt = parse_quote!(let #id: #ty = #e;);
                    self.visit_stmt_mut(&mut st);
                    b.stmts.push(st);
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                Stmt::Item(_) => {
                    self.unsupported("nested item");
                }
                Stmt::Local(l) => {
                    if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                        if self.is_f(&i.expr) {
                            let e = self.lower_f(&i.expr);
                            self.fvars.insert(p.ident.to_string());
                            if let Some(e) = e {
                                l.init.as_mut().unwrap().expr = Box::new(e);
                            }
                            l.attrs.clear();
                            b.stmts.push(s);
                            continue;
                        }
                    }
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                }
                Stmt::Macro(m) => {
                    let name = last_seg(&m.mac.path);
                    if name.starts_with("__vp_") {
                        b.stmts.push(s);
                        continue;
                    }
                    if name == "lazy_static" {
                        // static ref X: Regex = Regex::new(P).unwrap();  ->  let X = vp_regex(P);
                        let toks = m.mac.tokens.clone();
                        let p = |i: syn::parse::ParseStream| -> syn::Result<Vec<(syn::Ident, Expr)>> {
                            let mut v = vec![];
                            while !i.is_empty() {
                                i.parse::<syn::Token![static]>()?;
                                i.parse::<syn::Token![ref]>()?;
                                let id: syn::Ident = i.parse()?;
                                i.parse::<syn::Token![:]>()?;
                                i.parse::<Type>()?;
                                i.parse::<syn::Token![=]>()?;
                                let e: Expr = i.parse()?;
                                i.parse::<syn::Token![;]>()?;
                                v.push((id, e));
                            }
                            Ok(v)
                        };
                        use syn::parse::Parser;
                        match p.parse2(toks) {
                            Ok(v) => {
                                for (id, mut e) in v {
                                    let mut pat = None;
                                    if let Expr::MethodCall(m) = &e {
                                        if let Expr::Call(c) = &*m.receiver {
                                            if m.method == "unwrap" && c.args.len() == 1 && quote!(#c).to_string().contains("Regex :: new") {
                                                pat = Some(c.args[0].clone());
                                            }
                                        }
                                    }
                                    if let Some(mut p) = pat {
                                        self.visit_expr_mut(&mut p);
                                        b.stmts.push(parse_quote!(let #id = vp_regex(#p);));
                                    } else {
                                        self.visit_expr_mut(&mut e);
                                        b.stmts.push(parse_quote!(let #id = &(#e);));
                                    }
                                }
                            }
                            Err(_) => self.unsupported("lazy_static"),
                        }
                        continue;
                    }
                    // a diverging macro in tail position has the type of the block
                    let semi = if n_stmts == i_stmt + 1 && matches!(name.as_str(), "unreachable" | "panic" | "todo" | "unimplemented") { None } else { m.semi_token };
                    let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    self.visit_expr_mut(&mut e);
                    b.stmts.push(Stmt::Expr(e, semi));
                }
                _ => {
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                }
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // floats
        if self.is_f(e) {
            if let Some(x) = self.lower_f(e) {
                *e = x;
                return;
            }
        }
        match e {
            Expr::Binary(b) => {
                use syn::BinOp::*;
                if self.is_f(&b.left) || self.is_f(&b.right) {
                    let l = self.lower_f(&b.left);
                    let r = self.lower_f(&b.right);
                    if let (Some(l), Some(r)) = (l, r) {
                        let f = match b.op {
                            Ge(_) => "vp_fge",
                            Gt(_) => "vp_fgt",
                            Le(_) => "vp_fle",
                            Lt(_) => "vp_flt",
                            AddAssign(_) => {
                                *e = parse_quote!(#l = vp_fadd(#l, #r));
                                return;
                            }
                            SubAssign(_) => {
                                *e = parse_quote!(#l = vp_fsub(#l, #r));
                                return;
                            }
                            _ => {
                                self.unsupported("float operator");
                                return;
                            }
                        };
                        let f = format_ident!("{f}");
                        *e = parse_quote!(#f(#l, #r));
                        return;
                    }
                }
            }
            Expr::Lit(l) => {
                match &l.lit {
                    Lit::Str(s) => {
                        let b = s.value().into_bytes();
                        *e = self.lit(b);
                    }
                    Lit::ByteStr(s) => {
                        let b = s.value();
                        *e = self.blit(b);
                    }
                    _ => {}
                }
                return;
            }
            Expr::Macro(m) => {
                let name = last_seg(&m.mac.path);
                let parse_args = |ts: &proc_macro2::TokenStream| -> Option<Vec<Expr>> {
                    use syn::parse::Parser;
                    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                    p.parse2(ts.clone()).ok().map(|x| x.into_iter().collect())
                };
                match name.as_str() {
                    "err" => {
                        if let Some(a) = parse_args(&m.mac.tokens) {
                            if a.len() == 1 && is_err_ctor(&a[0]) {
                                let x = self.err_expr(Self::err_ctor_args(&a[0]));
                                *e = parse_quote!(Err(#x));
                            } else if a.len() == 1 {
                                let mut x = a[0].clone();
                                self.visit_expr_mut(&mut x);
                                *e = parse_quote!(Err(vp_into_err(#x)));
                            }
                            return;
                        }
                        self.unsupported("err! arguments");
                    }
                    "bail" | "anyhow" => {
                        if name == "bail" {
                            *e = parse_quote!(return Err(vp_err()));
                        } else {
                            *e = parse_quote!(vp_err());
                        }
                    }
                    "format" => match self.fmt(&m.mac.clone()) {
                        Some(x) => *e = x,
                        None => *e = parse_quote!(vp_fmt_opaque()),
                    },
                    "vec" => {
                        let ts = m.mac.tokens.clone();
                        use syn::parse::{ParseStream, Parser};
                        let rp = |i: ParseStream| -> syn::Result<(Expr, Expr)> {
                            let a: Expr = i.parse()?;
                            i.parse::<syn::Token![;]>()?;
                            let b: Expr = i.parse()?;
                            Ok((a, b))
                        };
                        if let Ok((mut a, mut b)) = rp.parse2(ts.clone()) {
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(vp_vec_fill(#a, #b));
                        } else if let Some(mut v) = parse_args(&ts) {
                            for x in v.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            *e = parse_quote!(vec![#(#v),*]);
                        }
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        *e = parse_quote!(vp_unreachable());
                    }
                    "assert" | "debug_assert" => {
                        if let Some(a) = parse_args(&m.mac.tokens) {
                            let mut x = a[0].clone();
                            self.visit_expr_mut(&mut x);
                            *e = parse_quote!(vp_rt_assert(#x));
                        }
                    }
                    "println" | "eprintln" | "debug" | "trace" | "dbg" => {
                        *e = parse_quote!(());
                    }
                    "matches" => {}
                    "json" => {
                        if let Some(a) = parse_args(&m.mac.tokens) {
                            if a.len() == 1 {
                                let mut x = a[0].clone();
                                self.visit_expr_mut(&mut x);
                                *e = parse_quote!(VJson::vjson(&(#x)));
                                return;
                            }
                        }
                        self.unsupported("json! arguments");
                    }
                    "dat" => match self.dat(m.mac.tokens.clone()) {
                        Some(x) => *e = x,
                        None => self.unsupported("dat! arguments"),
                    },
                    n if n.starts_with("__vp_") => {}
                    n => {
                        let n = n.to_string();
                        self.unsupported(&format!("macro {n}!"));
                    }
                }
                return;
            }
            Expr::Path(p) => {
                let l = last_seg(&p.path);
                if self.ctx.is_str_const(&l, p.path.segments.len() > 1) && p.qself.is_none() {
                    let p = p.clone();
                    *e = parse_quote!(#p());
                    return;
                }
                if let Some(c) = self.ctx.struct_consts.get(&l) {
                    let mut c = c.clone();
                    self.visit_expr_mut(&mut c);
                    *e = c;
                    return;
                }
                if is_err_ctor(e) {
                    *e = parse_quote!(vp_err());
                } else if let Expr::Path(p) = e {
                    self.visit_path_mut(&mut p.path);
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let s = path_str(&p.path);
                    if s.starts_with("Error::") {
                        let a = c.args.iter().cloned().collect();
                        *e = self.err_expr(a);
                        return;
                    }
                    if s.ends_with("Zeroizing::new") && c.args.len() == 1 {
                        let mut x = c.args[0].clone();
                        self.visit_expr_mut(&mut x);
                        *e = x;
                        return;
                    }
                    if let Some(t) = s.strip_suffix("::from_be_bytes") {
                        let f = format_ident!("vp_from_be_{}", t);
                        *c.func = parse_quote!(#f);
                    } else if let Some(t) = s.strip_suffix("::from_str_radix") {
                        let f = format_ident!("vp_from_radix_{}", t);
                        *c.func = parse_quote!(#f);
                    } else if (s == "Value::from" || s == "data::Value::from" || (s == "Self::from" && self.ctx.cur_mod == "data")) && self.ctx.alias.contains("data") {
                        *c.func = parse_quote!(crate::vp::VDat::vdat);
                    } else if s == "Number::from" && self.ctx.cur_mod == "data" {
                        *c.func = parse_quote!(crate::vp::VNum::vnum);
                    } else if let Some(t) = s.strip_suffix("::try_from").filter(|t| is_int(t)) {
                        let t = format_ident!("{t}");
                        *c.func = parse_quote!(VTryInto::<#t>::vtry_into);
                    } else if let Some(t) = s.strip_suffix("::from").filter(|t| is_int(t) && *t != "usize") {
                        let f = format_ident!("vp_into_{t}");
                        *c.func = parse_quote!(VIntoInt::#f);
                    } else if s == "usize::from" {
                        *c.func = parse_quote!(VIntoUsize::into_usize);
                    } else if s == "std::str::from_utf8" || s == "str::from_utf8" || s == "core::str::from_utf8" {
                        *c.func = parse_quote!(Str::from_utf8_ref);
                    } else if s.starts_with("String::") || s.starts_with("std::string::String::") {
                        let m = p.path.segments.last().unwrap().clone();
                        *c.func = parse_quote!(Str::#m);
                    } else {
                        self.calls.insert(s);
                        self.visit_path_mut(&mut p.path);
                    }
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &mut *r.expr {
                    if r.mutability.is_some() && !matches!(&*ix.index, Expr::Range(_)) && self.ctx.vix.contains(&self.ctx.cur_mod) {
                        self.visit_expr_mut(&mut ix.expr);
                        self.visit_expr_mut(&mut ix.index);
                        let (b, i) = (&ix.expr, &ix.index);
                        *e = parse_quote!(#b.vixm(#i));
                        return;
                    }
                    if let Expr::Range(_) = &*ix.index {
                        if r.mutability.is_some() {
                            self.unsupported("&mut range slice");
                            return;
                        }
                        let mut base = (*ix.expr).clone();
                        self.visit_expr_mut(&mut base);
                        let Expr::Range(rg) = &mut *ix.index else { unreachable!() };
                        visit_mut::visit_expr_range_mut(self, rg);
                        let rg = rg.clone();
                        *e = self.range_call(base, &rg);
                        return;
                    }
                }
            }
            Expr::Assign(a) if self.ctx.vix.contains(&self.ctx.cur_mod) => {
                if let Expr::Index(ix) = &mut *a.left {
                    if !matches!(&*ix.index, Expr::Range(_)) {
                        self.visit_expr_mut(&mut ix.expr);
                        self.visit_expr_mut(&mut ix.index);
                        self.visit_expr_mut(&mut a.right);
                        let (b, i, r) = (&ix.expr, &ix.index, &a.right);
                        *e = parse_quote!({ let __rhs = #r; *#b.vixm(#i) = __rhs; });
                        return;
                    }
                }
            }
            Expr::Index(ix) => {
                if !matches!(&*ix.index, Expr::Range(_)) && self.ctx.vix.contains(&self.ctx.cur_mod) {
                    self.visit_expr_mut(&mut ix.expr);
                    self.visit_expr_mut(&mut ix.index);
                    let (b, i) = (&ix.expr, &ix.index);
                    *e = parse_quote!((*#b.vix(#i)));
                    return;
                }
                if let Expr::Range(rg) = &mut *ix.index {
                    visit_mut::visit_expr_range_mut(self, rg);
                    let rg = rg.clone();
                    let mut base = (*ix.expr).clone();
                    self.visit_expr_mut(&mut base);
                    let x = self.range_call(base, &rg);
                    *e = parse_quote!((*#x));
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // option.map(closure); iterator chains have been rewritten before
                if name == "map" {
                    if let Some(c) = crate::chains::closure1(m) {
                        let p = crate::chains::untype(&c.inputs[0]);
                        let (r, b) = (&m.receiver, &c.body);
                        *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                // x[a..b].copy_from_slice(y)
                if name == "copy_from_slice" || name == "clone_from_slice" {
                    if let Expr::Index(ix) = &mut *m.receiver {
                        if let Expr::Range(rg) = &mut *ix.index {
                            visit_mut::visit_expr_range_mut(self, rg);
                            let rg = rg.clone();
                            let mut base = (*ix.expr).clone();
                            self.visit_expr_mut(&mut base);
                            let mut src = m.args[0].clone();
                            self.visit_expr_mut(&mut src);
                            let a: Expr = rg.start.clone().map(|x| *x).unwrap_or(parse_quote!(0));
                            *e = match rg.end.clone() {
                                Some(b) => parse_quote!(#base.vcopy_range(#a, #b, #src)),
                                None => parse_quote!(#base.vcopy_from(#a, #src)),
                            };
                            return;
                        }
                    }
                }
                if let Expr::Index(ix) = &mut *m.receiver {
                    if let Expr::Range(rg) = &mut *ix.index {
                        visit_mut::visit_expr_range_mut(self, rg);
                        let rg = rg.clone();
                        let mut base = (*ix.expr).clone();
                        self.visit_expr_mut(&mut base);
                        m.receiver = Box::new(self.range_call(base, &rg));
                        for a in m.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        self.rename_method(e);
                        return;
                    }
                }
                if name == "get" && m.args.len() == 1 {
                    if let Expr::Range(rg) = &mut m.args[0] {
                        visit_mut::visit_expr_range_mut(self, rg);
                        let rg = rg.clone();
                        let mut base = (*m.receiver).clone();
                        self.visit_expr_mut(&mut base);
                        *e = match (&rg.start, &rg.end) {
                            (Some(a), Some(b)) => parse_quote!(#base.vget(#a, #b)),
                            (Some(a), None) => parse_quote!(#base.vget_from(#a)),
                            (None, Some(b)) => parse_quote!(#base.vget_to(#b)),
                            (None, None) => parse_quote!(#base.vget_from(0)),
                        };
                        return;
                    }
                }
                if name == "contains" && m.args.len() == 1 {
                    let key = match &*m.receiver {
                        Expr::Path(p) => Some(last_seg(&p.path)),
                        _ => None,
                    };
                    if let Some(k) = key {
                        let els = self.local_arrs.get(&k).or_else(|| self.ctx.arr_consts.get(&k)).cloned();
                        if let Some(mut els) = els {
                            let mut x = m.args[0].clone();
                            if let Expr::Reference(r) = &x {
                                x = (*r.expr).clone();
                            }
                            self.visit_expr_mut(&mut x);
                            for y in els.iter_mut() {
                                self.visit_expr_mut(y);
                            }
                            self.tmp += 1;
                            let t = format_ident!("__c{}", self.tmp);
                            // the receiver of the last call may be a temporary, which has to outlive the borrow
                            let mut pre: Vec<syn::Stmt> = vec![];
                            if let Expr::MethodCall(mc) = &mut x {
                                if matches!(&*mc.receiver, Expr::MethodCall(_) | Expr::Call(_)) {
                                    let h = format_ident!("__h{}", self.tmp);
                                    let r = (*mc.receiver).clone();
                                    pre.push(parse_quote!(let #h = #r;));
                                    *mc.receiver = parse_quote!(#h);
                                }
                            }
                            *e = if els.is_empty() {
                                parse_quote!(false)
                            } else {
                                parse_quote!({ #(#pre)* let #t = &(#x); #( VEq::veq(#t, &#els) )||* })
                            };
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                self.rename_method(e);
                return;
            }
            Expr::Match(m) => {
                let str_pats = m.arms.iter().any(|a| pat_has_str(&a.pat, self.ctx));
                if str_pats {
                    let mut sc = (*m.expr).clone();
                    self.visit_expr_mut(&mut sc);
                    self.tmp += 1;
                    let t = format_ident!("__m{}", self.tmp);
                    let mut bytes = false;
                    let mut acc: Option<Expr> = None;
                    let mut arms: Vec<(Option<Expr>, Expr)> = vec![];
                    for a in m.arms.iter_mut() {
                        let mut body = (*a.body).clone();
                        self.visit_expr_mut(&mut body);
                        let mut pats = vec![];
                        flat_or(&a.pat, &mut pats);
                        let mut cond: Option<Expr> = None;
                        let mut wild = false;
                        for p in pats {
                            let k: Expr = match p {
                                Pat::Lit(l) => match &l.lit {
                                    Lit::Str(s) => {
                                        let x = self.lit(s.value().into_bytes());
                                        parse_quote!(vp_streq(#t, #x))
                                    }
                                    Lit::ByteStr(s) => {
                                        bytes = true;
                                        let x = self.blit(s.value());
                                        parse_quote!(vp_byteseq(#t, #x))
                                    }
                                    _ => {
                                        self.unsupported("match pattern mix");
                                        return;
                                    }
                                },
                                Pat::Path(p) => parse_quote!(vp_streq(#t, #p())),
                                Pat::Wild(_) => {
                                    wild = true;
                                    continue;
                                }
                                Pat::Ident(pi) if self.ctx.is_str_const(&pi.ident.to_string(), false) => {
                                    let id = &pi.ident;
                                    parse_quote!(vp_streq(#t, #id()))
                                }
                                Pat::Ident(pi) => {
                                    wild = true;
                                    let id = &pi.ident;
                                    body = parse_quote!({ let #id = #t; #body });
                                    continue;
                                }
                                _ => {
                                    self.unsupported("match pattern mix");
                                    return;
                                }
                            };
                            cond = Some(match cond {
                                None => k,
                                Some(c) => parse_quote!(#c || #k),
                            });
                        }
                        if let Some((_, g)) = &mut a.guard {
                            let mut g = (**g).clone();
                            self.visit_expr_mut(&mut g);
                            let cc: Expr = match (&cond, wild) {
                                (Some(c), false) => parse_quote!((#c) && #g),
                                _ => g,
                            };
                            arms.push((Some(cc), body));
                        } else if wild {
                            arms.push((None, body));
                            break;
                        } else {
                            arms.push((cond, body));
                        }
                    }
                    for (c, b) in arms.into_iter().rev() {
                        acc = Some(match c {
                            None => parse_quote!({ #b }),
                            Some(c) => {
                                let els = acc.unwrap_or_else(|| parse_quote!({ vp_unreachable() }));
                                parse_quote!(if #c { #b } else #els)
                            }
                        });
                    }
                    let acc = acc.unwrap();
                    // a temporary scrutinee is bound first
                    if let Expr::MethodCall(mc) = &sc {
                        if mc.method == "as_str" && !matches!(&*mc.receiver, Expr::Path(_) | Expr::Field(_)) && !bytes {
                            let o = format_ident!("{}o", t);
                            let r = &mc.receiver;
                            *e = parse_quote!({ let #o = #r; let #t: &Str = #o.as_vstr(); #acc });
                            return;
                        }
                    }
                    *e = if bytes { parse_quote!({ let #t: &[u8] = #sc; #acc }) } else { parse_quote!({ let #t: &Str = (#sc).as_vstr(); #acc }) };
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                let mut asg = Assigned::default();
                asg.visit_pat(&f.pat);
                asg.visit_block(&f.body);
                self.assigned.push(asg.out);
                let mut it = (*f.expr).clone();
                if let Expr::Reference(r) = &it {
                    if let Expr::Unary(u) = &*r.expr {
                        if matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(_)) && r.mutability.is_none() {
                            let x = &u.expr;
                            it = parse_quote!(&#x);
                        }
                    }
                }
                let pat = &f.pat;
                let kk = format_ident!("__k{k}");
                let itn = format_ident!("__it{k}");
                let s = format_ident!("__s{k}");
                let en = format_ident!("__e{k}");
                let inv = format_ident!("__vp_inv{k}");
                let st = format_ident!("__vp_start{k}");
                let ed = format_ident!("__vp_end{k}");
                let af = format_ident!("__vp_after{k}");
                let bf = format_ident!("__vp_before{k}");
                let range = match &it {
                    Expr::Range(r) => Some(r.clone()),
                    Expr::Paren(p) => {
                        if let Expr::Range(r) = &*p.expr {
                            Some(r.clone())
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                let pre: Vec<Stmt>;
                let cond: Expr;
                let bind: Stmt;
                let tag;
                if let Some(mut r) = range {
                    visit_mut::visit_expr_range_mut(self, &mut r);
                    let a = r.start.clone().unwrap();
                    let b0 = r.end.clone().unwrap();
                    let b: Expr = if matches!(r.limits, syn::RangeLimits::Closed(_)) { parse_quote!((#b0) + 1) } else { parse_quote!(#b0) };
                    pre = vec![parse_quote!(let #s = #a;), parse_quote!(let #en = #b;), parse_quote!(let mut #kk = #s;)];
                    cond = parse_quote!(#kk < #en);
                    bind = parse_quote!(let #pat = #kk;);
                    tag = format_ident!("range");
                } else {
                    self.visit_expr_mut(&mut it);
                    pre = vec![parse_quote!(let #itn = VIter::vp_iter(#it);), parse_quote!(let mut #kk: usize = 0;)];
                    cond = parse_quote!(#kk < #itn.len());
                    bind = match &**pat {
                        Pat::Reference(r) => {
                            let p = &r.pat;
                            parse_quote!(let #p = *#itn.at(#kk);)
                        }
                        _ => parse_quote!(let #pat = #itn.at(#kk);),
                    };
                    tag = format_ident!("auto");
                }
                self.visit_block_mut(&mut f.body);
                semi_tail(&mut f.body);
                let body = &f.body.stmts;
                let lbl = &f.label;
                *e = parse_quote!({
                    #(#pre)*
                    #bf!();
                    #lbl while #cond { #inv!(#tag); #bind #kk = #kk + 1; #st!(); #(#body)* #ed!(); }
                    #af!();
                });
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                let mut asg = Assigned::default();
                asg.visit_block(&w.body);
                self.assigned.push(asg.out);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                semi_tail(&mut w.body);
                let inv = format_ident!("__vp_inv{k}");
                let st = format_ident!("__vp_start{k}");
                let ed = format_ident!("__vp_end{k}");
                let body = &w.body.stmts;
                let cond = &w.cond;
                let lbl = &w.label;
                if matches!(**cond, Expr::Let(_)) {
                    self.unsupported("while let");
                    return;
                }
                *e = parse_quote!(#lbl while #cond { #inv!(user); #st!(); #(#body)* #ed!(); });
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                let mut asg = Assigned::default();
                asg.visit_block(&w.body);
                self.assigned.push(asg.out);
                self.visit_block_mut(&mut w.body);
                semi_tail(&mut w.body);
                let inv = format_ident!("__vp_inv{k}");
                let st = format_ident!("__vp_start{k}");
                let ed = format_ident!("__vp_end{k}");
                let body = &w.body.stmts;
                let lbl = &w.label;
                // a trailing `if c { break; }` keeps the body a statement list
                *e = parse_quote!(#lbl loop { #inv!(user); #st!(); #(#body)* #ed!(); });
                return;
            }
            Expr::Closure(_) => {
                self.in_closure += 1;
                visit_mut::visit_expr_mut(self, e);
                self.in_closure -= 1;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post rules
        match e {
            Expr::Binary(b) => {
                use syn::BinOp::*;
                match b.op {
                    Add(_) => {
                        let strish = match &*b.right {
                            Expr::Reference(_) => true,
                            Expr::MethodCall(m) => m.method.to_string().starts_with("vsub"),
                            Expr::Call(c) => c.func.to_token_stream().to_string().starts_with("lit_"),
                            _ => false,
                        };
                        let sl = match &*b.left {
                            Expr::MethodCall(m) => ["vjoin", "vto_string", "vreplace", "vconcat"].contains(&m.method.to_string().as_str()),
                            _ => false,
                        };
                        if strish || sl {
                            let (l, r) = (&b.left, &b.right);
                            *e = parse_quote!((#l).vconcat(#r));
                        }
                    }
                    AddAssign(_) => {
                        let strish = match &*b.right {
                            Expr::Reference(_) => true,
                            Expr::MethodCall(m) => m.method.to_string().starts_with("vsub") || m.method == "as_str",
                            Expr::Call(c) => c.func.to_token_stream().to_string().starts_with("lit_"),
                            _ => false,
                        };
                        if strish {
                            let (l, r) = (&b.left, &b.right);
                            *e = parse_quote!(#l.push_str(#r));
                        }
                    }
                    Eq(_) | Ne(_) => {
                        let strish = |x: &Expr| match peel(x) {
                            Expr::Call(c) => {
                                let s = c.func.to_token_stream().to_string();
                                s.starts_with("lit_") || c.args.is_empty() && self.ctx.str_consts.contains(s.rsplit(":: ").next().unwrap_or(""))
                            }
                            Expr::MethodCall(m) => m.method == "as_str" || m.method.to_string().starts_with("vsub"),
                            _ => false,
                        };
                        if strish(&b.left) || strish(&b.right) {
                            let (l, r) = (&b.left, &b.right);
                            *e = if matches!(b.op, Eq(_)) {
                                parse_quote!(VEq::veq(&(#l), &(#r)))
                            } else {
                                parse_quote!(!VEq::veq(&(#l), &(#r)))
                            };
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

impl Lower<'_> {
    fn rename_method(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let new = match n.as_str() {
                "iter" if m.args.is_empty() => Some("viter"),
                "to_string" if m.args.is_empty() => Some("vto_string"),
                "to_owned" if m.args.is_empty() => Some("vto_owned"),
                "into_iter" if m.args.is_empty() => Some("vinto_iter"),
                "contains" => Some("vcontains"),
                "join" => Some("vjoin"),
                "zeroize" => Some("vzeroize"),
                "unwrap_or_default" => Some("vunwrap_or_default"),
                "to_be_bytes" if m.args.is_empty() => Some("vto_be"),
                "into" if m.args.is_empty() => Some("vinto"),
                "try_into" if m.args.is_empty() => Some("vtry_into"),
                "copy_from_slice" => Some("vcopy_all"),
                "clone_from_slice" => Some("vcopy_all"),
                "replace" if m.args.len() == 2 => Some("vreplace"),
                "append" if m.args.len() == 1 => Some("vappend"),
                "get_mut" if m.args.len() == 1 => Some("vget_mut"),
                "sort" if m.args.is_empty() => Some("vsort"),
                "sort_unstable" if m.args.is_empty() => Some("vsort"),
                "dedup" if m.args.is_empty() => Some("vdedup"),
                _ => None,
            };
            if let Some(x) = new {
                m.method = format_ident!("{x}");
            }
            if n == "collect" {
                m.turbofish = None;
            }
            if n == "parse" {
                if let Some(t) = &m.turbofish {
                    let s = t.args.to_token_stream().to_string();
                    m.method = format_ident!("parse_{}", s);
                    m.turbofish = None;
                }
            }
            if n == "map_err" {
                // error payloads are dropped
                m.args.clear();
                m.method = format_ident!("vmap_err");
            }
            if n == "ok_or_else" || n == "ok_or" {
                m.args.clear();
                m.method = format_ident!("vok_or");
            }
            self.calls.insert(format!(".{}", m.method));
        }
    }
}

fn is_int(t: &str) -> bool {
    matches!(t, "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize")
}

impl Lower<'_> {
    /// `dat!` (the macro of data.rs): null, true, false, [..], {..} or an expression
    fn dat(&mut self, ts: proc_macro2::TokenStream) -> Option<Expr> {
        use proc_macro2::{Delimiter, TokenTree};
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let split = |ts: proc_macro2::TokenStream| -> Vec<proc_macro2::TokenStream> {
            let mut out = vec![];
            let mut cur = proc_macro2::TokenStream::new();
            for t in ts {
                match &t {
                    TokenTree::Punct(p) if p.as_char() == ',' => out.push(std::mem::take(&mut cur)),
                    _ => cur.extend([t]),
                }
            }
            if !cur.is_empty() {
                out.push(cur);
            }
            out
        };
        if v.len() == 1 {
            match &v[0] {
                TokenTree::Ident(i) if i == "null" => return Some(parse_quote!(crate::data::Value::Null)),
                TokenTree::Ident(i) if i == "true" => return Some(parse_quote!(crate::data::Value::Boolean(true))),
                TokenTree::Ident(i) if i == "false" => return Some(parse_quote!(crate::data::Value::Boolean(false))),
                TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => {
                    let es: Option<Vec<Expr>> = split(g.stream()).into_iter().map(|t| self.dat(t)).collect();
                    let es = es?;
                    if es.is_empty() {
                        return Some(parse_quote!(crate::data::Value::Array(Vec::new())));
                    }
                    return Some(parse_quote!(crate::data::Value::Array(vec![#(#es),*])));
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                    if g.stream().is_empty() {
                        return Some(parse_quote!(crate::data::Value::Object(crate::vp::ext::indexmap::IndexMap::new())));
                    }
                    let mut st: Vec<Stmt> = vec![];
                    for t in split(g.stream()) {
                        let tv: Vec<TokenTree> = t.into_iter().collect();
                        let c = tv.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ':'))?;
                        let key: proc_macro2::TokenStream = tv[..c].iter().cloned().collect();
                        let val: proc_macro2::TokenStream = tv[c + 1..].iter().cloned().collect();
                        let mut k: Expr = syn::parse2(key).ok()?;
                        self.visit_expr_mut(&mut k);
                        let x = self.dat(val)?;
                        st.push(parse_quote!(__o.insert(VDisp::vto_string(&(#k)), #x);));
                    }
                    return Some(parse_quote!({ let mut __o = crate::vp::ext::indexmap::IndexMap::new(); #(#st)* crate::data::Value::Object(__o) }));
                }
                _ => {}
            }
        }
        let mut x: Expr = syn::parse2(ts).ok()?;
        // chains inside macro arguments
        self.visit_expr_mut(&mut x);
        Some(parse_quote!(crate::vp::VDat::vdat(#x)))
    }
}

fn flat_or<'x>(p: &'x Pat, out: &mut Vec<&'x Pat>) {
    match p {
        Pat::Or(o) => {
            for c in &o.cases {
                flat_or(c, out)
            }
        }
        Pat::Paren(p) => flat_or(&p.pat, out),
        _ => out.push(p),
    }
}

fn pat_has_str(p: &Pat, consts: &Ctx) -> bool {
    match p {
        Pat::Lit(l) => matches!(l.lit, Lit::Str(_) | Lit::ByteStr(_)),
        Pat::Path(p) => consts.is_str_const(&last_seg(&p.path), p.path.segments.len() > 1),
        Pat::Ident(p) => consts.is_str_const(&p.ident.to_string(), false),
        Pat::Or(o) => o.cases.iter().any(|c| pat_has_str(c, consts)),
        Pat::Paren(p) => pat_has_str(&p.pat, consts),
        _ => false,
    }
}
