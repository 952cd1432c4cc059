//! Mechanical extractor: pulls the contracted functions out of /repo/src, lowers the Rust
//! constructs Verus does not accept by the fixed rules in `lower.rs`, splices the contracts
//! from /verif/contracts/*.vc and writes one Verus file plus a line map.
//!
//! usage: vp-extract REPO CONTRACT_DIR OUT.rs OUT.json [--stub path|nodec:path]...
mod contract;
mod chains;
mod inline;
mod lower;
mod norm;
mod print;

use contract::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

pub struct Module {
    pub items: Vec<syn::Item>,
}

fn module_file(repo: &Path, parts: &[String]) -> Option<(PathBuf, usize)> {
    // longest prefix that is a file
    for n in (1..=parts.len()).rev() {
        let p = repo.join("src").join(parts[..n].join("/"));
        let f = p.with_extension("rs");
        if f.is_file() {
            return Some((f, n));
        }
        let m = p.join("mod.rs");
        if m.is_file() {
            return Some((m, n));
        }
    }
    None
}

fn is_test_item(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string();
        s.contains("cfg (test)") || s.contains("# [test]") || s.contains("cfg (kani)")
    })
}

/// Items of a module path; nested inline modules are followed.
fn load_module(repo: &Path, cache: &mut HashMap<PathBuf, syn::File>, path: &str) -> Result<Module, String> {
    let parts: Vec<String> = path.split("::").map(|s| s.to_string()).collect();
    let (file, n) = module_file(repo, &parts).ok_or(format!("no file for module {path}"))?;
    if !cache.contains_key(&file) {
        let txt = std::fs::read_to_string(&file).map_err(|e| e.to_string())?;
        let f = syn::parse_file(&txt).map_err(|e| format!("{}: {e}", file.display()))?;
        cache.insert(file.clone(), f);
    }
    let mut items = cache[&file].items.clone();
    for p in &parts[n..] {
        let mut found = None;
        for it in &items {
            if let syn::Item::Mod(m) = it {
                if m.ident == p && !is_test_item(&m.attrs) {
                    found = m.content.clone().map(|c| c.1);
                }
            }
        }
        items = found.ok_or(format!("no module {p} in {path}"))?;
    }
    Ok(Module { items })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

pub struct Ctx {
    pub scalars: BTreeSet<String>,
    pub types: BTreeSet<String>,
    pub str_consts: BTreeSet<String>,
    pub arr_consts: HashMap<String, Vec<syn::Expr>>,
    pub lits: BTreeMap<Vec<u8>, usize>,
    pub blits: BTreeMap<Vec<u8>, usize>,
    pub const_lits: HashMap<String, Vec<u8>>,
    pub cur_mod: String,
    pub uses: HashMap<String, String>,
    /// items of external crates that have a contract shim
    pub ext: BTreeSet<String>,
    /// modules without the `==` on byte vectors lemmas in scope
    pub noeq: BTreeSet<String>,
    /// modules whose `a[i]` is lowered to `a.vix(i)`
    pub vix: BTreeSet<String>,
    /// modules whose type aliases are emitted
    pub alias: BTreeSet<String>,
    /// constants that are references to struct literals: substituted at each use
    pub struct_consts: HashMap<String, syn::Expr>,
}

impl Ctx {
    /// a path names a &str constant; unqualified lower case names only inside the defining module
    pub fn is_str_const(&self, name: &str, qualified: bool) -> bool {
        if !qualified && name.starts_with(|c: char| c.is_lowercase()) {
            return self.const_lits.contains_key(&format!("{}::{name}", self.cur_mod));
        }
        self.str_consts.contains(name)
    }
}

/// value of the &str constant a path expression names, seen from module `m`
fn resolve_const(repo: &Path, cache: &mut HashMap<PathBuf, syn::File>, m: &str, path: &str, depth: usize) -> Option<Vec<u8>> {
    if depth > 6 {
        return None;
    }
    let md = load_module(repo, cache, m).ok()?;
    let segs: Vec<&str> = path.split("::").collect();
    let target = if segs.len() == 1 {
        if let Some(syn::Item::Const(c)) = md.items.iter().find(|i| matches!(i, syn::Item::Const(c) if c.ident == segs[0])) {
            return match &*c.expr {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(v), .. }) => Some(v.value().into_bytes()),
                syn::Expr::Path(p) => {
                    let q: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    resolve_const(repo, cache, m, &q.join("::"), depth + 1)
                }
                _ => None,
            };
        }
        use_target(&md, segs[0])?
    } else {
        let base = match segs[0] {
            "crate" => String::new(),
            "self" => m.to_string(),
            "super" => m.rsplit_once("::")?.0.to_string(),
            x => use_target(&md, x).unwrap_or(format!("{m}::{x}")),
        };
        let rest = segs[1..].join("::");
        if base.is_empty() { rest } else { format!("{base}::{rest}") }
    };
    let (tm, tn) = target.rsplit_once("::")?;
    resolve_const(repo, cache, tm, tn, depth + 1)
}

fn use_target(md: &Module, name: &str) -> Option<String> {
    for it in &md.items {
        if let syn::Item::Use(u) = it {
            let mut v = vec![];
            flatten_use(&u.tree, "", &mut v);
            for (p, ren) in v {
                let nm = ren.unwrap_or(p.rsplit("::").next().unwrap().to_string());
                if nm == name {
                    return p.strip_prefix("crate::").map(|s| s.to_string());
                }
            }
        }
    }
    None
}

struct FnOut {
    path: String,
    module: String,
    start: usize,
    end: usize,
    status: String, // verified | trusted | stubbed | missing
    notes: Vec<String>,
    inlined: Vec<String>,
    calls: Vec<String>,
    props: Vec<String>,
    loops: usize,
}

struct Emit {
    out: String,
    line: usize,
}
impl Emit {
    fn push(&mut self, s: &str) {
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
        self.line = self.out.matches('\n').count() + 1;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let outp = &args[3];
    let outj = &args[4];
    let mut stubs: BTreeSet<String> = BTreeSet::new();
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--stub" {
            stubs.insert(args[i + 1].clone());
            i += 2;
        } else {
            i += 1;
        }
    }

    let mut files: Vec<PathBuf> =
        std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    files.sort();
    let mut cs = Contracts::default();
    for f in &files {
        let txt = std::fs::read_to_string(f).unwrap();
        cs.parse(&txt, &f.display().to_string());
    }
    let mut specs: Vec<PathBuf> =
        std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    specs.sort();

    // modules to visit
    let mut modules: BTreeSet<String> = BTreeSet::new();
    for m in cs.modules() {
        modules.insert(m);
    }
    let mut cache = HashMap::new();
    let mut mods: BTreeMap<String, Module> = BTreeMap::new();
    let mut problems: Vec<String> = vec![];
    let mut all_mods: Vec<String> = modules.iter().cloned().collect();
    let mut k = 0;
    while k < all_mods.len() {
        let m = all_mods[k].clone();
        k += 1;
        match load_module(&repo, &mut cache, &m) {
            Ok(md) => {
                // nested inline modules that hold consts (Codex etc.)
                for it in &md.items {
                    if let syn::Item::Mod(im) = it {
                        if im.content.is_some() && !is_test_item(&im.attrs) {
                            let p = format!("{m}::{}", im.ident);
                            if !all_mods.contains(&p) {
                                all_mods.push(p);
                            }
                        }
                    }
                }
                mods.insert(m, md);
            }
            Err(e) => problems.push(format!("lost module: {e}")),
        }
    }

    let mut ctx =
        Ctx { str_consts: BTreeSet::new(), arr_consts: HashMap::new(), lits: BTreeMap::new(), blits: BTreeMap::new(), const_lits: HashMap::new(), cur_mod: String::new(), uses: HashMap::new(), ext: BTreeSet::new(), noeq: BTreeSet::new(), vix: BTreeSet::new(), alias: BTreeSet::new(), struct_consts: HashMap::new(), scalars: BTreeSet::new(), types: BTreeSet::new() };
    for s in &specs {
        for l in std::fs::read_to_string(s).unwrap().lines() {
            if let Some(x) = l.trim().strip_prefix("// @ext ") {
                ctx.ext.extend(x.split_whitespace().map(|y| y.to_string()));
            }
            if let Some(x) = l.trim().strip_prefix("// @noeq ") {
                ctx.noeq.extend(x.split_whitespace().map(|y| y.to_string()));
            }
            if let Some(x) = l.trim().strip_prefix("// @vix ") {
                ctx.vix.extend(x.split_whitespace().map(|y| y.to_string()));
            }
            if let Some(x) = l.trim().strip_prefix("// @alias ") {
                ctx.alias.extend(x.split_whitespace().map(|y| y.to_string()));
            }
        }
    }
    // gather consts
    for (mp, md) in &mods {
        for it in &md.items {
            if let syn::Item::Type(t) = it {
                if ctx.alias.contains(mp) {
                    ctx.types.insert(format!("{mp}::{}", t.ident));
                }
            }
            if let syn::Item::Const(c) = it {
                if let Some(v) = resolve_const(&repo, &mut cache, mp, &c.ident.to_string(), 0) {
                    ctx.const_lits.insert(format!("{mp}::{}", c.ident), v);
                }
                if lower::is_scalar(&c.ty) {
                    ctx.scalars.insert(format!("{mp}::{}", c.ident));
                }
                lower::note_const(&mut ctx, &c.ident.to_string(), &c.ty, &c.expr);
            }
        }
    }

    // tree of modules
    let mut fnouts: Vec<FnOut> = vec![];
    let mut em = Emit { out: String::new(), line: 1 };
    em.push("#![feature(allocator_api)] #![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, non_upper_case_globals, unused_parens, unused_braces, unreachable_code, non_camel_case_types, unused_assignments, redundant_semicolons, path_statements, unused_must_use)]");
    em.push("use vstd::prelude::*;\nverus! {");
    em.push("pub mod vp { use vstd::prelude::*;");
    let mut speclines: Vec<(String, usize, usize)> = vec![];
    for s in &specs {
        let a = em.line;
        em.push(&spinoff(&std::fs::read_to_string(s).unwrap()));
        speclines.push((s.file_name().unwrap().to_string_lossy().to_string(), a, em.line - 1));
    }
    em.push("pub mod lits { use vstd::prelude::*; use super::*; /*LITS*/ }");
    em.push("pub use lits::*;\n} // vp");
    em.push("pub mod error { pub use super::vp::{Error, Result}; }");

    // emit module tree
    let mut tree: Vec<String> = mods.keys().cloned().collect();
    tree.sort();
    let roots: BTreeSet<String> = tree.iter().map(|m| m.split("::").next().unwrap().to_string()).collect();
    for r in roots {
        emit_mod(&r, &tree, &mods, &cs, &mut ctx, &stubs, &mut em, &mut fnouts, &mut problems);
    }
    em.push("} // verus!\nfn main() {}");

    // literals
    let mut lt = String::new();
    for (b, k) in &ctx.lits {
        let v: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
        let sv = if v.is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", v.join(", ")) };
        let _ = write!(
            lt,
            "#[verifier::external_body] pub fn lit_{k}() -> (r: &'static Str) ensures r@ == {sv} {{ unimplemented!() }} "
        );
    }
    for (b, k) in &ctx.blits {
        let v: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
        let sv = if v.is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", v.join(", ")) };
        let _ = write!(
            lt,
            "#[verifier::external_body] pub fn blit_{k}() -> (r: &'static [u8]) ensures r@ == {sv} {{ unimplemented!() }} "
        );
    }
    let out = em.out.replace("/*LITS*/", &lt);
    std::fs::write(outp, out).unwrap();

    // contracts whose function was not found
    for c in cs.fns.values() {
        if !fnouts.iter().any(|f| f.path == c.path) {
            fnouts.push(FnOut {
                path: c.path.clone(),
                module: String::new(),
                start: 0,
                end: 0,
                status: "missing".into(),
                notes: vec!["function not found in source".into()],
                inlined: vec![],
                calls: vec![],
                props: c.props.clone(),
                loops: 0,
            });
        }
    }
    let j = serde_json::json!({
        "functions": fnouts.iter().map(|f| serde_json::json!({
            "path": f.path, "module": f.module, "start": f.start, "end": f.end, "status": f.status, "notes": f.notes,
            "inlined": f.inlined, "calls": f.calls, "props": f.props, "loops": f.loops})).collect::<Vec<_>>(),
        "specs": speclines.iter().map(|(f,a,b)| serde_json::json!({"file": f, "start": a, "end": b})).collect::<Vec<_>>(),
        "problems": problems,
    });
    std::fs::write(outj, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

#[allow(clippy::too_many_arguments)]
fn emit_mod(
    path: &str,
    tree: &[String],
    mods: &BTreeMap<String, Module>,
    cs: &Contracts,
    ctx: &mut Ctx,
    stubs: &BTreeSet<String>,
    em: &mut Emit,
    fnouts: &mut Vec<FnOut>,
    problems: &mut Vec<String>,
) {
    let name = path.rsplit("::").next().unwrap();
    let bc = if ctx.noeq.contains(path) { "" } else { "broadcast use {l_vec_eq, l_slice_eq, ax_sv_eq};" };
    em.push(&format!("pub mod {name} {{ use vstd::prelude::*; use crate::vp::*; use crate::cesr::core::matter::Matter as _; use crate::cesr::core::indexer::Indexer as _; {bc}"));
    if let Some(md) = mods.get(path) {
        emit_items(path, md, tree, cs, ctx, stubs, em, fnouts, problems);
    }
    // children
    let mut kids: BTreeSet<String> = BTreeSet::new();
    let pre = format!("{path}::");
    for t in tree {
        if let Some(rest) = t.strip_prefix(&pre) {
            kids.insert(format!("{pre}{}", rest.split("::").next().unwrap()));
        }
    }
    for k in kids {
        emit_mod(&k, tree, mods, cs, ctx, stubs, em, fnouts, problems);
    }
    em.push(&format!("}} // mod {name}"));
}

fn known_item(p: &str, tree: &[String], cs: &Contracts) -> bool {
    tree.iter().any(|t| t == p || t.starts_with(&format!("{p}::")))
        || cs.fns.contains_key(p)
        || cs.structs.contains_key(p)
        || cs.traits.contains_key(p)
}

fn flatten_use(t: &syn::UseTree, pre: &str, out: &mut Vec<(String, Option<String>)>) {
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{a}::{b}") };
    match t {
        syn::UseTree::Path(p) => flatten_use(&p.tree, &j(pre, &p.ident.to_string()), out),
        syn::UseTree::Name(n) => {
            if n.ident == "self" {
                out.push((pre.to_string(), None))
            } else {
                out.push((j(pre, &n.ident.to_string()), None))
            }
        }
        syn::UseTree::Rename(r) => {
            let b = if r.ident == "self" { pre.to_string() } else { j(pre, &r.ident.to_string()) };
            out.push((b, Some(r.rename.to_string())))
        }
        syn::UseTree::Glob(_) => out.push((j(pre, "*"), None)),
        syn::UseTree::Group(g) => {
            for x in &g.items {
                flatten_use(x, pre, out)
            }
        }
    }
}

/// resolve re-exports like crate::cesr::Matter -> cesr::core::matter::Matter
fn resolve_reexport(p: &str, mods: &[String], cs: &Contracts) -> Option<String> {
    let last = p.rsplit("::").next().unwrap();
    let mut cands: Vec<String> = vec![];
    for k in cs.structs.keys().chain(cs.traits.keys()).chain(cs.fns.keys()).chain(mods.iter()) {
        if k.rsplit("::").next() == Some(last) && !k.contains(' ') {
            cands.push(k.clone());
        }
    }
    cands.sort();
    cands.dedup();
    let pfx = p.split("::").next().unwrap();
    let c2: Vec<String> = cands.iter().filter(|c| c.starts_with(pfx)).cloned().collect();
    if c2.len() == 1 {
        return Some(c2[0].clone());
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn emit_items(
    path: &str,
    md: &Module,
    tree: &[String],
    cs: &Contracts,
    ctx: &mut Ctx,
    stubs: &BTreeSet<String>,
    em: &mut Emit,
    fnouts: &mut Vec<FnOut>,
    problems: &mut Vec<String>,
) {
    ctx.cur_mod = path.to_string();
    // uses
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for it in &md.items {
        if let syn::Item::Use(u) = it {
            if is_test_item(&u.attrs) {
                continue;
            }
            let mut v = vec![];
            flatten_use(&u.tree, "", &mut v);
            for (p, ren) in v {
                // external crates that have a contract shim
                if ctx.ext.contains(&p) {
                    let l = p.rsplit("::").next().unwrap().to_string();
                    let s = match &ren {
                        Some(r) => format!("use crate::vp::ext::{p} as {r};"),
                        None => format!("use crate::vp::ext::{p};"),
                    };
                    if seen.insert(ren.clone().unwrap_or(l)) {
                        em.push(&s);
                    }
                    continue;
                }
                let Some(mut p) = p.strip_prefix("crate::").map(|s| s.to_string()) else { continue };
                if p.starts_with("error::") {
                    if let (Some(r), true) = (&ren, p == "error::Error") {
                        em.push(&format!("use crate::vp::Error as {r};"));
                    }
                    continue; // vp::* supplies Error and Result
                }
                if p.ends_with("::*") {
                    continue;
                }
                if !known_item(&p, tree, cs) && !ctx.types.contains(&p) && !ctx.const_lits.contains_key(&p) && !ctx.scalars.contains(&p) {
                    match resolve_reexport(&p, tree, cs) {
                        Some(q) => p = q,
                        None => continue,
                    }
                }
                let s = match &ren {
                    Some(r) if r == "_" => format!("use crate::{p};"),
                    Some(r) => format!("use crate::{p} as {r};"),
                    None => format!("use crate::{p};"),
                };
                let nm = ren.clone().unwrap_or(p.rsplit("::").next().unwrap().to_string());
                if seen.insert(nm) {
                    em.push(&s);
                }
            }
        }
    }
    if let Some(t) = cs.mod_text.get(path) {
        em.push(t);
    }
    // consts
    for it in &md.items {
        if let syn::Item::Const(c) = it {
            if is_test_item(&c.attrs) {
                continue;
            }
            ctx.cur_mod = path.to_string();
            if let Some(s) = lower::emit_const(ctx, c) {
                em.push(&s);
            }
            // obligations on every published constant of the module
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(v), .. }) = &*c.expr {
                for (n, (_, pred)) in cs.consts.iter().enumerate().filter(|(_, x)| x.0 == path) {
                    let b: Vec<String> = v.value().into_bytes().iter().map(|x| format!("{x}u8")).collect();
                    let start = em.line;
                    em.push(&format!("#[verifier::spinoff_prover] pub proof fn c{n}_{}() ensures {}(seq![{}]) {{ {} }}", c.ident, pred.split_once(' ').map(|x| x.0).unwrap_or(pred), b.join(", "), pred.split_once(' ').map(|x| x.1).unwrap_or("")));
                    fnouts.push(FnOut {
                        path: format!("{path}::c{n}_{}", c.ident),
                        module: path.to_string(),
                        start,
                        end: em.line - 1,
                        status: "verified".into(),
                        notes: vec![],
                        inlined: vec![],
                        calls: vec![],
                        props: vec![],
                        loops: 0,
                    });
                }
            }
        }
    }
    // aliases of external types
    for it in &md.items {
        if let syn::Item::Type(t) = it {
            let mut t = t.clone();
            let txt = quote::quote!(#t).to_string();
            if ctx.alias.contains(path) || ctx.ext.iter().any(|x| txt.contains(&format!("{} ::", x.split("::").next().unwrap()))) {
                let mut lw = lower::Lower::new(ctx);
                syn::visit_mut::VisitMut::visit_type_mut(&mut lw, &mut t.ty);
                let (id, ty) = (&t.ident, &t.ty);
                em.push(&format!("pub type {id} = {};", quote::quote!(#ty)));
            }
        }
    }
    // structs
    for it in &md.items {
        match it {
            syn::Item::Struct(s) => {
                let p = format!("{path}::{}", s.ident);
                if let Some(sc) = cs.structs.get(&p) {
                    let mut s = s.clone();
                    let derives: String = s.attrs.iter().map(|a| quote::quote!(#a).to_string()).collect();
                    if derives.contains("derive") && derives.contains("Clone") && s.generics.params.is_empty() {
                        em.push(&format!("impl Clone for {0} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}", s.ident));
                    }
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = if sc.contains("type_invariant") { syn::Visibility::Inherited } else { syn::parse_quote!(pub) };
                    }
                    let mut lw = lower::Lower::new(ctx);
                    lw.visit_item_struct_mut(&mut s);
                    let t = print::tokens(&quote::quote!(#s));
                    em.push(&t);
                    em.push(sc);
                }
            }
            syn::Item::Enum(s) => {
                let p = format!("{path}::{}", s.ident);
                if let Some(sc) = cs.structs.get(&p) {
                    let mut s = s.clone();
                    let derives: String = s.attrs.iter().map(|a| quote::quote!(#a).to_string()).collect();
                    if derives.contains("derive") && derives.contains("Clone") && s.generics.params.is_empty() {
                        em.push(&format!("impl Clone for {0} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}", s.ident));
                    }
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    let mut lw = lower::Lower::new(ctx);
                    lw.visit_item_enum_mut(&mut s);
                    em.push(&print::tokens(&quote::quote!(#s)));
                    em.push(sc);
                }
            }
            _ => {}
        }
    }
    for sp in cs.structs.keys() {
        if let Some(n) = sp.strip_prefix(&format!("{path}::")) {
            if !n.contains("::")
                && !md.items.iter().any(|i| match i {
                    syn::Item::Struct(s) => s.ident == n,
                    syn::Item::Enum(s) => s.ident == n,
                    _ => false,
                })
            {
                problems.push(format!("lost struct {sp}"));
            }
        }
    }
    // helper table for inlining
    let helpers = inline::collect(&md.items);

    // free fns
    for it in &md.items {
        if let syn::Item::Fn(f) = it {
            if is_test_item(&f.attrs) {
                continue;
            }
            let p = format!("{path}::{}", f.sig.ident);
            if let Some(c) = cs.fns.get(&p) {
                emit_fn(c, &f.sig, Some(&f.block), "", true, &helpers, cs, path, ctx, stubs, em, fnouts);
            }
        }
    }
    // traits
    for it in &md.items {
        if let syn::Item::Trait(t) = it {
            let p = format!("{path}::{}", t.ident);
            let Some(text) = cs.traits.get(&p) else { continue };
            let mut sup: Vec<String> = vec!["Sized".into()];
            for b in &t.supertraits {
                let s = quote::quote!(#b).to_string();
                if s != "Sized" && !s.starts_with("Zeroize") {
                    sup.push(s);
                }
            }
            em.push(&format!("pub trait {} : {} {{", t.ident, sup.join(" + ")));
            em.push(text);
            for ti in &t.items {
                if let syn::TraitItem::Fn(f) = ti {
                    let fp = format!("{p}::{}", f.sig.ident);
                    if let Some(c) = cs.fns.get(&fp) {
                        emit_fn(c, &f.sig, f.default.as_ref(), &t.ident.to_string(), false, &helpers, cs, path, ctx, stubs, em, fnouts);
                    }
                }
            }
            em.push("}");
        }
    }
    // impls
    for it in &md.items {
        if let syn::Item::Impl(im) = it {
            if is_test_item(&im.attrs) {
                continue;
            }
            let tn = type_name(&im.self_ty);
            let from_name = im.trait_.as_ref().and_then(|(_, tp, _)| from_impl_name(tp));
            let (hdr, base, key) = match &im.trait_ {
                // `impl From<T> for X` -> inherent `X::from_<T>` (several impls share the trait's name)
                Some(_) if from_name.is_some() => (format!("impl {tn} {{"), format!("{path}::{tn}"), format!("{path}::{tn} as From")),
                Some((_, tp, _)) => {
                    let trn = tp.segments.last().unwrap().ident.to_string();
                    (format!("impl {trn} for {tn} {{"), format!("{path}::{tn} as {trn}"), format!("{path}::{tn} as {trn}"))
                }
                None => (format!("impl {tn} {{"), format!("{path}::{tn}"), format!("{path}::{tn} inherent")),
            };
            let want: Vec<&syn::ImplItemFn> = im
                .items
                .iter()
                .filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f) } else { None })
                .filter(|f| !is_test_item(&f.attrs) && cs.fns.contains_key(&format!("{base}::{}", from_name.clone().unwrap_or(f.sig.ident.to_string()))))
                .collect();
            let text = cs.impls.get(&key);
            if want.is_empty() && text.is_none() {
                continue;
            }
            em.push(&hdr);
            if let Some(t) = text {
                em.push(t);
            }
            let is_trait = im.trait_.is_some() && from_name.is_none();
            for f in want {
                let mut sig = f.sig.clone();
                if let Some(n) = &from_name {
                    sig.ident = quote::format_ident!("{n}");
                    if n.starts_with("index_") {
                        // `Self::Output` of Index / IndexMut
                        for x in &im.items {
                            if let syn::ImplItem::Type(t) = x {
                                let ty = &t.ty;
                                if let syn::ReturnType::Type(_, r) = &sig.output {
                                    if quote::quote!(#r).to_string().contains("Self :: Output") {
                                        let m = quote::quote!(#r).to_string().contains("mut");
                                        sig.output = if m { syn::parse_quote!(-> &mut #ty) } else { syn::parse_quote!(-> &#ty) };
                                    }
                                }
                            }
                        }
                    }
                }
                let c = &cs.fns[&format!("{base}::{}", sig.ident)];
                emit_fn(c, &sig, Some(&f.block), &tn, !is_trait, &helpers, cs, path, ctx, stubs, em, fnouts);
            }
            em.push("}");
            // a trait impl that overrides a provided method we do not know about
            if is_trait {
                for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let fp = format!("{base}::{}", f.sig.ident);
                        if !cs.fns.contains_key(&fp) {
                            problems.push(format!("uncontracted trait method {fp}"));
                        }
                    }
                }
            }
        }
    }
}

fn from_impl_name(tp: &syn::Path) -> Option<String> {
    let l = tp.segments.last()?;
    let pre = match l.ident.to_string().as_str() {
        "From" => "from_",
        "Index" => "index_",
        "IndexMut" => "index_mut_",
        _ => return None,
    };
    if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
        let t = quote::quote!(#a).to_string().replace(' ', "");
        let t = &t[1..t.len() - 1];
        let n: String = t.chars().map(|c| if c == '&' { "ref_".to_string() } else if c.is_alphanumeric() { c.to_string() } else { "_".to_string() }).collect();
        return Some(format!("{pre}{n}"));
    }
    None
}

fn subst_idents(text: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            let prev_dot = i > 0 && cs[i - 1] == '.';
            match map.get(&w) {
                Some(r) if !prev_dot => out.push_str(r),
                _ => out.push_str(&w),
            }
            i = j;
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    c: &FnContract,
    sig: &syn::Signature,
    block: Option<&syn::Block>,
    self_ty: &str,
    vis: bool,
    helpers: &inline::Helpers,
    cs: &Contracts,
    modpath: &str,
    ctx: &mut Ctx,
    stubs: &BTreeSet<String>,
    em: &mut Emit,
    fnouts: &mut Vec<FnOut>,
) {
    let mut notes: Vec<String> = vec![];
    let mut sig = sig.clone();
    // parameters
    let mut actual: Vec<String> = vec![];
    let mut mut_params: Vec<String> = vec![];
    for a in sig.inputs.iter_mut() {
        match a {
            syn::FnArg::Receiver(_) => actual.push("self".into()),
            syn::FnArg::Typed(t) => {
                if let syn::Pat::Ident(pi) = &mut *t.pat {
                    actual.push(pi.ident.to_string());
                    if pi.mutability.is_some() {
                        pi.mutability = None;
                        mut_params.push(pi.ident.to_string());
                    }
                } else {
                    actual.push(format!("_arg{}", actual.len()));
                    notes.push("pattern parameter".into());
                }
                t.attrs.clear();
            }
        }
    }
    let mut map: HashMap<String, String> = HashMap::new();
    if actual.len() != c.params.len() {
        notes.push(format!("parameter count changed: contract {:?} source {:?}", c.params, actual));
    } else {
        for (a, b) in c.params.iter().zip(actual.iter()) {
            if a != b {
                map.insert(a.clone(), b.clone());
            }
        }
    }
    let mut inlined = vec![];
    let mut nloops = 0;
    let mut calls = vec![];
    let mut body_txt = None;
    {
        let mut lw = lower::Lower::new(ctx);
        // types in the signature
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = a {
                lw.visit_type_mut(&mut t.ty);
            }
        }
        if let syn::ReturnType::Type(_, t) = &mut sig.output {
            lw.visit_type_mut(t);
        }
        if let Some(b) = block {
            if c.trusted.is_none() {
                let mut b = b.clone();
                syn::visit_mut::VisitMut::visit_block_mut(&mut chains::Chains::default(), &mut b);
                inline::inline_helpers(&mut b, helpers, cs, modpath, self_ty, &mut inlined, &mut notes);
                syn::visit_mut::VisitMut::visit_block_mut(&mut norm::Norm, &mut b);
                if let Some((k, txt)) = lw.lower_body(&mut b, c, &map, &mut_params, &mut notes, &mut calls) {
                    nloops = k;
                    body_txt = Some(txt);
                }
            }
        }
    }
    let stub = stubs.contains(&c.path) || notes.iter().any(|n| n.starts_with("unsupported"));
    let status;
    let start = em.line;
    em.push(&format!("// fn {}", c.path));
    if sig.ident == "to_string" && vis {
        sig.ident = quote::format_ident!("vto_string");
    }
    let name = &sig.ident;
    let mut gen = String::new();
    if !sig.generics.params.is_empty() {
        let g = &sig.generics;
        gen = quote::quote!(#g).to_string();
    }
    let ins: Vec<String> = sig.inputs.iter().map(|a| print::tokens(&quote::quote!(#a)).trim().to_string()).collect();
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            if matches!(**t, syn::Type::Path(_)) || !c.ret.is_empty() {
                format!(" -> ({}: {})", if c.ret.is_empty() { "res" } else { &c.ret }, print::tokens(&quote::quote!(#t)).trim())
            } else {
                format!(" -> (res: {})", print::tokens(&quote::quote!(#t)).trim())
            }
        }
    };
    let spec = subst_idents(&c.spec, &map);
    let vis = if vis { "pub " } else { "" };
    let head = format!("{vis}fn {name}{gen}({}){ret}", ins.join(", "));
    if block.is_none() {
        status = "declared";
        em.push(&format!("{head}\n{spec};"));
    } else if let Some(r) = &c.trusted {
        status = "trusted";
        notes.push(format!("trusted: {r}"));
        em.push(&format!("#[verifier::external_body] {head}\n{spec}\n{{ unimplemented!() }}"));
    } else if stub || body_txt.is_none() {
        status = "stubbed";
        em.push(&format!("#[verifier::external_body] {head}\n{spec}\n{{ unimplemented!() }}"));
    } else {
        status = "verified";
        // a loop or recursion without a measure: accepted, reported, left to the bounded check
        let nd = stubs.contains(&format!("nodec:{}", c.path));
        if nd {
            notes.push("termination not proved".into());
        }
        let nodec = if nd { "#[verifier::exec_allows_no_decreases_clause]" } else { "" };
        em.push(&format!(
            "{nodec} #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] {} {head}\n{spec}\n{}",
            c.attrs,
            body_txt.unwrap()
        ));
    }
    fnouts.push(FnOut {
        path: c.path.clone(),
        module: modpath.to_string(),
        start,
        end: em.line - 1,
        status: status.into(),
        notes,
        inlined,
        calls,
        props: c.props.clone(),
        loops: nloops,
    });
}

/// every lemma is proved in a solver of its own, so that lemmas run in parallel
fn spinoff(t: &str) -> String {
    let mut o = String::with_capacity(t.len() + 8192);
    for l in t.split_inclusive('\n') {
        let x = l.trim_start();
        if ["proof fn ", "pub proof fn ", "broadcast proof fn ", "pub broadcast proof fn "].iter().any(|p| x.starts_with(p)) {
            o.push_str("#[verifier::spinoff_prover] ");
        }
        o.push_str(l);
    }
    o
}
