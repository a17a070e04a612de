//! vx: mechanical extractor. Copies <repo>/src to <out>, wraps the functions under contract in `verus!{}`
//! and splices the contracts of <contracts>/*.vc into them. See DESIGN.md for the list of desugarings.
mod contract;
mod rules;

use contract::{FileContract, FnContract};
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub type Edit = (usize, usize, String);

pub fn rng(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}

pub fn apply(text: &str, mut edits: Vec<Edit>) -> String {
    // stable: insertions at the same point keep their order
    edits.sort_by_key(|e| (e.0, e.1));
    let mut out = String::with_capacity(text.len() + 1024);
    let mut pos = 0;
    for (s, e, t) in edits {
        assert!(s >= pos, "overlapping edits at {s} < {pos}: {t}");
        out.push_str(&text[pos..s]);
        out.push_str(&t);
        pos = e;
    }
    out.push_str(&text[pos..]);
    out
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => norm(&quote::quote!(#t).to_string()),
    }
}

pub fn impl_key(i: &syn::ItemImpl) -> String {
    let ty = ty_name(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => format!("<{} for {}>", p.segments.last().unwrap().ident, ty),
        None => ty,
    }
}

/// A located function: byte ranges in the file's text.
pub struct FnLoc<'a> {
    pub attrs_start: usize,
    pub sig: &'a syn::Signature,
    pub block: Option<&'a syn::Block>,
    pub span: std::ops::Range<usize>,
    pub item: usize, // index of the top-level item
    pub semi: Option<usize>,
}

pub fn find_fn<'a>(f: &'a syn::File, key: &str) -> Option<FnLoc<'a>> {
    for (ix, item) in f.items.iter().enumerate() {
        match item {
            syn::Item::Fn(i) if i.sig.ident == key => {
                let r = rng(i.span());
                return Some(FnLoc { attrs_start: r.start, sig: &i.sig, block: Some(&i.block), span: r, item: ix, semi: None });
            }
            syn::Item::Impl(im) => {
                let k = impl_key(im);
                for it in &im.items {
                    if let syn::ImplItem::Fn(m) = it {
                        if format!("{k}::{}", m.sig.ident) == key {
                            let r = rng(m.span());
                            return Some(FnLoc { attrs_start: r.start, sig: &m.sig, block: Some(&m.block), span: r, item: ix, semi: None });
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                for it in &t.items {
                    if let syn::TraitItem::Fn(m) = it {
                        if format!("trait {}::{}", t.ident, m.sig.ident) == key {
                            let r = rng(m.span());
                            return Some(FnLoc {
                                attrs_start: r.start,
                                sig: &m.sig,
                                block: m.default.as_ref(),
                                span: r,
                                item: ix,
                                semi: m.semi_token.map(|s| rng(s.span()).start),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn item_name(i: &syn::Item) -> String {
    match i {
        syn::Item::Struct(s) => format!("struct {}", s.ident),
        syn::Item::Enum(s) => format!("enum {}", s.ident),
        syn::Item::Trait(s) => format!("trait {}", s.ident),
        syn::Item::Type(s) => format!("type {}", s.ident),
        syn::Item::Const(s) => format!("const {}", s.ident),
        syn::Item::Fn(s) => format!("fn {}", s.sig.ident),
        syn::Item::Impl(s) => format!("impl {}", impl_key(s)),
        _ => String::new(),
    }
}

struct Opts {
    degrade: BTreeSet<String>,
    // functions whose loops are proved in the context of the whole body
    flat: BTreeSet<String>,
}

/// rename locals in contract text when the function's locals were renamed consistently
fn locals_of(b: &syn::Block, sig: &syn::Signature) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            let n = p.ident.to_string();
            if !n.starts_with("__") && !self.0.contains(&n) && n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0.push(n);
            }
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            syn::visit::Visit::visit_pat(&mut v, &t.pat);
        }
    }
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn rename_words(text: &str, map: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut cs = text.char_indices().peekable();
    let mut prev = ' ';
    while let Some((i, c)) = cs.next() {
        if c.is_alphabetic() || c == '_' {
            let mut end = i + c.len_utf8();
            while let Some(&(j, d)) = cs.peek() {
                if d.is_alphanumeric() || d == '_' {
                    end = j + d.len_utf8();
                    cs.next();
                } else {
                    break;
                }
            }
            let w = &text[i..end];
            // not a field access / path segment
            let next = text[end..].chars().next().unwrap_or(' ');
            if prev != '.' && !(prev == ':') && !(next == ':' && text[end..].starts_with("::")) {
                out.push_str(map.get(w).map(|s| s.as_str()).unwrap_or(w));
            } else {
                out.push_str(w);
            }
            prev = 'a';
        } else {
            // `..name` is a range, not a field access
            if c == '.' && prev == '.' {
                prev = ' ';
            } else {
                prev = c;
            }
            out.push(c);
        }
    }
    out
}

/// `#[derive(Trait)]` written out as the impl the compiler generates for it
fn expand_derive(text: &str, f: &syn::File, ty: &str, tr: &str) -> Option<Vec<Edit>> {
    for item in &f.items {
        let (attrs, generics) = match item {
            syn::Item::Struct(s) if s.ident == ty => (&s.attrs, &s.generics),
            syn::Item::Enum(s) if s.ident == ty => (&s.attrs, &s.generics),
            _ => continue,
        };
        if !generics.params.is_empty() {
            return None;
        }
        let mut edits: Vec<Edit> = vec![];
        for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
            let list = a
                .parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated)
                .ok()?;
            if !list.iter().any(|p| p.is_ident(tr)) {
                continue;
            }
            let rest: Vec<String> = list.iter().filter(|p| !p.is_ident(tr)).map(|p| text[rng(p.span())].to_string()).collect();
            let r = rng(a.span());
            edits.push((r.start, r.end, format!("#[derive({})]", rest.join(", "))));
        }
        if edits.is_empty() {
            return None;
        }
        let field = |i: usize, x: &syn::Field| x.ident.as_ref().map(|n| n.to_string()).unwrap_or(i.to_string());
        let body = match (item, tr) {
            (syn::Item::Struct(s), "Default") => {
                let fs: Vec<String> = s.fields.iter().enumerate().map(|(i, x)| format!("{}: <{} as ::core::default::Default>::default()", field(i, x), &text[rng(x.ty.span())])).collect();
                format!("fn default() -> Self {{ {ty} {{ {} }} }}", fs.join(", "))
            }
            (syn::Item::Struct(s), "Clone") => {
                let fs: Vec<String> = s.fields.iter().enumerate().map(|(i, x)| format!("{0}: <{1} as ::core::clone::Clone>::clone(&self.{0})", field(i, x), &text[rng(x.ty.span())])).collect();
                format!("fn clone(&self) -> Self {{ {ty} {{ {} }} }}", fs.join(", "))
            }
            (syn::Item::Enum(e), "PartialEq") if e.variants.iter().all(|v| v.fields.is_empty()) => {
                let arms: Vec<String> = e.variants.iter().map(|v| format!("({ty}::{0}, {ty}::{0}) => true, ", v.ident)).collect();
                format!("fn eq(&self, other: &Self) -> bool {{ match (self, other) {{ {}_ => false }} }}", arms.concat())
            }
            (syn::Item::Enum(e), "Default") => {
                let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))?;
                for v in &e.variants {
                    for a in v.attrs.iter().filter(|a| a.path().is_ident("default")) {
                        let r = rng(a.span());
                        edits.push((r.start, r.end, String::new()));
                    }
                }
                format!("fn default() -> Self {{ {ty}::{} }}", v.ident)
            }
            _ => return None,
        };
        let end = rng(item.span()).end;
        edits.push((end, end, format!("\nimpl {tr} for {ty} {{ {body} }}\n")));
        return Some(edits);
    }
    None
}

fn process(text0: &str, fc: &FileContract, opts: &Opts, log: &mut Vec<serde_json::Value>) -> Result<String, String> {
    let mut text = text0.to_string();
    let parse = |t: &str| syn::parse_file(t).map_err(|e| format!("{}: {e}", fc.file));
    for (ty, tr) in &fc.derives {
        let f = parse(&text)?;
        if let Some(edits) = expand_derive(&text, &f, ty, tr) {
            log.push(serde_json::json!({"file": fc.file, "fn": format!("<{tr} for {ty}>"), "event": "derive"}));
            text = apply(&text, edits);
        }
    }
    let f0 = parse(&text)?;
    let mut fns: BTreeMap<String, FnContract> = fc.fns.clone();
    // lost anchors
    let mut lost = vec![];
    for k in fns.keys() {
        if find_fn(&f0, k).is_none() {
            lost.push(k.clone());
        }
    }
    for k in &lost {
        log.push(serde_json::json!({"file": fc.file, "fn": k, "event": "lost", "why": "function not found"}));
        fns.remove(k);
    }
    // ---- desugaring passes ----
    let keys: Vec<String> = fns.keys().cloned().collect();
    for k in &keys {
        let mut c = fns.get(k).unwrap().clone();
        c.desugar.extend(fc.desugar.iter().cloned());
        let c = c;
        if c.trusted || opts.degrade.contains(k) {
            continue;
        }
        let mut applied: Vec<String> = vec![];
        for _ in 0..600 {
            let f = parse(&text)?;
            let loc = find_fn(&f, k).unwrap();
            let Some(b) = loc.block else { break };
            match rules::step(&text, b, &c, &fc.outline) {
                Some((name, edits)) => {
                    applied.push(name);
                    text = apply(&text, edits);
                }
                None => break,
            }
        }
        if !applied.is_empty() {
            let mut counts: BTreeMap<String, usize> = BTreeMap::new();
            for a in applied {
                *counts.entry(a).or_default() += 1;
            }
            log.push(serde_json::json!({"file": fc.file, "fn": k, "event": "desugar", "rules": counts}));
        }
    }
    // ---- splice pass ----
    let f = parse(&text)?;
    let mut edits: Vec<Edit> = vec![];
    let mut wrapped: BTreeSet<usize> = BTreeSet::new();
    let mut contracted: BTreeSet<(usize, usize)> = BTreeSet::new();
    for k in &keys {
        let mut c = fns.get(k).unwrap().clone();
        let loc = find_fn(&f, k).unwrap();
        wrapped.insert(loc.item);
        contracted.insert((loc.span.start, loc.span.end));
        let degraded = opts.degrade.contains(k);
        let is_trait_default = k.starts_with("trait ");
        let _ = is_trait_default;
        // local renaming
        if let Some(b) = loc.block {
            if !c.locals.is_empty() && !degraded {
                let now = locals_of(b, loc.sig);
                let missing: Vec<_> = c.locals.iter().filter(|l| !now.contains(l)).cloned().collect();
                if !missing.is_empty() {
                    let extra: Vec<_> = now.iter().filter(|l| !c.locals.contains(l)).cloned().collect();
                    if missing.len() <= extra.len() {
                        let mut map = BTreeMap::new();
                        if missing.len() == extra.len() {
                            for (m, e) in missing.iter().zip(extra.iter()) {
                                map.insert(m.clone(), e.clone());
                            }
                        } else if now.len() == c.locals.len() {
                            for (m, e) in c.locals.iter().zip(now.iter()) {
                                map.insert(m.clone(), e.clone());
                            }
                        }
                        log.push(serde_json::json!({"file": fc.file, "fn": k, "event": "rename", "map": map}));
                        let r = |s: &String| rename_words(s, &map);
                        c.spec = r(&c.spec);
                        c.entry = r(&c.entry);
                        c.exit = r(&c.exit);
                        for m in [&mut c.loops, &mut c.loop_start, &mut c.loop_top, &mut c.loop_end, &mut c.loop_before, &mut c.loop_after, &mut c.closures] {
                            for v in m.values_mut() {
                                *v = r(v);
                            }
                        }
                        for v in c.after_call.iter_mut().chain(c.before_call.iter_mut()) {
                            v.1 = r(&v.1);
                        }
                    }
                }
            }
        }
        let kind = if degraded { "degraded" } else if c.trusted { "trusted" } else { "verified" };
        edits.push((loc.attrs_start, loc.attrs_start, format!("/*VXFN {kind} {k}*/ ")));
        edits.push((loc.span.end, loc.span.end, format!(" /*VXEND {k}*/")));
        let sig_start = {
            // after attributes: position of visibility/fn token
            let s = rng(loc.sig.span()).start;
            // step back over visibility text
            let before = &text[loc.attrs_start..s];
            let vis = ["pub(crate) ", "pub "].iter().find(|v| before.ends_with(**v)).map(|v| v.len()).unwrap_or(0);
            s - vis
        };
        let mut attrs = c.attrs.clone();
        if opts.flat.contains(k) && !degraded && !attrs.contains("loop_isolation") {
            attrs.push_str("#[verifier::loop_isolation(false)]\n");
        }
        if degraded || c.trusted {
            if loc.block.is_some() {
                attrs.push_str("#[verifier::external_body]\n");
            }
        }
        edits.push((sig_start, sig_start, attrs));
        if c.desugar.iter().chain(fc.desugar.iter()).any(|d| d == "iter") {
            // an iterator argument is the sequence of its items
            for i in &loc.sig.inputs {
                let syn::FnArg::Typed(pt) = i else { continue };
                let syn::Type::ImplTrait(it) = &*pt.ty else { continue };
                let Some(syn::TypeParamBound::Trait(tb)) = it.bounds.first() else { continue };
                let seg = tb.path.segments.last().unwrap();
                if !matches!(seg.ident.to_string().as_str(), "Iterator" | "IntoIterator") {
                    continue;
                }
                if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                    if let Some(syn::GenericArgument::AssocType(at)) = ab.args.first() {
                        let ty = text[rng(at.ty.span())].to_string();
                        let r = rng(pt.ty.span());
                        edits.push((r.start, r.end, format!("crate::verif_iter::Sq<{ty}>")));
                    }
                }
            }
        }
        if c.desugar.iter().chain(fc.desugar.iter()).any(|d| d == "argimpl") {
            // `impl Trait` in argument position is a named type parameter
            let mut params = vec![];
            for i in &loc.sig.inputs {
                let syn::FnArg::Typed(pt) = i else { continue };
                let ty = match &*pt.ty {
                    syn::Type::Reference(r) => &*r.elem,
                    t => t,
                };
                let syn::Type::ImplTrait(it) = ty else { continue };
                let name = format!("__I{}", params.len());
                let r = rng(it.span());
                params.push(format!("{name}: {}", text[rng(it.bounds.span())].to_string()));
                edits.push((r.start, r.end, name));
            }
            if !params.is_empty() {
                let params = params.join(", ");
                match loc.sig.generics.gt_token {
                    Some(gt) => {
                        let at = rng(gt.span()).start;
                        let comma = if loc.sig.generics.params.is_empty() || loc.sig.generics.params.trailing_punct() { "" } else { ", " };
                        edits.push((at, at, format!("{comma}{params}")));
                    }
                    None => {
                        let at = rng(loc.sig.ident.span()).end;
                        edits.push((at, at, format!("<{params}>")));
                    }
                }
            }
        }
        if let (Some(r), syn::ReturnType::Type(_, t)) = (&c.ret, &loc.sig.output) {
            let tr = rng(t.span());
            edits.push((tr.start, tr.start, format!("({r}: ")));
            edits.push((tr.end, tr.end, ")".into()));
        }
        let spec_at = match (loc.block, loc.semi) {
            (Some(b), _) => rng(b.brace_token.span.open()).start,
            (None, Some(s)) => s,
            _ => return Err(format!("{k}: no body")),
        };
        edits.push((spec_at, spec_at, format!("\n{}\n", c.spec)));
        if let Some(b) = loc.block {
            let opaque = matches!(&loc.sig.output, syn::ReturnType::Type(_, t) if matches!(**t, syn::Type::ImplTrait(_)));
            if degraded && !opaque {
                // the body is not verified: it only has to have the right type,
                // whatever the signatures of its callees have been rewritten to
                let r = rng(b.span());
                edits.push((r.start, r.end, "{ ::core::panic!() }".into()));
            }
            if !(degraded || c.trusted) {
                let open = rng(b.brace_token.span.open()).end;
                let close = rng(b.brace_token.span.close()).start;
                if !c.entry.trim().is_empty() {
                    edits.push((open, open, format!("\n{}\n", c.entry)));
                }
                if !c.exit.trim().is_empty() {
                    match b.stmts.last() {
                        Some(syn::Stmt::Expr(e, None)) if !matches!(loc.sig.output, syn::ReturnType::Default) => {
                            let r = rng(e.span());
                            edits.push((r.start, r.start, "let __ret = ".into()));
                            edits.push((r.end, r.end, format!(";\n{}\n__ret ", c.exit)));
                        }
                        _ => edits.push((close, close, format!("\n{}\n", c.exit))),
                    }
                }
                rules::splice_body(&text, b, &c, &mut edits, k, &fc.file, log);
            }
        }
    }
    // ---- wrap pass ----
    for (ix, item) in f.items.iter().enumerate() {
        let n = item_name(item);
        let want = wrapped.contains(&ix) || fc.wraps.iter().any(|w| *w == n);
        if !want {
            continue;
        }
        let r = rng(item.span());
        let mut pre = String::from("verus!{ ");
        for (k, a) in &fc.item_attrs {
            if *k == n {
                pre.push_str(a);
                pre.push('\n');
            }
        }
        edits.push((r.start, r.start, pre));
        edits.push((r.end, r.end, " }".into()));
        match item {
            syn::Item::Impl(im) => {
                if let Some(t) = fc.items.get(&n) {
                    let p = rng(im.brace_token.span.open()).end;
                    edits.push((p, p, format!("\n{t}\n")));
                }
                for it in &im.items {
                    let s = rng(it.span());
                    if let syn::ImplItem::Fn(m) = it {
                        if !contracted.contains(&(s.start, s.end)) {
                            let _ = m;
                            edits.push((s.start, s.start, "#[verifier::external] ".into()));
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                if let Some(tx) = fc.items.get(&n) {
                    let p = rng(t.brace_token.span.open()).end;
                    edits.push((p, p, format!("\n{tx}\n")));
                }
            }
            _ => {}
        }
    }
    // ---- lazily initialised statics: the initialiser becomes a function with a contract, the static a getter ----
    for (name, pred) in &fc.lazies {
        let mut done = false;
        for item in &f.items {
            let syn::Item::Static(st) = item else { continue };
            if st.ident != name {
                continue;
            }
            let syn::Type::Path(tp) = &*st.ty else { continue };
            let Some(seg) = tp.path.segments.last().filter(|s| s.ident == "LazyLock") else { continue };
            let syn::PathArguments::AngleBracketed(ab) = &seg.arguments else { continue };
            let Some(syn::GenericArgument::Type(t)) = ab.args.first() else { continue };
            let syn::Expr::Call(call) = &*st.expr else { continue };
            let Some(syn::Expr::Closure(cl)) = call.args.first() else { continue };
            if !cl.inputs.is_empty() || call.args.len() != 1 {
                continue;
            }
            let ty = &text[rng(t.span())];
            let body = &text[rng(cl.body.span())];
            let degraded = opts.degrade.contains(name);
            let kind = if degraded { "degraded" } else { "verified" };
            let ext = if degraded { "#[verifier::external_body]" } else { "" };
            let r = rng(item.span());
            edits.push((r.end, r.end, format!(
                "\nverus!{{ /*VXFN {kind} {name}*/ {ext} pub fn {name}_init() -> (r: {ty}) ensures {pred}(r) {{ {body} }} /*VXEND {name}*/\n#[verifier::external_body] pub fn {name}_get() -> (r: &'static {ty}) ensures {pred}(*r) {{ &{name} }} }}\n"
            )));
            done = true;
        }
        if !done {
            log.push(serde_json::json!({"file": fc.file, "fn": name, "event": "lost", "why": "lazy static not found"}));
        }
    }
    for w in &fc.wraps {
        if !f.items.iter().any(|i| item_name(i) == *w) {
            log.push(serde_json::json!({"file": fc.file, "item": w, "event": "lost", "why": "item not found"}));
        }
    }
    // several edits may sit at the same insertion point: keep wrap-start outermost
    let mut e2: Vec<(usize, Edit)> = edits.into_iter().enumerate().collect();
    e2.sort_by_key(|(i, e)| {
        let pri = if e.2.starts_with("verus!{ ") { 0 } else if e.2 == " }" { 2 } else { 1 };
        (e.0, e.1, pri, *i)
    });
    let out = apply(&text, e2.into_iter().map(|x| x.1).collect());
    // header: `use` lines must come after inner attributes / module docs
    let f_items_start = f.items.first().map(|i| rng(i.span()).start).unwrap_or(0);
    let _ = f_items_start;
    let head = format!("\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::verif_spec::*;\n{}\n", fc.prepend);
    // after leading comments and `/*! */` docs: insert before first item in the output
    let first = first_item_offset(&out, &text, &f);
    let mut res = String::new();
    res.push_str(&out[..first]);
    res.push_str(&head);
    res.push_str(&out[first..]);
    if !fc.append.trim().is_empty() {
        res.push_str("\nverus!{\n");
        res.push_str(&fc.append);
        res.push_str("\n}\n");
    }
    Ok(res)
}

fn first_item_offset(_out: &str, text: &str, f: &syn::File) -> usize {
    // everything before the first item is unchanged by the edits, except insertions exactly at its start
    let s = f.items.first().map(|i| rng(i.span()).start).unwrap_or(text.len());
    s
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else {
            out.push(p);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo_src, contracts, outdir) = (Path::new(&args[1]), Path::new(&args[2]), Path::new(&args[3]));
    let mut opts = Opts { degrade: BTreeSet::new(), flat: BTreeSet::new() };
    let mut only: Option<BTreeSet<String>> = None;
    // contract files read last: their `@fn` blocks replace those read before
    let mut overlays: Vec<std::path::PathBuf> = vec![];
    let mut it = args[4..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--degrade" => {
                opts.degrade.insert(it.next().unwrap().clone());
            }
            "--flat" => {
                opts.flat.insert(it.next().unwrap().clone());
            }
            "--only" => {
                only.get_or_insert_with(BTreeSet::new).insert(it.next().unwrap().clone());
            }
            "--overlay" => overlays.push(it.next().unwrap().into()),
            _ => panic!("bad arg {a}"),
        }
    }
    let mut fcs: BTreeMap<String, FileContract> = BTreeMap::new();
    let mut cfiles: Vec<_> = std::fs::read_dir(contracts).unwrap().map(|e| e.unwrap().path()).collect();
    cfiles.sort();
    for p in cfiles.iter().chain(overlays.iter()) {
        if p.extension().map_or(false, |e| e == "vc") {
            let name = p.file_stem().unwrap().to_string_lossy().to_string();
            if !overlays.contains(p) && only.as_ref().map_or(false, |o| !o.contains(&name)) {
                continue;
            }
            let t = std::fs::read_to_string(p).unwrap();
            if let Err(e) = contract::parse(&t, &mut fcs) {
                eprintln!("contract {}: {e}", p.display());
                std::process::exit(3);
            }
        }
    }
    let mut log: Vec<serde_json::Value> = vec![];
    let mut files = vec![];
    walk(repo_src, &mut files);
    let mut fnmap = vec![];
    for p in &files {
        let rel = p.strip_prefix(repo_src).unwrap().to_string_lossy().to_string();
        let dst = outdir.join(&rel);
        std::fs::create_dir_all(dst.parent().unwrap()).unwrap();
        let Ok(mut text) = std::fs::read_to_string(p) else {
            std::fs::copy(p, &dst).unwrap();
            continue;
        };
        if let Some(fc) = fcs.get(&rel) {
            match process(&text, fc, &opts, &mut log) {
                Ok(t) => text = t,
                Err(e) => {
                    log.push(serde_json::json!({"file": rel, "event": "error", "why": e}));
                }
            }
            // function line ranges
            let mut open: Vec<(String, String, usize)> = vec![];
            for (ln, line) in text.lines().enumerate() {
                let mut rest = line;
                while let Some(p) = rest.find("/*VX") {
                    let tail = &rest[p..];
                    let end = tail.find("*/").unwrap();
                    let body = &tail[2..end];
                    if let Some(b) = body.strip_prefix("VXFN ") {
                        let (kind, key) = b.split_once(' ').unwrap();
                        open.push((key.to_string(), kind.to_string(), ln + 1));
                    } else if let Some(key) = body.strip_prefix("VXEND ") {
                        let i = open.iter().rposition(|o| o.0 == key).unwrap();
                        let o = open.remove(i);
                        fnmap.push(serde_json::json!({"file": rel, "fn": o.0, "kind": o.1, "start": o.2, "end": ln + 1}));
                    }
                    rest = &tail[end + 2..];
                }
            }
        }
        // module visibility is widened so that proof modules can name spec functions
        if rel.ends_with(".rs") {
            if let Ok(f) = syn::parse_file(&text) {
                let mut es = vec![];
                for i in &f.items {
                    if let syn::Item::Mod(m) = i {
                        if m.content.is_none() && matches!(m.vis, syn::Visibility::Inherited) {
                            let st = rng(m.mod_token.span()).start;
                            es.push((st, st, "pub ".to_string()));
                        }
                    }
                }
                text = apply(&text, es);
            }
        }
        if rel == "lib.rs" {
            // the proof modules of the copy
            let mut mods = String::from("\n");
            for p in &cfiles {
                if p.extension().map_or(false, |e| e == "rs") {
                    let name = p.file_stem().unwrap().to_string_lossy().to_string();
                    if only.as_ref().map_or(false, |o| !o.contains(&name)) && name != "verif_spec" {
                        continue;
                    }
                    mods.push_str(&format!("pub mod {name};\n"));
                    std::fs::copy(p, outdir.join(format!("{name}.rs"))).unwrap();
                }
            }
            text.push_str(&mods);
            // lets a specification name the exact bounds of `core::fmt::Display`
            text.insert_str(0, "#![feature(sized_hierarchy)] ");
        }
        std::fs::write(&dst, text).unwrap();
    }
    let m = serde_json::json!({"fns": fnmap, "log": log});
    std::fs::write(outdir.join("vxmap.json"), serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
