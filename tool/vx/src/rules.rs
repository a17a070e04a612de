//! Desugaring rules (each preserves the meaning of the function) and body splices.
use crate::contract::FnContract;
use crate::{norm, rng, Edit};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type Step = Option<(String, Vec<Edit>)>;

fn src<'a>(text: &'a str, s: &impl Spanned) -> &'a str {
    &text[rng(s.span())]
}

fn has_control(e: &syn::Expr) -> bool {
    // `return` or `?` that would change meaning when the closure body is moved into the function
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

// ---------- rule application: first match wins ----------
pub fn step(text: &str, b: &syn::Block, c: &FnContract, file_outline: &[(String, String)]) -> Step {
    let has = |s: &str| c.desugar.iter().any(|d| d == s);
    for (pat, rep) in c.outline.iter().chain(file_outline.iter()) {
        if let Some(e) = outline(text, b, pat, rep) {
            return Some((format!("outline `{pat}`"), e));
        }
    }
    if has("inline_closures") {
        if let Some(e) = inline_closure(text, b) {
            return Some(("closure-inlining".into(), e));
        }
    }
    if let Some(e) = slice_pattern(text, b) {
        return Some(("array-pattern".into(), e));
    }
    if let Some(e) = local_const(b) {
        return Some(("local-const".into(), e));
    }
    if let Some(e) = let_chain(text, b) {
        return Some(("let-chain".into(), e));
    }
    if has("option") {
        if let Some(e) = option_combinator(text, b) {
            return Some(("option-combinator".into(), e));
        }
    }
    if has("cast") {
        if let Some(e) = casts(text, b) {
            return Some(("numeric-cast".into(), e));
        }
    }
    if has("neg") {
        if let Some(e) = negs(text, b) {
            return Some(("float-negation".into(), e));
        }
    }
    if let Some(e) = compound_assign(text, b, has("compound")) {
        return Some(("compound-assignment".into(), e));
    }
    if let Some(e) = for_loop(text, b, !has("nofor"), has("iter")) {
        return Some(("for-loop".into(), e));
    }
    if has("iter") {
        if let Some(e) = iter_chain(text, b) {
            return Some(("iterator-chain".into(), e));
        }
    }
    None
}

// ---------- iterator chains: the source of a chain becomes a sequence value ----------
fn iter_chain(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct V<'t> {
        text: &'t str,
        hit: Option<Edit>,
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            visit::visit_expr_method_call(self, m);
            if self.hit.is_some() {
                return;
            }
            let recv = src(self.text, &m.receiver);
            let r = rng(m.span());
            let name = m.method.to_string();
            let args: Vec<&str> = m.args.iter().map(|a| src(self.text, a)).collect();
            let new = match (name.as_str(), args.len()) {
                ("iter", 0) => format!("crate::verif_iter::iter(&{recv})"),
                ("into_iter", 0) => format!("crate::verif_iter::sq({recv})"),
                ("chunks_exact", 1) => format!("crate::verif_iter::chunks_exact(&{recv}, {})", args[0]),
                ("extend", 1) => format!("crate::verif_iter::extend(&mut {recv}, {})", args[0]),
                _ => return,
            };
            self.hit = Some((r.start, r.end, new));
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            visit::visit_expr_call(self, c);
            if self.hit.is_some() {
                return;
            }
            let f = norm(src(self.text, &*c.func));
            if matches!(f.as_str(), "repeat" | "core::iter::repeat" | "std::iter::repeat" | "iter::repeat") {
                let r = rng(c.func.span());
                self.hit = Some((r.start, r.end, "crate::verif_iter::repeat".into()));
            }
        }
    }
    let mut v = V { text, hit: None };
    v.visit_block(b);
    v.hit.map(|e| vec![e])
}

// ---------- outline ----------
fn toks(s: &str) -> Option<Vec<String>> {
    fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    out.push(a.into());
                    flat(g.stream(), out);
                    out.push(b.into());
                }
                t => out.push(t.to_string()),
            }
        }
    }
    let mut v = vec![];
    flat(s.parse().ok()?, &mut v);
    Some(v)
}

/// token pattern match with `$x` metavariables (non-empty, balanced)
fn tmatch(pat: &[String], t: &[String], binds: &mut BTreeMap<String, Vec<String>>) -> bool {
    if pat.is_empty() {
        return t.is_empty();
    }
    if pat[0] == "$" {
        let name = pat[1].clone();
        if let Some(b) = binds.get(&name).cloned() {
            return t.len() >= b.len() && t[..b.len()] == b[..] && tmatch(&pat[2..], &t[b.len()..], binds);
        }
        let mut depth = 0i32;
        for n in 1..=t.len() {
            match t[n - 1].as_str() {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => depth -= 1,
                ";" if depth == 0 => return false,
                _ => {}
            }
            if depth < 0 {
                return false;
            }
            if depth == 0 {
                let mut b2 = binds.clone();
                b2.insert(name.clone(), t[..n].to_vec());
                if tmatch(&pat[2..], &t[n..], &mut b2) {
                    *binds = b2;
                    return true;
                }
            }
        }
        return false;
    }
    !t.is_empty() && pat[0] == t[0] && tmatch(&pat[1..], &t[1..], binds)
}

fn join(ts: &[String]) -> String {
    let mut s = String::new();
    let mut prev_word = false;
    for (i, t) in ts.iter().enumerate() {
        let word = t.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_');
        let glue = i > 0 && matches!((ts[i - 1].as_str(), t.as_str()), (":", ":") | (".", ".") | ("=", "=") | ("-", ">") | ("=", ">") | ("<", "=") | (">", "=") | ("&", "&") | ("|", "|") | ("!", "=") | ("'", _));
        if (prev_word && word) || (i > 0 && !glue && !prev_word && !word) {
            s.push(' ');
        }
        s.push_str(t);
        prev_word = word && t != "'";
    }
    s
}

fn outline(text: &str, b: &syn::Block, pat: &str, rep: &str) -> Option<Vec<Edit>> {
    let pt = toks(pat)?;
    let is_stmt = pt.last().map_or(false, |t| t == ";");
    struct V<'t> {
        text: &'t str,
        pt: Vec<String>,
        stmt: bool,
        hit: Option<(std::ops::Range<usize>, BTreeMap<String, Vec<String>>)>,
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            if self.hit.is_some() {
                return;
            }
            if !self.stmt {
                let r = rng(e.span());
                if let Some(t) = toks(&self.text[r.clone()]) {
                    let mut b = BTreeMap::new();
                    if tmatch(&self.pt, &t, &mut b) {
                        self.hit = Some((r, b));
                        return;
                    }
                }
            }
            visit::visit_expr(self, e);
        }
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            if self.hit.is_some() {
                return;
            }
            if self.stmt {
                let r = rng(s.span());
                if let Some(t) = toks(&self.text[r.clone()]) {
                    let mut b = BTreeMap::new();
                    if tmatch(&self.pt, &t, &mut b) {
                        self.hit = Some((r, b));
                        return;
                    }
                }
            }
            visit::visit_stmt(self, s);
        }
    }
    let mut v = V { text, pt, stmt: is_stmt, hit: None };
    v.visit_block(b);
    let (r, binds) = v.hit?;
    let mut out = rep.to_string();
    let mut names: Vec<_> = binds.keys().cloned().collect();
    names.sort_by_key(|n| std::cmp::Reverse(n.len()));
    for n in names {
        out = out.replace(&format!("${n}"), &join(&binds[&n]));
    }
    if norm(&out) == norm(&text[r.clone()]) {
        return None;
    }
    Some(vec![(r.start, r.end, out)])
}

// ---------- closures bound by `let` and only called ----------
fn inline_closure(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct Find<'a>(Option<(&'a syn::Local, &'a syn::ExprClosure, String)>);
    impl<'a> Visit<'a> for Find<'a> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if self.0.is_none() {
                if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let syn::Expr::Closure(c) = &*init.expr {
                        if !has_control(&c.body) {
                            self.0 = Some((l, c, p.ident.to_string()));
                            return;
                        }
                    }
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut f = Find(None);
    f.visit_block(b);
    let (l, c, name) = f.0?;
    struct Calls<'a>(String, Vec<&'a syn::ExprCall>, usize);
    impl<'a> Visit<'a> for Calls<'a> {
        fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
            if let syn::Expr::Path(p) = &*e.func {
                if p.path.is_ident(&self.0) {
                    self.1.push(e);
                    for a in &e.args {
                        self.visit_expr(a);
                    }
                    return;
                }
            }
            visit::visit_expr_call(self, e);
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if p.path.is_ident(&self.0) {
                self.2 += 1;
            }
        }
    }
    let mut cs = Calls(name, vec![], 0);
    cs.visit_block(b);
    if cs.2 > 0 || cs.1.is_empty() {
        return None;
    }
    let mut edits = vec![];
    let lr = rng(l.span());
    edits.push((lr.start, lr.end, String::new()));
    for call in cs.1 {
        let mut lhs = vec![];
        let mut rhs = vec![];
        for (p, a) in c.inputs.iter().zip(call.args.iter()) {
            let pt = match p {
                syn::Pat::Type(t) => src(text, &t.pat).to_string(),
                p => src(text, p).to_string(),
            };
            lhs.push(pt);
            rhs.push(src(text, a).to_string());
        }
        let r = rng(call.span());
        let bind = if lhs.is_empty() {
            String::new()
        } else if lhs.len() == 1 {
            format!("let {} = {}; ", lhs[0], rhs[0])
        } else {
            format!("let ({}) = ({}); ", lhs.join(", "), rhs.join(", "))
        };
        let body = match &*c.body {
            syn::Expr::Block(bl) => {
                let o = rng(bl.block.brace_token.span.open()).end;
                let cl = rng(bl.block.brace_token.span.close()).start;
                text[o..cl].to_string()
            }
            e => src(text, e).to_string(),
        };
        edits.push((r.start, r.end, format!("{{ {bind}{body} }}")));
    }
    Some(edits)
}

// ---------- let with array patterns ----------
fn slice_pattern(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct V<'a>(Option<(&'a syn::Local, &'a syn::PatSlice)>);
    struct S<'a>(Option<&'a syn::PatSlice>);
    impl<'a> Visit<'a> for S<'a> {
        fn visit_pat_slice(&mut self, p: &'a syn::PatSlice) {
            if self.0.is_none() {
                self.0 = Some(p);
            }
        }
    }
    impl<'a> Visit<'a> for V<'a> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if self.0.is_none() {
                let mut s = S(None);
                s.visit_pat(&l.pat);
                if let Some(p) = s.0 {
                    self.0 = Some((l, p));
                    return;
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut v = V(None);
    v.visit_block(b);
    let (l, p) = v.0?;
    let r = rng(p.span());
    let id = format!("__p{}", r.start);
    let mut tail = String::new();
    for (i, e) in p.elems.iter().enumerate() {
        match e {
            syn::Pat::Ident(pi) => {
                tail.push_str(&format!(" let {} = {id}[{i}];", src(text, pi)));
            }
            syn::Pat::Wild(_) => {}
            syn::Pat::Rest(_) if i + 1 == p.elems.len() => {}
            _ => return None,
        }
    }
    let lr = rng(l.span());
    Some(vec![(r.start, r.end, id), (lr.end, lr.end, tail)])
}

// ---------- `const X: T = e;` inside a body -> `let X: T = e;` ----------
fn local_const(b: &syn::Block) -> Option<Vec<Edit>> {
    struct V(Option<(usize, usize)>);
    impl<'a> Visit<'a> for V {
        fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
            if self.0.is_none() {
                let r = rng(c.const_token.span());
                self.0 = Some((r.start, r.end));
            }
        }
    }
    let mut v = V(None);
    v.visit_block(b);
    let (s, e) = v.0?;
    Some(vec![(s, e, "let".into())])
}

// ---------- if-let chains ----------
fn let_chain(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct V<'a>(Option<&'a syn::ExprIf>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_expr_if(&mut self, e: &'a syn::ExprIf) {
            if self.0.is_none() && e.else_branch.is_none() {
                if let syn::Expr::Binary(bi) = &*e.cond {
                    if matches!(bi.op, syn::BinOp::And(_)) && contains_let(&e.cond) {
                        self.0 = Some(e);
                        return;
                    }
                }
            }
            visit::visit_expr_if(self, e);
        }
    }
    fn contains_let(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Let(_) => true,
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => contains_let(&b.left) || contains_let(&b.right),
            _ => false,
        }
    }
    fn flatten<'a>(e: &'a syn::Expr, out: &mut Vec<&'a syn::Expr>) {
        match e {
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                flatten(&b.left, out);
                flatten(&b.right, out);
            }
            e => out.push(e),
        }
    }
    let mut v = V(None);
    v.visit_block(b);
    let e = v.0?;
    let mut cs = vec![];
    flatten(&e.cond, &mut cs);
    let r = rng(e.span());
    let body = src(text, &e.then_branch);
    let mut out = String::new();
    for (i, c) in cs.iter().enumerate() {
        if i > 0 {
            out.push_str("{ ");
        }
        out.push_str(&format!("if {} ", src(text, *c)));
    }
    out.push_str(body);
    for _ in 1..cs.len() {
        out.push_str(" }");
    }
    Some(vec![(r.start, r.end, out)])
}

// ---------- Option combinators ----------
/// a closure body returning an `Option` in which `?` occurs only as `let P = E?;`: nested matches
fn try_block(text: &str, body: &syn::Expr) -> Option<String> {
    let syn::Expr::Block(b) = body else { return None };
    let mut open = String::from("{ ");
    let mut n = 0;
    for s in &b.block.stmts {
        match s {
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if init.diverge.is_some() {
                    return None;
                }
                match &*init.expr {
                    syn::Expr::Try(t) if !has_control(&t.expr) => {
                        open.push_str(&format!("match {} {{ Some({}) => {{ ", src(text, &*t.expr), src(text, &l.pat)));
                        n += 1;
                        continue;
                    }
                    e if has_control(e) => return None,
                    _ => {}
                }
            }
            syn::Stmt::Expr(e, _) if has_control(e) => return None,
            syn::Stmt::Macro(_) | syn::Stmt::Item(_) => return None,
            _ => {}
        }
        open.push_str(src(text, s));
        open.push(' ');
    }
    // each opened match arm is `Some(P) => { ...rest }, None => None }`
    let mut out = open;
    for _ in 0..n {
        out.push_str(" }, None => None }");
    }
    out.push_str(" }");
    Some(out)
}
fn option_combinator(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct V<'t> {
        text: &'t str,
        hit: Option<Edit>,
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            // innermost first: visit receiver and args before
            visit::visit_expr_method_call(self, m);
            if self.hit.is_some() {
                return;
            }
            let recv = src(self.text, &m.receiver);
            let r = rng(m.span());
            let name = m.method.to_string();
            let arg = |i: usize| m.args.iter().nth(i);
            let app = |e: &syn::Expr| -> Option<(String, String)> {
                match e {
                    syn::Expr::Closure(c) => {
                        if has_control(&c.body) || c.inputs.len() > 1 {
                            return None;
                        }
                        let p = match c.inputs.first() {
                            Some(syn::Pat::Type(t)) => src(self.text, &t.pat).to_string(),
                            Some(p) => src(self.text, p).to_string(),
                            None => String::new(),
                        };
                        Some((p, src(self.text, &*c.body).to_string()))
                    }
                    syn::Expr::Path(p) => Some(("__x".into(), format!("{}(__x)", src(self.text, p)))),
                    _ => None,
                }
            };
            // iterator receivers are left alone
            let rn = norm(recv);
            if rn.ends_with(".iter()") || rn.contains(".iter().") || rn.contains(".into_iter()") || rn.contains("::Item") || rn.starts_with("crate::verif_iter::") {
                return;
            }
            let new = match name.as_str() {
                "map" => arg(0).and_then(app).map(|(p, e)| format!("(match {recv} {{ Some({p}) => Some({e}), None => None }})")),
                "and_then" if matches!(arg(0), Some(syn::Expr::Closure(c)) if has_control(&c.body)) => match arg(0) {
                    Some(syn::Expr::Closure(c)) if c.inputs.len() == 1 => {
                        let p = match c.inputs.first() {
                            Some(syn::Pat::Type(t)) => src(self.text, &t.pat).to_string(),
                            Some(p) => src(self.text, p).to_string(),
                            None => String::new(),
                        };
                        try_block(self.text, &c.body).map(|e| format!("(match {recv} {{ Some({p}) => {e}, None => None }})"))
                    }
                    _ => None,
                },
                "and_then" => arg(0).and_then(app).map(|(p, e)| format!("(match {recv} {{ Some({p}) => {e}, None => None }})")),
                "is_some_and" => arg(0).and_then(app).map(|(p, e)| format!("(match {recv} {{ Some({p}) => {e}, None => false }})")),
                "unwrap_or_else" => arg(0).and_then(app).map(|(_, e)| format!("(match {recv} {{ Some(__v) => __v, None => {e} }})")),
                "unwrap_or" => arg(0).map(|d| format!("(match {recv} {{ Some(__v) => __v, None => {} }})", src(self.text, d))),
                "map_or" => match (arg(0), arg(1).and_then(app)) {
                    (Some(d), Some((p, e))) => Some(format!("(match {recv} {{ Some({p}) => {e}, None => {} }})", src(self.text, d))),
                    _ => None,
                },
                _ => None,
            };
            if let Some(n) = new {
                self.hit = Some((r.start, r.end, n));
            }
        }
    }
    let mut v = V { text, hit: None };
    v.visit_block(b);
    v.hit.map(|e| vec![e])
}

// ---------- numeric casts `e as T` -> `cast_to::<T, _>(e)` (innermost first) ----------
fn casts(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct V<'t> {
        text: &'t str,
        hit: Option<Edit>,
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
            visit::visit_expr_cast(self, c);
            if self.hit.is_none() {
                let r = rng(c.span());
                self.hit = Some((r.start, r.end, format!("crate::verif_spec::cast_to::<{}, _>({})", src(self.text, &*c.ty), src(self.text, &*c.expr))));
            }
        }
    }
    let mut v = V { text, hit: None };
    v.visit_block(b);
    v.hit.map(|e| vec![e])
}

// ---------- unary minus on floats `-e` -> `f_neg(e)` (literals included) ----------
fn negs(text: &str, b: &syn::Block) -> Option<Vec<Edit>> {
    struct V<'t> {
        text: &'t str,
        hit: Option<Edit>,
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr_unary(&mut self, c: &'a syn::ExprUnary) {
            visit::visit_expr_unary(self, c);
            if self.hit.is_none() && matches!(c.op, syn::UnOp::Neg(_)) {
                let r = rng(c.span());
                self.hit = Some((r.start, r.end, format!("crate::verif_spec::f_neg({})", src(self.text, &*c.expr))));
            }
        }
    }
    let mut v = V { text, hit: None };
    v.visit_block(b);
    v.hit.map(|e| vec![e])
}

// ---------- compound assignment on places (`a.b += e` -> `a.b = a.b + e`) ----------
fn compound_assign(text: &str, b: &syn::Block, on: bool) -> Option<Vec<Edit>> {
    if !on {
        return None;
    }
    struct V<'t> {
        text: &'t str,
        hit: Option<Edit>,
    }
    fn place(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(_) => true,
            syn::Expr::Field(f) => place(&f.base),
            syn::Expr::Index(i) => place(&i.expr) && (place(&i.index) || matches!(&*i.index, syn::Expr::Lit(_))),
            _ => false,
        }
    }
    impl<'a, 't> Visit<'a> for V<'t> {
        fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
            if self.hit.is_none() {
                let op = match e.op {
                    syn::BinOp::AddAssign(_) => "+",
                    syn::BinOp::SubAssign(_) => "-",
                    syn::BinOp::MulAssign(_) => "*",
                    syn::BinOp::DivAssign(_) => "/",
                    syn::BinOp::BitOrAssign(_) => "|",
                    _ => "",
                };
                if !op.is_empty() && place(&e.left) {
                    let l = src(self.text, &*e.left);
                    let r = src(self.text, &*e.right);
                    let rr = rng(e.span());
                    // both sides of a non-short-circuiting `|` are evaluated
                    let n = if op == "|" { format!("{l} = crate::verif_std::or_bool({l}, {r})") } else { format!("{l} = {l} {op} ({r})") };
                    self.hit = Some((rr.start, rr.end, n));
                    return;
                }
            }
            visit::visit_expr_binary(self, e);
        }
    }
    let mut v = V { text, hit: None };
    v.visit_block(b);
    v.hit.map(|e| vec![e])
}

// ---------- for loops ----------
pub fn all_loops(b: &syn::Block) -> Vec<(usize, &'static str)> {
    struct V(Vec<(usize, &'static str)>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            self.0.push((rng(e.span()).start, "for"));
            visit::visit_expr_for_loop(self, e);
        }
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
            self.0.push((rng(e.span()).start, "while"));
            visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
            self.0.push((rng(e.span()).start, "loop"));
            visit::visit_expr_loop(self, e);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

fn is_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => is_place(&f.base),
        syn::Expr::Paren(p) => is_place(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}

fn for_loop(text: &str, b: &syn::Block, on: bool, seqs: bool) -> Option<Vec<Edit>> {
    if !on {
        return None;
    }
    struct V<'a>(Vec<&'a syn::ExprForLoop>);
    impl<'a> Visit<'a> for V<'a> {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            self.0.push(e);
            visit::visit_expr_for_loop(self, e);
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    let loops = all_loops(b);
    'next: for e in v.0 {
        let n = loops.iter().position(|l| l.0 == rng(e.span()).start).unwrap();
        // peel adaptors
        let mut ex: &syn::Expr = &e.expr;
        let mut ads: Vec<String> = vec![];
        let mut byref: Option<&str> = None;
        loop {
            match ex {
                syn::Expr::Paren(p) => ex = &p.expr,
                syn::Expr::MethodCall(m) if m.args.is_empty() => {
                    ads.insert(0, m.method.to_string());
                    ex = &m.receiver;
                }
                syn::Expr::Reference(r) if ads.is_empty() || true => {
                    byref = Some(if r.mutability.is_some() { "mut" } else { "ref" });
                    ex = &r.expr;
                }
                _ => break,
            }
        }
        let pat = src(text, &*e.pat);
        let br = rng(e.body.brace_token.span.open());
        let cl = rng(e.body.brace_token.span.close());
        let lbl = e.label.as_ref().map(|l| format!("{} ", src(text, l))).unwrap_or_default();
        let start = rng(e.span()).start;
        let (head, first): (String, String);
        if let syn::Expr::Range(r) = ex {
            let (Some(a), Some(z)) = (&r.start, &r.end) else { continue };
            let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
            if incl {
                continue;
            }
            let (a, z) = (src(text, &**a), src(text, &**z));
            if ads.is_empty() {
                head = format!("{{ let mut __k{n} = {a}; let __b{n} = __k{n}; let __n{n} = {z}; {lbl}while __k{n} < __n{n} ");
                first = format!("let {pat} = __k{n}; __k{n} = __k{n} + 1;");
            } else if ads == ["rev"] {
                head = format!("{{ let __l{n} = {a}; let mut __k{n} = {z}; {lbl}while __k{n} > __l{n} ");
                first = format!("__k{n} = __k{n} - 1; let {pat} = __k{n};");
            } else {
                continue;
            }
        } else if seqs && byref != Some("mut") && !ads.iter().any(|a| a == "iter_mut") {
            // an item sequence, taken by value
            let hx = src(text, &*e.expr);
            head = format!("{{ let __s{n} = crate::verif_iter::sq({hx}); let mut __k{n}: usize = 0; let __n{n}: usize = __s{n}.len(); {lbl}while __k{n} < __n{n} ");
            let (pt, star) = match &*e.pat {
                syn::Pat::Reference(p) if p.mutability.is_none() => (src(text, &*p.pat), "*"),
                _ => (pat, ""),
            };
            first = format!("let {pt} = {star}__s{n}.at(__k{n}); __k{n} = __k{n} + 1;");
        } else {
            // sequence
            let mut prelude = String::new();
            let mut by_value = false;
            let (base, lo, hi) = match ex {
                syn::Expr::Index(i) => match &*i.index {
                    syn::Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => {
                        let bs = src(text, &*i.expr).to_string();
                        if !is_place(&i.expr) {
                            continue;
                        }
                        let lo = r.start.as_ref().map(|x| src(text, &**x).to_string()).unwrap_or("0".into());
                        let hi = r.end.as_ref().map(|x| src(text, &**x).to_string()).unwrap_or(format!("{bs}.len()"));
                        // slicing panics out of range: keep that visible
                        prelude = format!("crate::verif_spec::w_range_ok({lo}, {hi}, {bs}.len()); ");
                        (bs, lo, hi)
                    }
                    syn::Expr::Range(_) => continue,
                    // base[range value]: bind the slice once
                    _ if is_place(&i.expr) && byref != Some("mut") && !ads.iter().any(|a| a == "iter_mut") => {
                        let bs = format!("__s{n}");
                        prelude = format!("let {bs} = &{}; ", src(text, ex));
                        (bs.clone(), "0".into(), format!("{bs}.len()"))
                    }
                    _ => continue,
                },
                // a call that returns a collection of copyable items, by value
                syn::Expr::Call(_) if ads.is_empty() && byref.is_none() => {
                    let bs = format!("__s{n}");
                    prelude = format!("let {bs} = {}; ", src(text, ex));
                    by_value = true;
                    (bs.clone(), "0".into(), format!("{bs}.len()"))
                }
                x if is_place(x) => {
                    let bs = src(text, x).to_string();
                    (bs.clone(), "0".into(), format!("{bs}.len()"))
                }
                _ => continue,
            };
            let mutable = byref == Some("mut") || ads.iter().any(|a| a == "iter_mut");
            let mut elem = if mutable { format!("&mut {base}[__k{n}]") } else { format!("&{base}[__k{n}]") };
            if by_value {
                elem = format!("{base}[__k{n}]");
            }
            let mut rev = false;
            let mut enumerate = 0; // 0 none, 1 before rev (index = position), 2 after rev
            for a in ads.iter() {
                match a.as_str() {
                    "iter" | "iter_mut" | "as_slice" => {}
                    "rev" => {
                        if rev {
                            continue 'next;
                        }
                        rev = true
                    }
                    "enumerate" => enumerate = if rev { 2 } else { 1 },
                    "cloned" | "copied" => elem = format!("{base}[__k{n}].clone()"),
                    _ => continue 'next,
                }
            }
            if enumerate == 2 {
                continue;
            }
            let bind = if enumerate == 1 { format!("let {pat} = (__k{n}, {elem});") } else { format!("let {pat} = {elem};") };
            // split tuple patterns so that no tuple of references is built
            let bind = match (&*e.pat, enumerate) {
                (syn::Pat::Tuple(t), 1) if t.elems.len() == 2 => {
                    format!("let {} = __k{n}; let {} = {elem};", src(text, &t.elems[0]), src(text, &t.elems[1]))
                }
                _ => bind,
            };
            if rev {
                head = format!("{{ {prelude}let __l{n}: usize = {lo}; let mut __k{n}: usize = {hi}; {lbl}while __k{n} > __l{n} ");
                first = format!("__k{n} = __k{n} - 1; {bind}");
            } else {
                head = format!("{{ {prelude}let mut __k{n}: usize = {lo}; let __n{n}: usize = {hi}; {lbl}while __k{n} < __n{n} ");
                first = format!("{bind} __k{n} = __k{n} + 1;");
            }
        }
        return Some(vec![
            (start, br.end, format!("{head}{{ {first}")),
            (cl.start, cl.end, "} }".into()),
        ]);
    }
    None
}

// ---------- body splices ----------
pub fn splice_body(text: &str, b: &syn::Block, c: &FnContract, edits: &mut Vec<Edit>, key: &str, file: &str, log: &mut Vec<serde_json::Value>) {
    // loops
    struct L<'a>(Vec<(&'a syn::Block, std::ops::Range<usize>)>);
    impl<'a> Visit<'a> for L<'a> {
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            self.0.push((&e.body, rng(e.span())));
            visit::visit_expr_for_loop(self, e);
        }
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
            self.0.push((&e.body, rng(e.span())));
            visit::visit_expr_while(self, e);
        }
        fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
            self.0.push((&e.body, rng(e.span())));
            visit::visit_expr_loop(self, e);
        }
    }
    let mut l = L(vec![]);
    l.visit_block(b);
    let expect = c.nloops.unwrap_or_else(|| c.loops.keys().max().map_or(0, |m| m + 1));
    if l.0.len() != expect {
        log.push(serde_json::json!({"file": file, "fn": key, "event": "shape", "why": format!("{} loops, contract expects {expect}", l.0.len())}));
    }
    for (i, (body, r)) in l.0.iter().enumerate() {
        let o = rng(body.brace_token.span.open());
        let cl = rng(body.brace_token.span.close());
        if let Some(t) = c.loops.get(&i) {
            edits.push((o.start, o.start, format!("\n{t}\n")));
        }
        if let Some(t) = c.loop_top.get(&i) {
            edits.push((o.end, o.end, format!("\n{t}\n")));
        }
        if let Some(t) = c.loop_start.get(&i) {
            // after the binding statements that a desugared for-loop starts with
            let mut at = o.end;
            for s in &body.stmts {
                let st = src(text, s);
                if st.contains(&format!("__k{i}")) {
                    at = rng(s.span()).end;
                } else {
                    break;
                }
            }
            edits.push((at, at, format!("\n{t}\n")));
        }
        if let Some(t) = c.loop_end.get(&i) {
            edits.push((cl.start, cl.start, format!("\n{t}\n")));
        }
        if let Some(t) = c.loop_before.get(&i) {
            edits.push((r.start, r.start, format!("\n{t}\n")));
        }
        if let Some(t) = c.loop_after.get(&i) {
            edits.push((r.end, r.end, format!("\n{t}\n")));
        }
    }
    // closures
    struct C<'a>(Vec<&'a syn::ExprClosure>);
    impl<'a> Visit<'a> for C<'a> {
        fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
            self.0.push(e);
            visit::visit_expr_closure(self, e);
        }
    }
    let mut cs = C(vec![]);
    cs.visit_block(b);
    // a closure without a contract says nothing to the verifier about its result
    let expect = c.nclosures.unwrap_or_else(|| c.closures.keys().max().map_or(0, |m| m + 1));
    if cs.0.len() != expect {
        log.push(serde_json::json!({"file": file, "fn": key, "event": "closure", "why": format!("{} closures, contract expects {expect}", cs.0.len())}));
    }
    for (i, e) in cs.0.iter().enumerate() {
        if let Some(h) = c.closures.get(&i) {
            let s = rng(e.span()).start;
            let br = rng(e.body.span());
            // a parameter pattern becomes a binding at the head of the body (the header names it `__p`)
            let bind = match e.inputs.first() {
                Some(syn::Pat::Reference(p)) if e.inputs.len() == 1 => format!("let {} = *__p; ", src(text, &*p.pat)),
                Some(p @ syn::Pat::Tuple(_)) if e.inputs.len() == 1 => format!("let {} = __p; ", src(text, p)),
                _ => String::new(),
            };
            let block = matches!(&*e.body, syn::Expr::Block(_)) && bind.is_empty();
            edits.push((s, br.start, format!("{} {}{bind}", h.trim(), if block { "" } else { "{ " })));
            if !block {
                edits.push((br.end, br.end, " }".into()));
            }
        }
    }
    // statements around calls
    for (what, after) in [(&c.after_call, true), (&c.before_call, false)] {
        for (anchor, t) in what {
            let (name, ix) = match anchor.split_once('#') {
                Some((n, k)) => (n.to_string(), k.parse::<usize>().unwrap_or(0)),
                None => (anchor.clone(), 0),
            };
            struct S<'a> {
                name: String,
                want: usize,
                seen: usize,
                stack: Vec<&'a syn::Stmt>,
                hit: Option<&'a syn::Stmt>,
            }
            impl<'a> S<'a> {
                fn on(&mut self, n: String) {
                    if n == self.name {
                        if self.seen == self.want {
                            self.hit = self.stack.last().copied();
                        }
                        self.seen += 1;
                    }
                }
            }
            impl<'a> Visit<'a> for S<'a> {
                fn visit_stmt(&mut self, s: &'a syn::Stmt) {
                    self.stack.push(s);
                    visit::visit_stmt(self, s);
                    self.stack.pop();
                }
                fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
                    visit::visit_expr_call(self, e);
                    if let syn::Expr::Path(p) = &*e.func {
                        self.on(p.path.segments.last().unwrap().ident.to_string());
                    }
                }
                fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
                    visit::visit_expr_method_call(self, e);
                    self.on(e.method.to_string());
                }
            }
            let mut s = S { name, want: ix, seen: 0, stack: vec![], hit: None };
            s.visit_block(b);
            match s.hit {
                Some(st) => {
                    let r = rng(st.span());
                    if after {
                        let semi = matches!(st, syn::Stmt::Expr(syn::Expr::MethodCall(_), None) | syn::Stmt::Expr(syn::Expr::Call(_), None) | syn::Stmt::Expr(syn::Expr::Assign(_), None));
                        edits.push((r.end, r.end, format!("{}\n{t}\n", if semi { ";" } else { "" })));
                    } else {
                        edits.push((r.start, r.start, format!("\n{t}\n")));
                    }
                }
                None => log.push(serde_json::json!({"file": file, "fn": key, "event": "hint-lost", "why": anchor})),
            }
        }
    }
}
