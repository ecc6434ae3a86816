//! Mechanical extraction of real functions from /repo into a Verus file.
//!
//! Input: a template (Verus source with `/*@fn path Item::name ... @*/` directives).
//! Output: the template with every directive replaced by the text of the real item, after the
//! generic rewrites listed in DESIGN.md ("What the extraction changes"); contracts from the
//! directive are inserted between signature and body and at loop heads.  Nothing else is changed.
use proc_macro2::{LineColumn, Span};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type Res<T> = Result<T, String>;

// ---------------------------------------------------------------- text + edits
struct Text {
    s: String,
    line_starts: Vec<usize>,
}
impl Text {
    fn new(s: &str) -> Self {
        let mut line_starts = vec![0];
        for (i, b) in s.bytes().enumerate() {
            if b == b'\n' {
                line_starts.push(i + 1);
            }
        }
        Text { s: s.to_string(), line_starts }
    }
    fn off(&self, lc: LineColumn) -> usize {
        let ls = self.line_starts[lc.line - 1];
        // columns are in chars
        let line = &self.s[ls..];
        match line.char_indices().nth(lc.column) {
            Some((b, _)) => ls + b,
            None => self.s.len(),
        }
    }
    fn range(&self, sp: Span) -> (usize, usize) {
        (self.off(sp.start()), self.off(sp.end()))
    }
    fn get(&self, sp: Span) -> &str {
        let (a, b) = self.range(sp);
        &self.s[a..b]
    }
}
#[derive(Clone, Debug)]
struct Edit {
    a: usize,
    b: usize,
    t: String,
}
fn apply(text: &str, mut edits: Vec<Edit>) -> String {
    // stable: insertions at the same offset keep their order
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by_key(|&i| (edits[i].a, edits[i].b, i));
    let mut out = String::new();
    let mut pos = 0;
    for i in idx {
        let e = &mut edits[i];
        assert!(e.a >= pos, "overlapping edits at {} ({:?}) in {}", e.a, e.t, text);
        out.push_str(&text[pos..e.a]);
        out.push_str(&e.t);
        pos = e.b;
    }
    out.push_str(&text[pos..]);
    out
}
fn norm(ts: impl ToTokens) -> String {
    ts.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

// ---------------------------------------------------------------- source lookup
struct Source {
    path: String,
    text: Text,
    file: syn::File,
}
struct FnRef<'a> {
    sig: &'a syn::Signature,
    block: &'a syn::Block,
}
fn is_test_mod(it: &syn::Item) -> bool {
    if let syn::Item::Mod(m) = it {
        return m.attrs.iter().any(|a| norm(a).contains("cfg(test)"));
    }
    false
}
fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => norm(t),
    }
}
/// Find `name`, `Type::name` or `Type::Trait::name` in a file.
fn find_fn<'a>(src: &'a Source, q: &str) -> Option<FnRef<'a>> {
    let parts: Vec<&str> = q.split("::").collect();
    for it in &src.file.items {
        if is_test_mod(it) {
            continue;
        }
        match it {
            syn::Item::Fn(f) if parts.len() == 1 && f.sig.ident == parts[0] => {
                return Some(FnRef { sig: &f.sig, block: &f.block })
            }
            syn::Item::Impl(im) if parts.len() >= 2 => {
                if ty_name(&im.self_ty) != parts[0] {
                    continue;
                }
                if parts.len() == 3 {
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    if tr.as_deref() != Some(parts[1]) {
                        continue;
                    }
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == parts[parts.len() - 1] {
                            return Some(FnRef { sig: &f.sig, block: &f.block });
                        }
                    }
                }
            }
            syn::Item::Trait(tr) if parts.len() >= 2 && tr.ident == parts[0] => {
                for ti in &tr.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == parts[parts.len() - 1] {
                            if let Some(b) = &f.default {
                                return Some(FnRef { sig: &f.sig, block: b });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

/// The items of a module of the macro-expanded crate.
fn expanded_mod(f: &syn::File, path: &str) -> Option<syn::File> {
    let mut items = &f.items;
    for seg in path.split("::").filter(|s| !s.is_empty() && *s != "crate") {
        let m = items.iter().find_map(|it| match it {
            syn::Item::Mod(m) if m.ident == seg => m.content.as_ref(),
            _ => None,
        })?;
        items = &m.1;
    }
    Some(syn::File { shebang: None, attrs: vec![], items: items.clone() })
}

/// The tokens of the `quote!` calls of a derive macro, for a type without generics.
fn unquote(s: &str, name: &str) -> String {
    struct V<'a>(&'a Text, String);
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            if m.path.segments.last().is_some_and(|x| x.ident == "quote") {
                let (a, b) = self.0.range(m.tokens.span());
                self.1.push_str(&self.0.s[a..b]);
                self.1.push('\n');
            }
        }
    }
    let Ok(f) = syn::parse_file(s) else { return "!".into() };
    let t = Text::new(s);
    let mut v = V(&t, String::new());
    v.visit_file(&f);
    let mut o = v.1;
    for k in ["#impl_generics", "#ty_generics", "#where_clause"] {
        o = o.replace(k, "");
    }
    o.replace("#name", name)
}

// ---------------------------------------------------------------- directive
#[derive(Default, Debug, Clone)]
struct Directive {
    kind: String,
    path: String,
    name: String,
    rename: Option<String>,
    ret: Option<String>,
    sections: BTreeMap<String, String>, // "spec", "head", "tail", "loop 0 inv", "loop 0 head", "closure 0"
    flags: BTreeSet<String>,
    index: Vec<String>, // names indexed through a shim type: `x[i]` -> `(*x.at(i))`
    subst: Vec<(String, String)>,
    tysubst: Vec<(String, String)>,
    default: Option<(String, String)>, // trait default body, used when the impl does not override it
}
fn parse_directive(body: &str) -> Res<Directive> {
    let mut d = Directive::default();
    let mut lines = body.lines();
    let first = lines.next().unwrap_or("");
    let w: Vec<&str> = first.split_whitespace().collect();
    if w.len() < 3 {
        return Err(format!("bad directive: {first}"));
    }
    d.kind = w[0].into();
    d.path = w[1].into();
    d.name = w[2].into();
    if w.len() >= 5 && w[3] == "as" {
        d.rename = Some(w[4].into());
    }
    let mut cur: Option<String> = None;
    for l in lines {
        if l.trim().is_empty() {
            continue;
        }
        if !l.starts_with(' ') && !l.starts_with('\t') {
            let l = l.trim_end();
            if let Some(r) = l.strip_prefix("ret:") {
                d.ret = Some(r.trim().into());
            } else if let Some(r) = l.strip_prefix("flag:") {
                d.flags.insert(r.trim().into());
            } else if let Some(r) = l.strip_prefix("index:") {
                d.index.extend(r.split(',').map(|x| x.trim().to_string()));
            } else if let Some(r) = l.strip_prefix("default:") {
                let (a, b) = r.trim().split_once(' ').ok_or("default")?;
                d.default = Some((a.trim().into(), b.trim().into()));
            } else if let Some(r) = l.strip_prefix("tysubst:") {
                let (a, b) = r.split_once("=>").ok_or("tysubst")?;
                d.tysubst.push((a.split_whitespace().collect::<String>(), b.trim().into()));
            } else if let Some(r) = l.strip_prefix("subst:") {
                let (a, b) = r.split_once("=>").ok_or("subst")?;
                d.subst.push((a.split_whitespace().collect::<String>(), b.trim().into()));
            } else if let Some(r) = l.strip_suffix(':') {
                cur = Some(r.to_string());
                d.sections.insert(r.to_string(), String::new());
            } else {
                return Err(format!("bad directive line: {l}"));
            }
        } else if let Some(c) = &cur {
            let s = d.sections.get_mut(c).unwrap();
            s.push_str(l);
            s.push('\n');
        } else {
            return Err(format!("stray directive line: {l}"));
        }
    }
    Ok(d)
}

// ---------------------------------------------------------------- rewriting passes (fn text -> fn text)
struct Parsed {
    text: Text,
    f: syn::ImplItemFn,
}
fn parse_fn(s: &str) -> Res<Parsed> {
    let text = Text::new(s);
    let f: syn::ImplItemFn = syn::parse_str(s).map_err(|e| format!("reparse: {e}: {s}"))?;
    Ok(Parsed { text, f })
}

#[derive(Clone, Default)]
struct GSub {
    types: Vec<(String, String)>, // normalised type tokens -> text
    exprs: Vec<(String, String)>,
    methods: Vec<(String, String)>, // method name -> name of the shim's method
}

// Pass A: expression / type substitutions requested by the template
fn pass_subst(s: &str, g: &GSub, local: &[(String, String)]) -> Res<String> {
    let p = parse_fn(s)?;
    struct V<'a> {
        p: &'a Parsed,
        g: &'a GSub,
        local: &'a [(String, String)],
        ed: Vec<Edit>,
    }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_type(&mut self, t: &'ast syn::Type) {
            let n = norm(t);
            for (a, b) in &self.g.types {
                if *a == n {
                    let (x, y) = self.p.text.range(t.span());
                    self.ed.push(Edit { a: x, b: y, t: b.clone() });
                    return;
                }
            }
            visit::visit_type(self, t);
        }
        fn visit_expr(&mut self, e: &'ast syn::Expr) {
            let n = norm(e);
            for (a, b) in self.local.iter().chain(self.g.exprs.iter()) {
                if *a == n {
                    let (x, y) = self.p.text.range(e.span());
                    self.ed.push(Edit { a: x, b: y, t: b.clone() });
                    return;
                }
            }
            if let syn::Expr::Cast(c) = e {
                if let syn::Type::BareFn(_) = &*c.ty {
                    // a function item used as a function pointer
                    let (_, x) = self.p.text.range(c.expr.span());
                    let (_, y) = self.p.text.range(e.span());
                    self.ed.push(Edit { a: x, b: y, t: String::new() });
                    self.visit_expr(&c.expr);
                    return;
                }
            }
            if let syn::Expr::MethodCall(m) = e {
                for (a, b) in &self.g.methods {
                    if m.method == a.as_str() {
                        let (x, y) = self.p.text.range(m.method.span());
                        self.ed.push(Edit { a: x, b: y, t: b.clone() });
                    }
                }
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V { p: &p, g, local, ed: vec![] };
    v.visit_impl_item_fn(&p.f);
    Ok(apply(&p.text.s, v.ed))
}

// Pass A2: `x.iter_mut().for_each(|p| body)` -> `for p in x.iter_mut() { body }`, and the same for rayon's
// `par_iter_mut` (its closure is `Fn + Sync` and gets each element exclusively: the order cannot be observed).
fn pass_foreach(s: &str) -> Res<String> {
    let mut s = s.to_string();
    for _ in 0..16 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Option<Edit>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                if self.ed.is_some() {
                    return;
                }
                if let (true, Some(syn::Expr::Closure(c)), syn::Expr::MethodCall(r)) = (m.method == "for_each" && m.args.len() == 1, m.args.first(), strip_parens(&m.receiver)) {
                    let n = r.method.to_string();
                    let blk = match &*c.body {
                        syn::Expr::Block(b) => !has_return(&b.block),
                        _ => true,
                    };
                    if blk && c.inputs.len() == 1 && r.args.is_empty() && ["iter", "iter_mut", "par_iter", "par_iter_mut"].contains(&n.as_str()) {
                        let (a, b) = self.p.text.range(m.span());
                        let t = |x: Span| self.p.text.get(x).to_string();
                        let body = if let syn::Expr::Block(_) = &*c.body { t(c.body.span()) } else { format!("{{ {}; }}", t(c.body.span())) };
                        self.ed = Some(Edit { a, b, t: format!("for {} in {}.{}() {body}", t(c.inputs[0].span()), t(r.receiver.span()), n.trim_start_matches("par_")) });
                        return;
                    }
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut v = V { p: &p, ed: None };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => return Ok(s),
            Some(e) => s = apply(&p.text.s, vec![e]),
        }
    }
    Err("for_each pass".into())
}

// Pass A3: `(a..b).map(|p| body).collect::<..>()` whose body borrows something exclusively (an FnMut closure)
// -> `{ let mut c_ = Vec::new(); for p in a..b { c_.push(body); } c_ }`.
fn pass_mapmut(s: &str) -> Res<String> {
    let mut s = s.to_string();
    for n in 0..16 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Option<Edit>,
            n: usize,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                if self.ed.is_some() {
                    return;
                }
                if let (true, syn::Expr::MethodCall(mp)) = (m.method == "collect" && m.args.is_empty(), strip_parens(&m.receiver)) {
                    if let (true, Some(syn::Expr::Closure(c)), syn::Expr::Range(_)) = (mp.method == "map", mp.args.first(), strip_parens(&mp.receiver)) {
                        let t = |x: Span| self.p.text.get(x).to_string();
                        let ret = matches!(&*c.body, syn::Expr::Block(b) if has_return(&b.block));
                        if c.inputs.len() == 1 && !ret && t(c.body.span()).contains("&mut ") {
                            let (a, b) = self.p.text.range(m.span());
                            let r = t(strip_parens(&mp.receiver).span());
                            let v = format!("c{}_", self.n);
                            self.ed = Some(Edit { a, b, t: format!("{{ let mut {v} = Vec::new(); for {} in {r} {{ {v}.push({}); }} {v} }}", t(c.inputs[0].span()), t(c.body.span())) });
                            return;
                        }
                    }
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut v = V { p: &p, ed: None, n };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => return Ok(s),
            Some(e) => s = apply(&p.text.s, vec![e]),
        }
    }
    Err("map pass".into())
}

// Pass B: macros
// Pass A4: what macro expansion leaves behind (panics), zero-argument closures, and operations of rand and of std::mem
// that are generic over types Verus has no contract for.
//   ::core::panicking::*(..)                            -> rt_panic()
//   { fn panic_cold_explicit() -> ! {..} panic_cold_explicit(); } -> { rt_panic() }
//   x.unwrap_or_else(|| e)                              -> (match x { Some(v_) => v_, None => e })
//   rng.gen_range(a..b), rand::Rng::gen_range(rng, a..b) -> rng.gen_range(a, b); a..=b -> rng.gen_range_incl(a, b)
//   std::mem::discriminant(x)                           -> discriminant(x)
fn pass_expand(s: &str) -> Res<String> {
    let mut s = s.to_string();
    for _ in 0..64 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Option<Edit>,
        }
        impl<'a> V<'a> {
            fn put(&mut self, sp: Span, t: String) {
                if self.ed.is_none() {
                    let (a, b) = self.p.text.range(sp);
                    self.ed = Some(Edit { a, b, t });
                }
            }
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_block(&mut self, b: &'ast syn::Block) {
                if let Some(syn::Stmt::Item(syn::Item::Fn(f))) = b.stmts.first() {
                    if f.sig.ident.to_string().starts_with("panic_cold") {
                        return self.put(b.span(), "{ rt_panic() }".into());
                    }
                }
                visit::visit_block(self, b);
            }
            fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
                if let syn::Expr::Path(f) = &*c.func {
                    let n = norm(f).trim_start_matches("::").to_string();
                    if n.starts_with("core::panicking::") || n.starts_with("std::panicking::") || n.starts_with("std::rt::begin_panic") {
                        return self.put(c.span(), "rt_panic()".into());
                    }
                    if ["std::mem::discriminant", "core::mem::discriminant", "mem::discriminant"].contains(&n.as_str()) {
                        return self.put(c.func.span(), "discriminant".into());
                    }
                    if ["rand::Rng::gen_range", "Rng::gen_range"].contains(&n.as_str()) && c.args.len() == 2 {
                        if let syn::Expr::Range(r) = strip_parens(&c.args[1]) {
                            if let (Some(x), Some(y)) = (&r.start, &r.end) {
                                let f = if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { "gen_range" } else { "gen_range_incl" };
                                let g = |e: Span| self.p.text.get(e).to_string();
                                let t = format!("{}.{f}({}, {})", g(c.args[0].span()), g(x.span()), g(y.span()));
                                return self.put(c.span(), t);
                            }
                        }
                    }
                }
                visit::visit_expr_call(self, c);
            }
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                if m.method == "gen_range" && m.args.len() == 1 {
                    if let syn::Expr::Range(r) = strip_parens(&m.args[0]) {
                        if let (Some(x), Some(y)) = (&r.start, &r.end) {
                            let f = if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { "gen_range" } else { "gen_range_incl" };
                            let g = |e: Span| self.p.text.get(e).to_string();
                            let t = format!("{}.{f}({}, {})", g(m.receiver.span()), g(x.span()), g(y.span()));
                            return self.put(m.span(), t);
                        }
                    }
                }
                if m.method == "unwrap_or_else" && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = strip_parens(&m.args[0]) {
                        if c.inputs.is_empty() {
                            let g = |e: Span| self.p.text.get(e).to_string();
                            let b = g(c.body.span());
                            if !b.contains("return") && !b.contains('?') {
                                let t = format!("(match {} {{ Some(v_) => v_, None => {} }})", g(m.receiver.span()), b);
                                return self.put(m.span(), t);
                            }
                        }
                    }
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut v = V { p: &p, ed: None };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => return Ok(s),
            Some(e) => s = apply(&p.text.s, vec![e]),
        }
    }
    Err("expansion pass".into())
}

fn pass_macros(s: &str) -> Res<String> {
    let mut s = s.to_string();
    for _ in 0..6 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Vec<Edit>,
            err: Option<String>,
        }
        impl<'a> V<'a> {
            fn mac(&mut self, m: &syn::Macro, span: Span, stmt: bool) {
                let name = m.path.segments.last().unwrap().ident.to_string();
                let (a, b) = self.p.text.range(span);
                let inner = self.p.text.get(m.tokens.span()).to_string();
                let args: Vec<syn::Expr> = match m.parse_body_with(
                    syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
                ) {
                    Ok(x) => x.into_iter().collect(),
                    Err(_) => vec![],
                };
                let at = |i: usize| self.p.text.get(args[i].span()).to_string();
                let semi = if stmt { ";" } else { "" };
                let t = match name.as_str() {
                    "assert" | "debug_assert" if !args.is_empty() => format!("rt_assert({}){semi}", at(0)),
                    "assert_eq" | "debug_assert_eq" => format!("rt_assert(({}) == ({})){semi}", at(0), at(1)),
                    "assert_ne" | "debug_assert_ne" => format!("rt_assert(({}) != ({})){semi}", at(0), at(1)),
                    "panic" | "unimplemented" | "unreachable" | "todo" => {
                        // as an expression it has type `!`
                        format!("rt_panic(){semi}")
                    }
                    "println" | "eprintln" | "print" | "eprint" => format!("(){semi}"),
                    "vec" => {
                        if inner.contains(';') {
                            let (x, y) = inner.split_once(';').unwrap();
                            format!("vec_repeat({}, {})", x.trim(), y.trim())
                        } else if inner.trim().is_empty() {
                            "Vec::new()".to_string()
                        } else {
                            return;
                        }
                    }
                    "matches" => {
                        let (x, y) = inner.split_once(',').unwrap();
                        format!("(match {} {{ {} => true, _ => false }})", x, y)
                    }
                    _ => {
                        self.err = Some(format!("unsupported macro {name}!"));
                        return;
                    }
                };
                self.ed.push(Edit { a, b, t });
            }
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
                self.mac(&m.mac, m.span(), m.semi_token.is_some());
            }
            fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
                self.mac(&m.mac, m.span(), false);
            }
        }
        let mut v = V { p: &p, ed: vec![], err: None };
        v.visit_impl_item_fn(&p.f);
        if let Some(e) = v.err {
            return Err(e);
        }
        if v.ed.is_empty() {
            return Ok(s);
        }
        s = apply(&p.text.s, v.ed);
    }
    Ok(s)
}

// Pass C: `a op= b` -> `a = a op (b)`; innermost handled by repetition.
// With `flag: addassign:T` the function's `a += b` (b no literal) is T's AddAssign: `T::add_assign(&mut a, b)`.
fn pass_compound(s: &str, addassign: Option<&str>) -> Res<String> {
    let mut s = s.to_string();
    for _ in 0..64 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Option<Vec<Edit>>,
            aa: Option<&'a str>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
                if self.ed.is_some() {
                    return;
                }
                use syn::BinOp::*;
                let op = match e.op {
                    AddAssign(_) => "+",
                    SubAssign(_) => "-",
                    MulAssign(_) => "*",
                    DivAssign(_) => "/",
                    RemAssign(_) => "%",
                    BitOrAssign(_) => "|",
                    BitAndAssign(_) => "&",
                    _ => {
                        visit::visit_expr_binary(self, e);
                        return;
                    }
                };
                let l = self.p.text.get(e.left.span()).to_string();
                let (oa, ob) = self.p.text.range(e.op.span());
                let (_, rb) = self.p.text.range(e.right.span());
                let simple = matches!(&*e.right, syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Field(_) | syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Paren(_));
                let mut ed = vec![];
                if let (Some(t), "+", false) = (self.aa, op, matches!(&*e.right, syn::Expr::Lit(_))) {
                    let (la, _) = self.p.text.range(e.left.span());
                    ed.push(Edit { a: la, b: rb, t: format!("{t}::add_assign(&mut {l}, {})", self.p.text.get(e.right.span())) });
                } else if simple {
                    ed.push(Edit { a: oa, b: ob, t: format!("= {l} {op}") });
                } else {
                    ed.push(Edit { a: oa, b: ob, t: format!("= {l} {op} (") });
                    ed.push(Edit { a: rb, b: rb, t: ")".into() });
                }
                self.ed = Some(ed);
            }
        }
        let mut v = V { p: &p, ed: None, aa: addassign };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => return Ok(s),
            Some(ed) => s = apply(&p.text.s, ed),
        }
    }
    Err("compound assign".into())
}

// Pass D: floats
fn looks_float(t: &str) -> bool {
    ["as f64", "as f32", "as_fl", ".floor()", ".ceil()", ".round()", "f64::", "f32::", "Fl::"].iter().any(|k| t.contains(k))
}
fn pass_float(s: &str) -> Res<String> {
    // casts first (they nest), then types/literals/paths (leaves)
    let mut s = s.to_string();
    for _ in 0..64 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Option<Vec<Edit>>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
                if self.ed.is_some() {
                    return;
                }
                visit::visit_expr_cast(self, e); // inner casts first
                if self.ed.is_some() {
                    return;
                }
                let ty = norm(&e.ty);
                let inner = self.p.text.get(e.expr.span()).to_string();
                let (a, b) = self.p.text.range(e.span());
                let t = if ty == "f64" || ty == "f32" {
                    format!("({inner}).as_fl()")
                } else if looks_float(&inner) && ["u64", "u32", "usize", "i64", "i32"].contains(&ty.as_str()) {
                    format!("({inner}).to_{ty}()")
                } else {
                    return;
                };
                self.ed = Some(vec![Edit { a, b, t }]);
            }
        }
        let mut v = V { p: &p, ed: None };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => break,
            Some(ed) => s = apply(&p.text.s, ed),
        }
    }
    let p = parse_fn(&s)?;
    struct V<'a> {
        p: &'a Parsed,
        ed: Vec<Edit>,
    }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_path(&mut self, pth: &'ast syn::Path) {
            let segs: Vec<String> = pth.segments.iter().map(|s| s.ident.to_string()).collect();
            if let Some(i) = segs.iter().position(|x| x == "f64" || x == "f32") {
                let (a, _) = self.p.text.range(pth.span());
                let (_, b) = self.p.text.range(pth.segments[i].ident.span());
                self.ed.push(Edit { a, b, t: "Fl".into() });
                if i + 1 < segs.len() {
                    let nm = &segs[i + 1];
                    if nm.chars().all(|c| c.is_uppercase() || c == '_') {
                        let (a, b) = self.p.text.range(pth.segments[i + 1].ident.span());
                        self.ed.push(Edit { a, b, t: format!("c_{nm}()") });
                    }
                }
            }
            visit::visit_path(self, pth);
        }
        fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
            if let syn::Lit::Int(i) = &e.lit {
                if i.suffix() == "f64" || i.suffix() == "f32" {
                    let (a, b) = self.p.text.range(e.span());
                    let d = i.base10_digits();
                    self.ed.push(Edit { a, b, t: format!("Fl::lit({d}.0, Ghost({d}.0real))") });
                }
            }
            if let syn::Lit::Float(f) = &e.lit {
                let d = f.base10_digits().to_string();
                let d = if d.ends_with('.') { format!("{d}0") } else { d };
                let (a, b) = self.p.text.range(e.span());
                let t = if d.contains('e') || d.contains('E') {
                    format!("Fl::lit_e({d})")
                } else {
                    let d = if d.contains('.') { d } else { format!("{d}.0") };
                    format!("Fl::lit({d}, Ghost({d}real))")
                };
                self.ed.push(Edit { a, b, t });
            }
        }
        fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
            // local f64 constants become lets
            let t = norm(&c.ty);
            if t == "f64" || t == "f32" {
                let (a, b) = self.p.text.range(c.const_token.span());
                self.ed.push(Edit { a, b, t: "let".into() });
            }
            visit::visit_item_const(self, c);
        }
    }
    let mut v = V { p: &p, ed: vec![] };
    v.visit_impl_item_fn(&p.f);
    Ok(apply(&p.text.s, v.ed))
}

// Pass D2: iterator pipelines. `(a..b).m(..)` -> `range_it(a, b).m(..)`, `x.iter().m(..)` -> `x.iter_x().m(..)`;
// the shim types in contracts/iter.rs implement the adapters eagerly.
fn pass_iter(s: &str) -> Res<String> {
    let mut s = s.to_string();
    for _ in 0..64 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            ed: Option<Edit>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
                // headers of plain loops are handled by the loop pass
                let mut e = strip_parens(&f.expr);
                let mut plain = true;
                while let syn::Expr::MethodCall(m) = e {
                    let n = m.method.to_string();
                    if !["iter", "iter_mut", "enumerate", "into_iter", "step_by"].contains(&n.as_str()) {
                        plain = false;
                    }
                    e = strip_parens(&m.receiver);
                }
                if !plain {
                    self.visit_expr(&f.expr);
                }
                visit::visit_block(self, &f.body);
            }
            fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
                if self.ed.is_some() {
                    return;
                }
                let r = strip_parens(&m.receiver);
                if let syn::Expr::Range(r) = r {
                    if let (Some(x), Some(y)) = (&r.start, &r.end) {
                        let (a, b) = self.p.text.range(m.receiver.span());
                        let (x, y) = (self.p.text.get(x.span()).to_string(), self.p.text.get(y.span()).to_string());
                        if m.method == "contains" && m.args.len() == 1 {
                            let f = match r.limits {
                                syn::RangeLimits::HalfOpen(_) => "range_has",
                                syn::RangeLimits::Closed(_) => "range_has_incl",
                            };
                            let (a, b) = self.p.text.range(m.span());
                            let arg = self.p.text.get(m.args[0].span()).to_string();
                            self.ed = Some(Edit { a, b, t: format!("{f}({x}, {y}, {arg})") });
                            return;
                        }
                        let f = match r.limits {
                            syn::RangeLimits::HalfOpen(_) => "range_it",
                            syn::RangeLimits::Closed(_) => "range_incl_it",
                        };
                        self.ed = Some(Edit { a, b, t: format!("{f}({x}, {y})") });
                        return;
                    }
                }
                if let syn::Expr::MethodCall(i) = r {
                    if (i.method == "iter" || i.method == "into_iter" || i.method == "iter_mut" || i.method == "drain") && m.method != "iter" {
                        let (a, b) = self.p.text.range(i.method.span());
                        self.ed = Some(Edit { a, b, t: format!("{}_x", i.method) });
                        return;
                    }
                }
                // inherent slice methods Verus has no contract for
                let n = m.method.to_string();
                if ["sort_by", "sort_unstable_by"].contains(&n.as_str()) {
                    let (a, b) = self.p.text.range(m.method.span());
                    self.ed = Some(Edit { a, b, t: format!("{n}_x") });
                    return;
                }
                for arg in &m.args {
                    if let (syn::Expr::MethodCall(i), true) = (strip_parens(arg), ["zip", "chain", "eq"].contains(&m.method.to_string().as_str())) {
                        if i.method == "iter" {
                            let (a, b) = self.p.text.range(i.method.span());
                            self.ed = Some(Edit { a, b, t: "iter_x".into() });
                            return;
                        }
                    }
                }
                if let (Some(t), true) = (&m.turbofish, m.method == "sum" || m.method == "collect") {
                    let (a, b) = self.p.text.range(t.span());
                    self.ed = Some(Edit { a, b, t: String::new() });
                    return;
                }
                visit::visit_expr_method_call(self, m);
            }
        }
        let mut v = V { p: &p, ed: None };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => return Ok(s),
            Some(e) => s = apply(&p.text.s, vec![e]),
        }
    }
    Err("iterator pass".into())
}

// Spec text (over reals) of a pure float expression, with the definedness conditions of its parts.
// Used as the contract of closures the template says nothing about: the closure body is the contract.
fn spec_expr(p: &Parsed, e: &syn::Expr, req: &mut Vec<String>) -> Option<String> {
    use syn::Expr::*;
    let call = |name: &str, a: Vec<String>, req: &mut Vec<String>| -> Option<String> {
        Some(match (name, a.len()) {
            ("as_fl", 1) => a[0].clone(),
            ("abs", 1) => format!("rabs({})", a[0]),
            ("exp", 1) => format!("rexp({})", a[0]),
            ("floor", 1) => format!("(rfloor({}) as real)", a[0]),
            ("ceil", 1) => format!("(rceil({}) as real)", a[0]),
            ("round", 1) => format!("(rround({}) as real)", a[0]),
            ("max", 2) => format!("rmax({}, {})", a[0], a[1]),
            ("min", 2) => format!("rmin({}, {})", a[0], a[1]),
            ("powf", 2) => {
                req.push(format!("{} >= 0real || {} == rfloor({}) as real", a[0], a[1], a[1]));
                format!("rpowf({}, {})", a[0], a[1])
            }
            ("sqrt", 1) => {
                req.push(format!("{} >= 0real", a[0]));
                format!("rsqrt({})", a[0])
            }
            ("ln", 1) => {
                req.push(format!("{} > 0real", a[0]));
                format!("rln({})", a[0])
            }
            ("log10", 1) => {
                req.push(format!("{} > 0real", a[0]));
                format!("rlog10({})", a[0])
            }
            _ => return None,
        })
    };
    match e {
        Paren(x) => spec_expr(p, &x.expr, req),
        Group(x) => spec_expr(p, &x.expr, req),
        Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            syn::Stmt::Expr(x, None) => spec_expr(p, x, req),
            _ => None,
        },
        Path(x) if x.path.segments.len() == 1 => Some(format!("rl_({})", p.text.get(e.span()))),
        Field(_) => Some(format!("rl_({})", p.text.get(e.span()))),
        Lit(l) => match &l.lit {
            syn::Lit::Int(i) if i.suffix().is_empty() => Some(format!("{}real", i.base10_digits())),
            _ => None,
        },
        Unary(u) => match u.op {
            syn::UnOp::Neg(_) => Some(format!("(-{})", spec_expr(p, &u.expr, req)?)),
            syn::UnOp::Deref(_) => Some(format!("rl_({})", p.text.get(e.span()))),
            _ => None,
        },
        Binary(b) => {
            use syn::BinOp;
            let (l, r) = (spec_expr(p, &b.left, req)?, spec_expr(p, &b.right, req)?);
            let o = match b.op {
                BinOp::Add(_) => "+",
                BinOp::Sub(_) => "-",
                BinOp::Mul(_) => "*",
                BinOp::Div(_) => {
                    req.push(format!("{r} != 0real"));
                    "/"
                }
                _ => return None,
            };
            Some(format!("({l} {o} {r})"))
        }
        MethodCall(m) => {
            let mut a = vec![spec_expr(p, &m.receiver, req)?];
            for x in &m.args {
                a.push(spec_expr(p, x, req)?);
            }
            call(&m.method.to_string(), a, req)
        }
        Call(c) => {
            let f = norm(&c.func).replace(' ', "");
            let f = f.strip_prefix("Fl::")?;
            if f == "lit" {
                let t = p.text.get(c.args.get(1)?.span());
                return t.strip_prefix("Ghost(")?.strip_suffix(')').map(|s| s.to_string());
            }
            let mut a = vec![];
            for x in &c.args {
                a.push(spec_expr(p, x, req)?);
            }
            call(f, a, req)
        }
        If(i) => {
            let (_, els) = i.else_branch.as_ref()?;
            let syn::Expr::Binary(c) = strip_parens(&i.cond) else { return None };
            use syn::BinOp;
            let o = match c.op {
                BinOp::Lt(_) => "<",
                BinOp::Le(_) => "<=",
                BinOp::Gt(_) => ">",
                BinOp::Ge(_) => ">=",
                BinOp::Eq(_) => "==",
                BinOp::Ne(_) => "!=",
                _ => return None,
            };
            let (l, r) = (spec_expr(p, &c.left, req)?, spec_expr(p, &c.right, req)?);
            let [syn::Stmt::Expr(t, None)] = &i.then_branch.stmts[..] else { return None };
            let n = req.len();
            let (t, f) = (spec_expr(p, t, req)?, spec_expr(p, els, req)?);
            if req.len() != n {
                return None;
            }
            Some(format!("(if {l} {o} {r} {{ {t} }} else {{ {f} }})"))
        }
        _ => None,
    }
}

fn pass_index(s: &str, names: &[String]) -> Res<String> {
    let mut s = s.to_string();
    for _ in 0..64 {
        let p = parse_fn(&s)?;
        struct V<'a> {
            p: &'a Parsed,
            names: &'a [String],
            ed: Option<Edit>,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
                if self.ed.is_some() {
                    return;
                }
                let b = self.p.text.get(e.expr.span());
                let last = b.rsplit('.').next().unwrap_or("").trim();
                let nested = b.starts_with("(*") && b.contains(".at(") && self.names.iter().any(|n| n == "nested");
                if nested || self.names.iter().any(|n| n == last) {
                    let (x, y) = self.p.text.range(e.span());
                    self.ed = Some(Edit { a: x, b: y, t: format!("(*{b}.at({}))", self.p.text.get(e.index.span())) });
                    return;
                }
                visit::visit_expr_index(self, e);
            }
        }
        let mut v = V { p: &p, names, ed: None };
        v.visit_impl_item_fn(&p.f);
        match v.ed {
            None => return Ok(s),
            Some(e) => s = apply(&p.text.s, vec![e]),
        }
    }
    Err("index pass".into())
}

// Pass E: loops, contracts
fn strip_parens(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip_parens(&p.expr),
        syn::Expr::Group(p) => strip_parens(&p.expr),
        _ => e,
    }
}
fn tx_pat(p: &Parsed, x: &syn::Pat) -> String {
    p.text.get(x.span()).to_string()
}
fn pass_contracts(s: &str, d: &Directive, info: &mut FnInfo) -> Res<String> {
    let p = parse_fn(s)?;
    struct V<'a> {
        p: &'a Parsed,
        d: &'a Directive,
        ed: Vec<Edit>,
        nloop: usize,
        lets: BTreeSet<String>,
        nclos: usize,
        err: Option<String>,
        bounded: bool,
        infn: bool, // not inside a closure
    }
    impl<'a> V<'a> {
        fn sec(&self, k: &str) -> String {
            self.d.sections.get(k).cloned().unwrap_or_default()
        }
        fn body(&mut self, k: usize, b: &syn::Block) {
            let (ba, bb) = self.p.text.range(b.span());
            let head = self.sec(&format!("loop {k} head"));
            let tail = self.sec(&format!("loop {k} tail"));
            if !head.is_empty() {
                self.ed.push(Edit { a: ba + 1, b: ba + 1, t: format!("\n{head}") });
            }
            if !tail.is_empty() {
                self.ed.push(Edit { a: bb - 1, b: bb - 1, t: format!("\n{tail}") });
            }
        }
        fn for_header(&mut self, k: usize, f: &syn::ExprForLoop) -> Result<(String, String, String), String> {
            // returns (prologue, loop header, pattern binding)
            let pat = self.p.text.get(f.pat.span()).to_string();
            let e = strip_parens(&f.expr);
            let tx = |x: &syn::Expr| self.p.text.get(x.span()).to_string();
            if let syn::Expr::Range(r) = e {
                let lo = r.start.as_ref().map(|x| tx(x)).ok_or("open range")?;
                let hi = r.end.as_ref().map(|x| tx(x)).ok_or("open range")?;
                let op = match r.limits {
                    syn::RangeLimits::HalfOpen(_) => "<",
                    syn::RangeLimits::Closed(_) => "<=",
                };
                let ty = self.sec(&format!("loop {k} idx"));
                let ty = if ty.trim().is_empty() { String::new() } else { format!(": {}", ty.trim()) };
                let bind = if pat == "_" { String::new() } else { format!("let {pat} = i_{k};") };
                return Ok((
                    format!("let mut i_{k}{ty} = {lo}; let e_{k} = {hi};"),
                    format!("while i_{k} {op} e_{k}"),
                    format!("{bind} i_{k} = i_{k} + 1;"),
                ));
            }
            // step_by on a range
            if let syn::Expr::MethodCall(m) = e {
                if m.method == "step_by" {
                    if let syn::Expr::Range(r) = strip_parens(&m.receiver) {
                        let lo = r.start.as_ref().map(|x| tx(x)).ok_or("open range")?;
                        let hi = r.end.as_ref().map(|x| tx(x)).ok_or("open range")?;
                        let st = tx(&m.args[0]);
                        return Ok((
                            format!("let mut i_{k} = {lo}; let e_{k} = {hi}; let st_{k} = {st};"),
                            format!("while i_{k} < e_{k}"),
                            format!("let {pat} = i_{k}; i_{k} = step_next(i_{k}, st_{k}, e_{k});"),
                        ));
                    }
                }
            }
            let mut e = e;
            let mut enumerate = false;
            // step_by(..).enumerate() on a range
            if let syn::Expr::MethodCall(n) = e {
                if let (true, syn::Expr::MethodCall(m), syn::Pat::Tuple(tp)) = (n.method == "enumerate" && n.args.is_empty(), strip_parens(&n.receiver), &*f.pat) {
                    if let ("step_by", syn::Expr::Range(r)) = (m.method.to_string().as_str(), strip_parens(&m.receiver)) {
                        let lo = r.start.as_ref().map(|x| tx(x)).ok_or("open range")?;
                        let hi = r.end.as_ref().map(|x| tx(x)).ok_or("open range")?;
                        let (st, x, y) = (tx(&m.args[0]), self.p.text.get(tp.elems[0].span()), self.p.text.get(tp.elems[1].span()));
                        return Ok((
                            format!("let mut i_{k} = {lo}; let e_{k} = {hi}; let st_{k} = {st}; let mut n_{k}: usize = 0;"),
                            format!("while i_{k} < e_{k}"),
                            format!("let {x} = n_{k}; let {y} = i_{k}; i_{k} = step_next(i_{k}, st_{k}, e_{k}); n_{k} = n_{k} + 1;"),
                        ));
                    }
                }
            }
            if let syn::Expr::MethodCall(m) = e {
                if m.method == "enumerate" && m.args.is_empty() {
                    enumerate = true;
                    e = strip_parens(&m.receiver);
                }
            }
            // elements by exclusive reference
            let place = match e {
                syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some(tx(&m.receiver)),
                syn::Expr::Reference(r) if r.mutability.is_some() => Some(tx(&r.expr)),
                _ => None,
            };
            if let Some(x) = place {
                let (ib, pat) = match (&*f.pat, enumerate) {
                    (syn::Pat::Tuple(tp), true) => (format!("let {} = i_{k};", tx_pat(self.p, &tp.elems[0])), tx_pat(self.p, &tp.elems[1])),
                    (p, false) => (String::new(), tx_pat(self.p, p)),
                    _ => return Err("enumerate pattern".into()),
                };
                return Ok((
                    format!("let mut i_{k}: usize = 0;"),
                    format!("while i_{k} < {x}.len()"),
                    format!("{ib} let {pat} = &mut {x}[i_{k}]; i_{k} = i_{k} + 1;"),
                ));
            }
            let mut by_val = false;
            let src = match e {
                syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => format!("&{}", tx(&m.receiver)),
                syn::Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                    by_val = true;
                    format!("&{}", tx(&m.receiver))
                }
                syn::Expr::Reference(_) | syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::Array(_) => tx(e),
                // an iterator pipeline over the eager shim
                _ if ["range_it(", "range_incl_it(", "_x("].iter().any(|n| tx(e).contains(n)) => {
                    by_val = true;
                    format!("({}).v", tx(e))
                }
                _ => return Err(format!("unsupported for-loop source: {}", tx(e))),
            };
            let elem_pat = |pp: &syn::Pat| -> String {
                let t = self.p.text.get(pp.span()).to_string();
                match pp {
                    syn::Pat::Reference(r) => format!("let {} = s_{k}[i_{k}];", self.p.text.get(r.pat.span())),
                    syn::Pat::Wild(_) => String::new(),
                    syn::Pat::Tuple(tp) if !by_val => {
                        // destructuring a reference to a tuple
                        let mut o = String::new();
                        for (n, el) in tp.elems.iter().enumerate() {
                            if let syn::Pat::Wild(_) = el { continue; }
                            let _ = write!(o, "let {} = &s_{k}[i_{k}].{n};", self.p.text.get(el.span()));
                        }
                        o
                    }
                    _ if by_val => format!("let {t} = s_{k}[i_{k}];"),
                    _ => format!("let {t} = &s_{k}[i_{k}];"),
                }
            };
            let bind = if enumerate {
                if let syn::Pat::Tuple(tp) = &*f.pat {
                    let i = self.p.text.get(tp.elems[0].span()).to_string();
                    let ib = if i == "_" { String::new() } else { format!("let {i} = i_{k};") };
                    format!("{ib} {}", elem_pat(&tp.elems[1]))
                } else {
                    return Err("enumerate pattern".into());
                }
            } else {
                elem_pat(&f.pat)
            };
            Ok((
                format!("let s_{k} = {src}; let mut i_{k}: usize = 0;"),
                format!("while i_{k} < s_{k}.len()"),
                format!("{bind} i_{k} = i_{k} + 1;"),
            ))
        }
    }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
            let k = self.nloop;
            self.nloop += 1;
            self.bounded = true;
            let (a, b) = self.p.text.range(f.span());
            let (ba, _) = self.p.text.range(f.body.span());
            match self.for_header(k, f) {
                Err(e) => self.err = Some(e),
                Ok((pro, hdr, bind)) => {
                    let inv = self.sec(&format!("loop {k} inv"));
                    let pre = self.sec(&format!("loop {k} pre"));
                    let post = self.sec(&format!("loop {k} post"));
                    self.ed.push(Edit { a, b: ba, t: format!("{{ {pro}\n{pre}{hdr}\n{inv}") });
                    self.ed.push(Edit { a: ba + 1, b: ba + 1, t: format!(" {bind}") });
                    self.body(k, &f.body);
                    self.ed.push(Edit { a: b, b, t: format!("\n{post}}}") });
                }
            }
            visit::visit_block(self, &f.body);
        }
        // `let NAME:` sections are placed right after the first statement that binds NAME
        fn visit_local(&mut self, l: &'ast syn::Local) {
            visit::visit_local(self, l);
            let mut pat = &l.pat;
            if let syn::Pat::Type(t) = pat {
                pat = &t.pat;
            }
            if let syn::Pat::Ident(i) = pat {
                let k = format!("let {}", i.ident);
                if self.lets.insert(k.clone()) {
                    let t = self.sec(&k);
                    let (_, b) = self.p.text.range(l.span());
                    if !t.is_empty() {
                        self.ed.push(Edit { a: b, b, t: format!("\n{t}") });
                    }
                }
            }
        }
        fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
            let k = self.nloop;
            self.nloop += 1;
            self.bounded = true;
            let (ba, _) = self.p.text.range(w.body.span());
            let inv = self.sec(&format!("loop {k} inv"));
            self.ed.push(Edit { a: ba, b: ba, t: format!("\n{inv}") });
            self.body(k, &w.body);
            visit::visit_expr_while(self, w);
        }
        fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
            let k = self.nloop;
            self.nloop += 1;
            let (ba, _) = self.p.text.range(w.body.span());
            let inv = self.sec(&format!("loop {k} inv"));
            self.ed.push(Edit { a: ba, b: ba, t: format!("\n{inv}") });
            self.body(k, &w.body);
            visit::visit_expr_loop(self, w);
        }
        // the tail section holds wherever the function returns
        fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
            let t = self.sec("tail");
            if self.infn && !t.is_empty() {
                let (a, b) = self.p.text.range(r.span());
                match &r.expr {
                    Some(e) => {
                        let (ea, eb) = self.p.text.range(e.span());
                        self.ed.push(Edit { a, b: ea, t: "{ let res_ = ".into() });
                        self.ed.push(Edit { a: eb, b, t: format!(";\n{t}\nreturn res_; }}") });
                    }
                    None => self.ed.push(Edit { a, b, t: format!("{{ {t}\nreturn; }}") }),
                }
            }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
            let k = self.nclos;
            self.nclos += 1;
            let infn = std::mem::replace(&mut self.infn, false);
            let t = self.sec(&format!("closure {k}"));
            if !t.trim().is_empty() {
                let (a, _) = self.p.text.range(c.span());
                let (ba, bb) = self.p.text.range(c.body.span());
                let t = t.replace("$ARGS", &c.inputs.iter().map(|i| self.p.text.get(i.span()).to_string()).collect::<Vec<_>>().join(", "));
                // $P0, $P1, ..: parameters by position; the source's own patterns are bound from them
                let mut lets = String::new();
                let mut t = t;
                for (j, i) in c.inputs.iter().enumerate() {
                    if !t.contains(&format!("$P{j}")) { continue; }
                    t = t.replace(&format!("$P{j}"), &format!("pt{j}_"));
                    let i = if let syn::Pat::Type(x) = i { &*x.pat } else { i };
                    match i {
                        syn::Pat::Reference(r) => { let _ = write!(lets, "let {} = *pt{j}_; ", self.p.text.get(r.pat.span())); }
                        syn::Pat::Wild(_) => {}
                        _ => { let _ = write!(lets, "let {} = pt{j}_; ", self.p.text.get(i.span())); }
                    }
                }
                if matches!(&*c.body, syn::Expr::Block(_)) && lets.is_empty() {
                    self.ed.push(Edit { a, b: ba, t: format!("{} ", t.trim()) });
                } else {
                    self.ed.push(Edit { a, b: ba, t: format!("{} {{ {lets}", t.trim()) });
                    self.ed.push(Edit { a: bb, b: bb, t: " }".into() });
                }
            } else if !self.d.flags.contains("noauto") && matches!(c.output, syn::ReturnType::Default) {
                let mut req = vec![];
                if let Some(sp) = spec_expr(self.p, &c.body, &mut req) {
                    let (ba, bb) = self.p.text.range(c.body.span());
                    // Verus takes only variables as closure parameters: patterns become lets
                    let mut lets = String::new();
                    for (j, i) in c.inputs.iter().enumerate() {
                        if !matches!(i, syn::Pat::Ident(_) | syn::Pat::Type(_)) {
                            let (a, b) = self.p.text.range(i.span());
                            let pat = self.p.text.get(i.span()).replace('&', "");
                            self.ed.push(Edit { a, b, t: format!("pt{j}_") });
                            lets.push_str(&format!("let {pat} = pt{j}_; "));
                        }
                    }
                    let r = if req.is_empty() { String::new() } else { format!("requires ({{ {lets}{} }}) ", req.join(" && ")) };
                    self.ed.push(Edit { a: ba, b: ba, t: format!("-> (r_: Fl) {r}ensures ({{ {lets}r_.v() == {sp} }}) {{ {lets}") });
                    self.ed.push(Edit { a: bb, b: bb, t: " }".into() });
                }
            }
            visit::visit_expr(self, &c.body);
            self.infn = infn;
        }
    }
    let mut v = V { p: &p, d, ed: vec![], nloop: 0, nclos: 0, err: None, lets: BTreeSet::new(), bounded: false, infn: true };
    v.visit_block(&p.f.block);
    if let Some(e) = v.err {
        return Err(e);
    }
    // every loop / closure section must have found its anchor; a section that is only a proof hint, or that annotates a
    // loop of a function that no longer has any, may be dropped: a failure of this function is then not conclusive
    for k in d.sections.keys() {
        let w: Vec<&str> = k.split_whitespace().collect();
        if w[0] == "loop" && w[1].parse::<usize>().unwrap_or(99) >= v.nloop {
            if v.nloop > 0 {
                return Err(format!("lost anchor: section '{k}' but only {} loops", v.nloop));
            }
            info.dropped.push(k.clone());
        }
        if w[0] == "let" && !v.lets.contains(k) {
            info.dropped.push(k.clone());
        }
        if w[0] == "closure" && w[1].parse::<usize>().unwrap_or(99) >= v.nclos {
            info.dropped.push(k.clone());
        }
    }
    let want = d.sections.keys().filter(|k| k.starts_with("loop ") && k.ends_with(" inv")).count();
    if d.flags.contains("anyloops") {
        if v.bounded {
            return Err("lost anchor: a for or while loop where the contract expects none".into());
        }
    } else if v.nloop != want && v.nloop > 0 {
        return Err(format!("lost anchor: {} loops in source, {} loop invariants in contract", v.nloop, want));
    }
    info.loops = v.nloop;
    let mut ed = v.ed;
    // signature
    let sig = &p.f.sig;
    if let Some(r) = &d.ret {
        match &sig.output {
            syn::ReturnType::Type(arrow, ty) => {
                let (_, ab) = p.text.range(arrow.span());
                let (_, tb) = p.text.range(ty.span());
                ed.push(Edit { a: ab, b: ab, t: format!(" ({r}:") });
                ed.push(Edit { a: tb, b: tb, t: ")".into() });
            }
            _ => return Err(format!("lost anchor: no return value in {}", d.name)),
        }
    }
    if let Some(n) = &d.rename {
        let (a, b) = p.text.range(sig.ident.span());
        ed.push(Edit { a, b, t: n.clone() });
    }
    // `mut x: T` parameters become a shadowing let (Verus has no mut parameters)
    let mut pre = String::new();
    for inp in &sig.inputs {
        if let syn::FnArg::Typed(t) = inp {
            if let syn::Pat::Ident(pi) = &*t.pat {
                if let Some(m) = &pi.mutability {
                    let (a, _) = p.text.range(m.span());
                    let (ib, _) = p.text.range(pi.ident.span());
                    ed.push(Edit { a, b: ib, t: String::new() });
                    let _ = write!(pre, " let mut {0} = {0};", pi.ident);
                }
            }
        }
    }
    let (ba, bb) = p.text.range(p.f.block.span());
    let spec = d.sections.get("spec").cloned().unwrap_or_default();
    let mut head = d.sections.get("head").cloned().unwrap_or_default();
    if d.flags.contains("strlits") {
        // the characters of every string literal in the body are made known to the verifier
        struct L(Vec<String>);
        impl<'ast> Visit<'ast> for L {
            fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
                self.0.push(l.to_token_stream().to_string());
            }
        }
        let mut l = L(vec![]);
        l.visit_block(&p.f.block);
        for x in l.0 {
            let _ = write!(head, "\nproof {{ reveal_strlit({x}); }}");
        }
    }
    ed.push(Edit { a: ba, b: ba, t: format!("\n{spec}") });
    // hide(..) headers have to come first in a body
    let (hides, head): (Vec<&str>, Vec<&str>) = head.lines().partition(|l| l.trim_start().starts_with("hide("));
    ed.push(Edit { a: ba + 1, b: ba + 1, t: format!("{}/*HEAD*/{pre}\n{}", hides.join("\n"), head.join("\n")) });
    if let Some(t) = d.sections.get("tail") {
        // before the tail expression / closing brace; with a tail expression bind it first
        match p.f.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if p.f.sig.output.to_token_stream().to_string() != "" => {
                let (ea, eb) = p.text.range(e.span());
                ed.push(Edit { a: ea, b: ea, t: "let res_ = ".into() });
                ed.push(Edit { a: eb, b: eb, t: format!(";\n{t}\nres_") });
            }
            _ => ed.push(Edit { a: bb - 1, b: bb - 1, t: format!("\n{t}") }),
        }
    }
    Ok(apply(&p.text.s, ed))
}

// ---------------------------------------------------------------- inlining of helpers without a contract
struct Ctx<'a> {
    src: &'a Source,
    self_ty: Option<String>,
    known: &'a BTreeSet<String>, // function names that have a contract / shim in the unit
}
fn has_return(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
fn words(s: &str) -> impl Iterator<Item = &str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty())
}
/// The executable functions written by hand in a template: `name` for free ones, `Type::name` for those of an impl.
fn template_fns(t: &str) -> Vec<String> {
    let t: String = t.lines().map(|l| format!("{}\n", l.split("//").next().unwrap())).collect();
    let b = t.as_bytes();
    let mut out = vec![];
    let mut stack: Vec<Option<String>> = vec![];
    let mut stmt = 0; // where the current item starts
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'{' => {
                let h = t[stmt..i].trim();
                let h = h.rsplit(']').next().unwrap().trim();
                let ty = h.strip_prefix("pub ").unwrap_or(h).strip_prefix("impl").map(|r| {
                    let mut r = r.trim_start();
                    if r.starts_with('<') {
                        let mut d = 0;
                        for (k, c) in r.char_indices() {
                            d += match c { '<' => 1, '>' if !r[..k].ends_with('-') => -1, _ => 0 };
                            if d == 0 { r = &r[k + 1..]; break; }
                        }
                    }
                    let r = r.split(" where ").next().unwrap();
                    let r = match r.find(" for ") { Some(k) => &r[k + 5..], None => r };
                    r.trim().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>()
                });
                stack.push(ty);
                stmt = i + 1;
            }
            b'}' => {
                stack.pop();
                stmt = i + 1;
            }
            b';' => stmt = i + 1,
            b'f' if t[i..].starts_with("fn ") && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) => {
                let n: String = t[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let q = &t[stmt..i];
                let ghost = words(q.rsplit(']').next().unwrap()).any(|w| ["spec", "proof", "axiom"].contains(&w));
                if !n.is_empty() && !ghost {
                    match stack.iter().rev().find_map(|x| x.clone()) {
                        Some(ty) => out.push(format!("{ty}::{n}")),
                        None => out.push(n),
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    out
}
/// A body whose early returns are all the last statement of a branch of a top-level `if`, as an expression with the
/// rest of the body moved into the other branch.  None when some return (or `?`) is elsewhere.
fn returns_to_values(t: &Text, b: &syn::Block) -> Option<String> {
    fn seq(t: &Text, ss: &[syn::Stmt]) -> Option<String> {
        let Some((s, rest)) = ss.split_first() else { return Some(String::new()) };
        let plain = |s: &syn::Stmt| { let (a, b) = t.range(s.span()); t.s[a..b].to_string() };
        match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) => Some(match &r.expr {
                Some(e) if !expr_returns(e) => t.get(e.span()).to_string(),
                Some(_) => return None,
                None => String::new(),
            }),
            syn::Stmt::Expr(syn::Expr::If(i), semi) if expr_returns(&syn::Expr::If(i.clone())) => {
                if expr_returns(&i.cond) { return None; }
                let last = rest.is_empty();
                let thn = branch(t, &i.then_branch.stmts, rest, last)?;
                let els = match &i.else_branch {
                    None => seq(t, rest)?,
                    Some((_, e)) => match &**e {
                        syn::Expr::Block(k) => branch(t, &k.block.stmts, rest, last)?,
                        syn::Expr::If(_) => {
                            let mut v = vec![syn::Stmt::Expr((**e).clone(), *semi)];
                            v.extend(rest.iter().cloned());
                            seq(t, &v)?
                        }
                        _ => return None,
                    },
                };
                Some(format!("if {} {{ {thn} }} else {{ {els} }}", t.get(i.cond.span())))
            }
            s => {
                if has_return(&syn::Block { brace_token: Default::default(), stmts: vec![s.clone()] }) { return None; }
                Some(format!("{} {}", plain(s), seq(t, rest)?))
            }
        }
    }
    // a branch that does not return goes on with the rest
    fn branch(t: &Text, ss: &[syn::Stmt], rest: &[syn::Stmt], last: bool) -> Option<String> {
        let diverges = matches!(ss.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)));
        if diverges || last { return seq(t, ss); }
        if ss.iter().any(|s| matches!(s, syn::Stmt::Local(_))) { return None; } // would capture names in the rest
        let mut v = ss.to_vec();
        if let Some(syn::Stmt::Expr(_, semi @ None)) = v.last_mut() { *semi = Some(Default::default()); return None; }
        v.extend(rest.iter().cloned());
        seq(t, &v)
    }
    fn expr_returns(e: &syn::Expr) -> bool {
        has_return(&syn::Block { brace_token: Default::default(), stmts: vec![syn::Stmt::Expr(e.clone(), None)] })
    }
    seq(t, &b.stmts)
}
fn pass_inline(s: &str, c: &Ctx, inlined: &mut Vec<String>) -> Res<String> {
    let mut s = s.to_string();
    for round in 0..24 {
        let p = parse_fn(&s)?;
        struct V<'a, 'b> {
            p: &'a Parsed,
            c: &'a Ctx<'b>,
            ed: Option<Edit>,
            what: String,
            err: Option<String>,
        }
        impl<'a, 'b> V<'a, 'b> {
            fn try_inline(&mut self, q: &str, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>, span: Span) {
                if self.c.known.contains(q) {
                    return;
                }
                let Some(f) = find_fn(self.c.src, q) else { return };
                let st = &self.c.src.text;
                let (ba, bb) = st.range(f.block.span());
                let mut body = st.s[ba + 1..bb - 1].to_string();
                if has_return(f.block) {
                    match returns_to_values(st, f.block) {
                        Some(b) => body = b,
                        None => {
                            self.err = Some(format!("helper {q} without contract has early returns; cannot inline"));
                            return;
                        }
                    }
                }
                // an argument that mentions an earlier parameter's name is evaluated before the parameters are bound
                let names: Vec<String> = f.sig.inputs.iter().filter_map(|i| if let syn::FnArg::Typed(t) = i { Some(st.get(t.pat.span()).trim_start_matches("mut ").trim().to_string()) } else { None }).collect();
                let clash = args.iter().enumerate().any(|(i, a)| {
                    let at = self.p.text.get(a.span());
                    names.iter().take(i).any(|n| words(at).any(|w| w == n))
                });
                let (mut pro, mut pro2) = (String::new(), String::new());
                let mut nth = 0;
                let mut ai = args.into_iter();
                for inp in &f.sig.inputs {
                    match inp {
                        syn::FnArg::Receiver(_) => {
                            if let Some(r) = recv {
                                if self.p.text.get(r.span()) != "self" {
                                    self.err = Some(format!("helper {q}: receiver is not self"));
                                    return;
                                }
                            } else {
                                self.err = Some(format!("helper {q}: UFCS receiver"));
                                return;
                            }
                        }
                        syn::FnArg::Typed(t) => {
                            let Some(a) = ai.next() else {
                                self.err = Some(format!("helper {q}: arity"));
                                return;
                            };
                            let at = self.p.text.get(a.span());
                            let pt = st.get(t.pat.span());
                            if pt == at && !clash {
                                continue; // same name: nothing to bind (keeps &mut arguments usable)
                            }
                            let ty = st.get(t.ty.span());
                            if clash {
                                let _ = write!(pro, "let arg{nth}_: {ty} = {at}; ");
                                let _ = write!(pro2, "let {pt}: {ty} = arg{nth}_; ");
                                nth += 1;
                            } else {
                                let _ = write!(pro, "let {pt}: {ty} = {at}; ");
                            }
                        }
                    }
                }
                let (a, b) = self.p.text.range(span);
                self.ed = Some(Edit { a, b, t: format!("{{ {pro}{pro2}{body} }}") });
                self.what = q.to_string();
            }
        }
        impl<'a, 'b, 'ast> Visit<'ast> for V<'a, 'b> {
            fn visit_expr(&mut self, e: &'ast syn::Expr) {
                if self.ed.is_some() || self.err.is_some() {
                    return;
                }
                match e {
                    syn::Expr::Call(call) => {
                        if let syn::Expr::Path(pth) = &*call.func {
                            let segs: Vec<String> = pth.path.segments.iter().map(|s| s.ident.to_string()).collect();
                            let q = match (segs.len(), segs[0].as_str()) {
                                (1, _) => Some(segs[0].clone()),
                                (2, "Self") => self.c.self_ty.as_ref().map(|t| format!("{t}::{}", segs[1])),
                                (2, t) if Some(t) == self.c.self_ty.as_deref() => Some(segs.join("::")),
                                _ => None,
                            };
                            if let Some(q) = q {
                                self.try_inline(&q, None, call.args.iter().collect(), e.span());
                                if self.ed.is_some() {
                                    return;
                                }
                            }
                        }
                    }
                    syn::Expr::MethodCall(m) => {
                        if norm(&m.receiver) == "self" {
                            if let Some(t) = &self.c.self_ty {
                                let q = format!("{t}::{}", m.method);
                                self.try_inline(&q, Some(&m.receiver), m.args.iter().collect(), e.span());
                                if self.ed.is_some() {
                                    return;
                                }
                            }
                        }
                    }
                    _ => {}
                }
                visit::visit_expr(self, e);
            }
        }
        let mut v = V { p: &p, c, ed: None, what: String::new(), err: None };
        v.visit_block(&p.f.block);
        if let Some(e) = v.err {
            return Err(e);
        }
        match v.ed {
            None => return Ok(s),
            Some(e) => {
                inlined.push(v.what.clone());
                s = apply(&p.text.s, vec![e]);
            }
        }
        if round == 23 {
            return Err("inlining does not terminate (recursion?)".into());
        }
    }
    Ok(s)
}

/// Reachability check: `--canary` plants `assert(false)` at the head of every extracted body; each one must fail.
fn canary() -> bool {
    std::env::args().any(|a| a == "--canary")
}
fn parse_canary(t: &str, d: &Directive) -> Res<String> {
    let _ = d;
    Ok(t.replace("/*HEAD*/", "proof { assert(false); }"))
}
#[derive(Default)]
struct FnInfo {
    loops: usize,
    inlined: Vec<String>,
    dropped: Vec<String>,
    src_line: usize,
}

/// `static NAME: Lazy<T> = Lazy::new(|| body)` as a function `NAME() -> T { body }`.
fn lazy_as_fn(src: &Source, name: &str) -> Option<Source> {
    let s = src.file.items.iter().find_map(|it| match it {
        syn::Item::Static(s) if s.ident == name => Some(s),
        _ => None,
    })?;
    let ty = match &*s.ty {
        syn::Type::Path(p) if p.path.segments.last()?.ident == "Lazy" => match &p.path.segments.last()?.arguments {
            syn::PathArguments::AngleBracketed(a) if a.args.len() == 1 => src.text.get(a.args[0].span()).to_string(),
            _ => return None,
        },
        _ => return None,
    };
    let c = match &*s.expr {
        syn::Expr::Call(c) if c.args.len() == 1 => c,
        _ => return None,
    };
    let k = match c.args.first()? {
        syn::Expr::Closure(k) if k.inputs.is_empty() => k,
        _ => return None,
    };
    let body = src.text.get(k.body.span());
    let body = if matches!(&*k.body, syn::Expr::Block(_)) { body.to_string() } else { format!("{{ {body} }}") };
    let text = format!("{}\npub fn {name}() -> {ty} {body}\n", src.text.s);
    let file = syn::parse_file(&text).ok()?;
    Some(Source { path: src.path.clone(), text: Text::new(&text), file })
}
fn extract_fn(src: &Source, d: &Directive, g: &GSub, known: &BTreeSet<String>, info: &mut FnInfo) -> Res<String> {
    let lazy = if find_fn(src, &d.name).is_none() { lazy_as_fn(src, &d.name) } else { None };
    let src = lazy.as_ref().unwrap_or(src);
    let f = find_fn(src, &d.name).ok_or_else(|| format!("lost anchor: no fn {} in {}", d.name, src.path))?;
    info.src_line = f.sig.span().start().line;
    let (a, _) = src.text.range(f.sig.span());
    let (_, b) = src.text.range(f.block.span());
    let mut t = src.text.s[a..b].to_string();
    if d.flags.contains("plain") {
        // drop the generic parameters and the where clause
        let (ga, gb) = src.text.range(f.sig.generics.span());
        let mut cut: Vec<(usize, usize)> = vec![];
        if gb > ga && !f.sig.generics.params.is_empty() {
            cut.push((ga, gb));
        }
        if let Some(w) = &f.sig.generics.where_clause {
            cut.push(src.text.range(w.span()));
        }
        cut.sort();
        for (x, y) in cut.into_iter().rev() {
            t.replace_range(x - a..y - a, "");
        }
    }
    let d_ext;
    let d = if d.flags.contains("extern") {
        let (_, e) = src.text.range(f.sig.span());
        t = format!("{} {{}}", &src.text.s[a..e]);
        let mut x = d.clone();
        x.sections.retain(|k, _| k == "spec");
        x.index.clear();
        d_ext = x;
        &d_ext
    } else {
        d
    };
    let self_ty = d.name.split("::").next().filter(|_| d.name.contains("::")).map(|s| s.to_string());
    let c = Ctx { src, self_ty, known };
    t = pass_mapmut(&pass_foreach(&t)?)?;
    if !d.flags.contains("noinline") {
        t = pass_inline(&t, &c, &mut info.inlined)?;
    }
    let g = &GSub { types: d.tysubst.iter().chain(&g.types).cloned().collect(), ..g.clone() };
    t = pass_subst(&t, g, &d.subst)?;
    t = pass_expand(&t)?;
    t = pass_macros(&t)?;
    t = pass_compound(&t, d.flags.iter().find_map(|f| f.strip_prefix("addassign:")))?;
    if !d.flags.contains("nofloat") {
        t = pass_float(&t)?;
    }
    if !d.flags.contains("noiter") {
        t = pass_iter(&t)?;
    }
    if !d.index.is_empty() {
        t = pass_index(&t, &d.index)?;
    }
    t = pass_contracts(&t, d, info)?;
    if canary() && !d.flags.contains("extern") {
        let p = parse_canary(&t, d)?;
        t = p;
    }
    let vis = if d.flags.contains("novis") { "" } else { "pub " };
    if d.flags.contains("extern") {
        let i = t.find("/*HEAD*/").ok_or("no body")?;
        let j = t[..i].rfind('{').ok_or("no body")?;
        return Ok(format!("/*@DEP*/#[verifier::external_body]\n{vis}{} {{ unimplemented!() }}", &t[..j]));
    }
    Ok(format!("{vis}{t}"))
}

// associated constant of an inherent impl
fn extract_aconst(src: &Source, d: &Directive, g: &GSub) -> Res<String> {
    let (ty, nm) = d.name.split_once("::").ok_or("aconst name")?;
    for it in &src.file.items {
        if let syn::Item::Impl(im) = it {
            if ty_name(&im.self_ty) != ty {
                continue;
            }
            for ii in &im.items {
                if let syn::ImplItem::Const(c) = ii {
                    if c.ident == nm {
                        let f = format!("fn c() {{ {}; }}", src.text.get(c.expr.span()));
                        let f = pass_subst(&f, g, &d.subst)?;
                        let f = if d.flags.contains("nofloat") { f } else { pass_float(&f)? };
                        let e = f.trim_start_matches("fn c() {").trim_end_matches('}').trim();
                        return Ok(format!("pub const {nm}: {} = {e}", src.text.get(c.ty.span())));
                    }
                }
            }
        }
    }
    Err(format!("lost anchor: no const {} in {}", d.name, src.path))
}

// `static NAME: Lazy<T> = Lazy::new(|| E)` becomes `fn NAME_init() -> (r: T) <spec> { E }`
fn extract_lazy(src: &Source, d: &Directive, g: &GSub) -> Res<String> {
    for it in &src.file.items {
        if let syn::Item::Static(s) = it {
            if s.ident != d.name.as_str() {
                continue;
            }
            let ty = match &*s.ty {
                syn::Type::Path(p) if p.path.segments.last().map_or(false, |x| x.ident == "Lazy") => match &p.path.segments.last().unwrap().arguments {
                    syn::PathArguments::AngleBracketed(a) if a.args.len() == 1 => {
                        let t = src.text.get(a.args[0].span()).to_string();
                        let n = norm(&a.args[0]);
                        g.types.iter().find(|(a, _)| *a == n).map_or(t, |(_, b)| b.clone())
                    }
                    _ => return Err(format!("static {}: no Lazy<T>", d.name)),
                },
                _ => return Err(format!("static {}: no Lazy<T>", d.name)),
            };
            if let syn::Expr::Call(c) = &*s.expr {
                if let Some(syn::Expr::Closure(k)) = c.args.first() {
                    if c.args.len() == 1 && k.inputs.is_empty() {
                        let f = format!("fn c() {{ {} }}", src.text.get(k.body.span()));
                        let f = pass_subst(&f, g, &d.subst)?;
                        let f = pass_float(&f)?;
                        let e = f.trim_start_matches("fn c() ");
                        return Ok(format!("pub fn {}_init() -> (r: {ty})\n{}\n{e}", d.name, d.sections.get("spec").cloned().unwrap_or_default()));
                    }
                }
            }
            return Err(format!("static {}: no closure", d.name));
        }
    }
    Err(format!("lost anchor: no static {} in {}", d.name, src.path))
}

// items: strip attributes and visibility, floats -> Fl
fn extract_item(src: &Source, d: &Directive, g: &GSub) -> Res<String> {
    if d.kind == "aconst" {
        return extract_aconst(src, d, g);
    }
    if d.kind == "lazy" {
        return extract_lazy(src, d, g);
    }
    // `module::NAME` looks inside a module of the file
    let (module, want) = match d.name.rsplit_once("::") {
        Some((m, n)) => (Some(m), n),
        None => (None, d.name.as_str()),
    };
    let items: Vec<&syn::Item> = match module {
        None => src.file.items.iter().collect(),
        Some(m) => src.file.items.iter().filter_map(|it| match it {
            syn::Item::Mod(x) if x.ident == m => x.content.as_ref().map(|c| c.1.iter().collect::<Vec<_>>()),
            _ => None,
        }).flatten().collect(),
    };
    for it in items {
        if is_test_mod(it) {
            continue;
        }
        let ok = match (d.kind.as_str(), it) {
            ("struct", syn::Item::Struct(s)) => s.ident == want,
            ("enum", syn::Item::Enum(s)) => s.ident == want,
            ("const", syn::Item::Const(s)) => s.ident == want,
            _ => false,
        };
        if !ok {
            continue;
        }
        if let syn::Item::Const(c) = it {
            let ty = norm(&c.ty);
            if let (true, syn::Expr::Lit(l)) = (ty == "f64" || ty == "f32", &*c.expr) {
                let lit: String = src.text.get(l.span()).chars().filter(|c| *c != '_').collect();
                let lit = lit.trim_end_matches("f64").trim_end_matches("f32").to_string();
                return Ok(format!("pub exec const {0}: Fl ensures {0}.fin(), {0}.v() == {lit}real {{ Fl::lit({lit}, Ghost({lit}real)) }}\npub open spec fn {0}_V() -> real {{ {lit}real }}", d.name));
            }
        }
        struct V<'a> {
            t: &'a Text,
            g: &'a GSub,
            ed: Vec<Edit>,
            base: usize,
        }
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
                let (x, y) = self.t.range(a.span());
                self.ed.push(Edit { a: x, b: y, t: String::new() });
            }
            fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
                // an elided lifetime in the type of a constant is 'static
                struct R<'a>(&'a Text, Vec<Edit>);
                impl<'a, 'ast> Visit<'ast> for R<'a> {
                    fn visit_type_reference(&mut self, r: &'ast syn::TypeReference) {
                        if r.lifetime.is_none() {
                            let (_, y) = self.0.range(r.and_token.span());
                            self.1.push(Edit { a: y, b: y, t: "'static ".into() });
                        }
                        visit::visit_type_reference(self, r);
                    }
                }
                let mut r = R(self.t, vec![]);
                r.visit_type(&c.ty);
                self.ed.extend(r.1);
                visit::visit_item_const(self, c);
            }
            fn visit_visibility(&mut self, v: &'ast syn::Visibility) {
                if !matches!(v, syn::Visibility::Inherited) {
                    let (x, y) = self.t.range(v.span());
                    self.ed.push(Edit { a: x, b: y, t: String::new() });
                }
            }
            fn visit_field(&mut self, f: &'ast syn::Field) {
                visit::visit_field(self, f);
                if let Some(i) = &f.ident {
                    let (x, _) = self.t.range(i.span());
                    self.ed.push(Edit { a: x, b: x, t: "pub ".into() });
                }
            }
            fn visit_fields_unnamed(&mut self, f: &'ast syn::FieldsUnnamed) {
                visit::visit_fields_unnamed(self, f);
            }
            fn visit_type(&mut self, t: &'ast syn::Type) {
                let n = norm(t);
                for (a, b) in &self.g.types {
                    if *a == n {
                        let (x, y) = self.t.range(t.span());
                        self.ed.push(Edit { a: x, b: y, t: b.clone() });
                        return;
                    }
                }
                if n == "f64" || n == "f32" {
                    let (x, y) = self.t.range(t.span());
                    self.ed.push(Edit { a: x, b: y, t: "Fl".into() });
                    return;
                }
                visit::visit_type(self, t);
            }
        }
        let (a, b) = src.text.range(it.span());
        let mut v = V { t: &src.text, g, ed: vec![], base: a };
        v.visit_item(it);
        let base = v.base;
        let mut ed: Vec<Edit> = v.ed.into_iter().map(|e| Edit { a: e.a - base, b: e.b - base, t: e.t }).collect();
        ed.sort_by_key(|e| (e.a, e.b));
        let body = apply(&src.text.s[a..b], ed);
        let mut body = body.trim_start().to_string();
        // tuple struct fields: make public
        if let syn::Item::Struct(s) = it {
            if let syn::Fields::Unnamed(_) = &s.fields {
                body = body.replacen('(', "(pub ", 1);
            }
        }
        let derive = d.sections.get("attr").cloned().unwrap_or_default();
        return Ok(format!("{derive}pub {body}"));
    }
    Err(format!("lost anchor: no {} {} in {}", d.kind, d.name, src.path))
}

// ---------------------------------------------------------------- main
fn expand_includes(path: &std::path::Path, seen: &mut BTreeSet<String>) -> Res<String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut out = String::new();
    for l in s.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let f = f.trim();
            if seen.insert(f.to_string()) {
                out.push_str(&expand_includes(&path.parent().unwrap().join(f), seen)?);
            }
        } else if let Some(f) = l.trim().strip_prefix("//@contracts ") {
            // only the contracts of these functions: their bodies are discharged in another unit
            let f = f.trim();
            if seen.insert(f.to_string()) {
                for l in expand_includes(&path.parent().unwrap().join(f), seen)?.lines() {
                    out.push_str(l);
                    out.push('\n');
                    if l.starts_with("/*@fn ") {
                        out.push_str("flag: extern\n");
                    }
                }
            }
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    Ok(out)
}

fn run() -> Res<()> {
    let args: Vec<String> = std::env::args().collect();
    let (tpl, repo, out, meta) = (&args[1], &args[2], &args[3], &args[4]);
    let text = expand_includes(std::path::Path::new(tpl), &mut BTreeSet::new())?;
    // all `//@broadcast a, b` lines become one module-level `broadcast use` (Verus allows a single one)
    let names: Vec<&str> = text.lines().filter_map(|l| l.trim().strip_prefix("//@broadcast ")).collect();
    let mut first = true;
    let mut t2 = String::new();
    for l in text.lines() {
        if l.trim().starts_with("//@broadcast ") {
            if first {
                t2.push_str(&format!("broadcast use {{{}}};", names.join(", ")));
            }
            first = false;
        } else {
            t2.push_str(l);
        }
        t2.push('\n');
    }
    let text = t2;
    let mut g = GSub::default();
    for l in text.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("//@subst_type ") {
            let (a, b) = r.split_once("=>").ok_or("subst_type")?;
            g.types.push((a.split_whitespace().collect(), b.trim().into()));
        }
        if let Some(r) = l.strip_prefix("//@subst_expr ") {
            let (a, b) = r.split_once("=>").ok_or("subst_expr")?;
            g.exprs.push((a.split_whitespace().collect(), b.trim().into()));
        }
        if let Some(r) = l.strip_prefix("//@method ") {
            let (a, b) = r.split_once("=>").ok_or("method")?;
            g.methods.push((a.trim().into(), b.trim().into()));
        }
    }
    // collect directives
    let mut ds = vec![];
    let mut pos = 0;
    let mut chunks: Vec<(String, Option<Directive>)> = vec![];
    while let Some(i) = text[pos..].find("/*@") {
        let a = pos + i;
        let e = text[a..].find("@*/").ok_or("unterminated directive")? + a;
        let d = parse_directive(&text[a + 3..e])?;
        ds.push((d.path.clone(), d.name.clone()));
        chunks.push((text[pos..a].to_string(), Some(d)));
        pos = e + 3;
    }
    chunks.push((text[pos..].to_string(), None));
    // names with a definition in the unit: extracted or written in the template
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut template = String::new();
    for (t, d) in &chunks {
        if let Some(d) = d {
            if d.kind == "fn" {
                let w: Vec<&str> = d.name.split("::").collect();
                known.insert(if w.len() > 1 { format!("{}::{}", w[0], w[w.len() - 1]) } else { d.name.clone() });
            }
        }
        template.push_str(t);
        template.push('\n');
    }
    known.extend(template_fns(&template));
    let mut sources: BTreeMap<String, Source> = BTreeMap::new();
    let mut expanded: Option<Res<(String, syn::File)>> = None;
    let mut outs = String::new();
    let mut items = vec![];
    let mut errors = vec![];
    for (t, d) in &mut chunks {
        outs.push_str(t);
        let Some(d) = d else { continue };
        let mut bad = false;
        let mut paths = vec![d.path.clone()];
        paths.extend(d.default.iter().map(|x| x.0.clone()));
        for path in paths {
            if sources.contains_key(&path) {
                continue;
            }
            // `expanded:a::b`: module a::b of the crate after macro expansion (rustc -Zunpretty=expanded, env EXPANDED)
            if let Some(m) = path.strip_prefix("expanded:") {
                if expanded.is_none() {
                    let r = std::env::var("EXPANDED").map_err(|e| e.to_string()).and_then(|p| std::fs::read_to_string(&p).map_err(|e| e.to_string()));
                    expanded = Some(r.and_then(|s| syn::parse_file(&s).map(|f| (s, f)).map_err(|e| e.to_string())));
                }
                match expanded.as_ref().unwrap() {
                    Err(e) => {
                        errors.push(format!("lost anchor: macro expansion: {e}"));
                        bad = true;
                    }
                    Ok((s, f)) => match expanded_mod(f, m) {
                        None => {
                            errors.push(format!("lost anchor: no module {m} in the expanded crate"));
                            bad = true;
                        }
                        Some(file) => {
                            sources.insert(path.clone(), Source { path: path.clone(), text: Text::new(s), file });
                        }
                    },
                }
                continue;
            }
            // `file#Name`: the impl a derive macro in file quotes, for the type Name
            let (fpath, quoted) = path.split_once('#').map_or((path.as_str(), None), |(a, b)| (a, Some(b)));
            let p = std::path::Path::new(repo).join(fpath);
            match std::fs::read_to_string(&p).map(|s| quoted.map_or(s.clone(), |n| unquote(&s, n))) {
                Err(e) => {
                    errors.push(format!("lost anchor: {path}: {e}"));
                    bad = true;
                }
                Ok(s) => match syn::parse_file(&s) {
                    Err(e) => {
                        errors.push(format!("parse {path}: {e}"));
                        bad = true;
                    }
                    Ok(file) => {
                        sources.insert(path.clone(), Source { path: path.clone(), text: Text::new(&s), file });
                    }
                },
            }
        }
        if bad {
            continue;
        }
        if let Some((p, n)) = d.default.clone() {
            if find_fn(&sources[&d.path], &d.name).is_none() {
                d.path = p;
                d.name = n;
            }
        }
        let d = &*d;
        let src = &sources[&d.path];
        let mut info = FnInfo::default();
        let r = if d.kind == "fn" { extract_fn(src, d, &g, &known, &mut info) } else { extract_item(src, d, &g) };
        match r {
            Err(e) => errors.push(format!("{} {}: {e}", d.path, d.name)),
            Ok(t) => {
                let line0 = outs.matches('\n').count() + 1;
                outs.push_str(&t);
                let line1 = outs.matches('\n').count() + 1;
                let kind = if d.flags.contains("extern") { "extern" } else { d.kind.as_str() };
                items.push(serde_json::json!({"kind": kind, "file": d.path, "name": d.name, "first_line": line0, "last_line": line1,
                    "uncallable": d.flags.contains("uncallable"), "src_line": info.src_line, "loops": info.loops, "inlined": info.inlined, "dropped": info.dropped}));
            }
        }
    }
    errors.dedup();
    std::fs::write(out, &outs).map_err(|e| e.to_string())?;
    std::fs::write(meta, serde_json::to_string_pretty(&serde_json::json!({"items": items, "errors": errors})).unwrap())
        .map_err(|e| e.to_string())?;
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("extract: {e}");
        }
        std::process::exit(3);
    }
    Ok(())
}
fn main() {
    if let Err(e) = run() {
        eprintln!("extract: error: {e}");
        std::process::exit(4);
    }
}
