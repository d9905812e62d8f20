//! The fixed rewrite rules, applied to source text by span.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

/// generic parameters that the preludes define as concrete types
const STRIP: &[&str] = &["F", "PC", "FS", "R", "D", "E"];
/// containers whose arguments stay
const KEEP: &[&str] = &[
    "Vec", "Option", "Result", "Box", "BTreeMap", "BTreeSet", "HashMap",
    "PhantomData", "Fn", "FnMut", "FnOnce", "OrdMap", "OrdSet",
];
const ROOTS: &[&str] = &[
    "crate", "super", "self", "std", "core", "ark_std", "ark_ff", "ark_poly",
    "ark_poly_commit", "ark_ec", "ark_serialize",
];

pub struct FnNode {
    pub vis: bool,
    pub sig: Signature,
    pub block: Option<Block>,
    pub start: proc_macro2::LineColumn,
}

pub struct RenderedFn {
    pub text: String,
    pub src_line: usize,
    pub rules: BTreeSet<String>,
    pub lost: Option<String>,
}

fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn tok(t: &impl ToTokens) -> String {
    squash(&t.to_token_stream().to_string())
}

/// `name`, `Type::name`, `Trait::name` (default method) or
/// `Trait@Type::name`; types and traits are compared without generics
/// unless the path carries them
pub fn find_fn(f: &File, path: &str) -> std::result::Result<FnNode, String> {
    let (owner, name) = match path.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, path),
    };
    let (tr, ty) = match owner {
        None => (None, None),
        Some(o) => match o.split_once('@') {
            Some((a, b)) => (Some(a.to_string()), Some(b.to_string())),
            None => (None, Some(o.to_string())),
        },
    };
    fn same(decl: &Path, want: &str) -> bool {
        let last = decl.segments.last().unwrap();
        let full = tok(last);
        if want.contains('<') {
            full == squash(want)
        } else {
            last.ident == want && !full.contains("<F>") || last.ident == want
        }
    }
    for it in &f.items {
        match it {
            Item::Fn(x) if owner.is_none() && x.sig.ident == name => {
                return Ok(FnNode {
                    vis: true,
                    sig: x.sig.clone(),
                    block: Some((*x.block).clone()),
                    start: x.sig.span().start(),
                })
            }
            Item::Impl(im) => {
                let ty = match &ty {
                    Some(t) => t,
                    None => continue,
                };
                let self_ok = match &*im.self_ty {
                    Type::Path(p) => {
                        p.path.segments.last().unwrap().ident == *ty
                    }
                    _ => false,
                };
                if !self_ok {
                    continue;
                }
                match (&tr, &im.trait_) {
                    (None, None) => {}
                    (Some(w), Some((_, p, _))) => {
                        let last = p.segments.last().unwrap();
                        let full = tok(last);
                        let ok = if w.contains('<') {
                            full == squash(w)
                        } else if w.ends_with('!') {
                            full == w[..w.len() - 1]
                        } else {
                            same(p, w)
                        };
                        if !ok {
                            continue;
                        }
                    }
                    _ => continue,
                }
                for ii in &im.items {
                    if let ImplItem::Fn(x) = ii {
                        if x.sig.ident == name {
                            return Ok(FnNode {
                                vis: im.trait_.is_none(),
                                sig: x.sig.clone(),
                                block: Some(x.block.clone()),
                                start: x.sig.span().start(),
                            });
                        }
                    }
                }
            }
            Item::Trait(t) if tr.is_none() => {
                if Some(t.ident.to_string()) != ty {
                    continue;
                }
                for ti in &t.items {
                    if let TraitItem::Fn(x) = ti {
                        if x.sig.ident == name {
                            return Ok(FnNode {
                                vis: false,
                                sig: x.sig.clone(),
                                block: x.default.clone(),
                                start: x.sig.span().start(),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Err(format!("no function {}", path))
}

pub fn find_item(items: &[Item], name: &str) -> Option<Item> {
    for it in items {
        match it {
            Item::Struct(x) if x.ident == name => return Some(it.clone()),
            Item::Enum(x) if x.ident == name => return Some(it.clone()),
            Item::Const(x) if x.ident == name => return Some(it.clone()),
            // Type::NAME: an associated constant of an inherent impl
            Item::Impl(im) if im.trait_.is_none() => {
                let (ty, c) = match name.split_once("::") {
                    Some(x) => x,
                    None => continue,
                };
                match &*im.self_ty {
                    Type::Path(p)
                        if p.path.segments.last().unwrap().ident == ty => {}
                    _ => continue,
                }
                for ii in &im.items {
                    if let ImplItem::Const(x) = ii {
                        if x.ident == c {
                            return Some(Item::Const(ItemConst {
                                attrs: x.attrs.clone(),
                                vis: x.vis.clone(),
                                const_token: x.const_token,
                                ident: x.ident.clone(),
                                generics: x.generics.clone(),
                                colon_token: x.colon_token,
                                ty: Box::new(x.ty.clone()),
                                eq_token: x.eq_token,
                                expr: Box::new(x.expr.clone()),
                                semi_token: x.semi_token,
                            }));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    order: usize,
    text: String,
}

struct Rw<'a> {
    text: &'a str,
    line_off: Vec<usize>,
    edits: Vec<Edit>,
    n: usize,
    maps: &'a [(String, String)],
    secs: &'a BTreeMap<String, String>,
    opts: &'a BTreeMap<String, String>,
    rules: BTreeSet<String>,
    lost: Option<String>,
    loops: Vec<usize>,
    closures: Vec<usize>,
    used: BTreeSet<String>,
    stmts: Vec<(usize, usize, bool)>,
    lets: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
    alias: Vec<(String, String)>,
    refs: std::collections::BTreeSet<String>,
    /// names of vectors whose elements are references
    vals: BTreeSet<String>,
    /// name, iterator, names its closures mention
    lazy: Vec<(String, It, BTreeSet<String>, bool)>,
    unit_macro: bool,
    hoist: Option<String>,
}

pub fn render_item(
    text: &str,
    it: &Item,
    opts: &BTreeMap<String, String>,
    maps: &[(String, String)],
) -> std::result::Result<String, String> {
    let secs = BTreeMap::new();
    let mut rw = Rw::new(text, maps, &secs, opts);
    let (generics, head, span, body_span, tuple) = match it {
        Item::Struct(s) => (
            s.generics.clone(),
            format!("pub struct {}", s.ident),
            s.span(),
            s.fields.span(),
            matches!(s.fields, Fields::Unnamed(_) | Fields::Unit),
        ),
        Item::Enum(e) => (
            e.generics.clone(),
            format!("pub enum {}", e.ident),
            e.span(),
            e.brace_token.span.join(),
            false,
        ),
        Item::Const(c) => {
            rw.visit_type(&c.ty);
            rw.visit_expr(&c.expr);
            let t = rw.take(&c.ty);
            let e = rw.take(&c.expr);
            return Ok(format!("pub const {}: {} = {};", c.ident, t, e));
        }
        _ => return Err("unsupported item".into()),
    };
    let _ = span;
    match it {
        Item::Struct(s) => {
            for f in &s.fields {
                rw.attrs(&f.attrs);
                rw.visit_type(&f.ty);
                let at = f.ident.as_ref().map(|i| i.span()).unwrap_or(f.ty.span());
                rw.visibility(&f.vis, at);
            }
        }
        Item::Enum(e) => {
            for v in &e.variants {
                rw.attrs(&v.attrs);
                for f in &v.fields {
                    rw.visit_type(&f.ty);
                }
            }
        }
        _ => {}
    }
    let g = rw.generics(&generics);
    let (a, b) = rw.range(body_span);
    let body = rw.take_range(a, b);
    let derive = match opts.get("derive") {
        Some(d) => format!("#[derive({})]\n", d),
        None => String::new(),
    };
    Ok(format!(
        "{}{}{} {}{}",
        derive,
        head,
        g,
        body,
        if tuple { ";" } else { "" }
    ))
}

pub fn render_fn(
    text: &str,
    node: &FnNode,
    secs: &BTreeMap<String, String>,
    opts: &BTreeMap<String, String>,
    maps: &[(String, String)],
    forced: bool,
) -> std::result::Result<RenderedFn, String> {
    let mut rw = Rw::new(text, maps, secs, opts);
    // signature
    for i in &node.sig.inputs {
        match i {
            FnArg::Receiver(_) => {}
            FnArg::Typed(t) => rw.visit_type(&t.ty),
        }
    }
    if let ReturnType::Type(_, t) = &node.sig.output {
        rw.visit_type(t);
    }
    let g = rw.generics(&node.sig.generics);
    let mut ins = vec![];
    for i in &node.sig.inputs {
        match i {
            FnArg::Receiver(r) => ins.push(rw.src(r).to_string()),
            FnArg::Typed(t) => {
                let p = rw.src(&*t.pat).to_string();
                let ty = rw.take(&*t.ty);
                ins.push(format!("{}: {}", p, ty));
            }
        }
    }
    let ret = match &node.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let ty = rw.take(&**t);
            let name = secs
                .get("ret")
                .map(|s| s.trim().to_string())
                .filter(|s| !s.is_empty())
                .unwrap_or("r".into());
            format!(" -> ({}: {})", name, ty)
        }
    };
    let name = opts
        .get("rename")
        .cloned()
        .unwrap_or(node.sig.ident.to_string());
    let vis = if node.vis && !opts.contains_key("novis") {
        "pub "
    } else {
        ""
    };
    let attrs = secs.get("attrs").cloned().unwrap_or_default();
    let sig = match secs.get("sig") {
        Some(s) => s.trim().to_string(),
        None => {
            format!("{}fn {}{}({}){}", vis, name, g, ins.join(", "), ret)
        }
    };
    let spec = secs.get("spec").cloned().unwrap_or_default();
    let src_line = node.start.line;
    let stub = |reason: Option<String>, rules: BTreeSet<String>| RenderedFn {
        text: format!(
            "#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}",
            sig, spec
        ),
        src_line,
        rules,
        lost: reason,
    };
    if forced {
        return Ok(stub(None, rw.rules.clone()));
    }
    let block = match &node.block {
        Some(b) => b,
        None => return Ok(stub(Some("no body".into()), rw.rules.clone())),
    };
    rw.number(block);
    let want = secs
        .keys()
        .filter_map(|k| k.strip_prefix("loop "))
        .filter_map(|k| k.trim().parse::<usize>().ok())
        .map(|k| k + 1)
        .max()
        .unwrap_or(0);
    let want = opts
        .get("loops")
        .and_then(|s| s.parse().ok())
        .unwrap_or(want);
    if want != rw.loops.len() {
        let m = format!(
            "{} loops, the contract annotates {}",
            rw.loops.len(),
            want
        );
        return Ok(stub(Some(m), rw.rules.clone()));
    }
    rw.visit_block(block);
    let open = rw.range(block.brace_token.span.open()).1;
    if let Some(t) = rw.sec("start") {
        rw.ins(open, 0, format!("\n{}", t));
    }
    if let Some(t) = rw.sec("beforetail") {
        match block.stmts.last() {
            Some(s) => {
                let (a, _) = rw.range(s.span());
                rw.ins(a, 0, format!("{}\n", t));
            }
            None => rw.lost = Some("no tail".into()),
        }
    }
    for k in secs.keys() {
        let known = ["ret", "spec", "sig", "attrs"];
        if !known.contains(&k.as_str()) && !k.starts_with("outline") && !rw.used.contains(k) {
            rw.lost
                .get_or_insert(format!("anchor '{}' not found", k));
        }
    }
    if let Some(m) = rw.lost.clone() {
        return Ok(stub(Some(m), rw.rules.clone()));
    }
    let mut outlined = String::new();
    for (k, head) in secs {
        let ws: Vec<&str> = k.split_whitespace().collect();
        if ws.first() != Some(&"outline") || ws.len() != 4 {
            continue;
        }
        let (x, y) = match (rw.top(block, ws[2]), rw.top(block, ws[3])) {
            (Some(x), Some(y)) if x <= y => (x, y),
            _ => {
                let m = format!("anchor '{}' not found", k);
                return Ok(stub(Some(m), rw.rules.clone()));
            }
        };
        let (a, b) = (
            rw.range(block.stmts[x].span()).0,
            rw.range(block.stmts[y].span()).1,
        );
        let get = |n: &str| secs.get(&format!("{} {}", n, ws[1])).cloned().unwrap_or_default();
        let body = rw.take_range(a, b);
        outlined.push_str(&format!(
            "#[verifier::loop_isolation(false)]\n{}\n{{\n{}\n{}\n{}\n}}\n",
            head,
            get("outlinestart"),
            body,
            get("outlinetail")
        ));
        rw.replace(a, b, get("outlinecall"));
        rw.rule("consecutive statements: a function of their own, called in their place");
    }
    let (a, b) = rw.range(block.brace_token.span.join());
    let body = rw.take_range(a, b);
    if opts.contains_key("only") {
        return Ok(RenderedFn { text: outlined, src_line, rules: rw.rules.clone(), lost: None });
    }
    Ok(RenderedFn {
        text: format!(
            "{}{}{}{}\n{}{}",
            outlined,
            if rw.loops.is_empty() || opts.contains_key("isolate") { "" } else { "#[verifier::loop_isolation(false)]\n" },
            attrs, sig, spec, body
        ),
        src_line,
        rules: rw.rules.clone(),
        lost: None,
    })
}

/// an iterator that can be indexed
#[derive(Clone, Debug)]
enum It {
    Base(String, bool), // place, mutable
    Val(String),        // place of Copy elements, taken by value
    At(String, bool),   // an ordered container of the prelude
    Range(String, String),
    Zip(Box<It>, Box<It>),
    Enum(Box<It>),
    Rev(Box<It>),
    Skip(Box<It>, String),
    Take(Box<It>, String),
    /// the closure's pattern and rewritten body
    Mapped(Box<It>, Pat, String),
}

enum ItemV {
    Place(String),
    MutPlace(String),
    Val(String),
    Tuple(Box<ItemV>, Box<ItemV>),
    Mapped(Box<ItemV>, Pat, String),
}

impl It {
    fn len(&self) -> String {
        match self {
            It::Base(p, _) | It::Val(p) | It::At(p, _) => format!("{}.len()", p),
            It::Range(a, b) if a == "0" => format!("({})", b),
            It::Range(a, b) => format!("vsub({}, {})", b, a),
            It::Zip(a, b) => format!("vmin({}, {})", a.len(), b.len()),
            It::Enum(a) | It::Rev(a) => a.len(),
            It::Skip(a, k) => format!("vsub({}, {})", a.len(), k),
            It::Take(a, k) => format!("vmin({}, {})", a.len(), k),
            It::Mapped(a, _, _) => a.len(),
        }
    }
    fn item(&self, i: &str) -> ItemV {
        match self {
            It::Base(p, false) => ItemV::Place(format!("{}[{}]", p, i)),
            It::Base(p, true) => ItemV::MutPlace(format!("{}[{}]", p, i)),
            It::Val(p) => ItemV::Val(format!("{}[{}]", p, i)),
            It::At(p, _) => ItemV::Place(format!("(*{}.at({}))", p, i)),
            It::Range(a, _) if a == "0" => ItemV::Val(i.to_string()),
            It::Range(a, _) => ItemV::Val(format!("({} + {})", a, i)),
            It::Zip(a, b) => ItemV::Tuple(
                Box::new(a.item(i)),
                Box::new(b.item(i)),
            ),
            It::Enum(a) => ItemV::Tuple(
                Box::new(ItemV::Val(i.to_string())),
                Box::new(a.item(i)),
            ),
            It::Rev(a) => a.item(&format!("({} - 1 - {})", a.len(), i)),
            It::Skip(a, k) => a.item(&format!("({} + {})", i, k)),
            It::Take(a, _) => a.item(i),
            It::Mapped(a, p, b) => ItemV::Mapped(
                Box::new(a.item(i)),
                p.clone(),
                b.clone(),
            ),
        }
    }
}

enum Stage {
    Map(Pat, Expr),
    Filter(Pat, Expr),
}

struct Terminal {
    kind: String,
    base: Expr,
    stages: Vec<Stage>,
    args: Vec<Expr>,
    ty: Option<String>,
}

fn entry_default(e: &Expr) -> Option<(&Expr, &Expr)> {
    if let Expr::MethodCall(o) = e {
        if o.method == "or_default" && o.args.is_empty() {
            if let Expr::MethodCall(n) = &*o.receiver {
                if n.method == "entry" && n.args.len() == 1 {
                    return Some((&n.receiver, &n.args[0]));
                }
            }
        }
    }
    None
}
fn entry_or(e: &Expr) -> Option<(&Expr, &Expr, &Expr)> {
    if let Expr::MethodCall(o) = e {
        if o.method == "or_insert" && o.args.len() == 1 {
            if let Expr::MethodCall(n) = &*o.receiver {
                if n.method == "entry" && n.args.len() == 1 {
                    return Some((&n.receiver, &n.args[0], &o.args[0]));
                }
            }
        }
    }
    None
}

thread_local! {
    /// names bound to lazy iterators in the function being rewritten
    static LAZY: std::cell::RefCell<BTreeSet<String>> =
        std::cell::RefCell::new(BTreeSet::new());
}
/// the base must be an iterator expression
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "iter_mut" | "into_iter" | "chunks" => true,
                "enumerate" | "zip" | "rev" | "skip" | "take" | "chain"
                | "cloned" | "copied" | "clone" => is_iter(&m.receiver),
                _ => false,
            }
        }
        Expr::Paren(p) => is_iter(&p.expr),
        Expr::Range(_) => true,
        Expr::Path(p) => p
            .path
            .get_ident()
            .map(|i| LAZY.with(|l| l.borrow().contains(&i.to_string())))
            .unwrap_or(false),
        _ => false,
    }
}

/// xs.iter().map(f) with a named f: xs.iter().map(|x| f(x)), on the text
pub fn named_maps(t: &str) -> String {
    struct V(Vec<proc_macro2::Span>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            fn chain(e: &Expr) -> bool {
                match e {
                    Expr::MethodCall(m) if m.method == "map" || m.method == "filter" => {
                        chain(&m.receiver)
                    }
                    _ => is_iter(e),
                }
            }
            if m.method == "map" && m.args.len() == 1 && chain(&m.receiver) {
                if let Expr::Path(p) = &m.args[0] {
                    if p.qself.is_some() || p.path.segments.len() > 1 {
                        self.0.push(p.span());
                    }
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let f = match parse_file(t) {
        Ok(f) => f,
        Err(_) => return t.to_string(),
    };
    let mut v = V(vec![]);
    v.visit_file(&f);
    let mut starts = vec![0];
    for (i, c) in t.char_indices() {
        if c == '\n' {
            starts.push(i + 1);
        }
    }
    let off = |l: proc_macro2::LineColumn| {
        let s = starts[l.line - 1];
        s + t[s..].char_indices().nth(l.column).map(|x| x.0).unwrap_or(0)
    };
    let mut cuts: Vec<(usize, usize)> =
        v.0.iter().map(|s| (off(s.start()), off(s.end()))).collect();
    cuts.sort();
    let mut out = t.to_string();
    for (a, b) in cuts.into_iter().rev() {
        let p = out[a..b].to_string();
        out.replace_range(a..b, &format!("|__m| {}(__m)", p));
    }
    out
}

/// does the closure body leave early (`?` or `return`)?
struct Leaves {
    tries: bool,
    returns: bool,
}
fn leaves(e: &Expr) -> Leaves {
    impl<'ast> Visit<'ast> for Leaves {
        fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
            self.returns = true;
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_try(&mut self, t: &'ast ExprTry) {
            self.tries = true;
            visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut l = Leaves { tries: false, returns: false };
    l.visit_expr(e);
    l
}
/// the `e` of a body whose value is `Ok(e)`
fn ok_tail(e: &Expr) -> Option<(&Expr, &Expr)> {
    match e {
        Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            Expr::Path(p) if p.path.is_ident("Ok") => Some((e, &c.args[0])),
            _ => None,
        },
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(x, None)) => ok_tail(x),
            _ => None,
        },
        _ => None,
    }
}
fn pat_idents(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Ident(i) => Some(vec![i.ident.to_string()]),
        Pat::Type(t) => pat_idents(&t.pat),
        Pat::Paren(t) => pat_idents(&t.pat),
        Pat::Reference(t) => pat_idents(&t.pat),
        Pat::Tuple(t) => {
            let mut v = vec![];
            for e in &t.elems {
                v.extend(pat_idents(e)?);
            }
            Some(v)
        }
        Pat::Wild(_) => Some(vec![]),
        _ => None,
    }
}

/// an iterator chain with at least one `map`, not consumed
fn lazy_chain(e: &Expr) -> bool {
    fn go(e: &Expr, mapped: bool) -> bool {
        match e {
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map" => {
                    matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1)
                        && go(&m.receiver, true)
                }
                "zip" | "enumerate" | "skip" | "take" => {
                    go(&m.receiver, mapped)
                }
                _ => mapped && is_iter(e),
            },
            Expr::Paren(p) => go(&p.expr, mapped),
            _ => mapped && is_iter(e),
        }
    }
    go(e, false)
}
/// o.unwrap_or_else(|| b), o.ok_or_else(|| b)
fn or_else(e: &Expr) -> Option<(&Expr, &ExprClosure, bool)> {
    match e {
        Expr::MethodCall(m) if (m.method == "unwrap_or_else" || m.method == "ok_or_else") && m.args.len() == 1 => match &m.args[0] {
            Expr::Closure(c) if c.inputs.is_empty() => {
                let l = leaves(&c.body);
                if l.returns || l.tries {
                    None
                } else {
                    Some((&m.receiver, c, m.method == "ok_or_else"))
                }
            }
            _ => None,
        },
        _ => None,
    }
}

/// successors(first, step).take(n).collect()
fn powers(e: &Expr) -> Option<(&Expr, &Expr, &Expr)> {
    let c = match e {
        Expr::MethodCall(m) if m.method == "collect" => &*m.receiver,
        _ => return None,
    };
    let t = match c {
        Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => m,
        _ => return None,
    };
    match &*t.receiver {
        Expr::Call(f) if f.args.len() == 2 => match &*f.func {
            Expr::Path(p)
                if p.path.segments.last().unwrap().ident == "successors" =>
            {
                Some((&f.args[0], &f.args[1], &t.args[0]))
            }
            _ => None,
        },
        _ => None,
    }
}

/// repeat(x).take(n).collect()
fn repeated(e: &Expr) -> Option<(&Expr, &Expr)> {
    let c = match e {
        Expr::MethodCall(m) if m.method == "collect" => &*m.receiver,
        _ => return None,
    };
    let t = match c {
        Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 => m,
        _ => return None,
    };
    match &*t.receiver {
        Expr::Call(f) if f.args.len() == 1 => match &*f.func {
            Expr::Path(p)
                if p.path.segments.last().unwrap().ident == "repeat" =>
            {
                Some((&f.args[0], &t.args[0]))
            }
            _ => None,
        },
        _ => None,
    }
}

// `{ e }` is e
fn only_expr(e: &Expr) -> &Expr {
    match e {
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => only_expr(x),
            _ => e,
        },
        _ => e,
    }
}

/// base.iter()....map(|p| e).collect() and friends
fn terminal(e: &Expr) -> Option<Terminal> {
    if let Expr::Call(c) = e {
        // BTreeMap::from_iter(it) is it.collect()
        let is = |p: &ExprPath| {
            let s = &p.path.segments;
            s.len() == 2 && s[0].ident == "BTreeMap" && s[1].ident == "from_iter"
        };
        return match &*c.func {
            Expr::Path(p) if is(p) && c.args.len() == 1 => {
                let x = &c.args[0];
                let m: Expr = parse_quote_spanned! { x.span() => #x.collect::<BTreeMap<_, _>>() };
                terminal(&m)
            }
            _ => None,
        };
    }
    let mc = match e {
        Expr::MethodCall(m) => m,
        _ => return None,
    };
    let kind = mc.method.to_string();
    if kind == "collect" {
        if let Expr::MethodCall(f) = &*mc.receiver {
            if f.method == "flat_map" {
                // what the flat_map becomes is the vector already
                return terminal(&mc.receiver);
            }
        }
    }
    if kind == "flat_map" {
        // of vectors, written out
        let listed = matches!(mc.args.first(), Some(Expr::Closure(c))
            if c.inputs.len() == 1
                && matches!(only_expr(&c.body), Expr::Macro(m) if m.mac.path.is_ident("vec")));
        if !listed {
            return None;
        }
    } else if !["collect", "fold", "sum", "all", "any", "for_each"]
        .contains(&kind.as_str())
    {
        return None;
    }
    let ty = mc.turbofish.as_ref().map(|t| tok(&t.args));
    let mut stages = vec![];
    let mut cur: &Expr = &mc.receiver;
    loop {
        match cur {
            Expr::MethodCall(m)
                if (m.method == "map" || m.method == "filter")
                    && m.args.len() == 1 =>
            {
                match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let p = c.inputs[0].clone();
                        let b = (*c.body).clone();
                        stages.push(if m.method == "map" {
                            Stage::Map(p, b)
                        } else {
                            Stage::Filter(p, b)
                        });
                    }
                    _ => return None,
                }
                cur = &m.receiver;
            }
            _ => break,
        }
    }
    stages.reverse();
    if !is_iter(cur) {
        return None;
    }
    if kind == "collect" && stages.is_empty() {
        // a vector of chunks is taken as it is
        if let Expr::MethodCall(m) = cur {
            if m.method == "chunks" {
                return None;
            }
        }
    }
    Some(Terminal {
        kind,
        base: cur.clone(),
        stages,
        args: mc.args.iter().cloned().collect(),
        ty,
    })
}

impl<'a> Rw<'a> {
    fn new(
        text: &'a str,
        maps: &'a [(String, String)],
        secs: &'a BTreeMap<String, String>,
        opts: &'a BTreeMap<String, String>,
    ) -> Self {
        let mut line_off = vec![0];
        for (i, c) in text.char_indices() {
            if c == '\n' {
                line_off.push(i + 1);
            }
        }
        Rw {
            text,
            line_off,
            edits: vec![],
            n: 0,
            maps,
            secs,
            opts,
            rules: BTreeSet::new(),
            lost: None,
            loops: vec![],
            closures: vec![],
            used: BTreeSet::new(),
            stmts: vec![],
            lets: BTreeMap::new(),
            calls: BTreeMap::new(),
            alias: vec![],
            refs: Default::default(),
            vals: Default::default(),
            lazy: vec![],
            unit_macro: false,
            hoist: None,
        }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let base = self.line_off[lc.line - 1];
        let rest = &self.text[base..];
        rest.char_indices()
            .nth(lc.column)
            .map(|(i, _)| base + i)
            .unwrap_or(self.text.len())
    }
    fn range(&self, s: proc_macro2::Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn src(&self, t: &impl Spanned) -> &'a str {
        let (a, b) = self.range(t.span());
        &self.text[a..b]
    }
    fn ins(&mut self, at: usize, order: usize, text: String) {
        self.n += 1;
        self.edits.push(Edit {
            start: at,
            end: at,
            order: order * 100000 + self.n,
            text,
        });
    }
    fn replace(&mut self, a: usize, b: usize, text: String) {
        // drop what was inside
        self.edits
            .retain(|e| !(e.start >= a && e.end <= b && !(e.start == e.end && (e.start == a || e.start == b))));
        self.n += 1;
        self.edits.push(Edit {
            start: a,
            end: b,
            order: 50 * 100000 + self.n,
            text,
        });
    }
    /// rendered text of a node; its edits are consumed
    fn take(&mut self, t: &impl Spanned) -> String {
        let (a, b) = self.range(t.span());
        self.take_range(a, b)
    }
    fn take_range(&mut self, a: usize, b: usize) -> String {
        let mut inner: Vec<Edit> = vec![];
        let mut keep = vec![];
        for e in self.edits.drain(..) {
            if e.start >= a && e.end <= b {
                inner.push(e)
            } else {
                keep.push(e)
            }
        }
        self.edits = keep;
        inner.sort_by_key(|e| (e.start, e.order));
        let mut o = String::new();
        let mut p = a;
        for e in &inner {
            if e.start < p {
                // overlapping: an outer replacement won
                continue;
            }
            o.push_str(&self.text[p..e.start]);
            o.push_str(&e.text);
            p = e.end;
        }
        o.push_str(&self.text[p..b]);
        o
    }
    /// the statement of the block a name is bound in (let:x), a loop starts
    /// in (loop:n) or the k-th call of a function is in (call:f:k)
    fn top(&self, b: &Block, anchor: &str) -> Option<usize> {
        if let Some(a) = anchor.strip_prefix('<') {
            return self.top(b, a)?.checked_sub(1);
        }
        if let Some(a) = anchor.strip_prefix('>') {
            return self.top(b, a).map(|i| i + 1).filter(|i| *i < b.stmts.len());
        }
        let ps: Vec<&str> = anchor.split(':').collect();
        match ps.as_slice() {
            ["let", x] => b.stmts.iter().position(|s| {
                matches!(s, Stmt::Local(l) if pat_idents(&l.pat).map_or(false, |v| v.iter().any(|i| i == x)))
            }),
            ["loop", n] => {
                let o = *self.loops.get(n.parse::<usize>().ok()?)?;
                b.stmts.iter().position(|s| {
                    let (a, z) = self.range(s.span());
                    a <= o && o < z
                })
            }
            ["call", f, k] => {
                struct C<'x>(&'x str, usize);
                impl<'ast, 'x> Visit<'ast> for C<'x> {
                    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
                        if let Expr::Path(p) = &*c.func {
                            if p.path.segments.last().unwrap().ident == self.0 {
                                self.1 += 1;
                            }
                        }
                        visit::visit_expr_call(self, c);
                    }
                    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
                        if c.method == self.0 {
                            self.1 += 1;
                        }
                        visit::visit_expr_method_call(self, c);
                    }
                }
                let k = k.parse::<usize>().ok()?;
                let mut c = C(f, 0);
                for (i, s) in b.stmts.iter().enumerate() {
                    c.visit_stmt(s);
                    if c.1 > k {
                        return Some(i);
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn sec(&mut self, k: &str) -> Option<String> {
        match self.secs.get(k) {
            Some(t) => {
                self.used.insert(k.to_string());
                Some(t.clone())
            }
            None => None,
        }
    }
    fn rule(&mut self, s: &str) {
        self.rules.insert(s.to_string());
    }
    fn attrs(&mut self, at: &[Attribute]) {
        for a in at {
            let (s, e) = self.range(a.span());
            self.replace(s, e, String::new());
        }
    }
    fn visibility(&mut self, v: &Visibility, field: proc_macro2::Span) {
        match v {
            Visibility::Inherited => {
                // attributes come first in the span; they are removed
                let (a, b) = self.range(field);
                let _ = b;
                self.ins(a, 90, "pub ".into());
            }
            Visibility::Public(_) => {}
            Visibility::Restricted(r) => {
                let (a, b) = self.range(r.span());
                self.replace(a, b, "pub".into());
            }
        }
    }
    fn strip_names(&self) -> Vec<String> {
        let mut v: Vec<String> = STRIP.iter().map(|s| s.to_string()).collect();
        if let Some(s) = self.opts.get("strip") {
            v.extend(s.split(',').map(|x| x.to_string()));
        }
        if let Some(s) = self.opts.get("nostrip") {
            let ns: Vec<&str> = s.split(',').collect();
            v.retain(|x| !ns.contains(&x.as_str()));
        }
        v
    }
    fn generics(&mut self, g: &Generics) -> String {
        let strip = self.strip_names();
        let mut ps = vec![];
        for p in &g.params {
            match p {
                GenericParam::Type(t) => {
                    if strip.contains(&t.ident.to_string()) {
                        self.rule("type parameters F, PC, FS, R: the concrete types of the prelude");
                        continue;
                    }
                    for b in &t.bounds {
                        if let TypeParamBound::Trait(tb) = b {
                            self.visit_path(&tb.path);
                        }
                    }
                    ps.push(self.take(t));
                }
                GenericParam::Lifetime(l) => {
                    ps.push(self.src(l).to_string())
                }
                GenericParam::Const(c) => ps.push(self.src(c).to_string()),
            }
        }
        if ps.is_empty() {
            String::new()
        } else {
            format!("<{}>", ps.join(", "))
        }
    }

    fn number(&mut self, b: &Block) {
        LAZY.with(|l| l.borrow_mut().clear());
        if !self.opts.contains_key("lazy") {
            struct L;
            impl<'ast> Visit<'ast> for L {
                fn visit_local(&mut self, l: &'ast Local) {
                    if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                        if lazy_chain(&x.expr) {
                            LAZY.with(|s| {
                                s.borrow_mut().insert(i.ident.to_string())
                            });
                        }
                    }
                    visit::visit_local(self, l);
                }
            }
            L.visit_block(b);
        }
        struct N {
            loops: Vec<proc_macro2::LineColumn>,
            closures: Vec<proc_macro2::LineColumn>,
            skip: Vec<proc_macro2::LineColumn>,
            inner: Vec<proc_macro2::LineColumn>,
        }
        impl<'ast> Visit<'ast> for N {
            fn visit_item(&mut self, _: &'ast Item) {}
            fn visit_local(&mut self, l: &'ast Local) {
                if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                    if LAZY.with(|s| s.borrow().contains(&i.ident.to_string())) {
                        let mut cur: &Expr = &x.expr;
                        while let Expr::MethodCall(m) = cur {
                            if m.method == "map" {
                                if let Some(Expr::Closure(c)) = m.args.first() {
                                    self.skip.push(c.or1_token.span.start());
                                }
                            }
                            cur = &m.receiver;
                        }
                    }
                }
                visit::visit_local(self, l);
            }
            fn visit_expr(&mut self, e: &'ast Expr) {
                match e {
                    Expr::ForLoop(x) => {
                        self.loops.push(x.for_token.span.start())
                    }
                    Expr::While(x) => {
                        self.loops.push(x.while_token.span.start())
                    }
                    Expr::Loop(x) => {
                        self.loops.push(x.loop_token.span.start())
                    }
                    Expr::Closure(c) => {
                        self.closures.push(c.or1_token.span.start())
                    }
                    _ => {
                        if let Some(t) = terminal(e) {
                            if let Expr::MethodCall(m) = e {
                                // position of the method name: unique
                                if !self.inner.contains(&m.method.span().start()) {
                                    self.loops.push(m.method.span().start());
                                }
                                if let Expr::MethodCall(f) = &*m.receiver {
                                    if m.method == "collect" && f.method == "flat_map" {
                                        // one loop, not two
                                        self.inner.push(f.method.span().start());
                                    }
                                }
                            }
                            // closures of the chain are consumed
                            let mut cur: &Expr = e;
                            if let Expr::Call(c) = e {
                                self.loops.push(c.paren_token.span.open().start());
                                cur = &c.args[0];
                            }
                            let mut first = matches!(e, Expr::MethodCall(_));
                            while let Expr::MethodCall(m) = cur {
                                let n = m.method.to_string();
                                if first || n == "map" || n == "filter" {
                                    for a in &m.args {
                                        if let Expr::Closure(c) = a {
                                            self.skip.push(
                                                c.or1_token.span.start(),
                                            );
                                        }
                                    }
                                }
                                first = false;
                                cur = &m.receiver;
                            }
                            let _ = t;
                        }
                    }
                }
                visit::visit_expr(self, e);
            }
        }
        let mut n = N {
            loops: vec![],
            closures: vec![],
            skip: vec![],
            inner: vec![],
        };
        n.visit_block(b);
        let skip: Vec<usize> = n.skip.iter().map(|l| self.off(*l)).collect();
        let mut l: Vec<usize> = n.loops.iter().map(|l| self.off(*l)).collect();
        l.sort();
        let mut c: Vec<usize> = n
            .closures
            .iter()
            .map(|l| self.off(*l))
            .filter(|x| !skip.contains(x))
            .collect();
        c.sort();
        self.loops = l;
        self.closures = c;
    }
    fn loop_no(&self, lc: proc_macro2::LineColumn) -> usize {
        let o = self.off(lc);
        self.loops.iter().position(|x| *x == o).unwrap_or(999)
    }

    fn place(&mut self, e: &Expr, n: usize, setup: &mut String) -> String {
        fn simple(e: &Expr) -> bool {
            match e {
                Expr::Path(_) => true,
                Expr::Field(f) => simple(&f.base),
                Expr::Paren(p) => simple(&p.expr),
                Expr::Unary(u) => {
                    matches!(u.op, UnOp::Deref(_)) && simple(&u.expr)
                }
                Expr::Index(i) => {
                    simple(&i.expr)
                        && matches!(&*i.index, Expr::Path(_) | Expr::Lit(_))
                }
                _ => false,
            }
        }
        let t = self.take(e);
        if simple(e) {
            t
        } else {
            let v = format!("__s{}_{}", n, setup.matches("let ").count());
            let is_range = matches!(e, Expr::Index(i) if matches!(&*i.index, Expr::Range(_)));
            setup.push_str(&format!(
                "let {} = {}{};\n",
                v,
                if is_range { "&" } else { "" },
                t
            ));
            v
        }
    }
    fn simple_arg(&mut self, e: &Expr, n: usize, setup: &mut String) -> String {
        let t = self.take(e);
        match e {
            Expr::Lit(_) | Expr::Path(_) => t,
            _ => {
                let v = format!("__s{}_{}", n, setup.matches("let ").count());
                setup.push_str(&format!("let {} = {};\n", v, t));
                v
            }
        }
    }
    fn parse_it(
        &mut self,
        e: &Expr,
        n: usize,
        setup: &mut String,
    ) -> Option<It> {
        match e {
            Expr::Paren(p) => self.parse_it(&p.expr, n, setup),
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(a) => self.simple_arg(a, n, setup),
                    None => return None,
                };
                let b = match &r.end {
                    Some(b) => self.simple_arg(b, n, setup),
                    None => return None,
                };
                Some(match r.limits {
                    RangeLimits::HalfOpen(_) => It::Range(a, b),
                    RangeLimits::Closed(_) => {
                        It::Range(a, format!("{} + 1", b))
                    }
                })
            }
            Expr::Reference(r) => {
                let p = self.place(&r.expr, n, setup);
                Some(It::Base(p, r.mutability.is_some()))
            }
            Expr::Path(_) | Expr::Field(_) => {
                if let Some(l) = self.lazy_named(e) {
                    return Some(l);
                }
                let p = self.place(e, n, setup);
                if self.vals.contains(&p) {
                    return Some(It::Val(p));
                }
                Some(It::Base(p, false))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" | "iter_mut" | "into_iter" => {
                        if let Expr::Paren(p) = &*m.receiver {
                            if matches!(&*p.expr, Expr::Range(_)) {
                                return self.parse_it(&p.expr, n, setup);
                            }
                        }
                        let p = self.place(&m.receiver, n, setup);
                        let maps = self.opts.get("maps").cloned().unwrap_or_default();
                        if maps.split(',').any(|x| x == p) {
                            return Some(It::At(p, false));
                        }
                        Some(It::Base(p, name == "iter_mut"))
                    }
                    "map" => match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 => {
                            let a = self.parse_it(&m.receiver, n, setup)?;
                            let b = match self.hoist.take() {
                                Some(h) => h,
                                None => self.take(&*c.body),
                            };
                            Some(It::Mapped(
                                Box::new(a),
                                c.inputs[0].clone(),
                                b,
                            ))
                        }
                        _ => None,
                    },
                    "enumerate" => Some(It::Enum(Box::new(
                        self.parse_it(&m.receiver, n, setup)?,
                    ))),
                    "rev" => Some(It::Rev(Box::new(
                        self.parse_it(&m.receiver, n, setup)?,
                    ))),
                    "skip" | "take" => {
                        let a = self.parse_it(&m.receiver, n, setup)?;
                        let k = self.simple_arg(&m.args[0], n, setup);
                        Some(if name == "skip" {
                            It::Skip(Box::new(a), k)
                        } else {
                            It::Take(Box::new(a), k)
                        })
                    }
                    "zip" => {
                        let a = self.parse_it(&m.receiver, n, setup)?;
                        let b = self.parse_it(&m.args[0], n, setup)?;
                        Some(It::Zip(Box::new(a), Box::new(b)))
                    }
                    "clone" => self.parse_it(&m.receiver, n, setup),
                    "copied" | "cloned" => {
                        match self.parse_it(&m.receiver, n, setup)? {
                            It::Base(p, _) => Some(It::Val(p)),
                            // a vector of references
                            It::Val(p) => {
                                let x: Pat = syn::parse::Parser::parse_str(Pat::parse_single, "__x").ok()?;
                                let b = if name == "copied" { "*__x" } else { "(*__x).clone()" };
                                Some(It::Mapped(Box::new(It::Val(p)), x, b.to_string()))
                            }
                            _ => None,
                        }
                    }
                    "chain" => {
                        let t = self.listed(e)?;
                        let v = format!(
                            "__s{}_{}",
                            n,
                            setup.matches("let ").count()
                        );
                        setup.push_str(&format!("let {} = {};\n", v, t));
                        self.rule("chained iterators: the vector of references to their elements");
                        Some(It::Val(v))
                    }
                    "chunks" => {
                        let t = self.take(e);
                        let v = format!(
                            "__s{}_{}",
                            n,
                            setup.matches("let ").count()
                        );
                        setup.push_str(&format!("let {} = {};\n", v, t));
                        Some(It::Val(v))
                    }
                    _ => {
                        let p = self.place(e, n, setup);
                        Some(It::Base(p, false))
                    }
                }
            }
            _ => None,
        }
    }
    /// let statements that bind `pat` to `item`
    fn bind(&mut self, pat: &Pat, item: &ItemV, out: &mut String) -> bool {
        match (pat, item) {
            (Pat::Wild(_), _) => true,
            (Pat::Type(t), it) => self.bind(&t.pat, it, out),
            (Pat::Paren(p), it) => self.bind(&p.pat, it, out),
            (Pat::Ident(i), ItemV::Place(p)) => {
                self.refs.insert(i.ident.to_string());
                out.push_str(&format!("let {} = &{};\n", self.src(i), p));
                true
            }
            (Pat::Ident(i), ItemV::MutPlace(p)) => {
                self.alias.push((i.ident.to_string(), p.clone()));
                true
            }
            (Pat::Ident(i), ItemV::Val(p)) => {
                let id = i.ident.to_string();
                // a name of the weaver's own has no source
                let id = if id.starts_with("__") { id } else { self.src(i).to_string() };
                out.push_str(&format!("let {} = {};\n", id, p));
                true
            }
            (_, ItemV::Mapped(inner, q, body)) => {
                let mut b2 = String::new();
                if !self.bind(q, inner, &mut b2) {
                    return false;
                }
                let v = format!("{{ {} {} }}", b2, body);
                self.bind(pat, &ItemV::Val(v), out)
            }
            (Pat::Ident(i), ItemV::Tuple(a, b)) => {
                fn e(i: &ItemV) -> Option<String> {
                    Some(match i {
                        ItemV::Place(p) => format!("&{}", p),
                        ItemV::MutPlace(_) | ItemV::Mapped(..) => return None,
                        ItemV::Val(p) => p.clone(),
                        ItemV::Tuple(a, b) => {
                            format!("({}, {})", e(a)?, e(b)?)
                        }
                    })
                }
                match (e(a), e(b)) {
                    (Some(a), Some(b)) => {
                        out.push_str(&format!(
                            "let {} = ({}, {});\n",
                            self.src(i),
                            a,
                            b
                        ));
                        true
                    }
                    _ => false,
                }
            }
            (Pat::Reference(r), ItemV::Place(p)) => {
                self.bind(&r.pat, &ItemV::Val(p.clone()), out)
            }
            (Pat::Tuple(t), ItemV::Tuple(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], a, out) && self.bind(&t.elems[1], b, out)
            }
            (Pat::Tuple(t), ItemV::Place(p)) => {
                for (k, q) in t.elems.iter().enumerate() {
                    if !self.bind(
                        q,
                        &ItemV::Place(format!("{}.{}", p, k)),
                        out,
                    ) {
                        return false;
                    }
                }
                true
            }
            (Pat::Tuple(t), ItemV::Val(p)) => {
                for (k, q) in t.elems.iter().enumerate() {
                    if !self.bind(
                        q,
                        &ItemV::Val(format!("{}.{}", p, k)),
                        out,
                    ) {
                        return false;
                    }
                }
                true
            }
            _ => false,
        }
    }
    /// the vector of references a chain runs through
    fn listed(&mut self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.listed(&p.expr),
            Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1 => {
                let a = self.listed(&m.receiver)?;
                let b = self.listed(&m.args[0])?;
                Some(format!("vcat({}, {})", a, b))
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let p = self.take(&*m.receiver);
                Some(format!("{}.vrefs()", p))
            }
            Expr::Call(c) if c.args.len() == 1 => match &*c.func {
                Expr::Path(p) if p.path.segments.last().unwrap().ident == "once" => {
                    let a = self.take(&c.args[0]);
                    Some(format!("vonce({})", a))
                }
                _ => None,
            },
            Expr::Path(p) => {
                let id = p.path.get_ident()?.to_string();
                if self.vals.contains(&id) {
                    Some(id)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn lazy_named(&mut self, e: &Expr) -> Option<It> {
        if let Expr::Path(p) = e {
            let id = p.path.get_ident()?.to_string();
            let l = self.lazy.iter().rev().find(|l| l.0 == id)?.clone();
            if l.3 {
                self.give_up("a lazy iterator's closure names a rebound variable");
            }
            return Some(l.1);
        }
        None
    }
    /// a call of a method that the unit says returns a reference
    fn ref_call(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.ref_call(&p.expr),
            Expr::MethodCall(m) => self.opts.get("refcalls").map_or(false, |l| {
                l.split(',').any(|x| m.method == x)
            }),
            _ => false,
        }
    }
    fn give_up(&mut self, m: &str) {
        self.lost.get_or_insert(m.to_string());
    }
    fn loop_secs(&mut self, n: usize) -> (String, String, String, String, String) {
        let inv = self.sec(&format!("loop {}", n)).unwrap_or_default();
        let a = self.sec(&format!("beforeloop {}", n)).unwrap_or_default();
        let b = self.sec(&format!("loopstart {}", n)).unwrap_or_default();
        let c = self.sec(&format!("loopend {}", n)).unwrap_or_default();
        let d = self.sec(&format!("afterloop {}", n)).unwrap_or_default();
        (inv, a, b, c, d)
    }

    fn do_for(&mut self, x: &ExprForLoop) {
        let n = self.loop_no(x.for_token.span.start());
        let native = self.opts.get(&format!("loopkind{}", n)).map(|s| s.as_str())
            == Some("native");
        let (inv, before, lstart, lend, after) = self.loop_secs(n);
        let (a, b) = self.range(x.span());
        if native {
            self.visit_expr(&x.expr);
            self.visit_block(&x.body);
            let body_open = self.range(x.body.brace_token.span.open()).1;
            let body_close = self.range(x.body.brace_token.span.close()).0;
            let hdr_end = self.range(x.body.brace_token.span.open()).0;
            self.ins(a, 10, before);
            self.ins(hdr_end, 10, format!("\n{}", inv));
            let (ea, _) = self.range(x.expr.span());
            self.ins(ea, 0, format!("__it{}: ", n));
            self.ins(body_open, 10, format!("\n{}", lstart));
            self.ins(body_close, 10, lend);
            self.ins(b, 10, after);
            return;
        }
        // pattern variables bound to &mut elements are places
        let mut setup = String::new();
        let save = self.alias.len();
        self.visit_expr(&x.expr);
        let it = match self.parse_it(&x.expr, n, &mut setup) {
            Some(i) => i,
            None => return self.give_up("loop over an unsupported iterator"),
        };
        let i = format!("__i{}", n);
        let mut binds = String::new();
        let it = match it {
            It::Base(p, m) if self.opts.contains_key(&format!("at{}", n)) => {
                It::At(p, m)
            }
            it => it,
        };
        let header = match &it {
            It::Range(lo, hi) if lo != "0" => {
                let item = ItemV::Val(i.clone());
                if !self.bind(&x.pat, &item, &mut binds) {
                    return self.give_up("loop pattern");
                }
                format!(
                    "let __n{} = {};\nfor {} in {}..__n{}\n",
                    n, hi, i, lo, n
                )
            }
            _ => {
                let item = it.item(&i);
                if !self.bind(&x.pat, &item, &mut binds) {
                    return self.give_up("loop pattern");
                }
                format!(
                    "let __n{} = {};\nfor {} in 0..__n{}\n",
                    n,
                    it.len(),
                    i,
                    n
                )
            }
        };
        self.visit_block(&x.body);
        self.alias.truncate(save);
        let (ba, bb) = (
            self.range(x.body.brace_token.span.open()).1,
            self.range(x.body.brace_token.span.close()).0,
        );
        let body = self.take_range(ba, bb);
        let semi = match x.body.stmts.last() {
            Some(Stmt::Expr(_, None)) if !lend.is_empty() => ";",
            _ => "",
        };
        self.rule("for loops: index loops over the same elements in the same order");
        self.replace(
            a,
            b,
            format!(
                "{}{}{}{}{{\n{}{}{}{}\n{}}}\n{}",
                setup, before, header, inv, binds, lstart, body, semi, lend, after
            ),
        );
    }

    fn do_terminal(&mut self, e: &Expr, t: &Terminal, question: bool) {
        let at = match e {
            Expr::MethodCall(m) => m.method.span().start(),
            Expr::Call(c) => c.paren_token.span.open().start(),
            _ => unreachable!(),
        };
        let n = self.loop_no(at);
        let (inv, before, lstart, lend, after) = self.loop_secs(n);
        let mut setup = String::new();
        self.visit_expr(&t.base);
        let it = match self.parse_it(&t.base, n, &mut setup) {
            Some(i) => i,
            None => return self.give_up("chain over an unsupported iterator"),
        };
        let i = format!("__i{}", n);
        let v = format!("__v{}", n);
        let mut body = String::new();
        let mut closes = String::new();
        let mut cur = it.item(&i);
        let mut unwrapped = false;
        for (k, s) in t.stages.iter().enumerate() {
            let (p, b, filt) = match s {
                Stage::Map(p, b) => (p, b, false),
                Stage::Filter(p, b) => (p, b, true),
            };
            let lv = leaves(b);
            let last = k + 1 == t.stages.len() && !filt && t.kind == "collect" && question;
            let ok = if last { ok_tail(b) } else { None };
            if lv.returns || (lv.tries && !last) {
                return self.give_up("early exit inside a chained closure");
            }
            let mut binds = String::new();
            if filt {
                let c2 = match &cur {
                    ItemV::Place(p) => ItemV::Val(format!("(&&{})", p)),
                    ItemV::Val(p) => ItemV::Val(format!("(&{})", p)),
                    _ => return self.give_up("filter"),
                };
                let bound = match p {
                    // the argument is a reference to the item
                    Pat::Reference(r) => self.bind(&r.pat, &cur, &mut binds),
                    _ => self.bind(p, &c2, &mut binds),
                };
                if !bound {
                    return self.give_up("filter pattern");
                }
                self.visit_expr(b);
                let bt = self.take(b);
                body.push_str(&format!(
                    "let __c{}_{} = {{ {} {} }};\nif __c{}_{} {{\n",
                    n, k, binds, bt, n, k
                ));
                closes.push_str("}\n");
            } else {
                if !self.bind(p, &cur, &mut binds) {
                    return self.give_up("map pattern");
                }
                self.visit_expr(b);
                if let Some((whole, inner)) = ok {
                    let it = self.take(inner);
                    let (a, z) = self.range(whole.span());
                    self.replace(a, z, it);
                    unwrapped = true;
                    self.rule("a closure that ends in Ok(x), collected and propagated at once: x, and its early exits are the function's");
                } else if lv.tries {
                    self.rule("a closure whose results are collected and propagated at once: its early exits are the function's");
                }
                let bt = self.take(b);
                body.push_str(&format!(
                    "let __e{}_{} = {{ {} {} }};\n",
                    n, k, binds, bt
                ));
                cur = ItemV::Val(format!("__e{}_{}", n, k));
            }
        }
        let flat = match &cur {
            ItemV::Mapped(inner, q, body) => {
                let mut b2 = String::new();
                if self.bind(q, inner, &mut b2) {
                    Some(format!("{{ {} {} }}", b2, body))
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(v) = flat {
            cur = ItemV::Val(v);
        }
        let item = |c: &ItemV| -> Option<String> {
            Some(match c {
                ItemV::Place(p) => format!("&{}", p),
                ItemV::Val(p) => p.clone(),
                _ => return None,
            })
        };
        let (init, step, result): (String, String, String) =
            match t.kind.as_str() {
                "collect" => {
                    let kind = self
                        .opts
                        .get(&format!("collect{}", n))
                        .cloned()
                        .or(t.ty.clone())
                        .unwrap_or("Vec".into());
                    let it = match item(&cur) {
                        Some(i) => i,
                        None => return self.give_up("collect item"),
                    };
                    let q = if question && !unwrapped { "?" } else { "" };
                    if kind.starts_with("Vec")
                        || (question && kind.starts_with("Result<") && !kind.starts_with("Result<BTree"))
                        || kind == "resvec"
                    {
                        let ann = match self.opts.get(&format!("collect{}", n)) {
                            Some(k) if k.starts_with("Vec<") => format!(": {}", k),
                            _ => String::new(),
                        };
                        (
                            format!("let mut {}{} = Vec::new();\n", v, ann),
                            format!("{}.push({}{});\n", v, it, q),
                            v.clone(),
                        )
                    } else if kind.starts_with("BTreeMap") {
                        (
                            format!("let mut {} = BTreeMap::new();\n", v),
                            format!(
                                "let __p = {}{}; {}.insert(__p.0, __p.1);\n",
                                it, q, v
                            ),
                            v.clone(),
                        )
                    } else if kind.starts_with("BTreeSet") {
                        (
                            format!("let mut {} = BTreeSet::new();\n", v),
                            format!("{}.insert({}{});\n", v, it, q),
                            v.clone(),
                        )
                    } else {
                        return self.give_up("collect target");
                    }
                }
                "fold" => {
                    let (pats, b) = match t.args.get(1) {
                        Some(Expr::Closure(c)) if c.inputs.len() == 2 => {
                            (c.inputs.clone(), (*c.body).clone())
                        }
                        _ => return self.give_up("fold"),
                    };
                    self.visit_expr(&t.args[0]);
                    let init = self.take(&t.args[0]);
                    let mut binds = String::new();
                    if !(self.bind(
                        &pats[0],
                        &ItemV::Val(v.clone()),
                        &mut binds,
                    ) && self.bind(&pats[1], &cur, &mut binds))
                    {
                        return self.give_up("fold pattern");
                    }
                    self.visit_expr(&b);
                    let bt = self.take(&b);
                    (
                        format!("let mut {} = {};\n", v, init),
                        format!("{} = {{ {} {} }};\n", v, binds, bt),
                        v.clone(),
                    )
                }
                "sum" => {
                    let it = match item(&cur) {
                        Some(i) => i,
                        None => return self.give_up("sum item"),
                    };
                    let zero = self
                        .opts
                        .get(&format!("sum{}", n))
                        .cloned()
                        .unwrap_or("F::zero()".into());
                    (
                        format!("let mut {} = {};\n", v, zero),
                        format!("{} = {} + ({});\n", v, v, it),
                        v.clone(),
                    )
                }
                "all" | "any" => {
                    let (p, b) = match t.args.get(0) {
                        Some(Expr::Closure(c)) if c.inputs.len() == 1 => {
                            (c.inputs[0].clone(), (*c.body).clone())
                        }
                        _ => return self.give_up("all/any"),
                    };
                    let mut binds = String::new();
                    if !self.bind(&p, &cur, &mut binds) {
                        return self.give_up("all/any pattern");
                    }
                    self.visit_expr(&b);
                    let bt = self.take(&b);
                    let (z, op) = if t.kind == "all" {
                        ("true", "&&")
                    } else {
                        ("false", "||")
                    };
                    (
                        format!("let mut {}: bool = {};\n", v, z),
                        format!(
                            "let __b = {{ {} {} }}; {} = {} {} __b;\n",
                            binds, bt, v, v, op
                        ),
                        v.clone(),
                    )
                }
                "flat_map" => {
                    let (p, b) = match t.args.get(0) {
                        Some(Expr::Closure(c)) if c.inputs.len() == 1 => {
                            (c.inputs[0].clone(), (*c.body).clone())
                        }
                        _ => return self.give_up("flat_map"),
                    };
                    let mut binds = String::new();
                    if !self.bind(&p, &cur, &mut binds) {
                        return self.give_up("flat_map pattern");
                    }
                    self.visit_expr(&b);
                    let bt = self.take(&b);
                    let ann = match self.opts.get(&format!("collect{}", n)) {
                        Some(k) if k.starts_with("Vec<") => format!(": {}", k),
                        _ => String::new(),
                    };
                    self.rule("flat_map of written-out vectors: the vector of all their elements");
                    (
                        format!("let mut {}{} = Vec::new();\n", v, ann),
                        format!("let __l = {{ {} {} }};\nvextend(&mut {}, __l);\n", binds, bt, v),
                        v.clone(),
                    )
                }
                "for_each" => {
                    let (p, b) = match t.args.get(0) {
                        Some(Expr::Closure(c)) if c.inputs.len() == 1 => {
                            (c.inputs[0].clone(), (*c.body).clone())
                        }
                        _ => return self.give_up("for_each"),
                    };
                    let mut binds = String::new();
                    if !self.bind(&p, &cur, &mut binds) {
                        return self.give_up("for_each pattern");
                    }
                    self.visit_expr(&b);
                    let bt = self.take(&b);
                    (
                        String::new(),
                        format!("{{ {} {} }};\n", binds, bt),
                        String::new(),
                    )
                }
                _ => return self.give_up("chain"),
            };
        self.rule("iterator chains (map/filter/collect/fold/sum/all/any): index loops over the same elements in the same order");
        let (a, b) = self.range(e.span());
        self.replace(
            a,
            b,
            format!(
                "{{ {}{}{}let __n{} = {};\nfor {} in 0..__n{}\n{}{{\n{}{}{}{}{}}}\n{} {} }}",
                setup, init, before, n, it.len(), i, n, inv, lstart, body, step, closes, lend,
                after, result
            ),
        );
    }

    fn do_macro(&mut self, m: &Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let unit = std::mem::replace(&mut self.unit_macro, false);
        let ty = if unit { "::<()>" } else { "" };
        let (a, b) = self.range(m.span());
        let args = m.parse_body_with(
            punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
        );
        match name.as_str() {
            "panic" | "unimplemented" | "unreachable" | "todo" => {
                let mode = self.opts.get("asserts").map(|s| s.as_str());
                if mode == Some("named") {
                    // keep what the message names
                    let ex: Vec<Expr> = args.map(|x| x.into_iter().skip(1).collect()).unwrap_or_default();
                    if ex.len() == 2 {
                        self.rule("panic! naming two values: a call that does not return, given them");
                        for x in ex.iter() {
                            self.visit_expr(x);
                        }
                        let t = format!("vstop2({}, {})", self.take(&ex[0]), self.take(&ex[1]));
                        self.replace(a, b, t);
                    } else {
                        self.rule("panic!: a call that does not return");
                        self.replace(a, b, format!("vstop{}()", ty));
                    }
                } else if mode == Some("assumed") {
                    self.rule("panic!: a call that does not return");
                    self.replace(a, b, format!("vstop{}()", ty));
                } else {
                    self.rule("panic!: a call that must be unreachable");
                    self.replace(a, b, format!("vpanic{}()", ty));
                }
            }
            "assert" | "assert_eq" | "debug_assert" | "assert_ne" => {
                let args = match args {
                    Ok(x) => x,
                    Err(_) => return self.give_up("assert arguments"),
                };
                for x in args.iter().take(2) {
                    self.visit_expr(x);
                }
                let f = if matches!(self.opts.get("asserts").map(|s| s.as_str()), Some("assumed") | Some("named"))
                {
                    "vguard"
                } else {
                    "vassert"
                };
                self.rule("assert!/assert_eq!: a call whose precondition is the condition");
                let t = if name == "assert" || name == "debug_assert" {
                    let c = self.take(&args[0]);
                    format!("{}({})", f, c)
                } else {
                    let op = if name == "assert_eq" { "==" } else { "!=" };
                    let x = self.take(&args[0]);
                    let y = self.take(&args[1]);
                    format!("{}({} {} {})", f, x, op, y)
                };
                self.replace(a, b, t);
            }
            "vec" => {
                // vec![x; n] or vec![a, b]
                if let Ok(ex) = args {
                    for x in ex.iter() {
                        self.visit_expr(x);
                    }
                    let parts: Vec<String> =
                        ex.iter().map(|x| self.take(x)).collect();
                    self.replace(
                        a,
                        b,
                        format!("vec![{}]", parts.join(", ")),
                    );
                } else {
                    struct Rep(Expr, Expr);
                    impl parse::Parse for Rep {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let x = i.parse()?;
                            i.parse::<Token![;]>()?;
                            Ok(Rep(x, i.parse()?))
                        }
                    }
                    match m.parse_body::<Rep>() {
                        Ok(Rep(x, k)) => {
                            self.visit_expr(&x);
                            self.visit_expr(&k);
                            let xs = self.take(&x);
                            let ks = self.take(&k);
                            self.rule("vec![x; n]: vec_fill(x, n)");
                            self.replace(
                                a,
                                b,
                                format!("vec_fill({}, {})", xs, ks),
                            );
                        }
                        Err(_) => self.give_up("vec!"),
                    }
                }
            }
            "format" => {
                // format!("lit", args..)
                match args {
                    Ok(ex) if !ex.is_empty() => {
                        for x in ex.iter() {
                            self.visit_expr(x);
                        }
                        let parts: Vec<String> =
                            ex.iter().map(|x| self.take(x)).collect();
                        self.rule("format!: fmtN, deterministic in its arguments");
                        let mut t = format!("fmt{}({}", ex.len() - 1, parts[0]);
                        for p in &parts[1..] {
                            t.push_str(&format!(", &{}", p));
                        }
                        t.push(')');
                        self.replace(a, b, t);
                    }
                    _ => self.give_up("format!"),
                }
            }
            "end_timer" | "start_timer" => {
                self.replace(a, b, "()".into());
            }
            "matches" => {}
            "to_bytes" => {
                // ark_ff::to_bytes![a, b, ..]
                match args {
                    Ok(ex) => {
                        for x in ex.iter() {
                            self.visit_expr(x);
                        }
                        let parts: Vec<String> = ex
                            .iter()
                            .map(|x| {
                                let t = self.take(x);
                                format!("vbytes(&{})", t)
                            })
                            .collect();
                        self.rule("to_bytes!: an uninterpreted injective encoding of its arguments");
                        self.replace(
                            a,
                            b,
                            format!("to_bytes{}({})", parts.len(), parts.join(", ")),
                        );
                    }
                    _ => self.give_up("to_bytes!"),
                }
            }
            _ => self.give_up(&format!("macro {}!", name)),
        }
    }

    fn mapped(&mut self, t: &(impl ToTokens + Spanned)) -> bool {
        if self.maps.is_empty() {
            return false;
        }
        let s = tok(t);
        for (a, b) in self.maps {
            if squash(a) == s {
                let (x, y) = self.range(t.span());
                self.replace(x, y, b.clone());
                self.rule(&format!("text: {} => {}", a, b));
                return true;
            }
        }
        false
    }

    fn do_path(&mut self, p: &Path, qself: Option<&QSelf>, whole: proc_macro2::Span) {
        let strip = self.strip_names();
        if let Some(q) = qself {
            let base = tok(&*q.ty);
            let last = p.segments.last().unwrap();
            let name = last.ident.to_string();
            let (a, b) = self.range(whole);
            if name.chars().next().unwrap().is_uppercase() {
                self.replace(a, b, format!("{}_{}", base, name));
            } else {
                self.replace(a, b, format!("{}::{}", base, name));
            }
            self.rule("projections of PC: types of the prelude");
            return;
        }
        let segs: Vec<&PathSegment> = p.segments.iter().collect();
        let mut from = 0;
        if segs.len() >= 2 {
            let first = segs[0].ident.to_string();
            if first == "PC"
                && segs.len() == 2
                && segs[1]
                    .ident
                    .to_string()
                    .chars()
                    .next()
                    .unwrap()
                    .is_uppercase()
            {
                let (a, b) = self.range(p.span());
                self.rule("projections of PC: types of the prelude");
                self.replace(a, b, format!("PC_{}", segs[1].ident));
                return;
            }
            if ROOTS.contains(&first.as_str())
                || first.chars().next().unwrap().is_lowercase()
            {
                from = segs
                    .iter()
                    .position(|s| {
                        s.ident
                            .to_string()
                            .chars()
                            .next()
                            .unwrap()
                            .is_uppercase()
                    })
                    .unwrap_or(segs.len() - 1);
                if from > 0 {
                    let (a, _) = self.range(segs[0].span());
                    let (b, _) = self.range(segs[from].span());
                    self.replace(a, b, String::new());
                    self.rule("module prefixes of paths dropped");
                }
            }
        }
        for s in &segs[from..] {
            match &s.arguments {
                PathArguments::AngleBracketed(ab) => {
                    let keep = KEEP.contains(&s.ident.to_string().as_str());
                    let mut left = vec![];
                    let mut dropped = false;
                    for arg in &ab.args {
                        let t = tok(arg);
                        let head = t
                            .trim_start_matches('<')
                            .split(|c: char| !(c.is_alphanumeric() || c == '_'))
                            .next()
                            .unwrap_or("")
                            .to_string();
                        let strippable = !keep
                            && (strip.contains(&head)
                                || t == "DensePolynomial<F>");
                        if strippable {
                            dropped = true;
                        } else {
                            visit::visit_generic_argument(self, arg);
                            left.push(self.take(arg));
                        }
                    }
                    let (a, b) = self.range(ab.span());
                    let cc = if ab.colon2_token.is_some() { "::" } else { "" };
                    if dropped {
                        self.rule("type arguments F, PC, FS: dropped");
                    }
                    let t = if left.is_empty() {
                        String::new()
                    } else {
                        format!("{}<{}>", cc, left.join(", "))
                    };
                    self.replace(a, b, t);
                }
                PathArguments::Parenthesized(pa) => {
                    for i in &pa.inputs {
                        self.visit_type(i);
                    }
                    if let ReturnType::Type(_, t) = &pa.output {
                        self.visit_type(t);
                    }
                }
                PathArguments::None => {}
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Rw<'a> {
    fn visit_item(&mut self, _: &'ast Item) {
        self.give_up("nested item");
    }
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let (s, e) = self.range(a.span());
        self.replace(s, e, String::new());
    }
    fn visit_type(&mut self, t: &'ast Type) {
        if self.mapped(t) {
            return;
        }
        if let Type::Path(p) = t {
            if p.qself.is_some() {
                return self.do_path(&p.path, p.qself.as_ref(), p.span());
            }
        }
        visit::visit_type(self, t);
    }
    fn visit_path(&mut self, p: &'ast Path) {
        if self.mapped(p) {
            return;
        }
        let span = p.span();
        self.do_path(p, None, span);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        self.do_macro(m);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        let (a, b) = self.range(s.span());
        let semi = match s {
            Stmt::Local(_) => true,
            Stmt::Expr(_, t) => t.is_some(),
            Stmt::Macro(m) => m.semi_token.is_some(),
            _ => false,
        };
        self.unit_macro = matches!(s, Stmt::Macro(_)) && semi;
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) {
                let name = i.ident.to_string();
                if LAZY.with(|s| s.borrow().contains(&name))
                    && lazy_chain(&x.expr)
                {
                    let mut cur: &Expr = &x.expr;
                    let mut names = BTreeSet::new();
                    let mut hoisted = String::new();
                    self.hoist = None;
                    while let Expr::MethodCall(m) = cur {
                        if m.method == "map" {
                            if let Some(Expr::Closure(c)) = m.args.first() {
                                struct Ids<'b>(&'b mut BTreeSet<String>);
                                impl<'b, 'ast> Visit<'ast> for Ids<'b> {
                                    fn visit_ident(&mut self, i: &'ast Ident) {
                                        self.0.insert(i.to_string());
                                    }
                                }
                                Ids(&mut names).visit_expr(&c.body);
                                self.visit_expr(&c.body);
                                let lv = leaves(&c.body);
                                if lv.tries || lv.returns {
                                    // the body becomes a closure of its own
                                    let f = format!("__f_{}", name);
                                    let args = self.sec(&format!("hoistargs {}", name));
                                    let spec = self.sec(&format!("hoist {}", name));
                                    match (args, spec, pat_idents(&c.inputs[0])) {
                                        (Some(h), Some(sp), Some(ids)) => {
                                            let body = self.take(&*c.body);
                                            hoisted.push_str(&format!(
                                                "let {} = {}\n{}\n{};\n",
                                                f, h.trim(), sp, body
                                            ));
                                            self.rule("a mapped closure that leaves early: bound to a name, called where its elements are taken");
                                            self.hoist = Some(format!("{}({})", f, ids.join(", ")));
                                        }
                                        _ => self.give_up("a lazy closure leaves early"),
                                    }
                                }
                            }
                        }
                        cur = &m.receiver;
                    }
                    let n = 900 + self.lazy.len();
                    let mut setup = String::new();
                    match self.parse_it(&x.expr, n, &mut setup) {
                        Some(it) => {
                            self.lazy.push((name, it, names, false));
                            self.rule("a lazy iterator bound to a name: its closure runs where its elements are taken");
                            self.hoist = None;
                            self.replace(a, b, format!("{}{}", setup, hoisted));
                        }
                        None => self.give_up("unsupported lazy iterator"),
                    }
                    return;
                }
            }
        }
        self.stmts.push((a, b, semi));
        visit::visit_stmt(self, s);
        self.stmts.pop();
        if let Stmt::Local(l) = s {
            struct Ids(Vec<String>);
            impl<'ast> Visit<'ast> for Ids {
                fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
                    self.0.push(p.ident.to_string());
                }
            }
            let mut ids = Ids(vec![]);
            ids.visit_pat(&l.pat);
            for i in ids.0 {
                self.vals.remove(&i);
                if let (Pat::Ident(_), Some(x)) = (&l.pat, &l.init) {
                    if self.ref_call(&x.expr) {
                        self.refs.insert(i.clone());
                    } else {
                        self.refs.remove(&i);
                    }
                }
                if let (Pat::Ident(_), Some(x)) = (&l.pat, &l.init) {
                    if matches!(&*x.expr, Expr::MethodCall(m) if m.method == "chunks" || m.method == "flat_map") {
                        self.vals.insert(i.clone());
                    }
                }
                self.lazy.retain(|l| l.0 != i);
                for l in self.lazy.iter_mut() {
                    if l.2.contains(&i) {
                        l.3 = true;
                    }
                }
                let c = self.lets.entry(i.clone()).or_insert(0);
                let k = *c;
                *c += 1;
                let keys = if k == 0 {
                    vec![format!("afterlet {}", i), format!("afterlet {} 0", i)]
                } else {
                    vec![format!("afterlet {} {}", i, k)]
                };
                for key in keys {
                    if let Some(t) = self.sec(&key) {
                        self.ins(b, 20, format!("\n{}", t));
                    }
                }
            }
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        if self.mapped(e) {
            return;
        }
        // call anchors
        let cname = match e {
            Expr::MethodCall(m) => Some(m.method.to_string()),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    Some(p.path.segments.last().unwrap().ident.to_string())
                }
                _ => None,
            },
            _ => None,
        };
        if let Some(nm) = cname {
            let c = self.calls.entry(nm.clone()).or_insert(0);
            let k = *c;
            *c += 1;
            if let Some((a, b, semi)) = self.stmts.last().cloned() {
                for key in [format!("beforecall {} {}", nm, k)] {
                    if let Some(t) = self.sec(&key) {
                        self.ins(a, 20, format!("{}\n", t));
                    }
                }
                for key in [format!("aftercall {} {}", nm, k)] {
                    if let Some(t) = self.sec(&key) {
                        if semi {
                            self.ins(b, 20, format!("\n{}", t));
                        } else {
                            self.give_up("aftercall on a tail expression");
                        }
                    }
                }
            }
        }
        match e {
            Expr::ForLoop(x) => self.do_for(x),
            Expr::While(x) => {
                let n = self.loop_no(x.while_token.span.start());
                let (inv, before, lstart, lend, after) = self.loop_secs(n);
                self.visit_expr(&x.cond);
                self.visit_block(&x.body);
                let (a, b) = self.range(x.span());
                let (ba, bo) = self.range(x.body.brace_token.span.open());
                let (bc, _) = self.range(x.body.brace_token.span.close());
                self.ins(a, 10, before);
                self.ins(ba, 10, format!("\n{}", inv));
                self.ins(bo, 10, format!("\n{}", lstart));
                self.ins(bc, 10, lend);
                self.ins(b, 10, after);
            }
            Expr::Cast(c)
                if matches!(&*c.ty, Type::Reference(r) if matches!(&*r.elem, Type::TraitObject(_))) =>
            {
                self.visit_expr(&c.expr);
                self.visit_type(&c.ty);
                let (x, t) = (self.take(&*c.expr), self.take(&*c.ty));
                let (a, b) = self.range(c.span());
                self.rule("x as &dyn T: vid::<&dyn T>(x), the identity");
                self.replace(a, b, format!("vid::<{}>({})", t, x));
            }
            Expr::Try(t) => {
                if let Some(tm) = terminal(&t.expr) {
                    // (chain collecting a Result)?
                    self.do_terminal(&t.expr, &tm, true);
                    let (a, b) = self.range(t.question_token.span());
                    self.replace(a, b, String::new());
                } else {
                    visit::visit_expr(self, e);
                }
            }
            Expr::Closure(c) => {
                let o = self.off(c.or1_token.span.start());
                let k = self.closures.iter().position(|x| *x == o);
                for p in &c.inputs {
                    self.visit_pat(p);
                }
                self.visit_expr(&c.body);
                if let Some(k) = k {
                    if let Some(t) = self.sec(&format!("closureargs {}", k)) {
                        let (_, a) = self.range(c.or1_token.span());
                        let (b, _) = self.range(c.or2_token.span());
                        self.replace(a, b, t.trim().to_string());
                    }
                    if let Some(t) = self.sec(&format!("closure {}", k)) {
                        let body = self.take(&*c.body);
                        let (_, a) = self.range(c.or2_token.span());
                        let (_, b) = self.range(c.body.span());
                        let bt = if matches!(&*c.body, Expr::Block(_)) {
                            body
                        } else {
                            format!("{{ {} }}", body)
                        };
                        self.replace(a, b, format!(" {}\n{}", t.trim(), bt));
                        self.rule("closures: contracts added");
                    }
                    if let Some(t) = self.sec(&format!("closurename {}", k)) {
                        if let Some((st, _, _)) = self.stmts.last().cloned() {
                            let body = self.take(c);
                            let (a, b) = self.range(c.span());
                            let nm = t.trim().to_string();
                            self.replace(a, b, nm.clone());
                            self.ins(st, 20, format!("let {} = {};\n", nm, body));
                            self.rule("a closure passed to a call: bound to a name in front of the statement");
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if p.qself.is_some() {
                    return self.do_path(&p.path, p.qself.as_ref(), p.span());
                }
                if let Some(id) = p.path.get_ident() {
                    let id = id.to_string();
                    if let Some((_, pl)) =
                        self.alias.iter().rev().find(|(a, _)| *a == id).cloned()
                    {
                        let (a, b) = self.range(p.span());
                        self.replace(a, b, pl);
                        return;
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Expr::Path(p) = &*u.expr {
                    if let Some(id) = p.path.get_ident() {
                        let id = id.to_string();
                        if let Some((_, pl)) = self
                            .alias
                            .iter()
                            .rev()
                            .find(|(a, _)| *a == id)
                            .cloned()
                        {
                            let (a, b) = self.range(u.span());
                            self.replace(a, b, pl);
                            return;
                        }
                    }
                }
                visit::visit_expr(self, e);
            }
            Expr::Binary(b)
                if matches!(
                    b.op,
                    BinOp::AddAssign(_)
                        | BinOp::SubAssign(_)
                        | BinOp::MulAssign(_)
                        | BinOp::DivAssign(_)
                ) =>
            {
                self.visit_expr(&b.left);
                self.visit_expr(&b.right);
                let l = self.take(&*b.left);
                let r = self.take(&*b.right);
                let op = match b.op {
                    BinOp::AddAssign(_) => "+",
                    BinOp::SubAssign(_) => "-",
                    BinOp::MulAssign(_) => "*",
                    _ => "/",
                };
                let (a, z) = self.range(b.span());
                let call = self.opts.get("opassign").cloned();
                let t = match call {
                    Some(f) if f == "method" => {
                        let m = match b.op {
                            BinOp::AddAssign(_) => "add_assign",
                            BinOp::SubAssign(_) => "sub_assign",
                            BinOp::MulAssign(_) => "mul_assign",
                            _ => "div_assign",
                        };
                        format!("{}.{}({})", l, m, r)
                    }
                    _ => format!("{} = {} {} ({})", l, l, op, r),
                };
                self.rule("a op= b: a = a op (b)");
                self.replace(a, z, t);
            }
            Expr::Binary(b)
                if (matches!(&*b.left, Expr::Reference(r) if r.mutability.is_none())
                    || matches!(&*b.left, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())))
                    || self.ref_call(&b.left))
                    && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) =>
            {
                self.visit_expr(&b.left);
                self.visit_expr(&b.right);
                let inner = match &*b.left {
                    Expr::Reference(r) => &*r.expr,
                    e => e,
                };
                let l = self.take(inner);
                let r = self.take(&*b.right);
                let op = match b.op {
                    BinOp::Add(_) => "add",
                    BinOp::Sub(_) => "sub",
                    BinOp::Mul(_) => "mul",
                    _ => "div",
                };
                let k = if matches!(&*b.right, Expr::Reference(_)) { "ref" } else { "val" };
                let (a, z) = self.range(b.span());
                self.rule("&a op b: a.op_val(b) or, for &b, a.op_ref(&b)");
                self.replace(a, z, format!("({}).{}_{}({})", l, op, k, r));
            }
            Expr::Index(x)
                if matches!(&*x.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()) =>
            {
                self.visit_expr(&x.expr);
                let t = self.take(&*x.expr);
                let (a, b) = self.range(x.span());
                self.rule("x[..]: x");
                self.replace(a, b, t);
            }
            Expr::Range(x)
                if self.opts.contains_key("lazy")
                    && x.start.is_some()
                    && x.end.is_some() =>
            {
                let (l, h) = (x.start.as_ref().unwrap(), x.end.as_ref().unwrap());
                self.visit_expr(l);
                self.visit_expr(h);
                let (lt, ht) = (self.take(&**l), self.take(&**h));
                let f = if matches!(x.limits, RangeLimits::Closed(_)) {
                    "vrange_incl"
                } else {
                    "vrange"
                };
                let (a, b) = self.range(e.span());
                self.rule("ranges used as lazy iterators: their elements");
                self.replace(a, b, format!("{}({}, {})", f, lt, ht));
            }
            Expr::MethodCall(_) if self.opts.contains_key("lazy") => {
                visit::visit_expr(self, e)
            }
            Expr::MethodCall(_) => {
                let chunked = match e {
                    Expr::MethodCall(m) if m.method == "chunks" && m.args.len() == 1 => Some(m),
                    _ => None,
                };
                let chunked = match e {
                    Expr::MethodCall(c) if c.method == "collect" => match &*c.receiver {
                        Expr::MethodCall(m) if m.method == "chunks" && m.args.len() == 1 => Some(m),
                        _ => None,
                    },
                    _ => chunked,
                };
                let extended = match e {
                    Expr::MethodCall(m)
                        if m.method == "extend"
                            && m.args.len() == 1
                            && self.opts.get("extend").map(|s| s == "vec").unwrap_or(false) =>
                    {
                        Some(m)
                    }
                    _ => None,
                };
                if let Some(m) = extended {
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&m.args[0]);
                    let (p, k) = (self.take(&*m.receiver), self.take(&m.args[0]));
                    let (a, b) = self.range(e.span());
                    self.rule("v.extend(w) of vectors: the elements of w appended to v");
                    self.replace(a, b, format!("vextend(&mut {}, {})", p, k));
                } else if let Some(m) = chunked {
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&m.args[0]);
                    let (p, k) = (self.take(&*m.receiver), self.take(&m.args[0]));
                    let (a, b) = self.range(e.span());
                    self.rule("x.chunks(k): the vector of its chunks");
                    self.replace(a, b, format!("vchunks(&{}, {})", p, k));
                } else if let Some((f, c, n)) = powers(e) {
                    self.visit_expr(f);
                    self.visit_expr(c);
                    self.visit_expr(n);
                    let (f, c, n) = (self.take(f), self.take(c), self.take(n));
                    let (a, b) = self.range(e.span());
                    self.rule("successors(a, f).take(n).collect(): the vector of its first n elements");
                    self.replace(a, b, format!("vsuccessors({}, {}, {})", f, c, n));
                } else if let Some((x, n)) = repeated(e) {
                    self.visit_expr(x);
                    self.visit_expr(n);
                    let (x, n) = (self.take(x), self.take(n));
                    let (a, b) = self.range(e.span());
                    self.rule("repeat(x).take(n).collect(): the vector of n times x");
                    self.replace(a, b, format!("vec_fill({}, {})", x, n));
                } else if let Some((o, c, ok)) = or_else(e) {
                    self.visit_expr(o);
                    self.visit_expr(&c.body);
                    let (x, y) = (self.take(o), self.take(&*c.body));
                    let (a, b) = self.range(e.span());
                    if ok {
                        self.rule("o.ok_or_else(|| b): match o { Some(v) => Ok(v), None => Err(b) }");
                        self.replace(a, b, format!("(match {} {{ Some(__v) => Ok(__v), None => Err({}) }})", x, y));
                    } else {
                        self.rule("o.unwrap_or_else(|| b) of an option: match o { Some(v) => v, None => b }");
                        self.replace(a, b, format!("(match {} {{ Some(__v) => __v, None => {} }})", x, y));
                    }
                } else if let Some(t) = terminal(e) {
                    self.do_terminal(e, &t, false);
                } else if let Some((map, k)) = entry_default(e) {
                    self.visit_expr(map);
                    self.visit_expr(k);
                    let (m, k) = (self.take(map), self.take(k));
                    let (a, b) = self.range(e.span());
                    self.rule("m.entry(k).or_default(): m.entry_or_default(k)");
                    self.replace(a, b, format!("{}.entry_or_default({})", m, k));
                } else if let Some((map, k, d)) = entry_or(e) {
                    self.visit_expr(map);
                    self.visit_expr(k);
                    self.visit_expr(d);
                    let (m, k, d) = (self.take(map), self.take(k), self.take(d));
                    let (a, b) = self.range(e.span());
                    self.rule("m.entry(k).or_insert(v): m.entry_or(k, v)");
                    self.replace(a, b, format!("{}.entry_or({}, {})", m, k, d));
                } else {
                    visit::visit_expr(self, e);
                }
            }
            Expr::Call(_) if terminal(e).is_some() => {
                let t = terminal(e).unwrap();
                self.do_terminal(e, &t, false);
                self.rule("BTreeMap::from_iter(it): it.collect()");
            }
            _ => visit::visit_expr(self, e),
        }
    }
}
