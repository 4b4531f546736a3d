//! Iteration over a written-out array (`[a, b, c].iter().any(..)`, a constant table, `buf[6..10]`)
//! becomes the sequence of its steps: what the iterator adapters of the standard library do with
//! an array of known length. Anything not recognised is left as it is.

use quote::ToTokens;
use std::collections::{BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const MAX: usize = 64;

pub fn unroll(b: &mut Block, consts: &HashMap<String, (Expr, String)>) {
    let mut u = Un { consts: HashMap::new(), globals: consts };
    Consts(&mut u.consts).visit_block(b);
    u.visit_block_mut(b);
}

/// Constants declared inside the function.
struct Consts<'a>(&'a mut HashMap<String, Option<Expr>>);
impl<'ast> Visit<'ast> for Consts<'_> {
    fn visit_item_const(&mut self, k: &'ast ItemConst) {
        let n = k.ident.to_string();
        let e = if self.0.contains_key(&n) { None } else { Some((*k.expr).clone()) };
        self.0.insert(n, e);
    }
}

struct Un<'a> {
    consts: HashMap<String, Option<Expr>>,
    globals: &'a HashMap<String, (Expr, String)>,
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Reference(r) if r.mutability.is_none() => peel(&r.expr),
        _ => e,
    }
}

fn bare(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        Expr::Group(p) => bare(&p.expr),
        _ => e,
    }
}

/// Expressions that may be evaluated any number of times, at any time while nothing is assigned.
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => simple(&p.expr),
        Expr::Group(p) => simple(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && simple(&r.expr),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Tuple(t) => t.elems.iter().all(simple),
        Expr::Array(t) => t.elems.iter().all(simple),
        Expr::Index(i) => simple(&i.expr) && simple(&i.index),
        Expr::Range(r) => r.start.as_deref().map_or(true, simple) && r.end.as_deref().map_or(true, simple),
        Expr::Cast(c) => simple(&c.expr),
        Expr::Field(f) => simple(&f.base),
        _ => false,
    }
}

/// Only literals and paths to constants or variants: unaffected by assignments.
fn constant(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Path(p) => {
            let l = p.path.segments.last().unwrap().ident.to_string();
            l.chars().next().map_or(false, |c| c.is_uppercase())
        }
        Expr::Paren(p) => constant(&p.expr),
        Expr::Group(p) => constant(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && constant(&r.expr),
        Expr::Unary(u) => constant(&u.expr),
        Expr::Tuple(t) => t.elems.iter().all(constant),
        Expr::Array(t) => t.elems.iter().all(constant),
        Expr::Cast(c) => constant(&c.expr),
        Expr::Index(i) => constant(&i.expr) && constant(&i.index),
        Expr::Range(r) => r.start.as_deref().map_or(true, constant) && r.end.as_deref().map_or(true, constant),
        _ => false,
    }
}

#[derive(Default)]
struct Names {
    bound: BTreeSet<String>,
    used: BTreeSet<String>,
    ret: bool,
    brk: bool,
    mac: bool,
    tri: bool,
    depth: usize,
}
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.used.insert(i.to_string());
        }
    }
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'ast ExprTry) {
        self.tri = true;
        visit::visit_expr_try(self, r);
    }
    fn visit_expr_break(&mut self, r: &'ast ExprBreak) {
        self.brk |= self.depth == 0 || r.label.is_some();
        visit::visit_expr_break(self, r);
    }
    fn visit_expr_continue(&mut self, r: &'ast ExprContinue) {
        self.brk |= self.depth == 0 || r.label.is_some();
    }
    fn visit_expr_while(&mut self, r: &'ast ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, r);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, r: &'ast ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, r);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, r: &'ast ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, r);
        self.depth -= 1;
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        match macro_args(m) {
            Some(args) => {
                for a in &args {
                    self.visit_expr(a);
                }
            }
            None => self.mac = true,
        }
    }
}
/// The arguments of a formatting macro.
fn macro_args(m: &Macro) -> Option<Vec<Expr>> {
    let n = m.path.segments.last()?.ident.to_string();
    if n != "format_args" && n != "format" {
        return None;
    }
    let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    // names inside the format string stand for variables
    match args.first() {
        Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) => {
            let f = f.value().replace("{{", "");
            f.split('{').skip(1).all(|p| p.chars().next().map_or(false, |c| c == '}' || c == ':' || c.is_ascii_digit())).then(|| args.iter().cloned().collect())
        }
        _ => None,
    }
}
fn names(e: &Expr) -> Names {
    let mut n = Names::default();
    n.visit_expr(e);
    n
}

struct Subst<'a>(&'a HashMap<String, Expr>);
impl Subst<'_> {
    fn elem(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Path(p) = bare(e) {
            return p.path.get_ident().and_then(|i| self.0.get(&i.to_string())).cloned();
        }
        None
    }
}
impl VisitMut for Subst<'_> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Some(mut args) = macro_args(m) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = quote::quote!(#(#args),*);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `*x`, `**x`: the element itself
        let mut inner = bare(e);
        while let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = inner {
            inner = bare(expr);
        }
        if let Some(x) = self.elem(inner) {
            *e = x;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Binds a pattern to an element; false if the pattern can fail or is not understood.
fn bind(p: &Pat, e: &Expr, m: &mut HashMap<String, Expr>) -> bool {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => {
            let n = i.ident.to_string();
            if n.chars().next().map_or(false, |c| c.is_uppercase()) {
                return false;
            }
            let x = match bare(e) {
                Expr::Lit(_) | Expr::Path(_) | Expr::Index(_) | Expr::Reference(_) => bare(e).clone(),
                x => parse_quote!((#x)),
            };
            m.insert(n, x).is_none()
        }
        Pat::Wild(_) => true,
        Pat::Paren(q) => bind(&q.pat, e, m),
        Pat::Reference(q) => bind(&q.pat, e, m),
        Pat::Type(q) => bind(&q.pat, e, m),
        Pat::Tuple(t) => match peel(e) {
            Expr::Tuple(x) if x.elems.len() == t.elems.len() => {
                t.elems.iter().zip(x.elems.iter()).all(|(p, e)| bind(p, e, m))
            }
            _ => false,
        },
        _ => false,
    }
}

/// `body` with the variables of `p` replaced by (the parts of) `e`.
fn apply_pat<T: ToTokens + Clone>(
    p: &Pat,
    e: &Expr,
    body: &T,
    go: impl Fn(&mut Subst, &mut T),
    ns: &Names,
) -> Option<T> {
    let mut m = HashMap::new();
    if !bind(p, e, &mut m) {
        return None;
    }
    let en = names(e);
    if m.keys().any(|k| ns.bound.contains(k)) || en.used.iter().any(|u| ns.bound.contains(u)) || ns.mac && !m.is_empty() {
        return None;
    }
    let mut b = body.clone();
    go(&mut Subst(&m), &mut b);
    Some(b)
}

/// A closure or function path applied to an element.
fn app(f: &Expr, e: &Expr) -> Option<Expr> {
    match bare(f) {
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let ns = names(&c.body);
            if ns.ret || ns.tri {
                return None;
            }
            let b = apply_pat(&c.inputs[0], e, &*c.body, |s, b| s.visit_expr_mut(b), &ns)?;
            Some(match b {
                Expr::Block(ref x) if x.block.stmts.len() == 1 => match &x.block.stmts[0] {
                    Stmt::Expr(y, None) => y.clone(),
                    _ => b,
                },
                b => b,
            })
        }
        Expr::Path(p) => {
            let e = peel(e).clone();
            Some(parse_quote!(#p(#e)))
        }
        _ => None,
    }
}

fn paren(e: Expr) -> Expr {
    match e {
        Expr::Paren(_) | Expr::Lit(_) | Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) => e,
        e => parse_quote!((#e)),
    }
}

fn block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => parse_quote!({ #e }),
    }
}

fn is(m: &ExprMethodCall, n: &str, args: usize) -> bool {
    m.method == n && m.args.len() == args
}

impl Un<'_> {
    fn int(&self, e: &Expr) -> Option<usize> {
        match bare(e) {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
            _ => None,
        }
    }

    fn elems(&self, e: &Expr, depth: usize) -> Option<Vec<Expr>> {
        if depth > 4 {
            return None;
        }
        match peel(e) {
            Expr::Array(a) if a.elems.len() <= MAX && a.elems.iter().all(simple) => {
                Some(a.elems.iter().cloned().collect())
            }
            Expr::Path(p) => {
                let n = p.path.segments.last()?.ident.to_string();
                if !n.chars().next()?.is_uppercase() {
                    return None;
                }
                let k = match self.consts.get(&n) {
                    Some(k) => k.clone()?,
                    None => self.globals.get(&n)?.0.clone(),
                };
                self.elems(&k, depth + 1).filter(|v| v.iter().all(constant))
            }
            // a range of a slice with literal bounds
            Expr::Index(i) if simple(&i.expr) => {
                let Expr::Range(r) = bare(&i.index) else { return None };
                let (a, b) = (self.int(r.start.as_deref()?)?, self.int(r.end.as_deref()?)?);
                let b = if matches!(r.limits, RangeLimits::Closed(_)) { b + 1 } else { b };
                if a > b || b - a > 16 {
                    return None;
                }
                let base = &i.expr;
                Some((a..b).map(|k| {
                    let k = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                    parse_quote!(#base[#k])
                }).collect())
            }
            _ => None,
        }
    }

    /// The elements of an iterator over a known array.
    fn iter(&self, e: &Expr) -> Option<Vec<Expr>> {
        let Expr::MethodCall(m) = bare(e) else { return None };
        if !m.args.is_empty() {
            return None;
        }
        match m.method.to_string().as_str() {
            "iter" | "into_iter" => self.elems(&m.receiver, 0),
            "copied" | "cloned" => self.iter(&m.receiver),
            "rev" => self.iter(&m.receiver).map(|mut v| {
                v.reverse();
                v
            }),
            _ => None,
        }
    }

    /// `xs.find(p)` as (test, element) pairs.
    fn find(&self, e: &Expr) -> Option<Vec<(Expr, Expr)>> {
        let Expr::MethodCall(m) = bare(e) else { return None };
        if !is(m, "find", 1) {
            return None;
        }
        let v = self.iter(&m.receiver)?;
        v.into_iter().map(|x| Some((app(&m.args[0], &x)?, x))).collect()
    }

    fn chain(&self, v: Vec<(Expr, Expr)>, last: Option<Expr>) -> Expr {
        let mut out = last;
        for (c, x) in v.into_iter().rev() {
            let b = block(x);
            out = Some(match out {
                None => parse_quote!(if #c #b),
                Some(o @ Expr::If(_)) => parse_quote!(if #c #b else #o),
                Some(o) => {
                    let o = block(o);
                    parse_quote!(if #c #b else #o)
                }
            });
        }
        out.unwrap_or_else(|| parse_quote!({}))
    }

    fn expr(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => self.method(m),
            // checked access, spelled out
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (g, o) = match (got(&b.left), got(&b.right)) {
                    (Some(g), None) => (g, &b.right),
                    (None, Some(g)) => (g, &b.left),
                    _ => return None,
                };
                let Expr::Call(c) = bare(o) else { return None };
                let Expr::Path(p) = bare(&c.func) else { return None };
                if !p.path.is_ident("Some") || c.args.len() != 1 {
                    return None;
                }
                let (cond, val) = g;
                let t = same(&val, &c.args[0]);
                Some(if matches!(b.op, BinOp::Eq(_)) { parse_quote!((#cond && #t)) } else { parse_quote!((!(#cond && #t))) })
            }
            Expr::Match(m) => {
                let (cond, val) = got(&m.expr)?;
                let (mut arms, mut other): (Vec<Arm>, Option<Expr>) = (vec![], None);
                for a in &m.arms {
                    match &a.pat {
                        Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 && other.is_none() => {
                            let mut a = a.clone();
                            a.pat = t.elems[0].clone();
                            arms.push(a);
                        }
                        Pat::Wild(_) if a.guard.is_none() && other.is_none() => other = Some((*a.body).clone()),
                        Pat::Ident(i) if i.ident == "None" && a.guard.is_none() && other.is_none() => other = Some((*a.body).clone()),
                        _ => return None,
                    }
                }
                let o = other?;
                let b = block(o.clone());
                if let [a] = &arms[..] {
                    if let (Some(t), None) = (pat_test(&a.pat, &val), &a.guard) {
                        let x = block((*a.body).clone());
                        return Some(parse_quote!(if #cond && #t #x else #b));
                    }
                }
                let irref = arms.iter().any(|a| a.guard.is_none() && matches!(&a.pat, Pat::Ident(_) | Pat::Wild(_)));
                Some(if irref {
                    parse_quote!(if #cond { match #val { #(#arms)* } } else #b)
                } else {
                    parse_quote!(if #cond { match #val { #(#arms)* _ => #o } } else #b)
                })
            }
            Expr::If(i) if matches!(bare(&i.cond), Expr::Let(l) if got(&l.expr).is_some()) => {
                let Expr::Let(l) = bare(&i.cond) else { return None };
                let Pat::TupleStruct(ts) = &*l.pat else { return None };
                if !ts.path.is_ident("Some") || ts.elems.len() != 1 {
                    return None;
                }
                let (cond, val) = got(&l.expr)?;
                let then = &i.then_branch.stmts;
                let mut out: ExprIf = match (&ts.elems[0], pat_test(&ts.elems[0], &val)) {
                    (_, Some(t)) => parse_quote!(if #cond && #t { #(#then)* }),
                    (Pat::Ident(p), _) if p.subpat.is_none() => parse_quote!(if #cond { let #p = #val; #(#then)* }),
                    (Pat::Reference(r), _) if matches!(&*r.pat, Pat::Ident(_)) => {
                        let (p, v) = (&r.pat, match &val { Expr::Reference(r) => &*r.expr, v => v });
                        parse_quote!(if #cond { let #p = #v; #(#then)* })
                    }
                    _ => return None,
                };
                out.else_branch = i.else_branch.clone();
                Some(Expr::If(out))
            }
            Expr::If(i) => {
                let Expr::Let(l) = bare(&i.cond) else { return None };
                let Pat::TupleStruct(ts) = &*l.pat else { return None };
                if !ts.path.is_ident("Some") || ts.elems.len() != 1 {
                    return None;
                }
                let v = self.find(&l.expr)?;
                let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                let ns = names(&body);
                let mut out = vec![];
                for (c, x) in v {
                    if !constant(&x) {
                        return None;
                    }
                    out.push((c, apply_pat(&ts.elems[0], &x, &body, |s, b| s.visit_expr_mut(b), &ns)?));
                }
                Some(self.chain(out, i.else_branch.as_ref().map(|x| (*x.1).clone())))
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    return None;
                }
                if let Some(e) = scan(f) {
                    return Some(e);
                }
                let v = match bare(&f.expr) {
                    Expr::MethodCall(_) => self.iter(&f.expr)?,
                    x => match peel(x) {
                        Expr::Index(_) => return None,
                        _ => self.elems(x, 0)?,
                    },
                };
                if v.len() > 16 || !v.iter().all(constant) {
                    return None;
                }
                let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
                let ns = names(&body);
                if ns.brk {
                    return None;
                }
                let mut stmts: Vec<Stmt> = vec![];
                for x in v {
                    let b = apply_pat(&f.pat, &x, &body, |s, b| s.visit_expr_mut(b), &ns)?;
                    stmts.push(Stmt::Expr(b, Some(Default::default())));
                }
                Some(parse_quote!({ #(#stmts)* }))
            }
            _ => None,
        }
    }

    fn method(&self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if let Some((cond, val)) = got(&m.receiver) {
            return match (n.as_str(), m.args.len()) {
                ("is_some", 0) => Some(parse_quote!((#cond))),
                ("is_none", 0) => Some(parse_quote!((!(#cond)))),
                ("is_some_and", 1) => {
                    let t = app(&m.args[0], &val)?;
                    Some(parse_quote!((#cond && (#t))))
                }
                ("map_or", 2) => {
                    let t = app(&m.args[1], &val)?;
                    let d = &m.args[0];
                    Some(parse_quote!((if #cond { #t } else { #d })))
                }
                _ => None,
            };
        }
        match n.as_str() {
            "any" | "all" if m.args.len() == 1 => {
                let v = self.iter(&m.receiver)?;
                let mut out: Option<Expr> = None;
                for x in v {
                    let c = paren(app(&m.args[0], &x)?);
                    out = Some(match out {
                        None => c,
                        Some(o) if n == "any" => parse_quote!(#o || #c),
                        Some(o) => parse_quote!(#o && #c),
                    });
                }
                let o = out.unwrap_or_else(|| if n == "any" { parse_quote!(false) } else { parse_quote!(true) });
                Some(parse_quote!((#o)))
            }
            // membership in a known array
            "contains" if m.args.len() == 1 => {
                let v = self.elems(&m.receiver, 0)?;
                let a: Expr = match bare(&m.args[0]) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    o => parse_quote!(*#o),
                };
                let pure = match bare(&a) {
                    Expr::MethodCall(c) => {
                        c.args.is_empty() && simple(&c.receiver) && ["as_str", "as_ref", "as_slice", "as_bytes", "trim", "len"].contains(&c.method.to_string().as_str())
                    }
                    o => simple(o),
                };
                if !pure {
                    return None;
                }
                let mut out: Expr = parse_quote!(false);
                for (k, x) in v.into_iter().enumerate() {
                    out = if k == 0 { parse_quote!((#a == #x)) } else { parse_quote!(#out || (#a == #x)) };
                }
                Some(parse_quote!((#out)))
            }
            "is_some" | "is_none" if m.args.is_empty() => {
                let v = self.find(&m.receiver)?;
                let mut out: Expr = parse_quote!(false);
                for (k, (c, _)) in v.into_iter().enumerate() {
                    let c = paren(c);
                    out = if k == 0 { c } else { parse_quote!(#out || #c) };
                }
                Some(if n == "is_some" { parse_quote!((#out)) } else { parse_quote!(!(#out)) })
            }
            "map" if m.args.len() == 1 => {
                let v = self.find(&m.receiver)?;
                let mut out = vec![];
                for (c, x) in v {
                    let y = app(&m.args[0], &x)?;
                    out.push((c, parse_quote!(Some(#y))));
                }
                Some(self.chain(out, Some(parse_quote!(None))))
            }
            "map_or" if m.args.len() == 2 && constant(&m.args[0]) => {
                let v = self.find(&m.receiver)?;
                let mut out = vec![];
                for (c, x) in v {
                    out.push((c, app(&m.args[1], &x)?));
                }
                Some(self.chain(out, Some(m.args[0].clone())))
            }
            "unwrap_or" if m.args.len() == 1 && constant(&m.args[0]) => {
                // after `map`: the receiver has become a chain of `if`s
                fn tails(e: &mut Expr, d: &Expr) -> bool {
                    match e {
                        Expr::If(i) => {
                            let [Stmt::Expr(t, None)] = &mut i.then_branch.stmts[..] else { return false };
                            let Expr::Call(c) = t else { return false };
                            if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) {
                                return false;
                            }
                            let x = c.args[0].clone();
                            *t = x;
                            i.else_branch.as_mut().map_or(false, |x| tails(&mut x.1, d))
                        }
                        Expr::Block(b) => {
                            let [Stmt::Expr(t, None)] = &mut b.block.stmts[..] else { return false };
                            if !matches!(&*t, Expr::Path(p) if p.path.is_ident("None")) {
                                return false;
                            }
                            *t = d.clone();
                            true
                        }
                        _ => false,
                    }
                }
                let mut r = bare(&m.receiver).clone();
                if matches!(r, Expr::If(_)) && tails(&mut r, &m.args[0]) {
                    return Some(r);
                }
                None
            }
            "fold" if m.args.len() == 2 => {
                let v = self.iter(&m.receiver)?;
                let Expr::Closure(c) = bare(&m.args[1]) else { return None };
                if c.inputs.len() != 2 {
                    return None;
                }
                let ns = names(&c.body);
                if ns.ret || ns.tri || ns.mac || !ns.bound.is_empty() || v.is_empty() {
                    return None;
                }
                let mut acc = m.args[0].clone();
                for x in v {
                    let b = apply_pat(&c.inputs[1], &x, &*c.body, |s, b| s.visit_expr_mut(b), &ns)?;
                    let mut h = HashMap::new();
                    let Pat::Ident(a) = &c.inputs[0] else { return None };
                    h.insert(a.ident.to_string(), paren(acc));
                    let mut b = b;
                    Subst(&h).visit_expr_mut(&mut b);
                    acc = b;
                }
                Some(paren(acc))
            }
            _ => None,
        }
    }
}

/// `x.get(i)`, `x.get(a..b)`, `x.first()` on a variable: when there is something, and what.
fn got(e: &Expr) -> Option<(Expr, Expr)> {
    let Expr::MethodCall(m) = bare(e) else { return None };
    let x = bare(&m.receiver);
    if !simple(x) || matches!(x, Expr::Lit(_)) {
        return None;
    }
    match (m.method.to_string().as_str(), m.args.len()) {
        ("first", 0) => Some((parse_quote!(0 < #x.len()), parse_quote!(&#x[0]))),
        ("get", 1) if simple(&m.args[0]) => match bare(&m.args[0]) {
            Expr::Range(r) => {
                let closed = matches!(r.limits, RangeLimits::Closed(_));
                let whole = |e: &Expr| matches!(bare(e), Expr::Lit(_));
                let n = |e: &Expr| match bare(e) {
                    Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => n.base10_parse::<u64>().ok(),
                    _ => None,
                };
                let v: Expr = {
                    let r = &m.args[0];
                    parse_quote!(&#x[#r])
                };
                if closed && !r.end.as_deref().map_or(false, whole) {
                    return None;
                }
                let c: Expr = match (r.start.as_deref(), r.end.as_deref()) {
                    (None, Some(b)) if closed => parse_quote!(#b < #x.len()),
                    (None, Some(b)) => parse_quote!(#b <= #x.len()),
                    (Some(a), None) => parse_quote!(#a <= #x.len()),
                    (Some(a), Some(b)) => match (n(a), n(b)) {
                        (Some(i), Some(j)) if i <= j && closed => parse_quote!(#b < #x.len()),
                        (Some(i), Some(j)) if i <= j => parse_quote!(#b <= #x.len()),
                        _ if closed => return None,
                        _ => parse_quote!((#a <= #b && #b <= #x.len())),
                    },
                    (None, None) => parse_quote!(true),
                };
                Some((c, v))
            }
            i => Some((parse_quote!(#i < #x.len()), parse_quote!(&#x[#i]))),
        },
        _ => None,
    }
}

/// `for x in s.chars() { if test(x) { return e; } }`: `if s.chars().any(test) { return e; }`.
fn scan(f: &ExprForLoop) -> Option<Expr> {
    let Expr::MethodCall(m) = bare(&f.expr) else { return None };
    if !m.args.is_empty() || !["chars", "bytes", "iter"].contains(&m.method.to_string().as_str()) {
        return None;
    }
    let [Stmt::Expr(Expr::If(i), _)] = &f.body.stmts[..] else { return None };
    let [Stmt::Expr(Expr::Return(r), _)] = &i.then_branch.stmts[..] else { return None };
    if i.else_branch.is_some() || matches!(bare(&i.cond), Expr::Let(_)) {
        return None;
    }
    let (c, e) = (names(&i.cond), names(&Expr::Return(r.clone())));
    let mut p = Names::default();
    p.visit_pat(&f.pat);
    if c.tri || c.ret || c.mac || e.mac || p.bound.iter().any(|b| e.used.contains(b)) {
        return None;
    }
    let (it, pat, cond) = (&f.expr, &f.pat, &i.cond);
    Some(parse_quote!(if #it.any(|#pat| #cond) { #r; }))
}

/// Equality of two references.
fn same(a: &Expr, b: &Expr) -> Expr {
    let elem = |e: &Expr| match bare(e) {
        Expr::Reference(r) => Some((*r.expr).clone()),
        _ => None,
    };
    let ranged = |e: &Expr| matches!(e, Expr::Index(i) if matches!(bare(&i.index), Expr::Range(_)));
    match (elem(a), elem(b)) {
        (Some(x), Some(y)) if !ranged(&x) => parse_quote!((#x == #y)),
        (Some(x), None) if !ranged(&x) => parse_quote!((#x == *#b)),
        _ => parse_quote!((#a == #b)),
    }
}

/// The test that a literal pattern stands for.
fn pat_test(p: &Pat, v: &Expr) -> Option<Expr> {
    match p {
        Pat::Lit(l) => Some(same(v, &Expr::Lit(l.clone()))).map(|e| match (&l.lit, v) {
            (Lit::ByteStr(_), _) | (Lit::Str(_), _) => e,
            (_, Expr::Reference(r)) => {
                let x = &r.expr;
                parse_quote!((#x == #l))
            }
            _ => e,
        }),
        Pat::Reference(r) => match (&*r.pat, v) {
            (Pat::Lit(l), Expr::Reference(v)) => {
                let x = &v.expr;
                Some(parse_quote!((#x == #l)))
            }
            _ => None,
        },
        Pat::Or(o) => {
            let mut out: Option<Expr> = None;
            for c in &o.cases {
                let t = pat_test(c, v)?;
                out = Some(match out {
                    None => t,
                    Some(a) => parse_quote!(#a || #t),
                });
            }
            out.map(|o| parse_quote!((#o)))
        }
        Pat::Paren(q) => pat_test(&q.pat, v),
        _ => None,
    }
}

/// Functions declared inside functions become functions of their own.
pub fn hoist(f: &mut Block) -> Vec<ItemFn> {
    struct H(Vec<ItemFn>);
    impl VisitMut for H {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            b.stmts.retain(|s| match s {
                Stmt::Item(Item::Fn(f)) => {
                    self.0.push(f.clone());
                    false
                }
                _ => true,
            });
        }
    }
    let mut h = H(vec![]);
    h.visit_block_mut(f);
    h.0
}

impl VisitMut for Un<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            match inline_closure(&b.stmts[i..]) {
                Some(rest) => {
                    b.stmts.truncate(i);
                    b.stmts.extend(rest);
                }
                None => i += 1,
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.expr(e) {
            *e = x;
        }
        if let Some(x) = guarded(e) {
            *e = x;
        }
        converted(e);
    }
}

/// `x.into()` where the type it is converted to is that of the parameter (a type other than the
/// one written here does not typecheck later on).
fn converted(e: &mut Expr) {
    let (arg, ty) = match e {
        Expr::Call(c) if c.args.len() == 1 => {
            let Expr::Path(p) = &*c.func else { return };
            let v: Vec<String> = p.path.segments.iter().rev().take(2).map(|s| s.ident.to_string()).collect();
            let ty: Ident = match v.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
                ["Start", "SeekFrom"] => parse_quote!(u64),
                ["Current" | "End", "SeekFrom"] => parse_quote!(i64),
                _ => return,
            };
            (&mut c.args[0], ty)
        }
        Expr::MethodCall(m) if m.args.len() == 1 && (m.method == "read_bytes" || m.method == "read_string") => {
            (&mut m.args[0], parse_quote!(usize))
        }
        _ => return,
    };
    if let Expr::MethodCall(m) = bare(arg) {
        if m.method == "into" && m.args.is_empty() {
            let r = &m.receiver;
            *arg = parse_quote!(#ty::from(#r));
        }
    }
}

/// `loop { if A { break; } if B { break; } .. }` is `while !A && !B { .. }`: the conditions are
/// evaluated at the same moments, in the same order, and a `?` or a `return` in one leaves alike.
fn guarded(e: &Expr) -> Option<Expr> {
    let Expr::Loop(l) = e else { return None };
    if l.label.is_some() {
        return None;
    }
    let mut conds = vec![];
    for s in &l.body.stmts {
        let Stmt::Expr(Expr::If(i), _) = s else { break };
        if i.else_branch.is_some() || has_let(&i.cond) {
            break;
        }
        let [Stmt::Expr(Expr::Break(b), _)] = &i.then_branch.stmts[..] else { break };
        if b.label.is_some() || b.expr.is_some() {
            break;
        }
        conds.push(negated(&i.cond));
    }
    if conds.is_empty() {
        return None;
    }
    let rest = &l.body.stmts[conds.len()..];
    parse2(quote::quote!(while #(#conds)&&* { #(#rest)* })).ok()
}

fn has_let(e: &Expr) -> bool {
    match bare(e) {
        Expr::Let(_) => true,
        Expr::Binary(b) => has_let(&b.left) || has_let(&b.right),
        _ => false,
    }
}

/// The opposite of a condition (the comparisons are of integers: nothing is unordered).
fn negated(e: &Expr) -> Expr {
    if let Expr::Binary(b) = bare(e) {
        let (l, r) = (&b.left, &b.right);
        match b.op {
            BinOp::Ge(_) => return parse_quote!((#l < #r)),
            BinOp::Gt(_) => return parse_quote!((#l <= #r)),
            BinOp::Le(_) => return parse_quote!((#l > #r)),
            BinOp::Lt(_) => return parse_quote!((#l >= #r)),
            BinOp::Eq(_) => return parse_quote!((#l != #r)),
            BinOp::Ne(_) => return parse_quote!((#l == #r)),
            _ => {}
        }
    }
    if let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = bare(e) {
        return parse_quote!((#expr));
    }
    let e = bare(e);
    parse_quote!(!(#e))
}

/// `let f = |x| body; ..f(a)..`: the calls become the body. What the closure captures it captures
/// by reference (no `move`), so that it means at the calls what it meant at the definition; none of it
/// is shadowed in between, and nothing is done with `f` but calling it.
fn inline_closure(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let Stmt::Local(l) = stmts.first()? else { return None };
    let Pat::Ident(f) = &l.pat else { return None };
    let init = l.init.as_ref()?;
    let Expr::Closure(c) = bare(&init.expr) else { return None };
    if c.capture.is_some() || c.asyncness.is_some() || init.diverge.is_some() {
        return None;
    }
    let body = names(&c.body);
    if body.ret || body.tri || body.brk || body.mac {
        return None;
    }
    let name = f.ident.to_string();
    let rest = Block { brace_token: Default::default(), stmts: stmts[1..].to_vec() };
    let mut there = Names::default();
    there.visit_block(&rest);
    if there.mac || there.bound.contains(&name) || body.used.iter().any(|u| there.bound.contains(u)) {
        return None;
    }
    struct Calls<'a> {
        name: &'a str,
        closure: &'a ExprClosure,
        body: &'a Names,
        ok: bool,
    }
    impl VisitMut for Calls<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(k) = e {
                if matches!(bare(&k.func), Expr::Path(p) if p.path.is_ident(self.name)) {
                    for a in k.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    match self.inlined(k) {
                        Some(x) => *e = x,
                        None => self.ok = false,
                    }
                    return;
                }
            }
            if matches!(e, Expr::Path(p) if p.path.is_ident(self.name)) {
                self.ok = false;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    impl Calls<'_> {
        fn inlined(&self, k: &ExprCall) -> Option<Expr> {
            if k.args.len() != self.closure.inputs.len() {
                return None;
            }
            let mut m = HashMap::new();
            for (p, a) in self.closure.inputs.iter().zip(&k.args) {
                let plain = match peel(a) {
                    Expr::Path(_) => true,
                    Expr::Lit(x) => !matches!(x.lit, Lit::Int(_) | Lit::Float(_)),
                    _ => false,
                };
                let an = names(a);
                if !plain || an.used.iter().any(|u| self.body.bound.contains(u)) || !bind(p, a, &mut m) {
                    return None;
                }
            }
            if m.keys().any(|x| self.body.bound.contains(x)) {
                return None;
            }
            let mut b = (*self.closure.body).clone();
            Subst(&m).visit_expr_mut(&mut b);
            Some(match b {
                Expr::Block(ref x) if x.block.stmts.len() == 1 => match &x.block.stmts[0] {
                    Stmt::Expr(y, None) => parse_quote!((#y)),
                    _ => b,
                },
                b => parse_quote!((#b)),
            })
        }
    }
    let mut rest = rest;
    let mut k = Calls { name: &name, closure: c, body: &body, ok: true };
    k.visit_block_mut(&mut rest);
    k.ok.then_some(rest.stmts)
}
