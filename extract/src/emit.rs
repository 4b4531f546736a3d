//! Emission of one function in the Verus dialect.

use crate::{bounds_kind, ty_str, Crate, Fun, FunKind, TraitKind};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use syn::punctuated::Punctuated;
use syn::*;

#[derive(Default)]
pub struct Lits {
    pub bytes: BTreeSet<Vec<u8>>,
    pub strs: BTreeSet<String>,
}

pub fn lit_name(prefix: &str, b: &[u8]) -> String {
    let hex: String = b.iter().take(20).map(|x| format!("{x:02x}")).collect();
    if b.len() <= 20 {
        format!("{prefix}{}_{hex}", b.len())
    } else {
        let mut h: u64 = 0xcbf29ce484222325;
        for x in b {
            h ^= *x as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        format!("{prefix}{}_h{h:016x}", b.len())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum VK {
    /// `&mut Stream`
    Stream,
    /// owned `Stream`
    Owned,
    /// parameter of type `B: AsRef<[u8]>`, emitted as `&[u8]`
    AsRefBytes,
    Other,
}

#[derive(Clone, Debug)]
struct Var {
    orig: String,
    name: String,
    kind: VK,
    mutable: bool,
    hint: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum OR {
    Opt,
    Res,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Use {
    Plain,
    Try,
    Tail,
}

struct Em<'a> {
    c: &'a Crate,
    known: &'a BTreeSet<String>,
    lits: &'a mut Lits,
    scopes: Vec<HashMap<String, Var>>,
    consts: Vec<HashMap<String, (Expr, String)>>,
    taken: HashMap<String, usize>,
    all_vars: Vec<Var>,
    loops: Vec<Value>,
    loop_stack: Vec<usize>,
    /// inside a `try_for_each` closure: the result variable and the loop depth
    try_target: Option<(String, usize)>,
    unsupported: Vec<String>,
    notes: BTreeSet<String>,
    calls: BTreeSet<String>,
    tmp: usize,
    gen: HashMap<String, TraitKind>,
    inline_stack: Vec<String>,
    body_tail: bool,
}

const KW: &[&str] = &[
    "ghost", "tracked", "proof", "exec", "spec", "invariant", "ensures", "requires", "decreases",
    "by", "via", "when", "forall", "exists", "choose", "implies", "is", "has", "old", "final",
    "assert", "assume", "recommends", "returns", "opens_invariants", "no_unwind", "broadcast",
    "group", "open", "closed", "int", "nat", "matches", "global", "layout", "size_of", "any",
    "result__",
];

const INTS: &[&str] = &[
    "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128",
];

/// Bit operations go through functions whose contracts say what they mean arithmetically.
fn bit_fn(op: &str) -> Option<&'static str> {
    Some(match op {
        "&" => "and_",
        "|" => "or_",
        "^" => "xor_",
        "<<" => "shl_",
        ">>" => "shr_",
        _ => return None,
    })
}

fn int_max(t: &str) -> Option<i128> {
    Some(match t {
        "u8" => u8::MAX as i128,
        "u16" => u16::MAX as i128,
        "u32" => u32::MAX as i128,
        "u64" | "usize" => u64::MAX as i128,
        "i8" => i8::MAX as i128,
        "i16" => i16::MAX as i128,
        "i32" => i32::MAX as i128,
        "i64" | "isize" => i64::MAX as i128,
        _ => return None,
    })
}

fn int_min(t: &str) -> Option<i128> {
    Some(match t {
        "u8" | "u16" | "u32" | "u64" | "usize" => 0,
        "i8" => i8::MIN as i128,
        "i16" => i16::MIN as i128,
        "i32" => i32::MIN as i128,
        "i64" | "isize" => i64::MIN as i128,
        _ => return None,
    })
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn path_last(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

fn path_full(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn owner_name(f: &Fun) -> String {
    f.owner.clone()
}

pub fn emit_fun(c: &Crate, f: &Fun, known: &BTreeSet<String>, lits: &mut Lits) -> Value {
    let mut em = Em {
        c,
        known,
        lits,
        scopes: vec![HashMap::new()],
        consts: vec![],
        taken: HashMap::new(),
        all_vars: vec![],
        loops: vec![],
        loop_stack: vec![],
        try_target: None,
        unsupported: vec![],
        notes: BTreeSet::new(),
        calls: BTreeSet::new(),
        tmp: 0,
        gen: HashMap::new(),
        inline_stack: vec![f.name.clone()],
        body_tail: true,
    };
    em.generics(&f.sig);
    let mut params: Vec<Value> = vec![];
    for a in f.sig.inputs.iter() {
        match a {
            FnArg::Receiver(_) => {
                let (name, ty, kind) = match f.kind {
                    FunKind::StreamMethod => ("self", "&mut self", VK::Stream),
                    FunKind::BytesMethod => ("self_", "&[u8]", VK::AsRefBytes),
                    _ => ("self_", "FileFormat", VK::Other),
                };
                em.bind_as("self", name, kind, false, ty);
                params.push(json!([name, ty]));
            }
            FnArg::Typed(t) => {
                let (ty, kind) = em.ty(&t.ty);
                let (nm, mt) = match &*t.pat {
                    Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                    _ => {
                        em.unsup("parameter pattern");
                        ("p".to_string(), false)
                    }
                };
                let name = em.bind(&nm, kind, mt, &ty);
                let m = if mt && kind != VK::Stream { "mut " } else { "" };
                params.push(json!([format!("{m}{name}"), ty]));
            }
        }
    }
    let ret = match &f.sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => em.ty(t).0,
    };
    let mut stmts: Vec<String> = vec![];
    em.push();
    em.collect_consts(&f.block.stmts);
    let n = f.block.stmts.len();
    for (i, s) in f.block.stmts.iter().enumerate() {
        let t = em.stmt(s, i + 1 == n, Use::Tail);
        if !t.is_empty() {
            stmts.push(t);
        }
    }
    em.pop();
    json!({
        "name": f.name,
        "owner": owner_name(f),
        "kind": format!("{:?}", f.kind),
        "params": params,
        "ret": ret,
        "stmts": stmts,
        "loops": em.loops,
        "calls": em.calls.iter().cloned().collect::<Vec<_>>(),
        "unsupported": em.unsupported,
        "notes": em.notes.iter().cloned().collect::<Vec<_>>(),
        "vars": em.all_vars.iter().map(|v| json!([v.orig, v.name, format!("{:?}", v.kind), v.mutable, v.hint])).collect::<Vec<_>>(),
    })
}

impl<'a> Em<'a> {
    fn unsup(&mut self, s: &str) -> String {
        self.unsupported.push(s.to_string());
        "unsupported__()".to_string()
    }

    fn note(&mut self, s: &str) {
        self.notes.insert(s.to_string());
    }

    fn generics(&mut self, sig: &Signature) {
        for p in sig.generics.params.iter() {
            if let GenericParam::Type(t) = p {
                let k = bounds_kind(&t.bounds.to_token_stream().to_string());
                self.gen.insert(t.ident.to_string(), k);
            }
        }
        if let Some(w) = &sig.generics.where_clause {
            for p in w.predicates.iter() {
                if let WherePredicate::Type(t) = p {
                    let k = bounds_kind(&t.bounds.to_token_stream().to_string());
                    self.gen.insert(ty_str(&t.bounded_ty), k);
                }
            }
        }
    }

    /// Maps a type to the dialect.
    fn ty(&mut self, t: &Type) -> (String, VK) {
        let s = ty_str(t);
        match t {
            Type::Path(p) => {
                let last = path_last(&p.path);
                if let Some(k) = self.gen.get(&s) {
                    return match k {
                        TraitKind::Stream => ("&mut Stream".into(), VK::Stream),
                        TraitKind::Bytes => ("&[u8]".into(), VK::AsRefBytes),
                        TraitKind::Str => ("&str".into(), VK::Other),
                        TraitKind::Other => ("PathArg".into(), VK::Other),
                    };
                }
                match last.as_str() {
                    "BufReader" | "Cursor" | "File" => return ("Stream".into(), VK::Owned),
                    "Self" | "FileFormat" => return ("FileFormat".into(), VK::Other),
                    "Formatter" => return ("Formatter".into(), VK::Other),
                    "Result" if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "fmt" => {
                        return ("core::result::Result<(), FmtError>".into(), VK::Other)
                    }
                    "Vec" | "Option" | "Result" | "Box" => {
                        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                            let inner: Vec<String> = a
                                .args
                                .iter()
                                .map(|a| match a {
                                    GenericArgument::Type(t) => self.ty(t).0,
                                    o => o.to_token_stream().to_string(),
                                })
                                .collect();
                            if last == "Result" && inner.len() == 2 {
                                return (format!("core::result::Result<{}>", inner.join(", ")), VK::Other);
                            }
                            return (format!("{last}<{}>", inner.join(", ")), VK::Other);
                        }
                        return (s, VK::Other);
                    }
                    _ => {}
                }
                if INTS.contains(&last.as_str())
                    || matches!(last.as_str(), "bool" | "char" | "String" | "str" | "Error" | "ErrorKind" | "Kind" | "SeekFrom")
                {
                    return (last, VK::Other);
                }
                self.unsup(&format!("type {s}"));
                (s, VK::Other)
            }
            Type::Reference(r) => {
                let (i, k) = self.ty(&r.elem);
                match k {
                    VK::Stream => (i, VK::Stream),
                    VK::Owned => ("&mut Stream".into(), VK::Stream),
                    VK::AsRefBytes => (i, k),
                    VK::Other => {
                        if r.mutability.is_some() {
                            (format!("&mut {i}"), VK::Other)
                        } else {
                            (format!("&{i}"), VK::Other)
                        }
                    }
                }
            }
            Type::ImplTrait(i) => match bounds_kind(&i.bounds.to_token_stream().to_string()) {
                TraitKind::Stream => ("&mut Stream".into(), VK::Stream),
                TraitKind::Bytes => ("&[u8]".into(), VK::AsRefBytes),
                TraitKind::Str => ("&str".into(), VK::Other),
                _ => ("PathArg".into(), VK::Other),
            },
            Type::TraitObject(i) => match bounds_kind(&i.bounds.to_token_stream().to_string()) {
                TraitKind::Stream => ("&mut Stream".into(), VK::Stream),
                _ => {
                    self.unsup(&format!("type {s}"));
                    (s, VK::Other)
                }
            },
            Type::Slice(x) => (format!("[{}]", self.ty(&x.elem).0), VK::Other),
            Type::Array(x) => {
                let e = self.ty(&x.elem).0;
                let n = match self.eval(&x.len) {
                    Some(v) => v.to_string(),
                    None => self.unsup("array length"),
                };
                (format!("[{e}; {n}]"), VK::Other)
            }
            Type::Tuple(x) => {
                let v: Vec<String> = x.elems.iter().map(|t| self.ty(t).0).collect();
                if v.len() == 1 {
                    (format!("({},)", v[0]), VK::Other)
                } else {
                    (format!("({})", v.join(", ")), VK::Other)
                }
            }
            Type::Paren(x) => self.ty(&x.elem),
            Type::Group(x) => self.ty(&x.elem),
            Type::Infer(_) => ("_".into(), VK::Other),
            _ => {
                self.unsup(&format!("type {s}"));
                (s, VK::Other)
            }
        }
    }

    // ----- scopes -----

    fn push(&mut self) {
        self.scopes.push(HashMap::new());
        self.consts.push(HashMap::new());
    }

    fn pop(&mut self) {
        self.scopes.pop();
        self.consts.pop();
    }

    fn fresh(&mut self, base: &str) -> String {
        let base = if KW.contains(&base) { format!("{base}_k") } else { base.to_string() };
        let n = self.taken.entry(base.clone()).or_insert(0);
        *n += 1;
        if *n == 1 {
            base
        } else {
            let mut k = *n;
            loop {
                let cand = format!("{base}_{k}");
                if !self.taken.contains_key(&cand) {
                    self.taken.insert(cand.clone(), 1);
                    return cand;
                }
                k += 1;
            }
        }
    }

    fn bind(&mut self, orig: &str, kind: VK, mutable: bool, hint: &str) -> String {
        let name = self.fresh(orig);
        self.bind_as(orig, &name, kind, mutable, hint);
        name
    }

    fn bind_as(&mut self, orig: &str, name: &str, kind: VK, mutable: bool, hint: &str) {
        let v = Var {
            orig: orig.to_string(),
            name: name.to_string(),
            kind,
            mutable,
            hint: hint.to_string(),
        };
        self.taken.entry(name.to_string()).or_insert(1);
        self.all_vars.push(v.clone());
        self.scopes.last_mut().unwrap().insert(orig.to_string(), v);
    }

    fn look(&self, n: &str) -> Option<Var> {
        self.scopes.iter().rev().find_map(|s| s.get(n)).cloned()
    }

    fn konst(&self, n: &str) -> Option<(Expr, String)> {
        self.consts
            .iter()
            .rev()
            .find_map(|s| s.get(n))
            .cloned()
            .or_else(|| self.c.consts.get(n).cloned())
    }

    fn tmpn(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }

    fn collect_consts(&mut self, stmts: &[Stmt]) {
        for s in stmts {
            match s {
                Stmt::Item(Item::Const(k)) => {
                    self.consts
                        .last_mut()
                        .unwrap()
                        .insert(k.ident.to_string(), ((*k.expr).clone(), ty_str(&k.ty)));
                }
                Stmt::Item(Item::Static(k)) => {
                    self.consts
                        .last_mut()
                        .unwrap()
                        .insert(k.ident.to_string(), ((*k.expr).clone(), ty_str(&k.ty)));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(_) => {
                    self.unsup("nested item");
                }
                _ => {}
            }
        }
    }

    // ----- constants -----

    fn path_const(&self, p: &ExprPath) -> Option<(Expr, String)> {
        if p.qself.is_some() {
            return None;
        }
        let n = path_last(&p.path);
        if p.path.segments.len() == 1 {
            if self.look(&n).is_some() {
                return None;
            }
            return self.konst(&n);
        }
        if p.path.segments.len() >= 2 {
            let first = p.path.segments[p.path.segments.len() - 2].ident.to_string();
            if INTS.contains(&first.as_str()) || n.chars().any(|c| c.is_lowercase()) {
                return None;
            }
            return self.konst(&n);
        }
        None
    }

    fn eval(&self, e: &Expr) -> Option<i128> {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<i128>().ok(),
            Expr::Lit(ExprLit { lit: Lit::Byte(i), .. }) => Some(i.value() as i128),
            Expr::Path(p) => {
                if let Some((k, _)) = self.path_const(p) {
                    return self.eval(&k);
                }
                if p.path.segments.len() >= 2 {
                    let n = path_last(&p.path);
                    let first = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    return match n.as_str() {
                        "MAX" => int_max(&first),
                        "MIN" => int_min(&first),
                        _ => None,
                    };
                }
                None
            }
            Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => self.eval(expr).map(|v| -v),
            Expr::Binary(b) => {
                let l = self.eval(&b.left)?;
                let r = self.eval(&b.right)?;
                match b.op {
                    BinOp::Add(_) => l.checked_add(r),
                    BinOp::Sub(_) => l.checked_sub(r),
                    BinOp::Mul(_) => l.checked_mul(r),
                    BinOp::Div(_) if r != 0 => Some(l / r),
                    BinOp::Rem(_) if r != 0 => Some(l % r),
                    BinOp::Shl(_) if (0..100).contains(&r) => l.checked_mul(1i128 << r),
                    _ => None,
                }
            }
            Expr::Cast(c) => {
                let v = self.eval(&c.expr)?;
                let t = ty_str(&c.ty);
                if v >= int_min(&t)? && v <= int_max(&t)? {
                    Some(v)
                } else {
                    None
                }
            }
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => self
                .bytes_lit(&m.receiver)
                .map(|b| b.len() as i128)
                .or_else(|| self.str_lit(&m.receiver).map(|b| b.len() as i128)),
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                Stmt::Expr(e, None) => self.eval(e),
                _ => None,
            },
            _ => None,
        }
    }

    fn bytes_lit(&self, e: &Expr) -> Option<Vec<u8>> {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()),
            Expr::Reference(r) => self.bytes_lit(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.bytes_lit(expr),
            Expr::Path(p) => {
                let (k, _) = self.path_const(p)?;
                self.bytes_lit(&k)
            }
            Expr::Array(a) => {
                let mut v = vec![];
                for x in a.elems.iter() {
                    let n = self.eval(x)?;
                    if !(0..=255).contains(&n) {
                        return None;
                    }
                    v.push(n as u8);
                }
                Some(v)
            }
            Expr::MethodCall(m) if m.args.is_empty() => {
                let n = m.method.to_string();
                if n == "as_bytes" {
                    return self.str_lit(&m.receiver).map(|s| s.into_bytes());
                }
                if matches!(n.as_str(), "as_slice" | "as_ref" | "to_vec" | "clone") {
                    return self.bytes_lit(&m.receiver);
                }
                None
            }
            Expr::Index(i) => {
                if let Expr::Range(r) = strip(&i.index) {
                    if r.start.is_none() && r.end.is_none() {
                        return self.bytes_lit(&i.expr);
                    }
                }
                None
            }
            Expr::Cast(c) => self.bytes_lit(&c.expr),
            _ => None,
        }
    }

    fn str_lit(&self, e: &Expr) -> Option<String> {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Str(b), .. }) => Some(b.value()),
            Expr::Reference(r) => self.str_lit(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.str_lit(expr),
            Expr::Path(p) => {
                let (k, _) = self.path_const(p)?;
                self.str_lit(&k)
            }
            _ => None,
        }
    }

    fn bx(&mut self, b: &[u8]) -> String {
        self.lits.bytes.insert(b.to_vec());
        lit_name("bx_", b) + "()"
    }

    fn sx(&mut self, s: &str) -> String {
        self.lits.strs.insert(s.to_string());
        lit_name("sx_", s.as_bytes()) + "()"
    }

    // ----- blocks and statements -----

    fn block(&mut self, b: &Block, tail: Use) -> String {
        self.push();
        self.collect_consts(&b.stmts);
        let mut s = String::from("{\n");
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter().enumerate() {
            let t = self.stmt(st, i + 1 == n, tail);
            if !t.is_empty() {
                s.push_str(&t);
                s.push('\n');
            }
        }
        s.push('}');
        self.pop();
        s
    }

    fn stmt(&mut self, s: &Stmt, last: bool, tail: Use) -> String {
        match s {
            Stmt::Item(_) => String::new(),
            Stmt::Macro(m) => {
                let n = path_last(&m.mac.path);
                self.unsup(&format!("macro {n}"))
            }
            Stmt::Expr(e, semi) => {
                let keep_tail = last && semi.is_none();
                let t = self.expr_use(e, if keep_tail { tail } else { Use::Plain });
                if semi.is_some() {
                    format!("{t};")
                } else {
                    t
                }
            }
            Stmt::Local(l) => {
                if let Some(t) = self.buf_reader_alias(l) {
                    return t;
                }
                let mut pat = &l.pat;
                let mut ty = String::new();
                if let Pat::Type(t) = pat {
                    let (ts, _) = self.ty(&t.ty);
                    ty = format!(": {ts}");
                    pat = &t.pat;
                }
                let init = match &l.init {
                    Some(i) => {
                        let ini = i.expr.clone();
                        let t = self.let_init(&ini);
                        let diverge = i.diverge.clone();
                        Some((ini, t, diverge))
                    }
                    None => None,
                };
                match init {
                    None => {
                        let p = self.pat(pat, VK::Other, "uninit");
                        format!("let {p}{ty};")
                    }
                    Some((ini, t, diverge)) => {
                        let els = match diverge {
                            Some((_, e)) => format!(" else {}", self.expr(&e)),
                            None => String::new(),
                        };
                        let kind = self.kind_of(&ini);
                        let hint = if !ty.is_empty() { ty[2..].to_string() } else { self.hint_of(&ini) };
                        let p = self.pat(pat, kind, &hint);
                        format!("let {p}{ty} = {t}{els};")
                    }
                }
            }
        }
    }

    /// `let mut x = BufReader::new(y)` for a stream y passed by value: x is y from here on.
    fn buf_reader_alias(&mut self, l: &Local) -> Option<String> {
        let mut pat = &l.pat;
        if let Pat::Type(t) = pat {
            pat = &t.pat;
        }
        let Pat::Ident(pi) = pat else { return None };
        let init = l.init.as_ref()?;
        let Expr::Call(c) = strip(&init.expr) else { return None };
        let Expr::Path(f) = strip(&c.func) else { return None };
        let full = path_full(&f.path);
        let a = if full.ends_with("BufReader::new") {
            &c.args[0]
        } else if full.ends_with("BufReader::with_capacity") {
            &c.args[1]
        } else {
            return None;
        };
        let Expr::Path(p) = strip(a) else { return None };
        let v = self.look(&path_last(&p.path))?;
        if v.kind != VK::Stream && v.kind != VK::Owned {
            return None;
        }
        self.note("BufReader::new(reader) modelled as the same stream: same data, same position");
        self.bind_as(&pi.ident.to_string(), &v.name, v.kind, true, &v.hint);
        Some(format!("{}.buffer_here();", v.name))
    }

    fn let_init(&mut self, e: &Expr) -> String {
        // a stream reference that is rebound
        match self.kind_of(e) {
            VK::Stream => format!("&mut *{}", self.stream_arg(e)),
            _ => self.expr(e),
        }
    }

    fn kind_of(&self, e: &Expr) -> VK {
        match strip(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => self
                .look(&path_last(&p.path))
                .map(|v| v.kind)
                .unwrap_or(VK::Other),
            Expr::Reference(r) => match self.kind_of(&r.expr) {
                VK::Stream | VK::Owned => VK::Stream,
                k => k,
            },
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.kind_of(expr),
            Expr::MethodCall(m) if m.method == "by_ref" || m.method == "get_mut" => match self.kind_of(&m.receiver) {
                VK::Stream | VK::Owned => VK::Stream,
                k => k,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let f = path_full(&p.path);
                    if f.ends_with("BufReader::new") || f.ends_with("BufReader::with_capacity") || f.ends_with("Cursor::new") {
                        return VK::Owned;
                    }
                }
                VK::Other
            }
            Expr::Try(t) => {
                if let Expr::Call(c) = strip(&t.expr) {
                    if let Expr::Path(p) = strip(&c.func) {
                        if path_full(&p.path).ends_with("File::open") {
                            return VK::Owned;
                        }
                    }
                }
                VK::Other
            }
            _ => VK::Other,
        }
    }

    fn hint_of(&self, e: &Expr) -> String {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) => "bool".into(),
            Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) => "int".into(),
            Expr::Path(_) if self.eval(e).is_some() => "int".into(),
            Expr::Path(p) if p.path.segments.len() == 2 => "FileFormat".into(),
            Expr::Cast(c) => ty_str(&c.ty),
            _ => String::new(),
        }
    }

    /// An expression used where a function takes a stream.
    fn stream_arg(&mut self, e: &Expr) -> String {
        match strip(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = path_last(&p.path);
                match self.look(&n) {
                    Some(v) if v.kind == VK::Owned => format!("&mut {}", v.name),
                    Some(v) => v.name,
                    None => self.unsup("stream argument"),
                }
            }
            Expr::Reference(r) => self.stream_arg(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.stream_arg(expr),
            Expr::MethodCall(m) if m.method == "by_ref" => self.stream_arg(&m.receiver),
            _ => format!("&mut {}", self.expr(e)),
        }
    }

    // ----- patterns -----

    fn pat(&mut self, p: &Pat, kind: VK, hint: &str) -> String {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.by_ref.is_none() && i.subpat.is_none() && n.chars().next().unwrap().is_uppercase() {
                    if n == "None" {
                        return n;
                    }
                    if let Some((k, _)) = self.konst(&n) {
                        if let Some(v) = self.eval(&k) {
                            return v.to_string();
                        }
                        return self.unsup("constant pattern");
                    }
                }
                if i.subpat.is_some() {
                    return self.unsup("@ pattern");
                }
                let name = self.bind(&n, kind, i.mutability.is_some(), hint);
                let m = if i.mutability.is_some() { "mut " } else { "" };
                let r = if i.by_ref.is_some() { "ref " } else { "" };
                format!("{r}{m}{name}")
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => "..".into(),
            Pat::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.pat(x, VK::Other, "")).collect();
                format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
            }
            Pat::TupleStruct(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.pat(x, VK::Other, "")).collect();
                let n = self.path_text(&t.path);
                format!("{n}({})", v.join(", "))
            }
            Pat::Path(p) => {
                if let Some((k, _)) = self.path_const(p) {
                    if let Some(v) = self.eval(&k) {
                        return v.to_string();
                    }
                }
                self.path_text(&p.path)
            }
            Pat::Lit(l) => match &l.lit {
                Lit::Int(_) | Lit::Bool(_) | Lit::Char(_) => l.to_token_stream().to_string(),
                Lit::Byte(b) => format!("{}", b.value()),
                _ => self.unsup("literal pattern"),
            },
            Pat::Or(o) => {
                let v: Vec<String> = o.cases.iter().map(|x| self.pat(x, kind, hint)).collect();
                v.join(" | ")
            }
            Pat::Reference(r) => {
                let i = self.pat(&r.pat, VK::Other, hint);
                format!("&{i}")
            }
            Pat::Paren(p) => self.pat(&p.pat, kind, hint),
            Pat::Range(r) => {
                let lo = r.start.as_ref().map(|e| self.eval(e).map(|v| v.to_string()).unwrap_or_default()).unwrap_or_default();
                let hi = r.end.as_ref().map(|e| self.eval(e).map(|v| v.to_string()).unwrap_or_default()).unwrap_or_default();
                match r.limits {
                    RangeLimits::Closed(_) => format!("{lo}..={hi}"),
                    RangeLimits::HalfOpen(_) => format!("{lo}..{hi}"),
                }
            }
            Pat::Type(t) => {
                let s = self.pat(&t.pat, kind, hint);
                let (ty, _) = self.ty(&t.ty);
                format!("{s}: {ty}")
            }
            _ => self.unsup("pattern"),
        }
    }

    fn path_text(&mut self, p: &Path) -> String {
        let n = path_last(p);
        let k = p.segments.len();
        if k >= 2 {
            let o = p.segments[k - 2].ident.to_string();
            if o == "Self" || o == "FileFormat" {
                return format!("FileFormat::{n}");
            }
            return format!("{o}::{n}");
        }
        if n == "Self" {
            return "FileFormat".into();
        }
        n
    }

    // ----- expressions -----

    fn expr(&mut self, e: &Expr) -> String {
        self.expr_use(e, Use::Plain)
    }

    fn expr_use(&mut self, e: &Expr, u: Use) -> String {
        if let Expr::Path(_) | Expr::Binary(_) | Expr::Cast(_) | Expr::MethodCall(_) = e {
            // constant expressions other than plain variables
            if let Some(v) = self.eval(e) {
                let t = self.const_type(e);
                return format!("{v}{t}");
            }
        }
        if let Expr::Path(_) | Expr::Lit(_) = strip(e) {
            if let Some(b) = self.bytes_lit(e) {
                return self.bx(&b);
            }
            if let Some(s) = self.str_lit(e) {
                return self.sx(&s);
            }
        }
        match e {
            Expr::Paren(p) => self.expr_use(&p.expr, u),
            Expr::Group(p) => self.expr_use(&p.expr, u),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => i.to_string(),
                Lit::Byte(b) => format!("{}u8", b.value()),
                Lit::Bool(b) => b.value.to_string(),
                Lit::Char(c) => c.to_token_stream().to_string(),
                _ => self.unsup("literal"),
            },
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = path_last(&p.path);
                    if let Some(v) = self.look(&n) {
                        return v.name;
                    }
                }
                if let Some((k, _)) = self.path_const(p) {
                    return self.expr(&k);
                }
                self.path_text(&p.path)
            }
            Expr::Reference(r) => {
                if let Some(b) = self.bytes_lit(e) {
                    return self.bx(&b);
                }
                if let Some(b) = self.str_lit(e) {
                    return self.sx(&b);
                }
                if self.kind_of(&r.expr) == VK::Stream || self.kind_of(&r.expr) == VK::Owned {
                    return self.stream_arg(&r.expr);
                }
                let m = if r.mutability.is_some() { "mut " } else { "" };
                let i = self.expr(&r.expr);
                format!("&{m}{i}")
            }
            Expr::Unary(x) => {
                let i = self.expr(&x.expr);
                match x.op {
                    UnOp::Not(_) => format!("!({i})"),
                    UnOp::Neg(_) => format!("-({i})"),
                    UnOp::Deref(_) => match self.kind_of(&x.expr) {
                        VK::Stream | VK::Owned => i,
                        _ => format!("(*{i})"),
                    },
                    _ => self.unsup("unary"),
                }
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Cast(c) => {
                let t = ty_str(&c.ty);
                if INTS.contains(&t.as_str()) && !t.ends_with("128") {
                    let i = self.expr(&c.expr);
                    format!("Num::as_{t}_({i})")
                } else if t.starts_with('&') {
                    self.expr(&c.expr)
                } else {
                    self.unsup(&format!("cast to {t}"))
                }
            }
            Expr::Assign(a) => {
                let l = self.expr(&a.left);
                let r = self.expr(&a.right);
                format!("{l} = {r}")
            }
            Expr::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.expr(x)).collect();
                format!("({}{})", v.join(", "), if v.len() == 1 { "," } else { "" })
            }
            Expr::Array(a) => {
                let v: Vec<String> = a.elems.iter().map(|x| self.expr(x)).collect();
                format!("[{}]", v.join(", "))
            }
            Expr::Repeat(r) => {
                let v = self.expr(&r.expr);
                match self.eval(&r.len) {
                    Some(n) => format!("[{v}; {n}]"),
                    None => self.unsup("repeat length"),
                }
            }
            Expr::Field(f) => {
                let i = self.expr(&f.base);
                format!("{i}.{}", f.member.to_token_stream())
            }
            Expr::Index(i) => {
                let b = self.expr(&i.expr);
                if let Expr::Range(r) = strip(&i.index) {
                    let lo = r.start.as_ref().map(|e| self.expr(e)).unwrap_or_default();
                    let hi = r.end.as_ref().map(|e| self.expr(e)).unwrap_or_default();
                    return match r.limits {
                        RangeLimits::HalfOpen(_) => format!("{b}[{lo}..{hi}]"),
                        RangeLimits::Closed(_) => format!("{b}[{lo}..({hi}) + 1]"),
                    };
                }
                let x = self.expr(&i.index);
                format!("{b}[{x}]")
            }
            Expr::Try(t) => {
                let i = self.expr_use(&t.expr, Use::Try);
                if let Some(s) = i.strip_prefix("/*inlined*/") {
                    return s.to_string();
                }
                if let Some((r, depth)) = self.try_target.clone() {
                    if self.loop_stack.len() != depth {
                        return self.unsup("? inside a loop of a closure");
                    }
                    let k = self.tmpn();
                    return format!("(match {i} {{ Ok(v__{k}) => v__{k}, Err(e__{k}) => {{ {r} = Err(e__{k}); break; }} }})");
                }
                format!("({i})?")
            }
            Expr::Return(_) if self.try_target.is_some() => self.unsup("return inside a closure"),
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    let t = self.expr_use(x, Use::Tail);
                    format!("return {t}")
                }
                None => "return".into(),
            },
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return self.unsup("break with value");
                }
                match &b.label {
                    Some(l) => format!("break {l}"),
                    None => "break".into(),
                }
            }
            Expr::Continue(c) => match &c.label {
                Some(l) => format!("continue {l}"),
                None => "continue".into(),
            },
            Expr::If(i) => self.if_(i, u),
            Expr::Let(l) => {
                let x = self.expr(&l.expr);
                let p = self.pat(&l.pat, VK::Other, "");
                format!("let {p} = {x}")
            }
            Expr::Match(m) => self.match_(m, u),
            Expr::Block(b) => {
                if b.label.is_some() {
                    return self.unsup("labeled block");
                }
                self.block(&b.block, u)
            }
            Expr::Loop(l) => {
                let label = l.label.as_ref().map(|l| format!("{} ", l.to_token_stream())).unwrap_or_default();
                let k = self.loop_begin("loop", None, None);
                let b = self.block(&l.body, Use::Plain);
                self.loop_end();
                format!("{label}loop\n/*LOOP:{k}*/\n{b}")
            }
            Expr::While(w) => {
                let label = w.label.as_ref().map(|l| format!("{} ", l.to_token_stream())).unwrap_or_default();
                let k = self.loop_begin("while", None, None);
                let s = if let Expr::Let(l) = strip(&w.cond) {
                    self.push();
                    let x = self.expr(&l.expr);
                    let p = self.pat(&l.pat, VK::Other, "");
                    let b = self.block(&w.body, Use::Plain);
                    self.pop();
                    format!("{{\nmatch {x} {{\n{p} => {b},\n_ => break,\n}}\n}}")
                } else if contains_let(&w.cond) {
                    self.unsup("let chain")
                } else {
                    let c = self.expr(&w.cond);
                    let b = self.block(&w.body, Use::Plain);
                    format!("{{\nif !({c}) {{ break; }}\n{}", &b[2..])
                };
                self.note("while loop normalised to loop with a leading exit test");
                self.loop_end();
                format!("{label}loop\n/*LOOP:{k}*/\n{s}")
            }
            Expr::ForLoop(f) => self.for_(f),
            Expr::Call(c) => self.call(c, u),
            Expr::MethodCall(m) => self.method(m, u),
            Expr::Macro(m) => {
                let n = path_last(&m.mac.path);
                self.unsup(&format!("macro {n}"))
            }
            Expr::Closure(_) => self.unsup("closure"),
            Expr::Range(_) => self.unsup("range"),
            Expr::Struct(_) => self.unsup("struct literal"),
            Expr::Const(b) => self.block(&b.block, u),
            _ => self.unsup("expression"),
        }
    }

    fn const_type(&self, e: &Expr) -> String {
        match strip(e) {
            Expr::Path(p) => {
                if let Some((_, t)) = self.path_const(p) {
                    if INTS.contains(&t.as_str()) {
                        return t;
                    }
                }
                if p.path.segments.len() >= 2 {
                    let o = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    if INTS.contains(&o.as_str()) {
                        return o;
                    }
                }
                String::new()
            }
            Expr::Cast(c) => ty_str(&c.ty),
            Expr::MethodCall(_) => "usize".into(),
            Expr::Binary(b) => {
                let l = self.const_type(&b.left);
                if l.is_empty() {
                    self.const_type(&b.right)
                } else {
                    l
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.suffix().to_string(),
            Expr::Unary(u) => self.const_type(&u.expr),
            _ => String::new(),
        }
    }

    fn binary(&mut self, b: &ExprBinary) -> String {
        let eq = matches!(b.op, BinOp::Eq(_));
        if eq || matches!(b.op, BinOp::Ne(_)) {
            let n = if eq { "" } else { "!" };
            let both_arrays = matches!(strip(&b.left), Expr::Array(_)) && matches!(strip(&b.right), Expr::Array(_));
            if !both_arrays && (self.bytes_lit(&b.left).is_some() || self.bytes_lit(&b.right).is_some()) {
                let l = self.bytes_operand(&b.left);
                let r = self.bytes_operand(&b.right);
                self.note("byte-string comparison through bytes_eq");
                return format!("{n}bytes_eq({l}, {r})");
            }
            if self.str_lit(&b.left).is_some() || self.str_lit(&b.right).is_some() {
                let l = self.str_operand(&b.left);
                let r = self.str_operand(&b.right);
                self.note("string comparison through str_eq");
                return format!("{n}str_eq({l}, {r})");
            }
        }
        let op = b.op.to_token_stream().to_string();
        let l = self.expr(&b.left);
        match b.op {
            BinOp::AddAssign(_) | BinOp::SubAssign(_) => {
                let r = self.expr(&b.right);
                format!("{l} {op} {r}")
            }
            BinOp::MulAssign(_)
            | BinOp::DivAssign(_)
            | BinOp::RemAssign(_)
            | BinOp::BitXorAssign(_)
            | BinOp::BitAndAssign(_)
            | BinOp::BitOrAssign(_)
            | BinOp::ShlAssign(_)
            | BinOp::ShrAssign(_) => {
                let r = self.expr(&b.right);
                let o = op.trim_end_matches('=');
                self.note("compound assignment expanded");
                match bit_fn(o) {
                    Some(f) => format!("{l} = Bits::{f}({l}, {r})"),
                    None => format!("{l} = ({l}) {o} ({r})"),
                }
            }
            _ => {
                let r = self.expr(&b.right);
                match bit_fn(&op) {
                    Some(f) => format!("Bits::{f}({l}, {r})"),
                    None => format!("(({l}) {op} ({r}))"),
                }
            }
        }
    }

    /// `&X` where X is anything viewed as bytes.
    fn bytes_operand(&mut self, e: &Expr) -> String {
        if let Some(b) = self.bytes_lit(e) {
            return format!("&{}", self.bx(&b));
        }
        // a range index is an unsized place: one reference is enough
        let i = self.expr(e);
        format!("&{i}")
    }

    fn str_operand(&mut self, e: &Expr) -> String {
        if let Some(b) = self.str_lit(e) {
            return format!("&{}", self.sx(&b));
        }
        let i = self.expr(e);
        format!("&{i}")
    }

    fn if_(&mut self, i: &ExprIf, u: Use) -> String {
        // let chains: `if a && let P = e && b { T }` with or without else cannot be expressed
        if contains_let(&i.cond) && !matches!(strip(&i.cond), Expr::Let(_)) {
            return self.unsup("let chain");
        }
        self.push();
        let c = match strip(&i.cond) {
            Expr::Let(l) => {
                let x = self.expr(&l.expr);
                if self.needs_chain_pat(&l.pat) {
                    // treat as match
                    self.pop();
                    let m = Expr::Match(ExprMatch {
                        attrs: vec![],
                        match_token: Default::default(),
                        expr: l.expr.clone(),
                        brace_token: Default::default(),
                        arms: vec![
                            Arm {
                                attrs: vec![],
                                pat: (*l.pat).clone(),
                                guard: None,
                                fat_arrow_token: Default::default(),
                                body: Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() })),
                                comma: None,
                            },
                            Arm {
                                attrs: vec![],
                                pat: Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() }),
                                guard: None,
                                fat_arrow_token: Default::default(),
                                body: match &i.else_branch {
                                    Some((_, e)) => e.clone(),
                                    None => Box::new(parse_quote!({})),
                                },
                                comma: None,
                            },
                        ],
                    });
                    return self.expr_use(&m, u);
                }
                let p = self.pat(&l.pat, VK::Other, "");
                format!("let {p} = {x}")
            }
            c => self.expr(c),
        };
        let t = self.block(&i.then_branch, u);
        self.pop();
        match &i.else_branch {
            Some((_, e)) => {
                let x = match strip(e) {
                    Expr::If(_) | Expr::Block(_) => self.expr_use(e, u),
                    _ => format!("{{ {} }}", self.expr_use(e, u)),
                };
                // a nested match-chain may have become a block: both are fine after else
                let x = if x.starts_with('{') || x.starts_with("if ") { x } else { format!("{{ {x} }}") };
                format!("if {c} {t} else {x}")
            }
            None => format!("if {c} {t}"),
        }
    }

    fn needs_chain_pat(&self, p: &Pat) -> bool {
        match p {
            Pat::Lit(l) => matches!(&l.lit, Lit::Str(_) | Lit::ByteStr(_)),
            Pat::Or(o) => o.cases.iter().any(|x| self.needs_chain_pat(x)),
            Pat::Paren(x) => self.needs_chain_pat(&x.pat),
            Pat::Reference(x) => self.needs_chain_pat(&x.pat),
            Pat::Slice(_) => true,
            Pat::Tuple(t) => t.elems.iter().any(|x| self.needs_chain_pat(x)),
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                n.chars().next().unwrap().is_uppercase()
                    && self
                        .konst(&n)
                        .map(|(k, _)| self.str_lit(&k).is_some() || self.bytes_lit(&k).is_some())
                        .unwrap_or(false)
            }
            Pat::Path(p) => self
                .path_const(p)
                .map(|(k, _)| self.str_lit(&k).is_some() || self.bytes_lit(&k).is_some())
                .unwrap_or(false),
            _ => false,
        }
    }

    /// Condition text for a pattern against the temporary `t`, plus binding lets.
    fn chain_cond(&mut self, p: &Pat, t: &str, binds: &mut Vec<String>) -> String {
        match p {
            Pat::Wild(_) => "true".into(),
            Pat::Paren(x) => self.chain_cond(&x.pat, t, binds),
            Pat::Reference(x) => self.chain_cond(&x.pat, t, binds),
            Pat::Or(o) => {
                let v: Vec<String> = o.cases.iter().map(|x| self.chain_cond(x, t, binds)).collect();
                format!("({})", v.join(" || "))
            }
            Pat::Lit(l) => match &l.lit {
                Lit::Str(s) => {
                    let x = self.sx(&s.value());
                    format!("str_eq(&{t}, &{x})")
                }
                Lit::ByteStr(s) => {
                    let x = self.bx(&s.value());
                    format!("bytes_eq(&{t}, &{x})")
                }
                Lit::Bool(b) => {
                    if b.value {
                        t.to_string()
                    } else {
                        format!("!({t})")
                    }
                }
                Lit::Int(i) => format!("({t} == {i})"),
                Lit::Byte(b) => format!("({t} == {})", b.value()),
                _ => self.unsup("pattern literal"),
            },
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n.chars().next().unwrap().is_uppercase() {
                    if let Some((k, _)) = self.konst(&n) {
                        return self.const_cond(&k, t);
                    }
                }
                let name = self.bind(&n, VK::Other, false, "");
                binds.push(format!("let {name} = {t};"));
                "true".into()
            }
            Pat::Path(p) => {
                if let Some((k, _)) = self.path_const(p) {
                    return self.const_cond(&k, t);
                }
                self.unsup("path pattern in literal match")
            }
            Pat::Slice(s) => {
                let mut conds = vec![];
                let rest = s.elems.iter().position(|x| matches!(x, Pat::Rest(_)));
                match rest {
                    None => conds.push(format!("AsB::as_b(&{t}).len() == {}", s.elems.len())),
                    Some(k) if k + 1 == s.elems.len() => {
                        conds.push(format!("AsB::as_b(&{t}).len() >= {}", s.elems.len() - 1))
                    }
                    _ => return self.unsup("slice pattern"),
                }
                for (k, x) in s.elems.iter().enumerate() {
                    if matches!(x, Pat::Rest(_)) {
                        break;
                    }
                    let sub = format!("AsB::as_b(&{t})[{k}]");
                    let cnd = self.chain_cond(x, &sub, binds);
                    if cnd != "true" {
                        conds.push(cnd);
                    }
                }
                format!("({})", conds.join(" && "))
            }
            Pat::Tuple(tp) => {
                let mut conds = vec![];
                for (k, x) in tp.elems.iter().enumerate() {
                    let sub = format!("{t}.{k}");
                    let cnd = self.chain_cond(x, &sub, binds);
                    if cnd != "true" {
                        conds.push(cnd);
                    }
                }
                if conds.is_empty() {
                    "true".into()
                } else {
                    format!("({})", conds.join(" && "))
                }
            }
            Pat::Range(r) => {
                let mut v = vec![];
                if let Some(s) = &r.start {
                    if let Some(n) = self.eval(s) {
                        v.push(format!("{t} >= {n}"));
                    }
                }
                if let Some(s) = &r.end {
                    if let Some(n) = self.eval(s) {
                        v.push(match r.limits {
                            RangeLimits::Closed(_) => format!("{t} <= {n}"),
                            RangeLimits::HalfOpen(_) => format!("{t} < {n}"),
                        });
                    }
                }
                format!("({})", v.join(" && "))
            }
            _ => self.unsup("pattern in literal match"),
        }
    }

    fn const_cond(&mut self, k: &Expr, t: &str) -> String {
        if let Some(s) = self.str_lit(k) {
            let x = self.sx(&s);
            return format!("str_eq(&{t}, &{x})");
        }
        if let Some(s) = self.bytes_lit(k) {
            let x = self.bx(&s);
            return format!("bytes_eq(&{t}, &{x})");
        }
        if let Some(v) = self.eval(k) {
            return format!("({t} == {v})");
        }
        self.unsup("constant pattern")
    }

    fn match_(&mut self, m: &ExprMatch, u: Use) -> String {
        let chain = m.arms.iter().any(|a| self.needs_chain_pat(&a.pat));
        if !chain {
            let sc = self.expr(&m.expr);
            let or = self.or_kind(&m.expr);
            let _ = or;
            let mut s = format!("match {sc} {{\n");
            for a in &m.arms {
                self.push();
                let p = self.pat(&a.pat, VK::Other, "");
                let g = match &a.guard {
                    Some((_, g)) => {
                        if contains_let(g) {
                            self.unsup("let guard");
                        }
                        format!(" if {}", self.expr(g))
                    }
                    None => String::new(),
                };
                let b = self.arm_body(&a.body, u);
                self.pop();
                s.push_str(&format!("{p}{g} => {b},\n"));
            }
            s.push('}');
            return s;
        }
        self.note("match on literals desugared to an if chain");
        let k = self.tmpn();
        let t = format!("m__{k}");
        let sc_is_place = matches!(strip(&m.expr), Expr::Index(_));
        let sc = self.expr(&m.expr);
        let amp = if sc_is_place { "&" } else { "" };
        let mut s = format!("{{\nlet {t} = {amp}{sc};\n");
        let mut first = true;
        let mut closed = false;
        for a in &m.arms {
            self.push();
            let mut binds = vec![];
            let c = self.chain_cond(&a.pat, &t, &mut binds);
            let g = a.guard.as_ref().map(|(_, g)| {
                let g = self.expr(g);
                if binds.is_empty() {
                    g
                } else {
                    format!("{{ {} {g} }}", binds.join(" "))
                }
            });
            let cond = match (&g, c.as_str()) {
                (None, c) => c.to_string(),
                (Some(g), "true") => format!("({g})"),
                (Some(g), c) => format!("{c} && ({g})"),
            };
            let b = self.arm_body(&a.body, u);
            let b = if b.starts_with('{') && binds.is_empty() && is_single_block(&b) {
                b
            } else {
                format!("{{\n{}{b}\n}}", binds.iter().map(|x| format!("{x}\n")).collect::<String>())
            };
            self.pop();
            if !first {
                s.push_str(" else ");
            }
            if cond == "true" {
                s.push_str(&b);
                closed = true;
                first = false;
                break;
            }
            s.push_str(&format!("if {cond} {b}"));
            first = false;
        }
        if !closed {
            s.push_str(" else { unreachable__() }");
        }
        s.push_str("\n}");
        s
    }

    fn arm_body(&mut self, e: &Expr, u: Use) -> String {
        match strip(e) {
            Expr::Block(_) => self.expr_use(e, u),
            _ => {
                let t = self.expr_use(e, u);
                format!("{{ {t} }}")
            }
        }
    }

    // ----- loops -----

    fn loop_begin(&mut self, kind: &str, idx: Option<&str>, auto: Option<Value>) -> usize {
        let k = self.loops.len();
        let vars: Vec<Value> = {
            let mut seen = BTreeSet::new();
            let mut v = vec![];
            for s in self.scopes.iter().rev() {
                let mut l: Vec<&Var> = s.values().collect();
                l.sort_by(|a, b| a.name.cmp(&b.name));
                for x in l {
                    if seen.insert(x.orig.clone()) {
                        v.push(json!([x.orig, x.name, format!("{:?}", x.kind), x.mutable, x.hint]));
                    }
                }
            }
            v
        };
        self.loops.push(json!({
            "id": k,
            "kind": kind,
            "idx": idx,
            "parent": self.loop_stack.last(),
            "vars": vars,
            "inline": self.inline_stack.last(),
            "auto": auto.unwrap_or(json!({})),
        }));
        self.loop_stack.push(k);
        k
    }

    fn loop_end(&mut self) {
        self.loop_stack.pop();
    }

    fn for_(&mut self, f: &ExprForLoop) -> String {
        let label = f.label.as_ref().map(|l| format!("{} ", l.to_token_stream())).unwrap_or_default();
        if let Expr::Range(r) = strip(&f.expr) {
            if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                self.note("for loop over a range normalised to a counted loop");
                let n = self.tmpn();
                let (i, b) = (format!("i__{n}"), format!("n__{n}"));
                let lo_t = self.expr(lo);
                let hi_t = self.expr(hi);
                let (cmp, auto) = match r.limits {
                    RangeLimits::HalfOpen(_) => ("<", format!("{i} <= {b} || {i} == lo__{n}")),
                    RangeLimits::Closed(_) => ("<=", format!("{i} <= {b} + 1 || {i} == lo__{n}")),
                };
                let dec = match r.limits {
                    RangeLimits::HalfOpen(_) => format!("if {b} >= {i} {{ ({b} - {i}) as int }} else {{ 0int }}"),
                    RangeLimits::Closed(_) => format!("if {b} + 1 >= {i} {{ ({b} + 1 - {i}) as int }} else {{ 0int }}"),
                };
                self.push();
                let k = self.loop_begin(
                    "range",
                    Some(&i),
                    Some(json!({"inv": [auto, format!("{i} >= lo__{n}")], "dec": dec, "bound": b, "lo": format!("lo__{n}")})),
                );
                self.push();
                let p = self.pat(&f.pat, VK::Other, "int");
                let body = self.block(&f.body, Use::Plain);
                self.pop();
                self.pop();
                self.loop_end();
                let bind = if p == "_" { String::new() } else { format!("let {p} = {i};\n") };
                return format!(
                    "{{\nlet lo__{n} = {lo_t};\nlet {b} = {hi_t};\nlet mut {i} = same_ty__(lo__{n}, {b});\n{label}loop\n/*LOOP:{k}*/\n{{\nif !({i} {cmp} {b}) {{ break; }}\n{bind}{i} += 1;\n{}\n}}",
                    &body[2..]
                );
            }
            return self.unsup("for over open range");
        }
        // slice iteration
        if let Some(ch) = self.slice_chain(&f.expr) {
            return self.slice_loop(&ch, &f.pat, &label, |em| {
                let b = em.block(&f.body, Use::Plain);
                b[2..b.len() - 1].to_string()
            });
        }
        self.unsup("for loop iterator")
    }

    fn slice_chain(&mut self, e: &Expr) -> Option<Chain> {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("iter", 0) => Some(Chain { elems: Elems::Slice, base: (*m.receiver).clone(), rev: false, enumerate: false, take: vec![], skip: None, copied: false, post_enum: false }),
                    ("lines", 0) | ("chars", 0) => Some(Chain {
                        elems: if n == "lines" { Elems::Lines } else { Elems::Chars },
                        base: (*m.receiver).clone(),
                        rev: false,
                        enumerate: false,
                        take: vec![],
                        skip: None,
                        copied: true,
                        post_enum: false,
                    }),
                    ("copied", 0) | ("cloned", 0) => {
                        let mut c = self.slice_chain(&m.receiver)?;
                        if c.enumerate {
                            return None;
                        }
                        c.copied = true;
                        Some(c)
                    }
                    ("rev", 0) => {
                        let mut c = self.slice_chain(&m.receiver)?;
                        if c.enumerate || !c.take.is_empty() || c.skip.is_some() {
                            return None;
                        }
                        c.rev = !c.rev;
                        Some(c)
                    }
                    ("enumerate", 0) => {
                        let mut c = self.slice_chain(&m.receiver)?;
                        if c.enumerate || c.skip.is_some() {
                            return None;
                        }
                        c.enumerate = true;
                        Some(c)
                    }
                    ("take", 1) => {
                        let mut c = self.slice_chain(&m.receiver)?;
                        c.take.push(m.args[0].clone());
                        Some(c)
                    }
                    _ => None,
                }
            }
            Expr::Reference(r) => Some(Chain { elems: Elems::Slice, base: (*r.expr).clone(), rev: false, enumerate: false, take: vec![], skip: None, copied: false, post_enum: false }),
            _ => None,
        }
    }

    fn slice_loop(&mut self, ch: &Chain, pat: &Pat, label: &str, body: impl FnOnce(&mut Self) -> String) -> String {
        self.note("iteration over a slice normalised to an indexed loop");
        let n = self.tmpn();
        let (i, s, b) = (format!("i__{n}"), format!("s__{n}"), format!("n__{n}"));
        let base = self.expr(&ch.base);
        let mut pre = match ch.elems {
            Elems::Slice => format!("let {s} = AsB::as_b(&{base});\nlet {b} = {s}.len();\n"),
            Elems::Lines => format!("let {s} = bytes_lines__(AsB::as_b(&{base}));\nlet {b} = {s}.count_();\n"),
            Elems::Chars => format!("let {s} = str_chars__(&{base});\nlet {b} = {s}.len();\n"),
        };
        for t in &ch.take {
            let t = self.expr(t);
            pre.push_str(&format!("let {b} = Num::min_({b}, {t});\n"));
        }
        let at = match ch.elems {
            Elems::Slice | Elems::Chars if ch.rev => format!("{s}[{s}.len() - 1 - {i}]"),
            Elems::Slice | Elems::Chars => format!("{s}[{i}]"),
            Elems::Lines if ch.rev => self.unsup("lines reversed"),
            Elems::Lines => format!("{s}.line_({i})"),
        };
        let (auto_len, elem_hint) = match ch.elems {
            Elems::Slice => (format!("{b} <= {s}.len()"), "u8"),
            Elems::Chars => (format!("{b} <= {s}@.len()"), "char"),
            Elems::Lines => (format!("{b} <= {s}.lines().len()"), "Result<String>"),
        };
        self.push();
        let k = self.loop_begin(
            "slice",
            Some(&i),
            Some(json!({"inv": [format!("{i} <= {b}"), auto_len], "dec": format!("{b} - {i}"), "bound": b, "slice": s, "rev": ch.rev, "elems": elem_hint})),
        );
        self.push();
        let mut binds = String::new();
        let elem_bind = |em: &mut Self, p: &Pat| -> String {
            match p {
                Pat::Reference(r) => {
                    let t = em.pat(&r.pat, VK::Other, elem_hint);
                    if t == "_" { String::new() } else { format!("let {t} = {at};\n") }
                }
                Pat::Wild(_) => String::new(),
                p => {
                    let t = em.pat(p, VK::Other, elem_hint);
                    if ch.copied {
                        format!("let {t} = {at};\n")
                    } else {
                        format!("let {t} = &{at};\n")
                    }
                }
            }
        };
        if ch.enumerate {
            if let Pat::Tuple(t) = pat {
                let ip = self.pat(&t.elems[0], VK::Other, "usize");
                if ip != "_" {
                    binds.push_str(&format!("let {ip} = {i};\n"));
                }
                let eb = elem_bind(self, &t.elems[1]);
                binds.push_str(&eb);
            } else {
                self.unsup("enumerate pattern");
            }
        } else {
            let eb = elem_bind(self, pat);
            binds.push_str(&eb);
        }
        let body = body(self);
        self.pop();
        self.pop();
        self.loop_end();
        format!(
            "{{\n{pre}let mut {i}: usize = 0;\n{label}loop\n/*LOOP:{k}*/\n{{\nif !({i} < {b}) {{ break; }}\n{binds}{i} += 1;\n{body}}}\n}}"
        )
    }

    // ----- calls -----

    fn find_fun(&self, name: &str, kinds: &[FunKind]) -> Option<Fun> {
        self.c.funs.iter().find(|f| f.name == name && kinds.contains(&f.kind)).cloned()
    }

    fn call(&mut self, c: &ExprCall, u: Use) -> String {
        let p = match strip(&c.func) {
            Expr::Path(p) => p,
            _ => return self.unsup("call of expression"),
        };
        let full = path_full(&p.path);
        let last = path_last(&p.path);
        let two: String = {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            v[v.len().saturating_sub(2)..].join("::")
        };
        let args: Vec<&Expr> = c.args.iter().collect();
        // panics
        if full.contains("panicking::") || last == "panic_fmt" || last == "unreachable_display" {
            return "panic__()".into();
        }
        match full.as_str() {
            "Ok" | "Some" | "Err" | "Result::Ok" | "Option::Some" | "Result::Err" => {
                let a = self.expr(args[0]);
                return format!("{last}({a})");
            }
            _ => {}
        }
        match two.as_str() {
            "SeekFrom::Start" | "SeekFrom::End" | "SeekFrom::Current" => {
                let a = self.expr(args[0]);
                return format!("{two}({a})");
            }
            "Error::new" => {
                let a = self.expr(args[0]);
                self.note("error payloads dropped");
                return format!("Error::new_({a})");
            }
            "Error::other" => return "Error::new_(ErrorKind::Other)".into(),
            "Error::from" => {
                let a = self.expr(args[0]);
                return format!("Error::new_({a})");
            }
            "BufReader::new" => {
                let a = self.stream_arg(args[0]);
                self.note("BufReader::new modelled as a stream with the same data and position");
                return format!("Stream::buffered({a})");
            }
            "BufReader::with_capacity" => {
                let a = self.stream_arg(args[1]);
                return format!("Stream::buffered({a})");
            }
            "Cursor::new" => {
                let a = self.expr(args[0]);
                self.note("Cursor::new modelled as a reliable stream over the bytes");
                return format!("Stream::cursor({a})");
            }
            "File::open" => {
                let a = self.expr(args[0]);
                return format!("file_open__({a})");
            }
            "cmp::min" | "cmp::max" => {
                let a = self.expr(args[0]);
                let b = self.expr(args[1]);
                return format!("Num::{last}_({a}, {b})");
            }
            "vec::from_elem" => {
                let n = self.expr(args[1]);
                if self.eval(args[0]) == Some(0) {
                    return format!("vec_zeroed__({n})");
                }
                // bytes: the element type is the one the contract has
                let x = self.expr(args[0]);
                return format!("vec_filled__({x}, {n})");
            }
            "Vec::new" => return "Vec::new()".into(),
            "Vec::with_capacity" => {
                let n = self.expr(args[0]);
                return format!("vec_with_capacity__({n})");
            }
            "String::new" => return "string_new__()".into(),
            "String::with_capacity" if args.len() == 1 => {
                let a = self.expr(args[0]);
                return format!("string_cap__({a})");
            }
            "String::from_utf8_lossy" => {
                let a = self.bytes_operand(args[0]);
                return format!("utf8_lossy__({a})");
            }
            "str::from_utf8" => {
                let a = self.bytes_operand(args[0]);
                return format!("from_utf8__({a})");
            }
            "hint::black_box" | "mem::drop" | "identity" | "convert::identity" | "hint::must_use" | "__export::must_use" => {
                return self.expr_use(args[0], u);
            }
            "fmt::format" => return self.format_(args[0]),
            "mem::take" | "mem::swap" | "mem::replace" => return self.unsup(&two),
            _ => {}
        }
        if p.path.segments.len() >= 2 {
            let o = p.path.segments[p.path.segments.len() - 2].ident.to_string();
            if INTS.contains(&o.as_str()) {
                if last == "from" {
                    let a = self.expr(args[0]);
                    return format!("Num::as_{o}_({a})");
                }
                if matches!(last.as_str(), "from_le_bytes" | "from_be_bytes") {
                    let a = self.expr(args[0]);
                    return format!("{o}_{last}({a})");
                }
                if matches!(last.as_str(), "min" | "max") && args.len() == 2 {
                    let a = self.expr(args[0]);
                    let b = self.expr(args[1]);
                    return format!("Num::{last}_({a}, {b})");
                }
            }
        }
        // crate functions
        let owner = if p.path.segments.len() >= 2 {
            p.path.segments[p.path.segments.len() - 2].ident.to_string()
        } else {
            String::new()
        };
        let f = if owner == "Self" || owner == "FileFormat" {
            self.c
                .funs
                .iter()
                .find(|f| f.name == last && f.owner == "FileFormat" && f.sig.inputs.len() == args.len())
                .cloned()
                .or_else(|| self.find_fun(&last, &[FunKind::Free]))
        } else {
            self.find_fun(&last, &[FunKind::Free, FunKind::StreamMethod, FunKind::BytesMethod])
        };
        if let Some(f) = f {
            let args: Vec<Expr> = args.into_iter().cloned().collect();
            return self.crate_call(&f, None, &args, u);
        }
        self.unsup(&format!("call {full}"))
    }

    fn sig_kinds(&mut self, f: &Fun) -> Vec<(String, VK, String, bool)> {
        let saved = std::mem::take(&mut self.gen);
        self.generics(&f.sig);
        let mut v = vec![];
        for a in f.sig.inputs.iter() {
            match a {
                FnArg::Receiver(_) => v.push((
                    "self".to_string(),
                    match f.kind {
                        FunKind::StreamMethod => VK::Stream,
                        FunKind::BytesMethod => VK::AsRefBytes,
                        _ => VK::Other,
                    },
                    String::new(),
                    false,
                )),
                FnArg::Typed(t) => {
                    let (ty, k) = self.ty(&t.ty);
                    let (n, m) = match &*t.pat {
                        Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                        _ => ("_".to_string(), false),
                    };
                    v.push((n, k, ty, m));
                }
            }
        }
        self.gen = saved;
        v
    }

    fn arg(&mut self, e: &Expr, kind: VK, ty: &str) -> String {
        match kind {
            VK::Stream => self.stream_arg(e),
            VK::AsRefBytes => {
                if let Some(b) = self.bytes_lit(e) {
                    return self.bx(&b);
                }
                if let Some(b) = self.str_lit(e) {
                    return self.bx(b.as_bytes());
                }
                if self.kind_of(e) == VK::AsRefBytes {
                    return self.expr(e);
                }
                let x = self.bytes_operand(e);
                format!("AsB::as_b({x})")
            }
            _ if ty == "PathArg" => self.expr(e),
            _ => self.expr(e),
        }
    }

    fn crate_call(&mut self, f: &Fun, recv: Option<&Expr>, args: &[Expr], u: Use) -> String {
        let kinds = self.sig_kinds(f);
        let mut all: Vec<Expr> = vec![];
        if let Some(r) = recv {
            all.push(r.clone());
        }
        all.extend(args.iter().cloned());
        if all.len() != kinds.len() {
            return self.unsup(&format!("call {} arity", f.name));
        }
        if self.known.contains(&f.name) || self.inline_stack.len() > 6 {
            self.calls.insert(f.name.clone());
            let v: Vec<String> = all
                .iter()
                .zip(kinds.iter())
                .map(|(a, k)| self.arg(a, k.1, &k.2))
                .collect();
            return match f.kind {
                FunKind::StreamMethod => {
                    let r = v[0].trim_start_matches("&mut ").to_string();
                    format!("{r}.{}({})", f.name, v[1..].join(", "))
                }
                FunKind::BytesMethod => format!("fb_{}({})", f.name, v.join(", ")),
                FunKind::Free => format!("{}({})", f.name, v.join(", ")),
                _ => format!("FileFormat::{}({})", f.name, v.join(", ")),
            };
        }
        self.inline(f, &all, &kinds, u)
    }

    /// Replaces a call of a crate function without a contract of its own by its body.
    fn inline(&mut self, f: &Fun, args: &[Expr], kinds: &[(String, VK, String, bool)], u: Use) -> String {
        if self.inline_stack.contains(&f.name) {
            return self.unsup(&format!("recursive helper {}", f.name));
        }
        self.note(&format!("helper {} inlined", f.name));
        let is_res = match &f.sig.output {
            ReturnType::Type(_, t) => ty_str(t).starts_with("Result"),
            _ => false,
        };
        let mut body = f.block.clone();
        if u != Use::Tail {
            let mode_try = u == Use::Try && is_res;
            if u == Use::Try && !is_res && has_return(&body) {
                return self.unsup(&format!("inlining {} (option with ?)", f.name));
            }
            body = structure_block(body);
            if mode_try {
                strip_block(&mut body);
                if has_return_other_than_err(&body) {
                    return self.unsup(&format!("inlining {} (early return)", f.name));
                }
            } else {
                strip_returns(&mut body);
                if has_return(&body) || has_try(&body) {
                    return self.unsup(&format!("inlining {} (early return)", f.name));
                }
            }
        }
        // evaluate arguments in the caller's scope
        let mut pre = String::new();
        let mut scope: Vec<(String, Var)> = vec![];
        for (a, (n, k, ty, m)) in args.iter().zip(kinds.iter()) {
            match k {
                VK::Stream => {
                    let t = self.stream_arg(a);
                    if let Some(b) = t.strip_prefix("&mut ") {
                        if b.chars().all(|c| c.is_alphanumeric() || c == '_') {
                            scope.push((n.clone(), Var { orig: n.clone(), name: b.to_string(), kind: VK::Owned, mutable: true, hint: "".into() }));
                        } else {
                            let name = self.fresh(n);
                            pre.push_str(&format!("let mut {name} = {b};\n"));
                            scope.push((n.clone(), Var { orig: n.clone(), name, kind: VK::Owned, mutable: true, hint: "".into() }));
                        }
                    } else {
                        scope.push((n.clone(), Var { orig: n.clone(), name: t, kind: VK::Stream, mutable: false, hint: "".into() }));
                    }
                }
                _ => {
                    let t = self.arg(a, *k, ty);
                    let name = self.fresh(n);
                    let mm = if *m { "mut " } else { "" };
                    // an unsuffixed literal needs the parameter type
                    let ann = if INTS.contains(&ty.as_str()) || ty == "bool" { format!(": {ty}") } else { String::new() };
                    pre.push_str(&format!("let {mm}{name}{ann} = {t};\n"));
                    scope.push((n.clone(), Var { orig: n.clone(), name, kind: *k, mutable: *m, hint: ty.clone() }));
                }
            }
        }
        let saved_scopes = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
        let saved_consts = std::mem::replace(&mut self.consts, vec![HashMap::new()]);
        let saved_gen = std::mem::take(&mut self.gen);
        self.generics(&f.sig);
        for (n, v) in scope {
            self.all_vars.push(v.clone());
            self.scopes[0].insert(n, v);
        }
        self.inline_stack.push(f.name.clone());
        let b = self.block(&body, if u == Use::Tail { Use::Tail } else { Use::Plain });
        self.inline_stack.pop();
        self.scopes = saved_scopes;
        self.consts = saved_consts;
        self.gen = saved_gen;
        let t = format!("{{\n{pre}{b}\n}}");
        if u == Use::Try && is_res {
            format!("/*inlined*/{t}")
        } else {
            t
        }
    }

    fn or_kind(&self, e: &Expr) -> OR {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(f) = self.c.funs.iter().find(|f| f.name == n && f.kind != FunKind::Inherent) {
                    let r = f.sig.output.to_token_stream().to_string().replace(' ', "");
                    if r.contains("->Result") || r.contains("->std::io::Result") || r.contains("->io::Result") {
                        return OR::Res;
                    }
                    if r.contains("->Option") {
                        return OR::Opt;
                    }
                }
                match n.as_str() {
                    "checked_add" | "checked_sub" | "checked_mul" | "checked_shl" | "get" | "first" | "last" | "position"
                    | "ok" | "err" | "find" | "rfind" | "next" | "error_len" => OR::Opt,
                    "seek" | "rewind" | "stream_position" | "read" | "read_exact" | "read_to_end" | "try_for_each" | "ok_or_else" | "ok_or" => OR::Res,
                    "map" | "and_then" | "or_else" | "filter" | "copied" | "cloned" | "map_err" => self.or_kind(&m.receiver),
                    _ => OR::Unknown,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let n = path_last(&p.path);
                    match n.as_str() {
                        "Some" => return OR::Opt,
                        "Ok" | "Err" => return OR::Res,
                        _ => {}
                    }
                    if let Some(f) = self.c.funs.iter().find(|f| f.name == n) {
                        let r = f.sig.output.to_token_stream().to_string().replace(' ', "");
                        if r.contains("->Result") || r.contains("->std::io::Result") || r.contains("->io::Result") {
                            return OR::Res;
                        }
                        if r.contains("->Option") {
                            return OR::Opt;
                        }
                    }
                }
                OR::Unknown
            }
            _ => OR::Unknown,
        }
    }

    /// `f(x)` for a closure or function path, with x an emitted expression.
    fn apply(&mut self, f: &Expr, x: Option<&str>) -> String {
        match strip(f) {
            Expr::Closure(c) => {
                self.push();
                let mut s = String::from("{\n");
                if let (Some(p), Some(x)) = (c.inputs.first(), x) {
                    let p = match p {
                        Pat::Type(t) => &t.pat,
                        p => p,
                    };
                    if !matches!(p, Pat::Wild(_)) {
                        let p = self.pat(p, VK::Other, "");
                        s.push_str(&format!("let {p} = {x};\n"));
                    }
                }
                if has_return_expr(&c.body) || has_try_expr(&c.body) {
                    self.unsup("closure with return");
                }
                let b = self.expr(&c.body);
                s.push_str(&b);
                s.push_str("\n}");
                self.pop();
                s
            }
            Expr::Path(p) => {
                let n = path_last(&p.path);
                match n.as_str() {
                    "Some" | "Ok" | "Err" => format!("{n}({})", x.unwrap_or("")),
                    "default" => "FileFormat::default()".into(),
                    _ => {
                        let t = self.path_text(&p.path);
                        self.calls.insert(n.clone());
                        if self.c.funs.iter().any(|f| f.name == n) && !self.known.contains(&n) {
                            return self.unsup("function value");
                        }
                        format!("{t}({})", x.unwrap_or(""))
                    }
                }
            }
            _ => self.unsup("function value"),
        }
    }

    fn method(&mut self, m: &ExprMethodCall, u: Use) -> String {
        let n = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let recv_kind = self.kind_of(&m.receiver);
        if n == "read_to_end" {
            if let Expr::MethodCall(t) = strip(&m.receiver) {
                if t.method == "take" && matches!(self.kind_of(&t.receiver), VK::Stream | VK::Owned) {
                    let r = self.stream_arg(&t.receiver);
                    let r = r.trim_start_matches("&mut ").to_string();
                    let lim = self.expr(&t.args[0]);
                    let a = self.expr(&args[0]);
                    return format!("{r}.take_read_to_end({lim}, {a})");
                }
            }
        }
        if args.len() == 1 {
            if let VK::Other = recv_kind {
                match n.as_str() {
                    "write_fmt" => {
                        let r = self.expr(&m.receiver);
                        let s = self.format_(&args[0]);
                        return format!("fmt_write__({r}, {s})");
                    }
                    "write_str" | "pad" => {
                        let r = self.expr(&m.receiver);
                        let s = self.expr(&args[0]);
                        return format!("fmt_write__({r}, string_from__(AsS::as_s(&{s})))");
                    }
                    "fmt" => {
                        let r = self.expr(&args[0]);
                        let s = self.expr(&m.receiver);
                        return format!("fmt_write__({r}, string_from__(AsS::as_s(&{s})))");
                    }
                    _ => {}
                }
            }
        }
        let closure_arg = args.first().map(|a| matches!(strip(a), Expr::Closure(_))).unwrap_or(false);
        // stream operations
        if recv_kind == VK::Stream || recv_kind == VK::Owned {
            match n.as_str() {
                "read" | "read_exact" | "seek" | "rewind" | "stream_position" => {
                    let r = self.stream_arg(&m.receiver);
                    let r = r.trim_start_matches("&mut ").to_string();
                    let a: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
                    return format!("{r}.{n}({})", a.join(", "));
                }
                "seek_relative" => {
                    let r = self.stream_arg(&m.receiver);
                    let r = r.trim_start_matches("&mut ").to_string();
                    let a: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
                    return format!("{r}.seek_relative({})", a.join(", "));
                }
                "by_ref" => return self.stream_arg(&m.receiver),
                _ => {}
            }
            if let Some(f) = self
                .c
                .funs
                .iter()
                .find(|f| f.name == n && f.kind == FunKind::StreamMethod)
                .cloned()
            {
                return self.crate_call(&f, Some(&m.receiver), &args, u);
            }
            return self.unsup(&format!("stream method {n}"));
        }
        // byte-pattern methods
        if !closure_arg {
            if let Some(f) = self
                .c
                .funs
                .iter()
                .find(|f| f.name == n && f.kind == FunKind::BytesMethod && f.sig.inputs.len() == args.len() + 1)
                .cloned()
            {
                return self.crate_call(&f, Some(&m.receiver), &args, u);
            }
        }
        // methods of FileFormat taking self
        let ff = match strip(&m.receiver) {
            Expr::Path(p) if p.path.segments.len() == 1 => match self.look(&path_last(&p.path)) {
                Some(v) => v.hint == "FileFormat" || v.orig == "self" || n != "kind",
                None => n != "kind",
            },
            Expr::Path(_) => true,
            _ => n != "kind",
        };
        if !ff {
        } else if let Some(f) = self
            .c
            .funs
            .iter()
            .find(|f| f.name == n && f.owner == "FileFormat" && f.kind == FunKind::Inherent && f.sig.receiver().is_some() && f.sig.inputs.len() == args.len() + 1)
            .cloned()
        {
            return self.crate_call(&f, Some(&m.receiver), &args, u);
        }
        match (n.as_str(), args.len()) {
            ("starts_with", 1) | ("ends_with", 1) => {
                if self.bytes_lit(&args[0]).is_some() {
                    let r = self.bytes_operand(&m.receiver);
                    let a = self.bytes_operand(&args[0]);
                    return format!("bytes_{n}({r}, {a})");
                }
                if let Some(s) = self.str_lit(&args[0]) {
                    let r = self.str_operand(&m.receiver);
                    let a = self.sx(&s);
                    return format!("str_{n}({r}, &{a})");
                }
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = strip(&args[0]) {
                    let r = self.str_operand(&m.receiver);
                    let a = self.sx(&c.value().to_string());
                    return format!("str_{n}({r}, &{a})");
                }
                let r = self.bytes_operand(&m.receiver);
                let a = self.bytes_operand(&args[0]);
                return format!("any_{n}({r}, {a})");
            }
            ("contains", 1) => {
                let s = match strip(&args[0]) {
                    Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value().to_string()),
                    _ => self.str_lit(&args[0]),
                };
                if let Some(s) = s {
                    let r = self.str_operand(&m.receiver);
                    let a = self.sx(&s);
                    return format!("str_contains({r}, &{a})");
                }
                return self.unsup("contains");
            }
            ("eq", 1) | ("ne", 1) => {
                let b = ExprBinary {
                    attrs: vec![],
                    left: m.receiver.clone(),
                    op: if n == "eq" { BinOp::Eq(Default::default()) } else { BinOp::Ne(Default::default()) },
                    right: Box::new(args[0].clone()),
                };
                return self.binary(&b);
            }
            ("min", 1) | ("max", 1) => {
                let r = self.expr(&m.receiver);
                let a = self.expr(&args[0]);
                return format!("Num::{n}_({r}, {a})");
            }
            ("clamp", 2) => {
                let r = self.expr(&m.receiver);
                let a = self.expr(&args[0]);
                let b = self.expr(&args[1]);
                return format!("Num::clamp_({r}, {a}, {b})");
            }
            ("saturating_add", 1) | ("saturating_sub", 1) | ("wrapping_add", 1) | ("wrapping_sub", 1)
            | ("checked_add", 1) | ("checked_sub", 1) | ("checked_mul", 1) | ("saturating_mul", 1) => {
                let r = self.expr(&m.receiver);
                let a = self.expr(&args[0]);
                return format!("Num::{n}_({r}, {a})");
            }
            ("leading_zeros", 0) | ("is_power_of_two", 0) => {
                let r = self.expr(&m.receiver);
                return format!("Num::{n}_({r})");
            }
            ("rotate_right", 1) | ("rotate_left", 1) => {
                let r = self.expr(&m.receiver);
                let a = self.expr(&args[0]);
                return format!("slice_{n}__(&mut {r}, {a})");
            }
            ("copy_within", 2) if matches!(strip(&args[0]), Expr::Range(_)) => {
                let r = self.expr(&m.receiver);
                let (lo, hi) = match strip(&args[0]) {
                    Expr::Range(g) => (
                        g.start.as_ref().map_or("0".to_string(), |e| self.expr(e)),
                        match (&g.end, &g.limits) {
                            (None, _) => format!("{r}.len()"),
                            (Some(e), RangeLimits::HalfOpen(_)) => self.expr(e),
                            (Some(e), _) => format!("{} + 1", self.expr(e)),
                        },
                    ),
                    _ => unreachable!(),
                };
                let a = self.expr(&args[1]);
                return format!("slice_copy_within__(&mut {r}, {lo}, {hi}, {a})");
            }
            ("copy_within", 2) | ("copy_from_slice", 1) | ("fill", 1) => {
                return self.unsup(&n);
            }
            ("as_ref", 0) | ("as_mut", 0) | ("borrow", 0) | ("as_str", 0) | ("as_slice", 0) | ("as_bytes", 0) | ("deref", 0) => {
                if recv_kind == VK::AsRefBytes {
                    return self.expr(&m.receiver);
                }
                let r = self.expr(&m.receiver);
                return match n.as_str() {
                    "as_str" => format!("AsS::as_s(&{r})"),
                    "as_slice" => format!("AsB::as_b(&{r})"),
                    "as_bytes" => self.unsup("as_bytes"),
                    _ => format!("{r}.{n}()"),
                };
            }
            ("to_string", 0) | ("to_owned", 0) | ("into_owned", 0) | ("into", 0) | ("clone", 0) => {
                let r = self.expr(&m.receiver);
                return r;
            }
            ("trim", 0) | ("trim_start", 0) | ("trim_end", 0) => {
                let r = self.str_operand(&m.receiver);
                return format!("str_{n}({r})");
            }
            ("ok_or_else", 1) => {
                let r = self.expr(&m.receiver);
                let k = self.tmpn();
                let e = self.apply(&args[0], None);
                return format!("(match {r} {{ Some(v__{k}) => Ok(v__{k}), None => Err({e}) }})");
            }
            ("ok_or", 1) => {
                let r = self.expr(&m.receiver);
                let k = self.tmpn();
                let e = self.expr(&args[0]);
                return format!("(match {r} {{ Some(v__{k}) => Ok(v__{k}), None => Err({e}) }})");
            }
            ("ok", 0) => {
                let r = self.expr(&m.receiver);
                let k = self.tmpn();
                return format!("(match {r} {{ Ok(v__{k}) => Some(v__{k}), Err(_) => None }})");
            }
            ("unwrap_or_default", 0) | ("unwrap_or_else", 1) | ("unwrap_or", 1) => {
                let o = self.or_kind(&m.receiver);
                let r = self.expr(&m.receiver);
                let k = self.tmpn();
                let dflt = match n.as_str() {
                    "unwrap_or_default" => "FileFormat::default()".to_string(),
                    "unwrap_or" => self.expr(&args[0]),
                    _ => {
                        let x = format!("e__{k}");
                        let a = self.apply(&args[0], Some(&x));
                        let zero = matches!(strip(&args[0]), Expr::Closure(c) if c.inputs.is_empty());
                        if zero || o == OR::Opt {
                            return format!("(match {r} {{ Some(v__{k}) => v__{k}, None => {a} }})");
                        }
                        return format!("(match {r} {{ Ok(v__{k}) => v__{k}, Err({x}) => {a} }})");
                    }
                };
                if n == "unwrap_or_default" {
                    self.calls.insert("default".into());
                }
                return match o {
                    OR::Opt => format!("(match {r} {{ Some(v__{k}) => v__{k}, None => {dflt} }})"),
                    OR::Res => format!("(match {r} {{ Ok(v__{k}) => v__{k}, Err(_) => {dflt} }})"),
                    OR::Unknown => self.unsup(&n),
                };
            }
            ("map", 1) | ("and_then", 1) | ("map_err", 1) | ("or_else", 1) | ("map_or", 2) | ("is_some_and", 1) | ("is_ok_and", 1) | ("is_none_or", 1)
                if self.or_kind(&m.receiver) != OR::Unknown =>
            {
                let o = self.or_kind(&m.receiver);
                let r = self.expr(&m.receiver);
                let k = self.tmpn();
                let v = format!("v__{k}");
                let (yes, no, no_keep, no_pat) = match o {
                    OR::Opt => ("Some", "None", "None".to_string(), "None".to_string()),
                    _ => ("Ok", "Err", format!("Err(e__{k})"), format!("Err(e__{k})")),
                };
                let _ = no;
                return match n.as_str() {
                    "map" => {
                        let a = self.apply(&args[0], Some(&v));
                        format!("(match {r} {{ {yes}({v}) => {yes}({a}), {no_pat} => {no_keep} }})")
                    }
                    "and_then" => {
                        let a = self.apply(&args[0], Some(&v));
                        format!("(match {r} {{ {yes}({v}) => {a}, {no_pat} => {no_keep} }})")
                    }
                    "map_err" => {
                        let x = format!("e__{k}");
                        let a = self.apply(&args[0], Some(&x));
                        format!("(match {r} {{ Ok({v}) => Ok({v}), Err({x}) => Err({a}) }})")
                    }
                    "or_else" => {
                        let x = format!("e__{k}");
                        let a = self.apply(&args[0], Some(&x));
                        format!("(match {r} {{ {yes}({v}) => {yes}({v}), {no_pat} => {a} }})")
                    }
                    "map_or" => {
                        let d = self.expr(&args[0]);
                        let a = self.apply(&args[1], Some(&v));
                        format!("(match {r} {{ {yes}({v}) => {a}, {} => {d} }})", if o == OR::Opt { "None" } else { "Err(_)" })
                    }
                    "is_none_or" => {
                        let a = self.apply(&args[0], Some(&v));
                        format!("(match {r} {{ Some({v}) => {a}, None => true }})")
                    }
                    _ => {
                        let a = self.apply(&args[0], Some(&v));
                        format!("(match {r} {{ {yes}({v}) => {a}, {} => false }})", if o == OR::Opt { "None" } else { "Err(_)" })
                    }
                };
            }
            ("any", 1) | ("all", 1) => {
                if let Some(ch) = self.slice_chain(&m.receiver) {
                    if !ch.enumerate {
                        return self.any_all(&ch, &args[0], n == "any");
                    }
                }
                return self.unsup(&n);
            }
            ("collect", 0) => {
                return self.collect(&m.receiver);
            }
            ("find", 1) | ("position", 1) if closure_arg => {
                // a search for a pattern, spelled out
                if let (Expr::MethodCall(w), Expr::Closure(k)) = (strip(&m.receiver), strip(&args[0])) {
                    if n == "position" && w.method == "windows" && w.args.len() == 1 && k.inputs.len() == 1 {
                        if let (Pat::Ident(i), Expr::Binary(b)) = (&k.inputs[0], strip(&k.body)) {
                            let is_w = |e: &Expr| matches!(strip(e), Expr::Path(p) if p.path.is_ident(&i.ident));
                            if matches!(b.op, BinOp::Eq(_)) && (is_w(&b.left) != is_w(&b.right)) {
                                let r = self.bytes_operand(&w.receiver);
                                let a = self.expr(&w.args[0]);
                                let p = self.bytes_operand(if is_w(&b.left) { &b.right } else { &b.left });
                                return format!("windows_position__({r}, {a}, {p})");
                            }
                        }
                    }
                }
                if let Some(ch) = self.slice_chain(&m.receiver) {
                    if !ch.enumerate {
                        return self.find_elem(&ch, &args[0], n == "position");
                    }
                }
                return self.unsup(&n);
            }
            ("try_for_each", 1) if closure_arg => {
                if let Some(ch) = self.slice_chain(&m.receiver) {
                    if !ch.enumerate {
                        return self.try_for_each(&ch, &args[0]);
                    }
                }
                return self.unsup(&n);
            }
            ("is_control", 0) | ("is_whitespace", 0) | ("is_ascii_control", 0) | ("is_ascii_whitespace", 0) => {
                let r = self.expr(&m.receiver);
                return format!("char_{n}(&{r})");
            }
            ("try_for_each", 1) | ("find", 1) | ("position", 1) | ("count", 0) | ("sum", 0) | ("fold", 2) | ("for_each", 1) => {
                return self.unsup(&n);
            }
            _ => {}
        }
        // text built piece by piece
        if args.len() == 1 && (n == "push_str" || n == "push" && matches!(strip(&args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))) {
            let r = self.expr(&m.receiver);
            let s = match strip(&args[0]) {
                Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => self.sx(&c.value().to_string()),
                a => {
                    let a = match a {
                        Expr::Reference(r) => strip(&r.expr),
                        a => a,
                    };
                    let a = self.expr(a);
                    format!("AsS::as_s(&{a})")
                }
            };
            return format!("string_push__(&mut {r}, {s})");
        }
        // natural methods
        const NATURAL: &[&str] = &[
            "len", "is_empty", "is_some", "is_none", "is_ok", "is_err", "unwrap", "push", "truncate", "clear", "kind",
            "valid_up_to", "error_len",
        ];
        if NATURAL.contains(&n.as_str()) {
            let r = self.expr(&m.receiver);
            let a: Vec<String> = args.iter().map(|a| self.expr(a)).collect();
            return format!("{r}.{n}({})", a.join(", "));
        }
        if n == "expect" {
            let r = self.expr(&m.receiver);
            return format!("{r}.unwrap()");
        }
        self.unsup(&format!("method {n}"))
    }

    /// The contract of a desugared search: no earlier element satisfies the test.
    fn search_inv(&self, start: usize, cond: &str, bound: &str, pat: &Pat, ch: &Chain) -> Option<(Vec<Value>, String, String, String, String, String)> {
        let c2 = cond.replace("char_is_", "sp_char_is_");
        let pure = !c2.contains("__(") && !c2.contains("::") && !c2.contains('{');
        if !pure || bound.is_empty() {
            return None;
        }
        let l = self.loops[start].clone();
        let s = l["auto"]["slice"].as_str().unwrap_or("").to_string();
        let b = l["auto"]["bound"].as_str().unwrap_or("").to_string();
        let i = l["idx"].as_str().unwrap_or("").to_string();
        let at = if ch.rev { format!("{s}@[{s}@.len() - 1 - j]") } else { format!("{s}@[j]") };
        let q = replace_ident(&c2, bound, &at);
        let q = if matches!(pat, Pat::Reference(_)) { q } else { q.replace(&format!("(*{at})"), &at) };
        let inv: Vec<Value> = l["auto"]["inv"].as_array().cloned().unwrap_or_default();
        Some((inv, s, b, i, at, q))
    }

    /// `xs.iter().find(|x| p)` and `.position(|x| p)`.
    fn find_elem(&mut self, ch: &Chain, f: &Expr, position: bool) -> String {
        let Expr::Closure(c) = strip(f) else { return self.unsup("find with function") };
        let k = self.tmpn();
        let r = format!("r__{k}");
        let c = c.clone();
        let pat = c.inputs[0].clone();
        let start = self.loops.len();
        // the closure of `find` takes a reference to the element
        let inner = match &pat {
            Pat::Reference(r) if !position => (*r.pat).clone(),
            p => p.clone(),
        };
        let (mut cond_txt, mut bound) = (String::new(), String::new());
        let idx = format!("i__{}", self.tmp + 1);
        let r2 = r.clone();
        let by_ref = !position && !matches!(pat, Pat::Reference(_));
        let body = self.slice_loop(ch, &inner, "", |em| {
            if let Some(p) = em.scopes.last().and_then(|s| s.values().next()) {
                bound = p.name.clone();
            }
            let mut cnd = em.expr(&c.body);
            if by_ref {
                cnd = cnd.replace(&format!("(*{bound})"), &bound);
            }
            cond_txt = cnd.clone();
            let val = if position { format!("{idx} - 1") } else { bound.clone() };
            format!("if {cnd} {{ {r2} = Some({val}); break; }}\n")
        });
        if let Some((mut inv, s, b, i, at, q)) = self.search_inv(start, &cond_txt, &bound, &inner, ch) {
            inv.push(json!(format!("{r} is None")));
            inv.push(json!(format!("forall|j: int| 0 <= j < {i} ==> !({q})")));
            let res = if position { "j".to_string() } else { at };
            let ens = format!(
                "match {r} {{ Some(v) => exists|j: int| 0 <= j < {b} && v == {res} && ({q}) && (forall|k: int| 0 <= k < j ==> !({})), None => forall|j: int| 0 <= j < {b} ==> !({q}) }}",
                replace_ident(&q, "j", "k")
            );
            self.loops[start]["auto"] = json!({"inv": inv, "dec": format!("{b} - {i}"), "bound": b, "slice": s, "exit": [ens], "kind": "find"});
        }
        format!("{{\nlet mut {r} = None;\n{body}\n{r}\n}}")
    }

    /// `xs.try_for_each(|x| f)`: stops at the first element for which f is an error.
    fn try_for_each(&mut self, ch: &Chain, f: &Expr) -> String {
        let Expr::Closure(c) = strip(f) else { return self.unsup("try_for_each with function") };
        let k = self.tmpn();
        let r = format!("r__{k}");
        let c = c.clone();
        let pat = c.inputs[0].clone();
        let start = self.loops.len();
        let r2 = r.clone();
        let body = self.slice_loop(ch, &pat, "", |em| {
            let saved = em.try_target.replace((r2.clone(), em.loop_stack.len()));
            let b = em.expr(&c.body);
            em.try_target = saved;
            format!("match {b} {{ Ok(_) => {{}}, Err(e__{k}) => {{ {r2} = Err(e__{k}); break; }} }}\n")
        });
        let mut auto = self.loops[start]["auto"].clone();
        if let Some(v) = auto["inv"].as_array_mut() {
            v.push(json!(format!("{r} is Ok")));
        }
        auto["res"] = json!(r);
        auto["kind"] = json!("try_for_each");
        self.loops[start]["auto"] = auto;
        format!("{{\nlet mut {r}: Result<()> = Ok(());\n{body}\n{r}\n}}")
    }

    fn any_all(&mut self, ch: &Chain, f: &Expr, any: bool) -> String {
        let Expr::Closure(c) = strip(f) else { return self.unsup("any with function") };
        let k = self.tmpn();
        let fl = format!("f__{k}");
        let c = c.clone();
        let pat = c.inputs[0].clone();
        let start = self.loops.len();
        let fl2 = fl.clone();
        let (val, neg) = if any { ("true", "") } else { ("false", "!") };
        let mut cond_txt = String::new();
        let mut bound = String::new();
        let body = self.slice_loop(ch, &pat, "", |em| {
            let cnd = em.expr(&c.body);
            cond_txt = cnd.clone();
            if let Some(p) = em.scopes.last().and_then(|s| s.values().next()) {
                bound = p.name.clone();
            }
            format!("if {neg}({cnd}) {{ {fl2} = {val}; break; }}\n")
        });
        // contract of the desugared loop: the flag records whether an element satisfies the test
        let cond_txt = cond_txt.replace("char_is_", "sp_char_is_");
        let pure = !cond_txt.contains("__(") && !cond_txt.contains("::") && !cond_txt.contains('{');
        if pure && !bound.is_empty() {
            let l = self.loops[start].clone();
            let s = l["auto"]["slice"].as_str().unwrap_or("").to_string();
            let b = l["auto"]["bound"].as_str().unwrap_or("").to_string();
            let i = l["idx"].as_str().unwrap_or("").to_string();
            let at = if ch.rev { format!("{s}@[{s}@.len() - 1 - j]") } else { format!("{s}@[j]") };
            let q = replace_ident(&cond_txt, &bound, &at);
            let q = if matches!(pat, Pat::Reference(_)) || ch.copied { q } else { q.replace(&format!("(*{at})"), &at) };
            let qn = if any { format!("!({q})") } else { format!("({q})") };
            let mut inv: Vec<Value> = l["auto"]["inv"].as_array().cloned().unwrap_or_default();
            inv.push(json!(format!("{fl} == {}", !any)));
            inv.push(json!(format!("forall|j: int| 0 <= j < {i} ==> {qn}")));
            let ens = if any {
                format!("{fl} == (exists|j: int| 0 <= j < {b} && ({q}))")
            } else {
                format!("{fl} == (forall|j: int| 0 <= j < {b} ==> ({q}))")
            };
            self.loops[start]["auto"] = json!({"inv": inv, "dec": format!("{b} - {i}"), "bound": b, "slice": s, "exit": [ens], "kind": "any"});
        }
        format!("{{\nlet mut {fl} = {};\n{body}\n{fl}\n}}", if any { "false" } else { "true" })
    }

    /// `[a, b, ..].iter().map(|&x| e).collect::<String>()`, unrolled.
    fn collect(&mut self, e: &Expr) -> String {
        if let Expr::MethodCall(m) = strip(e) {
            if m.method == "map" {
                if let Expr::Closure(c) = strip(&m.args[0]) {
                    let mut base = strip(&m.receiver);
                    while let Expr::MethodCall(b) = base {
                        if matches!(b.method.to_string().as_str(), "iter" | "into_iter" | "copied" | "cloned") {
                            base = strip(&b.receiver);
                        } else {
                            break;
                        }
                    }
                    let mut b2 = base.clone();
                    if let Expr::Path(p) = &b2 {
                        if let Some((k, _)) = self.path_const(p) {
                            b2 = k;
                        }
                    }
                    if let Expr::Reference(r) = strip(&b2) {
                        b2 = (*r.expr).clone();
                    }
                    if let Expr::Array(a) = strip(&b2) {
                        if a.elems.len() <= 64 {
                            self.note("iteration over an array literal unrolled");
                            let k = self.tmpn();
                            let acc = format!("acc__{k}");
                            let mut s = format!("{{\nlet {acc} = string_new__();\n");
                            for x in a.elems.iter() {
                                let Some(v) = self.eval(x) else { return self.unsup("array element") };
                                self.push();
                                let p = match &c.inputs[0] {
                                    Pat::Reference(r) => (*r.pat).clone(),
                                    p => p.clone(),
                                };
                                let p = self.pat(&p, VK::Other, "int");
                                let b = self.expr(&c.body);
                                self.pop();
                                s.push_str(&format!("let {p} = {v};\nlet {acc} = str_cat__({acc}, {b});\n"));
                            }
                            s.push_str(&format!("{acc}\n}}"));
                            return s;
                        }
                    }
                }
            }
        }
        self.unsup("collect")
    }

    /// `format!` with literal pieces, `{}` of strings and `{:02x}` of bytes.
    fn format_(&mut self, e: &Expr) -> String {
        let Expr::Macro(m) = strip(e) else { return self.unsup("format") };
        let Ok(args) = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) else {
            return self.unsup("format arguments");
        };
        let args: Vec<Expr> = args.into_iter().collect();
        let Some(f) = args.first().and_then(|a| self.str_lit(a)) else { return self.unsup("format string") };
        let mut parts: Vec<String> = vec![];
        let mut lit = String::new();
        let mut it = f.chars().peekable();
        let mut auto = 0usize;
        while let Some(ch) = it.next() {
            match ch {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    lit.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    lit.push('}');
                }
                '{' => {
                    let mut spec = String::new();
                    for c in it.by_ref() {
                        if c == '}' {
                            break;
                        }
                        spec.push(c);
                    }
                    let (pos, fmt) = match spec.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (spec.clone(), String::new()),
                    };
                    let idx = if pos.is_empty() {
                        auto += 1;
                        auto - 1
                    } else if let Ok(v) = pos.parse::<usize>() {
                        v
                    } else {
                        return self.unsup("named format argument");
                    };
                    let Some(a) = args.get(idx + 1).cloned() else { return self.unsup("format argument") };
                    if !lit.is_empty() {
                        let l = std::mem::take(&mut lit);
                        let x = self.sx(&l);
                        parts.push(format!("string_from__({x})"));
                    }
                    let a = self.expr(&a);
                    match fmt.as_str() {
                        "02x" => parts.push(format!("hex2__({a})")),
                        "" => parts.push(format!("string_from__(AsS::as_s(&{a}))")),
                        _ => return self.unsup("format spec"),
                    }
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() || parts.is_empty() {
            let x = self.sx(&lit);
            parts.push(format!("string_from__({x})"));
        }
        let mut s = parts[0].clone();
        for p in &parts[1..] {
            s = format!("str_cat__({s}, {p})");
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Elems {
    Slice,
    Lines,
    Chars,
}

struct Chain {
    elems: Elems,
    base: Expr,
    rev: bool,
    enumerate: bool,
    take: Vec<Expr>,
    skip: Option<Expr>,
    copied: bool,
    #[allow(dead_code)]
    post_enum: bool,
}

fn is_single_block(s: &str) -> bool {
    let mut d = 0i32;
    for (i, c) in s.char_indices() {
        match c {
            '{' => d += 1,
            '}' => {
                d -= 1;
                if d == 0 && i + 1 != s.len() {
                    return false;
                }
            }
            _ => {}
        }
    }
    d == 0
}

fn replace_ident(s: &str, id: &str, with: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphanumeric() || b[i] == '_' {
            let st = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[st..i].iter().collect();
            if w == id {
                out.push_str(with);
            } else {
                out.push_str(&w);
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn contains_let(e: &Expr) -> bool {
    match strip(e) {
        Expr::Let(_) => true,
        Expr::Binary(b) => contains_let(&b.left) || contains_let(&b.right),
        _ => false,
    }
}

// ----- structured returns (for inlining) -----

struct Scan {
    ret: bool,
    ret_not_err: bool,
    tri: bool,
}

fn scan_tokens(ts: proc_macro2::TokenStream, s: &mut Scan) {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            T::Ident(id) if id == "return" => {
                s.ret = true;
                let is_err = matches!(v.get(i + 1), Some(T::Ident(x)) if x == "Err");
                if !is_err {
                    s.ret_not_err = true;
                }
            }
            T::Punct(p) if p.as_char() == '?' => s.tri = true,
            T::Group(g) => scan_tokens(g.stream(), s),
            _ => {}
        }
        i += 1;
    }
}

fn scan(t: impl ToTokens) -> Scan {
    let mut s = Scan { ret: false, ret_not_err: false, tri: false };
    scan_tokens(t.to_token_stream(), &mut s);
    s
}

fn has_return(b: &Block) -> bool {
    scan(b).ret
}
fn has_try(b: &Block) -> bool {
    scan(b).tri
}
fn has_return_expr(e: &Expr) -> bool {
    scan(e).ret
}
fn has_try_expr(e: &Expr) -> bool {
    scan(e).tri
}
fn has_return_other_than_err(b: &Block) -> bool {
    scan(b).ret_not_err
}

fn ends_with_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => match strip(e) {
            Expr::Return(_) => true,
            Expr::If(i) => {
                ends_with_return(&i.then_branch)
                    && match &i.else_branch {
                        Some((_, e)) => match strip(e) {
                            Expr::Block(b) => ends_with_return(&b.block),
                            Expr::If(_) => ends_with_return(&Block {
                                brace_token: Default::default(),
                                stmts: vec![Stmt::Expr((**e).clone(), None)],
                            }),
                            _ => false,
                        },
                        None => false,
                    }
            }
            _ => false,
        },
        _ => false,
    }
}

/// `if c { ..return x; } rest` becomes `if c { ..return x } else { rest }`.
fn structure_block(mut b: Block) -> Block {
    for i in 0..b.stmts.len() {
        let s = b.stmts[i].clone();
        if let Stmt::Expr(Expr::If(mut f), _) = s {
            if i + 1 < b.stmts.len() {
                // walk an else-if chain whose branches all return, without final else
                fn attach(f: &mut ExprIf, rest: &Block) -> bool {
                    if !ends_with_return(&f.then_branch) {
                        return false;
                    }
                    match &mut f.else_branch {
                        None => {
                            f.else_branch = Some((
                                Default::default(),
                                Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest.clone() })),
                            ));
                            true
                        }
                        Some((_, e)) => match &mut **e {
                            Expr::If(g) => attach(g, rest),
                            _ => false,
                        },
                    }
                }
                let rest = structure_block(Block {
                    brace_token: Default::default(),
                    stmts: b.stmts[i + 1..].to_vec(),
                });
                if attach(&mut f, &rest) {
                    b.stmts.truncate(i);
                    b.stmts.push(Stmt::Expr(Expr::If(f), None));
                    return b;
                }
            }
        }
    }
    b
}

/// Rewrites the tail positions of a `Result` body so that it yields the Ok value.
fn strip_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() || matches!(e, Expr::Return(_)) {
            strip_expr(e);
            *semi = None;
        }
    }
}

fn strip_expr(e: &mut Expr) {
    match e {
        Expr::Paren(p) => strip_expr(&mut p.expr),
        Expr::Return(r) => {
            if let Some(x) = r.expr.take() {
                let mut x = *x;
                strip_expr(&mut x);
                *e = x;
            }
        }
        Expr::If(i) => {
            strip_block(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                strip_expr(x);
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                strip_expr(&mut a.body);
            }
        }
        Expr::Block(b) => strip_block(&mut b.block),
        Expr::Call(c) => {
            let n = match &*c.func {
                Expr::Path(p) => path_last(&p.path),
                _ => String::new(),
            };
            if n == "Ok" {
                *e = c.args[0].clone();
            } else if n == "Err" {
                let x = e.clone();
                *e = parse_quote!(return #x);
            } else {
                let x = e.clone();
                *e = parse_quote!(#x?);
            }
        }
        _ => {
            let x = e.clone();
            *e = parse_quote!(#x?);
        }
    }
}

/// Removes `return` at tail positions.
fn strip_returns(b: &mut Block) {
    fn ex(e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if let Some(x) = r.expr.take() {
                    let mut x = *x;
                    ex(&mut x);
                    *e = x;
                }
            }
            Expr::If(i) => {
                strip_returns(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    ex(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    ex(&mut a.body);
                }
            }
            Expr::Block(b) => strip_returns(&mut b.block),
            _ => {}
        }
    }
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() || matches!(e, Expr::Return(_)) {
            ex(e);
            *semi = None;
        }
    }
}
