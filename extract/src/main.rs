//! Mechanical extraction of the crate's functions into the Verus dialect.
//!
//! Input: macro-expanded source of /repo for one feature set (rustc -Zunpretty=expanded).
//! Output: a JSON description of every function (signature, body text in the Verus dialect, loops
//! with their visible variables, callees, literals) plus enum variants and source literals.
//! Contracts and loop invariants are woven in afterwards (see ../weave).

mod emit;
mod unroll;

use emit::*;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

pub fn ty_str(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

pub struct Crate {
    pub funs: Vec<Fun>,
    pub consts: HashMap<String, (Expr, String)>,
    pub enums: BTreeMap<String, Vec<String>>,
    pub traits: BTreeMap<String, TraitKind>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TraitKind {
    Stream,
    Bytes,
    Str,
    Other,
}

#[derive(Clone)]
pub struct Fun {
    pub name: String,
    pub owner: String, // "" for free functions
    pub kind: FunKind,
    pub sig: Signature,
    pub block: Block,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FunKind {
    Free,
    Inherent,
    TraitImpl,
    StreamMethod,
    BytesMethod,
    OtherMethod,
}

fn has_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}

pub fn bounds_kind(bounds: &str) -> TraitKind {
    let words: Vec<&str> = bounds
        .split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .collect();
    if words.iter().any(|w| matches!(*w, "Read" | "Seek" | "BufRead" | "ReadData")) {
        TraitKind::Stream
    } else if bounds.replace(' ', "").contains("AsRef<[u8]>") || words.contains(&"FindBytes") {
        TraitKind::Bytes
    } else if bounds.replace(' ', "").contains("AsRef<str>") {
        TraitKind::Str
    } else {
        TraitKind::Other
    }
}

fn walk(items: &[Item], c: &mut Crate) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    walk(items, c)
                }
            }
            Item::Enum(e) => {
                c.enums.insert(
                    e.ident.to_string(),
                    e.variants.iter().map(|v| v.ident.to_string()).collect(),
                );
            }
            Item::Const(k) => {
                c.consts.insert(k.ident.to_string(), ((*k.expr).clone(), ty_str(&k.ty)));
            }
            Item::Static(k) => {
                c.consts.insert(k.ident.to_string(), ((*k.expr).clone(), ty_str(&k.ty)));
            }
            Item::Fn(f) => c.funs.push(Fun {
                name: f.sig.ident.to_string(),
                owner: String::new(),
                kind: FunKind::Free,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
            }),
            Item::Trait(t) => {
                let k = bounds_kind(&t.supertraits.to_token_stream().to_string());
                let k = if k == TraitKind::Other {
                    c.traits.get(&t.ident.to_string()).copied().unwrap_or(k)
                } else {
                    k
                };
                c.traits.insert(t.ident.to_string(), k);
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            c.funs.push(Fun {
                                name: f.sig.ident.to_string(),
                                owner: t.ident.to_string(),
                                kind: match k {
                                    TraitKind::Stream => FunKind::StreamMethod,
                                    TraitKind::Bytes => FunKind::BytesMethod,
                                    _ => FunKind::OtherMethod,
                                },
                                sig: f.sig.clone(),
                                block: b.clone(),
                            });
                        }
                    }
                }
            }
            Item::Impl(i) => {
                if has_attr(&i.attrs, "automatically_derived") {
                    continue;
                }
                let owner = ty_str(&i.self_ty).replace("crate::", "");
                let tr = i.trait_.as_ref().map(|t| t.1.to_token_stream().to_string().replace(' ', ""));
                // blanket impl of a crate trait with its own bodies
                let mut kind = if tr.is_some() { FunKind::TraitImpl } else { FunKind::Inherent };
                for p in i.generics.params.iter() {
                    if let GenericParam::Type(tp) = p {
                        if tp.ident == owner {
                            kind = match bounds_kind(&tp.bounds.to_token_stream().to_string()) {
                                TraitKind::Stream => FunKind::StreamMethod,
                                TraitKind::Bytes => FunKind::BytesMethod,
                                _ => FunKind::OtherMethod,
                            };
                        }
                    }
                }
                if owner == "[u8]" || owner == "&[u8]" || owner == "Vec<u8>" {
                    kind = FunKind::BytesMethod;
                }
                for ii in &i.items {
                    match ii {
                        ImplItem::Fn(f) => c.funs.push(Fun {
                            name: f.sig.ident.to_string(),
                            owner: owner.clone(),
                            kind,
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                        }),
                        ImplItem::Const(k) => {
                            c.consts.insert(k.ident.to_string(), (k.expr.clone(), ty_str(&k.ty)));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&args[1]).expect("read");
    // optional: comma separated list of functions that keep their own contract; any other crate
    // function is inlined where it is called
    let known: BTreeSet<String> = args
        .get(2)
        .map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
        .unwrap_or_default();
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            println!("{}", json!({"error": format!("parse: {e}")}));
            return;
        }
    };
    let mut c = Crate {
        funs: vec![],
        consts: HashMap::new(),
        enums: BTreeMap::new(),
        traits: BTreeMap::new(),
    };
    // trait kinds may be fixed by blanket impls: collect them first
    fn pre(items: &[Item], c: &mut Crate) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        pre(items, c)
                    }
                }
                Item::Impl(i) => {
                    if let Some((_, p, _)) = &i.trait_ {
                        let tr = p.segments.last().unwrap().ident.to_string();
                        let owner = ty_str(&i.self_ty);
                        let mut k = TraitKind::Other;
                        for p in i.generics.params.iter() {
                            if let GenericParam::Type(tp) = p {
                                if tp.ident == owner {
                                    k = bounds_kind(&tp.bounds.to_token_stream().to_string());
                                }
                            }
                        }
                        if owner == "[u8]" {
                            k = TraitKind::Bytes;
                        }
                        if k != TraitKind::Other {
                            c.traits.insert(tr, k);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    pre(&file.items, &mut c);
    walk(&file.items, &mut c);

    let mut nested: Vec<Fun> = vec![];
    for f in c.funs.iter_mut() {
        for g in unroll::hoist(&mut f.block) {
            nested.push(Fun { name: g.sig.ident.to_string(), owner: String::new(), kind: FunKind::Free, sig: g.sig, block: *g.block });
        }
    }
    for (k, g) in nested.iter().enumerate() {
        // two of the same name cannot be told apart where they are called
        let twin = nested.iter().enumerate().any(|(j, h)| j != k && h.name == g.name) || c.funs.iter().any(|h| h.name == g.name);
        if !twin {
            c.funs.push(g.clone());
        }
    }
    for f in c.funs.iter_mut() {
        unroll::unroll(&mut f.block, &c.consts);
    }
    let mut out: Vec<Value> = vec![];
    let mut lits = Lits::default();
    for f in &c.funs {
        out.push(emit_fun(&c, f, &known, &mut lits));
    }
    println!(
        "{}",
        json!({
            "functions": out,
            "enums": c.enums,
            "traits": c.traits.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>(),
            "bytes": lits.bytes.iter().map(|b| json!([lit_name("", b), b])).collect::<Vec<_>>(),
            "strs": lits.strs.iter().map(|b| json!([lit_name("", b.as_bytes()), b])).collect::<Vec<_>>(),
        })
    );
}
