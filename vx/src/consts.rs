//! Constants of the kernel bindings, and a small evaluator for the constant expressions in `bitflags!`/`c_enum!`.
use std::collections::BTreeMap;
use syn::{BinOp, Expr, Item, Lit, UnOp};

#[derive(Clone, Debug)]
pub struct Const {
    pub ty: String,
    pub val: i128,
}

#[derive(Default)]
pub struct Consts {
    pub map: BTreeMap<String, Const>,
    pub aliases: BTreeMap<String, String>,
}

pub fn prim(s: &str) -> Option<&'static str> {
    Some(match s {
        "u8" | "__u8" | "c_uchar" => "u8",
        "u16" | "__u16" | "c_ushort" => "u16",
        "u32" | "__u32" | "c_uint" => "u32",
        "u64" | "__u64" | "c_ulong" => "u64",
        "i8" | "__s8" | "c_schar" => "i8",
        "i16" | "__s16" => "i16",
        "i32" | "__s32" | "c_int" => "i32",
        "i64" | "__s64" | "c_long" => "i64",
        "usize" => "usize",
        _ => return None,
    })
}

pub fn last_ident(p: &syn::Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

impl Consts {
    pub fn load(text: &str) -> Self {
        let f = syn::parse_file(text).expect("bindings parse");
        let mut c = Consts::default();
        for it in &f.items {
            if let Item::Type(t) = it {
                if let syn::Type::Path(p) = &*t.ty {
                    c.aliases.insert(t.ident.to_string(), last_ident(&p.path));
                }
            }
        }
        for it in &f.items {
            if let Item::Const(k) = it {
                let ty = match &*k.ty {
                    syn::Type::Path(p) => c.resolve(&last_ident(&p.path)),
                    _ => None,
                };
                if let (Some(ty), Some(val)) = (ty, c.eval(&k.expr, &|_| None)) {
                    c.map.insert(k.ident.to_string(), Const { ty, val });
                }
            }
        }
        c
    }

    pub fn resolve(&self, name: &str) -> Option<String> {
        let mut n = name.to_string();
        for _ in 0..8 {
            if let Some(p) = prim(&n) {
                return Some(p.to_string());
            }
            n = self.aliases.get(&n)?.clone();
        }
        None
    }

    /// Evaluate; `env` resolves `Type::CONST` style paths of the surrounding code ("last segment" name).
    pub fn eval(&self, e: &Expr, env: &dyn Fn(&str) -> Option<i128>) -> Option<i128> {
        Some(match e {
            Expr::Paren(p) => self.eval(&p.expr, env)?,
            Expr::Group(p) => self.eval(&p.expr, env)?,
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => i.base10_parse::<i128>().ok()?,
                Lit::Bool(b) => b.value as i128,
                _ => return None,
            },
            Expr::Cast(c) => {
                let v = self.eval(&c.expr, env)?;
                match &*c.ty {
                    syn::Type::Path(p) => wrap(&last_ident(&p.path), v),
                    _ => v,
                }
            }
            Expr::Unary(u) => match u.op {
                UnOp::Neg(_) => -self.eval(&u.expr, env)?,
                UnOp::Not(_) => !self.eval(&u.expr, env)?,
                _ => return None,
            },
            Expr::Binary(b) => {
                let l = self.eval(&b.left, env)?;
                let r = self.eval(&b.right, env)?;
                match b.op {
                    BinOp::Add(_) => l + r,
                    BinOp::Sub(_) => l - r,
                    BinOp::Mul(_) => l * r,
                    BinOp::BitAnd(_) => l & r,
                    BinOp::BitOr(_) => l | r,
                    BinOp::BitXor(_) => l ^ r,
                    // no wider than u64 anywhere in this crate
                    BinOp::Shl(_) => ((l as u128) << r) as u64 as i128,
                    BinOp::Shr(_) => l >> r,
                    _ => return None,
                }
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last().unwrap();
                if segs.len() >= 2 {
                    match (&*segs[segs.len() - 2], &**name) {
                        ("u64", "MAX") => return Some(u64::MAX as i128),
                        ("u32", "MAX") => return Some(u32::MAX as i128),
                        ("u16", "MAX") => return Some(u16::MAX as i128),
                        ("u8", "MAX") => return Some(u8::MAX as i128),
                        ("u64", "BITS") => return Some(64),
                        ("u32", "BITS") => return Some(32),
                        ("u16", "BITS") => return Some(16),
                        ("u8", "BITS") => return Some(8),
                        _ => {}
                    }
                }
                if let Some(v) = env(name) {
                    v
                } else {
                    self.map.get(name)?.val
                }
            }
            Expr::MethodCall(m) => {
                let r = self.eval(&m.receiver, env)?;
                match &*m.method.to_string() {
                    "bits" => r,
                    "count_ones" => (r as u64).count_ones() as i128,
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
}

pub fn wrap(ty: &str, v: i128) -> i128 {
    match ty {
        "u8" => v as u8 as i128,
        "u16" => v as u16 as i128,
        "u32" => v as u32 as i128,
        "u64" => v as u64 as i128,
        "i32" => v as i32 as i128,
        "i64" => v as i64 as i128,
        _ => v,
    }
}
