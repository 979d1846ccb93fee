//! Mechanical rewrites on syn trees.
use crate::spec::{FnDecl, Unit};
use crate::{lost, toks};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Rule {
  pub src: String,
  pat: Expr,
  rep: Expr,
}

#[derive(Clone)]
pub struct TypeRule {
  pat: Type,
  rep: Type,
  pub src: String,
}

impl Rule {
  pub fn new(a: &str, b: &str) -> Self {
    Self {
      src: format!("{} => {}", a.split_whitespace().collect::<Vec<_>>().join(" "), b.split_whitespace().collect::<Vec<_>>().join(" ")),
      pat: parse_str(a).unwrap_or_else(|e| panic!("bad pattern {a}: {e}")),
      rep: parse_str(b).unwrap_or_else(|e| panic!("bad replacement {b}: {e}")),
    }
  }
}
impl TypeRule {
  pub fn new(a: &str, b: &str) -> Self {
    Self {
      src: format!("{a} => {b}"),
      pat: parse_str(a).unwrap_or_else(|e| panic!("bad type pattern {a}: {e}")),
      rep: parse_str(b).unwrap_or_else(|e| panic!("bad type replacement {b}: {e}")),
    }
  }
}

#[derive(Clone)]
pub enum Bind {
  E(Expr),
  P(Pat),
  T(Type),
}
impl Bind {
  fn toks(&self) -> String {
    match self {
      Self::E(e) => toks(e),
      Self::P(e) => toks(e),
      Self::T(e) => toks(e),
    }
  }
}
pub type Binds = HashMap<String, Bind>;

fn meta_path(e: &Expr) -> Option<String> {
  if let Expr::Path(p) = e {
    if let Some(i) = p.path.get_ident() {
      let s = i.to_string();
      if s.starts_with("__") && !s.starts_with("__vx") {
        return Some(s);
      }
    }
  }
  None
}

fn bind(b: &mut Binds, k: String, v: Bind) -> bool {
  if let Some(o) = b.get(&k) {
    return o.toks() == v.toks();
  }
  b.insert(k, v);
  true
}

fn strip(e: &Expr) -> &Expr {
  match e {
    Expr::Group(g) => strip(&g.expr),
    Expr::Paren(g) => strip(&g.expr),
    _ => e,
  }
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
  fn visit_expr(&mut self, e: &'a Expr) {
    match e {
      Expr::Return(_) | Expr::Try(_) => self.0 = true,
      Expr::Closure(_) => {},
      Expr::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "bail") => self.0 = true,
      _ => visit::visit_expr(self, e),
    }
  }
  fn visit_stmt_macro(&mut self, m: &'a StmtMacro) {
    if m.mac.path.segments.last().map_or(false, |s| s.ident == "bail") {
      self.0 = true;
    }
  }
}

fn match_pat(p: &Pat, e: &Pat, b: &mut Binds) -> bool {
  let p = if let Pat::Type(t) = p { &*t.pat } else { p };
  let e = if let Pat::Type(t) = e { &*t.pat } else { e };
  if let Pat::Ident(i) = p {
    let s = i.ident.to_string();
    if s.starts_with("__") {
      return bind(b, s, Bind::P(e.clone()));
    }
  }
  match (p, e) {
    (Pat::Tuple(x), Pat::Tuple(y)) => x.elems.len() == y.elems.len() && x.elems.iter().zip(y.elems.iter()).all(|(m, n)| match_pat(m, n, b)),
    (Pat::Reference(x), Pat::Reference(y)) => match_pat(&x.pat, &y.pat, b),
    (Pat::TupleStruct(x), Pat::TupleStruct(y)) => toks(&x.path) == toks(&y.path) && x.elems.len() == y.elems.len() && x.elems.iter().zip(y.elems.iter()).all(|(m, n)| match_pat(m, n, b)),
    _ => toks(p) == toks(e),
  }
}

pub fn match_type(p: &Type, e: &Type, b: &mut Binds) -> bool {
  if let Type::Path(pp) = p {
    if let Some(i) = pp.path.get_ident() {
      let s = i.to_string();
      if s.starts_with("__") {
        return bind(b, s, Bind::T(e.clone()));
      }
    }
    if let Type::Path(ep) = e {
      let (ps, es) = (&pp.path.segments, &ep.path.segments);
      if ps.len() != es.len() {
        return false;
      }
      for (x, y) in ps.iter().zip(es.iter()) {
        if x.ident != y.ident {
          return false;
        }
        match (&x.arguments, &y.arguments) {
          (PathArguments::AngleBracketed(a), PathArguments::AngleBracketed(c)) => {
            if a.args.len() != c.args.len() {
              return false;
            }
            for (m, n) in a.args.iter().zip(c.args.iter()) {
              match (m, n) {
                (GenericArgument::Type(m), GenericArgument::Type(n)) => {
                  if !match_type(m, n, b) {
                    return false;
                  }
                },
                (GenericArgument::Lifetime(m), GenericArgument::Lifetime(n)) => {
                  // '_ in a pattern stands for any lifetime.
                  if m.ident != "_" && m.ident != n.ident {
                    return false;
                  }
                },
                _ => {
                  if toks(m) != toks(n) {
                    return false;
                  }
                },
              }
            }
          },
          (PathArguments::None, PathArguments::None) => {},
          (m, n) => {
            if toks(m) != toks(n) {
              return false;
            }
          },
        }
      }
      return true;
    }
    return false;
  }
  if let (Type::Reference(p), Type::Reference(e)) = (p, e) {
    return p.mutability.is_some() == e.mutability.is_some() && match_type(&p.elem, &e.elem, b);
  }
  toks(p) == toks(e)
}

pub fn match_expr(p: &Expr, e: &Expr, b: &mut Binds) -> bool {
  if let Some(k) = meta_path(p) {
    return bind(b, k, Bind::E(e.clone()));
  }
  let p = strip(p);
  let e = strip(e);
  match (p, e) {
    (Expr::MethodCall(p), Expr::MethodCall(e)) => {
      p.method == e.method
        && p.args.len() == e.args.len()
        && (p.turbofish.is_none() || p.turbofish.as_ref().map(toks) == e.turbofish.as_ref().map(toks))
        && match_expr(&p.receiver, &e.receiver, b)
        && p.args.iter().zip(e.args.iter()).all(|(x, y)| match_expr(x, y, b))
    },
    (Expr::Call(p), Expr::Call(e)) => {
      p.args.len() == e.args.len() && match_expr(&p.func, &e.func, b) && p.args.iter().zip(e.args.iter()).all(|(x, y)| match_expr(x, y, b))
    },
    (Expr::Field(p), Expr::Field(e)) => toks(&p.member) == toks(&e.member) && match_expr(&p.base, &e.base, b),
    (Expr::Unary(p), Expr::Unary(e)) => toks(&p.op) == toks(&e.op) && match_expr(&p.expr, &e.expr, b),
    (Expr::Binary(p), Expr::Binary(e)) => toks(&p.op) == toks(&e.op) && match_expr(&p.left, &e.left, b) && match_expr(&p.right, &e.right, b),
    (Expr::Reference(p), Expr::Reference(e)) => p.mutability.is_some() == e.mutability.is_some() && match_expr(&p.expr, &e.expr, b),
    (Expr::Index(p), Expr::Index(e)) => match_expr(&p.expr, &e.expr, b) && match_expr(&p.index, &e.index, b),
    (Expr::Cast(p), Expr::Cast(e)) => toks(&p.ty) == toks(&e.ty) && match_expr(&p.expr, &e.expr, b),
    (Expr::Try(p), Expr::Try(e)) => match_expr(&p.expr, &e.expr, b),
    (Expr::Await(p), Expr::Await(e)) => match_expr(&p.base, &e.base, b),
    (Expr::Assign(p), Expr::Assign(e)) => match_expr(&p.left, &e.left, b) && match_expr(&p.right, &e.right, b),
    (Expr::Range(p), Expr::Range(e)) => {
      toks(&p.limits) == toks(&e.limits)
        && match (&p.start, &e.start) {
          (Some(x), Some(y)) => match_expr(x, y, b),
          (None, None) => true,
          _ => false,
        }
        && match (&p.end, &e.end) {
          (Some(x), Some(y)) => match_expr(x, y, b),
          (None, None) => true,
          _ => false,
        }
    },
    (Expr::Tuple(p), Expr::Tuple(e)) => p.elems.len() == e.elems.len() && p.elems.iter().zip(e.elems.iter()).all(|(x, y)| match_expr(x, y, b)),
    (Expr::Array(p), Expr::Array(e)) => p.elems.len() == e.elems.len() && p.elems.iter().zip(e.elems.iter()).all(|(x, y)| match_expr(x, y, b)),
    (Expr::Closure(p), Expr::Closure(e)) => {
      if p.inputs.len() != e.inputs.len() {
        return false;
      }
      let mut h = HasReturn(false);
      h.visit_expr(&e.body);
      if h.0 {
        return false;
      }
      p.inputs.iter().zip(e.inputs.iter()).all(|(x, y)| match_pat(x, y, b)) && match_expr(&p.body, &e.body, b)
    },
    (Expr::Struct(p), Expr::Struct(e)) => {
      toks(&p.path) == toks(&e.path)
        && toks(&p.rest) == toks(&e.rest)
        && p.fields.len() == e.fields.len()
        && p.fields.iter().all(|x| e.fields.iter().any(|y| toks(&x.member) == toks(&y.member) && match_expr(&x.expr, &y.expr, b)))
    },
    (Expr::Unsafe(p), Expr::Unsafe(e)) => match_block(&p.block, &e.block, b),
    (Expr::Block(p), Expr::Block(e)) => match_block(&p.block, &e.block, b),
    (Expr::Let(p), Expr::Let(e)) => match_pat(&p.pat, &e.pat, b) && match_expr(&p.expr, &e.expr, b),
    (Expr::If(p), Expr::If(e)) => {
      match_expr(&p.cond, &e.cond, b)
        && match_block(&p.then_branch, &e.then_branch, b)
        && match (&p.else_branch, &e.else_branch) {
          (Some((_, x)), Some((_, y))) => match_expr(x, y, b),
          (None, None) => true,
          _ => false,
        }
    },
    (Expr::Path(p), Expr::Path(e)) => {
      // A turbofish in the source matches a pattern without one.
      let strip_args = |p: &ExprPath| p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
      toks(p) == toks(e) || (!toks(p).contains('<') && p.qself.is_none() && e.qself.is_none() && strip_args(p) == strip_args(e) && p.path.segments.len() > 1)
    },
    _ => toks(p) == toks(e),
  }
}

fn match_block(p: &Block, e: &Block, b: &mut Binds) -> bool {
  match (p.stmts.as_slice(), e.stmts.as_slice()) {
    ([Stmt::Expr(x, None)], [Stmt::Expr(y, None)]) => match_expr(x, y, b),
    _ => toks(p) == toks(e),
  }
}

struct Subst<'a> {
  b: &'a Binds,
  raws: &'a mut Vec<String>,
}
fn needs_paren(e: &Expr) -> bool {
  !matches!(
    e,
    Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Index(_) | Expr::Macro(_) | Expr::Tuple(_) | Expr::Try(_) | Expr::Block(_) | Expr::Struct(_)
  )
}
impl VisitMut for Subst<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Some(k) = meta_path(e) {
      match self.b.get(&k) {
        Some(Bind::E(x)) => {
          *e = if needs_paren(x) {
            let x = x.clone();
            parse_quote!((#x))
          } else {
            x.clone()
          };
          return;
        },
        Some(Bind::P(p)) => {
          *e = parse_str(&toks(p)).unwrap_or_else(|_| lost("pattern used as expression"));
          return;
        },
        _ => panic!("unbound {k}"),
      }
    }
    if let Expr::Macro(m) = e {
      if m.mac.path.is_ident("vxraw") {
        let lit: LitStr = m.mac.parse_body().unwrap();
        let mut s = lit.value();
        let mut keys: Vec<_> = self.b.keys().collect();
        keys.sort_by_key(|k| std::cmp::Reverse(k.len()));
        for k in keys {
          s = s.replace(k.as_str(), &self.b[k].toks());
        }
        let n = self.raws.len();
        self.raws.push(s);
        let id = Ident::new(&format!("__vx_raw_{n}"), proc_macro2::Span::call_site());
        *e = parse_quote!(#id!());
        return;
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
  fn visit_pat_mut(&mut self, p: &mut Pat) {
    if let Pat::Ident(i) = p {
      let s = i.ident.to_string();
      if let Some(Bind::P(x)) = self.b.get(&s) {
        *p = x.clone();
        return;
      }
      if let Some(Bind::E(x)) = self.b.get(&s) {
        *p = Pat::parse_single_str(&toks(x));
        return;
      }
    }
    visit_mut::visit_pat_mut(self, p);
  }
}
trait ParsePat {
  fn parse_single_str(s: &str) -> Pat;
}
impl ParsePat for Pat {
  fn parse_single_str(s: &str) -> Pat {
    use syn::parse::Parser;
    Pat::parse_single.parse_str(s).unwrap_or_else(|_| lost("expression used as pattern"))
  }
}

pub struct TypeRewriter<'a> {
  pub rules: &'a [TypeRule],
}
struct TSubst<'a>(&'a Binds);
impl VisitMut for TSubst<'_> {
  fn visit_type_mut(&mut self, t: &mut Type) {
    if let Type::Path(p) = t {
      if let Some(i) = p.path.get_ident() {
        if let Some(Bind::T(x)) = self.0.get(&i.to_string()) {
          *t = x.clone();
          return;
        }
      }
    }
    visit_mut::visit_type_mut(self, t);
  }
}
impl VisitMut for TypeRewriter<'_> {
  fn visit_type_mut(&mut self, t: &mut Type) {
    visit_mut::visit_type_mut(self, t);
    for r in self.rules {
      let mut b = Binds::new();
      if match_type(&r.pat, t, &mut b) {
        let mut rep = r.rep.clone();
        TSubst(&b).visit_type_mut(&mut rep);
        *t = rep;
        break;
      }
    }
  }
}

struct Rewriter<'a> {
  rules: &'a [Rule],
  notes: &'a mut Vec<String>,
  raws: &'a mut Vec<String>,
}
impl VisitMut for Rewriter<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    let mut budget = 12;
    'outer: while budget > 0 {
      budget -= 1;
      for r in self.rules {
        let mut b = Binds::new();
        if match_expr(&r.pat, e, &mut b) {
          let mut rep = r.rep.clone();
          Subst { b: &b, raws: self.raws }.visit_expr_mut(&mut rep);
          if toks(&rep) == toks(e) {
            continue;
          }
          self.notes.push(format!("rule {}", r.src));
          *e = rep;
          // Inner parts may now match again (receivers of chains were already rewritten).
          visit_mut::visit_expr_mut(self, e);
          continue 'outer;
        }
      }
      break;
    }
  }
}

struct MacroRewriter<'a> {
  macros: &'a [(String, String)],
  notes: &'a mut Vec<String>,
}
impl MacroRewriter<'_> {
  fn find(&self, path: &str) -> Option<String> {
    self.macros.iter().find(|(k, _)| k == path || (k.ends_with("::*") && path.starts_with(&k[.. k.len() - 1]))).map(|(_, a)| a.clone())
  }
  fn expr(&mut self, m: &Macro) -> Option<Expr> {
    let path = toks(&m.path).replace(' ', "");
    if path.starts_with("__vx") || path == "vxdrop" {
      return None;
    }
    use syn::parse::Parser;
    let args = || -> Option<Vec<Expr>> {
      let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
      p.parse2(m.tokens.clone()).ok().map(|x| x.into_iter().collect())
    };
    if let Some(a) = self.find(&path) {
      self.notes.push(format!("macro {path}! => {a}"));
      if a == "drop" {
        return Some(parse_quote!(vxdrop!()));
      }
      if let Some(rest) = a.strip_prefix("call1 ") {
        let f: Expr = parse_str(rest).unwrap();
        let a = args()?;
        let x = &a[0];
        return Some(parse_quote!(#f(#x)));
      }
      if let Some(rest) = a.strip_prefix("call2 ") {
        let f: Expr = parse_str(rest).unwrap();
        let a = args()?;
        let x = &a[0];
        let y = &a[1];
        return Some(parse_quote!(#f(#x, #y)));
      }
      if let Some(rest) = a.strip_prefix("callall ") {
        let f: Expr = parse_str(rest).unwrap();
        let a = args()?;
        return Some(parse_quote!(#f(#(#a),*)));
      }
      if let Some(rest) = a.strip_prefix("expr ") {
        return Some(parse_str(rest).unwrap());
      }
      if a == "keep" {
        return None;
      }
      panic!("bad macro action {a}");
    }
    match path.as_str() {
      "matches" => {
        // matches!(e, pat) => match e { pat => true, _ => false }
        let parser = |input: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
          let e: Expr = input.parse()?;
          input.parse::<Token![,]>()?;
          let p = Pat::parse_multi_with_leading_vert(input)?;
          let g = if input.peek(Token![if]) {
            input.parse::<Token![if]>()?;
            Some(input.parse::<Expr>()?)
          } else {
            None
          };
          let _ = input.parse::<Option<Token![,]>>();
          Ok((e, p, g))
        };
        let (e, p, g) = parser.parse2(m.tokens.clone()).ok()?;
        Some(match g {
          None => parse_quote!(match #e { #p => true, _ => false }),
          Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
        })
      },
      "vec" => {
        let rep = |input: syn::parse::ParseStream| -> Result<(Expr, Expr)> {
          let e: Expr = input.parse()?;
          input.parse::<Token![;]>()?;
          Ok((e, input.parse()?))
        };
        if let Ok((x, n)) = rep.parse2(m.tokens.clone()) {
          return Some(parse_quote!(vx_vec_n(#x, #n)));
        }
        let a = args()?;
        if a.is_empty() {
          return Some(parse_quote!(Vec::new()));
        }
        Some(parse_quote!({ let mut vx_vec = Vec::new(); #(vx_vec.push(#a);)* vx_vec }))
      },
      "format" => {
        let mut a = args()?.into_iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = a.next() else { return None };
        let mut e: Expr = parse_quote!(String::new());
        let mut lit = String::new();
        let f = f.value();
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
          match c {
            '{' if it.peek() == Some(&'{') => {
              it.next();
              lit.push('{');
            },
            '}' => {
              if it.next() != Some('}') {
                return None;
              }
              lit.push('}');
            },
            '{' => {
              let mut name = String::new();
              loop {
                match it.next()? {
                  '}' => break,
                  c => name.push(c),
                }
              }
              if !lit.is_empty() {
                e = parse_quote!(vx_cat(#e, #lit));
                lit.clear();
              }
              let x: Expr = if name.is_empty() { a.next()? } else { parse_str(&name).ok()? };
              e = parse_quote!(vx_cat(#e, &#x));
            },
            c => lit.push(c),
          }
        }
        if a.next().is_some() {
          return None;
        }
        if !lit.is_empty() {
          e = parse_quote!(vx_cat(#e, #lit));
        }
        Some(e)
      },
      "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
      _ => None,
    }
  }
}
fn expand_select(m: &Macro, notes: &mut Vec<String>) -> Option<Expr> {
  use syn::parse::Parser;

        // Whichever of the branches: each is taken at some point its future allows, with a value its pattern accepts.
        let parser = |input: syn::parse::ParseStream| -> Result<Vec<(Option<Pat>, Option<Expr>, Option<Expr>, Expr)>> {
          let mut v = vec![];
          if input.peek(Ident) && input.peek2(Token![;]) {
            input.parse::<Ident>()?;
            input.parse::<Token![;]>()?;
          }
          while !input.is_empty() {
            let (mut p, mut f, mut c) = (None, None, None);
            if input.peek(Token![else]) {
              input.parse::<Token![else]>()?;
            } else {
              p = Some(Pat::parse_multi_with_leading_vert(input)?);
              input.parse::<Token![=]>()?;
              f = Some(input.parse::<Expr>()?);
              if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
                input.parse::<Token![if]>()?;
                c = Some(input.parse::<Expr>()?);
              }
            }
            input.parse::<Token![=>]>()?;
            let h = if input.peek(token::Brace) {
              let b: Block = input.parse()?;
              parse_quote!(#b)
            } else {
              input.parse::<Expr>()?
            };
            input.parse::<Option<Token![,]>>()?;
            v.push((p, f, c, h));
          }
          Ok(v)
        };
        let branches = parser.parse2(m.tokens.clone()).ok()?;
        notes.push(format!("{}! of {} branches => any of them", toks(&m.path).replace(' ', ""), branches.len()));
        let mut e: Expr = parse_quote!(vx_never());
        for (i, (p, f, c, h)) in branches.into_iter().enumerate().rev() {
          let body: Expr = match (p, f) {
            (Some(p), Some(f)) => {
              let f: Expr = match f {
                Expr::Async(a) => { let b = a.block; parse_quote!(#b) },
                f => parse_quote!(#f.await),
              };
              match &p {
                Pat::Ident(_) | Pat::Wild(_) => parse_quote!({ let #p = #f; #h }),
                Pat::Tuple(t) if t.elems.is_empty() => parse_quote!({ #f; #h }),
                _ => parse_quote!(match #f { #p => #h, _ => vx_never() }),
              }
            },
            _ => h,
          };
          e = match c {
            Some(c) => parse_quote!(if vx_sel == #i && #c { #body } else { #e }),
            None => parse_quote!(if vx_sel == #i { #body } else { #e }),
          };
        }
        Some(parse_quote!({ let vx_sel = vx_choose(); #e }))
      }
// `let f = async { B }; .. f.await ..`: B runs where it is awaited.
pub struct AsyncLetPass<'a> {
  pub notes: &'a mut Vec<String>,
}
struct AwaitUse<'a> { name: &'a syn::Ident, uses: usize, with: Option<Block> }
impl VisitMut for AwaitUse<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Await(a) = e {
      if let Expr::Path(p) = &*a.base {
        if p.path.is_ident(self.name) {
          self.uses += 1;
          if let Some(b) = self.with.take() { *e = parse_quote!(#b); }
          return;
        }
      }
    }
    if let Expr::Path(p) = e { if p.path.is_ident(self.name) { self.uses += 1000; } }
    visit_mut::visit_expr_mut(self, e);
  }
}
struct Leaves(bool);
impl VisitMut for Leaves {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if matches!(e, Expr::Return(_) | Expr::Try(_)) { self.0 = true; }
    if !matches!(e, Expr::Closure(_) | Expr::Async(_)) { visit_mut::visit_expr_mut(self, e); }
  }
}
fn idents(t: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
  for x in t {
    match x {
      proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); },
      proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
      _ => {},
    }
  }
}
// `Box::pin(async { B })`, the future of a trait's method: B runs where it is awaited. As the result of the function,
// what leaves B leaves the function.
pub fn pinned_tail(b: &mut Block, notes: &mut Vec<String>) {
  if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
    if let Some(body) = pinned(e) {
      notes.push("the future returned => run".into());
      *e = parse_quote!(#body);
    }
  }
}
fn pinned(e: &Expr) -> Option<Block> {
  if let Expr::Call(c) = e {
    if c.func.to_token_stream().to_string() == "Box :: pin" && c.args.len() == 1 {
      if let Expr::Async(a) = &c.args[0] { return Some(a.block.clone()); }
    }
  }
  None
}
impl VisitMut for AsyncLetPass<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Some(mut body) = pinned(e) {
      let mut leaves = Leaves(false);
      leaves.visit_block_mut(&mut body);
      if !leaves.0 {
        self.notes.push("a future => run".into());
        *e = parse_quote!(#body);
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
  fn visit_block_mut(&mut self, b: &mut Block) {
    let mut i = 0;
    while i < b.stmts.len() {
      let found = match &b.stmts[i] {
        Stmt::Local(l) => match (&l.pat, &l.init) {
          (Pat::Ident(p), Some(init)) => match &*init.expr { Expr::Async(a) => Some((p.ident.clone(), a.block.clone())), _ => None },
          _ => None,
        },
        _ => None,
      };
      if let Some((name, mut body)) = found {
        let mut leaves = Leaves(false);
        leaves.visit_block_mut(&mut body);
        let mut used = std::collections::BTreeSet::new();
        idents(body.to_token_stream(), &mut used);
        let shadowed = b.stmts[i + 1 ..].iter().any(|s| match s {
          Stmt::Local(l) => { let mut v = std::collections::BTreeSet::new(); idents(l.pat.to_token_stream(), &mut v); v.iter().any(|x| used.contains(x)) },
          _ => false,
        });
        let mut rest = b.stmts.split_off(i + 1);
        let count = |rest: &mut Vec<Stmt>, with: Option<Block>| { let mut u = AwaitUse { name: &name, uses: 0, with }; for s in rest.iter_mut() { u.visit_stmt_mut(s); } u.uses };
        if !leaves.0 && !shadowed && count(&mut rest, None) == 1 {
          count(&mut rest, Some(body));
          self.notes.push(format!("async block {name} => where it is awaited"));
          b.stmts.pop();
          b.stmts.extend(rest);
          continue;
        }
        b.stmts.extend(rest);
      }
      i += 1;
    }
    visit_mut::visit_block_mut(self, b);
  }
}
pub struct SelectPass<'a> {
  pub notes: &'a mut Vec<String>,
}
impl VisitMut for SelectPass<'_> {
  fn visit_block_mut(&mut self, b: &mut Block) {
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter_mut().enumerate() {
      if let Stmt::Macro(m) = s {
        if m.mac.path.segments.last().map_or(false, |s| s.ident == "select") {
          if let Some(e) = expand_select(&m.mac, self.notes) {
            *s = Stmt::Expr(e, if i + 1 == n && m.semi_token.is_none() { None } else { Some(Default::default()) });
          }
        }
      }
    }
    visit_mut::visit_block_mut(self, b);
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Macro(m) = e {
      if m.mac.path.segments.last().map_or(false, |s| s.ident == "select") {
        if let Some(x) = expand_select(&m.mac, self.notes) {
          *e = x;
        }
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
}
/// A static inside a function body that never changes is a name for its value.
struct StaticLet;
impl VisitMut for StaticLet {
  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    if let Stmt::Item(Item::Static(i)) = s {
      if matches!(i.mutability, StaticMutability::None) && !matches!(&*i.ty, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with("Atomic"))) {
        let (id, ty, e) = (&i.ident, &i.ty, &i.expr);
        *s = parse_quote!(let #id: #ty = #e;);
      }
    }
    visit_mut::visit_stmt_mut(self, s);
  }
}
impl VisitMut for MacroRewriter<'_> {
  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    if let Stmt::Macro(m) = s {
      if let Some(e) = self.expr(&m.mac) {
        *s = Stmt::Expr(e, Some(m.semi_token.unwrap_or_default()));
        if let Stmt::Expr(_, semi) = s {
          let _ = semi;
        }
      }
    }
    visit_mut::visit_stmt_mut(self, s);
  }
  fn visit_block_mut(&mut self, b: &mut Block) {
    // A macro of the function's own whose uses are all rewritten.
    b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(m)) if m.ident.as_ref().map_or(false, |i| self.find(&i.to_string()).is_some())));
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter_mut().enumerate() {
      if let Stmt::Macro(m) = s {
        // A macro in tail position without semicolon is an expression.
        let is_tail = i + 1 == n && m.semi_token.is_none();
        if let Some(e) = self.expr(&m.mac) {
          *s = Stmt::Expr(e, if is_tail { None } else { Some(Default::default()) });
        }
      }
    }
    visit_mut::visit_block_mut(self, b);
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Macro(m) = e {
      if let Some(x) = self.expr(&m.mac) {
        *e = x;
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
}

fn drop_stmts(b: &mut Block) {
  struct D;
  impl VisitMut for D {
    fn visit_block_mut(&mut self, b: &mut Block) {
      b.stmts.retain(|s| {
        let mac = match s {
          Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
          Stmt::Macro(m) => Some(&m.mac),
          _ => None,
        };
        !mac.map_or(false, |m| m.path.is_ident("vxdrop"))
      });
      visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
      visit_mut::visit_expr_mut(self, e);
      if let Expr::Macro(m) = e {
        if m.mac.path.is_ident("vxdrop") {
          *e = parse_quote!({});
        }
      }
    }
  }
  D.visit_block_mut(b);
}

struct GuardSubst {
  id: String,
  place: Expr,
}
fn pat_binds(p: &Pat, id: &str) -> bool {
  struct B<'a>(&'a str, bool);
  impl<'a, 'b> Visit<'a> for B<'b> {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
      if p.ident == self.0 {
        self.1 = true;
      }
      visit::visit_pat_ident(self, p);
    }
  }
  let mut b = B(id, false);
  b.visit_pat(p);
  b.1
}
/// Does a condition bind `id` (if let / while let, also in && chains)?
fn cond_binds(e: &Expr, id: &str) -> bool {
  match e {
    Expr::Let(l) => pat_binds(&l.pat, id),
    Expr::Binary(b) => cond_binds(&b.left, id) || cond_binds(&b.right, id),
    Expr::Paren(p) => cond_binds(&p.expr, id),
    _ => false,
  }
}
impl VisitMut for GuardSubst {
  fn visit_block_mut(&mut self, b: &mut Block) {
    let mut shadowed = false;
    for s in &mut b.stmts {
      if shadowed {
        break;
      }
      if let Stmt::Local(l) = s {
        if pat_binds(&l.pat, &self.id) {
          if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
          }
          shadowed = true;
          continue;
        }
      }
      self.visit_stmt_mut(s);
    }
  }
  fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
    if !c.inputs.iter().any(|p| pat_binds(p, &self.id)) {
      visit_mut::visit_expr_closure_mut(self, c);
    }
  }
  fn visit_arm_mut(&mut self, a: &mut Arm) {
    if !pat_binds(&a.pat, &self.id) {
      visit_mut::visit_arm_mut(self, a);
    }
  }
  fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
    if cond_binds(&i.cond, &self.id) {
      self.visit_expr_mut(&mut i.cond);
      if let Some((_, e)) = &mut i.else_branch {
        self.visit_expr_mut(e);
      }
    } else {
      visit_mut::visit_expr_if_mut(self, i);
    }
  }
  fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
    self.visit_expr_mut(&mut f.expr);
    if !pat_binds(&f.pat, &self.id) {
      self.visit_block_mut(&mut f.body);
    }
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::Unary(u) = e {
      if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&self.id)) {
        *e = self.place.clone();
        return;
      }
    }
    if matches!(e, Expr::Path(p) if p.path.is_ident(&self.id)) {
      *e = self.place.clone();
      return;
    }
    visit_mut::visit_expr_mut(self, e);
  }
  fn visit_macro_mut(&mut self, m: &mut Macro) {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    if let Ok(mut a) = p.parse2(m.tokens.clone()) {
      for e in a.iter_mut() {
        self.visit_expr_mut(e);
      }
      m.tokens = a.to_token_stream();
    }
  }
}

/// `let g = PLACE.lock();` is removed and `g` / `*g` become PLACE: the lock is held to the end of the
/// block, so that the function body is one critical section.
fn inline_guards(b: &mut Block, unit: &Unit, notes: &mut Vec<String>) {
  struct G<'a> {
    unit: &'a Unit,
    notes: &'a mut Vec<String>,
  }
  impl VisitMut for G<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
      let mut i = 0;
      while i < b.stmts.len() {
        let mut found: Option<(String, Expr)> = None;
        if let Stmt::Local(l) = &b.stmts[i] {
          if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
            for g in &self.unit.guards {
              let mut bd = Binds::new();
              if match_expr(g, &init.expr, &mut bd) {
                if let Some(Bind::E(p)) = bd.get("__p") {
                  found = Some((id.ident.to_string(), p.clone()));
                }
              }
            }
          }
        }
        if let Some((id, place)) = found {
          self.notes.push(format!("lock guard `{id}` replaced by the place it guards ({})", toks(&place)));
          b.stmts.remove(i);
          let mut s = GuardSubst { id, place };
          let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i) };
          s.visit_block_mut(&mut rest);
          b.stmts.extend(rest.stmts);
          continue;
        }
        i += 1;
      }
      visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
      visit_mut::visit_expr_mut(self, e);
      for g in &self.unit.guards {
        let mut bd = Binds::new();
        if match_expr(g, e, &mut bd) {
          if let Some(Bind::E(p)) = bd.get("__p") {
            self.notes.push(format!("temporary lock guard replaced by the place it guards ({})", toks(p)));
            *e = p.clone();
            break;
          }
        }
      }
    }
  }
  if unit.guards.is_empty() {
    return;
  }
  G { unit, notes }.visit_block_mut(b);
}

struct ForToLoop<'a> {
  n: usize,
  counts: usize,
  maps: &'a [String],
  notes: &'a mut Vec<String>,
}
impl VisitMut for ForToLoop<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Expr::ForLoop(f) = e {
      if matches!(&*f.expr, Expr::Range(_)) {
        // A range that only counts.
        if matches!(&*f.pat, Pat::Wild(_)) {
          let n = syn::Ident::new(&format!("vx_n{}", self.counts), proc_macro2::Span::call_site());
          self.counts += 1;
          *f.pat = parse_quote!(#n);
        }
        visit_mut::visit_expr_mut(self, e);
        return;
      }
      let k = self.n;
      self.n += 1;
      // Numbered elements, each exclusively.
      let numbered = match &*f.expr {
        Expr::Reference(r) if r.mutability.is_some() => &*r.expr,
        x => x,
      };
      if let (Expr::MethodCall(m), Pat::Tuple(t)) = (numbered, &*f.pat) {
        if let (true, Expr::MethodCall(im)) = (m.method == "enumerate", &*m.receiver) {
          let last = match &*im.receiver { Expr::Field(f) => toks(&f.member), Expr::Path(p) => toks(p), _ => String::new() };
          if im.method == "iter_mut" && t.elems.len() == 2 && self.maps.contains(&last) {
            self.notes.push("for (I, P) in V.iter_mut().enumerate() {B} => an index loop over V with let I = i, let P = &mut V[i]".into());
            let it = Ident::new(&format!("vx_it{k}"), proc_macro2::Span::call_site());
            let (pi, pv, v, l, stmts) = (&t.elems[0], &t.elems[1], &im.receiver, &f.label, &f.body.stmts);
            *e = parse_quote!({
              let mut #it: usize = 0;
              #l while #it < #v.len() {
                let #pi = #it;
                let #pv = &mut #v[#it];
                #it = #it + 1;
                #(#stmts)*
              }
            });
            visit_mut::visit_expr_mut(self, e);
            return;
          }
        }
      }
      let over = match &*f.expr {
        Expr::Reference(r) if r.mutability.is_some() && !matches!(&*r.expr, Expr::MethodCall(m) if m.method == "enumerate") => Some((*r.expr).clone()),
        Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
      };
      if let Some(v) = over {
        self.notes.push("for P in &mut V {B} => an index loop over V with let P = &mut V[i]".into());
        let it = Ident::new(&format!("vx_it{k}"), proc_macro2::Span::call_site());
        let (p, l, stmts) = (&f.pat, &f.label, &f.body.stmts);
        // Entries of a map: the key is shared, the value is exclusive.
        if let Pat::Tuple(t) = &*f.pat {
          let last = match &v { Expr::Field(f) => toks(&f.member), Expr::Path(p) => toks(p), _ => String::new() };
          if t.elems.len() == 2 && self.maps.contains(&last) {
            let (pk, pv) = (&t.elems[0], &t.elems[1]);
            self.notes.push("for (K, P) in &mut MAP {B} => an index loop over MAP's entries with let K = MAP.vx_key(i), let P = MAP.vx_val(i)".into());
            *e = parse_quote!({
              let mut #it: usize = 0;
              #l while #it < #v.len() {
                let #pk = #v.vx_key(#it);
                let #pv = #v.vx_val(#it);
                #it = #it + 1;
                #(#stmts)*
              }
            });
            visit_mut::visit_expr_mut(self, e);
            return;
          }
        }
        *e = parse_quote!({
          let mut #it: usize = 0;
          #l while #it < #v.len() {
            let #p = &mut #v[#it];
            #it = #it + 1;
            #(#stmts)*
          }
        });
        visit_mut::visit_expr_mut(self, e);
        return;
      }
      self.notes.push("for P in E {B} => let mut it = E.into_iter(); loop { match it.next() { Some(P) => B, None => break } } (Rust's definition of for)".into());
      let it = Ident::new(&format!("vx_it{k}"), proc_macro2::Span::call_site());
      let (p, x, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
      let body_stmts = &b.stmts;
      *e = parse_quote!({
        let mut #it = vx_into_iter(#x);
        #l loop {
          match #it.next() {
            Some(#p) => { #(#body_stmts)* }
            None => break,
          }
        }
      });
    }
    visit_mut::visit_expr_mut(self, e);
  }
}

/// A match on text constants is a chain of comparisons.
struct StrMatch<'a> {
  on: bool,
  notes: &'a mut Vec<String>,
}
impl StrMatch<'_> {
  fn consts(&self, p: &Pat) -> Option<Vec<Expr>> {
    match p {
      Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
      Pat::Path(q) if self.on => Some(vec![Expr::Path(q.clone())]),
      Pat::Ident(i) if self.on && i.subpat.is_none() && i.ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') => {
        let id = &i.ident;
        Some(vec![parse_quote!(#id)])
      },
      Pat::Or(o) => {
        let v: Option<Vec<Vec<Expr>>> = o.cases.iter().map(|c| self.consts(c)).collect();
        v.map(|v| v.into_iter().flatten().collect())
      },
      _ => None,
    }
  }
}
impl VisitMut for StrMatch<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    let Expr::Match(m) = e else { return };
    if m.arms.is_empty() || m.arms.iter().any(|a| a.guard.is_some()) {
      return;
    }
    let n = m.arms.len();
    let heads: Option<Vec<Vec<Expr>>> = m.arms[.. n - 1].iter().map(|a| self.consts(&a.pat)).collect();
    let Some(heads) = heads else { return };
    if heads.is_empty() || self.consts(&m.arms[n - 1].pat).is_some() {
      return;
    }
    let last = &m.arms[n - 1];
    let b = &last.body;
    let mut x: Expr = match &last.pat {
      Pat::Wild(_) => parse_quote!({ #b }),
      Pat::Ident(i) => {
        let id = &i.ident;
        parse_quote!({ let #id = vx_m; #b })
      },
      _ => return,
    };
    for (a, h) in m.arms[.. n - 1].iter().zip(&heads).rev() {
      let b = &a.body;
      let mut c: Option<Expr> = None;
      for k in h {
        let t: Expr = parse_quote!(vx_str_eq(vx_m, #k));
        c = Some(match c {
          None => t,
          Some(c) => parse_quote!(#c || #t),
        });
      }
      let c = c.unwrap();
      x = parse_quote!(if #c { #b } else #x);
      x = if let Expr::If(_) = &x { x } else { unreachable!() };
    }
    self.notes.push("match on text constants => comparisons in the same order".into());
    let s = &m.expr;
    *e = parse_quote!({ let vx_m = #s; #x });
  }
}

/// `loop { .. break X .. }` as a value: the value goes through a variable.
struct LoopValue<'a> {
  n: usize,
  notes: &'a mut Vec<String>,
}
struct BreakValue {
  id: Ident,
  hit: bool,
}
impl VisitMut for BreakValue {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    match e {
      Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => return,
      Expr::Break(b) if b.label.is_none() => {
        if let Some(x) = b.expr.take() {
          let id = &self.id;
          *e = parse_quote!({ #id = Some(#x); break; });
          self.hit = true;
        }
        return;
      },
      _ => {},
    }
    visit_mut::visit_expr_mut(self, e);
  }
}
impl VisitMut for LoopValue<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    if let Expr::Loop(l) = e {
      let id = Ident::new(&format!("vx_brk{}", self.n), proc_macro2::Span::call_site());
      let mut v = BreakValue { id: id.clone(), hit: false };
      v.visit_block_mut(&mut l.body);
      if v.hit {
        self.n += 1;
        self.notes.push("loop { .. break X .. } as a value => { let mut b = None; loop { .. b = Some(X); break; .. } b.unwrap() }".into());
        *e = parse_quote!({ let mut #id = None; #l #id.unwrap() });
      }
    }
  }
}

/// A `return X` in tail position of a closure is X.
struct ClosureTail;
fn untail(e: &mut Expr) {
  match e {
    Expr::Return(r) => match r.expr.take() {
      Some(x) => {
        *e = *x;
        untail(e);
      },
      None => *e = parse_quote!(()),
    },
    Expr::Block(b) => untail_block(&mut b.block),
    Expr::Paren(p) => untail(&mut p.expr),
    Expr::If(i) => {
      if let Some((_, el)) = &mut i.else_branch {
        untail_block(&mut i.then_branch);
        untail(el);
      }
    },
    Expr::Match(m) => {
      for a in &mut m.arms {
        untail(&mut a.body);
      }
    },
    _ => {},
  }
}
// A block that ends by returning.
fn returns(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
pub fn untail_block(b: &mut Block) {
  // `if c { .. return X; } rest` is `if c { .. X } else { rest }`; likewise `let P = e else { .. return X };`.
  let n = b.stmts.len();
  for i in 0 .. n.saturating_sub(1) {
    let rest = || -> Block { Block { brace_token: Default::default(), stmts: b.stmts[i + 1 ..].to_vec() } };
    let new: Option<Expr> = match &b.stmts[i] {
      Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() && returns(&x.then_branch) => {
        let (c, t, r) = (&x.cond, &x.then_branch, rest());
        Some(parse_quote!(if #c #t else #r))
      },
      Stmt::Local(l) => match &l.init {
        Some(LocalInit { expr, diverge: Some((_, d)), .. }) if matches!(&**d, Expr::Block(x) if returns(&x.block)) => {
          let (p, r) = (&l.pat, rest());
          Some(parse_quote!(match #expr { #p => #r, _ => #d }))
        },
        _ => None,
      },
      _ => None,
    };
    if let Some(e) = new {
      b.stmts.truncate(i);
      b.stmts.push(Stmt::Expr(e, None));
      break;
    }
  }
  if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
    if semi.is_none() || matches!(e, Expr::Return(_)) {
      *semi = None;
      untail(e);
    }
  }
}
impl VisitMut for ClosureTail {
  fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
    untail(&mut c.body);
    visit_mut::visit_expr_closure_mut(self, c);
  }
}

struct Hints<'a> {
  f: &'a FnDecl,
  raws: &'a mut Vec<String>,
}
struct Contains<'a>(&'a Expr, bool);
impl<'a> Visit<'a> for Contains<'_> {
  fn visit_expr(&mut self, e: &'a Expr) {
    let mut b = Binds::new();
    if match_expr(self.0, e, &mut b) {
      self.1 = true;
      return;
    }
    visit::visit_expr(self, e);
  }
  fn visit_block(&mut self, _: &'a Block) {
    // Only the statement itself, not the blocks nested in it.
  }
}
impl VisitMut for Hints<'_> {
  fn visit_block_mut(&mut self, b: &mut Block) {
    visit_mut::visit_block_mut(self, b);
    let mut out = vec![];
    for s in std::mem::take(&mut b.stmts) {
      let mut before = vec![];
      let mut after = vec![];
      for (is_before, pat, text) in &self.f.hints {
        let mut c = Contains(pat, false);
        c.visit_stmt(&s);
        if c.1 {
          let n = self.raws.len();
          self.raws.push(text.clone());
          let id = Ident::new(&format!("__vx_raw_{n}"), proc_macro2::Span::call_site());
          let st: Stmt = parse_quote!(#id!(););
          if *is_before {
            before.push(st);
          } else {
            after.push(st);
          }
        }
      }
      out.extend(before);
      out.push(s);
      out.extend(after);
    }
    b.stmts = out;
  }
}

pub fn rewrite_block(body: &mut Block, unit: &Unit, f: &FnDecl, rules: &[Rule], notes: &mut Vec<String>, raws: &mut Vec<String>) {
  let mut macros = unit.macros.clone();
  for (k, a) in [
    ("anyhow::bail", "expr return Err(vx_err())"),
    ("bail", "expr return Err(vx_err())"),
    ("anyhow::anyhow", "expr vx_err()"),
    ("anyhow", "expr vx_err()"),
    ("debug_assert", "drop"),
    ("debug_assert_eq", "drop"),
    ("log::*", "drop"),
    ("warn_every", "drop"),
    ("error_every", "drop"),
    ("bd_log::warn_every", "drop"),
  ] {
    macros.push((k.into(), a.into()));
  }
  inline_guards(body, unit, notes);
  StaticLet.visit_block_mut(body);
  MacroRewriter { macros: &macros, notes }.visit_block_mut(body);
  drop_stmts(body);
  ClosureTail.visit_block_mut(body);
  if !f.opts.contains_key("keepfor") {
    ForToLoop { n: 0, counts: 0, maps: &unit.maps, notes }.visit_block_mut(body);
  }
  StrMatch { on: f.opts.contains_key("strmatch"), notes }.visit_block_mut(body);
  LoopValue { n: 0, notes }.visit_block_mut(body);
  Hints { f, raws }.visit_block_mut(body);
  Rewriter { rules, notes, raws }.visit_block_mut(body);
  drop_stmts(body);
  let mut tr = TypeRewriter { rules: &unit.type_rules };
  tr.visit_block_mut(body);
  // A replacement that became a plain block statement keeps its meaning.
}
