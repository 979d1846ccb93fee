//! vx: mechanical extraction of Rust functions from /repo's current source into a Verus file.
//!
//! usage: vx UNIT.vx --repo /repo --out FILE.rs --map MAP.json [--vacuity]
//!
//! A unit file names items of /repo, the rewrites to apply to them (all mechanical, all reported in
//! MAP.json) and the contracts to attach. Executable text comes only from /repo; the unit file
//! contributes contracts, loop invariants, proof hints and trusted declarations of external APIs.
//! Exit codes: 0 ok; 3 lost anchor / unsupported shape (the reason is on stdout as LOST: ...).
mod rewrite;
mod spec;

use proc_macro2::Span;
use quote::{quote, ToTokens};
use rewrite::*;
use spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn lost(msg: &str) -> ! {
  println!("LOST: {msg}");
  std::process::exit(3)
}

pub fn toks<T: ToTokens>(t: &T) -> String {
  t.to_token_stream().to_string()
}

#[derive(Clone)]
pub struct FoundFn {
  pub sig: Signature,
  pub block: Block,
  pub self_ty: Option<String>,
  pub self_full: String,
  pub trait_name: Option<String>,
  pub line: usize,
  pub end_line: usize,
}

fn type_name(t: &Type) -> String {
  match t {
    Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
    Type::Reference(r) => format!("&{}", type_name(&r.elem)),
    other => toks(other),
  }
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
  attrs.iter().any(|a| {
    let s = toks(a).replace(' ', "");
    s.starts_with("#[cfg(test") || s.contains("cfg(target_os=\"windows\")") || s == "#[cfg(not(target_os=\"linux\"))]" || s == "#[cfg(windows)]" || s.contains("cfg(target_arch=\"wasm32\")") || s == "#[test]"
  })
}

fn walk_items(items: &[Item], out: &mut Vec<FoundFn>, types: &mut HashMap<String, Item>) {
  for it in items {
    match it {
      Item::Fn(f) if !is_cfg_test(&f.attrs) => out.push(FoundFn {
        sig: f.sig.clone(),
        block: (*f.block).clone(),
        self_ty: None,
        self_full: String::new(),
        trait_name: None,
        line: f.sig.ident.span().start().line,
        end_line: f.block.brace_token.span.close().start().line,
      }),
      Item::Impl(i) if !is_cfg_test(&i.attrs) => {
        let ty = type_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        for m in &i.items {
          if let ImplItem::Fn(f) = m {
            if is_cfg_test(&f.attrs) {
              continue;
            }
            out.push(FoundFn {
              sig: f.sig.clone(),
              block: f.block.clone(),
              self_ty: Some(ty.clone()),
              self_full: toks(&*i.self_ty).replace(' ', ""),
              trait_name: tr.clone(),
              line: f.sig.ident.span().start().line,
              end_line: f.block.brace_token.span.close().start().line,
            });
          }
        }
      },
      Item::Trait(t) if !is_cfg_test(&t.attrs) => {
        for m in &t.items {
          if let TraitItem::Fn(f) = m {
            if let Some(b) = &f.default {
              out.push(FoundFn {
                sig: f.sig.clone(),
                block: b.clone(),
                self_ty: Some(t.ident.to_string()),
                self_full: String::new(),
                trait_name: None,
                line: f.sig.ident.span().start().line,
                end_line: b.brace_token.span.close().start().line,
              });
            }
          }
        }
      },
      Item::Mod(m) if !is_cfg_test(&m.attrs) => {
        if let Some((_, its)) = &m.content {
          walk_items(its, out, types);
        }
      },
      Item::Struct(s) if !is_cfg_test(&s.attrs) => {
        types.insert(s.ident.to_string(), it.clone());
      },
      Item::Enum(s) if !is_cfg_test(&s.attrs) => {
        types.insert(s.ident.to_string(), it.clone());
      },
      Item::Const(c) => {
        types.insert(c.ident.to_string(), it.clone());
      },
      Item::Type(c) => {
        types.insert(c.ident.to_string(), it.clone());
      },
      _ => {},
    }
  }
}

pub struct SourceFile {
  pub fns: Vec<FoundFn>,
  pub types: HashMap<String, Item>,
}

fn load(repo: &str, path: &str) -> SourceFile {
  let full = format!("{repo}/{path}");
  let text = std::fs::read_to_string(&full).unwrap_or_else(|_| lost(&format!("file {path} is gone")));
  let file = parse_file(&text).unwrap_or_else(|e| lost(&format!("cannot parse {path}: {e}")));
  let mut fns = vec![];
  let mut types = HashMap::new();
  walk_items(&file.items, &mut fns, &mut types);
  SourceFile { fns, types }
}

/// `name`, `Type::name` or `Trait for Type::name`.
pub fn find_fn<'a>(sf: &'a SourceFile, path: &str) -> Option<&'a FoundFn> {
  let (tr, rest) = match path.split_once(" for ") {
    Some((t, r)) => (Some(t.trim()), r.trim()),
    None => (None, path.trim()),
  };
  let (ty, name) = match rest.rsplit_once("::") {
    Some((t, n)) => (Some(t), n),
    None => (None, rest),
  };
  let m: Vec<&FoundFn> = sf
    .fns
    .iter()
    .filter(|f| {
      f.sig.ident == name
        && (f.self_ty.as_deref() == ty || ty.is_some_and(|t| t.contains(':') && f.self_full == t))
        && match tr {
          Some(t) => f.trait_name.as_deref() == Some(t),
          None => true,
        }
    })
    .collect();
  if m.len() > 1 && tr.is_none() {
    return m.iter().copied().find(|f| f.trait_name.is_none());
  }
  m.first().copied()
}

struct LoopCounter {
  n: usize,
}
impl VisitMut for LoopCounter {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    let body = match e {
      Expr::While(w) => Some(&mut w.body),
      Expr::Loop(l) => Some(&mut l.body),
      Expr::ForLoop(f) => Some(&mut f.body),
      _ => None,
    };
    if let Some(b) = body {
      let k = syn::Index::from(self.n);
      self.n += 1;
      let m: Stmt = parse_quote!(__vx_loop!(#k););
      let m2: Stmt = parse_quote!(__vx_loopend!(#k););
      b.stmts.insert(0, m);
      // The end marker is only a place for proof hints; not added after a tail expression.
      if !matches!(b.stmts.last(), Some(Stmt::Expr(x, None)) if !matches!(x, Expr::If(_)|Expr::Match(_)|Expr::Block(_)|Expr::While(_)|Expr::Loop(_)|Expr::ForLoop(_))) {
        if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
          if semi.is_none() {
            *semi = Some(Default::default());
          }
        }
        b.stmts.push(m2);
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
}

fn rustfmt(src: &str) -> Option<String> {
  use std::io::Write;
  let mut c = std::process::Command::new("rustfmt")
    .args(["--edition", "2021", "--config", "max_width=110,tab_spaces=2"])
    .stdin(std::process::Stdio::piped())
    .stdout(std::process::Stdio::piped())
    .stderr(std::process::Stdio::null())
    .spawn()
    .ok()?;
  c.stdin.take()?.write_all(src.as_bytes()).ok()?;
  let o = c.wait_with_output().ok()?;
  if !o.status.success() {
    return None;
  }
  String::from_utf8(o.stdout).ok()
}

fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

enum Piece {
  Text(String),
  Fn(usize),
}

struct OutFn {
  display: String,
  repo_file: String,
  line: usize,
  end_line: usize,
  header: String,
  spec: String,
  body: Block,
  entry: String,
  loops: BTreeMap<usize, String>,
  loop_entry: BTreeMap<usize, String>,
  loop_exit: BTreeMap<usize, String>,
  raws: Vec<String>,
  open: String,
  close: String,
  rules: Vec<String>,
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
  let repo = get("--repo").unwrap_or("/repo".into());
  let unit = Unit::parse_file(&args[1]);
  let vacuity = args.iter().any(|a| a == "--vacuity");

  let mut files: HashMap<String, SourceFile> = HashMap::new();
  for d in &unit.decls {
    let f = match d {
      Decl::Fn(f) => &f.file,
      Decl::Type(t) => &t.file,
      _ => continue,
    };
    if !files.contains_key(f) {
      files.insert(f.clone(), load(&repo, f));
    }
  }

  let known: BTreeSet<String> = unit
    .decls
    .iter()
    .filter_map(|d| match d {
      Decl::Fn(f) => Some(f.path.rsplit([':', ' ']).next().unwrap().to_string()),
      _ => None,
    })
    .chain(unit.known.iter().cloned())
    .collect();

  let mut pieces: Vec<Piece> = vec![];
  let mut outs: Vec<OutFn> = vec![];
  for d in &unit.decls {
    match d {
      Decl::Text(t) => pieces.push(Piece::Text(t.clone())),
      Decl::Type(t) => pieces.push(Piece::Text(emit_type(&files[&t.file], t, &unit))),
      Decl::Fn(f) => {
        let of = emit_fn(&files[&f.file], f, &unit, &known);
        pieces.push(Piece::Fn(outs.len()));
        outs.push(of);
      },
    }
  }

  // Format the bodies (executable text only).
  let mut all = String::new();
  for (i, o) in outs.iter_mut().enumerate() {
    LoopCounter { n: 0 }.visit_block_mut(&mut o.body);
    let _ = writeln!(all, "fn __vxbody_{i}() {}", toks(&o.body));
  }
  let formatted = rustfmt(&all).unwrap_or_else(|| all.clone());
  let mut bodies: Vec<String> = vec![];
  {
    let mut cur: Option<String> = None;
    for line in formatted.lines() {
      if let Some(rest) = line.strip_prefix("fn __vxbody_") {
        let start = rest.find('{').map(|p| rest[p + 1 ..].to_string()).unwrap_or_default();
        cur = Some(start.clone() + "\n");
        if start.trim_end().ends_with('}') {
          let s = start.trim_end();
          bodies.push(s[.. s.len() - 1].to_string());
          cur = None;
        }
        continue;
      }
      if line == "}" {
        if let Some(c) = cur.take() {
          bodies.push(c);
        }
        continue;
      }
      if let Some(c) = &mut cur {
        c.push_str(line);
        c.push('\n');
      }
    }
  }
  if bodies.len() != outs.len() {
    lost("internal: formatting split the functions differently");
  }

  let mut text = String::new();
  let mut map = String::from("{\n  \"functions\": [\n");
  text.push_str("// GENERATED by vx from /repo; do not edit.\n");
  text.push_str(&unit.header);
  let mut first = true;
  for p in &pieces {
    match p {
      Piece::Text(t) => {
        text.push_str(t);
        text.push('\n');
      },
      Piece::Fn(i) => {
        let o = &outs[*i];
        let mut body = bodies[*i].clone();
        // Loop markers.
        let nloops = body.matches("__vx_loop!(").count();
        let max_spec = o.loops.keys().max().map_or(0, |m| m + 1);
        if max_spec != nloops {
          lost(&format!("{}: {} loops found, contract has invariants for {}", o.display, nloops, max_spec));
        }
        for k in 0 .. nloops {
          let marker = format!("__vx_loop!({k});");
          let pos = body.find(&marker).unwrap();
          let brace = body[.. pos].rfind('{').unwrap();
          let inv = o.loops.get(&k).cloned().unwrap_or_default();
          let entry = o.loop_entry.get(&k).cloned().unwrap_or_default();
          let new = format!("{}\n{}\n{{\n{}{}", body[.. brace].trim_end(), inv.trim_end(), entry, &body[pos + marker.len() ..]);
          body = new;
          let endm = format!("__vx_loopend!({k});");
          body = body.replace(&endm, o.loop_exit.get(&k).map_or("", |s| s.as_str()));
        }
        for (k, r) in o.raws.iter().enumerate() {
          body = body.replace(&format!("__vx_raw_{k}!()"), r).replace(&format!("__vx_raw_{k}!();"), r);
          body = body.replace(&format!("__vxraw{k}__"), r);
        }
        let start = text.lines().count() + 1;
        if !o.open.is_empty() {
          let _ = writeln!(text, "{}", o.open);
        }
        let _ = writeln!(text, "{}", o.header);
        let _ = writeln!(text, "{}", o.spec.trim_end());
        text.push_str("{\n");
        if vacuity && !o.spec.contains("//novac") {
          text.push_str("  proof { assert(false); } // VACUITY\n");
        }
        text.push_str(&o.entry);
        text.push_str(&body);
        text.push_str("}\n");
        if !o.close.is_empty() {
          let _ = writeln!(text, "{}", o.close);
        }
        let end = text.lines().count();
        text.push('\n');
        if !first {
          map.push_str(",\n");
        }
        first = false;
        let _ = write!(
          map,
          "    {{\"name\": {}, \"file\": {}, \"src_line\": {}, \"src_end\": {}, \"out_start\": {start}, \"out_end\": {end}, \"loops\": {nloops}, \"rules\": [{}]}}",
          json_str(&o.display),
          json_str(&o.repo_file),
          o.line,
          o.end_line,
          o.rules.iter().map(|r| json_str(r)).collect::<Vec<_>>().join(", ")
        );
      },
    }
  }
  text.push_str("} // verus!\nfn main() {}\n");
  map.push_str("\n  ]\n}\n");
  std::fs::write(get("--out").expect("--out"), text).unwrap();
  if let Some(m) = get("--map") {
    std::fs::write(m, map).unwrap();
  }
}

fn emit_type(sf: &SourceFile, t: &TypeDecl, unit: &Unit) -> String {
  let Some(item) = sf.types.get(&t.name) else {
    lost(&format!("type {} not found in {}", t.name, t.file))
  };
  let mut item = item.clone();
  let mut rw = TypeRewriter { rules: &unit.type_rules };
  let keep = &t.derive;
  match &mut item {
    Item::Struct(s) => {
      s.attrs.clear();
      s.vis = parse_quote!(pub);
      if t.nogenerics {
        s.generics = Default::default();
      }
      match &mut s.fields {
        Fields::Named(n) => {
          let mut fs = syn::punctuated::Punctuated::new();
          for mut f in n.named.clone() {
            if is_cfg_test(&f.attrs) {
              continue;
            }
            f.attrs.clear();
            f.vis = parse_quote!(pub);
            let nm = f.ident.as_ref().unwrap().to_string();
            if t.dropfields.contains(&nm) {
              continue;
            }
            if let Some(ty) = t.fields.get(&nm) {
              f.ty = parse_str(ty).unwrap_or_else(|e| panic!("bad type {ty}: {e}"));
            } else {
              rw.visit_type_mut(&mut f.ty);
            }
            fs.push(f);
          }
          n.named = fs;
        },
        Fields::Unnamed(n) => {
          for f in n.unnamed.iter_mut() {
            f.vis = parse_quote!(pub);
            rw.visit_type_mut(&mut f.ty);
          }
        },
        Fields::Unit => {},
      }
      if let Fields::Named(n) = &s.fields {
        // Fields the contracts mention must exist; new fields are kept as they are.
        for want in t.fields.keys() {
          if !n.named.iter().any(|f| f.ident.as_ref().unwrap() == want) {
            lost(&format!("field {}.{} is gone", t.name, want));
          }
        }
      }
    },
    Item::Enum(e) => {
      e.attrs.clear();
      e.vis = parse_quote!(pub);
      if t.nogenerics {
        e.generics = Default::default();
      }
      for v in e.variants.iter_mut() {
        v.attrs.clear();
        for f in v.fields.iter_mut() {
          f.attrs.clear();
          rw.visit_type_mut(&mut f.ty);
        }
      }
    },
    Item::Const(c) => {
      c.attrs.clear();
      c.vis = parse_quote!(pub);
      rw.visit_type_mut(&mut c.ty);
      if let syn::Type::Reference(r) = &mut *c.ty {
        if r.lifetime.is_none() {
          r.lifetime = Some(parse_quote!('static));
        }
      }
    },
    Item::Type(c) => {
      c.attrs.clear();
      c.vis = parse_quote!(pub);
    },
    _ => {},
  }
  if let Some(n) = &t.rename {
    let n = syn::Ident::new(n, proc_macro2::Span::call_site());
    match &mut item {
      Item::Struct(s) => s.ident = n,
      Item::Enum(e) => e.ident = n,
      _ => {},
    }
  }
  let mut s = String::new();
  if !keep.is_empty() {
    let _ = writeln!(s, "#[derive({keep})]");
  }
  let text = match &t.extra {
    Some(x) => {
      // Extra ghost/shadow fields appended to a struct with named fields.
      let body = toks(&item);
      let pos = body.rfind('}').unwrap();
      format!("{}{} {}\n}}", &body[.. pos], if body[.. pos].trim_end().ends_with([',', '{']) { "" } else { "," }, x)
    },
    None => toks(&item),
  };
  s.push_str(&text);
  s.push('\n');
  s
}

struct ReturnFinder(bool);
impl<'a> Visit<'a> for ReturnFinder {
  fn visit_expr(&mut self, e: &'a Expr) {
    match e {
      Expr::Return(_) | Expr::Try(_) => self.0 = true,
      Expr::Closure(_) => {},
      _ => visit::visit_expr(self, e),
    }
  }
}

struct Inliner<'a> {
  sf: &'a SourceFile,
  me: &'a FoundFn,
  known: &'a BTreeSet<String>,
  notes: Vec<String>,
  depth: usize,
}

impl Inliner<'_> {
  fn target(&self, e: &Expr) -> Option<(FoundFn, Vec<Expr>, Option<Expr>)> {
    let named = |ty: Option<&str>, name: &str| -> Option<FoundFn> {
      if self.known.contains(name) {
        return None;
      }
      self.sf.fns.iter().find(|f| f.sig.ident == name && f.self_ty.as_deref() == ty && f.trait_name.is_none()).cloned()
    };
    match e {
      Expr::Call(c) => {
        let Expr::Path(p) = &*c.func else { return None };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        match segs.as_slice() {
          [n] => named(None, n).map(|f| (f, args, None)),
          [t, n] if t == "Self" || Some(t) == self.me.self_ty.as_ref() => named(self.me.self_ty.as_deref(), n).map(|f| {
            if f.sig.receiver().is_some() {
              let mut a = args.clone();
              let r = a.remove(0);
              (f, a, Some(r))
            } else {
              (f, args, None)
            }
          }),
          _ => None,
        }
      },
      Expr::MethodCall(m) => {
        let recv = &*m.receiver;
        let name = m.method.to_string();
        // Only a receiver that is certainly of this type: `self`.
        let is_self = matches!(recv, Expr::Path(p) if p.path.is_ident("self"));
        if !is_self {
          return None;
        }
        named(self.me.self_ty.as_deref(), &name).map(|f| (f, m.args.iter().cloned().collect(), Some(recv.clone())))
      },
      _ => None,
    }
  }

  fn expand(&mut self, f: &FoundFn, args: Vec<Expr>, recv: Option<Expr>) -> Expr {
    self.notes.push(format!("inlined local helper {}", f.sig.ident));
    let mut block = f.block.clone();
    strip_block(&mut block);
    let mut stmts: Vec<Stmt> = vec![];
    let mut binds: Vec<Stmt> = vec![];
    let mut i = 0;
    for inp in &f.sig.inputs {
      if let FnArg::Typed(t) = inp {
        let a = &args[i];
        i += 1;
        let pat = &t.pat;
        let ty = &t.ty;
        if toks(pat) == toks(a) {
          continue;
        }
        // Arguments are evaluated before any parameter is bound, so that no name is captured.
        let tmp = Ident::new(&format!("vx_arg{}_{i}", self.depth), Span::call_site());
        if matches!(**ty, Type::ImplTrait(_)) || toks(ty).contains('\'') {
          stmts.push(parse_quote!(let #tmp = #a;));
        } else {
          stmts.push(parse_quote!(let #tmp: #ty = #a;));
        }
        binds.push(parse_quote!(let #pat = #tmp;));
      }
    }
    stmts.extend(binds);
    if let Some(r) = recv {
      let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
      if !is_self {
        lost(&format!("helper {} has a receiver other than self", f.sig.ident));
      }
    }
    stmts.extend(block.stmts);
    let b = Block { brace_token: Default::default(), stmts };
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
  }

  fn has_return(f: &FoundFn) -> bool {
    let mut r = ReturnFinder(false);
    r.visit_block(&f.block);
    r.0
  }

  fn tail(&mut self, b: &mut Block) {
    // A call in tail position may be inlined together with its returns.
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter_mut().enumerate() {
      match s {
        Stmt::Expr(e, None) if i + 1 == n => self.tail_expr(e),
        Stmt::Expr(Expr::Return(r), _) => {
          if let Some(e) = &mut r.expr {
            self.tail_expr(e)
          }
        },
        _ => {},
      }
    }
  }
  fn tail_expr(&mut self, e: &mut Expr) {
    match e {
      Expr::If(i) => {
        self.tail(&mut i.then_branch);
        if let Some((_, e)) = &mut i.else_branch {
          self.tail_expr(e);
        }
      },
      Expr::Block(b) => self.tail(&mut b.block),
      Expr::Match(m) => {
        for a in &mut m.arms {
          self.tail_expr(&mut a.body);
        }
      },
      _ => {
        if let Some((f, args, recv)) = self.target(e) {
          self.depth += 1;
          if self.depth > 20 {
            lost("recursive helper");
          }
          *e = self.expand(&f, args, recv);
        }
      },
    }
  }
}

impl VisitMut for Inliner<'_> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    if let Some((mut f, args, recv)) = self.target(e) {
      self.depth += 1;
      if self.depth > 20 {
        lost("recursive helper");
      }
      if Self::has_return(&f) {
        rewrite::untail_block(&mut f.block);
      }
      if Self::has_return(&f) {
        lost(&format!("helper {} returns early and is not called in tail position", f.sig.ident));
      }
      *e = self.expand(&f, args, recv);
      visit_mut::visit_expr_mut(self, e);
    }
  }
}

pub fn strip_block(b: &mut Block) {
  struct S;
  impl VisitMut for S {
    fn visit_block_mut(&mut self, b: &mut Block) {
      b.stmts.retain(|s| {
        let attrs: &[Attribute] = match s {
          Stmt::Local(l) => &l.attrs,
          Stmt::Macro(m) => &m.attrs,
          Stmt::Expr(e, _) => expr_attrs(e),
          Stmt::Item(_) => &[],
        };
        !is_cfg_test(attrs)
      });
      for s in &mut b.stmts {
        match s {
          Stmt::Local(l) => l.attrs.clear(),
          Stmt::Macro(m) => m.attrs.clear(),
          Stmt::Expr(e, _) => {
            clear_attrs(e);
          },
          Stmt::Item(_) => {},
        }
      }
      visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
      clear_attrs(e);
      visit_mut::visit_expr_mut(self, e);
    }
  }
  S.visit_block_mut(b);
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
  match e {
    Expr::MethodCall(x) => &x.attrs,
    Expr::Call(x) => &x.attrs,
    Expr::If(x) => &x.attrs,
    Expr::Match(x) => &x.attrs,
    Expr::Block(x) => &x.attrs,
    Expr::Macro(x) => &x.attrs,
    Expr::Assign(x) => &x.attrs,
    Expr::Return(x) => &x.attrs,
    _ => &[],
  }
}
fn clear_attrs(e: &mut Expr) {
  match e {
    Expr::MethodCall(x) => x.attrs.clear(),
    Expr::Call(x) => x.attrs.clear(),
    Expr::If(x) => x.attrs.clear(),
    Expr::Match(x) => x.attrs.clear(),
    Expr::Block(x) => x.attrs.clear(),
    Expr::Macro(x) => x.attrs.clear(),
    Expr::Assign(x) => x.attrs.clear(),
    Expr::Return(x) => x.attrs.clear(),
    Expr::Cast(x) => x.attrs.clear(),
    _ => {},
  }
}

fn emit_fn(sf: &SourceFile, f: &FnDecl, unit: &Unit, known: &BTreeSet<String>) -> OutFn {
  let Some(found) = find_fn(sf, &f.path) else {
    lost(&format!("function {} not found in {}", f.path, f.file))
  };
  let mut body = found.block.clone();
  strip_block(&mut body);
  let mut first = vec![];
  rewrite::SelectPass { notes: &mut first }.visit_block_mut(&mut body);
  rewrite::pinned_tail(&mut body, &mut first);
  rewrite::AsyncLetPass { notes: &mut first }.visit_block_mut(&mut body);
  let mut inl = Inliner { sf, me: found, known, notes: first, depth: 0 };
  if !f.noinline {
    inl.tail(&mut body);
    inl.visit_block_mut(&mut body);
  }
  let mut notes = std::mem::take(&mut inl.notes);
  // `mut self` by value: a mutable local in its place.
  if f.recv.is_none() {
    if let Some(FnArg::Receiver(r)) = found.sig.inputs.first() {
      if r.reference.is_none() && r.mutability.is_some() && r.colon_token.is_none() {
        struct S;
        impl VisitMut for S {
          fn visit_ident_mut(&mut self, i: &mut Ident) {
            if i == "self" {
              *i = Ident::new("vx_self", i.span());
            }
          }
          fn visit_item_mut(&mut self, _: &mut syn::Item) {}
        }
        S.visit_block_mut(&mut body);
        body.stmts.insert(0, syn::parse_quote!(let mut vx_self = self;));
        notes.push("mut self".into());
      }
    }
  }
  let mut raws = vec![];
  let mut rules: Vec<Rule> = f.rules.clone();
  rules.extend(unit.rules.iter().cloned());
  rewrite_block(&mut body, unit, f, &rules, &mut notes, &mut raws);

  // Signature.
  let mut sig = found.sig.clone();
  let name = f.rename.clone().unwrap_or(sig.ident.to_string());
  sig.ident = Ident::new(&name, Span::call_site());
  sig.constness = None;
  sig.asyncness = None;
  if f.nogenerics {
    sig.generics = Default::default();
  }
  let mut rw = TypeRewriter { rules: &unit.type_rules };
  let mut inputs = vec![];
  let n_typed = sig.inputs.iter().filter(|i| matches!(i, FnArg::Typed(_))).count();
  let mut seen = BTreeSet::new();
  let mut idx = 0;
  for i in &sig.inputs {
    match i {
      FnArg::Receiver(r) => {
        let s = match f.recv.as_deref() {
          Some("mut") => "&mut self".to_string(),
          Some("ref") => "&self".to_string(),
          Some("own") => "self".to_string(),
          Some("ownmut") => "mut self".to_string(),
          Some("none") => continue,
          Some(other) => other.to_string(),
          None if r.reference.is_none() && r.colon_token.is_none() => "self".to_string(),
          None => toks(r).replace("& mut self", "&mut self").replace("& self", "&self"),
        };
        inputs.push(s);
      },
      FnArg::Typed(t) => {
        let pat = toks(&t.pat);
        let key = pat.replace("mut ", "");
        seen.insert(key.clone());
        let ov = f.params.get(&key).or_else(|| f.params.get(&format!("#{idx}")));
        idx += 1;
        if let Some(ty) = ov {
          if ty == "drop" {
            continue;
          }
          inputs.push(format!("{pat}: {ty}"));
        } else {
          let mut ty = (*t.ty).clone();
          rw.visit_type_mut(&mut ty);
          inputs.push(format!("{pat}: {}", toks(&ty)));
        }
      },
    }
  }
  let _ = n_typed;
  for extra in &f.extra_params {
    inputs.push(extra.clone());
  }
  let ret = match &f.ret {
    Some(r) => {
      if let Some((n, t)) = r.split_once(':') {
        format!(" -> ({n}: {t})")
      } else {
        match &sig.output {
          ReturnType::Default => String::new(),
          ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            rw.visit_type_mut(&mut t);
            format!(" -> ({r}: {})", toks(&t))
          },
        }
      }
    },
    None => match &sig.output {
      ReturnType::Default => String::new(),
      ReturnType::Type(_, t) => {
        let mut t = (**t).clone();
        rw.visit_type_mut(&mut t);
        format!(" -> (r: {})", toks(&t))
      },
    },
  };
  let generics = match &f.generics {
    Some(g) => g.clone(),
    None => {
      let mut g = sig.generics.clone();
      let mut r2 = TypeRewriter { rules: &unit.type_rules };
      r2.visit_generics_mut(&mut g);
      toks(&g)
    },
  };
  let wherec = if f.generics.is_some() { String::new() } else { sig.generics.where_clause.as_ref().map(|w| toks(w)).unwrap_or_default() };
  let vis = "pub ";
  let attrs = f.attrs.join("\n");
  let header = format!("{attrs}\n{vis}fn {name}{generics}({}){ret} {wherec}", inputs.join(", "));
  let (open, close) = match &f.impl_header {
    Some(h) if h == "none" => (String::new(), String::new()),
    Some(h) => (format!("{h} {{"), "}".into()),
    None => match &found.self_ty {
      Some(t) => (format!("impl {t} {{"), "}".into()),
      None => (String::new(), String::new()),
    },
  };
  OutFn {
    display: f.path.clone(),
    repo_file: f.file.clone(),
    line: found.line,
    end_line: found.end_line,
    header,
    spec: f.spec.clone(),
    body,
    entry: f.entry.clone(),
    loops: f.loops.clone(),
    loop_entry: f.loop_entry.clone(),
    loop_exit: f.loop_exit.clone(),
    raws,
    open,
    close,
    rules: {
      let mut m: Vec<String> = vec![];
      for n in notes {
        if !m.contains(&n) {
          m.push(n);
        }
      }
      m
    },
  }
}

#[allow(dead_code)]
fn unused() {
  let _ = quote!();
}
