//! Parser of unit files. A line starting with '@' is a directive; the lines after it, up to the next
//! directive, are its block.
use crate::rewrite::{Rule, TypeRule};
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone)]
pub struct FnDecl {
  pub file: String,
  pub path: String,
  pub rename: Option<String>,
  pub impl_header: Option<String>,
  pub recv: Option<String>,
  pub nogenerics: bool,
  pub noinline: bool,
  pub generics: Option<String>,
  pub ret: Option<String>,
  pub params: HashMap<String, String>,
  pub extra_params: Vec<String>,
  pub spec: String,
  pub entry: String,
  pub loops: BTreeMap<usize, String>,
  pub loop_entry: BTreeMap<usize, String>,
  pub loop_exit: BTreeMap<usize, String>,
  pub rules: Vec<Rule>,
  pub hints: Vec<(bool, syn::Expr, String)>,
  pub attrs: Vec<String>,
  pub opts: HashMap<String, String>,
}

#[derive(Default, Clone)]
pub struct TypeDecl {
  pub file: String,
  pub name: String,
  pub derive: String,
  pub nogenerics: bool,
  pub fields: HashMap<String, String>,
  pub dropfields: Vec<String>,
  pub rename: Option<String>,
  pub extra: Option<String>,
}

pub enum Decl {
  Text(String),
  Fn(FnDecl),
  Type(TypeDecl),
}

#[derive(Default)]
pub struct Unit {
  pub header: String,
  pub decls: Vec<Decl>,
  pub rules: Vec<Rule>,
  pub late: Vec<Rule>,
  pub type_rules: Vec<TypeRule>,
  pub macros: Vec<(String, String)>,
  pub known: Vec<String>,
  pub maps: Vec<String>,
  pub guards: Vec<syn::Expr>,
}

impl Unit {
  pub fn parse_file(path: &str) -> Self {
    let mut u = Self::default();
    u.header = "#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, unreachable_code, non_snake_case, unused_must_use, non_camel_case_types, redundant_semicolons)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\nverus! {\n".into();
    u.load(path);
    let late = std::mem::take(&mut u.late);
    u.rules.extend(late);
    u
  }

  fn load(&mut self, path: &str) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut blocks: Vec<(String, String)> = vec![];
    for line in text.lines() {
      if line.starts_with('@') {
        blocks.push((line.to_string(), String::new()));
      } else if line.starts_with("//@") {
      } else if let Some(b) = blocks.last_mut() {
        b.1.push_str(line);
        b.1.push('\n');
      }
    }
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    for (d, block) in blocks {
      let (key, rest) = d.split_once(' ').map(|(a, b)| (a.to_string(), b.trim().to_string())).unwrap_or((d.clone(), String::new()));
      let arrow = |s: &str| -> (String, String) {
        let (a, b) = s.split_once("=>").unwrap_or_else(|| panic!("{path}: no => in {s}"));
        (a.trim().to_string(), b.trim().to_string())
      };
      match key.as_str() {
        "@include" => {
          // Rules of an included file come after those of the including one.
          let mark = self.rules.len();
          self.load(dir.join(&rest).to_str().unwrap());
          let inc = self.rules.split_off(mark);
          self.late.extend(inc);
        },
        "@text" => self.decls.push(Decl::Text(block)),
        "@header" => self.header = block,
        "@rule" => {
          let full = format!("{rest}\n{block}");
          let (a, b) = arrow(&full);
          self.rules.push(Rule::new(&a, &b));
        },
        "@type_rule" => {
          let (a, b) = arrow(&rest);
          self.type_rules.push(TypeRule::new(&a, &b));
        },
        "@macro" => {
          let (a, b) = arrow(&rest);
          self.macros.insert(0, (a, b));
        },
        "@map" => self.maps.extend(rest.split_whitespace().map(String::from)),
        "@known" => self.known.extend(rest.split_whitespace().map(String::from)),
        "@guard" => self.guards.push(syn::parse_str(&rest).unwrap()),
        "@type" => {
          let (f, n) = rest.split_once(' ').unwrap();
          self.decls.push(Decl::Type(TypeDecl { file: f.into(), name: n.trim().into(), ..Default::default() }));
        },
        "@fn" => {
          let (f, n) = rest.split_once(' ').unwrap();
          self.decls.push(Decl::Fn(FnDecl { file: f.into(), path: n.trim().into(), ..Default::default() }));
        },
        _ => match self.decls.last_mut() {
          Some(Decl::Type(t)) => match key.as_str() {
            "@derive" => t.derive = rest,
            "@as" => t.rename = Some(rest),
            "@nogenerics" => t.nogenerics = true,
            "@field" => {
              let (a, b) = rest.split_once(':').unwrap();
              t.fields.insert(a.trim().into(), b.trim().into());
            },
            "@dropfield" => t.dropfields.extend(rest.split_whitespace().map(String::from)),
            "@extra" => t.extra = Some(format!("{rest}\n{block}")),
            k => panic!("{path}: unknown directive {k} after @type"),
          },
          Some(Decl::Fn(f)) => match key.as_str() {
            "@as" => f.rename = Some(rest),
            "@impl" => f.impl_header = Some(rest),
            "@self" => f.recv = Some(rest),
            "@nogenerics" => f.nogenerics = true,
            "@noinline" => f.noinline = true,
            "@generics" => f.generics = Some(rest),
            "@ret" => f.ret = Some(rest),
            "@param" => {
              let (a, b) = rest.split_once(':').unwrap();
              f.params.insert(a.trim().into(), b.trim().into());
            },
            "@extra_param" => f.extra_params.push(rest),
            "@spec" => f.spec = block,
            "@entry" => f.entry = block,
            "@loop" => {
              f.loops.insert(rest.parse().unwrap(), block);
            },
            "@loop_entry" => {
              f.loop_entry.insert(rest.parse().unwrap(), block);
            },
            "@loop_exit" => {
              f.loop_exit.insert(rest.parse().unwrap(), block);
            },
            "@frule" => {
              let full = format!("{rest}\n{block}");
              let (a, b) = arrow(&full);
              f.rules.push(Rule::new(&a, &b));
            },
            "@before" | "@after" => {
              f.hints.push((key == "@before", syn::parse_str(&rest).unwrap_or_else(|e| panic!("{path}: {rest}: {e}")), block));
            },
            "@attr" => f.attrs.push(rest),
            "@opt" => {
              let (a, b) = rest.split_once('=').unwrap_or((&rest, "1"));
              f.opts.insert(a.trim().into(), b.trim().into());
            },
            k => panic!("{path}: unknown directive {k} after @fn"),
          },
          _ => panic!("{path}: directive {key} out of place"),
        },
      }
    }
  }
}
