@include log.inc
@text
// A log as conditions see it: fields by name (the lookup itself is C28's).
pub trait FieldProvider {
  spec fn value(&self, k: Seq<char>) -> Option<Seq<char>>;
  fn field_value(&self, key: &str) -> (r: Option<Cow<'_>>)
    ensures txt(r) == self.value(key@);
}
pub ghost struct Log { pub level: u32, pub kind: u32, pub msg: Option<Seq<char>>, pub fields: spec_fn(Seq<char>) -> Option<Seq<char>> }
#[verifier::external_body]
pub struct Regex {}
impl Regex {
  pub uninterp spec fn hits(&self, s: Seq<char>) -> bool;
  #[verifier::external_body]
  pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.hits(s@) { unimplemented!() }
}
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == is_prefix(p@, s@) { s.starts_with(p) }
@rule candidate.starts_with(__p) => vx_starts_with(candidate, __p)
@rule __v.iter().any(|__p| __b) => vxraw!("{ let mut vx_i: usize = 0; let mut vx_r = false; while vx_i < __v.len() invariant_except_break vx_i <= __v@.len(), vx_r == false, forall|j: int| 0 <= j < vx_i ==> !holds(#[trigger] __v@[j], the_log(log_type, log_level, *message, *fields)), ensures vx_r == (exists|j: int| 0 <= j < __v@.len() && holds(#[trigger] __v@[j], the_log(log_type, log_level, *message, *fields))), decreases __v@.len() - vx_i, { let __p = &__v[vx_i]; assert(decreases_to!(*__v => __v[vx_i as int])); if __b { vx_r = true; break; } vx_i = vx_i + 1; } vx_r }")
@rule __v.iter().all(|__p| __b) => vxraw!("{ let mut vx_i: usize = 0; let mut vx_r = true; while vx_i < __v.len() invariant_except_break vx_i <= __v@.len(), vx_r == true, forall|j: int| 0 <= j < vx_i ==> holds(#[trigger] __v@[j], the_log(log_type, log_level, *message, *fields)), ensures vx_r == (forall|j: int| 0 <= j < __v@.len() ==> holds(#[trigger] __v@[j], the_log(log_type, log_level, *message, *fields))), decreases __v@.len() - vx_i, { let __p = &__v[vx_i]; assert(decreases_to!(*__v => __v[vx_i as int])); if !__b { vx_r = false; break; } vx_i = vx_i + 1; } vx_r }")
@text
pub open spec fn the_log<F: FieldProvider>(t: LogType, l: LogLevel, m: LogMessage, f: F) -> Log {
  Log { level: l, kind: t.0, msg: value_text(m), fields: |k: Seq<char>| f.value(k) }
}
@fn bd-log-primitives/src/lib.rs StringOrBytes::as_str
@impl impl StringOrBytes
@frule __s.as_ref() => __s.as_str()
@spec
  ensures stxt(r) == value_text(*self),
