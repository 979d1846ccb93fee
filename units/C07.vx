@include log.inc
@text
// A log, by what its parts say.
pub enum Val { T(Seq<char>), B(Seq<u8>) }
pub ghost struct Fld { pub key: Seq<char>, pub val: Val }
pub open spec fn val(v: LogFieldValue) -> Val { match v { StringOrBytes::String(s) => Val::T(s@), StringOrBytes::Bytes(b) => Val::B(b@) } }
pub open spec fn fld(f: LogField) -> Fld { Fld { key: f.key@, val: val(f.value) } }
pub open spec fn flds(s: Seq<LogField>) -> Seq<Fld> { s.map_values(|f: LogField| fld(f)) }
pub ghost struct Lg { pub level: u32, pub kind: u32, pub msg: Val, pub cap: Seq<Fld>, pub mat: Seq<Fld> }
pub open spec fn named(s: Seq<Fld>, k: Seq<char>) -> Option<int>
  decreases s.len(),
{ if s.len() == 0 { None } else if s[0].key == k { Some(0) } else { match named(s.drop_first(), k) { Some(i) => Some(i + 1), None => None } } }
pub open spec fn others(s: Seq<Fld>, k: Seq<char>) -> Seq<Fld>
  decreases s.len(),
{ if s.len() == 0 { s } else if s.last().key == k { others(s.drop_last(), k) } else { others(s.drop_last(), k).push(s.last()) } }
pub open spec fn put(s: Seq<Fld>, f: Fld) -> Seq<Fld> { others(s, f.key).push(f) }
// std's position, find and retain by name.
#[verifier::external_body]
pub fn vx_position(v: &Vec<LogField>, k: &str) -> (r: Option<usize>)
  ensures match r { Some(i) => named(flds(v@), k@) == Some(i as int) && i < v@.len(), None => named(flds(v@), k@) is None },
{ v.iter().position(|f| f.key == k) }
pub trait VxRetain: Sized {
  spec fn without(&self, k: Seq<char>) -> Seq<Fld>;
  spec fn all(&self) -> Seq<Fld>;
  fn vx_retain_others(&mut self, k: &str)
    ensures final(self).all() == old(self).without(k@);
}
impl VxRetain for Vec<LogField> {
  open spec fn without(&self, k: Seq<char>) -> Seq<Fld> { others(flds(self@), k) }
  open spec fn all(&self) -> Seq<Fld> { flds(self@) }
  #[verifier::external_body]
  fn vx_retain_others(&mut self, k: &str) { self.retain(|f| f.key != k) }
}
pub fn vx_find2<'a>(a: &'a Vec<LogField>, b: &'a Vec<LogField>, k: &str) -> (r: Option<&'a LogField>)
  ensures match r { Some(f) => named(flds(a@ + b@), k@) is Some && fld(*f) == flds(a@ + b@)[named(flds(a@ + b@), k@)->Some_0], None => named(flds(a@ + b@), k@) is None },
{
  proof { lemma_named_concat(flds(a@), flds(b@), k@); assert(flds(a@ + b@) =~= flds(a@) + flds(b@)); lemma_named(flds(a@), k@); lemma_named(flds(b@), k@); }
  match vx_position(a, k) { Some(i) => Some(&a[i]), None => match vx_position(b, k) { Some(i) => Some(&b[i]), None => None } }
}
pub proof fn lemma_named(s: Seq<Fld>, k: Seq<char>)
  ensures match named(s, k) { Some(i) => 0 <= i < s.len() && s[i].key == k && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).key != k), None => forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).key != k },
  decreases s.len(),
{
  if s.len() > 0 && s[0].key != k {
    lemma_named(s.drop_first(), k);
    assert forall|j: int| 1 <= j < s.len() implies #[trigger] s[j] == s.drop_first()[j - 1] by {}
  }
}
// The first of that name is where the names before it differ.
pub proof fn lemma_first(s: Seq<Fld>, k: Seq<char>, i: int)
  requires 0 <= i < s.len(), s[i].key == k, forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).key != k,
  ensures named(s, k) == Some(i),
{ lemma_named(s, k); }
pub proof fn lemma_none(s: Seq<Fld>, k: Seq<char>)
  requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).key != k,
  ensures named(s, k) is None,
{ lemma_named(s, k); }
pub proof fn lemma_none_if(s: Seq<Fld>, k: Seq<char>)
  ensures (forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).key != k) ==> named(s, k) is None,
{ lemma_named(s, k); }
pub proof fn lemma_named_concat(a: Seq<Fld>, b: Seq<Fld>, k: Seq<char>)
  ensures named(a + b, k) == match named(a, k) { Some(i) => Some(i), None => match named(b, k) { Some(i) => Some(a.len() + i), None => None } },
{
  lemma_named(a, k); lemma_named(b, k);
  match named(a, k) {
    Some(i) => { assert forall|j: int| 0 <= j < i implies (#[trigger] (a + b)[j]).key != k by { assert((a + b)[j] == a[j]); } lemma_first(a + b, k, i); },
    None => match named(b, k) {
      Some(i) => {
        assert forall|j: int| 0 <= j < a.len() + i implies (#[trigger] (a + b)[j]).key != k by { if j < a.len() { assert((a + b)[j] == a[j]); } else { assert((a + b)[j] == b[j - a.len()]); } }
        lemma_first(a + b, k, a.len() + i);
      },
      None => {
        assert forall|j: int| 0 <= j < (a + b).len() implies (#[trigger] (a + b)[j]).key != k by { if j < a.len() { assert((a + b)[j] == a[j]); } else { assert((a + b)[j] == b[j - a.len()]); } }
        lemma_none(a + b, k);
      },
    },
  }
}
impl<'a> Cow<'a> {
  pub fn into_owned(self) -> (r: String) ensures r@ == self@ { match self { Cow::Borrowed(s) => s.vx_string(), Cow::Owned(s) => s } }
}
impl<'a> VxString for Cow<'a> {
  open spec fn text(&self) -> Seq<char> { self@ }
  fn vx_string(&self) -> (r: String) { self.as_ref().vx_string() }
}
// Regular expressions rewrite a text into a text.
#[verifier::external_body]
pub struct Regex {}
impl Regex {
  pub uninterp spec fn subst(&self, s: Seq<char>, by: Seq<char>) -> Seq<char>;
  #[verifier::external_body]
  pub fn replace_all<'a>(&self, s: &'a str, by: &str) -> (r: Cow<'a>) ensures r@ == self.subst(s@, by@) { unimplemented!() }
}
// Conditions are C06's.
#[verifier::external_body]
pub struct Tree {}
impl Tree {
  pub uninterp spec fn holds(&self, v: Lg) -> bool;
  #[verifier::external_body]
  pub fn do_match(&self, level: LogLevel, kind: LogType, msg: &LogMessage, fields: &FieldsRef) -> (r: bool)
    ensures r == self.holds(Lg { level, kind: kind.0, msg: val(*msg), cap: flds(fields.captured_fields@), mat: flds(fields.matching_fields@) }),
  { unimplemented!() }
}
@type_rule bd_log_matcher::matcher::Tree => Tree
@rule __v.iter().position(|__f| __f.key == __k) => vx_position(&__v, &__k)
@rule __v.retain(|__f| __f.key != __k) => __v.vx_retain_others(&__k)
@rule __a.iter().chain(__b.iter()).find(|__f| __f.key == __k) => vx_find2(&__a, &__b, __k)
@rule __a.iter().chain(__b.iter()).any(|__f| __f.key == __k) => vx_find2(&__a, &__b, __k).is_some()
@type bd-log-primitives/src/lib.rs LOG_FIELD_NAME_MESSAGE
@text
mod bd_log_primitives { pub use super::LogField; }
@rule __x.into() => StringOrBytes::String(__x)
@type bd-log-primitives/src/lib.rs Log
@type bd-log-filter/src/lib.rs FilterChain
@type bd-log-filter/src/lib.rs Filter
@type bd-log-filter/src/lib.rs Transform
@type bd-log-filter/src/lib.rs CaptureField
@type bd-log-filter/src/lib.rs FieldType
@type bd-log-filter/src/lib.rs SetFieldValue
@type bd-log-filter/src/lib.rs SetField
@type bd-log-filter/src/lib.rs RemoveField
@type bd-log-filter/src/lib.rs RegexMatchAndSubstitute
@text
pub open spec fn done<T>(all: Seq<T>, rest: Seq<&T>) -> int { all.len() - rest.len() }
impl Log {
  pub open spec fn view(&self) -> Lg { Lg { level: self.log_level, kind: self.log_type.0, msg: val(self.message), cap: flds(self.fields@), mat: flds(self.matching_fields@) } }
  // everything a filter has no business with
  pub open spec fn rest_same(&self, o: Log) -> bool {
    self.log_level == o.log_level && self.log_type == o.log_type && self.message == o.message && self.session_id == o.session_id && self.occurred_at == o.occurred_at
  }
}
pub open spec fn text_of(v: Val) -> Option<Seq<char>> { match v { Val::T(s) => Some(s), Val::B(_) => None } }
// A name's text as transforms read it: the log's own attributes, else the first field of that name.
pub open spec fn read(v: Lg, k: Seq<char>) -> Option<Seq<char>> {
  if k == LOG_FIELD_NAME_MESSAGE@ { text_of(v.msg) }
  else if k == LOG_FIELD_NAME_LEVEL@ { Some(dec(v.level)) }
  else if k == LOG_FIELD_NAME_TYPE@ { Some(dec(v.kind)) }
  else { match named(v.cap + v.mat, k) { Some(i) => text_of((v.cap + v.mat)[i].val), None => None } }
}
pub open spec fn capture(v: Lg, k: Seq<char>) -> Lg {
  match named(v.mat, k) { Some(i) => Lg { cap: put(v.cap, v.mat[i]), mat: v.mat.remove(i), ..v }, None => v }
}
pub open spec fn set(v: Lg, t: SetField) -> Lg {
  let k = t.field_name@;
  if !t.is_override_allowed && (read(v, k) is Some || named(v.cap + v.mat, k) is Some) { v } else {
    match match t.value { SetFieldValue::StringValue(s) => Some(s@), SetFieldValue::ExistingField(n) => read(v, n@) } {
      None => v,
      Some(s) => { let f = Fld { key: k, val: Val::T(s) }; match t.field_type { FieldType::Captured => Lg { cap: put(v.cap, f), ..v }, FieldType::MatchingOnly => Lg { mat: put(v.mat, f), ..v } } },
    }
  }
}
pub open spec fn remove(v: Lg, k: Seq<char>) -> Lg { Lg { cap: others(v.cap, k), mat: others(v.mat, k), ..v } }
pub open spec fn rewritten(s: Seq<Fld>, i: int, t: RegexMatchAndSubstitute) -> Seq<Fld> {
  match s[i].val { Val::T(x) => s.update(i, Fld { key: s[i].key, val: Val::T(t.pattern.subst(x, t.substitution@)) }), Val::B(_) => s }
}
pub open spec fn substitute(v: Lg, t: RegexMatchAndSubstitute) -> Lg {
  match named(v.cap, t.field_name@) {
    Some(i) => Lg { cap: rewritten(v.cap, i, t), ..v },
    None => match named(v.mat, t.field_name@) { Some(i) => Lg { mat: rewritten(v.mat, i, t), ..v }, None => v },
  }
}
pub open spec fn transformed(v: Lg, t: Transform) -> Lg {
  match t {
    Transform::CaptureField(c) => capture(v, c.field_name@),
    Transform::SetField(c) => set(v, c),
    Transform::RemoveField(c) => remove(v, c.field_name@),
    Transform::RegexMatchAndSubstitute(c) => substitute(v, c),
  }
}
pub open spec fn all_transformed(v: Lg, ts: Seq<Transform>) -> Lg
  decreases ts.len(),
{ if ts.len() == 0 { v } else { transformed(all_transformed(v, ts.drop_last()), ts.last()) } }
pub open spec fn filtered(v: Lg, f: Filter) -> Lg { if f.matcher.holds(v) { all_transformed(v, f.transforms@) } else { v } }
pub open spec fn all_filtered(v: Lg, fs: Seq<Filter>) -> Lg
  decreases fs.len(),
{ if fs.len() == 0 { v } else { filtered(all_filtered(v, fs.drop_last()), fs.last()) } }
@fn bd-log-primitives/src/lib.rs StringOrBytes::as_str
@impl impl StringOrBytes
@frule __s.as_ref() => __s.as_str()
@spec
  ensures stxt(r) == value_text(*self),
@fn bd-log-primitives/src/lib.rs FieldsRef::new
@impl impl<'a> FieldsRef<'a>
@spec
  ensures *r.captured_fields == *captured_fields, *r.matching_fields == *matching_fields,
@fn bd-log-filter/src/lib.rs FieldProvider for Log::field_value
@impl impl Log
@opt strmatch
@frule __x.map(Into::into) => match __x { Some(vx_v) => Some(Cow::Borrowed(vx_v)), None => None }
@spec
  ensures txt(r) == read(self@, key@),
@entry
  proof { lemma_named(flds(self.fields@ + self.matching_fields@), key@); assert(flds(self.fields@ + self.matching_fields@) =~= flds(self.fields@) + flds(self.matching_fields@)); }
@fn bd-log-filter/src/lib.rs FieldProvider for Log::has_field
@impl impl Log
@spec
  ensures r == (named(self@.cap + self@.mat, key@) is Some),
@entry
  proof { assert(flds(self.fields@ + self.matching_fields@) =~= flds(self.fields@) + flds(self.matching_fields@)); }
@fn bd-log-filter/src/lib.rs set_field
@spec
  ensures flds(final(fields)@) == put(flds(old(fields)@), fld(field)),
@fn bd-log-filter/src/lib.rs CaptureField::apply
@spec
  ensures final(log)@ == capture(old(log)@, self.field_name@), final(log).rest_same(*old(log)),
@entry
  proof {
    let s = log.matching_fields@;
    lemma_named(flds(s), self.field_name@);
    assert forall|i: int| 0 <= i < s.len() implies flds(#[trigger] s.remove(i)) == flds(s).remove(i) && fld(s[i]) == flds(s)[i] by { assert(flds(s.remove(i)) =~= flds(s).remove(i)); }
  }
@fn bd-log-filter/src/lib.rs SetField::apply
@spec
  ensures final(log)@ == set(old(log)@, *self), final(log).rest_same(*old(log)),
@fn bd-log-filter/src/lib.rs RemoveField::apply
@spec
  ensures final(log)@ == remove(old(log)@, self.field_name@), final(log).rest_same(*old(log)),
@fn bd-log-filter/src/lib.rs RegexMatchAndSubstitute::produce_new_value
@spec
  ensures r@ == self.pattern.subst(input@, self.substitution@),
@fn bd-log-filter/src/lib.rs RegexMatchAndSubstitute::apply
@spec
  ensures final(log)@ == substitute(old(log)@, *self), final(log).rest_same(*old(log)),
@entry
  proof { lemma_none_if(log@.cap, self.field_name@); lemma_none_if(log@.mat, self.field_name@); }
@loop 0
  invariant
    log@ == old(log)@, log.rest_same(*old(log)), vx_it0 <= log.fields@.len(),
    forall|j: int| 0 <= j < vx_it0 ==> (#[trigger] log@.cap[j]).key != self.field_name@,
  decreases log.fields@.len() - vx_it0,
@loop_entry 0
  proof {
    let i = vx_it0 as int;
    let s = log.fields@;
    if i < s.len() {
      assert(flds(s)[i] == fld(s[i]));
      assert(s.update(i, s[i]) =~= s);
      assert forall|x: LogField| flds(#[trigger] s.update(i, x)) == flds(s).update(i, fld(x)) by { assert(flds(s.update(i, x)) =~= flds(s).update(i, fld(x))); }
      assert(flds(s).update(i, flds(s)[i]) =~= flds(s));
      if s[i].key@ == self.field_name@ { lemma_first(flds(s), self.field_name@, i); }
    }
  }
@loop 1
  invariant
    log@ == old(log)@, log.rest_same(*old(log)), vx_it1 <= log.matching_fields@.len(),
    named(log@.cap, self.field_name@) is None,
    forall|j: int| 0 <= j < vx_it1 ==> (#[trigger] log@.mat[j]).key != self.field_name@,
  decreases log.matching_fields@.len() - vx_it1,
@loop_entry 1
  proof {
    let i = vx_it1 as int;
    let s = log.matching_fields@;
    if i < s.len() {
      assert(flds(s)[i] == fld(s[i]));
      assert(s.update(i, s[i]) =~= s);
      assert forall|x: LogField| flds(#[trigger] s.update(i, x)) == flds(s).update(i, fld(x)) by { assert(flds(s.update(i, x)) =~= flds(s).update(i, fld(x))); }
      assert(flds(s).update(i, flds(s)[i]) =~= flds(s));
      if s[i].key@ == self.field_name@ { lemma_first(flds(s), self.field_name@, i); }
    }
  }
@fn bd-log-filter/src/lib.rs Transform::apply
@spec
  ensures final(log)@ == transformed(old(log)@, *self), final(log).rest_same(*old(log)),
@fn bd-log-filter/src/lib.rs FilterChain::process
@spec
  ensures final(log)@ == all_filtered(old(log)@, self.filters@), final(log).rest_same(*old(log)),
@entry
  let ghost v0 = log@;
  let ghost l0 = *log;
  let ghost fs = self.filters@;
  proof { assert(fs.skip(0) =~= fs); assert(fs.take(0) =~= Seq::empty()); }
@loop 0
  invariant
    v0 == old(log)@, l0 == *old(log), fs == self.filters@, log.rest_same(l0),
    vx_it0.rest().len() <= fs.len(),
    vx_it0.rest() == refs(fs.skip(done(fs, vx_it0.rest()))),
    log@ == all_filtered(v0, fs.take(done(fs, vx_it0.rest()))),
  ensures
    vx_it0.rest().len() == 0, log.rest_same(l0),
    log@ == all_filtered(v0, fs.take(done(fs, vx_it0.rest()))),
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost n = done(fs, vx_it0.rest());
  let ghost v1 = log@;
  proof {
    if vx_it0.rest().len() > 0 {
      assert(fs.take(n + 1).drop_last() =~= fs.take(n));
      assert(fs.take(n + 1).last() == fs[n]);
      assert(fs.skip(n)[0] == fs[n]);
      assert(refs(fs.skip(n)).drop_first() =~= refs(fs.skip(n + 1)));
      let ts = fs[n].transforms@;
      assert(ts.skip(0) =~= ts); assert(ts.take(0) =~= Seq::empty());
    }
  }
@loop_exit 0
  proof { assert(fs.take(fs.len() as int) =~= fs); }
@loop 1
  invariant
    0 <= n < fs.len(), *filter == fs[n], l0 == *old(log), log.rest_same(l0),
    vx_it1.rest().len() <= filter.transforms@.len(),
    vx_it1.rest() == refs(filter.transforms@.skip(done(filter.transforms@, vx_it1.rest()))),
    log@ == all_transformed(v1, filter.transforms@.take(done(filter.transforms@, vx_it1.rest()))),
  ensures
    vx_it1.rest().len() == 0, log.rest_same(l0),
    log@ == all_transformed(v1, filter.transforms@.take(done(filter.transforms@, vx_it1.rest()))),
  decreases vx_it1.rest().len(),
@loop_entry 1
  proof {
    let ts = filter.transforms@;
    let m = done(ts, vx_it1.rest());
    if vx_it1.rest().len() > 0 {
      assert(ts.take(m + 1).drop_last() =~= ts.take(m));
      assert(ts.take(m + 1).last() == ts[m]);
      assert(ts.skip(m)[0] == ts[m]);
      assert(refs(ts.skip(m)).drop_first() =~= refs(ts.skip(m + 1)));
    }
  }
@loop_exit 1
  proof { assert(filter.transforms@.take(filter.transforms@.len() as int) =~= filter.transforms@); }
