@include prelude.inc
@include iter.inc
@include fields.inc
@type bd-log-primitives/src/lib.rs LogFieldKind
@type bd-log-primitives/src/lib.rs AnnotatedLogField
@text
pub type AnnotatedLogFields = Vec<AnnotatedLogField>;
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub enum LogType { Normal, Replay, Lifecycle, Resource, InternalSDK, View, Device, UX, Span }
#[verifier::external_body]
pub struct OffsetDateTime {}
// The host's metadata provider, at the moment of the call.
#[verifier::external_body]
pub struct DynProvider {}
impl DynProvider {
  pub uninterp spec fn provided(&self) -> Seq<AnnotatedLogField>;
  #[verifier::external_body]
  pub fn timestamp(&self) -> (r: Result<OffsetDateTime, AnyErr>) { unimplemented!() }
  #[verifier::external_body]
  pub fn fields(&self) -> (r: Result<Vec<AnnotatedLogField>, AnyErr>)
    ensures r is Ok ==> r->Ok_0@ == self.provided(),
  { unimplemented!() }
}
// The reserved names (a constant table of the crate).
pub uninterp spec fn reserved(k: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_reserved(k: &String) -> (r: bool)
  ensures r == reserved(k@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, c: char) -> (r: bool)
  ensures r == (s@.len() > 0 && s@[0] == c),
{ s.starts_with(c) }
pub open spec fn allowed(k: Seq<char>) -> bool { !reserved(k) && !(k.len() > 0 && k[0] == '_') }
// Both halves of a list of fields, in order; a custom field with a forbidden name is in neither.
pub open spec fn ootb_of(s: Seq<AnnotatedLogField>) -> Seq<LogField>
  decreases s.len(),
{
  if s.len() == 0 { seq![] } else {
    let h = ootb_of(s.drop_last());
    if s.last().kind is Ootb { h.push(s.last().field) } else { h }
  }
}
pub open spec fn custom_of(s: Seq<AnnotatedLogField>) -> Seq<LogField>
  decreases s.len(),
{
  if s.len() == 0 { seq![] } else {
    let h = custom_of(s.drop_last());
    if s.last().kind is Custom && allowed(s.last().field.key@) { h.push(s.last().field) } else { h }
  }
}
// Each key once, with its first occurrence, in order.
pub open spec fn uniq(s: Seq<LogField>) -> Seq<LogField>
  decreases s.len(),
{
  if s.len() == 0 { seq![] } else {
    let h = uniq(s.drop_last());
    if has_key(h, s.last().key@) { h } else { h.push(s.last()) }
  }
}
// itertools' unique_by on the key, and [..].concat(): assumed.
#[verifier::external_body]
pub fn vx_unique_by_key(v: Vec<LogField>) -> (r: Vec<LogField>)
  ensures r@ == uniq(v@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_concat5(a: Vec<LogField>, b: Vec<LogField>, c: Vec<LogField>, d: Vec<LogField>, e: Vec<LogField>) -> (r: Vec<LogField>)
  ensures r@ == a@ + b@ + c@ + d@ + e@,
{ [a, b, c, d, e].concat() }
#[verifier::external_body]
pub fn vx_concat4(a: Vec<LogField>, b: Vec<LogField>, c: Vec<LogField>, d: Vec<LogField>) -> (r: Vec<LogField>)
  ensures r@ == a@ + b@ + c@ + d@,
{ [a, b, c, d].concat() }
pub open spec fn provider_matches_only(t: LogType) -> bool { t == LogType::Replay || t == LogType::Resource || t == LogType::InternalSDK }
pub open spec fn fields_spec(p: Seq<AnnotatedLogField>, log: Seq<AnnotatedLogField>, global: Seq<LogField>) -> Seq<LogField> {
  uniq(ootb_of(p) + ootb_of(log) + custom_of(log) + global + custom_of(p))
}
pub open spec fn matching_spec(p: Seq<AnnotatedLogField>, m: Seq<AnnotatedLogField>) -> Seq<LogField> {
  uniq(ootb_of(p) + ootb_of(m) + custom_of(m) + custom_of(p))
}
@type_rule Arc<dyn MetadataProvider + Send + Sync> => DynProvider
@type_rule time::OffsetDateTime => OffsetDateTime
@rule RESERVED_FIELD_NAMES.contains(&__k) => vx_reserved(&__k)
@rule __k.starts_with(__c) => vx_starts_with(&__k, __c)
@rule __v.iter().position(|__f| __f.key == __k) => vx_position(&__v, &__k)
@rule __v.remove(__i) => vx_remove(&mut __v, __i)
@rule [__a, __b, __c, __d, __e].concat() => vx_concat5(__a, __b, __c, __d, __e)
@rule [__a, __b, __c, __d].concat() => vx_concat4(__a, __b, __c, __d)
@rule __x.into_iter().unique_by(|__f| __f.key.vx_clone()).collect_vec() => vx_unique_by_key(__x)
@rule __x.into_iter().unique_by(|__f| __f.key.vx_clone()).collect() => vx_unique_by_key(__x)
@rule __x.into_iter().map(LogField::from).unique_by(|__f| __f.key.vx_clone()).collect_vec() => vx_unique_by_key(__x)
@type bd-logger/src/metadata.rs LogMetadata
@type bd-logger/src/metadata.rs MetadataCollector
@type bd-logger/src/metadata.rs PartitionedFields
@text
impl MetadataCollector {
  // Global custom fields: one per key, none with a forbidden name.
  pub open spec fn wf(&self) -> bool {
    &&& forall|i: int| 0 <= i < self.fields@.len() ==> allowed((#[trigger] self.fields@[i]).key@)
    &&& distinct(self.fields@)
  }
}
pub open spec fn distinct(s: Seq<LogField>) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key@ != (#[trigger] s[j]).key@
}
pub open spec fn firsts(s: Seq<LogField>, u: Seq<LogField>) -> bool {
  forall|i: int| #![trigger u[i]] 0 <= i < u.len() ==> is_first(s, u[i])
}
pub open spec fn is_first(s: Seq<LogField>, f: LogField) -> bool {
  exists|j: int| #[trigger] first_at(s, f.key@, j) && s[j] == f
}
// What `uniq` means: every key of the input once, with the value of its first occurrence.
pub proof fn lemma_uniq(s: Seq<LogField>)
  ensures
    distinct(uniq(s)),
    forall|k: Seq<char>| #[trigger] has_key(uniq(s), k) <==> has_key(s, k),
    firsts(s, uniq(s)),
  decreases s.len(),
{
  if s.len() > 0 {
    let t = s.drop_last();
    let h = uniq(t);
    let u = uniq(s);
    lemma_uniq(t);
    let lk = s.last().key@;
    assert forall|k: Seq<char>| has_key(u, k) <==> has_key(s, k) by {
      if has_key(u, k) {
        let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).key@ == k;
        if i < h.len() {
          assert(h[i].key@ == k);
          assert(has_key(h, k));
          let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).key@ == k;
          assert(s[j].key@ == k);
        } else {
          assert(s[s.len() - 1].key@ == k);
        }
      }
      if has_key(s, k) {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key@ == k;
        if i < t.len() {
          assert(t[i].key@ == k);
          assert(has_key(t, k));
          assert(has_key(h, k));
          let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).key@ == k;
          assert(u[j].key@ == k);
        } else if has_key(h, lk) {
          let j = choose|j: int| 0 <= j < h.len() && (#[trigger] h[j]).key@ == lk;
          assert(u[j].key@ == k);
        } else {
          assert(u[u.len() - 1].key@ == k);
        }
      }
    }
    assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies is_first(s, u[i]) by {
      if i < h.len() {
        assert(u[i] == h[i]);
        assert(is_first(t, h[i]));
        let j = choose|j: int| #[trigger] first_at(t, h[i].key@, j) && t[j] == h[i];
        assert(first_at(s, u[i].key@, j) && s[j] == u[i]) by {
          assert forall|m: int| 0 <= m < j implies (#[trigger] s[m]).key@ != u[i].key@ by { assert(t[m].key@ != u[i].key@); }
        }
      } else {
        let j = s.len() - 1;
        assert(!has_key(h, lk));
        assert(!has_key(t, lk));
        assert forall|m: int| 0 <= m < j implies (#[trigger] s[m]).key@ != lk by { assert(t[m].key@ != lk); }
        assert(first_at(s, u[i].key@, j) && s[j] == u[i]);
      }
    }
    assert(firsts(s, u));
  } else {
    assert(uniq(s) =~= seq![]);
  }
}
@fn bd-logger/src/metadata.rs verify_custom_field_name
@spec
  ensures r is Ok <==> allowed(field.key@),
@fn bd-logger/src/metadata.rs partition_fields
@spec
  ensures r.ootb@ == ootb_of(field@), r.custom@ == custom_of(field@),
@entry
  let ghost all = field@;
@loop 0
  invariant
    vx_it0.rest().len() <= all.len(),
    vx_it0.rest() == all.skip(all.len() - vx_it0.rest().len()),
    ootb@ == ootb_of(all.take(all.len() - vx_it0.rest().len())),
    custom@ == custom_of(all.take(all.len() - vx_it0.rest().len())),
  ensures
    ootb@ == ootb_of(all), custom@ == custom_of(all),
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    let n = all.len() - vx_it0.rest().len();
    if vx_it0.rest().len() > 0 {
      assert(all.take(n + 1).drop_last() =~= all.take(n));
      assert(all.take(n + 1).last() == all[n]);
      assert(all.skip(n)[0] == all[n]);
      assert(all.skip(n).drop_first() =~= all.skip(n + 1));
    } else {
      assert(all.take(n) =~= all);
    }
  }
@fn bd-logger/src/metadata.rs MetadataCollector::new
@spec
  ensures r.wf(), r.fields@.len() == 0,
@fn bd-logger/src/metadata.rs MetadataCollector::fields
@spec
  ensures r@ == self.fields@,
@fn bd-logger/src/metadata.rs MetadataCollector::add_field
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(),
    r is Ok <==> allowed(field.key@),
    r is Err ==> final(self).fields@ == old(self).fields@,
    r is Ok ==> final(self).fields@.last() == field,
    r is Ok ==> has_key(final(self).fields@, field.key@),
    // every other key keeps its value
    r is Ok ==> forall|f: LogField| f.key@ != field.key@ ==> (#[trigger] final(self).fields@.contains(f) <==> old(self).fields@.contains(f)),
@entry
  broadcast use lemma_push_contains;
@before Ok(())
  assert(self.fields@[self.fields@.len() - 1].key@ == field.key@);
@fn bd-logger/src/metadata.rs MetadataCollector::remove_field
@spec
  requires old(self).wf(),
  ensures
    final(self).wf(),
    !has_key(final(self).fields@, field_key@),
    forall|f: LogField| f.key@ != field_key@ ==> (#[trigger] final(self).fields@.contains(f) <==> old(self).fields@.contains(f)),
@fn bd-logger/src/metadata.rs MetadataCollector::normalized_metadata_with_extra_fields
@spec
  ensures
    r is Ok && provider_matches_only(log_type) ==>
      r->Ok_0.fields@ == fields_spec(seq![], fields@, self.fields@) && r->Ok_0.matching_fields@ == matching_spec(self.metadata_provider.provided(), matching_fields@),
    r is Ok && !provider_matches_only(log_type) ==>
      r->Ok_0.fields@ == fields_spec(self.metadata_provider.provided(), fields@, self.fields@) && r->Ok_0.matching_fields@ == matching_spec(seq![], matching_fields@),
