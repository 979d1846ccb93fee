@include match.inc
@text
#[allow(non_camel_case_types)]
pub enum ComparisonOperator { LESS_THAN, LESS_THAN_OR_EQUAL, EQUALS, GREATER_THAN, GREATER_THAN_OR_EQUAL }
@type bd-matcher/src/matcher.rs Str
@type bd-matcher/src/matcher.rs Integer
@type bd-matcher/src/matcher.rs InputType
@type bd-matcher/src/matcher.rs Leaf
@type bd-matcher/src/matcher.rs Tree
@text
pub open spec fn int_holds(i: Integer, v: u32) -> bool {
  match i.operator {
    ComparisonOperator::LESS_THAN => v < i.value,
    ComparisonOperator::LESS_THAN_OR_EQUAL => v <= i.value,
    ComparisonOperator::EQUALS => v == i.value,
    ComparisonOperator::GREATER_THAN => v > i.value,
    ComparisonOperator::GREATER_THAN_OR_EQUAL => v >= i.value,
  }
}
pub open spec fn str_holds(s: Str, c: Seq<char>) -> bool {
  match s { Str::Regex(r) => r.hits(c), Str::Prefix(p) => is_prefix(p@, c), Str::Exact(e) => e@ == c }
}
pub open spec fn input(i: InputType, l: Log) -> Option<Seq<char>> { match i { InputType::Message => l.msg, InputType::Field(k) => (l.fields)(k@) } }
pub open spec fn leaf_holds(f: Leaf, l: Log) -> bool {
  match f {
    Leaf::LogLevel(i) => int_holds(i, l.level),
    // Missing or binary: no match.
    Leaf::String(i, s) => match input(i, l) { Some(c) => str_holds(s, c), None => false },
    Leaf::LogType(t) => t == l.kind,
    Leaf::Any => true,
  }
}
// The boolean reading of a condition.
pub open spec fn holds(t: Tree, l: Log) -> bool
  decreases t,
{
  match t {
    Tree::Base(f) => leaf_holds(f, l),
    Tree::Or(v) => exists|i: int| 0 <= i < v@.len() && holds(#[trigger] v@[i], l),
    Tree::And(v) => forall|i: int| 0 <= i < v@.len() ==> holds(#[trigger] v@[i], l),
    Tree::Not(b) => !holds(*b, l),
  }
}
@fn bd-matcher/src/matcher.rs Integer::do_match
@spec
  ensures r == int_holds(*self, log_level),
@fn bd-matcher/src/matcher.rs Str::evaluate
@frule candidate == exact => vx_str_eq(candidate, exact)
@spec
  ensures r == str_holds(*self, candidate@),
@fn bd-matcher/src/matcher.rs InputType::get
@spec
  ensures txt(r) == match *self { InputType::Message => value_text(*message), InputType::Field(k) => fields.value(k@) },
@fn bd-matcher/src/matcher.rs Tree::do_match
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
  ensures r == holds(*self, the_log(log_type, log_level, *message, *fields)),
  decreases *self,
@text
// The set of buffer names a log goes to.
#[verifier::external_body]
pub struct VxNames<'a> { s: std::collections::BTreeSet<Cow<'a>> }
impl<'a> VxNames<'a> {
  pub uninterp spec fn view(&self) -> Set<Seq<char>>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, c: Cow<'a>) -> (r: bool) ensures final(self)@ == old(self)@.insert(c@), r == !old(self)@.contains(c@) { unimplemented!() }
}
@type_rule BTreeSet<Cow<'_>> => VxNames<'_>
@rule BTreeSet::new() => VxNames::new()
@type bd-matcher/src/buffer_selector.rs BufferFilter
@type bd-matcher/src/buffer_selector.rs BufferSelector
@text
pub open spec fn some_holds(ms: Seq<(String, Tree)>, l: Log) -> bool { exists|i: int| 0 <= i < ms.len() && holds((#[trigger] ms[i]).1, l) }
// Buffers, by name, with a filter one of whose conditions holds.
pub open spec fn wanted(fs: Seq<BufferFilter>, l: Log) -> Set<Seq<char>>
  decreases fs.len(),
{
  if fs.len() == 0 { Set::empty() }
  else { let w = wanted(fs.drop_last(), l); if some_holds(fs.last().matchers@, l) { w.insert(fs.last().buffer_id@) } else { w } }
}
pub open spec fn done<T>(all: Seq<T>, rest: Seq<&T>) -> int { all.len() - rest.len() }
@fn bd-matcher/src/buffer_selector.rs BufferSelector::buffers
@spec
  ensures r@ == wanted(self.buffer_filters@, the_log(log_type, log_level, *message, *fields)),
@entry
  let ghost l = the_log(log_type, log_level, *message, *fields);
  let ghost all = self.buffer_filters@;
  proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::empty()); }
@loop 0
  invariant
    l == the_log(log_type, log_level, *message, *fields),
    vx_it0.rest().len() <= all.len(),
    vx_it0.rest() == refs(all.skip(done(all, vx_it0.rest()))),
    buffers@ == wanted(all.take(done(all, vx_it0.rest())), l),
  ensures
    vx_it0.rest().len() == 0,
    buffers@ == wanted(all.take(done(all, vx_it0.rest())), l),
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost n = done(all, vx_it0.rest());
  proof {
    if vx_it0.rest().len() > 0 {
      assert(all.take(n + 1).drop_last() =~= all.take(n));
      assert(all.take(n + 1).last() == all[n]);
      assert(all.skip(n)[0] == all[n]);
      assert(refs(all.skip(n)).drop_first() =~= refs(all.skip(n + 1)));
    }
  }
@loop_exit 0
  proof { assert(all.take(all.len() as int) =~= all); }
@loop 1
  invariant_except_break
    l == the_log(log_type, log_level, *message, *fields),
    0 <= n < all.len(), *buffer == all[n],
    vx_it1.rest().len() <= buffer.matchers@.len(),
    vx_it1.rest() == refs(buffer.matchers@.skip(done(buffer.matchers@, vx_it1.rest()))),
    buffers@ == wanted(all.take(n), l),
    !some_holds(buffer.matchers@.take(done(buffer.matchers@, vx_it1.rest())), l),
  ensures
    l == the_log(log_type, log_level, *message, *fields),
    buffers@ == if some_holds(buffer.matchers@, l) { wanted(all.take(n), l).insert(buffer.buffer_id@) } else { wanted(all.take(n), l) },
  decreases vx_it1.rest().len(),
@loop_entry 1
  let ghost ms = buffer.matchers@;
  let ghost m = done(ms, vx_it1.rest());
  proof {
    if vx_it1.rest().len() > 0 {
      assert(ms.skip(m)[0] == ms[m]);
      assert(refs(ms.skip(m)).drop_first() =~= refs(ms.skip(m + 1)));
      if some_holds(ms.take(m + 1), l) {
        let j = choose|j: int| 0 <= j < m + 1 && holds((#[trigger] ms.take(m + 1)[j]).1, l);
        assert(ms.take(m + 1)[j] == ms[j]);
        if j < m { assert(ms.take(m)[j] == ms[j]); }
      }
      if holds(ms[m].1, l) { assert(some_holds(ms, l)); }
    } else { assert(ms.take(m) =~= ms); }
  }
