@include prelude.inc
@include iter.inc
@text
// ---- Paths.
pub ghost struct Nd { pub v: Seq<char>, pub counts: bool }
pub open spec fn nd(n: SankeyNodeState) -> Nd { Nd { v: n.value@, counts: n.counts_toward_limit } }
pub open spec fn nds(s: Seq<SankeyNodeState>) -> Seq<Nd> { s.map_values(|n: SankeyNodeState| nd(n)) }
// how many count toward the limit
pub open spec fn counted(s: Seq<Nd>) -> int
  decreases s.len(),
{ if s.len() == 0 { 0 } else { counted(s.drop_last()) + if s.last().counts { 1int } else { 0 } } }
// the path without its oldest counting value
pub open spec fn drop_oldest(s: Seq<Nd>) -> Seq<Nd>
  decreases s.len(),
{ if s.len() == 0 { s } else if s[0].counts { s.drop_first() } else { seq![s[0]] + drop_oldest(s.drop_first()) } }
pub open spec fn first_counting(s: Seq<SankeyNodeState>) -> Option<int>
  decreases s.len(),
{ if s.len() == 0 { None } else if s[0].counts_toward_limit { Some(0) } else { match first_counting(s.drop_first()) { Some(i) => Some(i + 1), None => None } } }
#[verifier::external_body]
pub fn vx_count(v: &Vec<SankeyNodeState>) -> (r: usize)
  ensures r == counted(nds(v@)),
{ v.iter().filter(|n| n.counts_toward_limit).count() }
#[verifier::external_body]
pub fn vx_first(v: &Vec<SankeyNodeState>) -> (r: Option<usize>)
  ensures match r { Some(i) => first_counting(v@) == Some(i as int), None => first_counting(v@) is None },
{ v.iter().position(|n| n.counts_toward_limit) }
#[verifier::external_body]
pub fn vx_find<'a>(v: &'a Vec<SankeyNodeState>) -> (r: Option<(usize, &'a SankeyNodeState)>)
  ensures match r { Some(p) => first_counting(v@) == Some(p.0 as int) && 0 <= p.0 < v@.len() && *p.1 == v@[p.0 as int], None => first_counting(v@) is None },
{ v.iter().enumerate().find(|n| n.1.counts_toward_limit) }
pub proof fn lemma_first(s: Seq<SankeyNodeState>)
  ensures
    match first_counting(s) {
      Some(i) => 0 <= i < s.len() && s[i].counts_toward_limit && drop_oldest(nds(s)) == nds(s.remove(i)) && counted(nds(s.remove(i))) == counted(nds(s)) - 1,
      None => counted(nds(s)) == 0,
    },
  decreases s.len(),
{
  if s.len() > 0 {
    let t = s.drop_first();
    assert(nds(s).drop_first() =~= nds(t));
    lemma_counted_front(nds(s));
    if s[0].counts_toward_limit {
      assert(s.remove(0) =~= t);
    } else {
      lemma_first(t);
      if first_counting(t) is Some {
        let i = first_counting(t)->Some_0;
        assert(s.remove(i + 1) =~= seq![s[0]] + t.remove(i));
        assert(nds(s.remove(i + 1)) =~= seq![nds(s)[0]] + nds(t.remove(i)));
        lemma_counted_front(nds(s.remove(i + 1)));
        assert(nds(s.remove(i + 1)).drop_first() =~= nds(t.remove(i)));
      }
    }
  }
}
pub proof fn lemma_counted_front(s: Seq<Nd>)
  requires s.len() > 0,
  ensures counted(s) == counted(s.drop_first()) + if s[0].counts { 1int } else { 0 },
  decreases s.len(),
{
  if s.len() > 1 {
    lemma_counted_front(s.drop_last());
    assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
    assert(s.drop_first().last() == s.last());
  } else {
    assert(s.drop_last() =~= Seq::empty());
    assert(s.drop_first() =~= Seq::empty());
  }
}
pub proof fn lemma_push(s: Seq<SankeyNodeState>, n: SankeyNodeState)
  ensures nds(s.push(n)) == nds(s).push(nd(n)), counted(nds(s.push(n))) == counted(nds(s)) + if n.counts_toward_limit { 1int } else { 0 },
{
  assert(nds(s.push(n)) =~= nds(s).push(nd(n)));
  assert(nds(s).push(nd(n)).drop_last() =~= nds(s));
}
// ---- The memory of what was handled.
pub ghost struct Id { pub sankey: Seq<char>, pub path: Seq<char> }
pub open spec fn id(s: SeenSankeyPath) -> Id { Id { sankey: s.sankey_id@, path: s.path_id@ } }
pub open spec fn ids(s: Seq<SeenSankeyPath>) -> Seq<Id> { s.map_values(|x: SeenSankeyPath| id(x)) }
pub open spec fn pid(p: SankeyPath) -> Id { Id { sankey: p.sankey_id@, path: p.path_id@ } }
#[verifier::external_body]
pub fn vx_position(v: &Vec<SeenSankeyPath>, k: &SeenSankeyPath) -> (r: Option<usize>)
  ensures match r { Some(i) => 0 <= i < v@.len() && id(v@[i as int]) == id(*k) && !(exists|j: int| 0 <= j < i && ids(v@)[j] == id(*k)), None => !ids(v@).contains(id(*k)) },
{ v.iter().position(|e| e.sankey_id == k.sankey_id && e.path_id == k.path_id) }
#[verifier::external_body]
pub fn vx_position2(v: &Vec<SeenSankeyPath>, s: &str, p: &str) -> (r: Option<usize>)
  ensures ({ let k = Id { sankey: s@, path: p@ }; match r { Some(i) => 0 <= i < v@.len() && id(v@[i as int]) == k && !(exists|j: int| 0 <= j < i && ids(v@)[j] == k), None => !ids(v@).contains(k) } }),
{ v.iter().position(|e| e.sankey_id == s && e.path_id == p) }
pub open spec fn unique(s: Seq<Id>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
// the others, in their order, then this one: most recent last
pub open spec fn others(s: Seq<Id>, k: Id) -> Seq<Id>
  decreases s.len(),
{ if s.len() == 0 { s } else if s.last() == k { others(s.drop_last(), k) } else { others(s.drop_last(), k).push(s.last()) } }
pub open spec fn touched(s: Seq<Id>, k: Id) -> Seq<Id> { others(s, k).push(k) }
pub open spec fn bounded(s: Seq<Id>) -> Seq<Id> { if s.len() > 100 { s.skip(s.len() - 100) } else { s } }
pub proof fn lemma_filter_none(s: Seq<Id>, k: Id)
  requires !s.contains(k),
  ensures others(s, k) == s,
  decreases s.len(),
{
  if s.len() > 0 {
    assert(s[s.len() - 1] == s.last() && s.contains(s.last()));
    assert forall|x: Id| s.drop_last().contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; assert(s[i] == x); }
    lemma_filter_none(s.drop_last(), k);
    assert(s.drop_last().push(s.last()) =~= s);
  }
}
pub proof fn lemma_filter_at(s: Seq<Id>, i: int)
  requires 0 <= i < s.len(), unique(s),
  ensures others(s, s[i]) == s.remove(i),
  decreases s.len(),
{
  let k = s[i];
  if i == s.len() - 1 {
    assert(!s.drop_last().contains(k));
    lemma_filter_none(s.drop_last(), k);
    assert(s.remove(i) =~= s.drop_last());
  } else {
    lemma_filter_at(s.drop_last(), i);
    assert(s.drop_last()[i] == k);
    assert(s.remove(i) =~= s.drop_last().remove(i).push(s.last()));
  }
}
// What a move to the back does, for the remove/push/trim forms.
pub proof fn lemma_touch(v: Seq<SeenSankeyPath>, i: int, k: SeenSankeyPath)
  requires unique(ids(v)), 0 <= i < v.len(), id(v[i]) == id(k),
  ensures ids(v.remove(i).push(k)) == touched(ids(v), id(k)), unique(touched(ids(v), id(k))), touched(ids(v), id(k)).len() == v.len(), ids(v).contains(id(k)),
{
  lemma_filter_at(ids(v), i);
  assert(ids(v)[i] == id(k));
  assert(ids(v.remove(i).push(k)) =~= ids(v).remove(i).push(id(k)));
}
pub proof fn lemma_new(v: Seq<SeenSankeyPath>, k: SeenSankeyPath)
  requires unique(ids(v)), !ids(v).contains(id(k)),
  ensures ids(v.push(k)) == touched(ids(v), id(k)), unique(touched(ids(v), id(k))), touched(ids(v), id(k)).len() == v.len() + 1,
{
  lemma_filter_none(ids(v), id(k));
  assert(ids(v.push(k)) =~= ids(v).push(id(k)));
}
pub proof fn lemma_any(v: Seq<SeenSankeyPath>)
  ensures
    forall|i: int, k: SeenSankeyPath| unique(ids(v)) && 0 <= i < v.len() && id(v[i]) == id(k) ==> ids(#[trigger] v.remove(i).push(k)) == touched(ids(v), id(k)) && unique(touched(ids(v), id(k))) && touched(ids(v), id(k)).len() == v.len() && ids(v).contains(id(k)),
    forall|k: SeenSankeyPath| unique(ids(v)) && !ids(v).contains(id(k)) ==> ids(#[trigger] v.push(k)) == touched(ids(v), id(k)) && unique(touched(ids(v), id(k))) && touched(ids(v), id(k)).len() == v.len() + 1,
{
  assert forall|i: int, k: SeenSankeyPath| unique(ids(v)) && 0 <= i < v.len() && id(v[i]) == id(k) implies ids(#[trigger] v.remove(i).push(k)) == touched(ids(v), id(k)) && unique(touched(ids(v), id(k))) && touched(ids(v), id(k)).len() == v.len() && ids(v).contains(id(k)) by { lemma_touch(v, i, k); }
  assert forall|k: SeenSankeyPath| unique(ids(v)) && !ids(v).contains(id(k)) implies ids(#[trigger] v.push(k)) == touched(ids(v), id(k)) && unique(touched(ids(v), id(k))) && touched(ids(v), id(k)).len() == v.len() + 1 by { lemma_new(v, k); }
}
pub proof fn lemma_trim(w: Seq<SeenSankeyPath>)
  ensures
    w.len() > 0 ==> ids(w.remove(0)) == ids(w).skip(1), w.len() == 101 ==> ids(w.remove(0)) == bounded(ids(w)),
    w.len() <= 100 ==> ids(w) == bounded(ids(w)), ids(w).len() == w.len(),
{
  if w.len() > 0 { assert(ids(w.remove(0)) =~= ids(w).skip(1)); }
}
#[verifier::external_body]
pub struct AnyStats {}
@rule __v.iter().filter(|__n| __n.counts_toward_limit).count() => vx_count(&__v)
@rule __v.iter().find_position(|__n| __n.counts_toward_limit) => vx_find(&__v)
@rule __v.iter().position(|__n| __n.counts_toward_limit) => vx_first(&__v)
@rule __v.iter().position(|__e| __e == &__k) => vx_position(&__v, &__k)
@rule __v.iter().position(|__e| *__e == __k) => vx_position(&__v, &__k)
@rule __v.iter().position(|__e| __e.sankey_id == __a && __e.path_id == __b) => vx_position2(&__v, &__a, &__b)
@rule __v.iter().any(|__e| __e == &__k) => vx_position(&__v, &__k).is_some()
@rule __v.contains(&__k) => vx_position(&__v, &__k).is_some()
@type bd-workflows/src/workflow.rs SankeyPath
@type bd-workflows/src/workflow.rs SankeyNodeState
@type bd-workflows/src/workflow.rs SankeyState
@type bd-workflows/src/sankey_diagram.rs PROCESSED_INTENTS_LRU_CACHE_SIZE
@type bd-workflows/src/sankey_diagram.rs SeenSankeyPath
@type bd-workflows/src/sankey_diagram.rs ProcessedIntents
@fn bd-workflows/src/workflow.rs SankeyState::push
@spec
  ensures
    ({
      let all = nds(old(self).nodes@).push(Nd { v: value@, counts: counts_toward_limit });
      let over = counts_toward_limit && counted(all) > limit;
      &&& nds(final(self).nodes@) == (if over { drop_oldest(all) } else { all })
      &&& final(self).is_trimmed == (old(self).is_trimmed || over)
      // the bound is kept
      &&& (counted(nds(old(self).nodes@)) <= limit ==> counted(nds(final(self).nodes@)) <= limit)
    }),
@entry
  proof {
    let n = SankeyNodeState { value, counts_toward_limit };
    lemma_push(self.nodes@, n);
    lemma_first(self.nodes@.push(n));
  }
@fn bd-workflows/src/sankey_diagram.rs ProcessedIntents::contains
@spec
  requires unique(ids(old(self).0@)), old(self).0@.len() <= 100,
  ensures
    r == ids(old(self).0@).contains(pid(*sankey_path)),
    ids(final(self).0@) == (if r { touched(ids(old(self).0@), pid(*sankey_path)) } else { ids(old(self).0@) }),
    unique(ids(final(self).0@)), final(self).0@.len() <= 100,
@entry
  proof { lemma_any(self.0@); assert forall|j: int| 0 <= j < self.0@.len() implies #[trigger] ids(self.0@)[j] == id(self.0@[j]) by {} }
@fn bd-workflows/src/sankey_diagram.rs ProcessedIntents::insert
@spec
  requires unique(ids(old(self).0@)), old(self).0@.len() <= 100,
  ensures
    ids(final(self).0@) == bounded(touched(ids(old(self).0@), pid(sankey_path))),
    unique(ids(final(self).0@)), final(self).0@.len() <= 100, ids(final(self).0@).contains(pid(sankey_path)),
@entry
  proof { lemma_any(self.0@); lemma_trims(); lemma_last(ids(self.0@), pid(sankey_path)); }
@text
pub proof fn lemma_trims()
  ensures
    forall|w: Seq<SeenSankeyPath>| w.len() == 101 ==> ids(#[trigger] w.remove(0)) == bounded(ids(w)),
    forall|w: Seq<SeenSankeyPath>| (#[trigger] ids(w)).len() == w.len(),
    forall|w: Seq<SeenSankeyPath>| (#[trigger] ids(w)).len() <= 100 ==> bounded(ids(w)) == ids(w),
{
  assert forall|w: Seq<SeenSankeyPath>| w.len() == 101 implies ids(#[trigger] w.remove(0)) == bounded(ids(w)) by { lemma_trim(w); }
}
pub proof fn lemma_last(s: Seq<Id>, k: Id)
  ensures
    bounded(touched(s, k)).contains(k), unique(touched(s, k)) ==> unique(bounded(touched(s, k))),
{
  let t = touched(s, k);
  assert(t.last() == k && t.len() > 0);
  assert(bounded(t)[bounded(t).len() - 1] == k);
}
