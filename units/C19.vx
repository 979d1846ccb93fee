@include prelude.inc
@include iter.inc
@include vmap.inc
@text
// ---- What the machine is parameterised by: conditions, action payloads, flow values, clock readings.
#[verifier::external_body]
pub struct Tree {}
#[verifier::external_body]
pub struct LogRef {}
#[verifier::external_body]
pub struct ActionFlushBuffers {}
#[verifier::external_body]
pub struct ActionEmitMetric {}
#[verifier::external_body]
pub struct ActionEmitSankey {}
#[verifier::external_body]
pub struct ActionTakeScreenshot {}
#[verifier::external_body]
pub struct SankeyExtraction {}
#[verifier::external_body]
pub struct SankeyState {}
#[verifier::external_body]
pub struct SankeyPath {}
pub uninterp spec fn matches(t: Tree, l: LogRef) -> bool;
#[verifier::external_body]
pub fn vx_do_match(t: &Tree, l: &LogRef) -> (r: bool)
  ensures r == matches(*t, *l),
{ unimplemented!() }
impl ActionEmitSankey {
  pub uninterp spec fn key(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn id(&self) -> (r: &str) ensures r@ == self.key() { unimplemented!() }
}
pub uninterp spec fn path_of(id: Seq<char>, s: SankeyState) -> SankeyPath;
impl SankeyPath {
  #[verifier::external_body]
  pub fn new(id: &str, s: SankeyState) -> (r: SankeyPath) ensures r == path_of(id@, s) { unimplemented!() }
}
// Dates in nanoseconds; spans are not negative.
pub struct SystemTime { pub ns: i128 }
pub struct Duration { pub ns: u128 }
impl Clone for SystemTime { fn clone(&self) -> (r: Self) { SystemTime { ns: self.ns } } }
impl Copy for SystemTime {}
impl Clone for Duration { fn clone(&self) -> (r: Self) { Duration { ns: self.ns } } }
impl Copy for Duration {}
#[verifier::external_body]
pub struct SystemTimeError {}
impl SystemTime {
  #[verifier::external_body]
  pub fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, SystemTimeError>)
    ensures match r { Ok(d) => self.ns >= o.ns && d.ns == self.ns - o.ns, Err(_) => self.ns < o.ns },
  { unimplemented!() }
}
pub uninterp spec fn when(l: LogRef) -> SystemTime;
#[verifier::external_body]
pub fn vx_when(l: &LogRef) -> (r: SystemTime) ensures r == when(*l) { unimplemented!() }
pub trait VxNum: Sized {
  spec fn num(&self) -> int;
  fn vx_gt(self, o: Self) -> (r: bool) ensures r == (self.num() > o.num());
  fn vx_ge(self, o: Self) -> (r: bool) ensures r == (self.num() >= o.num());
}
impl VxNum for u32 {
  open spec fn num(&self) -> int { *self as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self > o }
  fn vx_ge(self, o: Self) -> (r: bool) { self >= o }
}
impl VxNum for Duration {
  open spec fn num(&self) -> int { self.ns as int }
  fn vx_gt(self, o: Self) -> (r: bool) { self.ns > o.ns }
  fn vx_ge(self, o: Self) -> (r: bool) { self.ns >= o.ns }
}
// Counters of 32 bits are assumed not to overflow (2^32 matches or traversals).
#[verifier::external_body]
pub fn vx_inc(n: &mut u32, by: u32)
  ensures *final(n) == *old(n) + by,
{ *n += by }
// Vec and iterator methods by name.
#[verifier::external_body]
pub fn vx_countdown(n: usize) -> (r: VxIter<usize>)
  ensures r.rest() == down(n as int),
{ unimplemented!() }
pub open spec fn down(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| (n - 1 - i) as usize) }
pub trait VxAppend: Sized {
  type Item;
  spec fn seq(&self) -> Seq<Self::Item>;
  fn vx_extend(&mut self, o: Vec<Self::Item>) ensures final(self).seq() == old(self).seq() + o@;
  fn vx_extend_ref(&mut self, o: &Vec<Self::Item>) ensures final(self).seq() == old(self).seq() + o@;
  fn vx_append(&mut self, o: &mut Vec<Self::Item>) ensures final(self).seq() == old(self).seq() + old(o)@, final(o)@.len() == 0;
}
impl<T> VxAppend for Vec<T> {
  type Item = T;
  open spec fn seq(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn vx_extend(&mut self, o: Vec<T>) { self.extend(o) }
  #[verifier::external_body]
  fn vx_extend_ref(&mut self, o: &Vec<T>) { unimplemented!() }
  #[verifier::external_body]
  fn vx_append(&mut self, o: &mut Vec<T>) { self.append(o) }
}
#[verifier::external_body]
pub fn vx_splice<T>(v: &mut Vec<T>, i: usize, o: Vec<T>)
  requires i < old(v)@.len(),
  ensures final(v)@ == old(v)@.take(i as int) + o@ + old(v)@.skip(i + 1),
{ v.splice(i ..= i, o); }
#[verifier::external_body]
pub fn vx_all_zero(v: &Vec<u32>) -> (r: bool)
  ensures r == (forall|i: int| 0 <= i < v@.len() ==> v@[i] == 0),
{ v.iter().all(|&e| e == 0) }
@rule vx_into_iter((0 .. __n).rev()) => vx_countdown(__n)
@rule __t.do_match(__l.log_level, __l.log_type, __l.message, __l.fields) => vx_do_match(__t, __l)
@rule __l.occurred_at.into() => vx_when(__l)
@rule __a += __b => vx_inc(&mut __a, __b)
@rule __a.extend_from_slice(&__b) => __a.vx_extend_ref(&__b)
@rule __a.extend(__b) => __a.vx_extend(__b)
@rule __a.append(&mut __b) => __a.vx_append(&mut __b)
@rule __v.splice(__i ..= __i, __o) => vx_splice(&mut __v, __i, __o)
@rule __v.iter().all(|&e| e == 0) => vx_all_zero(&__v)
@rule __v.iter().all(|__e| *__e == 0) => vx_all_zero(&__v)
@rule __x.map_or_else(Vec::new, |__p| __b) => match __x { Some(__p) => __b, None => Vec::new() }
@rule TraversalResult::default() => vx_traversal_result()
@rule WorkflowResult::default() => vx_workflow_result()
@type_rule std::time::Duration => Duration
@known sankey_states
@type_rule LogRef<'_> => LogRef
@type bd-workflows/src/config.rs Config
@type bd-workflows/src/config.rs State
@dropfield id
@type bd-workflows/src/config.rs Execution
@type bd-workflows/src/config.rs Transition
@type bd-workflows/src/config.rs Predicate
@type bd-workflows/src/config.rs Action
@type bd-workflows/src/workflow.rs TriggeredAction
@type bd-workflows/src/workflow.rs TriggeredActionEmitSankey
@type bd-workflows/src/workflow.rs TraversalResult
@type bd-workflows/src/workflow.rs Traversal
@text
#[verifier::external_body]
pub fn vx_traversal_result<'a>() -> (r: TraversalResult<'a>)
  ensures r.output_traversals@.len() == 0, r.triggered_actions@.len() == 0, r.matched_logs_count == 0, r.followed_transitions_count == 0,
{ unimplemented!() }
pub type Paths = Map<Seq<char>, SankeyState>;
pub open spec fn om(o: Option<VMap<SankeyState>>) -> Option<Paths> { match o { Some(m) => Some(m@), None => None } }
// ---- A traversal: where it is, how often each transition out of there matched, the flow values collected.
pub ghost struct Tv { pub state: int, pub seen: Seq<int>, pub paths: Option<Paths> }
pub open spec fn ints(s: Seq<u32>) -> Seq<int> { s.map_values(|n: u32| n as int) }
pub open spec fn tv(t: Traversal) -> Tv { Tv { state: t.state_index as int, seen: ints(t.matched_logs_counts@), paths: om(t.sankey_states) } }
pub open spec fn tvs(s: Seq<Traversal>) -> Seq<Tv> { s.map_values(|t: Traversal| tv(t)) }
pub open spec fn trs(c: Config, s: int) -> Seq<Transition> { c.states@[s].transitions@ }
pub open spec fn wf_config(c: Config) -> bool {
  c.states@.len() > 0 && forall|s: int, i: int| 0 <= s < c.states@.len() && 0 <= i < trs(c, s).len() ==> (#[trigger] trs(c, s)[i]).target_state_index < c.states@.len()
}
pub open spec fn wf(c: Config, t: Tv) -> bool { 0 <= t.state < c.states@.len() && t.seen.len() == trs(c, t.state).len() }
// ---- One transition.
pub open spec fn hits(c: Config, l: LogRef, s: int, i: int) -> bool {
  match trs(c, s)[i].rule { Predicate::LogMatch(t, _) => matches(t, l), Predicate::TimeoutMatch(_) => false }
}
pub open spec fn needed(c: Config, s: int, i: int) -> int { match trs(c, s)[i].rule { Predicate::LogMatch(_, n) => n as int, Predicate::TimeoutMatch(_) => 0 } }
pub open spec fn follows(c: Config, l: LogRef, t: Tv, i: int) -> bool { hits(c, l, t.state, i) && t.seen[i] + 1 == needed(c, t.state, i) }
// the traversal's counts after the log
pub open spec fn moved(c: Config, l: LogRef, t: Tv) -> Tv { Tv { seen: Seq::new(t.seen.len(), |i: int| t.seen[i] + if hits(c, l, t.state, i) { 1int } else { 0 }), ..t } }
pub open spec fn n_hits(c: Config, l: LogRef, t: Tv, k: int) -> int
  decreases k,
{ if k <= 0 { 0 } else { n_hits(c, l, t, k - 1) + if hits(c, l, t.state, k - 1) { 1int } else { 0 } } }
pub open spec fn n_follows(c: Config, l: LogRef, t: Tv, k: int) -> int
  decreases k,
{ if k <= 0 { 0 } else { n_follows(c, l, t, k - 1) + if follows(c, l, t, k - 1) { 1int } else { 0 } } }
// ---- What a transition does when it is followed.
pub uninterp spec fn collected_at(c: Config, l: LogRef, state: int, paths: Option<Paths>, i: int) -> Option<Paths>;
pub open spec fn collected(c: Config, l: LogRef, t: Tv, i: int) -> Option<Paths> { collected_at(c, l, t.state, t.paths, i) }
pub open spec fn emits(a: Action, p: Option<Paths>) -> bool { match a { Action::EmitSankey(s) => p is Some && p->Some_0.dom().contains(s.key()), _ => true } }
pub open spec fn one(a: Action, p: Option<Paths>) -> TriggeredAction<'static> {
  match a {
    Action::FlushBuffers(x) => TriggeredAction::FlushBuffers(&x),
    Action::EmitMetric(x) => TriggeredAction::EmitMetric(&x),
    Action::EmitSankey(x) => TriggeredAction::SankeyDiagram(TriggeredActionEmitSankey { action: &x, path: path_of(x.key(), p->Some_0[x.key()]) }),
    Action::TakeScreenshot(x) => TriggeredAction::TakeScreenshot(&x),
  }
}
pub open spec fn left1(a: Action, p: Option<Paths>) -> Option<Paths> { match a { Action::EmitSankey(s) => match p { Some(m) => Some(m.remove(s.key())), None => None }, _ => p } }
pub open spec fn left(acts: Seq<Action>, p: Option<Paths>) -> Option<Paths>
  decreases acts.len(),
{ if acts.len() == 0 { p } else { left1(acts.last(), left(acts.drop_last(), p)) } }
pub open spec fn fired(acts: Seq<Action>, p: Option<Paths>) -> Seq<TriggeredAction<'static>>
  decreases acts.len(),
{
  if acts.len() == 0 { Seq::empty() } else {
    let q = left(acts.drop_last(), p);
    if emits(acts.last(), q) { fired(acts.drop_last(), p).push(one(acts.last(), q)) } else { fired(acts.drop_last(), p) }
  }
}
pub open spec fn start(c: Config, s: int, p: Option<Paths>) -> Tv { Tv { state: s, seen: Seq::new(trs(c, s).len(), |i: int| 0int), paths: p } }
// the successors made by the first k transitions: none for one that leads to a final state
pub open spec fn next1(c: Config, l: LogRef, t: Tv, i: int) -> Seq<Tv> {
  let to = trs(c, t.state)[i].target_state_index as int;
  if follows(c, l, t, i) && trs(c, to).len() > 0 { seq![start(c, to, left(trs(c, t.state)[i].actions@, collected(c, l, t, i)))] } else { Seq::empty() }
}
pub open spec fn nexts(c: Config, l: LogRef, t: Tv, k: int) -> Seq<Tv>
  decreases k,
{ if k <= 0 { Seq::empty() } else { nexts(c, l, t, k - 1) + next1(c, l, t, k - 1) } }
pub open spec fn trig1(c: Config, l: LogRef, t: Tv, i: int) -> Seq<TriggeredAction<'static>> {
  if follows(c, l, t, i) { fired(trs(c, t.state)[i].actions@, collected(c, l, t, i)) } else { Seq::empty() }
}
pub open spec fn trig(c: Config, l: LogRef, t: Tv, k: int) -> Seq<TriggeredAction<'static>>
  decreases k,
{ if k <= 0 { Seq::empty() } else { trig(c, l, t, k - 1) + trig1(c, l, t, k - 1) } }
pub open spec fn n(c: Config, t: Tv) -> int { trs(c, t.state).len() as int }
impl Traversal {
  // the values extracted at this log, after those collected before
  #[verifier::external_body]
  fn sankey_states(&self, config: &Config, index: usize, log: &LogRef) -> (r: Option<VMap<SankeyState>>)
    ensures om(r) == collected(*config, *log, tv(*self), index as int),
  { unimplemented!() }
}
@fn bd-workflows/src/config.rs Config::states
@spec
  ensures r@ == self.states@,
@fn bd-workflows/src/config.rs Config::execution
@spec
  ensures *r == self.execution,
@fn bd-workflows/src/config.rs Config::duration_limit
@spec
  ensures r == self.duration_limit,
@fn bd-workflows/src/config.rs Config::matched_logs_count_limit
@spec
  ensures r == self.matched_logs_count_limit,
@fn bd-workflows/src/config.rs State::transitions
@spec
  ensures r@ == self.transitions@,
@fn bd-workflows/src/config.rs Transition::rule
@spec
  ensures *r == self.rule,
@fn bd-workflows/src/config.rs Config::transitions_for_traversal
@spec
  requires traversal.state_index < self.states@.len(),
  ensures r@ == trs(*self, traversal.state_index as int),
@fn bd-workflows/src/config.rs Config::actions_for_traversal
@spec
  requires traversal.state_index < self.states@.len(), transition_index < trs(*self, traversal.state_index as int).len(),
  ensures r@ == trs(*self, traversal.state_index as int)[transition_index as int].actions@,
@fn bd-workflows/src/config.rs Config::next_state_index_for_traversal
@spec
  requires traversal.state_index < self.states@.len(), transition_index < trs(*self, traversal.state_index as int).len(),
  ensures r == trs(*self, traversal.state_index as int)[transition_index as int].target_state_index,
@fn bd-workflows/src/workflow.rs Traversal::new
@spec
  requires state_index < config.states@.len(),
  ensures match r { Some(t) => trs(*config, state_index as int).len() > 0 && tv(t) == start(*config, state_index as int, om(sankey_states)), None => trs(*config, state_index as int).len() == 0 },
@entry
  proof { assert forall|v: Seq<u32>| v.len() == trs(*config, state_index as int).len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == 0) implies #[trigger] ints(v) == start(*config, state_index as int, om(sankey_states)).seen by { assert(ints(v) =~= start(*config, state_index as int, om(sankey_states)).seen); } }
@fn bd-workflows/src/workflow.rs Traversal::is_in_initial_state
@spec
  ensures r == at_start(tv(*self)),
@entry
  proof { assert forall|i: int| 0 <= i < self.matched_logs_counts@.len() implies tv(*self).seen[i] == #[trigger] self.matched_logs_counts@[i] by {} }
@text
pub open spec fn at_start(t: Tv) -> bool { t.state == 0 && forall|i: int| 0 <= i < t.seen.len() ==> #[trigger] t.seen[i] == 0 }
@fn bd-workflows/src/workflow.rs Traversal::triggered_actions
@spec
  ensures
    r@ == fired(actions@, om(*old(sankey_states))),
    om(*final(sankey_states)) == left(actions@, om(*old(sankey_states))),
@entry
  let ghost p0 = om(*sankey_states);
  proof { assert(actions@.skip(0) =~= actions@); assert(actions@.take(0) =~= Seq::empty()); }
@loop 0
  invariant
    p0 == om(*old(sankey_states)),
    vx_it0.rest().len() <= actions@.len(),
    vx_it0.rest() == refs(actions@.skip(actions@.len() - vx_it0.rest().len())),
    triggered_actions@ == fired(actions@.take(actions@.len() - vx_it0.rest().len()), p0),
    om(*sankey_states) == left(actions@.take(actions@.len() - vx_it0.rest().len()), p0),
  ensures
    vx_it0.rest().len() == 0,
    triggered_actions@ == fired(actions@, p0), om(*sankey_states) == left(actions@, p0),
  decreases vx_it0.rest().len(),
@loop_entry 0
  proof {
    let s = actions@;
    let m = s.len() - vx_it0.rest().len();
    assert(s.take(s.len() as int) =~= s);
    if vx_it0.rest().len() > 0 {
      assert(s.take(m + 1).drop_last() =~= s.take(m));
      assert(s.take(m + 1).last() == s[m]);
      assert(s.skip(m)[0] == s[m]);
      assert(refs(s.skip(m)).drop_first() =~= refs(s.skip(m + 1)));
      if s[m] is EmitSankey && om(*sankey_states) is Some && !om(*sankey_states)->Some_0.dom().contains(s[m]->EmitSankey_0.key()) {
        assert(om(*sankey_states)->Some_0.remove(s[m]->EmitSankey_0.key()) =~= om(*sankey_states)->Some_0);
      }
    }
  }
@fn bd-workflows/src/workflow.rs Traversal::process_log
@spec
  requires wf_config(*config), wf(*config, tv(*old(self))),
  ensures
    r.matched_logs_count == n_hits(*config, *log, tv(*old(self)), n(*config, tv(*old(self)))),
    r.followed_transitions_count == n_follows(*config, *log, tv(*old(self)), n(*config, tv(*old(self)))),
    tvs(r.output_traversals@) == nexts(*config, *log, tv(*old(self)), n(*config, tv(*old(self)))),
    r.triggered_actions@ == trig(*config, *log, tv(*old(self)), n(*config, tv(*old(self)))),
    tv(*final(self)) == moved(*config, *log, tv(*old(self))),
@entry
  let ghost t0 = tv(*self);
  let ghost c = *config;
  let ghost l = *log;
  let ghost all = trs(c, t0.state);
@loop 0
  invariant
    c == *config, l == *log, t0 == tv(*old(self)), all == trs(c, t0.state), wf_config(c), wf(c, t0),
    all.len() <= usize::MAX,
    vx_it0.rest().len() <= all.len(),
    vx_it0.rest() == numbered(all).skip(all.len() - vx_it0.rest().len()),
    self.state_index == t0.state, om(self.sankey_states) == t0.paths,
    self.matched_logs_counts@.len() == all.len(),
    forall|i: int| 0 <= i < all.len() ==> (#[trigger] self.matched_logs_counts@[i]) as int == (if i < all.len() - vx_it0.rest().len() { moved(c, l, t0).seen[i] } else { t0.seen[i] }),
    result.matched_logs_count == n_hits(c, l, t0, all.len() - vx_it0.rest().len()),
    result.followed_transitions_count == n_follows(c, l, t0, all.len() - vx_it0.rest().len()),
    tvs(result.output_traversals@) == nexts(c, l, t0, all.len() - vx_it0.rest().len()),
    result.triggered_actions@ == trig(c, l, t0, all.len() - vx_it0.rest().len()),
  ensures
    vx_it0.rest().len() == 0,
    ints(self.matched_logs_counts@) =~= moved(c, l, t0).seen,
    tvs(result.output_traversals@) == nexts(c, l, t0, all.len() as int),
    result.triggered_actions@ == trig(c, l, t0, all.len() as int),
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost m = all.len() - vx_it0.rest().len();
  let ghost o0 = result.output_traversals@;
  let ghost g0 = result.triggered_actions@;
  proof {
    if vx_it0.rest().len() > 0 {
      assert(vx_it0.rest()[0] == (m as usize, &all[m]));
      assert(vx_it0.rest().drop_first() =~= numbered(all).skip(m + 1));
      assert(trs(c, t0.state)[m].target_state_index < c.states@.len());
    }
    assert(o0.len() + 1 > 0);
    assert(nexts(c, l, t0, m) + Seq::<Tv>::empty() =~= nexts(c, l, t0, m));
    assert(trig(c, l, t0, m) + Seq::<TriggeredAction<'static>>::empty() =~= trig(c, l, t0, m));
    assert forall|t: Traversal| #[trigger] tvs(o0.push(t)) == tvs(o0) + seq![tv(t)] by { assert(tvs(o0.push(t)) =~= tvs(o0) + seq![tv(t)]); }
  }
@type bd-workflows/src/workflow.rs RunState
@type bd-workflows/src/workflow.rs RunResult
@type bd-workflows/src/workflow.rs Run
@rule __v.iter().all(Traversal::is_in_initial_state) => vx_all_at_start(&__v)
@rule __v.len() as u32 => vx_len32(&__v)
@known vx_all_at_start, vx_len32
@text
// A run's traversals are assumed to number less than 2^32.
#[verifier::external_body]
pub fn vx_len32<T>(v: &Vec<T>) -> (r: u32)
  ensures r == v@.len(),
{ v.len() as u32 }
pub fn vx_all_at_start(v: &Vec<Traversal>) -> (r: bool)
  ensures r == run_at_start(tvs(v@)),
{
  let mut i: usize = 0;
  let mut r = true;
  while i < v.len()
    invariant i <= v@.len(), r == run_at_start(tvs(v@).take(i as int)),
    decreases v@.len() - i,
  {
    proof {
      let ts = tvs(v@);
      assert(ts.take(i + 1).last() == tv(v@[i as int]));
      assert(forall|k: int| 0 <= k < i ==> ts.take(i as int)[k] == ts.take(i + 1)[k]);
      assert(ts.take(i + 1)[i as int] == tv(v@[i as int]));
      assert(run_at_start(ts.take(i + 1)) == (run_at_start(ts.take(i as int)) && at_start(tv(v@[i as int]))));
    }
    let b = v[i].is_in_initial_state();
    r = r && b;
    i += 1;
  }
  proof { assert(tvs(v@).take(v@.len() as int) =~= tvs(v@)); }
  r
}
// ---- A run: its traversals, the matches so far, when it first matched.
pub open spec fn run_at_start(ts: Seq<Tv>) -> bool { forall|i: int| 0 <= i < ts.len() ==> at_start(#[trigger] ts[i]) }
pub open spec fn wfs(c: Config, ts: Seq<Tv>) -> bool { forall|i: int| 0 <= i < ts.len() ==> wf(c, #[trigger] ts[i]) }
pub ghost struct Rv { pub ts: Seq<Tv>, pub matched: int, pub first: Option<SystemTime> }
pub open spec fn rv(r: Run) -> Rv { Rv { ts: tvs(r.traversals@), matched: r.matched_logs_count as int, first: r.first_progress_occurred_at } }
pub open spec fn new_run(c: Config) -> Rv { Rv { ts: if trs(c, 0).len() > 0 { seq![start(c, 0, None)] } else { Seq::empty() }, matched: 0, first: None } }
pub open spec fn all_hits(c: Config, l: LogRef, t: Tv) -> int { n_hits(c, l, t, n(c, t)) }
pub open spec fn all_follows(c: Config, l: LogRef, t: Tv) -> int { n_follows(c, l, t, n(c, t)) }
// what becomes of a traversal: it stays, with its counts raised, or is replaced with its successors
pub open spec fn ran(c: Config, l: LogRef, t: Tv) -> Seq<Tv> { if all_follows(c, l, t) == 0 { seq![moved(c, l, t)] } else { nexts(c, l, t, n(c, t)) } }
pub open spec fn expand(c: Config, l: LogRef, ts: Seq<Tv>) -> Seq<Tv>
  decreases ts.len(),
{ if ts.len() == 0 { Seq::empty() } else { ran(c, l, ts[0]) + expand(c, l, ts.drop_first()) } }
pub open spec fn run_hits(c: Config, l: LogRef, ts: Seq<Tv>) -> int
  decreases ts.len(),
{ if ts.len() == 0 { 0 } else { all_hits(c, l, ts[0]) + run_hits(c, l, ts.drop_first()) } }
// the actions: those of the later traversals first
pub open spec fn run_trig(c: Config, l: LogRef, ts: Seq<Tv>) -> Seq<TriggeredAction<'static>>
  decreases ts.len(),
{ if ts.len() == 0 { Seq::empty() } else { run_trig(c, l, ts.drop_first()) + trig(c, l, ts[0], n(c, ts[0])) } }
pub open spec fn late(c: Config, l: LogRef, first: Option<SystemTime>) -> bool {
  match (c.duration_limit, first) { (Some(d), Some(f)) => when(l).ns - f.ns > d.ns, _ => false }
}
pub open spec fn over(c: Config, m: int) -> bool { match c.matched_logs_count_limit { Some(x) => m > x, None => false } }
// the run ends because of its own limits
pub open spec fn stopped(c: Config, l: LogRef, r: Rv) -> bool { r.ts.len() > 0 && (over(c, r.matched + run_hits(c, l, r.ts)) || late(c, l, r.first)) }
pub open spec fn after(c: Config, l: LogRef, r: Rv) -> Rv {
  Rv { ts: expand(c, l, r.ts), matched: r.matched + run_hits(c, l, r.ts), first: if r.first is None && run_hits(c, l, r.ts) > 0 { Some(when(l)) } else { r.first } }
}
proof fn l_follows(c: Config, l: LogRef, t: Tv, k: int)
  requires 0 <= k <= n(c, t),
  ensures 0 <= n_follows(c, l, t, k) <= n_hits(c, l, t, k), nexts(c, l, t, k).len() <= n_follows(c, l, t, k),
  decreases k,
{ if k > 0 { l_follows(c, l, t, k - 1); } }
proof fn l_nexts(c: Config, l: LogRef, t: Tv, k: int)
  requires 0 <= k <= n(c, t), wf_config(c), wf(c, t),
  ensures wfs(c, nexts(c, l, t, k)),
  decreases k,
{ if k > 0 { l_nexts(c, l, t, k - 1); assert(trs(c, t.state)[k - 1].target_state_index < c.states@.len()); } }
proof fn l_hits0(c: Config, l: LogRef, t: Tv, k: int)
  requires 0 <= k <= n(c, t), n_hits(c, l, t, k) == 0,
  ensures forall|i: int| 0 <= i < k ==> !hits(c, l, t.state, i), trig(c, l, t, k).len() == 0, nexts(c, l, t, k).len() == 0,
  decreases k,
{ if k > 0 { l_follows(c, l, t, k - 1); l_hits0(c, l, t, k - 1); } }
proof fn l_ran(c: Config, l: LogRef, t: Tv)
  requires wf_config(c), wf(c, t),
  ensures
    wfs(c, ran(c, l, t)), 0 <= all_follows(c, l, t) <= all_hits(c, l, t),
    all_hits(c, l, t) == 0 ==> ran(c, l, t) == seq![t] && trig(c, l, t, n(c, t)).len() == 0,
{
  l_follows(c, l, t, n(c, t));
  l_nexts(c, l, t, n(c, t));
  if all_hits(c, l, t) == 0 { l_hits0(c, l, t, n(c, t)); assert(moved(c, l, t).seen =~= t.seen); }
}
// A log that matches nothing changes nothing and does nothing.
proof fn l_run(c: Config, l: LogRef, ts: Seq<Tv>)
  requires wf_config(c), wfs(c, ts),
  ensures
    wfs(c, expand(c, l, ts)), run_hits(c, l, ts) >= 0,
    run_hits(c, l, ts) == 0 ==> expand(c, l, ts) == ts && run_trig(c, l, ts).len() == 0,
  decreases ts.len(),
{
  if ts.len() > 0 {
    l_ran(c, l, ts[0]);
    l_run(c, l, ts.drop_first());
    if run_hits(c, l, ts) == 0 { assert(seq![ts[0]] + ts.drop_first() =~= ts); }
  } else { assert(ts =~= Seq::empty()); }
}
@text
proof fn l_hits_mono(c: Config, l: LogRef, ts: Seq<Tv>, k: int)
  requires wf_config(c), wfs(c, ts), 0 <= k <= ts.len(),
  ensures run_hits(c, l, ts) >= run_hits(c, l, ts.skip(k)) >= 0,
  decreases ts.len(),
{
  l_run(c, l, ts.skip(k));
  if k > 0 {
    l_ran(c, l, ts[0]);
    l_hits_mono(c, l, ts.drop_first(), k - 1);
    assert(ts.drop_first().skip(k - 1) =~= ts.skip(k));
  } else { assert(ts.skip(0) =~= ts); }
}
pub open spec fn u(x: u32) -> int { x as int }
@fn bd-workflows/src/workflow.rs TraversalResult::did_make_progress
@impl impl TraversalResult<'_>
@spec
  ensures r == (self.matched_logs_count > 0),
@fn bd-workflows/src/workflow.rs RunResult::did_make_progress
@impl impl RunResult<'_>
@spec
  ensures r == (self.matched_logs_count > 0),
@fn bd-workflows/src/workflow.rs Run::new
@spec
  requires wf_config(*config),
  ensures rv(r) == new_run(*config),
@entry
  proof { assert forall|v: Vec<Traversal>, t: Traversal| v@ == seq![t] implies #[trigger] tvs(v@) == seq![#[trigger] tv(t)] by { assert(tvs(v@) =~= seq![tv(t)]); }
    assert(tvs(Seq::<Traversal>::empty()) =~= Seq::<Tv>::empty()); }
@fn bd-workflows/src/workflow.rs Run::traversals_count
@spec
  ensures r == rv(*self).ts.len(),
@fn bd-workflows/src/workflow.rs Run::is_in_initial_state
@spec
  ensures r == run_at_start(rv(*self).ts),
@fn bd-workflows/src/workflow.rs Run::process_log
@frule __a > __b => __a.vx_gt(__b)
@frule __a >= __b => __a.vx_ge(__b)
@frule __a < __b => __b.vx_gt(__a)
@spec
  requires wf_config(*config), wfs(*config, rv(*old(self)).ts),
  ensures
    stopped(*config, *log, rv(*old(self))) ==> r.state is Stopped && r.triggered_actions@.len() == 0
      && r.created_traversals_count == 0 && r.advanced_traversals_count == 0 && r.completed_traversals_count == 0,
    !stopped(*config, *log, rv(*old(self))) ==> {
      &&& rv(*final(self)) == after(*config, *log, rv(*old(self)))
      &&& r.triggered_actions@ == run_trig(*config, *log, rv(*old(self)).ts)
      &&& r.matched_logs_count == run_hits(*config, *log, rv(*old(self)).ts)
      &&& !(r.state is Stopped) && (r.state is Completed <==> rv(*final(self)).ts.len() == 0)
      &&& rv(*final(self)).ts.len() == rv(*old(self)).ts.len() + r.created_traversals_count - r.completed_traversals_count
      &&& r.completed_traversals_count <= r.advanced_traversals_count <= rv(*old(self)).ts.len()
    },
    wfs(*config, after(*config, *log, rv(*old(self))).ts),
@entry
  let ghost c = *config;
  let ghost l = *log;
  let ghost r0 = rv(*self);
  let ghost t0 = rv(*self).ts;
  proof { assert(self.traversals.len() == t0.len()); l_run(c, l, t0); assert(t0.take(t0.len() as int) =~= t0); assert(t0.skip(t0.len() as int) =~= Seq::empty());
    assert(t0 + Seq::<Tv>::empty() =~= t0); assert(t0.skip(0) =~= t0); assert(t0.take(0) =~= Seq::empty());
    assert(Seq::<Tv>::empty() + expand(c, l, t0) =~= expand(c, l, t0)); }
@loop 0
  invariant
    c == *config, l == *log, r0 == rv(*old(self)), t0 == r0.ts, wf_config(c), wfs(c, t0), wfs(c, expand(c, l, t0)),
    vx_it0.rest().len() <= t0.len() <= usize::MAX,
    vx_it0.rest() == down(vx_it0.rest().len() as int),
    rv(*self).ts == t0.take(vx_it0.rest().len() as int) + expand(c, l, t0.skip(vx_it0.rest().len() as int)),
    run_triggered_actions@ == run_trig(c, l, t0.skip(vx_it0.rest().len() as int)),
    u(run_matched_logs_count) == run_hits(c, l, t0.skip(vx_it0.rest().len() as int)),
    self.matched_logs_count == r0.matched + run_hits(c, l, t0.skip(vx_it0.rest().len() as int)),
    self.first_progress_occurred_at == (if r0.first is None && run_hits(c, l, t0.skip(vx_it0.rest().len() as int)) > 0 { Some(when(l)) } else { r0.first }),
    rv(*self).ts.len() == t0.len() + u(created_traversals_count) - u(completed_traversals_count),
    u(completed_traversals_count) <= u(advanced_traversals_count) <= t0.len() - vx_it0.rest().len(),
    vx_it0.rest().len() < t0.len() ==> !over(c, self.matched_logs_count as int) && !late(c, l, r0.first),
    run_hits(c, l, t0) >= run_hits(c, l, t0.skip(vx_it0.rest().len() as int)) >= 0,
  ensures
    vx_it0.rest().len() == 0,
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost m = vx_it0.rest().len() - 1;
  let ghost pre = self.traversals@;
  proof {
    if m >= 0 {
      let t = t0[m];
      assert(vx_it0.rest()[0] == m as usize);
      assert(vx_it0.rest().drop_first() =~= down(m));
      assert(t0.skip(m)[0] == t);
      assert(t0.skip(m).drop_first() =~= t0.skip(m + 1));
      assert(t0.take(m + 1).drop_last() =~= t0.take(m));
      assert(t0.take(m + 1)[m] == t);
      assert(tvs(pre)[m] == t);
      assert(tv(pre[m]) == t);
      l_ran(c, l, t);
      l_follows(c, l, t, n(c, t));
      l_run(c, l, t0.skip(m));
      l_run(c, l, t0.skip(m + 1));
      l_hits_mono(c, l, t0, m);
      let tail = expand(c, l, t0.skip(m + 1));
      assert forall|p: Seq<Traversal>| p.len() == pre.len() && (forall|k: int| 0 <= k < p.len() && k != m ==> p[k] == pre[k]) && all_follows(c, l, t) == 0 && tv(p[m]) == moved(c, l, t)
        implies #[trigger] tvs(p) == t0.take(m) + expand(c, l, t0.skip(m)) by {
        assert(tail.len() == p.len() - m - 1) by { assert((t0.take(m + 1) + tail).len() == pre.len()); }
        assert forall|k: int| 0 <= k < p.len() implies tvs(p)[k] == #[trigger] (t0.take(m) + (seq![moved(c, l, t)] + tail))[k] by {
          if k != m { assert(tvs(pre)[k] == tv(pre[k])); assert((t0.take(m + 1) + tail)[k] == tv(pre[k])); }
        }
        assert(tvs(p) =~= t0.take(m) + (seq![moved(c, l, t)] + tail));
      }
      assert forall|p: Seq<Traversal>, o: Seq<Traversal>| p.len() == pre.len() && (forall|k: int| 0 <= k < p.len() && k != m ==> p[k] == pre[k]) && tvs(o) == ran(c, l, t)
        implies tvs(#[trigger] (p.take(m) + o + p.skip(m + 1))) == t0.take(m) + expand(c, l, t0.skip(m)) by {
        let q = p.take(m) + o + p.skip(m + 1);
        assert(o.len() == ran(c, l, t).len());
        assert(tail.len() == p.len() - m - 1) by { assert((t0.take(m + 1) + tail).len() == pre.len()); }
        assert forall|k: int| 0 <= k < q.len() implies tvs(q)[k] == #[trigger] (t0.take(m) + (ran(c, l, t) + tail))[k] by {
          if k < m { assert(tvs(pre)[k] == tv(pre[k])); assert((t0.take(m + 1) + tail)[k] == t0[k]); }
          else if k < m + o.len() { assert(tvs(o)[k - m] == tv(o[k - m])); }
          else { let j = k - o.len() + 1; assert(q[k] == p[j]); assert(tvs(pre)[j] == tv(pre[j])); assert((t0.take(m + 1) + tail)[j] == tail[j - m - 1]); }
        }
        assert(tvs(q) =~= t0.take(m) + (ran(c, l, t) + tail));
      }
    }
  }
@type bd-workflows/src/workflow.rs WorkflowResultStats
@type bd-workflows/src/workflow.rs WorkflowResult
@type bd-workflows/src/workflow.rs Workflow
@rule __a == &Execution::Exclusive => vx_is_exclusive(__a)
@rule *__a == Execution::Exclusive => vx_is_exclusive(__a)
@rule __a != &Execution::Exclusive => !vx_is_exclusive(__a)
@rule __a == &Execution::Parallel => !vx_is_exclusive(__a)
@rule __v.iter().any(Run::is_in_initial_state) => vx_any_run_at_start(&__v)
@rule __v.iter().any(|__r| __r.is_in_initial_state()) => vx_any_run_at_start(&__v)
@rule __v.iter().all(Run::is_in_initial_state) => vx_all_runs_at_start(&__v)
@rule __v.iter().map(Run::traversals_count).sum() => vx_total(&__v)
@known vx_is_exclusive, vx_any_run_at_start, vx_all_runs_at_start, vx_total
@text
pub fn vx_is_exclusive(e: &Execution) -> (r: bool)
  ensures r == (*e is Exclusive),
{ match e { Execution::Exclusive => true, Execution::Parallel => false } }
#[verifier::external_body]
pub fn vx_workflow_result<'a>() -> (r: WorkflowResult<'a>)
  ensures r.triggered_actions@.len() == 0, !progressed(r.stats),
{ unimplemented!() }
// something happened: a run or traversal came, moved or went, or the log matched
pub open spec fn progressed(s: WorkflowResultStats) -> bool {
  s.created_runs_count > 0 || s.advanced_runs_count > 0 || s.stopped_runs_count > 0 || s.completed_runs_count > 0
    || s.created_traversals_count > 0 || s.advanced_traversals_count > 0 || s.stopped_traversals_count > 0 || s.completed_traversals_count > 0
    || s.matched_logs_count > 0 || s.reset_exclusive_workflows_count > 0
}
pub open spec fn rvs(s: Seq<Run>) -> Seq<Rv> { s.map_values(|r: Run| rv(r)) }
pub open spec fn any_at_start(s: Seq<Rv>) -> bool { exists|i: int| 0 <= i < s.len() && run_at_start((#[trigger] s[i]).ts) }
pub open spec fn all_at_start(s: Seq<Rv>) -> bool { forall|i: int| 0 <= i < s.len() ==> run_at_start((#[trigger] s[i]).ts) }
pub fn vx_any_run_at_start(v: &Vec<Run>) -> (r: bool)
  ensures r == any_at_start(rvs(v@)),
{
  let mut i: usize = 0;
  while i < v.len()
    invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> !run_at_start((#[trigger] rvs(v@)[k]).ts),
    decreases v@.len() - i,
  {
    if v[i].is_in_initial_state() { assert(run_at_start(rvs(v@)[i as int].ts)); return true; }
    i += 1;
  }
  false
}
pub fn vx_all_runs_at_start(v: &Vec<Run>) -> (r: bool)
  ensures r == all_at_start(rvs(v@)),
{
  let mut i: usize = 0;
  while i < v.len()
    invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> run_at_start((#[trigger] rvs(v@)[k]).ts),
    decreases v@.len() - i,
  {
    if !v[i].is_in_initial_state() { assert(!run_at_start(rvs(v@)[i as int].ts)); return false; }
    i += 1;
  }
  true
}
pub open spec fn total(s: Seq<Rv>) -> int
  decreases s.len(),
{ if s.len() == 0 { 0 } else { s[0].ts.len() + total(s.drop_first()) } }
proof fn l_total(a: Seq<Rv>, b: Seq<Rv>)
  ensures total(a + b) == total(a) + total(b), total(a) >= 0,
  decreases a.len(),
{
  if a.len() > 0 { l_total(a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); }
  else { assert(a + b =~= b); }
}
proof fn l_total1(r: Rv)
  ensures total(seq![r]) == r.ts.len(),
{ assert(seq![r].drop_first() =~= Seq::empty()); assert(total(Seq::<Rv>::empty()) == 0); assert(seq![r][0] == r); }
#[verifier::external_body]
pub fn vx_total(v: &Vec<Run>) -> (r: u32)
  ensures r == total(rvs(v@)),
{ unimplemented!() }
// ---- A workflow: its runs, and the number of traversals there are (in all workflows) against the limit.
pub ghost struct Lim { pub c: Config, pub l: LogRef, pub max: int }
pub open spec fn wf_runs(c: Config, s: Seq<Rv>) -> bool { forall|i: int| 0 <= i < s.len() ==> wfs(c, (#[trigger] s[i]).ts) }
pub open spec fn acts_of(x: Lim, r: Rv) -> Seq<TriggeredAction<'static>> { if stopped(x.c, x.l, r) { Seq::empty() } else { run_trig(x.c, x.l, r.ts) } }
pub open spec fn progress(x: Lim, r: Rv) -> bool { !stopped(x.c, x.l, r) && run_hits(x.c, x.l, r.ts) > 0 }
// what becomes of a run, and of the count: it is gone when it reached the end, or a limit
pub open spec fn gone(x: Lim, r: Rv, cur: int) -> bool {
  stopped(x.c, x.l, r) || after(x.c, x.l, r).ts.len() == 0 || cur - r.ts.len() + after(x.c, x.l, r).ts.len() > x.max
}
pub open spec fn kept(x: Lim, r: Rv, cur: int) -> Seq<Rv> { if gone(x, r, cur) { Seq::empty() } else { seq![after(x.c, x.l, r)] } }
pub open spec fn settle(x: Lim, s: Seq<Rv>, cur: int) -> Seq<Rv>
  decreases s.len(),
{
  if s.len() == 0 { Seq::empty() } else {
    let k = settle(x, s.drop_first(), cur);
    kept(x, s[0], cur - total(s.drop_first()) + total(k)) + k
  }
}
pub open spec fn all_acts(x: Lim, s: Seq<Rv>) -> Seq<TriggeredAction<'static>>
  decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { all_acts(x, s.drop_first()) + acts_of(x, s[0]) } }
// Exclusive workflows: the active run goes first; only if it made no progress (or ended) does the run at the
// start see the log, and its progress replaces the active run.
pub open spec fn active_first(x: Lim, s: Seq<Rv>, cur: int) -> bool { s.len() == 2 && progress(x, s[1]) && !gone(x, s[1], cur) }
pub open spec fn excl(x: Lim, s: Seq<Rv>, cur: int) -> Seq<Rv> {
  if active_first(x, s, cur) { seq![s[0], after(x.c, x.l, s[1])] }
  else if s.len() == 2 && !gone(x, s[1], cur) && progress(x, s[0]) && settle(x, s, cur).len() == 2 { seq![after(x.c, x.l, s[0])] }
  else { settle(x, s, cur) }
}
pub open spec fn out(x: Lim, s: Seq<Rv>, cur: int) -> Seq<Rv> { if x.c.execution is Exclusive { excl(x, s, cur) } else { settle(x, s, cur) } }
pub open spec fn out_acts(x: Lim, s: Seq<Rv>, cur: int) -> Seq<TriggeredAction<'static>> {
  if x.c.execution is Exclusive && active_first(x, s, cur) { acts_of(x, s[1]) } else { all_acts(x, s) }
}
// the runs once there is one at the start, unless the limit forbids it
pub open spec fn renewed(x: Lim, s: Seq<Rv>, cur: int) -> Seq<Rv> {
  if any_at_start(s) || new_run(x.c).ts.len() + cur > x.max { s } else if x.c.execution is Exclusive { seq![new_run(x.c)] + s } else { s.push(new_run(x.c)) }
}
pub open spec fn wf_workflow(c: Config, s: Seq<Rv>) -> bool {
  wf_runs(c, s) && (c.execution is Exclusive ==> s.len() <= 2 && (s.len() == 2 ==> run_at_start(s[0].ts)))
}
proof fn l_step(x: Lim, r: Rv, cur: int)
  requires wf_config(x.c), wfs(x.c, r.ts),
  ensures
    wf_runs(x.c, kept(x, r, cur)), total(kept(x, r, cur)) >= 0,
    cur <= x.max ==> cur - r.ts.len() + total(kept(x, r, cur)) <= x.max,
    !gone(x, r, cur) && !progress(x, r) ==> kept(x, r, cur) == seq![r],
{
  l_run(x.c, x.l, r.ts);
  l_total1(after(x.c, x.l, r));
}
proof fn l_settle(x: Lim, s: Seq<Rv>, cur: int)
  requires wf_config(x.c), wf_runs(x.c, s),
  ensures
    wf_runs(x.c, settle(x, s, cur)), settle(x, s, cur).len() <= s.len(), total(settle(x, s, cur)) >= 0,
    cur <= x.max ==> cur - total(s) + total(settle(x, s, cur)) <= x.max,
  decreases s.len(),
{
  if s.len() > 0 {
    assert forall|i: int| 0 <= i < s.drop_first().len() implies wfs(x.c, (#[trigger] s.drop_first()[i]).ts) by { assert(s[i + 1] == s.drop_first()[i]); }
    l_settle(x, s.drop_first(), cur);
    let k = settle(x, s.drop_first(), cur);
    let cur2 = cur - total(s.drop_first()) + total(k);
    l_step(x, s[0], cur2);
    l_total(kept(x, s[0], cur2), k);
  }
}
@fn bd-workflows/src/workflow.rs WorkflowResultStats::did_make_progress
@spec
  ensures r == progressed(*self),
@fn bd-workflows/src/workflow.rs WorkflowResult::stats
@impl impl<'a> WorkflowResult<'a>
@spec
  ensures *r == self.stats,
@fn bd-workflows/src/workflow.rs WorkflowResult::triggered_actions
@impl impl<'a> WorkflowResult<'a>
@spec
  ensures r == self.triggered_actions,
@fn bd-workflows/src/workflow.rs WorkflowResult::incorporate_run_result
@impl impl<'a> WorkflowResult<'a>
@spec
  ensures
    final(self).triggered_actions@ == old(self).triggered_actions@ + run_result.triggered_actions@,
    final(self).stats.matched_logs_count == old(self).stats.matched_logs_count + run_result.matched_logs_count,
    progressed(old(self).stats) || run_result.matched_logs_count > 0 ==> progressed(final(self).stats),
@fn bd-workflows/src/workflow.rs Workflow::runs
@spec
  ensures r@ == self.runs@,
@fn bd-workflows/src/workflow.rs Workflow::traversals_count
@spec
  ensures r == total(rvs(self.runs@)),
@fn bd-workflows/src/workflow.rs Workflow::needs_new_run
@spec
  ensures r == !any_at_start(rvs(self.runs@)),
@fn bd-workflows/src/workflow.rs Workflow::is_in_initial_state
@spec
  ensures r == all_at_start(rvs(self.runs@)),
@fn bd-workflows/src/workflow.rs Workflow::remove_run
@spec
  requires index < old(self).runs@.len(),
  ensures final(self).runs@ == old(self).runs@.remove(index as int), final(self).id == old(self).id,
@fn bd-workflows/src/workflow.rs Workflow::remove_all_runs
@spec
  ensures final(self).runs@.len() == 0, final(self).id == old(self).id,
@fn bd-workflows/src/workflow.rs Workflow::maybe_add_run
@spec
  requires rv(run).ts.len() + *old(current_traversals_count) <= u32::MAX,
  ensures
    final(self).id == old(self).id,
    final(result).triggered_actions == old(result).triggered_actions,
    r ==> progressed(final(result).stats),
    r == (rv(run).ts.len() + *old(current_traversals_count) <= traversals_count_limit),
    r ==> *final(current_traversals_count) == *old(current_traversals_count) + rv(run).ts.len()
      && rvs(final(self).runs@) == (if config.execution is Exclusive { seq![rv(run)] + rvs(old(self).runs@) } else { rvs(old(self).runs@).push(rv(run)) }),
    !r ==> *final(current_traversals_count) == *old(current_traversals_count) && final(self).runs@ == old(self).runs@,
@entry
  let ghost s0 = self.runs@;
  proof {
    assert(rvs(s0.push(run)) =~= rvs(s0).push(rv(run)));
    assert(rvs(s0.insert(0, run)) =~= seq![rv(run)] + rvs(s0));
  }
@text
proof fn l_excl(x: Lim, s: Seq<Rv>, cur: int)
  requires wf_config(x.c), wf_workflow(x.c, s), x.c.execution is Exclusive,
  ensures
    wf_workflow(x.c, excl(x, s, cur)),
    cur <= x.max ==> cur - total(s) + total(excl(x, s, cur)) <= x.max,
    s.len() <= 1 ==> excl(x, s, cur) == settle(x, s, cur),
{
  l_settle(x, s, cur);
  if s.len() == 2 {
    let (a, b) = (s[0], s[1]);
    assert(s.drop_first() =~= seq![b]);
    assert(s =~= seq![a, b]);
    assert(s =~= seq![a] + seq![b]);
    l_total(seq![a], seq![b]);
    l_total1(a); l_total1(b);
    assert(seq![b].drop_first() =~= Seq::<Rv>::empty());
    assert(total(Seq::<Rv>::empty()) == 0);
    assert(settle(x, Seq::<Rv>::empty(), cur) =~= Seq::<Rv>::empty());
    assert(settle(x, seq![b], cur) =~= kept(x, b, cur));
    let cur2 = cur - b.ts.len() + total(kept(x, b, cur));
    l_step(x, b, cur);
    l_step(x, a, cur2);
    l_total1(after(x.c, x.l, a)); l_total1(after(x.c, x.l, b));
    l_total(seq![a], seq![after(x.c, x.l, b)]);
    assert(seq![a] + seq![after(x.c, x.l, b)] =~= seq![a, after(x.c, x.l, b)]);
    l_total(kept(x, a, cur2), kept(x, b, cur));
    assert(settle(x, s, cur) == kept(x, a, cur2) + kept(x, b, cur));
    l_run(x.c, x.l, a.ts); l_run(x.c, x.l, b.ts);
  } else if s.len() == 1 {
    assert(s.drop_first() =~= Seq::<Rv>::empty());
  }
}
@text
pub open spec fn same(p: Seq<Run>, pre: Seq<Run>, m: int) -> bool { p.len() == pre.len() && forall|i: int| 0 <= i < p.len() && i != m ==> p[i] == pre[i] }
pub open spec fn cur_at(x: Lim, s: Seq<Rv>, cur: int, m: int) -> int { cur - total(s.skip(m + 1)) + total(settle(x, s.skip(m + 1), cur)) }
proof fn l_turn(x: Lim, s1: Seq<Rv>, cur1: int, m: int, pre: Seq<Run>)
  requires
    wf_config(x.c), wf_runs(x.c, s1), 0 <= m < s1.len(), total(s1) <= cur1,
    rvs(pre) == s1.take(m + 1) + settle(x, s1.skip(m + 1), cur1),
  ensures
    ({
      let a = s1[m];
      let k = settle(x, s1.skip(m + 1), cur1);
      let curm = cur_at(x, s1, cur1, m);
      let y = after(x.c, x.l, a);
      &&& m < pre.len() && rv(pre[m]) == a && wfs(x.c, a.ts) && run_hits(x.c, x.l, a.ts) >= 0
      &&& curm == cur1 - total(s1) + total(rvs(pre)) && curm >= a.ts.len()
      &&& settle(x, s1.skip(m), cur1) == kept(x, a, curm) + k && Seq::<Rv>::empty() + k == k
      &&& all_acts(x, s1.skip(m)) == all_acts(x, s1.skip(m + 1)) + acts_of(x, a)
      &&& run_hits(x.c, x.l, a.ts) == 0 ==> y == a
      &&& forall|p: Seq<Run>| same(p, pre, m) ==> #[trigger] rvs(p) == s1.take(m) + (seq![rv(p[m])] + k)
            && cur1 - total(s1) + total(rvs(p)) == curm - a.ts.len() + rv(p[m]).ts.len()
      &&& forall|p: Seq<Run>| same(p, pre, m) ==> rvs(#[trigger] p.remove(m)) == s1.take(m) + k && cur1 - total(s1) + total(rvs(p.remove(m))) == curm - a.ts.len()
      &&& m == 0 ==> forall|z: Seq<Rv>| #[trigger] (s1.take(m) + z) == z
      &&& s1.skip(0) == s1
    }),
{
  let a = s1[m];
  let k = settle(x, s1.skip(m + 1), cur1);
  let curm = cur_at(x, s1, cur1, m);
  assert(s1.skip(0) =~= s1);
  assert(s1.skip(m)[0] == a);
  assert(s1.skip(m).drop_first() =~= s1.skip(m + 1));
  assert(s1.take(m + 1) =~= s1.take(m) + seq![a]);
  assert(s1.take(m + 1) + s1.skip(m + 1) =~= s1);
  assert(rvs(pre) =~= s1.take(m) + seq![a] + k);
  assert(rvs(pre)[m] == a);
  l_total(s1.take(m + 1), s1.skip(m + 1));
  l_total(s1.take(m), seq![a]);
  l_total(s1.take(m) + seq![a], k);
  l_total(s1.take(m), k);
  l_total1(a);
  l_total(k, k);
  assert(Seq::<Rv>::empty() + k =~= k);
  l_run(x.c, x.l, a.ts);
  if run_hits(x.c, x.l, a.ts) == 0 { assert(after(x.c, x.l, a) == a); }
  assert forall|p: Seq<Run>| same(p, pre, m) implies #[trigger] rvs(p) == s1.take(m) + (seq![rv(p[m])] + k)
        && cur1 - total(s1) + total(rvs(p)) == curm - a.ts.len() + rv(p[m]).ts.len() by {
    assert forall|i: int| 0 <= i < p.len() implies rvs(p)[i] == #[trigger] (s1.take(m) + (seq![rv(p[m])] + k))[i] by {
      if i != m { assert(rvs(pre)[i] == rv(pre[i])); assert((s1.take(m) + seq![a] + k)[i] == rv(pre[i])); }
    }
    assert(rvs(p) =~= s1.take(m) + (seq![rv(p[m])] + k));
    l_total(s1.take(m), seq![rv(p[m])] + k);
    l_total(seq![rv(p[m])], k);
    l_total1(rv(p[m]));
  }
  assert forall|p: Seq<Run>| same(p, pre, m) implies rvs(#[trigger] p.remove(m)) == s1.take(m) + k && cur1 - total(s1) + total(rvs(p.remove(m))) == curm - a.ts.len() by {
    assert forall|i: int| 0 <= i < p.len() - 1 implies rvs(p.remove(m))[i] == #[trigger] (s1.take(m) + k)[i] by {
      let j = if i < m { i } else { i + 1 };
      assert(p.remove(m)[i] == p[j]);
      assert(rvs(pre)[j] == rv(pre[j]));
      assert((s1.take(m) + seq![a] + k)[j] == rv(pre[j]));
    }
    assert(rvs(p.remove(m)) =~= s1.take(m) + k);
  }
  if m == 0 { assert forall|z: Seq<Rv>| #[trigger] (s1.take(m) + z) == z by { assert(s1.take(m) + z =~= z); } }
}
proof fn l_turn_ex(x: Lim, s1: Seq<Rv>, cur1: int, m: int)
  requires wf_config(x.c), wf_workflow(x.c, s1), x.c.execution is Exclusive, 0 <= m < s1.len(),
  ensures
    ({
      let a = s1[m];
      let k = settle(x, s1.skip(m + 1), cur1);
      let curm = cur_at(x, s1, cur1, m);
      let y = after(x.c, x.l, a);
      &&& m == 1 ==> {
        &&& k.len() == 0 && curm == cur1
        &&& all_acts(x, s1.skip(1)) == acts_of(x, a)
        &&& s1.take(1) + (seq![y] + k) == seq![s1[0], y] && (seq![y] + k).len() == 1
        &&& active_first(x, s1, cur1) <==> progress(x, a) && !gone(x, a, curm)
        &&& settle(x, s1.skip(1), cur1) == kept(x, a, curm)
      }
      &&& m == 0 && s1.len() == 1 ==> k.len() == 0 && (seq![y] + k).len() == 1 && excl(x, s1, cur1) == settle(x, s1, cur1)
      &&& m == 0 && s1.len() == 2 ==> {
        &&& k.len() <= 1 && (seq![y] + k).len() == 1 + k.len()
        &&& k.len() == 1 <==> !gone(x, s1[1], cur1)
        &&& forall|p: Seq<Run>| k.len() == 1 && #[trigger] rvs(p) == seq![y] + k ==> p.len() == 2 && rvs(p.remove(1)) == seq![y] && rv(p[1]) == k[0]
              && total(seq![y]) == total(rvs(p)) - k[0].ts.len() && total(seq![y]) == y.ts.len()
      }
    }),
{
  let a = s1[m];
  let k = settle(x, s1.skip(m + 1), cur1);
  let y = after(x.c, x.l, a);
  assert(total(Seq::<Rv>::empty()) == 0);
  if m == 1 {
    assert(s1.skip(2) =~= Seq::<Rv>::empty());
    assert(k =~= Seq::<Rv>::empty());
    assert(all_acts(x, s1.skip(2)) =~= Seq::empty());
    assert(s1.skip(1).drop_first() =~= s1.skip(2));
    assert(s1.skip(1)[0] == a);
    assert(all_acts(x, s1.skip(1)) =~= acts_of(x, a));
    assert(s1.take(1) + (seq![y] + k) =~= seq![s1[0], y]);
    assert(settle(x, s1.skip(1), cur1) =~= kept(x, a, cur1));
  } else if s1.len() == 2 {
    let b = s1[1];
    assert(s1.skip(1) =~= seq![b]);
    assert(s1.skip(1).drop_first() =~= Seq::<Rv>::empty());
    assert(settle(x, Seq::<Rv>::empty(), cur1) =~= Seq::<Rv>::empty());
    assert(k =~= kept(x, b, cur1));
    if k.len() == 1 {
      l_total1(k[0]); l_total1(y);
      assert(k =~= seq![k[0]]);
      l_total(seq![y], k);
      assert forall|p: Seq<Run>| k.len() == 1 && #[trigger] rvs(p) == seq![y] + k implies p.len() == 2 && rvs(p.remove(1)) == seq![y] && rv(p[1]) == k[0]
              && total(seq![y]) == total(rvs(p)) - k[0].ts.len() && total(seq![y]) == y.ts.len() by {
        assert(rvs(p).len() == 2);
        assert(rvs(p)[0] == rv(p[0]));
        assert(rvs(p)[1] == rv(p[1]));
        assert(rvs(p.remove(1)) =~= seq![y]);
      }
    }
  } else {
    l_excl(x, s1, cur1);
    assert(s1.skip(1) =~= Seq::<Rv>::empty());
    assert(k =~= Seq::<Rv>::empty());
  }
}
@fn bd-workflows/src/workflow.rs Workflow::process_log
@attr #[verifier::rlimit(200)]
@attr #[verifier::spinoff_prover]
@spec
  requires
    wf_config(*config), wf_workflow(*config, rvs(old(self).runs@)),
    total(rvs(old(self).runs@)) <= *old(current_traversals_count) < u32::MAX,
  ensures
    ({
      let x = Lim { c: *config, l: *log, max: traversals_count_limit as int };
      let cur0 = *old(current_traversals_count) as int;
      let s0 = rvs(old(self).runs@);
      let s1 = renewed(x, s0, cur0);
      let cur1 = cur0 - total(s0) + total(s1);
      &&& rvs(final(self).runs@) == out(x, s1, cur1)
      &&& r.triggered_actions@ == out_acts(x, s1, cur1)
      // every traversal is accounted for, and there are never more than allowed
      &&& *final(current_traversals_count) == cur0 - total(s0) + total(rvs(final(self).runs@))
      &&& cur0 <= x.max ==> *final(current_traversals_count) <= x.max
    }),
    // an exclusive workflow has at most two runs; the first of two waits at the start
    wf_workflow(*config, rvs(final(self).runs@)),
    final(self).id == old(self).id,
    // nothing changes unseen
    !progressed(r.stats) ==> rvs(final(self).runs@) == rvs(old(self).runs@),
@entry
  let ghost c = *config;
  let ghost l = *log;
  let ghost x = Lim { c: *config, l: *log, max: traversals_count_limit as int };
  let ghost cur0 = *current_traversals_count as int;
  let ghost s0 = rvs(self.runs@);
  let ghost s1 = renewed(x, s0, cur0);
  let ghost cur1 = cur0 - total(s0) + total(s1);
  let ghost ex = config.execution is Exclusive;
  proof {
    let nr = new_run(c);
    l_total(seq![nr], s0); l_total(s0, seq![nr]); l_total1(nr);
    assert(s0 + seq![nr] =~= s0.push(nr));
    assert((seq![nr] + s0)[0] == nr);
    assert(wf_config(c));
    assert(run_at_start(nr.ts));
    assert(wfs(c, nr.ts));
    assert(wf_runs(c, s1)) by {
      assert forall|i: int| 0 <= i < s1.len() implies wfs(c, (#[trigger] s1[i]).ts) by {
        if any_at_start(s0) || nr.ts.len() + cur0 > x.max {} else if ex { if i > 0 { assert(s1[i] == s0[i - 1]); } } else { if i < s0.len() { assert(s1[i] == s0[i]); } }
      }
    }
    if ex && s0.len() == 2 { assert(any_at_start(s0)) by { assert(run_at_start(s0[0].ts)); } }
    assert(wf_workflow(c, s1));
    l_settle(x, s1, cur1);
    if ex { l_excl(x, s1, cur1); }
    assert(s1.take(s1.len() as int) =~= s1);
    assert(s1.skip(s1.len() as int) =~= Seq::<Rv>::empty());
    assert(s1.skip(0) =~= s1);
    assert(s1.take(0) =~= Seq::<Rv>::empty());
    assert(s1 + Seq::<Rv>::empty() =~= s1);
    assert(total(Seq::<Rv>::empty()) == 0);
  }
@loop 0
  invariant_except_break
    ({
      let m = vx_it0.rest().len() as int;
      let k = settle(x, s1.skip(m), cur1);
      if ex && m == 0 {
        rvs(self.runs@) == out(x, s1, cur1) && result.triggered_actions@ == out_acts(x, s1, cur1)
      } else {
        &&& rvs(self.runs@) == s1.take(m) + k
        &&& result.triggered_actions@ == all_acts(x, s1.skip(m))
        &&& ex ==> !active_first(x, s1, cur1) || m == 2
        &&& ex && did_make_progress ==> k.len() == 0 && m < s1.len()
      }
    }),
  invariant
    self.id == old(self).id, s0 == rvs(old(self).runs@),
    !progressed(result.stats) ==> rvs(self.runs@) == s0 && s1 == s0,
    c == *config, l == *log, x == (Lim { c: c, l: l, max: traversals_count_limit as int }), ex == (c.execution is Exclusive),
    wf_config(c), wf_workflow(c, s1), s1.len() <= usize::MAX,
    total(s1) <= cur1,
    vx_it0.rest().len() <= s1.len(),
    vx_it0.rest() == down(vx_it0.rest().len() as int),
    *current_traversals_count == cur1 - total(s1) + total(rvs(self.runs@)),
  ensures
    rvs(self.runs@) == out(x, s1, cur1), result.triggered_actions@ == out_acts(x, s1, cur1),
    *current_traversals_count == cur1 - total(s1) + total(rvs(self.runs@)),
  decreases vx_it0.rest().len(),
@loop_entry 0
  let ghost m = vx_it0.rest().len() - 1;
  let ghost pre = self.runs@;
  proof {
    if m >= 0 {
      assert(vx_it0.rest()[0] == m as usize);
      assert(vx_it0.rest().drop_first() =~= down(m));
      l_turn(x, s1, cur1, m, pre);
      if ex { l_turn_ex(x, s1, cur1, m); }
    } else {
      assert(s1.skip(0) =~= s1); assert(s1.take(0) =~= Seq::<Rv>::empty());
      assert(Seq::<Rv>::empty() + settle(x, s1, cur1) =~= settle(x, s1, cur1));
    }
  }
