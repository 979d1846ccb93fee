@include prelude.inc
@include vmap.inc
@text
use std::sync::Arc;
@type bd-runtime-config/src/feature_flags.rs FeatureFlagValue
@type bd-runtime-config/src/feature_flags.rs MemoryFeatureFlags
@text
// The percentage decision of the property: never at 0, always from 10000 on, otherwise by the draw.
pub open spec fn percent(i: u64, draw: u64) -> bool {
  if i == 0 { false } else if i >= 10000 { true } else { draw % 10000 < i }
}
@fn bd-runtime-config/src/feature_flags.rs MemoryFeatureFlags::feature_enabled
@generics <F: Fn() -> u64>
@param random: F
@spec
  requires
    forall|x: ()| #[trigger] random.requires(x),
  ensures
    !self.values@.dom().contains(name@) ==> r == default,
    self.values@.dom().contains(name@) && !(self.values@[name@] is Integer) ==> r == default,
    self.values@.dom().contains(name@) && self.values@[name@] is Integer ==>
      (self.values@[name@]->Integer_0 == 0 && !r) || (self.values@[name@]->Integer_0 >= 10000 && r)
      || (exists|d: u64| #[trigger] random.ensures((), d) && r == percent(self.values@[name@]->Integer_0, d)),
@fn bd-runtime-config/src/feature_flags.rs FeatureFlags for MemoryFeatureFlags::get_bool
@spec
  ensures
    self.values@.dom().contains(name@) && self.values@[name@] is Bool ==> r == self.values@[name@]->Bool_0,
    !(self.values@.dom().contains(name@) && self.values@[name@] is Bool) ==> r == default,
@fn bd-runtime-config/src/feature_flags.rs FeatureFlags for MemoryFeatureFlags::get_integer
@spec
  ensures
    self.values@.dom().contains(name@) && self.values@[name@] is Integer ==> r == self.values@[name@]->Integer_0,
    !(self.values@.dom().contains(name@) && self.values@[name@] is Integer) ==> r == default,
@fn bd-runtime-config/src/feature_flags.rs FeatureFlags for MemoryFeatureFlags::get_string
@spec
  ensures
    self.values@.dom().contains(name@) && self.values@[name@] is String ==> r == self.values@[name@]->String_0,
    !(self.values@.dom().contains(name@) && self.values@[name@] is String) ==> r == *default,

//@ ---- loading a flag file
@text
#[verifier::external_body]
pub struct Path {}
#[verifier::external_body]
pub struct IoError {}
#[verifier::external_body]
pub struct YamlError {}
// The file system at the moment of the read, and the YAML grammar: uninterpreted.
pub uninterp spec fn yaml_parse<T>(s: Seq<char>) -> Option<T>;
pub uninterp spec fn file_readable(p: &Path) -> bool;
pub uninterp spec fn file_content(p: &Path) -> Seq<char>;
#[verifier::external_body]
pub fn vx_read_to_string(p: &Path) -> (r: Result<String, IoError>)
  ensures
    r is Ok <==> file_readable(p),
    r is Ok ==> r->Ok_0@ == file_content(p),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_yaml<T>(s: &String) -> (r: Result<T, YamlError>)
  ensures
    r is Ok <==> yaml_parse::<T>(s@) is Some,
    r is Ok ==> yaml_parse::<T>(s@) == Some(r->Ok_0),
{ unimplemented!() }
pub trait StatsCallbacks {
  fn on_deserialize_success(&self);
  fn on_deserialize_failure(&self);
  fn on_io_failure(&self);
}
pub struct WatchedFileLoader {}
// What the conversion must be given: the decoded file, or nothing when it is unreadable or malformed.
pub open spec fn loaded<T>(p: &Path) -> Option<T> {
  if file_readable(p) { yaml_parse::<T>(file_content(p)) } else { None }
}
@rule std::fs::read_to_string(__p) => vx_read_to_string(__p)
@rule serde_yaml::from_str(__s) => vx_yaml(__s)
@fn bd-runtime-config/src/loader.rs WatchedFileLoader::load_config
@generics <SerializedType, C, F: Fn(Option<SerializedType>) -> Option<Arc<C>>, S: StatsCallbacks>
@param file_to_load: &Path
@param conversion_function: &F
@param stats: &S
@ret r: Option<Arc<C>>
@spec
  requires
    forall|x: Option<SerializedType>| #[trigger] conversion_function.requires((x,)),
  ensures
    conversion_function.ensures((loaded::<SerializedType>(file_to_load),), r),
