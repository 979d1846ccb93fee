@include prelude.inc
@include store.inc
@text
pub uninterp spec fn version_key() -> Seq<char>;
#[verifier::external_body]
pub fn vx_version_key() -> (r: Key<AppVersion>)
  ensures r.key@ == version_key(),
{ unimplemented!() }
impl Storable for AppVersion {}
// Derived equality, and every version can be encoded (strings and integers).
#[verifier::external_body]
pub fn vx_ver_eq(a: &AppVersion, b: &AppVersion) -> (r: bool)
  ensures r == (*a == *b),
{ unimplemented!() }
pub broadcast axiom fn ax_version_serializable(v: AppVersion)
  ensures #[trigger] serializable(v);
// The version on record.
pub open spec fn rec(s: DynStorage) -> Option<AppVersion> { held::<AppVersion>(s@, version_key()) }
@rule APP_VERSION_KEY => vx_version_key()
@rule __a == &__b => vx_ver_eq(__a, &__b)
@rule &__a == __b => vx_ver_eq(&__a, __b)
@rule *__a == __b => vx_ver_eq(__a, &__b)
@rule __a != &__b => !vx_ver_eq(__a, &__b)
@rule &__a != __b => !vx_ver_eq(&__a, __b)
@rule *__a != __b => !vx_ver_eq(__a, &__b)
@rule __a == __b => vx_ver_eq(__a, __b)
@rule __a != __b => !vx_ver_eq(__a, __b)
@type bd-logger/src/app_version.rs AppVersion
@type bd-logger/src/app_version.rs AppVersionExtra
@type bd-logger/src/app_version.rs Repository
@fn bd-logger/src/app_version.rs Repository::new
@spec
  ensures r.store == store,
@fn bd-logger/src/app_version.rs Repository::has_changed
@self mut
@spec
  requires old(self).store.storage.reliable(),
  ensures
    final(self).store.storage.reliable(),
    rec(old(self).store.storage) is None ==> !r && rec(final(self).store.storage) == Some(*app_version),
    rec(old(self).store.storage) is Some ==> final(self).store.storage@ == old(self).store.storage@ && r == (rec(old(self).store.storage)->Some_0 != *app_version),
@entry
  broadcast use ax_version_serializable;
@fn bd-logger/src/app_version.rs Repository::set
@self mut
@spec
  requires old(self).store.storage.reliable(),
  ensures
    final(self).store.storage.reliable(),
    rec(final(self).store.storage) == Some(*app_version),
    r == (match rec(old(self).store.storage) { Some(p) => if p == *app_version { None } else { Some(p) }, None => None }),
@entry
  broadcast use ax_version_serializable;
@text
// A change is reported exactly once, whatever is asked in between.
pub fn vx_client(store: Store, v1: AppVersion, v2: AppVersion) -> (out: (bool, Option<AppVersion>, Option<AppVersion>, bool))
  requires store.storage.reliable(), v1 != v2, rec(store.storage) == Some(v1),
  ensures out.0, out.1 == Some(v1), out.2 is None, !out.3,
{
  let mut r = Repository::new(store);
  let asked = r.has_changed(&v2);
  let first = r.set(&v2);
  let again = r.set(&v2);
  let after = r.has_changed(&v2);
  (asked, first, again, after)
}
