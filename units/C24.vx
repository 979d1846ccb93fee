@include prelude.inc
@include vmap.inc
@type bd-metadata/src/lib.rs Platform
@text
impl Platform {
  pub open spec fn kind_text(&self) -> Seq<char> {
    match self {
      Platform::Android => "mobile"@,
      Platform::Ios => "mobile"@,
      Platform::Pulse => "pulse"@,
      Platform::Other(_, kind) => kind@,
    }
  }
  pub open spec fn os_text(&self) -> Seq<char> {
    match self {
      Platform::Android => "android"@,
      Platform::Ios => "ios"@,
      Platform::Pulse => "pulse"@,
      Platform::Other(os, _) => os@,
    }
  }
}
// An implementation of the Metadata trait by the embedding application.
#[verifier::external_body]
pub struct Metadata {}
impl Metadata {
  pub uninterp spec fn supplied(&self) -> Map<Seq<char>, String>;
  pub uninterp spec fn version(&self) -> Seq<char>;
  pub uninterp spec fn plat(&self) -> Platform;
  #[verifier::external_body]
  pub fn sdk_version(&self) -> (r: &'static str) ensures r@ == self.version() { unimplemented!() }
  #[verifier::external_body]
  pub fn platform(&self) -> (r: &Platform) ensures *r == self.plat() { unimplemented!() }
  #[verifier::external_body]
  pub fn collect_inner(&self) -> (r: VMap<String>) ensures r@ == self.supplied() { unimplemented!() }
}
pub uninterp spec fn configuration_version() -> Seq<char>;
#[verifier::external_body]
pub fn vx_configuration_version() -> (r: &'static str) ensures r@ == configuration_version() { unimplemented!() }
@rule CONFIGURATION_VERSION => vx_configuration_version()
@fn bd-metadata/src/lib.rs Platform::kind
@spec
  ensures r@ == self.kind_text(),
@fn bd-metadata/src/lib.rs Platform::os
@spec
  ensures r@ == self.os_text(),
@fn bd-metadata/src/lib.rs Metadata::collect
@spec
  ensures
    r@.dom().contains("config_version"@) && r@["config_version"@]@ == configuration_version(),
    r@.dom().contains("os"@) && r@["os"@]@ == self.plat().os_text(),
    r@.dom().contains("kind"@) && r@["kind"@]@ == self.plat().kind_text(),
    r@.dom().contains("sdk_version"@) && r@["sdk_version"@]@ == self.version(),
    forall|k: Seq<char>| #![trigger r@.dom().contains(k)] k != "config_version"@ && k != "os"@ && k != "kind"@ && k != "sdk_version"@ ==>
      (r@.dom().contains(k) <==> self.supplied().dom().contains(k)),
    forall|k: Seq<char>| #![trigger r@[k]] k != "config_version"@ && k != "os"@ && k != "kind"@ && k != "sdk_version"@ && self.supplied().dom().contains(k) ==>
      r@[k] == self.supplied()[k],
@entry
  proof {
  reveal_strlit("config_version");
  reveal_strlit("os");
  reveal_strlit("kind");
  reveal_strlit("sdk_version");
  assert("config_version"@.len() == 14 && "os"@.len() == 2 && "kind"@.len() == 4 && "sdk_version"@.len() == 11);
  }
