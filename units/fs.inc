@text
// ---- Files, by what each path holds. A read that succeeds returns it; a failed write leaves the file in any
// state; nothing else touches the directory. `healthy`: a file system on which operations do not fail.
#[verifier::external_body]
pub struct PathBuf {}
pub type Path = PathBuf;
impl PathBuf {
  pub uninterp spec fn id(&self) -> Seq<Seq<char>>;
  #[verifier::external_body]
  pub fn join(&self, s: &str) -> (r: PathBuf) ensures r.id() == self.id().push(s@) { unimplemented!() }
}
pub open spec fn inside(f: Seq<Seq<char>>, d: Seq<Seq<char>>) -> bool { f.len() == d.len() + 1 && f.drop_last() == d }
#[verifier::external_body]
#[derive(Debug)]
pub struct IoErr {}
impl From<IoErr> for AnyErr { #[verifier::external_body] fn from(e: IoErr) -> Self { unimplemented!() } }
pub trait VxBytes { spec fn raw(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn raw(&self) -> Seq<u8> { self@ } }
impl VxBytes for &Vec<u8> { open spec fn raw(&self) -> Seq<u8> { (**self)@ } }
impl VxBytes for &[u8] { open spec fn raw(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct VxFs {}
impl VxFs {
  pub uninterp spec fn view(&self) -> Map<Seq<Seq<char>>, Seq<u8>>;
  pub uninterp spec fn healthy(&self) -> bool;
  #[verifier::external_body]
  pub fn exists(&self, p: &PathBuf) -> (r: bool) ensures !r ==> !self@.dom().contains(p.id()) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_exists(&self, p: &PathBuf) -> (r: Result<bool, IoErr>)
    ensures r is Ok ==> r->Ok_0 == self@.dom().contains(p.id()), self.healthy() ==> r is Ok,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn read(&self, p: &PathBuf) -> (r: Result<Vec<u8>, IoErr>)
    ensures
      r is Ok ==> self@.dom().contains(p.id()) && r->Ok_0@ == self@[p.id()],
      self.healthy() && self@.dom().contains(p.id()) ==> r is Ok,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn write<D: VxBytes>(&mut self, p: &PathBuf, d: D) -> (r: Result<(), IoErr>)
    ensures
      final(self).healthy() == old(self).healthy(),
      r is Ok ==> final(self)@ == old(self)@.insert(p.id(), d.raw()),
      forall|f: Seq<Seq<char>>| f != p.id() ==> #[trigger] final(self)@.dom().contains(f) == old(self)@.dom().contains(f) && final(self)@[f] == old(self)@[f],
      old(self).healthy() ==> r is Ok,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove_file(&mut self, p: &PathBuf) -> (r: Result<(), IoErr>)
    ensures
      final(self).healthy() == old(self).healthy(),
      r is Ok || old(self).healthy() ==> final(self)@ == old(self)@.remove(p.id()),
      r is Err ==> final(self)@ == old(self)@,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove_dir_all(&mut self, d: &PathBuf) -> (r: Result<(), IoErr>)
    ensures
      final(self).healthy() == old(self).healthy(),
      forall|f: Seq<Seq<char>>| #[trigger] final(self)@.dom().contains(f) ==> old(self)@.dom().contains(f) && final(self)@[f] == old(self)@[f],
      r is Ok || old(self).healthy() ==> forall|f: Seq<Seq<char>>| inside(f, d.id()) ==> !#[trigger] final(self)@.dom().contains(f),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn create_dir(&mut self, d: &PathBuf) -> (r: Result<(), IoErr>)
    ensures final(self)@ == old(self)@, final(self).healthy() == old(self).healthy(),
  { unimplemented!() }
}
