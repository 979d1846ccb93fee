//! Stand-in for intrusive_collections::LinkedList over boxed entries (a deque of the boxes: the
//! addresses of the entries are as stable as in the intrusive list).
use std::collections::VecDeque;
pub use std::mem::offset_of;
#[derive(Default)]
pub struct LinkedListLink(());
impl LinkedListLink { pub const fn new() -> Self { Self(()) } }
pub trait Adapter { type Value; }
pub struct LinkedList<A: Adapter>(VecDeque<Box<A::Value>>);
impl<A: Adapter> Default for LinkedList<A> { fn default() -> Self { Self(VecDeque::new()) } }
pub struct Cursor<'a, T>(Option<&'a T>);
impl<'a, T> Cursor<'a, T> { pub fn get(&self) -> Option<&'a T> { self.0 } }
impl<A: Adapter> LinkedList<A> {
  pub fn is_empty(&self) -> bool { self.0.is_empty() }
  pub fn front(&self) -> Cursor<'_, A::Value> { Cursor(self.0.front().map(|b| &**b)) }
  pub fn back(&self) -> Cursor<'_, A::Value> { Cursor(self.0.back().map(|b| &**b)) }
  pub fn pop_front(&mut self) -> Option<Box<A::Value>> { self.0.pop_front() }
  pub fn pop_back(&mut self) -> Option<Box<A::Value>> { self.0.pop_back() }
  pub fn push_front(&mut self, b: Box<A::Value>) { self.0.push_front(b) }
  pub fn push_back(&mut self, b: Box<A::Value>) { self.0.push_back(b) }
  pub fn iter(&self) -> impl Iterator<Item = &A::Value> { self.0.iter().map(|b| &**b) }
  pub fn clear(&mut self) { self.0.clear() }
}
#[macro_export]
macro_rules! intrusive_adapter {
  ($n:ident<$t:ident> = Box<$c:ty>: $c2:ty { $f:ident: $l:ty }) => {
    struct $n<$t>(std::marker::PhantomData<$t>);
    impl<$t> $crate::Adapter for $n<$t> { type Value = $c; }
  };
}
