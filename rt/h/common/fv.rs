#![allow(dead_code)]
use bd_log_primitives::{LogField, LogFields, StringOrBytes};
use hx::Rng;
pub const NAMES: [&str; 6] = ["k", "a", "b", "log_level", "log_type", "_message"];
pub fn fields(r: &mut Rng) -> LogFields {
  (0 .. r.us(6)).map(|_| LogField {
    key: if r.chance(3, 4) { NAMES[r.us(3)].into() } else { NAMES[r.us(6)].into() },
    value: if r.chance(1, 4) { StringOrBytes::Bytes(vec![b'1' + r.us(3) as u8]) } else { StringOrBytes::String(txt(r)) },
  }).collect()
}
pub fn first<'a>(f: &'a LogFields, k: &str) -> Option<&'a LogField> { f.iter().find(|f| f.key == k) }
pub fn text(f: &LogField) -> Option<&str> { match &f.value { StringOrBytes::String(s) => Some(s), StringOrBytes::Bytes(_) => None } }
pub fn lookup(c: &LogFields, m: &LogFields, k: &str) -> Option<String> {
  first(c, k).and_then(text).or_else(|| first(m, k).and_then(text)).map(Into::into)
}
// Short words, words that are almost each other, numbers in several spellings, and arbitrary text.
pub fn txt(r: &mut Rng) -> String {
  match r.us(8) {
    0 ..= 4 => ["1", "2", "", "10", "x", "foo", "foobar"][r.us(7)].into(),
    5 => ["fo", "foo ", " foo", "FOO", "fooo", "foobaz", "x ", "X", "v", "v1", "\u{e9}", "o\u{301}o", "\n", "$1", "<a>"][r.us(15)].into(),
    6 => ["0", "-1", "01", "1.0", "1.9", "-0.5", "2.5", "9.99", "1e1", "+2", " 1", "1 ", "0x1", "5000000000", "-5000000000", "2147483647", "2147483648", "1.2.3"][r.us(18)].into(),
    _ => (0 .. r.us(20)).map(|_| ['a', 'o', 'O', '1', '0', '.', ' ', '-', '\u{e9}', '$', '\t', 'f'][r.us(12)]).collect(),
  }
}
