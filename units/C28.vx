@include log.inc
@text
// What matching sees.
pub open spec fn seen(f: FieldsRef, k: Seq<char>) -> Option<Seq<char>> {
  match first_text(f.captured_fields@, k) { Some(t) => Some(t), None => first_text(f.matching_fields@, k) }
}
pub open spec fn seen_in(l: LogRef, k: Seq<char>) -> Option<Seq<char>> {
  if k == LOG_FIELD_NAME_LEVEL@ { Some(dec(l.log_level)) } else if k == LOG_FIELD_NAME_TYPE@ { Some(dec(l.log_type.0)) } else { seen(*l.fields, k) }
}
@fn bd-log-primitives/src/lib.rs StringOrBytes::as_str
@impl impl StringOrBytes
@frule __s.as_ref() => __s.as_str()
@spec
  ensures stxt(r) == value_text(*self),
@fn bd-log-primitives/src/lib.rs FieldsRef::matching_field_value
@impl impl<'a> FieldsRef<'a>
@spec
  ensures stxt(r) == first_text(self.matching_fields@, key@),
@fn bd-matcher/src/lib.rs FieldProvider for FieldsRef::field_value
@impl impl<'a> FieldsRef<'a>
@spec
  ensures txt(r) == seen(*self, field_key@),
@fn bd-matcher/src/lib.rs FieldProvider for LogRef::field_value
@impl impl<'a> LogRef<'a>
@opt strmatch
@spec
  ensures txt(r) == seen_in(*self, key@),
