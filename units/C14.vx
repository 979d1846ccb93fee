@include prelude.inc
@include store.inc
