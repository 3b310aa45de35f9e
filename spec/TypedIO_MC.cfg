SPECIFICATION Spec
INVARIANTS RoundTrip NothingLeft
