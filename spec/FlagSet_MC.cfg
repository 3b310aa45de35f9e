SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Independent
