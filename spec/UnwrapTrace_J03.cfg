SPECIFICATION Spec
INVARIANT J03
