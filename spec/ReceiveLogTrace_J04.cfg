SPECIFICATION Spec
INVARIANT J04
