SPECIFICATION Spec
INVARIANT J01
