SPECIFICATION Spec
INVARIANT J02
