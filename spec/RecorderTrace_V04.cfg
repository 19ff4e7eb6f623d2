SPECIFICATION Spec
CONSTANT P = "V04"
INVARIANT V04
VIEW Where
