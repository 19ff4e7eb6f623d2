SPECIFICATION Spec
CONSTANT P = "F04"
INVARIANT F04
VIEW Where
