SPECIFICATION Spec
CONSTANT P = "V05"
INVARIANT V05
VIEW Where
