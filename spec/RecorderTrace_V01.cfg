SPECIFICATION Spec
CONSTANT P = "V01"
INVARIANT V01
VIEW Where
