SPECIFICATION Spec
CONSTANT P = "A01"
INVARIANT A01
VIEW Where
