SPECIFICATION Spec
CONSTANT P = "F03"
INVARIANT F03
VIEW Where
