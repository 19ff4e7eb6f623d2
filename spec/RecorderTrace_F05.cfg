SPECIFICATION Spec
CONSTANT P = "F05"
INVARIANT F05
VIEW Where
