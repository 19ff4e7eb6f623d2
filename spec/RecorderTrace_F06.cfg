SPECIFICATION Spec
CONSTANT P = "F06"
INVARIANT F06
VIEW Where
