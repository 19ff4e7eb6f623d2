SPECIFICATION Spec
CONSTANT P = "V02"
INVARIANT V02
VIEW Where
