SPECIFICATION Spec
CONSTANT P = "V03"
INVARIANT V03
VIEW Where
