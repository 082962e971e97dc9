SPECIFICATION Spec
CONSTANT MaxIndex = 11
INVARIANTS Definition Rotation Antisymmetry Interiority Transitivity Algebra
CHECK_DEADLOCK FALSE
