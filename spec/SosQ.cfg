SPECIFICATION Spec
CONSTANT MaxIndex = 7
INVARIANTS Definition Rotation Antisymmetry Interiority Transitivity Algebra
CHECK_DEADLOCK FALSE
