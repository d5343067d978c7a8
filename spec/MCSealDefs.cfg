SPECIFICATION Spec
INVARIANTS Coherent Emit
CHECK_DEADLOCK FALSE
