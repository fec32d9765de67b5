SPECIFICATION Spec
INVARIANTS OpenFirst CloseLast RefusedIsSkipped NotOverRefused ReadBack
CHECK_DEADLOCK FALSE
