SPECIFICATION Spec
CONSTANTS MaxX = 3 MaxParts = 3 Workers = 2
INVARIANTS AtMostOnce AllBeforeReturn InBox
PROPERTY Returns
CHECK_DEADLOCK FALSE
