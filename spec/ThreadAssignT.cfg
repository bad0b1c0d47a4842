SPECIFICATION Spec
CONSTANTS MaxX = 3 MaxParts = 3 Workers = 3
INVARIANTS AtMostOnce AllBeforeReturn InBox
PROPERTY Returns
CHECK_DEADLOCK FALSE
