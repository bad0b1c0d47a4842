SPECIFICATION Spec
CONSTANTS NMax = 4 VMax = 2 PartMax = 3 TwoD = FALSE
INVARIANTS BoxIsFootprint PartsTile Meaning
