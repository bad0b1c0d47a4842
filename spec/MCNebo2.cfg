SPECIFICATION Spec
CONSTANTS NMax = 2 VMax = 1 PartMax = 2 TwoD = TRUE
INVARIANTS BoxIsFootprint PartsTile Meaning
