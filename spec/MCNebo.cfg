SPECIFICATION Spec
CONSTANTS NMax = 3 VMax = 2 PartMax = 2 TwoD = FALSE
INVARIANTS BoxIsFootprint PartsTile Meaning
