#include "bc_vol.inc"
D1(SVol,SSurfX,SSurfY,SSurfZ)
