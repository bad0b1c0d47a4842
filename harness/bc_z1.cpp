#include "bc_vol.inc"
D1(ZVol,ZSurfX,ZSurfY,ZSurfZ)
