#include "bc_vol.inc"
D1(YVol,YSurfX,YSurfY,YSurfZ)
