#include "bc_vol.inc"
D2(YVol)
BCN(Interpolant,YVol,YSurfX,-1,0,0,0,0,0)
BCN(Gradient,YVol,YSurfY,0,0,0,0,1,0)
BCN(Interpolant,YVol,YSurfZ,0,0,-1,0,0,0)
BCN(Gradient,YVol,YSurfX,-1,0,0,0,0,0)
BCN(Divergence,YSurfX,YVol,0,0,0,1,0,0)
BCN(Interpolant,YSurfY,YVol,0,-1,0,0,0,0)
