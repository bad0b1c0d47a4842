#include "bc_vol.inc"
D2(ZVol)
BCN(Interpolant,ZVol,ZSurfX,-1,0,0,0,0,0)
BCN(Gradient,ZVol,ZSurfY,0,-1,0,0,0,0)
BCN(Interpolant,ZVol,ZSurfZ,0,0,0,0,0,1)
BCN(Gradient,ZVol,ZSurfX,-1,0,0,0,0,0)
BCN(Divergence,ZSurfX,ZVol,0,0,0,1,0,0)
BCN(Interpolant,ZSurfY,ZVol,0,0,0,0,1,0)
