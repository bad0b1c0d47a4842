#include "bc_vol.inc"
D2(XVol)
BCN(Interpolant,XVol,XSurfX,0,0,0,1,0,0)
BCN(Gradient,XVol,XSurfY,0,-1,0,0,0,0)
BCN(Interpolant,XVol,XSurfZ,0,0,-1,0,0,0)
BCN(Gradient,XVol,XSurfX,0,0,0,1,0,0)
BCN(Divergence,XSurfX,XVol,-1,0,0,0,0,0)
BCN(Interpolant,XSurfY,XVol,0,0,0,0,1,0)
