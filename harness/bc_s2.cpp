#include "bc_vol.inc"
D2(SVol)
BCOP(Interpolant,SVol,XVol) BCOP(Interpolant,XVol,SVol)
BCOP(Interpolant,SVol,YVol) BCOP(Interpolant,YVol,SVol)
BCOP(Interpolant,SVol,ZVol) BCOP(Interpolant,ZVol,SVol)
BCOP(Gradient,SVol,XVol) BCOP(Gradient,XVol,SVol)
BCOP(Gradient,SVol,YVol) BCOP(Gradient,YVol,SVol)
BCOP(Gradient,SVol,ZVol) BCOP(Gradient,ZVol,SVol)
BCN(Interpolant,SVol,SSurfX,-1,0,0,0,0,0)
BCN(Gradient,SVol,SSurfY,0,-1,0,0,0,0)
BCN(Interpolant,SVol,SSurfZ,0,0,-1,0,0,0)
BCN(Gradient,SVol,SSurfX,-1,0,0,0,0,0)
BCN(Divergence,SSurfX,SVol,0,0,0,1,0,0)
BCN(Interpolant,SSurfY,SVol,0,0,0,0,1,0)
