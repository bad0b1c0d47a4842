#include "bc_vol.inc"
D1(XVol,XSurfX,XSurfY,XSurfZ)
