#define VH_NO_MAIN
#include "bc.h"
#define D1(V,X,Y,Z) \
 BCOP(Gradient,V,X) BCOP(Gradient,V,Y) BCOP(Gradient,V,Z) BCOP(Interpolant,V,X) BCOP(Interpolant,V,Y) BCOP(Interpolant,V,Z) \
 BCOP(Divergence,X,V) BCOP(Divergence,Y,V) BCOP(Divergence,Z,V) BCOP(Interpolant,X,V) BCOP(Interpolant,Y,V) BCOP(Interpolant,Z,V)
#define D2(V) BCOP(GradientX,V,V) BCOP(GradientY,V,V) BCOP(GradientZ,V,V) BCOP(InterpolantX,V,V) BCOP(InterpolantY,V,V) BCOP(InterpolantZ,V,V)
