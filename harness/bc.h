// Boundary conditions: one registered driver per (operator, source, destination).
#ifndef VERIF_BC_H
#define VERIF_BC_H
#include "harness.h"
#include "ftypes.h"
#include <spatialops/Nebo.h>
#include <spatialops/OperatorDatabase.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/FVStaggeredBCOp.h>
#include <spatialops/structured/FVStaggeredBCTools.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <map>
struct BcCase{
  IntVec n, sp8, gm, gp, dgm, dgp; bool bc[3]; std::string op,s,d,form,side; std::vector<IntVec> pts; std::vector<int> vals; std::vector<int> qvals; unsigned long seed; int gmode; bool app;
  BcCase():n(1,1,1),sp8(8,8,8),seed(1),gmode(0),app(true){ bc[0]=bc[1]=bc[2]=false; }
  double draw(){ seed=seed*6364136223846793005UL+1442695040888963407UL; return double(long((seed>>33)%201)-100); }
};
typedef void (*BcFn)(BcCase&);
struct BcReg{ static std::map<std::string,BcFn>& m(){ static std::map<std::string,BcFn> x; return x; } BcReg(const std::string& k,BcFn f){ m()[k]=f; } };
static const double BCSC=64;
template<class F> inline std::string bcmem(const F& f){ std::ostringstream o; o<<"["; const double* p=f.field_values(); const size_t n=f.window_with_ghost().glob_npts(); for(size_t i=0;i<n;++i) o<<(i?",":"")<<vh::fix(p[i],BCSC); o<<"]"; return o.str(); }
template<class F> struct BcField{ BoundaryCellInfo b; GhostData g; MemoryWindow w; std::vector<double> a; F f;
  BcField(BcCase& c,const IntVec& m,const IntVec& p): b(BoundaryCellInfo::build<F>(c.bc[0],c.bc[1],c.bc[2])), g(m,p), w(get_window_with_ghost(c.n,g,b)), a(w.glob_npts()), f(w,b,vh::declg(g,w,c.seed>>25),fill(c,a),ExternalStorage){}
  static double* fill(BcCase& c,std::vector<double>& v){ for(size_t i=0;i<v.size();++i) v[i]=c.draw(); return &v[0]; } };
inline std::string pts3(const std::vector<IntVec>& v){ std::ostringstream o; o<<"["; for(size_t j=0;j<v.size();++j) o<<(j?",":"")<<"["<<v[j][0]<<","<<v[j][1]<<","<<v[j][2]<<"]"; o<<"]"; return o.str(); }
template<class F> inline vh::Ev bcev(BcCase& c,BcField<F>& q,const std::string& pre,bool thr){
  vh::Ev E("BC"); E.s("op",c.op).s("s",c.s).s("d",c.d).s("form",c.form).s("side",c.side).v3("n",c.n).v3("sp8",c.sp8);
  E.raw("bc",std::string("[")+(c.bc[0]?"1":"0")+","+(c.bc[1]?"1":"0")+","+(c.bc[2]?"1":"0")+"]");
  IntVec x=q.b.has_extra(); E.v3("x",x); E.raw("g",vh::ghostjson(q.g)).raw("w",vh::winjson(q.w)); E.raw("pts",pts3(c.pts)); E.a("vals",c.vals); E.b("threw",thr);
  E.raw("pre",pre).raw("post",bcmem(q.f)); return E; }
inline BCSide bcside(const std::string& s){ return s=="minus"?MINUS_SIDE:s=="plus"?PLUS_SIDE:NO_SIDE; }
// BoundaryConditionOp and direct BoundaryCondition
template<class O,class S,class T> inline void bc_op(BcCase& c){
  typedef SpatialField<S> SF; typedef SpatialField<T> DF; typedef typename OperatorTypeBuilder<O,SF,DF>::type OpT;
  OperatorDatabase db; build_stencils(c.n[0],c.n[1],c.n[2],c.n[0]*c.sp8[0]/8.0,c.n[1]*c.sp8[1]/8.0,c.n[2]*c.sp8[2]/8.0,db);
  BcField<SF> q(c,c.gm,c.gp); const std::string pre=bcmem(q.f); bool thr=false;
  const BCSide sd=bcside(c.side);
  std::vector<IntVec> gp; for(auto& p:c.pts) gp.push_back(p+c.gm);
  try{
    if(c.form=="pt"){ for(size_t i=0;i<c.pts.size();++i){ BoundaryConditionOp<OpT,ConstValEval> b(c.pts[i],sd,ConstValEval(c.vals[i]),db); b(q.f); } }
    else if(c.form=="vec"||c.form=="vecg"){ const MemoryWindow w = c.form=="vec"? q.f.window_without_ghost() : q.f.window_with_ghost();
      BoundaryConditionOp<OpT,ConstValEval> b(w,c.form=="vec"?c.pts:gp,sd,ConstValEval(c.vals[0]),db); b(q.f); if(c.pts.size()%2==0) b(q.f); }
    else if(c.form=="dpt"){ for(size_t i=0;i<c.pts.size();++i){ BoundaryCondition<SF,ConstValEval> b(c.pts[i],ConstValEval(c.vals[i])); b(q.f); } }
    else if(c.form=="dvec"||c.form=="dvecg"){ const MemoryWindow w = c.form=="dvec"? q.f.window_without_ghost() : q.f.window_with_ghost();
      BoundaryCondition<SF,ConstValEval> b(w,c.form=="dvec"?c.pts:gp,ConstValEval(c.vals[0])); b(q.f); }
  }catch(std::exception&){ thr=true; }
  vh::Ev E=bcev(c,q,pre,thr);
  // the operator applied afterwards, sampled at the points that exist in its destination
  BcField<DF> r(c,c.dgm,c.dgp); std::vector<int> got; std::vector<IntVec> gpt; bool skip=c.form[0]=='d'||!c.app;
  if(!skip){ try{ db.retrieve_operator<OpT>()->apply_to_field(q.f,r.f); }catch(...){ skip=true; } }
  E.raw("dg",vh::ghostjson(r.g)); IntVec dx=r.b.has_extra(); E.v3("dx",dx); E.raw("dw",vh::winjson(r.w)); E.b("app",!skip); E.raw("dpost",skip?"[]":bcmem(r.f));
  E.emit();
}
// mask form
template<class O,class S,class T,class Lo,class Hi> inline void bc_nebo(BcCase& c){
  typedef SpatialField<S> SF; typedef SpatialField<T> DF;
  const int ld=Hi::int_vec()[0]-Lo::int_vec()[0] ? 0 : Hi::int_vec()[1]-Lo::int_vec()[1] ? 1 : 2;
  const bool grad = c.op!="Interpolant"; const double h=c.sp8[ld]/8.0; const double clo = grad? -1/h : 0.5, chi = grad? 1/h : 0.5;
  const bool minus=c.side=="minus";
  BcField<SF> q(c,c.gm,c.gp); BcField<DF> gam(c,c.dgm,c.dgp);
  const std::string pre=bcmem(q.f), gpre=bcmem(gam.f); bool thr=false;
  SpatialMask<DF> mask(gam.f,c.pts);
  try{
    if(minus){ NeboBoundaryConditionBuilder<Lo,Hi,SF,DF> b(clo,chi);
      if(c.gmode==0) b(mask,q.f,double(c.vals[0]),true); else if(c.gmode==1) b(mask,q.f,gam.f,true); else b(mask,q.f,gam.f*2.0+double(c.vals[0]),true); }
    else { NeboBoundaryConditionBuilder<Hi,Lo,SF,DF> b(chi,clo);
      if(c.gmode==0) b(mask,q.f,double(c.vals[0]),false); else if(c.gmode==1) b(mask,q.f,gam.f,false); else b(mask,q.f,gam.f*2.0+double(c.vals[0]),false); }
  }catch(std::exception&){ thr=true; }
  vh::Ev E=bcev(c,q,pre,thr); IntVec dx=gam.b.has_extra();
  E.raw("dg",vh::ghostjson(gam.g)).v3("dx",dx).raw("dw",vh::winjson(gam.w)).i("gmode",c.gmode).raw("gpre",gpre).raw("gpost",bcmem(gam.f)).b("app",false).raw("dpost","[]"); E.emit();
}
#define BCOP(O,S,T) static BcReg VH_CAT(r_##O##S##T,__LINE__)(#O ":" #S ":" #T,&bc_op<O,S,T>);
#define VH_CAT(a,b) VH_CAT2(a,b)
#define VH_CAT2(a,b) a##b
#define BCN(O,S,T,a,b,c,d,e,f) static BcReg VH_CAT(n_##O##S##T,__LINE__)("nebo:" #O ":" #S ":" #T,&bc_nebo< SpatialOps::O,S,T,IndexTriplet<a,b,c>,IndexTriplet<d,e,f> >);
#endif
