// Point fields and particles: transfers to and from a mesh field.
#include "harness.h"
#include "ftypes.h"
#include <spatialops/Nebo.h>
#include <spatialops/pointfield/PointOperators.h>
#include <spatialops/particles/ParticleOperators.h>
using namespace vh;
static const double SC=128;
static std::string mem(const double* p,size_t n,double sc){ std::ostringstream o; o<<"["; for(size_t i=0;i<n;++i) o<<(i?",":"")<<fix(p[i],sc); o<<"]"; return o.str(); }
struct Case{ std::string type,dir,form; IntVec n,gm,gp,vm,vp,lo,hi; bool bc[3]; unsigned long seed; std::vector<size_t> idx; std::vector<int> marks; double unit; std::vector<double> coord; std::vector<double> px,ps,pv,cv; int reps;
  Case():n(1,1,1),seed(1),unit(1),reps(1){ bc[0]=bc[1]=bc[2]=false; }
  double draw(){ seed=seed*6364136223846793005UL+1442695040888963407UL; return double(long((seed>>33)%401)-200); } };
template<class O,class S,class D> static void apply(const O& op,const S& s,D& d){ op.apply_to_field(s,d); }
struct Points{ Case& c; explicit Points(Case& a):c(a){}
  template<class F> void run(){
    GhostData g(c.gm,c.gp); BoundaryCellInfo b=BoundaryCellInfo::build<F>(c.bc[0],c.bc[1],c.bc[2]);
    const IntVec x=get_window_with_ghost(c.n,g,b).extent(); const MemoryWindow w(c.lo+x+c.hi,c.lo,x); const size_t N=w.glob_npts();
    std::vector<double> fm(N), lm(N,0.0); for(auto& v:fm) v=c.draw();
    F f(w,b,declg(g,w,c.seed>>20),&fm[0],ExternalStorage);
    for(size_t i=0;i<c.marks.size() && i<N;++i) lm[i]= c.marks[i]==1? 1.0 : c.marks[i]==2? -0.25 : c.marks[i]==3? 1e-300 : 0.0;
    F locs(w,b,declg(g,w,c.seed>>30),&lm[0],ExternalStorage);
    if(c.vm!=c.gm||c.vp!=c.gp) locs.reset_valid_ghosts(GhostData(c.vm,c.vp));
    const MemoryWindow lw=locs.window_with_ghost();
    size_t np=c.idx.size();
    if(c.form=="field"){ np=0; for(typename F::const_iterator i=((const F&)locs).begin();i!=((const F&)locs).end();++i) if(*i!=0.0) ++np; }
    if(np==0) return;
    typedef Point::PointField PF; std::vector<double> pm(np); for(auto& v:pm) v=c.draw();
    PF p(MemoryWindow(IntVec(int(np),1,1)),BoundaryCellInfo::build<PF>(),GhostData(0),&pm[0],ExternalStorage);
    const std::string fpre=mem(&fm[0],N,1), ppre=mem(&pm[0],np,1); bool thr=false;
    try{
      if(c.dir=="f2p"){ if(c.form=="field"){ Point::FieldToPoint<F> o(locs); apply(o,f,p); } else { Point::FieldToPoint<F> o(c.idx); apply(o,f,p); } }
      else { if(c.form=="field"){ Point::PointToField<F> o(locs); apply(o,p,f); } else { Point::PointToField<F> o(c.idx); apply(o,p,f); } }
    }catch(std::exception&){ thr=true; }
    std::vector<int> mk(N); for(size_t i=0;i<N;++i) mk[i]= lm[i]!=0.0;
    Ev E("Points"); E.s("dir",c.dir).s("form",c.form).raw("w",winjson(w)).raw("lw",winjson(lw)).a("idx",c.idx).a("mk",mk).b("threw",thr);
    E.raw("fpre",fpre).raw("ppre",ppre).raw("fpost",mem(&fm[0],N,1)).raw("ppost",mem(&pm[0],np,1)); E.emit();
  } };
struct Parts{ Case& c; explicit Parts(Case& a):c(a){}
  template<class F> void run(){
    const int n=int(c.coord.size()); const MemoryWindow w(IntVec(n,1,1)); BoundaryCellInfo b=BoundaryCellInfo::build<F>(false,false,false);
    std::vector<double> xm(n), fm(n); for(int i=0;i<n;++i){ xm[i]=c.coord[i]*c.unit; fm[i]= i<int(c.cv.size())? c.cv[i] : c.draw(); }
    GhostData g(c.gm,c.gp);
    F x(w,b,declg(g,w,c.seed>>20),&xm[0],ExternalStorage), f(w,b,declg(g,w,c.seed>>30),&fm[0],ExternalStorage);
    typedef Particle::ParticleField PF; const size_t np=c.px.size(); const MemoryWindow pw(IntVec(int(np),1,1)); BoundaryCellInfo pb=BoundaryCellInfo::build<PF>();
    std::vector<double> pc(np),ps(np),pv(np); for(size_t i=0;i<np;++i){ pc[i]=c.px[i]*c.unit; ps[i]=c.ps[i]*c.unit; pv[i]=c.pv[i]; }
    PF C(pw,pb,GhostData(0),&pc[0],ExternalStorage), S(pw,pb,GhostData(0),&ps[0],ExternalStorage), V(pw,pb,GhostData(0),&pv[0],ExternalStorage);
    const std::vector<double> xm0=xm,pc0=pc,ps0=ps;
    const std::string fpre=mem(&fm[0],n,SC), ppre=mem(&pv[0],np,SC); std::string thr="none";
    try{ for(int r=0;r<c.reps;++r){ if(c.dir=="p2c"){ Particle::ParticleToCell<F> o(x); o.apply_to_field(C,S,V,f); } else { Particle::CellToParticle<F> o(x); o.apply_to_field(C,S,f,V); } } }
    catch(std::runtime_error&){ thr="exception"; }
    Ev E("Particles"); E.s("dir",c.dir).s("threw",thr).a("x",c.coord).a("px",c.px).a("ps",c.ps).raw("fpre",fpre).raw("ppre",ppre).raw("fpost",mem(&fm[0],n,SC)).raw("ppost",mem(&pv[0],np,SC)).b("rest",xm0==xm&&pc0==pc&&ps0==ps); E.emit();
  } };
void run_case(const std::vector<Line>& ops){
  Case c;
  for(auto& l:ops){ const std::string& o=l[0];
    if(o=="t") c.type=l[1]; else if(o=="dir") c.dir=l[1]; else if(o=="form") c.form=l[1]; else if(o=="n") c.n=iv(l,1);
    else if(o=="bc"){ for(int d=0;d<3;++d) c.bc[d]=toi(l.at(1+d))!=0; }
    else if(o=="g"){ c.gm=c.vm=iv(l,1); c.gp=c.vp=iv(l,4); } else if(o=="v"){ c.vm=iv(l,1); c.vp=iv(l,4); } else if(o=="pad"){ c.lo=iv(l,1); c.hi=iv(l,4); }
    else if(o=="seed") c.seed=toi(l[1])*7919+3; else if(o=="idx"){ for(size_t i=1;i<l.size();++i) c.idx.push_back(toi(l[i])); } else if(o=="marks"){ for(size_t i=1;i<l.size();++i) c.marks.push_back(toi(l[i])); }
    else if(o=="unit") c.unit=tod(l[1])/tod(l[2]); else if(o=="coord"){ for(size_t i=1;i<l.size();++i) c.coord.push_back(tod(l[i])); } else if(o=="cv"){ for(size_t i=1;i<l.size();++i) c.cv.push_back(tod(l[i])); }
    else if(o=="p"){ c.px.push_back(tod(l[1])); c.ps.push_back(tod(l[2])); c.pv.push_back(tod(l[3])); } else if(o=="reps") c.reps=toi(l[1]);
    else if(o=="points"){ Points p(c); vh_dispatch(c.type,p); } else if(o=="particles"){ Parts p(c); vh_dispatch(c.type,p); } }
}
