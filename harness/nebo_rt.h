// Runtime for generated Nebo programs: builds the operand fields of a case inside padded, poisoned blocks,
// records the blocks before and after the statement, and tabulates scalar function values (tab mode).
#ifndef VERIF_NEBO_RT_H
#define VERIF_NEBO_RT_H
#include "harness.h"
#include "ftypes.h"
#include <spatialops/Nebo.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/stencil/FVStaggeredOperatorTypes.h>
#include <spatialops/structured/stencil/StencilBuilder.h>
#include <spatialops/OperatorDatabase.h>
#include <map>
#include <memory>
#include <functional>
#ifdef ENABLE_THREADS
#include <spatialops/SpatialOpsTools.h>
#endif
#ifdef VH_SCHED
#include "vsched.h"
inline void vh_hold(int d){ vs::hold(d); }
#else
inline void vh_hold(int){}
#endif
typedef SpatialField<SVol> VhSVol;
template<class T> struct TName;
#define VH_TN(T) template<> struct TName< SpatialField<T> >{ static const char* n(){ return #T; } };
VH_ALL_TYPES(VH_TN)
VH_TN(SingleValue)
#undef VH_TN

struct Intern{
  std::map<std::string,int> ids; std::vector<double> vals;
  int id(double v){ if(v!=v) v=std::nan(""); char b[64]; if(v!=v) std::snprintf(b,64,"nan"); else std::snprintf(b,64,"%a",v);
    auto it=ids.find(b); if(it!=ids.end()) return it->second; int k=int(vals.size())+1; ids[b]=k; vals.push_back(v); return k; }
};

// the values a fold was given, in order
inline std::vector<double>& vh_folded(){ static std::vector<double> v; return v; }
inline const int& vh_seq(const int& a,const double& b){ static int r; vh_folded().push_back(b); r=a+1; return r; }
struct Ctx{
  // ---- the case
  IntVec n; bool bc[3]; bool tab; double scale; int parts;
  struct F{ IntVec gm,gp,vm,vp,lo,hi,bc; bool own=false; long seed; int range; std::string tn; IntVec bcx; MemoryWindow w; std::vector<double> buf, pre; std::shared_ptr<void> p; bool used; F():w(IntVec(1,1,1)),used(false){} };
  std::vector<F> f, v;                      // fields, single-value fields
  struct M{ IntVec gm,gp; std::vector<IntVec> pts; std::string tn; IntVec bcx; std::shared_ptr<void> p; bool used; M():used(false){} };
  std::vector<M> m;
  std::vector<double> k; std::vector<bool> kb;
  std::vector<double> pal;
  Intern in;
  std::map<std::string,int> table;
  std::string ast; int lhs; bool lhsv, useGhost;
  IntVec sp8; long mul; std::shared_ptr<OperatorDatabase> db;
  template<class O,class S,class T> const typename OperatorTypeBuilder<O,SpatialField<S>,SpatialField<T> >::type& op(){
    if(!db){ vh_hold(1); db.reset(new OperatorDatabase()); build_stencils(n[0],n[1],n[2],n[0]*sp8[0]/8.0,n[1]*sp8[1]/8.0,n[2]*sp8[2]/8.0,*db); vh_hold(-1); }
    return *db->retrieve_operator< typename OperatorTypeBuilder<O,SpatialField<S>,SpatialField<T> >::type >();
  }
  double sel(bool b,double x,double y){ return b?x:y; }
  bool VM(int i,const IntVec& q) const { for(auto& x: m[i].pts) if(x==q) return true; return false; }
  Ctx():sp8(8,8,8),mul(1),n(1,1,1),tab(false),scale(1),parts(0),lhs(0),lhsv(false),useGhost(true){ bc[0]=bc[1]=bc[2]=false; }

  int out(double x){ return tab ? in.id(x) : vh::fix(x,scale); }
  static unsigned long step(unsigned long& s){ s=s*6364136223846793005UL+1442695040888963407UL; return s>>33; }
  double draw(unsigned long& s,int range){ unsigned long r=step(s); if(tab) return pal[r%pal.size()]; return double((long(r%(2*range+1))-range)*mul); }

  template<class T> void fill(F& q,const GhostData& g,const BoundaryCellInfo& b,bool degenerate){
    const IntVec ext = degenerate? IntVec(1,1,1) : get_window_with_ghost(n,g,b).extent();
    q.w = MemoryWindow(q.lo+ext+q.hi,q.lo,ext); q.tn=TName<T>::n(); q.bcx=b.has_extra();
    const size_t N=q.w.glob_npts(); q.buf.assign(N,0.0);
    unsigned long s=(unsigned long)q.seed*2654435761UL+12345; for(int i=0;i<4;++i) step(s);
    for(size_t i=0;i<N;++i){
      q.buf[i]=draw(s,q.range);
      IntVec c=q.w.ijk_index_from_global(int(i))-q.lo; bool valid=true;
      for(int d=0;d<3;++d){ if(c[d]<g.get_minus(d)-q.vm[d] || c[d]>=ext[d]-(g.get_plus(d)-q.vp[d])) valid=false; }
      if(!valid && !tab) q.buf[i]=1000000+double(i);
    }
  }
  template<class L> SpatialField<L>& mk(int i){
    typedef SpatialField<L> T;
    F& q=f.at(i); if(!q.own) q.bc=IntVec(bc[0],bc[1],bc[2]); GhostData g(q.gm,q.gp); BoundaryCellInfo b=BoundaryCellInfo::build<T>(q.bc[0]!=0,q.bc[1]!=0,q.bc[2]!=0);
    fill<T>(q,g,b,false); q.used=true;
    T* t=new T(q.w,b,vh::declg(g,q.w,q.seed),&q.buf[0],ExternalStorage); q.p=std::shared_ptr<void>(t,[](void* x){ delete static_cast<T*>(x); });
    if(q.vm!=q.gm || q.vp!=q.gp) t->reset_valid_ghosts(vh::declg(GhostData(q.vm,q.vp),q.w,q.seed/7));
#ifdef ENABLE_THREADS
    if(parts>0) t->set_partition_count(parts);
#endif
    return *t;
  }
  SingleValueField& mkv(int i){
    typedef SingleValueField T; F& q=v.at(i); GhostData g(0); BoundaryCellInfo b=BoundaryCellInfo::build<T>(false,false,false);
    q.gm=q.gp=q.vm=q.vp=IntVec(0,0,0); fill<T>(q,g,b,true); q.used=true;
    T* t=new T(q.w,b,g,&q.buf[0],ExternalStorage); q.p=std::shared_ptr<void>(t,[](void* x){ delete static_cast<T*>(x); });
#ifdef ENABLE_THREADS
    if(parts>0) t->set_partition_count(parts);
#endif
    return *t;
  }
  template<class T> SpatialMask<SpatialField<T> >& mkm(int i){
    M& q=m.at(i); GhostData g(q.gm,q.gp); BoundaryCellInfo b=BoundaryCellInfo::build< SpatialField<T> >(bc[0],bc[1],bc[2]); q.used=true; q.tn=TName< SpatialField<T> >::n(); q.bcx=b.has_extra();
    std::vector<IntVec> pts; const MemoryWindow w=get_window_with_ghost(n,g,b);
    for(auto& p: q.pts){ bool ok=true; for(int d=0;d<3;++d) if(p[d]<-q.gm[d]||p[d]>=int(w.extent(d))-q.gm[d]) ok=false; if(ok) pts.push_back(p); }
    q.pts=pts;
    typedef SpatialField<T> FT;
    FT proto(w,b,vh::declg(g,w,pts.size()*11+w.glob_npts()),NULL,InternalStorage);
    SpatialMask<FT>* t=new SpatialMask<FT>(proto,pts); q.p=std::shared_ptr<void>(t,[](void* x){ delete static_cast<SpatialMask<FT>*>(x); });
    return *t;
  }
  // ---- independent scalar evaluation used only to tabulate function values
  struct Outside{};
  double VF(int i,const IntVec& c) const { const F& q=f[i]; for(int d=0;d<3;++d) if(c[d]<-q.gm[d]||c[d]>=int(q.w.extent(d))-q.gm[d]) throw Outside(); return q.pre[ q.w.flat_index(c+q.gm) ]; }
  double VV(int i) const { const F& q=v[i]; return q.pre[ q.w.flat_index(IntVec(0,0,0)) ]; }
  void note(const std::string& key,int r){ table[key]=r; }
  double U(const char* o,double a){
    double r=0; const std::string s(o);
    if(s=="neg") r=-a; else if(s=="abs") r=std::fabs(a); else if(s=="sin") r=std::sin(a); else if(s=="cos") r=std::cos(a); else if(s=="tan") r=std::tan(a);
    else if(s=="exp") r=std::exp(a); else if(s=="tanh") r=std::tanh(a); else if(s=="sqrt") r=std::sqrt(a); else if(s=="log") r=std::log(a); else if(s=="log10") r=std::log10(a);
    else if(s=="erf") r=::erf(a); else if(s=="erfc") r=::erfc(a); else std::abort();
    if(tab) note(s+":"+std::to_string(in.id(a)),in.id(r)); return r;
  }
  double N(const char* o,double a,double b){
    double r=0; const std::string s(o);
    if(s=="+") r=a+b; else if(s=="-") r=a-b; else if(s=="*") r=a*b; else if(s=="/") r=a/b; else if(s=="pow") r=std::pow(a,b); else if(s=="min") r=std::min(a,b); else if(s=="max") r=std::max(a,b); else std::abort();
    if(tab) note(s+":"+std::to_string(in.id(a))+":"+std::to_string(in.id(b)),in.id(r)); return r;
  }
  bool C(const char* o,double a,double b){
    bool r=false; const std::string s(o);
    if(s=="<") r=a<b; else if(s=="<=") r=a<=b; else if(s==">") r=a>b; else if(s==">=") r=a>=b; else if(s=="==") r=a==b; else r=a!=b;
    if(tab) note(s+":"+std::to_string(in.id(a))+":"+std::to_string(in.id(b)),r?1:0); return r;
  }
  template<class Fn> void tabulate(Fn fn){
    if(!tab) return;
    for(auto& q:f) if(q.used) q.pre=q.buf; for(auto& q:v) if(q.used) q.pre=q.buf;
    bool any=false; for(auto& q:f) any|=q.used;
    if(!any){ fn(IntVec(0,0,0)); return; }
    IntVec lo(0,0,0), hi(1,1,1);
    for(auto& q:f) if(q.used) for(int d=0;d<3;++d){ lo[d]=std::min(lo[d],-q.gm[d]); hi[d]=std::max(hi[d],int(q.w.extent(d))-q.gm[d]); }
    for(int z=lo[2];z<hi[2];++z) for(int y=lo[1];y<hi[1];++y) for(int x=lo[0];x<hi[0];++x) try{ fn(IntVec(x,y,z)); }catch(Outside&){}   // outside an operand's memory
  }
  // ---- events
  std::string win(const F& q){ return vh::winjson(q.w); }
  std::string vec(const std::vector<double>& b){ std::ostringstream o; o<<"["; for(size_t i=0;i<b.size();++i) o<<(i?",":"")<<out(b[i]); o<<"]"; return o.str(); }
  std::string state(std::vector<F>& a,bool post){
    std::ostringstream o; o<<"[";
    for(size_t i=0;i<a.size();++i){ F& q=a[i]; o<<(i?",":"");
      if(!q.used){ o<<"{\"t\":\"none\"}"; continue; }
      o<<"{\"t\":\""<<q.tn<<"\",\"x\":["<<q.bcx[0]<<","<<q.bcx[1]<<","<<q.bcx[2]<<"],\"bc\":["<<q.bc[0]<<","<<q.bc[1]<<","<<q.bc[2]<<"],\"g\":"<<vh::ghostjson(GhostData(q.gm,q.gp))<<",\"v\":"<<vh::ghostjson(GhostData(q.vm,q.vp))<<",\"w\":"<<win(q)<<",\"pre\":"<<vec(q.pre)<<",\"post\":"<<vec(q.buf)<<"}"; }
    o<<"]"; return o.str();
  }
  std::string masks(){ std::ostringstream o; o<<"[";
    for(size_t i=0;i<m.size();++i){ M& q=m[i]; o<<(i?",":""); if(!q.used){ o<<"{\"t\":\"none\"}"; continue; }
      o<<"{\"t\":\""<<q.tn<<"\",\"x\":["<<q.bcx[0]<<","<<q.bcx[1]<<","<<q.bcx[2]<<"],\"v\":"<<vh::ghostjson(GhostData(q.gm,q.gp))<<",\"pts\":["; for(size_t j=0;j<q.pts.size();++j) o<<(j?",":"")<<"["<<q.pts[j][0]<<","<<q.pts[j][1]<<","<<q.pts[j][2]<<"]"; o<<"]}"; }
    o<<"]"; return o.str(); }
  void begin(){ for(auto& q:f) if(q.used) q.pre=q.buf; for(auto& q:v) if(q.used) q.pre=q.buf; vh_hold(-1); }
  vh::Ev common(const char* e){
    vh::Ev E(e); E.v3("n",n); E.raw("bc",std::string("[")+(bc[0]?"1":"0")+","+(bc[1]?"1":"0")+","+(bc[2]?"1":"0")+"]");
    std::ostringstream ko; ko<<"["; for(size_t i=0;i<k.size();++i) ko<<(i?",":"")<<(tab? in.id(k[i]) : vh::fix(k[i])); ko<<"]";
    std::ostringstream bo; bo<<"["; for(size_t i=0;i<kb.size();++i) bo<<(i?",":"")<<(kb[i]?"true":"false"); bo<<"]";
    E.raw("k",ko.str()).raw("kb",bo.str()).raw("f",state(f,true)).raw("sv",state(v,true)).raw("m",masks()).raw("ast",ast).s("md",tab?"tab":"int");
    std::ostringstream to; to<<"{\"z\":0"; for(auto& e:table) to<<",\""<<e.first<<"\":"<<e.second; to<<"}"; E.raw("tab",to.str()); E.v3("sp8",sp8);
    return E;
  }
  void end(bool threw){ vh_hold(1); vh::Ev E=common("Assign"); E.i("lhs",lhs).b("lv",lhsv).b("ug",useGhost).b("threw",threw).i("parts",parts); E.emit(); }
  void reduced(const char* kind,bool interior,double r,bool threw,int){
    vh_hold(1); vh::Ev E=common("Reduce"); E.s("rk",kind).b("in",interior).b("threw",threw).i("r",vh::fix(r)).v3("rn",n); if(std::string(kind)=="seq") E.raw("seq",vec(vh_folded())); E.emit(); }
};
typedef void (*Prog)(Ctx&);
struct Reg{ static std::map<int,Prog>& m(){ static std::map<int,Prog> x; return x; } Reg(int i,Prog p){ m()[i]=p; } };
// noncommutative folds (integers below 2^31)
inline const double& vh_fold(const double& a,const double& b){ static double r; r=std::fmod(a*31.0+b+1000.0*65521.0,65521.0); return r; }
inline double vh_red(const double& a,const double& b){ return std::fmod(a*31.0+b+1000.0*65521.0,65521.0); }
inline const int& vh_foldi(const int& a,const double& b){ static int r; r=int((long(a)*17+long(b)+1000L*32749)%32749); return r; }
#endif
