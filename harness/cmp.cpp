// Field comparisons and one-dimensional Lagrange weights.
#include <cmath>
#include "harness.h"
#include "ftypes.h"
#include <spatialops/Nebo.h>
#include <spatialops/structured/FieldComparisons.h>
#include <spatialops/structured/onedim/LagrangePoly.h>
using namespace vh;
// values of the units-in-the-last-place cases: a centre and a number of steps from it
static const double CENTRES[]={0.0,1.0,-1.0,1024.0,0.1,1e-300,6.02e23};
static double stepd(double v,long k){ while(k>0){ v=std::nextafter(v,INFINITY); --k; } while(k<0){ v=std::nextafter(v,-INFINITY); ++k; } return v; }
struct Cmp{ const std::vector<Line>& o; explicit Cmp(const std::vector<Line>& a):o(a){}
  template<class F> void run(){
    struct G{ MemoryWindow w; GhostData g; BoundaryCellInfo b; std::vector<double> m; std::vector<int> c,k; F* f; G():w(IntVec(1,1,1)),g(0),b(BoundaryCellInfo::build<F>(false,false,false)),f(0){} };
    G a[2]; std::string kind, form; double err=0, ea=0; unsigned ulps=0; int p=0,q=1,eap=0,eaq=1; int cst=0,cc=0,ck=0; bool withea=false;
    for(auto& l:o){
      if(l[0]=="fld"){ // fld i n gm gp bc vm vp lo hi
        G& x=a[toi(l[1])]; IntVec n=iv(l,2),gm=iv(l,5),gp=iv(l,8),bc=iv(l,11),lo=iv(l,20),hi=iv(l,23); x.g=GhostData(gm,gp); x.b=BoundaryCellInfo::build<F>(bc[0],bc[1],bc[2]);
        IntVec e=get_window_with_ghost(n,x.g,x.b).extent(); x.w=MemoryWindow(lo+e+hi,lo,e); x.m.assign(x.w.glob_npts(),0.0); x.c.assign(x.m.size(),0); x.k.assign(x.m.size(),0);
        x.f=new F(x.w,x.b,declg(x.g,x.w,x.m.size()*5+lo[0]),&x.m[0],ExternalStorage); IntVec vm=iv(l,14),vp=iv(l,17); if(vm!=gm||vp!=gp) x.f->reset_valid_ghosts(GhostData(vm,vp)); }
      else if(l[0]=="vals"){ G& x=a[toi(l[1])]; for(size_t i=0;i<x.m.size()&&2+i<l.size();++i){ x.k[i]=toi(l[2+i]); x.m[i]=x.k[i]; } }
      else if(l[0]=="uvals"){ G& x=a[toi(l[1])]; for(size_t i=0;i<x.m.size()&&3+2*i<l.size();++i){ x.c[i]=toi(l[2+2*i]); x.k[i]=toi(l[3+2*i]); x.m[i]=stepd(CENTRES[x.c[i]],x.k[i]); } }
      else if(l[0]=="cmp"){ kind=l[1]; form=l[2]; p=toi(l[3]); q=toi(l[4]); err=double(p)/q; withea=toi(l[5])!=0; eap=toi(l[6]); eaq=toi(l[7]); ea=double(eap)/eaq; ulps=unsigned(p); cst=toi(l[8]); cc=toi(l[9]); ck=toi(l[10]); }
    }
    const F& f=*a[0].f; const std::vector<double> m0=a[0].m, m1=a[1].m; const double d= kind=="ulp"? stepd(CENTRES[cc],ck) : double(cst);
    int eq=-1, ne=-1; bool te=false,tn=false;
    try{
      if(form=="field"){ const F& h=*a[1].f; eq = kind=="rel"? (withea? field_equal(f,h,err,ea):field_equal(f,h,err)) : kind=="abs"? field_equal_abs(f,h,err) : kind=="ulp"? field_equal_ulp(f,h,ulps) : field_equal(f,h); }
      else eq = kind=="rel"? (withea? field_equal(d,f,err,ea):field_equal(d,f,err)) : kind=="abs"? field_equal_abs(d,f,err) : kind=="ulp"? field_equal_ulp(d,f,ulps) : field_equal(d,f);
    }catch(std::runtime_error&){ te=true; }
    try{
      if(form=="field"){ const F& h=*a[1].f; ne = kind=="rel"? (withea? field_not_equal(f,h,err,ea):field_not_equal(f,h,err)) : kind=="abs"? field_not_equal_abs(f,h,err) : kind=="ulp"? field_not_equal_ulp(f,h,ulps) : field_not_equal(f,h); }
      else ne = kind=="rel"? (withea? field_not_equal(d,f,err,ea):field_not_equal(d,f,err)) : kind=="abs"? field_not_equal_abs(d,f,err) : kind=="ulp"? field_not_equal_ulp(d,f,ulps) : field_not_equal(d,f);
    }catch(std::runtime_error&){ tn=true; }
    auto bits=[](const std::vector<double>& x,const std::vector<double>& y){ return x.size()==y.size() && (x.empty()||std::memcmp(&x[0],&y[0],x.size()*sizeof(double))==0); };
    Ev E("Cmp"); E.s("kind",kind).s("form",form).i("p",p).i("q",q).b("wea",withea).i("eap",eap).i("eaq",eaq).i("cst",kind=="ulp"?ck:cst).i("cc",cc).i("eq",eq).i("ne",ne).b("te",te).b("tn",tn).b("same",bits(m0,a[0].m)&&bits(m1,a[1].m));
    for(int i=0;i<2;++i){ const char* nm=i?"b":"a"; std::ostringstream s; s<<"{\"w\":"<<(a[i].f?winjson(a[i].f->window_with_ghost()):std::string("{}"))<<",\"c\":["; for(size_t j=0;j<a[i].c.size();++j) s<<(j?",":"")<<a[i].c[j]; s<<"],\"k\":["; for(size_t j=0;j<a[i].k.size();++j) s<<(j?",":"")<<a[i].k[j]; s<<"]}"; E.raw(nm,s.str()); }
    E.emit();
  } };
static void lagrange(const Line& l,const Line& den,const Line& xs,const Line& ys){
  // lag kind(value|deriv) order x2(doubled position) e ; mesh doubled, in units of 2^e
  const double u= std::ldexp(1.0,l.size()>4?toi(l[4]):0);
  const bool der=l[1]=="deriv"; const int order=toi(l[2]), x2=toi(l[3]); std::vector<double> x,y; for(size_t i=1;i<xs.size();++i) x.push_back(tod(xs[i])/2*u); for(size_t i=1;i<ys.size();++i) y.push_back(tod(ys[i]));
  std::vector<double> co,co2; std::vector<int> ix,ix2; bool thr=false; double val=0,val2=0; std::vector<int> ws;
  try{
    LagrangeCoefficients c(x); const LagrangeCoefficients c2(&x[0],&x[0]+x.size());
    if(der){ c.get_derivative_coefs_indices(x2/2.0*u,order,co,ix); LagrangeDerivative d(x,y,order), e(x,y); val=d.value(x2/2.0*u); val2=e.value(x2/2.0*u,order); e.get_coefs_indices(x2/2.0*u,order,co2,ix2); }
    else { c2.get_interp_coefs_indices(x2/2.0*u,order,co,ix); LagrangeInterpolant d(x,y,order), e(x,y); val=d.value(x2/2.0*u); val2=e.value(x2/2.0*u,order); e.get_coefs_indices(x2/2.0*u,order,co2,ix2); }
  }catch(...){ thr=true; }
  const bool same= co==co2&&ix==ix2&&val==val2; if(der){ val*=u; for(size_t k=0;k<co.size();++k) co[k]*=u; }
  Ev E("Lag"); E.b("der",der).i("o",order).i("x",x2).a("m",std::vector<std::string>(xs.begin()+1,xs.end())).a("y",std::vector<std::string>(ys.begin()+1,ys.end())).b("threw",thr).b("same",same).a("ix",ix);
  // each weight multiplied by its own denominator
  for(size_t k=0;k<ix.size()&&k<co.size();++k){ double d=1; for(size_t j=0;j<ix.size();++j) if(j!=k) d*= 2*((x[ix[k]]-x[ix[j]])/u); ws.push_back(fix(co[k],d*(der?0.5:1.0))); }
  E.a("w",ws).i("nw",co.size()).i("v",fix(val,tod(den[1]))).i("vd",toi(den[1])); E.emit();
}
void run_case(const std::vector<Line>& ops){
  Line xs,ys,den; std::string t;
  for(auto& l:ops){ if(l[0]=="t") t=l[1]; else if(l[0]=="xs") xs=l; else if(l[0]=="ys") ys=l; else if(l[0]=="den") den=l; else if(l[0]=="lag") lagrange(l,den,xs,ys); }
  if(!t.empty()){ Cmp c(ops); vh_dispatch(t,c); }
}
