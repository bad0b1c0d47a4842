// Conformance harness: memory windows, refinement, iterators, ghost algebra, boundary info, sizing, traits, grids.
#include "harness.h"
#include "ftypes.h"
#include <spatialops/structured/Grid.h>
using namespace vh;

static MemoryWindow rdwin(const Line& l,size_t k){ return MemoryWindow(iv(l,k),iv(l,k+3),iv(l,k+6)); }

struct Traits{
  std::string name;
  template<class F> void run(){
    typedef typename F::Location L;
    int fd = IsSameType<typename L::FaceDir,XDIR>::result ? 0 : IsSameType<typename L::FaceDir,YDIR>::result ? 1 : IsSameType<typename L::FaceDir,ZDIR>::result ? 2 : 3;
    IntVec st( IndexStagger<F,XDIR>::value, IndexStagger<F,YDIR>::value, IndexStagger<F,ZDIR>::value );
    Ev("Traits").s("t",name).v3("off",L::Offset::int_vec()).v3("bcx",L::BCExtra::int_vec()).i("fd",fd).v3("stag",st).emit();
  }
};
template<class F> struct FaceT{ static void go(const std::string&){} };
template<class F> std::string tname(){
#define VH_N(T) if(IsSameType<F,SpatialField<T> >::result) return #T;
  VH_ALL_TYPES(VH_N)
#undef VH_N
  return "?";
}
template<class V> void faces(){
  Ev("Faces").s("t",tname<V>()).s("x",tname<typename FaceTypes<V>::XFace>()).s("y",tname<typename FaceTypes<V>::YFace>()).s("z",tname<typename FaceTypes<V>::ZFace>())
    .s("vx",tname<typename VolType<typename FaceTypes<V>::XFace>::VolField>()).s("vy",tname<typename VolType<typename FaceTypes<V>::YFace>::VolField>()).s("vz",tname<typename VolType<typename FaceTypes<V>::ZFace>::VolField>()).emit();
}
template<class A,class B> void trip(){
  Ev("Triplet").v3("a",A::int_vec()).v3("b",B::int_vec()).v3("add",Add<A,B>::result::int_vec()).v3("sub",Subtract<A,B>::result::int_vec())
    .v3("mul",Multiply<A,B>::result::int_vec()).v3("lt",LessThan<A,B>::result::int_vec()).v3("gt",GreaterThan<A,B>::result::int_vec())
    .v3("abs",A::Abs::int_vec()).v3("pos",A::PositiveOrZero::int_vec()).v3("neg",A::Negate::int_vec())
    .v3("ext",IntVec(IndexTripletExtract<A,XDIR>::value,IndexTripletExtract<A,YDIR>::value,IndexTripletExtract<A,ZDIR>::value))
    .v3("val",IntVec(A::x_value(),A::y_value(),A::z_value()))
    .i("kr",Kronecker<A::X,B::X>::value).emit();
}
typedef IndexTriplet<1,-1,0> T1; typedef IndexTriplet<0,1,-1> T2; typedef IndexTriplet<-1,0,1> T3; typedef IndexTriplet<2,3,-2> T4; typedef IndexTriplet<-3,2,0> T5; typedef IndexTriplet<0,0,0> T6;
template<class A> void trips(){ trip<A,T1>(); trip<A,T2>(); trip<A,T3>(); trip<A,T4>(); trip<A,T5>(); trip<A,T6>(); }

struct Sizing{
  std::string name; IntVec dim; GhostData g; bool bc[3]; bool vecform;
  template<class F> void run(){
    BoundaryCellInfo b = vecform ? BoundaryCellInfo::build<F>(IntVec(bc[0],bc[1],bc[2])) : BoundaryCellInfo::build<F>(bc[0],bc[1],bc[2]);
    BoundaryCellInfo b2(b), b3=BoundaryCellInfo::build<F>(); b3=b;
    MemoryWindow w = get_window_with_ghost(dim,g,b);
    F f(w,b,g,NULL,InternalStorage);
    Ev("Sizing").s("t",name).v3("dim",dim).raw("g",ghostjson(g)).v3("bc",IntVec(bc[0],bc[1],bc[2]))
      .v3("hb",b.has_bc()).v3("ne",b.num_extra()).v3("he",b.has_extra())
      .v3("hb1",IntVec(b.has_bc(0),b.has_bc(1),b.has_bc(2))).v3("ne1",IntVec(b.num_extra(0),b.num_extra(1),b.num_extra(2))).v3("he1",IntVec(b2.has_extra(0),b3.has_extra(1),b2.has_extra(2)))
      .v3("he3",b3.has_extra())
      .v3("gdim",IntVec(get_dim_with_ghost(dim[0],g.get_minus(0),g.get_plus(0),b.has_extra(0)),get_dim_with_ghost(dim[1],g.get_minus(1),g.get_plus(1),b.has_extra(1)),get_dim_with_ghost(dim[2],g.get_minus(2),g.get_plus(2),b.has_extra(2))))
      .raw("w",winjson(w)).raw("fw",winjson(f.window_with_ghost())).raw("fi",winjson(f.window_without_ghost())).raw("fg",ghostjson(f.get_ghost_data())).raw("fv",ghostjson(f.get_valid_ghost_data()))
      .i("bytes",f.allocated_bytes()/sizeof(double)).emit();
  }
};

template<class F,class D> void coord(const Grid& g,F& f){ g.set_coord<D>(f); }
struct GridOp{
  std::string name; int dir; IntVec dim; IntVec dx8; GhostData g; bool bc[3];
  template<class F> void run(){
    BoundaryCellInfo b = BoundaryCellInfo::build<F>(bc[0],bc[1],bc[2]);
    MemoryWindow w = get_window_with_ghost(dim,g,b);
    F f(w,b,g,NULL,InternalStorage);
    for(typename F::iterator i=f.begin(); i!=f.end(); ++i) *i=-12345;
    std::vector<double> len(3); for(int i=0;i<3;++i) len[i]=double(dx8[i])*dim[i]/8.0;
    Grid grid(dim,len);
    if(dir==0) grid.set_coord<XDIR>(f); else if(dir==1) grid.set_coord<YDIR>(f); else grid.set_coord<ZDIR>(f);
    std::vector<int> v; const double* p=f.field_values(); for(size_t i=0;i<w.glob_npts();++i) v.push_back(fix(p[i],16));
    IntVec sp(fix(grid.spacing<XDIR>(),16),fix(grid.spacing<YDIR>(),16),fix(grid.spacing<ZDIR>(),16));
    IntVec ln(fix(grid.length(0),16),fix(grid.length(1),16),fix(grid.length()[2],16));
    Ev("Grid").s("t",name).i("dir",dir).v3("dim",dim).v3("dx8",dx8).raw("g",ghostjson(g)).v3("bc",IntVec(bc[0],bc[1],bc[2]))
      .v3("sp",sp).v3("len",ln).v3("ext",IntVec(grid.extent(0),grid.extent()[1],grid.extent(2))).a("v",v).emit();
  }
};

// iterator sessions -------------------------------------------------------
typedef SVolField F;
struct ISess{
  MemoryWindow w; std::vector<double> mem; bool cst;
  FieldIterator<F> it, b, e; ConstFieldIterator<F> cit, cb, ce;
  ISess(const MemoryWindow& w_,bool c): w(w_), mem(w_.glob_npts()), cst(c),
    it(&mem[0],w_), b(&mem[0],w_), e(b+int(w_.local_npts())), cit(&mem[0],w_), cb(&mem[0],w_), ce(cb+int(w_.local_npts()))
  { for(size_t i=0;i<mem.size();++i) mem[i]=double(i); }
};
template<class It> void report(const char* op,int n,It& it,const It& b,const It& e,bool posref,int extra){
  Ev v("Move"); v.s("op",op).i("n",n);
  const bool atend = (it==e);
  v.i("val", atend ? -1 : fix(*it)).i("db",int(it-b)).i("de",int(e-it)).b("eqb",it==b).b("neb",it!=b).b("eqe",atend).b("lte",it<e).b("gtb",it>b).b("lee",it<=e).b("geb",it>=b).i("x",extra);
  IntVec loc = atend ? IntVec(-1,-1,-1) : it.location();
  v.v3("loc",loc).emit();
}
template<class It> int dosub(It& it,int n){ return fix(it[n]); }
int dosub(ConstFieldIterator<F>& it,int n){ return fix(*(it+n)); }
template<class It> void domove(const Line& l,It& it,const It& b,const It& e){
  const std::string& op=l[0]; int n = l.size()>1?toi(l[1]):0; int extra=-1;
  if(op=="++") ++it; else if(op=="--") --it;
  else if(op=="p++"){ It o=it++; extra=int(o-b); } else if(op=="p--"){ It o=it--; extra=int(o-b); }
  else if(op=="+=") it+=n; else if(op=="-=") it-=n;
  else if(op=="+") it=it+n; else if(op=="-") it=it-n;
  else if(op=="[]") extra=dosub(it,n);
  else if(op=="wr"){ extra=fix(*it); }
  report(op.c_str(),n,it,b,e,false,extra);
}
template<class It> std::vector<int> walk(It b,const It& e,size_t lim){ std::vector<int> r; for(It i=b;i!=e && r.size()<lim;++i) r.push_back(fix(*i)); return r; }
template<class It> std::vector<int> rwalk(const It& b,It e,size_t lim){ std::vector<int> r; It i=e; while(i!=b && r.size()<lim){ --i; r.push_back(fix(*i)); } return r; }

struct Walk{
  std::string name; IntVec dim; GhostData g; bool bc[3]; GhostData v;
  template<class FT> void run(){
    BoundaryCellInfo b = BoundaryCellInfo::build<FT>(bc[0],bc[1],bc[2]);
    MemoryWindow w = get_window_with_ghost(dim,g,b);
    std::vector<double> mem(w.glob_npts()); for(size_t i=0;i<mem.size();++i) mem[i]=double(i);
    FT f(w,b,g,&mem[0],ExternalStorage); const FT& cf=f;
    f.reset_valid_ghosts(v);
    size_t lim=2*mem.size()+5;
    Ev("Walk").s("t",name).v3("dim",dim).raw("g",ghostjson(g)).raw("v",ghostjson(v)).v3("bc",IntVec(bc[0],bc[1],bc[2]))
      .a("m",walk(f.begin(),f.end(),lim)).a("cm",walk(cf.begin(),cf.end(),lim)).a("in",walk(f.interior_begin(),f.interior_end(),lim)).a("ci",walk(cf.interior_begin(),cf.interior_end(),lim))
      .a("rm",rwalk(f.begin(),f.end(),lim)).a("ri",rwalk(f.interior_begin(),f.interior_end(),lim)).a("rcm",rwalk(cf.begin(),cf.end(),lim))
      .i("nm",int(f.end()-f.begin())).i("nc",int(cf.end()-cf.begin())).i("ni",int(f.interior_end()-f.interior_begin())).i("nci",int(cf.interior_end()-cf.interior_begin())).emit();
  }
};

void run_case(const std::vector<Line>& ops){
  MemoryWindow cur(IntVec(1,1,1)); ISess* is=0; std::vector<GhostData> gr(6,GhostData(0));
  for(size_t q=0;q<ops.size();++q){
    const Line& l=ops[q]; const std::string& op=l[0];
    if(op=="win"){
      cur=rdwin(l,1); MemoryWindow c2(cur), c3(IntVec(1,1,1)); c3=cur;
      Ev("Win").v3("g",iv(l,1)).v3("o",iv(l,4)).v3("x",iv(l,7)).raw("w",winjson(cur)).raw("w2",winjson(c2)).raw("w3",winjson(c3))
        .i("np",cur.glob_npts()).i("lp",cur.local_npts()).v3("gd",cur.glob_dim()).v3("od",cur.offset()).v3("xd",cur.extent()).b("sane",cur.sanity_check()).b("eq",cur==c2&&cur==c3&&!(cur!=c2)).emit();
    }
    else if(op=="index"){
      std::vector<int> fl,gi,li; IntVec x=cur.extent();
      for(int k=0;k<x[2];++k) for(int j=0;j<x[1];++j) for(int i=0;i<x[0];++i) fl.push_back(cur.flat_index(IntVec(i,j,k)));
      for(int p=0;p<int(cur.glob_npts());++p){ IntVec a=cur.ijk_index_from_global(p); for(int d=0;d<3;++d) gi.push_back(a[d]); }
      for(int p=0;p<int(cur.local_npts());++p){ IntVec a=cur.ijk_index_from_local(p); for(int d=0;d<3;++d) li.push_back(a[d]); }
      Ev("Index").raw("w",winjson(cur)).a("fl",fl).a("gi",gi).a("li",li).emit();
    }
    else if(op=="cmpwin"){ MemoryWindow o=rdwin(l,1); Ev("CmpWin").raw("a",winjson(cur)).raw("b",winjson(o)).b("eq",cur==o).b("ne",cur!=o).emit(); }
    else if(op=="refine"){
      IntVec s=iv(l,1); std::ostringstream o; o<<"["; bool first=true;
      for(int k=0;k<s[2];++k) for(int j=0;j<s[1];++j) for(int i=0;i<s[0];++i){ MemoryWindow r=cur.refine(s,IntVec(i,j,k)); o<<(first?"":",")<<winjson(r); first=false; }
      o<<"]"; Ev("Refine").raw("w",winjson(cur)).v3("s",s).raw("parts",o.str()).emit();
    }
    else if(op=="iter"){ delete is; is=new ISess(rdwin(l,2),l[1]=="c"); Ev("Iter").raw("w",winjson(is->w)).b("cst",is->cst).emit(); }
    else if(op=="conv"){ is->cit=ConstFieldIterator<F>(is->it); is->cst=true; report("conv",0,is->cit,is->cb,is->ce,false,-1); }
    else if(op=="mv"){ Line m(l.begin()+1,l.end()); if(is->cst) domove(m,is->cit,is->cb,is->ce); else domove(m,is->it,is->b,is->e); }
    else if(op=="cmp"){
      int p=toi(l[1]), r=toi(l[2]);
      if(is->cst){ ConstFieldIterator<F> a=is->cb+p, b=is->cb+r; Ev("Cmp").i("p",p).i("q",r).i("d",int(a-b)).b("eq",a==b).b("ne",a!=b).b("lt",a<b).b("gt",a>b).b("le",a<=b).b("ge",a>=b).emit(); }
      else { FieldIterator<F> a=is->b+p, b=is->b+r; Ev("Cmp").i("p",p).i("q",r).i("d",int(a-b)).b("eq",a==b).b("ne",a!=b).b("lt",a<b).b("gt",a>b).b("le",a<=b).b("ge",a>=b).emit(); }
    }
    else if(op=="walk"){ Walk w; w.name=l[1]; w.dim=iv(l,2); w.g=gd(l,5); for(int i=0;i<3;++i) w.bc[i]=toi(l[11+i]); w.v=gd(l,14); vh_dispatch(w.name,w); }
    else if(op=="traits"){ for(size_t i=1;i<l.size();++i){ Traits t; t.name=l[i]; vh_dispatch(l[i],t); } faces<SVolField>(); faces<XVolField>(); faces<YVolField>(); faces<ZVolField>(); }
    else if(op=="triplets"){ trips<T1>(); trips<T2>(); trips<T3>(); trips<T4>(); trips<T5>(); trips<T6>(); }
    else if(op=="ivec"){
      IntVec a=iv(l,1), b=iv(l,4); int s=toi(l[7]); IntVec pe(a), me(a), as(0,0,0); pe+=b; me-=b; as=a; std::vector<int> va; for(int i=0;i<3;++i) va.push_back(a[i]);
      int arr[3]={b[0],b[1],b[2]}; IntVec fromv(va), froma(arr); IntVec wr(a); wr[1]=b[1]; auto nz=[](const IntVec& v){ return v[0]&&v[1]&&v[2]; };
      Numeric3Vec<double> dc(a); dc+=Numeric3Vec<double>(b)*0.5; dc-=Numeric3Vec<double>(s*1.0,s*0.5,s*1.5);
      Ev("IVec").v3("a",a).v3("b",b).i("s",s).v3("add",a+b).v3("sub",a-b).v3("mul",a*b).v3("pe",pe).v3("me",me).v3("as",as).v3("fv",fromv).v3("fa",froma).v3("wr",wr).v3("adds",a+s).v3("muls",a*s)
        .v3("min",SpatialOps::structured::min(a,b)).i("sum",a.sum()).v3("div",nz(b)?a/b:a).v3("divs",s?a/s:a).v3("mulh",a*(s*0.5)).v3("divh",s?a/(s*0.5):a).v3("addh",a+s*0.5)
        .v3("dd",IntVec((Numeric3Vec<double>(a)*Numeric3Vec<double>(b)-Numeric3Vec<double>(b)/4.0)*4.0)).v3("de",IntVec(dc*2.0)).b("deq",Numeric3Vec<double>(a)*0.5==Numeric3Vec<double>(b)*0.5)
        .v3("fl",IntVec(Numeric3Vec<double>(a)/2.0)).b("eq",a==b).b("ne",a!=b).emit();
    }
    else if(op=="sizing"){ Sizing s; s.name=l[1]; s.dim=iv(l,2); s.g=gd(l,5); for(int i=0;i<3;++i) s.bc[i]=toi(l[11+i]); s.vecform=toi(l[14]); vh_dispatch(s.name,s); }
    else if(op=="grid"){ GridOp s; s.name=l[1]; s.dir=toi(l[2]); s.dim=iv(l,3); s.dx8=iv(l,6); s.g=gd(l,9); for(int i=0;i<3;++i) s.bc[i]=toi(l[15+i]); vh_dispatch(s.name,s); }
    // ghost algebra: registers
    else if(op[0]=='g'){
      bool thrown=false, eq=false; int r = toi(l[1]); int a=-1,b=-1;
      try{
        if(op=="gset6") gr[r]=GhostData(toi(l[2]),toi(l[5]),toi(l[3]),toi(l[6]),toi(l[4]),toi(l[7]));
        else if(op=="gsetv") gr[r]=gd(l,2);
        else if(op=="gset1") gr[r]=GhostData(toi(l[2]));
        else if(op=="gcopy"){ a=toi(l[2]); GhostData t(gr[a]); gr[r]=t; }
        else if(op=="gadd"){ a=toi(l[2]); b=toi(l[3]); gr[r]=gr[a]+gr[b]; }
        else if(op=="gsub"){ a=toi(l[2]); b=toi(l[3]); gr[r]=gr[a]-gr[b]; }
        else if(op=="gaddeq"){ a=toi(l[2]); gr[r]+=gr[a]; }
        else if(op=="gsubeq"){ a=toi(l[2]); gr[r]-=gr[a]; }
        else if(op=="gmin"){ a=toi(l[2]); b=toi(l[3]); gr[r]=SpatialOps::structured::min(gr[a],gr[b]); }
        else if(op=="gp2g") gr[r]=point_to_ghost(iv(l,2));
        else if(op=="gsetm") gr[r].set_minus(iv(l,2));
        else if(op=="gsetp") gr[r].set_plus(iv(l,2));
        else if(op=="geq"){ a=toi(l[2]); eq=(gr[r]==gr[a]); }
      } catch(std::exception&){ thrown=true; }
      std::vector<int> args; for(size_t i=1;i<l.size();++i) args.push_back(toi(l[i]));
      std::ostringstream o; o<<"["; for(size_t i=0;i<gr.size();++i) o<<(i?",":"")<<ghostjson(gr[i]); o<<"]";
      IntVec mi(gr[r].get_minus(0),gr[r].get_minus(1),gr[r].get_minus(2)), pi(gr[r].get_plus(0),gr[r].get_plus(1),gr[r].get_plus(2));
      Ev("Ghost").s("op",op).a("args",args).b("thr",thrown).b("eq",eq).v3("mi",mi).v3("pi",pi).raw("regs",o.str()).emit();
    }
    else throw std::runtime_error("unknown op "+op);
  }
  delete is;
}
