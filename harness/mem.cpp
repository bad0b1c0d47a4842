// Pool, field store, shared handles, field views and masks: one machine of slots.
#include "harness.h"
#include "ftypes.h"
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/MemoryPool.h>
#include <map>
#include <set>
#include <new>
using namespace vh;

// ---- records the size of every new[] so that the room in a pool buffer is observable
static std::map<void*,size_t>* g_sizes=0;
static pthread_mutex_t g_mx=PTHREAD_MUTEX_INITIALIZER;
static bool g_in=false;
void* operator new[](size_t n){
  if( n > (size_t(1)<<31) ) throw std::bad_alloc();
  void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc();
  pthread_mutex_lock(&g_mx);
  if(!g_in){ g_in=true; if(!g_sizes) g_sizes=new std::map<void*,size_t>(); (*g_sizes)[p]=n; g_in=false; }
  pthread_mutex_unlock(&g_mx);
  return p;
}
void operator delete[](void* p) noexcept { if(!p) return; pthread_mutex_lock(&g_mx); if(g_sizes) g_sizes->erase(p); pthread_mutex_unlock(&g_mx); std::free(p); }
void operator delete[](void* p,size_t) noexcept { operator delete[](p); }
static long size_of(const void* p){ pthread_mutex_lock(&g_mx); long r=-1; if(g_sizes){ std::map<void*,size_t>::iterator i=g_sizes->find((void*)p); if(i!=g_sizes->end()) r=long(i->second); } pthread_mutex_unlock(&g_mx); return r; }

static const char* const E0="none";
static std::string last_throw;
#define TRYX(...) do{ last_throw=E0; try{ __VA_ARGS__; } catch(std::exception& e){ last_throw="exception"; } catch(...){ last_throw="other"; } }while(0)

static MemoryType mt(const std::string& s){
  if(s=="ram") return LOCAL_RAM; if(s=="vec") return LOCAL_VECTOR_INST; if(s=="cuda") return EXTERNAL_CUDA_GPU;
  if(s=="ocl") return EXTERNAL_OPENCL_GPU; if(s=="mik") return EXTERNAL_INTEL_MIK; if(s=="dbg") return DEBUG_TEST_OPT; return UNKNOWN;
}
static std::string hilo(const void* p){ unsigned long a=(unsigned long)p; std::ostringstream o; o<<"["<<(a>>28)<<","<<(a&((1ul<<28)-1))<<"]"; return o.str(); }

// ---------------------------------------------------------------- slots
struct Slot { std::string t; char kd; Slot(const std::string& a,char b):t(a),kd(b){} virtual ~Slot(){}
  virtual std::string snap(int k)=0; virtual void* ident()=0; };
static std::map<int,Slot*> S;
static std::vector<double*> user_arrays;     // never freed by the library
static const int UCANARY=4;                  // guard cells on both sides

template<class F> struct TSlot : Slot {
  SpatFldPtr<F>* h; F* f;
  TSlot(const std::string& t,char kd):Slot(t,kd),h(0),f(0){}
  ~TSlot(){ if(h) delete h; if(f) delete f; }
  F* fld(){ return kd=='f' ? f : (h->isnull()? 0 : &**h); }
  void* ident(){ return (void*)fld(); }
  std::string snap(int k){
    std::ostringstream o; F* p=fld();
    o<<"{\"k\":"<<k<<",\"kd\":\""<<kd<<"\",\"t\":\""<<t<<"\",\"nl\":"<<(p?"false":"true");
    if(kd=='h'){ o<<",\"ct\":"<<h->count()<<",\"bfs\":"<<(h->built_from_store()?"true":"false"); }
    else o<<",\"ct\":0,\"bfs\":false";
    if(p){
      const F& c=*p;
      const double* v=0; bool thr=false;
      try{ v=c.field_values(); }catch(...){ thr=true; }
      o<<",\"id\":"<<hilo(p)<<",\"a\":"<<hilo(v)<<",\"w\":"<<winjson(c.window_with_ghost())<<",\"wi\":"<<winjson(c.window_without_ghost())<<",\"g\":"<<ghostjson(c.get_ghost_data())<<",\"vg\":"<<ghostjson(c.get_valid_ghost_data());
      IntVec hb=c.boundary_info().has_bc(), ne=c.boundary_info().num_extra();
      o<<",\"bc\":["<<hb[0]<<","<<hb[1]<<","<<hb[2]<<"],\"ne\":["<<ne[0]<<","<<ne[1]<<","<<ne[2]<<"]";
      o<<",\"mt\":"<<(c.memory_device_type()==LOCAL_RAM?0:1)<<",\"di\":"<<c.device_index();
      // writable iff a non-const iterator is given out; interior available iff interior_begin() does not throw
      bool w=true,in=true,win=true; try{ p->begin(); p->field_values(); (*p)[0]; }catch(...){ w=false; } try{ c.interior_begin(); c.interior_end(); }catch(...){ in=false; } try{ p->interior_begin(); p->interior_end(); }catch(...){ win=false; }
      o<<",\"wr\":"<<(w?"true":"false")<<",\"in\":"<<(in?"true":"false")<<",\"win\":"<<(win?"true":"false");
      o<<",\"m\":["; const size_t n=c.window_with_ghost().glob_npts(); for(size_t q=0;q<n;++q) o<<(q?",":"")<<fix(v[q]); o<<"]";
      o<<",\"it\":["; { typename F::const_iterator i=c.begin(), e=c.end(); bool first=true; size_t cnt=0; for(;i!=e && cnt<5000;++i,++cnt){ o<<(first?"":",")<<fix(*i); first=false; } } o<<"]";
    }
    o<<"}"; return o.str();
  }
};

#define MEM_TYPES(X) X(SVol) X(SSurfX) X(SSurfZ) X(XVol) X(XSurfX) X(YSurfZ) X(ZVol)
template<class V> static bool dispatch(const std::string& n,V& v){
#define D1(T) if(n==#T){ v.template run< SpatialField<T> >(); return true; }
  MEM_TYPES(D1)
#undef D1
  return false;
}
static int TC(const Line& l,size_t k){ return toi(l.at(k)); }
static void put(int k,Slot* s){ if(S.count(k)) delete S[k]; S[k]=s; }
static long np3(const IntVec& d){ return long(d[0])*d[1]*d[2]; }
static double* user_array(long n,int v){ double* a=(double*)std::malloc(sizeof(double)*(n+2*UCANARY)); for(long i=0;i<n+2*UCANARY;++i) a[i]=-77; for(long i=0;i<n;++i) a[UCANARY+i]=v+i; user_arrays.push_back(a); return a+UCANARY; }

template<class F> struct Dims{ MemoryWindow w; BoundaryCellInfo bc; GhostData g;
  Dims(const Line& l,size_t k): w(get_window_with_ghost(iv(l,k),gd(l,k+3),BoundaryCellInfo::build<F>(iv(l,k+9)))), bc(BoundaryCellInfo::build<F>(iv(l,k+9))), g(gd(l,k+3)){} };

template<class F> static void stamp(F& f,int v){ double* p=f.field_values(); const size_t n=f.window_with_ghost().glob_npts(); for(size_t i=0;i<n;++i) p[i]=v+int(i); }

static long note_cap=-1;
// get<FieldT>(proto): two-level dispatch
template<class P> struct GetFrom{ const Line& l; P& p; int k; int v; GetFrom(const Line& a,P& b,int c,int d):l(a),p(b),k(c),v(d){}
  template<class F> void run(){ TSlot<F>* s=new TSlot<F>(l[2],'h'); TRYX( s->h=new SpatFldPtr<F>( SpatialFieldStore::get<F>(p) ) ); if(!s->h){ delete s; return; } put(k,s); stamp(**s->h,v); } };

struct Op1 { const Line& l; bool done; std::string extra; explicit Op1(const Line& a):l(a),done(true){}
  template<class F> void run(){
    typedef SpatFldPtr<F> H;
    const std::string& op=l[0]; const int k=TC(l,1);
    // l[2] is the type name throughout
    if(op=="hEmpty"){ TSlot<F>* s=new TSlot<F>(l[2],'h'); s->h=new H(); put(k,s); last_throw=E0; }
    else if(op=="hNull"){ TSlot<F>* s=new TSlot<F>(l[2],'h'); s->h=new H((F*)NULL); put(k,s); last_throw=E0; }
    else if(op=="hStore"){ Dims<F> d(l,3); TSlot<F>* s=new TSlot<F>(l[2],'h'); TRYX( s->h=new H(SpatialFieldStore::get_from_window<F>(d.w,d.bc,d.g)) ); if(s->h){ put(k,s); stamp(**s->h,TC(l,15)); } else delete s; }
    else if(op=="hStoreBad"){ Dims<F> d(l,3); TRYX( H h(SpatialFieldStore::get_from_window<F>(d.w,d.bc,d.g,mt(l[15]),TC(l,16))) ); }
    else if(op=="hUser"){ Dims<F> d(l,3); double* a=user_array(d.w.glob_npts(),TC(l,15)); TSlot<F>* s=new TSlot<F>(l[2],'h'); s->h=new H(new F(d.w,d.bc,d.g,a,ExternalStorage)); put(k,s); last_throw=E0; }
    else if(op=="hAsgRaw"){ Dims<F> d(l,3); double* a=user_array(d.w.glob_npts(),TC(l,15)); TSlot<F>* s=(TSlot<F>*)S.at(k); TRYX( *s->h=new F(d.w,d.bc,d.g,a,ExternalStorage) ); }
    else if(op=="hAsgNull"){ TSlot<F>* s=(TSlot<F>*)S.at(k); TRYX( *s->h=(F*)NULL ); }
    else if(op=="hCopy"){ TSlot<F>* j=(TSlot<F>*)S.at(TC(l,3)); TSlot<F>* s=new TSlot<F>(l[2],'h'); TRYX( s->h=new H(*j->h) ); put(k,s); }
    else if(op=="hAsg"){ TSlot<F>* j=(TSlot<F>*)S.at(TC(l,3)); TSlot<F>* s=(TSlot<F>*)S.at(k); TRYX( *s->h=*j->h ); }
    else if(op=="hDetach"){ TSlot<F>* s=(TSlot<F>*)S.at(k); TRYX( s->h->detach() ); }
    else if(op=="hGet"||op=="del"){}
    else if(op=="fInt"||op=="fInt0"){ Dims<F> d(l,3); TSlot<F>* s=new TSlot<F>(l[2],'f');
      std::vector<double> src(d.w.glob_npts()); for(size_t i=0;i<src.size();++i) src[i]=TC(l,15)+int(i);
      TRYX( s->f=new F(d.w,d.bc,d.g,op=="fInt"?&src[0]:(double*)NULL,InternalStorage) ); put(k,s); }
    else if(op=="fExt"){ Dims<F> d(l,3); double* a=user_array(d.w.glob_npts(),TC(l,15)); TSlot<F>* s=new TSlot<F>(l[2],'f'); TRYX( s->f=new F(d.w,d.bc,d.g,a,ExternalStorage) ); put(k,s); }
    else if(op=="fBad"){ Dims<F> d(l,3); double* a=user_array(d.w.glob_npts(),TC(l,15)); F* x=0; TRYX( x=new F(d.w,d.bc,d.g,a,l[18]=="int"?InternalStorage:ExternalStorage,mt(l[16]),TC(l,17)) ); if(x) delete x; }
    else{
      TSlot<F>* s=(TSlot<F>*)S.at(op=="fCopy"||op=="fWin"||op=="fReshape"? TC(l,3):k); F* p=s->fld(); const F& c=*p;
      if(op=="fCopy"){ TSlot<F>* n=new TSlot<F>(l[2],'f'); TRYX( n->f=new F(c) ); put(k,n); }
      else if(op=="fWin"){ TSlot<F>* n=new TSlot<F>(l[2],'f'); IntVec o=iv(l,4),x=iv(l,7); TRYX( n->f=new F(MemoryWindow(c.window_with_ghost().glob_dim(),o,x),c) ); put(k,n); }
      else if(op=="fReshape"){ TSlot<F>* n=new TSlot<F>(l[2],'f'); IntVec o=iv(l,4),x=iv(l,7); TRYX( n->f=new F(c.reshape(o,x)) ); put(k,n); }
      else if(op=="fValid"){ TRYX( p->reset_valid_ghosts(gd(l,3)) ); }
      else if(op=="fAsg"){ TSlot<F>* j=(TSlot<F>*)S.at(TC(l,3)); TRYX( *p = *j->fld() ); }
      else if(op=="wrf"){ TRYX( (*p)[TC(l,3)] = TC(l,4) ); }
      else if(op=="wri"){ TRYX( *(p->begin()+TC(l,3)) = TC(l,4) ); }
      else if(op=="wrn"){ TRYX( *(p->interior_begin()+TC(l,3)) = TC(l,4) ); }
      else if(op=="fill"){ TRYX( typename F::iterator i=p->begin(); typename F::iterator e=p->end(); int q=0; for(;i!=e;++i,++q) *i=TC(l,3)+q ); }
      else if(op=="addc"){ TRYX( p->add_consumer(mt(l[3]),TC(l,4)) ); }
      else if(op=="findc"){ bool r=false; TRYX( r=c.find_consumer(mt(l[3]),TC(l,4)) ); extra = r?"true":"false"; }
      else if(op=="hasc"){ bool r=false; TRYX( r=p->has_consumers() ); extra = r?"true":"false"; }
      else if(op=="remc"){ TRYX( p->remove_consumers() ); }
      else if(op=="fv"){ const double* r=0; TRYX( r=p->field_values(mt(l[3]),TC(l,4)) ); extra = hilo(r); }
      else if(op=="cfv"){ const double* r=0; TRYX( r=c.field_values(mt(l[3]),TC(l,4)) ); extra = hilo(r); }
      else done=false;
    }
  } };
struct ProtoGet{ const Line& l; bool done; ProtoGet(const Line& a):l(a){}
  // hGet k T j TP v
  template<class P> void run(){ TSlot<P>* j=(TSlot<P>*)S.at(TC(l,3)); GetFrom<P> g(l,*j->fld(),TC(l,1),TC(l,5)); dispatch(l[2],g); } };

static std::string q(const std::string& s){ return "\""+s+"\""; }
static void slot_event(const Line& l,const std::string& extra){
  std::ostringstream a; a<<"["; for(size_t i=0;i<l.size();++i){ char*e; std::strtol(l[i].c_str(),&e,10); a<<(i?",":"")<<((*e==0)?l[i]:q(l[i])); } a<<"]";
  std::ostringstream s; s<<"["; bool first=true;
  for(std::map<int,Slot*>::iterator i=S.begin();i!=S.end();++i){ s<<(first?"":",")<<i->second->snap(i->first); first=false; }
  s<<"]";
  Pool<double>& P=Pool<double>::self();
  Ev("Op").s("op",l[0]).raw("args",a.str()).s("thr",last_throw).raw("x",extra.empty()?"0":extra).i("act",(long)P.active()).i("tot",(long)P.total()).raw("sl",s.str()).emit();
}

// ---------------------------------------------------------------- plain pool
template<class T> struct PoolDrv {
  struct B{ T* p; long n; int stamp; };
  std::map<int,B> live; int stamps; PoolDrv():stamps(1000){}
  void get(int k,long n){
    B b; b.n=n; b.p=0; b.stamp=++stamps; 
    TRYX( b.p=Pool<T>::self().get(LOCAL_RAM,size_t(n)) );
    if(b.p){ for(long i=0;i<n;++i) b.p[i]=T(b.stamp+ (i%7)); live[k]=b; }
    ev("Get",k,n,b.p);
  }
  void putb(int k){ B b=live.at(k); TRYX( Pool<T>::self().put(LOCAL_RAM,b.p) ); live.erase(k); ev("Put",k,b.n,b.p); }
  void bad(const std::string& what,const std::string& m,int k){
    if(what=="get"){ T* p=0; TRYX( p=Pool<T>::self().get(mt(m),10) ); }
    else { T* p=live.count(k)?live[k].p:(T*)0; TRYX( Pool<T>::self().put(mt(m),p) ); }
    ev("Bad",k,0,0);
  }
  void ev(const char* e,int k,long n,T* p){
    // which live buffers no longer hold exactly what was written to them
    std::ostringstream o; o<<"["; bool first=true;
    for(typename std::map<int,B>::iterator i=live.begin();i!=live.end();++i){ bool ok=true; for(long q=0;q<i->second.n;++q) if(i->second.p[q]!=T(i->second.stamp+(q%7))){ ok=false; break; } if(!ok){ o<<(first?"":",")<<i->first; first=false; } }
    o<<"]";
    long sz=p?size_of(p):-1;
    Ev(e).i("k",k).i("n",n).s("thr",last_throw).raw("a",hilo(p)).raw("z",hilo((char*)p+(sz>0?sz:0))).i("cap",sz<0?-1:(long)(sz/sizeof(T))).raw("dmg",o.str()).i("act",(long)Pool<T>::self().active()).i("tot",(long)Pool<T>::self().total()).emit();
  }
};
template<class T> static void run_pool(const std::vector<Line>& ops){
  PoolDrv<T> d;
  for(size_t i=1;i<ops.size();++i){ const Line& l=ops[i];
    if(l[0]=="get") d.get(TC(l,1),std::atol(l[2].c_str()));
    else if(l[0]=="put") d.putb(TC(l,1));
    else if(l[0]=="bad") d.bad(l[1],l[2],TC(l,3)); }
}

// ---------------------------------------------------------------- masks
// mask prototypes are SVol / SSurfX / XVol fields
struct MaskBase{ virtual ~MaskBase(){} virtual std::string snap(int)=0; };
template<class F> struct TMask:MaskBase{ SpatialMask<F>* m; GhostData qg; TMask():m(0),qg(0){} ~TMask(){ delete m; }
  std::string snap(int k){
    const SpatialMask<F>& c=*m; std::ostringstream o;
    const MemoryWindow& w=c.window_with_ghost(); const MemoryWindow& n=c.window_without_ghost();
    o<<"{\"k\":"<<k<<",\"w\":"<<winjson(w)<<",\"wi\":"<<winjson(n)<<",\"g\":"<<ghostjson(c.get_ghost_data())<<",\"vg\":"<<ghostjson(c.get_valid_ghost_data());
    IntVec hb=c.boundary_info().has_bc();
    o<<",\"bc\":["<<hb[0]<<","<<hb[1]<<","<<hb[2]<<"]";
    const GhostData vg=qg;  // the points the mask was built over
    // queries over all cells, addressed from the first interior cell, in memory order
    o<<",\"q\":["; bool first=true; IntVec mn=vg.get_minus(), pl=vg.get_plus();
    for(int z=-mn[2];z<int(n.extent(2))+pl[2];++z) for(int y=-mn[1];y<int(n.extent(1))+pl[1];++y) for(int x=-mn[0];x<int(n.extent(0))+pl[0];++x){ o<<(first?"":",")<<(c(IntVec(x,y,z))?1:0); first=false; }
    o<<"]";
    typename SpatialMask<F>::const_iterator b=c.begin(), e=c.end();
    o<<",\"it\":["; int cnt=0; for(typename SpatialMask<F>::const_iterator i=b;i!=e&&cnt<9000;++i,++cnt) o<<(cnt?",":"")<<(*i?1:0); o<<"]";
    const int N=int(e-b); o<<",\"n\":"<<N;
    o<<",\"rev\":["; { typename SpatialMask<F>::const_iterator i=e; for(int q=0;q<N;++q){ --i; o<<(q?",":"")<<(*i?1:0); } } o<<"]";
    o<<",\"rnd\":["; for(int q=0;q<N;++q){ int a=(q*7)%(N), b2=(q*5+3)%N; typename SpatialMask<F>::const_iterator i=b+a; i+=(b2-a); o<<(q?",":"")<<(*i?1:0); } o<<"]";
    o<<",\"idx\":["; for(int q=0;q<N;++q){ typename SpatialMask<F>::const_iterator i=b+(q/2); o<<(q?",":"")<<(i[q-q/2]?1:0); } o<<"]";
    o<<",\"in\":["; cnt=0; for(typename SpatialMask<F>::const_iterator i=c.interior_begin();i!=c.interior_end()&&cnt<9000;++i,++cnt) o<<(cnt?",":"")<<(*i?1:0); o<<"]}";
    return o.str();
  } };
static std::map<int,MaskBase*> M;
struct MaskOp{ const Line& l; MaskOp(const Line& a):l(a){}
  // mk k T dim gm gp bc n p... | cp k T j | win k T j o x | del k
  template<class F> void run(){
    int k=TC(l,1);
    if(l[0]=="mk"){ Dims<F> d(l,3); std::vector<IntVec> pts; int n=TC(l,15); for(int i=0;i<n;++i) pts.push_back(iv(l,16+3*i));
      F proto(d.w,d.bc,d.g,(double*)NULL,InternalStorage); TMask<F>* m=new TMask<F>();
      if(l.size()>size_t(16+3*n)) proto.reset_valid_ghosts(gd(l,16+3*n));
      m->m=new SpatialMask<F>(proto,pts); m->qg=proto.get_valid_ghost_data(); M[k]=m; }
    else if(l[0]=="cp"){ TMask<F>* j=(TMask<F>*)M.at(TC(l,3)); TMask<F>* m=new TMask<F>(); m->m=new SpatialMask<F>(*j->m); m->qg=j->qg; M[k]=m; }
    else if(l[0]=="win"){ TMask<F>* j=(TMask<F>*)M.at(TC(l,3)); TMask<F>* m=new TMask<F>(); m->m=new SpatialMask<F>(MemoryWindow(j->m->window_with_ghost().glob_dim(),iv(l,4),iv(l,7)),*j->m); m->qg=j->qg; M[k]=m; }
    else if(l[0]=="rsh"){ TMask<F>* j=(TMask<F>*)M.at(TC(l,3)); TMask<F>* m=new TMask<F>(); m->m=new SpatialMask<F>(j->m->reshape(iv(l,4),iv(l,7))); m->qg=j->qg; M[k]=m; }
  } };

void run_case(const std::vector<Line>& ops){
  if(ops.empty()) return;
  const Line& h=ops[0];
  if(h[0]=="pool"){ if(h[1]=="double") run_pool<double>(ops); else if(h[1]=="float") run_pool<float>(ops); else run_pool<unsigned int>(ops); return; }
  if(h[0]=="masks"){
    for(size_t i=1;i<ops.size();++i){ const Line& l=ops[i];
      if(l[0]=="del"){ int k=TC(l,1); delete M[k]; M.erase(k); }
      else { MaskOp o(l); dispatch(l[2],o); }
      std::ostringstream a; a<<"["; for(size_t q2=0;q2<l.size();++q2){ char*e; std::strtol(l[q2].c_str(),&e,10); a<<(q2?",":"")<<((*e==0)?l[q2]:q(l[q2])); } a<<"]";
      std::ostringstream s; s<<"["; bool first=true; for(std::map<int,MaskBase*>::iterator m=M.begin();m!=M.end();++m){ s<<(first?"":",")<<m->second->snap(m->first); first=false; } s<<"]";
      Ev("Mask").s("op",l[0]).raw("args",a.str()).raw("ms",s.str()).i("act",(long)Pool<unsigned int>::self().active()).emit();
    }
    return;
  }
  // the slot machine
  for(size_t i=1;i<ops.size();++i){ const Line& l=ops[i]; std::string extra;
    if(l[0]=="del"){ int k=TC(l,1); last_throw=E0; TRYX( delete S[k] ); S.erase(k); }
    else if(l[0]=="hGet"){ ProtoGet g(l); last_throw=E0; dispatch(l[4],g); }
    else { Op1 o(l); last_throw=E0; if(!dispatch(l[2],o)||!o.done){ Ev("BadOp").s("op",l[0]).emit(); return; } extra=o.extra; }
    slot_event(l,extra);
  }
  // the caller's own arrays: only the guard cells are looked at here
  bool ok=true; for(size_t i=0;i<user_arrays.size();++i) for(int q2=0;q2<UCANARY;++q2) if(user_arrays[i][q2]!=-77) ok=false;
  Ev("Guards").b("ok",ok).emit();
}
