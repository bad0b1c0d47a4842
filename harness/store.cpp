// Several threads acquire, use and release pool memory (pool buffers, fields from the store, internally stored
// fields, masks) under a controlled scheduler.
#include "explore.h"
#include "ftypes.h"
#include <spatialops/structured/SpatialFieldStore.h>
#include <spatialops/structured/SpatialMask.h>
#include <spatialops/structured/MemoryPool.h>
#include <boost/thread/thread.hpp>
#include <memory>
#include <map>
#include <new>
using namespace vh;
static std::map<const void*,size_t>* g_sizes=0; static bool g_rec=false;
// room of every array allocated while a program runs (only one thread runs at a time)
void* operator new[](size_t n){ void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); if(g_rec){ vs::Quiet q; (*g_sizes)[p]=n; } return p; }
void operator delete[](void* p) noexcept { if(p&&g_rec){ vs::Quiet q; g_sizes->erase(p); } std::free(p); }
void operator delete[](void* p,size_t) noexcept { operator delete[](p); }
static std::map<const void*,int>* g_ids;
struct Held { char pool; long n; virtual ~Held(){} virtual const void* mem()=0; virtual bool good()=0; virtual void mark(int)=0; Held():pool('d'),n(0){} };
static const BoundaryCellInfo B0=BoundaryCellInfo::build<SVolField>(false,false,false);
struct Vals : Held { int m; Vals():m(0){} virtual double* p()=0; const void* mem(){ return p(); } bool good(){ double* a=p(); for(long i=0;i<n;++i) if(a[i]!=m*1000+i) return false; return true; } void mark(int k){ m=k; double* a=p(); for(long i=0;i<n;++i) a[i]=m*1000+i; } };
struct Raw : Vals { double* a; Raw(int k){ n=k; a=Pool<double>::self().get(LOCAL_RAM,n); } ~Raw(){ Pool<double>::self().put(LOCAL_RAM,a); } double* p(){ return a; } };
template<class F> struct Store : Vals { SpatFldPtr<F> h; Store(IntVec d){ n=long(d[0])*d[1]*d[2]; h=SpatialFieldStore::get_from_window<F>(MemoryWindow(d),B0,GhostData(0)); } double* p(){ return h->field_values(); } };
struct Proto : Vals { std::unique_ptr<double[]> u; std::unique_ptr<SVolField> f; SpatFldPtr<SSurfXField> h; Proto(IntVec d):u(0){ n=long(d[0])*d[1]*d[2]; u.reset(new double[n]); f.reset(new SVolField(MemoryWindow(d),B0,GhostData(0),u.get(),ExternalStorage)); SpatFldPtr<SSurfXField> a=SpatialFieldStore::get<SSurfXField>(*f); h=a; }
  ~Proto(){ h.detach(); f.reset(); u.reset(); } double* p(){ return h->field_values(); } };
struct Intern : Vals { SVolField f; Intern(IntVec d):f(MemoryWindow(d),B0,GhostData(0),NULL,InternalStorage){ n=long(d[0])*d[1]*d[2]; } double* p(){ return f.field_values(); } };
struct Mask : Held { std::unique_ptr<SVolField> f; std::unique_ptr<SpatialMask<SVolField> > k; std::vector<IntVec> pts; IntVec d; static double big[8*8*16];
  Mask(IntVec e,int s):d(e){ pool='m'; n=(long(d[0])*d[1]*d[2]+31)/32; f.reset(new SVolField(MemoryWindow(d),B0,GhostData(0),big,ExternalStorage)); for(int i=0;i<3;++i) pts.push_back(IntVec((s*7+i*3)%d[0],(s*5+i)%d[1],(s+i*2)%d[2])); k.reset(new SpatialMask<SVolField>(*f,pts)); }
  const void* mem(){ return k->mask_values(); }
  bool good(){ for(int z=0;z<d[2];++z) for(int y=0;y<d[1];++y) for(int x=0;x<d[0];++x){ IntVec q(x,y,z); bool in=false; for(auto& p:pts) in|=(p==q); if((*k)(q)!=in) return false; } return true; } void mark(int){} };
double Mask::big[8*8*16];
static std::map<int,Held*> slots;
static void client_op(int t,const Line& l,size_t i){
  const std::string& o=l[i]; const int s=l.size()>i+1?toi(l[i+1]):0; Held* h; char pool='d'; long n=0; IntVec d(1,1,1);
  { vs::Quiet q; h=slots.count(s)?slots[s]:0; 
    if(o=="raw"){ n=toi(l[i+2]); } else if(o=="st"||o=="sx"||o=="pr"||o=="int"||o=="mask"){ d=iv(l,i+2); n=long(d[0])*d[1]*d[2]; if(o=="mask"){ pool='m'; n=(n+31)/32; } } else if(o=="act"||o=="tot") pool=l[i+2][0]; else if(h){ pool=h->pool; n=h->n; }
    Ev("call").i("t",t).s("op",(o=="put"||o=="use"||o=="act"||o=="tot")?o:"get").i("s",s).s("p",std::string(1,pool)).i("n",n).emit(); }
  long v=0, cap=0; bool dmg=false, thr=false; const void* a=0;
  try{
    if(o=="put"){ { vs::Quiet q; slots.erase(s); } dmg=!h->good(); delete h; }
    else if(o=="use"){ dmg=!h->good(); h->mark(s+1); dmg=dmg||!h->good(); }
    else if(o=="act") v= pool=='d'? Pool<double>::self().active():Pool<unsigned int>::self().active();
    else if(o=="tot") v= pool=='d'? Pool<double>::self().total():Pool<unsigned int>::self().total();
    else { if(o=="raw") h=new Raw(int(n)); else if(o=="st") h=new Store<SVolField>(d); else if(o=="sx") h=new Store<SSurfXField>(d); else if(o=="pr") h=new Proto(d); else if(o=="int") h=new Intern(d); else h=new Mask(d,s);
      a=h->mem(); h->mark(s); { vs::Quiet q; slots[s]=h; } }
  }catch(std::exception&){ thr=true; }
  { vs::Quiet q; int b=0; if(a){ std::map<const void*,size_t>::iterator z=g_sizes->find(a); cap= z==g_sizes->end()?-1:long(z->second/(pool=='d'?sizeof(double):sizeof(unsigned))); int& id=(*g_ids)[a]; if(!id) id=int(g_ids->size()); b=id; }
    Ev("ret").i("t",t).i("b",b).i("cap",cap).i("v",v).b("dmg",dmg).b("thr",thr).emit(); }
}
struct Client { int id; std::vector<Line> ops; void operator()() const { vs::name(id); for(auto& l:ops) client_op(id,l,2); vs::name(-1); } };
static void body(const std::vector<Line>& ops){
  g_sizes=new std::map<const void*,size_t>; g_ids=new std::map<const void*,int>; g_rec=true;
  std::map<int,std::vector<Line> > cl; std::vector<std::unique_ptr<boost::thread> > th;
  for(auto& l:ops) if(l[0]=="cl") cl[toi(l[1])].push_back(l);
  for(auto& l:ops){
    if(l[0]=="start"){ vs::Quiet q; for(size_t i=1;i<l.size();++i) th.push_back(std::unique_ptr<boost::thread>(new boost::thread(Client{toi(l[i]),cl[toi(l[i])]}))); }
    else if(l[0]=="quiet"){ vs::quiesce(); vs::Quiet q; Ev("quiet").a("b",vs::blocked()).i("ad",Pool<double>::self().active()).i("td",Pool<double>::self().total()).i("am",Pool<unsigned int>::self().active()).i("tm",Pool<unsigned int>::self().total()).emit(); if(!vs::blocked().empty()) break; }
    else if(l[0]=="main") client_op(0,l,1);
  }
  for(auto& t:th) t.release();
}
void run_case(const std::vector<Line>& ops){ ex::explore(ops,body); }
