// Thread pool: client threads operate on a pool under a controlled scheduler.
#include "explore.h"
#include <spatialops/ThreadPool.h>
#include <spatialops/SpatialOpsTools.h>
#include <boost/thread/thread.hpp>
#include <memory>
#include <map>
using namespace vh;
namespace tp=boost::threadpool;
struct Gate { boost::mutex m; boost::condition_variable c; bool open; Gate():open(false){} void pass(){ boost::unique_lock<boost::mutex> l(m); while(!open) c.wait(l); } void go(){ boost::unique_lock<boost::mutex> l(m); open=true; c.notify_all(); } };
static std::map<int,Gate>* gates; static std::map<int,std::vector<Line> >* tasks;
struct IPool { virtual ~IPool(){} virtual bool sched(int k,int p)=0; virtual bool resize(int)=0; virtual bool limit(int)=0; virtual void wait(int)=0; virtual bool twait(int,int)=0; virtual void clear()=0; virtual int q(const std::string&)=0; };
static IPool* pool=0;
static int do_op(const Line& l,size_t i);
static void step(int t,const Line& l,size_t i){
  { vs::Quiet q; Ev("call").i("t",t).s("op",l[i]).i("k",l.size()>i+1?toi(l[i+1]):0).i("a",l.size()>i+2?toi(l[i+2]):0).emit(); }
  int r=do_op(l,i);
  { vs::Quiet q; Ev("ret").i("t",t).s("op",l[i]).i("r",r).i("w",vs::alive_unlabelled()).emit(); }
}
struct Body { int k; void operator()() const { { vs::Quiet q; Ev("run").i("k",k).i("w",vs::self()).emit(); }
  std::map<int,std::vector<Line> >::iterator f=tasks->find(k);
  if(f!=tasks->end()) for(auto& l:f->second){ if(l[0]=="gate"){ { vs::Quiet q; Ev("at").i("k",k).i("g",toi(l[1])).emit(); } (*gates)[toi(l[1])].pass(); } else if(l[0]=="die"){ { vs::Quiet q; Ev("die").i("k",k).emit(); } throw boost::thread_interrupted(); } else step(100+k,l,0); }
  { vs::Quiet q; Ev("fin").i("k",k).emit(); } } };
template<class P> struct Push; 
template<> struct Push<tp::fifo_pool>{ static bool go(tp::fifo_pool& p,int k,int){ return p.schedule(Body{k}); } };
template<> struct Push<tp::lifo_pool>{ static bool go(tp::lifo_pool& p,int k,int){ return p.schedule(Body{k}); } };
// priorities in scripts and traces are ranks
static const unsigned prios[]={0,1,255,256,65535,65536,65537,2147483647u,2147483648u,4294967295u};
template<> struct Push<tp::prio_pool>{ static bool go(tp::prio_pool& p,int k,int a){ return tp::schedule(p,tp::prio_task_func(prios[a],Body{k})); } };
template<class P> struct Pool : IPool { P p; explicit Pool(int n):p(n){}
  bool sched(int k,int a){ return Push<P>::go(p,k,a); } bool resize(int n){ return p.size_controller().resize(n); } bool limit(int n){ return p.size_controller().resize_active(n); }
  void wait(int n){ if(n==0) p.wait(); else p.wait(n); }
  bool twait(int n,int ms){ boost::xtime t; boost::xtime_get(&t,boost::TIME_UTC_); t.sec+=ms; return n==0? p.wait(t):p.wait(t,n); }
  void clear(){ p.clear(); } int q(const std::string& s){ const P& c=p; return s=="active"?int(c.active()):s=="pending"?int(c.pending()):s=="empty"?int(c.empty()):s=="size"?int(c.size()):int(c.max_active()); } };
// the process-wide pools, through their own interface or that of SpatialOpsTools
template<class G,class B> struct Glob : IPool {
  static B& b(){ return G::self(); }
  bool sched(int k,int a){ return Push<B>::go(b(),k,a); } bool resize(int){ std::abort(); } bool limit(int){ std::abort(); }
  void wait(int n){ if(n==0) b().wait(); else b().wait(n); } bool twait(int,int){ std::abort(); } void clear(){ b().clear(); }
  int q(const std::string& s){ const B& c=b(); return s=="active"?int(c.active()):s=="pending"?int(c.pending()):s=="empty"?int(c.empty()):(std::abort(),0); } };
static int gkind=0; // 1: ThreadPool, 2: ThreadPoolFIFO, 3: SpatialOpsTools
static int glob_op(const std::string& o,int a){
  using namespace SpatialOps;
  if(o=="cap") return gkind==1?ThreadPool::set_pool_capacity(a):gkind==2?ThreadPoolFIFO::set_pool_capacity(a):set_hard_thread_count(a);
  if(o=="act") return gkind==1?ThreadPool::resize_pool(a):gkind==2?ThreadPoolFIFO::resize_pool(a):set_soft_thread_count(a);
  if(o=="getcap") return gkind==1?ThreadPool::get_pool_capacity():gkind==2?ThreadPoolFIFO::get_pool_capacity():get_hard_thread_count();
  return gkind==1?ThreadPool::get_pool_size():gkind==2?ThreadPoolFIFO::get_pool_size():get_soft_thread_count(); }
static int do_op(const Line& l,size_t i){ const std::string& o=l[i]; int a=l.size()>i+1?toi(l[i+1]):0, b=l.size()>i+2?toi(l[i+2]):0;
  if(o=="cap"||o=="act"||o=="getcap"||o=="getact") return glob_op(o,a);
  if(o=="sched") return pool->sched(a,b); if(o=="resize") return pool->resize(a); if(o=="limit") return pool->limit(a); if(o=="wait"){ pool->wait(a); return 1; } if(o=="twait") return pool->twait(a,b);
  if(o=="clear"){ pool->clear(); return 1; } if(o=="open"){ (*gates)[a].go(); return 1; } if(o=="destroy"){ delete pool; pool=0; return 1; } return pool->q(o); }
struct Client { int id; std::vector<Line> ops; void operator()() const { vs::name(id); for(auto& l:ops) step(id,l,2); vs::name(-1); } };
static void body(const std::vector<Line>& ops){
  std::map<int,std::vector<Line> > cl; std::vector<std::unique_ptr<boost::thread> > th; gates=new std::map<int,Gate>; tasks=new std::map<int,std::vector<Line> >;
  for(auto& l:ops) if(l[0]=="task") (*tasks)[toi(l[1])].push_back(Line(l.begin()+2,l.end())); else if(l[0]=="cl") cl[toi(l[1])].push_back(l);
  for(auto& l:ops) for(size_t i=0;i+1<l.size();++i) if(l[i]=="gate"||l[i]=="open") (*gates)[toi(l[i+1])];
  for(auto& l:ops){
    if(l[0]=="pool"){ int n=toi(l[2]); if(l[1][0]=='g'){ gkind=l[1]=="gprio"?1:l[1]=="gfifo"?2:3; n=NTHREADS; { vs::Quiet q; Ev("Pool").s("kind",gkind==1?"prio":"fifo").i("n",n).emit(); } if(gkind==1) pool=new Glob<SpatialOps::ThreadPool,tp::prio_pool>; else pool=new Glob<SpatialOps::ThreadPoolFIFO,tp::fifo_pool>; continue; } { vs::Quiet q; Ev("Pool").s("kind",l[1]).i("n",n).emit(); } if(l[1]=="fifo") pool=new Pool<tp::fifo_pool>(n); else if(l[1]=="lifo") pool=new Pool<tp::lifo_pool>(n); else pool=new Pool<tp::prio_pool>(n); }
    else if(l[0]=="start"){ vs::Quiet q; for(size_t i=1;i<l.size();++i) th.push_back(std::unique_ptr<boost::thread>(new boost::thread(Client{toi(l[i]),cl[toi(l[i])]}))); }
    else if(l[0]=="quiet"){ vs::quiesce(); vs::Quiet q; Ev("quiet").a("b",vs::blocked()).i("w",vs::alive_unlabelled()).emit(); }
    else if(l[0]=="main"){ if(l[1]=="destroy" && !vs::blocked().empty()) break; vs::name(0); step(0,l,1); vs::name(-1); }
  }
  for(auto& t:th) t.release();
}
void run_case(const std::vector<Line>& ops){ ex::explore(ops,body); }
