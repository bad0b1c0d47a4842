// Driver for generated Nebo programs.  Case script: n, bc, mode, field/sv/mask/constant lines, then any sequence of
// "threads hard soft", "prog k" and "par k k ..." (each program in a thread of its own) actions.
#include "nebo_rt.h"
#ifdef VH_SCHED
#include "explore.h"
#endif
#ifdef ENABLE_THREADS
#include <boost/thread/thread.hpp>
#endif
using namespace vh;
extern void vh_opdb(Ctx&) __attribute__((weak));
static void one(const Ctx& c0,int prog){ Ctx c(c0); vh_hold(1); Reg::m().at(prog)(c); vh_hold(-1); }
static void body(const std::vector<Line>& ops){
  Ctx c; std::vector<Line> act;
  for(auto& l: ops){
    const std::string& o=l[0];
    if(o=="n") c.n=iv(l,1);
    else if(o=="bc"){ for(int d=0;d<3;++d) c.bc[d]=toi(l.at(1+d))!=0; }
    else if(o=="mode") c.tab=(l.at(1)=="tab");
    else if(o=="pal"){ for(size_t i=1;i<l.size();++i) c.pal.push_back(tod(l[i])); }
    else if(o=="sp8") c.sp8=iv(l,1);
    else if(o=="mul") c.mul=toi(l.at(1));
    else if(o=="parts") c.parts=toi(l.at(1));
    else if(o=="f"||o=="v"){ Ctx::F q; q.gm=iv(l,1); q.gp=iv(l,4); q.vm=iv(l,7); q.vp=iv(l,10); q.lo=iv(l,13); q.hi=iv(l,16); q.seed=toi(l.at(19)); q.range=toi(l.at(20)); if(l.size()>23){ q.own=true; q.bc=iv(l,21); } (o=="f"?c.f:c.v).push_back(q); }
    else if(o=="m"){ Ctx::M q; q.gm=iv(l,1); q.gp=iv(l,4); for(size_t i=7;i+2<l.size();i+=3) q.pts.push_back(iv(l,i)); c.m.push_back(q); }
    else if(o=="k"){ for(size_t i=1;i<l.size();++i) c.k.push_back(tod(l[i])); }
    else if(o=="kb"){ for(size_t i=1;i<l.size();++i) c.kb.push_back(toi(l[i])!=0); }
    else if(o=="opdb"){ vh_opdb(c); return; }
    else if(o=="prog"||o=="par"||o=="threads") act.push_back(l);
  }
  for(auto& l: act){
    if(l[0]=="prog") one(c,toi(l.at(1)));
#ifdef ENABLE_THREADS
    else if(l[0]=="threads"){ set_hard_thread_count(toi(l.at(1))); set_soft_thread_count(toi(l.at(2))); }
    else { std::vector<std::unique_ptr<boost::thread> > t; for(size_t i=1;i<l.size();++i){ int k=toi(l[i]); t.push_back(std::unique_ptr<boost::thread>(new boost::thread([&c,k](){ one(c,k); }))); } for(auto& x: t) x->join(); }
#endif
  }
}
#ifdef VH_SCHED
void run_case(const std::vector<Line>& ops){ ex::explore(ops,body); }
#else
void run_case(const std::vector<Line>& ops){ body(ops); }
#endif
