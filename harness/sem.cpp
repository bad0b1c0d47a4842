// Counting semaphore: threads perform waits and posts under a controlled scheduler.
#include "explore.h"
#include <spatialops/Semaphore.h>
#include <boost/thread/thread.hpp>
#include <memory>
using namespace vh;
static SpatialOps::Semaphore* sem;
struct Client { int id; std::string ops; void operator()() const { vs::name(id); for(char c:ops){ { vs::Quiet q; Ev("call").i("t",id).s("op",std::string(1,c)).emit(); } if(c=='w') sem->wait(); else sem->post(); { vs::Quiet q; Ev("ret").i("t",id).emit(); } } vs::name(-1); } };
static void body(const std::vector<Line>& ops){
  std::vector<std::unique_ptr<boost::thread> > th; int n=0;
  for(auto& l:ops){
    if(l[0]=="init"){ Ev("New").i("n",toi(l[1])).emit(); sem=new SpatialOps::Semaphore(toi(l[1])); }
    else if(l[0]=="thread"){ ++n; th.push_back(std::unique_ptr<boost::thread>(new boost::thread(Client{n,l[1]}))); }
    else if(l[0]=="quiet"){ vs::quiesce(); vs::Quiet q; Ev("quiet").a("b",vs::blocked()).emit(); }
    else if(l[0]=="do"){ Client{0,l[1]}(); }
  }
}
void run_case(const std::vector<Line>& ops){ ex::explore(ops,body); }
