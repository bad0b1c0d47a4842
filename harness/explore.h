// Runs one concurrent program under many schedules, each in its own child process, and emits every distinct trace
// once, as case <name>#<k>.
#ifndef VERIF_EXPLORE_H
#define VERIF_EXPLORE_H
#include "harness.h"
#include "vsched.h"
#include <sys/mman.h>
#include <set>
namespace ex {
using namespace vh;
inline void stat(){ std::ostringstream o; o<<"STAT "<<vs::points()<<" "<<vs::syncs(); const std::vector<std::pair<int,int> >& c=vs::choices(); for(size_t i=0;i<c.size();++i) o<<" "<<c[i].first<<" "<<c[i].second; o<<"\n"; write_all(o.str()); }
inline void on_stuck(const std::vector<int>& b){ Ev("Stuck").a("b",b).emit(); stat(); _exit(0); }
struct Res { std::string trace; long points,syncs; std::vector<std::pair<int,int> > ch; };
typedef void (*Body)(const std::vector<Line>&);
inline Res once(const vs::Config& g,const std::vector<Line>& ops,Body f,unsigned tmo){
  int fd=memfd_create("trace",0); Res r; r.points=r.syncs=0; pid_t p=fork();
  if(p==0){ alarm(tmo); out_fd=fd; cur_case="@"; Ev("Begin").emit(); vs::begin(g,on_stuck); try{ f(ops); vs::Quiet q; Ev("End").emit(); }catch(std::exception& e){ vs::hold(1); Ev("Uncaught").s("what",e.what()).emit(); }catch(...){ vs::hold(1); Ev("Uncaught").s("what","?").emit(); } vs::hold(1); stat(); _exit(0); }
  int st=0; waitpid(p,&st,0); off_t n=lseek(fd,0,SEEK_END); std::string s(size_t(n),0); if(n) pread(fd,&s[0],size_t(n),0); close(fd);
  size_t k=s.rfind("STAT "); if(k!=std::string::npos && (k==0||s[k-1]=='\n')){ std::istringstream i(s.substr(k+5)); i>>r.points>>r.syncs; int a,b; while(i>>a>>b) r.ch.push_back(std::make_pair(a,b)); s.resize(k); }
  if(WIFSIGNALED(st)||WEXITSTATUS(st)){ std::string c=cur_case; cur_case="@"; s+=Ev("Crash").i("sig",WIFSIGNALED(st)?WTERMSIG(st):-WEXITSTATUS(st)).str(); cur_case=c; }
  r.trace=s; return r; }
inline void explore(const std::vector<Line>& ops,Body f){
  std::set<std::string> seen; std::string base=cur_case; long runs=0,pts=0; int k=0; bool full=false; long est=500, preempt=0;
  auto emit=[&](const Res& r){ ++runs; pts+=r.points; if(r.points>0) est=r.points; if(!seen.insert(r.trace).second) return; ++k; std::ostringstream id; id<<base<<"#"<<k; std::string o; size_t i=0; const std::string& s=r.trace; while(i<s.size()){ size_t e=s.find('\n',i); if(e==std::string::npos) e=s.size(); std::string ln=s.substr(i,e-i); if(ln.compare(0,8,"{\"c\":\"@\"")==0) ln="{\"c\":\""+id.str()+"\""+ln.substr(8); o+=ln+"\n"; i=e+1; } write_all(o); };
  for(auto& l:ops) if(l[0]=="explore"){ vs::Config g; g.kind=l[1]; int n=toi(l[2]); 
    if(g.kind=="dfs"){ const int bound=toi(l[3]); g.pspur=0; std::vector<int> pre; full=true;
      for(int it=0;;++it){ if(it>=n){ full=false; break; } g.guide=pre; Res r=once(g,ops,f,20); emit(r);
        std::vector<int> np; bool found=false; std::vector<int> cost(r.ch.size()+1,0); for(size_t i=0;i<r.ch.size();++i) cost[i+1]=cost[i]+((r.ch[i].first&1)&&r.ch[i].second>0?1:0);
        for(size_t i=r.ch.size();i-->0;){ int opt=r.ch[i].first/2, nx=r.ch[i].second+1; if(nx<opt && cost[i]+((r.ch[i].first&1)?1:0)<=bound){ for(size_t j=0;j<i;++j) np.push_back(r.ch[j].second); np.push_back(nx); found=true; break; } }
        if(!found) break; pre=np; } preempt=bound; }
    else { g.seed=(unsigned long long)std::atoll(l[3].c_str()); if(g.kind=="random"){ g.psync=tod(l[4]); g.pmem=tod(l[5]); g.pspur=tod(l[6]); } else if(g.kind=="pct"){ g.changes=toi(l[4]); g.pspur=tod(l[5]); }
      else if(g.kind=="guide"||g.kind=="turn") for(size_t j=4;j<l.size();++j) { if(g.kind=="turn") g.pspur=0; g.guide.push_back(toi(l[j])); }
      for(int it=0;it<n;++it){ g.steps=est; emit(once(g,ops,f,20)); ++g.seed; } } }
  cur_case=base; std::ostringstream o; o<<"EXPLORED "<<base<<" "<<runs<<" "<<k<<" "<<pts<<" "<<(full?1:0)<<" "<<preempt<<"\n";
  const char* p=std::getenv("VH_STATS"); if(p){ int fd=::open(p,O_CREAT|O_APPEND|O_WRONLY,0644); if(fd>=0){ std::string s=o.str(); (void)!::write(fd,s.data(),s.size()); ::close(fd); } }
}
}
#endif
