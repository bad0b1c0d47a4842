// Common part of every conformance harness: reads a script of cases, runs each
// case in a forked child and appends one ndjson event per observed call.
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>

namespace vh {

typedef std::vector<std::string> Line;
inline int out_fd = -1;
inline std::string cur_case;

inline void write_all(const std::string& s){
  size_t o=0; while(o<s.size()){ ssize_t n=::write(out_fd,s.data()+o,s.size()-o); if(n<=0) _exit(99); o+=size_t(n); }
}

static const int V_NAN=2000000001, V_INF=2000000002, V_FRAC=2000000003, V_NINF=2000000004;
// exact fixed-point projection of a double: v*scale must be an integer
inline int fix(double v, double scale=1.0){
  if( v!=v ) return V_NAN;
  if( v> 1e300 ) return V_INF;
  if( v<-1e300 ) return V_NINF;
  const double s=v*scale, r=std::floor(s+0.5);
  if( std::fabs(s-r)>1e-7*(1+std::fabs(s)) ) return V_FRAC;
  if( std::fabs(r)>1.9e9 ) return V_INF;
  return int(r);
}

class Ev {
  std::ostringstream o_;
public:
  explicit Ev(const std::string& e){ o_<<"{\"c\":\""<<cur_case<<"\",\"e\":\""<<e<<"\""; }
  Ev& i(const char* k,long long v){ o_<<",\""<<k<<"\":"<<v; return *this; }
  Ev& b(const char* k,bool v){ o_<<",\""<<k<<"\":"<<(v?"true":"false"); return *this; }
  Ev& s(const char* k,const std::string& v){ o_<<",\""<<k<<"\":\""; for(size_t q=0;q<v.size();++q){ char ch=v[q]; if(ch=='"'||ch=='\\') o_<<'\\'<<ch; else if((unsigned char)ch<32) o_<<' '; else o_<<ch; } o_<<"\""; return *this; }
  template<class V> Ev& a(const char* k,const V& v){ o_<<",\""<<k<<"\":["; for(size_t q=0;q<v.size();++q) o_<<(q?",":"")<<v[q]; o_<<"]"; return *this; }
  template<class V> Ev& sa(const char* k,const V& v){ o_<<",\""<<k<<"\":["; for(size_t q=0;q<v.size();++q) o_<<(q?",\"":"\"")<<v[q]<<"\""; o_<<"]"; return *this; }
  template<class V> Ev& v3(const char* k,const V& v){ o_<<",\""<<k<<"\":["<<v[0]<<","<<v[1]<<","<<v[2]<<"]"; return *this; }
  Ev& raw(const char* k,const std::string& v){ o_<<",\""<<k<<"\":"<<v; return *this; }
  std::string str() const { return o_.str()+"}\n"; }
  void emit(){ write_all(str()); }
};

inline int toi(const std::string& s){ return std::atoi(s.c_str()); }
inline double tod(const std::string& s){ return std::strtod(s.c_str(),0); }

} // namespace vh

void run_case(const std::vector<vh::Line>& ops);
#ifndef VH_NO_MAIN
int main(int argc, char** argv){
  using namespace vh;
  if(argc<3){ std::fprintf(stderr,"usage: %s script out [timeout]\n",argv[0]); return 2; }
  const unsigned tmo = argc>3 ? unsigned(std::atoi(argv[3])) : 60;
  std::ifstream in(argv[1]);
  out_fd = ::open(argv[2],O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644);
  if(out_fd<0){ std::perror("open"); return 2; }
  std::vector<Line> ops; std::string l; bool have=false;
  // unused stdout/stderr of the library goes to /dev/null unless VH_VERBOSE is set
  if(!std::getenv("VH_VERBOSE")){ int n=::open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); }
  while(true){
    const bool ok = bool(std::getline(in,l));
    if( !ok || l.compare(0,5,"CASE ")==0 ){
      if(have){
        pid_t pid=fork();
        if(pid<0) return 2;
        if(pid==0){
          alarm(tmo);
          int rc=0;
          try{ Ev("Begin").emit(); run_case(ops); Ev("End").emit(); }
          catch(std::exception& e){ Ev("Uncaught").s("what",e.what()).emit(); }
          catch(...){ Ev("Uncaught").s("what","?").emit(); }
          _exit(rc);
        }
        int st=0; waitpid(pid,&st,0);
        if(WIFSIGNALED(st)) Ev("Crash").i("sig",WTERMSIG(st)).emit();
        else if(WEXITSTATUS(st)!=0) Ev("Crash").i("sig",-WEXITSTATUS(st)).emit();
      }
      ops.clear(); have=true;
      if(!ok) break;
      cur_case=l.substr(5);
      continue;
    }
    std::istringstream is(l); Line t; std::string w; while(is>>w) t.push_back(w);
    if(!t.empty()) ops.push_back(t);
  }
  return 0;
}
#endif
#endif
