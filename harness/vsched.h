// Controlled scheduler.  Between begin() and the end of the process exactly one thread runs at a time; every
// synchronisation call (and, for code compiled with -fsanitize=thread, every memory access) is a point where the
// scheduler may hand over to another thread.  The choice depends only on the configuration, so a run can be repeated.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <string>
#include <vector>
namespace vs {
struct Config {
  std::string kind;            // random | pct | guide | turn | dfs
  unsigned long long seed;
  double psync, pmem, pspur;   // probability of switching at a synchronisation / memory point, of a spurious wake-up
  int changes;                 // pct: number of priority changes
  long steps;                  // pct: estimated number of points
  std::vector<int> guide;      // guide: preferred thread at each synchronisation point; dfs: forced choices
  Config():kind("random"),seed(1),psync(.3),pmem(.01),pspur(.02),changes(3),steps(2000){}
};
void begin(const Config&, void (*stuck)(const std::vector<int>& blocked));
int  self();                       // index of the calling thread (main = 0), in order of creation
void name(int id);                 // gives the calling thread a label reported in blocked()
void quiesce();                    // blocks until no other thread can run
std::vector<int> blocked();        // labels of the labelled threads which are alive
int  alive();                      // threads other than main which have not ended
int  created();
int  alive_unlabelled();
long syncs(); long points();
const std::vector<std::pair<int,int> >& choices();  // (options, taken) at every scheduling decision with more than one option
void hold(int d);                  // >0: no preemption in the calling thread at memory points
struct Quiet { Quiet(){ hold(1);} ~Quiet(){ hold(-1);} };
}
#endif
