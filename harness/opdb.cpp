// Operator database: registrations, retrievals of every (type, id), emptying, destruction.
#include "harness.h"
#include <spatialops/OperatorDatabase.h>
using namespace vh;
using namespace SpatialOps;
static std::vector<int> dead; static int serial=0;
struct Base{ int n; Base():n(++serial){} ~Base(){ dead.push_back(n); } };
struct A : Base {}; struct B : Base { double pad[3]; }; struct C : A {};            // C derives from A: still another type
struct D : Base { struct Assembler{ int k; }; int k; explicit D(const Assembler& a):k(a.k){} };
template<class T> static int tryget(const OperatorDatabase& db,int id,bool noarg){
  try{ T* p = noarg ? db.retrieve_operator<T>() : db.retrieve_operator<T>(id); return p? p->n : -5; }catch(std::runtime_error&){ return 0; }catch(...){ return -6; } }
static std::string snap(const OperatorDatabase* db,int mx){
  std::ostringstream o; o<<"["; bool f=true;
  if(db) for(int t=0;t<4;++t) for(int id=-1;id<=mx;++id){ int r = t==0?tryget<A>(*db,id,id==-1): t==1?tryget<B>(*db,id,id==-1): t==2?tryget<C>(*db,id,id==-1):tryget<D>(*db,id,id==-1);
    o<<(f?"":",")<<"{\"t\":\""<<"ABCD"[t]<<"\",\"id\":"<<id<<",\"r\":"<<r<<"}"; f=false; }
  o<<"]"; return o.str(); }
void run_case(const std::vector<Line>& ops){
  OperatorDatabase* db=new OperatorDatabase(); int mx=2;
  for(auto& l:ops){
    if(l[0]=="E"){ db->empty_database(); Ev E("Empty"); E.raw("q",snap(db,mx)).a("dead",dead); E.emit(); continue; }
    ++mx; int id=-9; const std::string& t=l[0];
    if(t=="A") id=db->register_new_operator(new A()); else if(t=="B") id=db->register_new_operator(new B()); else if(t=="C") id=db->register_new_operator(new C());
    else { D::Assembler a; a.k=mx; id=db->register_new_operator<D>(a); }
    Ev E("Reg"); E.s("t",t).i("id",id).raw("q",snap(db,mx)).a("dead",dead); E.emit();
  }
  delete db; Ev E("Gone"); E.raw("q","[]").a("dead",dead); E.emit();
}
