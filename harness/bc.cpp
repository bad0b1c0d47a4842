// Boundary condition driver.
#include "bc.h"
using namespace vh;
void run_case(const std::vector<Line>& ops){
  BcCase c;
  for(auto& l: ops){
    const std::string& o=l[0];
    if(o=="n") c.n=iv(l,1);
    else if(o=="bc"){ for(int d=0;d<3;++d) c.bc[d]=toi(l.at(1+d))!=0; }
    else if(o=="sp8") c.sp8=iv(l,1);
    else if(o=="g"){ c.gm=iv(l,1); c.gp=iv(l,4); }
    else if(o=="dg"){ c.dgm=iv(l,1); c.dgp=iv(l,4); }
    else if(o=="seed") c.seed=toi(l.at(1))*7919+11;
    else if(o=="gmode") c.gmode=toi(l.at(1));
    else if(o=="app") c.app=toi(l.at(1))!=0;
    else if(o=="bcop"){ c.form=l.at(1); c.side=l.at(2); c.op=l.at(3); c.s=l.at(4); c.d=l.at(5); }
    else if(o=="pt"){ c.pts.push_back(iv(l,1)); c.vals.push_back(toi(l.at(4))); }
  }
  BcReg::m().at((c.form=="nebo"?"nebo:":"")+c.op+":"+c.s+":"+c.d)(c);
}
