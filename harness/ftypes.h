#ifndef VERIF_FTYPES_H
#define VERIF_FTYPES_H
#include <spatialops/structured/SpatialField.h>
#include <spatialops/structured/FVStaggeredFieldTypes.h>
#include <spatialops/structured/FVTools.h>
using namespace SpatialOps;
using namespace SpatialOps::structured;
#define VH_ALL_TYPES(X) X(SVol) X(SSurfX) X(SSurfY) X(SSurfZ) X(XVol) X(XSurfX) X(XSurfY) X(XSurfZ) X(YVol) X(YSurfX) X(YSurfY) X(YSurfZ) X(ZVol) X(ZSurfX) X(ZSurfY) X(ZSurfZ)
// calls v.template run<FieldT>() for the field type with the given name
template<class V> bool vh_dispatch(const std::string& n, V& v){
#define VH_D(T) if(n==#T){ v.template run< SpatialField<T> >(); return true; }
  VH_ALL_TYPES(VH_D)
#undef VH_D
  return false;
}
namespace vh{
inline IntVec iv(const Line& l,size_t k){ return IntVec(toi(l.at(k)),toi(l.at(k+1)),toi(l.at(k+2))); }
// ghosts as a user may declare them: in a direction with a single point any number is the same as none
inline GhostData declg(const GhostData& g,const MemoryWindow& w,unsigned long k){
  IntVec m=g.get_minus(), p=g.get_plus(); for(int i=0;i<3;++i) if(w.glob_dim(i)==1){ m[i]=int((k>>(2*i+1))%3); p[i]=int((k>>(2*i+2))%3); } return GhostData(m,p); }
inline GhostData gd(const Line& l,size_t k){ return GhostData(iv(l,k),iv(l,k+3)); } // minus(3) plus(3)
inline std::vector<int> flat3(const IntVec& a){ std::vector<int> r; for(int i=0;i<3;++i) r.push_back(a[i]); return r; }
inline std::string winjson(const MemoryWindow& w){
  std::ostringstream o; o<<"{\"g\":["<<w.glob_dim(0)<<","<<w.glob_dim(1)<<","<<w.glob_dim(2)<<"],\"o\":["<<w.offset(0)<<","<<w.offset(1)<<","<<w.offset(2)<<"],\"x\":["<<w.extent(0)<<","<<w.extent(1)<<","<<w.extent(2)<<"]}";
  return o.str();
}
inline std::string ghostjson(const GhostData& g){
  std::ostringstream o; IntVec m=g.get_minus(), p=g.get_plus();
  o<<"{\"m\":["<<m[0]<<","<<m[1]<<","<<m[2]<<"],\"p\":["<<p[0]<<","<<p[1]<<","<<p[2]<<"]}";
  return o.str();
}
}
#endif
