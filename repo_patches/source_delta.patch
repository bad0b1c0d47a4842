From ee64e7c47d96fa31c60ba9d2abde8beff803c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 01/17] fix: SpatFldPtr detach, self-assignment and empty
 handles

detach() of a shared handle left its pointers set, so that its destructor
released the field a second time; assigning a sole handle to itself freed the
field and then used it; copying or assigning an empty handle dereferenced NULL.
---
 spatialops/structured/SpatialFieldStore.h | 54 +++++++----------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..18299d8 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -146,7 +146,7 @@ public:
   }
 
   int count() const {
-    return *count_;
+    return count_ == NULL ? 0 : *count_;
   }
 
   bool built_from_store() const {
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,21 +349,10 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
-  // was this an active SpatFldPtr?
-  if (count_ != NULL) {
-    // this one is dying so decrement the count.
-    --(*count_);
-    // kill the old one if needed
-    if (*count_ == 0) {
-      if (builtFromStore_) {
-	SpatialFieldStore::restore_field(memType_, *f_);
-      }
-      delete f_;
-      delete count_;
-      count_ = NULL;
-      f_ = NULL;
-    }
-  }
+  // nothing to do if this already shares its field with p (includes self assignment)
+  if( this == &p || ( count_ != NULL && count_ == p.count_ ) ) return *this;
+  // release the old field if this was an active SpatFldPtr
+  detach();
   // reassign
   f_ = p.f_;
   count_ = p.count_;
@@ -371,7 +360,7 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
   // increment copy count
-  ++(*count_);
+  if( count_ != NULL ) ++(*count_);
 
   return *this;
 }
@@ -379,29 +368,15 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(FieldT* const f) {
-  // was this an active SpatFldPtr?
-  if (count_ != NULL) {
-    // this one is dying so decrement the count.
-    --(*count_);
-    // kill the old one if needed
-    if (*count_ == 0) {
-      if (builtFromStore_) {
-	SpatialFieldStore::restore_field(memType_, *f_);
-      }
-
-      delete f_;
-      delete count_;
-      count_ = NULL;
-      f_ = NULL;
-    }
-  }
+  // release the old field if this was an active SpatFldPtr
+  detach();
   // reassign
   f_ = f;
   count_ = new int;
   *count_ = 1;
   builtFromStore_ = false;
-  memType_ = f->memory_device_type();
-  deviceIndex_ = f->device_index();
+  memType_ = ( f != NULL ? f->memory_device_type() : LOCAL_RAM );
+  deviceIndex_ = ( f != NULL ? f->device_index() : 0 );
 
   return *this;
 }
@@ -419,9 +394,12 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    // this one no longer refers to the field, whether or not others do.
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From a059f26c17dcab698f27afda4bbe078b05239955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 02/17] fix: a failed or unsupported pool request no longer
 changes the pool

A request that could not be allocated left its size class, the enlarged padding
and an incremented buffer count behind, so that later requests were mapped to
the impossible size and failed as well.
---
 spatialops/structured/MemoryPool.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index af87468..ef5a392 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -116,22 +116,16 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
-  if( pad_==0 ) pad_ = _n/10;
-  size_t n = _n+pad_;
+  // the padding is only retained once a request has been satisfied.
+  const size_t pad = ( pad_==0 ) ? _n/10 : pad_;
+  size_t n = _n+pad;
 
   switch(mtype) {
   case LOCAL_RAM: {
     T* field = NULL;
     typename FQSizeMap::iterator ifq = cpufqm_.lower_bound( n );
-    if( ifq == cpufqm_.end() ){
-      ifq = cpufqm_.insert( ifq, make_pair(n,FieldQueue()) );
-    }
-    else{
-      n = ifq->first;
-    }
-    FieldQueue& fq = ifq->second;
-    if( fq.empty() ){
-      ++cpuhighWater_;
+    if( ifq != cpufqm_.end() ) n = ifq->first;
+    if( ifq == cpufqm_.end() || ifq->second.empty() ){
       try{
 #ifdef ENABLE_CUDA
         /* Pinned Memory Mode
@@ -159,11 +153,16 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
                   << e.what() << std::endl
                   << __FILE__ << " : " << __LINE__ << std::endl;
       }
+      // nothing is recorded until the allocation has succeeded.
       fsm_[field] = n;
+      if( ifq == cpufqm_.end() ) cpufqm_.insert( make_pair(n,FieldQueue()) );
+      ++cpuhighWater_;
     }
     else{
+      FieldQueue& fq = ifq->second;
       field = fq.top(); fq.pop();
     }
+    pad_ = pad;
     return field;
   }
 # ifdef ENABLE_CUDA
@@ -186,6 +185,7 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
     else{
       field = fq.top(); fq.pop();
     }
+    pad_ = pad;
     return field;
   }
 # endif
-- 
2.43.0


From 3f62892190c17b0b35de0d945ac5f0f81ded64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 03/17] fix: a rejected add_consumer no longer makes the field
 read-only

---
 spatialops/structured/SpatialField.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..ee38647 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -914,8 +914,6 @@ add_consumer( MemoryType consumerMemoryType,
     return;
   }
 
-  readOnly_ = true;  // once a consumer is added, we only allow read-only access
-
 # ifdef ENABLE_THREADS
   //Make sure adding consumers is per-field atomic
   ExecMutex lock;
@@ -1023,6 +1021,8 @@ add_consumer( MemoryType consumerMemoryType,
     throw(std::runtime_error(msg.str()));
   }
   }
+
+  readOnly_ = true;  // once a consumer is added, we only allow read-only access
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 1ecd3ca10d48480cfd51d9d75f03584847e795c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 04/17] fix: lock the memory pool in thread-enabled builds

Internally stored fields and masks get and put their memory without holding the
field store's mutex.
---
 spatialops/structured/MemoryPool.cpp | 20 ++++++++++++++++++++
 spatialops/structured/MemoryPool.h   | 11 ++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index ef5a392..dfdb26c 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -116,6 +116,10 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   // the padding is only retained once a request has been satisfied.
   const size_t pad = ( pad_==0 ) ? _n/10 : pad_;
   size_t n = _n+pad;
@@ -211,6 +215,10 @@ Pool<T>::put( const MemoryType mtype, T* t )
   // leak memory on shut-down in those cases.
   if( destroyed_ ) return;
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   switch(mtype) {
   case LOCAL_RAM: {
     const size_t n = fsm_[t];
@@ -242,6 +250,9 @@ Pool<T>::put( const MemoryType mtype, T* t )
 template<typename T>
 size_t
 Pool<T>::active() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
   size_t n=0;
   for( typename FQSizeMap::const_iterator ifq=cpufqm_.begin(); ifq!=cpufqm_.end(); ++ifq ){
     n += ifq->second.size();
@@ -249,6 +260,15 @@ Pool<T>::active() const{
   return cpuhighWater_-n;
 }
 
+template<typename T>
+size_t
+Pool<T>::total() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+  return cpuhighWater_;
+}
+
 
 // explicit instantiation
 template class Pool<double>;
diff --git a/spatialops/structured/MemoryPool.h b/spatialops/structured/MemoryPool.h
index 3a4e0f1..427ad6e 100644
--- a/spatialops/structured/MemoryPool.h
+++ b/spatialops/structured/MemoryPool.h
@@ -26,8 +26,14 @@
 #include <stack>
 #include <map>
 
+#include <spatialops/SpatialOpsConfigure.h>
+
 #include <spatialops/structured/MemoryTypes.h>
 
+#ifdef ENABLE_THREADS
+# include <boost/thread/mutex.hpp>
+#endif
+
 namespace SpatialOps {
 namespace structured {
 
@@ -44,6 +50,9 @@ class Pool{
   FieldSizeMap fsm_;
   size_t pad_;
   size_t cpuhighWater_, gpuhighWater_;
+# ifdef ENABLE_THREADS
+  mutable boost::mutex mutex_;  ///< fields and masks get and put memory from several threads
+# endif
   Pool();
   ~Pool();
   Pool(const Pool&);
@@ -55,7 +64,7 @@ class Pool{
   T* get( const MemoryType mtype, const size_t n );
   void put( const MemoryType mtype, T* );
   size_t active() const;
-  size_t total() const{ return cpuhighWater_; }
+  size_t total() const;
   const unsigned short int deviceIndex_;
 };
 
-- 
2.43.0


From 8e2c8ecb540dea97fdd09cbf86b1ad4a3fd8b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 05/17] fix: field assignment copies only the windowed cells

---
 spatialops/structured/SpatialField.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ee38647..c757f23 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1445,7 +1445,12 @@ SpatialField<Location,T>::operator=(const field_type& other)
       if( fieldValues_ == other.field_values() ){
         return *this;
       }
-      std::copy( other.fieldValues_, other.fieldValues_+other.fieldWindow_.glob_npts(), fieldValues_ );
+      if( fieldWindow_.local_npts() == fieldWindow_.glob_npts() ){
+        std::copy( other.fieldValues_, other.fieldValues_+other.fieldWindow_.glob_npts(), fieldValues_ );
+      }
+      else{ // only the windowed portion of the memory belongs to these fields
+        std::copy( other.begin(), other.end(), this->begin() );
+      }
     }
     break;
 
-- 
2.43.0


From 7c8062e410fe5760b014ff3e309f210887a9e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 06/17] fix: SpatialFieldStore::get keeps window and ghosts
 consistent

A prototype whose valid ghosts had been reduced gave a field with the reduced
window but the full ghost count, so its interior shrank.
---
 spatialops/structured/SpatialFieldStore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 18299d8..16e9724 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -250,7 +250,7 @@ public:
     if( mtype == UNKNOWN ) mtype = f.memory_device_type();
 
     const MemoryWindow& ws = f.window_with_ghost();
-    GhostData gs = f.get_ghost_data();
+    GhostData gs = f.get_valid_ghost_data();  // consistent with the window
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-- 
2.43.0


From e2fdcd908418fae7560a6f060c4f03644d64f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 07/17] fix: reductions over stencil expressions compile

---
 spatialops/NeboStencils.h     | 4 ++--
 spatialops/NeboStencils.h.fmr | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 10a8907..525b4a8 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -761,7 +761,7 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
                                                                      plus,
                                                                      shift,
                                                                      arg_,
@@ -976,7 +976,7 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
                                                                      plus,
                                                                      shift,
                                                                      arg_));
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index bb9416f..f0ff9ee 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -443,7 +443,7 @@
                                       'coefs_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_
@@ -542,7 +542,7 @@
                                       'arg_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_)
-- 
2.43.0


From 91372f83e39a0653b69e6e5149e6631f08959d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 08/17] fix: BoundaryConditionOp over a list of points
 addresses the listed cells

---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..1360664 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From badc498676ee74a84a9551115b9bf78d803451e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 09/17] fix: particle operators locate cells from the mesh
 origin

---
 spatialops/particles/ParticleOperators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..a158547 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -158,7 +158,7 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
         throw std::runtime_error( "Particle is outside of the domain!" );
@@ -219,7 +219,7 @@ namespace Particle{
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc - xo_) / dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( leftcellIx1 >= nmax || leftcellIx1<0 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
-- 
2.43.0


From 162aa0c7f4c25f9ce2f8ea692ba75d178b576637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 10/17] fix: point operators built from a field index its
 memory

---
 spatialops/pointfield/PointOperators.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spatialops/pointfield/PointOperators.h b/spatialops/pointfield/PointOperators.h
index c6f3375..682c578 100644
--- a/spatialops/pointfield/PointOperators.h
+++ b/spatialops/pointfield/PointOperators.h
@@ -96,9 +96,11 @@ namespace Point{
   template< typename FieldT >
   PointToField<FieldT>::PointToField( const FieldT& locs )
   {
-    size_t i=0;
+    // the window may be smaller than the field's memory, which the flat indices refer to
+    const structured::MemoryWindow& w = locs.window_with_ghost();
+    int i=0;
     for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii, ++i ){
-      if( *ii != 0.0 ) indices_.push_back(i);
+      if( *ii != 0.0 ) indices_.push_back( w.flat_index( w.ijk_index_from_local(i) ) );
     }
   }
 
@@ -132,9 +134,11 @@ namespace Point{
   template< typename FieldT >
   FieldToPoint<FieldT>::FieldToPoint( const FieldT& locs )
   {
-    size_t i=0;
+    // the window may be smaller than the field's memory, which the flat indices refer to
+    const structured::MemoryWindow& w = locs.window_with_ghost();
+    int i=0;
     for( typename FieldT::const_iterator ii=locs.begin(); ii!=locs.end(); ++ii, ++i ){
-      if( *ii != 0.0 ) indices_.push_back(i);
+      if( *ii != 0.0 ) indices_.push_back( w.flat_index( w.ijk_index_from_local(i) ) );
     }
   }
 
-- 
2.43.0


From 2e8a69e8bb6f0687001c26e682c62a26444c5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 11/17] fix: Lagrange weights of order zero

---
 spatialops/structured/onedim/LagrangePoly.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/spatialops/structured/onedim/LagrangePoly.cpp b/spatialops/structured/onedim/LagrangePoly.cpp
index 903acde..e9faaf4 100644
--- a/spatialops/structured/onedim/LagrangePoly.cpp
+++ b/spatialops/structured/onedim/LagrangePoly.cpp
@@ -138,18 +138,14 @@ get_interp_coefs_indices( const double x,
     double coef = 1.0;
 
     // assemble this coefficient.
-    bool haveEntry = false;
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
       if( xk != xi ){
-        haveEntry = true;
         coef *= (x-xi)/(xk-xi);
       }
     }
-    if( haveEntry ){
-      coefs.push_back( coef );
-      indices.push_back( k+koffset );
-    }
+    coefs.push_back( coef );
+    indices.push_back( k+koffset );
   }
 }
 
@@ -180,12 +176,10 @@ get_derivative_coefs_indices( const double x,
     cout << endl << "k=" << k << " of " << polyOrder << endl;
     cout << "  den = ";
 #endif
-    bool haveEntry = false;
     double den = 1.0;
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
       if( xi != xk ){
-        haveEntry = true;
         den *= (xk-xi);
 #ifdef DEBUG_COEFFS
         cout << "(x"  << kindex-koffset << "-x" << i-koffset << ")";
@@ -221,10 +215,8 @@ get_derivative_coefs_indices( const double x,
     cout << endl;
     cout << "  num: " << num << ",  den: " << den << endl;
 #endif
-    if( haveEntry ){
-      coefs.push_back( num/den );
-      indices.push_back( k+koffset );
-    }
+    coefs.push_back( num/den );
+    indices.push_back( k+koffset );
   }
 }
 
-- 
2.43.0


From b3bd189d59f31fe0b4b93420fa7f36e82cf21036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 12/17] fix: default absolute tolerance of field comparisons is
 never negative

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index ad1745b..7b2b0ad 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -78,7 +78,7 @@ namespace structured{
  */
 template<typename FieldT>
 bool field_not_equal(const FieldT& f1, const FieldT& f2, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(f1, f2, error, error_abs);
 }
 
@@ -123,7 +123,7 @@ bool field_not_equal(const FieldT& f1, const FieldT& f2, double error, const dou
 template<typename FieldT>
 bool field_equal(const FieldT& f1, const FieldT& f2, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(f1, f2, error, error_abs);
 }
 
@@ -412,7 +412,7 @@ bool field_equal_ulp(const FieldT& f1, const FieldT& f2, const unsigned int ulps
  */
 template<typename FieldT>
 bool field_not_equal(const double d, const FieldT& f1, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(d, f1, error, error_abs);
 }
 
@@ -457,7 +457,7 @@ bool field_not_equal(const double d, const FieldT& f1, double error, const doubl
 template<typename FieldT>
 bool field_equal(const double d, const FieldT& f1, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(d, f1, error, error_abs);
 }
 
-- 
2.43.0


From 6c0401bc68f4d51f91df10cc6f20a6016fc788e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 13/17] fix: shrinking a thread pool ends only as many workers
 as requested

---
 .../threadpool/threadpool/detail/pool_core.hpp      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..9b9cde7 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -110,6 +110,7 @@ namespace boost { namespace threadpool { namespace detail
     volatile size_t m_target_worker_count;
     volatile size_t m_active_worker_count;
     volatile size_t m_target_active_worker_count;
+    volatile size_t m_leaving_worker_count; // Workers which decided to terminate but are still included in m_worker_count.
 
   private: // The following members are accessed only by _one_ thread at the same time:
     scheduler_type  m_scheduler;
@@ -130,6 +131,7 @@ namespace boost { namespace threadpool { namespace detail
       , m_target_worker_count(0)
       , m_active_worker_count(0)
       , m_target_active_worker_count(0)
+      , m_leaving_worker_count(0)
       , m_terminate_all_workers(false)
     {
       pool_type volatile & self_ref = *this;
@@ -320,10 +322,10 @@ namespace boost { namespace threadpool { namespace detail
         return false;
       }
 
-      if(m_worker_count <= m_target_worker_count){
+      if(m_worker_count - m_leaving_worker_count <= m_target_worker_count){
 
     	// increase worker count
-        while(m_worker_count < m_target_worker_count)
+        while(m_worker_count - m_leaving_worker_count < m_target_worker_count)
         {
           try {
             worker_thread<pool_type>::create_and_attach(lockedThis->shared_from_this());
@@ -373,6 +375,7 @@ namespace boost { namespace threadpool { namespace detail
     void worker_destructed(shared_ptr<worker_type> worker) volatile
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+      m_leaving_worker_count--;
       m_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
@@ -392,8 +395,9 @@ namespace boost { namespace threadpool { namespace detail
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
         // decrease number of threads if necessary
-        if(m_worker_count > m_target_worker_count)
+        if(m_worker_count - m_leaving_worker_count > m_target_worker_count)
         {
+          m_leaving_worker_count++;
           return false;	// terminate worker
         }
 
@@ -402,8 +406,9 @@ namespace boost { namespace threadpool { namespace detail
         while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
         {
           // decrease number of workers if necessary
-          if(m_worker_count > m_target_worker_count)
+          if(m_worker_count - m_leaving_worker_count > m_target_worker_count)
           {
+            m_leaving_worker_count++;
             return false;	// terminate worker
           }
           else
-- 
2.43.0


From 8041d2335d70c4b7c4cf5542a763aa39e08aa257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 14/17] fix: thread pool workers held back by the active limit
 are woken when it allows

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 9b9cde7..7fa5440 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -349,7 +349,9 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
+    	locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
     	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+    	lockedThis->m_task_or_terminate_workers_event.notify_all();
     	return true;
     }
 
@@ -361,6 +363,7 @@ namespace boost { namespace threadpool { namespace detail
       m_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
+      lockedThis->m_task_or_terminate_workers_event.notify_all(); // a worker held back by the active limit may go on
 
       if(m_terminate_all_workers)
       {
@@ -379,6 +382,7 @@ namespace boost { namespace threadpool { namespace detail
       m_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
+      lockedThis->m_task_or_terminate_workers_event.notify_all(); // a worker held back by the active limit may go on
 
       if(m_terminate_all_workers)
       {
-- 
2.43.0


From 9d1d764101da3c199d8dfe04843f9583352f82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 15/17] fix: thread pool wait(n) returns as soon as at most n
 tasks remain

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7fa5440..da5a0d4 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -213,6 +213,7 @@ namespace boost { namespace threadpool { namespace detail
     void clear() volatile {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       lockedThis->m_scheduler.clear();
+      lockedThis->m_worker_idle_or_terminated_event.notify_all(); // the number of active and pending tasks decreased
     }
 
     /*! Indicates that there are no tasks pending.
@@ -426,6 +427,7 @@ namespace boost { namespace threadpool { namespace detail
 
         task = lockedThis->m_scheduler.top();
         lockedThis->m_scheduler.pop();
+        lockedThis->m_worker_idle_or_terminated_event.notify_all(); // the number of active and pending tasks decreased
       }
 
       // call task function
-- 
2.43.0


From 05fb875d29980bfa9273f3bc6a6cb775cdff16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 16/17] fix: reported active thread limit never exceeds the
 number of pool threads

max_active() kept reporting a limit set while there were more workers, and
resize_pool() returned its argument even when the limit was clamped.
---
 spatialops/ThreadPool.cpp                             | 2 +-
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index cb96dc4..5e52229 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -109,7 +109,7 @@ namespace SpatialOps {
      //Connect the right resource interface
      VoidType* resource = (VoidType*)rit->first;
      resource->size_controller().resize_active(std::max(1,threads));
-     return threads;
+     return resource->max_active();
    }
 
    template<class VoidType>
diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index da5a0d4..ed1ba2a 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -165,7 +165,8 @@ namespace boost { namespace threadpool { namespace detail
     * \return The number of threads.
     */
     size_t max_active() const volatile {
-    	return m_target_active_worker_count;
+    	// the limit may have been set while there were more workers
+    	return ( m_target_active_worker_count < m_target_worker_count ) ? m_target_active_worker_count : m_target_worker_count;
     }
 
     /**
-- 
2.43.0


From dbc34f2ba46a922a9f64359fa483d0be6da936b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 17/17] fix: fields have no ghost cells in directions with a
 single point

Interior assignments and reductions, and resets of the valid ghosts, on a
field declared with ghosts on a 2D or 1D grid produced a window of negative
extent.
---
 spatialops/structured/SpatialField.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index c757f23..5d9eafa 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -142,6 +142,15 @@ namespace structured{
 
     inline void reset_values(const T* values);
 
+    /** there are no ghost cells in a direction with a single point */
+    static inline GhostData ghosts_on_window( const MemoryWindow& w, const GhostData& ghosts ){
+      IntVec minus = ghosts.get_minus(), plus = ghosts.get_plus();
+      for( int i=0; i<3; ++i ){
+        if( w.glob_dim(i) == 1 ){ minus[i] = 0; plus[i] = 0; }
+      }
+      return GhostData( minus, plus );
+    }
+
 #   ifdef ENABLE_THREADS
     /**
      *  \class ExecMutex
@@ -454,11 +463,12 @@ namespace structured{
 
     /**
      * @brief reset the active window given the provided number of valid ghosts
-     * @param ghosts the number of ghosts, which cannot be larger than the number of valid ghosts on this field.
+     * @param newGhosts the number of ghosts, which cannot be larger than the number of valid ghosts on this field.
      *
      * This method should be used when a field assignment can only occur on a subset of the field due to invalidation of some of the ghost cells.
      */
-    inline void reset_valid_ghosts( const GhostData& ghosts ){
+    inline void reset_valid_ghosts( const GhostData& newGhosts ){
+      const GhostData ghosts = ghosts_on_window( fieldWindow_, newGhosts );
       const IntVec diff = validGhosts_.get_minus() - ghosts.get_minus();
       fieldWindow_ = MemoryWindow( fieldWindow_.glob_dim(),
                                    fieldWindow_.offset() + diff,
@@ -543,8 +553,8 @@ SpatialField( const MemoryWindow& window,
     : fieldWindow_(window),
       interiorFieldWindow_(window), // reset with correct info later
       bcInfo_( bc ),
-      ghosts_     ( ghost ),
-      validGhosts_( ghost ),
+      ghosts_     ( ghosts_on_window( window, ghost ) ),
+      validGhosts_( ghosts_ ),
       fieldValues_( ( mtype == LOCAL_RAM ) ?
                     ( ( mode == ExternalStorage) ? fieldValues : (NULL) )
                     : ( NULL ) ),
-- 
2.43.0

