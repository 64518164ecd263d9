From 42ff966cf70ba33c7f5a19f959aff0289cd9daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 01/29] fix: do not count a failed allocation in the memory
 pool's totals

---
 spatialops/structured/MemoryPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index af87468..026ae04 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -131,7 +131,6 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
     }
     FieldQueue& fq = ifq->second;
     if( fq.empty() ){
-      ++cpuhighWater_;
       try{
 #ifdef ENABLE_CUDA
         /* Pinned Memory Mode
@@ -160,6 +159,7 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
                   << __FILE__ << " : " << __LINE__ << std::endl;
       }
       fsm_[field] = n;
+      ++cpuhighWater_;  // only count memory that was actually allocated
     }
     else{
       field = fq.top(); fq.pop();
-- 
2.43.0


From 7a8e684bdcf0ee36ea9b4f17ad4ba21101ab820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 02/29] fix: make ConstFieldIterator::operator[] usable
 (const-correct)

---
 spatialops/structured/MemoryWindow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryWindow.h b/spatialops/structured/MemoryWindow.h
index 988cc71..abfb1fa 100644
--- a/spatialops/structured/MemoryWindow.h
+++ b/spatialops/structured/MemoryWindow.h
@@ -547,7 +547,7 @@ namespace structured{
     inline ptrdiff_t operator- (Self const & other) const { return count_ - other.count_; };
 
     //offset dereference
-    inline AtomicType & operator[](int change) { Self result = *this; result += change; return *result; };
+    inline AtomicType const & operator[](int change) const { Self result = *this; result += change; return *result; };
 
     IntVec location() const{ return IntVec(xIndex_,yIndex_,zIndex_); }
 
-- 
2.43.0


From bad1363e4d1968d0afcc580f2326394cf98af510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 03/29] fix: bound (i,j,k) element access of windowed fields by
 the window's extent, not the parent's offset

---
 spatialops/structured/SpatialField.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..328a39c 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1290,9 +1290,6 @@ SpatialField<Location,T>::operator()(const IntVec& ijk)
     assert( (size_t)ijk[0] <  fieldWindow_.extent(0) );
     assert( (size_t)ijk[1] <  fieldWindow_.extent(1) );
     assert( (size_t)ijk[2] <  fieldWindow_.extent(2) );
-    assert( (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] >= fieldWindow_.offset(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   }
@@ -1318,9 +1315,6 @@ operator()( const size_t i, const size_t j, const size_t k ) const
     assert( i <  fieldWindow_.extent(0) );
     assert( j <  fieldWindow_.extent(1) );
     assert( k <  fieldWindow_.extent(2) );
-    assert( i >= fieldWindow_.offset(0) );
-    assert( j >= fieldWindow_.offset(1) );
-    assert( k >= fieldWindow_.offset(2) );
 #   endif
     IntVec ijk(i,j,k);
     return fieldValues_[fieldWindow_.flat_index(ijk)];
@@ -1342,9 +1336,9 @@ operator()( const IntVec& ijk ) const
 {
   if( memType_ == LOCAL_RAM || fieldValues_ != NULL ){
 #   ifndef NDEBUG
-    assert( (size_t)ijk[0] < fieldWindow_.extent(0) && (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] < fieldWindow_.extent(1) && (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] < fieldWindow_.extent(2) && (size_t)ijk[2] >= fieldWindow_.offset(2) );
+    assert( (size_t)ijk[0] < fieldWindow_.extent(0) );
+    assert( (size_t)ijk[1] < fieldWindow_.extent(1) );
+    assert( (size_t)ijk[2] < fieldWindow_.extent(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   } else {
-- 
2.43.0


From 71b0129eae05c1013e8152c96e0681df83c87390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 04/29] fix: field assignment copies only the cells of the
 assigned window

---
 spatialops/structured/SpatialField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index 328a39c..88d07d4 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1439,7 +1439,7 @@ SpatialField<Location,T>::operator=(const field_type& other)
       if( fieldValues_ == other.field_values() ){
         return *this;
       }
-      std::copy( other.fieldValues_, other.fieldValues_+other.fieldWindow_.glob_npts(), fieldValues_ );
+      std::copy( other.begin(), other.end(), begin() ); // only the cells in this field's window
     }
     break;
 
-- 
2.43.0


From ab0fb6ae8fb6becd1f16c3fe308535ecf1269d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 05/29] fix: shared field handles survive self-assignment,
 empty sources and detach while shared

---
 spatialops/structured/SpatialFieldStore.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..64c2189 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -146,7 +146,7 @@ public:
   }
 
   int count() const {
-    return *count_;
+    return count_ == NULL ? 0 : *count_;
   }
 
   bool built_from_store() const {
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,6 +349,8 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
+  // increment copy count before releasing ours, since p may share our field
+  if (p.count_ != NULL) ++(*p.count_);
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -370,8 +372,6 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   builtFromStore_ = p.builtFromStore_;
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
-  // increment copy count
-  ++(*count_);
 
   return *this;
 }
@@ -379,6 +379,8 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(FieldT* const f) {
+  // nothing to do if we already refer to this field
+  if (f != NULL && f == f_) return *this;
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -400,8 +402,8 @@ SpatFldPtr<FieldT>::operator=(FieldT* const f) {
   count_ = new int;
   *count_ = 1;
   builtFromStore_ = false;
-  memType_ = f->memory_device_type();
-  deviceIndex_ = f->device_index();
+  memType_ = ( f != NULL ? f->memory_device_type() : LOCAL_RAM );
+  deviceIndex_ = ( f != NULL ? f->device_index() : 0 );
 
   return *this;
 }
@@ -419,9 +421,11 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From fb066794507005d17e95764e16ddafd6090eb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 06/29] fix: store-built fields get no extra cell in directions
 with a single cell

---
 spatialops/structured/SpatialFieldStore.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 64c2189..b67c1b4 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -254,7 +254,9 @@ public:
 
     const BoundaryCellInfo bc = BoundaryCellInfo::build<FieldT>( f.boundary_info().has_bc() );
 
-    const IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    IntVec inc = bc.has_bc() * Subtract< typename FieldT::Location::BCExtra, typename ProtoT::Location::BCExtra >::result::int_vec();
+    // directions with a single cell have no extra cells
+    for( int i=0; i<3; ++i ) if( ws.glob_dim(i) == 1 ) inc[i] = 0;
     const MemoryWindow w( ws.glob_dim() + inc,
                           ws.offset(),
                           ws.extent()   + inc );
-- 
2.43.0


From ac973a3dcbd6d8f14e65ad8d48a2080f59a9d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 07/29] fix: derived absolute error of field comparisons must
 not depend on the tolerance's sign

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index ad1745b..7b2b0ad 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -78,7 +78,7 @@ namespace structured{
  */
 template<typename FieldT>
 bool field_not_equal(const FieldT& f1, const FieldT& f2, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(f1, f2, error, error_abs);
 }
 
@@ -123,7 +123,7 @@ bool field_not_equal(const FieldT& f1, const FieldT& f2, double error, const dou
 template<typename FieldT>
 bool field_equal(const FieldT& f1, const FieldT& f2, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(f1, f2, error, error_abs);
 }
 
@@ -412,7 +412,7 @@ bool field_equal_ulp(const FieldT& f1, const FieldT& f2, const unsigned int ulps
  */
 template<typename FieldT>
 bool field_not_equal(const double d, const FieldT& f1, double error=0.0) {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return !field_equal(d, f1, error, error_abs);
 }
 
@@ -457,7 +457,7 @@ bool field_not_equal(const double d, const FieldT& f1, double error, const doubl
 template<typename FieldT>
 bool field_equal(const double d, const FieldT& f1, double error=0.0)
 {
-  double error_abs = error ? nebo_norm(f1)*error*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
+  double error_abs = error ? nebo_norm(f1)*std::abs(error)*FIELDCOMPARISONS_ABS_ERROR_CONST : 0;
   return field_equal(d, f1, error, error_abs);
 }
 
-- 
2.43.0


From d8fbea2e92ce5a541f27f6e284a9743213d91893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 08/29] fix: coordinates of a field with fewer valid ghosts
 count from its first interior cell

---
 spatialops/structured/Grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/structured/Grid.cpp b/spatialops/structured/Grid.cpp
index 0612150..92508cc 100644
--- a/spatialops/structured/Grid.cpp
+++ b/spatialops/structured/Grid.cpp
@@ -77,7 +77,7 @@ namespace structured{
     const IntVec lo(0,0,0);
     const IntVec hi( mw.extent() );
 
-    const int ixOffset = mwInterior.offset(dir);
+    const int ixOffset = mwInterior.offset(dir) - mw.offset(dir);
     IntVec ix;
     for( ix[2]=lo[2]; ix[2]<hi[2]; ++ix[2] ){
       for( ix[1]=lo[1]; ix[1]<hi[1]; ++ix[1] ){
-- 
2.43.0


From 44fbc72eef14252ed8fc0ea2b32204c3cf4a2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 09/29] fix: resizing ghosts must not move the window in
 directions with a single cell

---
 spatialops/NeboBasic.h               | 13 ++++++++++---
 spatialops/NeboBasic.h.fmr           | 10 ++++++++--
 spatialops/structured/SpatialField.h |  7 +++++--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/spatialops/NeboBasic.h b/spatialops/NeboBasic.h
index ba9e1be..d8255d6 100644
--- a/spatialops/NeboBasic.h
+++ b/spatialops/NeboBasic.h
@@ -124,10 +124,17 @@
 
           const structured::IntVec oldPlus = field.get_valid_ghost_data().get_plus();
 
-          const structured::IntVec offsetChange = oldMinus - minus;
+          const structured::IntVec dim = field.window_with_ghost().glob_dim();
 
-          const structured::IntVec extentChange = minus + plus - oldMinus -
-          oldPlus;
+          /* directions with a single cell hold no ghost cells */
+          const structured::IntVec hasGhost = structured::IntVec(dim[0] != 1,
+                                                                 dim[1] != 1,
+                                                                 dim[2] != 1);
+
+          const structured::IntVec offsetChange = hasGhost * (oldMinus - minus);
+
+          const structured::IntVec extentChange = hasGhost * (minus + plus -
+                                                              oldMinus - oldPlus);
 
           return field.reshape(extentChange, offsetChange);
        };
diff --git a/spatialops/NeboBasic.h.fmr b/spatialops/NeboBasic.h.fmr
index 48efb4c..5276237 100644
--- a/spatialops/NeboBasic.h.fmr
+++ b/spatialops/NeboBasic.h.fmr
@@ -92,8 +92,14 @@
                               resize-pmtr)
                      (list (nt=c IntVec 'oldMinus (mfc (mfc 'field 'get_valid_ghost_data) 'get_minus))
                            (nt=c IntVec 'oldPlus (mfc (mfc 'field 'get_valid_ghost_data) 'get_plus))
-                           (nt=c IntVec 'offsetChange (n- 'oldMinus 'minus))
-                           (nt=c IntVec 'extentChange (n+ 'minus (n- 'plus (n- 'oldMinus 'oldPlus)))))
+                           (nt=c IntVec 'dim (mfc (mfc 'field 'window_with_ghost) 'glob_dim))
+                           ;directions with a single cell hold no ghost cells
+                           (nt=c IntVec 'hasGhost (fc IntVec
+                                                      (n!= (l 'dim "[0]") "1")
+                                                      (n!= (l 'dim "[1]") "1")
+                                                      (n!= (l 'dim "[2]") "1")))
+                           (nt=c IntVec 'offsetChange (n* 'hasGhost (n- 'oldMinus 'minus)))
+                           (nt=c IntVec 'extentChange (n* 'hasGhost (n+ 'minus (n- 'plus (n- 'oldMinus 'oldPlus))))))
                      (mfc 'field 'reshape 'extentChange 'offsetChange)))
 
  (tpl-def (tpl-pmtr FT-chunk)
diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index 88d07d4..b3abd1f 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -459,10 +459,13 @@ namespace structured{
      * This method should be used when a field assignment can only occur on a subset of the field due to invalidation of some of the ghost cells.
      */
     inline void reset_valid_ghosts( const GhostData& ghosts ){
-      const IntVec diff = validGhosts_.get_minus() - ghosts.get_minus();
+      IntVec diff = validGhosts_.get_minus() - ghosts.get_minus();
+      IntVec plusDiff = validGhosts_.get_plus() - ghosts.get_plus();
+      // directions with a single cell hold no ghost cells
+      for( int i=0; i<3; ++i ) if( fieldWindow_.glob_dim(i) == 1 ) diff[i] = plusDiff[i] = 0;
       fieldWindow_ = MemoryWindow( fieldWindow_.glob_dim(),
                                    fieldWindow_.offset() + diff,
-                                   fieldWindow_.extent() - diff - validGhosts_.get_plus() + ghosts.get_plus() );
+                                   fieldWindow_.extent() - diff - plusDiff );
       validGhosts_ = ghosts;
     }
 
-- 
2.43.0


From 7f5b81d174d4c7befe6e55447fea8746f86a89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 10/29] fix: reductions over stencil expressions refer to the
 reduction constructors

---
 spatialops/NeboStencils.h     | 4 ++--
 spatialops/NeboStencils.h.fmr | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 10a8907..525b4a8 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -761,7 +761,7 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
                                                                      plus,
                                                                      shift,
                                                                      arg_,
@@ -976,7 +976,7 @@
           inline ReductionType reduce_init(structured::IntVec const & minus,
                                            structured::IntVec const & plus,
                                            structured::IntVec const & shift) const {
-             return ReductionType(ConstructExpr::in_reduce_construct(minus,
+             return ReductionType(ConstructReductionExpr::in_rd_construct(minus,
                                                                      plus,
                                                                      shift,
                                                                      arg_));
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index bb9416f..f0ff9ee 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -443,7 +443,7 @@
                                       'coefs_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_
@@ -542,7 +542,7 @@
                                       'arg_
                                       DI-chunk)
                                   (mfc 'arg_ 'gpu_prep DI-chunk)
-                                  (fc (scope 'ConstructExpr 'in_reduce_construct)
+                                  (fc (scope 'ConstructReductionExpr 'in_rd_construct)
                                       resize-arg
                                       'shift
                                       'arg_)
-- 
2.43.0


From 287757656bbc17754362c4ad7ec66d3f095d4116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 11/29] fix: single-entry coefficient collections reject index
 1

---
 spatialops/NeboStencils.h     | 2 +-
 spatialops/NeboStencils.h.fmr | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/NeboStencils.h b/spatialops/NeboStencils.h
index 525b4a8..09f9839 100644
--- a/spatialops/NeboStencils.h
+++ b/spatialops/NeboStencils.h
@@ -100,7 +100,7 @@
                 throw(std::runtime_error(msg.str()));;
              };
 
-             if(index > 1) {
+             if(index >= 1) {
                 std::ostringstream msg;
                 msg << "Nebo error in " << "Nebo Stencil Coefficient Collection"
                 << ":\n";
diff --git a/spatialops/NeboStencils.h.fmr b/spatialops/NeboStencils.h.fmr
index f0ff9ee..a00b339 100644
--- a/spatialops/NeboStencils.h.fmr
+++ b/spatialops/NeboStencils.h.fmr
@@ -237,7 +237,7 @@
                                      (list (nif (n< 'index "0")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(given negative value for coefficient index)))
-                                           (nif (n> 'index "1")
+                                           (nif (n>= 'index "1")
                                                 (build-error '(Nebo Stencil Coefficient Collection)
                                                              '(trying to access a coefficient that does not exist))))
                                      (fc 'coef)))
-- 
2.43.0


From 0b9c9abdec87b892b02e6ba7d0cc8eacbc2653d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 12/29] fix: boundary-condition operators over point lists act
 on the listed points

---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..03f7f31 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -201,13 +201,13 @@ namespace structured{
     //   phi_a = (phi_bc - b*phi_b) / a
     //
     const OpT* const op = soDatabase.retrieve_operator<OpT>();
-    ca_ = (side==MINUS_SIDE ? op->coefs().get_coef(0) : op->coefs().get_coef(1) );
-    cb_ = (side==MINUS_SIDE ? op->coefs().get_coef(1) : op->coefs().get_coef(0) );
+    ca_ = (side==MINUS_SIDE || side==NO_SIDE ? op->coefs().get_coef(0) : op->coefs().get_coef(1) );
+    cb_ = (side==MINUS_SIDE || side==NO_SIDE ? op->coefs().get_coef(1) : op->coefs().get_coef(0) );
     //
     std::vector<IntVec>::const_iterator destPointsIter = destIJKPoints.begin();
     for( ; destPointsIter != destIJKPoints.end(); ++destPointsIter ) {
-      flatGhostPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE) ? S1Shift::int_vec() : S2Shift::int_vec() )));    // a_point
-      flatInteriorPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE) ? S2Shift::int_vec() : S1Shift::int_vec() ))); // b_point
+      flatGhostPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE || side==NO_SIDE) ? S1Shift::int_vec() : S2Shift::int_vec() )));    // a_point
+      flatInteriorPoints_.push_back(window.flat_index(*destPointsIter + ( (side==MINUS_SIDE || side==NO_SIDE) ? S2Shift::int_vec() : S1Shift::int_vec() ))); // b_point
     }
   }
 
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From 9c75df7e9fae1032d1784af49326838aed746659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 13/29] fix: zeroth-order Lagrange interpolation yields its
 single coefficient

---
 spatialops/structured/onedim/LagrangePoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/onedim/LagrangePoly.cpp b/spatialops/structured/onedim/LagrangePoly.cpp
index 903acde..f2b117f 100644
--- a/spatialops/structured/onedim/LagrangePoly.cpp
+++ b/spatialops/structured/onedim/LagrangePoly.cpp
@@ -138,7 +138,7 @@ get_interp_coefs_indices( const double x,
     double coef = 1.0;
 
     // assemble this coefficient.
-    bool haveEntry = false;
+    bool haveEntry = (polyOrder==0); // a single point has no other entries
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
       if( xk != xi ){
@@ -180,7 +180,7 @@ get_derivative_coefs_indices( const double x,
     cout << endl << "k=" << k << " of " << polyOrder << endl;
     cout << "  den = ";
 #endif
-    bool haveEntry = false;
+    bool haveEntry = (polyOrder==0); // a single point has no other entries
     double den = 1.0;
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
-- 
2.43.0


From cce59ef3d0f3c726b1770a5de5ace71f550f459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 14/29] fix: particle operators honour the mesh origin and
 reject particles that leave the mesh

---
 spatialops/particles/ParticleOperators.h | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..7aa89a4 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -144,9 +144,7 @@ namespace Particle{
    {
      dest <<= 0.0;
 
-#   ifndef NDEBUG
     const int nmax = dest.window_with_ghost().local_npts();
-#   endif
 
     ParticleField::const_iterator plociter = particleCoord.begin();
     ParticleField::const_iterator psizeiter = particleSize.begin();
@@ -158,16 +156,16 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
-#     ifndef NDEBUG
-      if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
+      //(positions measured in cell widths from the left boundary of the first cell)
+      const double leftpos = (leftloc-xo_)/dx_ + 0.5, rightpos = (rightloc-xo_)/dx_ + 0.5;
+      if( leftpos < -1e-6 || leftpos >= nmax || rightpos > nmax+1e-6 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
       }
-#     endif
+      int leftcellIx1 = leftpos > 0 ? int(leftpos) : 0;
       //loop through all cells effected by the particle and add the source term
       while(leftloc < rightloc){
         double rb = coordVec_[leftcellIx1] + dx_/2;
-        if( rb > rightloc ) rb = rightloc;
+        if( rb > rightloc || leftcellIx1+1 >= nmax ) rb = rightloc;
         dest[leftcellIx1] += *isrc * (rb-leftloc) / *psizeiter;
         ++leftcellIx1;
         leftloc = rb ;
@@ -210,25 +208,23 @@ namespace Particle{
                   const SrcFieldType& src,
                   DestFieldType& dest ) const
   {
-#   ifndef NDEBUG
     const int nmax = src.window_with_ghost().local_npts();
-#   endif
     ParticleField::const_iterator plociter = particleCoord.begin();
     ParticleField::const_iterator psizeiter = particleSize.begin();
     ParticleField::iterator destiter = dest.begin();
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
-#     ifndef NDEBUG
-      if( leftcellIx1 >= nmax || leftcellIx1<0 ){
+      //(positions measured in cell widths from the left boundary of the first cell)
+      const double leftpos = (leftloc-xo_)/dx_ + 0.5, rightpos = (rightloc-xo_)/dx_ + 0.5;
+      if( leftpos < -1e-6 || leftpos >= nmax || rightpos > nmax+1e-6 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
       }
-#     endif
+      int leftcellIx1 = leftpos > 0 ? int(leftpos) : 0;
       *destiter = 0.0;
       while(leftloc < rightloc){
         double rb = coordVec_[leftcellIx1] + dx_/2.0;
-        if( rb > rightloc ) rb = rightloc;
+        if( rb > rightloc || leftcellIx1+1 >= nmax ) rb = rightloc;
         *destiter += src[leftcellIx1] * (rb-leftloc) / *psizeiter;
         ++leftcellIx1;
         leftloc = rb ;
-- 
2.43.0


From 415414a9b3ce48225b53fa93fc485f523ba7dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 15/29] fix: first derivative of the Gaussian field function

---
 spatialops/FieldFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index cd4ae08..85c93c4 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -647,7 +647,7 @@ dx( FieldT& f ) const
 {
   this->set_fields();
   const FieldT& x = this->get_x();
-  f <<= -2/b_ * (x-xo_)*(x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) + yo_;
+  f <<= -2/b_ * (x-xo_) * ( a_*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) );
 }
 //------------------------------------------------------------------
 template<typename FieldT, typename PatchT>
-- 
2.43.0


From 08db3bf135781aa97b720161c15bdd80af6e9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 16/29] fix: wake wait(threshold) when a task is taken or
 removed, not only when a worker idles

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..ea6aa45 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -211,6 +211,7 @@ namespace boost { namespace threadpool { namespace detail
     void clear() volatile {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       lockedThis->m_scheduler.clear();
+      lockedThis->m_worker_idle_or_terminated_event.notify_all();  // the number of tasks dropped
     }
 
     /*! Indicates that there are no tasks pending.
@@ -417,6 +418,9 @@ namespace boost { namespace threadpool { namespace detail
 
         task = lockedThis->m_scheduler.top();
         lockedThis->m_scheduler.pop();
+
+        // a task which was finished before may have been the one that wait(threshold) needed
+        lockedThis->m_worker_idle_or_terminated_event.notify_all();
       }
 
       // call task function
-- 
2.43.0


From 4dbe873d8a8ff2f500e69d21a726a687ec60c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 17/29] fix: shrinking a thread pool must not terminate more
 workers than requested

---
 .../threadpool/threadpool/detail/pool_core.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index ea6aa45..e2e8d73 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -107,6 +107,7 @@ namespace boost { namespace threadpool { namespace detail
 
   private: // The following members may be accessed by _multiple_ threads at the same time:
     volatile size_t m_worker_count;
+    volatile size_t m_leaving_worker_count;  // workers which are about to terminate but are still counted in m_worker_count
     volatile size_t m_target_worker_count;
     volatile size_t m_active_worker_count;
     volatile size_t m_target_active_worker_count;
@@ -127,6 +128,7 @@ namespace boost { namespace threadpool { namespace detail
     /// Constructor.
     pool_core()
       : m_worker_count(0)
+      , m_leaving_worker_count(0)
       , m_target_worker_count(0)
       , m_active_worker_count(0)
       , m_target_active_worker_count(0)
@@ -280,6 +282,11 @@ namespace boost { namespace threadpool { namespace detail
 
   private:
 
+    // number of workers which have not been told to terminate
+    size_t staying_workers() const volatile {
+      return m_worker_count - m_leaving_worker_count;
+    }
+
     void terminate_all_workers(bool const wait) volatile {
       pool_type* self = const_cast<pool_type*>(this);
       recursive_mutex::scoped_lock lock(self->m_monitor);
@@ -321,10 +328,10 @@ namespace boost { namespace threadpool { namespace detail
         return false;
       }
 
-      if(m_worker_count <= m_target_worker_count){
+      if(staying_workers() <= m_target_worker_count){
 
     	// increase worker count
-        while(m_worker_count < m_target_worker_count)
+        while(staying_workers() < m_target_worker_count)
         {
           try {
             worker_thread<pool_type>::create_and_attach(lockedThis->shared_from_this());
@@ -374,6 +381,7 @@ namespace boost { namespace threadpool { namespace detail
     void worker_destructed(shared_ptr<worker_type> worker) volatile
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+      m_leaving_worker_count--;
       m_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
@@ -393,8 +401,9 @@ namespace boost { namespace threadpool { namespace detail
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
         // decrease number of threads if necessary
-        if(m_worker_count > m_target_worker_count)
+        if(staying_workers() > m_target_worker_count)
         {
+          m_leaving_worker_count++;
           return false;	// terminate worker
         }
 
@@ -403,8 +412,9 @@ namespace boost { namespace threadpool { namespace detail
         while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
         {
           // decrease number of workers if necessary
-          if(m_worker_count > m_target_worker_count)
+          if(staying_workers() > m_target_worker_count)
           {
+            m_leaving_worker_count++;
             return false;	// terminate worker
           }
           else
-- 
2.43.0


From 74403b32917ebe523d2f232ce5ce6f2b5e869598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 18/29] fix: raising a thread pool's active limit wakes its
 workers, and the limit follows the worker count

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 9 ++++++---
 spatialops/threadpool/threadpool/size_policies.hpp    | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index e2e8d73..33f89d9 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -131,7 +131,7 @@ namespace boost { namespace threadpool { namespace detail
       , m_leaving_worker_count(0)
       , m_target_worker_count(0)
       , m_active_worker_count(0)
-      , m_target_active_worker_count(0)
+      , m_target_active_worker_count(static_cast<size_t>(-1))  // no limit but the number of workers
       , m_terminate_all_workers(false)
     {
       pool_type volatile & self_ref = *this;
@@ -165,7 +165,8 @@ namespace boost { namespace threadpool { namespace detail
     * \return The number of threads.
     */
     size_t max_active() const volatile {
-    	return m_target_active_worker_count;
+    	const size_t limit = m_target_active_worker_count, workers = m_target_worker_count;
+    	return limit < workers ? limit : workers;
     }
 
     /**
@@ -355,7 +356,9 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
-    	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+    	locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
+    	m_target_active_worker_count = worker_count;
+    	lockedThis->m_task_or_terminate_workers_event.notify_all();  // workers may be waiting for a higher limit
     	return true;
     }
 
diff --git a/spatialops/threadpool/threadpool/size_policies.hpp b/spatialops/threadpool/threadpool/size_policies.hpp
index c42fdb8..10a94c7 100755
--- a/spatialops/threadpool/threadpool/size_policies.hpp
+++ b/spatialops/threadpool/threadpool/size_policies.hpp
@@ -88,7 +88,7 @@ namespace boost { namespace threadpool {
 
     static void init(Pool& pool, size_t const worker_count) {
       pool.resize(worker_count);
-      pool.resize_active(worker_count);
+      if(worker_count > 0) pool.resize_active(worker_count);
     }
 
     bool resize(size_t const worker_count) {
-- 
2.43.0


From b39aaca5487b47961f8558453fd32c8d8625208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 19/29] fix: a leaving worker wakes the workers which the
 active limit holds back

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 33f89d9..f9ba763 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -370,6 +370,7 @@ namespace boost { namespace threadpool { namespace detail
       m_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
+      lockedThis->m_task_or_terminate_workers_event.notify_all();  // a worker held back by the active limit may go on
 
       if(m_terminate_all_workers)
       {
@@ -388,6 +389,7 @@ namespace boost { namespace threadpool { namespace detail
       m_worker_count--;
       m_active_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
+      lockedThis->m_task_or_terminate_workers_event.notify_all();  // a worker held back by the active limit may go on
 
       if(m_terminate_all_workers)
       {
-- 
2.43.0


From 6e11b4d0bf453df8e5665ebde85d037b6fc475fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 20/29] fix: replacing a dead worker must not undo a pending
 shrink

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index f9ba763..2e4e471 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -376,9 +376,9 @@ namespace boost { namespace threadpool { namespace detail
       {
         lockedThis->m_terminated_workers.push_back(worker);
       }
-      else
+      else if(staying_workers() < m_target_worker_count)
       {
-        lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count);
+        lockedThis->m_size_policy->worker_died_unexpectedly(staying_workers());
       }
     }
 
-- 
2.43.0


From afdc13e12145f46bb5e706c0fc6c1870da8baf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 21/29] fix: a task that throws must not take the program down;
 its worker is replaced

---
 spatialops/threadpool/threadpool/detail/worker_thread.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/worker_thread.hpp b/spatialops/threadpool/threadpool/detail/worker_thread.hpp
index f4a8e48..062e64c 100755
--- a/spatialops/threadpool/threadpool/detail/worker_thread.hpp
+++ b/spatialops/threadpool/threadpool/detail/worker_thread.hpp
@@ -75,7 +75,12 @@ namespace boost { namespace threadpool { namespace detail
 	  void run() {
 		  scope_guard notify_exception(bind(&worker_thread::died_unexpectedly, this));
 
-		  while(m_pool->execute_task()) {}
+		  try {
+			  while(m_pool->execute_task()) {}
+		  }
+		  catch(...) {
+			  return;  // exceptions of tasks are ignored, but this worker is replaced (notify_exception)
+		  }
 
 		  notify_exception.disable();
 		  m_pool->worker_destructed(this->shared_from_this());
-- 
2.43.0


From f2a136135caa4bb3b9cdcdc9e26dd18f821f6430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 22/29] fix: futures of functions that return objects

---
 spatialops/threadpool/threadpool/detail/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/future.hpp b/spatialops/threadpool/threadpool/detail/future.hpp
index 4e4b35b..406fbe6 100755
--- a/spatialops/threadpool/threadpool/detail/future.hpp
+++ b/spatialops/threadpool/threadpool/detail/future.hpp
@@ -43,7 +43,7 @@ public:
 
 private:
     volatile bool m_ready;
-    volatile future_result_type m_result;
+    future_result_type m_result;
 
     mutable mutex m_monitor;
     mutable condition m_condition_ready;	
-- 
2.43.0


From 04c553b1f15bc0959bdcf1ee1bd5e548f5d0c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 23/29] fix: cancelling a future is atomic with completing it
 and releases its waiters

---
 .../threadpool/threadpool/detail/future.hpp    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/future.hpp b/spatialops/threadpool/threadpool/detail/future.hpp
index 406fbe6..123384a 100755
--- a/spatialops/threadpool/threadpool/detail/future.hpp
+++ b/spatialops/threadpool/threadpool/detail/future.hpp
@@ -29,6 +29,8 @@
 #include <boost/static_assert.hpp>
 #include <boost/type_traits.hpp>
 
+#include <stdexcept>
+
 namespace boost { namespace threadpool { namespace detail 
 {
 
@@ -59,6 +61,7 @@ public:
   future_impl()
   : m_ready(false)
   , m_is_cancelled(false)
+  , m_executing(false)
   {
   }
 
@@ -72,7 +75,7 @@ public:
     const future_type* self = const_cast<const future_type*>(this);
     mutex::scoped_lock lock(self->m_monitor);
 
-    while(!m_ready)
+    while(!m_ready && !m_is_cancelled)
     {
       self->m_condition_ready.wait(lock);
     }
@@ -84,7 +87,7 @@ public:
     const future_type* self = const_cast<const future_type*>(this);
     mutex::scoped_lock lock(self->m_monitor);
 
-    while(!m_ready)
+    while(!m_ready && !m_is_cancelled)
     {
       if(!self->m_condition_ready.timed_wait(lock, timestamp)) return false;
     }
@@ -103,6 +106,11 @@ public:
     }
 */
  
+    if(!m_ready)
+    {
+      throw std::runtime_error("the future was cancelled and has no result");
+    }
+
     return *(const_cast<const future_result_type*>(&m_result));
   }
 
@@ -132,9 +140,11 @@ public:
 
    bool cancel() volatile
    {
-     if(!m_ready || m_executing)
+     locking_ptr<future_type, mutex> lockedThis(*this, m_monitor);
+     if(!m_ready)
      {
-        m_is_cancelled = true;
+        lockedThis->m_is_cancelled = true;
+        lockedThis->m_condition_ready.notify_all();
         return true;
      }
      else
-- 
2.43.0


From cc4dafe8927a67034ebc5057564caaee7d6a8437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 24/29] fix: lock the memory pools, fields may be created and
 released on several threads

---
 spatialops/structured/MemoryPool.cpp | 20 ++++++++++++++++++++
 spatialops/structured/MemoryPool.h   | 11 ++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index 026ae04..a243e77 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -116,6 +116,10 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   if( pad_==0 ) pad_ = _n/10;
   size_t n = _n+pad_;
 
@@ -211,6 +215,10 @@ Pool<T>::put( const MemoryType mtype, T* t )
   // leak memory on shut-down in those cases.
   if( destroyed_ ) return;
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   switch(mtype) {
   case LOCAL_RAM: {
     const size_t n = fsm_[t];
@@ -242,6 +250,9 @@ Pool<T>::put( const MemoryType mtype, T* t )
 template<typename T>
 size_t
 Pool<T>::active() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
   size_t n=0;
   for( typename FQSizeMap::const_iterator ifq=cpufqm_.begin(); ifq!=cpufqm_.end(); ++ifq ){
     n += ifq->second.size();
@@ -249,6 +260,15 @@ Pool<T>::active() const{
   return cpuhighWater_-n;
 }
 
+template<typename T>
+size_t
+Pool<T>::total() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+  return cpuhighWater_;
+}
+
 
 // explicit instantiation
 template class Pool<double>;
diff --git a/spatialops/structured/MemoryPool.h b/spatialops/structured/MemoryPool.h
index 3a4e0f1..22e6704 100644
--- a/spatialops/structured/MemoryPool.h
+++ b/spatialops/structured/MemoryPool.h
@@ -26,8 +26,14 @@
 #include <stack>
 #include <map>
 
+#include <spatialops/SpatialOpsConfigure.h>
+
 #include <spatialops/structured/MemoryTypes.h>
 
+#ifdef ENABLE_THREADS
+# include <boost/thread/mutex.hpp>
+#endif
+
 namespace SpatialOps {
 namespace structured {
 
@@ -44,6 +50,9 @@ class Pool{
   FieldSizeMap fsm_;
   size_t pad_;
   size_t cpuhighWater_, gpuhighWater_;
+# ifdef ENABLE_THREADS
+  mutable boost::mutex mutex_;  // fields may be created and released on any thread
+# endif
   Pool();
   ~Pool();
   Pool(const Pool&);
@@ -55,7 +64,7 @@ class Pool{
   T* get( const MemoryType mtype, const size_t n );
   void put( const MemoryType mtype, T* );
   size_t active() const;
-  size_t total() const{ return cpuhighWater_; }
+  size_t total() const;
   const unsigned short int deviceIndex_;
 };
 
-- 
2.43.0


From 3aa7a7da421a967c43da0091aa7af5496ba2a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 25/29] fix: keep the field store's mutex usable while static
 fields are destroyed

---
 spatialops/structured/SpatialFieldStore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index b67c1b4..b83d693 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -283,7 +283,8 @@ private:
   /**
    *  Used to lock threads to prevent simultaneous access.
    */
-  inline static boost::mutex& get_mutex() {static boost::mutex m; return m;}
+  // never destroyed: fields may still be restored while static objects are destroyed
+  inline static boost::mutex& get_mutex() {static boost::mutex* const m = new boost::mutex; return *m;}
 #endif
 
 };
-- 
2.43.0


From 3af7966e6fcde05a9aecd794aa74af2972c89f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 26/29] fix: thread pool size calls return the sizes in force

---
 spatialops/ThreadPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index cb96dc4..6a5f496 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -109,7 +109,7 @@ namespace SpatialOps {
      //Connect the right resource interface
      VoidType* resource = (VoidType*)rit->first;
      resource->size_controller().resize_active(std::max(1,threads));
-     return threads;
+     return resource->max_active();
    }
 
    template<class VoidType>
@@ -122,8 +122,8 @@ namespace SpatialOps {
        fprintf(stderr, "Error: Threadpool does not exist!\n");
        return -1;
      }
-     VoidType* resource = (VoidType*)rit->first;
-     return resource->size();
+     //workers come and go asynchronously: report the capacity in force
+     return rit->second;
    }
 
    template<class VoidType>
-- 
2.43.0


From a7fc04b0cad06c8f1fe141b8703e66cade8783d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 27/29] fix: register the thread pool singletons while they are
 constructed, not on a racy first use

---
 spatialops/ThreadPool.cpp | 14 ++------------
 spatialops/ThreadPool.h   |  6 ------
 2 files changed, 2 insertions(+), 18 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index 6a5f496..cea4aa5 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -148,7 +148,7 @@ namespace SpatialOps {
    ThreadPool::ThreadPool( const int nthreads )
      : boost::threadpool::prio_pool( nthreads )
    {
-     init_ = false;
+     ThreadPoolResourceManager::insert<boost::threadpool::prio_pool>( *this, nthreads );
    }
 
    ThreadPool::~ThreadPool()
@@ -171,11 +171,6 @@ namespace SpatialOps {
    ThreadPool& ThreadPool::self()
    {
      static ThreadPool tp(NTHREADS);
-     ThreadPoolResourceManager& tprm = ThreadPoolResourceManager::self();
-     if( tp.init_ == false ){
-       tprm.insert<boost::threadpool::prio_pool>(tp, NTHREADS);
-       tp.init_ = true;
-     }
      return tp;
    }
 
@@ -184,7 +179,7 @@ namespace SpatialOps {
    ThreadPoolFIFO::ThreadPoolFIFO( const int nthreads )
      : boost::threadpool::fifo_pool( nthreads )
    {
-     init_ = false;
+     ThreadPoolResourceManager::insert<boost::threadpool::fifo_pool>( *this, nthreads );
    }
 
    ThreadPoolFIFO::~ThreadPoolFIFO()
@@ -194,11 +189,6 @@ namespace SpatialOps {
    ThreadPoolFIFO::self()
    {
      static ThreadPoolFIFO tp( NTHREADS );
-     ThreadPoolResourceManager& tprm = ThreadPoolResourceManager::self();
-     if( tp.init_ == false ){
-       tprm.insert<boost::threadpool::fifo_pool>( tp, NTHREADS );
-       tp.init_ = true;
-     }
      return tp;
    }
 
diff --git a/spatialops/ThreadPool.h b/spatialops/ThreadPool.h
index c9e29e5..9d19ca3 100644
--- a/spatialops/ThreadPool.h
+++ b/spatialops/ThreadPool.h
@@ -89,9 +89,6 @@ namespace SpatialOps{
      * @return the maximum number of threads in the pool
      */
     static int get_pool_capacity();
-
-  private:
-    bool init_;
   };
 
   /**
@@ -131,9 +128,6 @@ namespace SpatialOps{
     static int get_pool_capacity();
 
     static bool is_thread_parallel();
-
-  private:
-    bool init_;
   };
 } // namespace SpatialOps
 
-- 
2.43.0


From f4bb9a71ca83fe27fc28f9825fca14bcfe7e56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 28/29] fix: a worker made redundant while it waits leaves
 before it starts another task

---
 .../threadpool/threadpool/detail/pool_core.hpp    | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 2e4e471..2153b87 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -405,23 +405,20 @@ namespace boost { namespace threadpool { namespace detail
         pool_type* lockedThis = const_cast<pool_type*>(this);
         recursive_mutex::scoped_lock lock(lockedThis->m_monitor);
 
-        // decrease number of threads if necessary
-        if(staying_workers() > m_target_worker_count)
-        {
-          m_leaving_worker_count++;
-          return false;	// terminate worker
-        }
-
         // wait for tasks
 
-        while(lockedThis->m_scheduler.empty() || (m_active_worker_count > m_target_active_worker_count) )
+        while(true)
         {
-          // decrease number of workers if necessary
+          // decrease number of workers if necessary, before another task is started
           if(staying_workers() > m_target_worker_count)
           {
             m_leaving_worker_count++;
             return false;	// terminate worker
           }
+          else if(!lockedThis->m_scheduler.empty() && !(m_active_worker_count > m_target_active_worker_count))
+          {
+            break;
+          }
           else
           {
             m_active_worker_count--;
-- 
2.43.0


From b0973a8db3faed6a99affe7b90a2ee6a567c9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 29/29] fix: a refused request to share a field must not leave
 it read-only

---
 spatialops/structured/SpatialField.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index b3abd1f..7394be1 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -917,8 +917,6 @@ add_consumer( MemoryType consumerMemoryType,
     return;
   }
 
-  readOnly_ = true;  // once a consumer is added, we only allow read-only access
-
 # ifdef ENABLE_THREADS
   //Make sure adding consumers is per-field atomic
   ExecMutex lock;
@@ -1026,6 +1024,8 @@ add_consumer( MemoryType consumerMemoryType,
     throw(std::runtime_error(msg.str()));
   }
   }
+
+  readOnly_ = true;  // once a consumer is added, we only allow read-only access
 }
 
 //------------------------------------------------------------------
-- 
2.43.0

