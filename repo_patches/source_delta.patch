From 727639f0ae8f189eee5fe1462cb8b232a5c4a7e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:39:46 +0000
Subject: [PATCH 01/50] fix: assigning a grid detaches it from the storage it
 used before

The assignment operator kept the object registered with the data it had
shared before. Resizing another grid that still shared the old data then
overwrote the size information of the assigned grid, or wrote into a
destroyed object.
---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..6979497 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,8 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        // stop following the previous data, it may be shared and outlive this object
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
@@ -401,6 +403,8 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        // stop following the previous data, it may be shared and outlive this object
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
-- 
2.43.0


From e74bdcf12dd2b4309d543e1ceaa868b384f4585c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:40:12 +0000
Subject: [PATCH 02/50] fix: make the lazy grid storage usable

LazyArrayGridStorage did not compile because its allocation policy used
unsigned indices where the storage classes use int. Its assignment operator
also left the size of the allocated buffer behind, so that a later resize
could write past the end of the buffer it had taken over.
---
 src/grid/gridstorage/single-array-allocation.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 6979497..4cea70e 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
@@ -409,6 +409,10 @@ namespace schnek
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From c34dfa063f2aa70600cb66dbe1c3595a06e5338b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:42:26 +0000
Subject: [PATCH 03/50] fix: grids sharing Kokkos storage stay consistent on
 resize and assignment

Resizing one of several grids sharing a view changed the bounds of the others
but left them with the old, differently shaped view. Assigned grids were not
registered for updates at all, and stayed registered with the storage they
used before, and the allocated size could not be queried.
---
 src/grid/gridstorage/kokkos-storage.hpp | 43 ++++++++++++++++++-------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..11e1601 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -84,7 +85,7 @@ namespace schnek {
         /// The dimensions of the grid `dims = high - low + 1`
         IndexType dims;
 
-        Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view;
+        ViewType view;
 
         /// A map of updaters that are called when the grid is resized
         std::shared_ptr<UpdaterMapType> updaters;
@@ -97,6 +98,11 @@ namespace schnek {
          */
         KokkosGridStorage(const KokkosGridStorage &);
 
+        /**
+         * @brief Assignment operator
+         */
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /**
          * @brief Construct with a given size
          * 
@@ -153,7 +159,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return this->view.size(); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
@@ -201,14 +207,15 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType& view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
-        void updateSizeInfo(const RangeType &range) {
+        void updateSizeInfo(const RangeType &range, const ViewType& view) {
             this->range = range;
+            this->view = view;
             for (size_t i = 0; i < rank; ++i)
             {
                 dims[i] = range.getHi(i) - range.getLo(i) + 1;
@@ -229,7 +236,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +245,20 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+    }
+
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        if (this == &other) return *this;
+        updaters->erase(this);
+        range = other.range;
+        dims = other.dims;
+        view = other.view;
+        updaters = other.updaters;
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+        return *this;
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +268,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +278,7 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +313,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From da7fcdda236801577dab0eaaa1ed55f691fd95eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:47:23 +0000
Subject: [PATCH 04/50] fix: sub-grids compile again and keep their extent when
 resized

---
 src/grid/range.hpp   | 4 ++--
 src/grid/subgrid.hpp | 7 ++++---
 src/grid/subgrid.t   | 4 +++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..b6fda0b 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -349,12 +349,12 @@ class Range {
     };
 
     /// Creates an iterator pointing to the beginning of the rectangle
-    iterator begin() {
+    iterator begin() const {
       return iterator(*this, this->getLo());
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-    iterator end() {
+    iterator end() const {
       return iterator(*this, this->getLo(), true);
     }
 };
diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index aad8191..4729d2a 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -41,7 +41,8 @@ class SubGridStorage {
   public:
     typedef Array<int,rank> IndexType;
     typedef BaseGrid BaseGridType;
-    typedef Range<int, rank> DomainType;
+    typedef Range<int, rank> RangeType;
+    typedef RangeType DomainType;
   protected:
     BaseGridType *baseGrid;
     DomainType domain;
@@ -133,8 +134,8 @@ class SubGridStorage {
     storage_iterator begin() { return storage_iterator(domain.begin(), baseGrid); }
     storage_iterator end() { return storage_iterator(domain.end(), baseGrid); }
 
-    const_storage_iterator cbegin() const { return const_storage_iterator(domain.cbegin(), baseGrid); }
-    const_storage_iterator cend() const { return const_storage_iterator(domain.cend(), baseGrid); }
+    const_storage_iterator cbegin() const { return const_storage_iterator(domain.begin(), baseGrid); }
+    const_storage_iterator cend() const { return const_storage_iterator(domain.end(), baseGrid); }
 
     void setBaseGrid(BaseGridType &baseGrid_) { baseGrid = &baseGrid_; }
 
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index c7b2563..a76b7dd 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -33,7 +33,7 @@ template<
   class BaseGrid
 >
 SubGridStorage<T, rank, BaseGrid>::SubGridStorage()
-  : baseGrid(NULL), domain(0,0), dims(0)
+  : baseGrid(NULL), domain(), dims(0)
 {}
 
 template<
@@ -56,6 +56,8 @@ template<
 void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
 {
     domain = DomainType(low_, high_);
+    for (size_t d = 0; d < rank; d++)
+      dims[d] = high_[d] - low_[d] + 1;
 }
 
 template<
-- 
2.43.0


From a06bd2522ef58ff90cd6cdff6399385bca6adc8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:48:07 +0000
Subject: [PATCH 05/50] fix: transformed grids compile again and return the
 transformation's type

---
 src/grid/gridtransform.hpp | 15 ++++++++-------
 src/grid/gridtransform.t   |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/grid/gridtransform.hpp b/src/grid/gridtransform.hpp
index fc50cf1..2612e09 100644
--- a/src/grid/gridtransform.hpp
+++ b/src/grid/gridtransform.hpp
@@ -34,27 +34,28 @@ namespace schnek {
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
 class GridTransformStorage {
   public:
     typedef Array<int,rank> IndexType;
+    typedef Range<int,rank> RangeType;
     typedef BaseGrid BaseGridType;
     typedef Transformation TransformationType;
   protected:
     BaseGridType *baseGrid;
-    Transformation transformation;
+    mutable Transformation transformation;
   public:
 
     class const_storage_iterator {
       protected:
         typedef typename BaseGridType::const_storage_iterator BaseIter;
         BaseIter baseIter;
-        GridTransformStorage &storage;
+        const GridTransformStorage &storage;
 
-        const_storage_iterator(BaseIter baseIter, GridTransformStorage &storage)
+        const_storage_iterator(BaseIter baseIter, const GridTransformStorage &storage)
           : baseIter(baseIter), storage(storage) {}
 
         friend class GridTransformStorage;
@@ -128,7 +129,7 @@ class GridTransformStorage {
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy = GridNoArgCheck
+  template<size_t> class CheckingPolicy = GridNoArgCheck
 >
 class GridTransform
   : public internal::GridBase
@@ -137,7 +138,7 @@ class GridTransform
       BaseGrid::Rank,
       CheckingPolicy<BaseGrid::Rank>,
       GridTransformStorage<
-        typename BaseGrid::value_type,
+        typename Transformation::value_type,
         BaseGrid::Rank,
         BaseGrid,
         Transformation
@@ -151,7 +152,7 @@ class GridTransform
           BaseGrid::Rank,
           CheckingPolicy<BaseGrid::Rank>,
           GridTransformStorage<
-            typename BaseGrid::value_type,
+            typename Transformation::value_type,
             BaseGrid::Rank,
             BaseGrid,
             Transformation
diff --git a/src/grid/gridtransform.t b/src/grid/gridtransform.t
index d644fed..696e500 100644
--- a/src/grid/gridtransform.t
+++ b/src/grid/gridtransform.t
@@ -29,7 +29,7 @@ namespace schnek
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
@@ -40,7 +40,7 @@ GridTransformStorage<T, rank, BaseGrid, Transformation>::GridTransformStorage()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
   : ParentType()
@@ -49,7 +49,7 @@ GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform(BaseGridType &baseGrid_)
   : ParentType()
-- 
2.43.0


From b936dc507f50f09794fafd72f8e9005a756daf3b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:48:07 +0000
Subject: [PATCH 06/50] fix: iterating over an empty range visits no position

---
 src/grid/range.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index b6fda0b..29c492c 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -350,7 +350,10 @@ class Range {
 
     /// Creates an iterator pointing to the beginning of the rectangle
     iterator begin() const {
-      return iterator(*this, this->getLo());
+      bool empty = false;
+      for (size_t i=0; i<rank; ++i)
+        if (hi[i] < lo[i]) empty = true;
+      return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-- 
2.43.0


From f83f24b8c01fc3879f34f2e1b49d8f3fb8f3db8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:48:20 +0000
Subject: [PATCH 07/50] fix: the ghost boundary of a grid can be requested as a
 sub-grid

---
 src/grid/boundary.hpp | 4 ++--
 src/grid/boundary.t   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid/boundary.hpp b/src/grid/boundary.hpp
index 0870125..f58a68b 100644
--- a/src/grid/boundary.hpp
+++ b/src/grid/boundary.hpp
@@ -134,7 +134,7 @@ class Boundary
      * @return A sub-grid containing ghost cells
      */
     template<class GridType>
-    SubGrid<GridType, CheckingPolicy> getGhostBoundary(size_t dim, bound b, GridType &grid);
+    SubGrid<GridType> getGhostBoundary(size_t dim, bound b, GridType &grid);
 
     /** Returns sub-grid containing only the boundary domain.
      * The bounadry domain has a thickness determined by the number of ghost cells.
@@ -150,7 +150,7 @@ class Boundary
       template<size_t> class CheckingPolicy2,
       template<typename, size_t> class StoragePolicy
     >
-    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy>, CheckingPolicy>
+    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
       getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field);
 };
 
diff --git a/src/grid/boundary.t b/src/grid/boundary.t
index 96bd12c..3d7ba43 100644
--- a/src/grid/boundary.t
+++ b/src/grid/boundary.t
@@ -141,10 +141,10 @@ template<
   template<size_t> class CheckingPolicy
 >
 template<class GridType>
-SubGrid<GridType, CheckingPolicy> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
+SubGrid<GridType> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
 {
         DomainType bounds = getGhostDomain(dim, b);
-        return SubGrid<GridType, CheckingPolicy>(bounds.getLo(), bounds.getHi(), grid);
+        return SubGrid<GridType>(bounds.getLo(), bounds.getHi(), grid);
 }
 
 template<
@@ -156,11 +156,11 @@ template<
   template<size_t> class CheckingPolicy2,
   template<typename, size_t> class StoragePolicy
 >
-SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>
+SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >
   Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field)
 {
         DomainType bounds = getBoundaryDomain(dim, b, field.getStagger()[dim]);
-        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>(bounds.getLo(), bounds.getHi(), field);
+        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >(bounds.getLo(), bounds.getHi(), field);
 }
 
 } // namespace schnek
-- 
2.43.0


From 41fd513f5ff606a2abffa203fc99ccd863eac8d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:51:05 +0000
Subject: [PATCH 08/50] fix: array expressions can be negated and used as grid
 index

---
 src/grid/arrayexpression.hpp | 8 +++-----
 src/grid/grid.hpp            | 4 ++--
 src/grid/grid.t              | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index 819b1aa..6ea1fcd 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -443,14 +443,12 @@ SCHNEK_INLINE operator symbol (
 #define UNARY_EXPR(op, symbol)                                                  \
 template<                                                                       \
   class exp,                                                                    \
-  class T,                                                                      \
-  size_t length,                                                                   \
-  template<size_t> class CheckingPolicy                                            \
+  size_t length                                                                 \
 >                                                                               \
 ArrayExpression<                                                                \
   ArrayUnaryOp<                                                                 \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -460,7 +458,7 @@ SCHNEK_INLINE operator symbol (
 {                                                                               \
   typedef ArrayUnaryOp<                                                         \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A));               \
diff --git a/src/grid/grid.hpp b/src/grid/grid.hpp
index 27f153e..bbb9d67 100644
--- a/src/grid/grid.hpp
+++ b/src/grid/grid.hpp
@@ -96,10 +96,10 @@ namespace schnek {
         SCHNEK_INLINE T  operator[](const Array<int,rank,ArrayCheckingPolicy>& pos) const; // read
 
         /** index operator, writing */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T& operator[](const ArrayExpression<Operator, Length>& pos); // write
         /** index operator, reading */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T  operator[](const ArrayExpression<Operator, Length>& pos) const; // read
 
         /** index operator, for 1D grids, writing */
diff --git a/src/grid/grid.t b/src/grid/grid.t
index 3618f59..91edafd 100644
--- a/src/grid/grid.t
+++ b/src/grid/grid.t
@@ -118,7 +118,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T& GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos)
 {
@@ -131,7 +131,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos) const
 {
-- 
2.43.0


From 724b6847c3ecdef79da5e1d875dd2df130e67363 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:55:54 +0000
Subject: [PATCH 09/50] fix: the inner range of a field can be requested

---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From 640c1d6a35dc58f9db9705554c214a57d84d46b0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 02:57:29 +0000
Subject: [PATCH 10/50] fix: every field filler fills its own fields

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From dc544f8b8d623114b97bd1ebb0299184a24701ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:17:33 +0000
Subject: [PATCH 11/50] fix: equalFactors considers all dimensions for the
 first prime factor

---
 src/util/factor.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/util/factor.cpp b/src/util/factor.cpp
index f5ab30e..d7d8e66 100644
--- a/src/util/factor.cpp
+++ b/src/util/factor.cpp
@@ -61,18 +61,11 @@ void schnek::equalFactors
 
   factors.resize(nfact);
 
-  // this happens only on single processor runs
-  if (allfact.empty())
-  {
-    for (int i=0; i<nfact; ++i) factors[i] = 1;
-    return;
-  }
+  for (int i=0; i<nfact; ++i) factors[i] = 1;
 
-  factors[0] = allfact.front();
-  for (int i=1; i<nfact; ++i) factors[i] = 1;
-
-  allfact.pop_front();
+  // this happens only on single processor runs
   if (allfact.empty()) return;
+
   distribute(factors, allfact, weights);
 }
 
-- 
2.43.0


From 7ad0b4cbaff4052f732c4fdb260992e9ad493c38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:17:33 +0000
Subject: [PATCH 12/50] fix: MPI subdivision honours the lower bound of the
 global domain and leaves no process without cells

---
 src/grid/domainsubdivision.hpp |  4 ++--
 src/grid/mpisubdivision.t      | 17 ++++-------------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..bbeb2c7 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -76,7 +76,7 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
 
   for (size_t i=0; i<Rank; ++i)
   {
-    box[i] = High[i]-Low[i];
+    box[i] = High[i]-Low[i]+1;
     periodic[i] = true;
   }
 
@@ -94,7 +94,6 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
   errorCode = MPI_Cart_coords(comm,ComRank,Rank,mycoord);
   SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not determine MPI Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-  double width[Rank];
   int exchangeSizeProduct = delta;
 
   //std::cout << "Calculating exchange size product: " << exchangeSizeProduct << std::endl;
@@ -104,17 +103,9 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
-
-    if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
-    else
-      Low[i] = -delta;
-
-    if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
-    else
-      High[i] = High[i]+delta;
+    // split the global range evenly, each process gets at least one cell if possible
+    Low[i] = lo[i] + int(long(box[i])*mycoord[i]/dims[i]) - delta;
+    High[i] = lo[i] + int(long(box[i])*(mycoord[i]+1)/dims[i]) - 1 + delta;
 
     exchangeSizeProduct *= (High[i]-Low[i]+1);
   }
-- 
2.43.0


From 782cb53a8792e7e4a22ccf53d129bb2addfcaa5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:17:33 +0000
Subject: [PATCH 13/50] fix: data exchanged with the serial subdivision is
 independent of the send buffer

---
 src/grid/domainsubdivision.t | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..5d6a31f 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -113,7 +113,10 @@ void SerialSubdivision<GridType>::accumulate(GridType &grid, size_t dim)
 template<class GridType>
 void SerialSubdivision<GridType>::exchangeData(size_t, int, BufferType &in, BufferType &out)
 {
-  out = in;
+  // the received data must not share the storage of the send buffer
+  BufferType data(in.getLo(), in.getHi());
+  for (int i=in.getLo(0); i<=in.getHi(0); ++i) data(i) = in(i);
+  out = data;
 }
 
 } // namespace schnek
-- 
2.43.0


From 06304393db4a2098c40ba4caf7cd93839b81a2a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 14/50] fix: operator chains of mixed types are evaluated from
 left to right

---
 src/parser/parsertoken.t     | 46 +++++++++++++++++++++++++++++++++++-
 src/variables/expression.hpp | 23 ++++++++++++++++++
 2 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/parser/parsertoken.t b/src/parser/parsertoken.t
index 43a07b9..6a68a6c 100644
--- a/src/parser/parsertoken.t
+++ b/src/parser/parsertoken.t
@@ -179,6 +179,48 @@ struct BinaryOperatorVisitor : public boost::static_visitor<ExpressionVariant>
     }
 };
 
+/** Cast the right hand side of a binary operator to the type of the left hand side
+ *
+ *  If the right hand side is a chain of operators of the same precedence, the cast is applied to the
+ *  operands of the chain. Otherwise the chain would be evaluated before the operator on the left hand side.
+ */
+template<class oper, class orig_oper, class vtype, class vtype_orig, class Typecast>
+std::shared_ptr<Expression<vtype> > castRightOperand(std::shared_ptr<Expression<vtype_orig> > e)
+{
+  typedef BinaryOp<orig_oper, vtype_orig> Chain;
+  typedef BinaryOp<typename orig_oper::Inverted, vtype_orig> InvChain;
+
+  if (std::shared_ptr<Chain> chain = std::dynamic_pointer_cast<Chain>(e))
+    return chain->template castOperands<oper, vtype, Typecast>();
+  if (std::shared_ptr<InvChain> chain = std::dynamic_pointer_cast<InvChain>(e))
+    return chain->template castOperands<oper, vtype, Typecast>();
+  return std::make_shared<Typecast>(e);
+}
+
+/** Promotes the right hand side of a binary operator if it is less general than the left hand side
+ */
+template<template<class> class op>
+struct RightOperandPromoter : public boost::static_visitor<ExpressionVariant>
+{
+    template<class ExpressionPointer1, class ExpressionPointer2>
+    ExpressionVariant operator()(ExpressionPointer1, ExpressionPointer2 e2) { return e2; }
+
+    ExpressionVariant operator()(pFloatExpression, pIntExpression e2)
+    {
+        return castRightOperand<op<double>, op<int>, double, int, TypecastOp<double,int> >(e2);
+    }
+
+    ExpressionVariant operator()(pStringExpression, pIntExpression e2)
+    {
+        return castRightOperand<op<std::string>, op<int>, std::string, int, TypecastOp<std::string,int,LexicalCast> >(e2);
+    }
+
+    ExpressionVariant operator()(pStringExpression, pFloatExpression e2)
+    {
+        return castRightOperand<op<std::string>, op<double>, std::string, double, TypecastOp<std::string,double,LexicalCast> >(e2);
+    }
+};
+
 template<template<class> class OpType>
 void ParserToken::assignUnaryOperator(ParserToken &parTok)
 {
@@ -196,8 +238,10 @@ void ParserToken::assignBinaryOperator(ParserToken &parTok1, ParserToken &parTok
   context = parTok1.context;
   atomTok = parTok1.atomTok;
   type = expression;
+  RightOperandPromoter<OpType> rprom;
+  ExpressionVariant rightOperand = boost::apply_visitor(rprom, parTok1.data, parTok2.data);
   TypePromoter tprom;
-  boost::apply_visitor(tprom, parTok1.data, parTok2.data);
+  boost::apply_visitor(tprom, parTok1.data, rightOperand);
 
   BinaryOperatorVisitor<OpType> visit(tprom.getResultB());
   data = boost::apply_visitor(visit, tprom.getResultA());
diff --git a/src/variables/expression.hpp b/src/variables/expression.hpp
index 282aa37..cfb1840 100644
--- a/src/variables/expression.hpp
+++ b/src/variables/expression.hpp
@@ -258,8 +258,14 @@ class BinaryOp : public Expression<vtype>
     typedef std::shared_ptr<InvType> pInvType;
     friend class BinaryOp<typename oper::Inverted, vtype>;
 
+    template<class otherOper, class otherType>
+    friend class BinaryOp;
+
     /// pointers to the expressions to modify
     std::list<ExpressionInfo<vtype> > expressions;
+
+    /// Used by castOperands
+    BinaryOp() {}
   public:
     BinaryOp(pExpression expr1_, pExpression expr2_)
     {
@@ -310,6 +316,23 @@ class BinaryOp : public Expression<vtype>
       }
     }
 
+    /** Creates a copy of the chain of operations in which every operand has been cast to the
+     *  type of another operator
+     *
+     *  The chain can then be joined with operands of that type and is still evaluated from left to right.
+     */
+    template<class castOper, class ctype, class Typecast>
+    std::shared_ptr<BinaryOp<castOper, ctype> > castOperands() const
+    {
+      std::shared_ptr<BinaryOp<castOper, ctype> > result(new BinaryOp<castOper, ctype>());
+      for(const ExpressionInfo<vtype> &exp: expressions)
+      {
+        typename Expression<ctype>::pExpression cast = std::make_shared<Typecast>(exp.expression);
+        result->expressions.push_back(ExpressionInfo<ctype>(exp.positive, cast));
+      }
+      return result;
+    }
+
     /// Return the calculated value
     vtype eval() {
       typedef typename oper::Positive opPositive;
-- 
2.43.0


From cecc0a7ea627d038b19b601bc263aed2d9813537 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 15/50] fix: integer division by zero in an input deck throws
 an EvaluationException

---
 src/variables/operators.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 0557af6..2f9d1b8 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -211,6 +211,15 @@ namespace expression {
   }
 
 
+  /// Integer division by zero is undefined, so it is reported
+  template<>
+  inline int OperatorDivide<int>::eval(int val1, int val2)
+  {
+      SCHNEK_TRACE_LOG(5, "OperatorDivide<int>::eval(" << val1 << ", " << val2 << ")")
+      if (val2 == 0) throw EvaluationException("Integer division by zero");
+      return val1 / val2;
+  }
+
   template<>
   inline std::string OperatorNeg<std::string>::eval(std::string) { return ""; }
 
-- 
2.43.0


From 5aa3fd39fd29c1c0a6a2e5d0e8aa981586ee3984 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 16/50] fix: deck scanner accepts tokens of any length and
 reports invalid input

---
 parser/deckscanner.rl               | 35 ++++++++++++++++++-----------
 src/parser/internal/deckscanner.cpp | 35 ++++++++++++++++++-----------
 src/parser/tokenlist.hpp            |  6 +++++
 3 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..5bba6a3 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,9 +7,11 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -103,7 +105,8 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
+  char *buf = &buffer[0];
   int cs; 
   int act; 
   int have = 0;
@@ -115,16 +118,19 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write init;
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
-      /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+    if ( have == (int)buffer.size() ) {
+      /* The entire buffer is used for storing an already-parsed token
+       * prefix that must be preserved. Make room for more input. */
+      std::ptrdiff_t ts_offset = ts - buf, te_offset = te - buf;
+      buffer.resize(2*buffer.size());
+      buf = &buffer[0];
+      ts = buf + ts_offset;
+      te = buf + te_offset;
     }
 
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = buffer.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
@@ -132,16 +138,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* terminate the last line, so that it may end in a comment */
+      *(pe++) = '\n';
       eof = pe;
       done = 1;
     }
             
     %% write exec;
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
-    }
+    if ( cs == deck_error )
+      throw ParserError("Unexpected character", tlist.makeToken(cur_line));
+
+    if ( done && cs != deck_en_main )
+      throw ParserError("Unterminated string or comment at end of file", tlist.makeToken(cur_line-1));
 
     if ( ts == 0 )
       have = 0;
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..ccdf49d 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,9 +9,11 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -216,7 +218,8 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
+  char *buf = &buffer[0];
   int cs; 
   int act; 
   int have = 0;
@@ -237,16 +240,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
-      /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+    if ( have == (int)buffer.size() ) {
+      /* The entire buffer is used for storing an already-parsed token
+       * prefix that must be preserved. Make room for more input. */
+      std::ptrdiff_t ts_offset = ts - buf, te_offset = te - buf;
+      buffer.resize(2*buffer.size());
+      buf = &buffer[0];
+      ts = buf + ts_offset;
+      te = buf + te_offset;
     }
 
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = buffer.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
@@ -254,6 +260,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* terminate the last line, so that it may end in a comment */
+      *(pe++) = '\n';
       eof = pe;
       done = 1;
     }
@@ -547,10 +555,11 @@ _again:
 
 
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
-    }
+    if ( cs == deck_error )
+      throw ParserError("Unexpected character", tlist.makeToken(cur_line));
+
+    if ( done && cs != deck_en_main )
+      throw ParserError("Unterminated string or comment at end of file", tlist.makeToken(cur_line-1));
 
     if ( ts == 0 )
       have = 0;
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..a25f41a 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -152,6 +152,12 @@ class TokenList
       tlist.push_back(Token(filename, line, token, std::string(str,len)));
     }
 
+    /// Create a token for a location in the file that does not correspond to any valid token
+    Token makeToken(int line) const
+    {
+      return Token(filename, line, 0);
+    }
+
     /* Insert another list of tokens in front of the current one.
      *
      * This is used when encountering include statements
-- 
2.43.0


From a769f3843b3aeef7d74eabf457083434ef5b4b24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 17/50] fix: parser stack grows with the length of expressions

---
 parser/deckgrammar.y       | 4 ++++
 parser/lempar.c            | 6 ++++--
 src/parser/deckgrammar.inc | 9 ++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index b5bad7b..f3ca53d 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -4,12 +4,16 @@
 
 %token_type {ParserToken}
 
+// The parser stack grows as needed
+%stack_size 0
+
 %left PLUS MINUS.
 %left DIVIDE TIMES.
 %left EXPONENT.
 
 %include {
   #include <iostream>
+#include <algorithm>
 #include "parsertoken.hpp"
 #include "../variables/operators.hpp"
 }
diff --git a/parser/lempar.c b/parser/lempar.c
index 66776e0..06c03a1 100644
--- a/parser/lempar.c
+++ b/parser/lempar.c
@@ -240,8 +240,10 @@ static void yyGrowStack(yyParser *p){
   yyStackEntry *pNew;
 
   newSize = p->yystksz*2 + 100;
-  pNew = realloc(p->yystack, newSize*sizeof(pNew[0]));
+  pNew = new yyStackEntry[newSize];
   if( pNew ){
+    std::copy(p->yystack, p->yystack + p->yystksz, pNew);
+    delete[] p->yystack;
     p->yystack = pNew;
     p->yystksz = newSize;
 #ifndef NDEBUG
@@ -354,7 +356,7 @@ void ParseFree(
   if( pParser==0 ) return;
   while( pParser->yyidx>=0 ) yy_pop_parser_stack(pParser);
 #if YYSTACKDEPTH<=0
-  free(pParser->yystack);
+  delete[] pParser->yystack;
 #endif
   delete pParser;
 }
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index cd5d02f..c70c416 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -7,6 +7,7 @@
 #line 11 "deckgrammar.y"
 
   #include <iostream>
+#include <algorithm>
 #include "parsertoken.hpp"
 #include "../variables/operators.hpp"
 #line 13 "deckgrammar.c"
@@ -72,7 +73,7 @@ struct YYMINORTYPE {
   int yy81;
 };
 #ifndef YYSTACKDEPTH
-#define YYSTACKDEPTH 100
+#define YYSTACKDEPTH 0
 #endif
 #define ParseARG_SDECL
 #define ParseARG_PDECL
@@ -382,8 +383,10 @@ static void yyGrowStack(yyParser *p){
   yyStackEntry *pNew;
 
   newSize = p->yystksz*2 + 100;
-  pNew = realloc(p->yystack, newSize*sizeof(pNew[0]));
+  pNew = new yyStackEntry[newSize];
   if( pNew ){
+    std::copy(p->yystack, p->yystack + p->yystksz, pNew);
+    delete[] p->yystack;
     p->yystack = pNew;
     p->yystksz = newSize;
 #ifndef NDEBUG
@@ -495,7 +498,7 @@ void ParseFree(
   if( pParser==0 ) return;
   while( pParser->yyidx>=0 ) yy_pop_parser_stack(pParser);
 #if YYSTACKDEPTH<=0
-  free(pParser->yystack);
+  delete[] pParser->yystack;
 #endif
   delete pParser;
 }
-- 
2.43.0


From f9d5e67f6b8e57b15d9f1cdf0868112272de5108 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:05 +0000
Subject: [PATCH 18/50] fix: premature end of file, unclosed blocks and bad
 literals are reported as ParserError

---
 src/parser/parser.cpp      | 15 ++++++++++++++-
 src/parser/parsertoken.cpp | 22 ++++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..fa64a0c 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -80,6 +80,9 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     context.blockTree->moveDown();
   }
 
+  pBlockVariables startBlock = variables.getCurrentBlock();
+  Token endOfFile = tokens.makeToken(1);
+
   for(Token tok: tokens)
   {
     try{
@@ -88,9 +91,19 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     catch (ParserInternalError & e) {
       throw ParserError("Syntax Error", tok);
     }
+    endOfFile = tok;
+  }
+
+  try
+  {
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    throw ParserError("Syntax Error: Unexpected end of file", endOfFile);
   }
 
-  Parse(pParser, 0, ParserToken());
+  if (variables.getCurrentBlock() != startBlock)
+    throw ParserError("Missing } at end of file", endOfFile);
 
   ParseFree(pParser);
 
diff --git a/src/parser/parsertoken.cpp b/src/parser/parsertoken.cpp
index 14db956..791f182 100644
--- a/src/parser/parsertoken.cpp
+++ b/src/parser/parsertoken.cpp
@@ -96,8 +96,15 @@ void ParserToken::assignInteger(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != INTEGER) throw ParserError("Can't convert non-integer atom to integer", atomTok);
 
-  pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
-  data = pI;
+  try
+  {
+    pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
+    data = pI;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Integer literal '"+atomTok.getString()+"' is out of range", atomTok);
+  }
   type = int_type;
   // std::cerr << "Read Integer " << atomTok.getString() << "\n";
 }
@@ -110,8 +117,15 @@ void ParserToken::assignFloat(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != FLOAT) throw ParserError("Can't convert non-float atom to float", atomTok);
 
-  pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
-  data = pF;
+  try
+  {
+    pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
+    data = pF;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Floating point literal '"+atomTok.getString()+"' is out of range", atomTok);
+  }
   type = float_type;
   // std::cerr << "Read Float " << atomTok.getString() << "\n";
 }
-- 
2.43.0


From ab06672467a8f892c458a27f9636c67a063d44e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 19/50] fix: circular definitions throw, constants stay out of
 the dependency map and recreate works

---
 src/variables/dependencies.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..96f18d6 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -52,11 +52,6 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   pVariable tmp(new Variable(pexp, true, true));
   dummyVar = tmp;
 
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
   blockVars = vars;
   constructMap(vars);
 }
@@ -92,6 +87,9 @@ void DependencyMap::constructMap(const pBlockVariables vars)
 {
   SCHNEK_TRACE_ENTER_FUNCTION(3);
 
+  // start from a map that only contains the dummy variable
+  dependencies.clear();
+  dependencies[dummyVar->getId()] = VarInfo(dummyVar, DependencySet(), DependencySet());
 
   constructMapRecursive(vars);
 
@@ -136,6 +134,8 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
   for(pVariable v: dependentVars)
   {
     long id=v->getId();
+    // constants are not part of the dependency map and never need to be evaluated
+    if (dependencies.count(id) == 0) continue;
     VarInfo *vi = &(dependencies[id]);
     workingSet.push_back(vi);
     predecessors[id] = vi;
@@ -159,7 +159,7 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
         for(pVariable indVar: independentVars)
         {
           long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
+          if (predecessors.count(indId) == 0 && dependencies.count(indId) > 0)
           {
             // if not, put predecessors in the working set and in the map
             VarInfo *pred = &(dependencies[indId]);
@@ -168,7 +168,7 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
           }
         }
       }
-      else
+      else if (dependencies.count(id) > 0)
       {
         // if not, put predecessors in the working set and in the map
         VarInfo *pred = &(dependencies[id]);
@@ -259,7 +259,7 @@ void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
       else ++it;
     }
 
-    assert(nextEval != 0);
+    if (nextEval == 0) throw EvaluationException("Circular dependency between variables");
 
     workingSet.erase(it);
     updateList.push_back(nextEval->v);
-- 
2.43.0


From 878084a51ab22a9ce0199f9ce463ff53e5f4bfcd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 20/50] fix: BlockVariables::exists finds the same variables as
 getVariable

---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From ecf633eae6a6b546d7ff0d72b2de93f2717eb915 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:59:06 +0000
Subject: [PATCH 21/50] fix: ParametersGroup::hasElements only removes the
 members of the group

---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..3d8aaa9 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for(long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From 19e1a78d6076851f92be96a5dd2bbab9e93a4c48 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:59:06 +0000
Subject: [PATCH 22/50] fix: Block::initAll terminates when called below the
 first level of the hierarchy

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..638ff97 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = b->parent.get();
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From fdb71ccb7b4433d8c822a928d2c6228f586c1183 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:49:25 +0000
Subject: [PATCH 23/50] fix: appending diagnostics open their file exactly once

The file was opened whenever the time was zero. A diagnostic first executed at a later
time wrote into a file that was never opened, and executing twice at time zero (as in
example_diagnostic_simple) opened it again, which makes an output stream fail. The
process number in the file name was not replaced.
---
 src/diagnostic/diagnostic.cpp | 18 ++++++++++++------
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..48bdf0d 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -34,7 +34,7 @@
 using namespace schnek;
 
 DiagnosticInterface::DiagnosticInterface() :
-  fname(""), append(false)
+  fname(""), append(false), appendOpen(false)
 {
 }
 
@@ -51,6 +51,13 @@ bool DiagnosticInterface::appending()
   return bool(append);
 }
 
+void DiagnosticInterface::openAppend(const std::string &name)
+{
+  if (appendOpen) return;
+  open(name);
+  appendOpen = true;
+}
+
 std::string DiagnosticInterface::parsedFileName(int rank, int timeCounter)
 {
 
@@ -104,10 +111,10 @@ void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0 == timeCounter) && appending()) open(fname);
   if ((timeCounter < 0) || ((timeCounter % interval) == 0))
   {
-    if (!appending()) open(parsedFileName(rank, timeCounter));
+    if (appending()) openAppend(parsedFileName(rank, timeCounter));
+    else open(parsedFileName(rank, timeCounter));
     write();
     if (!appending()) close();
   }
@@ -133,11 +140,10 @@ void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0.0 == physicalTime) && appending()) open(fname);
-
   if (physicalTime >= nextOutput)
   {
-    if (!appending()) open(parsedFileName(rank, count));
+    if (appending()) openAppend(parsedFileName(rank, count));
+    else open(parsedFileName(rank, count));
     write();
     if (!appending()) close();
     nextOutput += deltaTime;
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..e869426 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -51,6 +51,8 @@ class DiagnosticInterface : public Block
     std::string fname;
     /// Append data at every write to the same file?
     int append;
+    /// Has the file been opened to which data is appended?
+    bool appendOpen;
   public:
     /// Default constructor
     DiagnosticInterface();
@@ -68,6 +70,8 @@ class DiagnosticInterface : public Block
     void initParameters(BlockParameters&);
 
     bool appending();
+    /// Open the file to which data is appended, if it has not been opened before
+    void openAppend(const std::string &);
     std::string parsedFileName(int rank, int timeCounter);
     std::string parsedFileName(int rank, double physicalTime);
 };
-- 
2.43.0


From f6deb3aaa1c66f04adedf012c16337320037ce4b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:49:25 +0000
Subject: [PATCH 24/50] fix: DiagnosticManager reports a missing time counter
 or physical time

Only one of the two was checked, but both kinds of diagnostics are executed, so the
other one was dereferenced as a null pointer.
---
 src/diagnostic/diagnostic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 48bdf0d..de2b62c 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -211,7 +211,7 @@ void DiagnosticManager::execute()
   SCHNEK_TRACE_LOG(2, "DiagnosticManager::execute " << rank << " "
                    << usePhysicalTime?boost::lexical_cast<std::string>(*physicalTime):boost::lexical_cast<std::string>(*timecounter));
 
-  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
+  if ((!timecounter && !physicalTime) || (!timecounter && !intervalDiags.empty()) || (!physicalTime && !deltaTimeDiags.empty()))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
   for(IntervalDiagnostic *diag: intervalDiags)
@@ -230,6 +230,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!physicalTime && !deltaTimeDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From 13d6f518c490acf86080416b7f31fb80621daa20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:49:25 +0000
Subject: [PATCH 25/50] fix: destroyed diagnostics are removed from the
 DiagnosticManager

The manager kept pointers to diagnostics of simulations that no longer exist and
executed them.
---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index de2b62c..0d4924e 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -106,6 +106,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -135,6 +140,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -205,6 +215,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index e869426..216d36a 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -83,6 +83,7 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -98,6 +99,7 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -126,6 +128,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From 9ff266c24af0e562499097adf5fac4bcd32deae1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 26/50] fix: block hierarchies are destroyed when they are no
 longer used

Parents and children held shared pointers to each other, so that no block with children
was ever destroyed. Files to which diagnostics append were never completed: the output of
example_diagnostic_simple is an empty file.
---
 src/variables/block.cpp |  2 +-
 src/variables/block.hpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index 638ff97..6be8397 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = b->parent.get();
+  while (pBlock par = b->getParent()) b = par.get();
 
   b->evaluateParameters();
   b->registerHierarchy();
diff --git a/src/variables/block.hpp b/src/variables/block.hpp
index d61137b..5c0b0ee 100644
--- a/src/variables/block.hpp
+++ b/src/variables/block.hpp
@@ -66,7 +66,8 @@ class Block : public Unique<Block>
 {
   private:
     BlockParameters blockParameters;
-    pBlock parent;
+    /// The parent owns its children, so it is referenced weakly
+    std::weak_ptr<Block> parent;
     BlockList children;
     std::string name;
 
@@ -113,7 +114,7 @@ class Block : public Unique<Block>
     void addChild(pBlock child);
     void evaluateParameters();
 
-    pBlock getParent() { return parent; }
+    pBlock getParent() { return parent.lock(); }
 
     template<typename T>
     void addData(std::string key, T &data);
@@ -156,8 +157,11 @@ bool Block::getData(std::string key, T* &data, bool upward)
     else if (count==1) return true;
   }
 
-  if (upward && parent)
-    return parent->getData(key, data, true);
+  if (upward)
+  {
+    pBlock par = getParent();
+    if (par) return par->getData(key, data, true);
+  }
 
   int count = 0;
   for(pBlock child: children)
-- 
2.43.0


From 7d6adf3467b7486a8b61a7969e8dd1b18fc3f3ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 27/50] fix: define the default constructor of HDFGridReader

---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..b379fb1 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -296,7 +296,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From 8416031ce22b5698fe4a4c16bf0b2a20416d14ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 28/50] fix: all processes take part in writing HDF5 attributes

---
 src/diagnostic/hdfdiagnostic.t | 39 ++++++++++++++--------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..689a39d 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -292,34 +292,27 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 #endif
 
-  /* now write the attributes */
+  /* now write the attributes, this is a collective operation */
 
-  int mpi_rank = 0;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-#endif
+  /* Create the data space for the attribute. */
+  typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
+  for(attPair p: attributes->attributes) {
+    HdfAttributes::Info &info = *(p.second);
 
-  if (mpi_rank==0) {
-    /* Create the data space for the attribute. */
-    typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
-    for(attPair p: attributes->attributes) {
-      HdfAttributes::Info &info = *(p.second);
+    const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
+    /* Create a dataset attribute. */
+    const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
+                                           H5P_DEFAULT, H5P_DEFAULT);
 
-      const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
-      /* Create a dataset attribute. */
-      const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
-                                             H5P_DEFAULT, H5P_DEFAULT);
+    /* Write the attribute data. */
+    ret = H5Awrite(attribute_id, info.type, info.buffer);
+    assert(ret != -1);
 
-      /* Write the attribute data. */
-      ret = H5Awrite(attribute_id, info.type, info.buffer);
-      assert(ret != -1);
+    /* Close the attribute. */
+    H5Aclose(attribute_id);
 
-      /* Close the attribute. */
-      H5Aclose(attribute_id);
-
-      /* Close the dataspace. */
-      H5Sclose(dataspace_id);
-    }
+    /* Close the dataspace. */
+    H5Sclose(dataspace_id);
   }
 
   /* close dataset collectively */
-- 
2.43.0


From 5c1d785d1f44a57d501a57e58ae1591a5ae81208 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 29/50] fix: HdfOStream closes the previous file and releases
 the file access properties

---
 src/diagnostic/hdfdiagnostic.cpp | 48 +++++++++++++++++---------------
 src/diagnostic/hdfdiagnostic.hpp |  4 ---
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..b9789a7 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
@@ -282,39 +283,42 @@ int HdfOStream::open(const char* fname) {
     int rank;
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
-    if (!initialised) {
-      /* setup file access template */
+    /* setup file access template */
 
-      plist_id = H5Pcreate(H5P_FILE_ACCESS);
+    hid_t plist_id = H5Pcreate(H5P_FILE_ACCESS);
 
-      H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
-      H5Pset_alignment(plist_id, align_threshold, alignment);
+    H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
+    H5Pset_alignment(plist_id, align_threshold, alignment);
 
-      MPI_Info_create(&mpi_info);
+    MPI_Info mpi_info;
+    MPI_Info_create(&mpi_info);
 
-      // MPI
-      const char access_style[]         = "access_style";
-      const char write_once[]           = "write_once";
-      const char collective_buffering[] = "collective_buffering";
-      const char strue[]                = "true";
-      const char cb_block_size[]        = "cb_block_size";
-      const char n1048576[]             = "1048576";
-      const char cb_buffer_size[]       = "cb_buffer_size";
-      const char n4194304[]             = "4194304";
+    // MPI
+    const char access_style[]         = "access_style";
+    const char write_once[]           = "write_once";
+    const char collective_buffering[] = "collective_buffering";
+    const char strue[]                = "true";
+    const char cb_block_size[]        = "cb_block_size";
+    const char n1048576[]             = "1048576";
+    const char cb_buffer_size[]       = "cb_buffer_size";
+    const char n4194304[]             = "4194304";
 
-      MPI_Info_set(mpi_info, access_style, write_once);
-      MPI_Info_set(mpi_info, collective_buffering, strue);
-      MPI_Info_set(mpi_info, cb_block_size, n1048576);
-      MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
+    MPI_Info_set(mpi_info, access_style, write_once);
+    MPI_Info_set(mpi_info, collective_buffering, strue);
+    MPI_Info_set(mpi_info, cb_block_size, n1048576);
+    MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
 
-      /* set Parallel access with communicator */
-      H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
-    }
+    /* set Parallel access with communicator */
+    H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
 
     /* open the file collectively */
     //H5Pset_fapl_mpiposix(plist_id, mpiComm, 0);
     file_id = H5Fcreate (fname, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
 
+    /* Release file-access template */
+    MPI_Info_free(&mpi_info);
+    H5Pclose(plist_id);
+
     if (!initialised) {
       dxpl_id = H5Pcreate(H5P_DATASET_XFER);
       SCHNEK_TRACE_LOG(3,"Data Transfer Property List Id (0) " << dxpl_id)
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index b379fb1..d811497 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -205,10 +205,6 @@ class HdfIStream : public HdfStream {
 class HdfOStream : public HdfStream {
   private:
     hid_t dxpl_id;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    MPI_Info mpi_info;
-#endif
-    hid_t plist_id;
     bool initialised;
   public:
     /// constructor
-- 
2.43.0


From b86dc281ef026ea66432b8b9adc68d99961c8011 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 30/50] fix: HdfStream keeps the communicator of the active
 processes

---
 src/diagnostic/hdfdiagnostic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index b9789a7..21f79c5 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -170,7 +170,11 @@ void HdfStream::makeMPIGroup()
   delete[] activeArr;
   delete[] inputArr;
 
+  MPI_Group_free(&activeGroup);
+  MPI_Group_free(&worldGroup);
+
   activeModified = false;
+  commSet = true;
 }
 #endif
 
-- 
2.43.0


From 0891b5a7bb2694de1509daa9d9f0f8b25a6d21fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:38:58 +0000
Subject: [PATCH 31/50] fix: inactive processes do not read from a HdfIStream

---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 689a39d..e78e489 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From e18df9513a488a5bdeebc4feda620e20e8c4be58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:39:28 +0000
Subject: [PATCH 32/50] fix: HDFGridDiagnostic can append more than one data
 set to a file

---
 src/diagnostic/hdfdiagnostic.hpp | 2 ++
 src/diagnostic/hdfdiagnostic.t   | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index d811497..0ab2c62 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -233,6 +233,8 @@ class HDFGridDiagnostic : public SimpleDiagnostic<Type, Type, DiagnosticType> {
   protected:
     HdfOStream output;
     GridContainer<Type> container;
+    /// The name of the data sets written to the current file
+    std::string blockName;
   protected:
     /// Open the output file
     void open(const std::string &);
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index e78e489..fda8607 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -385,12 +385,19 @@ template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::open(const std::string &fname)
 {
   output.open(fname.c_str());
+  blockName.clear();
 }
 
 template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::write()
 {
-  output.setBlockName(this->getDatasetName());
+  // setting the name restarts the numbering of the data sets in the file
+  std::string datasetName = this->getDatasetName();
+  if (datasetName != blockName)
+  {
+    output.setBlockName(datasetName);
+    blockName = datasetName;
+  }
   output.setAttributes(this->getAttributes());
   output.writeGrid(container);
 }
-- 
2.43.0


From e8c20dfea22eeaeb25c83155d0598b397e6b7efd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:39:28 +0000
Subject: [PATCH 33/50] fix: HdfAttributes keeps a copy of attribute values
 passed by reference

---
 src/diagnostic/hdfdiagnostic.hpp | 4 ++++
 src/diagnostic/hdfdiagnostic.t   | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 0ab2c62..ec0db99 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -35,6 +35,7 @@
 #include <hdf5.h>
 
 #include <memory>
+#include <vector>
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
 #include <mpi.h>
@@ -84,6 +85,7 @@ struct HdfAttributes {
       hid_t type;
       hsize_t dims;
       const void *buffer;
+      std::shared_ptr<const void> storage;
     };
     typedef std::shared_ptr<Info> pInfo;
 
@@ -102,6 +104,8 @@ struct HdfAttributes {
     /**
      * Set a value on the dataset's attributes
      *
+     * The value is copied.
+     *
      * @param name   the name of the attribute
      * @param value  the value to be stored
      */
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index fda8607..30f6e4c 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -45,7 +45,9 @@ template<typename T>
 void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   pInfo info(new Info);
   info->type = H5DataType<T>::type;
-  info->buffer = &value;
+  std::shared_ptr<std::vector<T> > copy = std::make_shared<std::vector<T> >(&value, &value + dims);
+  info->buffer = copy->data();
+  info->storage = copy;
   info->dims = dims;
   this->attributes[name] = info;
 }
-- 
2.43.0


From 866ba6dda35245a8198b31bde7ed74d066e1f1ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:45:32 +0000
Subject: [PATCH 34/50] fix: HDF5 output and input of grids that are not stored
 in C order

---
 src/diagnostic/hdfdiagnostic.t | 62 ++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 30f6e4c..318e6e9 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -52,6 +52,61 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   this->attributes[name] = info;
 }
 
+/**
+ * HDF5 expects the data in memory in C order.
+ *
+ * This provides the data of grids that store their data in a different order.
+ */
+template<typename FieldType>
+class HdfOrderedData {
+  private:
+    typedef typename FieldType::IndexType IndexType;
+    typedef typename FieldType::value_type T;
+
+    FieldType &grid;
+    std::vector<T> ordered;
+
+    size_t offset(const IndexType &pos) const {
+      size_t result = 0;
+      for (int i=0; i<int(FieldType::Rank); ++i) {
+        result = result*(grid.getHi()[i] - grid.getLo()[i] + 1) + (pos[i] - grid.getLo()[i]);
+      }
+      return result;
+    }
+
+    bool isOrdered() const {
+      for (int i=0; i<int(FieldType::Rank); ++i) {
+        IndexType pos = grid.getLo();
+        if (pos[i] < grid.getHi()[i]) {
+          ++pos[i];
+          if (&grid.get(pos) != grid.getRawData() + offset(pos)) return false;
+        }
+      }
+      return true;
+    }
+
+  public:
+    HdfOrderedData(FieldType &grid) : grid(grid) {
+      if (isOrdered()) return;
+
+      ordered.resize(grid.getSize());
+      for (const IndexType &pos: Range<int, FieldType::Rank>(grid.getLo(), grid.getHi())) {
+        ordered[offset(pos)] = grid.get(pos);
+      }
+    }
+
+    T *getData() { return ordered.empty() ? grid.getRawData() : ordered.data(); }
+
+    /// Copy the data back into the grid
+    void store() {
+      if (ordered.empty()) return;
+
+      for (const IndexType &pos: Range<int, FieldType::Rank>(grid.getLo(), grid.getHi())) {
+        grid.get(pos) = ordered[offset(pos)];
+      }
+    }
+};
+
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
@@ -107,7 +162,8 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
     }
   }
 
-  T *data = g.grid.getRawData();
+  HdfOrderedData<FieldType> orderedData(g.grid);
+  T *data = orderedData.getData();
   hid_t ret;
 
   /* open the dataset collectively */
@@ -164,6 +220,7 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
   ret=H5Dclose(dataset);
   assert(ret != -1);
 
+  orderedData.store();
 }
 
 template<typename FieldType>
@@ -225,7 +282,8 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
     }
   }
 
-  const T *data = g.grid.getRawData();
+  HdfOrderedData<FieldType> orderedData(g.grid);
+  const T *data = orderedData.getData();
   hid_t ret;
 
   /* setup dimensionality object */
-- 
2.43.0


From 6cc9dd9245dc448065d2d6088a6da89f5ddc3f7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:56:20 +0000
Subject: [PATCH 35/50] fix: literature references store organization and
 school in their own fields

---
 src/tools/literature.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..f5c5920 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0


From 81a3dc8e29041645ba15b38aea95a03fc2ec0b01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:56:20 +0000
Subject: [PATCH 36/50] fix: initialise the publication type of a plain
 LiteratureReference

---
 src/tools/literature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index f5c5920..033714e 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -78,8 +78,8 @@ private:
     std::string bibKey;
     PublicationType publType;
   public:
-    LiteratureReference() {}
-    LiteratureReference(std::string bibKey_) : bibKey(bibKey_) {}
+    LiteratureReference() : publType(misc) {}
+    LiteratureReference(std::string bibKey_) : bibKey(bibKey_), publType(misc) {}
 
     LiteratureReference(const LiteratureReference &ref) :
       address(ref.address),
-- 
2.43.0


From 3d4e7d36209950a23918acbc97e5d81878b578ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:44:05 +0000
Subject: [PATCH 37/50] fix: irand never returns a value outside its range,
 drand none above 1

---
 src/functions.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 692ab2c..9e4f3be 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -30,14 +30,17 @@
 #include <cstdlib>
 
 
-static const double RAND_MAX2 = double(RAND_MAX)*double(RAND_MAX);
+// rand() returns one out of RAND_MAX + 1 values
+static const double RAND_COUNT = double(RAND_MAX) + 1.0;
 
 double schnek::drand()
 {
-  return (double(rand()) +  double(RAND_MAX)*double(rand()))/RAND_MAX2;
+  return (double(rand()) +  RAND_COUNT*double(rand()))/(RAND_COUNT*RAND_COUNT);
 }
 
 int schnek::irand(int range)
 {
-  return int(drand()*range);
+  // drand can be rounded up to 1, which would give a value outside the range
+  int result = int(drand()*range);
+  return result<range ? result : range-1;
 }
-- 
2.43.0


From 24e7e1213bf5e3289b8a65e9282f26ec5e9e7801 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 38/50] fix: copies of HDF5 streams keep the participating
 processes and transfer properties

---
 src/diagnostic/hdfdiagnostic.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 21f79c5..1c9dae4 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -49,6 +49,7 @@ HdfStream::HdfStream()
     active(true),
     activeModified(false)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
+    , mpiComm(MPI_COMM_WORLD)
     , commSet(false)
 #endif
 {}
@@ -59,10 +60,11 @@ HdfStream::HdfStream(const HdfStream& hdf)
     blockname(hdf.blockname),
     attributes(hdf.attributes),
     sets_count(hdf.sets_count),
-    active(true),
-    activeModified(false)
+    active(hdf.active),
+    activeModified(hdf.activeModified)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    , commSet(false)
+    , mpiComm(hdf.mpiComm)
+    , commSet(hdf.commSet)
 #endif
 {}
 
@@ -258,15 +260,15 @@ int HdfIStream::open(const char* fname)
 // ----------------------------------------------------------------------
 
 HdfOStream::HdfOStream()
-   : HdfStream(), initialised(false)
+   : HdfStream(), dxpl_id(H5P_DEFAULT), initialised(false)
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf), dxpl_id(hdf.dxpl_id), initialised(hdf.initialised)
 {}
 
 HdfOStream::HdfOStream(const char* fname)
-   : HdfStream(), initialised(false)
+   : HdfStream(), dxpl_id(H5P_DEFAULT), initialised(false)
 {
   open(fname);
 }
-- 
2.43.0


From 475b023e8d2fc1e909401519e10b1721a20eed13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 39/50] fix: free the communicators created for the active
 processes of HDF5 streams

---
 src/diagnostic/hdfdiagnostic.cpp | 11 +++++++++++
 src/diagnostic/hdfdiagnostic.hpp |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 1c9dae4..ade5968 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -65,6 +65,7 @@ HdfStream::HdfStream(const HdfStream& hdf)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
     , mpiComm(hdf.mpiComm)
     , commSet(hdf.commSet)
+    , commOwner(hdf.commOwner)
 #endif
 {}
 
@@ -80,6 +81,7 @@ HdfStream &HdfStream::operator=(const HdfStream& hdf)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
   mpiComm = hdf.mpiComm;
   commSet = hdf.commSet;
+  commOwner = hdf.commOwner;
 #endif
   return *this;
 }
@@ -131,6 +133,14 @@ std::string HdfStream::getNextBlockName()
 }
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
+static void freeComm(MPI_Comm *comm)
+{
+  int finalized;
+  MPI_Finalized(&finalized);
+  if (!finalized && (*comm != MPI_COMM_NULL)) MPI_Comm_free(comm);
+  delete comm;
+}
+
 void HdfStream::makeMPIGroup()
 {
   if (!activeModified) {
@@ -168,6 +178,7 @@ void HdfStream::makeMPIGroup()
 
   MPI_Group_incl(worldGroup, count, inputArr, &activeGroup);
   MPI_Comm_create(MPI_COMM_WORLD, activeGroup, &mpiComm);
+  commOwner = std::shared_ptr<MPI_Comm>(new MPI_Comm(mpiComm), freeComm);
 
   delete[] activeArr;
   delete[] inputArr;
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index ec0db99..2456d4f 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -177,6 +177,9 @@ class HdfStream {
 
     MPI_Comm mpiComm;
     bool commSet;
+
+    /// Frees the communicator created for the active processes when the last stream using it is gone
+    std::shared_ptr<MPI_Comm> commOwner;
 #endif
 
 };
-- 
2.43.0


From 7644c04c53c0d78a94ca43e0b151c31375c8cbf2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:31:32 +0000
Subject: [PATCH 40/50] fix: apply the operators of array expressions of
 different types in their common type

---
 src/grid/arrayexpression.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index 6ea1fcd..f0dbe69 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -30,13 +30,15 @@
 #include "array.hpp"
 
 #include <iostream>
+#include <type_traits>
 
 namespace schnek {
 
 /**Expression template for the Array class.
  * This template will be created when adding or subtracting Arrays and
  * will allow performing expressions without temporary variables.
- * @todo Handle type promotion
+ * When two expressions, or an expression and an array or a scalar, have
+ * different types the operator is applied in their common type.
  */
 template<class Operator, size_t Length>
 class ArrayExpression {
@@ -216,7 +218,7 @@ struct ArrayOpUnaryMinus {
     ArrayBinaryOp<                                                              \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<typename std::common_type<typename exp1::value_type, typename exp2::value_type>::type> \
     >,                                                                          \
     length                                                                      \
   >                                                                             \
@@ -228,7 +230,7 @@ struct ArrayOpUnaryMinus {
     <                                                                           \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<typename std::common_type<typename exp1::value_type, typename exp2::value_type>::type> \
     >  OperatorType;                                                            \
                                                                                 \
     return ArrayExpression<OperatorType, length>(OperatorType(A,B));            \
@@ -276,7 +278,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -288,7 +290,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -307,7 +309,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -319,7 +321,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -332,7 +334,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -341,7 +343,7 @@ SCHNEK_INLINE operator symbol (const T &A, const ArrayExpression<exp, length> &B
   typedef ArrayBinaryOp<                                                        \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<T, typename exp::value_type>::type>                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -354,7 +356,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -363,7 +365,7 @@ SCHNEK_INLINE operator symbol (const ArrayExpression<exp, length> &A, const T &B
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
-- 
2.43.0


From 9bd3887496b45e8a6003fe209e1618e9f9a3e8e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:31:32 +0000
Subject: [PATCH 41/50] fix: report an overflowing integer division instead of
 crashing

---
 src/variables/operators.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 2f9d1b8..35d050b 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -32,6 +32,7 @@
 
 #include <memory>
 #include <cmath>
+#include <limits>
 
 #undef LOGLEVEL
 #define LOGLEVEL 0
@@ -211,12 +212,15 @@ namespace expression {
   }
 
 
-  /// Integer division by zero is undefined, so it is reported
+  /// Integer division by zero or with an overflowing result is undefined, so it is reported
   template<>
   inline int OperatorDivide<int>::eval(int val1, int val2)
   {
       SCHNEK_TRACE_LOG(5, "OperatorDivide<int>::eval(" << val1 << ", " << val2 << ")")
       if (val2 == 0) throw EvaluationException("Integer division by zero");
+      // the only quotient that does not fit into an int
+      if (val2 == -1 && val1 == std::numeric_limits<int>::min())
+        throw EvaluationException("Integer overflow in division");
       return val1 / val2;
   }
 
-- 
2.43.0


From 17e878b3a8f05d6f2575e445abff6405b26f96c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 42/50] fix: release the parser when a setup file is rejected

---
 src/parser/parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index fa64a0c..c6f4484 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -58,7 +58,9 @@ pBlock Parser::parse(std::istream &input, std::string filename)
   scanner.scan(&input);
   const TokenList &tokens = scanner.getTokens();
 
-  yyParser* pParser = ParseAlloc();
+  // releases the parser, also when parsing ends with an exception
+  std::unique_ptr<yyParser, void (*)(yyParser*)> parserGuard(ParseAlloc(), ParseFree);
+  yyParser* pParser = parserGuard.get();
   //FILE *trace = fopen("parsetrace.out", "w");
   //ParseTrace(trace,"trace: ");
 
@@ -105,8 +107,6 @@ pBlock Parser::parse(std::istream &input, std::string filename)
   if (variables.getCurrentBlock() != startBlock)
     throw ParserError("Missing } at end of file", endOfFile);
 
-  ParseFree(pParser);
-
   DependencyMap depMap(variables.getRootBlock());
   depMap.updateAll();
 
-- 
2.43.0


From a246994899f196ac4d1545072dee3fb52327779b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 43/50] fix: the variables of nested blocks are released when
 no longer used

---
 src/variables/blockparameters.hpp | 4 ++++
 src/variables/variables.cpp       | 6 ++++--
 src/variables/variables.hpp       | 6 +++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/variables/blockparameters.hpp b/src/variables/blockparameters.hpp
index 5196bd4..0ac811c 100644
--- a/src/variables/blockparameters.hpp
+++ b/src/variables/blockparameters.hpp
@@ -150,12 +150,16 @@ class BlockParameters
 {
   private:
     pBlockVariables block;
+    /// keeps the blocks surrounding the context alive
+    pBlockVariables root;
     std::map<std::string, pParameter> parameterMap;
   public:
     typedef enum {readwrite, readonly} Permissions;
     void setContext(pBlockVariables context)
     {
       block = context;
+      root = context;
+      while (root && root->getParent()) root = root->getParent();
     }
 
     pBlockVariables getContext()
diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index 52dedab..473888e 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,8 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && parent) return parent->exists(path, true);
+  pBlockVariables par = getParent();
+  if (upward && par) return par->exists(path, true);
 
   return false;
 }
@@ -180,7 +181,8 @@ pVariable BlockVariables::getVariable(std::list<std::string> path, bool upward)
     if (vars.count(name)>0) return vars[name];
   }
 
-  if (upward && parent) return parent->getVariable(path, true);
+  pBlockVariables par = getParent();
+  if (upward && par) return par->getVariable(path, true);
 
   throw VariableNotFoundException("Could not find Block variable "+path.back());
 }
diff --git a/src/variables/variables.hpp b/src/variables/variables.hpp
index acd2477..63a6fe8 100644
--- a/src/variables/variables.hpp
+++ b/src/variables/variables.hpp
@@ -151,8 +151,8 @@ class BlockVariables
     std::string name;
     /// the classname of this block
     std::string className;
-    /// the surrounding parent block
-    pBlockVariables parent;
+    /// the surrounding parent block, which owns this block
+    std::weak_ptr<BlockVariables> parent;
     /// The children of the block
     BlockVariablesList children;
 
@@ -207,7 +207,7 @@ class BlockVariables
     /// returns the block's class name
     std::string getClassName() { return className; }
     /// returns the parent (enclosing) block of this block
-    pBlockVariables getParent() { return parent; }
+    pBlockVariables getParent() { return parent.lock(); }
     /// returns the children of the block
     const BlockVariablesList& getChildren() { return children; }
 
-- 
2.43.0


From 0d4422e6175bb4e14cc8bfb858e6ff6ccbfae258 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 44/50] fix: processes without output keep the schedule of
 timed diagnostics

A DeltaTimeDiagnostic with single output never advanced its next output time
on the processes that do not write. DiagnosticManager::adjustDeltaT therefore
returned different time steps on different processes.
---
 src/diagnostic/diagnostic.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 0d4924e..da175d0 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -148,14 +148,17 @@ DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
-  if (singleOut() && !master) return;
 
   if (physicalTime >= nextOutput)
   {
-    if (appending()) openAppend(parsedFileName(rank, count));
-    else open(parsedFileName(rank, count));
-    write();
-    if (!appending()) close();
+    // All processes keep track of the next output, so that adjustDeltaT agrees
+    if (!singleOut() || master)
+    {
+      if (appending()) openAppend(parsedFileName(rank, count));
+      else open(parsedFileName(rank, count));
+      write();
+      if (!appending()) close();
+    }
     nextOutput += deltaTime;
     ++count;
   }
-- 
2.43.0


From 1a2370f9801c6e088459c4e6e9f3871cfb0fe7d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:07:36 +0000
Subject: [PATCH 45/50] fix: initialising an MPI subdivision again releases its
 communicator and buffers

---
 src/grid/mpisubdivision.hpp |  3 +++
 src/grid/mpisubdivision.t   | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/grid/mpisubdivision.hpp b/src/grid/mpisubdivision.hpp
index e143eb3..972a8e9 100644
--- a/src/grid/mpisubdivision.hpp
+++ b/src/grid/mpisubdivision.hpp
@@ -82,6 +82,9 @@ class MPICartSubdivision : public DomainSubdivision<GridType>
     int scalarSize;
 
     DomainType globalDomain;
+
+    /// Free the communicator and the buffers allocated by init
+    void release();
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index bbeb2c7..3c2d222 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -64,6 +64,9 @@ MPICartSubdivision<GridType>::MPICartSubdivision() : comm(0), prevcoord(0), next
 template<class GridType>
 void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi, int delta)
 {
+  // give back the communicator and the buffers of a previous initialisation
+  release();
+
   LimitType Low(lo);
   LimitType High(hi);
   globalDomain = DomainType(lo, hi);
@@ -131,13 +134,22 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
 
 template<class GridType>
 MPICartSubdivision<GridType>::~MPICartSubdivision()
+{
+  release();
+}
+
+template<class GridType>
+void MPICartSubdivision<GridType>::release()
 {
   for (size_t i=0; i<Rank; ++i)
   {
-    if (sendarr[i]!=0) delete[] sendarr[i];
-    if (recvarr[i]!=0) delete[] recvarr[i];
+    delete[] sendarr[i];
+    delete[] recvarr[i];
+    sendarr[i] = 0;
+    recvarr[i] = 0;
   }
   if (comm!=0) MPI_Comm_free(&comm);
+  comm = 0;
 }
 
 template<class GridType>
-- 
2.43.0


From 757a2a677996b650838f487e34a0af59b378f93b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:29:23 +0000
Subject: [PATCH 46/50] fix: every access to a transformed grid returns a value
 of its own

---
 src/grid/gridtransform.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/grid/gridtransform.hpp b/src/grid/gridtransform.hpp
index 2612e09..7c41732 100644
--- a/src/grid/gridtransform.hpp
+++ b/src/grid/gridtransform.hpp
@@ -178,6 +178,17 @@ class GridTransform
      *  The ranges then extend from 0 to size[i]-1
      */
     GridTransform(BaseGridType &baseGrid_);
+
+    /** Index operators
+     *
+     *  A transformed grid can only be read. Every access returns a value of its own, so that
+     *  several elements can be used at the same time.
+     */
+    template<class Index>
+    SCHNEK_INLINE value_type operator[](const Index &pos) const { return ParentType::operator[](pos); }
+
+    template<typename... Indices>
+    SCHNEK_INLINE value_type operator()(Indices... indices) const { return ParentType::operator()(indices...); }
 };
 
 template<typename SrcType, typename DestType>
-- 
2.43.0


From bb89f75b40216f38ad69ce45caca73fdd6fd8169 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 10:34:53 +0000
Subject: [PATCH 47/50] fix: report a parameter name that is registered twice
 in a block

---
 src/variables/blockparameters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/blockparameters.hpp b/src/variables/blockparameters.hpp
index 0ac811c..6534bf6 100644
--- a/src/variables/blockparameters.hpp
+++ b/src/variables/blockparameters.hpp
@@ -186,7 +186,7 @@ class BlockParameters
         if (hasDefault) *var = defaultValue;
         variable = pVariable(new Variable(pexp, true, true));
       }
-      block->addVariable(varName, variable);
+      if (!block->addVariable(varName, variable)) throw DuplicateVariableException();
 
       if (varName=="test4") std::cerr << "test4: ID = " << variable->getId();
 
@@ -213,7 +213,7 @@ class BlockParameters
     pParameter addConstant(std::string varName, const T &value)
     {
       pVariable variable(new Variable(value, true, true));
-      block->addVariable(varName, variable);
+      if (!block->addVariable(varName, variable)) throw DuplicateVariableException();
 
       pParameter par(new ConstantParameter<T>(varName, variable, value));
       parameterMap[varName] = par;
-- 
2.43.0


From fb5cc97062e2b3c58b5449fc59eab95c926f4630 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:19:26 +0000
Subject: [PATCH 48/50] fix: a parameter stays in its group when it is assigned

---
 src/variables/blockparameters.cpp | 14 +++++++++-----
 src/variables/blockparameters.hpp |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 3d8aaa9..91498c7 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -31,27 +31,31 @@ using namespace schnek;
 
 void ParametersGroup::add(pParameter p)
 {
-  parameters.insert(p->getVariable()->getId());
+  add(p->getVariable());
 }
 
 void ParametersGroup::add(pVariable v)
 {
-  parameters.insert(v->getId());
+  parameters.insert(v);
 }
 
 bool ParametersGroup::isElement(pParameter p)
 {
-  return parameters.count(p->getVariable()->getId()) > 0;
+  return isElement(p->getVariable());
 }
 
 bool ParametersGroup::isElement(pVariable v)
 {
-  return parameters.count(v->getId()) > 0;
+  for(pVariable element: parameters)
+  {
+    if (element->getId() == v->getId()) return true;
+  }
+  return false;
 }
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  for(long id: parameters) ids.erase(id);
+  for(pVariable element: parameters) ids.erase(element->getId());
   return ids.empty();
 }
 
diff --git a/src/variables/blockparameters.hpp b/src/variables/blockparameters.hpp
index 6534bf6..0ff5c71 100644
--- a/src/variables/blockparameters.hpp
+++ b/src/variables/blockparameters.hpp
@@ -47,7 +47,8 @@ typedef std::shared_ptr<Parameter> pParameter;
 class ParametersGroup
 {
   private:
-    typedef std::set<long> ParameterSet;
+    /// Holds the variables, as their ids change when they are assigned
+    typedef std::set<pVariable> ParameterSet;
     ParameterSet parameters;
   public:
     void add(pParameter p);
-- 
2.43.0


From 00790a7e4e5abb9a75a2a52ac99a087cac0080f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:10:05 +0000
Subject: [PATCH 49/50] fix: MPI exchange buffers of local domains with more
 than 2^31 cells

The product of all local extents overflowed an int although the size of
each exchanged layer fits.
---
 src/grid/mpisubdivision.t | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3c2d222..1bd9295 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -97,7 +97,7 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
   errorCode = MPI_Cart_coords(comm,ComRank,Rank,mycoord);
   SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not determine MPI Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-  int exchangeSizeProduct = delta;
+  long exchangeSizeProduct = delta;
 
   //std::cout << "Calculating exchange size product: " << exchangeSizeProduct << std::endl;
 
@@ -115,7 +115,7 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
 
   for (size_t i=0; i<Rank; ++i)
   {
-    exchSize[i] = exchangeSizeProduct/(High[i]-Low[i]+1);
+    exchSize[i] = int(exchangeSizeProduct/(High[i]-Low[i]+1));
     //std::cout << "Calculating exchange size "<<i<<": " << exchSize[i] << std::endl;
     sendarr[i] = new value_type[exchSize[i]];
     recvarr[i] = new value_type[exchSize[i]];
-- 
2.43.0


From dc5bca910785c60ef64ed0a261e415dce52d7eb5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 50/50] fix: getSize counts the cells of grids with more than
 2^31 cells

---
 src/grid/gridstorage/kokkos-storage.hpp            | 2 +-
 src/grid/gridstorage/single-array-storage-base.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 11e1601..0948fb2 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -159,7 +159,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->view.size(); }
+        SCHNEK_INLINE size_t getSize() const { return this->view.size(); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
diff --git a/src/grid/gridstorage/single-array-storage-base.hpp b/src/grid/gridstorage/single-array-storage-base.hpp
index f500b41..29ed1ae 100644
--- a/src/grid/gridstorage/single-array-storage-base.hpp
+++ b/src/grid/gridstorage/single-array-storage-base.hpp
@@ -86,7 +86,7 @@ namespace schnek
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE size_t getSize() const { return this->size; }
 
         typedef T* storage_iterator;
         typedef const T* const_storage_iterator;
-- 
2.43.0

