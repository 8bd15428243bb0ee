From 3580812edc386745bfca8084e7db6d9e2434cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 001/104] fix: read the number of time samples of a frustum
 mapping from Ogawa files

The count was never assigned, so every frustum mapping was read back with
the default transform.
---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From 0c1ef338619624960aa22c2369da4be32d5068b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 002/104] fix: clear the screen-to-world samples with the other
 frustum curves

The default sample stayed behind in m_ssToWsCurve, which then had more
samples than the camera curve: writing such a mapping read past the end
of the camera samples.
---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index b1f1a1f..8d6153f 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -786,6 +786,7 @@ void FrustumFieldMapping::getLocalToVoxelMatrix(M44d &result)
 
 void FrustumFieldMapping::clearCurves()
 {
+  m_ssToWsCurve.clear();
   m_lpsToWsCurve.clear();
   m_csToWsCurve.clear();
   m_nearCurve.clear();
-- 
2.43.0


From 4ae21132c9b675a510f6882fbd71c90e528305f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 003/104] fix: initialize the Z distribution in
 FrustumFieldMapping(extents)

---
 src/FieldMapping.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 8d6153f..3e14c66 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -431,7 +431,9 @@ FrustumFieldMapping::FrustumFieldMapping()
 //----------------------------------------------------------------------------//
 
 FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
-  : FieldMapping(extents)
+  : FieldMapping(extents),
+    m_zDistribution(PerspectiveDistribution),
+    m_defaultState(true)
 { 
   reset();
 }
-- 
2.43.0


From ff2ed3f4a475c0573fb1745e93255e100a2ad69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 004/104] fix: non-time-varying setTransforms() replaces all
 earlier samples

As documented, and as MatrixFieldMapping::setLocalToWorld() does.
---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 3e14c66..54f9c27 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -442,6 +442,7 @@ FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
 
 void FrustumFieldMapping::setTransforms(const M44d &ssToWs, const M44d &csToWs)
 {
+  clearCurves();
   setTransforms(0.0, ssToWs, csToWs);
 }
 
-- 
2.43.0


From af10b2141d33ad246b67ca19508da373da89dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 005/104] fix: recompute the voxel sizes when the Z
 distribution changes

---
 export/FieldMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/FieldMapping.h b/export/FieldMapping.h
index b8d1d06..b6b41d8 100644
--- a/export/FieldMapping.h
+++ b/export/FieldMapping.h
@@ -624,7 +624,7 @@ public:
 
   //! Sets the z slice distribution
   void setZDistribution(ZDistribution dist)
-  { m_zDistribution = dist; }
+  { m_zDistribution = dist; computeVoxelSize(); }
   //! Returns the z slice distribution
   ZDistribution zDistribution() const
   { return m_zDistribution; }
-- 
2.43.0


From 5824ea38ba42319651dd226160b25e8ea6d34f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 006/104] fix: mappings that differ in shear are not identical

Layers with differently sheared mappings were put in the same partition,
so the second one was read back with the mapping of the first.
---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 54f9c27..31ca66a 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -97,6 +97,7 @@ namespace {
       return false;
     }
     if (!s1.equalWithRelError(s2, tolerance) ||
+        !sh1.equalWithAbsError(sh2, tolerance) ||
         !r1.equalWithAbsError(r2, tolerance) ||
         !t1.equalWithRelError(t2, tolerance)) {
       return false;
-- 
2.43.0


From d3a12358174a807b0b37628a3d6eaa220bae6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 007/104] fix: a single-value dense field needs a chunk size of
 one, not zero

H5Pset_chunk rejects a zero chunk, so the field could not be written.
---
 src/DenseFieldIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..d621882 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -390,7 +390,7 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  const hsize_t chunkSize = std::max(hsize_t(1), std::min(preferredChunkSize, totalSize[0] / 2));
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From d02bb6e565621d9e3ad53b96083902a72fc0a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 008/104] fix: a partition keeps its own copy of the mapping it
 was written with

---
 export/Field3DFileHDF5.h | 2 +-
 src/Field3DFile.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 98c6e0b..8aabad8 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1428,7 +1428,7 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..f09405a 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1392,7 +1392,7 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
-- 
2.43.0


From 6190cbee35a9fc98b5133736a7c9702b21a3551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 009/104] fix: Field3DOutputFile::create() starts from a clean
 slate

---
 src/Field3DFile.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index f09405a..be980d1 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -976,6 +976,12 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  // The object may have been used for an earlier file
+  closeInternal();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_partitionCount.clear();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
@@ -983,8 +989,6 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return m_hdf5->create(filename, Field3DOutputFileHDF5::CreateMode(ccm));
   }
 
-  closeInternal();
-
   if (cm == FailOnExisting && fileExists(filename)) {
     return false;
   }
-- 
2.43.0


From 12463299e2a709585e31c59bae75250ab86fd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 010/104] fix: Field3DInputFile::open() forgets the previously
 opened file

---
 src/Field3DFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index be980d1..c1fb11e 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -715,6 +715,11 @@ bool Field3DInputFile::open(const string &filename)
 {
   clear();
 
+  // The object may have been used for an earlier file
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_metadata = FieldMetadata(NULL);
+
   bool success = true;
 
   // Record filename
-- 
2.43.0


From f5551e35c2abad8dcf331731c91c4c10cc05f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 011/104] fix: scalar and vector layers of one name need
 separate HDF5 partitions

---
 export/Field3DFileHDF5.h | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 8aabad8..0fe6d70 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1487,23 +1487,13 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     }
     
     // If the partition already existed, we need to make sure that the layer
-    // doesn't also exist
-    if (!isVectorLayer) {
-      if (part->scalarLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
-    } else {
-      if (part->vectorLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
+    // doesn't also exist. Scalar and vector layers share the same namespace.
+    if (part->scalarLayer(layerName) || part->vectorLayer(layerName)) {
+      //need to create a new partition and then add the layer to that
+      std::string newPartitionName = incrementPartitionName(partitionName);
+      part = createNewPartition<Data_T>(newPartitionName,layerName,field);
+      if (!part)
+        return false;
     }
   }
 
@@ -1528,7 +1518,7 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
 
   FileHDF5::Layer layer;
   layer.name = layerName;
-  layer.parent = partitionName;
+  layer.parent = part->name;
 
   // Add Layer to file ---
 
-- 
2.43.0


From 07732fa6702b79b41ebd890487fe0cfd4eaf806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 012/104] fix: voxel size of a frustum mapping with a single
 slice

---
 src/FieldMapping.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 31ca66a..eaaef80 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -770,6 +770,19 @@ void FrustumFieldMapping::computeVoxelSize()
   // against
   if (m_res.z >= 2) {
     m_wsVoxelSize[static_cast<int>(m_res.z - 1)] = m_wsVoxelSize[static_cast<int>(m_res.z - 2)];
+  } else if (m_res.z >= 1) {
+    // A single slice has no neighbor to differentiate against, so we measure
+    // the distance between its front and back faces
+    V3d wsP, wsPx, wsPy, wsPz0, wsPz1;
+    V3d vsP = discToCont(V3i(i, j, zMin));
+    voxelToWorld(vsP, wsP);
+    voxelToWorld(vsP + V3d(1.0, 0.0, 0.0), wsPx);
+    voxelToWorld(vsP + V3d(0.0, 1.0, 0.0), wsPy);
+    voxelToWorld(vsP - V3d(0.0, 0.0, 0.5), wsPz0);
+    voxelToWorld(vsP + V3d(0.0, 0.0, 0.5), wsPz1);
+    m_wsVoxelSize[0] = V3d((wsPx - wsP).length(), 
+                           (wsPy - wsP).length(),
+                           (wsPz1 - wsPz0).length());
   }
 
 }
-- 
2.43.0


From 2273dc0332fd5dc34748005eafde620c1cf78e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 013/104] fix: initialize the values of an EmptyField

---
 export/EmptyField.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index b8c779e..a4e329f 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -180,7 +180,10 @@ public:
 
 template <class Data_T>
 EmptyField<Data_T>::EmptyField()
-  : base()
+  : base(), 
+    m_default(static_cast<Data_T>(0)), 
+    m_ignoredData(static_cast<Data_T>(0)), 
+    m_constantData(static_cast<Data_T>(0))
 { 
   // Empty
 }
-- 
2.43.0


From ca2252ce902d3c2703fa9992df7b792e4fe95fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 014/104] fix: voxel count of empty and very large fields

---
 export/Field.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index 51fd35d..1c49e40 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -288,8 +288,11 @@ public:
   //! return a better value
   virtual size_t voxelCount() const
   { 
-    V3i res = m_dataWindow.size() + V3i(1);
-    return res.x * res.y * res.z;
+    if (m_dataWindow.isEmpty()) {
+      return 0;
+    }
+    const V3i res = dataResolution();
+    return static_cast<size_t>(res.x) * res.y * res.z;
   }
 
 protected:
-- 
2.43.0


From 5870c68884b8d170e900132d3cd7268c42145351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 015/104] fix: compare iterators without dereferencing the end
 iterator

---
 export/DenseField.h | 8 ++++----
 export/MACField.h   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/export/DenseField.h b/export/DenseField.h
index 740a663..b33c7b5 100644
--- a/export/DenseField.h
+++ b/export/DenseField.h
@@ -307,13 +307,13 @@ public:
   template <class Iter_T>
   inline bool operator == (const Iter_T &rhs) const
   {
-    return m_p == &(*rhs);
+    return m_p == rhs.operator->();
   }
 
   template <class Iter_T>
   inline bool operator != (const Iter_T &rhs) const
   {
-    return m_p != &(*rhs);
+    return m_p != rhs.operator->();
   }
 
   inline const Data_T& operator * () const
@@ -402,13 +402,13 @@ public:
   template <class Iter_T>
   inline bool operator == (const Iter_T &rhs) const
   {
-    return m_p == &(*rhs);
+    return m_p == rhs.operator->();
   }
 
   template <class Iter_T>
   inline bool operator != (const Iter_T &rhs) const
   {
-    return m_p != &(*rhs);
+    return m_p != rhs.operator->();
   }
 
   inline Data_T& operator * () const
diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..1de8f3d 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -408,13 +408,13 @@ public:
   template <class Iter_T>
   inline bool operator == (const Iter_T &rhs) const
   {
-    return m_p == &(*rhs);
+    return m_p == rhs.operator->();
   }
 
   template <class Iter_T>
   inline bool operator != (const Iter_T &rhs) const
   {
-    return m_p != &(*rhs);
+    return m_p != rhs.operator->();
   }
 
   inline const real_t& operator * () const
@@ -519,13 +519,13 @@ public:
   template <class Iter_T>
   inline bool operator == (const Iter_T &rhs) const
   {
-    return m_p == &(*rhs);
+    return m_p == rhs.operator->();
   }
 
   template <class Iter_T>
   inline bool operator != (const Iter_T &rhs) const
   {
-    return m_p != &(*rhs);
+    return m_p != rhs.operator->();
   }
 
   inline real_t& operator * () const
-- 
2.43.0


From e1de71328157006328a441e8b569339dbbdc2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 016/104] fix: block bounding boxes follow the data window

---
 export/SparseField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..360ea68 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1263,7 +1263,8 @@ private:
   {
     Box3i box;
     int blockSize = m_field.blockSize();
-    box.min = V3i(x * blockSize, y * blockSize, z * blockSize);
+    box.min = m_field.dataWindow().min + 
+      V3i(x * blockSize, y * blockSize, z * blockSize);
     box.max = box.min + V3i(blockSize - 1, blockSize - 1, blockSize - 1);
     // Clamp the box
     box.min = FIELD3D_CLIP(box.min, m_field.dataWindow());
-- 
2.43.0


From de08a8eb7179331b26990d8d8d385d3602c0774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 017/104] fix: sparse iterators over an empty range touch no
 block

---
 export/SparseField.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 360ea68..8e7191a 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -904,7 +904,12 @@ class SparseField<Data_T>::const_iterator
       m_blockId(-1), m_window(window), m_field(&field)
   {
     m_manager = m_field->m_fileManager;
-    setupNextBlock(x, y, z);
+    // Nothing to set up for the end of the range, or if it is empty
+    if (window.intersects(currentPos)) {
+      setupNextBlock(x, y, z);
+    } else {
+      m_isEmptyBlock = true;
+    }
   }
   ~const_iterator() {
     if (m_manager && m_blockId >= 0 &&
@@ -1084,7 +1089,12 @@ class SparseField<Data_T>::iterator
       m_p(NULL), m_blockStepsTicker(0), m_blockOrder(blockOrder),
       m_blockId(-1), m_window(window), m_field(&field)
   {
-    setupNextBlock(x, y, z);
+    // Nothing to set up for the end of the range, or if it is empty
+    if (window.intersects(currentPos)) {
+      setupNextBlock(x, y, z);
+    } else {
+      m_isEmptyBlock = true;
+    }
   }
   const iterator& operator ++ ()
   {
-- 
2.43.0


From acf8acb37bd4ab2ae26576ba2d9d714a486db3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:13 +0000
Subject: [PATCH 018/104] fix: assigning a field clones its mapping

---
 export/Field.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 1c49e40..ae34ebc 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -240,6 +240,10 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator. The mapping is cloned, so that the two fields stay 
+  //! independent.
+  FieldRes& operator = (const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -342,7 +346,19 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
-  m_mapping = src.mapping()->clone();
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator = (const FieldRes &src) 
+{
+  if (this != &src) {
+    base::operator=(src);
+    m_extents = src.m_extents;
+    m_dataWindow = src.m_dataWindow;
+    m_mapping = src.m_mapping->clone();
+  }
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 11f3fa1bf6765fee108b96d02bd5ec51c789ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 019/104] fix: copying a multi-resolution field drops the old
 levels and handles fields without levels

---
 export/MIPField.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..87b06cb 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -360,13 +360,14 @@ MIPField<Field_T>::init(const MIPField &rhs)
   m_mipRes = rhs.m_mipRes;
   m_relativeResolution = rhs.m_relativeResolution;
   // The contained fields must be individually cloned if they have already
-  // been loaded
-  m_fields.resize(rhs.m_fields.size());
-  m_rawFields.resize(rhs.m_rawFields.size());
+  // been loaded. The old levels are dropped, even where rhs has none
+  const std::vector<FieldPtr> rhsFields = rhs.m_fields;
+  m_fields.assign(rhsFields.size(), FieldPtr());
+  m_rawFields.assign(rhsFields.size(), NULL);
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
     // Update the field pointer
-    if (rhs.m_fields[i]) {
-      FieldBase::Ptr baseClone = rhs.m_fields[i]->clone();
+    if (rhsFields[i]) {
+      FieldBase::Ptr baseClone = rhsFields[i]->clone();
       FieldPtr clone = field_dynamic_cast<Field_T>(baseClone);
       if (clone) {
         m_fields[i] = clone;
@@ -553,7 +554,7 @@ void MIPField<Field_T>::mappingChanged()
   base::setMIPOffset(offset);
 
   V3i baseRes = base::dataWindow().size() + V3i(1);
-  if (m_fields[0]) {
+  if (!m_fields.empty() && m_fields[0]) {
     m_fields[0]->setMapping(base::mapping());
   }
   for (size_t i = 1; i < m_fields.size(); i++) {
-- 
2.43.0


From e36ac0dfeb813fc3b8b8a77f6a7db4b6f2184488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 020/104] fix: coordinateSystem() returns the extents that
 match the coordinate system

---
 export/CoordSys.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/export/CoordSys.h b/export/CoordSys.h
index a0e2066..31dfb20 100644
--- a/export/CoordSys.h
+++ b/export/CoordSys.h
@@ -159,9 +159,12 @@ coordinateSystem(const FIELD3D_BOX_T<FIELD3D_VEC3_T<T> >  &wsBounds,
   const FIELD3D_VEC3_T<T> voxelMax = 
     detail::ceil<T>(wsBounds.max / wsVoxelSize) * wsVoxelSize;
 
-  // Resolution
-  extents.min = V3i(detail::floor<T>(voxelMin / wsVoxelSize) + V3f(0.5));
-  extents.max = V3i(detail::floor<T>(voxelMax / wsVoxelSize) + V3f(0.5));
+  // Resolution. The voxel coordinates are already whole numbers, up to 
+  // rounding. The extents are inclusive, so the last voxel is the one before 
+  // the upper bound.
+  const FIELD3D_VEC3_T<T> halfVoxel(0.5), one(1);
+  extents.min = V3i(detail::floor<T>(voxelMin / wsVoxelSize + halfVoxel));
+  extents.max = V3i(detail::floor<T>(voxelMax / wsVoxelSize + halfVoxel) - one);
 
   // Bounding box
   const FIELD3D_BOX_T<FIELD3D_VEC3_T<T> > box(voxelMin, voxelMax);
-- 
2.43.0


From 58bb0b29e9bb3dc42c37882f08724603847c45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 021/104] fix: discreteBounds() rounds before converting to
 integers

---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index ae34ebc..5895eb5 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1150,12 +1150,12 @@ inline Box3i discreteBounds(const Box3d &bbox)
   using std::ceil;
 
   Box3i result;
-  result.min.x = static_cast<int>(floor(clampForType<double, int>(bbox.min.x)));
-  result.min.y = static_cast<int>(floor(clampForType<double, int>(bbox.min.y)));
-  result.min.z = static_cast<int>(floor(clampForType<double, int>(bbox.min.z)));
-  result.max.x = static_cast<int>(ceil(clampForType<double, int>(bbox.max.x)));
-  result.max.y = static_cast<int>(ceil(clampForType<double, int>(bbox.max.y)));
-  result.max.z = static_cast<int>(ceil(clampForType<double, int>(bbox.max.z)));
+  result.min.x = clampForType<double, int>(floor(bbox.min.x));
+  result.min.y = clampForType<double, int>(floor(bbox.min.y));
+  result.min.z = clampForType<double, int>(floor(bbox.min.z));
+  result.max.x = clampForType<double, int>(ceil(bbox.max.x));
+  result.max.y = clampForType<double, int>(ceil(bbox.max.y));
+  result.max.z = clampForType<double, int>(ceil(bbox.max.z));
   return result;
 }
 
-- 
2.43.0


From fe992f39631d2649760c4cb5ccadf0af7b59e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 022/104] fix: on-demand sparse fields leave the block cache
 when their blocks are replaced

---
 export/SparseField.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 8e7191a..723caf6 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -638,6 +638,10 @@ private:
   //! used by copy constructor and operator=
   void copySparseField(const SparseField &o);
 
+  //! Internal function to take the field's blocks out of the cache, if it is
+  //! dynamically read. Needed before the blocks are deleted.
+  void removeReference();
+
   //! Internal function to copy empty values and allocated flags,
   //! without copying data, used when copying a dynamically read field
   void copyBlockStates(const SparseField<Data_T> &o);
@@ -1299,7 +1303,8 @@ SparseField<Data_T>::SparseField()
   : base(),
     m_blockOrder(BLOCK_ORDER),
     m_blocks(NULL),
-    m_fileManager(NULL)
+    m_fileManager(NULL),
+    m_fileId(-1)
 {
   setupBlocks();
 }
@@ -1311,7 +1316,8 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
  : base(o),
    m_blockOrder(o.m_blockOrder),
    m_blocks(NULL),
-   m_fileManager(o.m_fileManager)
+   m_fileManager(NULL),
+   m_fileId(-1)
 {
   copySparseField(o);
 }
@@ -1321,12 +1327,7 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
 template <class Data_T>
 SparseField<Data_T>::~SparseField()
 {
-  if (m_fileManager) {
-    // this file is dynamically managed, so we need to ensure the
-    // cache doesn't point to this field's blocks because they are
-    // about to be deleted
-    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
-  }
+  removeReference();
   if (m_blocks) {
     delete[] m_blocks;
   }
@@ -1366,6 +1367,7 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
     setupReferenceBlocks();
   } else {
     // directly copy all values and blocks from the source, no extra setup
+    removeReference();
     m_blockRes = o.m_blockRes;
     m_blockXYSize = o.m_blockXYSize;
     if (m_blocks) {
@@ -1379,8 +1381,6 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
       m_blocks[i].copy(o.m_blocks[i],
                        1 << m_blockOrder << m_blockOrder << m_blockOrder);
     }
-    m_fileId = -1;
-    m_fileManager = NULL;
   }
 }
 
@@ -1406,6 +1406,21 @@ void SparseField<Data_T>::addReference(const std::string &filename,
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void SparseField<Data_T>::removeReference()
+{
+  if (m_fileManager) {
+    // this field is dynamically managed, so we need to ensure the
+    // cache doesn't point to this field's blocks because they are
+    // about to be deleted
+    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
+  }
+  m_fileManager = NULL;
+  m_fileId = -1;
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void SparseField<Data_T>::copyBlockStates(const SparseField<Data_T> &o)
 {
@@ -1879,6 +1894,7 @@ void SparseField<Data_T>::setupBlocks()
                          static_cast<int>(blockRes.z));
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
+  removeReference();
   if (m_blocks) {
     delete[] m_blocks;
   }
-- 
2.43.0


From 0e743acaba8202523cec206aafffc904343556b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 023/104] fix: sparse const_iterator keeps its block reference
 through copies and honours the data window

---
 export/SparseField.h | 77 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 11 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 723caf6..163d6a5 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -915,12 +915,42 @@ class SparseField<Data_T>::const_iterator
       m_isEmptyBlock = true;
     }
   }
-  ~const_iterator() {
-    if (m_manager && m_blockId >= 0 &&
-        m_blockId < static_cast<int>(m_field->m_numBlocks)) {
-      if (m_field->m_blocks[m_blockId].isAllocated)
-        m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  const_iterator(const const_iterator &o)
+    : x(o.x), y(o.y), z(o.z),
+      m_p(o.m_p), m_isEmptyBlock(o.m_isEmptyBlock), 
+      m_blockIsActivated(o.m_blockIsActivated),
+      m_blockStepsTicker(o.m_blockStepsTicker), m_blockOrder(o.m_blockOrder),
+      m_blockI(o.m_blockI), m_blockJ(o.m_blockJ), m_blockK(o.m_blockK),
+      m_blockId(o.m_blockId), m_window(o.m_window), m_field(o.m_field),
+      m_manager(o.m_manager)
+  {
+    incBlockRef();
+  }
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      o.incBlockRef();
+      decBlockRef();
+      x = o.x; 
+      y = o.y; 
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI;
+      m_blockJ = o.m_blockJ;
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
     }
+    return *this;
+  }
+  ~const_iterator() {
+    decBlockRef();
   }
   const const_iterator& operator ++ ()
   {
@@ -971,8 +1001,9 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -984,8 +1015,9 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
@@ -1004,6 +1036,28 @@ private:
 
   // Convenience methods -------------------------------------------------------
 
+  //! Whether the current block is kept in memory for us by the file manager
+  bool blockIsReferenced() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
+
+  //! Adds a reference to the current block, if it needs one
+  void incBlockRef() const
+  {
+    if (blockIsReferenced())
+      m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+
+  //! Drops the reference to the current block, if there is one
+  void decBlockRef() const
+  {
+    if (blockIsReferenced())
+      m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+
   void setupNextBlock(int i, int j, int k)
   {
     m_field->applyDataWindowOffset(i, j, k);
@@ -1026,8 +1080,9 @@ private:
     m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
     m_blockStepsTicker = vi;
     if (block.isAllocated) {
-      if (m_manager && oldBlockId != m_blockId && m_blockId >= 0) {
-        m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+      if (m_manager) {
+        if (oldBlockId != m_blockId)
+          m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
         // this is a managed field, so the block may not be loaded
         // yet, so don't bother setting m_p yet (it'll get set in the
         // * and -> operators when the block is activated)
-- 
2.43.0


From 7df0155dcacc2e0825055eae47c79dbaba70ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 024/104] fix: evicting and flushing blocks skips blocks that
 are in use

---
 src/SparseFile.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..e70ba7a 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -149,6 +149,20 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
 {
   SparseFile::CacheBlock &cb = *it;
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(cb.refIdx);
+
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock 
+    lock_B(reference->blockMutex[cb.blockIdx % reference->blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock_B(reference->blockMutex[cb.blockIdx]);
+#endif
+
+  // leave the block alone while it is still in use
+  if (reference->refCounts[cb.blockIdx] > 0) {
+    ++it;
+    return;
+  }
+
   int64_t bytesFreed = reference->blockSize(cb.blockIdx);
   m_memUse -= bytesFreed;
   reference->unloadBlock(cb.blockIdx);
@@ -161,8 +175,13 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Number of blocks looked at since the last one was freed. Two rounds
+  // without success means that every block is in use.
+  size_t numSkipped = 0;
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
-         m_maxMemUseInBytes-m_memUse < bytesNeeded) {
+         m_maxMemUseInBytes-m_memUse < bytesNeeded &&
+         numSkipped <= 2 * m_blockCacheList.size()) {
 
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
@@ -177,36 +196,42 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     case DataTypeHalf:
       bytesFreed = deallocateBlock<half>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeFloat:
       bytesFreed = deallocateBlock<float>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeDouble:
       bytesFreed = deallocateBlock<double>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecHalf:
       bytesFreed = deallocateBlock<V3h>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecFloat:
       bytesFreed = deallocateBlock<V3f>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
     case DataTypeVecDouble:
       bytesFreed = deallocateBlock<V3d>(cb);
       if (bytesFreed > 0) {
+        numSkipped = 0;
         continue;
       }
       break;
@@ -214,6 +239,7 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     default:
       break;
     }
+    ++numSkipped;
     ++m_nextBlock;
   }
 }
-- 
2.43.0


From 928a5f9e3c10430c64d3c3b04716d66513b38100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 025/104] fix: write sparse fields that are loaded on demand

---
 src/SparseFieldIO.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..0d66dab 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -165,11 +165,13 @@ template <typename Data_T>
 struct ThreadingState
 {
   ThreadingState(OgOCDataset<Data_T> &i_data, 
+                 const SparseField<Data_T> &i_field,
                  Sparse::SparseBlock<Data_T> *i_blocks, 
                  const size_t i_numVoxels, 
                  const size_t i_numBlocks,
                  const std::vector<uint8_t> &i_isAllocated)
     : data(i_data),
+      field(i_field),
       blocks(i_blocks),
       numVoxels(i_numVoxels), 
       numBlocks(i_numBlocks),
@@ -191,6 +193,7 @@ struct ThreadingState
   }
   // Data members
   OgOCDataset<Data_T> &data;
+  const SparseField<Data_T> &field;
   Sparse::SparseBlock<Data_T> *blocks;
   const size_t numVoxels;
   const size_t numBlocks;
@@ -233,6 +236,12 @@ public:
     // Loop over blocks until we run out
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
+        // Ensure block data is active and kept alive
+        const bool isDynamicLoad = m_state.field.isDynamicLoad();
+        if (isDynamicLoad) {
+          m_state.field.incBlockRef(blockIdx);
+          m_state.field.activateBlock(blockIdx);
+        }
         // Block data as bytes
         const uint8_t *srcData = 
           reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
@@ -243,6 +252,10 @@ public:
         // Perform compression
         const int status = compress2(&m_cache[0], &cmpLen, 
                                      srcData, srcLen, level);
+        // Decrement the block ref count
+        if (isDynamicLoad) {
+          m_state.field.decBlockRef(blockIdx);
+        }
         // Error check
         if (status != Z_OK) {
           std::cout << "ERROR: Couldn't compress in SparseFieldIO." << std::endl
@@ -1018,10 +1031,20 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
             "Couldn't select slab " + 
             boost::lexical_cast<std::string>(nextBlockIdx));
         }
+        // Ensure block data is active and kept alive
+        const bool isDynamicLoad = field->isDynamicLoad();
+        if (isDynamicLoad) {
+          field->incBlockRef(i);
+          field->activateBlock(i);
+        }
         Data_T *data = field->m_blocks[i].data;
         status = H5Dwrite(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                           memDataSpace.id(), 
                           fileDataSpace.id(), H5P_DEFAULT, data);
+        // Decrement the block ref count
+        if (isDynamicLoad) {
+          field->decBlockRef(i);
+        }
         if (status < 0) {
           throw WriteHyperSlabException(
             "Couldn't write slab " + 
@@ -1113,7 +1136,7 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
   // Write data if there is any
   if (occupiedBlocks > 0) {
     // Threading state
-    ThreadingState<Data_T> state(data, blocks, numVoxels, numBlocks, 
+    ThreadingState<Data_T> state(data, *field, blocks, numVoxels, numBlocks, 
                                  isAllocated);
     // Number of threads
     const size_t numThreads = numIOThreads();
-- 
2.43.0


From 8c7458f9041be9c0df66e00263df8ed4459c3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 026/104] fix: close the file of an on-demand field with the
 field

---
 export/Hdf5Util.h   |  9 +++++++--
 export/SparseFile.h | 25 ++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 9226f36..8ae0f20 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -217,12 +217,17 @@ public:
     GlobalLock lock(g_hdf5Mutex);
     m_id = H5Gopen(parentLocation, name.c_str(), gapl_id);
   }
-
-  ~H5ScopedGopen()
+  void close()
   {
     GlobalLock lock(g_hdf5Mutex);
     if (m_id >= 0)
       H5Gclose(m_id);
+    m_id = -1;
+  }
+
+  ~H5ScopedGopen()
+  {
+    close();
   }
 };
 
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 44f0b68..e6f80c0 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -573,10 +573,6 @@ Reference<Data_T>::~Reference()
 {
   closeFile();
 
-  if (m_reader) {
-    delete m_reader;
-  }
-
   if (blockMutex)
     delete [] blockMutex;
 }
@@ -668,7 +664,7 @@ Reference<Data_T>::create(const std::string a_filename,
 template <class Data_T>
 bool Reference<Data_T>::fileIsOpen()
 {
-  return m_fileHandle >= 0;
+  return m_fileHandle >= 0 || m_ogReader != NULL;
 }
 
 //----------------------------------------------------------------------------//
@@ -709,10 +705,24 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
+  // Close the Ogawa file
+  m_ogReader = NULL;
+  m_ogReaderPtr.reset();
+  m_ogLayerGroup.reset();
+  m_ogRoot.reset();
+  m_ogArchive.reset();
+  // Close the Hdf5 file
+  if (m_reader) {
+    delete m_reader;
+    m_reader = NULL;
+  }
+  m_layerGroup.close();
   if (m_fileHandle >= 0) {
+    GlobalLock lock(g_hdf5Mutex);
     if (H5Fclose(m_fileHandle) < 0) {
       Msg::print("In ~Reference(): Error closing file " + filename);
     }
+    m_fileHandle = -1;
   }
 }
 
@@ -1198,6 +1208,8 @@ template <class Data_T>
 void
 SparseFileManager::removeFieldFromCache(int refIdx)
 {
+  // Closing the file needs the Hdf5 lock, which is always taken first
+  GlobalLock hdf5Lock(g_hdf5Mutex);
   boost::mutex::scoped_lock lock(m_mutex);
 
   DataTypeEnum blockType = DataTypeTraits<Data_T>::typeEnum();
@@ -1239,6 +1251,9 @@ SparseFileManager::removeFieldFromCache(int refIdx)
   std::vector<int>().swap(reference->refCounts);
   delete[] reference->blockMutex;
   reference->blockMutex = NULL;
+
+  // No more blocks will be loaded, so don't hold on to the file
+  reference->closeFile();
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From a2a565963a795776cb31cf2394b1879aec7a707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:42 +0000
Subject: [PATCH 027/104] fix: the memory limit holds for on-demand fields
 after limiting is turned off for new files

---
 export/SparseFile.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index e6f80c0..234189b 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -1276,11 +1276,9 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
   if (reference->fileBlockIndices[blockIdx] >= 0) {
     if (!reference->blockLoaded[blockIdx]) {
       int blockSize = reference->blockSize(blockIdx);
-      if (m_limitMemUse) {
-        // if we already have enough free memory, deallocateBlocks()
-        // will just return
-        deallocateBlocks(blockSize);
-      }
+      // if we already have enough free memory, deallocateBlocks()
+      // will just return
+      deallocateBlocks(blockSize);
 
       if (!reference->fileIsOpen()) {
         reference->openFile();
-- 
2.43.0


From 0f96f18cd1a4f2a7282f686931357d1a9591c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:35 +0000
Subject: [PATCH 028/104] fix: concurrent on-demand loading of sparse blocks

Loaded state, use flags and reference counts are now only looked at with the
block's mutex held, blocks are loaded and evicted under the manager's lock,
and opening files follows the same lock order as closing them.
---
 export/SparseField.h |  6 ++-
 export/SparseFile.h  | 93 +++++++++++++++++++++++++++++++-------------
 src/SparseFile.cpp   | 10 +++--
 3 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 163d6a5..5d6f757 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -265,7 +265,11 @@ struct SparseBlock : boost::noncopyable
       delete[] data;
     }
     data = new Data_T[n];
-    isAllocated = true;
+    // Blocks that get loaded on demand are already flagged as allocated, and
+    // may be looked at by other threads
+    if (!isAllocated) {
+      isAllocated = true;
+    }
     std::fill_n(data, n, emptyValue);
   }
 
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 234189b..75cc80e 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -141,8 +141,9 @@ public:
   BlockPtrs blocks;
   //! Flags of whether the blocks have been accessed since they were
   //! last considered for deallocation by the Second-chance/Clock
-  //! caching system
-  std::vector<bool> blockUsed;
+  //! caching system. We don't use bools since threads update flags of
+  //! different blocks at the same time
+  std::vector<char> blockUsed;
   //! Per-block counts of the number of times each block has been
   //! loaded, for cache statistics
   std::vector<int> loadCounts;
@@ -502,6 +503,7 @@ private:
 
   //! Utility function to reclaim the specified number of bytes by
   //! deallocating unneeded blocks
+  //! \note The caller must hold m_mutex
   void deallocateBlocks(int64_t bytesNeeded);
 
   //! Utility function to attempt to deallocate a single block and
@@ -682,7 +684,7 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 #if !F3D_NO_BLOCKS_ARRAY
   blocks.resize(numBlocks, 0);
 #endif
-  blockUsed.resize(numBlocks, false);
+  blockUsed.resize(numBlocks, 0);
   loadCounts.resize(numBlocks, 0);
   refCounts.resize(numBlocks, 0);
   if (blockMutex)
@@ -788,6 +790,8 @@ int Reference<Data_T>::blockSize(int /* blockIdx */) const
 template <class Data_T>
 int Reference<Data_T>::totalLoads() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
   int numLoads = 0;
@@ -802,6 +806,8 @@ int Reference<Data_T>::totalLoads() const
 template <class Data_T>
 int Reference<Data_T>::numLoadedBlocks() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = blockLoaded.begin();
   std::vector<int>::const_iterator end = blockLoaded.end();
   int numBlockCounter = 0;
@@ -817,6 +823,8 @@ int Reference<Data_T>::numLoadedBlocks() const
 template <class Data_T>
 int Reference<Data_T>::totalLoadedBlocks() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator li = blockLoaded.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
@@ -842,6 +850,8 @@ int Reference<Data_T>::totalLoadedBlocks() const
 template <class Data_T>
 float Reference<Data_T>::averageLoads() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
   int numLoads = 0, numBlockCounter = 0;
@@ -860,6 +870,8 @@ float Reference<Data_T>::averageLoads() const
 template <class Data_T>
 void Reference<Data_T>::resetCacheStatistics()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::iterator li = loadCounts.begin();
   std::vector<int>::iterator lend = loadCounts.end();
   for (; li != lend; ++li)
@@ -880,7 +892,7 @@ Reference<Data_T>::memSize() const
 #if !F3D_NO_BLOCKS_ARRAY
     blocks.capacity() * sizeof(Sparse::SparseBlock<Data_T>*) + 
 #endif
-    blockUsed.capacity() * sizeof(bool) + 
+    blockUsed.capacity() * sizeof(char) + 
     loadCounts.capacity() * sizeof(int) + 
     refCounts.capacity() * sizeof(int) + 
 #if F3D_SHORT_MUTEX_ARRAY
@@ -1246,7 +1258,7 @@ SparseFileManager::removeFieldFromCache(int refIdx)
   BlockPtrs().swap(reference->blocks);
 #endif
   std::vector<int>().swap(reference->blockLoaded);
-  std::vector<bool>().swap(reference->blockUsed);
+  std::vector<char>().swap(reference->blockUsed);
   std::vector<int>().swap(reference->loadCounts);
   std::vector<int>().swap(reference->refCounts);
   delete[] reference->blockMutex;
@@ -1273,35 +1285,60 @@ SparseFileManager::activateBlock(int fileId, int blockIdx)
 {
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(fileId);
 
-  if (reference->fileBlockIndices[blockIdx] >= 0) {
-    if (!reference->blockLoaded[blockIdx]) {
-      int blockSize = reference->blockSize(blockIdx);
-      // if we already have enough free memory, deallocateBlocks()
-      // will just return
-      deallocateBlocks(blockSize);
-
-      if (!reference->fileIsOpen()) {
-        reference->openFile();
-      }
+  // Blocks that aren't in the file are never loaded
+  if (reference->fileBlockIndices[blockIdx] < 0) {
+    return;
+  }
 
-      boost::mutex::scoped_lock lock_A(m_mutex);
 #if F3D_SHORT_MUTEX_ARRAY
-      boost::mutex::scoped_lock 
-        lock_B(reference->blockMutex[blockIdx % reference->blockMutexSize]);
+  boost::mutex &blockMutex = 
+    reference->blockMutex[blockIdx % reference->blockMutexSize];
 #else
-      boost::mutex::scoped_lock lock_B(reference->blockMutex[blockIdx]);
+  boost::mutex &blockMutex = reference->blockMutex[blockIdx];
 #endif
-      // check to see if it was loaded between when the function
-      // started and we got the lock on the block
-      if (!reference->blockLoaded[blockIdx]) {
-        reference->loadBlock(blockIdx);
-        reference->loadCounts[blockIdx]++;
-        addBlockToCache(DataTypeTraits<Data_T>::typeEnum(), fileId, blockIdx);
-        m_memUse += blockSize;
-      }
+
+  // Usually, the block is already loaded
+  {
+    boost::mutex::scoped_lock lock_B(blockMutex);
+    if (reference->blockLoaded[blockIdx]) {
+      reference->blockUsed[blockIdx] = 1;
+      return;
+    }
+  }
+
+  // Lock order: Hdf5 lock, manager, block. Loading may open and read from
+  // an Hdf5 file, and fields get removed with the Hdf5 lock held.
+  GlobalLock hdf5Lock(g_hdf5Mutex);
+  boost::mutex::scoped_lock lock_A(m_mutex);
+
+  // check to see if it was loaded between when the function
+  // started and we got the lock. Blocks only get loaded and unloaded with
+  // the manager's lock held.
+  bool isLoaded;
+  {
+    boost::mutex::scoped_lock lock_B(blockMutex);
+    isLoaded = reference->blockLoaded[blockIdx] != 0;
+  }
+
+  if (!isLoaded) {
+    int blockSize = reference->blockSize(blockIdx);
+    // if we already have enough free memory, deallocateBlocks()
+    // will just return
+    deallocateBlocks(blockSize);
+
+    if (!reference->fileIsOpen()) {
+      reference->openFile();
     }
   }
-  reference->blockUsed[blockIdx] = true;
+
+  boost::mutex::scoped_lock lock_B(blockMutex);
+  if (!isLoaded) {
+    reference->loadBlock(blockIdx);
+    reference->loadCounts[blockIdx]++;
+    addBlockToCache(DataTypeTraits<Data_T>::typeEnum(), fileId, blockIdx);
+    m_memUse += reference->blockSize(blockIdx);
+  }
+  reference->blockUsed[blockIdx] = 1;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index e70ba7a..2996790 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -89,6 +89,8 @@ bool SparseFileManager::doLimitMemUse() const
 
 void SparseFileManager::setMaxMemUse(float maxMemUse) 
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   m_maxMemUse = maxMemUse;
   m_maxMemUseInBytes = static_cast<int64_t>(m_maxMemUse * 1024 * 1024);
 }
@@ -127,7 +129,7 @@ int64_t SparseFileManager::deallocateBlock(const SparseFile::CacheBlock &cb)
   if (reference->blockUsed[cb.blockIdx]) {
     // the block was recently used according to Second-chance paging
     // algorithm, so skip it
-    reference->blockUsed[cb.blockIdx] = false;
+    reference->blockUsed[cb.blockIdx] = 0;
   }
   else {
 
@@ -173,8 +175,6 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
 
 void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
-  boost::mutex::scoped_lock lock_A(m_mutex);
-
   // Number of blocks looked at since the last one was freed. Two rounds
   // without success means that every block is in use.
   size_t numSkipped = 0;
@@ -317,6 +317,7 @@ SparseFileManager::SparseFileManager()
 
 long long SparseFileManager::totalLoads()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
 
   long long int numLoads = 0;
 
@@ -350,6 +351,7 @@ long long SparseFileManager::totalLoads()
 
 long long SparseFileManager::numLoadedBlocks()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
 
   long long int numBlocks = 0;
 
@@ -383,6 +385,7 @@ long long SparseFileManager::numLoadedBlocks()
 
 long long SparseFileManager::totalLoadedBlocks()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
 
   long long int numBlocks = 0;
 
@@ -437,6 +440,7 @@ float SparseFileManager::cacheEfficiency()
 
 void SparseFileManager::resetCacheStatistics()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
 
   for (size_t i=0; i<m_fileData.numRefs<half>(); i++) {
     m_fileData.ref<half>(i)->resetCacheStatistics();
-- 
2.43.0


From acf0447c0086b83494da2ce675b34ab21b0e2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 029/104] fix: file references of on-demand fields stay put
 while others are added

Readers look up their reference without a lock, and std::deque::push_back()
may move the table that the lookup goes through.
---
 export/SparseFile.h | 139 ++++++++++++++++++++++++++++++++------------
 src/SparseFile.cpp  |  14 ++---
 2 files changed, 108 insertions(+), 45 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 75cc80e..e07d879 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -46,8 +46,9 @@
 
 //----------------------------------------------------------------------------//
 
+#include <boost/noncopyable.hpp>
 #include <boost/scoped_ptr.hpp>
-#include <deque>
+#include <algorithm>
 #include <list>
 #include <vector>
 
@@ -263,13 +264,81 @@ private:
 // FileReferences
 //----------------------------------------------------------------------------//
 
+//! Append-only list. Elements stay put in memory once added, so that
+//! at() may be called while another thread appends.
+template <class T>
+class RefList : boost::noncopyable
+{
+public:
+
+  // Ctors, dtor ---------------------------------------------------------------
+
+  RefList()
+    : m_size(0)
+  { std::fill_n(m_chunks, static_cast<int>(k_numChunks), static_cast<T*>(NULL)); }
+
+  ~RefList()
+  {
+    for (int i = 0; i < k_numChunks; ++i) {
+      delete[] m_chunks[i];
+    }
+  }
+
+  // Main methods --------------------------------------------------------------
+
+  //! Returns an element that was added earlier
+  T& at(size_t idx) const
+  {
+    int chunk = 0;
+    size_t chunkSize = k_firstChunkSize;
+    while (idx >= chunkSize) {
+      idx -= chunkSize;
+      chunkSize *= 2;
+      ++chunk;
+    }
+    return m_chunks[chunk][idx];
+  }
+
+  //! Adds an element, returns its index
+  size_t push_back(const T &value)
+  {
+    int chunk = 0;
+    size_t idx = m_size, chunkSize = k_firstChunkSize;
+    while (idx >= chunkSize) {
+      idx -= chunkSize;
+      chunkSize *= 2;
+      ++chunk;
+    }
+    if (!m_chunks[chunk]) {
+      m_chunks[chunk] = new T[chunkSize];
+    }
+    m_chunks[chunk][idx] = value;
+    return m_size++;
+  }
+
+  //! Number of elements
+  size_t size() const
+  { return m_size; }
+
+private:
+
+  //! Each chunk is twice as large as the one before
+  enum { k_firstChunkSize = 64, k_numChunks = 40 };
+
+  T *m_chunks[k_numChunks];
+  size_t m_size;
+
+};
+
+//----------------------------------------------------------------------------//
+
 class FileReferences
 {
 public:
 
   /* A note on thread safety
 
-     FileReferences uses a std::deque to store the References, which means
+     FileReferences uses a RefList to store the References, which means
      that already-added references 'stay put' in memory, even as more elements
      are added. For threading purposes, we only need to lock during append()
      and numRefs(), but ref() is safe, since we never remove references.
@@ -303,12 +372,12 @@ private:
 
   // Data members --------------------------------------------------------------
 
-  std::deque<Reference<half>::Ptr>   m_hRefs;
-  std::deque<Reference<V3h>::Ptr>    m_vhRefs;
-  std::deque<Reference<float>::Ptr>  m_fRefs;
-  std::deque<Reference<V3f>::Ptr>    m_vfRefs;
-  std::deque<Reference<double>::Ptr> m_dRefs;
-  std::deque<Reference<V3d>::Ptr>    m_vdRefs;
+  RefList<Reference<half>::Ptr>   m_hRefs;
+  RefList<Reference<V3h>::Ptr>    m_vhRefs;
+  RefList<Reference<float>::Ptr>  m_fRefs;
+  RefList<Reference<V3f>::Ptr>    m_vfRefs;
+  RefList<Reference<double>::Ptr> m_dRefs;
+  RefList<Reference<V3d>::Ptr>    m_vdRefs;
 
   // Mutexes -------------------------------------------------------------------
 
@@ -919,22 +988,22 @@ inline FileReferences::~FileReferences()
 {
 #if !USE_SHPTR
   for (size_t i = 0, end = m_hRefs.size(); i < end; ++i) {
-    delete m_hRefs[i];
+    delete m_hRefs.at(i);
   }
   for (size_t i = 0, end = m_fRefs.size(); i < end; ++i) {
-    delete m_fRefs[i];
+    delete m_fRefs.at(i);
   }
   for (size_t i = 0, end = m_dRefs.size(); i < end; ++i) {
-    delete m_dRefs[i];
+    delete m_dRefs.at(i);
   }
   for (size_t i = 0, end = m_vhRefs.size(); i < end; ++i) {
-    delete m_vhRefs[i];
+    delete m_vhRefs.at(i);
   }
   for (size_t i = 0, end = m_vfRefs.size(); i < end; ++i) {
-    delete m_vfRefs[i];
+    delete m_vfRefs.at(i);
   }
   for (size_t i = 0, end = m_vdRefs.size(); i < end; ++i) {
-    delete m_vdRefs[i];
+    delete m_vdRefs.at(i);
   }
 #endif  
 }
@@ -946,9 +1015,9 @@ inline Reference<half>*
 FileReferences::ref(size_t idx)
 {
 #if USE_SHPTR
-  return m_hRefs[idx].get();
+  return m_hRefs.at(idx).get();
 #else
-  return m_hRefs[idx];
+  return m_hRefs.at(idx);
 #endif
 }
 
@@ -959,9 +1028,9 @@ inline Reference<V3h>*
 FileReferences::ref(size_t idx)
 {
 #if USE_SHPTR
-  return m_vhRefs[idx].get();
+  return m_vhRefs.at(idx).get();
 #else
-  return m_vhRefs[idx];
+  return m_vhRefs.at(idx);
 #endif
 }
 
@@ -972,9 +1041,9 @@ inline Reference<float>*
 FileReferences::ref(size_t idx)
 {
 #if USE_SHPTR
-  return m_fRefs[idx].get();
+  return m_fRefs.at(idx).get();
 #else
-  return m_fRefs[idx];
+  return m_fRefs.at(idx);
 #endif
 }
 
@@ -985,9 +1054,9 @@ inline Reference<V3f>*
 FileReferences::ref(size_t idx)
 {
 #if USE_SHPTR
-  return m_vfRefs[idx].get();
+  return m_vfRefs.at(idx).get();
 #else
-  return m_vfRefs[idx];
+  return m_vfRefs.at(idx);
 #endif
 }
 
@@ -998,9 +1067,9 @@ inline Reference<double>*
 FileReferences::ref(size_t idx)
 {
 #if USE_SHPTR
-  return m_dRefs[idx].get();
+  return m_dRefs.at(idx).get();
 #else
-  return m_dRefs[idx];
+  return m_dRefs.at(idx);
 #endif
 }
 
@@ -1011,9 +1080,9 @@ inline Reference<V3d>*
 FileReferences::ref(size_t idx)
 {
 #if USE_SHPTR
-  return m_vdRefs[idx].get();
+  return m_vdRefs.at(idx).get();
 #else
-  return m_vdRefs[idx];
+  return m_vdRefs.at(idx);
 #endif
 }
 
@@ -1024,8 +1093,7 @@ inline size_t FileReferences::append<half>(Reference<half>::Ptr ref)
 {
   Mutex::scoped_lock lock(m_mutex);
 
-  m_hRefs.push_back(ref);
-  return m_hRefs.size() - 1;
+  return m_hRefs.push_back(ref);
 }
 
 //----------------------------------------------------------------------------//
@@ -1035,8 +1103,7 @@ inline size_t FileReferences::append<V3h>(Reference<V3h>::Ptr ref)
 {
   Mutex::scoped_lock lock(m_mutex);
 
-  m_vhRefs.push_back(ref);
-  return m_vhRefs.size() - 1;
+  return m_vhRefs.push_back(ref);
 }
 
 //----------------------------------------------------------------------------//
@@ -1046,8 +1113,7 @@ inline size_t FileReferences::append<float>(Reference<float>::Ptr ref)
 {
   Mutex::scoped_lock lock(m_mutex);
 
-  m_fRefs.push_back(ref);
-  return m_fRefs.size() - 1;
+  return m_fRefs.push_back(ref);
 }
 
 //----------------------------------------------------------------------------//
@@ -1057,8 +1123,7 @@ inline size_t FileReferences::append<V3f>(Reference<V3f>::Ptr ref)
 {
   Mutex::scoped_lock lock(m_mutex);
 
-  m_vfRefs.push_back(ref);
-  return m_vfRefs.size() - 1;
+  return m_vfRefs.push_back(ref);
 }
 
 //----------------------------------------------------------------------------//
@@ -1068,8 +1133,7 @@ inline size_t FileReferences::append<double>(Reference<double>::Ptr ref)
 {
   Mutex::scoped_lock lock(m_mutex);
 
-  m_dRefs.push_back(ref);
-  return m_dRefs.size() - 1;
+  return m_dRefs.push_back(ref);
 }
 
 //----------------------------------------------------------------------------//
@@ -1079,8 +1143,7 @@ inline size_t FileReferences::append<V3d>(Reference<V3d>::Ptr ref)
 {
   Mutex::scoped_lock lock(m_mutex);
 
-  m_vdRefs.push_back(ref);
-  return m_vdRefs.size() - 1;
+  return m_vdRefs.push_back(ref);
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 2996790..a55d8a9 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -485,7 +485,7 @@ long long int SparseFile::FileReferences::memSize() const
 
   long long int size = 0;
 
-  // Size of the std::deque's
+  // Size of the lists
   size += m_hRefs.size() * sizeof(Reference<half>::Ptr);
   size += m_vhRefs.size() * sizeof(Reference<V3h>::Ptr);
   size += m_fRefs.size() * sizeof(Reference<float>::Ptr);
@@ -495,22 +495,22 @@ long long int SparseFile::FileReferences::memSize() const
 
   // Size of the references themselves
   for (size_t i = 0, end = m_hRefs.size(); i < end; ++i) {
-    size += m_hRefs[i]->memSize();
+    size += m_hRefs.at(i)->memSize();
   }
   for (size_t i = 0, end = m_vhRefs.size(); i < end; ++i) {
-    size += m_vhRefs[i]->memSize();
+    size += m_vhRefs.at(i)->memSize();
   }
   for (size_t i = 0, end = m_fRefs.size(); i < end; ++i) {
-    size += m_fRefs[i]->memSize();
+    size += m_fRefs.at(i)->memSize();
   }
   for (size_t i = 0, end = m_vfRefs.size(); i < end; ++i) {
-    size += m_vfRefs[i]->memSize();
+    size += m_vfRefs.at(i)->memSize();
   }
   for (size_t i = 0, end = m_dRefs.size(); i < end; ++i) {
-    size += m_dRefs[i]->memSize();
+    size += m_dRefs.at(i)->memSize();
   }
   for (size_t i = 0, end = m_vdRefs.size(); i < end; ++i) {
-    size += m_vdRefs[i]->memSize();
+    size += m_vdRefs.at(i)->memSize();
   }
   
   return size;
-- 
2.43.0


From aaa81791e5e589badc9c1a9445567a5b5257938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 030/104] fix: create the sparse file manager once when threads
 race for it

---
 src/SparseFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index a55d8a9..255f1bc 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -65,6 +65,10 @@ boost::scoped_ptr<SparseFileManager> SparseFileManager::ms_singleton;
 
 SparseFileManager & SparseFileManager::singleton()
 { 
+  // Only one thread gets to create the instance
+  static boost::mutex s_mutex;
+  boost::mutex::scoped_lock lock(s_mutex);
+
   if (ms_singleton.get() == NULL) {
     ms_singleton.reset(new SparseFileManager);
   }
-- 
2.43.0


From f254e0eb8afc73e00d4868c75f2f5a46cccde023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 031/104] fix: only the last release of a reference-counted
 object deletes it

The count was decremented and then read again, so that two threads could
both see zero, or one could read the count of a deleted object.
---
 export/RefCount.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..68a64a7 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,12 +156,14 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \return The number of references left. Only the thread that sees zero 
+  //! may delete the object.
+  size_t unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
+    return --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
   }
@@ -238,9 +240,7 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From 582ef9f2568d7536caf0c7b85e26743795ee1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 032/104] fix: looking up a cached field never revives one that
 is being deleted

The weak pointer only expires once the field's destructor has run, so a
lookup could return a field whose last reference was already gone. The
reference count now outlives the object, and the cache takes a reference
only if there still is one.
---
 export/FieldCache.h |  57 +++++++++++++++--------
 export/RefCount.h   | 109 +++++++++++++++++++++++++++++---------------
 2 files changed, 111 insertions(+), 55 deletions(-)

diff --git a/export/FieldCache.h b/export/FieldCache.h
index cecfd72..dbc831a 100644
--- a/export/FieldCache.h
+++ b/export/FieldCache.h
@@ -50,6 +50,8 @@
 #include <boost/thread/mutex.hpp>
 #include <boost/foreach.hpp>
 
+#include <vector>
+
 #include "Field.h"
 
 //----------------------------------------------------------------------------//
@@ -86,7 +88,7 @@ public:
   typedef Field<Data_T> Field_T;
   typedef typename Field_T::Ptr FieldPtr;
   typedef typename Field_T::WeakPtr WeakPtr;
-  typedef std::pair<WeakPtr, Field_T*> CacheEntry;
+  typedef std::pair<RefBase::WeakCounterPtr, Field_T*> CacheEntry;
   typedef std::map<std::string, CacheEntry> Cache;
 
   // Access to singleton -------------------------------------------------------
@@ -111,6 +113,9 @@ private:
 
   // Utility functions --------------------------------------------------------
 
+  //! Returns a pointer to the field of the entry, or null if the field is no
+  //! longer alive
+  static FieldPtr livePtr(const CacheEntry &entry);
   //! Constructs the cache key for a given file and layer path.
   std::string key(const std::string &filename,
                   const std::string &layerPath);
@@ -154,13 +159,8 @@ FieldCache<Data_T>::getCachedField(const std::string &filename,
   if (i == m_cache.end()) {
     return FieldPtr();
   }
-  // Next, check if all weak_ptrs are valid
-  CacheEntry &entry = i->second;
-  WeakPtr weakPtr = entry.first;
-  if (weakPtr.expired()) {
-    return FieldPtr();
-  }
-  return FieldPtr(entry.second);
+  // Next, check if the field is still alive
+  return livePtr(i->second);
 }
 
 //----------------------------------------------------------------------------//
@@ -171,7 +171,7 @@ void FieldCache<Data_T>::cacheField(FieldPtr field, const std::string &filename,
 {
   boost::mutex::scoped_lock lock(ms_accessMutex);
   m_cache[key(filename, layerPath)] = 
-    std::make_pair(field->weakPtr(), field.get());
+    CacheEntry(field->weakCounterPtr(), field.get());
 }
 
 //----------------------------------------------------------------------------//
@@ -179,19 +179,24 @@ void FieldCache<Data_T>::cacheField(FieldPtr field, const std::string &filename,
 template <typename Data_T>
 long long int FieldCache<Data_T>::memSize() const
 {
-  boost::mutex::scoped_lock lock(ms_accessMutex);
+  // Keep the fields alive while looking at them. They must not be released
+  // with the lock held, in case these are the last references.
+  std::vector<FieldPtr> fields;
+
+  {
+    boost::mutex::scoped_lock lock(ms_accessMutex);
+    BOOST_FOREACH (const typename Cache::value_type &i, m_cache) {
+      if (FieldPtr field = livePtr(i.second)) {
+        fields.push_back(field);
+      }
+    }
+  }
 
+  // Accumulate memory
   long long int memSize = 0;
 
-  BOOST_FOREACH (const typename Cache::value_type &i, m_cache) {
-    // Check if pointer is valid
-    WeakPtr weakPtr = i.second.first;
-    if (weakPtr.expired()) {
-      continue;
-    } else {
-      // If valid, accumulate memory
-      memSize += i.second.second->memSize();
-    }
+  BOOST_FOREACH (const FieldPtr &field, fields) {
+    memSize += field->memSize();
   }
 
   return memSize;
@@ -199,6 +204,20 @@ long long int FieldCache<Data_T>::memSize() const
 
 //----------------------------------------------------------------------------//
 
+template <typename Data_T>
+typename FieldCache<Data_T>::FieldPtr 
+FieldCache<Data_T>::livePtr(const CacheEntry &entry)
+{
+  boost::shared_ptr<RefCounter> counter = entry.first.lock();
+  if (!counter || !counter->incIfAlive()) {
+    return FieldPtr();
+  }
+  // The count was incremented already
+  return FieldPtr(entry.second, false);
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 std::string FieldCache<Data_T>::key(const std::string &filename,
                                     const std::string &layerPath)
diff --git a/export/RefCount.h b/export/RefCount.h
index 68a64a7..685934e 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -51,11 +51,10 @@
 
 #include <boost/shared_ptr.hpp>
 #include <boost/weak_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 
 #ifdef FIELD3D_USE_ATOMIC_COUNT
 #include <boost/detail/atomic_count.hpp>
-#else
-#include <boost/thread/mutex.hpp>
 #endif
 
 #include <string.h>
@@ -89,16 +88,66 @@ FIELD3D_NAMESPACE_OPEN
   DEFINE_MATCH_RTTI_CALL                        \
 
 //----------------------------------------------------------------------------//
-// null_deleter (for shared_ptr)
+// RefCounter
 //----------------------------------------------------------------------------//
 
-//! Used to let a shared pointer exist that doesn't delete anything.
-//! This is used by RefBase to hold a shared pointer to *this without
-//! actually deleting twice when the object goes out of scope.
-struct null_deleter
+//! The reference count of a RefBase object. It is kept outside the object so 
+//! that the FieldCache can safely find out whether the object is still alive.
+class RefCounter
 {
-  void operator()(void const *) const
+public:
+
+  RefCounter()
+    : m_counter(0)
   { }
+
+  //! Returns the current count
+  size_t count() const
+  { return m_counter; }
+
+  //! Increments the count
+  void inc()
+  { 
+#ifndef FIELD3D_USE_ATOMIC_COUNT
+    boost::mutex::scoped_lock lock(m_mutex);
+#endif
+    ++m_counter; 
+  }
+
+  //! Decrements the count
+  //! \return The new count
+  size_t dec()
+  { 
+#ifndef FIELD3D_USE_ATOMIC_COUNT
+    boost::mutex::scoped_lock lock(m_mutex);
+#endif
+    return --m_counter; 
+  }
+
+  //! Increments the count, unless the last reference is gone
+  //! \return Whether the count was incremented
+  bool incIfAlive()
+  {
+    boost::mutex::scoped_lock lock(m_mutex);
+    if (++m_counter == 1) {
+      // Too late, the thread that let go of the last reference will delete 
+      // the object
+      --m_counter;
+      return false;
+    }
+    return true;
+  }
+
+private:
+
+#ifdef FIELD3D_USE_ATOMIC_COUNT
+  boost::detail::atomic_count m_counter;
+#else
+  long m_counter;
+#endif
+  //! Mutex for ref counting
+  boost::mutex m_mutex;
+
 };
 
 //----------------------------------------------------------------------------//
@@ -111,6 +160,7 @@ public:
 
   typedef boost::intrusive_ptr<RefBase> Ptr;
   typedef boost::weak_ptr<RefBase>      WeakPtr;
+  typedef boost::weak_ptr<RefCounter>   WeakCounterPtr;
 
   // Constructors --------------------------------------------------------------
 
@@ -118,16 +168,16 @@ public:
   //! \{
 
   RefBase() 
-    : m_counter(0), 
-      m_sharedPtr(this, null_deleter()) 
+    : m_counter(new RefCounter), 
+      m_sharedPtr(m_counter, this) 
   { }
 
   //! Copy constructor
-  //! \note The null_deleter ensures we never try to actually delete this
-  //! object using the shared pointer.
+  //! \note The shared pointer never deletes this object, it only shares 
+  //! ownership of the counter.
   RefBase(const RefBase&) 
-    : m_counter(0),
-      m_sharedPtr(this, null_deleter()) 
+    : m_counter(new RefCounter),
+      m_sharedPtr(m_counter, this) 
   { }
 
   //! Assignment operator
@@ -144,26 +194,18 @@ public:
 
   //! Used by boost::intrusive_pointer
   size_t refcnt() 
-  { return m_counter; }
+  { return m_counter->count(); }
     
   //! Used by boost::intrusive_pointer
   void ref() const
-  { 
-#ifndef FIELD3D_USE_ATOMIC_COUNT
-    boost::mutex::scoped_lock lock(m_refMutex);
-#endif
-    ++m_counter; 
-  }
+  { m_counter->inc(); }
 
   //! Used by boost::intrusive_pointer
   //! \return The number of references left. Only the thread that sees zero 
   //! may delete the object.
   size_t unref() const
-  {
-#ifndef FIELD3D_USE_ATOMIC_COUNT
-    boost::mutex::scoped_lock lock(m_refMutex);
-#endif
-    return --m_counter; 
+  { 
+    return m_counter->dec(); 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
   }
@@ -173,6 +215,10 @@ public:
   WeakPtr weakPtr() const
   { return m_sharedPtr; }
 
+  //! For use by the FieldCache only
+  WeakCounterPtr weakCounterPtr() const
+  { return m_counter; }
+
   // RTTI replacement ----------------------------------------------------------
 
   /*! \note A note on why the RTTI replacement is needed:
@@ -209,15 +255,8 @@ public:
 private:
 
   //! For boost intrusive pointer
-#ifdef FIELD3D_USE_ATOMIC_COUNT
-  mutable boost::detail::atomic_count m_counter;
-#else
-  mutable long m_counter;
-  //! Mutex for ref counting
-  mutable boost::mutex m_refMutex;     
-#endif
+  boost::shared_ptr<RefCounter> m_counter;
 
-  //! For use by the FieldCache only:
   //! The shared pointer lets us see if this object is still alive.
   boost::shared_ptr<RefBase> m_sharedPtr;
 
@@ -235,8 +274,6 @@ intrusive_ptr_add_ref(RefBase* r)
 
 //----------------------------------------------------------------------------//
 
-//! \todo Communicate with the FieldCache to prevent any cache updates from
-//! happening while this releases its count.
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-- 
2.43.0


From 433587dc6d91e16d4e08f526af62e5ac413519be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 033/104] fix: fields can be cast to FieldBase

---
 export/Field.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/export/Field.h b/export/Field.h
index 5895eb5..adc5a2c 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -96,6 +96,7 @@ public:
 
   typedef boost::intrusive_ptr<FieldBase> Ptr;
   typedef FieldBase class_type;
+  typedef RefBase base;
 
   // Constructors --------------------------------------------------------------
 
@@ -115,6 +116,8 @@ public:
 
   // RTTI replacement ----------------------------------------------------------
 
+  DEFINE_FIELD_RTTI_ABSTRACT_CLASS;
+
   static const char *staticClassName()
   {
     return "FieldBase";
-- 
2.43.0


From 9e13fd00bfaa53561bd59dcec4101577342f123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 034/104] fix: empty fields of different data types are
 different run-time types

---
 export/EmptyField.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index a4e329f..9598d2a 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -128,12 +128,12 @@ public:
 
   static const char *staticClassName()
   {
-    return staticClassType();
+    return "EmptyField";
   }
   
   static const char *staticClassType()
   {
-    return "EmptyField";
+    return EmptyField<Data_T>::ms_classType.name();
   }
 
   // From WritableField base class -----------------------------------------
@@ -168,12 +168,22 @@ public:
 
  private:
 
+  // Static data members -------------------------------------------------------
+
+  static TemplatedFieldType<EmptyField<Data_T> > ms_classType;
+
   // Typedefs ------------------------------------------------------------------
 
   typedef ResizableField<Data_T> base;
 
 };
 
+//----------------------------------------------------------------------------//
+// Static member instantiations
+//----------------------------------------------------------------------------//
+
+FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(EmptyField);
+
 //----------------------------------------------------------------------------//
 // EmptyField implementations
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 801c1dfe6dac70058d04dbf03ca5453a0bc424e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 035/104] fix: plugins stay registered with the class factory,
 which is created only once

---
 src/ClassFactory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 8debdc0..0a4cc80 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -41,6 +41,8 @@
 
 //----------------------------------------------------------------------------//
 
+#include <boost/thread/recursive_mutex.hpp>
+
 #include "ClassFactory.h"
 #include "PluginLoader.h"
 
@@ -64,7 +66,7 @@ boost::scoped_ptr<ClassFactory> ClassFactory::ms_instance;
 
 ClassFactory::ClassFactory()
 {
-  PluginLoader::loadPlugins();
+  // Empty
 }
 
 //----------------------------------------------------------------------------//
@@ -277,8 +279,14 @@ ClassFactory::createFieldMappingIO(const std::string &className) const
 ClassFactory& 
 ClassFactory::singleton()
 { 
+  // Recursive, since the plugins use the singleton to register themselves
+  static boost::recursive_mutex mutex;
+  boost::recursive_mutex::scoped_lock lock(mutex);
+
   if (ms_instance.get() == NULL) {
     ms_instance.reset(new ClassFactory);
+    // The instance must exist before loading the plugins
+    PluginLoader::loadPlugins();
   }
   return *ms_instance;
 }
-- 
2.43.0


From 49c554e84ef9e4ba2963d99541c05112b3ddaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 036/104] fix: classes may be registered and created from
 several threads

---
 export/ClassFactory.h |  4 +++
 src/ClassFactory.cpp  | 57 +++++++++++++++++++++++++++++++++----------
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/export/ClassFactory.h b/export/ClassFactory.h
index 744a2e8..cbecdeb 100644
--- a/export/ClassFactory.h
+++ b/export/ClassFactory.h
@@ -45,6 +45,7 @@
 #define _INCLUDED_Field3D_ClassFactory_H_
 
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <vector>
 
@@ -161,6 +162,9 @@ private:
   //! 
   NameVec m_fieldMappingIONames;
 
+  //! Mutex protecting the maps and name lists
+  mutable boost::mutex m_mutex;
+
   //! Pointer to static instance
   static boost::scoped_ptr<ClassFactory> ms_instance;
 
diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 0a4cc80..3ed0a97 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -90,6 +90,8 @@ void ClassFactory::registerField(CreateFieldFnPtr createFunc)
   string dataTypeName = instance->dataTypeString();
   string className = simpleClassName + "<" + dataTypeName + ">";
   
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldFuncMap::const_iterator i = m_fields.find(className);
   if (i != m_fields.end())
     nameExists = true;  
@@ -115,9 +117,15 @@ void ClassFactory::registerField(CreateFieldFnPtr createFunc)
 FieldRes::Ptr 
 ClassFactory::createField(const std::string &className) const
 {
-  FieldFuncMap::const_iterator i = m_fields.find(className);
-  if (i != m_fields.end())
-   return i->second();
+  CreateFieldFnPtr createFunc = NULL;
+  {
+    boost::mutex::scoped_lock lock(m_mutex);
+    FieldFuncMap::const_iterator i = m_fields.find(className);
+    if (i != m_fields.end())
+      createFunc = i->second;
+  }
+  if (createFunc)
+    return createFunc();
   else
     return FieldRes::Ptr();
 }
@@ -141,6 +149,8 @@ void ClassFactory::registerFieldIO(CreateFieldIOFnPtr createFunc)
 
   string className = instance->className();
 
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldIOFuncMap::const_iterator i = m_fieldIOs.find(className);
   if (i != m_fieldIOs.end())
     nameExists = true;  
@@ -166,10 +176,15 @@ void ClassFactory::registerFieldIO(CreateFieldIOFnPtr createFunc)
 FieldIO::Ptr 
 ClassFactory::createFieldIO(const std::string &className) const
 {
-//  FieldIOFuncMap::const_iterator m = m_fieldIOs.begin();
-  FieldIOFuncMap::const_iterator i = m_fieldIOs.find(className);
-  if (i != m_fieldIOs.end())
-    return i->second();
+  CreateFieldIOFnPtr createFunc = NULL;
+  {
+    boost::mutex::scoped_lock lock(m_mutex);
+    FieldIOFuncMap::const_iterator i = m_fieldIOs.find(className);
+    if (i != m_fieldIOs.end())
+      createFunc = i->second;
+  }
+  if (createFunc)
+    return createFunc();
   else
     return FieldIO::Ptr();
 }
@@ -193,6 +208,8 @@ void ClassFactory::registerFieldMapping(CreateFieldMappingFnPtr createFunc)
 
   string className = instance->className();
 
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldMappingFuncMap::const_iterator i = m_mappings.find(className);
   if (i != m_mappings.end())
     nameExists = true;  
@@ -217,9 +234,15 @@ void ClassFactory::registerFieldMapping(CreateFieldMappingFnPtr createFunc)
 FieldMapping::Ptr 
 ClassFactory::createFieldMapping(const std::string &className) const
 {
-  FieldMappingFuncMap::const_iterator i = m_mappings.find(className);
-  if (i != m_mappings.end())
-    return i->second();
+  CreateFieldMappingFnPtr createFunc = NULL;
+  {
+    boost::mutex::scoped_lock lock(m_mutex);
+    FieldMappingFuncMap::const_iterator i = m_mappings.find(className);
+    if (i != m_mappings.end())
+      createFunc = i->second;
+  }
+  if (createFunc)
+    return createFunc();
   else
     return FieldMapping::Ptr();
 }
@@ -243,6 +266,8 @@ void ClassFactory::registerFieldMappingIO(CreateFieldMappingIOFnPtr createFunc)
 
   string className = instance->className();
 
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldMappingIOFuncMap::const_iterator i = m_mappingIOs.find(className);
   if (i != m_mappingIOs.end())
     nameExists = true;  
@@ -267,9 +292,15 @@ void ClassFactory::registerFieldMappingIO(CreateFieldMappingIOFnPtr createFunc)
 FieldMappingIO::Ptr 
 ClassFactory::createFieldMappingIO(const std::string &className) const
 {
-  FieldMappingIOFuncMap::const_iterator i = m_mappingIOs.find(className);
-  if (i != m_mappingIOs.end())
-    return i->second();
+  CreateFieldMappingIOFnPtr createFunc = NULL;
+  {
+    boost::mutex::scoped_lock lock(m_mutex);
+    FieldMappingIOFuncMap::const_iterator i = m_mappingIOs.find(className);
+    if (i != m_mappingIOs.end())
+      createFunc = i->second;
+  }
+  if (createFunc)
+    return createFunc();
   else
     return FieldMappingIO::Ptr();
 }
-- 
2.43.0


From 7b773d0299eddb96f7289fbffc85c766c96606ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 037/104] fix: cubic interpolation clamps to the lower border
 of the data window

---
 export/FieldInterp.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 9a7c701..841ecdc 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -654,9 +654,11 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Voxel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
+  const Box3i &dataWindow = data.dataWindow();
+
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
@@ -667,8 +669,6 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Fractions
   FIELD3D_VEC3_T<double> t(p - static_cast<FIELD3D_VEC3_T<double> >(c));
 
-  const Box3i &dataWindow = data.dataWindow();
-
   // Clamp the coordinates
   int im, jm, km;
   im = std::max(dataWindow.min.x, std::min(c.x, dataWindow.max.x));
@@ -1088,13 +1088,13 @@ CubicGenericFieldInterp<Field_T>::sample(const Field_T &data,
   // Pixel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
-
   const Box3i &dataWindow = data.dataWindow();
 
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
+
   // Lower left corner
   V3i c(static_cast<int>(floor(p.x)), 
         static_cast<int>(floor(p.y)), 
@@ -1217,10 +1217,14 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // X component ---
 
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(vsP.x,
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
+                 std::max(dataWindow.min.y + 0.5, vsP.y),
+                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  // Faces start at the border of the data window
+  V3d clampedFaceVsP(std::max(static_cast<double>(dataWindow.min.x), vsP.x),
+                     std::max(static_cast<double>(dataWindow.min.y), vsP.y),
+                     std::max(static_cast<double>(dataWindow.min.z), vsP.z));
+  FIELD3D_VEC3_T<double> p(clampedFaceVsP.x,
                            clampedVsP.y - 0.5,
                            clampedVsP.z - 0.5);
 
@@ -1329,7 +1333,7 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Y component ---
 
-  p.setValue(clampedVsP.x - 0.5, vsP.y , clampedVsP.z - 0.5);
+  p.setValue(clampedVsP.x - 0.5, clampedFaceVsP.y, clampedVsP.z - 0.5);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
@@ -1434,7 +1438,7 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Z component ---
 
-  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, vsP.z);
+  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, clampedFaceVsP.z);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
-- 
2.43.0


From b4c5c0179548745214d310dce97cb9f79cbcb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 038/104] fix: procedural fields are sampled at their local
 space position

---
 export/FieldInterp.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 841ecdc..430be26 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -1551,8 +1551,10 @@ Data_T
 ProceduralFieldLookup<Data_T>::sample(const ProceduralField<Data_T> &data,
                                       const V3d &vsP) const 
 {
-  V3d voxelScale = V3d(1.0) / data.dataResolution();
-  V3d lsP = vsP * voxelScale;
+  // Local space spans the extents of the field
+  const Box3i &extents = data.extents();
+  V3d voxelScale = V3d(1.0) / V3d(extents.size() + V3i(1));
+  V3d lsP = (vsP - V3d(extents.min)) * voxelScale;
   return data.lsSample(lsP);
 }
 
-- 
2.43.0


From 90abf99cedae1800ffcdce2aa0abbc189abee6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 039/104] fix: interpolation at points far outside the field

---
 export/Field.h       | 15 ++++++++++++++
 export/FieldInterp.h | 49 +++++++++++++++++++++++++-------------------
 export/SparseField.h |  3 ++-
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index adc5a2c..8447df5 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1130,6 +1130,21 @@ inline V3d discToCont(const V3i &discCoord)
 
 //----------------------------------------------------------------------------//
 
+//! Moves a voxel space point that lies far outside the data window (or at
+//! infinity) next to it, so that its voxel coordinates are valid integers.
+//! Interpolated values are not affected, since they're constant there.
+inline V3d nearDataWindow(const V3d &vsP, const Box3i &dataWindow)
+{
+  V3d result;
+  for (int c = 0; c < 3; ++c) {
+    result[c] = std::max(dataWindow.min[c] - 2.0, 
+                         std::min(dataWindow.max[c] + 4.0, vsP[c]));
+  }
+  return result;
+}
+
+//----------------------------------------------------------------------------//
+
 inline Box3d continuousBounds(const Box3i &bbox)
 {
   Box3d result;
diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 430be26..48a1451 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -609,7 +609,8 @@ Data_T LinearFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Voxel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  FIELD3D_VEC3_T<double> p(vsP - FIELD3D_VEC3_T<double>(0.5));
+  FIELD3D_VEC3_T<double> p(nearDataWindow(vsP, data.dataWindow()) - 
+                           FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
   V3i c1(static_cast<int>(floor(p.x)), 
@@ -656,9 +657,10 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // point locations, not coordinate shifts.
   const Box3i &dataWindow = data.dataWindow();
 
-  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
-                 std::max(dataWindow.min.y + 0.5, vsP.y),
-                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  const V3d q(nearDataWindow(vsP, dataWindow));
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, q.x),
+                 std::max(dataWindow.min.y + 0.5, q.y),
+                 std::max(dataWindow.min.z + 0.5, q.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
@@ -778,7 +780,8 @@ LinearGenericFieldInterp<Field_T>::sample(const Field_T &data,
   // Pixel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  FIELD3D_VEC3_T<double> p(vsP - FIELD3D_VEC3_T<double>(0.5));
+  FIELD3D_VEC3_T<double> p(nearDataWindow(vsP, data.dataWindow()) - 
+                           FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
   V3i c1(static_cast<int>(floor(p.x)), 
@@ -822,11 +825,12 @@ Data_T LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
 
-  const Box3i &dataWindow = data.dataWindow();      
+  const Box3i &dataWindow = data.dataWindow();
+  const V3d q(nearDataWindow(vsP, dataWindow));
 
   Data_T ret;
 
-  FIELD3D_VEC3_T<double> p(vsP.x , vsP.y - 0.5, vsP.z - 0.5);
+  FIELD3D_VEC3_T<double> p(q.x , q.y - 0.5, q.z - 0.5);
 
   // X component ---
 
@@ -862,7 +866,7 @@ Data_T LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Y component ---
 
-  p.setValue(vsP.x - 0.5, vsP.y , vsP.z - 0.5);
+  p.setValue(q.x - 0.5, q.y , q.z - 0.5);
 
   // Lower left corner
   c1.x = static_cast<int>(floor(p.x ));
@@ -898,7 +902,7 @@ Data_T LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Z component ---
 
-  p.setValue(vsP.x - 0.5 , vsP.y - 0.5, vsP.z);
+  p.setValue(q.x - 0.5 , q.y - 0.5, q.z);
 
   // Lower left corner
   c1.x = static_cast<int>(floor(p.x ));
@@ -947,6 +951,7 @@ double LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
   // point locations, not coordinate shifts.
                                               
   const Box3i &dataWindow = data.dataWindow();
+  const V3d q(nearDataWindow(vsP, dataWindow));
 
   double ret = 0.0;
   FIELD3D_VEC3_T<double> p;
@@ -958,7 +963,7 @@ double LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
     // U component ---
     case MACCompU:
     {
-      p.setValue<>(vsP.x, vsP.y-0.5, vsP.z-0.5);
+      p.setValue<>(q.x, q.y-0.5, q.z-0.5);
 
       // Lower left corner
       c1.x = static_cast<int>(floor(p.x));
@@ -996,7 +1001,7 @@ double LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
     // Y component ---
     case MACCompV:
     {
-      p.setValue(vsP.x-0.5, vsP.y, vsP.z-0.5);
+      p.setValue(q.x-0.5, q.y, q.z-0.5);
 
       // Lower left corner
       c1.x = static_cast<int>(floor(p.x ));
@@ -1034,7 +1039,7 @@ double LinearMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
     // W component ---
     case MACCompW:
     {  
-      p.setValue(vsP.x-0.5, vsP.y-0.5, vsP.z);
+      p.setValue(q.x-0.5, q.y-0.5, q.z);
 
       // Lower left corner
       c1.x = static_cast<int>(floor(p.x ));
@@ -1090,9 +1095,10 @@ CubicGenericFieldInterp<Field_T>::sample(const Field_T &data,
   // point locations, not coordinate shifts.
   const Box3i &dataWindow = data.dataWindow();
 
-  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
-                 std::max(dataWindow.min.y + 0.5, vsP.y),
-                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  const V3d q(nearDataWindow(vsP, dataWindow));
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, q.x),
+                 std::max(dataWindow.min.y + 0.5, q.y),
+                 std::max(dataWindow.min.z + 0.5, q.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
@@ -1217,13 +1223,14 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // X component ---
 
-  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, vsP.x),
-                 std::max(dataWindow.min.y + 0.5, vsP.y),
-                 std::max(dataWindow.min.z + 0.5, vsP.z));
+  const V3d q(nearDataWindow(vsP, dataWindow));
+  V3d clampedVsP(std::max(dataWindow.min.x + 0.5, q.x),
+                 std::max(dataWindow.min.y + 0.5, q.y),
+                 std::max(dataWindow.min.z + 0.5, q.z));
   // Faces start at the border of the data window
-  V3d clampedFaceVsP(std::max(static_cast<double>(dataWindow.min.x), vsP.x),
-                     std::max(static_cast<double>(dataWindow.min.y), vsP.y),
-                     std::max(static_cast<double>(dataWindow.min.z), vsP.z));
+  V3d clampedFaceVsP(std::max(static_cast<double>(dataWindow.min.x), q.x),
+                     std::max(static_cast<double>(dataWindow.min.y), q.y),
+                     std::max(static_cast<double>(dataWindow.min.z), q.z));
   FIELD3D_VEC3_T<double> p(clampedFaceVsP.x,
                            clampedVsP.y - 0.5,
                            clampedVsP.z - 0.5);
diff --git a/export/SparseField.h b/export/SparseField.h
index 5d6f757..2284bd0 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -114,7 +114,8 @@ public:
     // Pixel centers are at .5 coordinates
     // NOTE: Don't use contToDisc for this, we're looking for sample
     // point locations, not coordinate shifts.
-    FIELD3D_VEC3_T<double> p(vsP - FIELD3D_VEC3_T<double>(0.5));
+    FIELD3D_VEC3_T<double> p(nearDataWindow(vsP, field.dataWindow()) - 
+                             FIELD3D_VEC3_T<double>(0.5));
 
     // Lower left corner
     V3i c1(static_cast<int>(floor(p.x)),
-- 
2.43.0


From 254b84cfa9c96d0def9e7362eeb6e1d6c42e5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 040/104] fix: voxels of a resized dense vector field start out
 as zero

---
 export/DenseField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/DenseField.h b/export/DenseField.h
index b33c7b5..7d2e757 100644
--- a/export/DenseField.h
+++ b/export/DenseField.h
@@ -664,7 +664,8 @@ void DenseField<Data_T>::sizeChanged()
   // Allocate memory
   try {
     std::vector<Data_T>().swap(m_data);
-    m_data.resize(m_memSize.x * m_memSize.y * m_memSize.z);
+    m_data.resize(m_memSize.x * m_memSize.y * m_memSize.z, 
+                  static_cast<Data_T>(0));
   }
   catch (std::bad_alloc &) {
     throw Exc::MemoryException("Couldn't allocate DenseField of size " + 
-- 
2.43.0


From 98c40d60b8a38405988da3aaa74660ce4e322335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 041/104] fix: threads building a MIP level never share a block
 of a sparse target

---
 export/MIPUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..692eb05 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -375,7 +375,8 @@ namespace detail {
     tgt.setSize(res);
     
     // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // Threads may not share the blocks of the field they write to
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From fce75e83fe5161cad2ecc2f4b3878d1dbd223e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 042/104] fix: MIP levels of sparse fields include everything
 within filter support

---
 export/MIPUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 692eb05..3df91ed 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -138,7 +138,7 @@ namespace detail {
                        const Box3i &tgtBox, const float support,
                        const size_t dim)
   {
-    const int intSupport = static_cast<int>(std::ceil(support * 0.5));
+    const int intSupport = static_cast<int>(std::ceil(support));
     const int pad        = std::max(0, intSupport);
     Box3i     tgtBoxPad  = tgtBox;
     tgtBoxPad.min[dim]  -= pad;
-- 
2.43.0


From 335722b36eba78a152ef9114fcb0ab1d9530a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 043/104] fix: MIP levels with an offset have exactly the
 voxels that cover the finer level

---
 export/MIPUtil.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 3df91ed..4d3bd97 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -431,15 +431,13 @@ namespace detail {
                   (offset.y % 2 == 0) ? 0 : 1,
                   (offset.z % 2 == 0) ? 0 : 1);
 
-    // Compute new res
-    const Box3i baseDw  = base.dataWindow();
-    const V3i   baseRes = baseDw.size() + V3i(1);
-    const V3i   newRes  = mipResolution(baseRes, level, add);
-
     // Source res
     const Box3i srcDw  = src.dataWindow();
     const V3i   srcRes = srcDw.size() + V3i(1);
 
+    // New res, such that each (padded) source voxel is covered
+    const V3i   newRes = mipResolution(srcRes + add, 1, V3i(0));
+
     // Temporary field for y component
     Field_T tmp;
 
-- 
2.43.0


From b22ceb1f3c8fe349d8e6264621c6ab67fb11491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 044/104] fix: makeMIP refuses fields that do not start at the
 origin

---
 export/MIPUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 4d3bd97..540884b 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -497,7 +497,8 @@ makeMIP(const typename MIPField_T::NestedType &base, const int minSize,
   typedef typename MIPField_T::Ptr           MIPPtr;
   typedef std::vector<typename Src_T::Ptr>   SrcVec;
 
-  if (base.extents() != base.dataWindow()) {
+  if (base.extents() != base.dataWindow() || 
+      base.dataWindow().min != V3i(0)) {
     return MIPPtr();
   }
   
-- 
2.43.0


From 3a29490030df4e33f5251e8e78f7f86b94f9b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 045/104] fix: MIP level mappings follow the base mapping at
 every time sample

---
 src/MIPUtil.cpp | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/src/MIPUtil.cpp b/src/MIPUtil.cpp
index 886d6b8..521164c 100644
--- a/src/MIPUtil.cpp
+++ b/src/MIPUtil.cpp
@@ -104,13 +104,11 @@ namespace detail {
 
     if (MatrixFieldMapping::Ptr mfm = 
         field_dynamic_cast<MatrixFieldMapping>(mapping)) {
-      // Local space positions
-      const V3d lsOrigin(0.0), lsX(1.0, 0.0, 0.0), lsY(0.0, 1.0, 0.0), 
-        lsZ(0.0, 0.0, 0.1);
-      // Find base voxel size
-      const V3f wsBaseVoxelSize = mfm->wsVoxelSize(0, 0, 0);
-      // Compute current levels' voxel size
-      const V3f wsVoxelSize = wsBaseVoxelSize * mult;
+      // Voxel space positions
+      const V3d vsOrigin(base->extents().min);
+      const V3d vsX = vsOrigin + V3d(1.0, 0.0, 0.0);
+      const V3d vsY = vsOrigin + V3d(0.0, 1.0, 0.0);
+      const V3d vsZ = vsOrigin + V3d(0.0, 0.0, 1.0);
       // Grab the matrices
       const MatrixCurve::SampleVec lsToWsSamples = mfm->localToWorldSamples();
       // New mapping to construct
@@ -119,22 +117,22 @@ namespace detail {
       BOOST_FOREACH (const MatrixCurve::Sample &sample, lsToWsSamples){
         // Find origin and orientation vectors
         V3d wsOrigin, wsX, wsY, wsZ;
-        mfm->localToWorld(lsOrigin, wsOrigin, sample.first);
-        mfm->localToWorld(lsX, wsX, sample.first);
-        mfm->localToWorld(lsY, wsY, sample.first);
-        mfm->localToWorld(lsZ, wsZ, sample.first);
-        // Normalize orientation vectors
-        wsX = (wsX - wsOrigin).normalized();
-        wsY = (wsY - wsOrigin).normalized();
-        wsZ = (wsZ - wsOrigin).normalized();
+        mfm->voxelToWorld(vsOrigin, wsOrigin, sample.first);
+        mfm->voxelToWorld(vsX, wsX, sample.first);
+        mfm->voxelToWorld(vsY, wsY, sample.first);
+        mfm->voxelToWorld(vsZ, wsZ, sample.first);
+        // Size and direction of a base voxel at the time of the sample
+        wsX -= wsOrigin;
+        wsY -= wsOrigin;
+        wsZ -= wsOrigin;
         // Origin shift due to mip offset
-        wsOrigin += wsX * wsBaseVoxelSize.x * diff.x;
-        wsOrigin += wsY * wsBaseVoxelSize.y * diff.y;
-        wsOrigin += wsZ * wsBaseVoxelSize.z * diff.z;
-        // Mult by voxel size
-        wsX *= wsVoxelSize.x * res.x;
-        wsY *= wsVoxelSize.y * res.y;
-        wsZ *= wsVoxelSize.z * res.z;
+        wsOrigin += wsX * diff.x;
+        wsOrigin += wsY * diff.y;
+        wsOrigin += wsZ * diff.z;
+        // Mult by current level's voxel size
+        wsX *= mult * res.x;
+        wsY *= mult * res.y;
+        wsZ *= mult * res.z;
         // Construct new mapping
         M44d mtx = coordinateSystem(wsX, wsY, wsZ, wsOrigin);
         // Update mapping
-- 
2.43.0


From 68b18f7182ffa3f13743d3e14f696a7fe6c288f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 046/104] fix: one voxel thick fields can be resampled

---
 export/Resample.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/Resample.h b/export/Resample.h
index dd3abe9..109e31f 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -515,7 +515,7 @@ namespace detail {
   
     typedef typename Field_T::value_type T;
 
-    if (!src.dataWindow().hasVolume()) {
+    if (src.dataWindow().isEmpty()) {
       return false;
     }
 
-- 
2.43.0


From 9f3cebbb4510b6d3bac80ba4620f1b646d2c6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 047/104] fix: filter half float fields at full precision when
 resampling

---
 export/MIPUtil.h  | 25 +++++--------------------
 export/Resample.h | 36 +++++++++++++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 540884b..1fff45c 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -95,22 +95,6 @@ namespace detail {
 
   //--------------------------------------------------------------------------//
 
-  //! Used to delegate the choice of bit depth to process at
-  template <typename T>
-  struct ComputationType
-  {
-    typedef T type;
-  };
-
-  //! Specialization for half float
-  template <>
-  struct ComputationType<Field3D::half>
-  {
-    typedef float type;
-  };
-
-  //--------------------------------------------------------------------------//
-
   FIELD3D_API V3i mipResolution(const V3i &baseRes, const size_t level, 
                                 const V3i &add);
 
@@ -269,7 +253,7 @@ namespace detail {
                     const float weight = m_filterOp.eval(std::abs(srcP - curSrc) *
                                                          filterCoordMult);
                     // Value
-                    const Value_T value = m_src.fastValue(xIdx, yIdx, zIdx);
+                    const Value_T value(m_src.fastValue(xIdx, yIdx, zIdx));
                     // Update
                     if (weight > 0.0f) {
                       FilterOp_T::op(accumValue, value);
@@ -278,7 +262,7 @@ namespace detail {
                   // Update final value
                   if (accumValue != 
                       static_cast<Value_T>(m_filterOp.initialValue())) {
-                    m_tgt.fastLValue(i, j, k) = accumValue;
+                    m_tgt.fastLValue(i, j, k) = static_cast<T>(accumValue);
                   }
                 } else {
                   float accumWeight  = 0.0f;
@@ -306,7 +290,7 @@ namespace detail {
                     const float weight = m_filterOp.eval(std::abs(srcP - curSrc) *
                                                          filterCoordMult);
                     // Value
-                    const Value_T value = m_src.fastValue(xIdx, yIdx, zIdx);
+                    const Value_T value(m_src.fastValue(xIdx, yIdx, zIdx));
                     // Update
                     accumWeight += weight;
                     accumValue  += value * weight;
@@ -314,7 +298,8 @@ namespace detail {
                   // Update final value
                   if (accumWeight > 0.0f && 
                       accumValue != static_cast<Value_T>(0.0)) {
-                    m_tgt.fastLValue(i, j, k) = accumValue / accumWeight;
+                    m_tgt.fastLValue(i, j, k) = 
+                      static_cast<T>(accumValue / accumWeight);
                   }
                 } // if (IsAnalytic_T)
               }
diff --git a/export/Resample.h b/export/Resample.h
index 109e31f..349a9fe 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -385,6 +385,29 @@ namespace detail {
 
   //--------------------------------------------------------------------------//
 
+  //! Used to delegate the choice of bit depth to process at
+  template <typename T>
+  struct ComputationType
+  {
+    typedef T type;
+  };
+
+  //! Specialization for half float
+  template <>
+  struct ComputationType<Field3D::half>
+  {
+    typedef float type;
+  };
+
+  //! Specialization for half float vectors
+  template <>
+  struct ComputationType<V3h>
+  {
+    typedef V3f type;
+  };
+
+  //--------------------------------------------------------------------------//
+
   Box3i srcSupportBBox(const V3f &tgtP, const float support, const V3i &doUpres,
                        const V3f &srcSize, const V3f &tgtSize);
 
@@ -410,7 +433,9 @@ namespace detail {
   void separable(const Field_T &src, Field_T &tgt, const V3i &newRes,
                  const FilterOp_T &filterOp, const size_t dim)
   {
-    typedef typename Field_T::value_type T;
+    // Defer to ComputationType to determine the processing data type
+    typedef typename Field_T::value_type       Data_T;
+    typedef typename ComputationType<Data_T>::type T;
 
     const V3i   srcRes    = src.dataWindow().size() + V3i(1);
     const float srcDomain = V3f(srcRes)[dim];
@@ -450,7 +475,7 @@ namespace detail {
               const int yIdx = dim == 1 ? s : j;
               const int zIdx = dim == 2 ? s : k;
               // Value
-              const T value = src.fastValue(xIdx, yIdx, zIdx);
+              const T value(src.fastValue(xIdx, yIdx, zIdx));
               // Weights
               const float srcP   = discToCont(V3i(xIdx, yIdx, zIdx)[dim]);
               const float dist   = getDist(doUpres, srcP, tgtP, srcSize, tgtSize);
@@ -462,7 +487,7 @@ namespace detail {
             }
             // Update final value
             if (accumValue != static_cast<T>(filterOp.initialValue())) {
-              tgt.fastLValue(i, j, k) = accumValue;
+              tgt.fastLValue(i, j, k) = static_cast<Data_T>(accumValue);
             }
           } else {
             float accumWeight = 0.0f;
@@ -483,7 +508,7 @@ namespace detail {
               const int yIdx = dim == 1 ? s : j;
               const int zIdx = dim == 2 ? s : k;
               // Value
-              const T value      = src.fastValue(xIdx, yIdx, zIdx);
+              const T value(src.fastValue(xIdx, yIdx, zIdx));
               // Weights
               const float srcP   = discToCont(V3i(xIdx, yIdx, zIdx)[dim]);
               const float dist   = getDist(doUpres, srcP, tgtP, srcSize, tgtSize);
@@ -494,7 +519,8 @@ namespace detail {
             }
             // Update final value
             if (accumWeight > 0.0f && accumValue != static_cast<T>(0.0)) {
-              tgt.fastLValue(i, j, k) = accumValue / accumWeight;
+              tgt.fastLValue(i, j, k) = 
+                static_cast<Data_T>(accumValue / accumWeight);
             }
           }
         }
-- 
2.43.0


From 5d1180f16a1b9994cc8a6b8f642a813e69d63e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 048/104] fix: min and max filters handle values beyond the
 float range

---
 export/MIPUtil.h  | 11 ++++++++---
 export/Resample.h | 10 ++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 1fff45c..0d8e891 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -229,6 +229,7 @@ namespace detail {
               for (int i = box.min.x; i <= box.max.x; ++i) {
                 Value_T accumValue(m_filterOp.initialValue());
                 if (IsAnalytic_T) {
+                  bool foundValue = false;
                   // Transform from current point in target frame to source frame
                   const int   curTgt = V3i(i, j, k)[m_dim];
                   const float curSrc = discToCont(curTgt) * tgtToSrcMult - m_add[m_dim];
@@ -256,12 +257,16 @@ namespace detail {
                     const Value_T value(m_src.fastValue(xIdx, yIdx, zIdx));
                     // Update
                     if (weight > 0.0f) {
-                      FilterOp_T::op(accumValue, value);
+                      if (foundValue) {
+                        FilterOp_T::op(accumValue, value);
+                      } else {
+                        accumValue = value;
+                        foundValue = true;
+                      }
                     }
                   }
                   // Update final value
-                  if (accumValue != 
-                      static_cast<Value_T>(m_filterOp.initialValue())) {
+                  if (foundValue) {
                     m_tgt.fastLValue(i, j, k) = static_cast<T>(accumValue);
                   }
                 } else {
diff --git a/export/Resample.h b/export/Resample.h
index 349a9fe..599fb9a 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -458,6 +458,7 @@ namespace detail {
         for (int i = 0; i < newRes.x; ++i) {
           T accumValue(filterOp.initialValue());
           if (IsAnalytic_T) {
+            bool foundValue = false;
             // Current position in target coordinates
             const float tgtP = discToCont(V3i(i, j ,k)[dim]);
             // Transform support to source coordinates
@@ -482,11 +483,16 @@ namespace detail {
               const float weight = filterOp.eval(dist);
               // Update
               if (weight > 0.0f) {
-                FilterOp_T::op(accumValue, value);
+                if (foundValue) {
+                  FilterOp_T::op(accumValue, value);
+                } else {
+                  accumValue = value;
+                  foundValue = true;
+                }
               }
             }
             // Update final value
-            if (accumValue != static_cast<T>(filterOp.initialValue())) {
+            if (foundValue) {
               tgt.fastLValue(i, j, k) = static_cast<Data_T>(accumValue);
             }
           } else {
-- 
2.43.0


From 12b864b9d66b3ec94baf0eaf9b5fb8a90c19a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 049/104] fix: makeMinMax refuses fields that it cannot bound

---
 export/FieldGroup.h | 12 ++++++++----
 export/MinMaxUtil.h |  9 +++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 6266d18..ba28d4c 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1017,8 +1017,10 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMax
     for (size_t i = 0, end = vec.size(); i < end; ++i) {
       const Field_T &f = *(vec[i].field);
       result = Field3D::makeMinMax<MIPField_T>(f, m_resMult, m_numThreads);
-      m_minFields.push_back(result.first);
-      m_maxFields.push_back(result.second);
+      if (result.first && result.second) {
+        m_minFields.push_back(result.first);
+        m_maxFields.push_back(result.second);
+      }
     }
   }
   // Data members
@@ -1057,8 +1059,10 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMaxMIP
     for (size_t i = 0, end = vec.size(); i < end; ++i) {
       const Field_T &f = *(vec[i].field->concreteMipLevel(0));
       result = Field3D::makeMinMax<MIPField_T>(f, m_resMult, m_numThreads);
-      m_minFields.push_back(result.first);
-      m_maxFields.push_back(result.second);
+      if (result.first && result.second) {
+        m_minFields.push_back(result.first);
+        m_maxFields.push_back(result.second);
+      }
     }
   }
   // Data members
diff --git a/export/MinMaxUtil.h b/export/MinMaxUtil.h
index 1befbd4..16c1cd1 100644
--- a/export/MinMaxUtil.h
+++ b/export/MinMaxUtil.h
@@ -65,6 +65,8 @@ FIELD3D_NAMESPACE_OPEN
 //----------------------------------------------------------------------------//
 
 //! Constructs a min/max MIP representation of the given field.
+//! \returns A pair of null pointers if the field's extents don't match its
+//! data window or if it does not start at the origin.
 template <typename MIPField_T>
 std::pair<typename MIPField_T::Ptr, typename MIPField_T::Ptr>
 makeMinMax(const typename MIPField_T::NestedType &base, 
@@ -95,6 +97,13 @@ makeMinMax(const typename MIPField_T::NestedType &base,
   // Storage for results
   std::pair<MipPtr, MipPtr> result;
 
+  // The bounds cover the same space as the field only if the field's data 
+  // window is its extents. As in makeMIP(), it is expected to be zero-based.
+  if (base.extents() != base.dataWindow() ||
+      base.dataWindow().min != V3i(0) || base.dataWindow().isEmpty()) {
+    return result;
+  }
+
   // First, downsample the field into a min and max representation ---
 
   V3i srcRes = base.dataWindow().size() + Field3D::V3i(1);
-- 
2.43.0


From bce84a866db4d8057853cb38e18492c529a092b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 050/104] fix: MIP levels become visible to other threads only
 once fully loaded

---
 export/MIPField.h | 119 +++++++++++++++++++++++++++++++---------------
 1 file changed, 80 insertions(+), 39 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 87b06cb..831e1d3 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -46,6 +46,8 @@
 
 #include <vector>
 
+#include <atomic>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/thread/mutex.hpp>
 
@@ -72,6 +74,39 @@ DECLARE_FIELD3D_GENERIC_EXCEPTION(MIPFieldException, Exception)
 
 } // namespace Exc
 
+//----------------------------------------------------------------------------//
+// AtomicLevelPtr
+//----------------------------------------------------------------------------//
+
+namespace detail {
+
+//! Raw pointer to a MIP level, which may be read by one thread while another
+//! publishes it. Whoever sees a non-null pointer also sees the complete level.
+template <class Field_T>
+class AtomicLevelPtr
+{
+public:
+  AtomicLevelPtr(Field_T *ptr = NULL)
+    : m_ptr(ptr)
+  { }
+  AtomicLevelPtr(const AtomicLevelPtr &other)
+    : m_ptr(other.get())
+  { }
+  AtomicLevelPtr& operator = (const AtomicLevelPtr &rhs)
+  { 
+    set(rhs.get()); 
+    return *this; 
+  }
+  Field_T* get() const
+  { return m_ptr.load(std::memory_order_acquire); }
+  void set(Field_T *ptr)
+  { m_ptr.store(ptr, std::memory_order_release); }
+private:
+  std::atomic<Field_T*> m_ptr;
+};
+
+} // namespace detail
+
 //----------------------------------------------------------------------------//
 // Forward declarations 
 //----------------------------------------------------------------------------//
@@ -259,7 +294,7 @@ protected:
   //! Raw pointers to MIP levels.
   //! \note Important note: This is also used as the double-checked locking
   //! indicator.
-  mutable std::vector<Field_T*> m_rawFields;
+  mutable std::vector<detail::AtomicLevelPtr<Field_T> > m_rawFields;
   //! Resolution of each MIP level.
   mutable std::vector<V3i> m_mipRes;
   //! Relative resolution of each MIP level. Pre-computed to avoid
@@ -281,7 +316,7 @@ protected:
   //! Updates the dependent data members based on m_field
   void updateAuxMembers() const;
   //! Updates the name, attribute and metadata for a given level
-  void syncLevelInfo(const size_t level) const;
+  void syncLevelInfo(const FieldPtr &field) const;
   //! Loads the given level from disk
   void loadLevelFromDisk(size_t level) const;
   //! Sanity checks to ensure that the provided Fields are a MIP representation
@@ -353,17 +388,23 @@ template <class Field_T>
 const MIPField<Field_T>& 
 MIPField<Field_T>::init(const MIPField &rhs)
 {
-  // If any of the fields aren't yet loaded, we can rely on the same load 
-  // actions as the other one
-  m_loadActions = rhs.m_loadActions;
+  std::vector<FieldPtr> rhsFields;
+  {
+    // Another thread may be loading one of the levels of rhs
+    boost::shared_ptr<boost::mutex> rhsMutex = rhs.m_ioMutex;
+    boost::mutex::scoped_lock lock(*rhsMutex);
+    // If any of the fields aren't yet loaded, we can rely on the same load 
+    // actions as the other one
+    m_loadActions = rhs.m_loadActions;
+    rhsFields = rhs.m_fields;
+  }
   // Copy all the regular data members
   m_mipRes = rhs.m_mipRes;
   m_relativeResolution = rhs.m_relativeResolution;
   // The contained fields must be individually cloned if they have already
   // been loaded. The old levels are dropped, even where rhs has none
-  const std::vector<FieldPtr> rhsFields = rhs.m_fields;
   m_fields.assign(rhsFields.size(), FieldPtr());
-  m_rawFields.assign(rhsFields.size(), NULL);
+  m_rawFields.assign(rhsFields.size(), detail::AtomicLevelPtr<Field_T>());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
     // Update the field pointer
     if (rhsFields[i]) {
@@ -376,7 +417,7 @@ MIPField<Field_T>::init(const MIPField &rhs)
       }
     }
     // Update the raw pointer
-    m_rawFields[i] = m_fields[i].get();
+    m_rawFields[i].set(m_fields[i].get());
   }
   // New mutex
   m_ioMutex.reset(new boost::mutex);
@@ -483,11 +524,11 @@ MIPField<Field_T>::rawMipLevel(size_t level) const
 {
   assert(level < base::m_numLevels);
   // Ensure level is loaded.
-  if (!m_rawFields[level]) {
+  if (!m_rawFields[level].get()) {
     loadLevelFromDisk(level);
   } 
   // Return 
-  return m_rawFields[level];
+  return m_rawFields[level].get();
 }
 
 //----------------------------------------------------------------------------//
@@ -498,7 +539,7 @@ MIPField<Field_T>::concreteMipLevel(size_t level) const
 {
   assert(level < base::m_numLevels);
   // Ensure level is loaded.
-  if (!m_rawFields[level]) {
+  if (!m_rawFields[level].get()) {
     loadLevelFromDisk(level);
   } 
   // Return 
@@ -521,9 +562,9 @@ size_t
 MIPField<Field_T>::voxelCount() const
 {
   size_t count = 0;
-  for (size_t i = 0; i < m_fields.size(); i++) {
-    if (m_fields[i]) {
-      count += m_fields[i]->voxelCount();
+  for (size_t i = 0; i < m_rawFields.size(); i++) {
+    if (const Field_T *field = m_rawFields[i].get()) {
+      count += field->voxelCount();
     }
   }
   return count;
@@ -535,9 +576,9 @@ template <class Field_T>
 long long int MIPField<Field_T>::memSize() const
 { 
   long long int mem = 0;
-  for (size_t i = 0; i < m_fields.size(); i++) {
-    if (m_fields[i]) {
-      mem += m_fields[i]->memSize();
+  for (size_t i = 0; i < m_rawFields.size(); i++) {
+    if (const Field_T *field = m_rawFields[i].get()) {
+      mem += field->memSize();
     }
   }
   return mem + sizeof(*this);
@@ -591,7 +632,7 @@ template <class Field_T>
 bool MIPField<Field_T>::levelLoaded(const size_t level) const
 {
   assert(level < base::m_numLevels);
-  return m_rawFields[level] != NULL;
+  return m_rawFields[level].get() != NULL;
 }
 
 //----------------------------------------------------------------------------//
@@ -623,7 +664,7 @@ MIPField<Field_T>::mipLevel(const size_t level) const
 {
   assert(level < base::m_numLevels);
   // Ensure level is loaded.
-  if (!m_rawFields[level]) {
+  if (!m_rawFields[level].get()) {
     loadLevelFromDisk(level);
   } 
   // Return 
@@ -638,11 +679,11 @@ MIPField<Field_T>::fastMipValue(size_t level, int i, int j, int k) const
 {
   assert(level < base::m_numLevels);
   // Ensure level is loaded.
-  if (!m_rawFields[level]) {
+  if (!m_rawFields[level].get()) {
     loadLevelFromDisk(level);
   }
   // Read from given level
-  return m_rawFields[level]->fastValue(i, j, k);
+  return m_rawFields[level].get()->fastValue(i, j, k);
 }
 
 //----------------------------------------------------------------------------//
@@ -652,22 +693,20 @@ void MIPField<Field_T>::updateAuxMembers() const
 {
   m_rawFields.resize(m_fields.size());
   for (size_t i = 0; i < m_fields.size(); i++) {
-    m_rawFields[i] = m_fields[i].get();
+    m_rawFields[i].set(m_fields[i].get());
   }
 }
 
 //----------------------------------------------------------------------------//
 
 template <class Field_T>
-void MIPField<Field_T>::syncLevelInfo(const size_t level) const
+void MIPField<Field_T>::syncLevelInfo(const FieldPtr &field) const
 {
-  // At this point, m_fields[level] is guaranteed in memory
-  
   // First sync name, attribute
-  m_fields[level]->name      = base::name;
-  m_fields[level]->attribute = base::attribute;
+  field->name      = base::name;
+  field->attribute = base::attribute;
   // Copy metadata
-  m_fields[level]->copyMetadata(*this);
+  field->copyMetadata(*this);
 }
 
 //----------------------------------------------------------------------------//
@@ -686,28 +725,30 @@ template <class Field_T>
 void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
 {
   // Double-check locking
-  if (!m_rawFields[level]) {
+  if (!m_rawFields[level].get()) {
     boost::mutex::scoped_lock lock(*m_ioMutex);
-    if (!m_rawFields[level]) {
+    if (!m_rawFields[level].get()) {
       // Execute the lazy load action
-      m_fields[level] = m_loadActions[level]->load();
+      FieldPtr field = m_loadActions[level]->load();
       // Check that field was loaded
-      if (!m_fields[level]) {
+      if (!field) {
         throw Exc::MIPFieldException("Couldn't load MIP level: " + 
                                      boost::lexical_cast<std::string>(level));
       }
-      // Remove lazy load action
-      m_loadActions[level].reset();
-      // Update aux data
-      updateAuxMembers();
       // Ensure metadata is up to date
-      syncLevelInfo(level);
+      syncLevelInfo(field);
       // Update the mapping of the loaded field
       V3i baseRes = base::dataWindow().size() + V3i(1);
       FieldMapping::Ptr mapping = 
         detail::adjustedMIPFieldMapping(this, baseRes, 
-                                        m_fields[level]->extents(), level);
-      m_fields[level]->setMapping(mapping);
+                                        field->extents(), level);
+      field->setMapping(mapping);
+      // Remove lazy load action
+      m_loadActions[level].reset();
+      // Make the level available. Other threads don't wait for the lock once
+      // they can see the raw pointer, so that has to come last
+      m_fields[level] = field;
+      m_rawFields[level].set(field.get());
     }
   }
 }
-- 
2.43.0


From a30362e572cca8bb342c5c58bfc2e3b31085d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 051/104] fix: accessing a MIPField that was never set up
 throws an exception

---
 export/MIPField.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/export/MIPField.h b/export/MIPField.h
index 831e1d3..dff2462 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -361,6 +361,9 @@ MIPField<Field_T>::MIPField()
     m_ioMutex(new boost::mutex)
 {
   m_fields.resize(base::m_numLevels);
+  m_rawFields.resize(base::m_numLevels);
+  m_mipRes.resize(base::m_numLevels, V3i(0));
+  m_relativeResolution.resize(base::m_numLevels, V3f(1.0f));
 }
 
 //----------------------------------------------------------------------------//
@@ -432,6 +435,9 @@ void MIPField<Field_T>::clear()
 {
   m_fields.clear();
   m_rawFields.clear();
+  m_loadActions.clear();
+  m_mipRes.clear();
+  m_relativeResolution.clear();
   base::m_numLevels = 0;
   base::m_lowestLevel = 0;
 }
@@ -728,6 +734,11 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
   if (!m_rawFields[level].get()) {
     boost::mutex::scoped_lock lock(*m_ioMutex);
     if (!m_rawFields[level].get()) {
+      // A field that was never set up has nothing to load from
+      if (level >= m_loadActions.size() || !m_loadActions[level]) {
+        throw Exc::MIPFieldException("MIP level isn't available: " + 
+                                     boost::lexical_cast<std::string>(level));
+      }
       // Execute the lazy load action
       FieldPtr field = m_loadActions[level]->load();
       // Check that field was loaded
-- 
2.43.0


From 7445fbd6c800e455b35c1d89da661f2d39fdb653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 052/104] fix: a MIP level that fails to load from an HDF5 file
 leaves it closed

---
 include/MIPFieldIO.h | 60 ++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 2777a49..2dcf6e9 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -260,42 +260,54 @@ public:
   {
     using namespace Hdf5Util;
 
-    hid_t file;
-    boost::shared_ptr<H5ScopedGopen> levelGroup;
-
-    {
-      // Hold lock while calling H5Fopen
-      GlobalLock lock(g_hdf5Mutex);
-      
-      // Open the HDF5 file
-      file = H5Fopen(m_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
-      if (file < 0) {
-        throw Exc::NoSuchFileException(m_filename);
-      }
-      levelGroup.reset(new H5ScopedGopen(file, m_path));
-    }
+    // Open the HDF5 file. It is closed again even if reading the level fails
+    ScopedFile file(m_filename);
+    H5ScopedGopen levelGroup(file.id(), m_path);
 
     // Instantiate I/O
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(Field_T::staticClassName());
-    FieldBase::Ptr field = io->read(*levelGroup, m_filename, m_path, m_typeEnum);
+    FieldBase::Ptr field = io->read(levelGroup, m_filename, m_path, m_typeEnum);
     if (!field) {
       throw Exc::MIPFieldIOException("Failed to read MIP level from disk.");
     }
-    {
-      // Hold lock again
-      GlobalLock lock(g_hdf5Mutex);
-      // Close the file
-      if (H5Fclose(file) < 0) {
-        Msg::print("Error closing file: " + m_filename);
-      } 
-    }
     // Done
     return field_dynamic_cast<Field_T>(field);
   }
 
 private:
 
+  // Structs -------------------------------------------------------------------
+
+  //! Holds the file open while a level is read
+  class ScopedFile : boost::noncopyable
+  {
+  public:
+    ScopedFile(const std::string &filename)
+      : m_name(filename)
+    {
+      // Hold lock while calling H5Fopen
+      GlobalLock lock(g_hdf5Mutex);
+      m_id = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
+      if (m_id < 0) {
+        throw Exc::NoSuchFileException(filename);
+      }
+    }
+    ~ScopedFile()
+    {
+      // Hold lock again
+      GlobalLock lock(g_hdf5Mutex);
+      if (H5Fclose(m_id) < 0) {
+        Msg::print("Error closing file: " + m_name);
+      } 
+    }
+    hid_t id() const
+    { return m_id; }
+  private:
+    const std::string m_name;
+    hid_t             m_id;
+  };
+
   // Data members --------------------------------------------------------------
 
   //! Filename
@@ -676,7 +688,7 @@ MIPFieldIO::readInternal(const OgIGroup &layerGroup,
   // Open the MIP field group
   OgIGroup mipGroup = layerGroup.findGroup(k_mipGroupStr);
   if (!mipGroup.isValid()) {
-    MissingAttributeException("Couldn't find group " + k_mipGroupStr);
+    throw MissingAttributeException("Couldn't find group " + k_mipGroupStr);
   }
 
   // Read num levels
-- 
2.43.0


From a366240f4efad1e38179d7b52c6f5a5a38c9e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:35 +0000
Subject: [PATCH 053/104] fix: a MIP level that cannot be written makes writing
 the MIPField fail

---
 include/MIPFieldIO.h | 12 ++++++++----
 src/MIPFieldIO.cpp   |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 2dcf6e9..6007b61 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -460,6 +460,8 @@ bool MIPFieldIO::writeInternal(hid_t layerGroup,
 
   // For each level ---
 
+  bool success = true;
+
   for (size_t i = 0; i < field->numLevels(); i++) {
 
     // Add a named group
@@ -470,11 +472,11 @@ bool MIPFieldIO::writeInternal(hid_t layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    success = io->write(levelGroup, field->mipLevel(i)) && success;
 
   }
 
-  return true; 
+  return success; 
 }
 
 //----------------------------------------------------------------------------//
@@ -518,6 +520,8 @@ bool MIPFieldIO::writeInternal(OgOGroup &layerGroup,
 
   // For each level ---
 
+  bool success = true;
+
   for (size_t i = 0; i < field->numLevels(); i++) {
 
     // Add a named group
@@ -528,11 +532,11 @@ bool MIPFieldIO::writeInternal(OgOGroup &layerGroup,
     std::string className = Field_T<Data_T>::staticClassName();
     FieldIO::Ptr io = 
       ClassFactory::singleton().createFieldIO(className);
-    io->write(levelGroup, field->mipLevel(i));
+    success = io->write(levelGroup, field->mipLevel(i)) && success;
 
   }
 
-  return true; 
+  return success; 
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/MIPFieldIO.cpp b/src/MIPFieldIO.cpp
index a3fbd0e..cbf80c0 100644
--- a/src/MIPFieldIO.cpp
+++ b/src/MIPFieldIO.cpp
@@ -461,7 +461,7 @@ MIPFieldIO::write(OgOGroup &layerGroup, FieldBase::Ptr field)
                               "MIPField template parameter");
   }
 
-  return true;
+  return success;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From aab569c3e708e083d00cf07e3fe397de3f9bc6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 054/104] fix: memory use of an on-demand field can be queried
 while blocks are loaded

---
 export/SparseField.h | 17 +++++++++++++----
 export/SparseFile.h  |  2 ++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 2284bd0..5880a6f 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1796,10 +1796,19 @@ long long int SparseField<Data_T>::memSize() const
   long long int blockSize = m_numBlocks * sizeof(Block);
   long long int dataSize = 0;
 
-  for (size_t i = 0; i < m_numBlocks; ++i) {
-    if (m_blocks[i].data) {
-      dataSize += (1 << m_blockOrder << m_blockOrder << m_blockOrder) *
-        sizeof(Data_T);
+  if (m_fileManager) {
+    // Other threads may be loading and evicting blocks. The reference knows
+    // how many there are in memory.
+    dataSize = 
+      static_cast<long long int>(m_fileManager->reference<Data_T>
+                                 (m_fileId)->numLoadedBlocks()) *
+      (1 << m_blockOrder << m_blockOrder << m_blockOrder) * sizeof(Data_T);
+  } else {
+    for (size_t i = 0; i < m_numBlocks; ++i) {
+      if (m_blocks[i].data) {
+        dataSize += (1 << m_blockOrder << m_blockOrder << m_blockOrder) *
+          sizeof(Data_T);
+      }
     }
   }
 
diff --git a/export/SparseFile.h b/export/SparseFile.h
index e07d879..56a6a30 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -802,6 +802,8 @@ void Reference<Data_T>::closeFile()
 template <class Data_T>
 void Reference<Data_T>::unloadBlock(int blockIdx)
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   // Deallocate the block
 #if F3D_NO_BLOCKS_ARRAY
   blocks[blockIdx].clear();
-- 
2.43.0


From c25a49878144ab05ce152fdca5aee0f30a732587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 055/104] fix: the min/max of a group is not rounded to the
 type of its last field

---
 export/FieldSampler.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index d6ab3b2..0df6277 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -20,38 +20,38 @@ FIELD3D_NAMESPACE_OPEN
 
 namespace detail {
 
-  //! Min operation on mixed types
+  //! Min operation on mixed types. The second argument is the current minimum
   template <typename T, typename T2>
-  T min(const T a, const T2 b)
+  T2 min(const T a, const T2 b)
   {
-    return std::min(a, static_cast<T>(b));
+    return std::min(static_cast<T2>(a), b);
   }
 
-  //! Max operation on mixed types
+  //! Max operation on mixed types. The second argument is the current maximum
   template <typename T, typename T2>
-  T max(const T a, const T2 b)
+  T2 max(const T a, const T2 b)
   {
-    return std::max(a, static_cast<T>(b));
+    return std::max(static_cast<T2>(a), b);
   }
 
   //! Min operation on mixed vector types
   template <typename T, typename T2>
-  FIELD3D_VEC3_T<T> min(const FIELD3D_VEC3_T<T> &a, 
-                        const FIELD3D_VEC3_T<T2> &b)
+  FIELD3D_VEC3_T<T2> min(const FIELD3D_VEC3_T<T> &a, 
+                         const FIELD3D_VEC3_T<T2> &b)
   {
-    return FIELD3D_VEC3_T<T>(std::min(a.x, static_cast<T>(b.x)),
-                             std::min(a.y, static_cast<T>(b.y)),
-                             std::min(a.z, static_cast<T>(b.z)));
+    return FIELD3D_VEC3_T<T2>(std::min(static_cast<T2>(a.x), b.x),
+                              std::min(static_cast<T2>(a.y), b.y),
+                              std::min(static_cast<T2>(a.z), b.z));
   }
 
   //! Max operation on mixed vector types
   template <typename T, typename T2>
-  FIELD3D_VEC3_T<T> max(const FIELD3D_VEC3_T<T> &a, 
-                        const FIELD3D_VEC3_T<T2> &b)
+  FIELD3D_VEC3_T<T2> max(const FIELD3D_VEC3_T<T> &a, 
+                         const FIELD3D_VEC3_T<T2> &b)
   {
-    return FIELD3D_VEC3_T<T>(std::max(a.x, static_cast<T>(b.x)),
-                             std::max(a.y, static_cast<T>(b.y)),
-                             std::max(a.z, static_cast<T>(b.z)));
+    return FIELD3D_VEC3_T<T2>(std::max(static_cast<T2>(a.x), b.x),
+                              std::max(static_cast<T2>(a.y), b.y),
+                              std::max(static_cast<T2>(a.z), b.z));
   }
 
   //! Typedefs float or V3f, depending on Dims_T
-- 
2.43.0


From 63ae7414409e22f8b0c9514acc3a762a4fa3b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 056/104] fix: the min/max of a group includes fields after one
 that the bounds miss

---
 export/FieldSampler.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index 0df6277..0e8a0b6 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -339,9 +339,9 @@ struct FieldSampler
           worldToVoxel(f[field].mapping, wsBounds, vsBounds);
         }
         dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
-        // Early termination if no intersection
+        // Skip this field if there's no intersection
         if (!dw.intersects(dvsBounds)) {
-          return;
+          continue;
         }
       }
       for (int k = dvsBounds.min.z; k <= dvsBounds.max.z; ++k) {
@@ -381,9 +381,9 @@ struct FieldSampler
           worldToVoxel(f[field].mapping, wsBounds, vsBounds);
         }
         dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
-        // Early termination if no intersection
+        // Skip this field if there's no intersection
         if (!dw.intersects(dvsBounds)) {
-          return;
+          continue;
         }
       }
       for (int k = dvsBounds.min.z; k <= dvsBounds.max.z; ++k) {
-- 
2.43.0


From 2631525abcef290f95ca0d48fca15435e3cb141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 057/104] fix: initialize the bounds optimization flag of MIP
 fields in a group

---
 export/FieldWrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export/FieldWrapper.h b/export/FieldWrapper.h
index b54c2b8..8be2423 100644
--- a/export/FieldWrapper.h
+++ b/export/FieldWrapper.h
@@ -168,6 +168,7 @@ struct MIPFieldWrapper
       vsBounds(continuousBounds(f->dataWindow())),
       worldScale(1.0), 
       doOsToWs(false),
+      doWsBoundsOptimization(false),
       valueRemapOp(NULL)
   { 
     interp = interpPtr.get();
-- 
2.43.0


From 2defd17ba0a3536fa9cbc1f7db85405dc7524c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 058/104] fix: sampleMultiple(), sampleMIPMultiple() and
 intersects() of a group can be used

---
 export/FieldGroup.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index ba28d4c..2a49ec7 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -765,9 +765,9 @@ FieldGroup<BaseTypeList_T, Dims_T>::sampleMultiple(const size_t n,
                                                    const float *wsP,
                                                    float *result) const
 {
-  size_t numHits = 0;
+  std::vector<size_t> numHits(std::max(n, size_t(1)), 0);
 
-  SampleMultiple op(n, wsP, result, numHits);
+  SampleMultiple op(n, wsP, result, &numHits[0]);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
 }
@@ -797,9 +797,9 @@ FieldGroup<BaseTypeList_T, Dims_T>::sampleMIPMultiple(const size_t n,
                                                       const float *wsSpotSize, 
                                                       float *result) const
 {
-  size_t numHits = 0;
+  std::vector<size_t> numHits(std::max(n, size_t(1)), 0);
 
-  SampleMIPMultiple op(n, wsP, wsSpotSize, result, numHits);
+  SampleMIPMultiple op(n, wsP, wsSpotSize, result, &numHits[0]);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
 }
@@ -1459,8 +1459,8 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
   { return m_doesIntersect; }
 private:
   // Data members
-  V3d  m_wsP;
-  bool m_doesIntersect;
+  V3d          m_wsP;
+  mutable bool m_doesIntersect;
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 42f832c78626da91eb0be5d0ef5351920f50f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 059/104] fix: a group keeps the fields of earlier setup()
 calls

---
 export/FieldGroup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 2a49ec7..dda2619 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -564,7 +564,7 @@ FieldGroup<BaseTypeList_T, Dims_T>::setup
  const Field3D::FieldRes::Vec &maxFields)
 {
   // Record fields in m_allFields
-  m_allFields = fields;
+  m_allFields.insert(m_allFields.end(), fields.begin(), fields.end());
 
   // Pick out primary fields
   for (size_t i = 0, end = fields.size(); i < end; ++i) {
-- 
2.43.0


From a83743ca553cb7be72b0901d5a26f27fdd66cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 060/104] fix: the min/max of a group considers fields without
 pre-filtered versions

---
 export/FieldGroup.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index dda2619..531b6af 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -601,15 +601,15 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
     fusion::for_each(m_mipDenseMax, op);
     fusion::for_each(m_mipSparseMax, op);
   }
-  // Check if we have pre-filtered fields
+  // Check if we have pre-filtered representations of all the fields
   CountFields countMinOp, countMaxOp;
   fusion::for_each(m_mipDenseMin, countMinOp);
   fusion::for_each(m_mipDenseMax, countMaxOp);
   fusion::for_each(m_mipSparseMin, countMinOp);
   fusion::for_each(m_mipSparseMax, countMaxOp);
-  if (countMinOp.count > 0 && countMaxOp.count > 0) {
-    m_hasPrefiltMinMax = true;
-  }
+  const int numFields = size();
+  m_hasPrefiltMinMax = numFields > 0 && 
+    countMinOp.count >= numFields && countMaxOp.count >= numFields;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 7e1ba6960db2b5e751e3909378ada125aece5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 061/104] fix: making the min/max fields of a group replaces
 the old ones

---
 export/FieldGroup.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 531b6af..1a17128 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -454,6 +454,7 @@ protected:
   struct GrabFields;
   struct DoWsBoundsOptimization;
   struct CountFields;
+  struct ClearFields;
   struct MakeMinMax;
   struct MakeMinMaxMIP;
   struct Sample;
@@ -671,6 +672,14 @@ FieldGroup<BaseTypeList_T, Dims_T>::makeMinMax
   // Storage for the auxiliary fields
   FieldRes::Vec minFields, maxFields;
 
+  // Replace any representations that some of the fields had already
+  m_auxFields.clear();
+  ClearFields clearOp;
+  fusion::for_each(m_mipDenseMin, clearOp);
+  fusion::for_each(m_mipDenseMax, clearOp);
+  fusion::for_each(m_mipSparseMin, clearOp);
+  fusion::for_each(m_mipSparseMax, clearOp);
+
   MakeMinMax op(minFields, maxFields, resMult);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
@@ -990,6 +999,17 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::CountFields
 
 //------------------------------------------------------------------------------
 
+template <typename BaseTypeList_T, int Dims_T>
+struct FieldGroup<BaseTypeList_T, Dims_T>::ClearFields
+{
+  //! Functor
+  template <typename T>
+  void operator()(T &vec) const
+  { vec.clear(); }
+};
+
+//------------------------------------------------------------------------------
+
 template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::MakeMinMax
 {
-- 
2.43.0


From b84828abdfe039da0a25aec6ef8de0dbc1230270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 062/104] fix: ray intersection of frustum fields of either
 handedness

---
 export/FieldGroup.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 1a17128..0dc3145 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1290,6 +1290,18 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::GetIntersections
     planes[4] = Plane3d(wsCorners[0], wsCorners[1], wsCorners[2]);
     planes[5] = Plane3d(wsCorners[5], wsCorners[4], wsCorners[7]);
 
+    // The faces are seen from inside or outside depending on the handedness of
+    // the mapping. Make the normals point outwards.
+    V3d center(0.0);
+    for (size_t i = 0; i < wsCorners.size(); ++i) {
+      center += wsCorners[i] / static_cast<double>(wsCorners.size());
+    }
+    for (int i = 0; i < 6; ++i) {
+      if (planes[i].distanceTo(center) > 0.0) {
+        planes[i] = -planes[i];
+      }
+    }
+
     // Intersect ray against planes
     double t0 = -std::numeric_limits<double>::max();
     double t1 =  std::numeric_limits<double>::max();
@@ -1304,10 +1316,13 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::GetIntersections
           // Opposing plane
           t0 = std::max(t0, t);
         }
+      } else if (p.distanceTo(wsRay.pos) > 0.0) {
+        // Parallel to the face, and outside
+        return;
       }
     }
+    t0 = std::max(t0, 0.0);
     if (t0 < t1) {
-      t0 = std::max(t0, 0.0);
       const V3d    wsVoxelSize = mtx->wsVoxelSize(0, 0, 0);
       const double minLen      = min(min(wsVoxelSize.x, wsVoxelSize.y),
                                      wsVoxelSize.z);
-- 
2.43.0


From d45513082f9dedbab4f4c0291c1318305cfe81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 063/104] fix: the memory size of a field group is a number,
 not a pointer

---
 export/FieldGroup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 0dc3145..0997113 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1452,7 +1452,7 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MemSize
   }
   //! Result
   long long int result() const
-  { return m_memSize; }
+  { return *m_memSize; }
   // Data members
   long long int *m_memSize;
 };
-- 
2.43.0


From 33694b839e35ff7a5c42b7ec826b7d8eff3c3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 064/104] fix: the size and membership tests of field groups
 see all members

---
 export/FieldGroup.h | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 0997113..9bea360 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -603,14 +603,15 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
     fusion::for_each(m_mipSparseMax, op);
   }
   // Check if we have pre-filtered representations of all the fields
-  CountFields countMinOp, countMaxOp;
+  int minCount = 0, maxCount = 0;
+  CountFields countMinOp(minCount), countMaxOp(maxCount);
   fusion::for_each(m_mipDenseMin, countMinOp);
   fusion::for_each(m_mipDenseMax, countMaxOp);
   fusion::for_each(m_mipSparseMin, countMinOp);
   fusion::for_each(m_mipSparseMax, countMaxOp);
   const int numFields = size();
   m_hasPrefiltMinMax = numFields > 0 && 
-    countMinOp.count >= numFields && countMaxOp.count >= numFields;
+    minCount >= numFields && maxCount >= numFields;
 }
 
 //------------------------------------------------------------------------------
@@ -697,12 +698,13 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t 
 FieldGroup<BaseTypeList_T, Dims_T>::size() const
 {
-  CountFields op;
+  int count = 0;
+  CountFields op(count);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.count;
+  return count;
 }
 
 //------------------------------------------------------------------------------
@@ -711,10 +713,11 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t 
 FieldGroup<BaseTypeList_T, Dims_T>::sizeMIP() const
 {
-  CountFields op;
+  int count = 0;
+  CountFields op(count);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.count;
+  return count;
 }
 
 //------------------------------------------------------------------------------
@@ -834,12 +837,13 @@ template <typename BaseTypeList_T, int Dims_T>
 bool
 FieldGroup<BaseTypeList_T, Dims_T>::intersects(const V3d &wsP) const
 {
-  PointIsect op(wsP);
+  bool doesIntersect = false;
+  PointIsect op(wsP, doesIntersect);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.result();
+  return doesIntersect;
 }
 
 //------------------------------------------------------------------------------
@@ -986,15 +990,16 @@ template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::CountFields
 {
   //! Ctor
-  CountFields()
-    : count(0)
+  CountFields(int &a_count)
+    : count(a_count)
   { }
   //! Functor
   template <typename T>
   void operator()(const T &vec) const
   { count += vec.size(); }
   // Data members
-  mutable int count;
+  //! Reference, because fusion::for_each() may copy the functor
+  int &count;
 };
 
 //------------------------------------------------------------------------------
@@ -1463,8 +1468,8 @@ template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
 {
   //! Ctor
-  PointIsect(const V3d &wsP)
-    : m_wsP(wsP), m_doesIntersect(false)
+  PointIsect(const V3d &wsP, bool &doesIntersect)
+    : m_wsP(wsP), m_doesIntersect(doesIntersect)
   { }
   //! Functor
   template <typename T>
@@ -1495,7 +1500,8 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
 private:
   // Data members
   V3d          m_wsP;
-  mutable bool m_doesIntersect;
+  //! Reference, because fusion::for_each() may copy the functor
+  bool        &m_doesIntersect;
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 6c588460a202efb0ff98cee3c1930d52ab5c48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 065/104] fix: converting to a MAC field rotates the vectors
 into the mapping

---
 export/MACFieldUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index 9605c11..371fd4b 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -160,7 +160,8 @@ void convertCellCenteredToMAC(typename Field_T::Ptr cc,
     M44d localToWorld = mapping->localToWorld();
     V3d scale, rot, trans, shear;
     if (FIELD3D_EXTRACT_SHRT(localToWorld, scale, shear, rot, trans, false)) {
-      wsToSsMtx.rotate(-rot);
+      wsToSsMtx.rotate(rot);
+      wsToSsMtx.invert();
       rotateVector = true;
     }
   }
-- 
2.43.0


From f5f7ceb15aabaddea4b4a39617c704fb755097dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 066/104] fix: MACFieldUtil.h includes the header that it needs

---
 export/MACFieldUtil.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index 371fd4b..33cfb6b 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -45,6 +45,8 @@
 #ifndef _INCLUDED_Field3D_MACFieldUtil_H_
 #define _INCLUDED_Field3D_MACFieldUtil_H_
 
+#include <cfloat>
+
 #include "MACField.h"
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From d2436b040775c27918acd9b71c0e07b7e3e16c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 067/104] fix: threads that write sparse blocks take turns and
 report failures

---
 src/SparseFieldIO.cpp | 83 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 0d66dab..118f496 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -177,7 +177,8 @@ struct ThreadingState
       numBlocks(i_numBlocks),
       isAllocated(i_isAllocated), 
       nextBlockToCompress(0),
-      nextBlockToWrite(0)
+      nextBlockToWrite(0),
+      failed(false)
   { 
     // Find first in-use block
     for (size_t i = 0; i < numBlocks; ++i) {
@@ -200,8 +201,14 @@ struct ThreadingState
   const std::vector<uint8_t> isAllocated;
   size_t nextBlockToCompress;
   size_t nextBlockToWrite;
+  //! Set once a block can't be written. Nothing gets written after that.
+  bool failed;
   // Mutexes
   boost::mutex compressMutex;
+  //! Protects nextBlockToWrite, failed, and the writing itself
+  boost::mutex writeMutex;
+  //! Signaled when nextBlockToWrite or failed changes
+  boost::condition_variable writeCondition;
 };
 
 //----------------------------------------------------------------------------//
@@ -218,6 +225,30 @@ public:
     m_cache.resize(cmpLenBound);
   }
   void operator() ()
+  {
+    bool success = false;
+    // No exception may leave the thread
+    try {
+      success = writeBlocks();
+    }
+    catch (std::exception &e) {
+      Msg::print(Msg::SevWarning, std::string("Couldn't write block: ") + 
+                 e.what());
+    }
+    catch (...) {
+      Msg::print(Msg::SevWarning, "Couldn't write block: Unknown exception");
+    }
+    // The other threads can't wait for a block that isn't going to be written
+    if (!success) {
+      boost::mutex::scoped_lock lock(m_state.writeMutex);
+      m_state.failed = true;
+      m_state.writeCondition.notify_all();
+    }
+  }
+private:
+  //! Compresses and writes blocks until there are none left
+  //! \returns Whether all went well
+  bool writeBlocks()
   {
     const int level = 1;
     // Get next block to compress
@@ -238,8 +269,8 @@ public:
       if (m_state.blocks[blockIdx].isAllocated) {
         // Ensure block data is active and kept alive
         const bool isDynamicLoad = m_state.field.isDynamicLoad();
+        BlockRef blockRef(m_state.field, blockIdx, isDynamicLoad);
         if (isDynamicLoad) {
-          m_state.field.incBlockRef(blockIdx);
           m_state.field.activateBlock(blockIdx);
         }
         // Block data as bytes
@@ -253,9 +284,7 @@ public:
         const int status = compress2(&m_cache[0], &cmpLen, 
                                      srcData, srcLen, level);
         // Decrement the block ref count
-        if (isDynamicLoad) {
-          m_state.field.decBlockRef(blockIdx);
-        }
+        blockRef.release();
         // Error check
         if (status != Z_OK) {
           std::cout << "ERROR: Couldn't compress in SparseFieldIO." << std::endl
@@ -264,12 +293,15 @@ public:
                     << "  srcLen: " << srcLen << std::endl
                     << "  cmpLenBound: " << cmpLenBound << std::endl
                     << "  cmpLen: " << cmpLen << std::endl;
-          return;
+          return false;
         }
         // Wait to write data
-        while (m_state.nextBlockToWrite != blockIdx) {
-          // Spin
-          boost::this_thread::sleep(boost::posix_time::microseconds(1));
+        boost::mutex::scoped_lock lock(m_state.writeMutex);
+        while (!m_state.failed && m_state.nextBlockToWrite != blockIdx) {
+          m_state.writeCondition.wait(lock);
+        }
+        if (m_state.failed) {
+          return false;
         }
         // Do the writing
         m_state.data.addData(cmpLen, &m_cache[0]);
@@ -282,6 +314,7 @@ public:
           }
           m_state.nextBlockToWrite++;
         }
+        m_state.writeCondition.notify_all();
       }
       // Get next block idx
       {
@@ -296,8 +329,34 @@ public:
         }
       }
     }
+    return true;
   }
-private:
+  //! Keeps a dynamically loaded block in memory
+  struct BlockRef
+  {
+    BlockRef(const SparseField<Data_T> &i_field, const size_t i_blockIdx,
+             const bool i_active)
+      : field(i_field), blockIdx(i_blockIdx), active(i_active)
+    { 
+      if (active) {
+        field.incBlockRef(blockIdx);
+      }
+    }
+    ~BlockRef()
+    {
+      release();
+    }
+    void release()
+    {
+      if (active) {
+        field.decBlockRef(blockIdx);
+        active = false;
+      }
+    }
+    const SparseField<Data_T> &field;
+    const size_t blockIdx;
+    bool active;
+  };
   // Data members ---
   ThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
@@ -1146,6 +1205,10 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
       threads.create_thread(WriteBlockOp<Data_T>(state, i));
     }
     threads.join_all();
+    // Check that all the blocks got written
+    if (state.failed) {
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From e7231edd238458b5b41bd91b7ece8a5549e4003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 068/104] fix: threads that read sparse blocks report failures

---
 src/SparseFieldIO.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 118f496..8ef7c8e 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -91,7 +91,8 @@ struct ReadThreadingState
       numOccupiedBlocks(i_numOccupiedBlocks),
       isCompressed(i_isCompressed), 
       blockIdxToDatasetIdx(i_blockIdxToDatasetIdx), 
-      nextBlockToRead(0)
+      nextBlockToRead(0),
+      failed(false)
   { }
   // Data members
   const OgIGroup &location;
@@ -102,6 +103,10 @@ struct ReadThreadingState
   const bool   isCompressed;
   const std::vector<size_t> &blockIdxToDatasetIdx;
   size_t nextBlockToRead;
+  //! Set once a block can't be read
+  bool failed;
+  //! Describes the first failure
+  std::string error;
   // Mutexes
   boost::mutex readMutex;
 };
@@ -129,6 +134,31 @@ public:
     m_reader->setThreadId(threadId);
   }
   void operator() ()
+  {
+    // No exception may leave the thread
+    try {
+      readBlocks();
+    }
+    catch (std::exception &e) {
+      fail(e.what());
+    }
+    catch (...) {
+      fail("Unknown exception");
+    }
+  }
+private:
+  //! Records a failure and stops the other threads
+  void fail(const std::string &error)
+  {
+    boost::mutex::scoped_lock lock(m_state.readMutex);
+    if (!m_state.failed) {
+      m_state.failed = true;
+      m_state.error = error;
+    }
+    m_state.nextBlockToRead = m_state.numBlocks;
+  }
+  //! Reads blocks until there are none left
+  void readBlocks()
   {
     // Get next block to read
     size_t blockIdx;
@@ -151,7 +181,6 @@ public:
       }
     }
   }
-private:
   // Data members ---
   ReadThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
@@ -907,6 +936,10 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
         threads.create_thread(ReadBlockOp<Data_T>(state, i));
       }
       threads.join_all();
+      // Check that all the blocks got read
+      if (state.failed) {
+        throw ReadDataException("Couldn't read block: " + state.error);
+      }
     }
   }
 
-- 
2.43.0


From f790b5d7534849dcdaf68da51325d3b054e523fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 069/104] fix: I/O uses at least one thread

---
 src/InitIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InitIO.cpp b/src/InitIO.cpp
index 032a7db..2a8e206 100644
--- a/src/InitIO.cpp
+++ b/src/InitIO.cpp
@@ -84,7 +84,8 @@ void initIO()
 
 void setNumIOThreads(const size_t numThreads)
 {
-  g_numIOThreads = numThreads;
+  // Blocks are only read and written if there is a thread to do so
+  g_numIOThreads = numThreads > 0 ? numThreads : 1;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 12067aca11b6ee1749f676e569859711745ea30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 070/104] fix: making MIP levels uses at least one thread

---
 export/MIPUtil.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 0d8e891..4639ce5 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -395,7 +395,10 @@ namespace detail {
 
     boost::thread_group threads;
 
-    for (size_t i = 0; i < numThreads; ++i) {
+    // The work only gets done if there is at least one thread
+    const size_t numWorkers = std::max(numThreads, static_cast<size_t>(1));
+
+    for (size_t i = 0; i < numWorkers; ++i) {
       threads.create_thread(
         MIPSeparableThreadOp<Field_T, FilterOp_T, FilterOp_T::isAnalytic >
         (src, tgt, level, add, filterOp, 
-- 
2.43.0


From 22a3b9af736236e25fd1f51f82a014d31047f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 071/104] fix: closing a file reports whether all of it could
 be written

---
 export/Field3DFile.h     | 32 ++++++----------
 export/Field3DFileHDF5.h |  3 +-
 include/OArchive.h       |  4 ++
 include/OStream.h        |  7 ++++
 src/Field3DFile.cpp      | 39 ++++++++++++++++---
 src/Field3DFileHDF5.cpp  | 10 ++---
 src/OArchive.cpp         |  7 ++++
 src/OGroup.cpp           | 10 ++++-
 src/OStream.cpp          | 81 ++++++++++++++++++++++++++++++++++++----
 9 files changed, 153 insertions(+), 40 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index f065ee3..5356b4f 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -322,7 +322,8 @@ protected:
   { return partition(partitionName); }
 
   //! Closes the file if open.
-  virtual void closeInternal() = 0;
+  //! \returns Whether all that was written made it to the file
+  virtual bool closeInternal() = 0;
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   File::Partition::Ptr partition(const std::string &partitionName);
@@ -544,14 +545,15 @@ private:
 
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
 
     cleanup();
+
+    return true;
   }
 
   void cleanup()
@@ -793,27 +795,17 @@ private:
   
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
-    cleanup();
+    return cleanup();
   }
 
-  void cleanup()
-  {
-    // The destruction of the various Ogawa components must happen in the
-    // right order
-    
-    // First, the partition groups
-    m_partitions.clear();
-    // Then the root group
-    m_root.reset();
-    // Finally, the archive
-    m_archive.reset();
-  }
+  //! Closes the Ogawa file
+  //! \returns Whether all that was written made it to the file
+  bool cleanup();
 
   // Convenience methods -------------------------------------------------------
 
diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 0fe6d70..ca4b780 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -352,7 +352,8 @@ protected:
   //! \{
 
   //! Closes the file if open.
-  void closeInternal();
+  //! \returns Whether all that was written made it to the file
+  bool closeInternal();
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   FileHDF5::Partition::Ptr partition(const std::string &partitionName);
diff --git a/include/OArchive.h b/include/OArchive.h
index f6f9370..51ddb09 100644
--- a/include/OArchive.h
+++ b/include/OArchive.h
@@ -55,6 +55,10 @@ public:
 
     bool isValid();
 
+    // finishes writing, all other references to groups must be gone
+    // returns whether everything was written successfully
+    bool close();
+
 private:
     OStreamPtr mStream;
     OGroupPtr mGroup;
diff --git a/include/OStream.h b/include/OStream.h
index 9c10cb9..568da0d 100644
--- a/include/OStream.h
+++ b/include/OStream.h
@@ -53,6 +53,13 @@ public:
 
     bool isValid();
 
+    // finishes writing, nothing else can be written afterwards
+    // returns whether everything was written successfully
+    bool close();
+
+    // marks the stream as incomplete
+    void setFailed();
+
     Alembic::Util::uint64_t getAndSeekEndPos();
     void write(const void * iBuf, Alembic::Util::uint64_t iSize);
     void seek(Alembic::Util::uint64_t iPos);
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index c1fb11e..f93cd7e 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -633,9 +633,7 @@ bool Field3DFileBase::close()
     return m_hdf5Base->close();
   }
 
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
@@ -979,6 +977,30 @@ Field3DOutputFile::~Field3DOutputFile()
 
 //----------------------------------------------------------------------------//
 
+bool Field3DOutputFile::cleanup()
+{
+  // The destruction of the various Ogawa components must happen in the
+  // right order
+    
+  // First, the partition groups
+  m_partitions.clear();
+  // Then the root group
+  m_root.reset();
+  // Finally, the archive
+  bool success = true;
+  if (m_archive) {
+    success = m_archive->close();
+    if (!success) {
+      Msg::print(Msg::SevWarning, "Couldn't write all of the file");
+    }
+    m_archive.reset();
+  }
+
+  return success;
+}
+
+//----------------------------------------------------------------------------//
+
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
   // The object may have been used for an earlier file
@@ -1506,10 +1528,17 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   OgOGroup ogMetadata(ogLayer, "metadata");
 
   // Write metadata
-  writeMetadata(ogMetadata, field);
+  if (!writeMetadata(ogMetadata, field)) {
+    Msg::print(Msg::SevWarning, "Error writing metadata of layer: " + 
+               layerName);
+    return false;
+  }
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Error writing layer: " + layerName);
+    return false;
+  }
 
   // Add to partition
 
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 5da1398..4afb8fa 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -495,24 +495,24 @@ void Field3DFileHDF5Base::clear()
 
 bool Field3DFileHDF5Base::close()
 {
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
 
-void Field3DFileHDF5Base::closeInternal()
+bool Field3DFileHDF5Base::closeInternal()
 {
   GlobalLock lock(g_hdf5Mutex);
 
   if (m_file != -1) {
     if (H5Fclose(m_file) < 0) {
       Msg::print(Msg::SevWarning, "Failed to close hdf5 file handle");
-      return;
+      return false;
     }    
     m_file = -1;
   }
+
+  return true;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/OArchive.cpp b/src/OArchive.cpp
index 11d79c6..36ca210 100644
--- a/src/OArchive.cpp
+++ b/src/OArchive.cpp
@@ -61,6 +61,13 @@ bool OArchive::isValid()
     return mStream->isValid();
 }
 
+bool OArchive::close()
+{
+    // writes the top group
+    mGroup.reset();
+    return mStream->close();
+}
+
 OGroupPtr OArchive::getGroup()
 {
     return mGroup;
diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..3e08fc2 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -81,7 +81,15 @@ OGroup::OGroup(OStreamPtr iStream)
 
 OGroup::~OGroup()
 {
-    freeze();
+    try
+    {
+        freeze();
+    }
+    catch (...)
+    {
+        // a destructor can't throw, but the stream knows that it's incomplete
+        mData->stream->setFailed();
+    }
 }
 
 OGroupPtr OGroup::addGroup()
diff --git a/src/OStream.cpp b/src/OStream.cpp
index 7b11d94..e9040d9 100644
--- a/src/OStream.cpp
+++ b/src/OStream.cpp
@@ -45,7 +45,8 @@ class OStream::PrivateData
 {
 public:
     PrivateData(const std::string & iFileName) :
-        stream(NULL), fileName(iFileName), startPos(0)
+        stream(NULL), fileName(iFileName), startPos(0), failed(false),
+        closed(false)
     {
         std::ofstream * filestream = new std::ofstream(fileName.c_str(),
             std::ios_base::trunc | std::ios_base::binary);
@@ -62,7 +63,8 @@ public:
         }
     }
 
-    PrivateData(std::ostream * iStream) : stream(iStream), startPos(0)
+    PrivateData(std::ostream * iStream) :
+        stream(iStream), startPos(0), failed(false), closed(false)
     {
         if (stream)
         {
@@ -85,6 +87,8 @@ public:
             std::ofstream * filestream = dynamic_cast<std::ofstream *>(stream);
             if (filestream)
             {
+                // a destructor can't throw
+                filestream->exceptions(std::ios_base::goodbit);
                 filestream->close();
                 delete filestream;
             }
@@ -94,6 +98,10 @@ public:
     std::ostream * stream;
     std::string fileName;
     Alembic::Util::uint64_t startPos;
+    // whether something couldn't be written
+    bool failed;
+    // whether we've already finished writing
+    bool closed;
     Alembic::Util::mutex lock;
 };
 
@@ -111,12 +119,52 @@ OStream::OStream(std::ostream * iStream) : mData(new PrivateData(iStream))
 
 OStream::~OStream()
 {
-    // write our "frozen" byte (totally done writing)
-    if (isValid())
+    close();
+}
+
+bool OStream::close()
+{
+    if (!isValid())
+    {
+        return false;
+    }
+
+    Alembic::Util::scoped_lock l(mData->lock);
+
+    if (!mData->closed)
     {
-        char frozen = 0xff;
-        mData->stream->seekp(mData->startPos + 5).write(&frozen, 1).flush();
+        mData->closed = true;
+
+        try
+        {
+            // write our "frozen" byte (totally done writing), unless
+            // something is missing
+            if (!mData->failed)
+            {
+                char frozen = 0xff;
+                mData->stream->seekp(mData->startPos + 5);
+                mData->stream->write(&frozen, 1).flush();
+            }
+            std::ofstream * filestream =
+                dynamic_cast<std::ofstream *>(mData->stream);
+            if (!mData->fileName.empty() && filestream)
+            {
+                filestream->close();
+            }
+        }
+        catch (std::exception &)
+        {
+            mData->failed = true;
+        }
     }
+
+    return !mData->failed;
+}
+
+void OStream::setFailed()
+{
+    Alembic::Util::scoped_lock l(mData->lock);
+    mData->failed = true;
 }
 
 bool OStream::isValid()
@@ -160,6 +208,7 @@ Alembic::Util::uint64_t OStream::getAndSeekEndPos()
             mData->stream->seekp(0, std::ios_base::end).tellp();
         if (lastp == INVALID_DATA || lastp < mData->startPos)
         {
+            mData->failed = true;
             throw std::runtime_error(
                 "Illegal position returned Ogawa::OStream::getAndSeekEndPos");
 
@@ -175,7 +224,15 @@ void OStream::seek(Alembic::Util::uint64_t iPos)
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        mData->stream->seekp(iPos + mData->startPos);
+        try
+        {
+            mData->stream->seekp(iPos + mData->startPos);
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
     }
 }
 
@@ -184,7 +241,15 @@ void OStream::write(const void * iBuf, Alembic::Util::uint64_t iSize)
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        mData->stream->write((const char *)iBuf, iSize).flush();
+        try
+        {
+            mData->stream->write((const char *)iBuf, iSize).flush();
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From f08299d18ae7f51b09f6c614556cf981eb330b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 072/104] fix: writing a MAC field to an Ogawa file is reported
 as a failure

---
 src/MACFieldIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..daa109c 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,8 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  Msg::print(Msg::SevWarning, "MACField can't be written to Ogawa files");
+  return false;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From dccf485b21359834fb8bd625b73265aa97cecd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 073/104] fix: a HDF5 file that can't be closed is closed only
 once

---
 src/Field3DFileHDF5.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 4afb8fa..3078a25 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -505,11 +505,13 @@ bool Field3DFileHDF5Base::closeInternal()
   GlobalLock lock(g_hdf5Mutex);
 
   if (m_file != -1) {
-    if (H5Fclose(m_file) < 0) {
+    // The handle can't be used again, even if closing it fails
+    const hid_t file = m_file;
+    m_file = -1;
+    if (H5Fclose(file) < 0) {
       Msg::print(Msg::SevWarning, "Failed to close hdf5 file handle");
       return false;
     }    
-    m_file = -1;
   }
 
   return true;
-- 
2.43.0


From 32c56182e6ed86cb4031a1f1b5fba2436b27675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 074/104] fix: a file that can't be created isn't left half
 open

---
 src/Field3DFile.cpp | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index f93cd7e..ea3eae5 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1020,21 +1020,32 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return false;
   }
 
-  // Create the Ogawa archive
-  m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+  try {
 
-  // Check that it's valid
-  if (!m_archive->isValid()) {
-    m_archive.reset();
-    return false;
-  }
+    // Create the Ogawa archive
+    m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+
+    // Check that it's valid
+    if (!m_archive->isValid()) {
+      m_archive.reset();
+      return false;
+    }
+
+    // Get the root
+    m_root.reset(new OgOGroup(*m_archive));
 
-  // Get the root
-  m_root.reset(new OgOGroup(*m_archive));
+    // Create the version attribute
+    OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
+                                      k_currentFileVersion);
 
-  // Create the version attribute
-  OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
-                                    k_currentFileVersion);
+  }
+  catch (std::exception &e) {
+    Msg::print(Msg::SevWarning, "Couldn't create file: " + filename + " - " +
+               string(e.what()));
+    // What there is of the file can't be added to
+    cleanup();
+    return false;
+  }
 
   return true;
 }
@@ -1268,6 +1279,13 @@ Field3DOutputFile::writeGlobalMetadata()
     return m_hdf5->writeGlobalMetadata();
   }
 
+  // Make sure archive is open
+  if (!m_archive) {
+    Msg::print(Msg::SevWarning, 
+               "Attempting to write metadata without opening file first.");
+    return false;
+  }
+
   OgOGroup ogMetadata(*m_root, "field3d_global_metadata");
   if (!writeMetadata(ogMetadata)) {
     Msg::print(Msg::SevWarning, "Error writing file metadata.");
-- 
2.43.0


From ebf1e0c64d0fd2283df37c487ca0ebacd39672c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 075/104] fix: data that HDF5 only writes when a dataset is
 closed is checked too

---
 export/Hdf5Util.h     | 13 ++++++++++---
 include/MACFieldIO.h  |  2 +-
 src/DenseFieldIO.cpp  |  4 ++++
 src/SparseFieldIO.cpp |  4 ++++
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 8ae0f20..7f5675c 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -277,10 +277,17 @@ public:
                      lcpl_id, dcpl_id, dapl_id);
   }
   ~H5ScopedDcreate()
+  {
+    close();
+  }
+  //! Closes the dataset. What the library holds back is only written then.
+  //! \returns Whether all of the data could be written.
+  bool close()
   {
     GlobalLock lock(g_hdf5Mutex);
-    if (m_id >= 0)
-      H5Dclose(m_id);
+    const hid_t id = m_id;
+    m_id = -1;
+    return id < 0 || H5Dclose(id) >= 0;
   }
 };
 
@@ -606,7 +613,7 @@ void writeSimpleData(hid_t location, const std::string &name,
   hid_t err = H5Dwrite(dataSet.id(), type, H5S_ALL, H5S_ALL, 
                        H5P_DEFAULT, &data[0]);
 
-  if (err < 0) 
+  if (err < 0 || !dataSet.close()) 
     throw WriteSimpleDataException("Couldn't write data");
 }
 
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 1513b84..ce18dc7 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -307,7 +307,7 @@ bool MACFieldIO::writeData(hid_t layerGroup,
                        DataTypeTraits<Data_T>::h5type(), 
                        H5S_ALL, H5S_ALL, 
                        H5P_DEFAULT, &(*field->cbegin_comp(comp)));
-  if (err < 0) 
+  if (err < 0 || !dataSet.close()) 
     throw Exc::WriteLayerException("Error writing layer in "
                                    "MACFieldIO::writeData");
 
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index d621882..b748f84 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -469,6 +469,10 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
     throw WriteLayerException("Error writing layer");
   }
 
+  if (!dataSet.close()) {
+    throw WriteLayerException("Error writing layer");
+  }
+
   return true; 
 }
 
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 8ef7c8e..212b23c 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1147,6 +1147,10 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
       }
     }
 
+    if (!dataSet.close()) {
+      throw WriteLayerException("Error writing layer");
+    }
+
   } // if occupiedBlocks > 0
 
   return true; 
-- 
2.43.0


From 560ac379d6853413bcfe4161c40ba05b73b949d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 076/104] fix: a partition that couldn't be written isn't used
 for other layers

---
 export/Field3DFileHDF5.h | 12 +++++-------
 src/Field3DFile.cpp      | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index ca4b780..1f9fb2f 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1399,11 +1399,6 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();
   } 
     
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  FileHDF5::Partition::Ptr  part = partition(partitionName);
-  
   // Add mapping group to the partition
   //! \todo We should probably remove the group on disk if we can't write
   //! the mapping
@@ -1429,7 +1424,7 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping()->clone();
+  newPart->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
@@ -1438,7 +1433,10 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();    
   }
 
-  return part;
+  // Only a partition that is complete can hold layers
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index ea3eae5..c1c7fca 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1413,11 +1413,6 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, newPart->name));
   newPart->setGroup(ogPartition);
 
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  File::Partition::Ptr part = partition(partitionName);
-  
   // Add mapping group to the partition
   try {
     if (!writeMapping(*ogPartition, field->mapping())) {
@@ -1441,13 +1436,16 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping()->clone();
+  newPart->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
   OgOAttribute<string>(*ogPartition, "is_field3d_partition", "1");
 
-  return part;
+  // Only a partition that is complete can hold layers
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 21a02b381275af55ba386582a87ee694e8082571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 077/104] fix: a group without children can be read

---
 src/IGroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/IGroup.cpp b/src/IGroup.cpp
index 476914e..442f08e 100644
--- a/src/IGroup.cpp
+++ b/src/IGroup.cpp
@@ -76,6 +76,12 @@ IGroup::IGroup(IStreamsPtr iStreams,
     mData->pos = iPos;
     mData->streams->read(iThreadIndex, iPos, 8, &mData->numChildren);
 
+    // a group without children that wasn't written as the special group
+    if (mData->numChildren == 0)
+    {
+        return;
+    }
+
     // 0 should NOT have been written, this groups should have been the
     // special EMPTY_GROUP instead
 
-- 
2.43.0


From e3b7acdb9ae782ff264e3b950a535530abc3fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 078/104] fix: reading data that isn't in an Ogawa file is
 reported

---
 include/IStreams.h |  4 ++++
 src/IData.cpp      |  9 +++++++-
 src/IGroup.cpp     |  8 +++++++
 src/IStreams.cpp   | 53 +++++++++++++++++++++++++++++++++++++++++++++-
 4 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/include/IStreams.h b/include/IStreams.h
index 3383b88..3ba0268 100644
--- a/include/IStreams.h
+++ b/include/IStreams.h
@@ -55,7 +55,11 @@ public:
     bool isFrozen();
     Alembic::Util::uint16_t getVersion();
 
+    // whether iSize bytes at iPos are inside of the file
+    bool isInside(Alembic::Util::uint64_t iPos, Alembic::Util::uint64_t iSize);
+
     // locks on the threadId, seeks to iPos, and reads iSize bytes into oBuf
+    // throws std::runtime_error if they couldn't all be read
     void read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
               Alembic::Util::uint64_t iSize, void * oBuf);
 
diff --git a/src/IData.cpp b/src/IData.cpp
index e9c504d..8f09edb 100644
--- a/src/IData.cpp
+++ b/src/IData.cpp
@@ -37,6 +37,7 @@
 #include "IGroup.h"
 #include "IData.h"
 #include "IStreams.h"
+#include <stdexcept>
 
 namespace Alembic {
 namespace Ogawa {
@@ -80,6 +81,11 @@ IData::IData(IStreamsPtr iStreams,
     if ( mData->pos != 0 )
     {
         mData->streams->read(iThreadId, mData->pos, 8, &size);
+        if (!mData->streams->isInside(mData->pos + 8, size))
+        {
+            throw std::runtime_error(
+                "Ogawa IData failed: Data exceeds the file.");
+        }
         mData->size = size;
     }
 }
@@ -88,7 +94,8 @@ void IData::read(Alembic::Util::uint64_t iSize, void * iData,
                  Alembic::Util::uint64_t iOffset, std::size_t iThreadId)
 {
     // don't read anything if we will read beyond our buffer
-    if (iSize == 0 || mData->size == 0 || iOffset + iSize > mData->size)
+    if (iSize == 0 || mData->size == 0 || iSize > mData->size ||
+        iOffset > mData->size - iSize)
     {
         return;
     }
diff --git a/src/IGroup.cpp b/src/IGroup.cpp
index 442f08e..fb84a57 100644
--- a/src/IGroup.cpp
+++ b/src/IGroup.cpp
@@ -36,6 +36,7 @@
 #include "IGroup.h"
 #include "IArchive.h"
 #include "IStreams.h"
+#include <stdexcept>
 
 namespace Alembic {
 namespace Ogawa {
@@ -82,6 +83,13 @@ IGroup::IGroup(IStreamsPtr iStreams,
         return;
     }
 
+    if (mData->numChildren > INVALID_GROUP / 8 ||
+        !mData->streams->isInside(iPos + 8, mData->numChildren * 8))
+    {
+        throw std::runtime_error(
+            "Ogawa IGroup failed: Group exceeds the file.");
+    }
+
     // 0 should NOT have been written, this groups should have been the
     // special EMPTY_GROUP instead
 
diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..b107031 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -50,6 +50,7 @@ public:
         valid = false;
         frozen = false;
         version = 0;
+        size = 0;
     }
 
     ~PrivateData()
@@ -82,6 +83,8 @@ public:
     bool valid;
     bool frozen;
     Alembic::Util::uint16_t version;
+    // number of bytes in the file
+    Alembic::Util::uint64_t size;
 };
 
 IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
@@ -190,6 +193,29 @@ void IStreams::init()
         }
     }
     mData->valid = true;
+
+    // Nothing beyond the end of the shortest stream can be read
+    for (std::size_t i = 0; i < mData->streams.size(); ++i)
+    {
+        std::istream * stream = mData->streams[i];
+        stream->clear();
+        stream->seekg(0, std::ios::end);
+        Alembic::Util::uint64_t end = 0;
+        if (stream->good())
+        {
+            end = static_cast<Alembic::Util::uint64_t>(stream->tellg());
+        }
+        stream->clear();
+        Alembic::Util::uint64_t size = 0;
+        if (end > mData->offsets[i])
+        {
+            size = end - mData->offsets[i];
+        }
+        if (i == 0 || size < mData->size)
+        {
+            mData->size = size;
+        }
+    }
 }
 
 IStreams::~IStreams()
@@ -211,6 +237,12 @@ Alembic::Util::uint16_t IStreams::getVersion()
     return mData->version;
 }
 
+bool IStreams::isInside(Alembic::Util::uint64_t iPos,
+                        Alembic::Util::uint64_t iSize)
+{
+    return iPos <= mData->size && iSize <= mData->size - iPos;
+}
+
 void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                     Alembic::Util::uint64_t iSize, void * oBuf)
 {
@@ -219,6 +251,12 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
         return;
     }
 
+    if (!isInside(iPos, iSize))
+    {
+        throw std::runtime_error(
+            "Ogawa IStreams::read failed: Position outside of file.");
+    }
+
     std::size_t threadId = 0;
     if (iThreadId < mData->streams.size())
     {
@@ -250,12 +288,25 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                 if (threadId != 0)
                 {
                     read(0, iPos, iSize, oBuf);
+                    return;
                 }
-                return;
             }
         }
+        if (stream == NULL)
+        {
+            throw std::runtime_error(
+                "Ogawa IStreams::read failed: Couldn't open file.");
+        }
+        // an earlier failure must not affect this read
+        stream->clear();
         stream->seekg(iPos + mData->offsets[threadId]);
         stream->read((char *)oBuf, iSize);
+        if (stream->fail())
+        {
+            stream->clear();
+            throw std::runtime_error(
+                "Ogawa IStreams::read failed: Couldn't read from file.");
+        }
     }
 }
 
-- 
2.43.0


From fc2c1097f74e4d5b47765610e5073a437521ebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 079/104] fix: an Ogawa file that was never completed isn't
 opened

---
 src/Field3DFile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index c1c7fca..46276c2 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -743,6 +743,13 @@ bool Field3DInputFile::open(const string &filename)
       }
     }
 
+    // The file gets frozen when it is closed after having been written
+    if (!m_archive->isFrozen()) {
+      Msg::print(Msg::SevWarning, "File wasn't completely written: " + 
+                 filename);
+      throw BadFileHierarchyException(filename);
+    }
+
     // Grab the root group
     m_root.reset(new OgIGroup(*m_archive));
     
-- 
2.43.0


From 8b288522c2faa1957cd2ce1b63a7b2fa3dccb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 080/104] fix: data in Ogawa files that doesn't match the
 field's size is reported

---
 export/FieldIO.h             |  31 +++++++
 include/OgIDataset.h         |  32 +++++--
 include/OgSparseDataReader.h |  45 +++++++++-
 include/OgUtil.h             |  24 +++++
 include/SparseFieldIO.h      |   7 ++
 src/DenseFieldIO.cpp         |  16 +++-
 src/OgUtil.cpp               |  20 ++++-
 src/SparseFieldIO.cpp        | 165 +++++++++++++++++++++++------------
 8 files changed, 268 insertions(+), 72 deletions(-)

diff --git a/export/FieldIO.h b/export/FieldIO.h
index acf1276..c00ec2b 100644
--- a/export/FieldIO.h
+++ b/export/FieldIO.h
@@ -51,10 +51,12 @@
 #include <string>
 #include <map>
 #include <list>
+#include <limits>
 
 #include <hdf5.h>
 #include <typeinfo>
 
+#include "Exception.h"
 #include "Field.h"
 #include "OgawaFwd.h"
 #include "Log.h"
@@ -141,6 +143,13 @@ public:
 
   // Strings used when reading/writing -----------------------------------------
 
+  // Utility methods -----------------------------------------------------------
+
+  //! Checks extents or a data window that were read from a file.
+  //! \returns The number of voxels, or the biggest number if there are more
+  //! \throw FileIntegrityException if no field could have that size
+  static int64_t checkWindow(const Box3i &window);
+
 private:
 
   // Typedefs ------------------------------------------------------------------
@@ -152,6 +161,28 @@ private:
 
 //----------------------------------------------------------------------------//
 
+inline int64_t FieldIO::checkWindow(const Box3i &window)
+{
+  const int64_t maxRes    = std::numeric_limits<int>::max();
+  const int64_t maxVoxels = std::numeric_limits<int64_t>::max();
+  
+  int64_t numVoxels = 1;
+  for (int dim = 0; dim < 3; ++dim) {
+    // Fields without voxels have a resolution of zero
+    const int64_t res = static_cast<int64_t>(window.max[dim]) - 
+      static_cast<int64_t>(window.min[dim]) + 1;
+    if (res < 0 || res > maxRes) {
+      throw Exc::FileIntegrityException("Bad extents or data window in file");
+    }
+    numVoxels = (res > 0 && numVoxels > maxVoxels / res) ? 
+      maxVoxels : numVoxels * res;
+  }
+
+  return numVoxels;
+}
+
+//----------------------------------------------------------------------------//
+
 FIELD3D_NAMESPACE_HEADER_CLOSE
 
 //----------------------------------------------------------------------------//
diff --git a/include/OgIDataset.h b/include/OgIDataset.h
index c94bb5e..9935777 100644
--- a/include/OgIDataset.h
+++ b/include/OgIDataset.h
@@ -63,9 +63,10 @@ public:
                                    const size_t threadId) const;
 
   //! Reads the data. 
-  //! \note Assumes that dataSize() has been called to ensure
-  //! that the output pointer has enough storage allocated.
+  //! \param size Number of values to read.
+  //! \return False if the element isn't made up of exactly that many values.
   bool                    getData(const size_t index, T *data, 
+                                  const size_t size,
                                   const size_t threadId) const;
 
 };
@@ -118,9 +119,10 @@ public:
                                    const size_t threadId) const;
 
   //! Reads the data. 
-  //! \note Assumes that dataSize() has been called to ensure
-  //! that the output pointer has enough storage allocated.
+  //! \param size Number of bytes to read.
+  //! \return False if the element isn't made up of exactly that many bytes.
   bool                    getData(const size_t index, uint8_t *data, 
+                                  const size_t size,
                                   const size_t threadId) const;
 
 };
@@ -160,7 +162,10 @@ OgIDataset<T>::OgIDataset(Alembic::Ogawa::IGroupPtr group)
 template <typename T>
 size_t OgIDataset<T>::numDataElements() const
 {
-  return m_group->getNumChildren() - OGAWA_DATASET_BASEOFFSET;
+  // There may be fewer children than those that describe the data set
+  const size_t numChildren = m_group->getNumChildren();
+  return numChildren > OGAWA_DATASET_BASEOFFSET ? 
+    numChildren - OGAWA_DATASET_BASEOFFSET : 0;
 }
 
 //----------------------------------------------------------------------------//
@@ -184,7 +189,7 @@ OgIDataset<T>::dataSize(const size_t index, const size_t threadId) const
 //----------------------------------------------------------------------------//
 
 template <typename T>
-bool OgIDataset<T>::getData(const size_t index, T *data, 
+bool OgIDataset<T>::getData(const size_t index, T *data, const size_t size,
                             const size_t threadId) const
 {
   // Indices start at OGAWA_DATASET_BASEOFFSET
@@ -201,6 +206,10 @@ bool OgIDataset<T>::getData(const size_t index, T *data,
   }
   // Get the length
   Alembic::Util::uint64_t dataSize = idata->getSize();
+  // It has to match the storage
+  if (dataSize != size * sizeof(T)) {
+    return false;
+  }
   // Read the data
   idata->read(dataSize, data, 0, threadId);
   // Done
@@ -240,7 +249,10 @@ OgICDataset<T>::OgICDataset(Alembic::Ogawa::IGroupPtr group)
 template <typename T>
 size_t OgICDataset<T>::numDataElements() const
 {
-  return m_group->getNumChildren() - OGAWA_DATASET_BASEOFFSET;
+  // There may be fewer children than those that describe the data set
+  const size_t numChildren = m_group->getNumChildren();
+  return numChildren > OGAWA_DATASET_BASEOFFSET ? 
+    numChildren - OGAWA_DATASET_BASEOFFSET : 0;
 }
 
 //----------------------------------------------------------------------------//
@@ -265,7 +277,7 @@ OgICDataset<T>::dataSize(const size_t index, const size_t threadId) const
 
 template <typename T>
 bool OgICDataset<T>::getData(const size_t index, uint8_t *data, 
-                             const size_t threadId) const
+                             const size_t size, const size_t threadId) const
 {
   // Indices start at OGAWA_DATASET_BASEOFFSET
   const size_t internalIndex = index + OGAWA_DATASET_BASEOFFSET;
@@ -281,6 +293,10 @@ bool OgICDataset<T>::getData(const size_t index, uint8_t *data,
   }
   // Get the length
   Alembic::Util::uint64_t dataSize = idata->getSize();
+  // It has to match the storage
+  if (dataSize != size * sizeof(uint8_t)) {
+    return false;
+  }
   // Read the data
   idata->read(dataSize, data, 0, threadId);
   // Done
diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 62fa967..0fa5710 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -88,6 +88,10 @@ public:
   //! Sets the reader's thread id
   void setThreadId(const size_t id);
 
+  //! Checks that all the blocks are there, with a plausible amount of data.
+  //! \throw ReadDataException if they aren't
+  void checkBlocks() const;
+
   //! Reads a block, storing the data in result, which is assumed to contain
   //! enough room for m_valuesPerBlock entries.
   void readBlock(const size_t idx, Data_T *result);
@@ -180,6 +184,34 @@ void OgSparseDataReader<Data_T>::setThreadId(const size_t id)
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void OgSparseDataReader<Data_T>::checkBlocks() const
+{
+  using namespace Exc;
+
+  // Nothing compresses better than this
+  const uint64_t maxCompression = 1032;
+
+  const size_t numBlocks = m_isCompressed ? 
+    m_cDataset.numDataElements() : m_dataset.numDataElements();
+
+  for (size_t i = 0; i < numBlocks; ++i) {
+    if (m_isCompressed) {
+      const uint64_t length = m_cDataset.dataSize(i, m_threadId);
+      if (length > m_compressionCache.size() || 
+          length * maxCompression < m_numVoxels * sizeof(Data_T)) {
+        throw ReadDataException("Bad block size in SparseDataReader");
+      }
+    } else {
+      if (m_dataset.dataSize(i, m_threadId) != m_numVoxels) {
+        throw ReadDataException("Bad block size in SparseDataReader");
+      }
+    }
+  }
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 {
@@ -190,7 +222,10 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
     // Length of compressed data
     const uint64_t length = m_cDataset.dataSize(idx, m_threadId);
     // Read data into compression cache
-    m_cDataset.getData(idx, &m_compressionCache[0], m_threadId);
+    if (length > m_compressionCache.size() ||
+        !m_cDataset.getData(idx, &m_compressionCache[0], length, m_threadId)) {
+      throw ReadDataException("Couldn't read block in SparseDataReader");
+    }
     // Target location
     uint8_t *ucmpData = reinterpret_cast<uint8_t *>(result);
     // Length of uncompressed data is stored here
@@ -198,15 +233,17 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
     // Uncompress
     int status = uncompress(ucmpData, &ucmpLen, &m_compressionCache[0], 
                             length);
-    if (status != Z_OK) {
+    if (status != Z_OK || ucmpLen != m_numVoxels * sizeof(Data_T)) {
       std::cout << "ERROR in uncompress: " << status
                 << " " << ucmpLen << " " << length << std::endl;
-      return;
+      throw ReadDataException("Couldn't uncompress block in SparseDataReader");
     }
 
   } else {
 
-    m_dataset.getData(idx, result, OGAWA_THREAD);
+    if (!m_dataset.getData(idx, result, m_numVoxels, OGAWA_THREAD)) {
+      throw ReadDataException("Couldn't read block in SparseDataReader");
+    }
 
   }
 }
diff --git a/include/OgUtil.h b/include/OgUtil.h
index 07254c7..e69d9d4 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -105,8 +105,16 @@ template <typename T>
 bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
               T &value) 
 {
+  // Check that there is a group to read from
+  if (!group) {
+    return false;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    return false;
+  }
   // Check data length
   const size_t sizeLength = sizeof(T);
   const size_t length = data->getSize();
@@ -131,6 +139,22 @@ inline bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 
 //----------------------------------------------------------------------------//
 
+//! Reads the group type. Fails if the value on disk isn't a group type.
+template <>
+inline bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
+                     OgGroupType &value) 
+{
+  int type;
+  if (!readData(group, idx, type) || 
+      type < F3DGroupType || type > F3DCompressedDatasetType) {
+    return false;
+  }
+  value = static_cast<OgGroupType>(type);
+  return true;
+}
+
+//----------------------------------------------------------------------------//
+
 //! Reads a single data type value
 //! \note Not returning a bool here, since OgDataType has an 'invalid' enum.
 OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx);
diff --git a/include/SparseFieldIO.h b/include/SparseFieldIO.h
index 4dca640..c85fbde 100644
--- a/include/SparseFieldIO.h
+++ b/include/SparseFieldIO.h
@@ -145,6 +145,13 @@ private:
 
   // Internal methods ----------------------------------------------------------
 
+  //! Checks that the block structure in the file is the one that a field with
+  //! the given data window has
+  //! \throw FileIntegrityException if it isn't
+  static void checkBlocks(const Box3i &extents, const Box3i &dataWindow, 
+                          const int components, const int blockOrder, 
+                          const V3i &blockRes, const int numBlocks);
+
   //! This call writes all the attributes and sets up the data space.
   template <class Data_T>
   bool writeInternal(hid_t layerGroup, typename SparseField<Data_T>::Ptr field);
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index b748f84..e8eafaa 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -567,9 +567,6 @@ typename DenseField<Data_T>::Ptr
 DenseFieldIO::readData(const OgIGroup &layerGroup, const Box3i &extents, 
                        const Box3i &dataW)
 {
-  typename DenseField<Data_T>::Ptr field(new DenseField<Data_T>);
-  field->setSize(extents, dataW);
-
   // Open the dataset
   OgIDataset<Data_T> data = layerGroup.findDataset<Data_T>(k_dataStr);
   if (!data.isValid()) {
@@ -577,8 +574,19 @@ DenseFieldIO::readData(const OgIGroup &layerGroup, const Box3i &extents,
                                  "the dataset.");
   }
 
+  // Check that there is as much data as the data window says
+  checkWindow(extents);
+  const size_t numVoxels = checkWindow(dataW);
+  if (data.dataSize(0, OGAWA_THREAD) != numVoxels) {
+    throw Exc::FileIntegrityException("Data size doesn't match number of "
+                                      "voxels");
+  }
+
+  typename DenseField<Data_T>::Ptr field(new DenseField<Data_T>);
+  field->setSize(extents, dataW);
+
   // Read the data
-  if (!data.getData(0, &(*field->begin()), OGAWA_THREAD)) {
+  if (!data.getData(0, &(*field->begin()), numVoxels, OGAWA_THREAD)) {
     throw Exc::ReadDataException("DenseFieldIO::readData() couldn't read "
                                  "the dataset.");
   }
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index dee855a..9126aac 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -32,6 +32,10 @@ const char* ogGroupTypeToString(OgGroupType type)
 bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx, 
                 std::string &s)
 {
+  // Check that there is a group to read from
+  if (!group) {
+    return false;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
   // Check that we got something
@@ -65,9 +69,17 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx) 
 {
   // Data type
-  OgDataType dataType;;
+  int dataType;
+  // Check that there is a group to read from
+  if (!group) {
+    return F3DInvalidDataType;
+  }
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    return F3DInvalidDataType;
+  }
   // Check data length
   const size_t sizeLength = sizeof(OgDataType);
   const size_t length = data->getSize();
@@ -77,8 +89,12 @@ OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx)
   }
   // Read the data directly to the input param
   data->read(length, &dataType, 0, OGAWA_THREAD);
+  // Check that it is one of the types
+  if (dataType < 0 || dataType > F3DInvalidDataType) {
+    return F3DInvalidDataType;
+  }
   // Done
-  return dataType;
+  return static_cast<OgDataType>(dataType);
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 212b23c..1ed67af 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -419,6 +419,46 @@ const std::string SparseFieldIO::k_isCompressed("data_is_compressed");
 
 //----------------------------------------------------------------------------//
 
+void
+SparseFieldIO::checkBlocks(const Box3i &extents, const Box3i &dataWindow, 
+                           const int components, const int blockOrder, 
+                           const V3i &blockRes, const int numBlocks)
+{
+  checkWindow(extents);
+  checkWindow(dataWindow);
+
+  // The number of values in a block has to be an int
+  if (blockOrder < 0 || blockOrder > 10 || components < 1 ||
+      components > std::numeric_limits<int>::max() >> (3 * blockOrder)) {
+    throw FileIntegrityException("Bad block order in SparseFieldIO::read");
+  }
+  
+  int64_t numCalculatedBlocks = 1;
+  for (int dim = 0; dim < 3; ++dim) {
+    const int64_t res = 
+      static_cast<int64_t>(dataWindow.max[dim]) - dataWindow.min[dim] + 1;
+    const int64_t blockSize = static_cast<int64_t>(1) << blockOrder;
+    if (blockRes[dim] != (res + blockSize - 1) / blockSize) {
+      throw FileIntegrityException("Incorrect block resolution in "
+                                   "SparseFieldIO::read");
+    }
+    if (blockRes[dim] > 0 && numCalculatedBlocks > 
+        std::numeric_limits<int>::max() / blockRes[dim]) {
+      throw FileIntegrityException("Too many blocks in SparseFieldIO::read");
+    }
+    numCalculatedBlocks *= blockRes[dim];
+  }
+
+  // ... Check that it matches the # reported by summing the active blocks
+
+  if (numCalculatedBlocks != numBlocks) {
+    throw FileIntegrityException("Incorrect block count in "
+                                 "SparseFieldIO::read");
+  }
+}
+
+//----------------------------------------------------------------------------//
+
 FieldBase::Ptr
 SparseFieldIO::read(hid_t layerGroup, const std::string &filename, 
                     const std::string &layerPath,
@@ -471,11 +511,9 @@ SparseFieldIO::read(hid_t layerGroup, const std::string &filename,
     throw MissingAttributeException("Couldn't find attribute: " +
                                     k_blockResStr);
 
-  // ... Check that it matches the # reported by summing the active blocks
+  // ... Check that they match the data window
 
-  int numCalculatedBlocks = blockRes.x * blockRes.y * blockRes.z;
-  if (numCalculatedBlocks != numBlocks)
-    throw FileIntegrityException("Incorrect block count in SparseFieldIO::read");
+  checkBlocks(extents, dataW, components, blockOrder, blockRes, numBlocks);
 
   // Call the appropriate read function based on the data type ---
 
@@ -661,13 +699,10 @@ SparseFieldIO::read(const OgIGroup &layerGroup, const std::string &filename,
   }
   blockRes = blockResAttr.value();
 
-  // ... Check that it matches the # reported by summing the active blocks
+  // ... Check that they match the data window
 
-  int numCalculatedBlocks = blockRes.x * blockRes.y * blockRes.z;
-  if (numCalculatedBlocks != numBlocks) {
-    throw FileIntegrityException("Incorrect block count in "
-                                 "SparseFieldIO::read()");
-  }
+  checkBlocks(extents, dataW, numComponentsAttr.value(), blockOrder, blockRes, 
+              numBlocks);
 
   // Call the appropriate read function based on the data type ---
 
@@ -839,9 +874,41 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
   using namespace Exc;
   using namespace Sparse;
 
+  // Read the isAllocated and emptyValue arrays ---
+
+  // The sizes get checked before anything is allocated
+  OgIDataset<uint8_t> isAllocatedData = 
+    location.findDataset<uint8_t>("block_is_allocated_data");
+  if (!isAllocatedData.isValid()) {
+    throw MissingGroupException("Couldn't find block_is_allocated_data: ");
+  }
+  OgIDataset<Data_T> emptyValueData = 
+    location.findDataset<Data_T>("block_empty_value_data");
+  if (!emptyValueData.isValid()) {
+    throw MissingGroupException("Couldn't find block_empty_value_data: ");
+  }
+  if (isAllocatedData.dataSize(0, OGAWA_THREAD) != numBlocks ||
+      emptyValueData.dataSize(0, OGAWA_THREAD) != numBlocks) {
+    throw FileIntegrityException("Block data doesn't match number of blocks");
+  }
+  vector<uint8_t> isAllocated(numBlocks);
+  vector<Data_T> emptyValue(numBlocks);
+  if (numBlocks > 0 && 
+      (!isAllocatedData.getData(0, &isAllocated[0], numBlocks, 
+                                OGAWA_THREAD) ||
+       !emptyValueData.getData(0, &emptyValue[0], numBlocks, 
+                               OGAWA_THREAD))) {
+    throw ReadDataException("Couldn't read block data");
+  }
+
+  // Construct the field ---
+
   typename SparseField<Data_T>::Ptr result(new SparseField<Data_T>);
-  result->setSize(extents, dataW);
   result->setBlockOrder(blockOrder);
+  result->setSize(extents, dataW);
+  if (result->m_numBlocks != numBlocks) {
+    throw FileIntegrityException("Block count mismatch in SparseFieldIO");
+  }
 
   const bool   dynamicLoading = SparseFileManager::singleton().doLimitMemUse();
   const int    components     = FieldTraits<Data_T>::dataDims();
@@ -857,6 +924,22 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
                                     k_numOccupiedBlocksStr);
   }
   const size_t occupiedBlocks = occupiedBlocksAttr.value();
+  if (numBlocks - std::count(isAllocated.begin(), isAllocated.end(), 0) != 
+      occupiedBlocks) {
+    throw FileIntegrityException("Occupied block count mismatch in "
+                                 "SparseFieldIO");
+  }
+
+  // Check whether data is compressed
+  OgIAttribute<uint8_t> isCompressedAttr = 
+    location.findAttribute<uint8_t>(k_isCompressed);
+  const bool isCompressed = isCompressedAttr.value() != 0;
+
+  // Check that the file has the blocks, before allocating them
+  if (occupiedBlocks > 0) {
+    OgSparseDataReader<Data_T>(location, numVoxels, occupiedBlocks, 
+                               isCompressed).checkBlocks();
+  }
 
   // Set up the dynamic read info ---
 
@@ -867,58 +950,26 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
                          occupiedBlocks);
   }
 
-  // Read the block info data sets ---
+  // Set up the blocks ---
 
   SparseBlock<Data_T> *blocks = result->m_blocks;
 
-  // ... Read the isAllocated array and set up the block mapping array
+  // ... Allocate the blocks and set up the block mapping array
   std::vector<size_t> blockIdxToDatasetIdx(numBlocks);
 
-  {
-    // Grab the data
-    vector<uint8_t> isAllocated(numBlocks);
-    OgIDataset<uint8_t> isAllocatedData = 
-      location.findDataset<uint8_t>("block_is_allocated_data");
-    if (!isAllocatedData.isValid()) {
-      throw MissingGroupException("Couldn't find block_is_allocated_data: ");
-    }
-    isAllocatedData.getData(0, &isAllocated[0], OGAWA_THREAD);
-    // Allocate the blocks and set up the block mapping array
-    for (size_t i = 0, nextBlockOnDisk = 0; i < numBlocks; ++i) {
-      blocks[i].isAllocated = isAllocated[i];
-      if (!dynamicLoading && isAllocated[i]) {
-        blocks[i].resize(numVoxels);
-        // Update the block mapping array
-        blockIdxToDatasetIdx[i] = nextBlockOnDisk;
-        nextBlockOnDisk++;
-      }
-    }
-  }
-
-  // ... Read the emptyValue array ---
-
-  {
-    // Grab the data
-    vector<Data_T> emptyValue(numBlocks);
-    OgIDataset<Data_T> emptyValueData = 
-      location.findDataset<Data_T>("block_empty_value_data");
-    if (!emptyValueData.isValid()) {
-      throw MissingGroupException("Couldn't find block_empty_value_data: ");
-    }
-    emptyValueData.getData(0, &emptyValue[0], OGAWA_THREAD);
-    // Fill in the field
-    for (size_t i = 0; i < numBlocks; ++i) {
-      blocks[i].emptyValue = emptyValue[i];
+  for (size_t i = 0, nextBlockOnDisk = 0; i < numBlocks; ++i) {
+    blocks[i].isAllocated = isAllocated[i];
+    blocks[i].emptyValue = emptyValue[i];
+    if (!dynamicLoading && isAllocated[i]) {
+      blocks[i].resize(numVoxels);
+      // Update the block mapping array
+      blockIdxToDatasetIdx[i] = nextBlockOnDisk;
+      nextBlockOnDisk++;
     }
   }
 
   // Read the data ---
 
-  // Check whether data is compressed
-  OgIAttribute<uint8_t> isCompressedAttr = 
-    location.findAttribute<uint8_t>(k_isCompressed);
-  const bool isCompressed = isCompressedAttr.value() != 0;
-
   if (occupiedBlocks > 0) {
     if (dynamicLoading) {
       // Defer loading to the sparse cache
@@ -932,8 +983,14 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
       const size_t numThreads = numIOThreads();
       // Launch threads
       boost::thread_group threads;
+      // All of them get constructed before the first one is started, since
+      // that throws an exception if the data can't be read
+      std::vector<ReadBlockOp<Data_T> > ops;
+      for (size_t i = 0; i < numThreads; ++i) {
+        ops.push_back(ReadBlockOp<Data_T>(state, i));
+      }
       for (size_t i = 0; i < numThreads; ++i) {
-        threads.create_thread(ReadBlockOp<Data_T>(state, i));
+        threads.create_thread(ops[i]);
       }
       threads.join_all();
       // Check that all the blocks got read
-- 
2.43.0


From adeb08ed1db3483db7db4a360e97d20221895b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 081/104] fix: data in HDF5 files that doesn't match the
 field's size is reported

---
 export/Hdf5Util.h         | 35 ++++++++++++++----
 export/SparseDataReader.h | 77 ++++++++++++++++++++++++++++++---------
 include/MACFieldIO.h      | 10 ++---
 src/DenseFieldIO.cpp      | 11 +++---
 src/Hdf5Util.cpp          | 36 +++++++-----------
 src/MACFieldIO.cpp        | 29 +++++++++++++++
 src/SparseFieldIO.cpp     | 59 ++++++++++++++++--------------
 src/SparseFile.cpp        | 30 +++++++++++----
 8 files changed, 194 insertions(+), 93 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 7f5675c..8b0a2bc 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -464,6 +464,11 @@ template <typename T>
 void writeSimpleData(hid_t location, const std::string &name,
                      const std::vector<T> &data);
 
+//! Returns the number of values in a linear data set's data space
+//! \throw FileIntegrityException if the data set isn't linear
+//! \ingroup hdf5
+inline hsize_t getLinearSize(hid_t dataSpace);
+
 //! Reads a simple linear data set from the given location
 //! \ingroup hdf5
 template <typename T>
@@ -619,6 +624,26 @@ void writeSimpleData(hid_t location, const std::string &name,
 
 //----------------------------------------------------------------------------//
 
+inline hsize_t getLinearSize(hid_t dataSpace)
+{
+  using namespace Exc;
+
+  GlobalLock lock(g_hdf5Mutex);
+
+  hsize_t dims[1];
+
+  if (dataSpace < 0) 
+    throw GetDataSpaceException("Couldn't get data space");
+
+  if (H5Sget_simple_extent_ndims(dataSpace) != 1 ||
+      H5Sget_simple_extent_dims(dataSpace, dims, NULL) < 0)
+    throw FileIntegrityException("Data set isn't linear");
+
+  return dims[0];
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename T>
 void readSimpleData(hid_t location, const std::string &name,
                      std::vector<T> &data)
@@ -628,7 +653,6 @@ void readSimpleData(hid_t location, const std::string &name,
   GlobalLock lock(g_hdf5Mutex);
 
   int components = FieldTraits<T>::dataDims();
-  hsize_t dims[1];
 
   H5ScopedDopen dataSet(location, name.c_str(), H5P_DEFAULT);
 
@@ -637,7 +661,6 @@ void readSimpleData(hid_t location, const std::string &name,
   
   H5ScopedDget_space dataSpace(dataSet.id());
   H5ScopedDget_type dataType(dataSet.id());
-  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
   if (dataSpace.id() < 0) 
     throw GetDataSpaceException("Couldn't get data space");
@@ -645,11 +668,9 @@ void readSimpleData(hid_t location, const std::string &name,
   if (dataType.id() < 0)
     throw GetDataTypeException("Couldn't get data type");
 
-  int reportedSize = dims[0] / components;
-
-  // Resize target
-  data.clear();
-  data.resize(reportedSize);
+  // The target has the expected size already
+  if (getLinearSize(dataSpace.id()) != data.size() * components)
+    throw FileIntegrityException("Bad size of data set: " + name);
   
   // Get the internal data type
   hid_t type = DataTypeTraits<T>::h5type();
diff --git a/export/SparseDataReader.h b/export/SparseDataReader.h
index c5b056a..52c9614 100644
--- a/export/SparseDataReader.h
+++ b/export/SparseDataReader.h
@@ -79,6 +79,10 @@ public:
 
   // Main methods --------------------------------------------------------------
 
+  //! Checks that the data set has the size that the constructor was told.
+  //! \throw FileIntegrityException if it doesn't
+  void checkBlocks() const;
+
   //! Reads a block, storing the data in result, which is assumed to contain
   //! enough room for m_valuesPerBlock entries.
   void readBlock(int idx, Data_T &result);
@@ -89,6 +93,11 @@ public:
 
 private:
 
+  // Utility methods -----------------------------------------------------------
+
+  //! Checks that the dimensions of the data set match
+  void checkDims(hid_t dataSpace) const;
+
   // Data members --------------------------------------------------------------
 
   hid_t m_location;
@@ -116,6 +125,49 @@ SparseDataReader<Data_T>::SparseDataReader(hid_t location, int valuesPerBlock,
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void SparseDataReader<Data_T>::checkDims(hid_t dataSpace) const
+{
+  using namespace Exc;
+
+  hsize_t dims[2];
+
+  if (H5Sget_simple_extent_ndims(dataSpace) != 2 ||
+      H5Sget_simple_extent_dims(dataSpace, dims, NULL) < 0) {
+    throw FileIntegrityException("Bad data set in SparseDataReader");
+  }
+  if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
+    throw FileIntegrityException("Block length mismatch in "
+                                 "SparseDataReader");
+  }
+  if (dims[0] != static_cast<hsize_t>(m_occupiedBlocks)) 
+    throw FileIntegrityException("Block count mismatch in "
+                                 "SparseDataReader");
+}
+
+//----------------------------------------------------------------------------//
+
+template <class Data_T>
+void SparseDataReader<Data_T>::checkBlocks() const
+{
+  using namespace Hdf5Util;
+  using namespace Exc;
+
+  GlobalLock lock(g_hdf5Mutex);
+
+  H5ScopedDopen dataSet(m_location, k_dataStr, H5P_DEFAULT);
+  if (dataSet.id() < 0) 
+    throw OpenDataSetException("Couldn't open data set: " + k_dataStr);
+
+  H5ScopedDget_space dataSpace(dataSet.id());
+  if (dataSpace.id() < 0) 
+    throw GetDataSpaceException("Couldn't get data space");
+
+  checkDims(dataSpace.id());
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
 {
@@ -129,7 +181,6 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   Hdf5Util::H5ScopedDget_type  dataType;
   Hdf5Util::H5ScopedScreate    memDataSpace;
 
-  hsize_t dims[2];
   hsize_t memDims[1];
 
   // Open the data set
@@ -151,14 +202,7 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   H5Sset_extent_simple(memDataSpace.id(), 1, memDims, NULL);
 
   // Get the dimensions and check they match
-  H5Sget_simple_extent_dims(fileDataSpace.id(), dims, NULL);
-  if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
-    throw FileIntegrityException("Block length mismatch in "
-                                 "SparseDataReader");
-  }
-  if (dims[0] != static_cast<hsize_t>(m_occupiedBlocks)) 
-    throw FileIntegrityException("Block count mismatch in "
-                                 "SparseDataReader");
+  checkDims(fileDataSpace.id());
 
   hsize_t offset[2];
   hsize_t count[2];
@@ -180,6 +224,11 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   status = H5Dread(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                    memDataSpace.id(), fileDataSpace.id(), 
                    H5P_DEFAULT, &result);
+
+  if (status < 0) {
+    throw Hdf5DataReadException("Couldn't read block " + 
+                                boost::lexical_cast<std::string>(idx));
+  }
 }
 
 //----------------------------------------------------------------------------//
@@ -198,7 +247,6 @@ void SparseDataReader<Data_T>::readBlockList
   Hdf5Util::H5ScopedDget_type dataType;
   Hdf5Util::H5ScopedScreate memDataSpace;
 
-  hsize_t dims[2];
   hsize_t memDims[1];
 
   // Open the data set
@@ -220,14 +268,7 @@ void SparseDataReader<Data_T>::readBlockList
   H5Sset_extent_simple(memDataSpace.id(), 1, memDims, NULL);
 
   // Get the dimensions and check they match
-  H5Sget_simple_extent_dims(fileDataSpace.id(), dims, NULL);
-  if (dims[1] != static_cast<hsize_t>(m_valuesPerBlock)) {
-    throw FileIntegrityException("Block length mismatch in "
-                                 "SparseDataReader");
-  }
-  if (dims[0] != static_cast<hsize_t>(m_occupiedBlocks)) 
-    throw FileIntegrityException("Block count mismatch in "
-                                 "SparseDataReader");
+  checkDims(fileDataSpace.id());
 
   hsize_t offset[2];
   hsize_t count[2];
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index ce18dc7..2057728 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -150,6 +150,11 @@ private:
   bool writeData(hid_t layerGroup, typename MACField<Data_T>::Ptr field,
                  MACComponent comp);
 
+  //! Checks that there is as much data as the data window says
+  //! \throw FileIntegrityException if there isn't
+  static void checkSizes(hid_t layerGroup, const Box3i &extents, 
+                         const Box3i &dataWindow);
+
   //! Reads the data that is dependent on the data type on disk
   template <class Data_T>
   bool readData(hid_t location, typename MACField<Data_T>::Ptr result);
@@ -325,8 +330,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
   using namespace Exc;
   using namespace Hdf5Util;
 
-  hsize_t dims[1];
-
   // read u_data
   {
 
@@ -336,7 +339,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -363,7 +365,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
@@ -391,7 +392,6 @@ bool MACFieldIO::readData(hid_t layerGroup,
 
     H5ScopedDget_space dataSpace(dataSet.id());
     H5ScopedDget_type dataType(dataSet.id());
-    H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
     if (dataSpace.id() < 0) 
       throw GetDataSpaceException("Couldn't get data space");
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index e8eafaa..593c7ff 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -86,7 +86,6 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
 {
   Box3i extents, dataW;
   int components;
-  hsize_t dims[1];
   
   if (layerGroup == -1)
     throw BadHdf5IdException("Bad layer group in DenseFieldIO::read");
@@ -119,7 +118,6 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
 
   H5ScopedDget_space dataSpace(dataSet.id());
   H5ScopedDget_type dataType(dataSet.id());
-  H5Sget_simple_extent_dims(dataSpace.id(), dims, NULL);
 
   if (dataSpace.id() < 0) 
     throw GetDataSpaceException("Couldn't get data space");
@@ -129,11 +127,12 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
 
   // Double-check that the sizes match ---
 
-  V3i size(dataW.size() + V3i(1));
-  int calculatedTotal = size.x * size.y * size.z;
-  int reportedSize = dims[0] / components;
+  checkWindow(extents);
+  const hsize_t calculatedTotal = checkWindow(dataW);
+  const hsize_t reportedSize = getLinearSize(dataSpace.id());
 
-  if (calculatedTotal != reportedSize) 
+  if (components < 1 || reportedSize % components != 0 || 
+      calculatedTotal != reportedSize / components) 
     throw FileIntegrityException("Data size doesn't match number of voxels");
 
   // Build a DenseField to store everything in
diff --git a/src/Hdf5Util.cpp b/src/Hdf5Util.cpp
index 5d146a8..26cc84d 100644
--- a/src/Hdf5Util.cpp
+++ b/src/Hdf5Util.cpp
@@ -101,6 +101,10 @@ readAttribute(hid_t location, const string& attrName, string& value)
   if (typeClass != H5T_STRING)
     throw MissingAttributeException("Bad attribute type class for " + attrName);
 
+  // Strings of variable length aren't stored in place
+  if (H5Tis_variable_str(attrType) != 0) 
+    throw MissingAttributeException("Bad attribute type for " + attrName);
+
   H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
 
   std::vector<char> tempString(strLen + 1);
@@ -148,9 +152,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_INT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -191,9 +193,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_FLOAT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -209,7 +209,7 @@ readAttribute(hid_t location, const string& attrName,
 
   H5T_class_t typeClass;
 
-  if (H5Aexists(location, attrName.c_str()) < 0)
+  if (H5Aexists(location, attrName.c_str()) < 1)
     throw MissingAttributeException("Couldn't find attribute " + attrName);
 
   H5ScopedAopen attr(location, attrName.c_str(), H5P_DEFAULT);
@@ -233,9 +233,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_DOUBLE, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -252,7 +250,7 @@ readAttribute(hid_t location, const string& attrName,
   H5T_class_t typeClass;
   size_t rank = attrSize.size();
 
-  if (H5Aexists(location, attrName.c_str()) < 0)
+  if (H5Aexists(location, attrName.c_str()) < 1)
     throw MissingAttributeException("Couldn't find attribute " + attrName);
 
   H5ScopedAopen attr(location, attrName.c_str(), H5P_DEFAULT);
@@ -279,9 +277,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_INT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -298,7 +294,7 @@ readAttribute(hid_t location, const string& attrName,
   H5T_class_t typeClass;
   size_t rank = attrSize.size();
 
-  if (H5Aexists(location, attrName.c_str()) < 0)
+  if (H5Aexists(location, attrName.c_str()) < 1)
     throw MissingAttributeException("Couldn't find attribute " + attrName);
 
   H5ScopedAopen attr(location, attrName.c_str(), H5P_DEFAULT);
@@ -325,9 +321,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_FLOAT, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
@@ -344,7 +338,7 @@ readAttribute(hid_t location, const string& attrName,
   H5T_class_t typeClass;
   size_t rank = attrSize.size();
 
-  if (H5Aexists(location, attrName.c_str()) < 0)
+  if (H5Aexists(location, attrName.c_str()) < 1)
     throw MissingAttributeException("Couldn't find attribute " + attrName);
 
   H5ScopedAopen attr(location, attrName.c_str(), H5P_DEFAULT);
@@ -371,9 +365,7 @@ readAttribute(hid_t location, const string& attrName,
     throw MissingAttributeException("Bad attribute type class for " + 
                                     attrName);
 
-  H5ScopedTget_native_type nativeType(attrType, H5T_DIR_ASCEND);
-
-  if (H5Aread(attr, nativeType, &value) < 0) 
+  if (H5Aread(attr, H5T_NATIVE_DOUBLE, &value) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
   return true;
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index daa109c..9a0a68d 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -114,6 +114,9 @@ MACFieldIO::read(hid_t layerGroup, const std::string & /* filename */,
     throw MissingAttributeException("Couldn't find attribute: " +
                                     k_bitsPerComponentStr);  
 
+  // Check the sizes before anything is allocated
+  checkSizes(layerGroup, extents, dataW);
+
   // Build a MACField to store everything in
   FieldBase::Ptr result;
   switch (bits) {
@@ -154,6 +157,32 @@ MACFieldIO::read(hid_t layerGroup, const std::string & /* filename */,
 
 //----------------------------------------------------------------------------//
 
+void
+MACFieldIO::checkSizes(hid_t layerGroup, const Box3i &extents, 
+                       const Box3i &dataWindow)
+{
+  checkWindow(extents);
+
+  // Each component has one more face than there are voxels
+  const std::string names[3] = { k_uDataStr, k_vDataStr, k_wDataStr };
+  for (int dim = 0; dim < 3; ++dim) {
+    if (dataWindow.max[dim] == std::numeric_limits<int>::max()) {
+      throw FileIntegrityException("Bad data window in MACFieldIO::read");
+    }
+    Box3i faces(dataWindow);
+    faces.max[dim] += 1;
+    const int64_t numFaces = checkWindow(faces);
+    H5ScopedDopen dataSet(layerGroup, names[dim], H5P_DEFAULT);
+    if (dataSet.id() < 0) 
+      throw OpenDataSetException("Couldn't open data set: " + names[dim]);
+    H5ScopedDget_space dataSpace(dataSet.id());
+    if (getLinearSize(dataSpace.id()) != static_cast<hsize_t>(numFaces))
+      throw FileIntegrityException("Data size doesn't match number of faces");
+  }
+}
+
+//----------------------------------------------------------------------------//
+
 FieldBase::Ptr
 MACFieldIO::read(const OgIGroup & /* layerGroup */, 
                  const std::string & /* filename */, 
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 1ed67af..cc8b02e 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -552,40 +552,40 @@ SparseFieldIO::read(hid_t layerGroup, const std::string &filename,
   if (components == 1) {
     if (isHalf && typeEnum == DataTypeHalf) {
       SparseField<half>::Ptr field(new SparseField<half>);
-      field->setSize(extents, dataW);
       field->setBlockOrder(blockOrder);
+      field->setSize(extents, dataW);
       readData<half>(layerGroup, numBlocks, filename, layerPath, field);
       result = field;      
     } else if (isFloat && typeEnum == DataTypeFloat) {
       SparseField<float>::Ptr field(new SparseField<float>);
-      field->setSize(extents, dataW);
       field->setBlockOrder(blockOrder);
+      field->setSize(extents, dataW);
       readData<float>(layerGroup, numBlocks, filename, layerPath, field);
       result = field;      
     } else if (isDouble && typeEnum == DataTypeDouble) {
       SparseField<double>::Ptr field(new SparseField<double>);
-      field->setSize(extents, dataW);
       field->setBlockOrder(blockOrder);
+      field->setSize(extents, dataW);
       readData<double>(layerGroup, numBlocks, filename, layerPath, field);
       result = field;      
     }
   } else if (components == 3) {
     if (isHalf && typeEnum == DataTypeVecHalf) {
       SparseField<V3h>::Ptr field(new SparseField<V3h>);
-      field->setSize(extents, dataW);
       field->setBlockOrder(blockOrder);
+      field->setSize(extents, dataW);
       readData<V3h>(layerGroup, numBlocks, filename, layerPath, field);
       result = field;      
     } else if (isFloat && typeEnum == DataTypeVecFloat) {
       SparseField<V3f>::Ptr field(new SparseField<V3f>);
-      field->setSize(extents, dataW);
       field->setBlockOrder(blockOrder);
+      field->setSize(extents, dataW);
       readData<V3f>(layerGroup, numBlocks, filename, layerPath, field);
       result = field;      
     } else if (isDouble && typeEnum == DataTypeVecDouble) {
       SparseField<V3d>::Ptr field(new SparseField<V3d>);
-      field->setSize(extents, dataW);
       field->setBlockOrder(blockOrder);
+      field->setSize(extents, dataW);
       readData<V3d>(layerGroup, numBlocks, filename, layerPath, field);
       result = field;      
     }    
@@ -1336,6 +1336,26 @@ bool SparseFieldIO::readData(hid_t location,
     throw MissingAttributeException("Couldn't find attribute: " +
                                     k_numOccupiedBlocksStr);
 
+  // Read the block info data sets ---
+
+  // The sizes get checked before the blocks are allocated
+  if (result->m_numBlocks != static_cast<size_t>(numBlocks)) {
+    throw FileIntegrityException("Block count mismatch in SparseFieldIO");
+  }
+  vector<char> isAllocated(numBlocks);
+  vector<Data_T> emptyValue(numBlocks);
+  readSimpleData<char>(location, "block_is_allocated_data", isAllocated);
+  readSimpleData<Data_T>(location, "block_empty_value_data", emptyValue);
+  if (numBlocks - std::count(isAllocated.begin(), isAllocated.end(), 0) != 
+      occupiedBlocks) {
+    throw FileIntegrityException("Occupied block count mismatch in "
+                                 "SparseFieldIO");
+  }
+  if (occupiedBlocks > 0) {
+    SparseDataReader<Data_T>(location, valuesPerBlock, 
+                             occupiedBlocks).checkBlocks();
+  }
+
   // Set up the dynamic read info ---
 
   if (dynamicLoading) {
@@ -1345,30 +1365,15 @@ bool SparseFieldIO::readData(hid_t location,
                          occupiedBlocks);
   }
 
-  // Read the block info data sets ---
+  // Set up the blocks ---
 
   SparseBlock<Data_T> *blocks = result->m_blocks;
 
-  // ... Read the isAllocated array
-
-  {
-    vector<char> isAllocated(numBlocks);
-    readSimpleData<char>(location, "block_is_allocated_data", isAllocated);
-    for (int i = 0; i < numBlocks; ++i) {
-      blocks[i].isAllocated = isAllocated[i];
-      if (!dynamicLoading && isAllocated[i]) {
-        blocks[i].resize(numVoxels);
-      }
-    }
-  }
-
-  // ... Read the emptyValue array ---
-
-  {
-    vector<Data_T> emptyValue(numBlocks);
-    readSimpleData<Data_T>(location, "block_empty_value_data", emptyValue);
-    for (int i = 0; i < numBlocks; ++i) {
-      blocks[i].emptyValue = emptyValue[i];
+  for (int i = 0; i < numBlocks; ++i) {
+    blocks[i].isAllocated = isAllocated[i];
+    blocks[i].emptyValue = emptyValue[i];
+    if (!dynamicLoading && isAllocated[i]) {
+      blocks[i].resize(numVoxels);
     }
   }
 
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 255f1bc..f773b45 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -539,10 +539,17 @@ void Reference<Data_T>::loadBlock(int blockIdx)
   assert(blocks[blockIdx].data != NULL);
   // Read the data
   assert(m_reader || m_ogReader);
-  if (m_reader) {
-    m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx].data);
-  } else {
-    m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx].data);
+  try {
+    if (m_reader) {
+      m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx].data);
+    } else {
+      m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx].data);
+    }
+  }
+  catch (...) {
+    // The block isn't loaded, so nothing else would free it
+    blocks[blockIdx].clear();
+    throw;
   }
   // Mark block as loaded
   blockLoaded[blockIdx] = 1;
@@ -553,10 +560,17 @@ void Reference<Data_T>::loadBlock(int blockIdx)
   assert(blocks[blockIdx]->data != NULL);
   // Read the data
   assert(m_reader || m_ogReader);
-  if (m_reader) {
-    m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx]->data);
-  } else {
-    m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx]->data);
+  try {
+    if (m_reader) {
+      m_reader->readBlock(fileBlockIndices[blockIdx], *blocks[blockIdx]->data);
+    } else {
+      m_ogReader->readBlock(fileBlockIndices[blockIdx], blocks[blockIdx]->data);
+    }
+  }
+  catch (...) {
+    // The block isn't loaded, so nothing else would free it
+    blocks[blockIdx]->clear();
+    throw;
   }
   // Mark block as loaded
   blockLoaded[blockIdx] = 1;
-- 
2.43.0


From f1b1eb3a51322586e3925ead14c6afc9e154864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 082/104] fix: impossible extents and data windows in files are
 reported

---
 export/Field3DFileHDF5.h | 2 ++
 include/MIPFieldIO.h     | 4 ++++
 src/Field3DFile.cpp      | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 1f9fb2f..7023666 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1266,6 +1266,8 @@ Field3DInputFileHDF5::readProxyLayer(hid_t location,
   } 
 
   // Construct the field and load the data
+  FieldIO::checkWindow(extents);
+  FieldIO::checkWindow(dataW);
   typename EmptyField<Data_T>::Ptr field(new EmptyField<Data_T>);
   field->setSize(extents, dataW);
 
diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 6007b61..e9d3258 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -605,6 +605,8 @@ MIPFieldIO::readInternal(hid_t layerGroup,
       throw MissingAttributeException("Couldn't find attribute " + 
                                       k_dataWindowStr);
     // Configure proxy with resolution
+    checkWindow(extents);
+    checkWindow(dataW);
     proxy->setSize(extents, dataW);
     proxies.push_back(proxy);
     // Make the lazy load action
@@ -746,6 +748,8 @@ MIPFieldIO::readInternal(const OgIGroup &layerGroup,
     dataW.min = dwMinAttr.value();
     dataW.max = dwMaxAttr.value();
     // Configure proxy with resolution
+    checkWindow(extents);
+    checkWindow(dataW);
     proxy->setSize(extents, dataW);
     proxies.push_back(proxy);
     // Make the lazy load action
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 46276c2..453e786 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1792,6 +1792,8 @@ Field3DInputFile::readProxyLayer(OgIGroup &location,
   dataW.max = dwMaxAttr.value();
 
   // Construct the field
+  FieldIO::checkWindow(extents);
+  FieldIO::checkWindow(dataW);
   typename EmptyField<Data_T>::Ptr field(new EmptyField<Data_T>);
   field->setSize(extents, dataW);
 
-- 
2.43.0


From f0bc374f9b0582f231f2b2a0d71f7a75ec556a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 083/104] fix: unreadable partitions and mappings in files are
 reported

---
 src/Field3DFile.cpp     |  1 -
 src/Field3DFileHDF5.cpp | 11 ++++++++++-
 src/FieldMappingIO.cpp  | 12 ++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 453e786..1b4bc9f 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -201,7 +201,6 @@ namespace {
     const std::string className = mappingAttr.value();
 
     FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + className);
       return FieldMapping::Ptr();
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 3078a25..0b10975 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -716,6 +716,9 @@ bool Field3DInputFileHDF5::readPartitionAndLayerInfo()
   herr_t status;
   status = H5Literate(m_file, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, 
                       &parsePartitions, this);
+  if (status < 0) {
+    throw BadFileHierarchyException("Couldn't find the partitions");
+  }
 
   // Get the partition names to store 
   m_partitions.clear();
@@ -772,6 +775,9 @@ bool Field3DInputFileHDF5::readPartitionAndLayerInfo()
 
     status = H5Literate(partitionGroup.id(), H5_INDEX_NAME, H5_ITER_NATIVE, 
                         NULL, &parseLayers, &info);
+    if (status < 0) {
+      throw BadFileHierarchyException((**i).name);
+    }
 
     //set the layer information on the partitions here
 
@@ -1179,6 +1185,10 @@ herr_t parseLayers(hid_t loc_id, const char *itemName,
   
   status = H5Oget_info_by_name (loc_id, itemName, &infobuf, H5P_DEFAULT);
 
+  if (status < 0) {
+    return -1;
+  }
+
   if (infobuf.type == H5O_TYPE_GROUP) {
 
     // Check that we have a name 
@@ -1625,7 +1635,6 @@ FieldMapping::Ptr readFieldMapping(hid_t mappingGroup)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index f51a8f9..93de6d6 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -398,6 +398,12 @@ FrustumFieldMappingIO::read(hid_t mappingGroup)
                  k_frustumMappingZDistribution);
       return FieldMapping::Ptr();
     }
+    if (distInt != FrustumFieldMapping::PerspectiveDistribution &&
+        distInt != FrustumFieldMapping::UniformDistribution) {
+      Msg::print(Msg::SevWarning, "Unknown value for attribute " + 
+                 k_frustumMappingZDistribution);
+      return FieldMapping::Ptr();
+    }
     dist = static_cast<FrustumFieldMapping::ZDistribution>(distInt); 
   } catch (...) {
     dist = FrustumFieldMapping::PerspectiveDistribution;
@@ -476,6 +482,12 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingZDistribution);
       return FieldMapping::Ptr();
     }
+    if (zDist.value() != FrustumFieldMapping::PerspectiveDistribution &&
+        zDist.value() != FrustumFieldMapping::UniformDistribution) {
+      Msg::print(Msg::SevWarning, "Unknown value for attribute " + 
+                 k_frustumMappingZDistribution);
+      return FieldMapping::Ptr();
+    }
     dist = static_cast<FrustumFieldMapping::ZDistribution>(zDist.value()); 
   } catch (...) {
     dist = FrustumFieldMapping::PerspectiveDistribution;
-- 
2.43.0


From 7a473f804021ebda3c7df245daa31a2d5136d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 084/104] fix: a layer that couldn't be written isn't found in
 HDF5 files

---
 export/Field3DFileHDF5.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 7023666..97442d2 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1531,12 +1531,6 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
-  // Tag as layer
-  if (!writeAttribute(layerGroup.id(), "class_type", "field3d_layer")) {
-    Msg::print(Msg::SevWarning, "Error adding layer string.");
-    return false;
-  }    
-
   // Add metadata group and write it out  
   H5ScopedGcreate metadataGroup(layerGroup.id(), "metadata");
   if (metadataGroup.id() < 0) {
@@ -1552,6 +1546,13 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     Msg::print(Msg::SevWarning, "Error writing layer: " + layer.name);
     return false;
   }
+
+  // Tag as layer. This is done once everything is in place, so that a layer
+  // which couldn't be written isn't found when the file is read.
+  if (!writeAttribute(layerGroup.id(), "class_type", "field3d_layer")) {
+    Msg::print(Msg::SevWarning, "Error adding layer string.");
+    return false;
+  }    
   
   // Add layer to partition ---
 
-- 
2.43.0


From a9c698673a001c7f86b213776dcfe8bad7160c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 085/104] fix: files in an unknown version of the Ogawa format
 aren't opened

---
 src/IStreams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index b107031..ae22219 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -108,6 +108,7 @@ IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         filestream->close();
         delete filestream;
@@ -128,6 +129,7 @@ IStreams::IStreams(const std::vector< std::istream * > & iStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         return;
     }
-- 
2.43.0


From 6a76dd0e1dc9d4049794f7f211b9525c77b17912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 086/104] fix: file sequences without both numbers are
 rejected, and may begin with one

---
 src/FileSequence.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/FileSequence.cpp b/src/FileSequence.cpp
index d5ca07c..c6925d0 100644
--- a/src/FileSequence.cpp
+++ b/src/FileSequence.cpp
@@ -95,7 +95,10 @@ FileSequence::FileSequence(const std::string &sequence)
   }
 
   // Get the end range index
-  size_t seqEndIdx = sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
+  size_t seqEndIdx = npos;
+  if (seqMarkIdx > 0) {
+    seqEndIdx = sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
+  }
   if (seqEndIdx == npos) {
     std::stringstream warning;
     warning << "Sequence mark but no sequence range in filename: " 
@@ -122,16 +125,27 @@ FileSequence::FileSequence(const std::string &sequence)
     return;     
   }
 
-  // Get the start range index
-  size_t seqStartIdx = sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
-  if (seqStartIdx == npos) {
+  // Make sure there is an end number
+  if (seqEndIdx == seqMarkIdx) {
+    std::stringstream warning;
+    warning << "No sequence end in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
+
+  // Get the start range index. The filename may begin with the number.
+  size_t seqStartIdx = 0;
+  if (seqEndIdx > 1) {
+    seqStartIdx = sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
+    seqStartIdx = seqStartIdx == npos ? 0 : seqStartIdx + 1;
+  }
+  if (seqStartIdx == seqEndIdx - 1) {
     std::stringstream warning;
     warning << "No sequence start in filename: " 
             << sequence;
     Msg::print(Msg::SevWarning, warning.str());
     return;
-  } else {
-    seqStartIdx += 1;
   }
     
   // String versions of frame numbers
-- 
2.43.0


From 8e66ed39339167479fcf45c308c1007756c25e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 087/104] fix: numbers that are too large in file sequences are
 rejected

---
 src/FileSequence.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/FileSequence.cpp b/src/FileSequence.cpp
index c6925d0..0e7b982 100644
--- a/src/FileSequence.cpp
+++ b/src/FileSequence.cpp
@@ -45,8 +45,10 @@
 #include "FileSequence.h"
 
 // System includes
+#include <cerrno>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 
 // Library includes
 #include "Log.h"
@@ -149,19 +151,30 @@ FileSequence::FileSequence(const std::string &sequence)
   }
     
   // String versions of frame numbers
-  const std::string startStr = sequence.substr(seqStartIdx, seqEndIdx - 1);
-  const std::string endStr   = sequence.substr(seqEndIdx, seqMarkIdx);
+  const std::string startStr = 
+    sequence.substr(seqStartIdx, seqEndIdx - 1 - seqStartIdx);
+  const std::string endStr   = 
+    sequence.substr(seqEndIdx, seqMarkIdx - seqEndIdx);
 
   // Get the integers
-  const int start = atoi(startStr.c_str());
-  const int end   = atoi(endStr.c_str());
+  errno = 0;
+  const long long start = strtoll(startStr.c_str(), NULL, 10);
+  const long long end   = strtoll(endStr.c_str(), NULL, 10);
+  if (errno == ERANGE || start > std::numeric_limits<int>::max() ||
+      end > std::numeric_limits<int>::max()) {
+    std::stringstream warning;
+    warning << "Sequence number too large in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
 
   // Create the file basename for replacement
   const std::string baseStart = sequence.substr(0, seqStartIdx);
   const std::string baseEnd   = sequence.substr(seqMarkIdx + 1);
 
   // Create the filenames
-  for (int i = start; i <= end; ++i) {
+  for (long long i = start; i <= end; ++i) {
     std::stringstream filename;
     filename << baseStart << i << baseEnd;
     m_filenames.push_back(filename.str());
-- 
2.43.0


From 626fa8b22bb328ea6c842532e62ef8eb9fe30ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 088/104] fix: tools use all input files, however they are
 given

---
 apps/f3dinfo/main.cpp    | 9 ---------
 apps/f3dmakemip/main.cpp | 9 ---------
 apps/f3dmerge/main.cpp   | 9 ---------
 3 files changed, 27 deletions(-)

diff --git a/apps/f3dinfo/main.cpp b/apps/f3dinfo/main.cpp
index 40efc04..6f7011c 100644
--- a/apps/f3dinfo/main.cpp
+++ b/apps/f3dinfo/main.cpp
@@ -122,15 +122,6 @@ Options parseOptions(int argc, char **argv)
     ;
   
   po::variables_map vm;
-  try {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
-  } catch(...) {
-    cerr << "Unknown command line option.\n";
-    cout << desc << endl;
-    exit(1);
-  }
-  po::notify(vm);
-  
   po::positional_options_description p;
   p.add("input-file", -1);
   
diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index ce054e5..7e16539 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -161,15 +161,6 @@ Options parseOptions(int argc, char **argv)
     ;
   
   po::variables_map vm;
-  try {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
-  } catch(...) {
-    cerr << "Unknown command line option.\n";
-    cout << desc << endl;
-    exit(1);
-  }
-  po::notify(vm);
-  
   po::positional_options_description p;
   p.add("input-file", -1);
   
diff --git a/apps/f3dmerge/main.cpp b/apps/f3dmerge/main.cpp
index 9d3987a..0dcbc13 100644
--- a/apps/f3dmerge/main.cpp
+++ b/apps/f3dmerge/main.cpp
@@ -141,15 +141,6 @@ Options parseOptions(int argc, char **argv)
     ;
   
   po::variables_map vm;
-  try {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
-  } catch(...) {
-    cerr << "Unknown command line option.\n";
-    cout << desc << endl;
-    exit(1);
-  }
-  po::notify(vm);
-  
   po::positional_options_description p;
   p.add("input-file", -1);
   
-- 
2.43.0


From 7bf522e8a3c0edf86b5e000005c1a1a0a8255ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 089/104] fix: f3dmakemip skips min/max layers, as it says

---
 apps/f3dmakemip/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index 7e16539..b5d8a6e 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -369,6 +369,7 @@ void makeMIP(const std::string &filename, const Options &options,
       if (scalarLayer.find(k_minSuffix) != std::string::npos ||
           scalarLayer.find(k_maxSuffix) != std::string::npos) {
         cout << "  ... skipping " << scalarLayer << endl;
+        continue;
       }
 
       Field<half>::Vec hScalarFields = 
-- 
2.43.0


From 9dcf818dcb1d53f2bf7ac3f64783ef9ec9ba3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 090/104] fix: tools report what they can't read or write

f3dmerge, f3dmakemip and f3dsample ignored the results of reading,
filtering and writing fields and of closing the output, so they left
incomplete files and exited with 0, and f3dmakemip dereferenced a null
pointer for fields whose pyramid couldn't be built. f3dinfo silently
left out layers it couldn't read.
---
 apps/f3dinfo/main.cpp    |  41 ++++++++++-
 apps/f3dmakemip/main.cpp | 143 ++++++++++++++++++++++++++++-----------
 apps/f3dmerge/main.cpp   |  72 ++++++++++++++++----
 apps/f3dsample/main.cpp  |  62 +++++++++--------
 4 files changed, 234 insertions(+), 84 deletions(-)

diff --git a/apps/f3dinfo/main.cpp b/apps/f3dinfo/main.cpp
index 6f7011c..c90d4c5 100644
--- a/apps/f3dinfo/main.cpp
+++ b/apps/f3dinfo/main.cpp
@@ -73,7 +73,8 @@ struct Options {
 Options parseOptions(int argc, char **argv);
 
 //! Prints information about all fields in file.
-void printFileInfo(const std::string &filename, const Options &options);
+//! \returns Whether all of them could be read.
+bool printFileInfo(const std::string &filename, const Options &options);
 
 //! Prints the information about a single field
 template <typename Data_T>
@@ -99,9 +100,15 @@ int main(int argc, char **argv)
 
   Options options = parseOptions(argc, argv);
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    printFileInfo(file, options);
+    if (!printFileInfo(file, options)) {
+      success = false;
+    }
   }
+
+  return success ? 0 : 1;
 }
 
 //----------------------------------------------------------------------------//
@@ -249,7 +256,7 @@ bool matchString(const std::string &str, const vector<string> &patterns)
 
 //----------------------------------------------------------------------------//
 
-void printFileInfo(const std::string &filename, const Options &options)
+bool printFileInfo(const std::string &filename, const Options &options)
 {
   typedef Field3D::half half;
 
@@ -264,6 +271,9 @@ void printFileInfo(const std::string &filename, const Options &options)
        << "  Encoding: " << endl
        << "    " << in.encoding() << endl;
 
+  // Whether everything could be read
+  bool success = true;
+
   vector<string> partitions;
   in.getPartitionNames(partitions);
 
@@ -273,6 +283,9 @@ void printFileInfo(const std::string &filename, const Options &options)
       continue;
     }
 
+    // Number of fields found for each selected layer
+    map<string, size_t> numFields;
+
     vector<string> scalarLayers, vectorLayers;
     in.getScalarLayerNames(scalarLayers, partition);
     in.getVectorLayerNames(vectorLayers, partition);
@@ -283,22 +296,27 @@ void printFileInfo(const std::string &filename, const Options &options)
         continue;
       }  
 
+      numFields.insert(make_pair(scalarLayer, 0));
+
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
         printFieldInfo<half>(field, options);
+        numFields[scalarLayer]++;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
         printFieldInfo<float>(field, options);
+        numFields[scalarLayer]++;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
         printFieldInfo<double>(field, options);
+        numFields[scalarLayer]++;
       }
 
     }
@@ -309,25 +327,41 @@ void printFileInfo(const std::string &filename, const Options &options)
         continue;
       }  
 
+      numFields.insert(make_pair(vectorLayer, 0));
+
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
         printFieldInfo<V3h>(field, options);
+        numFields[vectorLayer]++;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
         printFieldInfo<V3f>(field, options);
+        numFields[vectorLayer]++;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
         printFieldInfo<V3d>(field, options);
+        numFields[vectorLayer]++;
       }
 
     }
+
+    // Every selected layer should have given at least one field
+    typedef map<string, size_t>::value_type LayerCount;
+    BOOST_FOREACH (const LayerCount &i, numFields) {
+      if (i.second == 0) {
+        cout << "Error: Couldn't read layer: " << partition << ":" 
+             << i.first << endl;
+        success = false;
+      }
+    }
+
   }
   
   cout << "  Global metadata" << endl;
@@ -343,6 +377,7 @@ void printFileInfo(const std::string &filename, const Options &options)
   cout << "    String metadata:" << endl;
   printMap(in.metadata().strMetadata(), "      ");
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index b5d8a6e..cddda44 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -85,8 +85,9 @@ struct Options {
 //! Parses command line options, puts them in Options struct.
 Options parseOptions(int argc, char **argv);
 
-//! Prints information about all fields in file.
-void makeMIP(const std::string &filename, const Options &options,
+//! Writes MIP fields for all selected fields in a file to the output file.
+//! \returns Whether all of them could be read, filtered and written.
+bool makeMIP(const std::string &filename, const Options &options,
              Field3DOutputFile &out);
 
 //----------------------------------------------------------------------------//
@@ -122,9 +123,25 @@ int main(int argc, char **argv)
     return 1;
   }
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    makeMIP(file, options, out);
+    if (!makeMIP(file, options, out)) {
+      success = false;
+    }
+  }
+
+  if (!out.close()) {
+    success = false;
   }
+
+  if (!success) {
+    cout << "ERROR: Some fields couldn't be read, filtered or written." 
+         << endl;
+    return 1;
+  }
+
+  return 0;
 }
 
 //----------------------------------------------------------------------------//
@@ -213,26 +230,35 @@ Options parseOptions(int argc, char **argv)
 //----------------------------------------------------------------------------//
 
 template <typename T>
-void writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
+bool writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
                 Field3DOutputFile &out)
 {
+  // There is no field if it couldn't be filtered
+  if (!f) {
+    return false;
+  }
   cout << "  Writing \"" << f->attribute << "\"" << endl;
-  out.writeVectorLayer<T>(f);
+  return out.writeVectorLayer<T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
+bool writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
 {
+  // There is no field if it couldn't be filtered
+  if (!f) {
+    return false;
+  }
   cout << "  Writing \"" << f->attribute << "\"" << endl;
-  out.writeScalarLayer<Data_T>(f);
+  return out.writeScalarLayer<Data_T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
+//! \returns Whether the MIP fields for the field could be built and written.
 template <typename Data_T>
-void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
+bool makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
              Field3DOutputFile &out)
 {
   typedef DenseField<Data_T>     DenseType;
@@ -251,19 +277,21 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPDenseType::Ptr mip = 
       makeMIP<MIPDenseType, TriangleFilter>
       (*dense, options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPDenseType::Ptr, typename MIPDenseType::Ptr> p =
         makeMinMax<MIPDenseType>(*dense, 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      if (p.first && p.second) {
+        p.first->attribute += k_minSuffix;
+        p.second->attribute += k_maxSuffix;
+      }
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
   // Handle sparse fields
@@ -272,19 +300,21 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPSparseType::Ptr mip = 
       makeMIP<MIPSparseType, TriangleFilter>
       (*sparse, options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPSparseType::Ptr, typename MIPSparseType::Ptr> p =
         makeMinMax<MIPSparseType>(*sparse, 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      if (p.first && p.second) {
+        p.first->attribute += k_minSuffix;
+        p.second->attribute += k_maxSuffix;
+      }
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
   // Handle MIP dense fields
@@ -293,19 +323,21 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     typename MIPDenseType::Ptr mip = 
       makeMIP<MIPDenseType, TriangleFilter>
       (*dense->concreteMipLevel(0), options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPDenseType::Ptr, typename MIPDenseType::Ptr> p =
         makeMinMax<MIPDenseType>(*dense->concreteMipLevel(0), 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      if (p.first && p.second) {
+        p.first->attribute += k_minSuffix;
+        p.second->attribute += k_maxSuffix;
+      }
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
   // Handle MIP sparse fields
@@ -313,26 +345,31 @@ void makeMIP(typename Field<Data_T>::Ptr field, const Options &options,
     // MIP
     typename MIPSparseType::Ptr mip = makeMIP<MIPSparseType, TriangleFilter>
       (*sparse->concreteMipLevel(0), options.minRes, offset, options.numThreads);
-    writeField<Data_T>(mip, out);
+    bool success = writeField<Data_T>(mip, out);
     // Min/Max
     if (options.doMinMax) {
       std::pair<typename MIPSparseType::Ptr, typename MIPSparseType::Ptr> p =
         makeMinMax<MIPSparseType>(*sparse->concreteMipLevel(0), 
                                   options.minMaxResMult, 
                                   options.numThreads);
-      p.first->attribute += k_minSuffix;
-      p.second->attribute += k_maxSuffix;
-      writeField<Data_T>(p.first, out);
-      writeField<Data_T>(p.second, out);
+      if (p.first && p.second) {
+        p.first->attribute += k_minSuffix;
+        p.second->attribute += k_maxSuffix;
+      }
+      success = writeField<Data_T>(p.first, out) && success;
+      success = writeField<Data_T>(p.second, out) && success;
     }
-    return;
+    return success;
   }
 
+  // Other types of field can't be filtered
+  cout << "  ... can't filter " << field->classType() << endl;
+  return false;
 }
 
 //----------------------------------------------------------------------------//
 
-void makeMIP(const std::string &filename, const Options &options,
+bool makeMIP(const std::string &filename, const Options &options,
              Field3DOutputFile &out)
 {
   typedef Field3D::half half;
@@ -346,6 +383,9 @@ void makeMIP(const std::string &filename, const Options &options,
 
   cout << "Opening file: " << endl << "  " << filename << endl;
 
+  // Whether everything could be read and written
+  bool success = true;
+
   vector<string> partitions;
   in.getPartitionNames(partitions);
 
@@ -355,6 +395,9 @@ void makeMIP(const std::string &filename, const Options &options,
       continue;
     }
 
+    // Number of fields found for each selected layer
+    map<string, size_t> numFields;
+
     vector<string> scalarLayers, vectorLayers;
     in.getScalarLayerNames(scalarLayers, partition);
     in.getVectorLayerNames(vectorLayers, partition);
@@ -372,22 +415,27 @@ void makeMIP(const std::string &filename, const Options &options,
         continue;
       }
 
+      numFields.insert(make_pair(scalarLayer, 0));
+
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
-        makeMIP<half>(field, options, out);
+        success = makeMIP<half>(field, options, out) && success;
+        numFields[scalarLayer]++;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
-        makeMIP<float>(field, options, out);
+        success = makeMIP<float>(field, options, out) && success;
+        numFields[scalarLayer]++;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
-        makeMIP<double>(field, options, out);
+        success = makeMIP<double>(field, options, out) && success;
+        numFields[scalarLayer]++;
       }
 
     }
@@ -398,27 +446,44 @@ void makeMIP(const std::string &filename, const Options &options,
         continue;
       }  
 
+      numFields.insert(make_pair(vectorLayer, 0));
+
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-        makeMIP<V3h>(field, options, out);
+        success = makeMIP<V3h>(field, options, out) && success;
+        numFields[vectorLayer]++;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
-        makeMIP<V3f>(field, options, out);
+        success = makeMIP<V3f>(field, options, out) && success;
+        numFields[vectorLayer]++;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
-        makeMIP<V3d>(field, options, out);
+        success = makeMIP<V3d>(field, options, out) && success;
+        numFields[vectorLayer]++;
       }
 
     }
+
+    // Every selected layer should have given at least one field
+    typedef map<string, size_t>::value_type LayerCount;
+    BOOST_FOREACH (const LayerCount &i, numFields) {
+      if (i.second == 0) {
+        cout << "Error: Couldn't read layer: " << partition << ":" 
+             << i.first << endl;
+        success = false;
+      }
+    }
+
   }
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/apps/f3dmerge/main.cpp b/apps/f3dmerge/main.cpp
index 0dcbc13..c6e53a2 100644
--- a/apps/f3dmerge/main.cpp
+++ b/apps/f3dmerge/main.cpp
@@ -76,8 +76,9 @@ struct Options {
 //! Parses command line options, puts them in Options struct.
 Options parseOptions(int argc, char **argv);
 
-//! Prints information about all fields in file.
-void writeOutput(const std::string &filename, const Options &options,
+//! Writes all selected fields in a file to the output file.
+//! \returns Whether all of them could be read and written.
+bool writeOutput(const std::string &filename, const Options &options,
                  Field3DOutputFile &out);
 
 //----------------------------------------------------------------------------//
@@ -115,9 +116,24 @@ int main(int argc, char **argv)
 
   // Write inputs to output ---
 
+  bool success = true;
+
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    writeOutput(file, options, out);
+    if (!writeOutput(file, options, out)) {
+      success = false;
+    }
+  }
+
+  if (!out.close()) {
+    success = false;
   }
+
+  if (!success) {
+    cout << "ERROR: Some fields couldn't be read or written." << endl;
+    return 1;
+  }
+
+  return 0;
 }
 
 //----------------------------------------------------------------------------//
@@ -184,23 +200,23 @@ Options parseOptions(int argc, char **argv)
 //----------------------------------------------------------------------------//
 
 template <typename T>
-void writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
+bool writeField(const typename Field<Imath::Vec3<T> >::Ptr f, 
                 Field3DOutputFile &out)
 {
-  out.writeVectorLayer<T>(f);
+  return out.writeVectorLayer<T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
+bool writeField(const typename Field<Data_T>::Ptr &f, Field3DOutputFile &out)
 {
-  out.writeScalarLayer<Data_T>(f);
+  return out.writeScalarLayer<Data_T>(f);
 }
 
 //----------------------------------------------------------------------------//
 
-void writeOutput(const std::string &filename, const Options &options,
+bool writeOutput(const std::string &filename, const Options &options,
                  Field3DOutputFile &out)
 {
   typedef Field3D::half half;
@@ -214,6 +230,9 @@ void writeOutput(const std::string &filename, const Options &options,
 
   cout << "Opening file: " << endl << "  " << filename << endl;
 
+  // Whether everything could be read and written
+  bool success = true;
+
   vector<string> partitions;
   in.getPartitionNames(partitions);
 
@@ -223,6 +242,9 @@ void writeOutput(const std::string &filename, const Options &options,
       continue;
     }
 
+    // Number of fields found for each selected layer
+    map<string, size_t> numFields;
+
     vector<string> scalarLayers, vectorLayers;
     in.getScalarLayerNames(scalarLayers, partition);
     in.getVectorLayerNames(vectorLayers, partition);
@@ -233,22 +255,27 @@ void writeOutput(const std::string &filename, const Options &options,
         continue;
       }  
 
+      numFields.insert(make_pair(scalarLayer, 0));
+
       Field<half>::Vec hScalarFields = 
         in.readScalarLayers<half>(partition, scalarLayer);
       BOOST_FOREACH (Field<half>::Ptr field, hScalarFields) {
-        writeField<half>(field, out);
+        success = writeField<half>(field, out) && success;
+        numFields[scalarLayer]++;
       }
 
       Field<float>::Vec fScalarFields = 
         in.readScalarLayers<float>(partition, scalarLayer);
       BOOST_FOREACH (Field<float>::Ptr field, fScalarFields) {
-        writeField<float>(field, out);
+        success = writeField<float>(field, out) && success;
+        numFields[scalarLayer]++;
       }
 
       Field<double>::Vec dScalarFields = 
         in.readScalarLayers<double>(partition, scalarLayer);
       BOOST_FOREACH (Field<double>::Ptr field, dScalarFields) {
-        writeField<double>(field, out);
+        success = writeField<double>(field, out) && success;
+        numFields[scalarLayer]++;
       }
 
     }
@@ -259,27 +286,44 @@ void writeOutput(const std::string &filename, const Options &options,
         continue;
       }  
 
+      numFields.insert(make_pair(vectorLayer, 0));
+
       Field<V3h>::Vec hVectorFields = 
         in.readVectorLayers<half>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3h>::Ptr field, hVectorFields) {
-        writeField<V3h>(field, out);
+        success = writeField<V3h>(field, out) && success;
+        numFields[vectorLayer]++;
       }
 
       Field<V3f>::Vec fVectorFields = 
         in.readVectorLayers<float>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3f>::Ptr field, fVectorFields) {
-        writeField<V3f>(field, out);
+        success = writeField<V3f>(field, out) && success;
+        numFields[vectorLayer]++;
       }
 
       Field<V3d>::Vec dVectorFields = 
         in.readVectorLayers<double>(partition, vectorLayer);
       BOOST_FOREACH (Field<V3d>::Ptr field, dVectorFields) {
-        writeField<V3d>(field, out);
+        success = writeField<V3d>(field, out) && success;
+        numFields[vectorLayer]++;
       }
 
     }
+
+    // Every selected layer should have given at least one field
+    typedef map<string, size_t>::value_type LayerCount;
+    BOOST_FOREACH (const LayerCount &i, numFields) {
+      if (i.second == 0) {
+        cout << "Error: Couldn't read layer: " << partition << ":" 
+             << i.first << endl;
+        success = false;
+      }
+    }
+
   }
 
+  return success;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/apps/f3dsample/main.cpp b/apps/f3dsample/main.cpp
index 64b03a8..9fc86e9 100644
--- a/apps/f3dsample/main.cpp
+++ b/apps/f3dsample/main.cpp
@@ -80,15 +80,16 @@ struct Options {
 
 Options parseOptions(int argc, char **argv);
 
-void createField(const Options &options);
+//! \returns Whether the file could be written.
+bool createField(const Options &options);
 
-void writeGlobalMetadata(Field3DOutputFile &out);
+bool writeGlobalMetadata(Field3DOutputFile &out);
 
 template <typename Data_T>
-void createConcreteScalarField(const Options &options);
+bool createConcreteScalarField(const Options &options);
 
 template <typename Data_T>
-void createConcreteVectorField(const Options &options);
+bool createConcreteVectorField(const Options &options);
 
 void setCommon(const FieldRes::Ptr field, const Options &options);
 
@@ -102,7 +103,12 @@ int main(int argc, char **argv)
 
   Options options = parseOptions(argc, argv);
 
-  createField(options);
+  if (!createField(options)) {
+    cout << "ERROR: Couldn't write output file: " << options.filename << endl;
+    return 1;
+  }
+
+  return 0;
 }
 
 //----------------------------------------------------------------------------//
@@ -195,53 +201,47 @@ Options parseOptions(int argc, char **argv)
 
 //----------------------------------------------------------------------------//
 
-void createField(const Options &options)
+bool createField(const Options &options)
 {
   if (options.isVectorField) {
     switch (options.bits) {
     case 64:
-      createConcreteVectorField<double>(options);
-      break;
+      return createConcreteVectorField<double>(options);
     case 32:
-      createConcreteVectorField<float>(options);
-      break;
+      return createConcreteVectorField<float>(options);
     case 16:
     default:
-      createConcreteVectorField<Field3D::half>(options);
-      break;
+      return createConcreteVectorField<Field3D::half>(options);
     }
   } else {
     switch (options.bits) {
     case 64:
-      createConcreteScalarField<double>(options);
-      break;
+      return createConcreteScalarField<double>(options);
     case 32:
-      createConcreteScalarField<float>(options);
-      break;
+      return createConcreteScalarField<float>(options);
     case 16:
     default:
-      createConcreteScalarField<Field3D::half>(options);
-      break;
+      return createConcreteScalarField<Field3D::half>(options);
     }
   }
 }
 
 //----------------------------------------------------------------------------//
 
-void writeGlobalMetadata(Field3DOutputFile &out)
+bool writeGlobalMetadata(Field3DOutputFile &out)
 {
   out.metadata().setFloatMetadata("float_global_metadata", 1.0f);
   out.metadata().setVecFloatMetadata("vec_float_global_metadata", V3f(1.0f));
   out.metadata().setIntMetadata("int_global_metadata", 1);
   out.metadata().setVecIntMetadata("vec_int_global_metadata", V3i(1));
   out.metadata().setStrMetadata("str_global_metadata", "string");
-  out.writeGlobalMetadata();  
+  return out.writeGlobalMetadata();  
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void createConcreteScalarField(const Options &options)
+bool createConcreteScalarField(const Options &options)
 {
   typedef typename ResizableField<Data_T>::Ptr Ptr;
   Ptr field;
@@ -256,15 +256,18 @@ void createConcreteScalarField(const Options &options)
   setCommon(field, options);
 
   Field3DOutputFile out;
-  out.create(options.filename);
-  out.writeScalarLayer<Data_T>(field);
-  writeGlobalMetadata(out);
+  if (!out.create(options.filename)) {
+    return false;
+  }
+  bool success = out.writeScalarLayer<Data_T>(field);
+  success = writeGlobalMetadata(out) && success;
+  return out.close() && success;
 }
 
 //----------------------------------------------------------------------------//
 
 template <typename Data_T>
-void createConcreteVectorField(const Options &options)
+bool createConcreteVectorField(const Options &options)
 {
   typedef typename ResizableField<FIELD3D_VEC3_T<Data_T> >::Ptr Ptr;
   Ptr field;
@@ -281,9 +284,12 @@ void createConcreteVectorField(const Options &options)
   setCommon(field, options);
 
   Field3DOutputFile out;
-  out.create(options.filename);
-  out.writeVectorLayer<Data_T>(field);
-  writeGlobalMetadata(out);
+  if (!out.create(options.filename)) {
+    return false;
+  }
+  bool success = out.writeVectorLayer<Data_T>(field);
+  success = writeGlobalMetadata(out) && success;
+  return out.close() && success;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 263b8200e30cf79d377ad45cff80398a618299eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 091/104] fix: f3dmakemip skips only the min/max layers
 themselves

Names that merely contain "_min" or "_max" were taken for min/max
layers, and those of vector fields were filtered again.
---
 apps/f3dmakemip/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index cddda44..f046723 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -43,6 +43,7 @@
 #include <boost/regex.hpp>
 #include <boost/program_options.hpp>
 #include <boost/foreach.hpp>
+#include <boost/algorithm/string/predicate.hpp>
 
 #include <Field3D/DenseField.h>
 #include <Field3D/Field3DFile.h>
@@ -409,8 +410,8 @@ bool makeMIP(const std::string &filename, const Options &options,
       }  
 
       // Skip _min and _max fields
-      if (scalarLayer.find(k_minSuffix) != std::string::npos ||
-          scalarLayer.find(k_maxSuffix) != std::string::npos) {
+      if (boost::ends_with(scalarLayer, k_minSuffix) ||
+          boost::ends_with(scalarLayer, k_maxSuffix)) {
         cout << "  ... skipping " << scalarLayer << endl;
         continue;
       }
@@ -446,6 +447,12 @@ bool makeMIP(const std::string &filename, const Options &options,
         continue;
       }  
 
+      // The layer names aren't separated by type, so these were reported above
+      if (boost::ends_with(vectorLayer, k_minSuffix) ||
+          boost::ends_with(vectorLayer, k_maxSuffix)) {
+        continue;
+      }
+
       numFields.insert(make_pair(vectorLayer, 0));
 
       Field<V3h>::Vec hVectorFields = 
-- 
2.43.0


From f4cf5cd1ce5a75941a4e21a301882177b9f47ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 092/104] fix: tools report damaged files instead of aborting

Layers whose attributes are missing are reported with exceptions, which
the tools didn't catch.
---
 apps/f3dinfo/main.cpp    | 9 ++++++++-
 apps/f3dmakemip/main.cpp | 9 ++++++++-
 apps/f3dmerge/main.cpp   | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/apps/f3dinfo/main.cpp b/apps/f3dinfo/main.cpp
index c90d4c5..337e404 100644
--- a/apps/f3dinfo/main.cpp
+++ b/apps/f3dinfo/main.cpp
@@ -103,7 +103,14 @@ int main(int argc, char **argv)
   bool success = true;
 
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    if (!printFileInfo(file, options)) {
+    try {
+      if (!printFileInfo(file, options)) {
+        success = false;
+      }
+    }
+    catch (const std::exception &e) {
+      cout << "Error: Couldn't read f3d file: " << file << endl
+           << "  " << e.what() << endl;
       success = false;
     }
   }
diff --git a/apps/f3dmakemip/main.cpp b/apps/f3dmakemip/main.cpp
index f046723..bd3fed8 100644
--- a/apps/f3dmakemip/main.cpp
+++ b/apps/f3dmakemip/main.cpp
@@ -127,7 +127,14 @@ int main(int argc, char **argv)
   bool success = true;
 
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    if (!makeMIP(file, options, out)) {
+    try {
+      if (!makeMIP(file, options, out)) {
+        success = false;
+      }
+    }
+    catch (const std::exception &e) {
+      cout << "Error: Couldn't read f3d file: " << file << endl
+           << "  " << e.what() << endl;
       success = false;
     }
   }
diff --git a/apps/f3dmerge/main.cpp b/apps/f3dmerge/main.cpp
index c6e53a2..3f6bc1c 100644
--- a/apps/f3dmerge/main.cpp
+++ b/apps/f3dmerge/main.cpp
@@ -119,7 +119,14 @@ int main(int argc, char **argv)
   bool success = true;
 
   BOOST_FOREACH (const string &file, options.inputFiles) {
-    if (!writeOutput(file, options, out)) {
+    try {
+      if (!writeOutput(file, options, out)) {
+        success = false;
+      }
+    }
+    catch (const std::exception &e) {
+      cout << "Error: Couldn't read f3d file: " << file << endl
+           << "  " << e.what() << endl;
       success = false;
     }
   }
-- 
2.43.0


From 3e98b1e50b8b416ca80de5dce5a1c642222f6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 093/104] fix: empty names and values aren't written twice in
 Ogawa files

OGroup::createData() added a child for empty data, and addData() added
another, so everything behind it in the group was found in the wrong
place, and metadata with an empty name was lost.
---
 src/OGroup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index 3e08fc2..41ab230 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -113,7 +113,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iSize, const void * iData)
 
     if (iSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
@@ -159,7 +158,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iNumData,
 
     if (totalSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
-- 
2.43.0


From 2942af12494a1a38865e26ca1659078590deaa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 094/104] fix: metadata whose name contains a slash is read
 from Ogawa files

It was written, but the name was taken for a path when reading.
---
 src/OgIGroup.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..36d538b 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -84,8 +84,10 @@ OgIGroup::findGroup(const std::string &path,
   if (!isValid()) {
     return Alembic::Ogawa::IGroupPtr();
   }
-  // Check for recursive finding
-  if (path.find("/") != std::string::npos) {
+  // Check for recursive finding. The names of attributes aren't paths, they may
+  // contain any character.
+  if (groupType != F3DAttributeType && 
+      path.find("/") != std::string::npos) {
     return recursiveFindGroup(path, groupType);
   }
   // Not recursive, just a single group name
-- 
2.43.0


From c3cb3f441e7a821e3d06d2035a0fca91b0fb25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 095/104] fix: a layer that couldn't be written doesn't hide
 the next one in Ogawa files

The next layer with the same name and mapping was put into the same
partition, where reading only found the group of the failed one.
---
 src/Field3DFile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 1b4bc9f..b5e465a 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1543,6 +1543,11 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
 
   OgOGroup ogLayer(ogPartition, layerName);
 
+  // Add to partition. If the layer can't be written its name is taken anyway,
+  // a second group with that name wouldn't be found when reading.
+
+  part->addLayer(layer);
+
   // Tag as layer
   OgOAttribute<string> classType(ogLayer, "class_type", "field3d_layer");
 
@@ -1562,10 +1567,6 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
-  // Add to partition
-
-  part->addLayer(layer);
-
   return true;
 }
 
-- 
2.43.0


From e0623ab716a2605a94f1ddb4d152d8572877c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 096/104] fix: layers written without a partition name to HDF5
 files go to partition "default"

---
 export/Field3DFileHDF5.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 97442d2..ef436fe 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -795,13 +795,13 @@ public:
   template <class Data_T>
   bool writeScalarLayer(const std::string &layerName, 
                         typename Field<Data_T>::Ptr layer)
-  { return writeScalarLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeScalarLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a vector layer to the "Default" partition.
   template <class Data_T>
   bool writeVectorLayer(const std::string &layerName, 
                         typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
-  { return writeVectorLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeVectorLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a layer to a specific partition. The partition will be created if
   //! not specified.
-- 
2.43.0


From 30d9c6b91c7723ef6e89c89ef5d5b37495de2883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 097/104] fix: readLayers() and writeLayer() work with HDF5
 files

---
 src/Field3DFile.cpp | 66 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index b5e465a..bab908d 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1458,6 +1458,59 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
 // Template implementations
 //----------------------------------------------------------------------------//
 
+namespace {
+
+  //! Selects the calls for scalar and vector layers of HDF5 files
+  template <class Data_T>
+  struct HDF5Layers
+  {
+    typedef typename Field<Data_T>::Vec FieldList;
+
+    static FieldList read(const Field3DInputFileHDF5 &file, 
+                          const std::string &layerName)
+    { return file.readScalarLayers<Data_T>(layerName); }
+
+    static FieldList read(const Field3DInputFileHDF5 &file, 
+                          const std::string &partitionName, 
+                          const std::string &layerName)
+    { return file.readScalarLayers<Data_T>(partitionName, layerName); }
+
+    static bool write(Field3DOutputFileHDF5 &file, 
+                      const std::string &partitionName, 
+                      const std::string &layerName,
+                      typename Field<Data_T>::Ptr layer)
+    { 
+      return file.writeScalarLayer<Data_T>(partitionName, layerName, layer); 
+    }
+  };
+
+  template <class Data_T>
+  struct HDF5Layers<FIELD3D_VEC3_T<Data_T> >
+  {
+    typedef typename Field<FIELD3D_VEC3_T<Data_T> >::Vec FieldList;
+
+    static FieldList read(const Field3DInputFileHDF5 &file, 
+                          const std::string &layerName)
+    { return file.readVectorLayers<Data_T>(layerName); }
+
+    static FieldList read(const Field3DInputFileHDF5 &file, 
+                          const std::string &partitionName, 
+                          const std::string &layerName)
+    { return file.readVectorLayers<Data_T>(partitionName, layerName); }
+
+    static bool write(Field3DOutputFileHDF5 &file, 
+                      const std::string &partitionName, 
+                      const std::string &layerName,
+                      typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
+    { 
+      return file.writeVectorLayer<Data_T>(partitionName, layerName, layer); 
+    }
+  };
+
+} // Anonymous namespace
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 bool Field3DOutputFile::writeLayer(const std::string &userPartitionName, 
                                    const std::string &layerName, 
@@ -1471,6 +1524,11 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
                "Called writeLayer with null pointer. Ignoring...");
     return false;
   }
+
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::write(*m_hdf5, userPartitionName, layerName, 
+                                     field);
+  }
   
   // Make sure archive is open
   if (!m_archive) {
@@ -1674,6 +1732,10 @@ Field3DInputFile::readLayers(const std::string &name) const
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
   
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::read(*m_hdf5, name);
+  }
+
   FieldList ret;
   std::vector<std::string> parts;
   getIntPartitionNames(parts);
@@ -1707,6 +1769,10 @@ Field3DInputFile::readLayers(const std::string &partitionName,
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
 
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::read(*m_hdf5, partitionName, layerName);
+  }
+
   FieldList ret;
 
   if ((layerName.length() == 0) || (partitionName.length() == 0))
-- 
2.43.0


From 79cd5344476e5f2dd6c2db1358d79b635220f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 098/104] fix: dense fields of 2^31 values and more can be
 written

---
 src/DenseFieldIO.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 593c7ff..dae041b 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -376,16 +376,14 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
   using namespace Exc;
   using namespace Hdf5Util;
 
-  const V3i& memSize = field->internalMemSize();
-  int size[3];
-  size[0] = memSize.x;
-  size[1] = memSize.y;
-  size[2] = memSize.z;
+  const FIELD3D_VEC3_T<size_t> memSize = field->internalMemSize();
 
   int components = FieldTraits<Data_T>::dataDims();
 
+  // There may be more values than an int can count
   hsize_t totalSize[1];
-  totalSize[0] = size[0] * size[1] * size[2] * components;
+  totalSize[0] = 
+    static_cast<hsize_t>(memSize.x) * memSize.y * memSize.z * components;
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
@@ -484,7 +482,7 @@ bool DenseFieldIO::writeInternal(OgOGroup &layerGroup,
   using namespace Exc;
 
   const int    components  = FieldTraits<Data_T>::dataDims();
-  const V3i&   memSize     = field->internalMemSize();
+  const FIELD3D_VEC3_T<size_t> memSize = field->internalMemSize();
   const int    bits        = DataTypeTraits<Data_T>::h5bits();
   
   Box3i ext(field->extents()), dw(field->dataWindow());
-- 
2.43.0


From 747936b1de689b2b4bbc9f1d4dcdb8dffac2c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 099/104] fix: writing a field or mapping class without IO
 fails instead of aborting the program

---
 src/Field3DFile.cpp     | 1 -
 src/Field3DFileHDF5.cpp | 2 --
 2 files changed, 3 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index bab908d..d3769aa 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -224,7 +224,6 @@ namespace {
     ClassFactory &factory = ClassFactory::singleton();
     
     FieldIO::Ptr io = factory.createFieldIO(field->className());
-    assert(io != 0);
     if (!io) {
       Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                  field->className());
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 0b10975..6a0f527 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1603,7 +1603,6 @@ bool writeField(hid_t layerGroup, FieldBase::Ptr field)
   ClassFactory &factory = ClassFactory::singleton();
     
   FieldIO::Ptr io = factory.createFieldIO(field->className());
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                field->className());
@@ -1665,7 +1664,6 @@ bool writeFieldMapping(hid_t mappingGroup, FieldMapping::Ptr mapping)
   }
 
   FieldMappingIO::Ptr io = factory.createFieldMappingIO(className);
-  assert(io != 0);
   if (!io) {
     Msg::print(Msg::SevWarning, "Unable to find class type: " + 
                className);
-- 
2.43.0


From 4af9ca7139fbac404ec3ee3ea0912499d794d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 100/104] fix: a mapping that can't be written doesn't make an
 HDF5 file unreadable

---
 export/Field3DFileHDF5.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index ef436fe..715f4fd 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1401,25 +1401,28 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();
   } 
     
-  // Add mapping group to the partition
-  //! \todo We should probably remove the group on disk if we can't write
-  //! the mapping
+  // Add mapping group to the partition. A partition without a mapping would
+  // make the whole file unreadable, so the group on disk is removed if the
+  // mapping can't be written
   try {
     if (!writeMapping(partGroup.id(), field->mapping())) {
       Msg::print(Msg::SevWarning, 
                  "writeMapping returned false for an unknown reason ");
+      H5Ldelete(m_file, newPart->name.c_str(), H5P_DEFAULT);
       return FileHDF5::Partition::Ptr();
     }
   }
   catch (WriteMappingException &e) {
     Msg::print(Msg::SevWarning, "Couldn't write mapping for partition: " 
                + partitionName);
+    H5Ldelete(m_file, newPart->name.c_str(), H5P_DEFAULT);
     return FileHDF5::Partition::Ptr();
   }
   catch (...) {
     Msg::print(Msg::SevWarning, 
                "Unknown error when writing mapping for partition: " 
                + partitionName);
+    H5Ldelete(m_file, newPart->name.c_str(), H5P_DEFAULT);
     return FileHDF5::Partition::Ptr();    
   }
 
-- 
2.43.0


From 28c8140b75bcaaf66e10ef74e47b84057af735fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 101/104] fix: layers are listed although an earlier partition
 couldn't be written

---
 src/Field3DFile.cpp     | 20 ++++++++++----------
 src/Field3DFileHDF5.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index d3769aa..4191f11 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -521,11 +521,11 @@ Field3DFileBase::getScalarLayerNames(vector<string> &names,
 
   names.clear();
 
-  for (int i = 0; i < numIntPartitions(partitionName); i++) {
-    string internalName = makeIntPartitionName(partitionName, i);
-    File::Partition::Ptr part = partition(internalName);
-    if (part)
-      part->getLayerNames(names);
+  for (PartitionList::const_iterator i = m_partitions.begin();
+       i != m_partitions.end(); ++i) {
+    if (removeUniqueId((**i).name) == partitionName) {
+      (**i).getLayerNames(names);
+    }
   }
 
   names = makeUnique(names);
@@ -546,11 +546,11 @@ Field3DFileBase::getVectorLayerNames(vector<string> &names,
 
   names.clear();
 
-  for (int i = 0; i < numIntPartitions(partitionName); i++) {
-    string internalName = makeIntPartitionName(partitionName, i);
-    File::Partition::Ptr part = partition(internalName);
-    if (part)
-      part->getLayerNames(names);
+  for (PartitionList::const_iterator i = m_partitions.begin();
+       i != m_partitions.end(); ++i) {
+    if (removeUniqueId((**i).name) == partitionName) {
+      (**i).getLayerNames(names);
+    }
   }
 
   names = makeUnique(names);
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 6a0f527..2ea3f25 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -405,11 +405,11 @@ Field3DFileHDF5Base::getScalarLayerNames(vector<string> &names,
 {
   names.clear();
 
-  for (int i = 0; i < numIntPartitions(partitionName); i++) {
-    string internalName = makeIntPartitionName(partitionName, i);
-    Partition::Ptr part = partition(internalName);
-    if (part)
-      part->getScalarLayerNames(names);
+  for (PartitionList::const_iterator i = m_partitions.begin();
+       i != m_partitions.end(); ++i) {
+    if (removeUniqueId((**i).name) == partitionName) {
+      (**i).getScalarLayerNames(names);
+    }
   }
 
   names = makeUnique(names);
@@ -423,11 +423,11 @@ Field3DFileHDF5Base::getVectorLayerNames(vector<string> &names,
 {
   names.clear();
 
-  for (int i = 0; i < numIntPartitions(partitionName); i++) {
-    string internalName = makeIntPartitionName(partitionName, i);
-    Partition::Ptr part = partition(internalName);
-    if (part)
-      part->getVectorLayerNames(names);
+  for (PartitionList::const_iterator i = m_partitions.begin();
+       i != m_partitions.end(); ++i) {
+    if (removeUniqueId((**i).name) == partitionName) {
+      (**i).getVectorLayerNames(names);
+    }
   }
 
   names = makeUnique(names);
-- 
2.43.0


From 57bf6c23cc403644971e324989ffea8e7842afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 102/104] fix: writing HDF5 files doesn't leak property lists

---
 export/Hdf5Util.h       | 21 +++++++++++++++++++++
 src/DenseFieldIO.cpp    |  2 +-
 src/Field3DFileHDF5.cpp |  2 +-
 src/SparseFieldIO.cpp   |  2 +-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 8b0a2bc..7bf36f3 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -263,6 +263,27 @@ public:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - creates a property list on creation and closes it on 
+//! destruction.
+//! \ingroup hdf5
+class H5ScopedPcreate : public H5Base
+{
+public:
+  H5ScopedPcreate(hid_t class_id)
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    m_id = H5Pcreate(class_id);
+  }
+  ~H5ScopedPcreate()
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    if (m_id >= 0)
+      H5Pclose(m_id);
+  }
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - creates a dataset on creation and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedDcreate : public H5Base
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index dae041b..1599e9c 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -438,7 +438,7 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Set up gzip property list
   bool gzipAvailable = checkHdf5Gzip();
-  hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+  H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
   if (gzipAvailable) {
     herr_t status = H5Pset_deflate(dcpl, 9);
     if (status < 0) {
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 2ea3f25..3803111 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1258,7 +1258,7 @@ bool Field3DOutputFileHDF5::create(const string &filename, CreateMode cm)
 
   try {
 
-    hid_t faid = H5Pcreate(H5P_FILE_ACCESS);
+    H5ScopedPcreate faid(H5P_FILE_ACCESS);
     H5Pset_libver_bounds(faid, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
 
     // Create new file
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index cc8b02e..facc116 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1136,7 +1136,7 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
 
     // Set up gzip property list
     bool gzipAvailable = checkHdf5Gzip();
-    hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+    H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
     hsize_t chunkSize[2];
     chunkSize[0] = 1;
     chunkSize[1] = valuesPerBlock;
-- 
2.43.0


From 6805ff790275babfb5936f64cd3b7f149ff51446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 103/104] fix: references to sparse fields on disk are reused
 once the field is gone

---
 export/SparseFile.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 56a6a30..5a367d7 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -50,6 +50,7 @@
 #include <boost/scoped_ptr.hpp>
 #include <algorithm>
 #include <list>
+#include <map>
 #include <vector>
 
 #include <hdf5.h>
@@ -176,6 +177,9 @@ public:
   bool fileIsOpen();
   //! Sets the number of blocks used by the SparseField we're supporting
   void setNumBlocks(int numBlocks);
+  //! Makes this the reference of another field, once the field it was created
+  //! for is gone. 
+  void reuse(const std::string &a_filename, const std::string &a_layerPath);
   //! Opens the file. This is done just before the first request to loadBlock.
   //! This is delayed so that the original file open  has closed the file and
   //! doesn't cause any Hdf5 hiccups.
@@ -601,6 +605,9 @@ private:
   //! The order matches the index stored in each SparseField::m_fileId
   SparseFile::FileReferences m_fileData;
 
+  //! The references in m_fileData whose fields are gone, for each data type
+  std::map<DataTypeEnum, std::vector<int> > m_unusedRefs;
+
   //! List of dynamically loaded blocks to be considered for unloading
   //! when the cache is full.
   //! Currently using Second-chance/Clock paging algorithm.
@@ -732,6 +739,20 @@ Reference<Data_T>::create(const std::string a_filename,
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void Reference<Data_T>::reuse(const std::string &a_filename, 
+                              const std::string &a_layerPath)
+{
+  boost::mutex::scoped_lock lock(m_mutex);
+
+  filename = a_filename;
+  layerPath = a_layerPath;
+  std::vector<int>().swap(fileBlockIndices);
+  m_numActiveBlocks = 0;
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 bool Reference<Data_T>::fileIsOpen()
 {
@@ -1274,6 +1295,15 @@ SparseFileManager::getNextId(const std::string filename,
   // Must hold a mutex while appending to m_fileData
   boost::mutex::scoped_lock lock(m_mutex);
 
+  // Reuse what was left behind by fields that are gone
+  std::vector<int> &unused = m_unusedRefs[DataTypeTraits<Data_T>::typeEnum()];
+  if (!unused.empty()) {
+    const int id = unused.back();
+    unused.pop_back();
+    m_fileData.ref<Data_T>(id)->reuse(filename, layerPath);
+    return id;
+  }
+
   int id = m_fileData.append<Data_T>(Reference<Data_T>::create(filename, 
                                                                layerPath));
   return id;
@@ -1331,6 +1361,8 @@ SparseFileManager::removeFieldFromCache(int refIdx)
 
   // No more blocks will be loaded, so don't hold on to the file
   reference->closeFile();
+
+  m_unusedRefs[blockType].push_back(refIdx);
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 0a3471490d492dfc1fec1222b9471e3788713299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 104/104] fix: writing MAC fields doesn't leak property lists

---
 include/MACFieldIO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 2057728..509cce1 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -287,7 +287,7 @@ bool MACFieldIO::writeData(hid_t layerGroup,
 
   // Set up gzip property list
   bool gzipAvailable = checkHdf5Gzip();
-  hid_t dcpl = H5Pcreate(H5P_DATASET_CREATE);
+  H5ScopedPcreate dcpl(H5P_DATASET_CREATE);
   if (gzipAvailable) {
     herr_t status = H5Pset_deflate(dcpl, 9);
     if (status < 0) {
-- 
2.43.0

