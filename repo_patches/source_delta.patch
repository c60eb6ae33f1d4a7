From 9708259bd23530f31402cd4755861728ec35f475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 01/98] fix: add the missing semicolon after ~VTKMeshReader() =
 default

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c0f017..d4e8a08 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -21,7 +21,7 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     VTKMeshReader(const MeshElements<MeshDimension, IndexType, Real, Reserve...>&){}
 
-    virtual ~VTKMeshReader() = default
+    virtual ~VTKMeshReader() = default;
 };
 
 
-- 
2.43.0


From 9ce77f7fa2efa3da100090cf5b69c7462e7dc224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 02/98] fix: give ElementIndex a default constructor so that
 ORDER_ORIGINAL connections and neighborhood compile

MeshConnections/MeshNeighborhood with ORDER_ORIGINAL resize a vector of
ElementIndex, which needs a default constructor.
---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index c3795e9..99d0ee7 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -10,6 +10,8 @@ template<unsigned int ElementDimension, typename IndexType = unsigned int>
 struct ElementIndex {
     IndexType index;
 
+    ElementIndex() = default;
+
     ElementIndex(const ElementIndex&) = default;
     ElementIndex& operator=(const ElementIndex& rhs){
         index = rhs.index;
-- 
2.43.0


From 3d53395c4308c136f458d93c0d20b264780741f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 03/98] fix: random coloring of a mesh without elements
 dereferenced the end iterator

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
index 9557cf2..67972d1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/MeshColoring.h
@@ -126,6 +126,9 @@ struct _MeshColoring <ColoredDim, ConnectingDim, METHOD_RANDOM, Descend> {
         // calculating the reserve
         auto result = _MeshColoring<ColoredDim, ConnectingDim, METHOD_GREEDY>::color(mesh);
 
+        // a mesh without elements of the colored dimension has nothing to recolor
+        if (result.template getDataByPos<0>().empty()) return result;
+
         // get maximal color index
         auto max = std::max_element(result.template getDataByPos<0>().begin(), result.template getDataByPos<0>().end());
 
-- 
2.43.0


From f3edd5cca234a189f5354317aaf056c2157d729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 04/98] fix: VTKMeshReader built the error for an unsupported
 cell type but did not throw it

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index d4e8a08..9caef0f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -141,7 +141,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
@@ -420,7 +420,7 @@ public:
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
             } else {
-                std::runtime_error("unsupported cell type");
+                throw std::runtime_error("unsupported cell type");
             }
         }
     }
-- 
2.43.0


From f61f4f046a8c59ee0550cf014c1117237e3888af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 05/98] fix: VTKMeshReader read pixels and voxels with the
 vertex order of quads and hexahedra

---
 .../MeshIO/MeshReader/VTKMeshReader.h         | 50 +++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 9caef0f..42f0cab 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -9,6 +9,46 @@
 #include <unordered_map>
 #include <map>
 #include <algorithm>
+#include <vector>
+
+namespace Impl {
+/**
+ * @brief Returns the numbers of the cell types of the CELLS section which the
+ * stream is about to read. The position of the stream remains unchanged.
+ */
+inline std::vector<int> peekVTKCellTypes(std::istream& ist) {
+    const auto position = ist.tellg();
+    size_t numCells = 0, totalNumbers = 0, skipped = 0;
+    std::vector<int> types;
+    std::string buf;
+    ist >> numCells >> totalNumbers;
+    for (size_t i = 0; i < totalNumbers && (ist >> skipped); i++) {}
+    ist >> buf;
+    if (ist && buf == "CELL_TYPES") {
+        ist >> numCells;
+        int type = 0;
+        while (types.size() < numCells && ist >> type) {
+            types.push_back(type);
+        }
+    }
+    ist.clear();
+    ist.seekg(position);
+    return types;
+}
+
+/**
+ * @brief The vertices of VTK_PIXEL (8) and VTK_VOXEL (11) are ordered along the axes.
+ * Reorders the vertices in the manner of VTK_QUAD and VTK_HEXAHEDRON.
+ */
+template <typename IndexType>
+void reorderVTKAxisAlignedCell(int vtkType, std::vector<IndexType>& vertices) {
+    if ((vtkType == 8 && vertices.size() == 4) || (vtkType == 11 && vertices.size() == 8)) {
+        for (size_t i = 2; i < vertices.size(); i += 4) {
+            std::swap(vertices[i], vertices[i + 1]);
+        }
+    }
+}
+}
 
 /**
  *
@@ -75,6 +115,8 @@ public:
     void loadCells(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
         std::unordered_map<std::string, IndexType> edges;
 
+        const std::vector<int> vtkTypes = Impl::peekVTKCellTypes(ist);
+
         IndexType numCells;
         ist >> numCells;
         mesh.getCells().resize(numCells);
@@ -89,6 +131,9 @@ public:
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
             }
+            if (static_cast<size_t>(cellIndex) < vtkTypes.size()) {
+                Impl::reorderVTKAxisAlignedCell(vtkTypes[cellIndex], vertices);
+            }
 
             IndexType prevEdge = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numVert; j++){
@@ -319,6 +364,8 @@ public:
         std::unordered_map<std::string, IndexType> edges;
         std::unordered_map<std::string, IndexType> faces;
 
+        const std::vector<int> vtkTypes = Impl::peekVTKCellTypes(ist);
+
         IndexType numCells;
         ist >> numCells;
         mesh.getCells().resize(numCells);
@@ -333,6 +380,9 @@ public:
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
             }
+            if (static_cast<size_t>(cellIndex) < vtkTypes.size()) {
+                Impl::reorderVTKAxisAlignedCell(vtkTypes[cellIndex], vertices);
+            }
 
             // construct an element
             // obtain constructing order of edges and faces
-- 
2.43.0


From fb95ed717132133930b693a6a81ba1fad86a9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 06/98] fix: element types of the index tables of
 FPMAMeshWriter, which did not compile

---
 .../UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index a018999..4d0d174 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -26,13 +26,13 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
      */
-    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 2> faceVert;
+    MeshDataContainer<std::vector<ElementIndex<0, IndexType>>, 2> faceVert;
 
     /**
      * @brief cellFace<HR>
      * original order of faces
      */
-    MeshDataContainer<std::vector<ElementIndex<3, IndexType>>, 3> cellFace;
+    MeshDataContainer<std::vector<ElementIndex<2, IndexType>>, 3> cellFace;
 
     /**
      * @brief This funcion return indexes of vertices of a face in correct order
@@ -47,7 +47,7 @@ class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
     template<unsigned int ...Reserve>
     void indexFace(MeshElements<3, IndexType, Real, Reserve...>& mesh,
                    typename MeshElements<3, IndexType, Real, Reserve...>::Face& face,
-                   std::vector<ElementIndex<3, IndexType>>& verticesIndexed){
+                   std::vector<ElementIndex<0, IndexType>>& verticesIndexed){
 
         // export the face in "left" direction see VTK export
         IndexType startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
-- 
2.43.0


From f70f2690845381903e35ae1bf931e3cb7011799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 07/98] fix: mesh signature ignored the order of subelements
 and the cells and centers of faces

---
 .../MeshElements/MeshElements.h               | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 69dcc8d..59ef105 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -197,6 +197,37 @@ public:
      */
 private:
 
+    /**
+     * @brief Combines the hash of a sequence of values with the following value.
+     * The result depends on the order of the values.
+     */
+    static size_t combineHash(size_t seed, size_t value) {
+        return seed ^ (value + 0x9e3779b9 + (seed << 6) + (seed >> 2));
+    }
+
+    /**
+     * @brief An element which is not a face is described by its subelements only.
+     */
+    template<typename Element>
+    static size_t hashElementData(size_t seed, const Element&) {
+        return seed;
+    }
+
+    /**
+     * @brief A face carries the connection to the cells and the center.
+     */
+    static size_t hashElementData(size_t seed, const Face& face) {
+        std::hash<IndexType> indexHasher;
+        seed = combineHash(seed, indexHasher(face.getCellLeftIndex()));
+        seed = combineHash(seed, indexHasher(face.getCellRightIndex()));
+        seed = combineHash(seed, indexHasher(face.getNextBElemWRTCL()));
+        seed = combineHash(seed, indexHasher(face.getNextBElemWRTCR()));
+        for (unsigned int i = 0; i < Dimension; i++) {
+            seed = combineHash(seed, std::hash<Real>()(face.getCenter()[i]));
+        }
+        return seed;
+    }
+
     template<unsigned int Dim = Dimension, typename Void = void>
     struct HashOfMeshElements{
 
@@ -207,10 +238,12 @@ private:
 
             // Hash of generic element eg. face
             size_t elemHash = mesh.getElements<Dim>().size();
-            for(auto& element : mesh.getElements<Dim>()) {
-                for (auto& subElement : element.getSubelements()) {
-                    elemHash ^= indexHasher(subElement);
+            for(const auto& element : mesh.getElements<Dim>()) {
+                elemHash = combineHash(elemHash, element.getSubelements().size());
+                for (const auto& subElement : element.getSubelements()) {
+                    elemHash = combineHash(elemHash, indexHasher(subElement));
                 }
+                elemHash = hashElementData(elemHash, element);
             }
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
-- 
2.43.0


From be0646b99e5d8ba4250a88e7202cfb2d26a2ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 08/98] fix: hash of the last written mesh was not initialized
 in the 2D VTK and the FPMA writer

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h | 2 +-
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
index 4d0d174..90cdb57 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h
@@ -21,7 +21,7 @@ template<typename IndexType, typename Real>
 class FPMAMeshWriter<3, IndexType, Real> : public MeshWriter<3>{
 
      using writer = MeshWriter<3>;
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief faceVert<HR>
      * correctly erdered vertices for all faces
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 1e1b92b..676dae1 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -36,7 +36,7 @@ private:
      * @brief lastHash<HR>
      * The hash of the last written mesh.
      */
-    size_t lastHash;
+    size_t lastHash = 0;
     /**
      * @brief cellVert<HR>
      * Vertices of all cells in correct order for vtk export.
-- 
2.43.0


From ca6bc5ba3250903e55b4bfd0a22d37f90f2522e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 09/98] fix: VTKMeshWriter merged the centers of split cells
 and faces which agree in 6 decimals

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h         | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 676dae1..8736edc 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -421,7 +421,8 @@ DBGMSG("indexing mesh");
         // this is very expensive procedure
         auto faceEdgeOri = edgesOrientation(mesh);
 
-        std::map<std::string, IndexType> appendedVertPos;
+        // positions of the centers of the faces which are shared by split cells
+        std::map<IndexType, IndexType> appendedFaceCenters;
 
 
 
@@ -512,18 +513,8 @@ DBGMSG("indexing mesh");
                 //throw std::runtime_error("it is not possible yet to write generic object into VTK");
 
                 IndexType tmpFace = cell.getBoundaryElementIndex();
-                IndexType cellCenterIndex = INVALID_INDEX(IndexType);
-                std::string cellCenterKey = std::to_string(cell.getCenter()[0]) +
-                        ";" + std::to_string(cell.getCenter()[1]) +
-                        ";" + std::to_string(cell.getCenter()[2]);
-                auto it = appendedVertPos.find(cellCenterKey);
-                if (it == appendedVertPos.end()) {
-                    appendedVertPos[cellCenterKey] = appendedVertices.size() + mesh.getVertices().size();
-                    cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                    appendedVertices.push_back(cell.getCenter());
-                } else {
-                    cellCenterIndex = it->second;
-                }
+                IndexType cellCenterIndex = appendedVertices.size() + mesh.getVertices().size();
+                appendedVertices.push_back(cell.getCenter());
 
                 do {
                     auto& face = mesh.getFaces().at(tmpFace);
@@ -534,14 +525,11 @@ DBGMSG("indexing mesh");
                         vertWrit.reserve(4);
                         vertWrit.push_back(edge.getVertexAIndex());
                         vertWrit.push_back(edge.getVertexBIndex());
-                        std::string faceCenterKey = std::to_string(face.getCenter()[0]) +
-                                ";" + std::to_string(face.getCenter()[1]) +
-                                ";" + std::to_string(face.getCenter()[2]);
                         IndexType faceCenterIndex = INVALID_INDEX(IndexType);
-                        auto it = appendedVertPos.find(faceCenterKey);
-                        if (it == appendedVertPos.end()) {
+                        auto it = appendedFaceCenters.find(tmpFace);
+                        if (it == appendedFaceCenters.end()) {
                             faceCenterIndex = appendedVertices.size() + mesh.getVertices().size();
-                            appendedVertPos[faceCenterKey] = faceCenterIndex;
+                            appendedFaceCenters[tmpFace] = faceCenterIndex;
                             appendedVertices.push_back(face.getCenter());
                         } else {
                             faceCenterIndex = it->second;
-- 
2.43.0


From afa818f0058491ec17a2ef9f20e73679a01bf9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 10/98] fix: VTKMeshWriter ignored changed cell types of an
 already indexed mesh

---
 .../MeshIO/MeshWriter/VTKMeshWriter.h                 | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index 8736edc..c52dae6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -209,6 +209,12 @@ public:
     MeshDataContainer<std::vector<IndexType>, 3> cellVert;
     MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes;
 
+    /**
+     * @brief requestedCellTypes<HR>
+     * The types of cells the mesh was indexed with.
+     */
+    std::vector<typename writer::elementType::ElementType> requestedCellTypes;
+
     /**
      * @brief totalNumberOfWrittenElements<HR>
      * Information required by VTK format.
@@ -573,10 +579,11 @@ DBGMSG("indexing mesh");
                        MeshDataContainer<typename writer::elementType::ElementType, 3> cellTypes){
         // create index of mesh if the mesh has changed
         size_t curHash = writer::computeHash(mesh);
-        // if the mesh is not the same as it was,
+        // if the mesh or the types of cells are not the same as they were,
         // then update the index
-        if (lastHash != curHash){
+        if (lastHash != curHash || requestedCellTypes != cellTypes.template getDataByPos<0>()){
             indexMesh(mesh, cellTypes);
+            requestedCellTypes = cellTypes.template getDataByPos<0>();
         }
         lastHash = curHash;
 
-- 
2.43.0


From 7848055700f8a557b62d420a6130b5e8bdbd9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 11/98] fix: VTKMeshWriter wrote cells on the right side of a
 face with a reversed edge inside out

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
index c52dae6..f74d1de 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h
@@ -248,7 +248,8 @@ public:
 
         IndexType startVertex = INVALID_INDEX(IndexType);
         IndexType nextVertex = INVALID_INDEX(IndexType);
-        if (faceEdgeOri[face][0] == true && cell.getIndex() == face.getCellLeftIndex()){ // the edge is left to the face
+        // the vertices are ordered with respect to the inward normal of the cell
+        if (faceEdgeOri[face][0] == (cell.getIndex() == face.getCellLeftIndex())){
             startVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexBIndex();
             nextVertex = mesh.getEdges().at(face.getSubelements()[0]).getVertexAIndex();
         } else {
-- 
2.43.0


From 45cf12e20d52bb264cb6192f97520f093616d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 12/98] fix: the 2D VTK reader left the mesh signature of the
 previous content

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 42f0cab..5c49271 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -233,6 +233,7 @@ public:
             loadCellTypes(ist, mesh);
         }
 
+        mesh.updateSignature();
     }
 
     template<typename IndexType, typename Real, unsigned int ...Reserve>
-- 
2.43.0


From 535dd864625d56c86f5b2fad5d3243810adbc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 13/98] fix: FPMAMeshReader did not clear the mesh it loads
 into

---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 415ad17..0a3d861 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -156,6 +156,8 @@ public:
     void loadFromStream(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         ist.seekg(ist.beg);
 
+        mesh.clear();
+
         loadVertices(ist, mesh);
 
         loadFaces(ist, mesh);
-- 
2.43.0


From 9dab1be9e6aebed957d57fc7391b853f3e652bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 14/98] fix: MeshElements::clear kept the boundary cells

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 59ef105..962276e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -157,6 +157,7 @@ public:
      */
     void clear() {
         _ClearMesh<Dimension>::clear(*this);
+        BoundaryCells.clear();
     }
 
     void appendBoundaryCell(IndexType cellIndex, IndexType faceIndex){
-- 
2.43.0


From e372cc3664949d81f77f35a70068892475c1b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 15/98] fix: everything convertible to bool was serialized as
 one byte

---
 src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index b289cf8..cba22af 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -29,10 +29,6 @@ struct SerializeSimple {
         }
     }
 
-    static void serialize(std::vector<unsigned char>& dataContainer, const bool data){
-        dataContainer.push_back(data ? 1 : 0);
-    }
-
     template <typename T, typename ..., std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, bool& data){
         switch (*dataIterator) {
-- 
2.43.0


From f0d177af673a881b71b146426858a93d13a70fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 16/98] fix: deserialized maps and sets kept the previous
 content of the target

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 884f637..0894c81 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -38,6 +38,7 @@ struct DeserializeAsociativeMap {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             std::pair<typename T::key_type,typename T::mapped_type> val;
             BinarySerializer::readNext(dataIterator, val);
@@ -53,6 +54,7 @@ struct DeserializeAsociativeSet {
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
 
+        data.clear();
         for (decltype(data.size()) i = 0; i < size; i ++) {
             typename T::key_type val;
             BinarySerializer::readNext(dataIterator, val);
-- 
2.43.0


From 8c69bd59879a4d1f510474214c3b5b1b5e3b0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 17/98] fix: iterable containers with overloaded resize, e.g.
 std::list, could not be deserialized

---
 src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index 0894c81..a1a0806 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -15,7 +15,7 @@ struct SerializeIterable {
 
 
     template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
-    static Impl::void_t<decltype(T::resize)>
+    static Impl::void_t<decltype(std::declval<T&>().resize(0))>
         deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
 
         decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
-- 
2.43.0


From 91f5570c117493537eeaeb0f043d63e9d5cc63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 18/98] fix: indexable containers without the member size, e.g.
 TNL arrays, could not be deserialized

---
 .../BinarySerializer/Serializers/SerializeIndexable.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
index 101834f..9e7aabd 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIndexable.h
@@ -31,8 +31,8 @@ struct SerializeIndexable {
 
     template <typename T, typename ..., std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = typename Interface::Indexable<T>::sizeType;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
@@ -47,8 +47,8 @@ struct SerializeIndexable {
     template <typename T, typename ... TupleTraits, std::enable_if_t<Interface::Indexable<T>::value, bool> = true>
     static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
                             const std::tuple<TupleTraits...>& traits){
-        using size_type = decltype(data.size());
-        size_type size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+        using size_type = typename Interface::Indexable<T>::sizeType;
+        size_type size = BinarySerializer::readNext<size_type>(dataIterator);
 
         if (Interface::Indexable<T>::size(data) != size) {
             Interface::Indexable<T>::resize(data, size);
-- 
2.43.0


From 432f304ce0ca9356f8e6efaab4705312450a3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 19/98] fix: compact container interface accessed the first
 element of an empty container

---
 src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
index dfd96cd..be8c225 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceCompactContainer.h
@@ -37,9 +37,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 };
 
 /**
@@ -67,9 +67,9 @@ struct CompactContainer<
     static void resize(T & /*val*/, size_type /*new_size*/)
     {}
 
-    static const value_type *data(const T &val) { return &val[0]; }
+    static const value_type *data(const T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 
-    static value_type *data(T &val) { return &val[0]; }
+    static value_type *data(T &val) { return size(val) == 0 ? nullptr : &val[0]; }
 };
 }
 
-- 
2.43.0


From 707a332715b4f70e9dcd13ca1cc959e8359acb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 20/98] fix: the read iterator of BinarySerializer dangled
 after writing, loading a file and in copies

---
 .../BinarySerializer/BinarySerializer.h       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 38fc76c..8b19431 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -65,13 +65,16 @@ public:
     template <typename T>
     void read(T& data) {
         resetIteratorIfNotValid();
-        readNext(mDataIterator, data);
+        auto dataIterator = mData.cbegin() + mReadPosition;
+        readNext(dataIterator, data);
+        mReadPosition = dataIterator - mData.cbegin();
     }
 
     template <typename T>
     T read() {
-        resetIteratorIfNotValid();
-        return readNext<T>(mDataIterator);
+        T data;
+        read(data);
+        return data;
     }
 
     template <typename T>
@@ -81,11 +84,11 @@ public:
     }
 
     void resetIterator() {
-        mDataIterator = mData.cbegin();
+        mReadPosition = 0;
     }
 
     bool isIteratorValid() {
-        return mData.begin() <= mDataIterator && mData.end() > mDataIterator;
+        return mReadPosition < mData.size();
     }
 
     void resetIteratorIfNotValid() {
@@ -101,7 +104,7 @@ public:
      */
     void clear() {
         mData.clear();
-        mDataIterator = {};
+        mReadPosition = 0;
     }
 
     const ByteContainer& getData() {
@@ -126,6 +129,7 @@ public:
             auto file_size = file.tellg();
             file.seekg(0, std::ios::beg);
             mData.resize(file_size);
+            resetIterator();
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             file.close();
         }
@@ -133,7 +137,8 @@ public:
 
 private:
     ByteContainer mData;
-    ByteContainerIterator mDataIterator;
+    // The position of the next value to be read. Unlike an iterator, it stays valid when mData is reallocated, replaced or copied.
+    size_t mReadPosition = 0;
 };
 
 #include "Serializers/SerializeCustom.h"
-- 
2.43.0


From 1814d329cbcc8810c7c9169e22076f098be5cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 21/98] fix: BinarySerializer::loadFromFile silently kept the
 old data when the file can not be opened

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index 8b19431..aa26385 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -132,6 +132,8 @@ public:
             resetIterator();
             file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             file.close();
+        } else {
+            throw std::runtime_error("unable to open file " + fileName);
         }
     }
 
-- 
2.43.0


From 7fddac4b33bc71e79e785bbf6ab561196807c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 22/98] fix: BinarySerializer::saveToFile did not report a
 failed write

---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index aa26385..f127ed5 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -117,6 +117,9 @@ public:
         if (file) {
             file.write(reinterpret_cast<char *>(mData.data()), mData.size());
             file.close();
+            if (!file) {
+                throw std::runtime_error("unable to write the data to file " + fileName);
+            }
         } else {
             throw std::runtime_error("unable to open file " + fileName);
         }
-- 
2.43.0


From d0cad620496bb526bb031032d4feaebec4931fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 23/98] fix: operator- of a traited class with a temporary on
 the right returned nothing

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index eb63aad..bb8ab1d 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -206,7 +206,7 @@ typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator-(const TraitT& op1, TraitT&& op2) noexcept {
 
     TraitsBinaryExpressionProcesor<BinaryMinus>::evaluate(op2, op1, op2);
-
+    return op2;
 }
 
 
-- 
2.43.0


From 72df202414f823d05477744fd115386b59795bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 24/98] fix: abs of arithmetic types without an exact overload
 recursed for ever

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index bb8ab1d..8247308 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -760,7 +760,7 @@ typename std::enable_if<
 >::type
 abs(const T& arg) noexcept {
 
-    return  abs(arg);
+    return  arg < T() ? T(-arg) : arg;
 }
 
 template <typename T>
-- 
2.43.0


From a1df28396eb4273d7ff5bff21e3957554032b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 25/98] fix: pow of a real number to a traited class powered
 the class to the number

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 8247308..0e4bb55 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -360,6 +360,17 @@ struct Pow
 
 
 
+template< typename T1, typename T2 >
+struct PowOf
+{
+   static auto evaluate( const T1& exponent, const T2& base ) -> decltype( pow(base,exponent) )
+   {
+      return pow(base,exponent);
+   }
+};
+
+
+
 
 ///
 /// Power of traited class to a real number
@@ -387,7 +398,10 @@ pow(const TraitT& op1, const Real& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, const TraitT& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitT res;
+    TraitsBinaryExpressionProcesor<PowOf>::evaluate(res, op2, op1);
+    return res;
 }
 
 
@@ -395,7 +409,9 @@ pow(const Real& op1, const TraitT& op2) noexcept {
 template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 pow(const Real& op1, TraitT&& op2) noexcept {
-    return pow(op2, op1);
+
+    TraitsBinaryExpressionProcesor<PowOf>::evaluate(op2, op2, op1);
+    return op2;
 }
 
 
-- 
2.43.0


From e0e0f1e5225e4e68751b9f22e26c457b6db4a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 26/98] fix: division of a traited class multiplied by the
 rounded inverse, 49 / 49 gave 0 for integers

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 0e4bb55..6884e0a 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -324,6 +324,21 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
 }
 
 
+////
+/// Division operators
+///
+
+template< typename T1, typename T2 >
+struct BinarySlash
+{
+   static auto evaluate( const T1& a, const T2& b ) -> decltype( a / b )
+   {
+      return a / b;
+   }
+};
+
+
+
 ///
 /// Division of traited class with a real number
 ///
@@ -332,7 +347,9 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(const TraitT& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitT res;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(res, op1, op2);
+    return res;
 }
 
 
@@ -340,7 +357,8 @@ template <typename Real, typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator/(TraitT&& op1, const Real& op2) noexcept {
 
-    return (1.0/op2) * op1;
+    TraitsBinaryExpressionProcesor<BinarySlash>::evaluate(op1, op1, op2);
+    return op1;
 }
 
 
-- 
2.43.0


From 376f92881e6089eabdfada8e127d457f6dc306b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 27/98] fix: max, min and sum of containers of other elements
 than double did not compile

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 6884e0a..0aa48fa 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -946,7 +946,7 @@ public:
 
             return  res;
         }
-        return 0.0;
+        return decltype (evaluate(array[0]))();
     }
 
 
-- 
2.43.0


From b3269586ca638ed1105b77471585ed6d0fdf0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 28/98] fix: division of a vector by an integer, or of an
 integer vector, multiplied by the truncated inverse

---
 src/GTMesh/NumericStaticArray/Vertex.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 4d5f401..7ca5e78 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -133,7 +133,9 @@ Vertex<Dim, Real> operator*(const Real& x, const Vertex<Dim, Real>& vert) {
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real> Vertex<Dim, Real>::operator/(const RealOP& x) const {
-    return this->operator*(RealOP(1.0)/x);
+    Vertex<Dim, Real> res(*this);
+    res /= x;
+    return res;
 }
 
 
@@ -172,7 +174,9 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator/=(const RealOP& x){
-    this->operator*=(Real(1.0)/x);
+    for (Real& coordinate : *this) {
+        coordinate /= x;
+    }
     return *this;
 }
 
-- 
2.43.0


From c810715fbf7dda246507e26aef5fe5f73cb7b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 29/98] fix: scalar product was computed in double whatever the
 type of the coordinates

---
 src/GTMesh/NumericStaticArray/InlineArrayOperations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
index 0dde6c7..d433dc0 100644
--- a/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
+++ b/src/GTMesh/NumericStaticArray/InlineArrayOperations.h
@@ -13,7 +13,7 @@ struct inlineScalarProduct {
 template <typename Real>
 struct inlineScalarProduct<1, Real>
 {
-    static inline double computation(const Real *x, const Real *y){
+    static inline Real computation(const Real *x, const Real *y){
         return x[0] * y[0];
     }
 };
-- 
2.43.0


From 5a060edb7052c832511003bbdda257176b606c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 30/98] fix: setting an attribute by a free function through a
 pointer to the object did not compile

---
 src/GTMesh/Traits/MemberAccess/GetSetAccess.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
index 8e2bb37..17a1495 100644
--- a/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
+++ b/src/GTMesh/Traits/MemberAccess/GetSetAccess.h
@@ -150,7 +150,7 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c, val); }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c, val); }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c, val); }
 };
@@ -172,11 +172,11 @@ private:
 public:
     constexpr SetAccess(const _setterType &s) : set(s) {}
 
-    inline void setValue(_typeClass *c, const _typeValue &val) const { set(c) = val; }
+    inline void setValue(_typeClass *c, const _typeValue &val) const { set(*c) = val; }
 
     inline void setValue(_typeClass &c, const _typeValue &val) const { set(c) = val; }
 
-    inline auto &getAttr(_typeClass *c) const { return set(c); }
+    inline auto &getAttr(_typeClass *c) const { return set(*c); }
 
     inline auto &getAttr(_typeClass &c) const { return set(c); }
 };
-- 
2.43.0


From 28ac082177c6d427e7b67a9417ded2e4b0740e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 31/98] fix: the product of two temporaries of a traited class
 was ambiguous

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 0aa48fa..f883ee4 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -323,6 +323,12 @@ operator*(TraitT&& op1, const TraitT& op2) noexcept {
     return operator*=(op1, op2);
 }
 
+template <typename TraitT>
+typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
+operator*(TraitT&& op1, TraitT&& op2) noexcept {
+    return operator*=(op1, op2);
+}
+
 
 ////
 /// Division operators
-- 
2.43.0


From d5faafd7cb1f5e33ce53a1bf5a3ea7c2a9dd9665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 32/98] fix: exp, log, log2, log10 and cbrt of nested traited
 classes did not compile

---
 .../Traits/TraitsAlgorithm/TraitsAlgorithm.h  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index f883ee4..ac2c836 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -490,9 +490,10 @@ pow(const T& array, const Real& p) noexcept {
 template< typename T1 >
 struct Exp
 {
-   static auto evaluate( const T1& a ) -> decltype( std::exp(a) )
+   static auto evaluate( const T1& a ) -> decltype( exp(a) )
    {
-      return std::exp(a);
+      using std::exp;
+      return exp(a);
    }
 };
 
@@ -532,9 +533,10 @@ exp(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log(a) )
+   static auto evaluate( const T1& a ) -> decltype( log(a) )
    {
-      return std::log(a);
+      using std::log;
+      return log(a);
    }
 };
 
@@ -572,9 +574,10 @@ log(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log2
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log2(a) )
+   static auto evaluate( const T1& a ) -> decltype( log2(a) )
    {
-      return std::log2(a);
+      using std::log2;
+      return log2(a);
    }
 };
 
@@ -613,9 +616,10 @@ log2(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Log10
 {
-   static auto evaluate( const T1& a ) -> decltype( std::log10(a) )
+   static auto evaluate( const T1& a ) -> decltype( log10(a) )
    {
-      return std::log10(a);
+      using std::log10;
+      return log10(a);
    }
 };
 
@@ -693,9 +697,10 @@ sqrt(const TraitT& op1) noexcept {
 template< typename T1 >
 struct Cbrt
 {
-   static auto evaluate( const T1& a ) -> decltype( std::cbrt(a) )
+   static auto evaluate( const T1& a ) -> decltype( cbrt(a) )
    {
-      return std::cbrt(a);
+      using std::cbrt;
+      return cbrt(a);
    }
 };
 
-- 
2.43.0


From 7946a9ae071db728d78b573c930d0e6b2f60b034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 33/98] fix: scaling a vector by one of its own coordinates
 changed the factor on the way

---
 src/GTMesh/NumericStaticArray/Vertex.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/NumericStaticArray/Vertex.h b/src/GTMesh/NumericStaticArray/Vertex.h
index 7ca5e78..f111888 100644
--- a/src/GTMesh/NumericStaticArray/Vertex.h
+++ b/src/GTMesh/NumericStaticArray/Vertex.h
@@ -166,7 +166,8 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator-=(const Vertex<Dim, Real>& v){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
-    inlineMultiplication<Dim, Real>::computation(this->data(), x);
+    const RealOP factor = x; // x may refer to a coordinate of this vertex
+    inlineMultiplication<Dim, Real>::computation(this->data(), factor);
     return *this;
 }
 
@@ -174,8 +175,9 @@ Vertex<Dim, Real>& Vertex<Dim, Real>::operator*=(const RealOP& x){
 template <unsigned int Dim, typename Real>
 template <typename RealOP>
 Vertex<Dim, Real>& Vertex<Dim, Real>::operator/=(const RealOP& x){
+    const RealOP divisor = x; // x may refer to a coordinate of this vertex
     for (Real& coordinate : *this) {
-        coordinate /= x;
+        coordinate /= divisor;
     }
     return *this;
 }
-- 
2.43.0


From dd549535f1d694ff2a492a8267548062151d5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 34/98] fix: scaling a traited class by one of its own
 attributes changed the factor on the way

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index ac2c836..729c69e 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -249,7 +249,8 @@ template <typename TraitT, typename Real>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type&
 operator*=(TraitT& op1, const Real& op2) noexcept {
 
-    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op1, op1, op2);
+    const Real factor = op2; // op2 may refer to an attribute of op1
+    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op1, op1, factor);
 
     return  op1;
 }
-- 
2.43.0


From 7bd50dc377ef9564849130cf603ee33ad36a1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 35/98] fix: face normals of meshes with float coordinates did
 not compile

---
 src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
index 50f44e6..05afedd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeNormals.h
@@ -26,7 +26,7 @@ struct _ComputeNormals{
                         const MeshElements<MeshDimension, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
@@ -82,7 +82,7 @@ struct _ComputeNormals<3, Method>{
                         const MeshElements<3, IndexType, Real, Reserve...>& mesh){
         for (auto& face : mesh.getFaces()) {
 
-            double vectorSign = 1.0;
+            Real vectorSign = 1.0;
             IndexType cellIndex = face.getCellLeftIndex();
             if (isInvalidIndex( cellIndex ) || isBoundaryIndex( cellIndex )) {
                 vectorSign = -1.0;
-- 
2.43.0


From baa5b22dc5ba2250bccc59b1ffcc2de2626691aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 36/98] fix: initializeCenters with given centers did not
 compile

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 7370697..6b90bfc 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -54,10 +54,10 @@ public:
                            ::Vertex<MeshDimension, Real>,
                            dimensionSeq> &centers)
     {
-        for (const auto &face : this->getFaces()) {
+        for (auto &face : this->getFaces()) {
             face.setCenter(centers[face]);
         }
-        for (const auto &cell : this->getCells()) {
+        for (auto &cell : this->getCells()) {
             cell.setCenter(centers[cell]);
         }
     }
-- 
2.43.0


From 72579acf4c3e54fb7eb27caaa070806a3acaf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 37/98] fix: computeMeasures with METHOD_TESSELLATED computed
 the default measures

---
 .../MeshFunctions/ComputeMeasures.h              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
index 624b2a2..058627c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeMeasures.h
@@ -111,7 +111,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, mesh);
     }
 
     template <typename IndexType, typename Real, unsigned int ...Reserve>
@@ -128,7 +128,7 @@ struct _ComputeMeasures<1, MeshDimension, Method>{
                                          mesh.getVertices().at(edge.getVertexBIndex())).normEuclid();
         }
 
-        _ComputeMeasures<2, MeshDimension>::compute(measures, centers, mesh);
+        _ComputeMeasures<2, MeshDimension, Method>::compute(measures, centers, mesh);
     }
 };
 
@@ -229,7 +229,7 @@ struct _ComputeMeasures<2, 3, Method>{
             }
             surfaceMeasures.at(faceIndex) = measure;
         }
-        _ComputeMeasures<3, 3>::compute(measures, mesh);
+        _ComputeMeasures<3, 3, Method>::compute(measures, mesh);
     }
 };
 
@@ -248,19 +248,19 @@ struct _ComputeMeasures<3, 3, METHOD_TESSELLATED>{
         auto& cellMeasures = measures.template getDataByDim<3>();
 
         for (IndexType cellIndex = 0; cellIndex < mesh.getCells().size(); cellIndex++) {
-            typename MeshElements<3, IndexType, Real, Reserve...>::template ElementType<3>& cell = mesh.getCells().at(cellIndex);
-            Vertex<3,Real>& cellCenter = cell.getCenter();
+            const auto& cell = mesh.getCells().at(cellIndex);
+            const Vertex<3,Real>& cellCenter = cell.getCenter();
             Real measure = Real();
             MeshApply<3,2>::apply(
                         cellIndex,
                         mesh,
                 [&cellCenter, &cellMeasures, &mesh, &measure](IndexType , IndexType faceIndex){
 
-                Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
+                const Vertex<3,Real>& faceCenter = mesh.getFaces().at(faceIndex).getCenter();
 
                 MeshApply<2,1>::apply(faceIndex, mesh, [&](IndexType , IndexType edgeIndex){
-                    Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
-                    Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
+                    const Vertex<3,Real>& vertA = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexAIndex());
+                    const Vertex<3,Real>& vertB = mesh.getVertices().at(mesh.getEdges().at(edgeIndex).getVertexBIndex());
 
                     std::array<Vertex<3,Real>, 3> pyramidVec = {vertA - faceCenter, vertB - faceCenter, cellCenter - faceCenter};
                     std::array<Real, 3> norms;
-- 
2.43.0


From 390f0afd99fe7ead30ed86e37801c91d9e961b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 38/98] fix: difference of cell centers pointed from right to
 left on faces without a left cell

---
 .../MeshFunctions/ComputeCellsCenterDifference.h                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
index ce8bbf0..ba6aa46 100644
--- a/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
+++ b/src/GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h
@@ -24,7 +24,7 @@ MeshDataContainer<Vector<Dimension, Real>, Dimension - 1> computeCellsCenterDiff
                 connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellLeftIndex()).getCenter();
 
             } else if (isInvalidIndex(face.getCellLeftIndex()) && !isInvalidIndex(face.getCellRightIndex())) {
-                connectingLines.at(face) = face.getCenter() - mesh.getCells().at(face.getCellRightIndex()).getCenter();
+                connectingLines.at(face) = mesh.getCells().at(face.getCellRightIndex()).getCenter() - face.getCenter();
             }
         }
 
-- 
2.43.0


From 8c746322344965acb8ef035321843d6183a8ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 39/98] fix: UnstructuredMesh::write did not compile for other
 than the default index and coordinate types

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 6b90bfc..94c8d87 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -373,13 +373,13 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
         if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
-            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<FPMAMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -410,13 +410,13 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (!checkExtension(filePath, ".vtk")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
@@ -427,13 +427,13 @@ public:
                 }
             }
 
-            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension>).hash_code()){
+            else if (typeid (*writer.get()).hash_code() == typeid (FPMAMeshWriter<MeshDimension, IndexType, Real>).hash_code()){
                 if (!checkExtension(filePath, ".fpma")){
                     DBGMSG("The writer type and file name does not match!");
                     writer = write(filePath, cellTypes, dataHeader);
                 } else {
                     DBGMSG("writer recognized as FPMA");
-                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension>*>(writer.get());
+                    auto reader = dynamic_cast<FPMAMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     reader->writeToStream(file, *this);
                 }
             }
@@ -461,7 +461,7 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension>>();
+            writer_ptr = std::make_unique<VTKMeshWriter<MeshDimension, IndexType, Real>>();
             write(filePath, writer_ptr, cellTypes, dataHeader);
         }
 
@@ -487,10 +487,10 @@ public:
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
 
-            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension>)){
+            if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (checkExtension(filePath, ".vtk")){
                     DBGMSG("writer recognized as VTK");
-                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension>*>(writer.get());
+                    auto writer_loc = dynamic_cast<VTKMeshWriter<MeshDimension, IndexType, Real>*>(writer.get());
                     writer_loc->writeHeader(file, dataHeader);
                     if (cellTypes.template getDataByPos<0>().size() == 0) {
                         MeshDataContainer<typename MeshWriter<MeshDimension>::elementType::ElementType, MeshDim> locCellTypes(*this, PolytopeType());
-- 
2.43.0


From 22741b70520b8ffbc00dfe31b966ba53ee6abda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 40/98] fix: writing to a file without an extension threw
 out_of_range

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 94c8d87..d414b79 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -352,8 +352,8 @@ private:
      * @brief Returns true if the filePath string ends with the string ext
      */
     bool checkExtension(const std::string& filePath, const std::string& ext){
-        std::string fileExt = filePath.substr(filePath.find_last_of("."));
-        return fileExt == ext;
+        return filePath.size() >= ext.size() &&
+               filePath.compare(filePath.size() - ext.size(), ext.size(), ext) == 0;
     }
 public:
     /**
-- 
2.43.0


From 94c7ea74417f4934a2c0c074fec2ddc83eb4b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 41/98] fix: load chose the format by any part of the path
 instead of the extension

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index d414b79..1420ff4 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -249,14 +249,14 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
             auto reader = new VTKMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
             reader_ptr = retType(reader);
         }
 
-        if (filePath.find(".fpma") != filePath.npos){
+        if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
             auto reader = new FPMAMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
@@ -284,7 +284,7 @@ public:
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
 
-        if (filePath.find(".vtk") != filePath.npos){
+        if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
             auto reader = new VTKMeshReader<MeshDimension>();
             reader->loadFromStream(file, *this);
-- 
2.43.0


From efe5d4771e498b87d9af8ad56baa81a1540115e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 42/98] fix: MeshDataContainer::allocateData by another
 container did not compile without an initial value

---
 .../MeshDataContainer/MeshDataContainer.h                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index 20e9588..d783e7e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -116,9 +116,9 @@ private:
         allocateMemory<pos + 1>(mesh, initialValue);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
@@ -531,9 +531,9 @@ private:
         allocateMemory<pos + 1>(mesh, values...);
     }
 
-    template <unsigned int pos, typename ..._DataTypes, unsigned int ..._Dimensions>
+    template <unsigned int pos, typename _DataType, unsigned int ..._Dimensions>
     std::enable_if_t<(pos < sizeof...(Dimensions))>
-    allocateMemory(const MeshDataContainer<_DataTypes..., _Dimensions...>& meshDataContainer) {
+    allocateMemory(const MeshDataContainer<_DataType, _Dimensions...>& meshDataContainer) {
         getDataByPos<pos>().resize(meshDataContainer.template getDataByDim<dimensionAt<pos>()>().size());
         allocateMemory<pos + 1>(meshDataContainer);
     }
-- 
2.43.0


From 912bd8b1a3b8b896eb8f2b02032b72421ad61e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 43/98] fix: access to a MeshDataContainer of tuple by position
 took the position for a dimension

---
 .../UnstructuredMesh/MeshDataContainer/MeshDataContainer.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
index d783e7e..13b3052 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h
@@ -619,7 +619,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) {
         return getDataByPos<Pos>();
     }
@@ -635,7 +635,7 @@ public:
      * @endcode
      */
     template <unsigned int Pos>
-    const DataContainer<std::tuple_element_t<dimensionIndex<Pos>(), std::tuple<DataTypes...>>, Pos>&
+    const DataContainer<DataType<Pos>, dimensionAt<Pos>()>&
     operator[](std::integer_sequence<unsigned int, Pos>) const {
         return getDataByPos<Pos>();
     }
-- 
2.43.0


From 1d50759b55ad611d9895e55f3bddf6ea9bc16d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 44/98] fix: getElement of a constant mesh did not compile

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 962276e..7563f69 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -86,7 +86,7 @@ public:
 
     template<unsigned int dim>
     const ElementType<dim>&  getElement(const ElementIndex<dim, IndexType>& elementIndex) const {
-        return getElements<dim>()[elementIndex];
+        return getElements<dim>()[elementIndex.index];
     }
 
     std::vector<Vertex>& getVertices(){
-- 
2.43.0


From 8c7967c4569ba0392bc416b7c4c7a470daa87d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 45/98] fix: SubelementContainer::removeSubelement did not
 compile

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 8a74afb..c58d16f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -98,7 +98,7 @@ public:
             for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
-            this->at(numberOfElements) = {INVALID_INDEX(IndexType), false};
+            this->at(numberOfElements - 1) = INVALID_INDEX(IndexType);
             numberOfElements--;
         } else {
             throw(std::runtime_error(
@@ -135,7 +135,7 @@ public:
     }
 
     void removeSubelement(unsigned char atIndex){
-        this->erase(atIndex);
+        this->erase(this->begin() + atIndex);
     }
 };
 
-- 
2.43.0


From 3c1049238ff7c29df44d9b27b6b30db106ff1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 46/98] fix: VTKMeshDataReader did not compile for more than
 one traited container

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 44bccec..af76339 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -181,7 +181,7 @@ public:
             using type =
                 typename MeshDataContainer<T, Dimensions...>::template DataContainerType<Index>::type;
 
-            MeshDataIterator<Index - 1, true>::writeToStream(ist, data, dataPositions, tupTraits);
+            MeshDataIterator<Index - 1, true>::readFromStream(ist, data, dataPositions, tupTraits);
 
             constexprFor<ReadData, SelectTraitsWithIODefault<type, TraitsTuple...>::TypeTraits::size()>(
                 ist,
-- 
2.43.0


From b29dcfb1d143122cef7a264933f4a0cce64b9493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 47/98] fix: 2D VTKMeshDataReader looked for the default traits
 of the data instead of the bound ones

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index af76339..8e0b24d 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -48,7 +48,7 @@ class VTKMeshDataReader {
                            std::map<std::string, std::istream::pos_type>& dataPositions,
                            const Traits<T, TraitsArgs...>& traits)
         -> typename std::enable_if<
-            IsIndexable<typename DefaultIOTraits<T>::traitsType::template type<Index>>::value &&
+            IsIndexable<typename Traits<T, TraitsArgs...>::template type<Index>>::value &&
             MeshDimension == 2
             >::type
     {
-- 
2.43.0


From a01d9bf0be04ad105a5e8f34078d9d23756494ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 48/98] fix: VTKMeshDataWriter of a single DataContainer called
 a function that does not exist

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h             | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 4cb8086..19e9404 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -226,7 +226,6 @@ public:
         static_assert (HasDefaultIOTraits<type>::value, "The class T must have defined traits for example using macro MAKE_ATTRIBUTE_TRAIT in header Traits.h");
         ost << "CELL_DATA " << writer.getNumberOfCells() << std::endl;
         constexprFor<WriteData, DefaultIOTraits<T>::size()>(ost, data, writer, DefaultIOTraits<T>::getTraits());
-        writeData(ost, data, writer);
     }
 
 private:
-- 
2.43.0


From 9d1a7d774a2c80b7bed9de191e2a5a5dddf0e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 49/98] fix: VTKMeshDataReader of a single DataContainer called
 a function that does not exist

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 8e0b24d..4d253a0 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -150,7 +150,7 @@ public:
 
         std::map<std::string, std::istream::pos_type> dataPositions = indexData(ist);
 
-        readData(ist, data, dataPositions);
+        constexprFor<ReadData, DefaultIOTraits<T>::size()>(ist, data, dataPositions, DefaultIOTraits<T>::getTraits());
     }
     // Search for importable containers
 
-- 
2.43.0


From dcb515763891aae095225dc83f0a397b33478fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 50/98] fix: tensors in VTK data had a misspelled keyword and
 were not read

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 1 +
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 4d253a0..788459d 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -125,6 +125,7 @@ public:
 
             int flag = (line.find("SCALARS")!= line.npos ? 1
                                                           : line.find("VECTORS") != line.npos ? 2
+                                                          : line.find("TENSORS") != line.npos ? 2
                                                                                               : 0 );
             if (flag != 0){
                 std::string dataName;
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 19e9404..b87dcd6 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -55,7 +55,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
@@ -149,7 +149,7 @@ class VTKMeshDataWriter {
         if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
             ost << "VECTORS ";
         else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
-            ost << "TENZORS ";
+            ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
 
-- 
2.43.0


From 25442cf8c65b5147932d7b52a8e3cb19dc6f7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 51/98] fix: tensors of 2D data were not written as 3x3 VTK
 tensors

---
 .../MeshDataIO/VTKMeshDataReader.h                  | 13 +++++++++++--
 .../MeshDataIO/VTKMeshDataWriter.h                  | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 788459d..06ea3c9 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -58,11 +58,20 @@ class VTKMeshDataReader {
         typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
 
         for (IndexType i = 0; i < data.size(); i++) {
-            for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
+            const unsigned int size = traits.template getValue<Index>(data.at(i)).size();
+            for (unsigned int j = 0; j < size; j++){
                 ist >> value[j];
+                // the VTK tensors are 3x3, skip the end of the row
+                if (size == MeshDimension * MeshDimension && j % MeshDimension == MeshDimension - 1) {
+                    ist >> dummy[0];
+                }
             }
 
-            ist >> dummy[0];
+            if (size == MeshDimension * MeshDimension) {
+                ist >> dummy[0] >> dummy[0] >> dummy[0];
+            } else {
+                ist >> dummy[0];
+            }
 
             traits.template setValue<Index>(data.at(i), value);
         }
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index b87dcd6..2458071 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -154,10 +154,19 @@ class VTKMeshDataWriter {
         ost << traits.template getName<Index>() << " double\n";
 
         for (const auto& d : data){
-            for(unsigned int j = 0; j < traits.template getValue<Index>(data.at(0)).size(); j++){
+            const unsigned int size = traits.template getValue<Index>(d).size();
+            for(unsigned int j = 0; j < size; j++){
                 ost << traits.template getValue<Index>(d)[j] << ' ';
+                // the VTK tensors are 3x3, complete the row
+                if (size == MeshDimension * MeshDimension && j % MeshDimension == MeshDimension - 1) {
+                    ost << "0.0 ";
+                }
+            }
+            if (size == MeshDimension * MeshDimension) {
+                ost << "0.0 0.0 0.0 ";
+            } else {
+                ost << "0.0 ";
             }
-            ost << "0.0 ";
         }
     }
 
-- 
2.43.0


From 83ad67deb8686c42341904ae5c8dd84caaee80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 52/98] fix: names of the attributes of MeshDataContainer lost
 zeros of the dimension

---
 .../MeshDataContainerTraits/MeshDataContainerTraits.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
index 6bcd7d0..1ed6b6e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h
@@ -17,13 +17,13 @@ public:
             int i = 4;
             for (unsigned int mod = 100; mod > 0; mod /= 10){
                 int digit = dim / mod;
-                if (digit > 0) {
+                if (digit > 0 || i > 4 || mod == 1) {
                     name[i] = '0' + char(digit);
                     i++;
                 }
                 dim -= digit * mod;
             }
-            name[i + 1] = '\0';
+            name[i] = '\0';
         }
     };
 
-- 
2.43.0


From aa7e9d097fc73a3b7da72208dad48189850b3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 53/98] fix: assigning coordinates to a vertex of a mesh of
 float did not compile

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index c58d16f..2357de2 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -186,8 +186,8 @@ public:
         :MeshElementBase<IndexType>(index), Vertex<MeshDim, Real>(v) {
 
     }
-    MeshElement<MeshDim, 0, IndexType, Real>& operator =(std::initializer_list<Real> l){
-        this->Vertex<MeshDim,double>::operator=(l);
+    MeshElement<MeshDim, 0, IndexType, Real, Reserve>& operator =(std::initializer_list<Real> l){
+        this->Vertex<MeshDim, Real>::operator=(l);
         return *this;
     }
 };
-- 
2.43.0


From 3e2c91513dd93e8e5d70747fbfdeb40d682ff093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 54/98] fix: removeSubelement took the index of the subelement
 modulo 256

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 2357de2..3380405 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -93,9 +93,9 @@ public:
         addSubelement(index);
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(unsigned int atIndex){
         if (atIndex < numberOfElements){
-            for(unsigned char i = atIndex; i < numberOfElements - 1; i++){
+            for(unsigned int i = atIndex; i < numberOfElements - 1; i++){
                 this->at(i) = this->at(i+1);
             }
             this->at(numberOfElements - 1) = INVALID_INDEX(IndexType);
@@ -134,7 +134,7 @@ public:
         this->push_back(IndexType{index});
     }
 
-    void removeSubelement(unsigned char atIndex){
+    void removeSubelement(unsigned int atIndex){
         this->erase(this->begin() + atIndex);
     }
 };
-- 
2.43.0


From 5bfe19b72ed79dd32407110929fffcdf12fe9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 55/98] fix: boundary element index of a new cell was not
 initialized

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index 3380405..de1c791 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -250,7 +250,8 @@ class MeshElement<MeshDim, MeshDim, IndexType, Real, Reserve>
 public:
 //GetBoundaryElement
     MeshElement(IndexType index = INVALID_INDEX(IndexType))
-        :MeshElementBase<IndexType>(index) {
+        :MeshElementBase<IndexType>(index),
+         boundaryElementIndex(INVALID_INDEX(IndexType)) {
 
     }
 
-- 
2.43.0


From 9f15bb51cae21626d056c90d8a9958e0c511cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 56/98] fix: signature of a mesh was not initialized before the
 first update

---
 src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index 7563f69..d617908 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -62,7 +62,7 @@ private:
      * @brief Hash signature of the mash elements.
      * Use to detect changes in mesh.
      */
-    size_t meshSignature;
+    size_t meshSignature = 0;
 
 
 public:
-- 
2.43.0


From 8ba3934bd928d05fb9f650a826d02a03bddf4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 57/98] fix: 2D vectors of integers were not read from VTK data

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 06ea3c9..74b1de2 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -55,7 +55,9 @@ class VTKMeshDataReader {
 
         ist.seekg(dataPositions[traits.template getName<Index>()]);
 
-        typename Traits<T, TraitsArgs...>::template type<Index> value, dummy;
+        typename Traits<T, TraitsArgs...>::template type<Index> value;
+        // the zeros completing the data to 3D are real numbers even among integers
+        double dummy;
 
         for (IndexType i = 0; i < data.size(); i++) {
             const unsigned int size = traits.template getValue<Index>(data.at(i)).size();
@@ -63,14 +65,14 @@ class VTKMeshDataReader {
                 ist >> value[j];
                 // the VTK tensors are 3x3, skip the end of the row
                 if (size == MeshDimension * MeshDimension && j % MeshDimension == MeshDimension - 1) {
-                    ist >> dummy[0];
+                    ist >> dummy;
                 }
             }
 
             if (size == MeshDimension * MeshDimension) {
-                ist >> dummy[0] >> dummy[0] >> dummy[0];
+                ist >> dummy >> dummy >> dummy;
             } else {
-                ist >> dummy[0];
+                ist >> dummy;
             }
 
             traits.template setValue<Index>(data.at(i), value);
-- 
2.43.0


From 7cdc825da91c0a74d82ca6be128ed570e88f9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 58/98] fix: tuples exported into a file or string stream were
 taken for traits

---
 src/GTMesh/Debug/VariableExport.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/VariableExport.h b/src/GTMesh/Debug/VariableExport.h
index ddac070..0592130 100644
--- a/src/GTMesh/Debug/VariableExport.h
+++ b/src/GTMesh/Debug/VariableExport.h
@@ -27,7 +27,8 @@ struct VariableExport {
     static void exportVariable(const T& var);
 
 
-    template <typename T, typename ... TraitsTypes>
+    /// Not applicable to streams: a tuple exported into a stream is not a tuple of traits.
+    template <typename T, typename ... TraitsTypes, std::enable_if_t<!std::is_base_of<std::ostream, T>::value, bool> = true>
     static void exportVariable(const T& var, const std::tuple<TraitsTypes...>&);
 
 };
@@ -135,7 +136,7 @@ void VariableExport::exportVariable(const T &var)
 }
 
 
-template<typename T, typename ... TraitsTypes>
+template<typename T, typename ... TraitsTypes, std::enable_if_t<!std::is_base_of<std::ostream, T>::value, bool>>
 void VariableExport::exportVariable(const T &var, const std::tuple<TraitsTypes...>& traitsTuple)
 {
     SelectPrinterTraitsTuple< T, std::tuple<TraitsTypes...>,
-- 
2.43.0


From 159d727445a7c7b25af86cc0c47c39064fd27b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 59/98] fix: unsigned and long values were not exported to
 stdio

---
 src/GTMesh/Debug/Printers/PrintExportable.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 941086e..2b15a1a 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -42,7 +42,18 @@ struct PrintExportable {
 
     static void print(const unsigned int& d, ...)
     {
-        printf("%ud", d);
+        printf("%u", d);
+    }
+
+
+    static void print(const long& d, ...)
+    {
+        printf("%ld", d);
+    }
+
+    static void print(const unsigned long& d, ...)
+    {
+        printf("%lu", d);
     }
 
 
-- 
2.43.0


From 8f53d69efa258d8cc999725f308c047cb7e50b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 60/98] fix: text in character arrays was exported without
 quotes (and as a bool to stdio)

---
 src/GTMesh/Debug/Printers/PrintText.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index f143369..48e9e88 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -8,7 +8,7 @@ struct PrintText {
     using isTextType = std::enable_if_t < std::is_same<T, std::string>::value ||
                                           std::is_same<T, const char*>::value ||
                                           std::is_same<T, char*>::value ||
-                                          std::is_same<T, char>::value,
+                                          std::is_same<std::remove_extent_t<T>, char>::value,
                                           bool >;
 
     template< typename TextType,
-- 
2.43.0


From 46ed4d7b6dbaf1e09c3676233b66592c629c2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 61/98] fix: quotes, backslashes and control characters in
 texts broke the JSON and HTML logs

---
 src/GTMesh/Debug/HTMLLogger.h         |  1 +
 src/GTMesh/Debug/JSONLogger.h         |  1 +
 src/GTMesh/Debug/Printers/PrintText.h | 44 ++++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index dc020f0..9b16fa3 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -48,6 +48,7 @@ public:
             delete logFile;
         }
         logFile = new std::ofstream(fileName);
+        PrintText::escapeText(*logFile);
 
 
         writeScript();
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 71c3ff8..2b7c567 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -47,6 +47,7 @@ public:
         }
         firstWrite = true;
         logFile = new std::ofstream(fileName);
+        PrintText::escapeText(*logFile);
         (*logFile) << "{\n\"logs\":[\n";
     }
 
diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index 48e9e88..8e73e95 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -1,5 +1,6 @@
 #ifndef PRINTTEXT_H
 #define PRINTTEXT_H
+#include <sstream>
 #include <GTMesh/Traits/CustomTypeTraits.h>
 
 struct PrintText {
@@ -14,7 +15,25 @@ struct PrintText {
     template< typename TextType,
               isTextType<TextType> dummy = true >
     static void print(std::ostream& ost, const TextType& str, ...) {
-        ost << '"' << str << '"';
+        ost << '"';
+        if (ost.iword(escapeIndex()) != 0) {
+            std::ostringstream text;
+            text << str;
+            for (const char c : text.str()) {
+                printEscaped(ost, c);
+            }
+        } else {
+            ost << str;
+        }
+        ost << '"';
+    }
+
+    /**
+     * @brief Sets the stream to escape the characters that cannot
+     * appear in a JSON or JavaScript string in the exported texts.
+     */
+    static void escapeText(std::ostream& ost) {
+        ost.iword(escapeIndex()) = 1;
     }
 
     static void print(const std::string& str, ...)
@@ -34,6 +53,29 @@ struct PrintText {
         printf("\"%c\"", str);
     }
 
+private:
+    static int escapeIndex() {
+        static const int index = std::ios_base::xalloc();
+        return index;
+    }
+
+    static void printEscaped(std::ostream& ost, const char c) {
+        switch (c) {
+        case '"' : ost << "\\\""; break;
+        case '\\': ost << "\\\\"; break;
+        case '\n': ost << "\\n"; break;
+        case '\r': ost << "\\r"; break;
+        case '\t': ost << "\\t"; break;
+        default:
+            if (static_cast<unsigned char>(c) < 0x20) {
+                const char* digits = "0123456789abcdef";
+                ost << "\\u00" << digits[c >> 4] << digits[c & 0xf];
+            } else {
+                ost << c;
+            }
+        }
+    }
+
 };
 
 #endif // PRINTTEXT_H
-- 
2.43.0


From 94e489c436c3d99a5f8cdc47b43bc78c1166e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 62/98] fix: backslash at the beginning of a file name broke
 the JSON log

---
 src/GTMesh/Debug/JSONLogger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 2b7c567..1896d0d 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -153,8 +153,9 @@ public:
     std::string doubleBackSlash(const char * str){
         std::string res = str;
         size_t pos = 0;
-        while((pos = res.find("\\", pos + 2)) != res.npos){
+        while((pos = res.find("\\", pos)) != res.npos){
             res.replace(pos, 1, "\\\\");
+            pos += 2;
         }
         return res;
     }
-- 
2.43.0


From 745e88805657ac8a2cd88f8e3c7f2bdb44d249dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 63/98] fix: log destroyed twice and left unfinished when
 another one was created

---
 src/GTMesh/Debug/HTMLLogger.h | 6 ++----
 src/GTMesh/Debug/JSONLogger.h | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 9b16fa3..a9d0c8b 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -43,10 +43,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         logFile = new std::ofstream(fileName);
         PrintText::escapeText(*logFile);
 
@@ -59,6 +56,7 @@ public:
             writeEndScritpt();
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 1896d0d..22c5d82 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -41,10 +41,7 @@ public:
      * @param fileName
      */
     void create(const char* fileName){
-        if (logFile){
-            logFile->close();
-            delete logFile;
-        }
+        destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
         PrintText::escapeText(*logFile);
@@ -58,6 +55,7 @@ public:
 
             logFile->close();
             delete logFile;
+            logFile = nullptr;
         }
     }
 
-- 
2.43.0


From 57c7d416a78e1766b87984f076566f5bd476261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 64/98] fix: apostrophes and backslashes in expressions broke
 the HTML log

---
 src/GTMesh/Debug/HTMLLogger.h | 38 +++++++++++++++--------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index a9d0c8b..6bf1726 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -17,6 +17,18 @@ class HtmlLogger {
     std::ofstream* logFile;
     int groupIndex = 0;
 
+    /// Escapes the text to be placed between apostrophes in the script.
+    static std::string escaped(const std::string& text){
+        std::string res;
+        for (const char c : text){
+            if (c == '\\' || c == '\''){
+                res += '\\';
+            }
+            res += c;
+        }
+        return res;
+    }
+
     inline void writeScript();
     inline void writeEndScritpt();
 public:
@@ -91,7 +103,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escaped(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         writeVar(line, cppFile, rest...);
@@ -104,7 +116,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << name << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escaped(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         groupIndex++;
@@ -115,32 +127,14 @@ public:
     template<typename VAR_NAME, typename VAR, typename ... REST>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value, REST ... rest){
 
-        std::string file;
-        int i = 0;
-        while(cppFile[i] != '\0'){
-            if (cppFile[i] == '\\'){
-                file += "\\\\";
-            } else {
-                file += cppFile[i];
-            }
-            i++;
-        }
+        std::string file = escaped(cppFile);
         writeVar(line, file, name, value,  rest...);
     }
 
 
     template<typename VAR_NAME, typename VAR>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value){
-        std::string file;
-        int i = 0;
-        while(cppFile[i] != '\0'){
-            if (cppFile[i] == '\\'){
-                file += "\\\\";
-            } else {
-                file += cppFile[i];
-            }
-            i++;
-        }
+        std::string file = escaped(cppFile);
         writeVar(line, file, name, value);
     }
 
-- 
2.43.0


From b378adcaabb8c9ea48d027a5ccb0ea9cfd9fa2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 65/98] fix: several messages could not be written to stdio

---
 src/GTMesh/Debug/ConsoleLogger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index da7eecc..26fd6f0 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -197,8 +197,8 @@ public:
 
     template<typename MSGTYPE, typename... MSGTYPES>
     static void writeMessageC(const char* prefix, int line, const char* funcName, const char* sourceFile, const MSGTYPE& message, const MSGTYPES&... rest) {
-        writeMessageC(prefix, funcName, line, sourceFile, message);
-        writeMessageC(prefix, funcName, line, sourceFile, rest...);
+        writeMessageC(prefix, line, funcName, sourceFile, message);
+        writeMessageC(prefix, line, funcName, sourceFile, rest...);
     }
 
 
-- 
2.43.0


From 05a0d2fe3aec1c8605bbfcfce0a1c7fab02f084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 66/98] fix: DBGVAR_STDIO swapped the file and the function

---
 src/GTMesh/Debug/Debug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index a843112..682cd3b 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -33,7 +33,7 @@ namespace dbg {
 #define DBGVAR(...) dbg::getDebugConsoleLogger().writeVariable(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND(condition, ...) if(condition) DBGVAR(__VA_ARGS__)
 
-#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __FILE__, __func__, FOR_EACH(STRVAR, __VA_ARGS__))
+#define DBGVAR_STDIO(...) ConsoleLogger::writeVarC(__LINE__, __func__, __FILE__, FOR_EACH(STRVAR, __VA_ARGS__))
 #define DBGVARCOND_STDIO(condition, ...) if(condition) DBGVAR_STDIO(__VA_ARGS__)
 
 #define DBGMSG(...) dbg::getDebugConsoleLogger().writeMessage("++", __LINE__, __func__, __FILE__, __VA_ARGS__)
-- 
2.43.0


From 46464b0f929a26be2b917b3cec47e55986567012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 67/98] fix: ConsoleLogger::reset did not restore the default
 indentation

---
 src/GTMesh/Debug/ConsoleLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/ConsoleLogger.h b/src/GTMesh/Debug/ConsoleLogger.h
index 26fd6f0..0609dc1 100644
--- a/src/GTMesh/Debug/ConsoleLogger.h
+++ b/src/GTMesh/Debug/ConsoleLogger.h
@@ -52,7 +52,7 @@ public:
         mOnlyFilename = false; //!< If true then the filename is exported without its path.
         mPrintFunction = true; //!< If true then the name of the function the export is called from is printed.
         mPrintAggregated = true; //!< Prints the information about the origin of the message only once.
-        mIdentation = std::string("...     "); //!< The identation of the single exports when PrintAggregated is true.
+        mIdentation = std::string("||     "); //!< The identation of the single exports when PrintAggregated is true.
     }
 public:
 
-- 
2.43.0


From 2e96e9eac8633bce82b39c55d8b063e2680ebb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 68/98] fix: stdio debugging macros were not disabled by
 UNDEBUG

---
 src/GTMesh/Debug/Debug.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/Debug/Debug.h b/src/GTMesh/Debug/Debug.h
index 682cd3b..42cd46a 100644
--- a/src/GTMesh/Debug/Debug.h
+++ b/src/GTMesh/Debug/Debug.h
@@ -69,10 +69,16 @@ exit(1);}
 
 #define DBGVAR(...)
 
+#define DBGVAR_STDIO(...)
+
+#define DBGVARCOND_STDIO(condition, ...)
+
 #define DBGMSG(...)
 
 #define DBGCHECK
 
+#define DBGCHECK_STDIO
+
 #define DBGTRY(code) code
 
 #define DBGVAR_HTML(...)
-- 
2.43.0


From 5b2c2794181d4533b419d79c2ec43c33c2392f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 69/98] fix: exporting a class without printer changed the fill
 and base of the stream

---
 src/GTMesh/Debug/Printers/PrintAny.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index 25be8e9..bb5f529 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -7,6 +7,8 @@ struct PrintAny {
     template <typename T>
     static void print(std::ostream& ost, const T& var, ...) {
         ost << typeid (T).name() << "(";
+        const auto flags = ost.flags();
+        const auto fill = ost.fill();
         ost << std::hex;
         for (char* byte = (char*)&var; byte < (char*)&var + sizeof (T); byte++) {
             ost << std::setfill('0') << std::setw(2) << ((int)(*byte) & 0xff);
@@ -14,7 +16,8 @@ struct PrintAny {
                 ost << ' ';
             }
         }
-        ost << std::dec;
+        ost.flags(flags);
+        ost.fill(fill);
         ost << ")";
     }
 
-- 
2.43.0


From 33855731799aa393d620a136a6d707437abaf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 70/98] fix: elements of containers indexable by value dangled

---
 src/GTMesh/Traits/Interfaces/InterfaceIndexable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
index e50ab5b..9caca5c 100644
--- a/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
+++ b/src/GTMesh/Traits/Interfaces/InterfaceIndexable.h
@@ -22,7 +22,7 @@ struct Indexable<T, std::enable_if_t<::IsIndexable<T>::value>> : public std::tru
 
     static sizeType size(const T &val) { return val.size(); }
 
-    static const valueType& getElement(const T& array, const sizeType& index) {
+    static auto getElement(const T& array, const sizeType& index) -> decltype(array[index]) {
         return array[index];
     }
 
@@ -60,7 +60,7 @@ struct Indexable<T, std::enable_if_t<::IsTNLIndexable<T>::value>> : public std::
 
     static sizeType size(const T &val) { return val.getSize(); }
 
-    static const valueType& getElement(const T& array, const sizeType& index) {
+    static auto getElement(const T& array, const sizeType& index) -> decltype(array[index]) {
         return array[index];
     }
 
-- 
2.43.0


From 8a83620533fafd39f21ff957afe89ded01c5eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 71/98] fix: non-text keys, non-finite numbers and bytes broke
 the JSON and HTML logs

---
 src/GTMesh/Debug/Printers/PrintAny.h        |  7 +++--
 src/GTMesh/Debug/Printers/PrintExportable.h | 34 ++++++++++++++++++++-
 src/GTMesh/Debug/Printers/PrintText.h       |  7 ++++-
 src/GTMesh/Debug/Printers/PrintTuple.h      | 24 +++++++++++++--
 4 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/Debug/Printers/PrintAny.h b/src/GTMesh/Debug/Printers/PrintAny.h
index bb5f529..4ac26c7 100644
--- a/src/GTMesh/Debug/Printers/PrintAny.h
+++ b/src/GTMesh/Debug/Printers/PrintAny.h
@@ -2,11 +2,14 @@
 #define PRINTANY_H
 
 #include <iomanip>
+#include "PrintText.h"
 struct PrintAny {
 
     template <typename T>
     static void print(std::ostream& ost, const T& var, ...) {
-        ost << typeid (T).name() << "(";
+        // in a JSON the export has to be a text
+        const char* quote = PrintText::isTextEscaped(ost) ? "\"" : "";
+        ost << quote << typeid (T).name() << "(";
         const auto flags = ost.flags();
         const auto fill = ost.fill();
         ost << std::hex;
@@ -18,7 +21,7 @@ struct PrintAny {
         }
         ost.flags(flags);
         ost.fill(fill);
-        ost << ")";
+        ost << ")" << quote;
     }
 
     template <typename T>
diff --git a/src/GTMesh/Debug/Printers/PrintExportable.h b/src/GTMesh/Debug/Printers/PrintExportable.h
index 2b15a1a..c7eca2f 100644
--- a/src/GTMesh/Debug/Printers/PrintExportable.h
+++ b/src/GTMesh/Debug/Printers/PrintExportable.h
@@ -1,7 +1,11 @@
 #ifndef PRINTEXPORTABLE_H
 #define PRINTEXPORTABLE_H
+#include <cmath>
+#include <sstream>
+#include <string>
 #include <type_traits>
 #include "../VariableExport.h"
+#include "PrintText.h"
 
 struct PrintExportable {
 
@@ -12,7 +16,18 @@ struct PrintExportable {
      */
     template <typename T, std::enable_if_t<IsExportable<T>::value, bool> = true>
     static void print(std::ostream& ost, const T& var, ...) {
-        ost << var;
+        if (PrintText::isTextEscaped(ost)) {
+            std::ostringstream text;
+            text.copyfmt(ost);
+            text << var;
+            if (isNumber(var, text.str())) {
+                ost << text.str();
+            } else {
+                PrintText::print(ost, text.str());
+            }
+        } else {
+            ost << var;
+        }
     }
 
     static void print(std::ostream& ost, const bool& var, ...) {
@@ -71,6 +86,23 @@ struct PrintExportable {
     {
         printf("%s", (b == true ? "true" : "false"));
     }
+
+private:
+    /// Only numbers can be placed in a JSON without quotes.
+    template <typename T, std::enable_if_t<std::is_floating_point<T>::value, bool> = true>
+    static bool isNumber(const T& var, const std::string&) {
+        return std::isfinite(var);
+    }
+
+    template <typename T, std::enable_if_t<std::is_enum<T>::value, bool> = true>
+    static bool isNumber(const T& var, const std::string& text) {
+        return text == std::to_string(static_cast<long long>(var));
+    }
+
+    template <typename T, std::enable_if_t<!std::is_floating_point<T>::value && !std::is_enum<T>::value, bool> = true>
+    static bool isNumber(const T&, const std::string&) {
+        return std::is_integral<T>::value && sizeof(T) > 1;
+    }
 };
 
 #endif // PRINTEXPORTABLE_H
diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index 8e73e95..fa83f77 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -16,7 +16,7 @@ struct PrintText {
               isTextType<TextType> dummy = true >
     static void print(std::ostream& ost, const TextType& str, ...) {
         ost << '"';
-        if (ost.iword(escapeIndex()) != 0) {
+        if (isTextEscaped(ost)) {
             std::ostringstream text;
             text << str;
             for (const char c : text.str()) {
@@ -53,6 +53,11 @@ struct PrintText {
         printf("\"%c\"", str);
     }
 
+    /// True if the texts exported into the stream are escaped.
+    static bool isTextEscaped(std::ostream& ost) {
+        return ost.iword(escapeIndex()) != 0;
+    }
+
 private:
     static int escapeIndex() {
         static const int index = std::ios_base::xalloc();
diff --git a/src/GTMesh/Debug/Printers/PrintTuple.h b/src/GTMesh/Debug/Printers/PrintTuple.h
index 52ee26c..c4a5518 100644
--- a/src/GTMesh/Debug/Printers/PrintTuple.h
+++ b/src/GTMesh/Debug/Printers/PrintTuple.h
@@ -1,11 +1,31 @@
 #ifndef PRINTTUPLE_H
 #define PRINTTUPLE_H
 #include "../VariableExport.h"
+#include "PrintText.h"
 #include <GTMesh/Utils/ConstexprFor.h>
 /**
  * @brief Provides functions that prints std::pair and std::tuple similarly to the python.
  */
 struct PrintTuple {
+    /**
+     * @brief Prints the key of a pair. The keys in a JSON have to be texts.
+     */
+    template<typename Key, typename ... TraitsTuple>
+    static void printKey(std::ostream& ost, const Key& key, const TraitsTuple& ... traitsTuple)
+    {
+        if (!PrintText::isTextEscaped(ost)) {
+            VariableExport::exportVariable(ost, key, traitsTuple...);
+            return;
+        }
+        std::ostringstream text;
+        text.copyfmt(ost);
+        VariableExport::exportVariable(static_cast<std::ostream&>(text), key, traitsTuple...);
+        if (text.str()[0] == '"') {
+            ost << text.str();
+        } else {
+            PrintText::print(ost, text.str());
+        }
+    }
     /**
      * @brief Python-like print of dictionary pair of key and value.
      */
@@ -13,7 +33,7 @@ struct PrintTuple {
     static void print(std::ostream& ost, const std::pair<T1,T2>& b)
     {
         ost << "{ ";
-        VariableExport::exportVariable(ost, b.first);
+        printKey(ost, b.first);
         ost << ": ";
         VariableExport::exportVariable(ost, b.second);
         ost << "}";
@@ -23,7 +43,7 @@ struct PrintTuple {
     static void print(std::ostream& ost, const std::pair<T1,T2>& b, const std::tuple<TraitsTypes...>& traitsTuple)
     {
         ost << "{ ";
-        VariableExport::exportVariable(ost, b.first, traitsTuple);
+        printKey(ost, b.first, traitsTuple);
         ost << ": ";
         VariableExport::exportVariable(ost, b.second, traitsTuple);
         ost << "}";
-- 
2.43.0


From 84f644336f4e8072976fc6b3188de2de0b847a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 72/98] fix: element indices of constant containers could not
 be used or printed as numbers

---
 src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
index 99d0ee7..97e1138 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/ElementIndex.hpp
@@ -2,6 +2,7 @@
 #define ELEMENTINDEX_HPP
 
 #include <cstddef>
+#include <type_traits>
 
 /**
  * @brief Small integer wrapper to bound a element dimension with an index.
@@ -31,7 +32,12 @@ struct ElementIndex {
         return index == rhs.index;
     }
 
-    operator IndexType() {
+    template <typename Integer, std::enable_if_t<std::is_integral<Integer>::value, bool> = true>
+    bool operator==(const Integer& rhs) const {
+        return index == rhs;
+    }
+
+    operator IndexType() const {
         return index;
     }
 
-- 
2.43.0


From ae97f48d03002b81c35fec8ab7aac3b14217fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 73/98] fix: recognize the data in a VTK file by the keyword at
 the beginning of the line

---
 .../MeshDataIO/VTKMeshDataReader.h            | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 74b1de2..dd23282 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -134,15 +134,21 @@ public:
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
-            int flag = (line.find("SCALARS")!= line.npos ? 1
-                                                          : line.find("VECTORS") != line.npos ? 2
-                                                          : line.find("TENSORS") != line.npos ? 2
-                                                                                              : 0 );
+            // the line following the version of the format is a title
+            if (line.compare(0, 5, "# vtk") == 0) {
+                std::getline(ist, line, '\n');
+                continue;
+            }
+
+            std::string keyWord, dataName;
+            std::stringstream sstream(line);
+            sstream >> keyWord >> dataName;
+
+            int flag = (keyWord == "SCALARS" ? 1
+                                             : keyWord == "VECTORS" ? 2
+                                             : keyWord == "TENSORS" ? 2
+                                                                    : 0 );
             if (flag != 0){
-                std::string dataName;
-                std::stringstream sstream(line);
-                sstream.ignore(9, ' ');
-                sstream >> dataName;
 
                 if (flag == 1) { // scalar quantity found
                     ist.ignore(500, '\n');
-- 
2.43.0


From 1415fc2646e51ad06bf5239d2c797ecdbb5df8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 74/98] fix: keep the order of the operands of + and * of
 traited objects when the second one is a temporary

---
 src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
index 729c69e..3035a03 100644
--- a/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
+++ b/src/GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h
@@ -145,7 +145,8 @@ template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator+(const TraitT& op1, TraitT&& op2) noexcept {
 
-    return op2 += op1;
+    TraitsBinaryExpressionProcesor<BinaryPlus>::evaluate(op2, op1, op2);
+    return op2;
 }
 
 
@@ -159,7 +160,7 @@ operator+(TraitT&& op1, const TraitT& op2) noexcept {
 template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator+(TraitT&& op1, TraitT&& op2) noexcept {
-    return op2 += op1;
+    return op1 += op2;
 }
 
 
@@ -315,7 +316,8 @@ operator*(const TraitT& op1, const TraitT& op2) noexcept {
 template <typename TraitT>
 typename std::enable_if<HasDefaultArithmeticTraits<TraitT>::value, TraitT>::type
 operator*(const TraitT& op1, TraitT&& op2) noexcept {
-    return operator*=(op2, op1);
+    TraitsBinaryExpressionProcesor<BinaryStar>::evaluate(op2, op1, op2);
+    return op2;
 }
 
 template <typename TraitT>
-- 
2.43.0


From 5c014eab6776b07d80d85ef8e80685f29d5e5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 75/98] fix: escape the quotes in the name of the source file
 in the JSON log

---
 src/GTMesh/Debug/JSONLogger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 22c5d82..f890556 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -151,8 +151,8 @@ public:
     std::string doubleBackSlash(const char * str){
         std::string res = str;
         size_t pos = 0;
-        while((pos = res.find("\\", pos)) != res.npos){
-            res.replace(pos, 1, "\\\\");
+        while((pos = res.find_first_of("\\\"", pos)) != res.npos){
+            res.insert(pos, 1, '\\');
             pos += 2;
         }
         return res;
-- 
2.43.0


From ed01df9cde31c440f29ba595ea61567c70cc1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 76/98] fix: escape the expressions, files and attribute names
 in the JSON log

The names of attributes were exported without escaping their quotes and
backslashes, the expressions without escaping new lines (std::quoted) and
the files passed as std::string without any escaping, so the log was not
a JSON document.
---
 src/GTMesh/Debug/JSONLogger.h                 | 36 +++++++++----------
 src/GTMesh/Debug/Printers/PrintTraitedClass.h |  7 ++--
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index f890556..020f4b3 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -83,8 +83,9 @@ public:
             firstWrite = false;
         }
 
-        (*logFile) << "\t{\n\t\t\"expr\" : "<< std::quoted( name ) <<
-                      ",\n\t\t\"data\" : " ;
+        (*logFile) << "\t{\n\t\t\"expr\" : ";
+        PrintText::print(*logFile, name);
+        (*logFile) << ",\n\t\t\"data\" : " ;
         VariableExport::exportVariable(*logFile, value);
         (*logFile) << "\n}";
 
@@ -105,10 +106,13 @@ public:
         }
         (*logFile) << "\t{" <<
                       "\n\t\t\"gInd\" : " << groupIndex << "," <<
-                      "\n\t\t\"file\" : \"" << cppFile << "\"," <<
+                      "\n\t\t\"file\" : ";
+        PrintText::print(*logFile, cppFile);
+        (*logFile) << "," <<
                       "\n\t\t\"line\" : " << line << "," <<
-                      "\n\t\t\"expr\" : " << std::quoted( name ) << "," <<
-                      "\n\t\t\"data\" : ";
+                      "\n\t\t\"expr\" : ";
+        PrintText::print(*logFile, name);
+        (*logFile) << ",\n\t\t\"data\" : ";
         VariableExport::exportVariable(*logFile, value);
         (*logFile) << "\n\t}";
 
@@ -129,10 +133,13 @@ public:
         }
         (*logFile) << "\t{" <<
                       "\n\t\t\"gInd\" : " << groupIndex << "," <<
-                      "\n\t\t\"file\" : \"" << cppFile << "\"," <<
+                      "\n\t\t\"file\" : ";
+        PrintText::print(*logFile, cppFile);
+        (*logFile) << "," <<
                       "\n\t\t\"line\" : " << line << "," <<
-                      "\n\t\t\"expr\" : " << std::quoted( name ) << "," <<
-                      "\n\t\t\"data\" : ";
+                      "\n\t\t\"expr\" : ";
+        PrintText::print(*logFile, name);
+        (*logFile) << ",\n\t\t\"data\" : ";
         VariableExport::exportVariable(*logFile, value);
 
         (*logFile) << "\n\t}";
@@ -143,20 +150,9 @@ public:
 
     template< typename VAR, typename ... REST >
     void writeVar(int line, const char* cppFile, const char* name, const VAR& value,const REST& ... rest){
-        writeVar(line, doubleBackSlash(cppFile), name, value,  rest...);
+        writeVar(line, std::string(cppFile), name, value,  rest...);
     }
 
-
-
-    std::string doubleBackSlash(const char * str){
-        std::string res = str;
-        size_t pos = 0;
-        while((pos = res.find_first_of("\\\"", pos)) != res.npos){
-            res.insert(pos, 1, '\\');
-            pos += 2;
-        }
-        return res;
-    }
 };
 
 #endif // JSONLOGGER_H
diff --git a/src/GTMesh/Debug/Printers/PrintTraitedClass.h b/src/GTMesh/Debug/Printers/PrintTraitedClass.h
index e4e128f..6a9cbcb 100644
--- a/src/GTMesh/Debug/Printers/PrintTraitedClass.h
+++ b/src/GTMesh/Debug/Printers/PrintTraitedClass.h
@@ -1,6 +1,7 @@
 #ifndef PRINTTRAITEDCLASS_H
 #define PRINTTRAITEDCLASS_H
 #include "../VariableExport.h"
+#include "PrintText.h"
 
 struct PrintTraitedClass {
 
@@ -38,13 +39,15 @@ struct PrintTraitedClass {
     struct PrintClass<T, TraitsIO, Index, true>{
 
         static void print(std::ostream& ost, const T &traitedClass, const TraitsIO& traitsIO){
-            ost << '"' << traitsIO.template getName<Index>() << "\" : ";
+            PrintText::print(ost, traitsIO.template getName<Index>());
+            ost << " : ";
             VariableExport::exportVariable(ost, traitsIO.template getValue<Index>(traitedClass));
         }
 
         template <typename ... _Traits, typename _T = T>
         static void print(std::ostream& ost, const _T &traitedClass, const TraitsIO& traitsIO, std::tuple<const _Traits& ...> t) {
-            ost << '"' << traitsIO.template getName<Index>() << "\" : ";
+            PrintText::print(ost, traitsIO.template getName<Index>());
+            ost << " : ";
             VariableExport::exportVariable(ost, traitsIO.template getValue<Index>(traitedClass), t);
         }
 
-- 
2.43.0


From c006ae2f5586abb5c8114ac5195654c2644d544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 77/98] fix: keep the texts in the HTML log from ending its
 script

A text, expression or file containing </script>, <!-- or a new line ended or
broke the script of the page. Files passed as std::string were not escaped.
---
 src/GTMesh/Debug/HTMLLogger.h         | 21 +++++++++++++--------
 src/GTMesh/Debug/Printers/PrintText.h |  9 +++++++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 6bf1726..2772e1c 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -21,10 +21,15 @@ class HtmlLogger {
     static std::string escaped(const std::string& text){
         std::string res;
         for (const char c : text){
-            if (c == '\\' || c == '\''){
-                res += '\\';
+            switch (c){
+            case '\\': res += "\\\\"; break;
+            case '\'': res += "\\'"; break;
+            case '\n': res += "\\n"; break;
+            case '\r': res += "\\r"; break;
+            // the text must not end the script
+            case '<': res += "\\u003c"; break;
+            default: res += c;
             }
-            res += c;
         }
         return res;
     }
@@ -57,7 +62,7 @@ public:
     void create(const char* fileName){
         destroy();
         logFile = new std::ofstream(fileName);
-        PrintText::escapeText(*logFile);
+        PrintText::escapeScriptText(*logFile);
 
 
         writeScript();
@@ -103,7 +108,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escaped(name) << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << escaped(cppFile) << "', '" << escaped(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         writeVar(line, cppFile, rest...);
@@ -116,7 +121,7 @@ public:
         // create file if not logFile is nullptr
         if (!logFile) create(logFileName.c_str());
 
-        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << cppFile << "', '" << escaped(name) << "', ";
+        (*logFile)  << "[" << groupIndex << ", " << line << ", '" << escaped(cppFile) << "', '" << escaped(name) << "', ";
         VariableExport::exportVariable(*logFile,value);
         (*logFile) << "],\n";
         groupIndex++;
@@ -127,14 +132,14 @@ public:
     template<typename VAR_NAME, typename VAR, typename ... REST>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value, REST ... rest){
 
-        std::string file = escaped(cppFile);
+        std::string file = cppFile;
         writeVar(line, file, name, value,  rest...);
     }
 
 
     template<typename VAR_NAME, typename VAR>
     void writeVar(int line, const char* cppFile, VAR_NAME name, VAR value){
-        std::string file = escaped(cppFile);
+        std::string file = cppFile;
         writeVar(line, file, name, value);
     }
 
diff --git a/src/GTMesh/Debug/Printers/PrintText.h b/src/GTMesh/Debug/Printers/PrintText.h
index fa83f77..8888445 100644
--- a/src/GTMesh/Debug/Printers/PrintText.h
+++ b/src/GTMesh/Debug/Printers/PrintText.h
@@ -36,6 +36,14 @@ struct PrintText {
         ost.iword(escapeIndex()) = 1;
     }
 
+    /**
+     * @brief Sets the stream to escape the texts as @ref escapeText does
+     * and in addition the character '<', which can end a script in HTML.
+     */
+    static void escapeScriptText(std::ostream& ost) {
+        ost.iword(escapeIndex()) = 2;
+    }
+
     static void print(const std::string& str, ...)
     {
         printf("\"%s\"", str.c_str());
@@ -71,6 +79,7 @@ private:
         case '\n': ost << "\\n"; break;
         case '\r': ost << "\\r"; break;
         case '\t': ost << "\\t"; break;
+        case '<': ost << (ost.iword(escapeIndex()) == 2 ? "\\u003c" : "<"); break;
         default:
             if (static_cast<unsigned char>(c) < 0x20) {
                 const char* digits = "0123456789abcdef";
-- 
2.43.0


From b474542039b4b83407d1d7e322e794ce9a0e3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 78/98] fix: show the texts in the HTML log as they are

The texts were inserted in the table as markup, so the parts between < and >,
for example of the expression std::vector<int>(), were not shown.
---
 src/GTMesh/Debug/HTMLLogger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 2772e1c..d1625b5 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -238,6 +238,10 @@ function filterData() {
 }
 
 
+function toHtml(text) {
+    return text.replace(/&/g, "&amp;").replace(/</g, "&lt;");
+}
+
 function showData(){
     lD = document.getElementById("listDiv");
 
@@ -262,7 +266,7 @@ function showData(){
             odd = true;
         }
 
-        tmp += dataToShow[i][0] + "</td><td>" + dataToShow[i][1] + "</td><td>" + dataToShow[i][2] + "</td><td>" + dataToShow[i][3] + "</td><td>" + JSON.stringify(dataToShow[i][4]) + "</td></tr>";
+        tmp += dataToShow[i][0] + "</td><td>" + dataToShow[i][1] + "</td><td>" + toHtml(dataToShow[i][2]) + "</td><td>" + toHtml(dataToShow[i][3]) + "</td><td>" + toHtml(JSON.stringify(dataToShow[i][4])) + "</td></tr>";
 
     }
     tmp += "</table>";
-- 
2.43.0


From 30f1f838e0864a8e21eb34fc8cbfa91e32f95766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 79/98] fix: filter the HTML log by the line only

Without any filter of the values no rule was applied to the records on the
selected line and none was shown.
---
 src/GTMesh/Debug/HTMLLogger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index d1625b5..46b2b70 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -200,6 +200,7 @@ function checkData(varData) {
             }
         }
     } else {
+        apliedRule = 0;
         return true;
     }
 
-- 
2.43.0


From 34afc0778446fff14caf44f07193d8d49bdd73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 80/98] fix: show the rows of a selected group in the HTML log
 once

A row selected before its group was shown again with the group.
---
 src/GTMesh/Debug/HTMLLogger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 46b2b70..b391213 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -226,6 +226,10 @@ function filterData() {
                         for(var j = i; j >= 0 && data[j][0] == groupIndex; j--){
                             index = j;
                         }
+                        // some rows of the group may be already shown
+                        while(dataToShow.length > 0 && dataToShow[dataToShow.length - 1][0] == groupIndex) {
+                            dataToShow.pop();
+                        }
                         while(index < data.length && data[index][0] == groupIndex) {
                             dataToShow.push(data[index]);
                             index++;
-- 
2.43.0


From 3aa854e8c3aeac05c9d75ba4cd1fed026bac38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:06 +0000
Subject: [PATCH 81/98] fix: keep the values of the filters of the HTML log
 when another is added

Appending to innerHTML creates the previous filters anew with the default values.
---
 src/GTMesh/Debug/HTMLLogger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index b391213..1740e23 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -174,7 +174,7 @@ function copyData() {
 function addFilter() {
     var sel = document.getElementById("selector");
 
-    sel.innerHTML += '<tr><td>select: <select id ="sO' + numberOfSelectors.toString(10) + '"><option>row</option><option>group</option></select></td><td>var name:<input id ="vN' + numberOfSelectors.toString(10) + '" type="text"/></td><td><select id ="cO' + numberOfSelectors.toString(10) + '"><option>less</option><option>greater</option><option>equal</option><option>between</option></select></td><td><input type="number" step="1e-6" id ="firstVal' + numberOfSelectors.toString(10) + '" value="0"/></td><td> and: <input type="number" step="1e-6" id ="secondVal' + numberOfSelectors.toString(10) + '" value="0"/></td></tr>';
+    sel.insertAdjacentHTML("beforeend", '<tr><td>select: <select id ="sO' + numberOfSelectors.toString(10) + '"><option>row</option><option>group</option></select></td><td>var name:<input id ="vN' + numberOfSelectors.toString(10) + '" type="text"/></td><td><select id ="cO' + numberOfSelectors.toString(10) + '"><option>less</option><option>greater</option><option>equal</option><option>between</option></select></td><td><input type="number" step="1e-6" id ="firstVal' + numberOfSelectors.toString(10) + '" value="0"/></td><td> and: <input type="number" step="1e-6" id ="secondVal' + numberOfSelectors.toString(10) + '" value="0"/></td></tr>');
 
     numberOfSelectors++;
 }
-- 
2.43.0


From ae91730ca4d2db8b2776431de665c18f7f38a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 82/98] fix: keep the boundary lists of cells when the sides of
 a face are swapped

swapCellsLR of a face swapped the cells but not the indexes of the next boundary
elements, so the boundary lists of both cells continued by that of the other.
---
 .../MeshElements/CellBoundaryConnection.h         | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
index 2d75d41..3a549cd 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/CellBoundaryConnection.h
@@ -39,6 +39,12 @@ public:
 
     IndexType getNextBElem(IndexType cellIndex) const;
 
+    /**
+     * @brief Swaps the left and right cell indexes together with
+     * the indexes of the next boundary elements with respect to them.
+     */
+    void swapCellsLR();
+
 
 };
 
@@ -172,6 +178,15 @@ IndexType CellBoundaryConnection<IndexType>::getNextBElem(IndexType cellIndex) c
     }
 }
 
+template<typename IndexType>
+void CellBoundaryConnection<IndexType>::swapCellsLR() {
+
+    CellConnection<IndexType>::swapCellsLR();
+
+    IndexType nextLeft = getNextBElemWRTCR();
+    setNextBElemWRTCR(getNextBElemWRTCL());
+    setNextBElemWRTCL(nextLeft);
+}
 
 
 
-- 
2.43.0


From 0c8a7d2790f78754b5f0ac0869ce3f565ce4af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 83/98] fix: do not empty a file of an unknown format when a
 writer is given

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 1420ff4..f32b57e 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -405,6 +405,12 @@ public:
             writer = write(filePath, cellTypes, dataHeader);
         } else {
 
+            if (!checkExtension(filePath, ".vtk") && !checkExtension(filePath, ".fpma")) {
+                DBGMSG("The format of the file is not known!");
+                writer.reset();
+                return;
+            }
+
             std::ofstream file(filePath, std::ios::binary);
             if (!file.is_open()) {
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
@@ -482,6 +488,12 @@ public:
             writer = write(filePath, cellTypes, dataHeader);
         } else {
 
+            if (!checkExtension(filePath, ".vtk")) {
+                DBGMSG("The format of the file is not known!");
+                writer.reset();
+                return;
+            }
+
             std::ofstream file(filePath, std::ios::binary);
             if (!file.is_open()) {
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
-- 
2.43.0


From 866774838816a2e8ecfae5cc82da12d1417e8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 84/98] fix: report a mesh that could not be written completely

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index f32b57e..85b2a71 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -444,6 +444,9 @@ public:
                 }
             }
             file.close();
+            if (!file) {
+                throw std::runtime_error("was not able to write the mesh to file: \"" + filePath + "\"");
+            }
         }
     }
 
@@ -517,6 +520,9 @@ public:
             }
 
             file.close();
+            if (!file) {
+                throw std::runtime_error("was not able to write the mesh to file: \"" + filePath + "\"");
+            }
         }
 
     }
-- 
2.43.0


From 2f9e7a242562c24daa49c1dfe065a7ee892950eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 85/98] fix: read VTK files whose numbers follow the section
 header on the same line

---
 .../MeshIO/MeshReader/VTKMeshReader.h          | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 5c49271..8721d72 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -99,10 +99,10 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
         IndexType numPoints;
-        ist >> numPoints;
+        std::string dataType;
+        ist >> numPoints >> dataType;
         Real dummy = 0;
         mesh.getVertices().resize(numPoints);
-        ist.ignore(20, '\n');
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
             mesh.getVertices().at(vertIndex).setIndex(vertIndex);
             ist >> mesh.getVertices().at(vertIndex)[0];
@@ -118,10 +118,9 @@ public:
         const std::vector<int> vtkTypes = Impl::peekVTKCellTypes(ist);
 
         IndexType numCells;
-        ist >> numCells;
+        size_t totalNumbers;
+        ist >> numCells >> totalNumbers;
         mesh.getCells().resize(numCells);
-        // Skip the total number of numbers
-        ist.ignore(50, '\n');
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
             IndexType numVert;
@@ -348,9 +347,9 @@ public:
     template<typename IndexType, typename Real, unsigned int ...Reserve>
     void loadVertices(std::istream& ist, MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numPoints;
-        ist >> numPoints;
+        std::string dataType;
+        ist >> numPoints >> dataType;
         mesh.getVertices().resize(numPoints);
-        ist.ignore(20, '\n');
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
             mesh.getVertices().at(vertIndex).setIndex(vertIndex);
             ist >> mesh.getVertices().at(vertIndex)[0];
@@ -368,10 +367,9 @@ public:
         const std::vector<int> vtkTypes = Impl::peekVTKCellTypes(ist);
 
         IndexType numCells;
-        ist >> numCells;
+        size_t totalNumbers;
+        ist >> numCells >> totalNumbers;
         mesh.getCells().resize(numCells);
-        // Skip the total number of numbers
-        ist.ignore(50, '\n');
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
             IndexType numVert;
-- 
2.43.0


From 7649a51a6559c880793821c1d877598157ecd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 86/98] fix: refuse mesh files that are damaged or incomplete

---
 .../MeshIO/MeshReader/FPMAMeshReader.h        | 13 +++++
 .../MeshIO/MeshReader/MeshReader.h            | 26 +++++++++
 .../MeshIO/MeshReader/VTKMeshReader.h         | 58 ++++++++++++++-----
 3 files changed, 83 insertions(+), 14 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
index 0a3d861..8472b2e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h
@@ -38,6 +38,7 @@ public:
     void loadVertices(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numVert;
         ist >> numVert;
+        Impl::checkMeshStream(ist, "the vertices");
 
         mesh.getVertices().resize(numVert);
 
@@ -48,6 +49,7 @@ public:
             ist >> vert[0];
             ist >> vert[1];
             ist >> vert[2];
+            Impl::checkMeshStream(ist, "the vertices");
         }
     }
 
@@ -59,6 +61,7 @@ public:
 
         IndexType numFace;
         ist >> numFace;
+        Impl::checkMeshStream(ist, "the faces");
 
         mesh.getFaces().resize(numFace);
 
@@ -67,10 +70,13 @@ public:
             mesh.getFaces().at(faceIndex).setIndex(faceIndex);
             IndexType numVert;
             ist >> numVert;
+            Impl::checkMeshStream(ist, "the faces");
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
+                Impl::checkMeshStream(ist, "the faces");
+                Impl::checkMeshIndex(vertices.at(j), mesh.getVertices().size(), "vertex");
             }
 
 
@@ -114,6 +120,7 @@ public:
     void loadCells(std::istream& ist,MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numCells;
         ist >> numCells;
+        Impl::checkMeshStream(ist, "the cells");
 
         mesh.getCells().resize(numCells);
         // read cells
@@ -123,12 +130,18 @@ public:
             // read cell faces
             IndexType numFaces;
             ist >> numFaces;
+            Impl::checkMeshStream(ist, "the cells");
+            if (static_cast<size_t>(numFaces) > mesh.getFaces().size()) {
+                throw std::runtime_error("the mesh does not have " + std::to_string(numFaces) + " faces of cell number " + std::to_string(cellIndex));
+            }
 
 
             IndexType prevFace = INVALID_INDEX(IndexType);
             for(IndexType j = 0; j < numFaces; j++){
                 IndexType faceIndex;
                 ist >> faceIndex;
+                Impl::checkMeshStream(ist, "the cells");
+                Impl::checkMeshIndex(faceIndex, mesh.getFaces().size(), "face");
 
                 if (j == 0){
                     mesh.getCells().at(cellIndex).setBoundaryElementIndex(faceIndex);
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
index 2597ebd..cdfe91e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/MeshReader.h
@@ -2,6 +2,32 @@
 #define MESHREADER_H
 #include "../MeshNativeType.h"
 #include "../../MeshDataContainer/MeshDataContainer.h"
+#include <istream>
+#include <stdexcept>
+#include <string>
+
+namespace Impl {
+/**
+ * @brief Throws an exception if the preceding reading from the stream failed,
+ * i.e., the file ended or contains something else than expected.
+ */
+inline void checkMeshStream(const std::istream& ist, const char* what) {
+    if (!ist) {
+        throw std::runtime_error(std::string("unable to read ") + what + " of the mesh, the file is damaged or incomplete");
+    }
+}
+
+/**
+ * @brief Throws an exception if the file refers to an element which the mesh does not have.
+ */
+template <typename IndexType>
+void checkMeshIndex(IndexType index, size_t numberOfElements, const char* what) {
+    if (static_cast<size_t>(index) >= numberOfElements) {
+        throw std::runtime_error(std::string("the file refers to ") + what + " number " + std::to_string(index) +
+                                 " but the mesh has only " + std::to_string(numberOfElements));
+    }
+}
+}
 
 /**
  * The base class of MeshReaders
diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index 8721d72..c7e125f 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -18,11 +18,13 @@ namespace Impl {
  */
 inline std::vector<int> peekVTKCellTypes(std::istream& ist) {
     const auto position = ist.tellg();
-    size_t numCells = 0, totalNumbers = 0, skipped = 0;
+    size_t numCells = 0, totalNumbers = 0, numVert = 0, skipped = 0;
     std::vector<int> types;
     std::string buf;
     ist >> numCells >> totalNumbers;
-    for (size_t i = 0; i < totalNumbers && (ist >> skipped); i++) {}
+    for (size_t i = 0; i < numCells && (ist >> numVert); i++) {
+        for (size_t j = 0; j < numVert && (ist >> skipped); j++) {}
+    }
     ist >> buf;
     if (ist && buf == "CELL_TYPES") {
         ist >> numCells;
@@ -101,6 +103,7 @@ public:
         IndexType numPoints;
         std::string dataType;
         ist >> numPoints >> dataType;
+        Impl::checkMeshStream(ist, "the vertices");
         Real dummy = 0;
         mesh.getVertices().resize(numPoints);
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
@@ -108,6 +111,7 @@ public:
             ist >> mesh.getVertices().at(vertIndex)[0];
             ist >> mesh.getVertices().at(vertIndex)[1];
             ist >> dummy;
+            Impl::checkMeshStream(ist, "the vertices");
         }
     }
 
@@ -120,15 +124,19 @@ public:
         IndexType numCells;
         size_t totalNumbers;
         ist >> numCells >> totalNumbers;
+        Impl::checkMeshStream(ist, "the cells");
         mesh.getCells().resize(numCells);
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
             IndexType numVert;
             ist >> numVert;
+            Impl::checkMeshStream(ist, "the cells");
 
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
+                Impl::checkMeshStream(ist, "the cells");
+                Impl::checkMeshIndex(vertices.at(j), mesh.getVertices().size(), "vertex");
             }
             if (static_cast<size_t>(cellIndex) < vtkTypes.size()) {
                 Impl::reorderVTKAxisAlignedCell(vtkTypes[cellIndex], vertices);
@@ -177,10 +185,15 @@ public:
     void loadCellTypes(std::istream& ist, MeshElements<2, IndexType, Real, Reserve...>& mesh){
         IndexType numCells;
         ist >> numCells;
+        Impl::checkMeshStream(ist, "the cell types");
+        if (static_cast<size_t>(numCells) != mesh.getCells().size()) {
+            throw std::runtime_error("the number of the cell types differs from the number of the cells");
+        }
         cellTypes.allocateData(mesh);
         for (IndexType i = 0; i < numCells; i++) {
             int vtkType = 0;
             ist >> vtkType;
+            Impl::checkMeshStream(ist, "the cell types");
             typename std::map<int, typename reader::elementType::ElementType>::iterator typeIt = TypeConversionTable.find(vtkType);
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
@@ -218,19 +231,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (!ist || buf != "POINTS") {
+            throw std::runtime_error("the keyword POINTS expected");
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (!ist || buf != "CELLS") {
+            throw std::runtime_error("the keyword CELLS expected");
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (!ist || buf != "CELL_TYPES") {
+            throw std::runtime_error("the keyword CELL_TYPES expected");
         }
+        loadCellTypes(ist, mesh);
 
         mesh.updateSignature();
     }
@@ -349,12 +365,14 @@ public:
         IndexType numPoints;
         std::string dataType;
         ist >> numPoints >> dataType;
+        Impl::checkMeshStream(ist, "the vertices");
         mesh.getVertices().resize(numPoints);
         for (IndexType vertIndex = 0; vertIndex < numPoints; vertIndex++) {
             mesh.getVertices().at(vertIndex).setIndex(vertIndex);
             ist >> mesh.getVertices().at(vertIndex)[0];
             ist >> mesh.getVertices().at(vertIndex)[1];
             ist >> mesh.getVertices().at(vertIndex)[2];
+            Impl::checkMeshStream(ist, "the vertices");
         }
     }
 
@@ -369,15 +387,19 @@ public:
         IndexType numCells;
         size_t totalNumbers;
         ist >> numCells >> totalNumbers;
+        Impl::checkMeshStream(ist, "the cells");
         mesh.getCells().resize(numCells);
         for (IndexType cellIndex = 0; cellIndex < numCells; cellIndex++) {
             mesh.getCells().at(cellIndex).setIndex(cellIndex);
             IndexType numVert;
             ist >> numVert;
+            Impl::checkMeshStream(ist, "the cells");
             // load vertices of the cell
             std::vector<IndexType> vertices(numVert);
             for(IndexType j = 0; j < numVert; j++){
                 ist >> vertices.at(j);
+                Impl::checkMeshStream(ist, "the cells");
+                Impl::checkMeshIndex(vertices.at(j), mesh.getVertices().size(), "vertex");
             }
             if (static_cast<size_t>(cellIndex) < vtkTypes.size()) {
                 Impl::reorderVTKAxisAlignedCell(vtkTypes[cellIndex], vertices);
@@ -461,10 +483,15 @@ public:
     void loadCellTypes(std::istream& ist, MeshElements<3, IndexType, Real, Reserve...>& mesh){
         IndexType numCells;
         ist >> numCells;
+        Impl::checkMeshStream(ist, "the cell types");
+        if (static_cast<size_t>(numCells) != mesh.getCells().size()) {
+            throw std::runtime_error("the number of the cell types differs from the number of the cells");
+        }
         cellTypes.allocateData(mesh);
         for (IndexType i = 0; i < numCells; i++) {
             int vtkType = 0;
             ist >> vtkType;
+            Impl::checkMeshStream(ist, "the cell types");
             typename std::map<int, typename reader::elementType::ElementType>::iterator typeIt = TypeConversionTable.find(vtkType);
             if (typeIt != TypeConversionTable.end()){
                 cellTypes.template getDataByPos<0>().at(i) = typeIt->second;
@@ -502,19 +529,22 @@ public:
         mesh.clear();
 
         ist >> buf;
-        if (buf == "POINTS") {
-            loadVertices(ist, mesh);
+        if (!ist || buf != "POINTS") {
+            throw std::runtime_error("the keyword POINTS expected");
         }
+        loadVertices(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELLS") {
-            loadCells(ist, mesh);
+        if (!ist || buf != "CELLS") {
+            throw std::runtime_error("the keyword CELLS expected");
         }
+        loadCells(ist, mesh);
 
         ist >> buf;
-        if (buf == "CELL_TYPES") {
-            loadCellTypes(ist, mesh);
+        if (!ist || buf != "CELL_TYPES") {
+            throw std::runtime_error("the keyword CELL_TYPES expected");
         }
+        loadCellTypes(ist, mesh);
 
         mesh.updateSignature();
     }
-- 
2.43.0


From 3456f5c0f8ceac361b0e92df19e7a8e833748a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 87/98] fix: report VTK data files that lack a column or values
 of it

---
 .../MeshDataIO/VTKMeshDataReader.h            | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index dd23282..0d3521c 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -8,12 +8,38 @@
 #include <istream>
 #include <map>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 
 template <unsigned int MeshDimension, typename IndexType>
 class VTKMeshDataReader {
 
     static_assert (MeshDimension == 2 || MeshDimension == 3, "The VTK file format can represent data only in 2D or 3D");
 
+    /**
+     * @brief Moves the stream to the values of the column of the given name.
+     */
+    static void seekColumn(std::istream& ist,
+                           const std::map<std::string, std::istream::pos_type>& dataPositions,
+                           const std::string& name)
+    {
+        auto position = dataPositions.find(name);
+        if (position == dataPositions.end()) {
+            throw std::runtime_error("the file does not contain the data " + name);
+        }
+        ist.seekg(position->second);
+    }
+
+    /**
+     * @brief Throws an exception if the preceding reading of the column failed.
+     */
+    static void checkColumn(const std::istream& ist, const char* name)
+    {
+        if (!ist) {
+            throw std::runtime_error(std::string("unable to read all values of the data ") + name);
+        }
+    }
+
     /**
      * @brief readColumn
      * reads a single column of traited data
@@ -28,7 +54,7 @@ class VTKMeshDataReader {
                    const Traits<T, TraitsArgs...>& traits)
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekColumn(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
@@ -36,6 +62,7 @@ class VTKMeshDataReader {
             for (unsigned int j = 0; j < traits.template getValue<Index>(data.at(i)).size(); j++){
                 ist >> value[j];
             }
+            checkColumn(ist, traits.template getName<Index>());
             traits.template setValue<Index>(data.at(i), value);
         }
 
@@ -53,7 +80,7 @@ class VTKMeshDataReader {
             >::type
     {
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekColumn(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
         // the zeros completing the data to 3D are real numbers even among integers
@@ -75,6 +102,7 @@ class VTKMeshDataReader {
                 ist >> dummy;
             }
 
+            checkColumn(ist, traits.template getName<Index>());
             traits.template setValue<Index>(data.at(i), value);
         }
 
@@ -92,12 +120,13 @@ class VTKMeshDataReader {
     {
 
 
-        ist.seekg(dataPositions[traits.template getName<Index>()]);
+        seekColumn(ist, dataPositions, traits.template getName<Index>());
 
         typename Traits<T, TraitsArgs...>::template type<Index> value;
 
         for (IndexType i = 0; i < data.size(); i++){
             ist >> value;
+            checkColumn(ist, traits.template getName<Index>());
             traits.template setValue<Index>(data.at(i), value);
         }
 
-- 
2.43.0


From 9baae10de8fcf637aba1e7f3ee2e9970aa689e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 88/98] fix: release the reader when loading of a mesh fails

---
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 85b2a71..cd339bd 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -251,16 +251,16 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         if (checkExtension(filePath, ".fpma")){
             DBGMSG("file recognized as FPMA");
-            auto reader = new FPMAMeshReader<MeshDimension>();
+            auto reader = std::make_unique<FPMAMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
@@ -286,9 +286,9 @@ public:
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
-            auto reader = new VTKMeshReader<MeshDimension>();
+            auto reader = std::make_unique<VTKMeshReader<MeshDimension>>();
             reader->loadFromStream(file, *this);
-            reader_ptr = retType(reader);
+            reader_ptr = std::move(reader);
         }
 
         file.close();
-- 
2.43.0


From 3d67571699c9b85d499c0ca994b765e714362079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 89/98] fix: include what the mesh headers use, so that they
 compile with UNDEBUG

---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h          | 1 +
 .../MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h          | 3 ++-
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h                | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 0d3521c..55ef87e 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -1,6 +1,7 @@
 #ifndef VTKMESHDATAREADER_H
 #define VTKMESHDATAREADER_H
 #include "../../../Traits/Traits.h"
+#include "../../../Traits/TraitsBind/TraitsBind.h"
 #include "../../../Utils/ConstexprFor.h"
 #include "../../../Traits/CustomTypeTraits.h"
 #include "../MeshDataContainer.h"
diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index 2458071..e5c9106 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -1,11 +1,12 @@
 #ifndef VTKMESHDATAWRITER_H
 #define VTKMESHDATAWRITER_H
 #include "../../../Traits/Traits.h"
+#include "../../../Traits/TraitsBind/TraitsBind.h"
 #include "../../../Traits/CustomTypeTraits.h"
 #include "../MeshDataContainer.h"
 #include "../../../Debug/Debug.h"
 #include "../../MeshIO/MeshWriter/VTKMeshWriter.h"
-#include <GTMesh/Debug/Printers/PrintTraitedClass.h>
+#include "../../../Debug/VariableExport.h"
 #include <GTMesh/Utils/ConstexprFor.h>
 
 #include <ostream>
diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index cd339bd..5a89ca0 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -2,6 +2,10 @@
 #define UNSTRUCTUREDMESH_H
 #include "MeshElements/MeshElements.h"
 #include "vector"
+#include <fstream>
+#include <memory>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 #include "MeshFunctions/MeshFunctions.h"
 #include "MeshIO/MeshReader/FPMAMeshReader.h"
-- 
2.43.0


From 1b88e83660be0e28b2b12121c319bb7caa4d5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:04 +0000
Subject: [PATCH 90/98] fix: serialize nested classes with the traits bound for
 them

bindTraits(object, traits...) applied the traits only to the outermost class
and elements of indexable containers: attributes, pairs and tuples fell back
to the default traits, lists and maps did not compile.
---
 .../Serializers/SerializeCompactContainer.h   | 47 ++++++++++++++++
 .../Serializers/SerializeIterable.h           | 54 +++++++++++++++++++
 .../Serializers/SerializeSimple.h             | 14 +++++
 .../Serializers/SerializeTraitedClass.h       |  4 +-
 .../Serializers/SerializeTuple.h              | 40 +++++++-------
 5 files changed, 137 insertions(+), 22 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
index c82d814..5c05eb8 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeCompactContainer.h
@@ -3,6 +3,7 @@
 #include <GTMesh/Traits/CustomTypeTraits.h>
 #include "../BinarySerializer.h"
 #include "SerializeSimple.h"
+#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
 #include <GTMesh/Debug/Debug.h>
 #include <cstring> // memcpy
 #include <GTMesh/Traits/Interfaces/InterfaceCompactContainer.h>
@@ -89,6 +90,29 @@
  * The condition is that the contained type must be also simple binary serializable.
  */
 struct SerializeCompactContainer {
+    /**
+     * @brief The elements described by traits are to be serialized attribute by attribute
+     * if any traits are bound.
+     */
+    template<typename T, typename TraitsTuple, typename = void>
+    struct HasTraitedElements : public std::false_type
+    {};
+
+    template<typename T, typename... TupleTraits>
+    struct HasTraitedElements<T,
+                              std::tuple<TupleTraits...>,
+                              std::enable_if_t<SelectTraitsWithArithmeticDefault<T, TupleTraits...>::valid>>
+        : public std::true_type
+    {};
+
+    template<typename T, typename... TupleTraits>
+    struct HasTraitedElements<T,
+                              std::tuple<TupleTraits...>,
+                              std::enable_if_t<!SelectTraitsWithArithmeticDefault<T, TupleTraits...>::valid
+                                               && Interface::CompactContainer<T>::value>>
+        : public HasTraitedElements<typename Interface::CompactContainer<T>::value_type, std::tuple<TupleTraits...>>
+    {};
+
     template<typename T,
              typename...,
              std::enable_if_t<Interface::CompactContainer<T>::value,
@@ -124,5 +148,28 @@ struct SerializeCompactContainer {
                size * sizeof(typename Interface::CompactContainer<T>::value_type));
         dataIterator += size * sizeof (typename Interface::CompactContainer<T>::value_type);
     }
+
+    /**
+     * @brief The bound traits do not concern containers of elements without traits.
+     */
+    template<typename T,
+             typename... TupleTraits,
+             std::enable_if_t<Interface::CompactContainer<T>::value
+                                  && !HasTraitedElements<T, std::tuple<TupleTraits...>>::value,
+                              bool> = true>
+    static void serialize(std::vector<unsigned char> &dataContainer, const T &data, const std::tuple<TupleTraits...>&)
+    {
+        serialize(dataContainer, data);
+    }
+
+    template<typename T,
+             typename... TupleTraits,
+             std::enable_if_t<Interface::CompactContainer<T>::value
+                                  && !HasTraitedElements<T, std::tuple<TupleTraits...>>::value,
+                              bool> = true>
+    static void deserialize(std::vector<unsigned char>::const_iterator &dataIterator, T &data, const std::tuple<TupleTraits...>&)
+    {
+        deserialize(dataIterator, data);
+    }
 };
 #endif // SERIALIZECOMPACTCONTAINER_H
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
index a1a0806..cef4f2f 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeIterable.h
@@ -12,6 +12,14 @@ struct SerializeIterable {
         }
     }
 
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static void serialize(std::vector<unsigned char>& dataContainer, const T& data,
+                          const std::tuple<TupleTraits...>& traits){
+        BinarySerializer::addNext(dataContainer, data.size());
+        for (const auto& val : data) {
+            BinarySerializer::addNext(dataContainer, val, traits);
+        }
+    }
 
 
     template <typename T, typename ..., std::enable_if_t<IsIterable<T>::value, bool> = true>
@@ -29,6 +37,22 @@ struct SerializeIterable {
         }
     }
 
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static Impl::void_t<decltype(std::declval<T&>().resize(0))>
+        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
+                    const std::tuple<TupleTraits...>& traits){
+
+        decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+
+        if (data.size() != size) {
+            data.resize(size);
+        }
+
+        for (auto & val : data) {
+            BinarySerializer::readNext(dataIterator, val, traits);
+        }
+    }
+
 };
 
 struct DeserializeAsociativeMap {
@@ -45,6 +69,21 @@ struct DeserializeAsociativeMap {
             data.insert(val);
         }
     }
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static Impl::void_t<typename T::key_type,typename T::mapped_type>
+        deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
+                    const std::tuple<TupleTraits...>& traits){
+
+        decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+
+        data.clear();
+        for (decltype(data.size()) i = 0; i < size; i ++) {
+            std::pair<typename T::key_type,typename T::mapped_type> val;
+            BinarySerializer::readNext(dataIterator, val, traits);
+            data.insert(val);
+        }
+    }
 };
 
 struct DeserializeAsociativeSet {
@@ -61,6 +100,21 @@ struct DeserializeAsociativeSet {
             data.insert(val);
         }
     }
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<IsIterable<T>::value, bool> = true>
+    static Impl::void_t<typename T::key_type>
+    deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data,
+                const std::tuple<TupleTraits...>& traits){
+
+        decltype(data.size()) size = BinarySerializer::readNext<decltype(data.size())>(dataIterator);
+
+        data.clear();
+        for (decltype(data.size()) i = 0; i < size; i ++) {
+            typename T::key_type val;
+            BinarySerializer::readNext(dataIterator, val, traits);
+            data.insert(val);
+        }
+    }
 };
 
 #endif // SERIALIZEITERABLE_H
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
index cba22af..82261d5 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeSimple.h
@@ -2,6 +2,7 @@
 #define SERIALIZESIMPLE_H
 #include <type_traits>
 #include <vector>
+#include <tuple>
 #include <stdexcept>
 
 namespace Impl {
@@ -41,6 +42,19 @@ struct SerializeSimple {
         }
     }
 
+    /**
+     * @brief The bound traits do not concern simple types.
+     */
+    template <typename T, typename ... TupleTraits, std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
+    static void serialize(std::vector<unsigned char>& dataContainer, const T& data, const std::tuple<TupleTraits...>&){
+        serialize(dataContainer, data);
+    }
+
+    template <typename T, typename ... TupleTraits, std::enable_if_t<Impl::IsSimpleSerializable_v<T>, bool> = true>
+    static void deserialize(std::vector<unsigned char>::const_iterator& dataIterator, T& data, const std::tuple<TupleTraits...>&){
+        deserialize(dataIterator, data);
+    }
+
 };
 
 #endif // SERIALIZESIMPLE_H
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
index c7b1bc9..0a8f696 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTraitedClass.h
@@ -25,7 +25,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::addNext(container, traits.template getValue<Index>(var));
+            BinarySerializer::addNext(container, traits.template getValue<Index>(var), tupleTraits);
         }
     };
 
@@ -45,7 +45,7 @@ protected:
                          const TraitsType &traits,
                          const std::tuple<TupleTraits...>& tupleTraits)
         {
-            BinarySerializer::readNext(it, traits.template getAttr<Index>(var));
+            BinarySerializer::readNext(it, traits.template getAttr<Index>(var), tupleTraits);
         }
     };
 
diff --git a/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h b/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
index 1b44c63..4e28f38 100644
--- a/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
+++ b/src/GTMesh/BinarySerializer/Serializers/SerializeTuple.h
@@ -9,45 +9,45 @@ struct SerializeTuple {
     /**
      * @brief Python-like print of dictionary pair of key and value.
      */
-    template<typename T1, typename T2>
-    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data, ...)
+    template<typename T1, typename T2, typename ... Traits>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::pair<T1,T2>& data, const Traits& ... traits)
     {
-        BinarySerializer::addNext(dataContainer, data.first);
-        BinarySerializer::addNext(dataContainer, data.second);
+        BinarySerializer::addNext(dataContainer, data.first, traits...);
+        BinarySerializer::addNext(dataContainer, data.second, traits...);
     }
 
-    template<typename T1, typename T2>
-    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data, ...)
+    template<typename T1, typename T2, typename ... Traits>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::pair<T1,T2>& data, const Traits& ... traits)
     {
-        BinarySerializer::readNext(dataIterator, data.first);
-        BinarySerializer::readNext(dataIterator, data.second);
+        BinarySerializer::readNext(dataIterator, data.first, traits...);
+        BinarySerializer::readNext(dataIterator, data.second, traits...);
     }
 
 
     struct SerializeTupleHelper{
-        template <unsigned int Index, typename ... TupleTypes>
-        static void exec(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data) {
-            BinarySerializer::addNext(dataContainer, std::get<Index>(data));
+        template <unsigned int Index, typename ... TupleTypes, typename ... Traits>
+        static void exec(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data, const Traits& ... traits) {
+            BinarySerializer::addNext(dataContainer, std::get<Index>(data), traits...);
         }
     };
 
-    template<typename ... TupleTypes>
-    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data, ...)
+    template<typename ... TupleTypes, typename ... Traits>
+    static void serialize(BinarySerializer::ByteContainer& dataContainer, const std::tuple<TupleTypes...>& data, const Traits& ... traits)
     {
-        constexprFor<SerializeTupleHelper, sizeof... (TupleTypes)>(dataContainer, data);
+        constexprFor<SerializeTupleHelper, sizeof... (TupleTypes)>(dataContainer, data, traits...);
     }
 
     struct DeserializeTupleHelper{
-        template <unsigned int Index, typename ... TupleTypes>
-        static void exec(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data) {
-            BinarySerializer::readNext(dataIterator, std::get<Index>(data));
+        template <unsigned int Index, typename ... TupleTypes, typename ... Traits>
+        static void exec(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data, const Traits& ... traits) {
+            BinarySerializer::readNext(dataIterator, std::get<Index>(data), traits...);
         }
     };
 
-    template<typename ... TupleTypes>
-    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data, ...)
+    template<typename ... TupleTypes, typename ... Traits>
+    static void deserialize(BinarySerializer::ByteContainerIterator& dataIterator, std::tuple<TupleTypes...>& data, const Traits& ... traits)
     {
-        constexprFor<DeserializeTupleHelper, sizeof... (TupleTypes)>(dataIterator, data);
+        constexprFor<DeserializeTupleHelper, sizeof... (TupleTypes)>(dataIterator, data, traits...);
     }
 };
 #endif // SERIALIZETUPLE_H
-- 
2.43.0


From d45cf952a6a914f3118b541cc6d3ecfcf4412af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:14 +0000
Subject: [PATCH 91/98] fix: the bounded list of subelements iterated
 backwards, compared and swapped the unused slots

---
 .../MeshElements/MeshElement.h                | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
index de1c791..e9ca917 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElement.h
@@ -6,8 +6,10 @@
 #include "ComputationalySignificantElement.h"
 #include "type_traits"
 #include "tuple"
+#include <algorithm>
 #include <array>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 /**
@@ -120,6 +122,43 @@ public:
     typename std::array<IndexType, Reserve>::const_iterator cend() const {
         return this->cbegin() + getNumberOfSubElements();
     }
+
+    typename std::array<IndexType, Reserve>::reverse_iterator rbegin() {
+        return typename std::array<IndexType, Reserve>::reverse_iterator(end());
+    }
+
+    typename std::array<IndexType, Reserve>::const_reverse_iterator rbegin() const {
+        return typename std::array<IndexType, Reserve>::const_reverse_iterator(end());
+    }
+
+    typename std::array<IndexType, Reserve>::const_reverse_iterator crbegin() const {
+        return rbegin();
+    }
+
+    IndexType& back() {
+        return *rbegin();
+    }
+
+    const IndexType& back() const {
+        return *rbegin();
+    }
+
+    bool empty() const {
+        return numberOfElements == 0;
+    }
+
+    void swap(SubelementContainer& other) {
+        std::swap(*this, other);
+    }
+
+    bool operator==(const SubelementContainer& other) const {
+        return numberOfElements == other.numberOfElements &&
+               std::equal(this->begin(), end(), other.begin());
+    }
+
+    bool operator!=(const SubelementContainer& other) const {
+        return !(*this == other);
+    }
 };
 
 
-- 
2.43.0


From 339c37936d1691936a594b709f994b6c75e4d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:01 +0000
Subject: [PATCH 92/98] fix: mesh signature depended on the padding and the
 unused subelements of the elements

---
 .../MeshElements/MeshElements.h               | 135 +++++++-----------
 1 file changed, 54 insertions(+), 81 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
index d617908..56246f3 100644
--- a/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
+++ b/src/GTMesh/UnstructuredMesh/MeshElements/MeshElements.h
@@ -3,6 +3,10 @@
 
 #include "MeshElement.h"
 #include "ElementIndex.hpp"
+#include <array>
+#include <functional>
+#include <string>
+#include <vector>
 
 template <unsigned int Dimension, typename IndexType, typename Real, unsigned int ...Reserve>
 struct MeshElements{
@@ -199,34 +203,37 @@ public:
 private:
 
     /**
-     * @brief Combines the hash of a sequence of values with the following value.
-     * The result depends on the order of the values.
+     * @brief Appends the bytes of a value to the hashed data. The values are
+     * appended one by one because the padding and the unused subelements
+     * of the elements are not a part of the mesh.
      */
-    static size_t combineHash(size_t seed, size_t value) {
-        return seed ^ (value + 0x9e3779b9 + (seed << 6) + (seed >> 2));
+    template<typename Value>
+    static void appendBytes(std::string& bytes, const Value& value) {
+        bytes.append(reinterpret_cast<const char*>(&value), sizeof (Value));
+    }
+
+    static void appendVertex(std::string& bytes, const ::Vertex<Dimension, Real>& vertex) {
+        for (unsigned int i = 0; i < Dimension; i++) {
+            appendBytes(bytes, vertex[i]);
+        }
     }
 
     /**
-     * @brief An element which is not a face is described by its subelements only.
+     * @brief An element which is not a face has neither center nor connection to cells.
      */
     template<typename Element>
-    static size_t hashElementData(size_t seed, const Element&) {
-        return seed;
-    }
+    static void appendElementData(std::string&, const Element&) {}
 
     /**
      * @brief A face carries the connection to the cells and the center.
      */
-    static size_t hashElementData(size_t seed, const Face& face) {
-        std::hash<IndexType> indexHasher;
-        seed = combineHash(seed, indexHasher(face.getCellLeftIndex()));
-        seed = combineHash(seed, indexHasher(face.getCellRightIndex()));
-        seed = combineHash(seed, indexHasher(face.getNextBElemWRTCL()));
-        seed = combineHash(seed, indexHasher(face.getNextBElemWRTCR()));
-        for (unsigned int i = 0; i < Dimension; i++) {
-            seed = combineHash(seed, std::hash<Real>()(face.getCenter()[i]));
-        }
-        return seed;
+    static void appendElementData(std::string& bytes, const Face& face) {
+        appendBytes(bytes, face.getCellLeftIndex());
+        appendBytes(bytes, face.getCellRightIndex());
+        appendBytes(bytes, face.getNextBElemWRTCL());
+        appendBytes(bytes, face.getNextBElemWRTCR());
+        appendVertex(bytes, face.getCenter());
+        appendBytes(bytes, face.getFlag());
     }
 
     template<unsigned int Dim = Dimension, typename Void = void>
@@ -235,42 +242,24 @@ private:
 
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
         {
-            std::hash<IndexType> indexHasher;
-
             // Hash of generic element eg. face
-            size_t elemHash = mesh.getElements<Dim>().size();
+            std::hash<std::string> hasher;
+            std::string bytes;
             for(const auto& element : mesh.getElements<Dim>()) {
-                elemHash = combineHash(elemHash, element.getSubelements().size());
+                appendBytes(bytes, element.getIndex());
+                appendBytes(bytes, element.getSubelements().size());
                 for (const auto& subElement : element.getSubelements()) {
-                    elemHash = combineHash(elemHash, indexHasher(subElement));
+                    appendBytes(bytes, subElement);
                 }
-                elemHash = hashElementData(elemHash, element);
+                appendElementData(bytes, element);
             }
+            size_t elemHash = hasher(bytes);
             return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
         }
 
 
     };
 
-    template<unsigned int Dim>
-    struct HashOfMeshElements <Dim, typename std::enable_if<(MeshElements<Dimension, IndexType, Real, Reserve...>::template reserve<Dim>() > 0), size_t>::type>{
-        static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh)
-        {
-#if __cplusplus <= 201702L // standard c++14 and older
-            std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.template getElements<Dim>().data()), mesh.template getElements<Dim>().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::ElementType<Dim>));
-            size_t elemHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.template getElements<Dim>().data()), mesh.template getElements<Dim>().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::ElementType<Dim>));
-            size_t elemHash = hasher(vectorView);
-#endif
-            return elemHash ^ HashOfMeshElements<Dim - 1>::hash(mesh);
-        }
-    };
-
 
     /**
      * @brief The hashOfMeshElements<Dimension, Dummy> struct hashes the cell information.
@@ -280,19 +269,15 @@ private:
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
 
             // Hash of cells
-#if __cplusplus <= 201702L // standard c++14 and older
             std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getCells().data()), mesh.getCells().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Cell));
-
-            size_t cHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.getCells().data()), mesh.getCells().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Cell));
-
-            size_t cHash = hasher(vectorView);
-#endif
+            std::string bytes;
+            for(const auto& cell : mesh.getCells()) {
+                appendBytes(bytes, cell.getIndex());
+                appendBytes(bytes, cell.getBoundaryElementIndex());
+                appendVertex(bytes, cell.getCenter());
+                appendBytes(bytes, cell.getFlag());
+            }
+            size_t cHash = hasher(bytes);
 
             return cHash ^ HashOfMeshElements<Dimension -1>::hash(mesh);
         }
@@ -303,19 +288,15 @@ private:
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
 
             // Hash of edges
-#if __cplusplus <= 201702L // standard c++14 and older
             std::hash<std::string> hasher;
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getEdges().data()), mesh.getEdges().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Edge));
-
-            size_t eHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-            // Use string as a byte container representing the array
-            std::string_view vectorView(reinterpret_cast<char*>(mesh.getEdges().data()), mesh.getEdges().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Edge));
-
-            size_t eHash = hasher(vectorView);
-#endif
+            std::string bytes;
+            for(const auto& edge : mesh.getEdges()) {
+                appendBytes(bytes, edge.getIndex());
+                appendBytes(bytes, edge.getVertexAIndex());
+                appendBytes(bytes, edge.getVertexBIndex());
+                appendElementData(bytes, edge);
+            }
+            size_t eHash = hasher(bytes);
             return eHash ^ HashOfMeshElements<0>::hash(mesh);
         }
     };
@@ -326,21 +307,13 @@ private:
         static size_t hash(MeshElements<Dimension, IndexType, Real, Reserve...>& mesh){
 
             // Hash of vertices
-#if __cplusplus <= 201702L // standard c++14 and older
             std::hash<std::string> hasher;
-
-            // Use string as a byte container representing the array
-            std::string tmpString(reinterpret_cast<char*>(mesh.getVertices().data()), mesh.getVertices().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Vertex));
-
-            size_t vHash = hasher(tmpString);
-#else // standard c++17 and later
-            std::hash<std::string_view> hasher;
-
-            // Use string as a byte container representing the array
-            std::string_view tmpString(reinterpret_cast<char*>(mesh.getVertices().data()), mesh.getVertices().size() * sizeof (MeshElements<Dimension, IndexType, Real, Reserve...>::Vertex));
-
-            size_t vHash = hasher(tmpString);
-#endif
+            std::string bytes;
+            for(const auto& vertex : mesh.getVertices()) {
+                appendBytes(bytes, vertex.getIndex());
+                appendVertex(bytes, vertex);
+            }
+            size_t vHash = hasher(bytes);
             return vHash;
         }
     };
-- 
2.43.0


From 1e7694483cc6ae59e47cc92c8cbfd9a6011ce7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:25 +0000
Subject: [PATCH 93/98] fix: export vector data of meshes without cells

---
 .../MeshDataIO/VTKMeshDataWriter.h               | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
index e5c9106..88d47e8 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h
@@ -41,6 +41,14 @@ class VTKMeshDataWriter {
 
 
 
+    // The size of an indexable attribute, also if there are no data
+    template<unsigned int Index, typename T, typename ... TraitsArgs>
+    static size_t attributeSize(const DataContainer<T, MeshDimension> &data,
+                                const Traits<T, TraitsArgs...>& traits)
+    {
+        return data.empty() ? traits.template getValue<Index>(T()).size() : traits.template getValue<Index>(data.at(0)).size();
+    }
+
     template<typename T, unsigned int Index, typename IndexType, typename Real, typename ... TraitsArgs>
     static
         typename std::enable_if<
@@ -53,9 +61,9 @@ class VTKMeshDataWriter {
                     const Traits<T, TraitsArgs...>& traits = DefaultIOTraits<T>::getTraits() )
     {
 
-        if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
+        if (attributeSize<Index>(data, traits) == MeshDimension)
             ost << "VECTORS ";
-        else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
+        else if (attributeSize<Index>(data, traits) == MeshDimension * MeshDimension)
             ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
@@ -147,9 +155,9 @@ class VTKMeshDataWriter {
                     const Traits<T, TraitsArgs...>& traits = DefaultIOTraits<T>::getTraits())
     {
 
-        if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension)
+        if (attributeSize<Index>(data, traits) == MeshDimension)
             ost << "VECTORS ";
-        else if (traits.template getValue<Index>(data.at(0)).size() == MeshDimension * MeshDimension)
+        else if (attributeSize<Index>(data, traits) == MeshDimension * MeshDimension)
             ost << "TENSORS ";
 
         ost << traits.template getName<Index>() << " double\n";
-- 
2.43.0


From ef9f770a962694b66894c469d165d920d1704594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:57 +0000
Subject: [PATCH 94/98] fix: report files that can not be read whole when
 loading the serializer

loadFromFile ignored failures of reading (errors of the device, files that
shrink while being read): the serializer then held the right number of bytes
with zeros in the place of the missing ones.
---
 src/GTMesh/BinarySerializer/BinarySerializer.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/GTMesh/BinarySerializer/BinarySerializer.h b/src/GTMesh/BinarySerializer/BinarySerializer.h
index f127ed5..c5c4e12 100644
--- a/src/GTMesh/BinarySerializer/BinarySerializer.h
+++ b/src/GTMesh/BinarySerializer/BinarySerializer.h
@@ -131,9 +131,16 @@ public:
             file.seekg(0, std::ios::end);
             auto file_size = file.tellg();
             file.seekg(0, std::ios::beg);
-            mData.resize(file_size);
+            ByteContainer data;
+            if (file) {
+                data.resize(file_size);
+                file.read(reinterpret_cast<std::ios::char_type*>(data.data()), file_size);
+            }
+            if (!file) {
+                throw std::runtime_error("unable to read the data from file " + fileName);
+            }
+            mData.swap(data);
             resetIterator();
-            file.read(reinterpret_cast<std::ios::char_type*>(mData.data()), file_size);
             file.close();
         } else {
             throw std::runtime_error("unable to open file " + fileName);
-- 
2.43.0


From 052208923de5309b669a122c97163447deae5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:22 +0000
Subject: [PATCH 95/98] fix: report a failure of the stream met while looking
 ahead for the types of VTK cells

The look-ahead clears the state of the stream: if the failure did not return
when the cells were read, axis-aligned cells got the wrong edges silently.
---
 src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
index c7e125f..0e5d266 100644
--- a/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h
@@ -33,6 +33,9 @@ inline std::vector<int> peekVTKCellTypes(std::istream& ist) {
             types.push_back(type);
         }
     }
+    if (ist.bad()) {
+        throw std::runtime_error("unable to read the types of the cells");
+    }
     ist.clear();
     ist.seekg(position);
     return types;
-- 
2.43.0


From 12b6f9b1fdabfcd840f6224cf71ee915faafc88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:09 +0000
Subject: [PATCH 96/98] fix: the global locale of the program changed the mesh
 files, the JSON and the HTML logs

With a locale that groups digits or has a decimal comma the meshes written
could not be read again and the logs were not valid.
---
 src/GTMesh/Debug/HTMLLogger.h                  | 2 ++
 src/GTMesh/Debug/JSONLogger.h                  | 2 ++
 src/GTMesh/UnstructuredMesh/UnstructuredMesh.h | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 1740e23..661c0d1 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -3,6 +3,7 @@
 #include "VariableExport.h"
 #include <iostream>
 #include <fstream>
+#include <locale>
 #include <string>
 
 /**
@@ -62,6 +63,7 @@ public:
     void create(const char* fileName){
         destroy();
         logFile = new std::ofstream(fileName);
+        logFile->imbue(std::locale::classic());
         PrintText::escapeScriptText(*logFile);
 
 
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 020f4b3..07e4a00 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -2,6 +2,7 @@
 #define JSONLOGGER_H
 #include <string>
 #include <fstream>
+#include <locale>
 #include "VariableExport.h"
 #include <iostream>
 #include <iomanip>
@@ -44,6 +45,7 @@ public:
         destroy();
         firstWrite = true;
         logFile = new std::ofstream(fileName);
+        logFile->imbue(std::locale::classic());
         PrintText::escapeText(*logFile);
         (*logFile) << "{\n\"logs\":[\n";
     }
diff --git a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
index 5a89ca0..a3e5451 100644
--- a/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
+++ b/src/GTMesh/UnstructuredMesh/UnstructuredMesh.h
@@ -3,6 +3,7 @@
 #include "MeshElements/MeshElements.h"
 #include "vector"
 #include <fstream>
+#include <locale>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -252,6 +253,7 @@ public:
         if (!file.is_open()) {
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
+        file.imbue(std::locale::classic());
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
@@ -287,6 +289,7 @@ public:
         if (!file.is_open()) {
             throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
         }
+        file.imbue(std::locale::classic());
 
         if (checkExtension(filePath, ".vtk")){
             DBGMSG("file recognized as VTK");
@@ -419,6 +422,7 @@ public:
             if (!file.is_open()) {
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
+            file.imbue(std::locale::classic());
 
             if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (!checkExtension(filePath, ".vtk")){
@@ -505,6 +509,7 @@ public:
             if (!file.is_open()) {
                 throw std::runtime_error("was not able to open file: \"" + filePath + "\"");
             }
+            file.imbue(std::locale::classic());
 
             if (typeid (*writer.get()) == typeid (VTKMeshWriter<MeshDimension, IndexType, Real>)){
                 if (checkExtension(filePath, ".vtk")){
-- 
2.43.0


From 8da0a17aaecbd2dacf29a66565f337f4492ece0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:40 +0000
Subject: [PATCH 97/98] fix: the VTK data reader took the data of points for
 those of the cells

Columns of the POINT_DATA section with the name of an attribute were read
instead of the columns of the CELL_DATA section.
---
 .../MeshDataContainer/MeshDataIO/VTKMeshDataReader.h     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
index 55ef87e..13b5f33 100644
--- a/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
+++ b/src/GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h
@@ -161,6 +161,7 @@ public:
         */
 
         std::string line;
+        bool isCellData = true;
         ist.seekg(ist.beg);
         while(std::getline(ist, line, '\n')) {
 
@@ -174,6 +175,14 @@ public:
             std::stringstream sstream(line);
             sstream >> keyWord >> dataName;
 
+            // the columns of the points are not the data of the cells
+            if (keyWord == "POINT_DATA" || keyWord == "CELL_DATA") {
+                isCellData = keyWord == "CELL_DATA";
+            }
+            if (!isCellData) {
+                continue;
+            }
+
             int flag = (keyWord == "SCALARS" ? 1
                                              : keyWord == "VECTORS" ? 2
                                              : keyWord == "TENSORS" ? 2
-- 
2.43.0


From 59538b48cd4b031505d4eff5de53c6f521fee9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:55 +0000
Subject: [PATCH 98/98] fix: a copied or moved JSON or HTML logger closed and
 released its log twice

The loggers can be moved and can not be copied.
---
 src/GTMesh/Debug/HTMLLogger.h | 22 ++++++++++++++++++++++
 src/GTMesh/Debug/JSONLogger.h | 23 +++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/src/GTMesh/Debug/HTMLLogger.h b/src/GTMesh/Debug/HTMLLogger.h
index 661c0d1..5d61164 100644
--- a/src/GTMesh/Debug/HTMLLogger.h
+++ b/src/GTMesh/Debug/HTMLLogger.h
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <locale>
 #include <string>
+#include <utility>
 
 /**
  * @brief The HtmlLogger class
@@ -51,6 +52,27 @@ public:
         logFileName = fileName;
     }
 
+    /**
+     * @brief Takes over the log of the other logger. The log can not be
+     * copied as it would be finished twice.
+     */
+    HtmlLogger(HtmlLogger&& other)
+        : HtmlLogger(){
+        *this = std::move(other);
+    }
+
+    HtmlLogger& operator=(HtmlLogger&& other){
+        if (this == &other) {
+            return *this;
+        }
+        destroy();
+        logFileName = std::move(other.logFileName);
+        logFile = other.logFile;
+        groupIndex = other.groupIndex;
+        other.logFile = nullptr;
+        return *this;
+    }
+
     ~HtmlLogger(){
         destroy();
     }
diff --git a/src/GTMesh/Debug/JSONLogger.h b/src/GTMesh/Debug/JSONLogger.h
index 07e4a00..5874312 100644
--- a/src/GTMesh/Debug/JSONLogger.h
+++ b/src/GTMesh/Debug/JSONLogger.h
@@ -1,6 +1,7 @@
 #ifndef JSONLOGGER_H
 #define JSONLOGGER_H
 #include <string>
+#include <utility>
 #include <fstream>
 #include <locale>
 #include "VariableExport.h"
@@ -32,6 +33,28 @@ public:
         logFileName = fileName;
     }
 
+    /**
+     * @brief Takes over the log of the other logger. The log can not be
+     * copied as it would be finished twice.
+     */
+    JSONLogger(JSONLogger&& other)
+        : JSONLogger(){
+        *this = std::move(other);
+    }
+
+    JSONLogger& operator=(JSONLogger&& other){
+        if (this == &other) {
+            return *this;
+        }
+        destroy();
+        logFileName = std::move(other.logFileName);
+        logFile = other.logFile;
+        groupIndex = other.groupIndex;
+        firstWrite = other.firstWrite;
+        other.logFile = nullptr;
+        return *this;
+    }
+
     ~JSONLogger(){
         destroy();
     }
-- 
2.43.0

