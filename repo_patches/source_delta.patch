From e6f7cbea16a7b71a2fb373e649a72932df498ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 01/27] fix: update element and spin when an atom of a legacy
 pair state is replaced

---
 pairinteraction/StateOld.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction/StateOld.cpp b/pairinteraction/StateOld.cpp
index b9001cc..823a5ef 100644
--- a/pairinteraction/StateOld.cpp
+++ b/pairinteraction/StateOld.cpp
@@ -182,6 +182,7 @@ void StateTwoOld::setFirstState(StateOneOld const &s) {
     l[0] = s.l;
     j[0] = s.j;
     m[0] = s.m;
+    this->analyzeSpecies();
 }
 
 StateOneOld StateTwoOld::getSecondState() const {
@@ -193,6 +194,7 @@ void StateTwoOld::setSecondState(StateOneOld const &s) {
     l[1] = s.l;
     j[1] = s.j;
     m[1] = s.m;
+    this->analyzeSpecies();
 }
 
 StateOneOld StateTwoOld::first() const { return StateOneOld(species[0], n[0], l[0], j[0], m[0]); }
-- 
2.43.0


From 8203d518ae8f5479215469314572d5ec6040a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 02/27] fix: keep the species when a legacy pair state is built
 with an index

---
 pairinteraction/StateOld.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/StateOld.cpp b/pairinteraction/StateOld.cpp
index 823a5ef..c2ac8a3 100644
--- a/pairinteraction/StateOld.cpp
+++ b/pairinteraction/StateOld.cpp
@@ -169,7 +169,8 @@ StateTwoOld::StateTwoOld(std::array<int, 2> n, std::array<int, 2> l, std::array<
 }
 
 StateTwoOld::StateTwoOld(idx_t idx, const StateOneOld &a, const StateOneOld &b)
-    : StateOld(idx), n({{a.n, b.n}}), l({{a.l, b.l}}), j({{a.j, b.j}}), m({{a.m, b.m}}) {
+    : StateOld(idx), species({{a.species, b.species}}), n({{a.n, b.n}}), l({{a.l, b.l}}),
+      j({{a.j, b.j}}), m({{a.m, b.m}}) {
     this->analyzeSpecies();
 }
 
-- 
2.43.0


From 35edcb5a30127a96847a1e306138e33ddd40e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 03/27] fix: a negative deltaMSingle lifts the restriction for
 negative m, too

---
 pairinteraction/Basisnames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..61fe493 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -143,7 +143,7 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = std::fmax(startstate.m[0], startstate.m[1]) +
+        delta_m = std::fmax(std::fabs(startstate.m[0]), std::fabs(startstate.m[1])) +
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
 
@@ -208,7 +208,7 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
         delta_j = startstate.j + startstate.n + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = startstate.m + startstate.n + delta_n - 0.5;
+        delta_m = std::fabs(startstate.m) + startstate.n + delta_n - 0.5;
     }
 
     // loop over quantum numbers
-- 
2.43.0


From b67424fabf615844044e25cc948e03fdb8043b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 04/27] fix: number the states of a one-atom basis by their
 position after ordering

---
 pairinteraction/Basisnames.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index 61fe493..bcfd5ce 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -184,6 +184,11 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
     std::set<StateOneOld> names_ordered(names_set.begin(), names_set.end());
     names_ = std::vector<StateOneOld>(names_ordered.begin(), names_ordered.end());
 
+    // the index of a state is its position in the ordered list
+    for (size_t i = 0; i < names_.size(); ++i) {
+        names_[i].idx = i;
+    }
+
     dim_ = idx;
 }
 void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
@@ -257,6 +262,11 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species,
     std::set<StateOneOld> names_ordered(names_set.begin(), names_set.end());
     names_ = std::vector<StateOneOld>(names_ordered.begin(), names_ordered.end());
 
+    // the index of a state is its position in the ordered list
+    for (size_t i = 0; i < names_.size(); ++i) {
+        names_[i].idx = i;
+    }
+
     dim_ = idx;
 }
 const std::vector<StateOneOld> &BasisnamesOne::initial() const { return states_initial; }
-- 
2.43.0


From 180fcc225a1f633671fb471e41721b35a2bff0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 05/27] fix: save configuration keys that are empty or contain
 dots to JSON

---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..b37dd1b 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // do not use put, it would interpret dots in the key as path separators
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From 1196a85df7076f0bb8ec9572943901bfbec4ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 06/27] fix: iterate over exactly the rows an SQLite statement
 returns

---
 pairinteraction/SQLite.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..21d5164 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!m_stmt->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,10 +274,8 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
+            if (!m_end) {
+                m_end = !m_stmt->step();
             }
             return *this;
         }
-- 
2.43.0


From 4ba94dbb7c463d2de9d60797af2d8a0f421fecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 07/27] fix: restore the end of the last column when a matrix
 is deserialised

---
 pairinteraction/Hamiltonianmatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..0fb9d55 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -462,7 +462,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
     std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
     std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
@@ -473,7 +473,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
     std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
     std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
 }
 
 template <typename Scalar>
-- 
2.43.0


From eed9fca2bd83e2ccc47826135fe3278400a51e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 08/27] fix: drop the serialised form when a matrix is built
 from triplets

---
 pairinteraction/Hamiltonianmatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 0fb9d55..d69decd 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,7 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From 6b0a9ea2af1629f0e7cfe3d29d94ed858f2de927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 09/27] fix: reject damaged matrix files instead of building
 invalid matrices from them

---
 pairinteraction/Hamiltonianmatrix.cpp | 85 +++++++++++++++++++--------
 1 file changed, 61 insertions(+), 24 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index d69decd..79aff91 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -26,6 +26,40 @@
 
 #include <stdexcept>
 
+namespace {
+
+// Build a sparse matrix from deserialized vectors, throw an exception if they are inconsistent
+template <typename Scalar>
+Eigen::SparseMatrix<Scalar>
+buildMatrix(storage_idx_t rows, storage_idx_t cols, const std::vector<Scalar> &data,
+            const std::vector<idx_t> &indices, const std::vector<idx_t> &indptr) {
+    bool valid = rows >= 0 && cols >= 0 && indices.size() == data.size() &&
+        indptr.size() == static_cast<size_t>(cols) &&
+        (cols > 0 ? indptr.front() == 0 : data.empty());
+    for (size_t col = 0; valid && col < indptr.size(); ++col) {
+        size_t end = col + 1 < indptr.size() ? indptr[col + 1] : data.size();
+        valid = indptr[col] <= end && end <= data.size();
+        for (size_t i = indptr[col]; valid && i < end; ++i) {
+            valid = indices[i] < static_cast<idx_t>(rows) &&
+                (i == indptr[col] || indices[i - 1] < indices[i]);
+        }
+    }
+    if (!valid) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
+    Eigen::SparseMatrix<Scalar> matrix(rows, cols);
+    matrix.makeCompressed();
+    matrix.resizeNonZeros(data.size());
+    std::copy(data.begin(), data.end(), matrix.valuePtr());
+    std::copy(indices.begin(), indices.end(), matrix.innerIndexPtr());
+    std::copy(indptr.begin(), indptr.end(), matrix.outerIndexPtr());
+    matrix.outerIndexPtr()[matrix.outerSize()] = data.size();
+    return matrix;
+}
+
+} // namespace
+
 template <typename Scalar>
 Hamiltonianmatrix<Scalar>::Hamiltonianmatrix() = default;
 
@@ -413,6 +447,10 @@ void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::doDeserialization() {
+    // take the bytes, they are kept only if they turn out to describe the matrix
+    bytes_t bytes_in;
+    bytes_in.swap(bytes);
+
     // deserialize vectors of primitive data types
     byte_t entries_flags;
     storage_idx_t entries_rows, entries_cols;
@@ -426,7 +464,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::vector<idx_t> basis_indptr;
 
     Serializer s;
-    s.load(bytes);
+    s.load(bytes_in);
     s >> entries_flags;
     s >> entries_rows;
     s >> entries_cols;
@@ -454,27 +492,24 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         throw std::runtime_error(msg);
     }
 
-    // build matrix "entries_"
-    std::vector<Scalar> entries_data;
+    if (((entries_flags & complex_not_real) != 0 &&
+         entries_data_imag.size() != entries_data_real.size()) ||
+        ((basis_flags & complex_not_real) != 0 &&
+         basis_data_imag.size() != basis_data_real.size())) {
+        throw std::runtime_error("Corrupted data discovered.");
+    }
+
+    // build matrices "entries_" and "basis_"
+    std::vector<Scalar> entries_data, basis_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
-    entries_ = Eigen::SparseMatrix<Scalar>(entries_rows, entries_cols);
-    entries_.makeCompressed();
-    entries_.resizeNonZeros(entries_data.size());
-    std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
-    std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
-    std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
-
-    // build matrix "basis_"
-    std::vector<Scalar> basis_data;
     mergeComplex(basis_data_real, basis_data_imag, basis_data);
-    basis_ = Eigen::SparseMatrix<Scalar>(basis_rows, basis_cols);
-    basis_.makeCompressed();
-    basis_.resizeNonZeros(basis_data.size());
-    std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
-    std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
-    std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
+    Eigen::SparseMatrix<Scalar> entries_in =
+        buildMatrix(entries_rows, entries_cols, entries_data, entries_indices, entries_indptr);
+    Eigen::SparseMatrix<Scalar> basis_in =
+        buildMatrix(basis_rows, basis_cols, basis_data, basis_indices, basis_indptr);
+    entries_ = std::move(entries_in);
+    basis_ = std::move(basis_in);
+    bytes = std::move(bytes_in);
 }
 
 template <typename Scalar>
@@ -518,14 +553,16 @@ bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
 
             // read
             bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
-            if (size_result != size_file) {
-                throw std::runtime_error("Matrix could not be read from file.");
-            }
+            size_t size_result = fread(bytes.data(), 1, sizeof(byte_t) * bytes.size(), pFile);
 
             // close file
             fclose(pFile);
 
+            if (size_result != size_file) {
+                bytes.clear();
+                throw std::runtime_error("Matrix could not be read from file.");
+            }
+
             doDeserialization();
 
             return true;
-- 
2.43.0


From cbe9f6dcc02fa7425dcda94d2e794a687e3b122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 10/27] fix: do not list pair states twice under exchange and
 reflection symmetry

---
 pairinteraction/Hamiltonianmatrix.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 79aff91..80ae4e1 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -728,8 +728,12 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                             continue;
                         }
 
-                        // In case of reflection symmetry: skip half of the coordinates
-                        if (sym.reflection != NA && state.m[0] < 0 && !skip_reflection) {
+                        // In case of reflection symmetry: skip half of the coordinates. If the atoms
+                        // can be exchanged, too, the sign of the total magnetic momentum decides,
+                        // because m[0] of the reflected state depends on the order of the atoms.
+                        bool exchange = sym.inversion != NA || sym.permutation != NA;
+                        bool is_reflected = (exchange && M != 0) ? M < 0 : state.m[0] < 0;
+                        if (sym.reflection != NA && is_reflected && !skip_reflection) {
                             continue;
                         }
 
-- 
2.43.0


From af71c363b0a1a5a18c02c00cb589f1bd39f79aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 11/27] fix: place the atoms of a tilted pair at their
 distances from the surface

The heights of the atoms above the plate differ by the z-component of their
separation. Besides, a refused surface must not leave its heights behind.
---
 pairinteraction/GreenTensor.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..e1f7a71 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -37,16 +37,16 @@ void GreenTensor::addSurface(double d) {
         throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
     }
 
-    double angle = std::atan(x / z);
+    double zA_new = d - z / 2.;
+    double zB_new = d + z / 2.;
 
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
-
-    if (zA < 0 || zB < 0) {
+    if (zA_new < 0 || zB_new < 0) {
         throw std::runtime_error(
             "zA or zB < 0. One of the atoms is inside the plate. Plate is half-space z < 0.");
     }
 
+    zA = zA_new;
+    zB = zB_new;
     dd_tensor_calculated = false;
     dq_tensor_calculated = false;
     qd_tensor_calculated = false;
-- 
2.43.0


From 903381fd6a0a2f0cbc7615b35d3b1bb2b362675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 12/27] fix: include the derivatives along y in the gradients
 of the plate's Green tensor

The entries of the plate's second term that are linear in y vanish at y = 0, but
their derivatives with respect to y do not.
---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index e1f7a71..1192507 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -184,6 +184,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 0, 0) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
@@ -223,6 +227,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 0) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
-- 
2.43.0


From 3844833a090cd00ba57b509a30c37fa8d1c2b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 13/27] fix: use a database of its own for every lookup in a
 file

The in-memory database was shared by all lookups of a thread: a missing or
incomplete file was answered from the file used before, and a file that does not
drop its tables could be used once only.
---
 pairinteraction/QuantumDefect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..d0a25d3 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -73,7 +73,7 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local EmbeddedDatabase embedded_database{};
         setup(embedded_database, database);
     } else {
-        static thread_local sqlite::handle db(":memory:");
+        sqlite::handle db(":memory:");
         sqlite::statement stmt(db);
         std::ifstream ifs(database);
         std::stringstream buffer;
-- 
2.43.0


From c7f9166cd7fa008bc5958e1270fbf1e68421516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 14/27] fix: lock the cache while it is cleared

---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From c2b52d769dd51995b0e22ff230d5d7cb6f8e439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 15/27] fix: let only one thread at a time look up quantum
 defects

---
 pairinteraction/QuantumDefect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index d0a25d3..e75d806 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -86,6 +87,11 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
     static std::string used_db_name;
+    static std::mutex setup_mutex;
+
+    // The lookup has to be atomic: another thread must neither change the
+    // database the cache belongs to nor save the same key in the meantime
+    std::lock_guard<std::mutex> lock(setup_mutex);
 
     if (used_db_name != db_name) {
         used_db_name = db_name;
-- 
2.43.0


From e60bf5037635638805e18b3bc7828d6aadfd3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 16/27] fix: magnetic dipole elements between states with
 different l vanish

---
 pairinteraction/MatrixElementCache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..b98a555 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -366,6 +366,11 @@ double MatrixElementCache::getMagneticDipole(StateOne const &state_row, StateOne
         throw std::runtime_error("The species must be the same for the final and initial state.");
     }
 
+    // Neither the orbital angular momentum nor the spin couple states with different l
+    if (state_row.getL() != state_col.getL()) {
+        return 0;
+    }
+
     const std::string &species = state_row.getSpecies();
     const float &s = state_row.getS();
 
-- 
2.43.0


From 7873c9b4b9200af5c95d5f504e04f029e26c095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 17/27] fix: forget a failed request of matrix elements

The unknown elements of the failed request stayed in the list of missing
elements and the transaction stayed open, so every later request failed.
---
 pairinteraction/MatrixElementCache.cpp | 17 +++++++++++++++++
 pairinteraction/MatrixElementCache.hpp |  1 +
 2 files changed, 18 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index b98a555..930f36f 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -631,6 +631,23 @@ void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, in
 }
 
 int MatrixElementCache::update() {
+    try {
+        return this->loadOrCalculateMissing();
+    } catch (...) {
+        // Forget the failed request, so that it does not disturb the following ones
+        cache_radial_missing.clear();
+        cache_angular_missing.clear();
+        cache_reduced_commutes_s_missing.clear();
+        cache_reduced_commutes_l_missing.clear();
+        cache_reduced_multipole_missing.clear();
+        if (db != nullptr && sqlite3_get_autocommit(*db) == 0) {
+            stmt->exec("rollback transaction;");
+        }
+        throw;
+    }
+}
+
+int MatrixElementCache::loadOrCalculateMissing() {
 
     // --- Return if the cache is already up-to-date ---
     if (cache_radial_missing.empty() && cache_angular_missing.empty() &&
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..63943b7 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -84,6 +84,7 @@ public:
 
 private:
     int update();
+    int loadOrCalculateMissing();
     void precalculate(std::shared_ptr<const BasisnamesOne> basis_one, int kappa, int q, int kappar,
                       bool calcMultipole, bool calcMomentum, bool calcRadial);
     double calcRadialElement(const QuantumDefect &qd1, int power, const QuantumDefect &qd2);
-- 
2.43.0


From 0ccad2c2224d872e76a9e89f4794381196fbc7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 18/27] fix: forget cached radial elements when the quantum
 defect database changes

Elements calculated with the previous database were returned for the new one.
---
 pairinteraction/MatrixElementCache.cpp | 7 +++++++
 pairinteraction/MatrixElementCache.hpp | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 930f36f..3117cec 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -122,6 +122,12 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 }
 
 void MatrixElementCache::setDefectDB(std::string const &path) {
+    // Forget radial matrix elements that belong to the previous database for quantum defects and
+    // model potential parameters (but not the ones loaded from an electric dipole database)
+    if (path != defectdbname) {
+        cache_radial = cache_radial_loaded;
+    }
+
     // Set path to user defined database for quantum defects and model potential parameters
     defectdbname = path;
 
@@ -200,6 +206,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
 
         cache_radial[key1] = val;
+        cache_radial_loaded[key1] = val;
     }
 }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 63943b7..6567af0 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -180,6 +180,8 @@ private:
     };
 
     std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial> cache_radial;
+    std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial>
+        cache_radial_loaded; // elements loaded from an electric dipole database
     std::unordered_map<CacheKey_cache_angular, double, CacheKeyHasher_cache_angular> cache_angular;
     std::unordered_map<CacheKey_cache_reduced_commutes, double,
                        CacheKeyHasher_cache_reduced_commutes>
@@ -216,6 +218,7 @@ private:
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
         ar &CEREAL_NVP(dbname);
+        ar &CEREAL_NVP(cache_radial_loaded);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
             CEREAL_NVP(cache_reduced_multipole);
-- 
2.43.0


From 52b22b12691f0908bbf3a05f3109edadf7e1e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 19/27] fix: serialize the name of the quantum defect database
 of the matrix element cache

A restored cache calculated further elements with the default database.
---
 pairinteraction/MatrixElementCache.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 6567af0..d1ebc89 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -217,6 +217,7 @@ private:
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
+        ar &CEREAL_NVP(defectdbname);
         ar &CEREAL_NVP(dbname);
         ar &CEREAL_NVP(cache_radial_loaded);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
-- 
2.43.0


From 9e027a18087a161505e5afaf76608f1dc3609b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 20/27] fix: do not add missing matrix elements to the cache
 when they are read

Elements that were requested before they were calculated stayed zero.
---
 pairinteraction/MatrixElements.cpp | 92 +++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..96ed5f0 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -122,6 +122,22 @@ void MatrixElements::precalculateDiamagnetism(std::shared_ptr<const BasisnamesOn
     precalculate(basis_one, k, q, 2, true, false, false);
 }
 
+namespace {
+
+// Elements that have not been calculated are zero. They must not be added to the cache, as they
+// would be skipped if they are calculated later on.
+double lookup(std::unordered_map<int, std::unordered_map<StateTwoOld, double>> const &cache, int k,
+              StateTwoOld const &state) {
+    auto cache_k = cache.find(k);
+    if (cache_k == cache.end()) {
+        return 0;
+    }
+    auto element = cache_k->second.find(state);
+    return element == cache_k->second.end() ? 0 : element->second;
+}
+
+} // namespace
+
 double MatrixElements::getElectricMomentum(
     StateOneOld const &state_row,
     StateOneOld const &
@@ -132,18 +148,22 @@ double MatrixElements::getElectricMomentum(
 double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
                                            StateOneOld const &state_col) {
     double val = au2GHz / au2G * muB *
-        cache_radial[0][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
-                                    {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()] *
-        cache_angular[1][StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
-                                     {{state_row.m, state_col.m}})] *
+        lookup(cache_radial, 0,
+               StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+                           {{state_row.j, state_col.j}}, {{0, 0}})
+                   .order()) *
+        lookup(cache_angular, 1,
+               StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
+                           {{state_row.m, state_col.m}})) *
         (gL *
-             cache_reduced_commutes_s[1][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                     {{state_row.j, state_col.j}}, {{0, 0}})] *
+             lookup(cache_reduced_commutes_s, 1,
+                    StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
+                                {{state_row.j, state_col.j}}, {{0, 0}})) *
              std::sqrt(state_row.l * (state_row.l + 1) * (2 * state_row.l + 1)) +
          gS *
-             cache_reduced_commutes_l[1][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                     {{state_row.j, state_col.j}}, {{0, 0}})] *
+             lookup(cache_reduced_commutes_l, 1,
+                    StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
+                                {{state_row.j, state_col.j}}, {{0, 0}})) *
              std::sqrt(
                  0.5 * (0.5 + 1) *
                  (2 * 0.5 +
@@ -155,42 +175,48 @@ double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
 double MatrixElements::getDiamagnetism(StateOneOld const &state_row, StateOneOld const &state_col,
                                        int k) {
     double val = elementary_charge * inverse_electron_rest_mass * 1. / 12. *
-        cache_radial[2][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
-                                    {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()] *
-        cache_angular[k][StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
-                                     {{state_row.m, state_col.m}})] *
-        cache_reduced_commutes_s[k][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                {{state_row.j, state_col.j}}, {{0, 0}})] *
-        cache_reduced_multipole[k][StateTwoOld(
-            {{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}},
-            {{0, 0}})]; // TODO do the multiplication with inverse_electron_rest_mass outside this
-                        // class // TODO remove this method and use directly
-                        // getMultipole(state_row,state_col,kappa_angular = ..., kappa_radial = 2)
+        lookup(cache_radial, 2,
+               StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+                           {{state_row.j, state_col.j}}, {{0, 0}})
+                   .order()) *
+        lookup(cache_angular, k,
+               StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
+                           {{state_row.m, state_col.m}})) *
+        lookup(cache_reduced_commutes_s, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{state_row.j, state_col.j}},
+                           {{0, 0}})) *
+        lookup(cache_reduced_multipole, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}},
+                           {{0, 0}})); // TODO do the multiplication with inverse_electron_rest_mass
+                                       // outside this class // TODO remove this method and use
+                                       // directly getMultipole(state_row,state_col,kappa_angular =
+                                       // ..., kappa_radial = 2)
     return val;
 }
 
 double MatrixElements::getMultipole(StateOneOld const &state_row, StateOneOld const &state_col,
                                     int k) {
-    double val =
-        cache_radial[k][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+    double val = lookup(cache_radial, k,
+                        StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
                                     {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()] *
-        cache_angular[k][StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
-                                     {{state_row.m, state_col.m}})] *
-        cache_reduced_commutes_s[k][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
-                                                {{state_row.j, state_col.j}}, {{0, 0}})] *
-        cache_reduced_multipole[k][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}},
-                                               {{0, 0}})];
+                            .order()) *
+        lookup(cache_angular, k,
+               StateTwoOld({{0, 0}}, {{0, 0}}, {{state_row.j, state_col.j}},
+                           {{state_row.m, state_col.m}})) *
+        lookup(cache_reduced_commutes_s, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{state_row.j, state_col.j}},
+                           {{0, 0}})) *
+        lookup(cache_reduced_multipole, k,
+               StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}}, {{0, 0}}, {{0, 0}}));
     return val;
 }
 
 double MatrixElements::getRadial(StateOneOld const &state_row, StateOneOld const &state_col,
                                  int k) {
-    double val =
-        cache_radial[k][StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
+    double val = lookup(cache_radial, k,
+                        StateTwoOld({{state_row.n, state_col.n}}, {{state_row.l, state_col.l}},
                                     {{state_row.j, state_col.j}}, {{0, 0}})
-                            .order()];
+                            .order());
     return val;
 }
 
-- 
2.43.0


From 99c06d619e23c82c11510bf24a43fa0b8d44c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 21/27] fix: keep the full precision of matrix elements stored
 in the database

The elements were rounded to six digits, so that the results depended on
whether they had been calculated before.
---
 pairinteraction/MatrixElements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 96ed5f0..fd70052 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -278,6 +278,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::max_digits10); // do not round the stored values
 
     stmt.exec("begin transaction;");
 
-- 
2.43.0


From b5189f5a530df7801179bbb4babfa17334622249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:11 +0000
Subject: [PATCH 22/27] fix: entries of complex Hamiltonians were read
 conjugated

Setting an entry with a nonzero imaginary part gave a wrong entry, too.
---
 pairinteraction/SystemBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..e461a86 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1247,7 +1247,8 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    // The method dot() conjugates its first argument
+    return basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 }
 
 template <class Scalar, class State>
@@ -1258,7 +1259,7 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From 0521a12e5e97c7c67993513c5f92bfe7b2aee5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:11 +0000
Subject: [PATCH 23/27] fix: do not search more basis vectors than there are

Searching the basis vectors of more states wrote beyond the list of indices.
---
 pairinteraction/SystemBase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index e461a86..f0350d8 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1161,6 +1161,11 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
         }
     }
 
+    // Ensure that there are enough basis vectors
+    if (searched_states.size() > static_cast<size_t>(basisvectors.cols())) {
+        throw std::runtime_error("There is a state for which no basis vector could be found.");
+    }
+
     // Construct canonical basis vectors
     Eigen::SparseMatrix<Scalar> canonicalbasis;
     {
-- 
2.43.0


From 430d02f0d4efed6d12ce497de02cf01556b8b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:39 +0000
Subject: [PATCH 24/27] fix: calculate the interaction anew after a rotation of
 the basis

The interaction was transformed with the current basis vectors instead of the
unperturbed ones, and by the part of it that lies within the basis only, so that
the Hamiltonian was wrong after a subsequent change of the parameters.
---
 pairinteraction/SystemBase.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index f0350d8..4e1cb2f 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -821,14 +821,13 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
     // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
-
     basisvectors = transformator * basisvectors;
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(basisvectors);
+    // Delete the interaction, it has to be calculated anew for the rotated basis if it is needed
+    this->deleteInteraction();
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From e02dee8621881036eece14545f5dea9a30a102a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:39 +0000
Subject: [PATCH 25/27] fix: transform the unperturbed system and the
 interaction in canonicalize()

Selecting vectors of the canonical basis and changing the parameters afterwards
selected other vectors of the unperturbed basis.
---
 pairinteraction/SystemBase.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 4e1cb2f..c890974 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -749,13 +749,22 @@ template <class Scalar, class State>
 void SystemBase<Scalar, State>::canonicalize() {
     this->buildHamiltonian();
 
+    // Transform the unperturbed system and the interaction, which belongs to its basis vectors
+    if (basisvectors_unperturbed_cache.size() != 0) {
+        this->transformInteraction(basisvectors_unperturbed_cache.adjoint());
+        hamiltonian_unperturbed_cache = basisvectors_unperturbed_cache *
+            hamiltonian_unperturbed_cache * basisvectors_unperturbed_cache.adjoint();
+        basisvectors_unperturbed_cache =
+            basisvectors_unperturbed_cache * basisvectors_unperturbed_cache.adjoint();
+    } else {
+        this->transformInteraction(basisvectors.adjoint());
+    }
+
     // Transform the hamiltonian
     hamiltonian = basisvectors * hamiltonian * basisvectors.adjoint();
 
     // Transform the basis vectors
     basisvectors = basisvectors * basisvectors.adjoint();
-
-    // TODO call transformInteraction (see applyRightsideTransformator), perhaps yes?
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 89cda6de67d6770966903228869699cbb7f31152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:52 +0000
Subject: [PATCH 26/27] fix: leave out states whose total angular momentum is
 too small for the spin

---
 pairinteraction/SystemOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..e20f680 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -219,7 +219,7 @@ void SystemOne<Scalar>::initializeBasis() {
                 range_adapted_j = this->range_j;
             }
             for (auto j : range_adapted_j) {
-                if (std::fabs(j - l) > s || j < 0) {
+                if (std::fabs(j - l) > s || j < std::fabs(l - s)) {
                     continue;
                 }
 
-- 
2.43.0


From 2dfc2ac7c17282181a5d14719fe8c8e77bc6ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:52 +0000
Subject: [PATCH 27/27] fix: refuse to combine systems next to different ions

---
 pairinteraction/SystemOne.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index e20f680..ce7b243 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -737,6 +737,11 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge ||
+        ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax ||
+        distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error("The ion next to the atom must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0

