From a234fafdd02835df582ea2079262866a75d581f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 01/32] fix: prune builds new nodes instead of changing shared
 ones in place

---
 src/dd.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..02dc3b8 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2471,9 +2471,16 @@ int prune(vEdge &v, double thr, std_complex num) {
         v.w = {0.0, 0.0};
         v.n = vNode::terminal;
         result = 1;
-    } else {
-        result += prune(v.n->children[0], thr, current);
-        result += prune(v.n->children[1], thr, current);
+    } else if (!v.isTerminal()) {
+        // Nodes are shared with other diagrams: prune a copy of the children.
+        std::array<vEdge, 2> children = v.n->children;
+        for (vEdge &child : children) {
+            result += prune(child, thr, current);
+        }
+        if (result > 0) {
+            vEdge e = makeVEdge(v.n->v, children);
+            v = {v.w * e.w, e.n};
+        }
     }
     return result;
 }
@@ -2486,11 +2493,16 @@ int prune(mEdge &m, double thr, std_complex num) {
         m.w = {0.0, 0.0};
         m.n = mNode::terminal;
         result = 1;
-    } else {
-        result += prune(m.n->children[0], thr, current);
-        result += prune(m.n->children[1], thr, current);
-        result += prune(m.n->children[2], thr, current);
-        result += prune(m.n->children[3], thr, current);
+    } else if (!m.isTerminal()) {
+        // Nodes are shared with other diagrams: prune a copy of the children.
+        std::array<mEdge, 4> children = m.n->children;
+        for (mEdge &child : children) {
+            result += prune(child, thr, current);
+        }
+        if (result > 0) {
+            mEdge e = makeMEdge(m.n->v, children);
+            m = {m.w * e.w, e.n};
+        }
     }
     return result;
 }
-- 
2.43.0


From b2e6e4649b8c8f155af4a7d657999cee09bf9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 02/32] fix: save_binary/load_binary keep the root weight

---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 02dc3b8..0aa46c6 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2171,6 +2171,7 @@ void save_binary(vEdge edge, std::string file_name) {
     int nNodes = vNode_to_vec(edge.n, v, map);
     std::ofstream binary_ofs(file_name);
     boost::archive::binary_oarchive binary_oa(binary_ofs);
+    binary_oa << edge.w;
     binary_oa << v;
     binary_ofs.close();
     std::cout << "nNodes=" << nNodes << std::endl;
@@ -2180,9 +2181,11 @@ vEdge load_binary(std::string file_name) {
     std::vector<vContent> v;
     std::ifstream binary_ifs(file_name);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
+    std_complex w;
+    binary_ia >> w;
     binary_ia >> v;
     binary_ifs.close();
-    vEdge result = {{1.0, 0.0}, vec_to_vNode(v, vUnique)};
+    vEdge result = {w, vec_to_vNode(v, vUnique)};
     return result;
 }
 #endif
-- 
2.43.0


From 05a209c112d26e47d343e514f8d389586c6de195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 03/32] fix: makeLargeGate index map stops at the number of
 targets

---
 src/dd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 0aa46c6..8480366 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -532,7 +532,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < target_compresed.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
-- 
2.43.0


From 4ff77ae6d064018dfa911c4aa6e04d046f1a7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 04/32] fix: makeLargeGate leaves the caller's matrix unchanged

---
 src/dd.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8480366..331c0ed 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -544,9 +544,10 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
     for (int i = 0; i < rows; i++) {
         g_tmp.push_back(g[conversionMap[i]]);
     }
+    ComplexMatrix g_sorted = g_tmp;
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < rows; j++) {
-            g[i][j] = g_tmp[i][conversionMap[j]];
+            g_sorted[i][j] = g_tmp[i][conversionMap[j]];
         }
     }
 
@@ -556,7 +557,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         skip[target] = false;
     }
 
-    return makeLargeGate(g, q - 1, 0, rows, 0, cols, skip, target_min);
+    return makeLargeGate(g_sorted, q - 1, 0, rows, 0, cols, skip, target_min);
 }
 mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
                     const std::size_t rowStart, const std::size_t rowEnd,
-- 
2.43.0


From cdacc4176e0265d9c7bddd73b121b435749f7895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 05/32] fix: getMPIGate treats levels skipped by the gate as
 identity

---
 include/dd.h |  1 +
 src/dd.cpp   | 28 ++++++++++++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 500ed13..1afc69c 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -455,6 +455,7 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level, const std::size_t rowSt
                     const std::size_t colStart, const std::size_t colEnd, const std::vector<bool> skip, const Qubit target_min);
 
 mEdge getMPIGate(mEdge root, int row, int col, int world_size);
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level);
 
 mEdge mm_add(const mEdge &lhs, const mEdge &rhs);
 mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs);
diff --git a/src/dd.cpp b/src/dd.cpp
index 331c0ed..d8e43ae 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -603,7 +603,11 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
 
 #ifdef isMPI
 mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
-    if (root.isTerminal() || world_size <= 1) {
+    return getMPIGate(root, row, col, world_size, root.getVar());
+}
+
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level) {
+    if (world_size <= 1) {
         return root;
     }
 
@@ -625,9 +629,17 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     if (col >= border) {
         index += 1;
     }
-    mEdge tmp = root.getNode()->children[index];
-    tmp.w *= root.w;
-    return getMPIGate(tmp, row % border, col % border, border);
+    mEdge tmp = root;
+    if (root.isTerminal() || root.getVar() < level) {
+        // identity at this level
+        if (index == 1 || index == 2) {
+            return mEdge::zero;
+        }
+    } else {
+        tmp = root.getNode()->children[index];
+        tmp.w *= root.w;
+    }
+    return getMPIGate(tmp, row % border, col % border, border, level - 1);
 }
 #endif
 
@@ -688,7 +700,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -706,7 +718,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits - 1);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -828,7 +840,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -846,7 +858,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits - 1);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From b96a5bca893f55af0214e7cd2d06b1faa1e9c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 06/32] fix: measureOneMPI tests the rank bit that stands for
 the measured qubit

---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index d8e43ae..1f478a4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1753,7 +1753,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1824,7 +1824,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From 041b2f13badfbb1e9a0817b8c0eab17717ee2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 07/32] fix: release the buffers of exported state vectors

---
 qdd/bindings.cpp | 2 ++
 src/dd.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..3246fe8 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -53,6 +53,7 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
         std::complex<double> tmp(vec[i].r, vec[i].i);
         result.push_back(tmp);
     }
+    delete[] vec;
     return result;
 }
 
@@ -154,6 +155,7 @@ std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
     for (int i = 0; i < dim; i++) {
         result.push_back(vec[i]);
     }
+    delete[] vec;
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
diff --git a/src/dd.cpp b/src/dd.cpp
index 1f478a4..528b8d2 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1373,6 +1373,7 @@ VectorXcf vEdge::getEigenVector() {
     for (auto i = 0; i < dim; i++) {
         V(i) = std::complex<double>{v[i].r, v[i].i};
     }
+    delete[] v;
     return V;
 }
 
-- 
2.43.0


From e7c5e73bed7c76a580138063a4fea71c17dde9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 08/32] fix: worker threads wait for the stop signal with a
 predicate

---
 include/task.h | 1 +
 src/task.cpp   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/task.h b/include/task.h
index 36ab95e..4426c67 100644
--- a/include/task.h
+++ b/include/task.h
@@ -100,5 +100,6 @@ private:
 
     boost::fibers::condition_variable_any cond_stop;
     boost::fibers::mutex mtx_stop;
+    bool _stop = false; // guarded by mtx_stop
 };
 
diff --git a/src/task.cpp b/src/task.cpp
index fb776a6..10f977e 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -123,7 +123,7 @@ void Scheduler::spawn() {
                     boost::fibers::algo::my_ws>(this->_nworkers + 1);
                 {
                     std::unique_lock<boost::fibers::mutex> lk(this->mtx_stop);
-                    this->cond_stop.wait(lk);
+                    this->cond_stop.wait(lk, [this]() { return _stop; });
                 }
             },
             i);
@@ -154,6 +154,10 @@ Scheduler::Scheduler(int n) : _nworkers(n) {
 }
 
 Scheduler::~Scheduler() {
+    {
+        std::unique_lock<boost::fibers::mutex> lk(mtx_stop);
+        _stop = true;
+    }
     cond_stop.notify_all();
 
     for (WorkerThread &w : _workers) {
-- 
2.43.0


From 5d89b2102ef3a0c18b5aebf52ec1058d8b27d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 09/32] fix: a second worker pool starts from fresh scheduler
 state

---
 include/task.h |  8 ++++++--
 src/task.cpp   | 17 +++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/task.h b/include/task.h
index 4426c67..eecb2e8 100644
--- a/include/task.h
+++ b/include/task.h
@@ -7,9 +7,11 @@
 #include <boost/fiber/mutex.hpp>
 #include <boost/fiber/condition_variable.hpp>
 #include <boost/fiber/algo/algorithm.hpp>
+#include <boost/fiber/detail/thread_barrier.hpp>
 #include "wsq.hpp"
 #include <thread>
 #include <atomic>
+#include <memory>
 #include <vector>
 #include "dd.h"
 #include "table.hpp"
@@ -25,6 +27,7 @@ class my_ws : public algorithm {
 private:
     static std::atomic< std::uint32_t >                     counter_;
     static std::vector< intrusive_ptr< my_ws > >    schedulers_;
+    static std::unique_ptr< boost::fibers::detail::thread_barrier > barrier_;
 
     std::uint32_t                                           id_;
     std::uint32_t                                           thread_count_;
@@ -41,10 +44,11 @@ private:
     bool                                                    flag_{ false };
     bool                                                    suspend_;
 
-    static void init_( std::uint32_t, std::vector< intrusive_ptr< my_ws > > &);
-
 public:
 
+    // to be called before the threads of a pool are started
+    static void prepare( std::uint32_t thread_count);
+
     my_ws( std::uint32_t, bool = false);
 
     my_ws( my_ws const&) = delete;
diff --git a/src/task.cpp b/src/task.cpp
index 10f977e..fe317aa 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -23,21 +23,21 @@ namespace algo {
 std::atomic<std::uint32_t> my_ws::counter_{0};
 std::vector<intrusive_ptr<my_ws>> my_ws::schedulers_{};
 
-void my_ws::init_(std::uint32_t thread_count,
-                  std::vector<intrusive_ptr<my_ws>> &schedulers) {
+std::unique_ptr<boost::fibers::detail::thread_barrier> my_ws::barrier_{};
+
+void my_ws::prepare(std::uint32_t thread_count) {
+    counter_ = 0;
     // resize array of schedulers to thread_count, initilized with nullptr
-    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers);
+    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers_);
+    barrier_ = std::make_unique<boost::fibers::detail::thread_barrier>(
+        thread_count);
 }
 
 my_ws::my_ws(std::uint32_t thread_count, bool suspend)
     : id_{counter_++}, thread_count_{thread_count}, suspend_{suspend} {
-    static boost::fibers::detail::thread_barrier b{thread_count};
-    // initialize the array of schedulers
-    static std::once_flag flag;
-    std::call_once(flag, &my_ws::init_, thread_count_, std::ref(schedulers_));
     // register pointer of this scheduler
     schedulers_[id_] = this;
-    b.wait();
+    barrier_->wait();
 }
 
 void my_ws::awakened(context *ctx) noexcept {
@@ -113,6 +113,7 @@ void my_ws::notify() noexcept {
 }  // namespace boost
 
 void Scheduler::spawn() {
+    boost::fibers::algo::my_ws::prepare(_nworkers + 1);
     for (int i = 0; i < _nworkers; i++) {
         _workers[i]._id = i;
         _workers[i]._sched = this;
-- 
2.43.0


From e085032ce4c6f597aa564fbec58f5221518d33ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 10/32] fix: fibers store results in the cache of the thread
 they run on

---
 src/dd.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 528b8d2..41c4943 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1193,7 +1193,12 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 #endif
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    // this fiber may have moved to another thread while it waited
+    _aCaches.local().set(lhs, rhs, result);
+#else
     _aCache.set(lhs, rhs, result);
+#endif
 
     return result;
 }
@@ -1470,7 +1475,12 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    // this fiber may have moved to another thread while it waited
+    _mCaches.local().set(lhs.n, rhs.n, result);
+#else
     _mCache.set(lhs.n, rhs.n, result);
+#endif
     result.w = result.w * lhs.w * rhs.w;
     if (result.w.isApproximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From 93f7c211c10396c0c8d55c1f32b27b9f5abd5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 11/32] fix: refuse controlled gates with open controls instead
 of applying them as closed ones

---
 qdd/qdd_backend.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..395a117 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -12,7 +12,7 @@ from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
 from qiskit import QuantumCircuit as QiskitCircuit
 from qiskit.result import Result
-from qiskit.circuit import Barrier, Clbit, Measure, Qubit, Reset
+from qiskit.circuit import Barrier, Clbit, ControlledGate, Measure, Qubit, Reset
 import qiskit.circuit.library as qiskit_gates
 from qiskit.circuit.library import Initialize
 from qiskit.transpiler import CouplingMap
@@ -118,6 +118,14 @@ _supported_qiskit_gates: Dict = {
 }
 
 
+def _has_open_controls(inst) -> bool:
+    """Whether the instruction is a controlled gate with a control that acts on |0>"""
+    return (
+        isinstance(inst, ControlledGate)
+        and inst.ctrl_state != 2**inst.num_ctrl_qubits - 1
+    )
+
+
 @dataclasses.dataclass
 class QddExperiments:
     circs: List[QiskitCircuit]
@@ -758,7 +766,7 @@ class QddBackend(BackendV1):
                         MPI, current, circ, count, local_list, map_after_swap, use_bcast
                     )
 
-                if qiskit_gate_type in _supported_qiskit_gates:
+                if qiskit_gate_type in _supported_qiskit_gates and not _has_open_controls(i):
                     if qiskit_gate_type in _qiskit_gates_1q:
                         controls = []
                         for j in range(len(qargs) - 1):
-- 
2.43.0


From efc722daca3443a9c881ac000901f1ad1a74e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 12/32] fix: merge_circuit refuses gates it cannot apply
 instead of skipping them

---
 qdd/qdd_backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 395a117..cbdf6f8 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -446,7 +446,7 @@ class QddBackend(BackendV1):
                 continue
             assert len(cargs) == 0
 
-            if qiskit_gate_type in _supported_qiskit_gates:
+            if qiskit_gate_type in _supported_qiskit_gates and not _has_open_controls(i):
                 if qiskit_gate_type in _qiskit_gates_1q:
                     controls = []
                     for j in range(len(qargs) - 1):
@@ -501,6 +501,12 @@ class QddBackend(BackendV1):
                         f" type={qiskit_gate_type.__name__}, name={i.name}."
                         f" It needs to transpile the circuit before evaluating it."
                     )
+            else:
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" It needs to transpile the circuit before merging it."
+                )
 
             count += 1
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
-- 
2.43.0


From 690b09614a75d54af0b964c70891fc83ed21b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 13/32] fix: merge_circuit refuses conditional instructions
 instead of ignoring the condition

---
 qdd/qdd_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index cbdf6f8..db2473c 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -444,6 +444,10 @@ class QddBackend(BackendV1):
                 continue
             if qiskit_gate_type == Measure:
                 continue
+            if i.condition is not None:
+                raise RuntimeError(
+                    f"Conditional instructions cannot be merged: name={i.name}."
+                )
             assert len(cargs) == 0
 
             if qiskit_gate_type in _supported_qiskit_gates and not _has_open_controls(i):
-- 
2.43.0


From b7929251af96760c728cd7e405162f0e3587b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 14/32] fix: merge_circuit passes qubit indices of unitary
 gates

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index db2473c..7411743 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -493,7 +493,7 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(q) for q in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-- 
2.43.0


From 591ac693050ba2b95a952ed0b4156a8f79b6d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 15/32] fix: refuse QDD gates that are not on the whole
 register in order

---
 qdd/qdd_backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 7411743..0930efe 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -429,6 +429,13 @@ class QddBackend(BackendV1):
     def get_cID(self, cbit):
         return self.cbitmap[cbit]
 
+    def _require_whole_register(self, n_qubit: int, qargs):
+        """A QDD gate holds an operator on the whole register, qubits in circuit order"""
+        if [self.get_qID(q) for q in qargs] != list(range(n_qubit)):
+            raise RuntimeError(
+                "A QDD gate must be applied to all qubits of the circuit in order."
+            )
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -497,6 +504,7 @@ class QddBackend(BackendV1):
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
+                    self._require_whole_register(n_qubit, qargs)
                     gate = i.params[0]
                     current = pyQDD.mm_multiply(gate, current)
                 else:
@@ -896,6 +904,7 @@ class QddBackend(BackendV1):
                             )
                         )
                     elif qiskit_gate_type in _qdd_gate:
+                        self._require_whole_register(n_qubit, qargs)
                         gate = i.params[0]
                         if use_mpi and use_auto_swap:
                             current, map_after_swap = self.restore_swap(
-- 
2.43.0


From 775a6acde1ff376560547956910f6d938cac759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 16/32] fix: compare a conditioned register by its own bit
 positions

---
 qdd/qdd_backend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 0930efe..7bd966c 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -744,9 +744,8 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
-                            idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                        for idx, clbit in enumerate(classical):
+                            if val_cbit[self.get_cID(clbit)] != str((val >> idx) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From 17e0e5aa2afa1d64a30499f89363148b4bb3c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 17/32] fix: simulate conditional measurements per shot

---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 7bd966c..1d3a44a 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1124,6 +1124,8 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From a98af1490b59afe22206cf0bd22ad358216e8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 18/32] fix: simulate every shot also when the shot count is a
 numpy integer

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1d3a44a..a9f7047 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -721,7 +721,7 @@ class QddBackend(BackendV1):
                 )
 
         reps = 1
-        if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
+        if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
         prob_cbit = [0] * n_cbit
-- 
2.43.0


From 89caeb698eb81edb96c22ab58d8e03782bb42b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 19/32] fix: check the shot count also when it comes from the
 backend's options

---
 qdd/qdd_backend.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index a9f7047..c2094bf 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1166,15 +1166,14 @@ class QddBackend(BackendV1):
         """Checks whether the given options are valid to run with (e.g., shots < max_shots)."""
 
         # Check if invalid options (i.e., causing errors) are specified
-        if "shots" in run_options:
-            shots = run_options["shots"]
-            if shots is not None:
-                max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
-                if not (0 < shots <= max_shots):
-                    raise RuntimeError(
-                        f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
-                        f" when using {QddBackend.__name__}."
-                    )
+        shots = run_options.get("shots", self.options.shots)
+        if shots is not None:
+            max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
+            if not (0 < shots <= max_shots):
+                raise RuntimeError(
+                    f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
+                    f" when using {QddBackend.__name__}."
+                )
 
         # Warn if unsupported options are specified
         # Note: we cannot raise an error here because some Qiskit functions (e.g., execute(...)) adds some options to
-- 
2.43.0


From 825e3868cc86a980dc333ea3f42ed5021eb5e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 20/32] fix: refuse parameter bindings that do not match the
 circuits one to one

---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index c2094bf..29d274e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -351,6 +351,11 @@ class QddBackend(BackendV1):
             run_options["parameter_binds"] is not None
         ):
             param_bound_qiskit_circs = []
+            if len(run_options["parameter_binds"]) != len(qiskit_circs):
+                raise RuntimeError(
+                    f"{len(run_options['parameter_binds'])} parameter bindings are"
+                    f" specified for {len(qiskit_circs)} circuits."
+                )
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
         else:
-- 
2.43.0


From c38fe56f9dc4e0197717862f8491d22013110611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 21/32] fix: stop the worker threads also when a circuit fails

---
 qdd/qdd_backend.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 29d274e..4b83f81 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -389,10 +389,14 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
-        results = [
-            self._evaluate_circuit(circ, circ_prop, experiments.options)
-            for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-        ]
+        try:
+            results = [
+                self._evaluate_circuit(circ, circ_prop, experiments.options)
+                for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
+            ]
+        finally:
+            if experiments.options["n_threads"] > 1:
+                pyQDD.terminateMT()
 
         result = Result.from_dict(
             {
@@ -405,9 +409,6 @@ class QddBackend(BackendV1):
             }
         )
 
-        if experiments.options["n_threads"] > 1:
-            pyQDD.terminateMT()
-
         return result
 
     def _create_qubitmap(self, circ: QiskitCircuit):
-- 
2.43.0


From e0abf3cd3f7e0d83c249caf8574fe047662c7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 22/32] fix: seed the simulator's random numbers with
 seed_simulator

---
 qdd/bindings.cpp   | 3 +++
 qdd/qdd_backend.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 3246fe8..7ff447d 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -29,6 +29,8 @@ std::map<std::string, GateMatrix> gateMap{
 std::random_device rd;
 std::mt19937_64 mt(rd());
 
+void set_seed(std::uint64_t seed) { mt.seed(seed); }
+
 std::pair<vEdge, std::string> _measureAll(vEdge &rootEdge, bool collapse) {
     std::string result = measureAll(rootEdge, collapse, mt);
     return std::pair<vEdge, std::string>(rootEdge, result);
@@ -275,6 +277,7 @@ PYBIND11_MODULE(pyQDD, m) {
     m.def("getVector", _getVector);
     m.def("probabilities", _probabilities);
     m.def("measureOne", _measureOne);
+    m.def("setSeed", set_seed);
 
     // Others
     m.def("genDot", py::overload_cast<vEdge &>(&genDot))
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 4b83f81..6d1d063 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -385,6 +385,9 @@ class QddBackend(BackendV1):
 
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
+        if experiments.options["seed_simulator"] is not None:
+            pyQDD.setSeed(int(experiments.options["seed_simulator"]))
+
         if experiments.options["n_threads"] > 1:
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
-- 
2.43.0


From 44be939084d3826d4548ab595b5b2f4119df6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 23/32] fix: report exact probabilities over the classical
 bits, as for shots

---
 qdd/qdd_backend.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 6d1d063..444261e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1054,8 +1054,18 @@ class QddBackend(BackendV1):
                         else:
                             prob[i] *= prob_cbit[j]
             probabilities = {}
-            for i, p in enumerate(prob):
-                probabilities[i] = p
+            if circ_prop.stable_final_state and circ_prop.clbit_final_values:
+                # index the probabilities by the values of the classical bits
+                places = [
+                    (self.get_cID(cbit), map_after_swap[self.get_qID(qubit)])
+                    for cbit, qubit in circ_prop.clbit_final_values.items()
+                ]
+                for i, p in enumerate(prob):
+                    value = sum(((i >> q) & 1) << c for c, q in places)
+                    probabilities[value] = probabilities.get(value, 0) + p
+            else:
+                for i, p in enumerate(prob):
+                    probabilities[i] = p
             result_data: Dict[str, Any] = {"probabilities": probabilities}
             if self._save_SV:
                 result_data["statevector"] = (
-- 
2.43.0


From ab1412d0a8f074844d8401b234068c91028d0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 24/32] fix: let the sampler run a circuit with several
 parameter values

---
 qdd/qdd_sampler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..280b8dc 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,11 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        # the backend takes one binding per circuit; a circuit that is to run
+        # with several bindings is submitted several times
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From 72db33631bc6a59c9c0d8c512e4d7ed747e90cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:10 +0000
Subject: [PATCH 25/32] fix: allow an approximating estimator without run
 options

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..a856b1b 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,7 +113,7 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
+        if self._approximation and run_options and "shots" in run_options:
             self._approximation_shots = run_options["shots"]
         else:
             self._approximation_shots = None
-- 
2.43.0


From 0abee099b1ec77e2ee3542ba8d254b75f994d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 26/32] fix: keep the estimator's circuits, bindings and result
 indices in one order

---
 qdd/qdd_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index a856b1b..e3deee9 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -321,7 +321,7 @@ class Estimator(BaseEstimator):
         parameter_binds = []
         for circ_ind in experiments_dict:
             indices = []
-            for i, (parameters, param_vals) in exp_map[circ_ind].items():
+            for i, (parameters, param_vals) in sorted(exp_map[circ_ind].items()):
                 for param_val in param_vals:
                     experiments_unsorted[i] = experiments_dict[circ_ind][i]
                     indices.append(i)
@@ -380,7 +380,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in sorted(basis_map.items()):
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From 1f18375ba4642642d4b834b6633658b7def8511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 27/32] fix: let the estimator handle identity observables next
 to others

---
 qdd/qdd_estimator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index e3deee9..21c1a4b 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -186,7 +186,7 @@ class Estimator(BaseEstimator):
         if key in self._cache:  # Use a cache
             experiments_dict, obs_maps = self._cache[key]
             exp_map = self._pre_process_params(
-                circuits, observables, parameter_values, obs_maps
+                circuits, observables, parameter_values, obs_maps, experiments_dict
             )
             experiments, parameter_binds = self._flatten(experiments_dict, exp_map)
             post_processings = self._create_post_processing(
@@ -230,7 +230,7 @@ class Estimator(BaseEstimator):
                 if (
                     len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
                 ):  # identity
-                    break
+                    continue
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -243,7 +243,7 @@ class Estimator(BaseEstimator):
             self._cache[key] = experiments_dict, obs_maps
 
             exp_map = self._pre_process_params(
-                circuits, observables, parameter_values, obs_maps
+                circuits, observables, parameter_values, obs_maps, experiments_dict
             )
 
             # Flatten
@@ -291,7 +291,9 @@ class Estimator(BaseEstimator):
         )
         return EstimatorResult(np.real_if_close(expectation_values), list(metadata))
 
-    def _pre_process_params(self, circuits, observables, parameter_values, obs_maps):
+    def _pre_process_params(
+        self, circuits, observables, parameter_values, obs_maps, experiments_dict
+    ):
         exp_map = defaultdict(
             dict
         )  # circ_ind => basis_ind => (parameter, parameter_values)
@@ -299,6 +301,8 @@ class Estimator(BaseEstimator):
             circuits, observables, parameter_values
         ):
             self._validate_parameter_length(param_val, circ_ind)
+            if circ_ind not in experiments_dict:  # nothing to measure
+                continue
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
                 if (
-- 
2.43.0


From 0fb8a6488d744df1d954b764d8199227dc9658a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 28/32] fix: complete the non-blocking transfers of send_dd and
 receive_dd before their buffers go away

---
 src/dd.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 41c4943..15bace4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2327,8 +2327,9 @@ vEdge receive_dd(boost::mpi::communicator &world, int source_node_id,
         world.recv(source_node_id, 0, w);
         world.recv(source_node_id, 1, v);
     } else {
-        world.irecv(source_node_id, 0, w);
-        world.irecv(source_node_id, 1, v);
+        bmpi::request reqs[2] = {world.irecv(source_node_id, 0, w),
+                                 world.irecv(source_node_id, 1, v)};
+        bmpi::wait_all(reqs, reqs + 2);
     }
     return {w, vec_to_vNode(v, vUnique)};
 }
@@ -2342,8 +2343,9 @@ void send_dd(boost::mpi::communicator &world, vEdge e, int dest_node_id,
         world.send(dest_node_id, 0, e.w);
         world.send(dest_node_id, 1, v);
     } else {
-        world.isend(dest_node_id, 0, e.w);
-        world.isend(dest_node_id, 1, v);
+        bmpi::request reqs[2] = {world.isend(dest_node_id, 0, e.w),
+                                 world.isend(dest_node_id, 1, v)};
+        bmpi::wait_all(reqs, reqs + 2);
     }
     return;
 };
-- 
2.43.0


From 0ac3b040e994acae6e7354df39359290d4625185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 29/32] fix: probabilitiesMPI gave too few entries for a
 process whose part of the state is zero

---
 src/dd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 15bace4..1554792 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1571,6 +1571,10 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
                       num = num * each_prob / all_prob;
                   });
 
+    // a process whose part of the state is zero contributes as many entries
+    each_result.resize(bmpi::all_reduce(world, each_result.size(),
+                                        bmpi::maximum<std::size_t>()));
+
     std::vector<std::vector<double>> all_result;
     bmpi::all_gather(world, each_result, all_result);
     auto final_result = flatten(all_result);
-- 
2.43.0


From eef454740a8d96d0afd8ca83fe01ea390c2c466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 30/32] fix: getVectorMPI gave too few entries for a process
 whose part of the state is zero

---
 qdd/bindings.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 7ff447d..3cb1bdb 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -151,13 +151,18 @@ void dump_mpi() {
 }
 
 std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
-    size_t dim;
-    std_complex *vec = edge.getVector(&dim);
     std::vector<std_complex> result;
-    for (int i = 0; i < dim; i++) {
-        result.push_back(vec[i]);
+    if (!edge.isTerminal()) {
+        size_t dim;
+        std_complex *vec = edge.getVector(&dim);
+        for (int i = 0; i < dim; i++) {
+            result.push_back(vec[i]);
+        }
+        delete[] vec;
     }
-    delete[] vec;
+    // a process whose part of the state is zero contributes as many entries
+    result.resize(bmpi::all_reduce(_world, result.size(),
+                                   bmpi::maximum<std::size_t>()));
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
-- 
2.43.0


From 78a64ab8a2a4a67e68cfbed0b9d94134d5a26a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:21 +0000
Subject: [PATCH 31/32] fix: hold each backend to the limits of its own
 configuration

---
 qdd/qdd_backend.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 444261e..0a102a0 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -363,7 +363,9 @@ class QddBackend(BackendV1):
             param_bound_qiskit_circs = qiskit_circs
 
         circ_props = QddBackend._validate_and_get_circuit_properties(
-            param_bound_qiskit_circs, self._save_SV == False
+            param_bound_qiskit_circs,
+            self._save_SV == False,
+            self.configuration().n_qubits,
         )
         experiments = QddExperiments(
             circs=param_bound_qiskit_circs,
@@ -1089,24 +1091,29 @@ class QddBackend(BackendV1):
 
     @staticmethod
     def _validate_and_get_circuit_properties(
-        qiskit_circs: List[QiskitCircuit], require_measurement=True
+        qiskit_circs: List[QiskitCircuit],
+        require_measurement=True,
+        max_qubits: int = _DEFAULT_CONFIG["n_qubits"],
     ) -> List[CircuitProperty]:
         circ_props = [
-            QddBackend._validate_and_get_circuit_property(circ, require_measurement)
+            QddBackend._validate_and_get_circuit_property(
+                circ, require_measurement, max_qubits
+            )
             for circ in qiskit_circs
         ]
         return circ_props
 
     @staticmethod
     def _validate_and_get_circuit_property(
-        circ: QiskitCircuit, require_measurement=True
+        circ: QiskitCircuit,
+        require_measurement=True,
+        max_qubits: int = _DEFAULT_CONFIG["n_qubits"],
     ) -> CircuitProperty:
         """Checks whether the given circuit is valid to run (e.g., #qubits <= #max-qubits),
         and, if valid, returns a CircuitProperty instance that will be used for simulation.
         """
 
         # #qubit must be lower than #max-qubits
-        max_qubits: int = QddBackend._DEFAULT_CONFIG["n_qubits"]
         if circ.num_qubits > max_qubits:  # num_qubits includes ancilla registers
             raise RuntimeError(
                 f'Circuit "{circ.name}" has {circ.num_qubits} qubits,'
@@ -1187,7 +1194,7 @@ class QddBackend(BackendV1):
         # Check if invalid options (i.e., causing errors) are specified
         shots = run_options.get("shots", self.options.shots)
         if shots is not None:
-            max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
+            max_shots = self.configuration().max_shots
             if not (0 < shots <= max_shots):
                 raise RuntimeError(
                     f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
-- 
2.43.0


From 7c28177739ca259547b9e02e7c8751ef052fb4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:48 +0000
Subject: [PATCH 32/32] fix: a bit that is never measured reads 0 also in a run
 without shots

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 0a102a0..256976d 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -735,7 +735,7 @@ class QddBackend(BackendV1):
         if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
-        prob_cbit = [0] * n_cbit
+        prob_cbit = [1] * n_cbit
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
-- 
2.43.0

