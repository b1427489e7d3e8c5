From 82283abbcaab9ff4f9289f594bc4b6afa61c6cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 01/29] hook: allow a simulated GPU execution space
 (EKAT_SIM_GPU_SPACE, off by default)

---
 src/kokkos/ekat_kokkos_types.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kokkos/ekat_kokkos_types.hpp b/src/kokkos/ekat_kokkos_types.hpp
index e0d3720..fcb4e80 100644
--- a/src/kokkos/ekat_kokkos_types.hpp
+++ b/src/kokkos/ekat_kokkos_types.hpp
@@ -20,6 +20,9 @@ using EkatGpuSpace = Kokkos::Cuda;
 using EkatGpuSpace = Kokkos::HIP;
 # elif defined KOKKOS_ENABLE_SYCL
 using EkatGpuSpace = Kokkos::SYCL;
+# elif defined EKAT_SIM_GPU_SPACE
+// A simulated GPU space, for deterministic simulation (never defined by EKAT's build system)
+using EkatGpuSpace = EKAT_SIM_GPU_SPACE;
 #endif
 
 template <>
-- 
2.43.0


From e2cf33a4d3ea495b587217d6065ed5e0860e184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 02/29] fix: make WorkspaceManager::report compile in debug
 builds

---
 src/kokkos/ekat_workspace_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..8771f31 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -86,6 +86,7 @@ void WorkspaceManager<T, D>::report() const
   std::cout << "\nWS deep analysis" << std::endl;
   struct Data {
     int used, takes, releases;
+    Data () : Data(0,0,0) {}
     Data (int u, int t, int r) : used(u), takes(t), releases(r) {}
   };
   std::map<std::string, Data> ws_usage_map;
-- 
2.43.0


From 76d7f8c62d0b185b74bad245a8c193056ebc5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 03/29] fix: take_many_and_reset must reset the metadata of
 every sub-block

Only the sub-blocks left free had theirs reset, starting from the wrong
one, so after out-of-order releases or a macro block the list of free
sub-blocks (and in debug builds the index of the taken ones) was wrong.
---
 src/kokkos/ekat_workspace_impl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 8771f31..04e4a28 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -444,11 +444,13 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata of all the spaces: those of the N taken here may have been
+  // relinked by previous releases, or overwritten by the user of a macro block.
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
+  m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
     m_next_slot = N;
-- 
2.43.0


From 6be97d3c4ae4bc3fcf278eac0e8ed3adbfc075f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 04/29] fix: reset_internals must reset the next free sub-block
 and the usage count

The index of the next free sub-block was only reset in debug builds, and
the number of sub-blocks in use never was.
---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 04e4a28..73b3209 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -162,8 +162,9 @@ void WorkspaceManager<T, D>::reset_internals()
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
+  Kokkos::deep_copy(m_num_used, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From b1ea3c51fe9361afd3253e5eb50750123bb4fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 05/29] fix: releasing a group of sub-blocks must keep the
 other free ones in the list

release_many_contiguous and release_macro_block dropped the rest of the
list of free sub-blocks, and linked to the following ones instead, whether
free or not, unless the group was the last one taken.
---
 src/kokkos/ekat_workspace_impl.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 73b3209..6c1465b 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -630,6 +630,8 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    // The blocks go at the front of the list of free ones
+    m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
     m_next_slot = m_parent.get_index<S>(*ptrs[0]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
@@ -652,19 +654,24 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
-  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(space);
-
 #ifndef NDEBUG
-    change_indv_meta<S>(space, "", true);
+  change_indv_meta<S>(space, "", true);
 #endif
-  });
 
-  // Reset metadata
+  // Reset metadata, and put the blocks at the front of the list of free ones
+  const int first = m_parent.get_index<S>(space);
   m_team.team_barrier();
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+      m_parent.init_slot_metadata(m_ws_idx, first+i);
+      if (i == n_sub_blocks-1) {
+        m_parent.set_next_and_get_index<T>(m_parent.get_space_in_slot<T>(m_ws_idx, first+i), m_next_slot);
+      }
+  });
+
+  m_team.team_barrier();
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    m_next_slot = first;
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From 6ea98450887528495d929d5344ae20e582935dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 06/29] fix: keep the index in the random pool within its
 number of states

The pool has one state per concurrent thread, the league may be larger.
---
 src/kokkos/ekat_team_policy_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_team_policy_utils.hpp b/src/kokkos/ekat_team_policy_utils.hpp
index e97f440..74941dd 100644
--- a/src/kokkos/ekat_team_policy_utils.hpp
+++ b/src/kokkos/ekat_team_policy_utils.hpp
@@ -286,7 +286,7 @@ class TeamUtils<ValueType,EkatGpuSpace> : public TeamUtilsCommonBase<ValueType,E
       Kokkos::single(Kokkos::PerTeam(team_member), [&] (int& ws_idx) {
         ws_idx = team_member.league_rank() % _num_ws_slots;
         if ((flag_type) 0 != Kokkos::atomic_compare_exchange(&_open_ws_slots(ws_idx), (flag_type) 0, (flag_type) 1)) {
-          rnd_type rand_gen = _rand_pool.get_state(team_member.league_rank());
+          rnd_type rand_gen = _rand_pool.get_state(team_member.league_rank() % this->_max_threads);
           ws_idx = Kokkos::rand<rnd_type, int>::draw(rand_gen) % _num_ws_slots;
           while ((flag_type) 0 != Kokkos::atomic_compare_exchange(&_open_ws_slots(ws_idx), (flag_type) 0, (flag_type) 1))
             ws_idx = Kokkos::rand<rnd_type, int>::draw(rand_gen) % _num_ws_slots;
-- 
2.43.0


From 00d02191dd955ad9a4eac9fa9a18f5e5777f5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 07/29] fix: report failed MPI calls instead of ignoring their
 return codes

With EKAT_MPI_ERRORS_ARE_FATAL off, Comm sets MPI_ERRORS_RETURN but ignored
what the calls returned, so callers got undefined output without notice.
---
 src/core/ekat_comm.cpp | 20 ++++++++++++++------
 src/core/ekat_comm.hpp | 24 +++++++++++++++---------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/core/ekat_comm.cpp b/src/core/ekat_comm.cpp
index 74574b5..7269840 100644
--- a/src/core/ekat_comm.cpp
+++ b/src/core/ekat_comm.cpp
@@ -25,20 +25,20 @@ void Comm::reset_mpi_comm (MPI_Comm new_mpi_comm)
 
   m_mpi_comm = new_mpi_comm;
 
-  MPI_Comm_size(m_mpi_comm,&m_size);
-  MPI_Comm_rank(m_mpi_comm,&m_rank);
+  check_mpi_err(MPI_Comm_size(m_mpi_comm,&m_size),"MPI_Comm_size");
+  check_mpi_err(MPI_Comm_rank(m_mpi_comm,&m_rank),"MPI_Comm_rank");
 
 #ifdef EKAT_MPI_ERRORS_ARE_FATAL
-  MPI_Comm_set_errhandler(m_mpi_comm,MPI_ERRORS_ARE_FATAL);
+  check_mpi_err(MPI_Comm_set_errhandler(m_mpi_comm,MPI_ERRORS_ARE_FATAL),"MPI_Comm_set_errhandler");
 #else
-  MPI_Comm_set_errhandler(m_mpi_comm,MPI_ERRORS_RETURN);
+  check_mpi_err(MPI_Comm_set_errhandler(m_mpi_comm,MPI_ERRORS_RETURN),"MPI_Comm_set_errhandler");
 #endif
 }
 
 void Comm::barrier () const
 {
   check_mpi_inited();
-  MPI_Barrier(m_mpi_comm);
+  check_mpi_err(MPI_Barrier(m_mpi_comm),"MPI_Barrier");
 }
 
 Comm Comm::split (const int color) const
@@ -46,7 +46,7 @@ Comm Comm::split (const int color) const
   check_mpi_inited ();
 
   MPI_Comm new_comm;
-  MPI_Comm_split(m_mpi_comm,color,m_rank,&new_comm);
+  check_mpi_err(MPI_Comm_split(m_mpi_comm,color,m_rank,&new_comm),"MPI_Comm_split");
 
   return Comm(new_comm);
 }
@@ -58,6 +58,14 @@ void Comm::check_mpi_inited () const
   assert (flag!=0);
 }
 
+void Comm::check_mpi_err (const int ierr, const char* func_name)
+{
+  EKAT_REQUIRE_MSG (ierr==MPI_SUCCESS,
+      "Error! Something went wrong during an MPI call.\n"
+      "  - function: " << func_name << "\n"
+      "  - error code: " << ierr << "\n");
+}
+
 template<>
 MPI_Datatype get_mpi_type <char> () {
   return MPI_CHAR;
diff --git a/src/core/ekat_comm.hpp b/src/core/ekat_comm.hpp
index 553b468..f3ecd2c 100644
--- a/src/core/ekat_comm.hpp
+++ b/src/core/ekat_comm.hpp
@@ -113,6 +113,12 @@ private:
   // Checks (with an assert) that MPI is already init-ed.
   void check_mpi_inited () const;
 
+#ifdef EKAT_ENABLE_MPI
+  // Errors out if an MPI call failed (i.e., did not return MPI_SUCCESS). When MPI
+  // errors are not fatal, the content of the output args of a failed call is undefined.
+  static void check_mpi_err (const int ierr, const char* func_name);
+#endif
+
   MPI_Comm  m_mpi_comm;
 
   int       m_size;
@@ -129,7 +135,7 @@ void Comm::broadcast (T* vals, const int count, const int root) const
 {
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
-  MPI_Bcast(vals,count,get_mpi_type<T>(),root,m_mpi_comm);
+  check_mpi_err(MPI_Bcast(vals,count,get_mpi_type<T>(),root,m_mpi_comm),"MPI_Bcast");
 #else
   (void) vals;
   (void) count;
@@ -142,7 +148,7 @@ void Comm::scan (const T* my_vals, T* result, const int count, const MPI_Op op)
 {
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
-  MPI_Scan(my_vals,result,count,get_mpi_type<T>(),op,m_mpi_comm);
+  check_mpi_err(MPI_Scan(my_vals,result,count,get_mpi_type<T>(),op,m_mpi_comm),"MPI_Scan");
 #else
   std::copy(my_vals, my_vals + count, result);
   (void) op;
@@ -154,7 +160,7 @@ void Comm::all_reduce (const T* my_vals, T* result, const int count, const MPI_O
 {
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
-  MPI_Allreduce(my_vals,result,count,get_mpi_type<T>(),op,m_mpi_comm);
+  check_mpi_err(MPI_Allreduce(my_vals,result,count,get_mpi_type<T>(),op,m_mpi_comm),"MPI_Allreduce");
 #else
   std::copy(my_vals, my_vals + count, result);
   (void) op;
@@ -167,9 +173,9 @@ void Comm::all_gather (const T* my_vals, T* all_vals, const int count) const
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
   auto mpi_type = get_mpi_type<T>();
-  MPI_Allgather(my_vals, count,mpi_type,
+  check_mpi_err(MPI_Allgather(my_vals, count,mpi_type,
                 all_vals,count,mpi_type,
-                m_mpi_comm);
+                m_mpi_comm),"MPI_Allgather");
 #else
   std::copy(my_vals, my_vals + count, all_vals);
 #endif
@@ -180,7 +186,7 @@ void Comm::scan (T* inout_vals, const int count, const MPI_Op op) const
 {
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
-  MPI_Scan(MPI_IN_PLACE,inout_vals,count,get_mpi_type<T>(),op,m_mpi_comm);
+  check_mpi_err(MPI_Scan(MPI_IN_PLACE,inout_vals,count,get_mpi_type<T>(),op,m_mpi_comm),"MPI_Scan");
 #else
   (void) inout_vals;
   (void) count;
@@ -193,7 +199,7 @@ void Comm::all_reduce (T* inout_vals, const int count, const MPI_Op op) const
 {
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
-  MPI_Allreduce(MPI_IN_PLACE,inout_vals,count,get_mpi_type<T>(),op,m_mpi_comm);
+  check_mpi_err(MPI_Allreduce(MPI_IN_PLACE,inout_vals,count,get_mpi_type<T>(),op,m_mpi_comm),"MPI_Allreduce");
 #else
   (void) inout_vals;
   (void) count;
@@ -207,9 +213,9 @@ void Comm::all_gather (T* inout_vals, const int count) const
 #ifdef EKAT_ENABLE_MPI
   check_mpi_inited();
   auto mpi_type = get_mpi_type<T>();
-  MPI_Allgather(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
+  check_mpi_err(MPI_Allgather(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                 inout_vals,count,mpi_type,
-                m_mpi_comm);
+                m_mpi_comm),"MPI_Allgather");
 #else
   (void) inout_vals;
   (void) count;
-- 
2.43.0


From 62a34b8a7108d25d3b25a06ace83f54c6d27e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 08/29] fix: view_reduction over a range that lies within one
 pack counted it twice

---
 src/algorithm/ekat_reduction_utils.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..7c25328 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -108,6 +108,18 @@ auto view_reduction (const TeamMember& team,
     const int  pack_loop_begin   = (has_garbage_begin ? begin/N + 1 : begin/N);
     const int  pack_loop_end     = end/N;
 
+    // If the range starts and ends within the same pack, there are no complete packs to
+    // reduce, and the first and last pack must not be both added.
+    if (begin/N == end/N) {
+      if (begin < end) {
+        const PackType temp_input = input(begin/N);
+        for (int j=begin%N; j<end%N; ++j) {
+          result += temp_input[j];
+        }
+      }
+      return result;
+    }
+
     // If first pack has garbage, we will not include it in the below reduction,
     // so manually add the first pack (only the non-garbage part)
     if (has_garbage_begin) {
-- 
2.43.0


From 6bec9a0fedf72f3f8939af2071e5ac41b28bdfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 09/29] fix: a rank silenced by the MPI policy must not log
 after a change of level

---
 src/logging/ekat_logger.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 3e37bce..7174f86 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -78,6 +78,9 @@ protected:
 
   std::string logfile_name;
 
+  // Whether the MPI policy allows this rank to produce output
+  bool can_log = true;
+
   LoggerBase (const std::string& log_name)
    : spdlog::logger(log_name)
    , logfile_name  ("")
@@ -108,7 +111,10 @@ public:
   const std::string& get_logfile_name () const { return logfile_name; }
 
   void set_log_level(const LogLevel lev) {
-    this->set_level(lev);
+    // A rank that must not log stays silent, whatever the level
+    if (can_log) {
+      this->set_level(lev);
+    }
   }
   void set_console_level(const LogLevel lev) {
     this->get_console_sink()->set_level(lev);
@@ -164,6 +170,7 @@ public:
 
     // Set the log level of logger as well as the sinks
     if (not MpiOutputPolicy::should_log(comm)) {
+      this->can_log = false;
       this->set_level(LogLevel::off);
     } else {
       this->set_level(log_level);
@@ -188,6 +195,7 @@ public:
     // Only set the level of the logger. Do *not* alter the sinks levels,
     // since you are "borrowing" them from another logger
     if (not MpiOutputPolicy::should_log(comm)) {
+      this->can_log = false;
       this->set_level(LogLevel::off);
     } else {
       this->set_level(log_level);
-- 
2.43.0


From 760f0aeaada83a4354ec5a4aa449859899155cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:32 +0000
Subject: [PATCH 10/29] fix: ParameterList keeps no empty or partial entry when
 a copy fails

set(), sublist(), assignment and import() added an empty entry to the map
before copying the value in: if that copy threw, a parameter (or sublist)
that was never set stayed in the list.
---
 src/core/ekat_parameter_list.cpp | 26 +++++++++++++++++---------
 src/core/ekat_parameter_list.hpp |  7 ++++++-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..8618ea2 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -23,22 +23,18 @@ ParameterList& ParameterList::operator= (const ParameterList& src)
   if (this!=&src) {
     m_name = src.m_name;
     for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
+      m_params.insert_or_assign(name,p);
     }
 
     for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
+      set_sublist(name,sl);
     }
   }
   return *this;
 }
 
 ParameterList& ParameterList::sublist (const std::string& name) {
-  if (m_sublists.find(name)==m_sublists.end()) {
-    ParameterList p(name);
-    m_sublists[name] = p;
-  }
-  return m_sublists[name];
+  return m_sublists.try_emplace(name,name).first->second;
 }
 
 void ParameterList::print(std::ostream& out, const int indent, const int indent_inc) const {
@@ -73,10 +69,22 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 void ParameterList::import (const ParameterList& src)
 {
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    set_sublist(name,sl);
   }
   for (const auto& [name,p] : src.m_params) {
-    m_params[name] = p;
+    m_params.insert_or_assign(name,p);
+  }
+}
+
+void ParameterList::set_sublist (const std::string& name, const ParameterList& src)
+{
+  // Copy a new entry before adding it, so that a failing copy does not
+  // leave an empty (or partial) sublist in this list
+  auto it = m_sublists.find(name);
+  if (it==m_sublists.end()) {
+    m_sublists.emplace(name,src);
+  } else {
+    it->second = src;
   }
 }
 
diff --git a/src/core/ekat_parameter_list.hpp b/src/core/ekat_parameter_list.hpp
index 7b37af2..f9215a6 100644
--- a/src/core/ekat_parameter_list.hpp
+++ b/src/core/ekat_parameter_list.hpp
@@ -87,6 +87,9 @@ public:
 
 private:
 
+  // Adds a copy of src as a sublist, or assigns it to the existing one
+  void set_sublist (const std::string& name, const ParameterList& src);
+
   std::string                           m_name;
   std::map<std::string,std::any>        m_params;
   std::map<std::string,ParameterList>   m_sublists;
@@ -149,7 +152,9 @@ inline T& ParameterList::get (const std::string& name, const T& def_value) {
 
 template<typename T>
 inline void ParameterList::set (const std::string& name, const T& value) {
-  m_params[name] = value;
+  // Copy the value before adding an entry, so that a failing copy
+  // does not leave an empty entry in the list
+  m_params.insert_or_assign(name,std::any(value));
 }
 
 template<typename T>
-- 
2.43.0


From f62348dec35c7bd5f98f3b27d061d0c32b0ef821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:01 +0000
Subject: [PATCH 11/29] fix: write_yaml_file does not clip zeros of a double's
 exponent

1e20 was written as 1.0e+2.
---
 src/parser/ekat_yaml.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..4112e90 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -4,6 +4,7 @@
 
 #include <yaml-cpp/yaml.h>
 
+#include <algorithm>
 #include <sstream>
 #include <fstream>
 #include <iomanip>
@@ -253,19 +254,25 @@ template<>
 std::string write_param<double> (const double& d) {
   std::stringstream ss;
   ss << std::showpoint << std::setprecision(14) << d;
-  if (d==static_cast<int>(d) and ss.str().find('.')==std::string::npos) {
-    ss << ".0";
+
+  auto s = ss.str();
+  if (s.find('.')==std::string::npos) {
+    return s; // inf or nan
   }
 
+  // Split mantissa and exponent (if any), so we only clip zeros of the former
+  auto exp_start = std::min(s.find('e'),s.size());
+  auto exponent = s.substr(exp_start);
+  s.resize(exp_start);
+
   // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
-  auto s = ss.str();
-  auto start = s.find('.');
-  auto last_nnz = s.substr(start+2).find_last_not_of('0');
-  if (last_nnz==std::string::npos) {
-    // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+  if (s.back()=='.') {
+    s += '0';
   }
-  return s.substr(0,start+2+last_nnz+1);
+  auto start = s.find('.');
+  auto last_nnz = s.find_last_not_of('0');
+  s.resize(std::max(last_nnz,start+1)+1);
+  return s + exponent;
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From 599547551bfd20f436e603dc1245fb4e284816c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 12/29] fix: YAML strings that look like numbers or bools stay
 strings

write_yaml_file wrote the strings "5", "true", "1e5" without quotes, so they
were read back as numbers or bools (and "--5" could not be read at all). The
reader ignored quotes of sequence entries, turning ["1", "2"] into integers.
---
 src/parser/ekat_yaml.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 4112e90..501394a 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -30,11 +30,8 @@ bool is_type<bool> (const std::string& s) {
 template<>
 bool is_type<int> (const std::string& s) {
   if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
-  }
-
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  const size_t start = s[0]=='-' ? 1 : 0;
+  return s.size()>start and s.find_first_not_of("0123456789",start)==std::string::npos;
 }
 
 template<>
@@ -81,7 +78,12 @@ template<typename T>
 bool is_seq (const YAML::Node& node) {
   int n = node.size();
   for (int i=0; i<n; ++i) {
-    std::string str = node[i].as<std::string>();
+    const auto str = node[i].as<std::string>();
+    const auto& tag = node[i].Tag();
+    if (tag=="!" or tag=="!!str" or tag=="tag:yaml.org,2002:str") {
+      // A quoted/tagged string is a string, even if it looks like something else
+      return false;
+    }
     if (not is_type<T>(str)) {
       return false;
     }
@@ -279,6 +281,14 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// Strings need quotes if the parser would otherwise interpret them as another type
+void emit_string (YAML::Emitter& out, const std::string& s) {
+  if (is_type<bool>(s) or is_type<int>(s) or is_type<double>(s)) {
+    out << YAML::DoubleQuoted;
+  }
+  out << s;
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -296,7 +306,7 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
       out << YAML::Key << pname << YAML::Value;
       if (v.find('\n') != std::string::npos)
         out << YAML::Literal; // Use Literal for multiline
-      out << v;
+      emit_string(out,v);
     } else {
       // No match
       return false;
@@ -356,7 +366,9 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     write(ivec);
     write(cvec);
     write(dvec);
-    write(svec);
+    for (const auto& e : svec) {
+      emit_string(out,e);
+    }
     out << YAML::EndSeq;
     return true;
   };
-- 
2.43.0


From 0802048d1b19f0b408bd2ddde04dac972de07767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 13/29] fix: multi-line YAML strings keep their whitespace

The literal style ends with exactly one newline and takes its indentation from
its first line: "a\nb" was read back as "a\nb\n", and a leading blank gave a
file that could not be read.
---
 src/parser/ekat_yaml.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 501394a..f9a30eb 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -281,9 +281,21 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
-// Strings need quotes if the parser would otherwise interpret them as another type
+// Strings need quotes if the parser would otherwise interpret them as another type.
+// Multiline strings use the literal style, unless that would alter their whitespace
+// (a literal ends with exactly one newline, and its first line sets the indentation).
 void emit_string (YAML::Emitter& out, const std::string& s) {
-  if (is_type<bool>(s) or is_type<int>(s) or is_type<double>(s)) {
+  if (s.find('\n')!=std::string::npos) {
+    const auto last = s.find_last_not_of('\n');
+    const bool literal = last!=std::string::npos and last+2==s.size() and
+                         std::string(" \t\n").find(s[0])==std::string::npos and
+                         s.find('\r')==std::string::npos;
+    if (literal) {
+      out << YAML::Literal;
+    } else {
+      out << YAML::DoubleQuoted;
+    }
+  } else if (is_type<bool>(s) or is_type<int>(s) or is_type<double>(s)) {
     out << YAML::DoubleQuoted;
   }
   out << s;
@@ -304,8 +316,6 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
-        out << YAML::Literal; // Use Literal for multiline
       emit_string(out,v);
     } else {
       // No match
-- 
2.43.0


From e1cf2382b11b23fafd56205326ba8a978f837be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:07 +0000
Subject: [PATCH 14/29] fix: write_yaml_file reports files it could not write
 completely

Errors while writing (a full disk) went unnoticed, and a failed allocation inside
a string stream silently truncated or mistyped a value.
---
 src/parser/ekat_yaml.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index f9a30eb..1784c06 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -37,6 +37,7 @@ bool is_type<int> (const std::string& s) {
 template<>
 bool is_type<double> (const std::string& s) {
   std::istringstream is(s);
+  is.exceptions(std::ios::badbit); // Streams would otherwise hide a failed allocation
   double d;
   is >> d;
   return !is.fail() && is.eof();
@@ -248,6 +249,7 @@ void parse_yaml_file (const std::string& fname, ParameterList& params) {
 template<typename T>
 std::string write_param (const T& t) {
   std::stringstream s;
+  s.exceptions(std::ios::badbit); // Streams would otherwise hide a failed allocation
   s << std::boolalpha << t;
   return s.str();
 }
@@ -255,6 +257,7 @@ std::string write_param (const T& t) {
 template<>
 std::string write_param<double> (const double& d) {
   std::stringstream ss;
+  ss.exceptions(std::ios::badbit); // Streams would otherwise hide a failed allocation
   ss << std::showpoint << std::setprecision(14) << d;
 
   auto s = ss.str();
@@ -422,6 +425,12 @@ void write_yaml_file (const std::string& fname, const ParameterList& params) {
         << "---\n"
         << out.c_str() << "\n"
         << "...\n";
+
+  // Closing flushes the stream, so only then we know whether all was written
+  ofile.close();
+  EKAT_REQUIRE_MSG (not ofile.fail(),
+      "Error! Something went wrong while writing to file.\n"
+      " - file name: " + fname + "\n");
 }
 
 } // namespace ekat
-- 
2.43.0


From a9f37274238b72a5184a22fb5e9a592047a1e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 15/29] fix: read "True" in a YAML sequence of bools as true

Any case is accepted for bools, but in sequences all but "true" and "TRUE"
were read as false.
---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 1784c06..afec71f 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -58,7 +58,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From cbeb96de799b2c39173393673604e1fbfd52cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 16/29] fix: parse_yaml_file leaves the list alone if it runs
 out of memory

The list was assigned to entry by entry; it is now replaced at the end, when
nothing can fail any more.
---
 src/core/ekat_parameter_list.cpp | 7 +++++++
 src/core/ekat_parameter_list.hpp | 3 +++
 src/parser/ekat_yaml.cpp         | 6 +++++-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index 8618ea2..e4c4443 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -66,6 +66,13 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
   }
 }
 
+void ParameterList::swap (ParameterList& other) noexcept
+{
+  m_name.swap(other.m_name);
+  m_params.swap(other.m_params);
+  m_sublists.swap(other.m_sublists);
+}
+
 void ParameterList::import (const ParameterList& src)
 {
   for (const auto& [name,sl] : src.m_sublists) {
diff --git a/src/core/ekat_parameter_list.hpp b/src/core/ekat_parameter_list.hpp
index f9215a6..c56bd4e 100644
--- a/src/core/ekat_parameter_list.hpp
+++ b/src/core/ekat_parameter_list.hpp
@@ -79,6 +79,9 @@ public:
   //       will get a message informing you of the lack of op<< overload.
   void print (std::ostream& out = std::cout, const int indent = 0, const int indent_inc = 1) const;
 
+  // Exchange name and content with another list
+  void swap (ParameterList& other) noexcept;
+
   // Add content of src into *this. Existing items will be overwritten.
   void import (const ParameterList& src);
 
diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index afec71f..cae6ebf 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -237,7 +237,11 @@ void parse_yaml_file (const std::string& fname, ParameterList& params) {
   }
   ParameterList temp(params.name());
   parse_node<YAML::NodeType::Map> (root, temp.name(), temp);
-  params = temp.sublist(params.name());
+
+  // Only modify the input list once nothing can go wrong
+  ParameterList result(params);
+  result = temp.sublist(params.name());
+  params.swap(result);
 }
 
 // =============================== WRITE ============================ //
-- 
2.43.0


From d8cc74bf04eba7c96e4b8e64a11d5522bc03fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 17/29] fix: set the factory's name once, at construction

instance() assigned the (static) name at every call, so that threads getting the
factory for the first time together raced on it.
---
 src/core/ekat_factory.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/core/ekat_factory.hpp b/src/core/ekat_factory.hpp
index 1803150..541f0ee 100644
--- a/src/core/ekat_factory.hpp
+++ b/src/core/ekat_factory.hpp
@@ -35,9 +35,6 @@ public:
   {
     static factory_type factory;
 
-    // We rely on whatever the implementation can give us
-    factory.m_factory_name = typeid(factory_type).name();
-
     return factory;
   }
 
@@ -45,7 +42,7 @@ public:
   size_t register_size () const { return m_register.size(); }
 
   // Return the name of the factory
-  static const std::string& name () { return m_factory_name; }
+  static const std::string& name () { return instance().m_factory_name; }
 
   // Register a creator and returns true if it was successfully registered
   bool register_product (const key_type& key,
@@ -82,22 +79,18 @@ private:
            "          We have no idea how to print the registered products, so we just print this message. Sorry.\n";
   }
 
-  Factory () = default;
+  // For the name, we rely on whatever the implementation can give us.
+  // Set it only here, since several threads may call instance() concurrently.
+  Factory () : m_factory_name(typeid(factory_type).name()) {}
   Factory (const factory_type&) = delete;
   factory_type& operator= (const factory_type&) = delete;
   Factory (factory_type&&) = delete;
   factory_type& operator= (factory_type&&) = delete;
 
   register_type         m_register;
-  static std::string    m_factory_name;
+  std::string           m_factory_name;
 };
 
-template<typename AbstractProduct,
-         typename KeyType,
-         typename PointerType,
-         typename... ConstructorArgs>
-std::string Factory<AbstractProduct,KeyType,PointerType,ConstructorArgs...>::m_factory_name;
-
 // ========================== IMPLEMENTATION ======================== //
 
 template<typename AbstractProduct,
-- 
2.43.0


From 41ba54d64d2ac0991c19c4bca85b01cabc817c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:14 +0000
Subject: [PATCH 18/29] fix: include <cfenv> where the default test session
 names FP exceptions

With EKAT_ENABLE_FPE_DEFAULT_MASK the file uses FE_DIVBYZERO and friends
without including the header that defines them, and does not compile.
---
 src/testing-support/ekat_test_session.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/testing-support/ekat_test_session.cpp b/src/testing-support/ekat_test_session.cpp
index c751d18..51d298b 100644
--- a/src/testing-support/ekat_test_session.cpp
+++ b/src/testing-support/ekat_test_session.cpp
@@ -5,6 +5,9 @@
 #include "ekat_fpe.hpp"
 #include "ekat_arch.hpp"
 
+#include <cfenv>
+#include <cstdio>
+
 void ekat_initialize_test_session (int argc, char** argv, const bool print_config) {
 #ifdef EKAT_HAS_KOKKOS
   ekat::initialize_kokkos_session (argc,argv,print_config);
-- 
2.43.0


From 0e60454a2ccec8cbc878f1155e7be14c8c1183ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 19/29] fix: test-launcher passes the executable's arguments on
 unchanged

The arguments were joined with blanks into a shell command, so that one with
blanks, quotes or other characters special to the shell arrived as something
else. Quote them.
---
 bin/test-launcher | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/test-launcher b/bin/test-launcher
index eaf5e74..7f65deb 100755
--- a/bin/test-launcher
+++ b/bin/test-launcher
@@ -1,6 +1,6 @@
 #!/usr/bin/env python3
 
-import argparse, pathlib, os, sys, subprocess
+import argparse, pathlib, os, shlex, sys, subprocess
 
 ###############################################################################
 def expect(condition, error_msg, exc_type=SystemExit, error_prefix="ERROR:"):
@@ -169,7 +169,7 @@ def run_test(buffer_output,print_omp_affinity,exec_args):
     else:
         print ("EKAT is not managing resources.")
 
-    cmd += " {}".format(" ".join(exec_args[1:]))
+    cmd += " {}".format(shlex.join(exec_args[1:]))
 
     if buffer_output:
         stat, out = run_cmd_buff(cmd, env)
-- 
2.43.0


From 3b991edfedd806e048d11a651c86ac77fc1cfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 20/29] fix: ViewBroadcast reports a source view it cannot
 represent

Only the data pointer of the source was kept, with the layout of ToView, so a
strided subview, or a source of another layout, gave the wrong elements.
---
 src/kokkos/ekat_view_broadcast.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..cf14123 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -2,6 +2,7 @@
 #define EKAT_BROADCAST_VIEW_HPP
 
 #include "ekat_kokkos_meta.hpp"
+#include "ekat_kernel_assert.hpp"
 #include "ekat_assert.hpp"
 
 namespace ekat {
@@ -79,6 +80,16 @@ public:
         "Error! Too many positive extents in input vector.\n");
 
     m_view_impl = view_type(from_v.data(),impl_layout);
+
+    // We only use the data pointer of from_v, so its entries must be stored
+    // where m_view_impl looks for them (e.g., no gaps in between)
+    for (int i=0, ifr=0; i<to_rank; ++i) {
+      if (m_coeff[i]==1) {
+        EKAT_REQUIRE_MSG (m_shape[i]<=1 or m_view_impl.stride(i)==from_v.stride(ifr),
+            "[ViewBroadcast] Error! The input view is not contiguous, or its layout is not compatible with ToView.\n");
+        ++ifr;
+      }
+    }
   }
 
   KOKKOS_INLINE_FUNCTION
-- 
2.43.0


From 8e4c991e0c51376a960eaf5a3db5df6fe6e382a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 21/29] fix: EkatCreateUnitTestWithAsserts finds the generated
 sources of files with several dots

---
 cmake/EkatCreateUnitTestWithAsserts.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake/EkatCreateUnitTestWithAsserts.cmake b/cmake/EkatCreateUnitTestWithAsserts.cmake
index 81b57b6..c652d31 100644
--- a/cmake/EkatCreateUnitTestWithAsserts.cmake
+++ b/cmake/EkatCreateUnitTestWithAsserts.cmake
@@ -48,7 +48,7 @@ function(EkatCreateUnitTestWithAsserts test_base_name test_meta_src)
   configure_file (${CMAKE_CURRENT_SOURCE_DIR}/${test_meta_src}
                   ${CMAKE_CURRENT_BINARY_DIR}/${test_meta_src}.bkp)
 
-  get_filename_component(base_src ${test_meta_src} NAME_WE)
+  get_filename_component(base_src ${test_meta_src} NAME_WLE)
 
   # First, the unit test with *all* occurrences of EKAT_EXPECT_ASSERT_FAIL
   # stripped, which is *not* supposed to fail
-- 
2.43.0


From 2fe8309fb6ec96f42e3d3cb9f5d698e592a8cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 22/29] fix: gen_assert_test_src.py generates the base test of
 a source without marked lines

---
 cmake/gen_assert_test_src.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cmake/gen_assert_test_src.py b/cmake/gen_assert_test_src.py
index 8008f6e..729ce86 100755
--- a/cmake/gen_assert_test_src.py
+++ b/cmake/gen_assert_test_src.py
@@ -32,8 +32,6 @@ def create_sources (meta_src, output_dir):
         lines = [line.rstrip() for line in f]
 
     num_asserts = len([l for l in lines if key in l])
-    if num_asserts==0:
-        return 0
 
     # First, a version of the test without *any* EKAT_EXPECT_ASSERT_FAIL line
     f_out = pathlib.Path(output_dir) / f"{f_in.stem}.cpp"
-- 
2.43.0


From 815ace6c3540ae1eeca872b5b22daee1bc2817e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 23/29] fix: EkatConfigFile ignored AT_ONLY for the configured
 header

---
 cmake/EkatUtils.cmake | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 59eef50..4b60bb3 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -86,7 +86,11 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
   if (OUT_OF_DATE)
 
     # Run the configure macro
-    configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
+    if (EKAT_CONFIGURE_FILE_AT_ONLY)
+      configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C} @ONLY)
+    else()
+      configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
+    endif()
 
     if (EKAT_CONFIGURE_FILE_F90_FILE)
       # run sed to change '/*...*/' comments into '!/*...*/'
-- 
2.43.0


From 216ee666cdb4cad9e49f4a41c5b6561daccfff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 24/29] fix: EkatConfigFile lost one of its two comment
 translations

---
 cmake/EkatUtils.cmake | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 4b60bb3..71f0ebe 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -93,14 +93,8 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
     endif()
 
     if (EKAT_CONFIGURE_FILE_F90_FILE)
-      # run sed to change '/*...*/' comments into '!/*...*/'
-      execute_process(COMMAND sed "s;^/;!/;g"
-                      WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
-                      INPUT_FILE ${CONFIG_FILE_C}
-                      OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
-
-      # do the same for '//...' comments (turn them into '! ...'
-      execute_process(COMMAND sed "s;^//;!;g"
+      # run sed to change '//...' comments into '! ...', and '/*...*/' comments into '!/*...*/'
+      execute_process(COMMAND sed -e "s;^//;!;" -e "s;^/;!/;"
                       WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
                       INPUT_FILE ${CONFIG_FILE_C}
                       OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
-- 
2.43.0


From 60bbd8b26f1ff2d061cfbe9c5fee9ebcc91d0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 25/29] fix: EkatConfigFile left Fortran files stale or
 incomplete

---
 cmake/EkatUtils.cmake | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmake/EkatUtils.cmake b/cmake/EkatUtils.cmake
index 71f0ebe..661db7b 100644
--- a/cmake/EkatUtils.cmake
+++ b/cmake/EkatUtils.cmake
@@ -91,14 +91,28 @@ macro (EkatConfigFile CONFIG_FILE_IN CONFIG_FILE_C)
     else()
       configure_file (${CONFIG_FILE_IN} ${CONFIG_FILE_C})
     endif()
+  endif()
 
-    if (EKAT_CONFIGURE_FILE_F90_FILE)
-      # run sed to change '//...' comments into '! ...', and '/*...*/' comments into '!/*...*/'
-      execute_process(COMMAND sed -e "s;^//;!;" -e "s;^/;!/;"
+  # The F90 file may be out of date even if the C one is not, e.g., if a previous configuration did not complete.
+  # So always generate it, but only touch it if its content would change.
+  if (EKAT_CONFIGURE_FILE_F90_FILE)
+    # run sed to change '//...' comments into '! ...', and '/*...*/' comments into '!/*...*/'
+    execute_process(COMMAND sed -e "s;^//;!;" -e "s;^/;!/;"
+                    WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
+                    INPUT_FILE ${CONFIG_FILE_C}
+                    OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE}.tmp
+                    RESULT_VARIABLE EKAT_CONFIGURE_FILE_RESULT)
+    if (EKAT_CONFIGURE_FILE_RESULT EQUAL 0)
+      execute_process(COMMAND ${CMAKE_COMMAND} -E copy_if_different
+                              ${EKAT_CONFIGURE_FILE_F90_FILE}.tmp ${EKAT_CONFIGURE_FILE_F90_FILE}
                       WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
-                      INPUT_FILE ${CONFIG_FILE_C}
-                      OUTPUT_FILE ${EKAT_CONFIGURE_FILE_F90_FILE})
+                      RESULT_VARIABLE EKAT_CONFIGURE_FILE_RESULT)
+    endif()
+    if (NOT EKAT_CONFIGURE_FILE_RESULT EQUAL 0)
+      message (FATAL_ERROR "Error! Could not generate ${EKAT_CONFIGURE_FILE_F90_FILE} (${EKAT_CONFIGURE_FILE_RESULT}).")
     endif()
+    execute_process(COMMAND ${CMAKE_COMMAND} -E remove ${EKAT_CONFIGURE_FILE_F90_FILE}.tmp
+                    WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR})
   endif()
 
 endmacro (EkatConfigFile)
-- 
2.43.0


From e921d58355f1ca1294482475fbf3d7d6b743f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 26/29] fix: Workspace::print() went past the end of the list
 of free spaces

---
 src/kokkos/ekat_workspace_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 6c1465b..cf4ab02 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -511,13 +511,13 @@ void WorkspaceManager<T, D>::Workspace::print() const
     Kokkos::PerTeam(m_team), [&] () {
       std::stringstream ss;
       ss << m_ws_idx << ":";
-      auto space = m_parent.get_space_in_slot<T>(m_ws_idx, m_next_slot);
-      for (int cnt = 0, nmax = m_parent.m_max_used;
-           cnt < nmax;
+      // The list ends after at most m_max_used spaces: there is none in slot m_max_used
+      for (int cnt = 0, slot = m_next_slot, nmax = m_parent.m_max_used;
+           cnt < nmax && slot < nmax;
            ++cnt) {
-        ss << " (" << m_parent.get_index<T>(space) << ", "
-           << m_parent.get_next<T>(space) << ")";
-        space = m_parent.get_space_in_slot<T>(m_ws_idx, m_parent.get_next<T>(space));
+        const auto space = m_parent.get_space_in_slot<T>(m_ws_idx, slot);
+        slot = m_parent.get_next<T>(space);
+        ss << " (" << m_parent.get_index<T>(space) << ", " << slot << ")";
       }
       ss << "\n";
       std::cout << ss.str();
-- 
2.43.0


From be731f84ad9c450fa90b0085d9c1802f6adc8925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 27/29] fix: importing or assigning a sublist of a
 ParameterList added entries the source did not have

---
 src/core/ekat_parameter_list.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index e4c4443..8c6e8f2 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -14,19 +14,23 @@ ParameterList (const ParameterList& src)
   }
 
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    m_sublists.emplace(name,sl);
   }
 }
 
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
   if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
+    // Copy src first: it may be a sublist of this list (or contain it),
+    // and would then change while we add its entries to this list
+    const ParameterList tmp(src);
+
+    m_name = tmp.m_name;
+    for (const auto& [name,p] : tmp.m_params) {
       m_params.insert_or_assign(name,p);
     }
 
-    for (const auto& [name,sl] : src.m_sublists) {
+    for (const auto& [name,sl] : tmp.m_sublists) {
       set_sublist(name,sl);
     }
   }
@@ -75,10 +79,13 @@ void ParameterList::swap (ParameterList& other) noexcept
 
 void ParameterList::import (const ParameterList& src)
 {
-  for (const auto& [name,sl] : src.m_sublists) {
+  // Copy src first, for the same reason as in operator=
+  const ParameterList tmp(src);
+
+  for (const auto& [name,sl] : tmp.m_sublists) {
     set_sublist(name,sl);
   }
-  for (const auto& [name,p] : src.m_params) {
+  for (const auto& [name,p] : tmp.m_params) {
     m_params.insert_or_assign(name,p);
   }
 }
-- 
2.43.0


From a52a92bb35049310fa06d1e892456c97a4bb8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:29 +0000
Subject: [PATCH 28/29] fix: the serial Thomas solvers assumed rows without
 padding

thomas_a1xm and thomas_amxm stepped from row to row by the number of
columns.  A contiguous-row view that is a subview of a wider array (for
instance, a range of its columns) has a larger row stride, and was solved
wrongly, with writes to the columns outside the view.  Step by each view's
own row stride.
---
 src/algorithm/ekat_tridiag.hpp | 50 ++++++++++++++++------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..8b211ea 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -229,23 +229,23 @@ void thomas_a1x1 (DT* const dl, DT* d, DT* const du, XT* X, const int nrow) {
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs, const int ldx) {
   for (int i = 1; i < nrow; ++i) {
     const auto dli = dl[i] / d[i-1];
     d[i] -= dli * du[i-1];
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] -= dli * xim1[j];
   }
   {
-    auto* const xi = X + (nrow-1)*nrhs;
+    auto* const xi = X + (nrow-1)*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= d[nrow-1];
   }
   for (int i = nrow-1; i > 0; --i) {
-    auto* const xim1 = X + (i-1)*nrhs;
-    auto* const xi = X + i*nrhs;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - du[i-1] * xi[j]) / d[i-1];
   }
@@ -254,16 +254,15 @@ void thomas_a1xm (DT* const dl, DT* d, DT* const du, XT* X,
 template <typename DT, typename XT>
 KOKKOS_INLINE_FUNCTION
 void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
-                  const int nrow, const int nrhs) {
+                  const int nrow, const int nrhs,
+                  const int lddl, const int ldd, const int lddu, const int ldx) {
   for (int i = 1; i < nrow; ++i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dli = dl + ios;
-    auto* const di = d + ios;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dli = dl + i*lddl;
+    auto* const di = d + i*ldd;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j) {
       const auto dlij = dli[j] / dim1[j];
       di[j] -= dlij * duim1[j];
@@ -271,19 +270,16 @@ void thomas_amxm (DT* const dl, DT* d, DT* const du, XT* X,
     }
   }
   {
-    const int ios = (nrow-1)*nrhs;
-    auto* const di = d + ios;
-    auto* const xi = X + ios;
+    auto* const di = d + (nrow-1)*ldd;
+    auto* const xi = X + (nrow-1)*ldx;
     for (int j = 0; j < nrhs; ++j)
       xi[j] /= di[j];
   }
   for (int i = nrow-1; i > 0; --i) {
-    const int ios = i*nrhs;
-    const int im1os = (i-1)*nrhs;
-    auto* const dim1 = d + im1os;
-    auto* const duim1 = du + im1os;
-    auto* const xim1 = X + im1os;
-    auto* const xi = X + ios;
+    auto* const dim1 = d + (i-1)*ldd;
+    auto* const duim1 = du + (i-1)*lddu;
+    auto* const xim1 = X + (i-1)*ldx;
+    auto* const xi = X + i*ldx;
     for (int j = 0; j < nrhs; ++j)
       xim1[j] = (xim1[j] - duim1[j] * xi[j]) / dim1[j];
   }
@@ -359,7 +355,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert( X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
   assert(du.extent_int(0) == nrow);
-  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_a1xm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    X.stride_0());
 }
 
 template <typename TridiagDiag, typename DataArray>
@@ -377,7 +374,8 @@ void thomas (TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
   assert(dl.extent_int(1) == nrhs);
   assert(d .extent_int(1) == nrhs);
   assert(du.extent_int(1) == nrhs);
-  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs);
+  impl::thomas_amxm(dl.data(), d.data(), du.data(), X.data(), nrow, nrhs,
+                    dl.stride_0(), d.stride_0(), du.stride_0(), X.stride_0());
 }
 
 // Cyclic reduction at the Kokkos team level. Any (thread, vector)
-- 
2.43.0


From 259fd172d7d9834ffb9a40369e34c1af779641a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:27 +0000
Subject: [PATCH 29/29] fix: WorkspaceManager::report() read host copies it had
 never filled

create_mirror_view only allocates: where the views' memory is not the
host's, the report of a debug build showed empty counters and names.
---
 src/kokkos/ekat_workspace_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index cf4ab02..a988770 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -72,10 +72,10 @@ void WorkspaceManager<T, D>::report() const
   EKAT_ASSERT_MSG (is_initialized, "Error! WorkspaceManager not yet inited.\n");
 
 #ifndef NDEBUG
-  auto host_num_used   = Kokkos::create_mirror_view(m_num_used);
-  auto host_high_water = Kokkos::create_mirror_view(m_high_water);
-  auto host_all_names  = Kokkos::create_mirror_view(m_all_names);
-  auto host_counts     = Kokkos::create_mirror_view(m_counts);
+  auto host_num_used   = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_num_used);
+  auto host_high_water = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_high_water);
+  auto host_all_names  = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_all_names);
+  auto host_counts     = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), m_counts);
 
   std::cout << "\nWS usage (capped at " << m_max_used << "): " << std::endl;
   for (int t = 0; t < m_max_ws_idx; ++t) {
-- 
2.43.0

